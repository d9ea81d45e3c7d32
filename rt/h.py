import subprocess, os, signal, select
from fractions import Fraction as Fr
from oracle import F
class Crash(Exception): pass
class H:
    def __init__(s, exe): s.exe=exe; s.p=None; s.log=[]
    def start(s):
        s.p=subprocess.Popen([s.exe],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,bufsize=1); s.log=[]
    def __call__(s, cmd, timeout=10):
        if s.p is None: s.start()
        s.log.append(cmd)
        try:
            s.p.stdin.write(cmd+"\n"); s.p.stdin.flush()
        except BrokenPipeError: pass
        r,_,_=select.select([s.p.stdout],[],[],timeout)
        if not r:
            s.close(); raise Crash("timeout: "+cmd)
        l=s.p.stdout.readline()
        if not l:
            s.p.wait(); rc=s.p.returncode; s.p=None; raise Crash("crash rc=%s: %s"%(rc,cmd))
        return l.rstrip("\n")
    def close(s):
        if s.p:
            s.p.kill(); s.p.wait(); s.p=None
    def put(s,n,f): return s("sig %s %s %s %d %s"%(n,num(f.b),num(f.e),len(f.p)," ".join("%s %s %s"%(num(t),num(v),num(d)) for t,v,d in f.p)))
def num(x): return repr(float(x))
def parse(l):
    w=l.split(); b,e,n=float(w[0]),float(w[1]),int(w[2]); v=[float(x) for x in w[3:]]
    if any(x!=x or x in (float('inf'),-float('inf')) for x in v+[b,e]): return None
    p=[tuple(v[3*i:3*i+3]) for i in range(n)]
    return (Fr(b),Fr(e),[tuple(Fr(x) for x in q) for q in p])
def toF(l):
    r=parse(l)
    if r is None: return None
    b,e,p=r
    if not p: return None
    f=F(p,b,e); return f

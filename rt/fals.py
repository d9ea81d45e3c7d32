"""Falsifier: runs the real compiled code against the exact rational oracle and reports concrete failing inputs.

python3 fals.py PROPERTY SHARD NSHARDS SEED TIER HARNESS OUT   (one process per shard; OUT gets a JSON result)
Bounded by construction; it never counts as proof.  A failure is confirmed in a fresh process before it is reported."""
import sys, os, json, time, random, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from oracle import *; from stl import *; from h import *
class Found(Exception):
    def __init__(s, what): s.what = what
class Fx:
    def __init__(s, exe, R, tier):
        s.h, s.R, s.tier = H(exe), R, tier; s.n = 0; s.kinds = {}; s.distinct = set(); s.samples = []; s.mark = 0; s.known = []; s._lite = None
    @property
    def lite(s):
        if s._lite is None: s._lite = s('lite') == '1'
        return s._lite
    def begin(s):
        if s.h.p is not None and len(s.h.log) > 20000: s.h.close()
        s.mark = len(s.h.log) if s.h.p is not None else 0
    def __call__(s, cmd): 
        if s.h.p is None: s.mark = 0
        return s.h(cmd)
    def count(s, kind, desc=None, nontrivial=True):
        s.n += 1; s.kinds[kind] = s.kinds.get(kind, 0) + 1
        if nontrivial: s.distinct.add(hash((kind, str(desc) if desc is not None else s.n)))
        if len(s.samples) < 4 and s.kinds[kind] == 1: s.samples.append({'kind': kind, 'commands': s.h.log[s.mark:][-6:]})
    def fail(s, what): raise Found(what)
    def ok(s, cond, what):
        if not cond: raise Found(what() if callable(what) else what)
    def put(s, n, f): return s.h.put(n, f) if s.h.p is not None else (s('geti'), s.h.put(n, f))[1]
def main():
    pid, shard, nsh, seed, tier, exe, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6], sys.argv[7]
    mod = importlib.import_module('cases')
    plan = mod.PLAN[pid]
    R = random.Random('%s/%d/%d' % (pid, seed, shard)); fx = Fx(exe, R, tier); t0 = time.time()
    cap = float(os.environ.get('VERIF_FALS_S', '30' if tier == 'quick' else '200')); found = None; sigs = []
    todo = []
    for name, fn, quick, thorough in plan:
        n = quick if tier == 'quick' else thorough
        todo.append([name, fn, max(1, n//nsh)])
    total = sum(t[2] for t in todo)
    i = 0
    def attempt(fn, k):
        fx.begin()
        try: fn(fx, k)
        except Found as f: return f.what
        except Crash as c: return 'the real code crashed or hung: %s' % c
        return None
    try:
        live = [t + [0] for t in todo]
        while live and found is None:
            for t in list(live):
                name, fn, n, k = t
                if k >= n or time.time() - t0 > cap: live.remove(t); continue
                st = R.getstate(); idx = shard + k*nsh
                what = attempt(fn, idx); t[3] += 1
                if what is not None:
                    cmds = fx.h.log[fx.mark:] if fx.h.log else []
                    # confirm in a fresh process, same random choices
                    fx.h.close(); R.setstate(st); fx.h = H(exe)
                    w2 = attempt(fn, idx)
                    c2 = list(fx.h.log)
                    if w2 is None: found = dict(case=name, what=what + ' [needs the preceding history: not reproduced in a fresh process]', commands=cmds)
                    else: found = dict(case=name, what=w2, commands=c2)
                    break
    except Exception as e:
        json.dump(dict(error=traceback.format_exc(), n=fx.n), open(out, 'w')); return
    finally: fx.h.close()
    json.dump(dict(n=fx.n, kinds=fx.kinds, distinct=len(fx.distinct), samples=fx.samples, found=found, wall=time.time() - t0, known=fx.known), open(out, 'w'))
if __name__ == '__main__': main()

"""Discharging obligations: each becomes an SMT-LIB query answered by z3 (5.3.2), then cvc5, then z3 on the unfolded definitions."""
import os, subprocess, sys, time, tempfile, hashlib, concurrent.futures as cf, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from z3 import *
from theory import *
import engine, exec as _x, expr
from expr import Expr, Contract, LoopC, Ctx
Z3NEW = 'z3-new'; CVC5 = 'cvc5'; RETRY = 60

def smt2(fs, goal):
    so = Solver()
    for f in fs: so.add(f)
    so.add(Not(goal))
    return so.to_smt2()
def build(eng, o):
    """(formulas after elimination, ground-lemma query, sizes)"""
    hy = eng.closure(o)
    hy += [g for t in walk(hy + [o['goal']]) if is_app(t) and t.decl().name() in ('SUPF', 'INFF') for g in unfold_sup(t)]
    fs = eliminate(hy + [o['goal']])
    inst, st, txt = instantiate(fs, pairs=False); st['hyps'] = len(hy); st['inst_'] = inst
    base = smt2(fs[:-1] + inst, fs[-1]); st['bare'] = base if st['pairs'] else None
    if st['pairs'] > 400: return fs, None, st          # the full query is large: it is written only if the small one is not enough
    if st['pairs']: base = base.replace('(check-sat)', instantiate(fs)[2] + '\n(check-sat)')
    return fs, base, st
def full(x):
    """the query with every lemma instance"""
    if x['q1'] is None: x['q1'] = x['st']['bare'].replace('(check-sat)', instantiate(x['fs'])[2] + '\n(check-sat)')
    return x['q1']
def run_solver(cmd, text, t):
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=t + 5)
        out = p.stdout.strip().split('\n')
        return out[0] if out else 'unknown', p.stdout
    except subprocess.TimeoutExpired: return 'timeout', ''
def z3cmd(t, *o): return [Z3NEW, '-in', '-T:%d' % t] + list(o)
def attempts(x, tmo):
    """the back ends tried in order; the definition query is built only when needed"""
    fs, q1, st = x['fs'], full(x), x['st']
    yield 'z3', z3cmd(tmo, 'smt.mbqi=false'), q1, tmo
    if st['bare']: yield 'z3 (fewer lemmas)', z3cmd(tmo, 'smt.mbqi=false'), st['bare'], tmo
    yield 'z3 (arith.solver=2)', z3cmd(tmo, 'smt.mbqi=false', 'smt.arith.solver=2', 'auto_config=false'), q1, tmo
    if st['lines'] or st['inst'] or 'NMUL' in q1 or 'FDIV' in q1:
        yield 'z3 (definitions)', z3cmd(tmo), smt2([unfold(h) for h in fs[:-1]], unfold(fs[-1])), tmo
    yield 'cvc5', [CVC5, '--lang=smt2', '--tlimit=%d' % (tmo*1000), '-'], '(set-logic ALL)\n' + q1, tmo
SEM = mp.get_context('fork').Semaphore(int(os.environ.get('VERIF_CORES', '0')) or os.cpu_count() or 4)
def one(plan):
    tried = []
    for be, cmd, text, t in plan:
        with SEM:
            a = time.time(); r, out = run_solver(cmd, text, t); tried.append((be, r, round(time.time() - a, 2)))
        if r == 'unsat': return be, tried
    return None, tried
def lookup(ix, con):
    fkey, _, ty = con.fnkey.partition('|')
    fn = None
    if con.destroy: return next((f for f in map(ix.dtor, ix.bases(con.this_type)) if f is not None), None)
    if fkey[0] == '@': return ix.method(con.this_type, fkey[1:])     # the override this class has
    if ty:
        for f in ix.overloads(fkey):
            if expr.norm(f.type) == expr.norm(ty): fn = f
    else: fn = ix.fn(fkey)
    return fn
def verify(ix, contracts, key, tmo=10, retry=None, only=None):
    """generate and discharge every obligation of one function"""
    con = contracts[key]; t0 = time.time(); retry = RETRY if retry is None else retry
    R = dict(key=key, obligations=0, trivial=0, discharged=0, by={}, solver_s=0.0, failed=[], used=[], inlined=[], loops=0, paths=0, error=None, slow=0.0)
    try:
        fn = lookup(ix, con)
        if fn is None or fn.body is None: raise engine.Annot('no definition of %s in the source' % con.key)
        R['file'] = fn.tu
        e = Expr(ix, contracts, con, fn); e.run()
    except engine.Unsupported as x:
        R['error'] = '%s: %s' % (type(x).__name__, x); R['gen_s'] = time.time() - t0; return R
    except (Z3Exception, KeyError, AttributeError, TypeError, IndexError, RecursionError, AssertionError, ValueError) as x:
        import traceback
        R['error'] = 'front end: %s: %s' % (type(x).__name__, x); R['trace'] = traceback.format_exc()[-1500:]; R['gen_s'] = time.time() - t0; return R
    seen = set(); R['trivial'] = e.trivial; todo = []
    for o in e.obls:
        if only and only not in o['name']: continue
        fs, q1, st = build(e, o)
        h = hashlib.sha1((q1 or st['bare']).encode()).hexdigest()
        if h in seen: continue
        seen.add(h); R['obligations'] += 1
        todo.append(dict(name=o['name'], fs=fs, q1=q1, st=st, path=''.join('TF'[not d] for d in o['path']), tried=[]))
    tg = time.time()
    def done(x, be, tried):
        x['tried'] += tried; d = sum(t for _, _, t in tried); R['solver_s'] += d; 
        if d > 3 or os.environ.get("ALLT"): R.setdefault('slows', []).append((x['name'], x['path'], tried))
        R['slow'] = max(R['slow'], d)
        if be: R['discharged'] += 1; R['by'][be] = R['by'].get(be, 0) + 1
        return be is not None
    # waves of queries, each answered concurrently; the texts are built here (z3's Python objects are not shared between threads)
    with cf.ThreadPoolExecutor(8) as T:
        for wave in range(4):
            if not todo: break
            t = tmo if wave < 3 else retry
            if wave == 0: plans = [[('z3', z3cmd(2, 'smt.mbqi=false'), x['q1'], 2)] if x['q1'] else [('z3 (fewer lemmas)', z3cmd(2, 'smt.mbqi=false'), x['st']['bare'], 2)] for x in todo]
            elif wave == 1: plans = [[('cvc5', [CVC5, '--lang=smt2', '--tlimit=2000', '-'], '(set-logic ALL)\n' + (x['q1'] or x['st']['bare']), 2)] + ([('z3 (fewer lemmas)', z3cmd(5, 'smt.mbqi=false'), x['st']['bare'], 5)] if x['st']['pairs'] > 400 else []) + [y[:1] + (z3cmd(2),) + y[2:3] + (2,) for y in attempts(x, t) if y[0] == 'z3 (definitions)'] + list(attempts(x, t))[:3] for x in todo]
            elif wave == 2: plans = [list(attempts(x, t))[3 if x['st']['bare'] else 2:] for x in todo]
            else:
                if not retry or len(todo) > 4: break
                plans = [list(attempts(x, t)) for x in todo]
            todo = [x for x, (be, tried) in zip(todo, T.map(one, plans)) if not done(x, be, tried)]
    R['failed'] += [dict(name=x['name'], path=x['path'], tried=x['tried'], smt=full(x)) for x in todo]
    # vacuity guards: the precondition, some way round each loop and some return must not be refutable
    groups = {}
    for lab, o in e.covers: groups.setdefault(lab, []).append(o)
    R['covers'] = 0
    for lab, os_ in groups.items():
        alive = False
        for o in os_:
            fs, q1, st = build(e, o)
            q1 = q1 or st['bare']
            if run_solver(z3cmd(2, 'smt.mbqi=false'), q1, 2)[0] != 'unsat': alive = True; break
        R['covers'] += 1
        if not alive: R['failed'].append(dict(name='%s / reachable: %s' % (key, lab), path='', tried=[], smt=q1))
    R.update(used=sorted(e.stats['contracts_used']), inlined=sorted(e.stats['inlined']), loops=len(e.stats['loops']), paths=e.stats['paths'], builtin=sorted(e.stats['builtin']), gen_s=tg - t0)
    return R
def lemmas(tmo=20, extra=()):
    R = dict(key='lemmas', obligations=0, trivial=0, discharged=0, by={}, solver_s=0.0, failed=[], used=[], inlined=[], loops=0, paths=0, error=None, slow=0.0, gen_s=0.0, covers=0)
    todo = [(nm, BoolVal(True), f) for nm, f in lemma_obligations()]
    for g in extra: todo += g()
    for nm, h, f in todo:
        q, u = smt2([h], f), smt2([unfold(h)], unfold(f)); a = time.time(); ok = None; tried = []
        for be, cmd, text in (('z3', z3cmd(5), q), ('z3 (definitions)', z3cmd(tmo), u), ('cvc5', [CVC5, '--lang=smt2', '--tlimit=%d' % (tmo*1000), '-'], '(set-logic ALL)\n' + u)):
            r, _ = run_solver(cmd, text, tmo); tried.append((be, r))
            if r == 'unsat': ok = be; break
        R['obligations'] += 1; R['solver_s'] += time.time() - a
        if ok: R['discharged'] += 1; R['by'][ok] = R['by'].get(ok, 0) + 1
        else: R['failed'].append(dict(name=nm, path='', tried=tried, smt=q))
    return R

"""Falsifier cases per property: each case draws an input, runs the real code and compares it with the exact oracle."""
from fals import *
TOL = 1e-6
def eq(a, b, tol=TOL): return abs(a - float(b)) <= tol*(1 + abs(float(b)))
# ------------------------------------------------------------------ generators
def rsig(R, n=None, b=None, cont=None, endsample=None, same=None):
    n = n or R.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    t = fr(b if b is not None else R.choice([0, 0, 0, 1, -1, 2])); ps = []
    cont = R.random() < .4 if cont is None else cont
    big = R.random() < .1; vals = [R.randint(-4, 4) for _ in range(2)]
    for i in range(n):
        v = Fr(R.choice(vals)) if R.random() < .3 else Fr(R.randint(-4, 4)) if not big else Fr(R.randint(-4000, 4000))
        d = Fr(R.randint(-3, 3)) if R.random() < .7 else Fr(0)
        if R.random() < .1: d = Fr(R.choice([-1, 1]), R.choice([2, 4]))
        if same is not None and R.random() < .4:        # coincide with the other signal now and then
            v = same(t) if same.b <= t <= same.e else v
            if R.random() < .5 and same.b <= t <= same.e: d = same.p[same.idx(t)][2]
        if cont and ps:
            q = ps[-1]; v = q[1] + q[2]*(t - q[0])
        ps.append((t, v, d)); t += Fr(R.randint(1, 4), R.choice([1, 1, 2, 4]))
    e = t
    if (R.random() < .5 if endsample is None else endsample):
        e = ps[-1][0]; ps[-1] = (ps[-1][0], ps[-1][1], Fr(0))
    return F(ps, ps[0][0], e)
def show(f): return "[%s,%s] %s" % (f.b, f.e, [(str(a), str(b), str(c)) for a, b, c in f.p])
def setsig(fx, n, f): fx("sig %s %s %s %d %s" % (n, num(f.b), num(f.e), len(f.p), " ".join("%s %s %s" % (num(t), num(v), num(d)) for t, v, d in f.p)))
def reset(fx): fx('interp LINEAR'); fx('sem SPACE'); fx('bigm 10000')
def wellformed(g): return all(a <= b for a, b in zip(g.ts, g.ts[1:]))
def chk(fx, kind, cmd, args, want, lo, hi, strict=True):
    if cmd.startswith('op c') and fx.lite: return None
    r = fx(cmd); fx.count(kind, (args, cmd.split()[0]))
    g = toF(r)
    fx.ok(g is not None and g.p, lambda: '%s %s: result is empty or not a number: %s' % (kind, args, r))
    ts = g.ts
    fx.ok(all(v - u >= -Fr(1, 10**9) for u, v in zip(ts, ts[1:])), lambda: '%s %s: sample times do not increase: %s' % (kind, args, r))
    fx.ok(eq(float(g.b), lo) and eq(float(g.e), hi), lambda: '%s %s: domain [%s,%s], expected [%s,%s]' % (kind, args, float(g.b), float(g.e), lo, hi))
    fx.ok(eq(float(ts[0]), lo), lambda: '%s %s: first sample at %s, expected %s' % (kind, args, float(ts[0]), lo))
    fx.ok(float(ts[-1]) <= float(hi) + TOL, lambda: '%s %s: sample after the end: %s' % (kind, args, r))
    d = diff(g, want, lo, hi, closed=True)
    fx.ok(not d, lambda: '%s %s: at time %s the code gives %s, expected %s' % (kind, args, float(d[0]), float(d[1]), float(d[2])))
    return g
def dirty(fx, z):
    """give the target previous contents"""
    if fx.R.random() < .5: setsig(fx, z, rsig(fx.R))
    else: fx('sig %s 0 0 0' % z)
# ------------------------------------------------------------------ signal-level cases
def bool_sig(fx, k):
    R = fx.R; reset(fx); x = rsig(R); y = rsig(R, same=x)
    if R.random() < .5: y = rsig(R, b=x.b, same=x)
    setsig(fx, 'x', x); setsig(fx, 'y', y); A = (show(x), show(y)); lo, hi = max(x.b, y.b), min(x.e, y.e)
    if lo <= hi:
        for op, pk, f in (("and", min, x), ("or", max, x), ("implies", max, neg(x)), ("cand", min, x), ("cor", max, x), ("cimplies", max, neg(x))):
            if op[0] != 'c': dirty(fx, 'z')
            chk(fx, op, "op %s z x y" % op, A, pointwise(f, y, pk), lo, hi)
    for op in ('not', 'cnot'):
        if op == 'not': dirty(fx, 'z')
        chk(fx, op, "op %s z x" % op, A[0], neg(x), x.b, x.e)
def evalw_sig(fx, k):
    R = fx.R; reset(fx); x = rsig(R); setsig(fx, 'x', x); A = show(x)
    for op, pk in (("ev", max), ("alw", min), ("cev", max), ("calw", min)):
        if op[0] != 'c': dirty(fx, 'z')
        chk(fx, op, "op %s z x" % op, A, window(x, 0, 10**6, pk), x.b, x.e, strict=False)
    a = Fr(R.randint(0, 8), R.choice([1, 2, 2, 4])); b = a + Fr(R.randint(0, 10), R.choice([1, 2, 2, 4]))
    if R.random() < .2: b = a + (x.e - x.b)
    if R.random() < .2 and len(x.ts) > 1: b = a + R.choice([v - u for u in x.ts for v in x.ts if v > u])
    for op, pk in (("tev", max), ("talw", min)):
        dirty(fx, 'z')
        chk(fx, op, "op %s z x %s %s" % (op, num(a), num(b)), (A, str(a), str(b)), window(x, a, b, pk), x.b - a, x.e - a, strict=False)
    w = b - a
    if x.e - x.b > w > 0:
        for op, pk in (("cbev", max), ("cbalw", min), ("bev", max), ("balw", min)):
            chk(fx, op, "op %s z x %s" % (op, num(w)), (A, str(w)), window(x, 0, w, pk), x.b, x.e, strict=False)
def until_sig(fx, k):
    R = fx.R; reset(fx); x = rsig(R, b=R.choice([None, 0])); y = rsig(R, b=x.b if R.random() < .7 else None, same=x)
    setsig(fx, 'x', x); setsig(fx, 'y', y); A = (show(x), show(y)); lo, hi = max(x.b, y.b), min(x.e, y.e)
    if lo < hi:
        want = untilU(x, y)
        for op in ('until', 'cuntil'):
            if op[0] != 'c': dirty(fx, 'z')
            chk(fx, op, "op %s z x y" % op, A, want, lo, hi)
        a = Fr(R.randint(0, 6), 2); b = a + Fr(R.randint(0, 8), 2)
        if R.random() < .15: b = a
        g = UntilF(x, y, a, b)
        if g is not None and g.e > g.b and x.b == y.b:
            for op in ('tuntil', 'ctuntil'):
                if op[0] == 'c' and fx.lite: continue
                r = fx("op %s z x y %s %s" % (op, num(a), num(b))); fx.count(op, (A, a, b)); q = toF(r)
                fx.ok(q is not None and q.p and q.b <= g.b and q.e >= g.e - Fr(1, 10**6), lambda: '%s %s [%s,%s]: domain of %s, expected at least [%s,%s]' % (op, A, a, b, r, g.b, g.e))
                d = diff(q, g, g.b, g.e)
                fx.ok(not d, lambda: '%s %s [%s,%s]: at time %s the code gives %s, expected %s' % (op, A, a, b, float(d[0]), float(d[1]), float(d[2])))
# ------------------------------------------------------------------ end-to-end cases
def rexpr(R, lvl):
    r = R.random()
    if lvl == 0 or r < .6: return ('sig', R.choice('xy'))
    if lvl == 1: return (R.choice(['plus', 'minus']), ('sig', R.choice('xy')), ('const', R.randint(-3, 3)))
    return rarith(R, 2)
def rarith(R, d):
    r = R.random()
    if d == 0 or r < .15: return ('sig', R.choice('xy')) if R.random() < .6 else ('const', R.randint(-3, 3))
    if r < .3: return ('abs', rarith(R, d-1))
    return (R.choice(['plus', 'minus', 'mult']), rarith(R, d-1), rarith(R, d-1))
def rformula(R, d, ops, lvl=1):
    if d == 0 or R.random() < .15: return (R.choice(['gt', 'lt']), rexpr(R, lvl), ('const', R.randint(-2, 2)))
    k = R.choice(ops)
    if k == 'not': return (k, rformula(R, d-1, ops, lvl))
    if k in ('and', 'or', 'implies'): return (k, rformula(R, d-1, ops, lvl), rformula(R, d-1, ops, lvl))
    a = Fr(R.randint(0, 4), 2); b = a + Fr(R.randint(0, 6), 2)
    if R.random() < .15: b = a
    if R.random() < .1: b = a + 8
    if k in ('ev', 'alw'): return (k, a, b, rformula(R, d-1, ops, lvl))
    return (k, a, b, rformula(R, d-1, ops, lvl), rformula(R, d-1, ops, lvl))
def rdata(R, T, start=Fr(0), beyond=None):
    t = start; out = []
    while True:
        out.append([t, R.randint(-5, 5), R.randint(-5, 5)])
        if t >= T: break
        t += Fr(R.randint(1, 4), 2)
    for _ in range(R.choice([0, 0, 1, 2]) if beyond is None else beyond):
        t += Fr(R.randint(1, 4), 2); out.append([t, R.randint(-5, 5), R.randint(-5, 5)])
    return out
NAMES = ['x', 'y']
def load(fx, f, data, interp, drv='d', extra='', names=NAMES):
    fx("drv %s" % drv); fx("dint %s %s" % (drv, interp))
    ok = fx("parse %s %s" % (drv, ("signal %s\n%sphi := %s\n" % (','.join(names), extra, ftext(f))).encode().hex()))
    fx.ok(ok == '1', lambda: 'formula rejected: %s' % ftext(f))
    for r in data: fx("sample %s %s" % (drv, " ".join(num(v) for v in r)))
def online(fx, t0, drv='d', phi='phi'):
    w = fx("online %s %s %s" % (drv, phi, num(t0))).split(); return [float(v) for v in w[1:]]
def e2e(ops, depth=(1, 2, 3), lvl=1, need=None):
    def case(fx, k):
        R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS'])
        f = rformula(R, R.choice(depth), ops, lvl)
        if need and need not in str(f): f = (need,) + f if need == 'not' else f
        hz = horizon(f); t0 = Fr(R.randint(0, 6), 2) if R.random() < .8 else Fr(R.randint(0, 12), 4)
        start = Fr(0) if R.random() < .8 else min(t0, Fr(1))
        if R.random() < .08: off = R.randint(1, 30); t0 -= off; start -= off
        data = rdata(R, hz + t0, start)
        g = robF(f, NAMES, data, {}, interp); want = g(t0)
        desc = (ftext(f), str(t0), interp, [[str(v) for v in r] for r in data])
        load(fx, f, data, interp); got = online(fx, t0); fx.count('formula over recorded trace (%s)' % interp, desc)
        for nm, v in zip(('robustness', 'lower bound', 'upper bound'), got):
            fx.ok(eq(v, want), lambda: '%s of %s at %s on %s (%s): %s, expected %s' % (nm, desc[0], t0, desc[3], interp, v, float(want)))
        if R.random() < .5:
            # a monitor, evaluated over an interval: the whole robustness signal
            t1 = t0 + Fr(R.randint(0, 6), 2)
            more = [r for r in rdata(R, t1 + hz, data[-1][0] + 1)] if data[-1][0] < t1 + hz else []
            for r in more: fx("sample d " + " ".join(num(v) for v in r))
            full = data + more; g = robF(f, NAMES, full, {}, interp)
            fx("mon m d phi"); fx("mint m " + interp)
            for r in full: fx("msample m " + " ".join(num(v) for v in r))
            w = [float(v) for v in fx("meval m %s %s" % (num(t0), num(t1))).split()]
            s = toF(fx("msig m")); fx.count('robustness signal over an interval', (desc, str(t1)))
            fx.ok(eq(w[0], g(t0)), lambda: 'robustness of %s over [%s,%s] on %s (%s): %s, expected %s' % (desc[0], t0, t1, full, interp, w[0], float(g(t0))))
            fx.ok(s is not None and eq(s.b, t0) and s.e >= t1 - Fr(1, 10**6), lambda: 'signal of %s over [%s,%s] has domain %s' % (desc[0], t0, t1, s and (float(s.b), float(s.e))))
            if t1 > t0 and lvl < 2:
                d = diff(s, g, t0, t1)
                fx.ok(not d, lambda: 'robustness signal of %s over [%s,%s] on %s (%s) at %s: %s, expected %s' % (desc[0], t0, t1, [[str(v) for v in r] for r in full], interp, float(d[0]), float(d[1]), float(d[2])))
    return case
PLAN = {
 'C01': [('connectives on signals', bool_sig, 6000, 60000), ('formulas', e2e(['and', 'or', 'implies', 'not'], (1, 2, 3)), 2500, 25000)],
 'C02': [('window operators on signals', evalw_sig, 5000, 50000), ('formulas', e2e(['ev', 'alw', 'ev', 'alw', 'and', 'or', 'not', 'implies'], (1, 2, 3)), 2500, 25000)],
 'C03': [('until on signals', until_sig, 6000, 60000), ('formulas', e2e(['until', 'until', 'not', 'ev', 'alw', 'and', 'or'], (1, 2)), 2500, 25000)],
}
# ------------------------------------------------------------------ partial traces
def cutwin(ops, depth=(1, 2, 3)):
    def case(fx, k):
        """windows that reach beyond the data"""
        R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); f = rformula(R, R.choice(depth), ops); hz = horizon(f); t0 = Fr(R.randint(0, 6), 2)
        data = rdata(R, max(t0, (hz + t0)*Fr(R.randint(1, 15), 16)), beyond=0); off = R.randint(1, 30) if R.random() < .08 else 0; t0 -= off; data = [[r[0] - off] + r[1:] for r in data]; g = robP(f, NAMES, data, interp, t0)
        if g is None or not g.b <= t0 <= g.e: return
        desc = (ftext(f), str(t0), interp, [[str(v) for v in r] for r in data]); load(fx, f, data, interp); m = R.random() < .5
        if m: fx('mon m d phi'); fx('mint m ' + interp); [fx('msample m ' + ' '.join(num(v) for v in r)) for r in data]
        t1 = t0 + (Fr(R.randint(0, 6), 2) if m else 0); got = meval(fx, 'm', t0, t1)[0] if m else online(fx, t0)[0]; fx.count('windows beyond the data', desc, nontrivial=hz + t0 > data[-1][0])
        fx.ok(eq(got, g(t0)), lambda: 'robustness of %s over [%s,%s] on %s (%s): %s, expected %s' % (desc[0], t0, t1, desc[3], interp, got, float(g(t0))))
    return case
PLAN['C02'].append(('windows beyond the data', cutwin(['ev', 'alw', 'ev', 'alw', 'not', 'and', 'or', 'implies']), 12000, 60000))
PLAN['C03'].append(('windows beyond the data', cutwin(['until', 'until', 'ev', 'alw', 'not', 'and', 'or']), 12000, 60000))
def bare(R, f):
    """comparisons of one signal with 0 in place of f's"""
    return (f[0], ('sig', R.choice(NAMES)), ('const', 0)) if f[0] in ('gt', 'lt') else tuple(bare(R, x) if isinstance(x, tuple) else x for x in f)
def partial(ops, depth):
    def case(fx, k):
        R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS'])
        f = rformula(R, R.choice(depth), ops); hz = horizon(f); t0 = Fr(R.choice([0, 0, 1, 2, 3]), 2)
        data = rdata(R, hz + t0, beyond=1)
        if R.random() < .15: off = -R.randint(1, 30); t0 += off; data = [[r[0] + off] + r[1:] for r in data]
        if R.random() < .12:                                            # values at the bound
            f = bare(R, f); data = [[r[0]] + [R.choice([-10000, 10000]) if R.random() < .3 else v for v in r[1:]] for r in data]
        desc = (ftext(f), str(t0), interp, [[str(v) for v in r] for r in data])
        load(fx, f, [], interp); m = R.random() < .4
        if m: fx("mon m d phi"); fx("mint m " + interp)
        shown = 0
        for n in range(1, len(data) + 1):
            r = data[n-1]
            fx("%s %s" % ("msample m" if m else "sample d", " ".join(num(v) for v in r)))
            if n < len(data) and R.random() < .5: continue
            if m:
                w = [float(v) for v in fx("meval m %s%s" % (num(t0), '' if R.random() < .5 else ' ' + num(t0 + Fr(R.randint(0, 6), 2)))).split()]; got = w[1:4]; inst = w[4] == w[5]
            else: got = online(fx, t0); inst = True
            fx.count('prefix of a trace', (desc, n), nontrivial=got[1] > -9999 or got[2] < 9999)
            fx.ok(got[1] <= got[2] + TOL, lambda: '%s at %s (%s): lower bound %s above upper bound %s on %s' % (desc[0], t0, interp, got[1], got[2], data[:n]))
            for c in range(4):
                comp = data[:n] + [[r[0], R.randint(-5, 5) if c else R.choice([-5, 5]), R.randint(-5, 5) if c else R.choice([-5, 5])] for r in data[n:]]
                w = float(robF(f, NAMES, comp, {}, interp)(t0))
                fx.ok(got[1] <= w + TOL and w <= got[2] + TOL, lambda: '%s at %s (%s): bounds [%s, %s] after %s, but completing the trace with %s gives %s' % (desc[0], t0, interp, got[1], got[2], [[str(v) for v in r] for r in data[:n]], [[str(v) for v in r] for r in comp[n:]], w))
            if n == len(data) and inst: fx.ok(eq(got[1], got[2]) and eq(got[0], got[1]), lambda: '%s at %s (%s): robustness and bounds do not agree on a complete trace: %s' % (desc[0], t0, interp, got))
    return case
PLAN['C04'] = [('prefixes', partial(['and', 'or', 'implies', 'not', 'ev', 'alw', 'until'], (1, 2, 3)), 3000, 30000)]

# ------------------------------------------------------------------ C05 predicates and expressions
def val(f, sv, par):
    L, R_ = esample(f[1], sv, par), esample(f[2], sv, par)
    return L - R_ if f[0] == 'gt' else R_ - L
def interp_at(data, names, interp, t):
    """values of the signals at time t"""
    rows = [[fr(v) for v in r] for r in data]; k = max(i for i in range(len(rows)) if rows[i][0] <= t)
    if interp == 'PREVIOUS' or k + 1 == len(rows): return dict(zip(names, rows[k][1:]))
    q = (t - rows[k][0])/(rows[k+1][0] - rows[k][0])
    return dict(zip(names, [u + q*(v - u) for u, v in zip(rows[k][1:], rows[k+1][1:])]))
def linear(e): return e[0] in ('sig', 'const', 'param') or (e[0] in ('plus', 'minus') and linear(e[1]) and linear(e[2]))
def pexpr(R, d):
    if R.random() < .15: return ('param', 'p')
    if R.random() < .3:
        e = ('sig', R.choice('xy'))
        for _ in range(R.randint(0, 2)): e = (R.choice(['plus', 'minus']), e, R.choice([('sig', R.choice('xy')), ('const', R.randint(-3, 3)), ('param', 'p')]))
        return e
    return rarith(R, d)
def pred(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'LINEAR', 'PREVIOUS']); f = (R.choice(['gt', 'lt']), pexpr(R, R.choice([0, 1, 2, 3])), pexpr(R, R.choice([0, 0, 1, 2])))
    par = {'p': Fr(R.randint(-3, 3))}; start = Fr(R.choice([0, 0, 0, 1]))
    data = rdata(R, Fr(6), start); t0 = start + (Fr(R.randint(0, 12), 4)); t1 = t0 + Fr(R.randint(0, 6), 2) if R.random() < .7 else t0
    t1 = min(t1, data[-1][0]); t0 = min(t0, t1)
    desc = (ftext(f), str(t0), str(t1), interp, [[str(v) for v in r] for r in data], str(par['p']))
    load(fx, f, data, interp, extra='param p=%s\n' % n2s(par['p']))
    want = lambda t: val(f, interp_at(data, NAMES, interp, t), par)
    got = online(fx, t0); fx.count('predicate at an instant', desc)
    for nm, v in zip(('robustness', 'lower bound', 'upper bound'), got):
        fx.ok(eq(v, want(t0)), lambda: '%s of %s at %s on %s (%s, p=%s): %s, expected %s' % (nm, desc[0], t0, desc[4], interp, desc[5], v, float(want(t0))))
    fx("mon m d phi"); fx("mint m " + interp)
    for r in data: fx("msample m " + " ".join(num(v) for v in r))
    w = [float(v) for v in fx("meval m %s %s" % (num(t0), num(t1))).split()]; s = toF(fx("msig m")); fx.count('predicate over an interval', desc)
    fx.ok(eq(w[0], want(t0)), lambda: 'robustness of %s over [%s,%s]: %s, expected %s on %s (%s)' % (desc[0], t0, t1, w[0], float(want(t0)), desc[4], interp))
    fx.ok(s is not None and eq(s.b, t0) and eq(s.e, t1) and s.ts[-1] <= t1 + Fr(1, 10**9), lambda: 'signal of %s over [%s,%s]: domain %s' % (desc[0], t0, t1, s and (float(s.b), float(s.e))))
    ts = sorted({t0, t1} | {fr(r[0]) for r in data if t0 <= r[0] <= t1})
    if interp == 'PREVIOUS' or (linear(f[1]) and linear(f[2])): ts += [(a + b)/2 for a, b in zip(ts, ts[1:])]
    for t in ts: fx.ok(eq(float(s(t)), want(t)), lambda: 'signal of %s over [%s,%s] at %s: %s, expected %s on %s (%s)' % (desc[0], t0, t1, t, float(s(t)), float(want(t)), desc[4], interp))
PLAN['C05'] = [('predicates', pred, 8000, 80000)]
# ------------------------------------------------------------------ C06 samples to signal
def pts(R, n):
    t = Fr(R.choice([0, 0, 1, -1])); out = []
    for _ in range(n):
        out.append((t, Fr(R.randint(-5, 5)))); t += Fr(R.randint(1, 4), R.choice([1, 2, 4]))
    return out
def interpF(P, interp, last=Fr(0)):
    ps = []
    for i, (t, v) in enumerate(P):
        d = (P[i+1][1] - v)/(P[i+1][0] - t) if interp == 'LINEAR' and i + 1 < len(P) else last if i + 1 == len(P) else Fr(0)
        ps.append((t, v, d))
    return F(ps, P[0][0], P[-1][0])
def same(fx, what, g, want, r):
    fx.ok(g is not None and g.p and eq(g.b, want.b) and eq(g.e, want.e), lambda: '%s: %s, expected domain [%s,%s]' % (what, r, want.b, want.e))
    d = diff(g, want, want.b, want.e, closed=True)
    fx.ok(not d, lambda: '%s: at time %s the signal is %s, expected %s (%s)' % (what, float(d[0]), float(d[1]), float(d[2]), r))
def record(fx, k):
    R = fx.R; reset(fx); interp = R.choice(['LINEAR', 'PREVIOUS']); fx('interp ' + interp)
    P = pts(R, R.choice([1, 1, 2, 3, 4, 6])); want = interpF(P, interp); A = '%s %s' % (interp, [(str(a), str(b)) for a, b in P])
    r = fx('mksig x %d %s' % (len(P), ' '.join(num(a) + ' ' + num(b) for a, b in P))); fx.count('signal from arrays', A)
    same(fx, 'signal built from ' + A, toF(r), want, r)
    fx('sig x 0 0 0'); kept = []
    for t, v in P:
        if kept and R.random() < .3:
            fx('append2 x %s %s' % (num(R.choice([kept[-1][0], kept[0][0], kept[-1][0] - 1])), num(R.randint(-5, 5))))   # not later than what is there: ignored
        r = fx('append2 x %s %s' % (num(t), num(v))); kept.append((t, v))
    fx.count('samples appended one at a time', A); same(fx, 'samples appended ' + A, toF(r), want, r)
    fx('sig x 0 0 0'); kept = []; last = Fr(0)
    for t, v in P:
        last = Fr(R.randint(-2, 2)); r = fx('append x %s %s %s' % (num(t), num(v), num(last)))
    fx.count('samples with slope appended', (A, last)); g = toF(r); same(fx, 'samples with slopes appended ' + A, g, want, r)
    fx.ok(eq(g.p[-1][2], last if interp == 'LINEAR' else 0), lambda: 'slope of the last sample of %s: %s, expected %s' % (r, float(g.p[-1][2]), last))
    # a signal appended to another
    k1 = R.randint(1, len(P)); fx('sig x 0 0 0'); fx('sig y 0 0 0'); a = P[:k1]; ov = R.randint(0, min(1, k1 - 1)) if R.random() < .5 else 0
    for t, v in a: fx('append2 x %s %s' % (num(t), num(v)))
    b = P[k1-ov:]; fx('sig y 0 0 0')
    if b:
        for t, v in b: fx('append2 y %s %s' % (num(t), num(v + (1 if ov and t <= a[-1][0] else 0))))
        r = fx('appendsig x y'); fx.count('signal appended', (A, k1, ov)); same(fx, 'signal with times %s appended to one with times %s' % ([str(q[0]) for q in b], [str(q[0]) for q in a]), toF(r), want, r)
    # a signal whose domain goes on after its last sample, or that was shortened
    x = rsig(R); setsig(fx, 'x', x); t = x.e + R.choice([-1, 0, Fr(1, 2), 1, 3]); v = Fr(R.randint(-5, 5)); d = Fr(R.randint(-2, 2)); p = list(x.p)
    if t > x.e:
        if interp == 'LINEAR': p[-1] = (p[-1][0], p[-1][1], (v - p[-1][1])/(t - p[-1][0]))
        want = F(p + [(t, v, d if interp == 'LINEAR' else Fr(0))], x.b, t)
    else: want = x
    r = fx('append x %s %s %s' % (num(t), num(v), num(d))); fx.count('sample appended to a given signal', (interp, show(x), t, v, d)); same(fx, '%s: (%s, %s, %s) appended to %s' % (interp, t, v, d, show(x)), toF(r), want, r)
def record_e2e(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); data = rdata(R, Fr(R.randint(1, 6))); n = R.randint(1, 2); f = ('gt', ('sig', NAMES[n-1]), ('const', 0))
    t0 = Fr(R.randint(0, 8), 4); t1 = t0 + Fr(R.randint(0, 8), 4); t1 = min(t1, data[-1][0]); t0 = min(t0, t1)
    load(fx, f, [], interp); fx("mon m d phi"); fx("mint m " + interp)
    for r in data: fx("msample m " + " ".join(num(v) for v in r))
    want = restrict(interpF([(fr(r[0]), fr(r[n])) for r in data], interp), t0, t1)
    fx("meval m %s %s" % (num(t0), num(t1))); r = fx('msig m'); fx.count('recorded column read back', (interp, data, n, t0, t1))
    same(fx, 'column %d of %s seen over [%s,%s] (%s)' % (n, [[str(v) for v in q] for q in data], t0, t1, interp), toF(r), want, r)
PLAN['C06'] = [('recorded samples', record, 5000, 50000), ('columns', record_e2e, 4000, 40000)]
# ------------------------------------------------------------------ C07 recording samples
def addsample(fx, k):
    R = fx.R; ns = R.randint(1, 3); names = ['x', 'y', 'w'][:ns]
    fx('drv d'); fx.ok(fx('parse d ' + ('signal %s\nphi := x[t] > 0\n' % ','.join(names)).encode().hex()) == '1', 'formula rejected')
    mon = R.random() < .5
    cmd, dat = ('msample m', 'mdata m') if mon else ('sample d', 'ddata d')
    if not mon and R.random() < .3: fx('drvcopy e d'); cmd, dat = 'sample e', 'ddata e'
    if mon: fx('mon m d phi')
    exp = []; hist = []
    for _ in range(R.randint(1, 8)):
        q = R.random(); n = ns if q < .75 else R.choice([i for i in range(0, 6) if i != ns])
        t = (exp[-1][0] if exp else R.choice([0, -1, 2])) + R.choice([1, 1, 1, .5, 2, 0, 0, -1, 1e-9, -.5])
        row = [t] + [R.randint(-3, 3) for _ in range(n)]
        if R.random() < .06: row = row[:1] if ns != 0 else row
        if R.random() < .04: row = []
        good = len(row) == ns + 1 and (not exp or row[0] > exp[-1][0]); hist.append(row)
        r = fx('%s %s' % (cmd, ' '.join(num(v) for v in row))); fx.count('sample ' + ('recorded' if good else 'refused'), (names, hist, mon))
        fx.ok((r == 'ok') == good and (good or r == '!invalid_argument'), lambda: 'recording %s after %s with signals %s: %s, expected %s' % (row, exp, names, r, 'it is recorded' if good else 'it is refused (invalid argument)'))
        if good: exp.append(row)
        w = fx(dat).split(); rows = []; i = 1
        for _r in range(int(w[0])): m = int(w[i]); rows.append([float(v) for v in w[i+1:i+1+m]]); i += m + 1
        fx.ok(rows == [[float(v) for v in r_] for r_ in exp], lambda: 'recorded data after %s: %s, expected %s' % (hist, rows, exp))
        if mon and R.random() < .08: fx('mreset m'); exp = []; hist.append('reset')
PLAN['C07'] = [('histories', addsample, 6000, 60000)]
# ------------------------------------------------------------------ C08 parameters
def pformula(R, d, P):
    """formula whose constants and window bounds may be parameters"""
    if d == 0 or R.random() < .2: return (R.choice(['gt', 'lt']), ('sig', R.choice('xy')), ('param', R.choice(P['v'])) if R.random() < .7 else ('const', R.randint(-2, 2)))
    k = R.choice(['ev', 'alw', 'until', 'and', 'or', 'not'])
    if k == 'not': return (k, pformula(R, d-1, P))
    if k in ('and', 'or'): return (k, pformula(R, d-1, P), pformula(R, d-1, P))
    a, b = ('ta' if R.random() < .5 else Fr(R.randint(0, 2), 2)), ('tb' if R.random() < .7 else Fr(R.randint(2, 4)))
    if k in ('ev', 'alw'): return (k, a, b, pformula(R, d-1, P))
    return (k, a, b, pformula(R, d-1, P), pformula(R, d-1, P))
def subst(f, par):
    if isinstance(f, str): return par[f] if f in par else f
    if not isinstance(f, tuple): return f
    if f[0] == 'param': return ('const', par[f[1]])
    if f[0] in ('ev', 'alw', 'until'): return (f[0],) + tuple(fr(par[v]) if isinstance(v, str) else v for v in f[1:3]) + tuple(subst(v, par) for v in f[3:])
    return (f[0],) + tuple(subst(v, par) if isinstance(v, tuple) else v for v in f[1:])
def params(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); f = pformula(R, R.choice([1, 2, 2, 3]), {'v': ['p', 'q']})
    cur = {'p': Fr(R.randint(-3, 3)), 'q': Fr(R.randint(-3, 3)), 'ta': Fr(R.randint(0, 2), 2), 'tb': Fr(R.randint(2, 4))}
    data = rdata(R, Fr(14)); desc = ftext(f)
    load(fx, f, data, interp, extra='param ' + ', '.join('%s=%s' % (n, n2s(v)) for n, v in cur.items()) + '\n')
    who = {'d': dict(cur)}
    def newval(n): return Fr(R.randint(-3, 3)) if n in 'pq' else Fr(R.randint(0, 2), 2) if n == 'ta' else Fr(R.randint(2, 4))
    hist = []
    for step in range(R.randint(2, 7)):
        a = R.random(); n = R.choice(['p', 'q', 'ta', 'tb']); tgt = R.choice(list(who)); pre = 'd' if tgt == 'd' else 'm'
        if a < .2 and 'm' not in who:
            fx('mon m d phi'); fx('mint m ' + interp); who['m'] = dict(who['d']); hist.append('monitor taken')
            for r in data: fx('msample m ' + ' '.join(num(v) for v in r))
        elif a < .5:
            v = newval(n); r = fx('%sset %s %s %s' % (pre, tgt, n, num(v))); who[tgt][n] = v; hist.append('%s: %s=%s' % (tgt, n, v))
            fx.ok(r == 'ok', lambda: 'setting %s of %s: %s' % (n, tgt, r)); fx.count('parameter set', (desc, hist))
        elif a < .6:
            u = R.choice(['zz', 'pp', 'P', 'x'])
            r = fx('%sset %s %s %s' % (pre, tgt, u, num(R.randint(-3, 3)))); r2 = fx('%sget %s %s' % (pre, tgt, u)); fx.count('unknown parameter', (desc, hist, u))
            if tgt == 'm': fx.ok(r == '!invalid_argument' and r2 == '!invalid_argument', lambda: 'monitor given unknown parameter %s: set answers %s, get answers %s; both must be refused' % (u, r, r2))
            else: fx.ok(float(r2) == 0, lambda: 'driver: unknown parameter %s reads %s after being set, expected it to stay unknown (0)' % (u, r2))
        for t_ in list(who):
            pr = 'd' if t_ == 'd' else 'm'
            for n_ in who[t_]:
                r = fx('%sget %s %s' % (pr, t_, n_)); fx.ok(r[0] != '!' and float(r) == float(who[t_][n_]), lambda: 'after %s parameter %s of %s reads %s, expected %s' % (hist, n_, t_, r, who[t_][n_]))
        if R.random() < .3:
            # also on incomplete data: the same numbers as the formula written without parameters
            t0 = Fr(R.randint(0, 30), 2); g = subst(f, who[tgt]); load(fx, g, data, interp, drv='e')
            if tgt == 'm': fx('mon me e phi'); fx('mint me ' + interp)
            got, want = [[float(v) for v in fx('meval %s %s' % (n_, num(t0))).split()[:4]] if tgt == 'm' else online(fx, t0, drv=n_) for n_ in (('m', 'me') if tgt == 'm' else ('d', 'e'))]
            hist.append('%s evaluated at %s' % (tgt, t0)); fx.count('evaluation against the formula written with numbers', (desc, hist, str(t0)))
            fx.ok(near(got, want), lambda: '%s after %s (initially %s) at %s on %s (%s): robustness, bounds %s, but %s for the formula written with the numbers, %s' % (desc, hist, {a_: str(b_) for a_, b_ in cur.items()}, t0, [[str(v) for v in r] for r in data], interp, got, want, ftext(g)))
        if tgt == 'd' and R.random() < .2:
            g = subst(f, who['d']); load(fx, g, data, interp, drv='e'); w = online(fx, Fr(0), drv='e'); b = ddump(fx, 'd', 'phi'); fx.count('dump with current parameters', (desc, hist))
            fx.ok(len(b) > 1 and abs(b[1] - w[0]) <= 1e-5*(1 + abs(w[0])), lambda: '%s after %s (initially %s) on %s (%s): dumped %s, %s for the formula written with the numbers' % (desc, hist, {a_: str(b_) for a_, b_ in cur.items()}, [[str(v) for v in r] for r in data], interp, b, w))
        if R.random() < .6:
            t0 = Fr(R.randint(0, 4), 2); g = subst(f, who[tgt])
            if horizon(g) + t0 > data[-1][0]: continue
            want = robF(g, NAMES, data, {}, interp)(t0)
            got = float(fx('meval m ' + num(t0)).split()[0]) if tgt == 'm' else online(fx, t0)[0]
            hist.append('%s evaluated at %s' % (tgt, t0)); fx.count('evaluation with current parameters', (desc, hist))
            fx.ok(eq(got, want), lambda: '%s after %s (initially %s) on %s (%s): %s, expected %s (= %s)' % (desc, hist, {a_: str(b_) for a_, b_ in cur.items()}, [[str(v) for v in r] for r in data], interp, got, float(want), ftext(g)))
PLAN['C08'] = [('histories', params, 4000, 40000)]

# ------------------------------------------------------------------ C15 boolean and time robustness
def boolP(f):
    """maximal intervals of constant truth of f > 0 on [f.b, f.e): [(start, truth)]"""
    out = []
    for i, (t, v, d) in enumerate(f.p):
        n = f.p[i+1][0] if i + 1 < len(f.p) else f.e
        if n == t and i: continue
        out.append((t, v > 0 or (v == 0 and d > 0)))
        if v*d < 0 and t - v/d < n: out.append((t - v/d, d > 0))
    r = [out[0]]
    for q in out[1:]:
        if q[1] != r[-1][1]: r.append(q)
    return r
def timeF(f, sem):
    P = boolP(f)
    if sem == 'BOOL': return F([(t, Fr(1 if b else 0), 0) for t, b in P], f.b, f.e)
    if sem == 'LEFT_TIME': return F([(t, Fr(0), Fr(1 if b else -1)) for t, b in P], f.b, f.e)
    N = [q[0] for q in P[1:]] + [f.e]
    return F([(t, (n - t)*(1 if b else -1), Fr(-1 if b else 1)) for (t, b), n in zip(P, N)], f.b, f.e)
def restrict0(g, lo, hi):
    return F([(lo, g(lo), g.p[g.idx(lo)][2])] + [q for q in g.p if lo < q[0] < hi], lo, hi)
def robT(f, names, data, interp, sem, s, e):
    k = f[0]
    if k in ('gt', 'lt'): return timeF(restrict0(atomF(f, names, data, {}, interp), s, e), sem)
    r = lambda g, s=s, e=e: robT(g, names, data, interp, sem, s, e)
    if k == 'not': return neg(r(f[1]))
    if k in ('and', 'or', 'implies'):
        x, y = r(f[1]), r(f[2]); return pointwise(neg(x) if k == 'implies' else x, y, min if k == 'and' else max)
    a, b = fr(f[1]), fr(f[2])
    if k in ('ev', 'alw'): return restrict(shift(window(shift(r(f[3], s + a, e + b), -a), 0, b - a, max if k == 'ev' else min), 0), s, e)
    return restrict(UntilF(r(f[3], s, e + b), restrictL(r(f[4], s + a, e + b), s), a, b), s, e)
def restrictL(g, s):
    """extend to the left: values there are never looked at"""
    return g if g.b <= s else F([(s, Fr(-10**6), 0)] + g.p, s, g.e)
def timerob_sig(fx, k):
    R = fx.R; reset(fx); x = rsig(R); A = show(x); setsig(fx, 'x', x)
    for op, sem in (('bool', 'BOOL'), ('left', 'LEFT_TIME'), ('right', 'RIGHT_TIME')):
        dirty(fx, 'z'); r = fx('op %s z x' % op); fx.count(op, A); g = toF(r); want = timeF(x, sem)
        nm = {'bool': 'boolean signal', 'left': 'left time robustness', 'right': 'right time robustness'}[op]
        fx.ok(g is not None and g.p and eq(g.b, x.b) and eq(g.e, x.e), lambda: '%s of %s: %s' % (nm, A, r))
        fx.ok(all(v > u for u, v in zip(g.ts, g.ts[1:])) and g.ts[-1] <= g.e, lambda: '%s of %s: sample times not increasing in the domain: %s' % (nm, A, r))
        d = diff(g, want, x.b, x.e); fx.ok(not d, lambda: '%s of %s at %s: %s, expected %s' % (nm, A, float(d[0]), float(d[1]), float(d[2])))
        if op != 'bool':
            for t in sorted({x.b} | {(a + b)/2 for a, b in zip(want.ts, want.ts[1:] + [want.e]) if b > a}):
                w = boolP(x)[max(i for i, q in enumerate(boolP(x)) if q[0] <= t)][1]
                if t > x.b and x.e > x.b: fx.ok((g(t) > 0) == w, lambda: '%s of %s at %s: sign of %s, truth is %s' % (nm, A, float(t), float(g(t)), w))
def timerob(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); sem = R.choice(['LEFT_TIME', 'RIGHT_TIME'])
    f = rformula(R, R.choice([0, 1, 1, 2]), ['and', 'or', 'implies', 'not', 'ev', 'alw']); hz = horizon(f); t0 = Fr(R.randint(0, 6), 2); data = rdata(R, hz + t0 + 3)
    t1 = t0 + (Fr(R.randint(0, 5), 2) if R.random() < .7 else 0)
    load(fx, f, data, interp); fx('dsem d ' + sem); fx('mon m d phi'); fx('mint m ' + interp)
    desc = (ftext(f), str(t0), str(t1), sem, interp, [[str(v) for v in r] for r in data])
    for r in data: fx("msample m " + " ".join(num(v) for v in r))
    w = [float(v) for v in fx("meval m %s %s" % (num(t0), num(t1))).split()]; want = robT(f, NAMES, data, interp, sem, t0, t1); fx.count('formula with time robustness', desc)
    fx.ok(eq(w[0], want(t0)), lambda: '%s robustness of %s over [%s,%s] on %s (%s): %s, expected %s' % (sem, desc[0], t0, t1, desc[5], interp, w[0], float(want(t0))))
    if t1 > t0:
        s = toF(fx('msig m')); d = s and diff(s, want, t0, t1)
        fx.ok(s is not None and not d, lambda: '%s robustness signal of %s over [%s,%s] on %s (%s) at %s: %s, expected %s' % (sem, desc[0], t0, t1, desc[5], interp, float(d[0]), float(d[1]), float(d[2])))
    else:
        got = online(fx, t0); fx.ok(eq(got[0], w[0]), lambda: 'online robustness %s of %s differs from the monitor %s' % (got, desc, w))
PLAN['C15'] = [('signals', timerob_sig, 5000, 50000), ('formulas', timerob, 3000, 30000)]
# ------------------------------------------------------------------ C12 editing operations keep the function
def edits(fx, k):
    R = fx.R; reset(fx); x = rsig(R); A = show(x)
    y = x                                   # redundant pieces on purpose
    if R.random() < .7:
        ps = []
        for i, q in enumerate(x.p):
            ps.append(q); n = x.p[i+1][0] if i + 1 < len(x.p) else x.e
            for _ in range(R.choice([0, 0, 1, 2])):
                if n > ps[-1][0]:
                    m = (ps[-1][0] + n)/2; ps.append((m, q[1] + q[2]*(m - q[0]), q[2]))
        y = F(ps, x.b, x.e); A = show(y)
    setsig(fx, 'z', y); r = fx('simplify z'); fx.count('simplify', A); same(fx, 'simplify of ' + A, toF(r), y, r)
    g = toF(r); fx.ok(all(v > u for u, v in zip(g.ts, g.ts[1:])), lambda: 'simplify of %s: %s' % (A, r))
    setsig(fx, 'z', y); a = Fr(R.randint(-9, 9), R.choice([1, 2, 4])); r = fx('shift z ' + num(a)); fx.count('shift', (A, a)); same(fx, 'shift of %s by %s' % (A, a), toF(r), shift(y, a), r)
    setsig(fx, 'z', y); r = fx('addlast z'); fx.count('last sample', A); same(fx, 'addLastSample on ' + A, toF(r), y, r)
    g = toF(r); fx.ok(eq(g.ts[-1], y.e), lambda: 'after addLastSample on %s the last sample is not at the end: %s' % (A, r))
    # resize
    q = R.random(); s_ = R.choice(y.ts + [y.b, y.e, y.b - 1, y.b + Fr(1, 2), y.b + Fr(1, 4)]) if q < .8 else y.b + Fr(R.randint(-4, 12), 4)
    t_ = R.choice(y.ts + [y.e, y.e + 1, y.e + 2, s_, s_ - 1, (s_ + y.e)/2, s_ + Fr(1, 4)]); v_ = Fr(R.randint(-3, 3)) if R.random() < .6 else y.p[-1][1]
    setsig(fx, 'z', y); r = fx('resize z %s %s %s' % (num(s_), num(t_), num(v_))); fx.count('resize', (A, s_, t_, v_)); g = toF(r); W = 'resize of %s to [%s,%s], %s outside' % (A, s_, t_, v_)
    if t_ < s_: fx.ok(r.split() == ['0', '0', '0'], lambda: '%s: %s, expected the empty signal' % (W, r)); return
    if s_ > y.e and t_ == s_: return
    fx.ok(g is not None and g.p and eq(g.b, s_) and eq(g.e, t_) and eq(g.ts[0], s_) and g.ts[-1] <= t_, lambda: '%s: %s' % (W, r))
    fx.ok(all(v > u for u, v in zip(g.ts, g.ts[1:])), lambda: '%s: sample times not increasing: %s' % (W, r))
    def want(t): return y.p[0][1] if t < y.b else v_ if (t >= y.e and t_ > y.e) else y(t)
    cs = sorted({s_, t_} | {t for t in y.ts + [y.b, y.e] if s_ < t < t_})
    for t in cs + [(u + v)/2 for u, v in zip(cs, cs[1:])]: fx.ok(eq(g(t), want(t)), lambda: '%s: at %s the value is %s, expected %s' % (W, float(t), float(g(t)), float(want(t))))
    # trailing unknown values
    ps = [(t, R.choice([v, v, Fr(10000), Fr(-10000)]) if i >= len(x.p)//2 else v, R.choice([d, d, d, Fr(10000)])) for i, (t, v, d) in enumerate(x.p)]; w = F(ps, x.b, x.e); setsig(fx, 'z', w); r = fx('removeinf z'); fx.count('unknown tail removed', show(w)); g = parse(r)
    n = len(ps)
    while n and (abs(ps[n-1][1]) == 10000 or abs(ps[n-1][2]) == 10000): n -= 1
    fx.ok(g is not None and [tuple(float(u) for u in q) for q in g[2]] == [tuple(float(u) for u in q) for q in ps[:n]], lambda: 'removing the unknown tail of %s: %s' % (show(w), r))
PLAN['C12'] = [('editing operations', edits, 8000, 80000)]
# ------------------------------------------------------------------ C10 no history
ALL = ['and', 'or', 'implies', 'not', 'ev', 'alw', 'until']
def meval(fx, m, t0, t1=None): return [float(v) for v in fx('meval %s %s' % (m, num(t0) + ('' if t1 is None else ' ' + num(t1)))).split()]
def near(a, b): return len(a) == len(b) and all(abs(u - v) <= TOL*(1 + abs(u)) for u, v in zip(a, b))
def ddump(fx, d, phi):
    """the numbers driver d writes about formula phi: time, value, slope of each sample"""
    r = fx('ddump %s %s' % (d, phi)); return [float(v) for v in r.split()] if r[:1] != '!' else []
def history(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); f, g = rformula(R, R.choice([1, 2, 3]), ALL), rformula(R, R.choice([1, 2]), ALL); data = rdata(R, Fr(R.randint(2, 8))); txt = 'signal x,y\nphi := %s\npsi := %s\n' % (ftext(f), ftext(g))
    def mk(drv, rows):
        fx('drv ' + drv); fx('dint %s %s' % (drv, interp)); fx.ok(fx('parse %s %s' % (drv, txt.encode().hex())) == '1', 'formula rejected')
        for r in rows: fx('sample %s %s' % (drv, ' '.join(num(v) for v in r)))
    n = R.randint(1, len(data)); mk('d', data[:n]); fx('mon m d phi'); fx('mint m ' + interp); hist = []
    for r in data[:n]: fx('msample m ' + ' '.join(num(v) for v in r))
    qs = [(Fr(R.randint(0, 6), 2), Fr(R.randint(0, 4), 2) if R.random() < .4 else None) for _ in range(2)]
    def ask(m, q): return (meval(fx, m, q[0], None if q[1] is None else q[0] + q[1])[:4], fx('msig ' + m))
    for step in range(R.randint(2, 6)):
        a = R.random()
        if a < .35: q = R.choice(qs); hist.append('monitor evaluated at %s' % (q,)); ask('m', q)
        elif a < .5: t = Fr(R.randint(0, 8), 2); p = R.choice(['phi', 'psi']); hist.append('%s online at %s' % (p, t)); online(fx, t, phi=p)
        elif a < .6: o = R.choice(['LINEAR', 'PREVIOUS']); fx('drv o'); fx('dint o ' + o); fx('parse o ' + txt.encode().hex()); fx('dsem o ' + R.choice(['SPACE', 'LEFT_TIME'])); [fx('sample o ' + ' '.join(num(v) for v in r)) for r in rdata(R, Fr(3))]; online(fx, Fr(0), drv='o'); hist.append('another driver used')
        elif a < .75 and n < len(data):
            fx('sample d ' + ' '.join(num(v) for v in data[n])); fx('msample m ' + ' '.join(num(v) for v in data[n])); n += 1; hist.append('sample added')
        elif a < .85: fx('mon m2 d psi'); [fx('msample m2 ' + ' '.join(num(v) for v in r)) for r in (data[:2] if 0 else [])]; meval(fx, 'm2', Fr(0)); hist.append('second monitor evaluated')
        else: q = qs[0]; r1 = ask('m', q); r2 = ask('m', q); hist.append('evaluated twice'); fx.count('same question twice', (ftext(f), hist)); fx.ok(r1 == r2, lambda: '%s on %s (%s) asked %s twice: %s then %s' % (ftext(f), data[:n], interp, q, r1, r2))
    q = R.choice(qs); t = Fr(R.randint(0, 6), 2); p = R.choice(['phi', 'psi'])
    old = ask('m', q), online(fx, t, phi=p)
    mk('e', data[:n]); fx('mon k e phi'); fx('mint k ' + interp); [fx('msample k ' + ' '.join(num(v) for v in r)) for r in data[:n]] if 0 else None
    new = ask('k', q) if len(fx('mdata k').split()) > 1 else None, online(fx, t, drv='e', phi=p)
    fx.count('used object against a fresh one', (ftext(f), hist, q))
    fx.ok(new[0] == old[0], lambda: '%s on %s (%s), question %s after %s: %s; a fresh monitor answers %s' % (ftext(f), [[str(v) for v in r] for r in data[:n]], interp, q, hist, old[0], new[0]))
    fx.ok(new[1] == old[1], lambda: '%s on %s (%s), online at %s after %s: %s; a fresh driver answers %s' % (ftext(f if p == 'phi' else g), [[str(v) for v in r] for r in data[:n]], interp, t, hist, old[1], new[1]))
    if R.random() < .3:
        a, b = ddump(fx, 'd', p), ddump(fx, 'e', p); w = online(fx, Fr(0), drv='e', phi=p); fx.count('dump of the formulas', (ftext(f if p == 'phi' else g), hist))
        fx.ok(a == b, lambda: '%s on %s (%s), dumped after %s: %s; a fresh driver writes %s' % (ftext(f if p == 'phi' else g), [[str(v) for v in r] for r in data[:n]], interp, hist, a, b))
        fx.ok(len(b) > 1 and abs(b[1] - w[0]) <= 1e-5*(1 + abs(w[0])), lambda: '%s on %s (%s): dumped %s, evaluated %s' % (ftext(f if p == 'phi' else g), [[str(v) for v in r] for r in data[:n]], interp, b, w))
PLAN['C10'] = [('histories', history, 4000, 40000)]
# ------------------------------------------------------------------ C11 locality
def locality(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); f = rformula(R, R.choice([1, 2, 3]), ALL); hz = horizon(f); t0 = Fr(R.randint(2, 8), 2); data = rdata(R, hz + t0, beyond=2); A = (ftext(f), str(t0), interp, [[str(v) for v in r] for r in data])
    load(fx, f, data, interp); one = online(fx, t0); fx('mon m d phi')
    lo = max([i for i, r in enumerate(data) if r[0] <= t0]); hi = min(i for i, r in enumerate(data) if r[0] >= t0 + hz)
    other = [[r[0], R.randint(-5, 5), R.randint(-5, 5)] if i < lo or i > hi else r for i, r in enumerate(data)]
    if R.random() < .3: other = other[R.randint(0, lo):]
    if R.random() < .3: other = other[:len(other) - (len(data) - 1 - hi)]
    if R.random() < .3:
        t = other[-1][0]
        for _ in range(3): t += Fr(R.randint(1, 3), 2); other.append([t, R.randint(-5, 5), R.randint(-5, 5)])
    load(fx, f, other, interp, drv='e'); two = online(fx, t0, drv='e'); fx.count('samples outside the window changed', A)
    fx.ok(near(one, two), lambda: '%s at %s (%s): %s on %s but %s on %s, which differs only outside what the formula looks at' % (A[0], t0, interp, one, A[3], two, [[str(v) for v in r] for r in other]))
    c = Fr(R.choice([1, 3, 8, 64]), R.choice([1, 2, 4])); sh = [[r[0] + c] + r[1:] for r in data]
    load(fx, f, sh, interp, drv='e'); two = online(fx, t0 + c, drv='e'); fx.count('trace moved in time', (A, c))
    fx.ok(near(one, two), lambda: '%s at %s (%s) on %s: %s, but %s with the whole trace and the evaluation time moved by %s' % (A[0], t0, interp, A[3], one, two, c))
    # an interval agrees with its instants
    t1 = t0 + Fr(R.randint(1, 4), 2); more = [r for r in rdata(R, t1 + hz, data[-1][0] + 1)] if data[-1][0] < t1 + hz else []; full = data + more
    fx('mreset m'); fx('mint m ' + interp)
    for r in full: fx('msample m ' + ' '.join(num(v) for v in r))
    meval(fx, 'm', t0, t1); s = toF(fx('msig m')); fx.count('interval against instants', (A, str(t1)))
    for t in (t0, (t0 + t1)/2, t0 + (t1 - t0)*Fr(R.randint(1, 15), 16), t1):
        v = meval(fx, 'm', t)[0]
        fx.ok(eq(v, s(t)), lambda: '%s on %s (%s): at %s the value is %s, but the signal over [%s,%s] has %s there' % (A[0], [[str(q) for q in r] for r in full], interp, t, v, t0, t1, float(s(t))))
PLAN['C11'] = [('locality', locality, 4000, 40000)]

# ------------------------------------------------------------------ C14 settings
def settings(fx, k):
    R = fx.R; f = rformula(R, R.choice([0, 1, 2]), ['and', 'or', 'implies', 'not', 'ev', 'alw']); hz = horizon(f); data = rdata(R, hz + 6, beyond=1)
    load(fx, f, data, 'LINEAR'); cfg = {'d': ['LINEAR', 'SPACE']}; hist = []
    if fx('dcfg d') != 'LINEAR SPACE': fx.fail('a new driver is configured %s' % fx('dcfg d'))
    GOOD = {'int': ['LINEAR', 'PREVIOUS'], 'sem': ['SPACE', 'LEFT_TIME', 'RIGHT_TIME']}; BAD = ['', 'linear', 'NEXT', 'TIME', 'LEFT', 'Previous', 'LINEARX']
    for step in range(R.randint(2, 8)):
        a = R.random(); t = R.choice(list(cfg)); pre = 'd' if t == 'd' else 'm'
        if a < .3 and len(cfg) < 4:
            n = 'm%d' % len(cfg); fx('mon %s d phi' % n); cfg[n] = list(cfg['d']); hist.append('monitor %s taken' % n)
        elif a < .8:
            w = R.choice(['int', 'sem']); i = 0 if w == 'int' else 1; bad = R.random() < .3; v = R.choice(BAD + GOOD['sem' if w == 'int' else 'int']) if bad else R.choice(GOOD[w])
            r = fx('%s%s %s %s' % (pre, w, t, v)); hist.append('%s %s=%s' % (t, w, v)); fx.count('setting ' + ('refused' if bad else 'accepted'), (hist,))
            fx.ok(r == ('!invalid_argument' if bad else 'ok'), lambda: 'setting %s of %s to "%s": %s' % (w, t, v, r))
            if not bad: cfg[t][i] = v
        for t_ in cfg:
            r = fx('%scfg %s' % ('d' if t_ == 'd' else 'm', t_)); fx.ok(r == ' '.join(cfg[t_]), lambda: 'after %s, %s is configured %s, expected %s' % (hist, t_, r, cfg[t_]))
        if R.random() < .7:
            t = R.choice(list(cfg)); t0 = Fr(R.randint(0, 12), 4); it, sem = cfg[t]
            want = robF(f, NAMES, data, {}, it)(t0) if sem == 'SPACE' else robT(f, NAMES, data, it, sem, t0, t0)(t0)
            got = meval(fx, t, t0)[0] if t != 'd' else online(fx, t0)[0]; hist.append('%s evaluated at %s' % (t, t0)); fx.count('evaluation under its own settings', (ftext(f), hist))
            fx.ok(eq(got, want), lambda: '%s on %s: %s configured %s gives %s at %s, expected %s (%s)' % (ftext(f), [[str(v) for v in r] for r in data], t, cfg[t], got, t0, float(want), hist))
    for w, GB in (('interp', GOOD['int']), ('sem', GOOD['sem'])):
        v = R.choice(GB); fx('%s %s' % (w, v)); i = 0 if w == 'interp' else 1; r = fx('geti').split()[i]; fx.ok(r == v, lambda: 'library-wide %s set to %s reads %s' % (w, v, r))
        b = R.choice(BAD[1:]); b = b.strip() + 'Q'; r = fx('%s %s' % (w, b)); fx.ok(r == '!invalid_argument' and fx('geti').split()[i] == v, lambda: 'library-wide %s set to "%s": %s, then %s' % (w, b, r, fx('geti')))
    reset(fx)
PLAN['C14'] = [('histories', settings, 4000, 40000)]
# ------------------------------------------------------------------ C09 copies
def leak(fx, H):
    """bytes that stay allocated after the history is run and every object deleted, beyond what parsing alone leaves (harness built with ASan)"""
    H = [c for c in H if c != 'allocated']
    def grow(cmds):
        v = []
        for _ in range(4):
            for c in cmds: fx(c)
            v.append(int(fx('allocated')))
        return v
    v = grow(H); w = grow([c for c in H if c.split()[0] in ('drv', 'parse')]); fx.count('memory after everything is deleted', (H,))
    fx.ok(not (v[1] - v[0] > w[1] - w[0] and v[2] - v[1] > w[2] - w[1] and v[3] - v[2] > w[3] - w[2]), lambda: 'memory grows each time the same history is run and everything deleted: %s bytes (parsing alone: %s): %s' % (v, w, H[-12:]))
def copies(fx, k):
    R = fx.R; obj = {}; hist = []; nxt = [0]
    def do(c):
        hist.append(c); return fx(c)
    def fresh(p): nxt[0] += 1; return p + str(nxt[0])
    def newdrv():
        n = fresh('d'); do('drv ' + n); par = {p: Fr(R.randint(-3, 3)) for p in ['p'] + R.sample(['q', 'r'], R.choice([0, 1, 1, 2]))}; sg = R.choice([['x', 'y'], ['x', 'y'], ['y', 'x'], ['y', 'w', 'x']])
        fs = {q: rformula(R, R.choice([0, 1, 2]), ALL) for q in R.sample(['phi', 'psi', 'chi', 'om'], R.randint(1, 3))}
        if R.random() < .7: fs['rho'] = ('gt', ('sig', 'x'), ('param', 'p'))
        fx.ok(do('parse %s %s' % (n, ('signal %s\nparam %s\n' % (','.join(sg), ', '.join('%s=%s' % (p, n2s(v)) for p, v in sorted(par.items()))) + ''.join('%s := %s\n' % (a, ftext(b)) for a, b in fs.items())).encode().hex())) == '1', 'formula rejected')
        obj[n] = dict(k='d', fs=fs, par=par, data=[], it='LINEAR', sem='SPACE', sig=sg, tree={})
        for a in fs: obj[n]['tree'][a] = fx('dform %s %s' % (n, a))
    def cp(o): return dict(o, par=dict(o['par']), data=[list(r) for r in o['data']], fs=dict(o['fs']), tree=dict(o['tree']))
    def state(w, n, b=None):
        """times and last results are taken over too"""
        if obj[n]['k'] == 'm':
            a, b = fx('mstate ' + w), b or fx('mstate ' + n); fx.ok(a == b, lambda: 'the copy %s has (results, times, formula) %s, the source %s %s after %s' % (w, a, n, b, hist))
    newdrv()
    for step in range(R.randint(4, 14)):
        ds = [n for n in obj if obj[n]['k'] == 'd']; ms = [n for n in obj if obj[n]['k'] == 'm']; a = R.random()
        if not ds or (a < .06 and len(ds) < 3): newdrv(); continue
        n = R.choice(list(obj)); o = obj[n]; m = o['k'] == 'm'; P = 'mon' if m else 'drv'
        if a < .18:
            d = R.choice(ds); q = R.choice(sorted(obj[d]['fs'])); w = fresh('m'); r = do('mon %s %s %s' % (w, d, q)); c = cp(obj[d]); obj[w] = dict(c, k='m', f=q); fx.ok(r == '1', 'no monitor for ' + q)
        elif a < .22:
            d = R.choice(ds); w = fresh('m'); r = do('mon %s %s nosuch' % (w, d)); obj[w] = dict(k='m', f=None, fs={}, tree={}, par={}, data=[], it='LINEAR', sem='SPACE', sig=[]); fx.ok(r == '0', 'a formula for an undefined name')
        elif a < .3: w = fresh(P[0]); do('%scopy %s %s' % (P, w, n)); obj[w] = cp(o); state(w, n)
        elif a < .42:
            w = R.choice([x for x in obj if obj[x]['k'] == o['k']]); do('%sassign %s %s' % (P, w, n)); obj[w] = cp(o); state(w, n)
        elif a < .5: w = fresh(P[0]); b = m and fx('mstate ' + n); do('%smove %s %s' % (P, w, n)); state(w, n, b); do('%sdel %s' % (P, n)); obj[w] = obj.pop(n)
        elif a < .58:
            ws = [x for x in obj if obj[x]['k'] == o['k'] and x != n]
            if ws: w = R.choice(ws); b = m and fx('mstate ' + n); do('%smoveassign %s %s' % (P, w, n)); state(w, n, b); do('%sdel %s' % (P, n)); obj[w] = obj.pop(n)
        elif a < .66 and len(obj) > 1: do('%sdel %s' % (P, n)); del obj[n]
        elif a < .74 and o['par']: q = R.choice(sorted(o['par'])); v = Fr(R.randint(-3, 3)); do('%sset %s %s %s' % (P[0], n, q, num(v))); o['par'][q] = v
        elif a < .78: v = R.choice(['SPACE', 'SPACE', 'LEFT_TIME', 'RIGHT_TIME']); do('%ssem %s %s' % (P[0], n, v)); o['sem'] = v
        elif a < .82: v = R.choice(['LINEAR', 'PREVIOUS']); do('%sint %s %s' % (P[0], n, v)); o['it'] = v
        elif a < .84 and m: t_ = Fr(R.randint(0, 6), 2); do('mtime %s %s %s' % (n, num(t_), num(t_ + R.randint(0, 3))))
        elif a < .86 and m: do('mreset ' + n); o['data'] = []
        elif not o['fs']: continue
        else:
            for _ in range(R.randint(1, 6)):
                t = (o['data'][-1][0] if o['data'] else Fr(-1)) + R.choice([1, 1, 2, Fr(1, 2)]); row = [t] + [R.randint(-5, 5) for _ in o['sig']]
                do('%s %s %s' % ('msample' if m else 'sample', n, ' '.join(num(v) for v in row))); o['data'].append(row)
        fx.count('step in a history of copies', (len(hist), step, str(hist[-3:])))
        for n in R.sample(sorted(obj), min(3, len(obj))):
            o = obj[n]; m = o['k'] == 'm'; p = 'm' if m else 'd'
            w = fx('%sdata %s' % (p, n)).split(); exp = ' '.join([str(len(o['data']))] + ['%d %s' % (len(r), ' '.join('%.17g' % float(v) for v in r)) for r in o['data']]).split()
            fx.ok(w == exp, lambda: '%s holds the samples %s, expected %s after %s' % (n, w, exp, hist))
            if not o['fs']:
                r = [fx('mparams ' + n), fx('msignals ' + n), ' '.join(fx('mstate ' + n).split()[5:]), fx('mcfg ' + n)]; fx.ok(r == ['0', '0', 'null', o['it'] + ' ' + o['sem']], lambda: 'monitor %s without a formula has %s after %s' % (n, r, hist)); continue
            r = fx('%sparams %s' % (p, n)).split(); exp = [str(len(o['par']))] + [x for q in sorted(o['par']) for x in (q, '%.17g' % float(o['par'][q]))]; fx.ok(r == exp, lambda: 'the parameters of %s are %s, expected %s after %s' % (n, r, exp, hist))
            q = R.choice(sorted(o['par'])); r = fx('%sget %s %s' % (p, n, q)); fx.ok(r[0] != '!' and float(r) == float(o['par'][q]), lambda: 'parameter %s of %s is %s, expected %s after %s' % (q, n, r, o['par'][q], hist))
            r = fx('%scfg %s' % (p, n)); fx.ok(r == o['it'] + ' ' + o['sem'], lambda: '%s is configured %s, expected %s after %s' % (n, r, o['it'], hist))
            r = fx('%ssignals %s' % (p, n)); exp = ' '.join([str(len(o['sig']))] + ['%s %d' % x for x in sorted((q, i + 1) for i, q in enumerate(o['sig']))]); fx.ok(r == exp, lambda: '%s has the signals %s after %s' % (n, r, hist))
            if m:
                r = ' '.join(fx('mstate ' + n).split()[5:]); fx.ok(r == o['tree'][o['f']], lambda: 'the formula of %s is %s, expected %s after %s' % (n, r, o['tree'][o['f']], hist))
            else:
                r = sorted(x.split('=')[0] for x in fx('dformulas ' + n).split(';') if '=' in x); fx.ok(r == sorted(o['fs']), lambda: '%s has the formulas %s, expected %s after %s' % (n, r, sorted(o['fs']), hist))
                for q in o['fs']: r = fx('dform %s %s' % (n, q)); fx.ok(r == o['tree'][q], lambda: 'formula %s of %s is %s, expected %s after %s' % (q, n, r, o['tree'][q], hist))
            if len(o['data']) and R.random() < .6:
                t0 = o['data'][0][0] + Fr(R.randint(0, 4), 2); q = o['f'] if m else R.choice(sorted(o['fs'])); f = subst(o['fs'][q], o['par'])
                got = meval(fx, n, t0)[0] if m else online(fx, t0, drv=n, phi=q)[0]; fx.count('evaluation in a history of copies', (len(hist), str(t0), q))
                if o['sem'] == 'SPACE' and horizon(f) + t0 <= o['data'][-1][0]:
                    want = robF(f, o['sig'], o['data'], {}, o['it'])(t0)
                    fx.ok(eq(got, want), lambda: '%s at %s on %s: %s, expected %s (%s) after %s' % (q, t0, n, got, float(want), ftext(f), hist))
    if k % 40 == 0: leak(fx, hist)
    else: fx('allocated')
PLAN['C09'] = [('histories of copies', copies, 3000, 30000)]
# ------------------------------------------------------------------ C13 robust
def wild(R): return R.choice([0, 1, -1, .5, 1e-9, 1e-300, 1e6, -1e6, 9999.5, 10000, -10000, 12345.678, 1e15, .1, 1/3., -0.0])
def finite(r): return all(u == u and abs(u) < 1e300 for u in map(float, r.split()))
def safe_sig(fx, k):
    R = fx.R; reset(fx)
    def ws():
        n = R.choice([1, 1, 2, 3, 5, 9]); t = R.choice([0, -3, 1e3, .1]); ps = []
        for _ in range(n): ps.append((t, wild(R) if R.random() < .4 else R.randint(-4, 4), 0 if R.random() < .5 else R.choice([1, -1, .1, 1e3, -1e3, 1e-9])) ); t += R.choice([1, .1, .5, 1e-6, 1e-9, 7.3, 100])
        return F(ps, ps[0][0], R.choice([ps[-1][0], ps[-1][0], ps[-1][0] + 1, ps[-1][0] + .1]))
    x, y = ws(), ws() if R.random() < .5 else rsig(R)
    if R.random() < .3: y = F([(t + x.b - y.b, v, d) for t, v, d in y.p], x.b, y.e + x.b - y.b)
    setsig(fx, 'x', x); setsig(fx, 'y', y); A = (show(x), show(y)); a = R.choice([0, .5, 1, 3, 1e-3, 100, 1e4]); b = a + R.choice([0, 0, .1, 1, 2, 1e-6, 50, 1e5])
    for op in ['not', 'ev', 'alw', 'bool', 'left', 'right', 'and', 'or', 'implies', 'until', 'tev', 'talw', 'tuntil', 'pmax', 'pmin', 'bev', 'balw']:
        dirty(fx, 'z')
        if op in ('and', 'or', 'implies', 'until', 'tuntil') and (max(x.b, y.b) > min(x.e, y.e)): continue
        if op in ('bev', 'balw') and not 0 < a < x.e - x.b: continue
        if op in ('pmax', 'pmin') and not 0 < a < x.e - x.b: continue
        r = fx('op %s z x%s%s' % (op, ' y' if op in ('and', 'or', 'implies', 'until', 'tuntil') else '', ' %s %s' % (num(a), num(b)) if op in ('tev', 'talw', 'tuntil') else ' ' + num(a) if op in ('pmax', 'pmin', 'bev', 'balw') else '')); fx.count('operator on unusual signals', (op, A, a, b))
        fx.ok(finite(r), lambda: '%s of %s with %s: %s' % (op, A, (a, b), r)); g = parse(r)
        if op in ('pmax', 'pmin') or not g[2]: continue
        fx.ok(all(v[0] >= u[0] - Fr(1, 10**5) for u, v in zip(g[2], g[2][1:])) and g[2][-1][0] <= g[1] + Fr(1, 10**5), lambda: '%s of %s with %s: sample times out of order: %s' % (op, A, (a, b), r))
def safe(fx, k):
    R = fx.R; interp = R.choice(['LINEAR', 'PREVIOUS']); f = rformula(R, R.choice([1, 2, 3, 4]), ALL, 2 if R.random() < .3 else 1)
    n = R.choice([1, 1, 2, 3, 5, 12]); t = R.choice([0, 0, 0, -2, 5, 1e3]); data = []
    for _ in range(n): data.append([t, wild(R) if R.random() < .3 else R.randint(-4, 4), R.randint(-4, 4)]); t += R.choice([1, .1, .5, 1e-6, 7.3])
    load(fx, f, data, interp); sem = R.choice(['SPACE', 'SPACE', 'LEFT_TIME', 'RIGHT_TIME']); fx('dsem d ' + sem); fx('mon m d phi'); big = any(abs(v) > 1e7 for r in data for v in r)
    for _ in range(3):
        t0 = R.choice([data[0][0], data[-1][0], data[0][0] + .3, data[-1][0] + 5, data[0][0] - 1, 0]); t1 = t0 + R.choice([0, 0, 1, 30])
        d = (ftext(f), t0, t1, interp, sem, data)
        r = fx('online d phi ' + num(t0)); fx.count('partial and unusual data', d); fx.ok(r[0] != '!' and finite(r), lambda: 'online robustness of %s: %s' % (d, r))
        r = fx('meval m %s %s' % (num(t0), num(t1))); fx.ok(r[0] != '!' and finite(r), lambda: 'robustness of %s: %s' % (d, r))
        if not big:
            for c in ('msig', 'mlow', 'mup'):
                r = fx(c + ' m'); g = parse(r); fx.ok(g is not None and all(v[0] >= u[0] - Fr(1, 10**5) for u, v in zip(g[2], g[2][1:])), lambda: '%s of %s: sample times out of order: %s' % (c, d, r))
    if k % 50 == 0: leak(fx, fx.h.log[fx.mark:])
    else: fx('allocated')
PLAN['C13'] = [('operators', safe_sig, 4000, 40000), ('formulas', safe, 3000, 30000)]

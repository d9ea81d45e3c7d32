"""Formula trees, text rendering and exact robustness of a formula on a complete trace (independent oracle)."""
from fractions import Fraction as Fr
from oracle import *
# formula: ('gt'|'lt', expr, expr) ('not',f) ('and'|'or'|'implies',f,g) ('ev'|'alw',a,b,f) ('until',a,b,f,g)
# expr: ('sig',name) ('const',c) ('param',p) ('plus'|'minus'|'mult',e,e) ('abs',e)
def n2s(x):
    x = float(x); s = repr(x)
    return s
def etext(e, top=False):
    k = e[0]
    if k == 'sig': return e[1] + '[t]'
    if k == 'const': return n2s(e[1])
    if k == 'param': return e[1]
    if k == 'abs':
        s = 'abs(' + etext(e[1], True) + ')'
        return s if top else '(' + s + ')'
    s = etext(e[1]) + {'plus': ' + ', 'minus': ' - ', 'mult': ' * '}[k] + etext(e[2])
    return s if top else '(' + s + ')'
def ftext(f):
    k = f[0]
    if k in ('gt', 'lt'): return '(' + etext(f[1], True) + (' > ' if k == 'gt' else ' < ') + etext(f[2], True) + ')'
    if k == 'not': return '(not ' + ftext(f[1]) + ')'
    if k in ('and', 'or', 'implies'): return '(' + ftext(f[1]) + {'and': ' and ', 'or': ' or ', 'implies': ' => '}[k] + ftext(f[2]) + ')'
    i = '[%s, %s]' % tuple(x if isinstance(x, str) else n2s(x) for x in f[1:3])
    if k in ('ev', 'alw'): return '(' + k + '_' + i + ' ' + ftext(f[3]) + ')'
    return '(' + ftext(f[3]) + ' until_' + i + ' ' + ftext(f[4]) + ')'
def horizon(f):
    k = f[0]
    if k in ('gt', 'lt'): return Fr(0)
    if k == 'not': return horizon(f[1])
    if k in ('and', 'or', 'implies'): return max(horizon(f[1]), horizon(f[2]))
    if k in ('ev', 'alw'): return fr(f[2]) + horizon(f[3])
    return fr(f[2]) + max(horizon(f[3]), horizon(f[4]))
def esample(e, sv, par):
    k = e[0]
    if k == 'sig': return sv[e[1]]
    if k == 'const': return fr(e[1])
    if k == 'param': return fr(par[e[1]])
    if k == 'abs': return abs(esample(e[1], sv, par))
    a, b = esample(e[1], sv, par), esample(e[2], sv, par)
    return a + b if k == 'plus' else a - b if k == 'minus' else a*b
def atomF(f, names, data, par, interp):
    ps = []
    rows = [[fr(x) for x in r] for r in data]
    vals = []
    for r in rows:
        sv = dict(zip(names, r[1:]))
        L, R = esample(f[1], sv, par), esample(f[2], sv, par)
        vals.append(L - R if f[0] == 'gt' else R - L)
    n = len(rows)
    for i in range(n):
        d = Fr(0)
        if interp == 'LINEAR' and i + 1 < n: d = (vals[i+1] - vals[i])/(rows[i+1][0] - rows[i][0])
        ps.append((rows[i][0], vals[i], d))
    return F(ps, rows[0][0], rows[-1][0])
def until(f, g, a, b, lo, hi):
    """exact on a finite set of times is hard in general: pointwise evaluation"""
    raise NotImplementedError
def until_at(x, y, a, b, t):
    """sup_{t' in [t+a, min(t+b,e)]} min( y(t'), inf_{[t,t']} x )  by scanning the merged breakpoints"""
    e = min(x.e, y.e); best = None; run = None
    lo, hi = t + a, min(t + b, e)
    if lo > hi: return None
    ts = sorted({t, lo, hi} | {u for u in x.ts + y.ts if t < u < hi})
    run = x(t)
    def cand(v):
        nonlocal best
        best = v if best is None or v > best else best
    for i, u in enumerate(ts):
        run = min(run, x(u))
        if u >= lo: cand(min(run, y(u)))
        if i + 1 < len(ts):
            w = ts[i+1]
            # on (u,w): x and y linear; inf x over [t,s] = min(run, x(s)) if decreasing else run
            xu, xw, yu, yw = x(u), x.left(w), y(u), y.left(w)
            if u >= lo:
                # maximise min(run, x(s) (if x decreasing), y(s)) over s in [u,w]
                dx, dy = (xw-xu), (yw-yu)
                c = [Fr(0), Fr(1)]
                if dy != 0: c.append((run-yu)/dy)
                if dx < 0:
                    c.append((run-xu)/dx)
                    if dx != dy: c.append((yu-xu)/(dx-dy))
                for q in c:
                    if 0 <= q <= 1:
                        v = min(run, yu + q*dy)
                        if dx < 0: v = min(v, xu + q*dx)
                        cand(v)
            run = min(run, xw, xu)
    return best
def robF(f, names, data, par, interp, T=None):
    """robustness signal of f over [t_first, T - horizon(f)]"""
    k = f[0]
    if k in ('gt', 'lt'): return atomF(f, names, data, par, interp)
    if k == 'not': return neg(robF(f[1], names, data, par, interp))
    if k in ('and', 'or', 'implies'):
        x, y = robF(f[1], names, data, par, interp), robF(f[2], names, data, par, interp)
        if x is None or y is None: return None
        if k == 'implies': x = neg(x)
        return pointwise(x, y, min if k == 'and' else max)
    a, b = [fr(par[v]) if isinstance(v, str) else fr(v) for v in f[1:3]]
    if k in ('ev', 'alw'):
        x = robF(f[3], names, data, par, interp)
        if x is None or x.e - b < x.b: return None
        g = window(x, a, b, max if k == 'ev' else min)
        return restrict(g, x.b, x.e - b)
    x, y = robF(f[3], names, data, par, interp), robF(f[4], names, data, par, interp)
    if x is None or y is None: return None
    return UntilF(x, y, a, b)
def robP(f, names, data, interp, t):
    """robustness signal from t on over data that need not cover the windows: every window is cut at the end of what its operand has; None: nothing there"""
    k = f[0]
    if k in ('gt', 'lt'):
        g = atomF(f, names, data, {}, interp)
        return g if g.b <= t <= g.e else None
    if k == 'not':
        x = robP(f[1], names, data, interp, t); return x and neg(x)
    if k in ('and', 'or', 'implies'):
        x, y = robP(f[1], names, data, interp, t), robP(f[2], names, data, interp, t)
        if x is None or y is None or x.e != y.e: return None        # operands that end at different times: no statement
        return pointwise(neg(x) if k == 'implies' else x, y, min if k == 'and' else max)
    a, b = fr(f[1]), fr(f[2])
    if k in ('ev', 'alw'):
        x = robP(f[3], names, data, interp, t + a)
        if x is None or x.e < t + a: return None
        return window(x, a, b, max if k == 'ev' else min)
    x, y = robP(f[3], names, data, interp, t), robP(f[4], names, data, interp, t + a)
    if x is None or y is None or min(x.e, y.e) < t + a: return None
    g = pointwise(window(y, 0, b - a, max), untilU(x, y), min)
    return pointwise(window(x, 0, a, min), shift(g, -a), min)
def restrict(g, lo, hi):
    if hi < lo: return None
    if hi == lo: return F([(lo, g(lo), 0)], lo, hi)
    ps = [(lo, g(lo), g.p[g.idx(lo)][2])] + [q for q in g.p if lo < q[0] < hi] + [(hi, g(hi), 0)]
    return F(ps, lo, hi)
def untilU(x, y):
    """exact untimed until: t -> sup_{t' in [t,e]} min(y(t'), inf_[t,t'] x), by backward recursion over the merged pieces"""
    lo, hi = max(x.b, y.b), min(x.e, y.e)
    Ue = min(x(hi), y(hi))
    if lo == hi: return F([(lo, Ue, 0)], lo, hi)
    ts = grid([x, y], lo, hi); out = [(hi, Ue, 0)]
    for s, e in reversed(list(zip(ts, ts[1:]))):
        (vx, dx), (vy, dy) = (x(s), x.p[x.idx(s)][2]), (y(s), y.p[y.idx(s)][2])
        xe, ye = vx + dx*(e-s), vy + dy*(e-s)
        if dx >= 0:
            top = max(ye, Ue)
            m = env_lines([(vy, dy), (top, Fr(0))], s, e, max)
        else:
            top = max(min(xe, ye), min(xe, Ue))
            m = []
            q = env_lines([(vx, dx), (vy, dy)], s, e, min)       # concave: suffix max is flat up to the peak
            pk = max([(v, t) for t, v, d in q] + [(min(xe, ye), e)])
            for k, (t, v, d) in enumerate(q):
                if d > 0: v, d = pk[0], Fr(0)
                m.append((t, v, d))
            m2 = []
            for k, (t, v, d) in enumerate(m):
                w = m[k+1][0] if k+1 < len(m) else e
                m2 += env_lines([(v, d), (top, Fr(0))], t, w, max)
            m = m2
        if dx >= 0:
            m2 = []
            for k, (t, v, d) in enumerate(m):
                w = m[k+1][0] if k+1 < len(m) else e
                m2 += env_lines([(v, d), (vx + dx*(t-s), dx)], t, w, min)
            m = m2
        out = m + out
        # U at s (right-continuous value) joined with the left limit of x, y just before s
        Ue = m[0][1]
    return norm(out, lo, hi)
def UntilF(x, y, a, b):
    """phi U_[a,b] psi (t) = min( inf_[t,t+a] phi, sup_[t+a,t+b] psi, (phi U psi)(t+a) ), exact"""
    lo, hi = max(x.b, y.b), min(x.e, y.e) - b
    if hi < lo: return None
    g = pointwise(window(y, 0, b - a, max), untilU(x, y), min)
    g = pointwise(window(x, 0, a, min), shift(g, -a), min)
    return restrict(g, lo, hi)

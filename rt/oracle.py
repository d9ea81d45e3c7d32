"""Independent executable oracle: exact rational piecewise-linear functions and STL quantitative semantics."""
from fractions import Fraction as Fr
import bisect

def fr(x):
    return x if isinstance(x, Fr) else Fr(x)

class F:
    """right-continuous piecewise-linear function on [b,e]; pieces (t,v,d), t strictly increasing, first t == b.
    `at_end` : value at e (a last piece may start at e)."""
    def __init__(s, pieces, b, e):
        s.p = [(fr(t), fr(v), fr(d)) for t, v, d in pieces]
        s.b, s.e = fr(b), fr(e)
        s.ts = [q[0] for q in s.p]
    def idx(s, t):
        return max(0, bisect.bisect_right(s.ts, t) - 1)
    def __call__(s, t):
        t = fr(t)
        k = s.idx(t); q = s.p[k]
        return q[1] + q[2]*(t - q[0])
    def left(s, t):
        """left limit at t (t > b)"""
        t = fr(t)
        k = max(0, bisect.bisect_left(s.ts, t) - 1); q = s.p[k]
        return q[1] + q[2]*(t - q[0])
    def breaks(s, lo, hi):
        return [t for t in s.ts if lo < t < hi]

def grid(fs, lo, hi, extra=()):
    ts = {lo, hi}
    for f in fs:
        ts.update(f.breaks(lo, hi))
    ts.update(t for t in extra if lo < t < hi)
    return sorted(ts)

def norm(pieces, b, e):
    out = []
    for t, v, d in pieces:
        if out and out[-1][2] == d and out[-1][1] + d*(t - out[-1][0]) == v:
            continue
        out.append((t, v, d))
    return F(out, b, e)

def env_lines(lines, lo, hi, pick):
    """upper/lower envelope (pick=max/min) on [lo,hi] of lines (v_at_lo, slope) -> pieces"""
    cuts = {lo, hi}
    for i in range(len(lines)):
        for j in range(i):
            (v1, d1), (v2, d2) = lines[i], lines[j]
            if d1 != d2:
                c = lo + (v2 - v1)/(d1 - d2)
                if lo < c < hi: cuts.add(c)
    cs = sorted(cuts); out = []
    for a, b in zip(cs, cs[1:]):
        m = (a + b)/2
        v, d = pick(lines, key=lambda l: l[0] + l[1]*(m - lo))
        out.append((a, v + d*(a - lo), d))
    return out

def pointwise(f, g, pick, b=None, e=None):
    b = max(f.b, g.b) if b is None else b
    e = min(f.e, g.e) if e is None else e
    if e < b: return None
    if b == e:
        return F([(b, pick(f(b), g(b)), 0)], b, e)
    out = []
    ts = grid([f, g], b, e)
    for lo, hi in zip(ts, ts[1:]):
        pf, pg = f.p[f.idx(lo)], g.p[g.idx(lo)]
        out += env_lines([(f(lo), pf[2]), (g(lo), pg[2])], lo, hi, pick)
    # value at the closed end
    out.append((e, pick(f(e), g(e)), 0))
    return norm(out, b, e)

def neg(f):
    return F([(t, -v, -d) for t, v, d in f.p], f.b, f.e)

def shift(f, a):
    return F([(t + a, v, d) for t, v, d in f.p], f.b + a, f.e + a)

def window(f, a, b, pick, lo=None, hi=None, closed=True):
    """g(t) = sup/inf over [t+a, min(t+b, f.e)] of f (with left limits at breakpoints), t in [f.b-a, f.e-a]"""
    a, b = fr(a), fr(b)
    lo = f.b - a if lo is None else lo
    hi = f.e - a if hi is None else hi
    bk = sorted(set(f.ts) | {f.b, f.e})
    def val(t):
        l, h = t + a, min(t + b, f.e)
        l = max(l, f.b)
        c = [f(l)]
        if h > l: c += [f.left(h)]
        if closed or h < f.e: c.append(f(h))
        for x in bk:
            if l < x < h or (x == h and h > l): c.append(f.left(x))
            if l < x < h: c.append(f(x))
        return pick(c)
    if lo == hi:
        return F([(lo, val(lo), 0)], lo, hi)
    cuts = sorted({lo, hi} | {x - a for x in bk if lo < x - a < hi} | {x - b for x in bk if lo < x - b < hi})
    out = []
    for s, t in zip(cuts, cuts[1:]):
        m = (s + t)/2
        lines = []
        pl = f.p[f.idx(max(m + a, f.b))]
        if m + a < f.b: lines.append((f(f.b), Fr(0)))
        else: lines.append((pl[1] + pl[2]*(s + a - pl[0]), pl[2]))
        if m + b < f.e:
            ph = f.p[f.idx(m + b)]
            if m + b >= f.b:
                lines.append((ph[1] + ph[2]*(s + b - ph[0]), ph[2]))
        c = [f.left(x) for x in bk if m + a < x <= m + b and x > f.b] + [f(x) for x in bk if m + a < x <= m + b and (closed or x < f.e)]
        if c: lines.append((pick(c), Fr(0)))
        out += env_lines(lines, s, t, pick)
    out.append((hi, val(hi), 0))
    return norm(out, lo, hi)

def diff(f, g, lo, hi, tol=Fr(1, 10**6), closed=False):
    """first point in [lo,hi) (or [lo,hi]) where f and g differ by more than tol, else None"""
    if lo == hi:
        return None if abs(f(lo) - g(lo)) <= tol else (lo, f(lo), g(lo))
    ts = grid([f, g], lo, hi)
    for a, b in zip(ts, ts[1:]):
        if b - a < Fr(1, 10**7): continue      # slivers created by rounding of breakpoints
        for x in (a + (b-a)/1000, (a + b)/2, b - (b-a)/1000):
            if abs(f(x) - g(x)) > tol*(1 + abs(f(x))): return (x, f(x), g(x))
    if abs(f(lo) - g(lo)) > tol*(1 + abs(f(lo))): return (lo, f(lo), g(lo))
    if closed and abs(f(hi) - g(hi)) > tol*(1+abs(f(hi))): return (hi, f(hi), g(hi))
    return None

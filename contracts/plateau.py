"""Contracts of the window operators: plateauMax/plateauMin (monotone queue) and what is built on them."""
from base import *
import sigops
from sigops import in_dom
from temporal import BOT, TOPV

# ------------------------------------------------------------------ supremum of x over [th, min(th+a, end)]
def plus(t, a): return t if is0(rv(a)) else t + a
def minus(t, a): return t if is0(rv(a)) else t - a
def wend(x, th, a): return rmin(plus(th, a), x.end)
def wsup(c, x, th, a, F=SUPF):
    b = wend(x, th, a); return c.w.sup(x.q, th, x.seg(b), b, F)
def bt(x, k): return If(k == x.hi, x.end, x.T(k))
def bval(c, x, k, D):
    """value listed for breakpoint k: of x and its left limit there"""
    M2, base = (rmax, BOT) if D else (rmin, TOPV)
    return If(k == x.lo, x.V(x.lo), If(k < x.hi, M2(x.V(k), x.L(k - 1, x.T(k))), M2(base(c.old), x.L(x.hi - 1, x.end))))
def plateau(fn, D):
    """D: max (True) or min"""
    M2, F = (rmax, SUPF) if D else (rmin, INFF)
    base = BOT if D else TOPV
    le = (lambda p, q: p <= q) if D else (lambda p, q: p >= q)
    def bv(c, x, k): return bval(c, x, k, D)
    def src(M, j): return M.q.arr['src'][j]
    def X(c): return c.old.sig('x')
    def pre(c):
        x, a = X(c), c.old['a']
        return pre_names('x', wf(x)) + [('window', And(0 < a, a <= x.end - x.begin))]
    def qy(c, p): return p - c.new.sig('y').hi + X(c).hi + 1                # breakpoint described by entry p of y
    def yrel(c):
        x, y = X(c), c.new.sig('y')
        return QF(lambda p: Implies(And(y.lo <= p, p < y.hi), And(y.T(p) == bt(x, qy(c, p)), y.V(p) == bv(c, x, qy(c, p)))), lambda p: [y.T(p), y.V(p)])
    # -------- loop 0: list the breakpoints, last first
    def inv0(c):
        x, y, j = X(c), c.new.sig('y'), c.new.it('j').idx
        return [('inside', And(x.lo - 1 <= j, j < x.hi)), ('one entry per piece', y.hi - y.lo == x.hi - 1 - j), ('breakpoints', yrel(c)),
                ('t and v', And(c.new['t'] == If(j == x.hi - 1, x.end, x.T(j + 1)), c.new['v'] == If(j == x.hi - 1, base(c.old), x.V(j + 1))))]
    l0 = LoopC(inv0, variant=lambda c: c.new.it('j').idx - X(c).lo + 1)
    # -------- the queue of candidates
    def queue(c, pops=False, reg=None):
        """entries come from y[..i), in order, each the best of what follows its predecessor"""
        y, M, i = c.new.sig('y'), c.new.sig('M'), c.new.it('i').idx; j, p, b = Ints('j_ p_ b_')
        reg = reg or (lambda p: BoolVal(True))
        L = [('entries come from y', ForAll([j], Implies(And(M.lo <= j, j < M.hi), And(y.lo <= src(M, j), src(M, j) < i, M.T(j) == y.T(src(M, j)), M.V(j) == y.V(src(M, j)))), patterns=[M.T(j), M.V(j)])),
             ('entries in order', ForAll([j, b], Implies(And(M.lo <= j, j < b, b < M.hi), src(M, j) < src(M, b)), patterns=[MultiPattern(src(M, j), src(M, b))])),
             ('better entries first', ForAll([j, b], Implies(And(M.lo <= j, j < b, b < M.hi), le(M.V(b), M.V(j))), patterns=[MultiPattern(M.V(j), M.V(b))])),
             ('an entry is the best of what follows its predecessor', ForAll([b, p], Implies(And(M.lo < b, b < M.hi, src(M, b - 1) < p, p < i), le(y.V(p), M.V(b))), patterns=[MultiPattern(M.V(b), y.V(p))])),
             ('first entry is the best', ForAll([p], Implies(And(M.lo < M.hi, y.lo <= p, p < i, reg(p)), le(y.V(p), M.V(M.lo))), patterns=[y.V(p)]))]
        if pops: L.append(('removed entries are not better', ForAll([p], Implies(And(y.lo <= p, p < i, reg(p), Or(M.lo == M.hi, src(M, M.hi - 1) < p)), le(y.V(p), y.V(i))), patterns=[y.V(p)])))
        else: L += [('last entry is the newest', Implies(M.lo < M.hi, src(M, M.hi - 1) == i - 1)), ('empty queue', ForAll([p], Implies(And(M.lo == M.hi, y.lo <= p, p < i), Not(reg(p))), patterns=[y.V(p), y.T(p)]))]
        return L
    def ybase(c):
        x, y = X(c), c.new.sig('y')
        return [('breakpoints', yrel(c)), ('breakpoint times increase', sorted_le(y.q)), ('breakpoint count', y.hi - y.lo == x.hi - x.lo + 1)]
    # -------- loops 1 and 2: entries before begin + a
    def inv1(c):
        x, y, i, M = X(c), c.new.sig('y'), c.new.it('i').idx, c.new.sig('M')
        return ybase(c) + [('inside', And(y.lo <= i, i < y.hi)), ('read so far', Implies(y.lo < i, y.T(i - 1) < x.begin + c.old['a'])), ('not empty', Implies(y.lo < i, M.lo < M.hi))] + queue(c)
    l1 = LoopC(inv1, variant=lambda c: c.new.sig('y').hi - c.new.it('i').idx)
    l2 = LoopC(lambda c: queue(c, True), variant=lambda c: c.new.sig('M').hi - c.new.sig('M').lo)
    # -------- loop 3: one event per round; loop 4: entries a new one beats
    def first(c): z = c.new.sig('z'); return z.lo == z.hi
    def inv3(c):
        x, y, i, M, z = X(c), c.new.sig('y'), c.new.it('i').idx, c.new.sig('M'), c.new.sig('z'); a = c.old['a']
        t, nc, ec, co = c.new['t'], c.new['new_candidate'], c.new['end_candidate'], c.new['cont']; k = Int('k_')
        zt = If(first(c), x.begin, z.T(z.hi - 1))
        return ybase(c) + [('inside', And(y.lo < i, i <= y.hi)), ('read so far', y.T(i - 1) <= zt + a), ('next breakpoint', Implies(i < y.hi, t + a <= y.T(i))), ('next entry', Implies(M.lo < M.hi, t <= M.T(M.lo))),
            ('entry ends', Implies(ec, And(M.lo < M.hi, M.T(M.lo) == t))), ('breakpoint comes', Implies(nc, And(i < y.hi, y.T(i) == t + a))), ('flags', co == Or(nc, ec, first(c))),
            ('first round', Implies(first(c), And(t == x.begin, Not(ec), M.lo < M.hi))), ('z starts at begin', Implies(Not(first(c)), And(z.T(z.lo) == x.begin, z.T(z.hi - 1) <= t))), ('z times increase', sorted_q(z.q)),
            ('z is constant', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.D(k) == 0), patterns=[z.D(k), z.V(k), z.T(k)])), ('z grows', z.lo <= z.hi),
            ('last value', Implies(Not(first(c)), z.V(z.hi - 1) == If(M.lo < M.hi, M.V(M.lo), base(c.old)))), ('inside the domain', t <= x.end), ('z domain', And(z.begin == x.begin, z.end == x.end)),
            ('finished', Implies(Not(co), And(M.lo == M.hi, i == y.hi, z.T(z.hi - 1) == x.end)))] + queue(c, reg=lambda p: Or(first(c), y.T(p) > z.T(z.hi - 1)))
    def done(c, th):
        x = X(c); return And(Not(first(c)), x.begin <= th, th <= x.end, Or(th < c.new['t'], Not(c.new['cont'])))
    def hint3(c, th):
        """the value shown is that of a breakpoint of the window"""
        x, M = X(c), c.new.sig('M'); b = wend(x, th, c.old['a']); k = qy(c, src(M, M.lo)); u = lambda j, w: c.w.sup_ub(x.q, th, x.seg(b), b, j, w, F)
        y = c.new.sig('y'); s_ = src(M, M.lo)
        return [u(k, x.T(k)), u(k - 1, x.T(k)), u(k - 1, x.end), mark(y.V(s_)), mark(y.T(s_)), mark(M.V(M.lo)), mark(x.T(k))]
    def pw3(c):
        x, y, z, a = X(c), c.new.sig('y'), c.new.sig('z'), c.old['a']
        return [('z', 'not below the breakpoints of the window', lambda th: QF(lambda p: Implies(And(done(c, th), y.lo <= p, p < y.hi, th < y.T(p), y.T(p) <= th + a), le(y.V(p), z.at(th))), lambda p: [y.V(p), y.T(p)], sort=I, name='p')),
                ('z', 'not above the supremum', lambda th: Implies(done(c, th), le(z.at(th), M2(base(c.old), wsup(c, x, th, a, F)))), lambda th: hint3(c, th))]
    l3 = LoopC(inv3, pw3, variant=lambda c: 2*(c.new.sig('y').hi - c.new.it('i').idx) + (c.new.sig('M').hi - c.new.sig('M').lo) + If(first(c), IntVal(1), IntVal(0)))
    def inv4(c):
        y, z = c.new.sig('y'), c.new.sig('z')
        M, M0 = c.new.sig('M'), c.head.sig('M')
        return [('only removes', And(M.lo == M0.lo, M.hi <= M0.hi)), ('next entry', Implies(M.lo < M.hi, c.new['t'] <= M.T(M.lo)))] + queue(c, True, reg=lambda p: Or(first(c), y.T(p) > c.new['t']))
    l4 = LoopC(inv4, variant=lambda c: c.new.sig('M').hi - c.new.sig('M').lo)
    # -------- contract
    def post(c):
        x, z = X(c), c.rsig()
        return pre_names('result', wf(z)) + [('domain kept', And(z.begin == x.begin, z.end == x.end))]
    def pw_post(c):
        x, z, a = X(c), c.rsig(), c.old['a']
        def hint(th):
            if c.caller: return None
            y = c.new.sig('y'); return lambda k: [mark(y.T(k - x.hi - 1 + y.hi)), mark(y.V(k - x.hi - 1 + y.hi))]
        return [('result', 'not below the breakpoints of the window', lambda th: QF(lambda k: Implies(And(in_dom(x, th), x.lo <= k, k <= x.hi, th < bt(x, k), bt(x, k) <= th + a), le(bv(c, x, k), z.at(th))), lambda k: [IDX(k)], hint(th))),
                ('result', 'not above the supremum', lambda th: Implies(in_dom(x, th), le(z.at(th), M2(base(c.old), wsup(c, x, th, a, F)))))]
    contract(fn, params=('x', 'a'), pre=pre, post=post, pw_post=pw_post, loops=[l0, l1, l2, l3, l4], weight=20)
plateau('plateauMax', True)
plateau('plateauMin', False)

# ------------------------------------------------------------------ bounded window: [th, th + a] cut at the end
def win_hint(c, x, th, a, F, D):
    """where the supremum is reached, and what bounds it: everything the argument uses, as steps of their own"""
    M2 = rmax if D else rmin; le = (lambda p, q: p <= q) if D else (lambda p, q: p >= q); base = (BOT if D else TOPV)(c.old)
    z, z1 = c.rsig(), c.new.sig('z1'); b = wend(x, th, a); k0, ks = x.seg(b), x.seg(th); sup = wsup(c, x, th, a, F)
    j, w, l = c.w.sup_wit(x.q, th, k0, b, F); nx = th + a < x.end; ok = in_dom(x, th)
    bt_, bv_ = lambda k: bt(x, k), lambda k: bval(c, x, k, D); seen = lambda k: And(th < bt_(k), bt_(k) <= th + a)
    st = [('value', Implies(ok, z.at(th) == M2(x.at(th), M2(If(nx, x.at(th + a), base), z1.at(th))))),
          ('piece at the time', Implies(ok, And(x.lo <= ks, ks < x.hi, x.at(th) == x.L(ks, th), Implies(And(j > ks, j < x.hi), th < x.T(j)), Implies(And(j >= ks, j + 1 < x.hi), th < x.T(j + 1)), Implies(ks + 1 < x.hi, th < x.T(ks + 1)), x.T(x.lo) == x.begin))),
          ('piece at the end', Implies(ok, And(x.lo <= k0, k0 < x.hi))), ('piece at the end starts before', Implies(ok, x.T(k0) <= b)), ('last piece', Implies(And(ok, Not(nx)), k0 == x.hi - 1)), ('pieces in order', Implies(ok, ks <= k0)),
          ('value at the end', Implies(And(ok, nx), x.at(th + a) == x.L(k0, b)), [x.at(th + a)]), ('pieces between', Implies(And(ok, x.lo <= j, j < k0), x.T(j + 1) <= b)),
          ('last sample', x.T(x.hi - 1) <= x.end), ('upper bound', Implies(ok, le(z1.at(th), M2(base, sup)))), ('domain', And(0 < a, x.begin < x.end)), ('increasing', sorted_le(x.q))]
    for n, k in (('breakpoint', j), ('next breakpoint', j + 1), ('last breakpoint', x.hi)): st.append((n, Implies(And(ok, x.lo <= k, k <= x.hi, seen(k)), le(bv_(k), z1.at(th))), [mark(k), z1.at(th)]))
    return [Cut(st), l, c.w.sup_ub(x.q, th, k0, b, ks, th, F), c.w.sup_ub(x.q, th, k0, b, k0, b, F)]
def bounded(fn, D):
    M2, F = (rmax, SUPF) if D else (rmin, INFF); base = BOT if D else TOPV
    def X(c): return c.old.sig('x')
    def pre(c): return pre_names('x', wf(X(c))) + [('window', And(0 < c.old['a'], c.old['a'] <= X(c).end - X(c).begin))]
    def post(c): x, z = X(c), c.rsig(); return pre_names('result', wf(z)) + [('domain kept', And(z.begin == x.begin, z.end == x.end))]
    def pw(c):
        x, z, a = X(c), c.rsig(), c.old['a']
        return [('result', 'supremum over the window' if D else 'infimum over the window', lambda th: Implies(in_dom(x, th), M2(base(c.old), z.at(th)) == M2(base(c.old), wsup(c, x, th, a, F))), lambda th: [] if c.caller else win_hint(c, x, th, a, F, D))]
    contract(fn, params=('x', 'a'), pre=pre, post=post, pw_post=pw)
bounded('computeBoundedEventually', True)
bounded('computeBoundedGlobally', False)

# ------------------------------------------------------------------ any window [th + a, th + b]: shifted, then punctual, bounded or unbounded
def moved_hint(c, x, th, a, w, F, D):
    M2 = rmax if D else rmin; base = (BOT if D else TOPV)(c.old); y, z = c.new.sig('y'), c.new.sig('this'); long = w >= x.end - x.begin
    bx, by = wend(x, th + a, w), wend(y, th, w); kx, ky, k0x, k0y = x.seg(th + a), y.seg(th), x.seg(bx), y.seg(by); sx, sy = wsup(c, x, th + a, w, F), wsup(c, y, th, w, F)
    j, u, l1 = c.w.sup_wit(x.q, th + a, k0x, bx, F); j2, u2, l2 = c.w.sup_wit(y.q, th, k0y, by, F); ok = And(x.begin <= th + a, th + a <= x.end, w > 0)
    same = lambda k: Implies(And(x.lo <= k, k < x.hi), And(y.T(k) == x.T(k) - a, y.V(k) == x.V(k), y.D(k) == x.D(k)))
    st = [('window operator', Implies(ok, M2(base, z.at(th)) == M2(base, If(long, c.w.sup(y.q, th, y.hi - 1, y.end, F), sy)))), ('unbounded window', Implies(And(ok, long), c.w.sup(y.q, th, y.hi - 1, y.end, F) == sy)),
          ('same pieces', Implies(ok, And(y.lo == x.lo, y.hi == x.hi, y.begin == x.begin - a, y.end == x.end - a, kx == ky, k0x == k0y, x.lo <= kx, kx <= k0x, k0x < x.hi, x.T(k0x) <= bx)), [x.at(th + a), y.at(th), x.at(bx), y.at(by)]),
          ('increasing', sorted_le(x.q)), ('increasing too', sorted_le(y.q))] + [('sample %d' % i, same(k)) for i, k in enumerate((j, j + 1, j2, j2 + 1, k0x))]
    return [Cut(st), l1, l2, moved_lem(y, j, x, j, -a, u), moved_lem(x, j2, y, j2, a, u2), c.w.sup_ub(x.q, th + a, k0x, bx, j2, u2 + a, F), c.w.sup_ub(y.q, th, k0y, by, j, u - a, F)]
def timed(fn, D):
    M2, F = (rmax, SUPF) if D else (rmin, INFF); base = BOT if D else TOPV
    def X(c): return c.old.sig('x')
    def ne(c): return X(c).lo < X(c).hi
    def pre(c): return pre_names('x', [('empty or well formed', Or(X(c).lo == X(c).hi, And([f for _, f in wf(X(c))])))]) + [('window', And(0 <= c.old['a'], c.old['a'] <= c.old['b']))]
    def post(c):
        x, z, a = X(c), c.new.sig('this'), c.old['a']
        return [('empty stays empty', Implies(Not(ne(c)), z.lo == z.hi))] + [(n, Implies(ne(c), f)) for n, f in pre_names('result', wf(z)) + [('domain moved', And(z.begin == minus(x.begin, a), z.end == minus(x.end, a)))]]
    def pw(c):
        x, z, a, b = X(c), c.new.sig('this'), c.old['a'], c.old['b']
        return [('this', 'value at a', lambda th: Implies(And(ne(c), a == b, x.begin <= plus(th, a), plus(th, a) <= x.end), z.at(th) == x.at(plus(th, a)))),
                ('this', 'supremum over the window' if D else 'infimum over the window', lambda th: Implies(And(ne(c), a < b, x.begin <= plus(th, a), plus(th, a) <= x.end), M2(base(c.old), z.at(th)) == M2(base(c.old), wsup(c, x, plus(th, a), minus(b, a), F))),
                 lambda th: [] if c.caller else moved_hint(c, x, th, a, minus(b, a), F, D))]
    contract(fn, params=('x', 'a', 'b'), pre=pre, post=post, pw_post=pw, modifies=('this',))
timed('Signal::compute_timed_eventually', True)
timed('Signal::compute_timed_globally', False)
def member(fn, D):
    M2, F = (rmax, SUPF) if D else (rmin, INFF); base = BOT if D else TOPV
    def X(c): return c.old.sig('x')
    def ne(c): return X(c).lo < X(c).hi
    def pre(c): return pre_names('x', [('empty or well formed', Or(X(c).lo == X(c).hi, And([f for _, f in wf(X(c))])))]) + [('window', Implies(ne(c), And(0 < c.old['a'], c.old['a'] <= X(c).end - X(c).begin)))]
    def post(c):
        x, z = X(c), c.new.sig('this')
        return [('empty stays empty', Implies(Not(ne(c)), z.lo == z.hi))] + [(n, Implies(ne(c), f)) for n, f in pre_names('result', wf(z)) + [('domain kept', And(z.begin == x.begin, z.end == x.end))]]
    def pw(c):
        x, z, a = X(c), c.new.sig('this'), c.old['a']
        return [('this', 'supremum over the window' if D else 'infimum over the window', lambda th: Implies(And(ne(c), in_dom(x, th)), M2(base(c.old), z.at(th)) == M2(base(c.old), wsup(c, x, th, a, F))))]
    contract(fn, params=('x', 'a'), pre=pre, post=post, pw_post=pw, modifies=('this',))
member('Signal::compute_bounded_eventually', True)
member('Signal::compute_bounded_globally', False)

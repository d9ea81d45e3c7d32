"""Contracts of until."""
from base import *
import sigops, temporal
from sigops import recL, in_dom
from temporal import BOT, TOPV
def low(c, x, th, u):
    """infimum of x over [th, u], left limits included"""
    return c.w.sup(x.q, th, x.seg(u), u, INFF)
def un_low(c, z, x, y, dom, e):
    """f until g is not below min(g(u), inf f over [th, u]) for any u in [th, e]"""
    return Two(lambda th, u, w: Implies(And(dom(th), th <= u, u <= e), z.at(th) >= rmin(y.at(u), low(c, x, th, u))), name='u')
def un_up(c, z, x, y, dom, e, wits=()):
    """and is approached by them: every p below it is exceeded at some w in [th, e]"""
    return Two(lambda th, p, w: Implies(And(dom(th), p >= BOT(c.old), p < z.at(th)), And(th <= w, w <= e, p < y.at(w), p < low(c, x, th, w))), wits, name='p')
def piece(X, t, start=None):
    """the sample in force at t"""
    s = X.seg(t); return ('piece', Implies((X.begin if start is None else start) <= t, And(X.lo <= s, s < X.hi, X.T(s) <= t, Or(s + 1 == X.hi, t < X.T(s + 1)), X.at(t) == X.L(s, t))), [X.at(t)])
# ------------------------------------------------------------------ one piece i of f on [i.time, t)
def seg():
    def I_(c, th): return recL(c.old, 'i', th)
    def pre(c):
        z, J, j = c.old.sig('z'), c.old.sig('j'), c.old.it('j'); t, it = c.old['t'], c.old['i.time']
        return [('z times increase', sorted_q(z.q)), ('z starts at t', And(z.lo < z.hi, z.T(z.lo) == t)), ('j times increase', sorted_q(J.q)), ('j inside', And(J.lo <= j.idx, j.idx < J.hi)), ('segment', it < t),
                ('j covers the start', J.T(J.lo) <= it), ('j is the piece before t', J.T(j.idx) < t), ('next of j is not before t', Or(j.idx + 1 == J.hi, t <= J.T(j.idx + 1)))]
    def post(c):
        z, z0, J, j = c.new.sig('z'), c.old.sig('z'), c.old.sig('j'), c.new.it('j'); it = c.old['i.time']
        return [('z times increase', sorted_q(z.q)), ('z not empty', z.lo < z.hi), ('z starts at the segment', z.T(z.lo) == it), ('last time kept', z.T(z.hi-1) <= z0.T(z0.hi-1)), ('first value', z.V(z.lo) == z.at(it)),
                ('j inside', And(J.lo <= j.idx, j.idx < J.hi, j.idx <= c.old.it('j').idx)), ('j covers the start', J.T(j.idx) <= it), ('next of j is not before the start', Or(j.idx + 1 == J.hi, it <= J.T(j.idx + 1)))]
    def dom(c, th): return And(c.old['i.time'] <= th, th < c.old['t'])
    def wit(c, th, p):
        """where the supremum is attained, or approached"""
        if c.caller: return [], []
        key = (th.get_id(), p.get_id())
        if not hasattr(c, 'memo'): c.memo = {}
        if key in c.memo: return c.memo[key]
        z, z1, t, J, m = c.new.sig('z'), c.new.sig('z1'), c.old['t'], c.old.sig('j'), c.old['z_max']; k0 = c.old.it('j').idx; W, L, st = [], [], []
        fall = c.old['i.derivative'] <= 0; D = And(dom(c, th), p >= BOT(c.old), p < z.at(th)); N = And(p < m, p < I_(c, t)); kn = c.known(fall)
        st.append(('branch', BoolVal(True) if kn is None else fall if kn else Not(fall)))
        if kn is not True: st.append(('below f', Implies(And(Not(fall), D), p < I_(c, th))))
        if kn is not False: st.append(('below f', Implies(And(D, N), p < I_(c, th)), [], kn is not None))
        for S, kk, br in ((z1, z1.hi - 1, True), (J, k0, False)):
            if kn is not None and kn != br: continue
            br = BoolVal(True) if kn is not None else fall if br else Not(fall)
            j, x, l = c.w.sup_wit(S.q, th, kk, t); y, l2 = c.w.approach(S.q, j, rmax(th, S.T(j)), x, p); W += [x, y]; sup = c.w.sup(S.q, th, kk, t); G = And(br, D, Not(N))
            there = lambda X: And(th <= X, X < t, p < S.at(X)); M = rmax(th, S.T(j)); end = If(j == kk, t, S.T(j + 1))
            if kn is False:
                z2 = c.new.sig('z2')
                st += [('maximum', Implies(dom(c, th), z.at(th) == rmax(z1.at(th), z2.at(th)))), ('later part', Implies(dom(c, th), z1.at(th) == rmin(I_(c, th), m))), ('earlier part', Implies(dom(c, th), z2.at(th) == rmin(I_(c, th), rmax(BOT(c.old), sup)))),
                       ('rising', Implies(D, I_(c, th) <= I_(c, t)), [], True)]
            st += [('below the supremum', Implies(G, p < sup), [], kn is False),
                   ('piece', Implies(G, And(S.lo <= j, j <= kk, S.seg(th) <= j, th <= x, x <= t, th < t, S.T(j) <= x, x <= end, p < S.L(j, x), S.T(kk) < t)), [l, S.at(th)]),
                   ('increasing', sorted_q(S.q)), piece(S, x, S.T(S.lo)), piece(S, y, S.T(S.lo)), piece(S, th, S.T(S.lo)), ('covered', Implies(G, And(S.T(S.lo) <= th, S.lo <= kk, kk < S.hi, Or(kk + 1 == S.hi, t <= S.T(kk + 1))))),
                   ('at the start', Implies(And(G, x == M), And(S.seg(x) == j, x < t, p < S.at(x))), [], True),
                   ('approach', Implies(And(G, x > M), And(th <= y, y < x, p < S.L(j, y), S.T(j) <= y, y < end)), [l2], True),
                   ('piece of the place', Implies(And(G, x > M), And(S.seg(y) == j, p < S.at(y))), [], True),
                   ('value there', Implies(G, Or(there(x), there(y))), [], True)]
            for X in (x, y):
                if S is z1: st += [('values at the place', Implies(And(G, there(X)), And(p < J.at(X), p < I_(c, X))), [S.at(X), J.at(X)]), ('and f before it', Implies(And(G, there(X)), p < I_(c, th)), [], True)]
                else: st.append(('values at the place', Implies(And(G, there(X)), And(p < J.at(X), p < I_(c, X), p < I_(c, th))), [], True))
        c.memo[key] = W, [Cut(st)], (th, p)
        return c.memo[key]
    def wits(c):
        return lambda th, p: wit(c, th, p)[0]
    def lhint(c, th, u):
        if c.caller: return []
        z1, t = c.new.sig('z1'), c.old['t']; J = c.old.sig('j')
        return [z1.at(u), J.at(u), c.w.sup_ub(z1.q, th, z1.hi - 1, t, z1.seg(u), u), c.w.sup_ub(J.q, th, c.old.it('j').idx, t, J.seg(u), u)]
    def pw(c):
        z, z0, J, t, m = c.new.sig('z'), c.old.sig('z'), c.old.sig('j'), c.old['t'], c.old['z_max']
        return [('z', 'not below what is reached on the segment', Two(lambda th, u, w: Implies(And(dom(c, th), th <= u, u < t), z.at(th) >= rmin(J.at(u), rmin(I_(c, th), I_(c, u)))), name='u'), lambda th, u: lhint(c, th, u)),
                ('z', 'not below what is reached later', lambda th: Implies(dom(c, th), z.at(th) >= rmin(m, rmin(I_(c, th), I_(c, t))))),
                ('z', 'approached', Two(lambda th, p, w: Implies(And(dom(c, th), p >= BOT(c.old), p < z.at(th)), And(p < I_(c, th), Or(And(p < m, p < I_(c, t)), And(th <= w, w < t, p < J.at(w), p < I_(c, w))))), wits(c)), lambda th, p: wit(c, th, p)[1]),
                ('z', 'z kept after the segment', lambda th: Implies(t <= th, z.at(th) == z0.at(th)))]
    contract('computeSegmentUntil', params=('z', 'i', 't', 'j', 'z_max'), iters={'j': None}, pre=pre, post=post, pw_post=pw, modifies=('z|#dq', 'j'))
seg()

# ------------------------------------------------------------------ f until g on whole signals
def split_steps(c, X, k, th, t, u, I_):
    """the infimum of f over [th, u] by the piece k that covers [th, t)"""
    lo_, lt = low(c, X, th, u), low(c, X, t, u); here = And(X.T(k) <= th, th < t, X.lo <= k, k < X.hi, Or(k + 1 == X.hi, t <= X.T(k + 1)))
    return [('one piece', Implies(And(here, th <= u, u < t), lo_ == rmin(X.L(k, th), X.L(k, u))), [X.at(th), X.at(u)]),
            ('split', Implies(And(here, t <= u, Or(And(k + 1 < X.hi, t == X.T(k + 1)), u == t)), lo_ == rmin(rmin(X.L(k, th), X.L(k, t)), lt)), [X.at(th), X.at(u), X.at(t)])]
def until_contract(fn, member):
    def xy(c): return c.old.sig('x'), c.old.sig('y')
    def Zn(c): return c.new.sig('this' if member else 'z')
    def Z(c): return c.new.sig('this') if member else c.rsig()
    def pre(c):
        x, y = xy(c)
        return pre_names('x', wf(x)) + pre_names('y', wf(y)) + sigops.overlap(x, y)
    def post(c):
        x, y = xy(c); z = Z(c)
        return pre_names('result', wf(z)) + [('result domain', And(z.begin == rmax(x.begin, y.begin), z.end == rmin(x.end, y.end))), ('last sample at end', z.T(z.hi-1) == z.end)]
    def hint(z, st):
        def h(c, th, u, up):
            """z, x, piece of x and the end t of the segment handled last"""
            if c.caller: return []
            x, y = xy(c); k, t = st(c); ws, l1 = c.w.pairs(z(c).q, th, u); ws2, l2 = c.w.pairs(z(c).q, t, u); more = []
            if up: more = [s for w in ws + ws2 + ([] if ws else [t]) for s in split_steps(c, x, k, th, t, w, None)]
            else: more = split_steps(c, x, k, th, t, u, None)
            return l1 + l2 + [Cut(more, full=True)]
        return h
    def facts(path, z, st, dom, e):
        def wits(c): return lambda th, p: [] if c.caller else c.w.pairs(z(c).q, th, p)[0] + c.w.pairs(z(c).q, st(c)[1], p)[0] + [st(c)[1]]
        H = hint(z, st)
        def f(c):
            x, y = xy(c); zz = z(c)
            return [(path, 'not below what is reached', un_low(c, zz, x, y, lambda th: dom(c, th), e(c)), lambda th, u: H(c, th, u, False)),
                    (path, 'approached', un_up(c, zz, x, y, lambda th: dom(c, th), e(c), wits(c)), lambda th, p: H(c, th, p, True))]
        return f
    def skip(ctr):
        def f(c):
            z = Zn(c); X = xy(c)[0 if ctr == 'i' else 1]; k = c.new.it(ctr).idx
            return [('inside', And(X.lo <= k, k < X.hi)), ('samples passed are not before the end', Or(k + 1 == X.hi, z.end <= X.T(k + 1)))]
        return LoopC(f, variant=lambda c: c.new.it(ctr).idx - xy(c)[0 if ctr == 'i' else 1].lo)
    def inv(c):
        z, (x, y) = Zn(c), xy(c); i, j, t, s = c.new.it('i').idx, c.new.it('j').idx, c.new['t'], z.begin
        r = [('z times increase', sorted_q(z.q)), ('z starts at t', And(z.lo < z.hi, z.T(z.lo) == t)), ('z ends in the domain', z.T(z.hi-1) <= z.end), ('z_max is the first value', c.new['z_max'] == z.V(z.lo)),
             ('domain', And(z.begin == rmax(x.begin, y.begin), z.end == rmin(x.end, y.end), c.new['s'] == s)), ('time', And(s <= t, t <= z.end))]
        for n, X, k in (('x', x, i), ('y', y, j)):
            r += [(n + ' inside', And(X.lo <= k, k < X.hi)), (n + ': the piece before t', And(X.T(k) <= t, Or(X.T(k) < t, s == t))), ('next of %s is not before t' % n, Or(k + 1 == X.hi, t <= X.T(k + 1)))]
        return r + [('t is a time of x or the end', Or(t == z.end, And(i + 1 < x.hi, t == x.T(i + 1))))]
    main = LoopC(inv, facts('this' if member else 'z', Zn, lambda c: (c.iter.it('i').idx, c.iter['t']) if hasattr(c, 'iter') else (c.new.it('i').idx, c.new['t']), lambda c, th: And(c.new['t'] <= th, th <= Zn(c).end), lambda c: Zn(c).end),
                 variant=lambda c: c.new.it('i').idx - xy(c)[0].lo)
    contract(fn, params=('x', 'y'), pre=pre, post=post, pw_post=facts('this' if member else 'result', Z, lambda c: (c.new.it('i').idx, c.new['t']), lambda c, th: sigops.in_dom(Z(c), th), lambda c: Z(c).end),
        modifies=('this',) if member else (), loops=[skip('i'), skip('j'), main])
until_contract('computeUntil', False)
until_contract('Signal::compute_until', True)

# ------------------------------------------------------------------ f until_[a,b] g: the window by three parts
from plateau import wend, wsup, plus, minus
def inf_on(c, X, al, be): return c.w.sup(X.q, al, X.seg(be), be, INFF)
def inf_wit(c, X, al, be): return c.w.sup_wit(X.q, al, X.seg(be), be, INFF)
def inf_ub(c, X, al, be, j, v): return c.w.sup_ub(X.q, al, X.seg(be), be, j, v, INFF)
def mono(c, X, al, be, al2, be2):
    """the infimum over a part is not below the infimum over the whole"""
    j, v, l = inf_wit(c, X, al2, be2)
    return ('infimum over a part', Implies(And(X.begin <= al, al <= al2, al2 <= be2, be2 <= be), inf_on(c, X, al, be) <= inf_on(c, X, al2, be2)), [l, inf_ub(c, X, al, be, j, v)], True)
def join(c, X, al, m1, m2, be):
    """the infimum over [al, be] is reached in [al, m1] or in [m2, be] (m1 = m2)"""
    j, v, l = inf_wit(c, X, al, be)
    return ('infimum by parts', Implies(And(X.begin <= al, al <= m1, m1 == m2, m2 <= be), inf_on(c, X, al, be) >= rmin(inf_on(c, X, al, m1), inf_on(c, X, m2, be))), [l, inf_ub(c, X, al, m1, j, v), inf_ub(c, X, m2, be, j, v)], True)
def timed_until():
    def xy(c): return c.old.sig('x'), c.old.sig('y')
    def ab(c): return c.old['a'], c.old['b']
    def E(c): x, y = xy(c); return rmin(x.end, y.end)
    def dom(c, th): (x, y), (a, b) = xy(c), ab(c); return And(rmax(x.begin, y.begin - a) <= th, th <= E(c) - a)
    def pre(c):
        (x, y), (a, b) = xy(c), ab(c)
        return pre_names('x', wf(x)) + pre_names('y', wf(y)) + [('window', And(0 <= a, a <= b)), ('some data in the window', rmax(x.begin + a, y.begin) <= E(c))]
    def post(c):
        (x, y), (a, b), z = xy(c), ab(c), c.rsig()
        return pre_names('result', wf(z)) + [('result domain', And(z.begin == rmax(x.begin, y.begin - a), z.end == E(c) - a)), ('last sample at end', z.T(z.hi-1) == z.end)]
    def below(c, z): return Two(lambda th, u, w: (lambda x, y, a, b: Implies(And(dom(c, th), th + a <= u, u <= th + b, u <= E(c)), rmax(BOT(c.old), z.at(th)) >= rmin(TOPV(c.old), rmin(y.at(u), low(c, x, th, u)))))(*xy(c), *ab(c)), name='u')
    def above(c, z, wits=()): return Two(lambda th, p, w: (lambda x, y, a, b: Implies(And(dom(c, th), p >= BOT(c.old), p < TOPV(c.old), p < z.at(th)), And(th + a <= w, w <= th + b, w <= E(c), p < y.at(w), p < low(c, x, th, w))))(*xy(c), *ab(c)), wits, name='p')
    def base_steps(c, th):
        (x, y), (a, b), z = xy(c), ab(c), c.rsig(); z1, z2, z3 = c.new.sig('z1'), c.new.sig('z2'), c.new.sig('z3'); kn = c.known(a > 0); t2, b1 = (th if kn is False else th + a), wend(x, th, a); ok = dom(c, th)
        first = z1.at(th) if kn else x.at(th); A1 = wsup(c, x, th, a, INFF)
        st = [('branch', a > 0 if kn else a == 0), ('by parts', Implies(ok, z.at(th) == rmin(first, rmin(z2.at(t2), z3.at(t2))))),
              ('inside', Implies(ok, And(x.begin <= th, th <= t2, t2 <= E(c), x.begin <= t2, y.begin <= t2, b1 == t2, E(c) <= x.end, E(c) <= y.end))),
              ('increasing', sorted_le(x.q)), ('increasing too', sorted_q(y.q))] + [piece(X, t) for X, t in ((x, th), (x, t2), (x, b1), (y, t2))]
        if kn: st.append(('first part', Implies(ok, rmin(TOPV(c.old), z1.at(th)) == rmin(TOPV(c.old), A1))))
        else: st.append(('first part', Implies(ok, x.at(th) == A1), [inf_wit(c, x, th, b1)[2], inf_ub(c, x, th, b1, x.seg(th), th)]))
        return st, first, A1
    def low_hint(c, th, u):
        (x, y), (a, b), z = xy(c), ab(c), c.rsig(); z2, z3 = c.new.sig('z2'), c.new.sig('z3'); t2 = th if c.known(a > 0) is False else th + a; b1, b2 = wend(x, th, a), wend(y, t2, b - a); G = And(dom(c, th), t2 <= u, u <= th + b, u <= E(c))
        st, first, A1 = base_steps(c, th); S2 = wsup(c, y, t2, b - a)
        st += [piece(x, u), piece(y, u), piece(y, b2), mono(c, x, th, u, th, b1), mono(c, x, th, u, t2, u),
               ('until', Implies(G, z3.at(t2) >= rmin(y.at(u), low(c, x, t2, u))), c.w.pairs(z3.q, t2, u)[1]),
               ('second part', Implies(And(G, a < b), And(rmax(BOT(c.old), z2.at(t2)) == rmax(BOT(c.old), S2), b2 >= u))), ('at the place', Implies(And(G, a == b), z2.at(t2) == y.at(t2))),
               ('not below g', Implies(And(G, a < b), S2 >= y.at(u)), [c.w.sup_ub(y.q, t2, y.seg(b2), b2, y.seg(u), u)], True), ('one time', Implies(And(G, a == b), y.at(t2) == y.at(u)), [], True), ('window', And(0 <= a, a <= b))]
        return [Cut(st)]
    def up(c, th, p):
        if c.caller: return [], []
        if not hasattr(c, 'memo'): c.memo = {}
        key = (th.get_id(), p.get_id())
        if key in c.memo: return c.memo[key]
        (x, y), (a, b), z = xy(c), ab(c), c.rsig(); z2, z3 = c.new.sig('z2'), c.new.sig('z3'); t2 = th if c.known(a > 0) is False else th + a; b1, b2 = wend(x, th, a), wend(y, t2, b - a); G = And(dom(c, th), p >= BOT(c.old), p < TOPV(c.old), p < z.at(th))
        st, first, A1 = base_steps(c, th); S2 = wsup(c, y, t2, b - a); ws, ls = c.w.pairs(z3.q, t2, p); w3 = ws[0]; far = And(G, w3 > th + b)
        j, v, l = c.w.sup_wit(y.q, t2, y.seg(b2), b2); M = rmax(t2, y.T(j)); v2, l2 = c.w.approach(y.q, j, M, v, p); there = lambda X: And(t2 <= X, X <= th + b, p < y.at(X)); end = If(j == y.seg(b2), b2, y.T(j + 1)); F = And(far, a < b)
        st += [('until place', Implies(G, And(t2 <= w3, w3 <= E(c), p < y.at(w3), p < low(c, x, t2, w3))), ls), ('f so far', Implies(G, p < A1), [], True), ('window', And(0 <= a, a <= b)), piece(x, w3), join(c, x, th, b1, t2, w3), piece(y, b2),
               ('near', Implies(And(G, w3 <= th + b), p < low(c, x, th, w3)), [], True),
               ('below the supremum', Implies(F, And(p < S2, b2 == th + b)), [z2.at(t2)]), ('reached at', Implies(F, And(y.lo <= j, j <= y.seg(b2), y.seg(t2) <= j, t2 <= v, v <= b2, y.T(j) <= v, v <= end, p < y.L(j, v))), [l], True),
               piece(y, v), piece(y, v2), ('domain', y.T(y.lo) == y.begin), ('at the start', Implies(And(F, v == M), And(y.seg(v) == j, p < y.at(v))), [], True), ('just before', Implies(And(F, v > M), And(t2 <= v2, v2 < v, p < y.L(j, v2), y.T(j) <= v2, v2 < end)), [l2], True),
               ('piece of the place', Implies(And(F, v > M), And(y.seg(v2) == j, p < y.at(v2))), [], True), ('value there', Implies(F, Or(there(v), there(v2))), [], True),
               ('at the place', Implies(And(far, a == b), there(t2)))]
        for X in (v, v2, t2): st += [piece(x, X), mono(c, x, t2, w3, t2, X), join(c, x, th, b1, t2, X), ('all of it', Implies(And(far, there(X)), And(p < low(c, x, th, X), X <= E(c))), [], True)]
        c.memo[key] = [w3, v, v2, t2], [Cut(st)], (th, p); return c.memo[key]
    def pw(c):
        z = c.rsig()
        return [('result', 'not below what is reached in the window', below(c, z), lambda th, u: [] if c.caller else low_hint(c, th, u)),
                ('result', 'approached', above(c, z, lambda th, p: up(c, th, p)[0]), lambda th, p: up(c, th, p)[1])]
    contract('computeTimedUntil', params=('x', 'y', 'a', 'b'), pre=pre, post=post, pw_post=pw)
    # the member: empty operands give an empty signal; without data in the window nothing is said of the values
    def some(c): (x, y), (a, b) = xy(c), ab(c); return And(x.lo < x.hi, y.lo < y.hi, rmax(x.begin + a, y.begin) <= E(c))
    def mpre(c):
        (x, y), (a, b) = xy(c), ab(c)
        return [('%s empty or well formed' % n, Or(X.lo == X.hi, And([f for _, f in wf(X)]))) for n, X in (('x', x), ('y', y))] + [('window', And(0 <= a, a <= b))]
    def mpost(c):
        (x, y), (a, b), z = xy(c), ab(c), c.new.sig('this'); ne = And(x.lo < x.hi, y.lo < y.hi)
        return [('empty stays empty', Implies(Not(ne), z.lo == z.hi))] + [(n, Implies(ne, f)) for n, f in pre_names('result', wf(z))] + [('result domain', Implies(some(c), And(z.begin == rmax(x.begin, y.begin - a), z.end == E(c) - a))), ('domain of the first without common time', Implies(And(ne, Not(some(c))), And(z.begin == x.begin, z.end == x.end)))]
    def mpw(c):
        z = c.new.sig('this'); lo_, hi_ = below(c, z), above(c, z); P = lambda th, p: [] if c.caller else c.w.pairs(z.q, th, p)
        return [('this', 'not below what is reached in the window', Two(lambda th, u, w: Implies(some(c), lo_.F(th, u, w)), name='u'), lambda th, u: [] if c.caller else P(th, u)[1]),
                ('this', 'approached', Two(lambda th, p, w: Implies(some(c), hi_.F(th, p, w)), lambda th, p: (P(th, p) or [[]])[0] + [th], name='p'), lambda th, p: [] if c.caller else P(th, p)[1]),
                ('this', 'infimum of what is left of the first without common time', lambda th: Implies(And(xy(c)[0].lo < xy(c)[0].hi, xy(c)[1].lo < xy(c)[1].hi, Not(some(c)), sigops.in_dom(z, th)), z.at(th) == temporal.alw_want(c, xy(c)[0], th)))]
    contract('Signal::compute_timed_until', params=('x', 'y', 'a', 'b'), pre=mpre, post=mpost, pw_post=mpw, modifies=('this',))
timed_until()

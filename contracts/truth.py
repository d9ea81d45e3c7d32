"""Contracts of the boolean form of a signal and of left and right time robustness."""
from base import *
import sigops
def truth(y, th):
    """the predicate 'y is positive' at th, the instant of a change belonging to what follows"""
    a, k = y.at(th), y.seg(th); return Or(a > 0, And(a == 0, y.D(k) > 0))
def before_end(z, th): return And(z.begin <= th, Or(th < z.end, th == z.begin))
def Y(c): return c.old.sig('y')
def flat(q):
    k = Int('k_'); return ForAll([k], Implies(And(q.lo <= k, k < q.hi), q.D(k) == 0), patterns=[q.T(k), q.V(k), q.D(k)])
def changes(S, P, hint=None):
    return QF(lambda k: Implies(And(S.lo < k, k < S.hi), P(k)), lambda k: [S.T(k), S.V(k)], hint)
def dom(z, y): return And(z.begin == y.begin, z.end == y.end)
def last_early(z): return Or(z.T(z.hi-1) < z.end, And(z.lo + 1 == z.hi, z.begin == z.end))

# ------------------------------------------------------------------ boolean form
def bool_post(c):
    z = c.new.sig('this')
    return pre_names('result', wf(z)) + [('domain kept', dom(z, Y(c))), ('no sample at the end', last_early(z)), ('constant pieces', flat(z.q)),
        ('every sample is a change', changes(z, lambda k: z.V(k) != z.V(k-1))),
        ('values 0 and 1', QF(lambda k: Implies(And(z.lo <= k, k < z.hi), Or(z.V(k) == 0, z.V(k) == 1)), lambda k: [z.T(k), z.V(k)], lambda k: [z.at(z.T(k))]))]
def bool_pw(c):
    z = c.new.sig('this')
    return [('this', '1 where y is positive, else 0', lambda th: Implies(before_end(z, th), z.at(th) == If(truth(Y(c), th), RealVal(1), RealVal(0))))]
def bool_inv(c):
    z, y, i = c.new.sig('this'), Y(c), c.new.it('i').idx; some = i > y.lo
    return [('inside', And(y.lo <= i, i <= y.hi)), ('domain', dom(z, y)), ('times increase', sorted_q(z.q)), ('bounds', z.lo <= z.hi), ('starts with y', And((z.lo < z.hi) == some, Implies(some, z.T(z.lo) == y.begin))),
            ('behind y', Implies(some, If(i == y.hi, z.T(z.hi-1) <= z.end, z.T(z.hi-1) < y.T(i)))), ('constant pieces', flat(z.q))]
def bool_ipw(c):
    z, y, i = c.new.sig('this'), Y(c), c.new.it('i').idx
    return [('this', 'agrees so far', lambda th: Implies(And(y.begin <= th, If(i == y.hi, before_end(y, th), th < y.T(i))), z.at(th) == If(truth(y, th), RealVal(1), RealVal(0))))]
contract('Signal::compute_boolean', params=('y',), pre=lambda c: pre_names('y', wf(Y(c))), post=bool_post, pw_post=bool_pw, modifies=('this',), weight=5,
    loops=[LoopC(bool_inv, bool_ipw, variant=lambda c: Y(c).hi - c.new.it('i').idx)])

# ------------------------------------------------------------------ left and right time robustness
EPS = RealVal('1/100000000000000')
def nxt(z, k): return If(k + 1 == z.hi, z.end, z.T(k + 1))
def left_amount(z, k, th): return th - z.T(k) + EPS                 # time since the last change (plus a positive constant: the sign is that of the predicate)
def right_amount(z, k, th): return nxt(z, k) - th                   # time to the next change (the end of the signal when there is none)
def time_rob(fn, amount, V, D):
    def post(c):
        z = c.new.sig('this')
        return pre_names('result', wf(z)) + [('domain kept', dom(z, Y(c))), ('no sample at the end', last_early(z))]
    def facts(c, th):
        """the piece of the result and of the boolean form at th"""
        z, b, y = c.new.sig('this'), c.new.sig('y_bool'), Y(c); k, j = z.seg(th), b.seg(th)
        return [('same piece', k - z.lo == j - b.lo, [th]), ('boolean value', b.at(th) == b.V(j), [mark(b.T(j))]), ('sample of the piece', And(z.T(k) == b.T(j), z.V(k) == If(b.V(j) > 0, V(b, j), -V(b, j)), z.D(k) == If(b.V(j) > 0, RealVal(D), RealVal(-D))), [th]),
                ('predicate', (b.V(j) > 0) == truth(y, th), [b.at(th)])]
    def guarded(c, ths, g):
        return Cut([(n, Implies(g, f), [c.new.sig('y_bool').at(h[0])] if h and is_real(h[0]) else h) for th in ths for n, f, h in facts(c, th)], full=True)
    def pw(c):
        z, y = c.new.sig('this'), Y(c)
        def s(th): return z.seg(th)
        def inside(*ts): return And(*[And(z.begin <= t, t < z.end) for t in ts])
        def h1(th): return [] if c.caller else [unit_lem(z.q, s(th), th), guarded(c, [th], inside(th))]
        def h2(th, p):
            if c.caller: return []
            b = c.new.sig('y_bool')
            return [guarded(c, [th, p], inside(th, p)), b.V(b.seg(th)) == b.V(b.seg(p))]
        return [('this', 'distance to the change, signed by the predicate', lambda th: Implies(inside(th), z.at(th) == If(truth(y, th), amount(z, s(th), th), -amount(z, s(th), th))), h1),
                ('this', 'the predicate is constant on a piece', Two(lambda th, p, w: Implies(And(inside(p, th), s(p) == s(th)), truth(y, p) == truth(y, th))), h2),
                ('this', 'the predicate changes at every sample', Two(lambda th, p, w: Implies(And(inside(p, th), s(p) + 1 == s(th)), truth(y, p) != truth(y, th))), h2)]
    def same(c, upto):
        z, b = c.new.sig('this'), c.new.sig('y_bool'); k = Int('k_'); j = k - z.lo + b.lo
        return ForAll([k], Implies(And(z.lo <= k, k < z.lo + upto), And(z.T(k) == b.T(j), z.V(k) == If(b.V(j) > 0, V(b, j), -V(b, j)), z.D(k) == If(b.V(j) > 0, RealVal(D), RealVal(-D)))), patterns=[z.T(k), z.V(k), z.D(k)])
    def inv(c):
        z, b, y, i = c.new.sig('this'), c.new.sig('y_bool'), Y(c), c.new.it('i').idx
        return [('inside', And(b.lo <= i, i <= b.hi)), ('domain', dom(z, y)), ('one sample per change', z.hi - z.lo == i - b.lo), ('samples', same(c, i - b.lo))]
    contract(fn, params=('y',), pre=lambda c: pre_names('y', wf(Y(c))), post=post, pw_post=pw, modifies=('this',),
        loops=[LoopC(inv, variant=lambda c: c.new.sig('y_bool').hi - c.new.it('i').idx)])
time_rob('Signal::compute_left_time_rob', left_amount, lambda b, j: EPS, 1)
time_rob('Signal::compute_right_time_rob', right_amount, lambda b, j: nxt(b, j) - b.T(j), -1)

"""Contracts of the untimed temporal operators."""
from base import *
import sigops
from sigops import recL
def BOT(v): return -v.g('Signal::BigM')
def SUP(c, S, th, k0, b): return c.w.sup(S.q, th, k0, b)
def pe_contract():
    def X(c): return c.old.sig('i')
    def want(c, th): return rmax(BOT(c.old), SUP(c, X(c), th, c.old.it('i').idx, c.old['t']))
    def pre(c):
        z, X_, k = c.old.sig('z'), X(c), c.old.it('i').idx; s, t = c.old['s'], c.old['t']
        return [('z empty', z.lo == z.hi), ('i times increase', sorted_q(X_.q)), ('i inside', And(X_.lo <= k, k < X_.hi)), ('interval', s <= t), ('i covers the start', X_.T(X_.lo) <= s),
                ('i is the piece before t', X_.T(k) <= t), ('next of i is not before t', Or(k + 1 == X_.hi, t <= X_.T(k + 1)))]
    def post(c):
        z, X_, k = c.new.sig('z'), X(c), c.new.it('i').idx; s, t = c.old['s'], c.old['t']
        return [('z times increase', sorted_q(z.q)), ('z not empty', z.lo < z.hi), ('z starts at s', z.T(z.lo) == s), ('last time', z.T(z.hi-1) <= t), ('last time before t', Implies(And(s < t, X_.T(c.old.it('i').idx) < t), z.T(z.hi-1) < t)), ('first value', z.V(z.lo) == want(c, s)),
                ('i inside', And(X_.lo <= k, k <= c.old.it('i').idx)), ('i covers the start', X_.T(k) <= s), ('next of i is after the start', Or(k == c.old.it('i').idx, s < X_.T(k + 1)))]
    def pw_post(c):
        return [('z', 'supremum of the rest of the interval', lambda th: Implies(And(c.old['s'] <= th, th <= c.old['t']), c.new.sig('z').at(th) == want(c, th)))]
    def covers(c, th):
        z = c.new.sig('z'); return And(z.lo < z.hi, z.T(z.lo) <= th)
    def inv(c):
        z, X_, k, k0 = c.new.sig('z'), X(c), c.new.it('i').idx, c.old.it('i').idx; s, t, t0, m, co = c.old['s'], c.new['t'], c.old['t'], c.new['z_max'], c.new['continued']
        first = k == k0
        return [('z times increase', sorted_q(z.q)), ('z grows', z.lo <= z.hi), ('last time', Implies(z.lo < z.hi, z.T(z.hi-1) <= t0)), ('last time before t', Implies(And(z.lo < z.hi, X_.T(k0) < t0), z.T(z.hi-1) < t0)), ('i inside', And(X_.lo <= k, k <= k0)), ('time moves down', And(s <= t, t <= t0, X_.T(k) <= t)),
                ('t is the end of piece i', t == If(first, t0, X_.T(k + 1))), ('nothing yet', Implies(first, And(z.lo == z.hi, m == BOT(c.old), Not(co)))),
                ('inside the interval', Implies(Not(first), s < t)), ('z_max is the supremum so far', Implies(Not(first), m == rmax(BOT(c.old), supf(X_.q, k + 1, k0, t0)))),
                ('pending', Implies(And(Not(first), co), Or(z.lo == z.hi, t < z.T(z.lo)))), ('not pending', Implies(And(Not(first), Not(co)), And(z.lo < z.hi, z.T(z.lo) == t)))]
    def pw(c):
        k, k0, t, t0 = c.new.it('i').idx, c.old.it('i').idx, c.new['t'], c.old['t']
        return [('z', 'supremum so far', lambda th: Implies(And(t <= th, th <= t0, k < k0), If(covers(c, th), c.new.sig('z').at(th), c.new['z_max']) == want(c, th)))]
    contract('computePartialEventually', params=('z', 'i', 's', 't'), iters={'i': None}, weight=5, pre=pre, post=post, pw_post=pw_post, modifies=('z|#dq', 'i'),
        loops=[LoopC(inv, pw, variant=lambda c: c.new.it('i').idx - X(c).lo)])
pe_contract()

# ------------------------------------------------------------------ eventually / always over the rest of the signal
def TOPV(v): return v.g('Signal::BigM')
def ev_want(c, x, th): return rmax(BOT(c.old), c.w.sup(x.q, th, x.hi - 1, x.end))
def alw_want(c, x, th): return rmin(TOPV(c.old), c.w.sup(x.q, th, x.hi - 1, x.end, INFF))
def whole(fn, want, opn, member, dual):
    def x(c): return c.old.sig('x')
    def Z(c): return c.new.sig('this') if member else c.rsig()
    def post(c):
        z = Z(c)
        return pre_names('result', wf(z)) + [('domain kept', And(z.begin == x(c).begin, z.end == x(c).end))]
    def hint(c, th):
        """the infimum of x is minus the supremum of its negation, each attained"""
        if c.caller: return []
        X, n = x(c), c.new.sig('z1'); off = n.lo - X.lo
        j, w, l1 = c.w.sup_wit(n.q, th, n.hi - 1, n.end); j2, w2, l2 = c.w.sup_wit(X.q, th, X.hi - 1, X.end, INFF)
        return [l1, l2, neg_lem(n.q, j, X.q, j - off, w), neg_lem(n.q, j2 + off, X.q, j2, w2), n.T(j2 + off) == n.T(j2 + off), n.T(j2 + off + 1) == n.T(j2 + off + 1), c.w.sup_ub(X.q, th, X.hi - 1, X.end, j - off, w, INFF), c.w.sup_ub(n.q, th, n.hi - 1, n.end, j2 + off, w2)]
    def pw(c):
        z = Z(c)
        return [('this' if member else 'result', opn + ' of the rest of the signal', lambda th: Implies(sigops.in_dom(z, th), z.at(th) == want(c, x(c), th)), lambda th: hint(c, th) if dual else [])]
    contract(fn, params=('x',), pre=lambda c: pre_names('x', wf(x(c))), post=post, pw_post=pw, modifies=('this',) if member else ())
whole('computeEventually', ev_want, 'supremum', False, False)
whole('Signal::compute_eventually', ev_want, 'supremum', True, False)
whole('computeGlobally', alw_want, 'infimum', False, True)
whole('Signal::compute_globally', alw_want, 'infimum', True, True)

"""Contracts of the Signal class: building a signal from samples and editing it."""
from base import *
import sigops
from sigops import in_dom, recL
PREV, LINE = 0, 1
def interp(c): return c.new.g('Signal::interpol') if False else c.old.g('Signal::interpol')
def known_interp(c): return Or(interp(c) == PREV, interp(c) == LINE)
def wf0(S): return [('empty or well formed', Or(S.lo == S.hi, And(S.lo < S.hi, S.T(S.lo) == S.begin, sorted_q(S.q), S.T(S.hi-1) <= S.end)))]
def sampq(q, k, T, V, D): return And(q.T(k) == T, q.V(k) == V, q.D(k) == D)

contract('Signal::Signal|void (double, double, int)', params=('T', 'V', 'n'), ctor=True, modifies=('this',),
    post=lambda c: (lambda z: pre_names('result', wf(z)) + [('one sample', z.hi - z.lo == 1), ('its value', And(z.V(z.lo) == c.old['V'], z.D(z.lo) == 0)), ('its time', And(z.begin == c.old['T'], z.end == c.old['T']))])(c.new.sig('this')),
    pw_post=lambda c: [('this', 'constant', lambda th: c.new.sig('this').at(th) == c.old['V'])])

def arr(c, nm): return c.e.store[('ext', nm)]
def slope(c, Tq, Vq, k): return If(interp(c) == LINE, fdiv(Vq[k+1] - Vq[k], Tq[k+1] - Tq[k]), RealVal(0))
def arr_pre(c):
    T, V, n = arr(c, 'T'), arr(c, 'V'), c.old['n']; a, b = Ints('a_ b_'); t = T.arr['val']
    return [('some samples', n >= 1), ('arrays long enough', And(n <= T.hi, n <= V.hi)), ('interpolation', known_interp(c)),
            ('times increase', ForAll([a, b], Implies(And(0 <= a, a < b, b < n), t[a] < t[b]), patterns=[MultiPattern(t[a], t[b])]))]
def arr_copy(c, z, upto):
    T, V = arr(c, 'T').arr['val'], arr(c, 'V').arr['val']; k = Int('k_'); j = k - z.lo
    return ForAll([k], Implies(And(z.lo <= k, k < z.lo + upto), And(z.T(k) == T[j], z.V(k) == V[j])), patterns=[z.T(k), z.V(k), z.D(k)])
def arr_slopes(c, z, upto):
    T, V = arr(c, 'T').arr['val'], arr(c, 'V').arr['val']; k = Int('k_'); j = k - z.lo
    return ForAll([k], Implies(And(z.lo <= k, k < z.lo + upto), z.D(k) == slope(c, T, V, j)), patterns=[z.D(k)])
def arr_post(c):
    z, n = c.new.sig('this'), c.old['n']; T = arr(c, 'T').arr['val']
    return pre_names('result', wf(z)) + [('as many samples', z.hi - z.lo == n), ('domain', And(z.begin == T[0], z.end == T[n-1])), ('recorded values at their times', arr_copy(c, z, n)),
            ('pieces in between', arr_slopes(c, z, n - 1)), ('last piece flat', z.D(z.hi-1) == 0)]
def arr_inv(c):
    z, i, n = c.new.sig('this'), c.new['i'], c.old['n']
    return [('counter', And(0 <= i, i <= n - 1, z.hi - z.lo == i)), ('recorded values at their times', arr_copy(c, z, i)), ('pieces in between', arr_slopes(c, z, i))]
contract('Signal::Signal|void (double *, double *, int)', params=('T', 'V', 'n'), ctor=True, modifies=('this',), pre=arr_pre, post=arr_post,
    loops=[LoopC(arr_inv, variant=lambda c: c.old['n'] - c.new['i'])]*2)

# ------------------------------------------------------------------ appending
def app_pre(c): return pre_names('signal', wf0(c.old.sig('this'))) + [('interpolation', known_interp(c))]
def app_post(d):
    def post(c):
        z, z0, t, v = c.new.sig('this'), c.old.sig('this'), c.old['t'], c.old['v']; dd = c.old['d'] if d else RealVal(0); k = Int('k_')
        e0 = z0.lo == z0.hi; ign = And(Not(e0), t <= z0.end); l = z0.hi - 1; new = If(interp(c) == LINE, dd, RealVal(0))
        return pre_names('result', wf(z)) + [('too late samples are ignored', Implies(ign, And(z.lo == z0.lo, z.hi == z0.hi, z.begin == z0.begin, z.end == z0.end, sampq(z, l, z0.T(l), z0.V(l), z0.D(l))))),
            ('sample appended', Implies(Not(ign), And(z.lo == z0.lo, z.hi == z0.hi + 1, sampq(z, z0.hi, t, v, new), z.end == t, z.begin == If(e0, t, z0.begin)))),
            ('earlier samples kept', ForAll([k], Implies(And(z0.lo <= k, k < l), sampq(z, k, z0.T(k), z0.V(k), z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)])),
            ('joined to the previous sample', Implies(And(Not(ign), Not(e0)), sampq(z, l, z0.T(l), z0.V(l), If(interp(c) == LINE, fdiv(v - z0.V(l), t - z0.T(l)), z0.D(l)))))]
    return post
def app_pw(c):
    z, z0, t = c.new.sig('this'), c.old.sig('this'), c.old['t']
    def ln(th):
        l = z0.hi - 1; return lin(z0.V(l), fdiv(c.old['v'] - z0.V(l), t - z0.T(l)), z0.T(l), th)
    return [('this', 'earlier values kept', lambda th: Implies(And(z0.lo < z0.hi, z0.begin <= th, Or(th < z0.T(z0.hi-1), And(interp(c) == PREV, th < t), t <= z0.end)), z.at(th) == z0.at(th))),
            ('this', 'value at the new sample', lambda th: Implies(And(th == t, Or(z0.lo == z0.hi, t > z0.end)), z.at(th) == c.old['v'])),
            ('this', 'linear up to the new sample', lambda th: Implies(And(z0.lo < z0.hi, t > z0.end, interp(c) == LINE, z0.T(z0.hi-1) <= th, th < t), z.at(th) == ln(th)))]
contract('Signal::appendSample|void (double, double, double)', params=('t', 'v', 'd'), modifies=('this',), pre=app_pre, post=app_post(True), pw_post=app_pw)
contract('Signal::appendSample|void (double, double)', params=('t', 'v'), modifies=('this',), pre=app_pre, post=app_post(False), pw_post=app_pw)

def aps_state(c, i):
    """this = what it was, then the samples of s from the first one after its end on"""
    z, z0, s = c.new.sig('this'), c.old.sig('this'), c.old.sig('s'); k = Int('k_'); e0 = z0.lo == z0.hi; g = interp(c)
    n = z.hi - z0.hi; m = i - n                                      # n samples appended: those of s in [m, i)
    off = lambda k: k - z0.hi + m
    last0 = z0.hi - 1
    return [('nothing removed', And(z.lo == z0.lo, 0 <= n, s.lo <= m)), ('only samples not after the end are left out', ForAll([k], Implies(And(s.lo <= k, k < m), And(Not(e0), s.T(k) <= z0.end)), patterns=[s.T(k)])),
        ('first one appended is after the end', Implies(And(n > 0, Not(e0)), s.T(m) > z0.end)), ('none left out of an empty signal', Implies(e0, m == s.lo)),
        ('earlier samples kept', ForAll([k], Implies(And(z0.lo <= k, k < last0), sampq(z, k, z0.T(k), z0.V(k), z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)])),
        ('last sample before', Implies(Not(e0), And(z.T(last0) == z0.T(last0), z.V(last0) == z0.V(last0), z.D(last0) == If(And(n > 0, g == LINE), fdiv(s.V(m) - z0.V(last0), s.T(m) - z0.T(last0)), z0.D(last0))))),
        ('appended samples', ForAll([k], Implies(And(z0.hi <= k, k < z.hi), And(z.T(k) == s.T(off(k)), z.V(k) == s.V(off(k)))), patterns=[z.T(k), z.V(k), z.D(k)])),
        ('appended pieces', ForAll([k], Implies(And(z0.hi <= k, k < z.hi - 1), z.D(k) == If(g == LINE, fdiv(s.V(off(k) + 1) - s.V(off(k)), s.T(off(k) + 1) - s.T(off(k))), RealVal(0))), patterns=[z.D(k)])),
        ('last piece', Implies(n > 0, z.D(z.hi-1) == If(g == LINE, s.D(i - 1), RealVal(0)))),
        ('domain', And(z.end == If(n > 0, s.T(i-1), z0.end), z.begin == If(And(e0, n > 0), s.T(s.lo), z0.begin)))]
def aps_inv(c):
    z, s, i = c.new.sig('this'), c.old.sig('s'), c.new.it('iter_s').idx
    return [('inside', And(s.lo <= i, i <= s.hi))] + wf0(z) + aps_state(c, i)
contract('Signal::appendSignal', params=('s',), modifies=('this',), pre=lambda c: app_pre(c) + pre_names('s', wf0(c.old.sig('s'))),
    post=lambda c: wf0(c.new.sig('this')) + aps_state(c, c.old.sig('s').hi), loops=[LoopC(aps_inv, variant=lambda c: c.old.sig('s').hi - c.new.it('iter_s').idx)])

# ------------------------------------------------------------------ editing
def dom_same(c):
    z, z0 = c.new.sig('this'), c.old.sig('this')
    return [('this', 'same value', lambda th: Implies(in_dom(z0, th), z.at(th) == z0.at(th)))]
contract('Signal::addLastSample', modifies=('this|#dq',), pre=lambda c: pre_names('signal', wf(c.old.sig('this'))),
    post=lambda c: (lambda z, z0: pre_names('result', wf(z)) + [('last sample at the end', z.T(z.hi-1) == z.end), ('domain kept', And(z.begin == z0.begin, z.end == z0.end)), ('first sample kept', z.V(z.lo) == z0.V(z0.lo)),
                                         ('at most one more', Or(z.hi - z.lo == z0.hi - z0.lo, And(z.hi - z.lo == z0.hi - z0.lo + 1, z0.T(z0.hi-1) < z0.end)))])(c.new.sig('this'), c.old.sig('this')), pw_post=dom_same)
def infinite(c, z, k):
    M = c.old.g('Signal::BigM'); return Or(z.V(k) == M, z.V(k) == -M, z.D(k) == M, z.D(k) == -M)
def rinf(c):
    z, z0 = c.new.sig('this'), c.old.sig('this'); k = Int('k_')
    return [('trailing samples only', And(z.lo == z0.lo, z.lo <= z.hi, z.hi <= z0.hi)), ('remaining samples kept', ForAll([k], Implies(And(z.lo <= k, k < z.hi), sampq(z, k, z0.T(k), z0.V(k), z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)])),
            ('only infinite ones dropped', ForAll([k], Implies(And(z.hi <= k, k < z0.hi), infinite(c, z0, k)), patterns=[z0.V(k), z0.D(k)]))]
contract('Signal::removeInf', modifies=('this|#dq',), pre=lambda c: [('bounds', c.old.sig('this').lo <= c.old.sig('this').hi)],
    post=lambda c: rinf(c) + [('a finite sample is last', (lambda z: Or(z.lo == z.hi, Not(infinite(c, z, z.hi-1))))(c.new.sig('this')))],
    loops=[LoopC(rinf, variant=lambda c: c.new.sig('this').hi - c.new.sig('this').lo)])

EPS = RealVal('1/100000000000000')
def rs(c):
    s, t = c.old['s'], c.old['t']
    return s, If(t < s, s, t), t < s - EPS
def rz_trim(c):
    """the samples themselves, when the signal is only cut at its end: those kept keep their place"""
    z, z0 = c.new.sig('this'), c.old.sig('this'); s, t, none = rs(c); k = Int('k_'); g = z0.seg(s); ok = And(Not(none), t <= z0.end); cut = z0.begin <= s
    return [('later samples kept', Implies(ok, ForAll([k], Implies(And(z.lo < k, k < z.hi), And(z0.lo <= k, k < z0.hi, sampq(z, k, z0.T(k), z0.V(k), z0.D(k)))), patterns=[z.T(k), z.V(k), z.D(k)]))),
            ('first sample is the piece at s', Implies(And(ok, cut), And(z.lo == g, z.V(z.lo) == z0.at(s), z.D(z.lo) == z0.D(g))), lambda: [z0.at(s)]), ('first sample is flat before the signal', Implies(And(ok, Not(cut)), And(z.lo == z0.lo - 1, z.V(z.lo) == z0.V(z0.lo), z.D(z.lo) == 0))),
            ('cut after the last sample not after t', Implies(ok, And(z.hi <= z0.hi, Or(z.hi == z.lo + 1, z0.T(z.hi-1) <= t), Or(z.hi == z0.hi, z0.T(z.hi) > t))))]
TRIMS = tuple('compute_robustness %sas %s_transducer' % (a, l) for a in ('', 'again ') for l in ('signal', 'constant'))
def rz_post(c):
    z, z0, v = c.new.sig('this'), c.old.sig('this'), c.old['v']; s, t, none = rs(c)
    first = If(s < z0.begin, z0.V(z0.lo), z0.at(s))
    return [('nothing left when the interval is empty', Implies(none, And(z.lo == z.hi, z.begin == 0, z.end == 0)))] + \
        [(n, Implies(Not(none), f)) for n, f in pre_names('result', wf(z))] + [('new domain', Implies(Not(none), And(z.begin == s, z.end == t))),
        ('first value', Implies(And(Not(none), Or(s <= z0.end, And(s == t))), z.V(z.lo) == If(And(t > z0.end, s == z0.end), v, first)))] + (rz_trim(c) if not c.caller or c.e.con.key in TRIMS else [])
def rz_pre(c):
    S = c.old.sig('this'); return pre_names('signal', wf(S)[:3]) + [('signal samples within domain, or cut', Or(S.T(S.hi-1) <= S.end, rs(c)[1] <= S.end))]
def rz_pw(c):
    z, z0, v = c.new.sig('this'), c.old.sig('this'), c.old['v']; s, t, none = rs(c)
    ok = lambda th: And(Not(none), s <= th, th <= t)
    return [('this', 'value kept inside the old domain', lambda th: Implies(And(ok(th), z0.begin <= th, Or(th < z0.end, And(th == z0.end, t <= z0.end))), z.at(th) == z0.at(th))),
            ('this', 'first value before it', lambda th: Implies(And(ok(th), th < z0.begin), z.at(th) == z0.V(z0.lo))),
            ('this', 'the given value after it', lambda th: Implies(And(ok(th), s <= z0.end, t > z0.end, th >= z0.end), z.at(th) == v))]
def rz_front(c):
    """samples before s popped; `first` is the last one popped"""
    z, z0, s = c.new.sig('this'), c.old.sig('this'), c.old['s']; k = Int('k_'); f = lambda x: c.new['first.' + x]
    return [('same samples', And(z0.lo <= z.lo, z.lo <= z.hi, z.hi == z0.hi)), ('domain', And(z.begin == z0.begin, z.end == z0.end)),
            ('content kept', ForAll([k], Implies(And(z.lo <= k, k < z.hi), sampq(z, k, z0.T(k), z0.V(k), z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)])),
            ('dropped ones are before s', Implies(z.lo > z0.lo, And(z0.T(z.lo-1) < s, f('time') == z0.T(z.lo-1), f('value') == z0.V(z.lo-1), f('derivative') == z0.D(z.lo-1))))]
def rz_back(c):
    """samples after t popped from a signal that starts at s"""
    z, t = c.new.sig('this'), c.new['t']; h = c.head.sig('this'); k = Int('k_')
    return [('same samples', And(z.lo == h.lo, z.lo <= z.hi, z.hi <= h.hi)), ('domain', And(z.begin == h.begin, z.end == h.end)), ('t', t == rs(c)[1]),
            ('content kept', ForAll([k], Implies(And(z.lo <= k, k < z.hi), sampq(z, k, h.T(k), h.V(k), h.D(k))), patterns=[z.T(k), z.V(k), z.D(k)])),
            ('dropped ones are after t', Implies(z.hi < h.hi, h.T(z.hi) > t))]
contract('Signal::resize', params=('s', 't', 'v'), modifies=('this',), pre=rz_pre, post=rz_post, pw_post=rz_pw,
    loops=[LoopC(rz_front, variant=lambda c: c.new.sig('this').hi - c.new.sig('this').lo), LoopC(rz_back, variant=lambda c: c.new.sig('this').hi - c.new.sig('this').lo)])

from base import *
def smp(v, p='this'): return v[p + '.value'], v[p + '.derivative'], v[p + '.time']
def recL(v, p, th): return lin(v[p + '.value'], v[p + '.derivative'], v[p + '.time'], th)

contract('Sample::valueAt', params=('t',),
    result=lambda c: recL(c.old, 'this', c.old['t']),
    post=lambda c: [('value of the affine piece at t', c.res == recL(c.old, 'this', c.old['t']))])
contract('Sample::timeIntersect', params=('point',),
    pre=lambda c: [('slopes differ', c.old['this.derivative'] != c.old['point.derivative'])],
    post=lambda c: [('both pieces have the same value at the result', recL(c.old, 'this', c.res) == recL(c.old, 'point', c.res))])

def cr(c, th): return recL(c.old, 'i', th) - recL(c.old, 'j', th)
contract('crossing', params=('i', 'j', 's', 't'),
    pre=lambda c: [('interval', c.old['s'] < c.old['t']), ('opposite order at both ends', Or(And(cr(c, c.old['s']) < 0, cr(c, c.old['t']) > 0), And(cr(c, c.old['s']) > 0, cr(c, c.old['t']) < 0)))],
    post=lambda c: [('inside the interval', And(c.old['s'] < c.res, c.res < c.old['t'])), ('both pieces have the same value at the result', recL(c.old, 'i', c.res) == recL(c.old, 'j', c.res))])
contract('value_at', params=('x', 't'),
    pre=lambda c: pre_names('x', wf(c.old.sig('x'))) + [('not before the start', c.old.sig('x').begin <= c.old['t'])],
    post=lambda c: [('value of the signal at t', c.res == c.old.sig('x').at(c.old['t']))],
    loops=[LoopC(lambda c: (lambda X, i: [('inside', And(X.lo <= i, i < X.hi)), ('samples passed are after t', Or(i + 1 == X.hi, c.old['t'] < X.T(i + 1)))])(c.old.sig('x'), c.new.it('i').idx),
                 variant=lambda c: c.new.it('i').idx - c.old.sig('x').lo)])

# ------------------------------------------------------------------ segment-wise min / max
def seg_contract(fn, less, M, opn):
    """z receives on [i.time, t) the min (max) of the piece i and the signal under j; what z held from t on is kept"""
    def pre(c):
        z, J, j = c.old.sig('z'), c.old.sig('j'), c.old.it('j')
        t, it = c.old['t'], c.old['i.time']
        return [('z times increase', sorted_q(z.q)), ('z bounds', z.lo <= z.hi), ('z starts at t', Or(z.lo == z.hi, z.T(z.lo) == t)),
                ('j times increase', sorted_q(J.q)), ('j inside', And(J.lo <= j.idx, j.idx < J.hi)), ('segment', Or(it < t, And(it == t, z.lo == z.hi))),
                ('j covers the start', J.T(J.lo) <= it), ('j is the piece before t', And(Or(J.T(j.idx) < t, z.lo == z.hi), J.T(j.idx) <= t)),
                ('next of j is not before t', Or(j.idx + 1 == J.hi, t <= J.T(j.idx + 1)))]
    def val(c, th): return M(recL(c.old, 'i', th), c.old.sig('j').at(th))
    def post(c):
        z, z0, J, j = c.new.sig('z'), c.old.sig('z'), c.old.sig('j'), c.new.it('j')
        it = c.old['i.time']
        return [('z times increase', sorted_q(z.q)), ('z not empty', z.lo < z.hi), ('z starts at the segment', z.T(z.lo) == it),
                ('last time kept', z.T(z.hi-1) <= rmax(c.old['t'], If(z0.lo < z0.hi, z0.T(z0.hi-1), c.old['t']))),
                ('last time before t', Implies(And(z0.lo == z0.hi, it < c.old['t'], J.T(c.old.it('j').idx) < c.old['t']), z.T(z.hi-1) < c.old['t'])),
                ('first value', Implies(Or(it < c.old['t'], c.old.it('j').idx + 1 == J.hi, it < J.T(c.old.it('j').idx + 1)), z.V(z.lo) == val(c, it))),
                ('j inside', And(J.lo <= j.idx, j.idx < J.hi, j.idx <= c.old.it('j').idx)), ('j covers the start', J.T(j.idx) <= it),
                ('next of j is not before the start', Or(j.idx + 1 == J.hi, it <= J.T(j.idx + 1)))]
    def pw_post(c):
        z, z0, t = c.new.sig('z'), c.old.sig('z'), c.old['t']
        return [('z', opn + ' on the segment', lambda th: Implies(And(c.old['i.time'] <= th, th < t), z.at(th) == val(c, th))),
                ('z', 'z kept after the segment', lambda th: Implies(And(t <= th, z0.lo < z0.hi), z.at(th) == z0.at(th)))]
    def zb(c): 
        z = c.new.sig('z'); return If(z.lo < z.hi, z.T(z.lo), c.old['t'])
    def inv(c):
        z, z0, J, j = c.new.sig('z'), c.old.sig('z'), c.old.sig('j'), c.new.it('j')
        t, it, t0, co = c.new['t'], c.old['i.time'], c.old['t'], c.new['continued']
        return [('z times increase', sorted_q(z.q)), ('z grows at the front', And(z.lo <= z0.lo, z.hi == z0.hi)),
                ('time moves down', And(Or(it < t, And(it == t, t == t0, z.lo == z.hi, Not(co))), t <= t0)), ('still at the first piece', Implies(it == t0, j.idx == c.old.it('j').idx)), ('j inside', And(J.lo <= j.idx, j.idx < J.hi, j.idx <= c.old.it('j').idx)),
                ('s is the time of j', c.new['s'] == J.T(j.idx)), ('next of j is not before t', Or(j.idx + 1 == J.hi, t <= J.T(j.idx+1))),
                ('j before t', Or(J.T(j.idx) < t, And(z.lo == z.hi, t == t0, Not(co), J.T(j.idx) <= t))),
                ('last time kept', Implies(z.lo < z.hi, z.T(z.hi-1) <= rmax(t0, If(z0.lo < z0.hi, z0.T(z0.hi-1), t0)))),
                ('last time before t', Implies(And(z.lo < z.hi, z0.lo == z0.hi, it < t0, J.T(c.old.it('j').idx) < t0), z.T(z.hi-1) < t0)),
                ('pending part is before t', Implies(And(co, J.T(c.old.it('j').idx) < t0), t < t0)),
                ('what z covers', If(co, And(Or(t < zb(c), And(t == t0, z.lo == z.hi)), zb(c) <= t0), zb(c) == t))]
    def pw(c):
        z, z0, t0, t = c.new.sig('z'), c.old.sig('z'), c.old['t'], c.new['t']
        return [('z', 'z holds the ' + opn, lambda th: Implies(And(zb(c) <= th, th < t0), z.at(th) == val(c, th))),
                ('z', 'pending part is the piece i', lambda th: Implies(And(t <= th, th < zb(c)), val(c, th) == recL(c.old, 'i', th))),
                ('z', 'z kept after the segment', lambda th: Implies(And(t0 <= th, z0.lo < z0.hi), z.at(th) == z0.at(th)))]
    contract(fn, weight=9, params=('z', 'i', 't', 'j'), iters={'j': None}, pre=pre, post=post, pw_post=pw_post, modifies=('z|#dq', 'j'),
        loops=[LoopC(inv, pw, variant=lambda c: c.new.it('j').idx - c.old.sig('j').lo)])
seg_contract('computeSegmentAnd', None, rmin, 'min')
seg_contract('computeSegmentOr', None, rmax, 'max')

# ------------------------------------------------------------------ whole-signal min / max
def partial_contract(fn, M, opn):
    def val(c, th): return M(c.old.sig('i').at(th), c.old.sig('j').at(th))
    def side(n, C, k, t, s, zempty):
        first = Or(C.T(k) < t, C.T(k) <= s) if n == 'i' else And(C.T(k) <= t, Or(C.T(k) < t, zempty))
        return [(n + ' inside', And(C.lo <= k, k < C.hi)), (n + ' is the piece before t', first), ('next of %s is not before t' % n, Or(k + 1 == C.hi, t <= C.T(k + 1)))]
    def pre(c):
        z, I, J = c.old.sig('z'), c.old.sig('i'), c.old.sig('j'); s, t = c.old['s'], c.old['t']
        e = z.lo == z.hi
        return [('z times increase', sorted_q(z.q)), ('z bounds', z.lo <= z.hi), ('z starts at t', Or(e, z.T(z.lo) == t)), ('segment', Or(s < t, And(s == t, e))),
                ('i times increase', sorted_q(I.q)), ('j times increase', sorted_q(J.q)), ('i covers the start', I.T(I.lo) <= s), ('j covers the start', J.T(J.lo) <= s)] + \
               side('i', I, c.old.it('i').idx, t, s, e) + side('j', J, c.old.it('j').idx, t, s, e)
    def post(c):
        z, z0 = c.new.sig('z'), c.old.sig('z'); s, t = c.old['s'], c.old['t']
        return [('z times increase', sorted_q(z.q)), ('z not empty', z.lo < z.hi), ('z starts at s', z.T(z.lo) == s),
                ('last time kept', z.T(z.hi-1) <= rmax(t, If(z0.lo < z0.hi, z0.T(z0.hi-1), t))),
                ('first value', Implies(Or(s < t, And(c.old.sig('i').T(c.old.sig('i').lo) == s, c.old.sig('j').T(c.old.sig('j').lo) == s)), z.V(z.lo) == val(c, s)))]
    def pw_post(c):
        z, z0 = c.new.sig('z'), c.old.sig('z'); s, t = c.old['s'], c.old['t']
        return [('z', opn + ' on the interval', lambda th: Implies(And(s <= th, th < t), z.at(th) == val(c, th))),
                ('z', 'z kept after the interval', lambda th: Implies(And(t <= th, z0.lo < z0.hi), z.at(th) == z0.at(th)))]
    def inv(c):
        z, z0, I, J = c.new.sig('z'), c.old.sig('z'), c.old.sig('i'), c.old.sig('j'); s, t, t0 = c.old['s'], c.new['t'], c.old['t']
        e = z.lo == z.hi
        return [('z times increase', sorted_q(z.q)), ('z starts at t', Or(And(e, t == t0, z0.lo == z0.hi), And(Not(e), z.T(z.lo) == t))), ('z bounds', z.lo <= z.hi),
                ('time moves down', And(Or(s < t, And(s == t, e)), t <= t0)), ('last time kept', Implies(z.lo < z.hi, z.T(z.hi-1) <= rmax(t0, If(z0.lo < z0.hi, z0.T(z0.hi-1), t0))))] + \
               side('i', I, c.new.it('i').idx, t, s, e) + side('j', J, c.new.it('j').idx, t, s, e)
    def pw(c):
        z, z0 = c.new.sig('z'), c.old.sig('z'); t, t0 = c.new['t'], c.old['t']
        return [('z', 'z holds the ' + opn, lambda th: Implies(And(t <= th, th < t0), z.at(th) == val(c, th))),
                ('z', 'z kept after the interval', lambda th: Implies(And(t0 <= th, z0.lo < z0.hi), z.at(th) == z0.at(th)))]
    contract(fn, params=('z', 'i', 'j', 's', 't'), iters={'i': None, 'j': None}, pre=pre, post=post, pw_post=pw_post, modifies=('z|#dq', 'i', 'j'),
        loops=[LoopC(inv, pw, variant=lambda c: c.new.it('i').idx - c.old.sig('i').lo)])
partial_contract('computePartialAnd', rmin, 'min')
partial_contract('computePartialOr', rmax, 'max')

# ------------------------------------------------------------------ simplify
HI0 = lambda c: (lambda q: c.old.sig('this').hi)
def simp_pre(c):
    return pre_names('signal', wf(c.old.sig('this')))
def flat_q(q, lo=None):
    k = Int('k_'); return ForAll([k], Implies(And((q.lo if lo is None else lo) <= k, k < q.hi), q.D(k) == 0), patterns=[q.T(k), q.V(k), q.D(k)])
def no_repeat(q):
    k = Int('k_'); return ForAll([k], Implies(And(q.lo < k, k < q.hi), q.V(k) != q.V(k-1)), patterns=[q.T(k), q.V(k)])
def simp_post(c):
    z, z0 = c.new.sig('this'), c.old.sig('this')
    more = [('flat pieces stay flat', Implies(flat_q(z0.q), flat_q(z.q))), ('flat pieces are not repeated', Implies(flat_q(z0.q), no_repeat(c.new.sub('this', lambda q: q.lo, lambda q: q.hi - 1).q))),
            ('last time before the end', Implies(And(z.lo + 1 < z.hi), z.T(z.hi-2) < z.end))]
    return wf(z) + [('domain kept', And(z.begin == z0.begin, z.end == z0.end)), ('first sample kept', And(z.V(z.lo) == z0.V(z0.lo), z.D(z.lo) == z0.D(z0.lo))), ('last sample at end', z.T(z.hi-1) == z.end)] + \
        (more if not c.caller or c.e.con.key == 'Signal::compute_boolean' else [])
def simp_pw(c):
    z, z0 = c.new.sig('this'), c.old.sig('this')
    return [('this', 'same value', lambda th: Implies(And(z0.begin <= th, th <= z0.end), z.at(th) == z0.at(th)), lambda th: [] if c.caller else [simp_out(c).at(th)])]
def simp_out(c): return c.new.sub('this', HI0(c), lambda q: q.hi)
def simp_inv(c):
    z, z0 = c.new.sig('this'), c.old.sig('this'); o = simp_out(c); k = Int('k_')
    return [('remaining samples untouched', ForAll([k], Implies(And(z.lo <= k, k < z0.hi), And(z.T(k) == z0.T(k), z.V(k) == z0.V(k), z.D(k) == z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k), z0.T(k)])),
            ('progress', And(z0.lo < z.lo, z.lo <= z0.hi, z0.hi < z.hi)), ('counter', And(c.new['k'] == z.lo - z0.lo, c.new['n'] == z0.hi - z0.lo)), ('domain kept', And(z.begin == z0.begin, z.end == z0.end)),
            ('output times increase', sorted_q(o.q)), ('output starts at begin', And(o.T(o.lo) == z0.T(z0.lo), o.V(o.lo) == z0.V(z0.lo), o.D(o.lo) == z0.D(z0.lo))), ('output is behind', o.T(o.hi-1) <= z0.T(z.lo-1)),
            ('flat pieces stay flat', Implies(flat_q(z0.q), flat_q(o.q))), ('flat pieces are not repeated', Implies(flat_q(z0.q), no_repeat(o.q)))]
def simp_ipw(c):
    z, z0 = c.new.sig('this'), c.old.sig('this'); o = simp_out(c)
    return [(o, 'output agrees so far', lambda th: Implies(And(z0.begin <= th, Or(z.lo == z0.hi, th < z0.T(z.lo))), o.at(th) == z0.at(th)))]
contract('Signal::simplify', pre=simp_pre, post=simp_post, pw_post=simp_pw, modifies=('this|#dq',),
    loops=[LoopC(simp_inv, simp_ipw, variant=lambda c: c.old.sig('this').hi - c.new.sig('this').lo)])

# ------------------------------------------------------------------ boolean connectives on whole signals
NEWSIG = dict(leak=True)
def in_dom(Z, th): return And(Z.begin <= th, th <= Z.end)
def overlap(x, y): return [('domains overlap', rmax(x.begin, y.begin) <= rmin(x.end, y.end))]
def binop_contract(fn, M, opn, member, negx=False, ret=True):
    def sides(c): return c.old.sig('x'), c.old.sig('y')
    def Z(c): return c.new.sig('this') if member else c.rsig()
    def val(c, th):
        x, y = sides(c); a = x.at(th)
        return M(-a if negx else a, y.at(th))
    def pre(c):
        x, y = sides(c)
        return pre_names('x', wf(x)) + pre_names('y', wf(y)) + overlap(x, y)
    def post(c):
        x, y = sides(c); z = Z(c)
        return pre_names('result', wf(z)) + [('result domain', And(z.begin == rmax(x.begin, y.begin), z.end == rmin(x.end, y.end))),
            ('last sample at end', z.T(z.hi-1) == z.end),
            ('value at begin', z.V(z.lo) == val(c, z.begin))]
    def pw(c):
        z = Z(c)
        return [('this' if member else 'result', 'pointwise ' + opn, lambda th: Implies(in_dom(z, th), z.at(th) == val(c, th)))]
    def inv(ctr):
        def f(c):
            z = c.new.sig('this' if member else 'z'); X = c.old.sig('y' if ctr == 'j' else 'x'); k = c.new.it(ctr).idx
            return [('inside', And(X.lo <= k, k < X.hi)), ('samples passed are not before the end', Or(k + 1 == X.hi, z.end <= X.T(k + 1)))]
        return LoopC(f, variant=lambda c: c.new.it(ctr).idx - c.old.sig('y' if ctr == 'j' else 'x').lo)
    contract(fn, params=('x', 'y'), pre=pre, post=post, pw_post=pw, modifies=('this',) if member else (), loops=[] if negx else [inv('i'), inv('j')])
binop_contract('computeAnd', rmin, 'minimum', False)
binop_contract('computeOr', rmax, 'maximum', False)
binop_contract('computeImplies', rmax, 'maximum of -x and y', False, negx=True)
binop_contract('Signal::compute_and', rmin, 'minimum', True)
binop_contract('Signal::compute_or', rmax, 'maximum', True)
binop_contract('Signal::compute_implies', rmax, 'maximum of -x and y', True, negx=True)

def not_contract(fn, member):
    def Z(c): return c.new.sig('this') if member else c.rsig()
    def post(c):
        y, z = c.old.sig('y'), Z(c); k = Int('k_')
        return pre_names('result', wf(z)) + [('domain kept', And(z.begin == y.begin, z.end == y.end)), ('as many samples', z.hi - z.lo == y.hi - y.lo),
            ('last time', z.T(z.hi-1) == y.T(y.hi-1)), ('value at begin', z.V(z.lo) == -y.V(y.lo)),
            ('samples negated', ForAll([k], Implies(And(z.lo <= k, k < z.hi), And(z.T(k) == y.T(k - z.lo + y.lo), z.V(k) == -y.V(k - z.lo + y.lo), z.D(k) == -y.D(k - z.lo + y.lo))), patterns=[z.T(k), z.V(k), z.D(k)]))]
    def pw(c):
        y, z = c.old.sig('y'), Z(c)
        return [('this' if member else 'result', 'pointwise negation', lambda th: z.at(th) == -y.at(th))]
    def inv(c):
        y, z, i = c.old.sig('y'), c.new.sig('this' if member else 'z'), c.new.it('i').idx; k = Int('k_')
        n = i - y.lo
        return [('inside', And(y.lo <= i, i <= y.hi)), ('one sample per sample', z.hi - z.lo == n), ('domain', And(z.begin == y.begin, z.end == y.end)),
                ('samples negated', ForAll([k], Implies(And(z.lo <= k, k < z.hi), And(z.T(k) == y.T(k - z.lo + y.lo), z.V(k) == -y.V(k - z.lo + y.lo), z.D(k) == -y.D(k - z.lo + y.lo))), patterns=[z.T(k), z.V(k), z.D(k)]))]
    contract(fn, params=('y',), pre=lambda c: pre_names('y', wf(c.old.sig('y'))), post=post, pw_post=pw, modifies=('this',) if member else (),
        loops=[LoopC(inv, variant=lambda c: c.old.sig('y').hi - c.new.it('i').idx)])
not_contract('computeNot', False)
not_contract('Signal::compute_not', True)

def shift_post(c):
    z, z0 = c.new.sig('this'), c.old.sig('this'); a = c.old['a']
    return pre_names('result', wf(z)) + [('domain moved', And(z.begin == z0.begin + a, z.end == z0.end + a)), ('first value kept', z.V(z.lo) == z0.V(z0.lo)), ('last time', z.T(z.hi-1) == z0.T(z0.hi-1) + a), ('sample count kept', And(z.lo == z0.lo, z.hi == z0.hi)),
            ('samples moved', (lambda k: ForAll([k], Implies(And(z.lo <= k, k < z.hi), And(z.T(k) == z0.T(k) + a, z.V(k) == z0.V(k), z.D(k) == z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)]))(Int('k_')))]
def shift_inv(c):
    z, z0, i, a = c.new.sig('this'), c.old.sig('this'), c.new.it('i').idx, c.old['a']; k = Int('k_')
    return [('inside', And(z.lo == z0.lo, z.hi == z0.hi, z.lo <= i, i <= z.hi)), ('domain', And(z.begin == z0.begin + a, z.end == z0.end + a)),
            ('samples', ForAll([k], Implies(And(z.lo <= k, k < z.hi), And(z.T(k) == z0.T(k) + If(k < i, a, RealVal(0)), z.V(k) == z0.V(k), z.D(k) == z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)]))]
contract('Signal::shift', params=('a',), pre=lambda c: pre_names('signal', wf(c.old.sig('this'))), post=shift_post, modifies=('this',),
    pw_post=lambda c: [('this', 'value moved by a', lambda th: c.new.sig('this').at(th) == c.old.sig('this').at(th + c.old['a'].arg(0) if is_app_of(c.old['a'], Z3_OP_UMINUS) else th - c.old['a']))],
    loops=[LoopC(shift_inv, variant=lambda c: c.new.sig('this').hi - c.new.it('i').idx)])

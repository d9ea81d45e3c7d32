"""Contracts of the formula nodes.  An operand is known only by the contracts every node class obeys ("dyn f"); the same
contracts, unfolded over the fields of a class, are what each override is verified against."""
from base import *
import sigops, sigedit, temporal, plateau, until, truth, records
from sigops import in_dom
from sigedit import LINE, PREV, known_interp, sampq
from temporal import BOT, TOPV
from plateau import wsup, wend, plus, minus
from view import SigV
from engine import INF, AddrOf, LKey, LObj, Ptr, Obj
# how each class of formula node refers to its operands
KIND = dict(signal_transducer='leaf', constant_transducer='leaf', not_transducer='unary', abs_transducer='unary', ev_transducer='tunary', alw_transducer='tunary', until_transducer='tbinary',
            **{k: 'binary' for k in ('and_transducer', 'or_transducer', 'implies_transducer', 'stl_atom', 'plus_transducer', 'minus_transducer', 'mult_transducer')})
EXPRS = ('signal_transducer', 'constant_transducer', 'abs_transducer', 'plus_transducer', 'minus_transducer', 'mult_transducer')
ARITH = EXPRS[2:] + ('stl_atom',)
CHILD = dict(leaf=(), unary=('child',), tunary=('child',), binary=('childL', 'childR'), tbinary=('childL', 'childR'))
# ---- the data and parameters an evaluation runs on, and what they determine of an operand (functions of the operand's identity)
RA, LA = ArraySort(I, ArraySort(I, R)), ArraySort(I, I); PH, PV = ArraySort(Str, B), ArraySort(Str, R)
TR = (LA, RA, I)
WFF = Function('WELL_FORMED', I, *TR, PH, PV, B)            # comparisons between expressions, declared signals, 0 <= a <= b
COVF = Function('COVERED', I, *TR, PH, PV, R, R, B)         # the data covers the operand's horizon from [s, e]
NN = Function('GRID_SIZE', *TR, R, R, R, I); GT = Function('GRID_TIME', *TR, R, R, R, I, R)   # sample times of an expression asked for [s, e], of data up to a time
FUT = (Const('FUT.len', LA), Const('FUT.val', RA), Int('FUT.n'))       # any completion of the data (a ghost: the data followed by any later rows)
def completes(tr):
    ln, val, n = tr; k = Int('k_'); return [('completion', And(FUT[2] >= n, ForAll([k], Implies(And(0 <= k, k < n), FUT[1][k] == val[k]), patterns=[FUT[1][k], val[k]]))),
        ('times of the completion increase', rows(FUT)[2][1])]
class N:
    """a node in one state"""
    def __init__(s, c, v, path='this'): s.c, s.v, s.path = c, v, path; s.o = v.get(path); s.abs = getattr(s.o, 'abstract', False); s.typ = s.o.typ
    def f(s, nm): return s.v.st[(s.o.oid, nm)]
    kind = property(lambda s: KIND[s.typ])
    def kids(s): return [] if s.abs else [N(s.c, s.v, s.path + '.' + p) for p in CHILD[s.kind]]
    start = property(lambda s: s.f('start_time')); end = property(lambda s: s.f('end_time'))
    def sig(s, nm='z'): return s.v.sig(s.path + '.' + nm)
    def expr(s): return s.f('#expr') if s.abs else BoolVal(s.typ in EXPRS)
    # -- what it points to
    def loc(s, g, fld):
        x = s.f(g if s.abs else fld)
        return arg_loc(s.v.st, x.loc.key) if isinstance(x, AddrOf) and isinstance(x.loc, LKey) else None
    def trace_loc(s): return s.loc('#trace', 'trace_data_ptr')
    def params_loc(s): return s.loc('#params', 'param_map_ptr')
    def all_point(s, get):
        k = get(s); return k is not None and all(get(x) == k and x.all_point(get) for x in s.kids())
    def trace_set(s): return BoolVal(s.all_point(N.trace_loc))
    def params_set(s): return BoolVal(s.all_point(N.params_loc))
    def null_params(s): return getattr(s.f('#params' if s.abs else 'param_map_ptr'), 'null', BoolVal(False)) if s.params_loc() else BoolVal(True)
    def content(s, k): return s.v.st[arg_loc(s.v.st, k)]
    def pmap(s): return s.content(s.params_loc())
    def tr(s): q = s.content(s.trace_loc()); return q.arr['len'], q.arr['val'], q.hi
    def env(s): p = s.pmap(); return s.tr() + (p.has, p.val)
    # -- state of the whole subformula
    def reset(s):
        if s.abs: return s.f('#reset')
        zs = [s.sig(n) for n in ('z', 'z_low', 'z_up')]
        return And([And(z.lo == z.hi, z.begin == 0, z.end == 0) for z in zs] + [x.reset() for x in s.kids()])
    def td0(s):
        if s.abs: return s.f('#td0')
        return s.f('td_idx') == 0 if s.kind == 'leaf' else And([x.td0() for x in s.kids()])
    def done(s):
        """evaluated: the operands are, and an expression or comparison has its samples (their values: contracts say so where they are used)"""
        return s.f('#done') if s.abs else And([BoolVal(True)] + [x.done() for x in s.kids()] + [f for _, f in s.own()])
    def own(s):
        if s.typ not in ARITH + EXPRS: return []
        z = s.sig(); ln, val, n = s.tr(); E = rmin(s.end, s.last()); g = s.grid(); k = Int('k_'); out = wf(z) + [('domain', And(z.begin == rmin(s.start, E), z.end == E))]
        if s.typ in EXPRS: out += [('as many samples as recorded', z.hi - z.lo == NN(*g)), ('at the recorded times', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.T(k) == GT(*g, k - z.lo)), patterns=[z.T(k), z.V(k), z.D(k)]))]
        if s.kind == 'leaf': td = s.f('td_idx'); out += [('rows left are after the end', And(0 <= td, td <= n, Implies(td < n, val[td][0] > s.end)))]
        return out
    def low(s, up=False):
        """(name of the signal, its sign flips) of the bound"""
        return 'z_up' if up else 'z_low'
    def sides(s, up):
        """which bound of each operand this bound is made of"""
        return [up != (s.typ == 'not_transducer' or (s.typ == 'implies_transducer' and i == 0)) for i in range(len(s.kids()))]
    def clear(s, up):
        """nothing computed yet for this bound"""
        if s.abs: return s.f('#upclear' if up else '#lowclear')
        z = s.sig(s.low(up)); return And([z.lo == z.hi] + ([] if s.typ in ARITH + EXPRS else [x.clear(u) for x, u in zip(s.kids(), s.sides(up))]))
    def settled(s, up):
        """no window whose data ends less than 1e-14 before the requested instant (resize takes it as the instant)"""
        if s.abs: return s.f('#setup' if up else '#setlow')
        if s.typ in ARITH + EXPRS: return BoolVal(True)
        ks = [x.sig(x.low(u)) for x, u in zip(s.kids(), s.sides(up))]; own = BoolVal(True)
        if s.kind in ('tunary', 'tbinary') and up == (s.typ != 'alw_transducer'):
            a, b = s.window(); x = ks[0]; w = x.end - b
            if len(ks) == 2: y = ks[1]; E = rmin(x.end, y.end); w = If(rmax(x.begin + a, y.begin) <= E, E - b, x.end - b + a)
            et = rmin(w, s.end); own = Or(et >= s.start, et < s.start - sigedit.EPS)
        return And([own] + [x.settled(u) for x, u in zip(s.kids(), s.sides(up))])
    def par(s, which):
        i = s.path + '.I.'; nm, lit = s.v[i + which + '_str'], s.v[i + which]
        if not s.params_loc(): return lit
        m = s.pmap(); return If(And(Not(s.null_params()), m.has[nm]), m.val[nm], lit)
    def window(s): return s.par('begin'), s.par('end')
    def kid_horizons(s):
        """[start, end] each operand is asked for"""
        st, en = s.start, s.end
        if s.kind in ('tunary', 'tbinary'): a, b = s.window()
        if s.kind == 'tunary': return [(st + a, en + b)]
        if s.kind == 'tbinary': return [(st, en + b), (st + a, en + b)]
        return [(st, en) for _ in s.kids()]
    def hz(s):
        """horizons follow from this node's, for the current parameters"""
        if s.abs:
            m = s.f('#hp'); ok = [s.f('#hz'), s.start == s.f('#hs'), s.end == s.f('#he'), s.f('#hpn') == s.null_params()]
            if s.params_loc(): p = s.pmap(); ok.append(Implies(Not(s.null_params()), And(m.has == p.has, m.val == p.val)))
            return And(ok)
        return And([BoolVal(True)] + [And(x.start == a, x.end == b, x.hz()) for x, (a, b) in zip(s.kids(), s.kid_horizons())])
    def wfn(s):
        if s.abs: return WFF(s.f('#id'), *s.env())
        ok = [x.wfn() for x in s.kids()]
        if s.typ in ARITH: ok += [x.expr() for x in s.kids()]
        elif s.kind != 'leaf': ok += [Not(x.expr()) for x in s.kids()]
        if s.kind in ('tunary', 'tbinary'): a, b = s.window(); ok += [0 <= a, a <= b]
        if s.typ == 'signal_transducer':
            m = s.v.get(s.path + '.signal_map'); x = s.v[s.path + '.variable']; ln, val, n = s.tr(); k = Int('k_'); i = m.val[x]
            ok += [m.has[x], 1 <= i, i <= 32767, ForAll([k], Implies(And(0 <= k, k < n), i < ln[k]), patterns=[ln[k]])]
        return And(ok)
    def last(s): _, val, n = s.tr(); return val[n-1][0]
    def grid(s): return FUT + (s.start, s.end, s.last())      # what an expression is sampled over
    def span(s): E = rmin(s.end, s.last()); return rmin(s.start, E), E
    def cov(s, a=None, b=None):
        """the data covers what is asked for"""
        a, b = (s.start, s.end) if a is None else (a, b)
        if s.abs: return COVF(s.f('#id'), *s.env(), a, b)
        if s.kind == 'leaf': _, val, n = s.tr(); return And(val[0][0] <= a, a <= b, b <= val[n-1][0])
        return And([s.start <= s.end] + [x.cov(p, q) for x, (p, q) in zip(s.kids(), s.kid_horizons())])
def rows(tr):
    ln, val, n = tr; i, j = Ints('i_ j_'); k = Int('k_')
    return [('some data', n >= 1), ('rows hold at least a time', ForAll([k], Implies(And(0 <= k, k < n), ln[k] >= 1), patterns=[ln[k]])),
            ('times of the data increase', ForAll([i, j], Implies(And(0 <= i, i < j, j < n), val[i][0] < val[j][0]), patterns=[MultiPattern(val[i], val[j])]))]
# ------------------------------------------------------------------ the contracts every node obeys
CLR = 'z,z_low,z_up,#reset,#done,#lowclear,#upclear,#setlow,#setup'; HZ = '#hz,#hs,#he,#hpn,#hp,#done'; RUN = 'z,td_idx,value,#reset,#td0,#done'
def mods(kind, mine, kids): return (('this|' + mine,) if mine else ()) + tuple('this.%s|%s' % (k, kids) for k in CHILD[kind])
def arg_loc(st, key):
    """where an argument passed by reference lives"""
    while isinstance(st.get(key), LKey): key = st[key].key
    return key
def ptr_effect(g, par):
    def eff(e, c): e.store[(c.fr.this.oid, g)] = AddrOf(LKey(arg_loc(e.store, c.key_of(par))))
    return eff
def ptr_post(get, par):
    def post(c): n = N(c, c.new); return [('the whole formula reads the given one', BoolVal(n.all_point(get) and get(n) == arg_loc(c.new.st, c.key_of(par))))]
    return post
def bounds(S): return [('bounds', S.lo <= S.hi)]
def ih_post(c): n = N(c, c.new); return [('horizons follow from this one', n.hz())]
def cr_pre(c):
    n = N(c, c.old); g = c.old.g('Signal::semantics')
    return [('bound', c.old.g('Signal::BigM') >= 0), ('cleared', n.reset()), ('reads the data from its start', n.td0()), ('data given', n.trace_set()), ('parameters given', n.params_set()), ('horizons set', n.hz()), ('well-formed formula', n.wfn())] + rows(n.tr()) + completes(n.tr()) + \
           [('interpolation', known_interp(c)), ('semantics', And(0 <= g, g <= 2))] + [('parameters given (not null)', Not(n.null_params()))]
def cr_post(c):
    n, o = N(c, c.new), N(c, c.old); z = n.sig(); k = Int('k_'); ln, val, m = o.tr(); E = rmin(o.end, val[m-1][0]); g = o.grid(); e = o.expr(); lin_ = c.old.g('Signal::interpol') == LINE
    rest = [] if n.abs else [f for nm, f in n.own()[7 if n.typ in EXPRS else 4:]]      # of done(): what the clauses below do not say
    out = pre_names('z', wf(z)) + [('evaluated', n.done() if n.abs else And([x.done() for x in n.kids()] + rest + [BoolVal(True)])), ('domain when covered', Implies(o.cov(), And(z.begin == o.start, z.end == o.end))), ('value at the first instant', c.res == z.V(z.lo))]
    ex = [('domain', And(z.begin == rmin(o.start, E), z.end == E)), ('as many samples as recorded', z.hi - z.lo == NN(*g)), ('at the recorded times', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.T(k) == GT(*g, k - z.lo)), patterns=[z.T(k), z.V(k), z.D(k)])),
          ('straight between samples', ForAll([k], Implies(And(z.lo <= k, k < z.hi - 1), z.D(k) == If(lin_, fdiv(z.V(k+1) - z.V(k), z.T(k+1) - z.T(k)), RealVal(0))), patterns=[z.D(k)])), ('last piece flat without interpolation', Implies(Not(lin_), z.D(z.hi-1) == 0))]
    if c.caller: out.append(('at the first instant: the robustness', And(rob_fact(c, o, o.start), z.at(rv(o.start)) == z.at(rv(o.start)))))       # an instance of what is proved at every time
    if n.abs or n.typ in EXPRS: out += [('expression ' + nm, Implies(e, f), lambda: grid_def(o) + straight(c, z, o) + row_terms(o) if n.kind == 'leaf' and not n.abs and not c.caller else []) for nm, f in ex]
    return out
def reset_post(c): n = N(c, c.new); return [('cleared', n.reset()), ('bounds cleared', And(n.clear(False), n.clear(True)))]
contract('dyn reset', modifies=('this|' + CLR,), post=reset_post)
contract('dyn set_trace_data_ptr', params=('trace',), modifies=('this|#td0,#done',), effect=ptr_effect('#trace', 'trace'), post=lambda c: ptr_post(N.trace_loc, 'trace')(c) + [('reads the data from its start', N(c, c.new).td0())])
contract('dyn set_param_map_ptr', params=('map',), modifies=('this|value,#done',), effect=ptr_effect('#params', 'map'), post=ptr_post(N.params_loc, 'map'))
contract('dyn set_param', params=('name', 'val'), modifies=('this|value,param_map,#done',))
contract('dyn init_horizon', modifies=('this|' + HZ,), post=ih_post)
contract('dyn compute_robustness', modifies=('this|' + RUN,), pre=cr_pre, post=cr_post, pw_post=lambda c: rob_pw(c))

# ------------------------------------------------------------------ every class obeys them
CLASSES = tuple(KIND)
def node(cls, m, method=None, **kw):
    """method m as class cls has it (its own or inherited)"""
    return contract('%s as %s' % (m, cls), this_type=cls, fnkey='@' + (method or m), covers_return=True, **kw)
for cls in CLASSES:
    k = KIND[cls]; leaf = k == 'leaf'
    node(cls, 'reset', modifies=mods(k, CLR, CLR), pre=lambda c: [b for n in ('z', 'z_low', 'z_up') for b in bounds(c.old.sig('this.' + n))], post=reset_post)
    node(cls, 'set_trace_data_ptr', params=('trace',), modifies=mods(k, 'trace_data_ptr,td_idx', '#trace,#td0,#done'), post=lambda c: ptr_post(N.trace_loc, 'trace')(c) + [('reads the data from its start', N(c, c.new).td0())])
    node(cls, 'set_param_map_ptr', params=('map',), modifies=mods(k, 'param_map_ptr,value', '#params,value,#done'), post=ptr_post(N.params_loc, 'map'))
    node(cls, 'set_param', params=('name', 'val'), modifies=mods(k, 'value,param_map', 'value,param_map,#done'), post=(lambda c: [('the value it stands for', c.new['this.value'] == If(c.old['this.param'] == c.old['name'], c.old['val'], c.old['this.value']))]) if cls == 'constant_transducer' else None)
    node(cls, 'init_horizon', modifies=mods(k, '', 'start_time,end_time,' + HZ), given=('operands',), nullable=('param_map_ptr',), post=ih_post)
def compute(cls, eq=None, pw=None, loops=(), pre=lambda c: [], weight=0):
    def post(c): return cr_post(c) + (eq(c) if eq else [])
    return node(cls, 'compute_robustness', modifies=mods(KIND[cls], RUN, RUN), given=('operands',), pre=lambda c: cr_pre(c) + pre(c), post=post, pw_post=lambda c: (pw(c) if pw else []) + rob_pw(c), loops=loops, weight=weight)
def zz(c): return [c.new.sig('this.z')] + [c.new.sig('this.%s.z' % p) for p in CHILD[N(c, c.new).kind]]
def both(x, y): return lambda th: And(rmax(x.begin, y.begin) <= th, th <= rmin(x.end, y.end))
def not_pw(c):
    z, x = zz(c); return [('this.z', 'minus the operand', lambda th: Implies(in_dom(x, th), z.at(th) == -x.at(th)))]
def not_eq(c): z, x = zz(c); return [('domain of the operand', And(z.begin == x.begin, z.end == x.end))]
compute('not_transducer', not_eq, not_pw)
def bin_eq(c): z, x, y = zz(c); return [('domain of the operands', And(z.begin == rmax(x.begin, y.begin), z.end == rmax(x.end, y.end)))]
def bin_pw(M, nm, neg=False):
    def pw(c):
        z, x, y = zz(c); ok = both(x, y); return [('this.z', nm + ' of the operands', lambda th: Implies(ok(th), z.at(th) == M(-x.at(th) if neg else x.at(th), y.at(th))))]
    return pw
compute('and_transducer', bin_eq, bin_pw(rmin, 'minimum')); compute('or_transducer', bin_eq, bin_pw(rmax, 'maximum')); compute('implies_transducer', bin_eq, bin_pw(rmax, 'maximum of minus the first', True))
def win_eq(c):
    z, x = zz(c); n = N(c, c.old); a, b = n.window(); return [('domain the window moves to', And(z.begin == n.start, z.end == rmax(n.start, rmin(x.end - a, n.end))))]
def win_pw(D):
    M2, F, base = (rmax, SUPF, BOT) if D else (rmin, INFF, TOPV)
    def pw(c):
        z, x = zz(c); n = N(c, c.old); a, b = n.window(); ok = lambda th: And(in_dom(z, th), x.begin <= plus(th, a), plus(th, a) <= x.end)
        return [('this.z', 'value at a', lambda th: Implies(And(ok(th), a == b), z.at(th) == x.at(plus(th, a)))),
                ('this.z', 'supremum over the window' if D else 'infimum over the window', lambda th: Implies(And(ok(th), a < b), M2(base(c.old), z.at(th)) == M2(base(c.old), wsup(c, x, plus(th, a), minus(b, a), F))))]
    return pw
compute('ev_transducer', win_eq, win_pw(True)); compute('alw_transducer', win_eq, win_pw(False))

# ------------------------------------------------------------------ until
def until_pw(c):
    z, x, y = zz(c); n = N(c, c.old); a, b = n.window(); E = rmin(x.end, y.end)
    ok = lambda th: And(in_dom(z, th), rmax(x.begin, y.begin - a) <= th, th <= E - a)
    low = lambda th, u: until.inf_on(c, x, th, u)
    below = Two(lambda th, u, w: Implies(And(ok(th), th + a <= u, u <= th + b, u <= E), rmax(BOT(c.old), z.at(th)) >= rmin(TOPV(c.old), rmin(y.at(u), low(th, u)))), name='u')
    above = Two(lambda th, p, w: Implies(And(ok(th), p >= BOT(c.old), p < TOPV(c.old), p < z.at(th)), And(th + a <= w, w <= th + b, w <= E, p < y.at(w), p < low(th, w))), lambda th, p: c.w.pairs(z.q, th, p)[0], name='p')
    return [('this.z', 'not below what is reached in the window', below, lambda th, u: c.w.pairs(z.q, th, u)[1]), ('this.z', 'approached', above, lambda th, p: c.w.pairs(z.q, th, p)[1])]
compute('until_transducer', lambda c: [('domain starts at the instant', zz(c)[0].begin == N(c, c.old).start)], until_pw)

# ------------------------------------------------------------------ expressions and comparisons: sample by sample
def at_def(x, u):
    """definition of the piece at u and of the value there"""
    return Lem(x.w.facts[x.at(u).decl().name()][0])
STEPS = {}
def piecewise(cls, its, V, D=None, value='', to_end=False):
    """z has one sample for every sample of the operands, at the same time; V: its value, D: slope of the last piece"""
    m = len(CHILD[KIND[cls]])
    def sigs(c): z, *xs = zz(c); return z, xs
    def Vk(c, z, xs, k): return V(c, *[x.V(k - z.lo + x.lo) for x in xs])
    def Dk(c, z, xs, k):
        if not to_end: return D(c, *[x.D(k - z.lo + x.lo) for x in xs])
        i = [k - z.lo + x.lo for x in xs]; x, e = xs[0], xs[0].end; return If(e > x.T(i[0]), fdiv(V(c, *[x.L(j, e) for x, j in zip(xs, i)]) - V(c, *[x.V(j) for x, j in zip(xs, i)]), e - x.T(i[0])), RealVal(0))
    def lin_(c): return c.old.g('Signal::interpol') == LINE
    def inv(c):
        z, xs = sigs(c); i = [c.new.it(nm).idx for nm in its]; x0 = xs[0]; n = i[0] - x0.lo; k = Int('k_'); l = z.hi - 1
        out = [('times increase', sorted_q(z.q)), ('inside', And([And(x.lo <= j, j <= x.hi, j - x.lo == n) for x, j in zip(xs, i)])), ('one sample per sample', z.hi - z.lo == n), ('domain so far', And(Implies(n > 0, And(z.begin == x0.T(x0.lo), z.end == x0.T(i[0] - 1))), Implies(n == 0, And(z.begin == 0, z.end == 0)))),
               ('same times', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.T(k) == x0.T(k - z.lo + x0.lo)), patterns=[z.T(k), z.V(k), z.D(k)])), ('values', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.V(k) == Vk(c, z, xs, k)), patterns=[z.T(k), z.V(k), z.D(k)])),
               ('straight between samples', ForAll([k], Implies(And(z.lo <= k, k < l), z.D(k) == If(lin_(c), fdiv(z.V(k+1) - z.V(k), z.T(k+1) - z.T(k)), RealVal(0))), patterns=[z.D(k)])), ('last piece flat without interpolation', Implies(And(n > 0, Not(lin_(c))), z.D(l) == 0))]
        out.append(('last piece', Implies(And(n > 0, lin_(c)), z.D(l) == Dk(c, z, xs, l))))
        return out
    def space(c): return c.old.g('Signal::semantics') == 0 if cls == 'stl_atom' else BoolVal(True)
    def eq(c):
        z, xs = sigs(c); k = Int('k_'); x0 = xs[0]
        return [('domain of the operands', And(z.begin == x0.begin, z.end == x0.end)), ('samples of the operands: ' + value, Implies(space(c), And(z.hi - z.lo == x0.hi - x0.lo, ForAll([k], Implies(And(z.lo <= k, k < z.hi), And(z.T(k) == x0.T(k - z.lo + x0.lo), z.V(k) == Vk(c, z, xs, k))), patterns=[z.T(k), z.V(k), z.D(k)]))))]
    def hint(c, th):
        z, xs = sigs(c)
        k = z.seg(th); ks = [x.seg(th) for x in xs]; ok = And(in_dom(z, th), space(c)); x, y = xs; i, j = ks
        idx = lambda a, s, t: a - s.lo + t.lo
        reads = [t.T(idx(a, s, t) + d) == t.T(idx(a, s, t) + d) for s, a in zip([z] + xs, [k] + ks) for t in [z] + xs for d in (-1, 0, 1)]
        st = [('increasing', And([sorted_q(s.q) for s in [z] + xs])),
              ('same piece', Implies(ok, And([k - z.lo == j - x.lo for j, x in zip(ks, xs)])), reads)]
        dt = z.T(k+1) - z.T(k); dz, dx, dy = z.V(k+1) - z.V(k), x.V(i+1) - x.V(i), y.V(j+1) - y.V(j); lems = [slope_lem(dz, p, q, dt, sg) for p, q, sg in ((dx, dy, 1), (dx, dy, -1), (dy, dx, -1))]
        st += [('same sample', Implies(ok, And(z.V(k) == V(c, x.V(i), y.V(j)), z.T(k) == x.T(i), z.T(k) == y.T(j)))),
               ('same slope', Implies(ok, z.D(k) == V(c, x.D(i), y.D(j))), lems + [x.T(i+1) == y.T(j+1), z.T(k+1) == x.T(i+1), z.V(k+1) == V(c, x.V(i+1), y.V(j+1))])]
        st += [('values', Implies(ok, And([s.at(th) == s.L(a, th) for s, a in zip([z] + xs, [k] + ks)])))]
        return st, [comb_lem(z.q, k, x.q, i, y.q, j, th, 1), comb_lem(z.q, k, x.q, i, y.q, j, th, -1), comb_lem(z.q, k, y.q, j, x.q, i, th, -1)]
    def curve(c, th, G, K, r):
        """the operation at the sample times and at the end, joined in between: ROB of abs and *"""
        z, xs = sigs(c); n_ = N(c, c.old); g = n_.grid(); s, E = n_.span(); e = n_.end; r0, k1, k = kseg(FUT, s), kseg(FUT, E), kseg(FUT, th); TM = lambda r: FUT[1][r][0]; kz = z.seg(th); den = Sem(c).den(th); ks = [kz - z.lo + x.lo for x in xs]; l = kz + 1 == z.hi
        value, t0, t1, nxt, slope, F = den.curve()
        defs = [Lem(r == value)]; gd = grid_def(n_) + [kseg_def(FUT, th)]; tms = [TM(i + d) == TM(i + d) for i in (r0, k, k1) for d in (0, 1)] + [GT(*g, kz - z.lo) == GT(*g, kz - z.lo), GT(*g, kz + 1 - z.lo) == GT(*g, kz + 1 - z.lo)]
        same = lambda i, j: And([x.V(i - z.lo + x.lo) == x.at(j) for x in xs]); own = [x.T(i + d) == x.T(i + d) for x, i in zip(xs, ks) for d in (0, 1)]; mid = And(G, Not(l)); fin = And(G, l, th != t0)
        st = [('increasing', And([sorted_q(a.q) for a in [z] + xs] + [rows(FUT)[2][1]])), ('domains', Implies(G, And([And(x.begin == z.begin, x.end == z.end, x.hi - x.lo == z.hi - z.lo, x.T(x.lo) == x.begin, x.T(x.hi - 1) <= x.end) for x in xs] + [z.begin == s, z.end == E, E <= e, n_.start == s, z.hi - z.lo == k1 - r0 + 1])), gd),
              ('time', Implies(G, And(z.lo <= kz, kz < z.hi, z.T(kz) <= th, Implies(kz + 1 < z.hi, th < z.T(kz + 1))))), ('first time', Implies(G, And(z.T(z.lo) == s, s <= th, th <= E)), [z.T(z.lo) == z.begin]),
              ('recorded time', Implies(G, And(Implies(kz > z.lo, z.T(kz) == TM(r0 + kz - z.lo)), Implies(kz + 1 < z.hi, z.T(kz + 1) == TM(r0 + kz + 1 - z.lo)))), gd + tms),
              ('rows', Implies(G, And(r0 <= k, k <= k1, k1 < FUT[2], r0 >= -1)), gd + tms + [n_.last() == TM(n_.tr()[2] - 1)]),
              ('same piece', Implies(G, k - r0 == kz - z.lo), gd + tms + [TM(r0 + kz - z.lo) == TM(r0 + kz - z.lo), TM(r0 + kz + 1 - z.lo) == TM(r0 + kz + 1 - z.lo)]),
              ('its time', Implies(G, t0 == z.T(kz))), ('next time', Implies(mid, And(k + 1 < FUT[2], t1 == z.T(kz + 1), t1 <= E)), gd + tms), ('last piece', Implies(fin, And(Not(nxt), E == e)), gd + tms + [n_.last() == TM(n_.tr()[2] - 1)]),
              ('sample times', Implies(G, And([x.T(i) == t0 for x, i in zip(xs, ks)] + [Implies(Not(l), x.T(i + 1) == t1) for x, i in zip(xs, ks)])), own),
              ('operands at the sample', Implies(G, And([x.V(i) == x.at(t0) for x, i in zip(xs, ks)])), [mark(x.at(t0)) for x in xs] + own), ('operands at the next sample', Implies(mid, And([x.V(i + 1) == x.at(t1) for x, i in zip(xs, ks)])), [mark(x.at(t1)) for x in xs] + own)] + [('operand %d ends there' % i, Implies(fin, And(x.lo < x.hi, x.begin <= e, x.end == e, x.T(x.hi - 1) <= e))) for i, x in enumerate(xs)] + [('operand %d at the end' % i, Implies(fin, And(x.seg(e) == x.hi - 1, x.L(x.hi - 1, e) == x.at(e))), [at_def(x, e)], True) for i, x in enumerate(xs)]
        at = lambda u: And([x.at(u) == a.rob(u) for x, a in zip(xs, K)])
        for nm, u, gg in (('sample', t0, G), ('next sample', t1, mid), ('end', e, fin)): st.append(('values at the ' + nm, Implies(gg, at(u)), [mark(x.at(u)) for x in xs]))
        st += [('value', Implies(G, z.V(kz) == F(t0)), own), ('next value', Implies(mid, z.V(kz + 1) == F(t1)), own), ('slope', Implies(And(G, th != t0), z.D(kz) == slope), own), ('piece of the result', Implies(G, z.at(th) == z.L(kz, th)))]
        return [Cut(st), defs[0]]
    def goal(c, th): z, xs = sigs(c); return Implies(And(in_dom(z, th), space(c)), z.at(th) == V(c, *[x.at(th) for x in xs]))
    def steps(c, th): st, ls = hint(c, th); return st + [('combined', goal(c, th), ls, True)]
    STEPS[cls] = steps if not to_end else curve
    def pw(c):
        z, xs = sigs(c)
        def h(th):
            if c.caller: return []
            st, ls = hint(c, th); return [Cut(st)] + ls
        return [('this.z', value, lambda th: goal(c, th), h)]
    compute(cls, eq, pw if D else None, loops=[LoopC(inv, variant=lambda c: sigs(c)[1][0].hi - c.new.it(its[0]).idx)])
def less(c): return c.old['this.comp'] == 0
piecewise('plus_transducer', ('iterL', 'iterR'), lambda c, x, y: x + y, lambda c, x, y: x + y, 'sum of the operands')
piecewise('minus_transducer', ('iterL', 'iterR'), lambda c, x, y: x - y, lambda c, x, y: x - y, 'difference of the operands')
piecewise('mult_transducer', ('iterL', 'iterR'), lambda c, x, y: fmul(x, y), None, 'product of the operands', True)
piecewise('abs_transducer', ('iter',), lambda c, x: If(x >= 0, x, -x), None, 'absolute value of the operand', True)
piecewise('stl_atom', ('itL', 'itR'), lambda c, x, y: If(less(c), y - x, x - y), lambda c, x, y: If(less(c), y - x, x - y), 'margin of the comparison')

# ------------------------------------------------------------------ leaves: recorded samples and constants
def isline(c): return c.old.g('Signal::interpol') == LINE
KSEG = Function('LAST_ROW', RA, I, R, I)                     # last row not after a time (-1: none)
def kseg(tr, th): return KSEG(tr[1], tr[2], th)
def kseg_def(tr, th):
    ln, val, n = tr; k = kseg(tr, th); return Lem(Implies(n >= 1, And(-1 <= k, k < n, Implies(k >= 0, val[k][0] <= th), Implies(k + 1 < n, val[k+1][0] > th))))
def grid_def(n):
    """definition of those times: from the first instant, then at the recorded times"""
    g = n.grid(); s, E = n.span(); k0, k1 = kseg(FUT, s), kseg(FUT, E); j = Int('j_')
    return [kseg_def(FUT, s), kseg_def(FUT, E), Lem(And(NN(*g) == k1 - k0 + 1, GT(*g, 0) == s)), Lem(ForAll([j], Implies(j >= 1, GT(*g, j) == FUT[1][k0 + j][0]), patterns=[GT(*g, j)]))]
def row_terms(n):
    s, E = n.span(); _, val, m = n.tr(); return [And(FUT[1][i] == FUT[1][i], val[i] == val[i]) for t in (s, E) for k in (kseg(FUT, t),) for i in (k, k + 1)] + [FUT[1][m-1] == FUT[1][m-1]]
def straight(c, z, o):
    if o.typ != 'signal_transducer': return []
    val = FUT[1]; g = kseg(FUT, o.span()[0]); i = column(c); return [rest_lem(z.D(z.lo), val[g][i], val[g][0], val[g+1][i], val[g+1][0], z.T(z.lo), z.V(z.lo))]
def slope_of(lin_, tr, i, k):
    ln, val, n = tr; return If(And(lin_, k + 1 < n), fdiv(val[k+1][i] - val[k][i], val[k+1][0] - val[k][0]), RealVal(0))
def data_at(lin_, tr, i, th):
    """value of column i at th: the data joined as the interpolation says, the first value before it"""
    ln, val, n = tr; k = kseg(tr, th); return If(k < 0, val[0][i], lin(val[k][i], slope_of(lin_, tr, i, k), val[k][0], th))
TIMES = {}
def leaf(cls, col, pw):
    """col(c): value of the leaf in row k"""
    def fin(c):
        o = N(c, c.old); ln, val, n = o.tr(); k = Int('k_')
        return [('time is finite', And(-INF < o.start, o.start < INF, -INF < o.end, o.end < INF, ForAll([k], Implies(And(0 <= k, k < n), And(-INF < val[k][0], val[k][0] < INF)), patterns=[val[k]])))]
    def inv(c):
        z = c.new.sig('this.z'); o = N(c, c.old); ln, val, n = o.tr(); td = c.new['this.td_idx']; k = Int('k_'); l = z.hi - 1; lin_ = c.old.g('Signal::interpol') == LINE; V = lambda k: col(c, k)
        return [('times increase', sorted_q(z.q)), ('rows read', And(0 <= td, td <= n, z.hi - z.lo == td)), ('same times', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.T(k) == val[k - z.lo][0]), patterns=[z.T(k), z.V(k), z.D(k)])),
                ('values', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.V(k) == V(k - z.lo)), patterns=[z.T(k), z.V(k), z.D(k)])),
                ('straight between samples', ForAll([k], Implies(And(z.lo <= k, k < l), z.D(k) == If(lin_, fdiv(z.V(k+1) - z.V(k), z.T(k+1) - z.T(k)), RealVal(0))), patterns=[z.D(k)])), ('last piece flat', Implies(td > 0, z.D(l) == 0)),
                ('domain so far', And(Implies(td > 0, And(z.begin == val[0][0], z.end == val[td-1][0])), Implies(td == 0, And(z.begin == 0, z.end == 0)))), ('last time', c.new['t'] == If(td == 0, -INF, val[td-1][0])),
                ('no row after the end but the last', Implies(td >= 2, val[td-2][0] <= o.end))] + ([('last value', Implies(td > 0, c.new['v'] == V(td - 1)))] if cls == 'signal_transducer' else [])
    def eq(c):
        o = N(c, c.old); z = c.new.sig('this.z'); k0 = kseg(FUT, o.span()[0]); k = Int('k_')
        return [('recorded values', ForAll([k], Implies(And(z.lo < k, k < z.hi), z.V(k) == col(c, k - z.lo + k0)), patterns=[z.T(k), z.V(k), z.D(k)]), lambda: grid_def(o))]
    TIMES[cls] = fin
    compute(cls, eq, pw, loops=[LoopC(inv, variant=lambda c: N(c, c.old).tr()[2] - c.new['this.td_idx'])], pre=fin)
def column(c): o = N(c, c.old); return c.old.get('this.signal_map').val[c.old['this.variable']]
def sig_pw(c):
    z = c.new.sig('this.z'); tr = N(c, c.old).tr()
    return [('this.z', 'the data', lambda th: Implies(in_dom(z, th), z.at(th) == data_at(isline(c), tr, column(c), th)), lambda th: [kseg_def(tr, th)])]
leaf('signal_transducer', lambda c, k: N(c, c.old).tr()[1][k][column(c)], sig_pw)
def const_value(c):
    p = c.old['this.param']; m = N(c, c.old).pmap(); return If(p == strc('""'), c.old['this.value'], If(m.has[p], m.val[p], RealVal(0)))
def const_steps(c, th):
    """every piece before the cut is the constant, so the cut signal is"""
    z = c.new.sig('this.z'); cv = const_value(c); st = []; q = getattr(z.q, 'prev', None)
    if q is not None:
        y = SigV(c.w, q, None, None); k = y.seg(th); ok = And(y.lo <= k, k < y.hi)
        st = [('value of the piece', Implies(ok, y.V(k) == cv)), ('value of the next piece', Implies(And(ok, k + 1 < y.hi), y.V(k + 1) == cv)), ('slope of the piece', Implies(ok, y.D(k) == 0), [(lambda f: f == f)(fdiv(y.V(k + 1) - y.V(k), y.T(k + 1) - y.T(k)))]), ('first value', Implies(y.lo < y.hi, y.V(y.lo) == cv)),
              ('value before the cut', Implies(ok, y.at(th) == cv))]
    return st + [('after the cut', Implies(in_dom(z, th), z.at(th) == cv))]
leaf('constant_transducer', lambda c, k: const_value(c), lambda c: [('this.z', 'the constant, or the parameter as it stands', lambda th: Implies(in_dom(c.new.sig('this.z'), th), c.new.sig('this.z').at(th) == const_value(c)), lambda th: [] if c.caller else [Cut(const_steps(c, th))])])

# ------------------------------------------------------------------ the robustness of a formula (space semantics, data covering its horizon)
ENV = DeclareSort('ENV'); ENVF = Function('ENVIRONMENT', LA, RA, I, PH, PV, I, R, ENV)     # data, parameters, interpolation, bound
ROB = Function('ROB', I, ENV, R, R, R, R)                       # formula, environment, evaluated interval, time
INFR = Function('ROB_INF', I, ENV, R, R, R, R, R)               # infimum over [t, u]
def bigM(c): return c.old.g('Signal::BigM')
def clamp(c, x): M = bigM(c); return rmax(-M, rmin(M, x))
class Den:
    """what a formula denotes at a time, given what its operands denote: the definition of ROB"""
    def __init__(s, typ, K=(), th=None, s_=None, e=None, a=None, b=None, M=None, less=None, lin_=None, fut=None, col=None, const=None):
        s.typ, s.K, s.th, s.s, s.e, s.a, s.b, s.M, s.less, s.lin, s.fut, s.col, s.const = typ, K, th, s_, e, a, b, M, less, lin_, fut, col, const
    def clamp(s, x): return rmax(-s.M, rmin(s.M, x))
    def op(s, *v):
        """not, min, max, arithmetic on the operands' values"""
        return dict(not_transducer=lambda x: -x, and_transducer=rmin, or_transducer=rmax, implies_transducer=lambda x, y: rmax(-x, y), plus_transducer=lambda x, y: x + y, minus_transducer=lambda x, y: x - y, mult_transducer=lambda x, y: fmul(x, y),
                    abs_transducer=lambda x: If(x >= 0, x, -x), stl_atom=lambda x, y: s.clamp(If(s.less, y - x, x - y)))[s.typ](*v)
    def value(s):
        th = s.th
        if s.typ == 'signal_transducer': return data_at(s.lin, s.fut, s.col, th)
        if s.typ == 'constant_transducer': return s.const
        if s.typ in ('abs_transducer', 'mult_transducer'): return s.curve()[0]
        return s.op(*[k(th) for k in s.K])
    def curve(s):
        """the operation at the first instant, at the recorded times and at the last instant, joined in between as the interpolation says"""
        fut, th, e = s.fut, s.th, s.e; r0, k = kseg(fut, s.s), kseg(fut, th); TM = lambda r: fut[1][r][0]; F = lambda u: s.op(*[k(u) for k in s.K])
        t0 = If(k == r0, s.s, TM(k)); t1 = TM(k + 1); nxt = And(k + 1 < fut[2], t1 <= e)
        slope = If(Not(s.lin), RealVal(0), If(nxt, fdiv(F(t1) - F(t0), t1 - t0), If(e > t0, fdiv(F(e) - F(t0), e - t0), RealVal(0))))
        return lin(F(t0), slope, t0, th), t0, t1, nxt, slope, F
    def window(s):
        """ev: supremum, alw: infimum of the operand over [th+a, th+b]"""
        return (SUPF if s.typ == 'ev_transducer' else INFF), s.th + s.a, s.th + s.b, s.K[0]
    def until(s, inf):
        """supremum over u in [th+a, th+b] of min(right at u, inf(u)), inf(u): infimum of left over [th, u]"""
        return (SUPF, s.th + s.a, s.th + s.b, lambda u: rmin(s.K[1](u), inf(u))), lambda u: (INFF, s.th, u, s.K[0])
class Sem:
    """a node with the environment it is evaluated in"""
    def __init__(s, c, path='this'):
        s.c, s.n = c, N(c, c.old, path); n = s.n; s.id = n.f('#id') if n.abs else Int('#' + path); p = n.pmap(); s.env = ENVF(*FUT, p.has, p.val, c.old.g('Signal::interpol'), bigM(c))
        s.s, s.e = n.start, n.end
    def rob(s, th): return ROB(s.id, s.env, s.s, s.e, rv(th))
    def kids(s): return [Sem(s.c, s.n.path + '.' + p) for p in CHILD[s.n.kind]]
    def den(s, th):
        c, n, t = s.c, s.n, s.n.typ; a, b = n.window() if n.kind in ('tunary', 'tbinary') else (None, None)
        return Den(t, [k.rob for k in s.kids()], th, n.start, n.end, a, b, bigM(c), less(c) if t == 'stl_atom' else None, isline(c), FUT, column(c) if t == 'signal_transducer' else None, const_value(c) if t == 'constant_transducer' else None)
def rob_fact(c, n, th):
    """what is known of a node's signal once it is evaluated"""
    z, S = N(c, c.new, n.path).sig(), Sem(c, n.path); ok = And(n.cov(), in_dom(z, th)); r = S.rob(th); e = n.expr()
    sp = c.old.g('Signal::semantics') == 0; f = And(Implies(And(in_dom(z, th), n.start <= z.end, n.start <= n.end, e), z.at(th) == r), Implies(And(ok, Not(e), sp), clamp(c, z.at(th)) == r))
    return And(f, atom_fact(c, n, th)) if n.typ == 'stl_atom' else f
def atom_fact(c, n, th, v=None):
    """a comparison has its robustness on whatever data there is"""
    z, S = N(c, v or c.new, n.path).sig(), Sem(c, n.path); return Implies(And(in_dom(z, th), n.start <= z.end, n.start <= n.end, c.old.g('Signal::semantics') == 0), clamp(c, z.at(th)) == S.rob(th))
def sup_def(c, val, tgt, lo, hi, us, p):
    """definition of a supremum (F: infimum) of val over [lo, hi]: instances, and a witness for p"""
    F = tgt[1]; t = tgt[0]; le = (lambda a, b: a <= b) if F.eq(SUPF) else (lambda a, b: a >= b); w = c.w.fresh('sw', R)
    return [Lem(Implies(And(lo <= u, u <= hi), le(val(u), t))) for u in us], w, Lem(Implies(And(lo <= hi, Not(le(t, p))), And(lo <= w, w <= hi, Not(le(val(w), p)))))
def sup_steps(c, nm, G, x, lo, hi, F, val, t):
    """clamped supremum of x over [lo, hi] == t, the supremum of val (the clamped x)"""
    S = c.w.sup(x.q, lo, x.seg(hi), rv(hi), F); k0 = x.seg(hi); up = F.eq(SUPF); le = (lambda a, b: a <= b) if up else (lambda a, b: a >= b)
    j, v, l1 = c.w.sup_wit(x.q, lo, k0, hi, F); m = rmax(lo, x.T(j)); y, l2 = c.w.approach(x.q, j, m, v, t, F); cs = clamp(c, S)
    us, w, lw = sup_def(c, val, (t, F), lo, hi, [v, y, lo], cs); lub = c.w.sup_ub(x.q, lo, k0, hi, x.seg(w), w, F)
    M = bigM(c); G = And(G, x.begin <= lo, lo <= hi, hi <= x.end)
    own = Or(j == k0, v < x.T(j + 1))
    st = [('increasing', sorted_q(x.q)), (nm + ' bound', M >= 0), (nm + ' ends', Implies(G, And(x.lo <= x.seg(lo), x.seg(lo) <= k0, k0 < x.hi, x.T(k0) <= hi)), [mark(x.at(hi)), mark(x.at(lo))]),
          (nm + ' witness', Implies(G, And(x.seg(lo) <= j, j <= k0, lo <= v, x.T(j) <= v, v <= If(j == k0, hi, x.T(j + 1)), S == x.L(j, v))), [l1, mark(x.at(lo)), mark(x.at(hi))]),
          (nm + ' at the witness', Implies(And(G, own), x.at(v) == x.L(j, v)), [mark(x.at(v))]),
          (nm + ' nearby', Implies(And(G, Not(own), lo < v, x.T(j) < v, Not(le(x.L(j, v), t))), And(m <= y, y < v, Not(le(x.L(j, y), t)))), [l2], True),
          (nm + ' before a jump', Implies(And(G, Not(own)), And(m < v, Implies(And(m <= y, y < v), x.at(y) == x.L(j, y)))), [mark(x.at(y)), mark(x.at(lo)), mark(x.T(j + 1))]),
          (nm + ' values', Implies(G, And(val(v) == clamp(c, x.at(v)), Implies(And(lo <= y, y <= hi), val(y) == clamp(c, x.at(y))), val(lo) == clamp(c, x.at(lo)), Implies(And(lo <= w, w <= hi), val(w) == clamp(c, x.at(w))))), [mark(x.at(u)) for u in (v, y, lo, w)]),
          (nm + ' inside', Implies(And(G, lo <= w, w <= hi), And(x.at(w) == x.L(x.seg(w), w), x.seg(lo) <= x.seg(w), x.seg(w) <= k0, x.T(x.seg(w)) <= w, w <= If(x.seg(w) == k0, hi, x.T(x.seg(w) + 1)))), [mark(x.at(w)), mark(x.at(lo)), mark(x.at(hi))]),
          (nm + ' not exceeded', Implies(And(G, lo <= w, w <= hi), le(x.at(w), S)), [lub]),
          (nm + ' not below', Implies(G, le(t, cs)), [lw]),
          (nm + ' not above', Implies(G, le(cs, t)), us + [l2])]
    st += [(nm, Implies(G, cs == t))]
    return st
def rob_pw(c):
    n = N(c, c.old); return [('this.z', 'the robustness of the formula', lambda th: rob_fact(c, n, th), lambda th: [] if c.caller else rob_hint(c, th))]
def arith(c, th, n, z, xs, v, d):
    return [Cut(STEPS[n.typ](c, th) + [('covered', Implies(And(n.cov(), in_dom(z, th)), And(n.start <= z.end, n.start <= n.end))), ('operands', Implies(And(n.start <= z.end, n.start <= n.end, in_dom(z, th)), And([x.at(th) == a for x, a in zip(xs, v)])), [mark(x.at(th)) for x in xs])])] + d
def rob_hint(c, th):
    S = Sem(c); n = S.n; K = S.kids(); t = n.typ; D = S.den(th); r = S.rob(th); v = [k.rob(th) for k in K]; z, *xs = zz(c); at = [mark(x.at(th)) for x in xs]
    if t == 'signal_transducer':
        tr = n.tr(); m = tr[2]; k, q, i = kseg(tr, th), kseg(FUT, th), column(c); G = And(in_dom(z, th), n.start <= z.end, n.start <= n.end); TM = lambda j: FUT[1][j][0]; kd = [kseg_def(tr, th), kseg_def(FUT, th)]
        at = [And(tr[1][j] == tr[1][j], FUT[1][j] == FUT[1][j]) for j in (k, k + 1, q, q + 1, m - 1)]; l = k == m - 1
        st = [('the recorded data', Implies(in_dom(z, th), z.at(th) == data_at(isline(c), tr, i, th)), kd), ('before the last row', Implies(G, th <= tr[1][m-1][0])), ('data', And(m >= 1, FUT[2] >= m, rows(FUT)[2][1], rows(tr)[2][1])),
              ('the last row', Implies(And(G, l), th == TM(m - 1)), kd + at), ('same row', Implies(G, q == k), kd + at), ('its values', Implies(G, And(Implies(k >= 0, FUT[1][k] == tr[1][k]), FUT[1][0] == tr[1][0], Implies(Not(l), FUT[1][k+1] == tr[1][k+1]))), kd + at),
              ('joined alike', Implies(G, data_at(isline(c), FUT, i, th) == data_at(isline(c), tr, i, th)), kd + at)]
        return [Cut(st), Lem(r == D.value())]
    if t == 'constant_transducer': return [Cut(const_steps(c, th)), Lem(r == D.value())]
    if t in ('not_transducer', 'and_transducer', 'or_transducer', 'implies_transducer'): return at + [Lem(r == D.value())]
    if t in ('plus_transducer', 'minus_transducer', 'stl_atom'): return arith(c, th, n, z, xs, v, [Lem(r == D.value())])
    if t in ('abs_transducer', 'mult_transducer'): return STEPS[t](c, th, And(n.start <= z.end, n.start <= n.end, in_dom(z, th)), K, r)
    a, b = n.window(); M = bigM(c); ok = And(n.cov(), in_dom(z, th), c.old.g('Signal::semantics') == 0)
    if t in ('ev_transducer', 'alw_transducer'):
        F, lo, hi, val = D.window(); D = t[0] == 'e'; x = xs[0]
        ww = wsup(c, x, plus(th, a), minus(b, a), F)
        us, w, lw = sup_def(c, val, (r, F), lo, hi, [th + a], clamp(c, x.at(th + a)))
        pt = [('window covered', Implies(ok, And(x.begin <= th + a, th + b <= x.end, 0 <= a, a <= b))), ('one instant: operand', Implies(And(ok, a == b), clamp(c, x.at(plus(th, a))) == K[0].rob(plus(th, a))), [mark(x.at(plus(th, a)))]),
              ('one instant', Implies(And(ok, a == b), r == K[0].rob(plus(th, a))), us + [lw]), ('one instant: result', Implies(And(ok, a == b), z.at(th) == x.at(plus(th, a))))]
        G = And(ok, a < b); b2 = wend(x, plus(th, a), minus(b, a)); pt += [('end of the window', Implies(G, b2 == th + b))]
        pt += [(q[0], q[1]) + tuple(q[2:]) for q in sup_steps(c, 'window', G, x, plus(th, a), b2, F, val, r)]
        base = (BOT if D else TOPV)(c.old); M2 = rmax if D else rmin
        pt += [('operator', Implies(G, M2(base, z.at(th)) == M2(base, ww)))]
        return [Cut(pt)]
    if t == 'until_transducer':
        x, y = xs; L, Rr = K; inf = lambda u: INFR(S.id, S.env, S.s, S.e, rv(th), rv(u)); G = ok; (_, lo, hi, val), until_inf = D.until(inf); p0 = clamp(c, z.at(th))
        low = lambda u: until.inf_on(c, x, th, u)
        wa = c.w.pairs(z.q, th, r)[0][0]; us, w, lw = sup_def(c, val, (r, SUPF), lo, hi, [wa, lo], p0)
        pb, pa = c.w.pairs(z.q, th, w)[1], c.w.pairs(z.q, th, r)[1]
        win = lambda u: And(lo <= u, u <= hi)
        st = [('window covered', Implies(G, And(x.begin <= th, hi <= x.end, y.begin <= lo, hi <= y.end, 0 <= a, a <= b)))]
        for nm, u in (('reached', wa), ('best', w)):
            st += sup_steps(c, 'infimum until the %s instant' % nm, And(G, win(u)), x, rv(th), u, INFF, until_inf(u)[3], inf(u))
            st.append(('right operand at the %s instant' % nm, Implies(And(G, win(u)), Rr.rob(u) == clamp(c, y.at(u))), [mark(y.at(u))]))
        _, w0, l0 = sup_def(c, until_inf(lo)[3], (inf(lo), INFF), rv(th), lo, [], -M)
        st += [('right operand at the first instant', Implies(G, Rr.rob(lo) == clamp(c, y.at(lo))), [mark(y.at(lo))]), ('operands within the bound', Implies(And(G, th <= w0, w0 <= lo), L.rob(w0) == clamp(c, x.at(w0))), [mark(x.at(w0))]), ('within the bound', Implies(G, inf(lo) >= -M), [l0], True)]
        st += [('not below the window', Implies(And(G, win(w)), rmax(-M, z.at(th)) >= rmin(M, rmin(y.at(w), low(w)))), pb), ('approached', Implies(And(G, r >= -M, r < M, r < z.at(th)), And(win(wa), r < y.at(wa), r < low(wa))), pa)]
        return [Cut(st), lw] + us
    return at

# ------------------------------------------------------------------ evaluated once more (the bounds of a comparison do): the same samples at the same times
def run_pre(c): return [x for x in cr_pre(c) if x[0] not in ('cleared', 'reads the data from its start')] + [('evaluated', N(c, c.old).done())]
def again_post(c):
    n, o = N(c, c.new), N(c, c.old); z = n.sig(); k = Int('k_'); g = o.grid(); e = o.expr(); s, E = o.span()
    rest = [] if n.abs else [f for nm, f in n.own()[7 if n.typ in EXPRS else 4:]]
    out = pre_names('z', wf(z)) + [('evaluated', n.done() if n.abs else And([x.done() for x in n.kids()] + rest + [BoolVal(True)])), ('domain when covered', Implies(o.cov(), And(z.begin == o.start, z.end == o.end)))]
    ex = [('domain', And(z.begin == s, z.end == E)), ('as many samples as recorded', z.hi - z.lo == NN(*g)), ('at the recorded times', ForAll([k], Implies(And(z.lo <= k, k < z.hi), z.T(k) == GT(*g, k - z.lo)), patterns=[z.T(k), z.V(k), z.D(k)]))]
    return out + ([('expression ' + nm, Implies(e, f)) for nm, f in ex] if n.abs or n.typ in EXPRS else [])
AGAIN = dict(compute_robustness='compute_robustness again')
contract('dyn compute_robustness again', modifies=('this|' + RUN,), pre=lambda c: run_pre(c) + [('an expression', N(c, c.old).expr())], post=again_post)
def again(cls):
    """the loops append nothing (the samples are there), but a leaf reads on to the first row after the end"""
    leaf = KIND[cls] == 'leaf'; its = () if leaf else ('iter',) if cls == 'abs_transducer' else ('itL', 'itR') if cls == 'stl_atom' else ('iterL', 'iterR')
    def z2(c): return c.new.sig('this.z'), c.old.sig('this.z')
    def same(c, th): z, z0 = z2(c); return Implies(in_dom(z0, th), z.at(th) == z0.at(th))
    def inv(c):
        z, z0 = z2(c); k = Int('k_')
        if leaf:
            o = N(c, c.old); ln, val, n = o.tr(); td, td0 = c.new['this.td_idx'], c.old['this.td_idx']; more = td > td0
            return [('times increase', sorted_q(z.q)), ('at most one row more', And(td0 <= td, td <= td0 + 1, td <= n, z.lo == z0.lo, z.hi - z0.hi == td - td0, z.begin == z0.begin)),
                    ('same times', ForAll([k], Implies(And(z0.lo <= k, k < z0.hi), z.T(k) == z0.T(k)), patterns=[z.T(k), z.V(k), z.D(k)])), ('none yet', Implies(Not(more), And(z.end == z0.end, c.new['t'] == -INF))),
                    ('the row after the end', Implies(more, And(z.T(z0.hi) == val[td0][0], z.end == val[td0][0], c.new['t'] == val[td0][0])))]
        i = [c.new.it(nm).idx for nm in its]; xs = zz(c)[1:]
        return [('inside', And([And(x.lo <= j, j <= x.hi) for x, j in zip(xs, i)])), ('in step', And([j - x.lo == i[0] - xs[0].lo for x, j in zip(xs, i)])), ('no sample added', And(z.lo == z0.lo, z.hi == z0.hi, z.begin == z0.begin, z.end == z0.end)),
                ('samples kept', ForAll([k], Implies(And(z.lo <= k, k < z.hi), sampq(z, k, z0.T(k), z0.V(k), z0.D(k))), patterns=[z.T(k), z.V(k), z.D(k)]))]
    var = (lambda c: N(c, c.old).tr()[2] - c.new['this.td_idx']) if leaf else lambda c: zz(c)[1].hi - c.new.it(its[0]).idx
    def post(c): return [(x[0], x[1], (lambda: grid_def(N(c, c.old)))) if leaf else x for x in again_post(c)] + ([('domain', N(c, c.new).own()[4][1])] if cls == 'stl_atom' else [])
    atom = cls == 'stl_atom'; pw = lambda c: [('this.z', 'same value', lambda th: same(c, th))]
    node(cls, 'compute_robustness again', method='compute_robustness', calls=AGAIN, modifies=mods(KIND[cls], RUN, RUN), given=('operands',), pre=lambda c: run_pre(c) + (TIMES[cls](c) if leaf else []), post=post,
         pw_pre=(lambda c: [('this.z', lambda th: atom_fact(c, N(c, c.old), th, c.old))]) if atom else None, pw_post=(lambda c: [('this.z', 'the robustness of the comparison', lambda th: atom_fact(c, N(c, c.new), th))]) if atom else None,
         loops=[LoopC(inv, pw if atom else None, variant=var)])
for cls in EXPRS + ('stl_atom',): again(cls)

# ------------------------------------------------------------------ what is known of the robustness when the data stops early
FORMULAS = tuple(k for k in CLASSES if k not in EXPRS)
def sgn(le, up): return (lambda a, b: a <= b) if le else (lambda a, b: a >= b)
def bound_fact(c, n, th, up, exact, v=None):
    """the bound is on its side of the robustness; on both when the data covers what is asked for"""
    z, S = N(c, v or c.new, n.path).sig(n.low(up)), Sem(c, n.path); m = N(c, v or c.new, n.path)
    return Implies(And(in_dom(z, th), c.old.g('Signal::semantics') == 0, n.cov() if exact else And(n.start <= n.end, m.settled(up))), sgn(up == exact, up)(clamp(c, z.at(th)), S.rob(th)))
def bound_pre(up):
    return lambda c: run_pre(c) + [('a formula', Not(N(c, c.old).expr())), ('bound not computed yet', N(c, c.old).clear(up))]
def bound_post(up):
    def post(c):
        n, o = N(c, c.new), N(c, c.old); z = n.sig(n.low(up)); keep = []
        if not n.abs: keep = [('the other bound kept', And(n.clear(not up) == o.clear(not up), n.settled(not up) == o.settled(not up)))]
        return pre_names('bound', wf(z)) + [('starts at the instant', z.begin == o.start), ('value at the instant', c.res == z.V(z.lo)), ('evaluated', n.done()), ('domain when covered', Implies(o.cov(), z.end == o.end)), ('settled when covered', Implies(o.cov(), n.settled(up)))] + keep + \
               ([('at the instant: the bound', And(bound_fact(c, o, o.start, up, False), bound_fact(c, o, o.start, up, True), z.at(rv(o.start)) == z.at(rv(o.start))))] if c.caller else [])       # an instance of what is proved at every time
    return post
def bound_pw(up):
    def pw(c):
        n = N(c, c.old); nm = n.low(up)
        return [('this.' + nm, ('not below' if up else 'not above') + ' the robustness, whatever data follows', lambda th: bound_fact(c, n, th, up, False), lambda th: [] if c.caller else bound_hint(c, th, up, False)),
                ('this.' + nm, 'the robustness when covered', lambda th: bound_fact(c, n, th, up, True), lambda th: [] if c.caller else bound_hint(c, th, up, True))]
    return pw
def within(c, S, u):
    """lemma/bounded: the robustness of a formula is within the bound"""
    n = S.n; M = bigM(c); r = S.rob(u); return Lem(Implies(And(Not(n.expr()), n.wfn(), M >= 0), And(-M <= r, r <= M)))
def half(c, nm, G, x, lo, hi, F, val, t, over, hi2=None, k0=None):
    """clamped supremum of x over [lo, hi] on one side of t, the supremum of val over [lo, hi2], from the clamped x being on that side of val at every time (over: cs `le` t)"""
    k0 = x.seg(hi) if k0 is None else k0; S = c.w.sup(x.q, lo, k0, rv(hi), F); up = F.eq(SUPF); le = sgn(up, 0); hi2 = hi if hi2 is None else hi2; cs = clamp(c, S); M = bigM(c); G = And(G, x.begin <= lo, lo <= hi, hi <= x.end)
    st = [('increasing', sorted_q(x.q)), (nm + ' bound', M >= 0), (nm + ' ends', Implies(G, And(x.lo <= x.seg(lo), x.seg(lo) <= k0, k0 < x.hi, x.T(k0) <= hi)), [mark(x.at(hi)), mark(x.at(lo))])]
    if over:
        j, v, l1 = c.w.sup_wit(x.q, lo, k0, hi, F); m = rmax(lo, x.T(j)); y, l2 = c.w.approach(x.q, j, m, v, t, F); us, _, _ = sup_def(c, val, (t, F), lo, hi2, [v, y, lo], cs); own = Or(j == k0, v < x.T(j + 1))
        st += [(nm + ' witness', Implies(G, And(x.seg(lo) <= j, j <= k0, lo <= v, x.T(j) <= v, v <= If(j == k0, hi, x.T(j + 1)), S == x.L(j, v))), [l1, mark(x.at(lo)), mark(x.at(hi))]),
               (nm + ' at the witness', Implies(And(G, own), x.at(v) == x.L(j, v)), [mark(x.at(v))]),
               (nm + ' nearby', Implies(And(G, Not(own), lo < v, x.T(j) < v, Not(le(x.L(j, v), t))), And(m <= y, y < v, Not(le(x.L(j, y), t)))), [l2], True),
               (nm + ' before a jump', Implies(And(G, Not(own)), And(m < v, Implies(And(m <= y, y < v), x.at(y) == x.L(j, y)))), [mark(x.at(y)), mark(x.at(lo)), mark(x.T(j + 1))])] + \
              [(nm + ' value %d' % i, Implies(And(G, lo <= u, u <= hi), le(clamp(c, x.at(u)), val(u))), [mark(x.at(u))]) for i, u in enumerate((v, y, lo))] + [(nm, Implies(G, le(cs, t)), us + [l2])]
    else:
        us, w, lw = sup_def(c, val, (t, F), lo, hi2, [], cs); lub = c.w.sup_ub(x.q, lo, k0, hi, x.seg(w), w, F)
        st += [(nm + ' value', Implies(And(G, lo <= w, w <= hi), le(val(w), clamp(c, x.at(w)))), [mark(x.at(w))]),
               (nm + ' inside', Implies(And(G, lo <= w, w <= hi), And(x.at(w) == x.L(x.seg(w), w), x.seg(lo) <= x.seg(w), x.seg(w) <= k0, x.T(x.seg(w)) <= w, w <= If(x.seg(w) == k0, hi, x.T(x.seg(w) + 1)))), [mark(x.at(w)), mark(x.at(lo)), mark(x.at(hi))]),
               (nm + ' not exceeded', Implies(And(G, lo <= w, w <= hi), le(x.at(w), S)), [lub]), (nm, Implies(And(G, hi == hi2), le(t, cs)), [lw])]
    return st
def bound_hint(c, th, up, exact):
    S = Sem(c); n = S.n; m = N(c, c.new); K = S.kids(); t = n.typ; D = S.den(th); r = S.rob(th); z = m.sig(n.low(up)); M = bigM(c); less_ = up == exact        # clamp(z.at) <= r is wanted (else >=)
    if t == 'stl_atom': return [mark(m.sig().at(th)), within(c, S, th)]
    xs = [x.sig(x.low(u)) for x, u in zip(m.kids(), n.sides(up))]; at = [mark(x.at(th)) for x in xs]
    if n.kind in ('unary', 'binary'): return at + [Lem(r == D.value()), within(c, S, th)]
    a, b = n.window(); ok = And(in_dom(z, th), c.old.g('Signal::semantics') == 0, n.cov() if exact else And(n.start <= n.end, m.settled(up))); wi = within(c, S, th); x = xs[0]
    known = lambda *f: [q for q in f]
    if n.kind == 'tunary':
        F, lo, hi, val = D.window(); ev = F.eq(SUPF); x = xs[0]; over = less_ == ev; ww = wsup(c, x, plus(th, a), minus(b, a), F); cmp_ = sgn(less_, 0)
        us, w, lw = sup_def(c, val, (r, F), lo, hi, [th + a], K[0].rob(th + a)); b2 = wend(x, plus(th, a), minus(b, a)); base = (BOT if ev else TOPV)(c.old); M2 = rmax if ev else rmin
        none = Or(x.end < n.start + a, BoolVal(False) if over else rmin(x.end - b, n.end) < n.start); G0 = And(ok, Not(none)); G = And(G0, a < b)
        pt = [('bound', M >= 0), ('window', Implies(ok, And(0 <= a, a <= b, n.start <= th))), ('nothing known', Implies(And(ok, none), And(th == n.start, z.at(th) == (M if up else -M)))), ('window starts inside', Implies(G0, And(x.begin <= th + a, th + a <= x.end, x.begin == n.start + a))),
              ('one instant: operand', Implies(And(G0, a == b), cmp_(clamp(c, x.at(plus(th, a))), K[0].rob(plus(th, a)))), [mark(x.at(plus(th, a)))]), ('one instant', Implies(And(G0, a == b), r == K[0].rob(plus(th, a))), us + [lw]), ('one instant: result', Implies(And(G0, a == b), z.at(th) == x.at(plus(th, a)))),
              ('end of the window', Implies(G, And(b2 <= th + b, b2 <= x.end, th + a <= b2)))]
        if exact: pt.append(('covered', Implies(ok, And(x.end == n.end + b, Not(none)))))
        if not over or exact: pt.append(('the whole window', Implies(G, b2 == th + b)))
        pt += half(c, 'window', G, x, plus(th, a), b2, F, val, r, over, hi)
        pt += [('operator', Implies(G, M2(base, z.at(th)) == M2(base, ww))), ('within', Implies(ok, And(-M <= r, r <= M)), [wi])]
        return [Cut(pt)]
    x, y = xs; L, Rr = K; inf = lambda u: INFR(S.id, S.env, S.s, S.e, rv(th), rv(u)); (_, lo, hi, val), until_inf = D.until(inf); p0 = clamp(c, z.at(th)); low = lambda u: until.inf_on(c, x, th, u)
    full = ok; E = rmin(x.end, y.end); win = lambda u: And(lo <= u, u <= hi); none = Not(rmax(x.begin + a, y.begin) <= E)
    st = [('bound', M >= 0), ('window', Implies(ok, And(0 <= a, a <= b, n.start <= th, x.begin == n.start, y.begin == n.start + a))), ('within', Implies(ok, And(-M <= r, r <= M)), [wi])]
    if less_ and not up:
        gone = x.end < n.start + a; G = And(ok, Not(gone)); st += [('nothing known', Implies(And(ok, gone), z.at(th) == -M))]
    if exact: st.append(('covered', Implies(ok, And(x.end == n.end + b, y.end == n.end + b))))
    if less_:
        if up: gone = BoolVal(False); G = ok
        ws = c.w.pairs(z.q, th, r)[0]
        if not ws: return [Cut(st + [('nothing known here', Implies(ok, gone))])]
        wa = ws[0]; us, _, _ = sup_def(c, val, (r, SUPF), lo, hi, [wa], p0)
        st += [('common time', Implies(G, Not(none))), ('approached', Implies(And(G, r >= -M, r < M, r < z.at(th)), And(win(wa), wa <= E, r < y.at(wa), r < low(wa))), c.w.pairs(z.q, th, r)[1]),
               ('right operand there', Implies(And(G, win(wa), wa <= E), clamp(c, y.at(wa)) <= Rr.rob(wa)), [mark(y.at(wa))])] + half(c, 'infimum until there', And(G, win(wa), wa <= E), x, rv(th), wa, INFF, until_inf(wa)[3], inf(wa), False)
        return [Cut(st)] + us
    us, w, lw = sup_def(c, val, (r, SUPF), lo, hi, [], p0)
    short = rmin(If(none, x.end - b + a, E - b), n.end) < n.start if up and not exact else BoolVal(False); ok = And(ok, Not(short)); G = And(ok, Not(none))
    if up and not exact: st += [('too short', Implies(And(full, short), z.at(th) == M))]
    st += [('known to the end of the window', Implies(G, hi <= E)), ('right operand at the best instant', Implies(And(G, win(w)), clamp(c, y.at(w)) >= Rr.rob(w)), [mark(y.at(w))])]
    st += half(c, 'infimum until the best instant', And(G, win(w)), x, rv(th), w, INFF, until_inf(w)[3], inf(w), True)
    st += [('not below the window', Implies(And(G, win(w)), rmax(-M, z.at(th)) >= rmin(M, rmin(y.at(w), low(w)))), c.w.pairs(z.q, th, w)[1])]
    if up and not exact:
        G1 = And(ok, none); st += [('what is left', Implies(G1, And(th <= x.end, x.end <= lo)))] + half(c, 'infimum of what is left', And(G1, win(w)), x, rv(th), x.end, INFF, until_inf(w)[3], inf(w), True, w, x.hi - 1)
        st += [('infimum without common time', Implies(G1, z.at(th) == rmin(M, c.w.sup(x.q, th, x.hi - 1, x.end, INFF)))), ('last piece', Implies(G1, x.seg(x.end) == x.hi - 1), [mark(x.at(x.end))])]
    return [Cut(st), lw]
for up, m in ((False, 'compute_lower_rob'), (True, 'compute_upper_rob')):
    mine, fl = ('z_up', '#upclear,#setup') if up else ('z_low', '#lowclear,#setlow')
    contract('dyn ' + m, modifies=('this|%s,%s,%s' % (mine, fl, RUN),), pre=bound_pre(up), post=bound_post(up), pw_post=bound_pw(up))
    for cls in FORMULAS:
        atom = cls == 'stl_atom'; sides = [up != (cls == 'not_transducer' or (cls == 'implies_transducer' and i == 0)) for i in range(len(CHILD[KIND[cls]]))]
        ms = ['this|' + mine + (',' + RUN if atom else '')] + ['this.%s|%s' % (k, RUN if atom else ('z_up,#upclear,#setup,' if u else 'z_low,#lowclear,#setlow,') + RUN) for k, u in zip(CHILD[KIND[cls]], sides)]
        node(cls, m, calls=AGAIN if atom else None, modifies=tuple(ms), given=('operands',), pre=bound_pre(up), post=bound_post(up), pw_post=bound_pw(up), pw_pre=(lambda c: [('this.z', lambda th: atom_fact(c, N(c, c.old), th, c.old))]) if atom else None)

# ------------------------------------------------------------------ monitors
def mon_node(c, v): return N(c, v, 'this.formula')
def trace_at(c, v, path):
    q = v.get(path); return q.arr['len'], q.arr['val'], q.hi
def mon_env(c): m = c.old.get('this.param_map'); return trace_at(c, c.old, 'this.data') + (m.has, m.val)
def eval_pre(c):
    n = mon_node(c, c.old); g = c.old['this.semantics']; i = c.old['this.interpol']
    return [('a formula, well-formed', Implies(Not(c.old.null('this.formula')), And(Not(n.f('#expr')), WFF(n.f('#id'), *mon_env(c))))), ('bound', bigM(c) >= 0), ('semantics', And(0 <= g, g <= 2)), ('interpolation', Or(i == LINE, i == PREV)), ('data starts at its first row', c.old.get('this.data').lo == 0)] + rows(mon_env(c)[:3]) + completes(mon_env(c)[:3])
def eval_post(c, s, e):
    n = mon_node(c, c.old); some = Not(c.old.null('this.formula')); env = mon_env(c); rob = ROB(n.f('#id'), ENVF(*FUT, *env[3:], c.old['this.interpol'], bigM(c)), s, e, s)
    d0, d1, p0, p1 = c.old.get('this.data'), c.new.get('this.data'), c.old.get('this.param_map'), c.new.get('this.param_map')
    sp = And(some, c.old['this.semantics'] == 0); covered = COVF(n.f('#id'), *env, s, e); m = mon_node(c, c.new); lo, up = c.new['this.lower_rob'], c.new['this.upper_rob']
    return [('lower bound not above the robustness, whatever data follows', Implies(And(sp, s <= e, m.f('#setlow')), clamp(c, lo) <= rob)), ('upper bound not below the robustness, whatever data follows', Implies(And(sp, s <= e, m.f('#setup')), clamp(c, up) >= rob)),
            ('both are the robustness when covered', Implies(And(sp, s <= e, covered), And(clamp(c, lo) == rob, clamp(c, up) == rob, m.f('#setlow'), m.f('#setup')))), ('no formula: the last bounds', Implies(Not(some), And(lo == c.old['this.lower_rob'], up == c.old['this.upper_rob']))),
            ('the robustness of the formula, whatever was evaluated before', Implies(And(some, s <= e, COVF(n.f('#id'), *env, s, e), c.old['this.semantics'] == 0), clamp(c, c.res) == rob)), ('reported', c.res == c.new['this.rob']),
            ('no formula: the last result', Implies(Not(some), c.res == c.old['this.rob'])), ('evaluated with the monitor\'s own settings', Implies(some, And(c.new.g('Signal::semantics') == c.old['this.semantics'], c.new.g('Signal::interpol') == c.old['this.interpol']))),
            ('data kept', And(d0.lo == d1.lo, d0.hi == d1.hi, d0.arr['len'] == d1.arr['len'], d0.arr['val'] == d1.arr['val'])), ('parameters kept', And(p0.has == p1.has, p0.val == p1.val))]
ALLF = CLR + ',' + HZ + ',start_time,end_time,td_idx,value,#td0,#trace,#params'
EVM = ('this|rob,lower_rob,upper_rob', 'this.formula|' + ALLF, 'g:Signal::semantics', 'g:Signal::interpol')
def evaluation(key, params, span):
    contract(key, params=params, deep=True, nullable=('formula',), modifies=EVM, pre=eval_pre, post=lambda c: eval_post(c, *span(c)))
evaluation('STLMonitor::eval_rob|double(double,double)', ('t_start', 't_end'), lambda c: (c.old['t_start'], c.old['t_end']))
evaluation('STLMonitor::eval_rob|double(double)', ('t',), lambda c: (c.old['t'], c.old['t']))
evaluation('STLMonitor::eval_rob|double()', (), lambda c: (c.old['this.start_time'], c.old['this.end_time']))
# ------------------------------------------------------------------ drivers: one of the formulas they hold
class Held(N):
    """the formula a driver holds under a name, in one state"""
    def __init__(s, c, v, o): s.c, s.v, s.path, s.o, s.abs, s.typ = c, v, '', o, True, 'transducer'
def held_map(c): return c.old.st[(c.fr.this.oid, 'formula_map')]
def online_pre(t0):
    def pre(c):
        m, i = held_map(c), c.old['phi_in']; g = c.old['this.semantics']; p = c.old['this.interpol']; env = mon_env(c); q = c.old.get('this.data'); f = And(m.has[i], q.hi >= 1)
        return [('a formula, well-formed', Implies(f, And(Not(m.nul[i]), m.live[i], Not(m.expr[i]), WFF(m.id[i], *env)))), ('bound', bigM(c) >= 0), ('semantics', And(0 <= g, g <= 2)), ('interpolation', Or(p == LINE, p == PREV)), ('data starts at its first row', And(q.lo == 0, q.hi >= 0))] + [(nm, h) for nm, h in rows(env[:3]) if nm != 'some data'] + completes(env[:3])
    return pre
def online_post(t0):
    def post(c):
        m, i = held_map(c), c.old['phi_in']; env = mon_env(c); q = c.old.get('this.data'); some = And(m.has[i], q.hi >= 1); s = t0(c); r = c.res
        n = r.hi - r.lo; x = lambda k: r.arr['val'][r.lo + k]; rob = ROB(m.id[i], ENVF(*FUT, *env[3:], c.old['this.interpol'], bigM(c)), s, s, s); sp = And(some, c.old['this.semantics'] == 0); cov = COVF(m.id[i], *env, s, s)
        out = [('robustness and bounds, or nothing', n == If(some, IntVal(3), IntVal(0))), ('the robustness of the formula, whatever was evaluated before', Implies(And(sp, cov), clamp(c, x(0)) == rob)), ('both bounds are the robustness when covered', Implies(And(sp, cov), And(clamp(c, x(1)) == rob, clamp(c, x(2)) == rob))),
               ('evaluated with the driver\'s own settings', Implies(some, And(c.new.g('Signal::semantics') == c.old['this.semantics'], c.new.g('Signal::interpol') == c.old['this.interpol'])))]
        o = c.new.st.get(('entry', (c.fr.this.oid, 'formula_map'), i.get_id(), m.id.get_id()))
        if o is not None:
            h = Held(c, c.new, o); out += [('lower bound not above the robustness, whatever data follows', Implies(And(sp, h.f('#setlow')), clamp(c, x(1)) <= rob)), ('upper bound not below the robustness, whatever data follows', Implies(And(sp, h.f('#setup')), clamp(c, x(2)) >= rob))]
        else: out.append(('nothing to evaluate', Not(some)))
        return out
    return post
for key, params, t0 in (('vector<double>(const string &, double)', ('phi_in', 't0'), lambda c: c.old['t0']), ('vector<double>(const string &)', ('phi_in',), lambda c: rv(0))):
    contract('STLDriver::get_online_rob|' + key, params=params, deep=True, modifies=('g:Signal::semantics', 'g:Signal::interpol'), inline=('STLDriver::get_online_rob',), pre=online_pre(t0), post=online_post(t0))
def held_pre(c): m = held_map(c); k = Const('k_', Str); return [('every formula exists', ForAll([k], Implies(m.has[k], And(Not(m.nul[k]), m.live[k])), patterns=[m.has[k]]))]
def same_map(c, a, b): return And([getattr(a, f) == getattr(b, f) for f in ('has', 'id', 'expr', 'nul', 'live')])
def driver_param(c):
    a, b, p = c.old.get('this.param_map'), c.new.get('this.param_map'), c.old['param']; k = Const('k_', Str)
    return [('it has the value', And(b.has[p] == a.has[p], Implies(a.has[p], b.val[p] == c.old['n']))), ('others kept', ForAll([k], Implies(k != p, And(b.has[k] == a.has[k], b.val[k] == a.val[k])), patterns=[b.has[k], b.val[k]])),
            ('an unknown one changes nothing', Implies(Not(a.has[p]), ForAll([k], And(b.has[k] == a.has[k], Implies(a.has[k], b.val[k] == a.val[k])))))]
contract('STLDriver::set_param', params=('param', 'n'), deep=True, modifies=('this|param_map',), pre=held_pre, post=lambda c: driver_param(c) + [('the formulas are kept', same_map(c, held_map(c), c.new.st[(c.fr.this.oid, 'formula_map')]))],
         loops=[LoopC(lambda c: [])])

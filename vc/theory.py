"""Logical vocabulary of the contracts: affine pieces, sample sequences (deques), and the value of a signal at a time.

LIN(v,d,t0,th) stands for v + d*(th - t0).  Queries treat it as uninterpreted and get ground instances of the lemmas in
LEMMAS (each proved from the definition on every run, see prove_lemmas); a fallback query unfolds the definition instead.
"""
from z3 import *
R, I, B = RealSort(), IntSort(), BoolSort()
Str = DeclareSort('Str')
LIN = Function('LIN', R, R, R, R, R)
SCODE = Function('SCODE', Str, I)
SMAP = Function('MAPSIZE', ArraySort(Str, B), I)
STRS = {}
def strc(text):
    """string literal (text with its quotes); distinct texts have distinct codes"""
    STRS.setdefault(text, len(STRS)); return Const('str:' + text, Str)
def rv(x): return RealVal(x) if not is_expr(x) else (ToReal(x) if x.sort() == I else x)
def is0(x): return is_rational_value(x) and x.numerator_as_long() == 0
def neg_of(x):
    if is_app_of(x, Z3_OP_UMINUS): return x.arg(0)
    if is_rational_value(x): return simplify(-x)
    return None
def lin(v, d, t0, th):
    v, d, t0, th = rv(v), rv(d), rv(t0), rv(th)
    if t0.eq(th) or is0(d): return v
    if is_app(v) and v.decl().eq(LIN) and v.arg(1).eq(d) and v.arg(3).eq(t0): return lin(v.arg(0), d, v.arg(2), th)
    nv, nd = neg_of(v), neg_of(d)
    if nv is not None and nd is not None and not is_rational_value(d): return -lin(nv, nd, t0, th)
    return LIN(v, d, t0, th)
def rmin(a, b): return If(a <= b, a, b)
def rmax(a, b): return If(a >= b, a, b)

AR = ArraySort(I, R)
SUPF = Function('SUPF', AR, AR, AR, I, I, R, R)        # supremum of the pieces k..k0 from the start of piece k to b (left limits included)
INFF = Function('INFF', AR, AR, AR, I, I, R, R)
def arrs(q): return q.arr['time'], q.arr['value'], q.arr['derivative']
def supf(q, k, k0, b, F=SUPF): return F(*arrs(q), k, k0, rv(b))
def unfold_sup(t):
    """the defining equations of a SUPF/INFF term"""
    T, V, D, k, k0, b = t.children(); F = t.decl(); M = rmax if F.eq(SUPF) else rmin
    L = lambda x: lin(V[k], D[k], T[k], x)
    return [Implies(k == k0, t == M(V[k], L(b))), Implies(k < k0, t == M(M(V[k], L(T[k+1])), F(T, V, D, k+1, k0, b)))]
FIELDS = {'Sample': ('time', 'value', 'derivative'), 'Point': ('time', 'value'), 'double': ('val',), 'int': ('val',)}
class DQ:
    """immutable snapshot of a std::deque/vector: field arrays over absolute indices [lo,hi)"""
    n = 0
    def __init__(s, kind, arr, lo, hi, name, ver=0):
        s.kind, s.arr, s.lo, s.hi, s.name, s.ver = kind, arr, lo, hi, name, ver
        s.parent = None; s.pw, s.inst, s.facts, s.sups = [], {}, [], {}        # pointwise facts (closures), at-instances, structural facts
    def elem(s, k): return {f: a[k] for f, a in s.arr.items()}
    # views for Samples
    def T(s, k): return s.arr['time'][k]
    def V(s, k): return s.arr['value'][k]
    def D(s, k): return s.arr['derivative'][k] if 'derivative' in s.arr else RealVal(0)
    def L(s, k, th): return lin(s.V(k), s.D(k), s.T(k), th)
    @property
    def n_(s): return s.hi - s.lo
    def empty(s): return s.lo == s.hi
    def nonempty(s): return s.lo < s.hi
    def seg(s, k, th):
        """k is the piece of s containing th"""
        return And(s.lo <= k, k < s.hi, Or(k + 1 == s.hi, th < s.T(k+1)), Or(k == s.lo, s.T(k) <= th))

class Lem:
    """an instance of a lemma proved in lemma_obligations, offered as a hint"""
    def __init__(s, f): s.f = f
class Cut:
    """steps [(name, formula, hints, raw)]: each is an obligation of its own, after the steps before it (a raw step: from these alone); the goal
    must then follow from the steps (and the lemmas offered) alone, or (full) with the hypotheses"""
    def __init__(s, steps, full=False): s.full = full; s.steps = [(x[0], x[1], list(x[2]) if len(x) > 2 else [], len(x) > 3 and x[3]) for x in steps]
class Two:
    """pointwise fact with a second parameter: for all th, p (exists w): F(th, p, w).  wits(th, p): terms tried for w when it is proved"""
    def __init__(s, F, wits=None, name='p'): s.F, s.wits, s.name = F, wits, name
    def goal(s, w, th):
        p = w.fresh(s.name, R)
        return p, (lambda: s.F(th, p, None) if s.wits is None else Or([s.F(th, p, x) for x in s.wits(th, p)]))
class QF:
    """for all k: body(k).  Assumed as a quantified formula; proved for a fresh k, with hints"""
    def __init__(s, body, pats, hint=None, name='k', sort=I): s.body, s.pats, s.hint, s.name, s.sort = body, pats, hint, name, sort
    def forall(s):
        k = Const(s.name + '_', s.sort); return ForAll([k], s.body(k), patterns=s.pats(k))
    def skolem(s, w):
        k = w.fresh(s.name, s.sort); return s.body(k), (s.hint(k) if s.hint else [])
def unq(f): return f.forall() if isinstance(f, QF) else f
class World:
    """per-path registry: fresh names (deterministic per path) and the facts attached to fresh symbols"""
    def __init__(s):
        s.c = 0; s.facts = {}            # symbol name -> [formula]
        s.deps = {}
    def fresh(s, base, sort):
        s.c += 1
        return Const('%s!%d' % (base, s.c), sort)
    def farr(s, base, kind):
        s.c += 1
        fs = FIELDS[kind]
        a = {f: Const('%s.%s!%d' % (base, f, s.c), ArraySort(I, R if kind != 'int' else I)) for f in fs}
        if kind == 'Point': a['src'] = Const('%s.src!%d' % (base, s.c), ArraySort(I, I))        # ghost: index the point was copied from
        return a
    def new_dq(s, kind, base):
        arr = s.farr(base, kind)
        return DQ(kind, arr, s.fresh(base + '.lo', I), s.fresh(base + '.hi', I), base)
    def empty_dq(s, kind, base):
        arr = s.farr(base, kind)
        return DQ(kind, arr, IntVal(0), IntVal(0), base)
    def at(s, q, th):
        """value of the signal with samples q at time th (the first piece whose successor starts after th)"""
        th = rv(th)
        key = th.get_id()
        if key in q.inst: return q.inst[key][1]
        k, c = s.fresh(q.name + '.seg', I), s.fresh(q.name + '.at', R)
        q.inst[key] = (k, c, th)
        body = [Implies(q.nonempty(), And(q.seg(k, th), c == q.L(k, th)))]
        s.facts[c.decl().name()] = body
        s.facts[k.decl().name()] = body
        for f in list(q.pw): body.append(unq(f(th)))
        p = q
        while p is not None:
            if getattr(p, 'new_el', None) is not None:
                i, e = p.new_el
                tt, vv, dd = e['time'], e['value'], e.get('derivative', RealVal(0))
                body.append(Implies(And(k == i, q.T(i) == tt, q.V(i) == vv, q.D(i) == dd), c == lin(vv, dd, tt, th)))
            p = p.parent
        if q.parent is not None and 'time' in q.arr:
            s.deps.setdefault(c.decl().name(), []).append(s.at(q.parent, th))
        return c
    def sup(s, q, th, k0, b, F=SUPF):
        """supremum (infimum) of the signal with samples q from th to the end b of its piece k0, left limits included"""
        th, b = rv(th), rv(b); key = (F.name(), th.get_id(), k0.get_id(), b.get_id())
        if key in q.sups: return q.sups[key][1]
        M = rmax if F.eq(SUPF) else rmin
        at, k = s.at(q, th), s.seg_of(q, th); c = s.fresh(q.name + '.' + F.name().lower(), R); q.sups[key] = (k, c, th, k0, b)
        s.facts[c.decl().name()] = [Implies(k >= k0, c == M(q.L(k0, th), q.L(k0, b))), Implies(k < k0, c == M(M(at, q.L(k, q.T(k+1))), supf(q, k+1, k0, b, F)))]
        return c
    def sup_ub(s, q, th, k0, b, j, x, F=SUPF):
        """lemma: the value of piece j at x is not above the supremum (below the infimum)"""
        c = s.sup(q, th, k0, b, F); k = s.seg_of(q, th); x = rv(x); up = F.eq(SUPF)
        return Lem(Implies(And(Or(k <= j, j == k0), j <= k0, rv(th) <= x, Or(j == rmin(k, k0), q.T(j) <= x), x <= If(j == k0, rv(b), q.T(j + 1))), q.L(j, x) <= c if up else q.L(j, x) >= c))
    def sup_wit(s, q, th, k0, b, F=SUPF):
        """lemma: the supremum (infimum) is the value of some piece j at some x of the interval: (j, x, lemma)"""
        c = s.sup(q, th, k0, b, F); k = s.seg_of(q, th); key = ('wit', c.get_id())
        if key not in q.sups:
            j, x = s.fresh(q.name + '.wj', I), s.fresh(q.name + '.wx', R)
            q.sups[key] = (j, x, Lem(Implies(And(sorted_le(q), q.lo <= k0, k0 < q.hi, q.T(k0) <= rv(b), rv(th) <= rv(b)),
                And(Or(k <= j, j == k0), q.lo <= j, j <= k0, rv(th) <= x, Or(j == rmin(k, k0), q.T(j) <= x), x <= If(j == k0, rv(b), q.T(j + 1)), c == q.L(j, x)))))
        return q.sups[key]
    def least(s, a, lo, hi, j):
        """lemma: the first index of [lo,hi) whose entry is not below j: (p, lemma)"""
        p = s.fresh('least', I)
        return p, Lem(Implies(And(lo < hi, a[hi - 1] >= j), And(lo <= p, p < hi, a[p] >= j, Or(p == lo, a[p - 1] < j))))
    def seg_of(s, q, th): s.at(q, th); return q.inst[rv(th).get_id()][0]
    def pairs(s, q, th, p):
        """every two-parameter fact known of q (or of what it was before the last calls) at th, p: (witnesses, lemmas)"""
        ws, ls = [], []; th, p = rv(th), rv(p)
        while q is not None:
            for i, f in enumerate(getattr(q, 'pw2', ())):
                k = (i, th.get_id(), p.get_id())
                if not hasattr(q, 'inst2'): q.inst2 = {}
                if k not in q.inst2:
                    w = s.fresh(q.name + '.wit', R) if f.wits is not None else None; q.inst2[k] = (w, f.F(th, p, w), th, p)
                w, g = q.inst2[k][:2]; ls += [Lem(g)]
                if w is not None: ws.append(w)
            q = getattr(q, 'prev', None)
        return ws, ls
    def approach(s, q, j, lo, x, c, F=SUPF):
        """lemma: just before x the piece j is still above (below) c"""
        y = s.fresh('near', R); lo, x, up = rv(lo), rv(x), F.eq(SUPF)
        return y, Lem(Implies(And(lo < x, c < q.L(j, x) if up else c > q.L(j, x)), And(lo <= y, y < x, c < q.L(j, y) if up else c > q.L(j, y))))
    def add_pw(s, q, f):
        if isinstance(f, Two): 
            if not hasattr(q, 'pw2'): q.pw2 = []
            q.pw2.append(f); return
        q.pw.append(f)
        for (k, c, th) in list(q.inst.values()): s.facts[c.decl().name()].append(unq(f(th)))

MARK = Function('MARK', R, B); IDX = Function('IDX', I, B)
def mark(t):
    """mentions a term, so that quantified hypotheses get instantiated with it (MARK means nothing: read it as true)"""
    return Lem(MARK(t) if t.sort() == R else IDX(t))
def neg_lem(p, j, q, k, x):
    """lemma: opposite pieces have opposite values"""
    return Lem(Implies(And(p.V(j) == -q.V(k), p.D(j) == -q.D(k), p.T(j) == q.T(k)), p.L(j, x) == -q.L(k, x)))
def unit_lem(q, k, x):
    """lemma: a piece of slope 1 or -1"""
    return Lem(And(Implies(q.D(k) == 1, q.L(k, x) == q.V(k) + (x - q.T(k))), Implies(q.D(k) == -1, q.L(k, x) == q.V(k) - (x - q.T(k)))))
def comb_lem(p, j, q, k, r, m, x, sg):
    """lemma: a piece that is the sum (difference) of two others"""
    f = (lambda a, b: a + b) if sg > 0 else (lambda a, b: a - b)
    return Lem(Implies(And(p.V(j) == f(q.V(k), r.V(m)), p.D(j) == f(q.D(k), r.D(m)), p.T(j) == q.T(k), p.T(j) == r.T(m)), p.L(j, x) == f(q.L(k, x), r.L(m, x))))
def slope_lem(c, a, b, d, sg):
    """lemma: the slope of a sum (difference)"""
    f = (lambda u, v: u + v) if sg > 0 else (lambda u, v: u - v)
    return Lem(Implies(And(c == f(a, b), d != 0), fdiv(c, d) == f(fdiv(a, d), fdiv(b, d))))
def rest_lem(d, v0, t0, v1, t1, s, v):
    """lemma: the rest of a piece has its slope"""
    return Lem(Implies(And(d == fdiv(v1 - v0, t1 - t0), t0 < t1, s < t1, v == lin(v0, d, t0, s)), fdiv(v1 - v, t1 - s) == d))
def moved_lem(p, j, q, k, a, x):
    """lemma: piece j of p is piece k of q moved by a"""
    return Lem(Implies(And(p.V(j) == q.V(k), p.D(j) == q.D(k), p.T(j) == q.T(k) + a), p.L(j, x + a) == q.L(k, x)))
def sorted_q(q):
    a, b = Ints('a_ b_')
    return ForAll([a, b], Implies(And(q.lo <= a, a < b, b < q.hi), q.T(a) < q.T(b)), patterns=[MultiPattern(q.T(a), q.T(b))])
def sorted_le(q):
    a, b = Ints('a_ b_')
    return ForAll([a, b], Implies(And(q.lo <= a, a < b, b < q.hi), q.T(a) <= q.T(b)), patterns=[MultiPattern(q.T(a), q.T(b))])
def forall_k(q, f, name='k_'):
    k = Int(name)
    return ForAll([k], Implies(And(q.lo <= k, k < q.hi), f(k)), patterns=[q.T(k)] if 'time' in q.arr else [q.arr['val'][k]])

# ---------------------------------------------------------------- lemmas on affine pieces
FDIV = Function('FDIV', R, R, R)
NMUL = Function('NMUL', R, R, R)
def fdiv(a, b):
    a, b = rv(a), rv(b)
    if is_rational_value(b) and not is0(b): return a / b
    return FDIV(a, b)
def fmul(a, b):
    a, b = rv(a), rv(b)
    if is_rational_value(a) or is_rational_value(b): return a*b
    return NMUL(a, b)
def inst_pair(L, p, q, x, y):
    """p-q is affine: its increments have the sign of the slope difference"""
    gx, gy = (L(p, x) - L(q, x), L(p, y) - L(q, y)) if q is not None else (L(p, x), L(p, y))
    dp, dq = p[1], (q[1] if q is not None else RealVal(0))
    return [Implies(And(dp >= dq, x <= y), gx <= gy), Implies(And(dp <= dq, x <= y), gx >= gy),
            Implies(And(dp > dq, x < y), gx < gy), Implies(And(dp < dq, x < y), gx > gy),
            Implies(And(dp >= dq, y <= x), gy <= gx), Implies(And(dp <= dq, y <= x), gy >= gx),
            Implies(And(dp > dq, y < x), gy < gx), Implies(And(dp < dq, y < x), gy > gx)]
# inst_pair as SMT-LIB text (see lemma_text, which proves this very text)
PAIR = ('(assert (and (=> (and (>= {dp} {dq}) (<= {x} {y})) (<= {gx} {gy})) (=> (and (<= {dp} {dq}) (<= {x} {y})) (>= {gx} {gy})) (=> (and (> {dp} {dq}) (< {x} {y})) (< {gx} {gy})) (=> (and (< {dp} {dq}) (< {x} {y})) (> {gx} {gy}))'
        ' (=> (and (>= {dp} {dq}) (<= {y} {x})) (<= {gy} {gx})) (=> (and (<= {dp} {dq}) (<= {y} {x})) (>= {gy} {gx})) (=> (and (> {dp} {dq}) (< {y} {x})) (< {gy} {gx})) (=> (and (< {dp} {dq}) (< {y} {x})) (> {gy} {gx}))))')
def lemma_text():
    """the instances of PAIR for one and two pieces as formulas over the definition of a piece"""
    decl = ''.join('(declare-const %s Real)' % c for c in 'pv pd pt qv qd qt x y'.split())
    L = lambda p, x: '(+ %sv (* %sd (- %s %st)))' % (p, p, x, p)
    two = PAIR.format(dp='pd', dq='qd', x='x', y='y', gx='(- %s %s)' % (L('p', 'x'), L('q', 'x')), gy='(- %s %s)' % (L('p', 'y'), L('q', 'y')))
    one = PAIR.format(dp='pd', dq='0.0', x='x', y='y', gx=L('p', 'x'), gy=L('p', 'y'))
    return [('lemma/pair text %d' % i, parse_smt2_string(decl + f)[0]) for i, f in enumerate((two, one))]
def inst_start(L, p, x): return [Implies(x == p[2], L(p, x) == p[0]), Implies(p[1] == 0, L(p, x) == p[0])]
def inst_root(L, D, p, a, b, w):
    return [Implies(And(b != 0, p[1] == b, w == p[2] + D(a, b)), L(p, w) == p[0] + a),
            Implies(And(b != 0, p[1] == b, w == p[2] - D(a, b)), L(p, w) == p[0] - a)]
def inst_slope(L, D, p, a, b, w):
    return [Implies(And(b != 0, p[1] == D(a, b), w - p[2] == b), L(p, w) == p[0] + a)]
def inst_div(D, a, b):
    d = D(a, b)
    return [Implies(b > 0, And((d > 0) == (a > 0), (d == 0) == (a == 0), (d < 0) == (a < 0))),
            Implies(b < 0, And((d > 0) == (a < 0), (d == 0) == (a == 0), (d < 0) == (a > 0)))]
def inst_sum(L, p1, p2, sg, t, x):
    """componentwise sum/difference of two pieces that start together"""
    if sg > 0: return [L((p1[0]+p2[0], p1[1]+p2[1], t), x) == L((p1[0], p1[1], t), x) + L((p2[0], p2[1], t), x)]
    return [L((p1[0]-p2[0], p1[1]-p2[1], t), x) == L((p1[0], p1[1], t), x) - L((p2[0], p2[1], t), x)]

def lemma_obligations():
    """every lemma schema used by the queries, stated over the definition"""
    p, q = Reals('pv pd pt'), Reals('qv qd qt'); x, y, w, a, b, t = Reals('x y w a b t')
    L = lambda p, x: p[0] + p[1]*(x - p[2])
    D = lambda a, b: a / b
    todo = []
    for nm, fs in (('lin_pair', inst_pair(L, p, q, x, y)), ('lin_mono', inst_pair(L, p, None, x, y)), ('lin_start', inst_start(L, p, x)),
                   ('lin_root', inst_root(L, D, p, a, b, w)), ('lin_slope', inst_slope(L, D, p, a, b, w)), ('div_sign', inst_div(D, a, b)),
                   ('lin_sum', inst_sum(L, p, q, 1, t, x)), ('lin_diff', inst_sum(L, p, q, -1, t, x))):
        for i, f in enumerate(fs): todo.append(('lemma/%s.%d' % (nm, i), f))
    for nm, f in lemma_text(): todo += [('%s.%d' % (nm, i), f.arg(i)) for i in range(f.num_args())]
    t0, th, d, v, s = Reals('t0 th d v s')
    todo.append(('lemma/rebase', L((L((v, d, t0), s), d, s), th) == L((v, d, t0), th)))
    todo += sup_obligations()
    todo.append(('lemma/opposite', Implies(And(p[0] == -q[0], p[1] == -q[1], p[2] == q[2]), L(p, x) == -L(q, x))))
    todo.append(('lemma/unit slope', And(Implies(p[1] == 1, L(p, x) == p[0] + (x - p[2])), Implies(p[1] == -1, L(p, x) == p[0] - (x - p[2])))))
    for sg in (1, -1):
        f = (lambda u, v: u + v) if sg > 0 else (lambda u, v: u - v)
        todo.append(('lemma/combined piece %d' % sg, Implies(And(p[0] == f(q[0], v), p[1] == f(q[1], d), p[2] == q[2], p[2] == t0), L(p, x) == f(L(q, x), L((v, d, t0), x)))))
        todo.append(('lemma/combined slope %d' % sg, Implies(And(w == f(a, b), t != 0), D(w, t) == f(D(a, t), D(b, t)))))
    todo.append(('lemma/product commutes', x*y == y*x))
    todo.append(('lemma/rest of a piece', Implies(And(d == D(a - v, b - t0), t0 < b, s < b, w == L((v, d, t0), s)), D(a - w, b - s) == d)))
    todo.append(('lemma/moved', Implies(And(p[0] == q[0], p[1] == q[1], p[2] == q[2] + a), L(p, x + a) == L(q, x))))
    todo.append(('lemma/neg', L((-v, -d, t0), th) == -L((v, d, t0), th)))
    return todo

def sup_obligations():
    """supremum lemmas: from the defining equations of SUPF by induction on the number of pieces"""
    out = []
    T, V, D = (Const(n, AR) for n in ('T', 'V', 'D')); k, k0, j, lo, m = Ints('k k0 j lo m'); b, x, th, c, w, lo_ = Reals('b x th c w lo_')
    L = lambda i, y: V[i] + D[i]*(y - T[i])
    endp = lambda i: If(i == k0, b, T[i + 1])
    def ins(i, y): return And(T[i] <= y, y <= endp(i))
    for F, M, le, n in ((SUPF, rmax, lambda p, q: p <= q, 'sup'), (INFF, rmin, lambda p, q: p >= q, 'inf')):
        f = lambda i: F(T, V, D, i, k0, b)
        dfn = And(Implies(k == k0, f(k) == M(V[k], L(k0, b))), Implies(k < k0, f(k) == M(M(V[k], L(k, T[k + 1])), f(k + 1))))
        # bound: induction from k0 downwards; hypothesis: the bound at k+1
        out.append(('lemma/%s bounds last piece' % n, Implies(And(dfn, k == k0, j == k0, ins(j, x)), le(L(j, x), f(k)))))
        out.append(('lemma/%s bounds own piece' % n, Implies(And(dfn, k < k0, j == k, ins(j, x)), le(L(j, x), f(k)))))
        out.append(('lemma/%s bounds later pieces' % n, Implies(And(dfn, k < k0, j > k, j <= k0, ins(j, x), Implies(And(k + 1 <= j, j <= k0, ins(j, x)), le(L(j, x), f(k + 1)))), le(L(j, x), f(k)))))
        # attained: induction; hypothesis: witness (j, x) at k+1
        att = lambda i, jj, xx: And(i <= jj, jj <= k0, ins(jj, xx), f(i) == L(jj, xx))
        srt = And(T[k] <= endp(k))
        out.append(('lemma/%s attained last piece' % n, Implies(And(dfn, k == k0, srt), Or(att(k, k, T[k]), att(k, k, b)))))
        out.append(('lemma/%s attained' % n, Implies(And(dfn, k < k0, srt, att(k + 1, j, x)), Or(att(k, k, T[k]), att(k, k, T[k + 1]), att(k, j, x)))))
        # from the middle of piece k (the statement used by World.sup)
        cd = And(Implies(k >= k0, c == M(L(k0, th), L(k0, b))), Implies(k < k0, c == M(M(L(k, th), L(k, T[k + 1])), f(k + 1))))
        sg = And(Or(k + 1 > k0, th < T[k + 1]))
        ub = Implies(And(k + 1 <= j, j <= k0, ins(j, x)), le(L(j, x), f(k + 1)))
        kk = rmin(k, k0)
        out.append(('lemma/%s bounds from inside' % n, Implies(And(cd, ub, Or(k <= j, j == k0), j <= k0, th <= x, Or(j == kk, T[j] <= x), x <= endp(j)), le(L(j, x), c))))
        mem = lambda jj, xx: And(Or(k <= jj, jj == k0), lo <= jj, jj <= k0, th <= xx, Or(jj == kk, T[jj] <= xx), xx <= endp(jj), c == L(jj, xx))
        a_, b_ = Ints('a_ b_')
        out.append(('lemma/%s attained from inside' % n, Implies(And(cd, sg, lo <= k, lo <= k0, th <= b, T[k0] <= b, Implies(k + 1 <= k0, And(att(k + 1, j, x), T[k + 1] <= x)), Implies(k + 1 < k0, T[k + 1] <= T[k + 2])),
                Or(mem(k, th), mem(k0, th), mem(k0, b), mem(k, T[k + 1]), mem(j, x)))))
    # approach: for c < L(x), lo < x some y in [lo, x) has c < L(y): lo when falling, else x - m with m half of the way down, or lo
    v, d, t, m, y = Reals('v d t m y'); Z = lambda u: v + d*(u - t)
    for n, sg in (('above', 1), ('below', -1)):
        gt = lambda a_, b_: sg*a_ > sg*b_
        out.append(('lemma/approach %s, moving away' % n, Implies(And(lo_ < x, gt(Z(x), c), sg*d <= 0), gt(Z(lo_), c))))
        out.append(('lemma/approach %s, inside' % n, Implies(And(sg*d > 0, gt(Z(x), c), m*2*d == Z(x) - c, y == x - m), And(y < x, gt(Z(y), c)))))
        out.append(('lemma/approach %s, start' % n, Implies(And(sg*d > 0, y < lo_, gt(Z(y), c)), gt(Z(lo_), c))))
    A = Const('A', ArraySort(I, I)); hi, p = Ints('hi p')
    P = lambda l, q_: And(l <= q_, q_ < hi, A[q_] >= j, Or(q_ == l, A[q_ - 1] < j))
    out.append(('lemma/least one entry', Implies(And(lo + 1 == hi, A[hi - 1] >= j), P(lo, lo))))
    out.append(('lemma/least more entries', Implies(And(lo + 1 < hi, A[hi - 1] >= j, P(lo + 1, p)), Or(P(lo, lo), P(lo, p)))))
    return out

def walk(fs):
    """ground subterms of the formulas (quantifier bodies are skipped) in deterministic order"""
    seen, out, st = set(), [], list(reversed(fs))
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if is_quantifier(t): continue
        out.append(t)
        if is_app(t): st.extend(reversed(t.children()))
    return out
def consts_in(f, cache):
    r = cache.get(f.get_id())
    if r is not None: return r[1]
    seen, out, st = set(), set(), [f]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if is_quantifier(t): st.append(t.body()); continue
        if is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == Z3_OP_UNINTERPRETED: out.add(t.decl().name())
            else: st.extend(t.children())
    cache[f.get_id()] = (f, out)
    return out

def instantiate(fs, full=False, pairs=True):
    """ground lemma instances for the affine-piece terms of a query"""
    terms = walk(fs)
    lins = [t for t in terms if t.decl().eq(LIN)] if terms else []
    divs = [(t.arg(0), t.arg(1)) for t in terms if t.decl().eq(FDIV)]
    lines, times = [], []
    def add(l, x):
        if not any(y.eq(x) for y in l): l.append(x)
    def addline(p):
        for q in lines:
            if all(a.eq(b) for a, b in zip(p, q)): return
        lines.append(p)
    for t in lins:
        addline((t.arg(0), t.arg(1), t.arg(2))); add(times, t.arg(3))
    LL = lambda p, x: lin(p[0], p[1], p[2], x)
    out = []
    for t in lins:
        u = lin(t.arg(0), t.arg(1), t.arg(2), t.arg(3))
        if not u.eq(t): out.append(t == u)
    # sums first: they may introduce new lines
    for p in list(lines):
        for op, sg in ((Z3_OP_ADD, 1), (Z3_OP_SUB, -1)):
            if is_app_of(p[0], op) and is_app_of(p[1], op) and p[0].num_args() == 2 and p[1].num_args() == 2:
                p1, p2 = (p[0].arg(0), p[1].arg(0)), (p[0].arg(1), p[1].arg(1))
                for x in times: out += inst_sum(LL, p1, p2, sg, p[2], x)
                addline((p1[0], p1[1], p[2])); addline((p2[0], p2[1], p[2]))
    for p in lines: add(times, p[2])
    have = set(); roots_ = []
    adds = [t for t in terms if is_app(t) and t.decl().kind() in (Z3_OP_ADD, Z3_OP_SUB) and t.sort() == R and t.num_args() == 2]
    for p in list(lines):
        for (a, b) in divs:
            if b.eq(p[1]):
                d = FDIV(a, b)
                for t in adds:
                    if t.arg(0).eq(p[2]) and t.arg(1).eq(d): add(times, t); roots_.append((p, t))
    def root(a):
        if is_app(a) and a.decl().kind() == Z3_OP_SELECT:
            a = a.arg(0)
            while is_app(a) and a.decl().kind() == Z3_OP_STORE: a = a.arg(0)
            return a.get_id()
        return a.get_id()
    key = lambda p, x: (root(p[0]), root(p[1]), x.get_id())
    keep = []
    for t in lins: have.add(key((t.arg(0), t.arg(1), t.arg(2)), t.arg(3)))
    for p in lines: have.add(key(p, p[2]))
    for p, x in roots_: have.add(key(p, x))
    rk = [(root(p[0]), root(p[1]), full or is0(p[1])) for p in lines]; tid = [x.get_id() for x in times]
    oks = [[a for a in range(len(times)) if r[2] or (r[0], r[1], tid[a]) in have] for r in rk]; okset = [set(o) for o in oks]
    txt, names, lcache = [], {}, {}
    def nm(t):
        k = t.get_id()
        if k not in names: names[k] = ('i!%d' % len(names), t); txt.append('(define-fun %s () Real %s)' % (names[k][0], t.sexpr()))
        return names[k][0]
    def LN(p, x):
        k = (p[0].get_id(), p[1].get_id(), p[2].get_id(), x.get_id())
        if k not in lcache: lcache[k] = nm(LL(p, x))
        return lcache[k]
    npair = 0
    for i, p in enumerate(lines):
        okp = oks[i]
        for a in okp:
            if not times[a].eq(p[2]): out += inst_start(LL, p, times[a])
        for n, q in enumerate([None] + lines[:i]):
            ti = okp if q is None else [a for a in okp if a in okset[n - 1]]
            if not pairs: npair += len(ti)*(len(ti) - 1)//2; continue
            tt = [times[a] for a in ti]
            dp, dq = nm(p[1]), nm(q[1]) if q is not None else '0.0'
            for a in range(len(tt)):
                for b in range(a):
                    npair += 1; x, y = tt[b], tt[a]
                    g = [LN(p, x), LN(p, y)] if q is None else ['(- %s %s)' % (LN(p, x), LN(q, x)), '(- %s %s)' % (LN(p, y), LN(q, y))]
                    txt.append(PAIR.format(dp=dp, dq=dq, x=nm(x), y=nm(y), gx=g[0], gy=g[1]))
        for (a, b) in divs:
            if b.eq(p[1]):
                for x in times: out += inst_root(LL, FDIV, p, a, b, x)
            if is_app(p[1]) and p[1].decl().eq(FDIV) and p[1].arg(0).eq(a) and p[1].arg(1).eq(b):
                for x in times: out += inst_slope(LL, FDIV, p, a, b, x)
    for (a, b) in divs: out += inst_div(FDIV, a, b)
    out += [t == NMUL(t.arg(1), t.arg(0)) for t in terms if is_app(t) and t.decl().eq(NMUL)]
    return out, dict(lines=len(lines), times=len(times), inst=len(out) + 8*npair, pairs=npair), '\n'.join(txt)

def unfold(f):
    """replace LIN/FDIV/NMUL by their definitions (fallback queries)"""
    v0, v1, v2, v3 = Var(0, R), Var(1, R), Var(2, R), Var(3, R)
    return substitute_funs(f, (LIN, v0 + v1*(v3 - v2)), (FDIV, v0/v1), (NMUL, v0*v1))

def has_ite(f):
    seen, st = set(), [f]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if is_app(t):
            if t.decl().kind() == Z3_OP_ITE: return True
            st.extend(t.children())
    return False
def eliminate(fs):
    """replace constants that a hypothesis defines (c == term) by their definition"""
    cache = {}
    for _ in range(12):
        sub = None; done = set()
        subs = []
        for f in fs[:-1]:          # the last is the goal: it defines nothing
            if not is_eq(f): continue
            a, b = f.arg(0), f.arg(1)
            if a.sort() not in (R, I): continue
            for x, y in ((a, b), (b, a)):
                if is_const(x) and x.decl().kind() == Z3_OP_UNINTERPRETED:
                    cs = consts_in(y, cache)
                    if x.decl().name() in cs or x.decl().name() in done or cs & done or '.at!' in x.decl().name(): continue
                    if any(x.decl().name() in consts_in(v, cache) for _, v in subs): continue
                    if has_ite(y): continue
                    subs.append((x, y)); done.add(x.decl().name()); break
        if not subs: return fs
        fs = [g for g in (substitute(f, *subs) for f in fs)]
        fs = [g for g in fs if not (is_eq(g) and g.arg(0).eq(g.arg(1)))] if False else fs
    return fs

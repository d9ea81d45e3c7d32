"""What follows of the robustness of a formula (nodes.ROB, defined node by node by nodes.Den) for all formulas, by induction on the formula: one obligation per
class, the operands being any functions that already have the property.  What the code computes is ROB (the contracts of nodes); these say what that means.
  horizon: data that agrees on [s, e + horizon] gives the same robustness on [s, e]
  shift:   shifting the data and the evaluated interval by d shifts the robustness by d
  bounded: the robustness of a formula is within [-BigM, BigM]
  instant: at a time of two evaluated intervals both give the same value (no abs, no *)"""
from base import *
from nodes import *
from nodes import KIND
AG = Function('AGREE', R, R, B)                 # the two data sets agree on [lo, hi]
def data(i): return (Const('d%d.len' % i, LA), Const('d%d.val' % i, RA), Int('d%d.n' % i))
D1, D2 = data(1), data(2)
def prem(*ds):
    """data as completes() has it: at least one row, increasing times"""
    return [f for d in ds for f in (d[2] >= 1, rows(d)[2][1])]
K_ = Int('k_'); OFF = Int('off')
def tm(d, k): return d[1][k][0]
def kdef(d, *us): return [kseg_def(d, u).f for u in us]
def agree_def(lo, hi):
    """AGREE: the values agree at every time in between, and so do the recorded times after lo (up to the number of rows before)"""
    u = Real('u_'); k1, k2 = kseg(D1, u), kseg(D2, u); return ForAll([u], Implies(And(lo <= u, u <= hi), agree_at(lo, u)))
def agree_at(lo, u):
    k1, k2 = kseg(D1, u), kseg(D2, u); return And(AGV(u), k2 == k1 + OFF, Implies(k1 > kseg(D1, lo), tm(D2, k2) == tm(D1, k1)))
AGV = Function('SAME_VALUES', R, B)             # every column has the same value at u in both
COL = Int('column'); LN = Bool('linear'); M = Real('M'); LESS = Bool('less'); CONST = Real('constant')
def den(typ, kids, fut, th, s, e, a, b): return Den(typ, kids, th, s, e, a, b, M, LESS, LN, fut, COL, CONST)
def fun(nm): return Function(nm, R, R)
def sup_of(t, dn, us, w, p):
    """what defines t as the supremum (infimum) dn = (F, lo, hi, val): bound at us, beyond p at the witness w"""
    F, lo, hi, val = dn; le = (lambda x, y: x <= y) if F.eq(SUPF) else (lambda x, y: x >= y)
    return [Implies(And(lo <= u, u <= hi), le(val(u), t)) for u in us] + [Implies(And(lo <= hi, Not(le(t, p))), And(lo <= w, w <= hi, Not(le(val(w), p))))]
def equal_sups(t1, d1, t2, d2, mv=lambda u: u, back=lambda u: u, ih=lambda u: []):
    """definition of two suprema and what makes them equal: each dominates the other at its witness (mv: time of the first to time of the second)"""
    w1, w2 = Real('w1'), Real('w2'); return sup_of(t1, d1, [back(w2)], w1, t2) + sup_of(t2, d2, [mv(w1)], w2, t1) + ih(w1) + ih(back(w2))
def values(typ, f1, f2, fut1, fut2, th1, th2, se1, se2, ab, mv, back, ih):
    """(hypotheses, the two robustness values): f1, f2 the operands; ih(i, u): the operands agree at u (a time of the first)"""
    a, b = ab; x, y = den(typ, f1, fut1, th1, *se1, a, b), den(typ, f2, fut2, th2, *se2, a, b); n = len(f1); every = lambda u: [ih(i, u) for i in range(n)]
    if KIND[typ] == 'tunary': t1, t2 = Reals('r1 r2'); return [0 <= a, a <= b] + equal_sups(t1, x.window(), t2, y.window(), mv, back, every), t1, t2
    if KIND[typ] == 'tbinary':
        inf1, inf2 = fun('inf1'), fun('inf2'); t1, t2 = Reals('r1 r2'); (d1, i1), (d2, i2) = x.until(lambda u: inf1(u)), y.until(lambda u: inf2(u)); hy = [0 <= a, a <= b]
        hy += equal_sups(t1, d1, t2, d2, mv, back, every)
        for j, u in enumerate((Real('w1'), back(Real('w2')))):
            v1, v2 = Reals('v1%d v2%d' % (j, j)); hy += sup_of(inf1(u), i1(u), [back(v2)], v1, inf2(mv(u))) + sup_of(inf2(mv(u)), i2(mv(u)), [mv(v1)], v2, inf1(u)) + every(v1) + every(back(v2))
        return hy, t1, t2
    if typ in ('signal_transducer', 'constant_transducer'): return [], x.value(), y.value()
    return every(th1), x.value(), y.value()
def grid_points(d, th, s, e):
    """times an abs or a product is evaluated at"""
    k = kseg(d, th); return [If(k == kseg(d, s), s, tm(d, k)), tm(d, k + 1), e]
def kid_interval(typ, i, s, e, a, b): return (s + a, e + b) if KIND[typ] == 'tunary' or KIND[typ] == 'tbinary' and i == 1 else (s, e + b) if KIND[typ] == 'tbinary' else (s, e)
def horizon(typ):
    n = len(CHILD[KIND[typ]]); s, e, th, a, b = Reals('s e th a b'); hs = Reals('h0 h1')[:n]; H = Real('h'); f1, f2 = [fun('f%d' % i) for i in range(n)], [fun('g%d' % i) for i in range(n)]
    timed = KIND[typ] in ('tunary', 'tbinary'); hy = prem(D1, D2) + [s <= th, th <= e] + [And(h >= 0, H >= (b if timed else 0) + h) for h in hs] + [H >= 0]
    def ih(i, u):
        lo, hi = kid_interval(typ, i, s, e, a, b); return Implies(And(AG(lo, hi + hs[i]), lo <= u, u <= hi), f1[i](u) == f2[i](u))
    restr = [Implies(And(AG(s, e + H), s <= lo, lo <= hi, hi <= e + H), AG(lo, hi)) for i in range(n) for lo, hi in [tuple(x + y for x, y in zip(kid_interval(typ, i, s, e, a, b), (0, hs[i])))]]
    h2, v1, v2 = values(typ, f1, f2, D1, D2, th, th, (s, e), (s, e), (a, b), lambda u: u, lambda u: u, ih)
    hy += [AG(s, e + H)] + restr + h2
    if typ == 'signal_transducer': hy += [agree_at(s, th), AGV(th) == (data_at(LN, D1, COL, th) == data_at(LN, D2, COL, th))]
    if typ in ('abs_transducer', 'mult_transducer'):
        ps = grid_points(D1, th, s, e); us = [s, th, e] + ps; nx = tm(D2, kseg(D2, th) + 1)
        hy += kdef(D1, nx, *us) + kdef(D2, nx, *us) + [ih(i, u) for i in range(n) for u in us] + [Implies(And(s <= u, u <= e), agree_at(s, u)) for u in us + [nx]]
    return And(hy), v1 == v2
def restriction():
    lo, hi, lo2, hi2, u = Reals('lo hi lo2 hi2 u'); return And(prem(D1, D2) + kdef(D1, lo, lo2) + [lo <= lo2, lo2 <= hi2, hi2 <= hi, agree_def(lo, hi)]), Implies(And(lo2 <= u, u <= hi2), agree_at(lo2, u))
def shift(typ):
    n = len(CHILD[KIND[typ]]); s, e, th, a, b, d = Reals('s e th a b d'); f1, f2 = [fun('f%d' % i) for i in range(n)], [fun('g%d' % i) for i in range(n)]; i_ = Int('i_')
    mv, back = lambda u: u + d, lambda u: u - d
    ih = lambda i, u: Implies(And(kid_interval(typ, i, s, e, a, b)[0] <= u, u <= kid_interval(typ, i, s, e, a, b)[1]), f2[i](u + d) == f1[i](u))
    h2, v1, v2 = values(typ, f1, f2, D1, D2, th, th + d, (s, e), (s + d, e + d), (a, b), mv, back, ih)
    hy = prem(D1, D2) + [s <= th, th <= e] + shifted(d) + h2
    us = [th, s] if typ in ('abs_transducer', 'mult_transducer', 'signal_transducer') else []
    hy += kdef(D1, *us) + kdef(D2, *[u + d for u in us]) + [kseg(D2, u + d) == kseg(D1, u) for u in us]
    if typ in ('abs_transducer', 'mult_transducer'):
        _, t0, _, _, sl, F = den(typ, f1, D1, th, s, e, a, b).curve(); hy += [ih(i, u) for i in range(n) for u in grid_points(D1, th, s, e)] + [lin(F(t0), sl, t0 + d, th + d) == lin(F(t0), sl, t0, th)]       # lemma/moved
    return And(hy), v1 == v2
def shifted(d):
    k = Int('k_'); c = Int('c_'); return [D1[2] == D2[2], ForAll([k], Implies(And(0 <= k, k < D1[2]), tm(D2, k) == tm(D1, k) + d), patterns=[D2[1][k]]), ForAll([k], Implies(And(0 <= k, k < D1[2]), tm(D2, k) == tm(D1, k) + d), patterns=[D1[1][k]]),
             COL >= 1, ForAll([k], Implies(And(0 <= k, k < D1[2]), D2[1][k][COL] == D1[1][k][COL]), patterns=[D2[1][k]])]
def same_row():
    u, d = Reals('u d'); return And(prem(D1, D2) + kdef(D1, u) + kdef(D2, u + d) + shifted(d)), kseg(D2, u + d) == kseg(D1, u)
def instant(typ):
    n = len(CHILD[KIND[typ]]); s, e, s2, e2, th, a, b = Reals('s e s2 e2 th a b'); f1, f2 = [fun('f%d' % i) for i in range(n)], [fun('g%d' % i) for i in range(n)]
    def ih(i, u): (lo, hi), (lo2, hi2) = kid_interval(typ, i, s, e, a, b), kid_interval(typ, i, s2, e2, a, b); return Implies(And(lo <= u, u <= hi, lo2 <= u, u <= hi2), f1[i](u) == f2[i](u))
    h2, v1, v2 = values(typ, f1, f2, D1, D1, th, th, (s, e), (s2, e2), (a, b), lambda u: u, lambda u: u, ih)
    return And([s <= th, th <= e, s2 <= th, th <= e2] + h2), v1 == v2
def bounded(typ):
    n = len(CHILD[KIND[typ]]); s, e, th, a, b = Reals('s e th a b'); f = [fun('f%d' % i) for i in range(n)]; ih = lambda u: [And(-M <= g(u), g(u) <= M) for g in f] if typ != 'stl_atom' else []; d = den(typ, f, D1, th, s, e, a, b); hy = [M >= 0, 0 <= a, a <= b]; t = Real('r1'); w, v, inf = Real('w1'), Real('v1'), fun('inf1')
    if KIND[typ] == 'tunary': F, lo, hi, val = d.window(); hy += sup_of(t, d.window(), [lo], w, M if F.eq(SUPF) else -M) + ih(lo) + ih(w)
    elif KIND[typ] == 'tbinary': dn, i = d.until(inf); lo = dn[1]; hy += sup_of(t, dn, [lo], w, M) + sup_of(inf(lo), i(lo), [], v, -M) + ih(lo) + ih(w) + ih(v)
    else: t = d.value(); hy += ih(th)
    return And(hy), And(-M <= t, t <= M)
def obligations():
    out = [('agreement on a part of an interval', restriction()), ('row at a shifted time', same_row())]
    for t in CLASSES:
        nm = t.replace('_transducer', ''); out += [('horizon: ' + nm, horizon(t)), ('shift: ' + nm, shift(t))]
        if t not in EXPRS: out.append(('bounded: ' + nm, bounded(t)))
        if t not in ('abs_transducer', 'mult_transducer'): out.append(('instant: ' + nm, instant(t)))
    return [('robustness lemma/' + nm, hy, g) for nm, (hy, g) in out]
LEMMAS['rob'] = obligations

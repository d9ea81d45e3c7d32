"""Ownership: a formula node owns its operands and its interval, a monitor and a driver own their formulas.  An operand is known
only by the contracts every class obeys ("dyn f"): its clone is a new formula that means the same, and deleting it frees its tree."""
from base import *
from nodes import node, CLASSES, KIND, CHILD, HZ
from engine import Ptr, Obj, AddrOf, MapV, Uninit
def twin(e, o):
    """a new formula with the meaning of o"""
    n = e.new_obj('transducer', heap=True); e.default_fields(n, 'clone'); e.link_shallow(n); e.heapnew.append(n)
    for g in ('#id', '#expr'): e.store[(n.oid, g)] = e.store[(o.oid, g)]
    return n
contract('dyn clone', result=lambda c: Ptr(twin(c.e, c.fr.this)))
def deleted(c): return [('the object exists', BoolVal(c.fr.this is None or c.fr.this.oid not in c.e.freed))]
def eq(a, b):
    """the same value, for every kind of value the code holds"""
    if is_expr(a) and is_expr(b): return a == b
    if isinstance(a, MapV) and isinstance(b, MapV): return And(a.has == b.has, a.val == b.val)
    if type(a).__name__ == 'DQ' and type(b).__name__ == 'DQ':
        k = Int('k_'); return And([a.hi - a.lo == b.hi - b.lo] + [ForAll([k], Implies(And(a.lo <= k, k < a.hi), a.arr[f][k] == b.arr[f][k - a.lo + b.lo])) if not (a.arr[f].eq(b.arr[f]) and a.lo.eq(b.lo)) else BoolVal(True) for f in a.arr])
    if a is b: return BoolVal(True)
    if type(a) is type(b) and type(a).__name__ == 'Opaque': return BoolVal(True)
    return BoolVal(False)
def same_formula(st, a, b):
    """b is a formula of its own that means what a means; both as they are held (pointers)"""
    if not isinstance(a, Ptr) or not isinstance(b, Ptr): return BoolVal(False)
    if a.obj is None or b.obj is None: return And(a.null, b.null)
    both = And(st[(a.obj.oid, '#id')] == st[(b.obj.oid, '#id')], st[(a.obj.oid, '#expr')] == st[(b.obj.oid, '#expr')], BoolVal(a.obj is not b.obj))
    return And(a.null == b.null, Implies(Not(a.null), both))
MEANING = dict(signal_transducer=('variable', 'signal_map'), constant_transducer=('param', 'value'), stl_atom=('comp',))
def clone_post(c):
    r = c.res; me = c.e.entry_this; st = c.new.st
    ok = isinstance(r, Ptr) and r.obj is not None and any(o is r.obj for o in c.e.heapnew) and r.obj.oid not in c.e.freed
    out = [('a new object', And(BoolVal(ok), Not(r.null)) if ok else BoolVal(False))]
    if not ok: return out
    o = r.obj; out.append(('of the same class', BoolVal(o.typ == me.typ)))
    if o.typ != me.typ: return out
    for f in MEANING.get(me.typ, ()): out.append((f, eq(c.old.st[(me.oid, f)], st[(o.oid, f)])))
    for p in CHILD[KIND[me.typ]]: out.append(('a clone of ' + p, And(same_formula(st, c.old.st[(me.oid, p)], st[(o.oid, p)]), Not(st[(o.oid, p)].null) if isinstance(st[(o.oid, p)], Ptr) else BoolVal(False))))
    if KIND[me.typ][0] == 't' and KIND[me.typ] != 'ternary':
        i, j = c.old.st[(me.oid, 'I')], st[(o.oid, 'I')]; own = isinstance(j, Ptr) and j.obj is not None and j.obj is not i.obj and j.obj.oid not in c.e.freed
        out.append(('an interval of its own', BoolVal(own)))
        if own: out += [('interval ' + f, c.old.st[(i.obj.oid, f)] == st[(j.obj.oid, f)]) for f in ('begin', 'end', 'begin_str', 'end_str')]
    return out
for cls in CLASSES:
    node(cls, 'clone', post=clone_post, owns=True, nullable=('param_map_ptr',))
    contract('destroy as ' + cls, this_type=cls, fnkey='@~', destroy=True, owns=True, modifies=('*',))

# ------------------------------------------------------------------ monitors
VALUE = ('interpol', 'semantics', 'data', 'param_map', 'signal_map', 'rob', 'lower_rob', 'upper_rob', 'start_time', 'end_time')
def values(c, src, dst, was, now):
    return [(f, eq(was[(src.oid, f)], now[(dst.oid, f)])) for f in VALUE]
def mon(c): return c.e.entry_this
def copied(c):
    me, o, st = mon(c), c.old.get('other'), c.new.st
    return values(c, o, me, c.old.st, st) + [('the formula', same_formula(st, c.old.st[(o.oid, 'formula')], st[(me.oid, 'formula')]))]
def taken(c):
    me, o, st = mon(c), c.old.get('other'), c.new.st; f, g = c.old.st[(o.oid, 'formula')], st[(me.oid, 'formula')]
    return values(c, o, me, c.old.st, st) + [('the formula itself', BoolVal(isinstance(g, Ptr) and g.obj is f.obj) if not is_false(simplify(Not(f.null))) else BoolVal(True)),
        ('null when the source is', g.null == f.null if isinstance(g, Ptr) else BoolVal(False)), ('the source no longer owns it', st[(o.oid, 'formula')].null)]
M = 'STLMonitor::'
def own(key, this=None, post=None, **kw): return contract(key, this_type=this, deep=True, nullable=('formula',), modifies=kw.pop('modifies', ('this',)), owns=True, post=post, **kw)
own(M + 'STLMonitor|void (const STLMonitor &)', params=('other',), ctor=True, post=copied)
own(M + 'operator=|STLMonitor &(const STLMonitor &)', params=('other',), post=copied)
own(M + 'STLMonitor|void (STLMonitor &&) noexcept', params=('other',), ctor=True, post=taken, modifies=('this', 'other'))
own(M + 'operator=|STLMonitor &(STLMonitor &&) noexcept', params=('other',), post=taken, modifies=('this', 'other'))
def kept(c):
    me, st = mon(c), c.new.st; f, g = c.old.st[(me.oid, 'formula')], st[(me.oid, 'formula')]
    return [('the same formula', And(g.null == f.null, BoolVal(g.obj is f.obj)) if isinstance(g, Ptr) else BoolVal(False))]
for sg in ('const STLMonitor &)', 'STLMonitor &&) noexcept'): own(M + 'operator= (self)|STLMonitor &(' + sg, fnkey=M + 'operator=|STLMonitor &(' + sg, params=('other',), self_arg='other', post=kept, modifies=())
own('destroy as STLMonitor', 'STLMonitor', fnkey='@~', destroy=True, modifies=('*',))

# ------------------------------------------------------------------ drivers: a map from names to formulas of their own
from engine import MapP
from nodes import strc
DVALUE = ('semantics', 'interpol', 'trace_scanning', 'trace_parsing', 'streamname', 'param_map', 'signal_map', 'data', 'report', 'test_log', 'nb_test_pos', 'nb_test_total', 'error_flag')
def held(m): k = Const('k_', Str); return [('every formula exists', ForAll([k], Implies(m.has[k], And(Not(m.nul[k]), m.live[k])), patterns=[m.has[k]]))]
def fm(v, o): return v.st[(o.oid, 'formula_map')]
def who(c, *names):
    """the drivers a function works on"""
    return [c.fr.this if n == 'this' else c.old.get(n) for n in names]
def dpre(*names):
    return lambda c: [f for o in who(c, *names) for f in held(fm(c.old, o))]
def alike(a, b, k): return And(b.has[k] == a.has[k], Implies(a.has[k], And(b.id[k] == a.id[k], b.expr[k] == a.expr[k], b.nul[k] == a.nul[k])))
def dvalues(c, o, me): return [(f, eq(c.old.st[(o.oid, f)], c.new.st[(me.oid, f)])) for f in DVALUE]
def sound(m): k = Const('k_', Str); return ('every formula exists', ForAll([k], Implies(m.has[k], And(Not(m.nul[k]), m.live[k]))))
def dcopied(c):
    me, o = who(c, 'this', 'other'); a, b = fm(c.old, o), fm(c.new, me); k = Const('k_', Str)
    return dvalues(c, o, me) + [('formulas that mean the same under the same names', ForAll([k], alike(a, b, k))), sound(b)]
def dtaken(c):
    me, o = who(c, 'this', 'other'); z = fm(c.new, o); k = Const('k_', Str); return dcopied(c) + [('the source no longer owns them', ForAll([k], Not(z.has[k])))]
def seen(c, o): return c.new.st[('seen', (o.oid, 'formula_map'))]
def copy_loop(c):
    me, o = who(c, 'this', 'other'); a, b, s = fm(c.old, o), fm(c.new, me), seen(c, o); k = Const('k_', Str)
    return [('formulas copied so far', ForAll([k], And(b.has[k] == And(a.has[k], s[k]), Implies(b.has[k], And(b.id[k] == a.id[k], b.expr[k] == a.expr[k], Not(b.nul[k]), b.live[k]))), patterns=[b.has[k]])),
            ('formulas of the source kept', And([getattr(fm(c.new, o), f) == getattr(a, f) for f in MapP.F]))]
def free_loop(c):
    me = c.fr.this; a, b, s = fm(c.head if hasattr(c, 'head') else c.new, me), fm(c.new, me), seen(c, me); k = Const('k_', Str)
    return [('formulas deleted so far', And([getattr(b, f) == getattr(a, f) for f in ('has', 'id', 'expr', 'nul')] + [ForAll([k], b.live[k] == And(a.live[k], Not(And(a.has[k], s[k]))), patterns=[b.live[k]])])), ('keys', ForAll([k], Implies(s[k], a.has[k]), patterns=[s[k]]))]
D = 'STLDriver::'
def down(key, this=None, post=None, names=('this', 'other'), **kw): return contract(key, this_type=this, deep=True, modifies=kw.pop('modifies', ('this',)), owns=True, borrows=('lexer',), pre=dpre(*names), post=post, **kw)
down(D + 'STLDriver|void (const STLDriver &)', params=('other',), ctor=True, post=dcopied, names=('other',), loops=[LoopC(copy_loop)])
down(D + 'operator=|STLDriver &(const STLDriver &)', params=('other',), post=dcopied, loops=[LoopC(free_loop), LoopC(copy_loop)])
down(D + 'STLDriver|void (STLDriver &&) noexcept', params=('other',), ctor=True, post=dtaken, names=('other',), modifies=('this', 'other'))
down(D + 'operator=|STLDriver &(STLDriver &&) noexcept', params=('other',), post=dtaken, modifies=('this', 'other'), loops=[LoopC(free_loop)])
for sg in ('const STLDriver &)', 'STLDriver &&) noexcept'): down(D + 'operator= (self)|STLDriver &(' + sg, fnkey=D + 'operator=|STLDriver &(' + sg, params=('other',), self_arg='other', names=('this',), modifies=(), loops=[LoopC(free_loop)] + [LoopC(copy_loop)] * (sg[0] == 'c'))
down('destroy as STLDriver', 'STLDriver', fnkey='@~', destroy=True, names=('this',), modifies=('*',), loops=[LoopC(free_loop)])
def monitor_post(c):
    r, d = c.res, c.fr.this; st = c.new.st; m = fm(c.old, d); i = c.old['id']; ok = isinstance(r, Obj); has = m.has[i]
    if not ok: return [('a monitor', BoolVal(False))]
    f = st[(r.oid, 'formula')]; null = f.null if isinstance(f, Ptr) else BoolVal(False)
    own = isinstance(f, Ptr) and (f.obj is None or f.obj.oid not in c.e.freed and not getattr(f.obj, 'held', None))
    out = [('no formula when the name is undefined', null == Not(has)), ('a formula of its own', BoolVal(own))]
    if own and f.obj is not None: out += [('that means the same', Implies(has, And(st[(f.obj.oid, '#id')] == m.id[i], st[(f.obj.oid, '#expr')] == m.expr[i])))]
    for x in ('interpol', 'semantics', 'data', 'param_map', 'signal_map'): out.append((x + ' of the driver', Implies(has, eq(st[(r.oid, x)], c.old.st[(d.oid, x)]))))
    return out
down(D + 'get_monitor', params=('id',), names=('this',), modifies=(), post=monitor_post)

"""Contracts of the recording, parameter and settings functions of monitors and drivers."""
from base import *
import sigops
from engine import Ptr
STRC = lambda t: strc("\"%s\"" % t)
# ------------------------------------------------------------------ add_sample
def rows_ok(d):
    k = Int('k_'); return ForAll([k], Implies(And(d.lo <= k, k < d.hi), d.arr['len'][k] >= 1), patterns=[d.arr['len'][k]])
def add_sample(cls):
    def st(c): return c.old.get('this.data'), c.old.get('s'), c.msize('this.signal_map')
    def bad(c):
        d, s, n = st(c); return Or(s.hi - s.lo != n + 1, And(d.lo < d.hi, s.arr['val'][s.lo] <= d.arr['val'][d.hi-1][0]))
    def unchanged(c):
        d, e = c.old.get('this.data'), c.new.get('this.data'); k, j = Ints('k_ j_')
        return And(e.lo == d.lo, e.hi == d.hi, same_rows(d, e, d.lo, d.hi))
    def same_rows(d, e, lo, hi):
        k, j = Ints('k_ j_')
        return ForAll([k, j], Implies(And(lo <= k, k < hi), And(e.arr['len'][k] == d.arr['len'][k], Implies(And(0 <= j, j < d.arr['len'][k]), e.arr['val'][k][j] == d.arr['val'][k][j]))), patterns=[MultiPattern(e.arr['len'][k], e.arr['val'][k][j])])
    def post(c):
        d, s, n = st(c); e = c.new.get('this.data'); j = Int('j_')
        return [('accepted samples fit', Not(bad(c))), ('one row more', And(e.lo == d.lo, e.hi == d.hi + 1)), ('earlier rows kept', same_rows(d, e, d.lo, d.hi)),
                ('as wide as the sample', e.arr['len'][d.hi] == s.hi - s.lo), ('recorded unchanged', ForAll([j], Implies(And(0 <= j, j < s.hi - s.lo), e.arr['val'][d.hi][j] == s.arr['val'][s.lo + j]), patterns=[e.arr['val'][d.hi][j]])),
                ('rows hold at least a time', rows_ok(e)), ('times increase', Implies(d.lo < d.hi, d.arr['val'][d.hi-1][0] < e.arr['val'][e.hi-1][0]))]
    contract(cls + '::add_sample', params=('s',), modifies=('this|data',), pre=lambda c: [('rows hold at least a time', rows_ok(c.old.get('this.data')))], post=post,
        throws=lambda c: [('only samples that do not fit are rejected', bad(c)), ('with an invalid argument exception', BoolVal(c.thrown.t == 'invalid_argument')), ('nothing recorded', unchanged(c))], throw_cond=bad, throw_type='invalid_argument')
add_sample('STLMonitor'); add_sample('STLDriver')

# ------------------------------------------------------------------ settings
E_SEM = {'SPACE': 0, 'LEFT_TIME': 1, 'RIGHT_TIME': 2}; E_INT = {'PREVIOUS': 0, 'LINEAR': 1}
def setting(fn, param, field, names, glob=False):
    new = lambda c: c.new.g(field) if glob else c.new['this.' + field]
    old = lambda c: c.old.g(field) if glob else c.old['this.' + field]
    known = lambda c: Or([c.old[param] == STRC(n) for n in names])
    contract(fn, params=(param,), modifies=('g:' + field if glob else 'this|' + field,),
        post=lambda c: [('known name', known(c))] + [('%s sets it' % n, Implies(c.old[param] == STRC(n), new(c) == v)) for n, v in names.items()],
        throws=lambda c: [('only unknown names are rejected', Not(known(c))), ('with an invalid argument exception', BoolVal(c.thrown.t == 'invalid_argument')), ('nothing changes', new(c) == old(c))],
        throw_cond=lambda c: Not(known(c)), throw_type='invalid_argument')
def getting(fn, field, names, glob=False):
    old = lambda c: c.old.g(field) if glob else c.old['this.' + field]
    contract(fn, post=lambda c: [('name of the setting', And([Implies(old(c) == v, c.res == STRC(n)) for n, v in names.items()])), ('known setting', Or([old(c) == v for v in names.values()]))],
        throws=lambda c: [('only unknown settings', And([old(c) != v for v in names.values()]))], throw_cond=lambda c: And([old(c) != v for v in names.values()]), throw_type='invalid_argument')
for cls in ('STLMonitor', 'STLDriver'):
    setting(cls + '::set_semantics', 'sem', 'semantics', E_SEM); setting(cls + '::set_interpol', 'interp', 'interpol', E_INT)
    getting(cls + '::get_semantics', 'semantics', E_SEM); getting(cls + '::get_interpol', 'interpol', E_INT)
setting('Signal::set_semantics', 'sem', 'Signal::semantics', E_SEM, True); setting('Signal::set_interpol', 'interp', 'Signal::interpol', E_INT, True)
getting('Signal::get_semantics', 'Signal::semantics', E_SEM, True); getting('Signal::get_interpol', 'Signal::interpol', E_INT, True)
contract('STLMonitor::STLMonitor|void ()', ctor=True, modifies=('this',), effect=lambda e, c: e.store.__setitem__((c.fr.this.oid, 'formula'), Ptr(None)),
    post=lambda c: [('linear interpolation', c.new['this.interpol'] == E_INT['LINEAR']), ('space semantics', c.new['this.semantics'] == E_SEM['SPACE']), ('no formula', c.new.ptr('this.formula').null)])

# ------------------------------------------------------------------ parameters
def others(c, m0, m1, p):
    k = Const('k_', Str); return ForAll([k], Implies(k != p, And(m1.has[k] == m0.has[k], m1.val[k] == m0.val[k])), patterns=[m1.has[k], m1.val[k]])
def mm(v): return v.get('this.param_map')
contract('STLMonitor::set_param', params=('param', 'value'), modifies=('this|param_map',),
    post=lambda c: (lambda a, b, p: [('known parameter', a.has[p]), ('it has the value', And(b.has[p], b.val[p] == c.old['value'])), ('others kept', others(c, a, b, p))])(mm(c.old), mm(c.new), c.old['param']),
    throws=lambda c: [('only unknown parameters are rejected', Not(mm(c.old).has[c.old['param']])), ('with an invalid argument exception', BoolVal(c.thrown.t == 'invalid_argument')), ('nothing changes', And(mm(c.old).has == mm(c.new).has, mm(c.old).val == mm(c.new).val))],
    throw_cond=lambda c: Not(mm(c.old).has[c.old['param']]), throw_type='invalid_argument')
contract('STLMonitor::get_param', params=('param',), post=lambda c: [('known parameter', mm(c.old).has[c.old['param']]), ('its value', c.res == mm(c.old).val[c.old['param']])],
    throws=lambda c: [('only unknown parameters are rejected', Not(mm(c.old).has[c.old['param']])), ('with an invalid argument exception', BoolVal(c.thrown.t == 'invalid_argument'))],
    throw_cond=lambda c: Not(mm(c.old).has[c.old['param']]), throw_type='invalid_argument')
contract('STLDriver::get_param', params=('param',), post=lambda c: [('its value, 0 when unknown', c.res == If(mm(c.old).has[c.old['param']], mm(c.old).val[c.old['param']], RealVal(0)))])
def extmap(c, v): return v.st[('ext', 'params')]
contract('transducer::get_param', params=('param', 'val'), modifies=('val',), nullable=('param_map_ptr',),
    post=lambda c: (lambda nul, m, p: [('found when it has a value', c.res == And(Not(nul), m.has[p])), ('its value, 0 when unknown', c.new['val'] == If(And(Not(nul), m.has[p]), m.val[p], RealVal(0)))])(c.old.null('this.param_map_ptr'), extmap(c, c.old), c.old['param']))
def tparam(cls):
    contract(cls + '::set_param', params=('param', 'val'), modifies=('this|param_map',), covers_return=True,
        post=lambda c: (lambda a, b, p: [('it has the value', Implies(a.has[p], b.val[p] == c.old['val'])), ('none added', b.has == a.has), ('others kept', others(c, a, b, p))])(mm(c.old), mm(c.new), c.old['param']))
tparam('transducer')
contract('STLMonitor::reset_signal_data', modifies=('this|data',), post=lambda c: [('no rows', c.new.get('this.data').lo == c.new.get('this.data').hi)])
contract('STLMonitor::set_eval_time', params=('t_start', 't_end'), modifies=('this|start_time,end_time',), post=lambda c: [('interval set', And(c.new['this.start_time'] == c.old['t_start'], c.new['this.end_time'] == c.old['t_end']))])

"""Which contracts decide which property.  Root functions; every contract they use at a call site is proved too."""
SAN = ('-fsanitize=address,undefined', '-fno-sanitize-recover=all')
BOOL = ['computeNot', 'computeAnd', 'computeOr', 'computeImplies', 'Signal::compute_not', 'Signal::compute_and', 'Signal::compute_or', 'Signal::compute_implies']
SIGBUILD = ['Signal::Signal|void(double,double,int)', 'Signal::Signal|void(double*,double*,int)', 'Signal::appendSample|void(double,double)', 'Signal::appendSample|void(double,double,double)', 'Signal::appendSignal']
SIGEDIT = ['Signal::simplify', 'Signal::resize', 'Signal::shift', 'Signal::addLastSample', 'Signal::removeInf']
SETTINGS = [k + f for k in ('STLMonitor::', 'STLDriver::', 'Signal::') for f in ('set_semantics', 'get_semantics', 'set_interpol', 'get_interpol')]
UNTIMED = ['computePartialEventually', 'computeEventually', 'computeGlobally', 'Signal::compute_eventually', 'Signal::compute_globally']
TEMPORAL = UNTIMED + ['plateauMax', 'plateauMin', 'computeBoundedEventually', 'computeBoundedGlobally'] + ['Signal::compute_%s_%s' % (a, b) for a in ('bounded', 'timed') for b in ('eventually', 'globally')]
UNTIL = ['computeSegmentUntil', 'computeUntil', 'computeTimedUntil', 'Signal::compute_until', 'Signal::compute_timed_until']
TRUTH = ['Signal::compute_boolean', 'Signal::compute_left_time_rob', 'Signal::compute_right_time_rob']
CLASSES = ['signal_transducer', 'constant_transducer', 'not_transducer', 'and_transducer', 'or_transducer', 'implies_transducer', 'ev_transducer', 'alw_transducer', 'until_transducer', 'stl_atom', 'plus_transducer', 'minus_transducer', 'mult_transducer', 'abs_transducer']
def nodes(*cls, m=('compute_robustness',)): return ['%s as %s' % (f, c if '_' in c else c + '_transducer') for c in cls for f in m]
ATTACH = nodes(*CLASSES, m=('reset', 'set_trace_data_ptr', 'set_param_map_ptr', 'init_horizon'))
EXPRS = ['signal', 'constant', 'plus', 'minus', 'mult', 'abs']
BOUNDS = nodes(*[c for c in CLASSES if c.replace('_transducer', '') not in EXPRS], m=('compute_lower_rob', 'compute_upper_rob')) + nodes(*(EXPRS + ['stl_atom']), m=('compute_robustness again',))
EVAL = ['STLMonitor::eval_rob|double(double,double)', 'STLMonitor::eval_rob|double(double)', 'STLMonitor::eval_rob|double()', 'STLDriver::get_online_rob|vector<double>(const string &, double)', 'STLDriver::get_online_rob|vector<double>(const string &)']
NODE = ['a formula object is a tree: operands are distinct objects with disjoint parts (the parser and clone build trees)', 'formulas are well-formed as the grammar makes them (operands of comparisons and arithmetic are expressions, others formulas; 0 <= a <= b; declared signals)',
        'every sample and horizon time is finite; the bound on values is not negative']
SIGMODS = ['sigops', 'sigedit', 'temporal', 'plateau', 'until', 'truth', 'nodes']
REALS = ['double arithmetic is real arithmetic in the proofs (the bounded stand-in compares within 1e-6)']
OWN = nodes(*CLASSES, m=('clone', 'destroy')) + ['destroy as STLMonitor', 'destroy as STLDriver', 'STLDriver::get_monitor'] + [c + '::' + x.replace('@', c) for c in ('STLMonitor', 'STLDriver') for x in ('@|void (const @ &)',
    '@|void (@ &&) noexcept', 'operator=|@ &(const @ &)', 'operator=|@ &(@ &&) noexcept', 'operator= (self)|@ &(const @ &)', 'operator= (self)|@ &(@ &&) noexcept')]
PROPS = {
 'C01': dict(mods=SIGMODS, roots=BOOL + nodes('not', 'and', 'or', 'implies'), assumptions=NODE),
 'C02': dict(mods=SIGMODS, roots=TEMPORAL + nodes('ev', 'alw'), assumptions=NODE),
 'C03': dict(mods=SIGMODS, roots=UNTIL + nodes('until'), assumptions=NODE),
 'C04': dict(mods=SIGMODS + ['roblem'], roots=EVAL + ATTACH + nodes(*CLASSES) + BOUNDS, lemmas=('rob',), assumptions=NODE + ['no operand\'s data ends less than 1e-14 before the first instant of a window (resize takes such an end for the instant)']),
 'C05': dict(mods=SIGMODS, roots=nodes('stl_atom', 'plus', 'minus', 'mult', 'abs', 'signal', 'constant'), assumptions=NODE),
 'C06': dict(mods=['sigedit'], roots=SIGBUILD),
 'C07': dict(mods=['records'], roots=['STLMonitor::add_sample', 'STLDriver::add_sample', 'STLMonitor::reset_signal_data']),
 'C08': dict(mods=SIGMODS + ['records'], roots=['STLMonitor::set_param', 'STLMonitor::get_param', 'STLDriver::get_param', 'transducer::get_param', 'transducer::set_param'] + nodes('constant') + nodes('constant', 'ev', 'alw', 'until', m=('set_param_map_ptr', 'init_horizon')) + ['STLDriver::set_param'] + nodes(*CLASSES, m=('set_param',)) + EVAL, assumptions=NODE),
 'C09': dict(mods=['nodes', 'records', 'ownership'], flags=SAN, roots=OWN, assumptions=['formulas are trees of distinct objects, each of them owned once and not null (the parser makes them so; parsing is not proved)',
             'the containers of the standard library copy and destroy their elements; a map that was moved from is empty', 'legacy test scripts are left out']),
 'C10': dict(mods=SIGMODS, roots=EVAL + ATTACH + nodes(*CLASSES), assumptions=NODE),
 'C11': dict(mods=SIGMODS + ['roblem'], roots=EVAL + ATTACH + nodes(*CLASSES), lemmas=('rob',), assumptions=NODE),
 'C12': dict(mods=['sigops', 'sigedit'], roots=SIGEDIT),
 'C13': dict(mods=SIGMODS + ['records'], roots=EVAL + ATTACH + nodes(*CLASSES) + BOUNDS + BOOL + SIGBUILD + SIGEDIT + TEMPORAL + UNTIL + TRUTH, flags=SAN),
 'C14': dict(mods=['nodes', 'records', 'ownership'], roots=SETTINGS + ['STLMonitor::STLMonitor|void()', 'STLDriver::get_monitor'] + EVAL),
 'C15': dict(mods=['sigops', 'truth'], roots=TRUTH),
}
def norm(k): a, b, c = k.partition('|'); return a + b + c.replace(' ', '')
for p in PROPS.values(): p.setdefault('assumptions', []); p['roots'] = list(map(norm, p.get('roots', ()))); p['assumptions'] = REALS + p['assumptions']
NOTES = {'C01': 'every function that computes the connectives on signals, and the evaluation of not/and/or/implies nodes, is proved for all inputs',
 'C02': 'every function that computes eventually and always on signals (untimed, bounded, timed), and the evaluation of ev/alw nodes, is proved for all inputs',
 'C03': 'every function that computes until on signals (untimed and timed), and the evaluation of until nodes, is proved for all inputs',
 'C04': 'lower and upper bounds proved, for all 8 formula classes, for monitor evaluation and for get_online_rob, to be on their side of the robustness of any completion of the data, and both equal to it when the data covers the horizon (space semantics); that adding samples never loosens them by the bounded stand-in',
 'C05': 'evaluation of predicates, +, -, *, abs, signals and constants proved for all inputs',
 'C06': 'all constructors and append functions proved for all inputs',
 'C07': 'both add_sample functions proved for all inputs',
 'C08': 'the parameter tables of monitors and drivers, constants that are parameters, windows that are parameters (horizons), and whole evaluations as a function of the parameter table are proved; the nodes in between are those of C01, C02, C03, C05',
 'C09': 'copy, move, assignment (self-assignment too) and destruction of monitors and drivers, get_monitor, and clone and destruction of all 14 node classes are proved: the result means what the source meant, owns formulas of its own, nothing owned is lost, freed twice or used after it was freed; histories follow because every operation keeps this ownership. Building formulas while parsing only by the bounded stand-in under address and leak sanitizers',
 'C10': 'monitor evaluation proved to return the robustness of its formula as a function of formula, data, parameters, settings and times alone, from any earlier state, through all 14 node classes (data covering the horizon, space semantics); get_online_rob of drivers likewise; other cases by the bounded stand-in',
 'C11': 'every evaluation is proved to return the robustness as a function of formula, data, parameters and interval (the contracts of C10); that this function depends on the horizon only, shifts with time and agrees with single instants is proved by induction over the 14 node classes (space semantics, data covering the horizon); time semantics by the bounded stand-in',
 'C12': 'all five edit functions proved for all inputs',
 'C13': 'memory safety and termination obligations of the functions under contract proved, and that every robustness signal and every bound is well-formed; parsing-time code by the bounded stand-in under address and undefined-behaviour sanitizers',
 'C14': 'all setters and getters proved; every evaluation of a monitor or driver is proved to use its own settings, a new monitor to have the defaults and a monitor of a driver to have the driver\'s settings; a new driver by the bounded stand-in',
 'C15': 'the three functions that compute the boolean form, left and right time robustness are proved for all inputs; formula objects around them only by the bounded stand-in'}
for k, v in NOTES.items(): PROPS[k]['note'] = v

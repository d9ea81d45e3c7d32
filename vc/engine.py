"""Verification-condition generator: symbolic execution of clang's AST of the real code against sidecar contracts.

A path is re-executed from the start with a list of branch decisions; loops are cut at their invariants, calls to
functions under contract are replaced by their contract, other functions of the repository are inlined.  Every path
yields obligations (assumptions, goal), discharged separately (prove.py)."""
import sys
from z3 import *
from theory import *
import cast
from cast import cname, norm
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    """the front end does not translate this construct: the function leaves the verifier's reach"""
class Annot(Unsupported):
    """a contract no longer anchors (loop or variable it names is gone)"""
class PathEnd(Exception): pass
class Restart(Exception): pass
class Infeasible(PathEnd): pass
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(s, v): s.v = v
class ThrowX(Exception):
    def __init__(s, t): s.t = t

INF = Real('INFINITY_')                                   # numeric_limits<double>::infinity(): above every finite time
class Obj:
    def __init__(s, oid, typ, heap=False): s.oid, s.typ, s.heap = oid, typ, heap
    def __repr__(s): return '<%s#%s>' % (s.typ, s.oid)
class Ptr:
    def __init__(s, obj, null=None): s.obj, s.null = obj, (BoolVal(obj is None) if null is None else null)
class AddrOf:
    def __init__(s, loc): s.loc = loc
class Rec:
    def __init__(s, typ, f, src=None): s.typ, s.f, s.src = typ, dict(f), src
class It:
    def __init__(s, key, idx, rev, ver, dq): s.key, s.idx, s.rev, s.ver, s.dq = key, idx, rev, ver, dq
class MapV:
    def __init__(s, has, val, vs): s.has, s.val, s.vs = has, val, vs
class MapIt:
    """position in a map: a key, or the end; one that walks the map (cur) is at a key not yet in ('seen', map), or at the end when all are"""
    def __init__(s, key, k, end, cur=False): s.key, s.k, s.end, s.cur = key, k, end, cur
class MapP:
    """map from names to formulas it holds: which names, what each formula means, whether the pointer is null, whether the object exists"""
    F = ('has', 'id', 'expr', 'nul', 'live')
    def __init__(s, **f): s.__dict__.update(f)
    def set(s, **f): return MapP(**{**{x: getattr(s, x) for x in MapP.F}, **f})
    def owned(s, k): return And(s.has[k], Not(s.nul[k]), s.live[k])
class Opaque:
    def __init__(s, t=''): s.t = t
class Uninit:
    def __init__(s, t): s.t = t
class Bound:
    """bound member function / callee description"""
    pass
# ---- lvalues
class Loc: pass
class LKey(Loc):
    def __init__(s, key): s.key = key
class LElem(Loc):
    def __init__(s, key, idx, typ): s.key, s.idx, s.typ = key, idx, typ
class LField(Loc):
    def __init__(s, base, f): s.base, s.f = base, f
class LObj(Loc):
    def __init__(s, obj): s.obj = obj
class LTmp(Loc):
    def __init__(s, v): s.v = v
class LMap(Loc):
    def __init__(s, key, k, which): s.key, s.k, s.which = key, k, which

RECS = ('Sample', 'Point')
DEQ = {'Signal': 'Sample', 'Sequence': 'Point'}

def tclean(t): return cname(t)
def is_rec(t): return tclean(t) in RECS
def vec_kind(t):
    t = tclean(t).replace(' ', '')
    if t in ('vector<double>', 'std::vector<double>', 'std::vector<double,std::allocator<double>>'): return 'double'
    if 'vector<vector<double>>' in t or 'vector<std::vector<double>>' in t or t in ('trace_data', 'std::vector<std::vector<double>>'): return 'row'
    if t in ('deque<Sample>', 'std::deque<Sample>'): return 'Sample'
    return None
def map_kind(t):
    t = tclean(t).replace(' ', '').replace('std::', '').replace('basic_string<char>', 'string')
    if t.startswith('map<string,double'): return R
    if t.startswith('map<string,int'): return I
    return None
def is_fmap(t):
    """map from names to formulas"""
    t = tclean(t).replace(' ', '').replace('std::', '').replace('STLRom::', '').replace('basic_string<char>', 'string')
    return t.startswith('map<string,transducer*')
def is_str(t):
    t = tclean(t).replace('std::', '')
    return t in ('string', 'basic_string<char>')

class Eng:
    """verification of one function against its contract"""
    MAXPATHS = 4000
    def __init__(s, ix, contracts, con, fn):
        s.ix, s.C, s.con, s.fn = ix, contracts, con, fn
        s.obls, s.obl_seen = [], set()
        s.covers = []
        s.modset = {}
        s.stats = dict(paths=0, inlined=set(), contracts_used=set(), loops=set(), pruned=0, builtin=set())
        s.strs = {}
        s.loopids, s.nloops = {}, 0
        s.psolver_cache = {}
        s.ccache = {}
    # ------------------------------------------------------------------ driver
    def run(s):
        if s.con.destroy:
            def chain(cls):
                k = s.ix.classes.get(cls); d = s.ix.dtor(cls)
                if d is not None: s.collect_loops(d, ('dtor',))
                for b in (reversed(k.bases) if k else ()): chain(b.replace('class ', '').replace('struct ', '').split('::')[-1])
            chain(s.con.this_type)
        else: s.collect_loops(s.fn, ())
        if s.con.nloops is not None and s.nloops != s.con.nloops:
            raise Annot('%s: %d loops, contract is written for %d' % (s.fn.key, s.nloops, s.con.nloops))
        work = [[]]
        while work:
            pre = work.pop()
            s.stats['paths'] += 1
            if s.stats['paths'] > s.MAXPATHS: raise Unsupported('too many paths in ' + s.fn.key)
            s.prefix, s.pos, s.decisions, s.alts = pre, 0, [], []
            try:
                s.path()
            except Infeasible: s.stats['pruned'] += 1
            except PathEnd: pass
            except Restart:
                s.obls, s.obl_seen, s.covers = [], set(), []; s.did_cover = False; s.psolver_cache = {}; work = [[]]; s.stats['paths'] = 0; continue
            work.extend(reversed(s.alts))
        if s.con.covers_return and not s.reached_return: raise Annot(s.fn.key + ': no path reaches a return')
        return s.obls
    reached_return = False
    def path(s):
        s.w = World(); s.store = {}; s.pc = []; s.hyps = []; s.noid = 0; s.frames = []; s.depth = 0; s.freed = set(); s.heapnew = []; s.given = frozenset(); s.keep = []
        s.loopdepth = []; s.heads = []; s.pure = 0; s.nver = 0; s.trace = []; s.callsites = []; s.labels = []
        s.entry(s.fn)
    def collect_loops(s, fn, cp, stack=()):
        if fn.body is None or len(stack) > 12: return
        def go(n):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'):
                s.loopids[(cp, n['id'])] = s.nloops; s.nloops += 1
            if k in ('CallExpr', 'CXXMemberCallExpr'):
                f = s.static_callee(n, fn)
                if f is not None and (f.key not in s.C or s.C[f.key].owns) and f.body is not None and f.key not in stack and f.key != fn.key:
                    for x in n.get('inner', []): go(x)
                    s.collect_loops(f, cp + (n['id'],), stack + (fn.key,)); return
            for x in n.get('inner', []): go(x)
        go(fn.body)
    def static_callee(s, n, fn):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr':
            r = c.get('referencedDecl', {})
            if r.get('kind') == 'FunctionDecl': return s.ix.fn(r['name'], r['type']['qualType'])
        if c.get('kind') == 'MemberExpr':
            key = s.ix.by_id.get((fn.tu, c.get('referencedMemberDecl')))
            if isinstance(key, tuple): return s.ix.fns[key[0]].get(key[1])
        return None
    # ------------------------------------------------------------------ assumptions / obligations
    def assume(s, f):
        if f is True: return
        if isinstance(f, QF): f = f.forall()
        f = f if is_expr(f) else BoolVal(bool(f))
        if is_true(f) or is_and(f) and f.num_args() == 0: return
        s.hyps.append(f)
    def oblige(s, name, goal, extra=()):
        extra = list(extra)
        if isinstance(goal, QF): goal, more = goal.skolem(s.w); extra += more
        if not is_expr(goal): goal = BoolVal(bool(goal))
        if is_true(simplify(goal)): s.count_trivial(name); return
        cuts = [x for x in extra if isinstance(x, Cut)]
        if cuts:
            extra = [x for x in extra if not isinstance(x, Cut)]; steps = [st for c in cuts for st in c.steps]
            done = []; keep = [x for x in extra if not isinstance(x, Lem)]
            for n, f, ex, raw in steps:
                # a step may use the steps before it; a raw step uses nothing else (and the lemmas it names)
                if raw: s.obls.append(dict(name='%s / %s: %s' % (s.fn.key, name, n), hyps=done + [x.f for x in ex if isinstance(x, Lem)], goal=f, w=s.w, path=list(s.decisions), extra=[], raw=True))
                else:
                    m = len(s.hyps); s.hyps += done
                    try: s.oblige('%s: %s' % (name, n), f, keep + ex)
                    finally: del s.hyps[m:]
                done = done + [f]
            raw = not any(c.full for c in cuts)
            s.obls.append(dict(name=s.fn.key + ' / ' + name, hyps=([] if raw else list(s.hyps)) + done + [x.f for x in extra if isinstance(x, Lem)], goal=goal, w=s.w, path=list(s.decisions), extra=[] if raw else keep, raw=raw))
            return
        key = (name, goal.get_id(), len(s.hyps), tuple(h.get_id() for h in s.hyps[-6:]))
        lab = s.fn.key + ' / ' + name
        if key in s.obl_seen: return
        s.obl_seen.add(key)
        s.obls.append(dict(name=lab, hyps=list(s.hyps) + [x.f for x in extra if isinstance(x, Lem)], goal=goal, w=s.w, path=list(s.decisions), extra=[x for x in extra if not isinstance(x, Lem)]))
    def cover(s, label):
        if sum(1 for l, _ in s.covers if l == label) < 12: s.covers.append((label, dict(hyps=list(s.hyps), goal=BoolVal(False), w=s.w)))
    trivial = 0
    def count_trivial(s, name): s.trivial += 1
    def closure(s, o):
        """hypotheses plus the facts of every fresh symbol they reach"""
        if o.get('raw'): return list(o['hyps'])
        w, cache = o['w'], s.ccache
        fs = list(o['hyps']) + [o['goal']] + list(o.get('extra', ())); out = list(o['hyps']); seen = set(); todo = list(fs); have = set(h.get_id() for h in out)
        while todo:
            f = todo.pop()
            for c in consts_in(f, cache):
                if c in seen: continue
                seen.add(c)
                for g in w.deps.get(c, ()): todo.append(g)
                if c.startswith('str:'): out.append(SCODE(Const(c, Str)) == STRS.setdefault(c[4:], len(STRS)))
                for g in w.facts.get(c, ()):
                    if g.get_id() not in have:
                        have.add(g.get_id()); out.append(g); todo.append(g)
        return out
    # ------------------------------------------------------------------ branching
    def choose(s, cond, tag=''):
        if isinstance(cond, bool): return cond
        c = simplify(cond)
        if is_true(c): return True
        if is_false(c): return False
        if s.pure: raise ImpureX()
        if s.pos < len(s.prefix): d = s.prefix[s.pos]
        else:
            d = True
            s.alts.append(s.decisions + [False])
        s.pos += 1; s.decisions.append(d)
        f = cond if d else Not(cond)
        s.assume(f)
        if not s.feasible(): raise Infeasible()
        return d
    def feasible(s):
        key = tuple(s.decisions)
        if key in s.psolver_cache: return s.psolver_cache[key]
        so = SolverFor('QF_AUFLIRA') if False else Solver()
        so.set('timeout', 300)
        gr = [h for h in s.closure(dict(w=s.w, hyps=s.hyps, goal=BoolVal(True))) if not has_q(h)]
        for h in gr: so.add(h)
        ok = so.check() != unsat
        s.psolver_cache[key] = ok
        return ok
    # ------------------------------------------------------------------ objects
    def new_obj(s, typ, heap=False):
        s.noid += 1
        o = Obj('%s%d' % (typ, s.noid), typ, heap)
        return o
    def default_fields(s, o, havoc=None):
        """create the fields of a class object; havoc: base name for symbolic contents"""
        typ = o.typ
        if typ in DEQ: s.store[(o.oid, '#dq')] = s.w.new_dq(DEQ[typ], havoc) if havoc else s.w.empty_dq(DEQ[typ], o.oid)
        for f, t in s.ix.fields(typ).items():
            s.store[(o.oid, f)] = s.fresh_of(t, (havoc or o.oid) + '.' + f, havoc is not None)
    def fresh_of(s, t, base, sym=True):
        tc = tclean(t)
        if t.rstrip().endswith('*') or t.rstrip().endswith('*const'):
            return Uninit(t)
        if tc in ('double', 'float'): return s.w.fresh(base, R)
        if tc in ('int', 'long', 'short', 'unsigned int', 'unsigned long', 'size_t', 'long int', 'char', 'long long'): return s.w.fresh(base, I)
        if tc == 'bool': return s.w.fresh(base, B)
        if tc in RECS: return Rec(tc, {f: s.w.fresh(base + '.' + f, R) for f in FIELDS[tc]})
        if is_str(t): return s.w.fresh(base, Str)
        if map_kind(t) is not None:
            vs = map_kind(t)
            if sym: return MapV(s.w.fresh(base + '.has', ArraySort(Str, B)), s.w.fresh(base + '.val', ArraySort(Str, vs)), vs)
            return MapV(K(Str, BoolVal(False)), s.w.fresh(base + '.val', ArraySort(Str, vs)), vs)
        if is_fmap(t):
            m = MapP(**{f: s.w.fresh('%s.%s' % (base, f), ArraySort(Str, I if f == 'id' else B)) for f in MapP.F})
            return m if sym else m.set(has=K(Str, BoolVal(False)))
        vk = vec_kind(t)
        if vk:
            return s.vec_fresh(vk, base, sym)
        if tc in s.ix.classes or tc in DEQ:
            o = s.new_obj(tc); s.default_fields(o, base if sym else None); return o
        q = tclean(t)
        if any(k.startswith(q + '::') for k in s.ix.enums if isinstance(k, str)): return s.w.fresh(base, I)
        return Opaque(t)
    def vec_fresh(s, vk, base, sym):
        if vk == 'row':
            arr = {'len': s.w.fresh(base + '.len', ArraySort(I, I)), 'val': s.w.fresh(base + '.val', ArraySort(I, ArraySort(I, R)))}
            q = DQ('row', arr, IntVal(0), s.w.fresh(base + '.n', I) if sym else IntVal(0), base)
        else:
            q = s.w.new_dq(vk, base) if sym else s.w.empty_dq(vk, base)
            q.lo = IntVal(0) if vk == 'double' else q.lo
        if sym: s.assume(q.lo <= q.hi)
        return q
    # ------------------------------------------------------------------ load / store
    def load(s, l):
        if isinstance(l, LTmp): return l.v
        if isinstance(l, LKey):
            if l.key not in s.store: raise Unsupported('read of unknown location %s' % (l.key,))
            v = s.store[l.key]
            if isinstance(v, Loc): return s.load(v)
            if isinstance(v, Uninit): raise Unsupported('read of uninitialised %s %s' % (l.key, v.t))
            return v
        if isinstance(l, LObj): return l.obj
        if isinstance(l, LField):
            b = s.load(l.base)
            if isinstance(b, Rec): return b.f[l.f]
            raise Unsupported('field of %r' % (b,))
        if isinstance(l, LElem):
            q = s.dq(l.key)
            if q.kind == 'row': return ('row', q, l.idx)
            if q.kind in ('double', 'int'): return q.arr['val'][l.idx]
            return Rec(q.kind, {f: x for f, x in q.elem(l.idx).items() if f != 'src'}, src=l.idx)
        if isinstance(l, LMap):
            m = s.store[l.key]
            if isinstance(m, MapP): return l.k if l.which == 'first' else Ptr(s.entry_of(l.key, m, l.k), m.nul[l.k])
            return l.k if l.which == 'first' else m.val[l.k]
        raise Unsupported('load %r' % l)
    def named(s, v):
        """a value about to be stored into an array: conditional terms get a name (they cannot occur in patterns)"""
        if isinstance(v, Rec): return Rec(v.typ, {f: s.named(x) for f, x in v.f.items()}, v.src)
        if is_expr(v) and v.sort() in (R, I) and has_ite(v):
            c = s.w.fresh('v', v.sort()); s.assume(c == v); return c
        return v
    def put(s, l, v):
        if isinstance(l, (LElem, LField)): v = s.named(v)
        if isinstance(l, LKey):
            cur = s.store.get(l.key)
            if isinstance(cur, Loc): return s.put(cur, v)
            s.touch(l.key); s.store[l.key] = v; return
        if isinstance(l, LField):
            if isinstance(l.base, LElem):
                q = s.dq(l.base.key); arr = dict(q.arr); arr[l.f] = Store(arr[l.f], l.base.idx, v)
                n = DQ(q.kind, arr, q.lo, q.hi, q.name, q.ver); n.parent = q; s.setdq(l.base.key, n); return
            b = s.load(l.base)
            if isinstance(b, Rec):
                f = dict(b.f); f[l.f] = v; s.put(l.base, Rec(b.typ, f)); return
            raise Unsupported('store field')
        if isinstance(l, LElem):
            q = s.dq(l.key); arr = dict(q.arr)
            if isinstance(v, Rec):
                for f in arr: arr[f] = Store(arr[f], l.idx, v.f[f] if f in v.f else s.ghost(v, f))
            else: arr['val'] = Store(arr['val'], l.idx, v)
            n = DQ(q.kind, arr, q.lo, q.hi, q.name, q.ver); n.parent = q; s.setdq(l.key, n); return
        if isinstance(l, LMap):
            m = s.store[l.key]; s.touch(l.key)
            if isinstance(m, MapP): s.store[l.key] = s.hold(l.key, m, l.k, v); return
            s.store[l.key] = MapV(m.has, Store(m.val, l.k, v), m.vs); return
        if isinstance(l, LObj): return s.copy_obj(v, l.obj)
        raise Unsupported('store to %r' % l)
    # ------------------------------------------------------------------ maps that hold formulas
    def entry_of(s, key, m, k):
        """the formula held under a name"""
        c = ('entry', key, k.get_id(), m.id.get_id()); o = s.store.get(c)
        if o is None:
            o = s.new_obj('transducer'); s.default_fields(o, 'held'); s.link_shallow(o); o.held = (key, k); s.store[c] = o; s.keep.append((k, m.id))
            s.store[(o.oid, '#id')], s.store[(o.oid, '#expr')] = m.id[k], m.expr[k]
        return o
    def hold(s, key, m, k, v):
        """m[k] = v"""
        if not isinstance(v, Ptr): raise Unsupported('formula stored: %r' % (v,))
        o = v.obj; me = o is not None and getattr(o, 'held', None)
        if me and me[0] == key and me[1].eq(k): return m
        s.oblige('nothing owned is overwritten', Not(m.owned(k)))
        if o is None: return m.set(has=Store(m.has, k, BoolVal(True)), nul=Store(m.nul, k, BoolVal(True)))
        if not getattr(o, 'abstract', False): raise Unsupported('formula of a known class stored')
        s.oblige('one owner', Or(v.null, BoolVal(not me and any(x is o for x in s.heapnew) and o.oid not in s.given)))
        s.given = s.given | {o.oid}
        return m.set(has=Store(m.has, k, BoolVal(True)), nul=Store(m.nul, k, v.null), id=Store(m.id, k, s.store[(o.oid, '#id')]), expr=Store(m.expr, k, s.store[(o.oid, '#expr')]), live=Store(m.live, k, BoolVal(o.oid not in s.freed)))
    def none_owned(s, m):
        k = Const('k_', Str); return ForAll([k], Not(m.owned(k)))
    def take(s, l, src, moved):
        """map = other map"""
        m, o = s.load(l), s.load(src); k = Const('k_', Str)
        s.oblige('nothing owned is overwritten', s.none_owned(m))
        if not moved: s.oblige('one owner', s.none_owned(o))
        else: s.put(src, o.set(has=K(Str, BoolVal(False))))         # a map that was moved from is empty
        s.put(l, o)
    def cursor(s, key, seen):
        """the next position of a walk"""
        m = s.store[key]; k = Const('k_', Str); x = s.w.fresh('key', Str); e = s.w.fresh('at_end', B)
        s.assume(Implies(e, ForAll([k], Implies(m.has[k], seen[k]), patterns=[m.has[k]]))); s.assume(Implies(Not(e), And(m.has[x], Not(seen[x]))))
        return MapIt(key, x, e, True)
    def touch(s, key): pass
    def dq(s, key):
        v = s.store[key]
        if isinstance(v, Loc): v = s.load(v)
        if not isinstance(v, DQ): raise Unsupported('not a container: %s' % (key,))
        return v
    def setdq(s, key, q):
        s.touch(key); s.store[key] = q
    def mutate(s, key, arr, lo, hi, struct=None):
        q = s.dq(key); s.nver += 1
        n = DQ(q.kind, arr, lo, hi, q.name, s.nver); n.parent = q
        s.setdq(key, n)
        return n
    def copy_obj(s, src, dst):
        """memberwise copy of a class object"""
        if isinstance(src, (LObj, Ptr)): src = src.obj
        if not isinstance(src, Obj): raise Unsupported('copy of %r' % (src,))
        for (o, f), v in list(s.store.items()):
            if o == src.oid:
                if isinstance(v, Obj):
                    d = s.store.get((dst.oid, f))
                    if not isinstance(d, Obj): d = s.new_obj(v.typ); s.store[(dst.oid, f)] = d
                    s.copy_obj(v, d)
                else: s.store[(dst.oid, f)] = v
    def obj_of(s, v):
        if isinstance(v, LObj): return v.obj
        if isinstance(v, Loc): return s.obj_of(s.load(v))
        if isinstance(v, Ptr): return v.obj
        if isinstance(v, Obj): return v
        raise Unsupported('object expected, got %r' % (v,))
    def check_live(s, o):
        if o.oid in s.freed: s.oblige('no use after delete', False)
        h = getattr(o, 'held', None)
        if h: s.oblige('no use after delete', s.store[h[0]].live[h[1]])

class ImpureX(Exception): pass
def has_q(f):
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if is_quantifier(t): return True
        st.extend(t.children())
    return False

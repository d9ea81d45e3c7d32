"""Statement and expression semantics (the C++ subset used by the code under contract)."""
from engine import *
from view import *

class Frame:
    def __init__(s, fid, fn, this, cp): s.fid, s.fn, s.this, s.cp, s.vars, s.names = fid, fn, this, cp, {}, {}

TRANSPARENT = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
               'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'SubstNonTypeTemplateParmExpr')
def qt(n): return n.get('type', {}).get('desugaredQualType') or n.get('type', {}).get('qualType', '')
def qts(n): return n.get('type', {}).get('qualType', '')
def is_stream(n):
    t = qts(n) + qt(n)
    return 'ostream' in t or 'basic_ios' in t or 'fstream' in t or 'istringstream' in t
def inner(n): return [x for x in n.get('inner', []) if isinstance(x, dict)]

class Exec(Eng):
    # ------------------------------------------------------------ frames
    def push_frame(s, fn, this, cp):
        s.nfr = getattr(s, 'nfr', 0) + 1
        f = Frame('f%d' % len(s.frames), fn, this, cp)
        s.fcount = getattr(s, 'fcount', 0)
        f.fid = 'f%d' % s.w.c; s.w.c += 1
        s.frames.append(f); return f
    @property
    def fr(s): return s.frames[-1]
    def declare(s, n, v):
        key = (s.fr.fid, n['id']); s.fr.vars[n['id']] = key; s.fr.names[n.get('name', '')] = key
        s.store[key] = v
        return key
    # ------------------------------------------------------------ entry point
    def entry(s, fn):
        con = s.con
        this = s.entry_this = None
        if fn.cls and not fn.static:
            this = s.new_obj(con.this_type or fn.cls); s.entry_this = this
            if con.ctor: s.default_fields(this)
            else: s.default_fields(this, 'this'); s.link(this, con, 'this')
        s.push_frame(fn, this, ())
        s.entry_objs = {'this': this} if this else {}
        for i, p in enumerate(fn.params):
            t = qts(p); tc = tclean(t); nm = con.params[i] if i < len(con.params) else p.get('name', 'p%d' % i)
            v = s.param_value(nm, t, con)
            key = s.declare(p, v); s.fr.names[nm] = key
        s.old = dict(s.store); s.old_names = dict(s.fr.names); s.old_this = this
        c = Ctx(s, s.old, s.old, s.fr)
        for nm, f, *_ in con.get_pre(c): s.assume(f)
        for path, f in con.get_pw_pre(c):
            q = (path if isinstance(path, SigV) else c.old.sig(path)).q
            s.w.add_pw(q, f)
        if not s.prefix and not getattr(s, 'did_cover', False):
            s.did_cover = True
            s.cover('precondition')
        s.newdq0 = None
        try:
            if fn.node.get('kind') == 'CXXConstructorDecl': s.run_ctor_inits(fn, this)
            if fn.body is None: raise Unsupported('no body: ' + fn.key)
            if con.destroy: s.destroy(this)
            else: s.stmt(fn.body)
            res = None
        except ReturnX as r: res = r.v
        except ThrowX as t: s.finish(None, t); return
        s.finish(res, None)
    def pw_oblige(s, label, c, path, f, ex):
        th = s.w.fresh('theta', R); at = [c.sig_of(path).at(th)]; a = (th,)
        if isinstance(f, Two): p, goal = f.goal(s.w, th); a = (th, p)
        try: h = ex[0](*a) if ex else []
        except Annot: h = []
        s.oblige(label, goal() if isinstance(f, Two) else f(th), at + h)
    def finish(s, res, thrown):
        def hints(f=None, th=()):
            try: return f(*th) if f else []
            except Annot: return []        # a hint only helps the solver; it may name a local that is not in scope on this path
        con = s.con; s.reached_return = True
        s.cover('a return' if thrown is None else 'a throw')
        c = Ctx(s, s.old, s.store, s.frames[0]); c.res = res; c.thrown = thrown
        if thrown is not None:
            if con.throws is None: s.oblige('does not throw (%s)' % thrown.t, False)
            else:
                for nm, f in con.throws(c): s.oblige('when it throws: ' + nm, f)
        else:
            if con.nothrow_when is not None:
                for nm, f in con.nothrow_when(c): s.oblige('when it returns: ' + nm, f)
            s.labels = []
            for nm, f, *ex in con.get_post(c): s.oblige('ensures ' + nm, f, hints(*ex))
            for path, nm, f, *ex in con.get_pw_post(c): s.pw_oblige('ensures (every time) ' + nm, c, path, f, ex)
        if not con.destroy: s.frame_check(c)
        if con.check_leak:
            live = {}
            def reach(v, who):
                if isinstance(v, Ptr) and v.obj is not None:
                    if v.obj.oid in s.freed: s.oblige('no pointer to freed memory is kept', v.null)
                    if con.owns and v.obj.oid in live: s.oblige('one owner', v.null)
                    reach(v.obj, who)
                if isinstance(v, Obj) and v.oid not in live:
                    live[v.oid] = v
                    for kk, x in list(s.store.items()):
                        if kk[0] != v.oid: continue
                        reach(x, v)
                        if con.owns and isinstance(x, MapP): k = Const('k_', Str); s.oblige('no pointer to freed memory is kept', ForAll([k], Implies(And(x.has[k], Not(x.nul[k])), x.live[k])))
            reach(res, None)
            for o in s.entry_objs.values():
                if isinstance(o, Ptr): o = o.obj
                if isinstance(o, Obj) and not (con.destroy and o is s.entry_this): reach(o, None)
            for o in s.heapnew:
                if o.oid not in s.freed and o.oid not in live and o.oid not in s.given: s.oblige('no memory leak', False)
            if con.owns:
                for kk, x in list(s.old.items()):
                    o, f = kk[0], kk[-1]
                    if con.destroy and isinstance(x, MapP) and o == s.entry_this.oid: s.oblige('nothing owned before is lost (%s)' % f, s.none_owned(s.store[kk]))
                    if f not in con.borrows and isinstance(x, Ptr) and x.obj is not None and x.obj.oid not in s.freed and x.obj.oid not in live: s.oblige('nothing owned before is lost (%s)' % f, x.null)
    def frame_check(s, c):
        """everything reachable from the arguments that `modifies` does not name is unchanged"""
        con = s.con; mods = con.modifies
        allowed = set()
        def objs(path):
            v = c.old.get(path)
            return v
        for m in mods:
            if m == '*': return
            if m.startswith('g:'): allowed.add(('g', m[2:])); continue
            base, _, fld = m.partition('|')
            v = c.old.get(base)
            if isinstance(v, Obj): 
                for (o, f) in list(s.store):
                    if o == v.oid and (not fld or f in fld.split(',')): allowed.add((o, f)); 
                for (o, f), x in list(s.old.items()):
                    if o == v.oid and isinstance(x, Obj) and (not fld or f in fld.split(',')):
                        for (o2, f2) in list(s.store):
                            if o2 == x.oid: allowed.add((o2, f2))
            else:
                k = c.key_of(base)
                if k: allowed.add(k)
        pk = set(s.fr.vars.values()) if s.frames else set()
        for key, v in s.old.items():
            if key in allowed: continue
            if key in pk and not isinstance(v, (Loc,)):
                # by-value parameter: private to the callee; by-reference ones were bound to a location
                p = [x for x in s.fn.params if s.frames[0].vars.get(x['id']) == key]
                if p and '&' not in qts(p[0]): continue
            nv = s.store.get(key)
            if nv is v: continue
            s.same(key, v, nv)
    def same(s, key, a, b):
        nm = 'modifies nothing else (%s)' % (key[1] if isinstance(key[1], str) and not key[1].startswith('0x') else 'argument')
        if is_expr(a) and is_expr(b): return s.oblige(nm, a == b)
        if isinstance(a, DQ) and isinstance(b, DQ):
            if a is b: return
            k = s.w.fresh('k', I)
            g = [a.lo == b.lo, a.hi == b.hi] + [Implies(And(a.lo <= k, k < a.hi), a.arr[f][k] == b.arr[f][k]) for f in a.arr]
            return s.oblige(nm, And(g))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return
        if isinstance(a, AddrOf) and isinstance(b, AddrOf) and isinstance(a.loc, LKey) and isinstance(b.loc, LKey) and a.loc.key == b.loc.key: return
        if a is None and b is None: return
        if isinstance(a, Rec) and isinstance(b, Rec): return s.oblige(nm, And([a.f[x] == b.f[x] for x in a.f]))
        if isinstance(a, MapV) and isinstance(b, MapV): return s.oblige(nm, And(a.has == b.has, a.val == b.val))
        if isinstance(a, MapP) and isinstance(b, MapP): return s.oblige(nm, And([getattr(a, f) == getattr(b, f) for f in MapP.F]))
        if isinstance(a, It) and isinstance(b, It): return s.oblige(nm, a.idx == b.idx)
        if isinstance(a, (Uninit, Opaque)) and isinstance(b, type(a)): return
        s.oblige(nm, False)
    def link(s, o, con, base):
        fl = s.ix.fields(o.typ)
        for f in sorted(fl, key=lambda f: not f.endswith('_ptr')):
            tt = fl[f].strip()
            if not tt.endswith('*'): continue
            pc = tclean(tt)
            nul = s.w.fresh(base + '.' + f + '.null', B) if (f in con.nullable) else BoolVal(False)
            if f in ('trace_data_ptr',):
                key = ('ext', 'trace'); s.store.setdefault(key, None)
                if s.store[key] is None: s.store[key] = s.vec_fresh('row', 'trace', True)
                s.store[(o.oid, f)] = AddrOf(LKey(key)); s.store[(o.oid, f)].null = nul
            elif f == 'param_map_ptr':
                key = ('ext', 'params')
                if key not in s.store: s.store[key] = s.fresh_of('std::map<std::string, double>', 'params')
                s.store[(o.oid, f)] = AddrOf(LKey(key)); s.store[(o.oid, f)].null = nul
            elif pc in s.ix.classes:
                if not con.deep and base != 'this': continue
                ch = s.new_obj(pc); s.default_fields(ch, base + '.' + f)
                s.store[(o.oid, f)] = Ptr(ch, nul)
                s.link_shallow(ch)
    GHOSTS = (('#reset', B), ('#td0', B), ('#hz', B), ('#hs', R), ('#he', R), ('#done', B), ('#lowclear', B), ('#upclear', B), ('#setlow', B), ('#setup', B), ('#id', I), ('#expr', B))
    def link_shallow(s, o):
        """an operand of a formula is known by its contract alone: ghost fields stand for the state of the whole subformula"""
        if o.typ != 'transducer': return
        o.abstract = True
        for g, t in s.GHOSTS: s.store[(o.oid, g)] = s.w.fresh(o.typ + g, t)
        s.store[(o.oid, '#hp')] = s.fresh_of('std::map<std::string, double>', '#hp')
        s.store[(o.oid, '#trace')] = s.store[(o.oid, '#params')] = None
        s.store[(o.oid, '#hpn')] = s.w.fresh('hpn', B)
        if 'operands' in s.con.given:
            for f, k in (('trace_data_ptr', '#trace'), ('param_map_ptr', '#params')):
                if s.entry_this is not None and (s.entry_this.oid, f) in s.store: s.store[(o.oid, k)] = s.store[(s.entry_this.oid, f)]
    def param_value(s, nm, t, con):
        tc = tclean(t)
        if 'iterator' in t:
            spec = con.iters.get(nm)
            rev = 'reverse' in t
            if isinstance(spec, str):
                o = s.entry_objs.get(spec)
                key = (o.oid, '#dq')
            else:
                o = s.new_obj('Signal'); s.default_fields(o, nm + '_c'); s.entry_objs[nm + '_c'] = o
                key = (o.oid, '#dq')
            q = s.store[key]
            it = It(key, s.w.fresh(nm + '.idx', I), rev, q.ver, q)
            return it
        isptr = t.rstrip().endswith('*')
        if isptr and tc == 'double':
            q = s.w.new_dq('double', nm); q.lo = IntVal(0); key = ('ext', nm); s.store[key] = q; s.assume(q.hi >= 0)
            return ('arr', key)
        if nm == con.self_arg: return LObj(s.entry_this)
        if tc in s.ix.classes and tc not in RECS or tc in DEQ:
            o = s.new_obj(tc); s.default_fields(o, nm); s.entry_objs[nm] = o
            if con.deep: s.link(o, con, nm)
            if isptr:
                nul = s.w.fresh(nm + '.null', B) if nm in con.nullable else BoolVal(False)
                return Ptr(o, nul)
            return o if '&' not in t else LObj(o)
        return s.fresh_of(t, nm)
    # ------------------------------------------------------------ statements
    def stmt(s, n):
        k = n.get('kind')
        f = getattr(s, 'st_' + k, None)
        if f is not None: return f(n)
        if k is None: return
        s.expr_stmt(n)
    def expr_stmt(s, n):
        if is_stream(n): return
        s.ev(n, discard=True)
    def st_CompoundStmt(s, n):
        saved = dict(s.fr.names)
        for x in inner(n): s.stmt(x)
    def st_NullStmt(s, n): pass
    def st_DeclStmt(s, n):
        for x in inner(n):
            if x['kind'] == 'VarDecl': s.vardecl(x)
            elif x['kind'] == 'DecompositionDecl': s.bindings(x)
            elif x['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'): pass
            else: raise Unsupported('declaration ' + x['kind'])
    def bindings(s, x):
        """auto &[name, value] = *map_iterator"""
        i = inner(x)[0]; names = [y for y in inner(x) if y['kind'] == 'BindingDecl']
        while i['kind'] in ('CXXConstructExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'MaterializeTemporaryExpr') and len(inner(i)) == 1: i = inner(i)[0]
        v = s.lv(i); v = v.v if isinstance(v, LTmp) else v
        if not isinstance(v, MapIt) or len(names) != 2: raise Unsupported('structured binding')
        for y, nm in zip(names, ('first', 'second')): s.declare(y, s.mapped(v, nm))
    def vardecl(s, x):
        t = qts(x); ini = inner(x)
        if is_stream(x): s.declare(x, Opaque(t)); return
        if t.rstrip().endswith('&') or t.rstrip().endswith('&&'):
            l = s.lv(ini[-1]); s.declare(x, l if not isinstance(l, LTmp) else l.v); return
        if x.get('storageClass') == 'static': raise Unsupported('static local')
        d = qt(x)
        if ini and x.get('init'):
            v = s.ev(ini[-1], want=d)
            v = s.own(v, d)
        elif ini and ini[-1].get('kind', '').endswith('Expr'):
            v = s.own(s.ev(ini[-1], want=d), d)
        else:
            v = s.uninit(d)
        s.declare(x, v)
    def uninit(s, t):
        if t.rstrip().endswith('*'): return Uninit(t)
        tc = tclean(t)
        if tc in RECS: return Rec(tc, {f: s.w.fresh('u', R) for f in FIELDS[tc]})
        if tc in s.ix.classes or tc in DEQ:
            o = s.new_obj(tc); s.default_fields(o); return o
        return Uninit(t)
    def own(s, v, t):
        """value stored into a new variable of type t"""
        if isinstance(v, LObj): v = v.obj
        if isinstance(v, Obj) and not getattr(v, 'tmp', False) and not t.rstrip().endswith('*'):
            o = s.new_obj(v.typ); s.default_fields(o); s.copy_obj(v, o); return o
        if isinstance(v, Obj): v.tmp = False
        return s.coerce(v, t)
    def coerce(s, v, t):
        tc = tclean(t)
        if is_expr(v):
            if tc == 'double' and v.sort() == I: return ToReal(v)
            if tc == 'bool' and v.sort() == I: return v != 0
            if tc in ('int', 'long', 'short') and v.sort() == B: return If(v, IntVal(1), IntVal(0))
        return v
    def st_IfStmt(s, n):
        i = inner(n)
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with declaration')
        c = s.boolean(s.ev(i[0]))
        if s.choose(c): s.stmt(i[1])
        elif len(i) > 2: s.stmt(i[2])
    def st_ReturnStmt(s, n):
        i = inner(n)
        if not i: raise ReturnX(None)
        rt = s.fr.fn.type.split('(')[0]
        if rt.strip().endswith('&'): raise ReturnX(s.lv(i[0]))
        v = s.ev(i[0])
        if isinstance(v, Loc): v = s.load(v)
        raise ReturnX(s.coerce(v, rt.strip()))
    def st_BreakStmt(s, n): raise BreakX()
    def st_ContinueStmt(s, n): raise ContinueX()
    def st_WhileStmt(s, n):
        i = inner(n); s.loop(n, i[0], i[1], None)
    def st_ForStmt(s, n):
        # clang prints: init, condvar, cond, inc, body with {} for absent ones
        p = n.get('inner', [])
        ini, cv, cond, inc, body = (p + [{}]*5)[:5] if len(p) >= 5 else (p[0], {}, p[1], p[2], p[3])
        if ini.get('kind'): s.stmt(ini)
        s.loop(n, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)
    def st_CXXForRangeStmt(s, n):
        """for (x : container), as the language defines it"""
        i = [x for x in inner(n) if x.get('kind')]; d = [x for x in i[:-1] if x['kind'] == 'DeclStmt']; e = [x for x in i[:-1] if x['kind'] != 'DeclStmt']; body = i[-1]
        if len(d) != 4 or len(e) != 2: raise Unsupported('range for')
        for x in d[:3]: s.stmt(x)
        s.loop(n, e[0], dict(kind='CompoundStmt', inner=[d[3], body]), e[1])
    def st_DoStmt(s, n):
        i = inner(n)
        try: s.stmt(i[0])
        except BreakX: return
        except ContinueX: pass
        s.loop(n, i[1], i[0], None)
    def st_SwitchStmt(s, n):
        i = inner(n); v = s.ev(i[0]); body = inner(i[1]); labels = []
        flat = []
        def add(x):
            if x['kind'] == 'CaseStmt':
                j = inner(x); flat.append(('case', s.ev(j[0]))); add(j[1])
            elif x['kind'] == 'DefaultStmt': flat.append(('default', None)); add(inner(x)[0])
            else: flat.append(('s', x))
        for x in body: add(x)
        target = None
        for k, (t, c) in enumerate(flat):
            if t == 'case' and s.choose(v == c): target = k; break
        if target is None:
            d = [k for k, (t, c) in enumerate(flat) if t == 'default']
            if not d: return
            target = d[0]
        try:
            for t, x in flat[target:]:
                if t == 's': s.stmt(x)
        except BreakX: pass
    def st_CXXTryStmt(s, n):
        i = inner(n)
        try: s.stmt(i[0])
        except ThrowX: raise Unsupported('exception handler')
    # ------------------------------------------------------------ loops
    def loop(s, n, cond, body, inc):
        lid = s.loopids.get((s.fr.cp, n['id']))
        lc = s.con.loops[lid] if lid is not None and lid < len(s.con.loops) else None
        if lc is None: raise Annot('loop without invariant in ' + s.fr.fn.key)
        if lc == 'unroll': return s.unroll(n, cond, body, inc)
        nm = 'loop %d' % lid
        s.stats['loops'].add(lid)
        head = dict(s.store)
        c0 = Ctx(s, s.old, s.store, s.fr); c0.head = View(s, head, s.fr)
        for l, f, *ex in lc.inv(c0): s.oblige('%s invariant holds initially: %s' % (nm, l), f, ex[0]() if ex else [])
        for path, l, f, *ex in lc.pw(c0):
            s.pw_oblige('%s invariant holds initially (every time): %s' % (nm, l), c0, path, f, ex)
        # havoc
        ms = s.modset.setdefault(lid, set())
        for key in sorted(ms, key=lambda k: (isinstance(s.store.get(k), MapIt), str(k))):
            if key not in s.store: continue
            s.store[key] = s.havoc_val(key, s.store[key], nm)
        s.heads.append(head)
        if ms: s.drop_dead()
        c1 = Ctx(s, s.old, dict(s.store), s.fr); c1.head = View(s, head, s.fr)
        for path, l, f, *ex in lc.pw(c1):
            s.w.add_pw(c1.sig_of(path).q, f)
        for l, f, *_ in lc.inv(c1): s.assume(f)
        if lc.assume_hint: 
            for f in lc.assume_hint(c1): s.assume(f)
        at = dict(s.store)
        var0 = lc.variant(c1) if lc.variant else None
        go = s.choose(s.w.fresh('iterate', B))
        cv = s.boolean(s.ev(cond)) if cond is not None else BoolVal(True)
        taken = s.choose(cv)
        if go:
            if not taken: raise PathEnd()
            s.loopdepth.append(lid)
            nxt = True
            try: s.stmt(body)
            except ContinueX: pass
            except BreakX:
                s.loopdepth.pop(); s.heads.pop(); s.record_mods(at, ms); return
            finally:
                pass
            if inc is not None: s.expr_stmt(inc)
            s.loopdepth.pop()
            s.record_mods(at, ms)
            s.cover('once round %s' % nm)
            c2 = Ctx(s, s.old, s.store, s.fr); c2.head = View(s, head, s.fr)
            c2.iter = View(s, at, s.fr)
            for l, f, *ex in lc.inv(c2): s.oblige('%s invariant is preserved: %s' % (nm, l), f, ex[0]() if ex else [])
            for path, l, f, *ex in lc.pw(c2):
                s.pw_oblige('%s invariant is preserved (every time): %s' % (nm, l), c2, path, f, ex)
            if var0 is not None:
                v1 = lc.variant(c2)
                s.oblige('%s terminates' % nm, And(var0 >= 0, v1 < var0))
            raise PathEnd()
        if taken: raise PathEnd()
        s.heads.pop()
        return
    def drop_dead(s):
        """forget quantified hypotheses about values no variable holds any more (fewer hypotheses: sound)"""
        live = set(); cache = s.ccache
        def add(v):
            if is_expr(v): live.update(consts_in(v, cache))
            elif isinstance(v, DQ):
                for a in v.arr.values(): add(a)
                add(v.lo); add(v.hi)
            elif isinstance(v, It): add(v.idx)
            elif isinstance(v, Rec):
                for a in v.f.values(): add(a)
            elif isinstance(v, MapV): add(v.has); add(v.val)
            elif isinstance(v, MapP):
                for f in MapP.F: add(getattr(v, f))
            elif isinstance(v, MapIt):
                for a in (v.k, v.end): add(a)
            elif isinstance(v, (LKey, LTmp)): add(v.v if isinstance(v, LTmp) else None)
            elif isinstance(v, tuple):
                for a in v: add(a)
        for st in (s.store, s.old, *s.heads):
            for v in st.values(): add(v)
        s.hyps = [h for h in s.hyps if not has_q(h) or {x for x in consts_in(h, cache) if "!" in x} <= live]
    def unroll(s, n, cond, body, inc):
        for _ in range(8):
            if cond is not None and not s.choose(s.boolean(s.ev(cond))): return
            try: s.stmt(body)
            except ContinueX: pass
            except BreakX: return
            if inc is not None: s.expr_stmt(inc)
        raise Unsupported('unrolling bound')
    def record_mods(s, at, ms):
        new = False
        for key, v in s.store.items():
            if key in at and at[key] is not v and key not in ms:
                a = at[key]
                if is_expr(a) and is_expr(v) and a.eq(v): continue
                ms.add(key); new = True
        if new: raise Restart()
    def havoc_val(s, key, v, nm):
        b = 'h'
        if is_expr(v): return s.w.fresh(b, v.sort())
        if isinstance(v, DQ):
            s.nver += 1
            arr = {f: s.w.fresh(b + '.' + f, a.sort()) for f, a in v.arr.items()}
            q = DQ(v.kind, arr, s.w.fresh(b + '.lo', I) if v.kind not in ('double', 'row') else v.lo, s.w.fresh(b + '.hi', I), v.name, s.nver)
            s.assume(q.lo <= q.hi)
            return q
        if isinstance(v, It):
            q = s.dq(v.key)
            return It(v.key, s.w.fresh(b + '.idx', I), v.rev, q.ver, q)
        if isinstance(v, Rec): return Rec(v.typ, {f: s.w.fresh(b, R) for f in v.f})
        if isinstance(v, MapV): return MapV(s.w.fresh(b, v.has.sort()), s.w.fresh(b, v.val.sort()), v.vs)
        if isinstance(v, MapP): return MapP(**{f: s.w.fresh(b, getattr(v, f).sort()) for f in MapP.F})
        if isinstance(v, MapIt) and v.cur: return s.cursor(v.key, s.store[('seen', v.key)])
        if isinstance(v, (Uninit, Opaque)): return v
        raise Unsupported('loop changes %s' % (key,))
    # ------------------------------------------------------------ helpers
    def boolean(s, v):
        if isinstance(v, bool): return BoolVal(v)
        if is_expr(v):
            if v.sort() == B: return v
            return v != 0
        if isinstance(v, Ptr): return Not(v.null)
        if isinstance(v, AddrOf): return Not(getattr(v, 'null', BoolVal(False)))
        raise Unsupported('condition')
    def num(s, v):
        if isinstance(v, Loc): v = s.load(v)
        if not is_expr(v): raise Unsupported('number expected, got %r' % (v,))
        if v.sort() == B: v = If(v, IntVal(1), IntVal(0))
        return v
    def strc(s, text): return strc(text)
    def mapsize(s, m):
        n = SMAP(m.has); s.assume(n >= 0); return n
    def itn(s, it): return it.idx
    def deref(s, it):
        if not isinstance(it, It): raise Unsupported('iterator expected')
        q = s.dq(it.key)
        if it.ver != q.ver: s.oblige('iterator valid when dereferenced', False)
        s.oblige('iterator dereferenced inside the container', And(q.lo <= it.idx, it.idx < q.hi))
        return LElem(it.key, it.idx, q.kind)
    def step(s, it, d):
        return It(it.key, it.idx + (-d if it.rev else d), it.rev, it.ver, it.dq)

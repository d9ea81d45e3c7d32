from exec import *
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
def unify(a, b):
    if a.sort() == R and b.sort() == I: b = ToReal(b)
    if a.sort() == I and b.sort() == R: a = ToReal(a)
    return a, b
def int_type(n):
    """range of an integer type"""
    t = n['type']; t = t.get('desugaredQualType') or t['qualType']; t = t.replace('const ', '').strip()
    if t in ('size_t', 'std::size_t') or 'size_type' in t: t = 'unsigned long'
    u = t.startswith('unsigned '); w = {'char': 8, 'signed char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}.get(t[9:] if u else t)
    return None if w is None else (0, 2**w - 1) if u else (-2**(w-1), 2**(w-1) - 1)
class Expr(Exec):
    # ------------------------------------------------------------ rvalues
    def ev(s, n, want=None, discard=False):
        k = n.get('kind')
        f = getattr(s, 'ev_' + k, None)
        if f is None: raise Unsupported('expression ' + str(k))
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr') and is_stream(n): return Opaque('stream')
        v = f(n)
        if isinstance(v, Loc) and not discard: v = s.load(v)
        return v
    def ev_ImplicitCastExpr(s, n):
        ck = n.get('castKind'); i = inner(n)[0]
        if ck == 'LValueToRValue':
            l = s.lv(i); return s.load(l)
        if ck == 'NullToPointer': return Ptr(None)
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr': return Opaque('fn')
        if ck == 'ToVoid': s.ev(i, discard=True); return Opaque('void')
        v = s.ev(i)
        if ck in ('IntegralToFloating',): return ToReal(v) if v.sort() == I else v
        if ck == 'FloatingToIntegral': return If(v >= 0, ToInt(v), -ToInt(-v))
        if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean': return v != 0
        if ck == 'PointerToBoolean': return s.boolean(v)
        if ck == 'IntegralCast' and is_expr(v) and v.sort() == B: return If(v, IntVal(1), IntVal(0))
        if ck == 'IntegralCast' and is_expr(v) and v.sort() == I:
            a, b = int_type(n), int_type(i)
            if a and b and (a[0] > b[0] or a[1] < b[1]): s.oblige('conversion of an integer keeps its value', And(([v >= a[0]] if a[0] > b[0] else []) + ([v <= a[1]] if a[1] < b[1] else [])))
        return v
    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    def ev_pass(s, n): return s.ev(inner(n)[0])
    ev_ParenExpr = ev_ExprWithCleanups = ev_MaterializeTemporaryExpr = ev_CXXBindTemporaryExpr = ev_ConstantExpr = ev_pass
    def ev_CXXDefaultArgExpr(s, n):
        i = inner(n)
        if i: return s.ev(i[0])
        return Opaque('default')
    def ev_IntegerLiteral(s, n): return IntVal(int(n['value']))
    def ev_CharacterLiteral(s, n): return IntVal(int(n['value']))
    def ev_FloatingLiteral(s, n): 
        from fractions import Fraction
        f = Fraction(repr(float(n['value'])))            # shortest decimal: the literal as written
        return RealVal(str(f))
    def ev_CXXBoolLiteralExpr(s, n): return BoolVal(n['value'] is True or n['value'] == 'true')
    def ev_StringLiteral(s, n): return s.strc(n['value'])
    def ev_CXXNullPtrLiteralExpr(s, n): return Ptr(None)
    def ev_GNUNullExpr(s, n): return Ptr(None)
    def ev_CXXThisExpr(s, n): return Ptr(s.fr.this)
    def ev_DeclRefExpr(s, n):
        r = n['referencedDecl']
        if r['kind'] == 'EnumConstantDecl':
            e = s.ix.enums.get((s.fr.fn.tu, r['id']))
            if e is None: raise Unsupported('enum ' + r['name'])
            return IntVal(e[2])
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('fn')
        return s.load(s.lv(n))
    def ev_MemberExpr(s, n): return s.load(s.lv(n))
    def ev_ArraySubscriptExpr(s, n): return s.load(s.lv(n))
    def ev_UnaryOperator(s, n):
        op = n['opcode']; i = inner(n)[0]
        if op in ('++', '--'):
            l = s.lv(i); v = s.load(l); d = 1 if op == '++' else -1
            nv = v + d if is_expr(v) else s.step(v, d) if isinstance(v, It) else s.ptr_arith(v, d)
            s.put(l, nv)
            return v if n.get('isPostfix') else nv
        if op == '&':
            l = s.lv(i)
            v = l.obj if isinstance(l, LObj) else s.load(l) if isinstance(l, LKey) and isinstance(s.store.get(l.key), (Obj,)) else None
            if isinstance(v, Obj): return Ptr(v)
            return AddrOf(l)
        if op == '*': return s.load(s.lv(n))
        v = s.ev(i)
        if op == '-': return -v
        if op == '+': return v
        if op == '!': return Not(s.boolean(v))
        raise Unsupported('unary ' + op)
    def ptr_arith(s, v, d): raise Unsupported('pointer arithmetic')
    def ev_BinaryOperator(s, n):
        op = n['opcode']; a, b = inner(n)
        if op == '=':
            v = s.ev(b); l = s.lv(a)
            if isinstance(v, Obj) and not isinstance(l, LObj) and isinstance(s.load_quiet(l), Obj): s.copy_obj(v, s.load(l))
            else: s.put(l, s.coerce(v, qt(a)))
            return l
        if op == ',': s.ev(a, discard=True); return s.ev(b)
        if op in ('&&', '||'):
            x = s.boolean(s.ev(a))
            y = s.try_pure(lambda: s.boolean(s.ev(b)), x if op == '&&' else Not(x))
            if y is not None: return And(x, y) if op == '&&' else Or(x, y)
            if op == '&&': return s.boolean(s.ev(b)) if s.choose(x) else BoolVal(False)
            return BoolVal(True) if s.choose(x) else s.boolean(s.ev(b))
        x, y = s.ev(a), s.ev(b)
        return s.binop(op, x, y, n)
    def load_quiet(s, l):
        try: return s.load(l)
        except Unsupported: return None
    def try_pure(s, f, guard):
        """evaluate without side effects under a guard; None when the expression branches or writes"""
        st, hy, ob, wc = s.store, s.hyps, len(s.obls), s.w.c
        s.store = dict(st); s.hyps = list(hy); s.assume(guard); s.pure += 1; pos, dec = s.pos, list(s.decisions)
        snap = dict(s.store); seen = set(s.obl_seen)
        try:
            v = f()
            ok = all(s.store.get(k) is x for k, x in snap.items()) and len(s.hyps) <= len(hy) + 1 and len(s.store) == len(snap)
        except (ImpureX, ReturnX, ThrowX): ok = False
        finally: s.pure -= 1
        s.store = st; s.hyps = hy
        if not ok: s.obls = s.obls[:ob]; s.obl_seen = seen; return None
        return v
    def binop(s, op, x, y, n=None):
        if isinstance(x, (Ptr, AddrOf)) or isinstance(y, (Ptr, AddrOf)):
            if op in ('==', '!='):
                e = s.ptr_eq(x, y); return e if op == '==' else Not(e)
            raise Unsupported('pointer ' + op)
        x, y = s.num(x), s.num(y)
        if op in CMP:
            x, y = unify(x, y); return CMP[op](x, y)
        x, y = unify(x, y)
        if op == '+': return x + y
        if op == '-':
            if n is not None and x.sort() == I and (int_type(n) or (-1,))[0] == 0: s.oblige('unsigned difference does not wrap', x >= y)
            return x - y
        if op == '*':
            return fmul(x, y) if x.sort() == R else x*y
        if op == '/':
            if x.sort() == I: s.oblige('division by nonzero', y != 0); return If(And(x >= 0, y > 0), x/y, s.w.fresh('idiv', I))
            s.oblige('division by nonzero', y != 0)
            return fdiv(x, y)
        if op == '%': s.oblige('division by nonzero', y != 0); return x % y
        raise Unsupported('operator ' + op)
    def ptr_eq(s, x, y):
        nx = x.null if isinstance(x, Ptr) else getattr(x, 'null', BoolVal(False))
        ny = y.null if isinstance(y, Ptr) else getattr(y, 'null', BoolVal(False))
        ox = x.obj if isinstance(x, Ptr) else x.loc.key if isinstance(x.loc, LKey) else x.loc
        oy = y.obj if isinstance(y, Ptr) else y.loc.key if isinstance(y.loc, LKey) else y.loc
        if oy is None: return nx
        if ox is None: return ny
        return Or(And(nx, ny), And(Not(nx), Not(ny), BoolVal(ox is oy or ox == oy)))
    def ev_CompoundAssignOperator(s, n):
        a, b = inner(n); v = s.ev(b); l = s.lv(a); x = s.load(l)
        if not is_expr(x): raise Unsupported('compound assignment')
        s.put(l, s.coerce(s.binop(n['opcode'][:-1], x, v), qt(a))); return l
    def ev_ConditionalOperator(s, n):
        c, a, b = inner(n); c = s.boolean(s.ev(c))
        x = s.try_pure(lambda: s.ev(a), c)
        y = s.try_pure(lambda: s.ev(b), Not(c)) if x is not None else None
        if x is not None and y is not None and is_expr(x) and is_expr(y):
            x, y = unify(x, y) if x.sort() != y.sort() else (x, y)
            return If(c, x, y)
        return s.ev(a) if s.choose(c) else s.ev(b)
    def ev_CXXThrowExpr(s, n):
        i = inner(n)
        raise ThrowX(tclean(qts(i[0])).replace('std::', '') if i else 'rethrow')
    def ev_InitListExpr(s, n): return ('init', [s.ev(x) for x in inner(n)])
    def ev_CXXStdInitializerListExpr(s, n):
        j = inner(n)[0]
        while j['kind'] != 'InitListExpr': j = inner(j)[0]
        return ('init', [s.ev(x) for x in inner(j)])
    def ev_CXXNewExpr(s, n):
        t = tclean(qts(n)); i = [x for x in inner(n) if x['kind'] == 'CXXConstructExpr']
        if t not in s.ix.classes: raise Unsupported('new ' + t)
        o = s.new_obj(t, heap=True); s.heapnew.append(o)
        s.default_fields(o)
        if i: s.construct_into(o, i[0])
        return Ptr(o)
    def ev_CXXDeleteExpr(s, n):
        v = s.ev(inner(n)[0])
        if isinstance(v, Ptr) and v.obj is not None:
            o = v.obj; h = getattr(o, 'held', None)
            if h:
                m = s.store[h[0]]; s.oblige('no double delete', Or(v.null, m.live[h[1]]))
                if not s.ix.virtual_dtor('transducer'): s.oblige('no delete through a base class without virtual destructor', False)
                s.touch(h[0]); s.store[h[0]] = m.set(live=Store(m.live, h[1], BoolVal(False))); return Opaque('void')
            if o.oid in s.freed: s.oblige('no double delete', v.null)
            if s.choose(Not(v.null)):
                st = tclean(qts(inner(n)[0]))
                if st in s.ix.classes and (getattr(o, 'abstract', False) or st != o.typ) and not s.ix.virtual_dtor(st): s.oblige('no delete through a base class without virtual destructor', False)
                if not getattr(o, 'abstract', False) and any(s.ix.dtor(c) for c in s.ix.bases(o.typ)): s.destroy(o)
                s.freed = s.freed | {o.oid}
            return Opaque('void')
        if isinstance(v, Ptr): return Opaque('void')
        raise Unsupported('delete')
    # ------------------------------------------------------------ construction
    def ev_CXXConstructExpr(s, n):
        t = qt(n); tc = tclean(t); args = inner(n)
        if 'iterator' in t:
            if not args: return Uninit(t)
            return s.ev(args[0])
        if tc in RECS:
            if len(args) == 1 and tclean(qt(args[0])) in RECS:
                v = s.ev(args[0])
                if v.typ == tc: return v
                return Rec(tc, {f: v.f[f] for f in FIELDS[tc]})
            return s.construct_rec(tc, n, args)
        if tc in s.ix.classes:
            if len(args) == 1 and tclean(qt(args[0])) == tc:
                v = s.ev(args[0]); o = s.obj_of(v)
                if getattr(o, 'tmp', False): return o
                if not s.user_copy(tc):
                    d = s.new_obj(tc); s.default_fields(d); s.copy_obj(o, d); d.tmp = True; return d
            o = s.new_obj(tc); s.default_fields(o); o.tmp = True
            s.construct_into(o, n); return o
        if is_str(t):
            if not args: return s.strc('""')
            return s.ev(args[0])
        if map_kind(t) is not None or vec_kind(t):
            if not args or args[0]['kind'] == 'CXXDefaultArgExpr': 
                return s.fresh_of(t, 'c', False)
            v = s.ev(args[0])
            if isinstance(v, tuple) and v[0] == 'init':
                q = s.w.empty_dq('double', 'il'); arr = q.arr['val']
                for j, x in enumerate(v[1]): arr = Store(arr, j, rv(x))
                return DQ('double', {'val': arr}, IntVal(0), IntVal(len(v[1])), 'il')
            return v
        if len(args) == 1: return s.ev(args[0])
        return Opaque(t)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def user_copy(s, tc):
        for f in s.ix.overloads(tc + '::' + tc.split('::')[-1]):
            if len(f.params) == 1 and tclean(qts(f.params[0])) == tc and f.body is not None and not f.defaulted: return True
        return False
    def ctor_of(s, tc, n):
        ct = n.get('ctorType', {}).get('qualType', '')
        key = tc + '::' + tc.split('::')[-1]
        for f in s.ix.overloads(key):
            if norm(f.type.replace(' noexcept', '')) == norm(ct.replace(' noexcept', '')): return f
        return None
    def construct_rec(s, tc, n, args):
        vals = [s.ev(a) for a in args]
        f = s.ctor_of(tc, n)
        if f is None or f.body is None: raise Unsupported('constructor of ' + tc)
        o = s.new_obj(tc); 
        for x in FIELDS[tc]: s.store[(o.oid, x)] = s.w.fresh('u', R)
        s.invoke_ctor(f, o, vals)
        r = Rec(tc, {x: rv(s.store[(o.oid, x)]) for x in FIELDS[tc]})
        for x in FIELDS[tc]: del s.store[(o.oid, x)]
        return r
    def construct_into(s, o, n):
        args = inner(n); f = s.ctor_of(o.typ, n)
        if f is None or f.body is None or f.defaulted and len(args) == 1 and tclean(qt(args[0])) == o.typ:
            if len(args) == 1 and tclean(qt(args[0])) == o.typ: s.copy_obj(s.obj_of(s.ev(args[0])), o); return
            if not args:
                s.init_defaults(o); return
            raise Unsupported('constructor of ' + o.typ)
        key = f.key + '|' + norm(f.type)
        vals = [s.lv_arg(a, p) for a, p in zip(args, f.params)]
        con = s.C.get(key) or (s.C.get(f.key) if len([g for g in s.ix.overloads(f.key) if g.body is not None and not g.defaulted]) == 1 else None)
        if con is not None and not con.owns: s.apply_contract(con, f, o, vals); return
        s.invoke_ctor(f, o, vals)
    def init_defaults(s, o):
        for c in s.ix.bases(o.typ):
            cl = s.ix.classes.get(c)
            if not cl: continue
            for f, (e, tu) in cl.finit.items(): s.store[(o.oid, f)] = s.ev(e)
    def invoke_ctor(s, f, o, vals):
        fr = s.push_frame(f, o, s.fr.cp + ('ctor',))
        for p, v in zip(f.params, vals): s.declare(p, v)
        s.run_ctor_inits(f, o)
        try: s.stmt(f.body)
        except ReturnX: pass
        s.frames.pop()
    def run_ctor_inits(s, f, o):
        """base and member initialisers.  Virtual bases are initialised by the constructor of the object's own class alone; while the
        constructor of a base runs, the object is one of that base (virtual calls go to the base's own functions)"""
        vb = s.ix.vbases(f.cls); full = o.typ
        for ci in f.inits:
            m = ci.get('anyInit'); e = inner(ci)
            if m is not None:
                t = m['type'].get('desugaredQualType', m['type']['qualType'])
                if not e: continue
                if is_fmap(t):
                    if e[0]['kind'] == 'CXXConstructExpr' and not inner(e[0]): continue
                    s.take(LKey((o.oid, m['name'])), *s.map_source(e[0])); continue
                v = s.ev(e[0])
                cur = s.store.get((o.oid, m['name']))
                if isinstance(cur, Obj): s.copy_obj(s.obj_of(v), cur)
                else:
                    if isinstance(v, Uninit): continue
                    s.store[(o.oid, m['name'])] = s.coerce(v, t)
            elif 'baseInit' in ci:
                bt = tclean(ci['baseInit'].get('desugaredQualType', ci['baseInit']['qualType']))
                if bt in vb and f.cls != full: continue
                if bt in s.ix.classes and e:
                    x = e[0]
                    while x['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): x = inner(x)[0]
                    g = s.ctor_of(bt, x)
                    if g is not None and g.body is not None:
                        vals = [s.lv_arg(a, p) for a, p in zip(inner(x), g.params)]; o.typ = bt
                        s.invoke_ctor(g, o, vals); o.typ = full
    def destroy(s, o):
        """the destructors of the object's class and of its bases, in order; virtual bases last and once"""
        full = o.typ; vb = s.ix.vbases(full)
        def run(cls):
            k = s.ix.classes.get(cls)
            if k is None: return
            d = s.ix.dtor(cls); o.typ = cls
            if d is not None:
                fr = s.push_frame(d, o, s.fr.cp + ('dtor',))
                try: s.stmt(d.body)
                except ReturnX: pass
                s.frames.pop()
            for b in reversed(k.bases):
                b = cname(b)
                if b not in k.virt: run(b)
        run(full)
        for b in reversed(vb): run(b)
        o.typ = full
    # ------------------------------------------------------------ lvalues
    def lv(s, n):
        k = n['kind']
        f = getattr(s, 'lv_' + k, None)
        if f is not None: return f(n)
        v = s.ev_raw(n)
        if isinstance(v, Loc): return v
        if isinstance(v, Obj): return LObj(v)
        return LTmp(v)
    def ev_raw(s, n):
        f = getattr(s, 'ev_' + n['kind'], None)
        if f is None: raise Unsupported('expression ' + n['kind'])
        return f(n)
    def lv_pass(s, n): return s.lv(inner(n)[0])
    lv_ParenExpr = lv_ExprWithCleanups = lv_MaterializeTemporaryExpr = lv_CXXBindTemporaryExpr = lv_pass
    def lv_ImplicitCastExpr(s, n):
        if n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'LValueBitCast'): return s.lv(inner(n)[0])
        return LTmp(s.ev(n))
    lv_CXXStaticCastExpr = lv_CStyleCastExpr = lv_CXXFunctionalCastExpr = lv_ImplicitCastExpr
    def lv_DeclRefExpr(s, n):
        r = n['referencedDecl']
        if r['kind'] == 'EnumConstantDecl': return LTmp(s.ev_DeclRefExpr(n))
        for fr in (s.fr,):
            if r['id'] in fr.vars:
                key = fr.vars[r['id']]; v = s.store[key]
                if isinstance(v, Loc): return v
                if isinstance(v, Obj): return LObj(v)
                return LKey(key)
        g = s.ix.by_id.get((s.fr.fn.tu, r['id']))
        if isinstance(g, str): return s.lglobal(g)
        if r.get('name') in ('cout', 'cerr', 'endl', 'clog'): return LTmp(Opaque('stream'))
        raise Unsupported('variable ' + r.get('name', '?'))
    def lglobal(s, g):
        key = ('g', g)
        if key not in s.store:
            s.store[key] = s.fresh_of(s.ix.gvars[g], g.replace('::', '.'))
            s.old.setdefault(key, s.store[key]) if hasattr(s, 'old') else None
        return LKey(key)
    def lv_MemberExpr(s, n):
        i = inner(n)[0]; nm = n['name']
        rid = s.ix.by_id.get((s.fr.fn.tu, n.get('referencedMemberDecl')))
        if isinstance(rid, str) and rid in s.ix.gvars: return s.lglobal(rid)
        if n.get('isArrow'):
            v = s.ev(i)
            if isinstance(v, AddrOf):
                return s.field(v.loc, nm)
            if isinstance(v, MapIt): return s.mapped(v, nm)
            if isinstance(v, Ptr):
                if v.obj is None: s.oblige('pointer not null', False); raise PathEnd()
                if not is_false(v.null): s.oblige('pointer not null', Not(v.null))
                s.check_live(v.obj)
                return s.field(LObj(v.obj), nm)
            raise Unsupported('-> on %r' % (v,))
        return s.field(s.lv(i), nm)
    def field(s, l, nm):
        if isinstance(l, LObj):
            key = (l.obj.oid, nm)
            if key not in s.store: raise Unsupported('field %s of %s' % (nm, l.obj.typ))
            v = s.store[key]
            if isinstance(v, Obj): return LObj(v)
            return LKey(key)
        v = s.load(l) if not isinstance(l, LElem) else None
        if isinstance(v, Obj): return s.field(LObj(v), nm)
        if isinstance(v, Rec) and isinstance(l, LTmp): return LTmp(v.f[nm])
        if isinstance(v, MapIt): return s.mapped(v, nm)
        return LField(l, nm)
    def lv_ArraySubscriptExpr(s, n):
        a, b = inner(n); v = s.ev(a); i = s.ev(b)
        if isinstance(v, tuple) and v[0] == 'arr':
            q = s.dq(v[1]); s.oblige('array index in bounds', And(q.lo <= i, i < q.hi))
            return LElem(v[1], i, 'double')
        raise Unsupported('subscript')
    def lv_UnaryOperator(s, n):
        op = n['opcode']; i = inner(n)[0]
        if op == '*':
            v = s.ev(i)
            if isinstance(v, Ptr):
                if v.obj is None: s.oblige('pointer not null', False); raise PathEnd()
                if not is_false(v.null): s.oblige('pointer not null', Not(v.null))
                s.check_live(v.obj); return LObj(v.obj)
            if isinstance(v, AddrOf): return v.loc
            raise Unsupported('deref')
        if op in ('++', '--') and not n.get('isPostfix'):
            l = s.lv(i); s.ev_UnaryOperator(n); return l
        return LTmp(s.ev(n))
    def lv_ConditionalOperator(s, n):
        c, a, b = inner(n)
        t = tclean(qt(n))
        if t in ('double', 'int', 'bool', 'long'): return LTmp(s.ev_ConditionalOperator(n))
        return s.lv(a) if s.choose(s.boolean(s.ev(c))) else s.lv(b)
    # ------------------------------------------------------------ operators on class types
    def opname(s, n):
        c = inner(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = inner(c)[0]
        return c.get('referencedDecl', {}).get('name', '').replace('operator', '', 1), c.get('referencedDecl', {})
    def ev_CXXOperatorCallExpr(s, n):
        op, rd = s.opname(n); a = inner(n)[1:]
        if op in ('*', '->') and len(a) == 1:
            it = s.ev(a[0])
            if isinstance(it, MapIt): return it if op == '->' else LTmp(it)
            l = s.deref(it)
            return AddrOf(l) if op == '->' else l
        if op in ('++', '--'):
            l = s.lv(a[0]); v = s.load(l)
            if isinstance(v, MapIt) and v.cur and op == '++':
                q = ('seen', v.key); s.store[q] = Store(s.store[q], v.k, BoolVal(True)); s.put(l, s.cursor(v.key, s.store[q])); return v if len(a) == 2 else l
            if not isinstance(v, It): raise Unsupported('++ on %r' % (v,))
            nv = s.step(v, 1 if op == '++' else -1); s.put(l, nv)
            return v if len(a) == 2 else l
        if op in ('==', '!='):
            x, y = s.ev(a[0]), s.ev(a[1])
            if isinstance(x, It) and isinstance(y, It):
                if x.key != y.key: s.oblige('compared iterators belong to one container', False); e = s.w.fresh('cmp', B)
                else: e = x.idx == y.idx
            elif isinstance(x, MapIt): e = s.mapit_eq(x, y)
            elif is_expr(x) and is_expr(y): e = x == y
            else: raise Unsupported('comparison of %r' % (x,))
            return e if op == '==' else Not(e)
        if op in ('<', '>', '<=', '>=') :
            x, y = s.ev(a[0]), s.ev(a[1])
            if isinstance(x, It): return CMP[op](y.idx, x.idx) if x.rev else CMP[op](x.idx, y.idx)
        if op in ('+', '-'):
            x, y = s.ev(a[0]), s.ev(a[1])
            if isinstance(x, It) and is_expr(y):
                d = y if op == '+' else -y
                return It(x.key, x.idx + (-d if x.rev else d), x.rev, x.ver, x.dq)
            if isinstance(x, It) and isinstance(y, It): return (y.idx - x.idx) if x.rev else (x.idx - y.idx)
            if op == '+' and is_expr(x) and is_expr(y) and (x.sort() == Str or y.sort() == Str): return s.w.fresh('strcat', Str)
        if op in ('+=', '-='):
            l = s.lv(a[0]); x = s.load(l)
            if isinstance(x, It):
                y = s.ev(a[1]); d = y if op == '+=' else -y
                s.put(l, It(x.key, x.idx + (-d if x.rev else d), x.rev, x.ver, x.dq)); return l
            if is_expr(x) and x.sort() == Str: s.put(l, s.w.fresh('str', Str)); return l
        if op == '[]':
            l = s.lv(a[0]); i = s.ev(a[1]); return s.index(l, i, False)
        if op == '=':
            if is_fmap(qt(a[0])): l = s.lv(a[0]); s.take(l, *s.map_source(a[1])); return l
            v = s.ev(a[1]); l = s.lv(a[0])
            if isinstance(l, LObj) or (isinstance(l, LKey) and isinstance(s.store.get(l.key), Obj)):
                o = l.obj if isinstance(l, LObj) else s.store[l.key]
                f = s.user_assign(o.typ, rd)
                if f is not None: return s.call_fn(f, o, [LObj(s.obj_of(v))], n)
                src = s.obj_of(v)
                if src is not o: s.clear_obj(o); s.copy_obj(src, o)
                return LObj(o)
            s.put(l, v); return l
        raise Unsupported('operator' + op + ' on ' + qts(a[0]))
    def map_source(s, n):
        """(the map assigned from, whether it is moved)"""
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') or n['kind'] == 'CXXConstructExpr' and len(inner(n)) == 1: n = inner(n)[0]
        moved = False
        if n['kind'] == 'CallExpr':
            c = inner(n)[0]
            while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = inner(c)[0]
            if c.get('referencedDecl', {}).get('name') == 'move': moved = True; n = inner(n)[1]
        l = s.lv(n)
        if isinstance(l, LTmp) or not isinstance(s.load(l), MapP): raise Unsupported('map assigned')
        while isinstance(l, LKey) and isinstance(s.store[l.key], LKey): l = s.store[l.key]
        return l, moved
    def clear_obj(s, o): pass
    def user_assign(s, typ, rd):
        L = [f for f in s.ix.overloads(typ + '::operator=') if f.body is not None and not f.defaulted]
        for f in L:
            if norm(f.type) == norm(rd.get('type', {}).get('qualType', '')): return f
        return None
    def index(s, l, i, checked):
        if isinstance(l, LTmp) and isinstance(l.v, tuple) and l.v[0] == 'row':
            _, q, r = l.v
            return s.rowidx(q, r, i)
        v = s.load(l)
        if isinstance(v, tuple) and v[0] == 'row': return s.rowidx(v[1], v[2], i)
        if isinstance(v, MapV):
            key = l.key; z = RealVal(0) if v.vs == R else IntVal(0); x = s.w.fresh('mapped', v.vs)
            s.assume(x == If(v.has[i], v.val[i], z))
            s.put(LKey(key), MapV(Store(v.has, i, BoolVal(True)), Store(v.val, i, x), v.vs))
            return LMap(key, i, 'second')
        if isinstance(v, MapP):
            s.put(LKey(l.key), v.set(has=Store(v.has, i, BoolVal(True)), nul=Store(v.nul, i, Or(Not(v.has[i]), v.nul[i])))); return LMap(l.key, i, 'second')
        if isinstance(v, DQ) or isinstance(v, Obj):
            key = l.key if isinstance(l, LKey) else (v.oid, '#dq')
            q = s.dq(key)
            s.oblige('index in bounds', And(0 <= i, i < q.hi - q.lo))
            return LElem(key, q.lo + i, q.kind)
        raise Unsupported('index into %r' % (v,))
    def rowidx(s, q, r, i):
        s.oblige('column index in bounds', And(0 <= i, i < q.arr['len'][r]))
        return LTmp(q.arr['val'][r][i])
    def mapped(s, it, nm):
        m = s.store[it.key]; s.oblige('map iterator not at the end', Not(it.end) if it.cur else BoolVal(False) if it.end else m.has[it.k])
        return LMap(it.key, it.k, nm)
    def mapit_eq(s, x, y):
        m = s.store[x.key]
        if x.cur and y.end is True: return x.end
        if y.cur and x.end is True: return y.end
        if x.cur or y.cur: raise Unsupported('map iterator comparison')
        if x.end and y.end: return BoolVal(True)
        if y.end: return Not(m.has[x.k]) if not x.end else BoolVal(True)
        if x.end: return Not(m.has[y.k])
        raise Unsupported('map iterator comparison')
    # ------------------------------------------------------------ calls
    def ev_CallExpr(s, n):
        c = inner(n)[0]; args = inner(n)[1:]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = inner(c)[0]
        if c['kind'] == 'MemberExpr': return s.member_call(n, c, args)
        if c['kind'] != 'DeclRefExpr': raise Unsupported('call through ' + c['kind'])
        r = c['referencedDecl']; nm = r['name']
        key = s.ix.by_id.get((s.fr.fn.tu, r['id']))
        f = s.ix.fns[key[0]].get(key[1]) if isinstance(key, tuple) else None
        if f is None: f = s.ix.fn(nm, r['type']['qualType'])
        if f is not None:
            return s.call_fn(f, None, [s.lv_arg(a, p) for a, p in zip(args, f.params)], n)
        return s.builtin(nm, args, n)
    def builtin(s, nm, args, n):
        s.stats['builtin'].add(nm)
        if nm in ('min', 'max', 'fmin', 'fmax'):
            x, y = [s.num(s.ev(a)) for a in args]; x, y = unify(x, y)
            return If(y < x, y, x) if nm in ('min', 'fmin') else If(x < y, y, x)
        if nm in ('fabs', 'abs'):
            x = s.num(s.ev(args[0])); return If(x >= 0, x, -x)
        if nm in ('move', 'forward'): return s.lv(args[0])
        if nm in ('next', 'prev'):
            it = s.ev(args[0]); d = 1 if nm == 'next' else -1
            if not isinstance(it, It): raise Unsupported('std::' + nm)
            return s.step(it, d)
        if nm == 'infinity': return INF
        if nm in ('printf',): return Opaque('io')
        if nm == 'make_pair': raise Unsupported('make_pair')
        if nm == 'distance':
            a, b = s.ev(args[0]), s.ev(args[1]); return (a.idx - b.idx) if a.rev else (b.idx - a.idx)
        raise Unsupported('call to ' + nm)
    def ev_CXXMemberCallExpr(s, n):
        c = inner(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = inner(c)[0]
        return s.member_call(n, c, inner(n)[1:])
    def member_call(s, n, c, args):
        nm = c['name']; b = inner(c)[0]
        key = s.ix.by_id.get((s.fr.fn.tu, c.get('referencedMemberDecl')))
        if isinstance(key, tuple):
            f = s.ix.fns[key[0]].get(key[1]) or s.ix.fn(key[0])
            if c.get('isArrow'): 
                p = s.ev(b)
                if isinstance(p, Ptr):
                    if p.obj is None: s.oblige('pointer not null', False); raise PathEnd()
                    if not is_false(p.null): s.oblige('pointer not null', Not(p.null))
                    s.check_live(p.obj)
                    this = p.obj
                elif isinstance(p, Obj): s.check_live(p); this = p
                elif isinstance(p, AddrOf): this = s.rec_this(p.loc)
                else: raise Unsupported('call on %r' % (p,))
            else: 
                l = s.lv(b)
                this = s.rec_this(l) 
            if isinstance(this, Obj) and f.virtual and this.typ != f.cls and not s.qualified(c, b):
                g = s.ix.method(this.typ, f.name, f.type)
                if g is not None: f = g
            return s.call_fn(f, this, [s.lv_arg(a, p) for a, p in zip(args, f.params)], n)
        # container member
        if c.get('isArrow'):
            p = s.ev(b)
            if isinstance(p, AddrOf):
                nul = getattr(p, 'null', None)
                if nul is not None and not is_false(nul): s.oblige('pointer not null', Not(nul))
                l = p.loc
            elif isinstance(p, Ptr):
                if p.obj is None or not is_false(p.null): s.oblige('pointer not null', Not(p.null))
                s.check_live(p.obj); l = LObj(p.obj)
            else: raise Unsupported('-> call')
        else: l = s.lv(b)
        return s.container_call(nm, l, args, n)
    def qualified(s, c, b):
        """Base::f() on the object itself: the member's name does not come first"""
        while b['kind'] in ('ImplicitCastExpr', 'ParenExpr'): b = inner(b)[0]
        r = c.get('range', {}); off = lambda x: (x.get('expansionLoc') or x).get('offset')
        return b['kind'] == 'CXXThisExpr' and bool(b.get('implicit')) and off(r.get('begin', {})) != off(r.get('end', {}))
    def rec_this(s, l):
        if isinstance(l, LObj): return l.obj
        v = s.load(l)
        if isinstance(v, Obj): return v
        if isinstance(v, Rec): return v
        return v
    def container_call(s, nm, l, args, n):
        s.stats['builtin'].add('container::' + nm)
        v = s.load(l)
        if isinstance(v, Opaque): return Opaque('io')
        if is_expr(v) and v.sort() == Str:
            if nm == 'empty': return v == s.strc('""')
            if nm in ('append', 'clear'): s.put(l, s.w.fresh('str', Str)); return l
            raise Unsupported('string::' + nm)
        if isinstance(v, (MapV, MapP)): return s.map_call(nm, l, v, args)
        if isinstance(v, tuple) and v[0] == 'row':
            if nm == 'size': return v[1].arr['len'][v[2]]
            if nm in ('at',): return s.rowidx(v[1], v[2], s.ev(args[0]))
            raise Unsupported('row::' + nm)
        key = (v.oid, '#dq') if isinstance(v, Obj) else l.key if isinstance(l, LKey) else None
        if key is None: raise Unsupported('container call on temporary: ' + nm)
        q = s.dq(key)
        if nm in ('begin', 'cbegin'): return It(key, q.lo, False, q.ver, q)
        if nm in ('end', 'cend'): return It(key, q.hi, False, q.ver, q)
        if nm in ('rbegin', 'crbegin'): return It(key, q.hi - 1, True, q.ver, q)
        if nm in ('rend', 'crend'): return It(key, q.lo - 1, True, q.ver, q)
        if nm == 'empty': return q.lo == q.hi
        if nm in ('size', 'length'): return q.hi - q.lo
        if nm in ('front', 'back'):
            s.oblige(nm + '() of a non-empty container', q.lo < q.hi)
            i = q.lo if nm == 'front' else q.hi - 1
            if q.kind == 'row': return LTmp(('row', q, i))
            return LElem(key, i, q.kind)
        if nm == 'at':
            i = s.ev(args[0]); s.oblige('index in bounds', And(0 <= i, i < q.hi - q.lo))
            if q.kind == 'row': return LTmp(('row', q, q.lo + i))
            return LElem(key, q.lo + i, q.kind)
        if nm in ('push_front', 'push_back', 'emplace_back', 'emplace_front'):
            if len(args) == 1: e = s.ev(args[0])
            elif q.kind in RECS: e = Rec(q.kind, dict(zip(FIELDS[q.kind], [rv(s.ev(a)) for a in args])))
            else: raise Unsupported(nm)
            e = s.named(e)
            i = q.lo - 1 if 'front' in nm else q.hi
            lo, hi = (i, q.hi) if 'front' in nm else (q.lo, i + 1)
            if q.kind == 'row':
                if isinstance(e, DQ): arr = {'len': Store(q.arr['len'], i, e.hi - e.lo), 'val': Store(q.arr['val'], i, e.arr['val'])}
                else: raise Unsupported('push row')
            elif q.kind in RECS: arr = {f: Store(q.arr[f], i, e.f[f] if f in e.f else s.ghost(e, f)) for f in q.arr}
            else: arr = {'val': Store(q.arr['val'], i, rv(e))}
            nq = s.mutate(key, arr, lo, hi)
            if q.kind in RECS: nq.new_el = (i, e.f)
            if getattr(e, 'src', None) is not None: s.on_push(key, i, e)
            return Opaque('void')
        if nm in ('pop_front', 'pop_back'):
            s.oblige(nm + '() of a non-empty container', q.lo < q.hi)
            if nm == 'pop_front': s.mutate(key, q.arr, q.lo + 1, q.hi)
            else: s.mutate(key, q.arr, q.lo, q.hi - 1)
            return Opaque('void')
        if nm == 'clear':
            s.mutate(key, q.arr, q.lo, q.lo); return Opaque('void')
        if nm in ('reserve', 'shrink_to_fit'): return Opaque('void')
        raise Unsupported('container::' + nm)
    def ghost(s, e, f):
        """ghost field of an element: where it was copied from"""
        return e.src if f == 'src' and e.src is not None else s.w.fresh(f, I)
    def on_push(s, key, i, e): pass
    def map_call(s, nm, l, m, args):
        if nm == 'find': return MapIt(l.key, s.ev(args[0]), False)
        if nm in ('end', 'cend'): return MapIt(l.key, None, True)
        if nm in ('begin', 'cbegin'): s.store[('seen', l.key)] = K(Str, BoolVal(False)); return s.cursor(l.key, s.store[('seen', l.key)])
        if nm == 'count': 
            k = s.ev(args[0]); return If(m.has[k], IntVal(1), IntVal(0))
        if nm == 'size': return s.mapsize(m)
        if nm == 'empty': return s.mapsize(m) == 0
        if nm == 'at':
            k = s.ev(args[0])
            if not s.choose(m.has[k]): raise ThrowX('out_of_range')
            return LMap(l.key, k, 'second')
        if nm == 'clear' and isinstance(m, MapP): s.oblige('nothing owned is lost', s.none_owned(m)); s.put(l, m.set(has=K(Str, BoolVal(False)))); return Opaque('void')
        if nm == 'clear': s.put(l, MapV(K(Str, BoolVal(False)), m.val, m.vs)); return Opaque('void')
        if nm in ('insert', 'emplace', 'insert_or_assign'):
            k, x = map(s.ev, args if len(args) == 2 else s.pair_args(args[0])); m = s.load(l); key = l.key
            if nm == 'insert_or_assign' or s.choose(Not(m.has[k])):
                if isinstance(m, MapP): s.put(LMap(key, k, 'second'), x)
                else: s.put(l, MapV(Store(m.has, k, BoolVal(True)), Store(m.val, k, x), m.vs))
            return Opaque('pair')
        if nm == 'swap':
            o = s.lv(args[0])
            if not isinstance(o, LKey) or not isinstance(l, LKey): raise Unsupported('map::swap')
            a, b = s.load(l), s.load(o); s.put(l, b); s.put(o, a); return Opaque('void')
        raise Unsupported('map::' + nm)
    def pair_args(s, a):
        while True:
            i = inner(a); k = a['kind']
            if k == 'CallExpr' and len(i) == 3: return i[1:]
            if k in ('CXXConstructExpr', 'InitListExpr', 'CXXTemporaryObjectExpr') and len(i) == 2: return i
            if len(i) != 1: raise Unsupported('pair')
            a = i[0]
    def lv_arg(s, a, p):
        t = qts(p)
        if '&' in t:
            l = s.lv(a)
            return l
        v = s.ev(a)
        if isinstance(v, Obj) and not t.rstrip().endswith('*'): return s.own(v, t)
        return s.coerce(v, qt(p))
    def call_fn(s, f, this, vals, n):
        as_ = s.con.calls.get(f.name, f.name)
        if getattr(this, 'abstract', False) and f.virtual:
            con = s.C.get('dyn ' + as_)
            if con is None: raise Unsupported('no contract for ' + f.name + ' of an operand')
            return s.apply_contract(con, f, this, vals, n)
        con = s.C.get(f.key + '|' + norm(f.type)) or s.C.get(f.key)
        if f.name in s.con.calls and isinstance(this, Obj): con = s.C['%s as %s' % (as_, this.typ)]
        if con is not None and not con.owns and not (s.con.inline and f.key in s.con.inline): return s.apply_contract(con, f, this, vals, n)
        if f.body is None:
            raise Unsupported('no definition of ' + f.key)
        if any(x.fn.key == f.key and norm(x.fn.type) == norm(f.type) for x in s.frames) or len(s.frames) > 14: raise Unsupported('recursion through ' + f.key)
        s.stats['inlined'].add(f.key)
        tv = this
        if isinstance(this, Rec):
            o = s.new_obj(this.typ)
            for x, v in this.f.items(): s.store[(o.oid, x)] = v
            tv = o
        fr = s.push_frame(f, tv, s.fr.cp + (n['id'],))
        for p, v in zip(f.params, vals):
            if isinstance(v, LTmp): v = v.v
            s.declare(p, v)
        try:
            s.stmt(f.body); r = None
        except ReturnX as e: r = e.v
        finally: s.frames.pop() if s.frames and s.frames[-1] is fr else None
        if isinstance(r, Obj): r.tmp = True
        return r if r is not None else Opaque('void')
    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(s, con, f, this, vals, n=None):
        s.stats['contracts_used'].add(con.key)
        if s.pure and con.modifies: raise ImpureX()
        fr = Frame('call%d' % s.w.c, f, this, ()); s.w.c += 1
        for i, (p, v) in enumerate(zip(f.params, vals)):
            nm = con.params[i] if i < len(con.params) else p.get('name')
            if isinstance(v, LTmp): v = v.v
            key = (fr.fid, p['id']); fr.vars[p['id']] = key; fr.names[nm] = key; fr.names.setdefault(p.get('name'), key)
            s.store[key] = v
        fr.this = this
        if isinstance(this, Rec):
            o = s.new_obj(this.typ)
            for x, v in this.f.items(): s.store[(o.oid, x)] = v
            fr.this = o
        pre = dict(s.store)
        c = Ctx(s, pre, pre, fr); c.caller = True
        site = 'call of %s' % con.key
        # separation: arguments that the contract treats as distinct must be distinct objects
        objs = []
        for nm in ['this'] + list(con.params):
            try: v = c.old.get(nm)
            except Exception: continue
            if isinstance(v, Obj): objs.append((nm, v))
            if isinstance(v, It): objs.append((nm, v.key[0]))
        for i in range(len(objs)):
            for j in range(i):
                a, b = objs[i], objs[j]
                ka, kb = (x.oid if isinstance(x, Obj) else x for x in (a[1], b[1]))
                if ka == kb and not con.may_alias(b[0], a[0]) and any(m.split('|')[0] == x[0] and isinstance(x[1], Obj) for m in con.modifies for x in (a, b)): s.oblige('%s: arguments %s and %s are distinct' % (site, b[0], a[0]), False)
        for nm, g, *ex in con.get_pre(c): s.oblige('%s requires %s' % (site, nm), g, ex[0]() if ex else [])
        for path, g in con.get_pw_pre(c):
            th = s.w.fresh('theta', R); s.oblige('%s requires (every time) %s' % (site, path), g(th), [(path if isinstance(path, SigV) else c.old.sig(path)).at(th)])
        if con.throws is not None:
            t = con.throw_cond(c)
            if s.choose(t): raise ThrowX(con.throw_type)
        # havoc
        for m in con.modifies:
            if m.startswith('g:'):
                l = s.lglobal(m[2:]); s.store[l.key] = s.havoc_val(l.key, s.store[l.key], 'g'); continue
            base, _, fld = m.partition('|')
            v = c.old.get(base)
            if isinstance(v, Obj): s.havoc_obj(v, fld.split(',') if fld else None)
            elif isinstance(v, It):
                k = c.key_of(base); l = s.store[k]
                nv = s.havoc_val(k, v, base)
                if isinstance(l, Loc): s.put(l, nv)
                s.store[k] = nv if not isinstance(l, Loc) else l
            elif is_expr(v):
                k = c.key_of(base); l = s.store[k]; nv = s.w.fresh(base, v.sort())
                if isinstance(l, Loc): s.put(l, nv)
            elif isinstance(v, Uninit):
                k = c.key_of(base); l = s.store[k]; nv = s.fresh_of(v.t, base)
                if isinstance(l, Loc): s.put(l, nv)
            else: raise Unsupported('modifies ' + m)
        res = None
        rt = f.type.split('(')[0].strip()
        if con.result is not None: res = con.result(c)
        elif rt.endswith('*') and tclean(rt) in s.ix.classes:
            o = s.new_obj(tclean(rt), heap=True); s.default_fields(o, 'res'); s.heapnew.append(o); res = Ptr(o)
            if (o.oid, '#dq') in s.store: q = s.store[(o.oid, '#dq')]; s.assume(q.lo <= q.hi)
        elif rt not in ('void', ''): res = s.fresh_of(rt, 'res')
        if con.effect: con.effect(s, c)
        c2 = Ctx(s, pre, s.store, fr); c2.res = res; c2.caller = True; c2.freeze()
        if fr.this is not this and isinstance(this, Rec): pass
        for path, nm, g, *_ in con.get_pw_post(c2):
            s.w.add_pw(c2.sig_of(path).q, g)
        for nm, g, *_ in con.get_post(c2): s.assume(g)
        for key in fr.vars.values():
            pass
        return res if res is not None else Opaque('void')
    def havoc_obj(s, o, flds=None):
        for kk, v in [x for x in s.store.items() if len(x[0]) == 2]:
            oid, f = kk
            if oid != o.oid or (flds is not None and f not in flds): continue
            if isinstance(v, Obj): s.havoc_obj(v)
            elif v is None: pass
            elif isinstance(v, (Ptr, AddrOf)):
                if flds is not None and f[0] == '#': s.store[(oid, f)] = None      # where an operand points is no longer known
            else:
                n = s.store[(oid, f)] = s.havoc_val((oid, f), v, f)
                if isinstance(n, DQ): n.prev = v

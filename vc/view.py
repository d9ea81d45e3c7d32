"""Views of the program state used by contracts, and the contract records."""
from engine import *
# ---------------------------------------------------------------------------- views used by contracts
class SigV:
    def __init__(s, w, q, b, e, obj=None): s.w, s.q, s.begin, s.end, s.obj = w, q, b, e, obj
    def at(s, th): return s.w.at(s.q, th)
    T = property(lambda s: s.q.T); V = property(lambda s: s.q.V); D = property(lambda s: s.q.D); L = property(lambda s: s.q.L)
    lo = property(lambda s: s.q.lo); hi = property(lambda s: s.q.hi)
    def seg(s, th): return s.w.seg_of(s.q, th)
def subq(q, lo, hi):
    l, h = lo(q), hi(q)
    if not hasattr(q, 'subs'): q.subs = {}
    k = (l.get_id(), h.get_id())
    if k not in q.subs:
        n = DQ(q.kind, q.arr, l, h, q.name + '.sub', q.ver); q.subs[k] = n
        n.keep = (l, h)
        if hasattr(q, 'new_el'): n.new_el = q.new_el
        if q.parent is not None: n.parent = subq(q.parent, lo, hi)
    return q.subs[k]
class View:
    def __init__(s, eng, store, fr): s.e, s.st, s.fr = eng, store, fr
    def raw(s, nm):
        if nm == 'this': return s.fr.this
        frs = [s.fr] + ([f for f in reversed(s.e.frames) if f is not s.fr] if s.fr in s.e.frames else [])
        for f in frs:
            if nm in f.names and f.names[nm] in s.st: return s.st[f.names[nm]]
        raise Annot('name %s not found in %s' % (nm, s.e.fn.key))
    def val(s, v):
        while isinstance(v, Loc):
            if isinstance(v, LObj): return v.obj
            if isinstance(v, LKey): v = s.st[v.key]; continue
            sv = s.e.store; s.e.store = s.st
            try: v = s.e.load(v)
            finally: s.e.store = sv
        return v
    def get(s, path):
        parts = path.split('.')
        v = s.val(s.raw(parts[0]))
        if isinstance(v, Ptr): v = v.obj
        for p in parts[1:]:
            if isinstance(v, Rec): v = v.f[p]; continue
            if not isinstance(v, Obj): raise Annot('no field %s in %s' % (p, path))
            if (v.oid, p) not in s.st: raise Annot('field %s of %s' % (p, v.typ))
            v = s.val(s.st[(v.oid, p)])
            if isinstance(v, Ptr): v = v.obj
        return v
    def __getitem__(s, path): return s.get(path)
    def ptr(s, path):
        a, _, b = path.rpartition('.')
        if not a: return s.val(s.raw(b))
        o = s.get(a); return s.val(s.st[(o.oid, b)])
    def sig(s, path):
        v = s.get(path)
        if isinstance(v, It): 
            q = s.st[v.key]; o = v.key[0]
            return SigV(s.e.w, q, s.st.get((o, 'beginTime')), s.st.get((o, 'endTime')))
        if isinstance(v, DQ): return SigV(s.e.w, v, None, None)
        if isinstance(v, Obj):
            return SigV(s.e.w, s.st[(v.oid, '#dq')], s.st.get((v.oid, 'beginTime')), s.st.get((v.oid, 'endTime')), v)
        raise Annot('%s is not a signal' % path)
    def sub(s, path, lo, hi):
        """the signal made of the samples with indices [lo(q), hi(q)) of a container (ghost view)"""
        S = path if isinstance(path, SigV) else s.sig(path)
        return SigV(s.e.w, subq(S.q, lo, hi), S.begin, S.end)
    def obj_sig(s, o): return SigV(s.e.w, s.st[(o.oid, '#dq')], s.st.get((o.oid, 'beginTime')), s.st.get((o.oid, 'endTime')), o)
    def it(s, path):
        v = s.get(path)
        if not isinstance(v, It): raise Annot('%s is not an iterator' % path)
        return v
    def null(s, path):
        v = s.ptr(path)
        return v.null if isinstance(v, Ptr) else getattr(v, 'null', BoolVal(False))
    def g(s, name):
        k = ('g', name)
        if k not in s.st: 
            s.e.lglobal(name); s.st.setdefault(k, s.e.store[k])
        return s.st[k]
class Ctx:
    def __init__(s, eng, old, new, fr):
        s.e, s.w, s.fr = eng, eng.w, fr
        s.old, s.new = View(eng, old, fr), View(eng, new, fr); s.res = None; s.thrown = None; s.caller = False
    def freeze(s): s.new.st = dict(s.new.st)
    def known(s, f):
        """the branch taken on this path: True / False when f / not f is among the conditions, else None"""
        sim = lambda h: simplify(substitute(h, (ToReal(IntVal(0)), RealVal(0))))
        y, n = sim(f), sim(Not(f)); hs = [sim(h) for h in s.e.hyps if not is_quantifier(h)]
        return True if any(h.eq(y) for h in hs) else False if any(h.eq(n) for h in hs) else None
    def msize(s, path): return SMAP(s.old.get(path).has)
    def key_of(s, nm): return s.fr.names.get(nm)
    def fresh(s, b, sort=R): return s.w.fresh(b, sort)
    def rsig(s): return s.new.obj_sig(s.res.obj)
    def sig_of(s, path):
        if isinstance(path, SigV): return path
        return s.rsig() if path == 'result' else s.new.sig(path)
class LoopC:
    def __init__(s, inv, pw=None, variant=None, hint=None): s.inv, s._pw, s.variant, s.assume_hint = inv, pw, variant, hint
    def pw(s, c): return s._pw(c) if s._pw else []
class Contract:
    def __init__(s, key, params=(), pre=None, post=None, pw_pre=None, pw_post=None, modifies=(), loops=(), iters=None, nloops=None, nullable=(),
                 throws=None, throw_cond=None, throw_type='', nothrow_when=None, ctor=False, deep=False, result=None, alias=(), inline=(), leak=True,
                 trusted=None, weight=0, doc='', covers_return=True, bounded=False, this_type=None, fnkey=None, effect=None, given=(), calls=None, destroy=False, owns=False, borrows=(), self_arg=None):
        s.key, s.params, s.pre, s.post, s.pw_pre, s.pw_post, s.modifies, s.loops = key, params, pre, post, pw_pre, pw_post, modifies, list(loops)
        s.iters, s.nloops, s.nullable, s.throws, s.throw_cond, s.throw_type = iters or {}, nloops if nloops is not None else len(s.loops), nullable, throws, throw_cond, throw_type
        s.this_type, s.fnkey, s.effect, s.given, s.calls = this_type, fnkey or key, effect, given, calls or {}     # calls: virtual method -> the contract used for it in this body
        s.nothrow_when, s.ctor, s.deep, s.result, s.alias, s.inline, s.check_leak = nothrow_when, ctor, deep, result, alias, inline, leak
        s.destroy, s.owns, s.borrows, s.self_arg = destroy, owns, borrows, self_arg      # destroy: the destructors of this_type in order; owns: what the arguments own at the entry is freed or still owned
        s.trusted, s.doc, s.covers_return, s.weight = trusted, doc, covers_return, weight
    def get_pre(s, c): return s.pre(c) if s.pre else []
    def get_post(s, c): return s.post(c) if s.post else []
    def get_pw_pre(s, c): return s.pw_pre(c) if s.pw_pre else []
    def get_pw_post(s, c): return s.pw_post(c) if s.pw_post else []
    def may_alias(s, a, b): return (a, b) in s.alias or (b, a) in s.alias

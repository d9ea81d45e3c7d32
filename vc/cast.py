"""Front end: clang's JSON AST of /repo's current sources, indexed by qualified name. Nothing is cached between runs."""
import json, os, subprocess, sys, concurrent.futures as cf
REPO = os.environ.get('VERIF_REPO', '/repo')
TUS = ['robustness', 'signal', 'transducer', 'interval_transducer', 'stl_atom', 'signal_expr', 'stl_monitor',
       'stl_driver', 'interval', 'update_transducer']
NS = 'STLRom'
FUNS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class ExtractError(Exception):
    """clang could not produce an AST for the source"""

def _dump(tu):
    src = os.path.join(REPO, 'src', tu + '.cpp')
    cmd = ['clang++', '-std=c++11', '-fsyntax-only', '-w', '-I', os.path.join(REPO, 'include'), '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + NS, src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise ExtractError(p.stderr[:2000])
    return p.stdout

class Fn:
    def __init__(s, key, node, tu, cls):
        s.key, s.node, s.tu, s.cls = key, node, tu, cls
        s.name = node.get('name', '')
        s.type = node.get('type', {}).get('qualType', '')
        s.params = [x for x in node.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        s.body = next((x for x in node.get('inner', []) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        s.inits = [x for x in node.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
        s.virtual = node.get('virtual', False)
        s.defaulted = node.get('explicitlyDefaulted') or node.get('isImplicit')
        s.static = node.get('storageClass') == 'static'

class Cls:
    def __init__(s, name): s.name, s.bases, s.fields, s.methods, s.finit, s.virt = name, [], {}, {}, {}, set()

class Index:
    def __init__(s, tus=None):
        s.fns, s.classes, s.by_id, s.enums, s.gvars = {}, {}, {}, {}, {}
        tus = tus or TUS
        with cf.ThreadPoolExecutor(8) as ex: outs = list(ex.map(_dump, tus))
        for tu, o in zip(tus, outs):
            dec = json.JSONDecoder(); i = 0; n = len(o); seen = set()
            while True:
                while i < n and o[i].isspace(): i += 1
                if i >= n: break
                d, i = dec.raw_decode(o, i)
                s.visit(d, tu, [], seen)
        # out-of-line members: attach to their class by parentDeclContextId (done in visit); bodies win over declarations
    def visit(s, n, tu, scope, seen):
        k = n.get('kind')
        if n.get('id') in seen and k != 'NamespaceDecl': return
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            sc = scope + ([n['name']] if n.get('name') and n.get('name') != NS else [])
            for x in n.get('inner', []): s.visit(x, tu, sc, seen)
            return
        if 'id' in n: seen.add(n['id'])
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.get('name', '')
            q = '::'.join(scope + [name])
            s.by_id[(tu, n['id'])] = q
            c = s.classes.get(q)
            if n.get('completeDefinition') or n.get('inner'):
                if c is None: c = s.classes[q] = Cls(q)
                if n.get('bases'):
                    c.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n['bases']]
                    c.virt = {cname(b['type'].get('desugaredQualType', b['type']['qualType'])) for b in n['bases'] if b.get('isVirtual')}
                for x in n.get('inner', []):
                    if x.get('kind') == 'FieldDecl':
                        c.fields[x['name']] = x['type'].get('desugaredQualType', x['type']['qualType'])
                        if x.get('inner'): c.finit[x['name']] = (x['inner'][-1], tu)
                    if x.get('kind') == 'VarDecl':
                        s.gvars[q + '::' + x['name']] = x['type'].get('desugaredQualType', x['type']['qualType'])
                        s.by_id[(tu, x['id'])] = q + '::' + x['name']
                    s.visit(x, tu, scope + [name], seen)
            return
        if k == 'EnumDecl':
            q = '::'.join(scope + [n.get('name', '')]); v = -1
            for x in n.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    v += 1
                    s.enums[(tu, x['id'])] = (q, x['name'], v); s.enums[q + '::' + x['name']] = v
            return
        if k in FUNS:
            pid = n.get('parentDeclContextId')
            cls = None
            if pid and (tu, pid) in s.by_id: cls = s.by_id[(tu, pid)]
            elif k != 'FunctionDecl' and scope: cls = '::'.join(scope)
            elif k == 'CXXMethodDecl' or k != 'FunctionDecl': cls = '::'.join(scope)
            q = (cls + '::' if cls else ('::'.join(scope) + '::' if scope else '')) + n.get('name', '')
            f = Fn(q, n, tu, cls)
            if n.get('previousDecl') and (tu, n['previousDecl']) in s.by_id:
                p = s.by_id[(tu, n['previousDecl'])]
                if isinstance(p, tuple):
                    of = s.fns[p[0]].get(p[1])
                    if of is not None: f.virtual = f.virtual or of.virtual
            L = s.fns.setdefault(q, {})
            old = L.get(f.type)
            if old is None or (f.body is not None and old.body is None):
                if old is not None: f.virtual = f.virtual or old.virtual
                L[f.type] = f
            elif old is not None: old.virtual = old.virtual or f.virtual
            s.by_id[(tu, n['id'])] = (q, f.type)
            if cls and cls in s.classes: s.classes[cls].methods.setdefault(n.get('name', ''), q)
            return
        if k == 'VarDecl':
            q = '::'.join(scope + [n['name']])
            if n.get('previousDecl') and (tu, n['previousDecl']) in s.by_id and isinstance(s.by_id[(tu, n['previousDecl'])], str):
                q = s.by_id[(tu, n['previousDecl'])]
            else:
                pid = n.get('parentDeclContextId')
                if pid and (tu, pid) in s.by_id and isinstance(s.by_id[(tu, pid)], str): q = s.by_id[(tu, pid)] + '::' + n['name']
            s.by_id[(tu, n['id'])] = q
            s.gvars.setdefault(q, n['type'].get('desugaredQualType', n['type']['qualType']))
            return
    def overloads(s, key): return list(s.fns.get(key, {}).values())
    def fn(s, key, type=None):
        L = s.fns.get(key)
        if not L: return None
        if type is not None: return L.get(type)
        bodies = [f for f in L.values() if f.body is not None]
        return bodies[0] if bodies else list(L.values())[0]
    def bases(s, cls):
        out = [cls]
        c = s.classes.get(cls)
        for b in (c.bases if c else []): 
            b = cname(b)
            for x in s.bases(b):
                if x not in out: out.append(x)
        return out
    def vbases(s, cls):
        """virtual bases of a class in the order they are constructed"""
        out = []
        def go(c):
            k = s.classes.get(c)
            for b in (k.bases if k else []):
                b = cname(b); go(b)
                if b in k.virt and b not in out: out.append(b)
        go(cls); return out
    def dtor(s, cls):
        """user-written destructor of a class"""
        for f in s.overloads(cls + '::~' + cls.split('::')[-1]):
            if f.body is not None and not f.defaulted: return f
        return None
    def virtual_dtor(s, cls):
        for c in s.bases(cls):
            if any(f.virtual for f in s.overloads(c + '::~' + c.split('::')[-1])): return True
        return False
    def fields(s, cls):
        out = {}
        for c in reversed(s.bases(cls)):
            if c in s.classes: out.update(s.classes[c].fields)
        return out
    def method(s, cls, name, type=None):
        for c in s.bases(cls):
            L = s.fns.get(c + '::' + name)
            if L:
                if type is not None and type in L: return L[type]
                if type is None or len(L) == 1: return list(L.values())[0]
                for f in L.values():
                    if norm(f.type) == norm(type): return f
        return None

def norm(t): return t.replace('STLRom::', '').replace('std::', '').replace('class ', '').replace(' ', '')
def cname(t):
    t = t.replace('const ', '').replace('STLRom::', '').replace('class ', '').strip()
    while t and t[-1] in '&* ': t = t[:-1]
    return t
if __name__ == '__main__':
    ix = Index()
    for k in sorted(ix.fns):
        for f in ix.fns[k].values(): print(k, '|', f.type, '|', f.tu, 'BODY' if f.body else '', 'virtual' if f.virtual else '')

#!/usr/bin/env python3
"""check.py PROPERTY: decide one property against the current source tree of /repo.

1. clang's AST of the current sources is turned into obligations against the contracts in contracts/ (vc/), each discharged by an
   SMT solver; 2. the compiled code is exercised against an exact oracle (rt/): a failing input is the replay of a violation.
Exit 0: held.  Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found]."""
import sys, os
try: import z3
except ImportError: os.execvp('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'contracts'), HERE]
import json, time, tempfile, shutil, subprocess, threading, importlib, multiprocessing as mp, hashlib, traceback, signal
import cast, prove, base
from plan import PROPS
REPO = cast.REPO
NCPU = min(8, os.cpu_count() or 8)
IX = None
def gen_task(key):
    try: return prove.verify(IX, base.CON, key)
    except Exception:
        return dict(key=key, obligations=0, trivial=0, discharged=0, by={}, solver_s=0.0, failed=[], used=[], inlined=[], loops=0, paths=0, error='front end: ' + traceback.format_exc()[-800:], slow=0.0, gen_s=0.0)
def lemma_task(names): return prove.lemmas(extra=[base.LEMMAS[n] for n in names])
def build_harness(d, res, flags=()):
    try:
        srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
        inc = ['-I', os.path.join(REPO, 'include')]
        fl = ['-std=c++11', '-O1', '-g', '-w', '-D_GLIBCXX_ASSERTIONS'] + list(flags)
        ps = [subprocess.Popen(['g++'] + fl + inc + ['-c', os.path.join(REPO, 'src', f), '-o', os.path.join(d, f + '.o')], stderr=subprocess.PIPE, text=True) for f in srcs]
        ps.append(subprocess.Popen(['g++'] + fl + inc + ['-c', os.path.join(HERE, 'rt', 'harness.cpp'), '-o', os.path.join(d, 'harness.o')], stderr=subprocess.PIPE, text=True))
        errs = [p.communicate()[1] for p in ps]
        if ps[-1].returncode and not any(p.returncode for p in ps[:-1]):     # internal free functions changed: without them
            ps[-1] = subprocess.Popen(['g++'] + fl + ['-DLITE'] + inc + ['-c', os.path.join(HERE, 'rt', 'harness.cpp'), '-o', os.path.join(d, 'harness.o')], stderr=subprocess.PIPE, text=True)
            errs[-1] = ps[-1].communicate()[1]
        if any(p.returncode for p in ps): res['error'] = 'compilation: ' + ' '.join(e[:600] for e in errs if e); return
        p = subprocess.run(['g++'] + fl + [os.path.join(d, 'harness.o')] + [os.path.join(d, f + '.o') for f in srcs] + ['-o', os.path.join(d, 'harness')], capture_output=True, text=True)
        if p.returncode: res['error'] = 'link: ' + p.stderr[:1500]; return
        res['exe'] = os.path.join(d, 'harness')
    except Exception as e: res['error'] = str(e)
def falsify(pid, exe, d, seed, tier, secs, round_=0):
    outs, ps = [], []
    for i in range(NCPU):
        o = os.path.join(d, 'fals%d_%d.json' % (round_, i)); outs.append(o)
        env = dict(os.environ, VERIF_FALS_S=str(secs), ASAN_OPTIONS='detect_leaks=1:exitcode=77:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=77')
        ps.append(subprocess.Popen([sys.executable, os.path.join(HERE, 'rt', 'fals.py'), pid, str(i), str(NCPU), str(seed + 1000*round_), tier, exe, o], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in ps:
        try: p.wait(timeout=secs + 60)
        except subprocess.TimeoutExpired: p.kill()
    R = []
    for o in outs:
        try: R.append(json.load(open(o)))
        except Exception as e: R.append(dict(error='no result: %s' % e, n=0))
    return R
def known():
    """listed findings: property -> [text that identifies it]"""
    out = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('finding: property='):
            pid, _, rest = l[len('finding: property='):].partition(' '); out.setdefault(pid, []).append(rest)
    return out
def main():
    global IX
    pid = sys.argv[1]; P = PROPS[pid]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    d = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try: return run(pid, P, tier, seed, d, t0)
    finally: shutil.rmtree(d, ignore_errors=True)
def run(pid, P, tier, seed, d, t0):
    global IX
    for m in P.get('mods', []): importlib.import_module(m)
    hb = {}; th = threading.Thread(target=build_harness, args=(d, hb, P.get('flags', ()))); th.start()
    rows, degraded = [], []
    try: IX = cast.Index()
    except (cast.ExtractError, Exception) as e: degraded.append('extraction: %s' % e); IX = None
    th.join()
    # the bounded stand-in first: a failing input makes long proof attempts pointless
    fals, found, n, kinds = [], None, 0, {}
    if 'exe' in hb:
        fals = falsify(pid, hb['exe'], d, seed, tier, P.get('secs', (25, 150))[tier == 'thorough'])
        found = next((r['found'] for r in fals if r.get('found')), None)
    else: degraded.append('harness: ' + hb.get('error', '?'))
    p0 = time.time(); budget = 60 if found else 400 if tier == 'quick' else 1500
    if IX is not None and P.get('roots'):
        if found: prove.RETRY = 0
        pool = mp.get_context('fork').Pool(NCPU); todo = {}; done = set()
        try:
            lem = pool.apply_async(lemma_task, (P.get('lemmas', ()),))
            def submit(k):
                if k in done: return
                done.add(k)
                if base.CON[k].trusted or k.startswith('dyn '): return      # what every class of formula node obeys is proved class by class
                todo[k] = pool.apply_async(gen_task, (k,))
            # long ones first
            for k in sorted(P['roots'] + [k for k in P.get('also', [])], key=lambda k: -base.CON[k].weight): submit(k)
            for k in closure_hint(P['roots']): submit(k)
            while todo:
                for k in list(todo):
                    if todo[k].ready():
                        r = todo.pop(k).get(); rows.append(r)
                        for u in r['used']: submit(u)
                time.sleep(.02)
                if time.time() - p0 > budget: degraded.append('proof stopped after %d s: %s' % (budget, sorted(todo))); break
            rows.append(lem.get(120))
        except Exception as e: degraded.append('proof driver: %s' % e)
        finally: pool.terminate(); pool.join()
    used = set(u for r in rows for u in r['used'])
    if IX is not None and P.get('roots'): degraded += unknown_classes()
    proof_s = time.time() - p0
    for r in rows:
        if r['error']:
            # a contract whose function is gone is only a gap when it is a root or something still relies on it
            degraded.append('%s: %s' % (r['key'], r['error']))
    failed = [f for r in rows for f in r['failed']]
    if failed and not found and 'exe' in hb:
        more = falsify(pid, hb['exe'], d, seed, 'thorough', 120, 1); fals += more
        found = next((r['found'] for r in more if r.get('found')), None)
    errs = [r['error'] for r in fals if r.get('error')]
    for r in fals:
        for k, v in (r.get('kinds') or {}).items(): kinds[k] = kinds.get(k, 0) + v
    n = sum(r.get('n', 0) for r in fals)
    if errs: degraded.append('falsifier: ' + errs[0][-1500:])
    nob = sum(r['obligations'] + r['trivial'] for r in rows); ndis = sum(r['discharged'] + r['trivial'] for r in rows)
    replay = None
    if found or failed:
        rd = os.path.join(HERE, 'build', 'replays'); os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha1(json.dumps([found, [f['name'] for f in failed]], sort_keys=True, default=str).encode()).hexdigest()[:10]))
        json.dump(dict(property=pid, failing_input=found, how='python3 %s REPLAY runs the commands of failing_input against a fresh build of the repository' % os.path.join(HERE, 'rt', 'replay.py'),
                       failed_obligations=[dict(name=f['name'], path=f['path'], solver_output=f['tried'], query=f['smt'] if i < 2 else '') for i, f in enumerate(failed[:20])]), open(replay, 'w'), indent=1, default=str)
    proved = [r for r in rows if not r['error'] and not r['failed'] and r['key'] != 'lemmas']
    bk = {}
    for r in rows:
        for k, v in r['by'].items(): bk[k] = bk.get(k, 0) + v
    trusted = ['clang 18 front end (AST of the sources as compiled with -std=c++11)', 'the verification-condition generator in vc/ (C++ subset semantics, container model)', 'z3 5.3.2 / cvc5 1.1.2',
               'double arithmetic treated as real arithmetic; integers unbounded'] + ['assumed contract: %s (%s)' % (k, base.CON[k].trusted) for k in sorted(used) if base.CON[k].trusted] + dyn_note(used, rows) + P.get('trusted', [])
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 1), violations=1 if (found or failed) else 0,
        coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3 check.py ' + pid, trusted_base=trusted,
            functions_under_contract=[dict(function=r['key'], source=r.get('file'), obligations=r['obligations'] + r['trivial'], discharged=r['discharged'] + r['trivial'], closed_by_simplification=r['trivial'], paths=r['paths'], loops=r['loops'],
                solver_s=round(r['solver_s'], 2), slowest_s=round(r['slow'], 2), inlined=r['inlined'], vacuity_guards=r.get('covers', 0), ok=not r['failed'] and not r['error'], error=r['error']) for r in sorted(rows, key=lambda r: r['key'])],
            functions_proved=len(proved), discharged_by=bk, solver_s=round(sum(r['solver_s'] for r in rows), 1), proof_wall_s=round(proof_s, 1),
            failed_obligations=[f['name'] for f in failed][:50], degraded=degraded,
            evaluations=n, distinct_nontrivial=sum(r.get('distinct', 0) for r in fals), evaluations_by_kind=kinds,
            rule='bounded stand-in and search for failing inputs on the compiled code, never counted as proved: random inputs from VERIF_SEED, compared with an exact rational oracle; distinct by input',
            samples=[s_ for r in fals[:1] for s_ in (r.get('samples') or [])][:4]),
        assumptions=P.get('assumptions', []) + (['obligations not generated or decided this run: ' + '; '.join(degraded)[:1500]] if degraded else []))
    if degraded and not proved: ev['level'] = 'exploration'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    kn = known().get(pid, [])
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d functions under contract proved, %d/%d obligations discharged (%s), %d bounded cases, %.0f s' % (pid, len(proved), ndis, nob, ', '.join('%s %d' % kv for kv in sorted(bk.items())), n, time.time() - t0))
    for x in degraded: print('not decided by proof this run: ' + x[:400])
    if found:
        print('failing input: ' + found['what'][:1500])
        for f in failed[:8]: print('failed obligation: ' + f['name'])
        print('VIOLATION property=%s replay=%s' % (pid, replay)); return 1
    if failed:
        for f in failed[:8]: print('failed obligation: %s [path %s] %s' % (f['name'], f['path'], f['tried']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)); return 1
    if not proved and not n: print('nothing could be decided'); return 2
    return 0
def dyn_note(used, rows):
    """contracts of virtual functions: where each class's override is proved to obey them"""
    ok = set(r['key'] for r in rows if not r['error'] and not r['failed']); out = []
    for k in sorted(used):
        if not k.startswith('dyn '): continue
        cls = [c for c in base.CON if c.startswith(k[4:] + ' as ')]
        out.append('virtual %s: %s' % (k[4:], 'assumed of every class (no class contracts yet)' if not cls else 'the contract used for operands is proved for every class in this run' if all(c in ok for c in cls) else 'the contract used for operands is proved for every class by the check of ' + ('C04' if '_rob' in k and 'robustness' not in k else 'C10')))
    return out
def unknown_classes():
    import nodes
    up = lambda c: IX.bases(c)
    kids = set(b for c in IX.classes for b in IX.bases(c) if b != c)
    return ['class %s has no contracts' % c for c in sorted(IX.classes) if 'transducer' in IX.bases(c) and c not in kids and c not in nodes.KIND]
def closure_hint(roots):
    """contracts statically reachable from the roots, so that they start early (results decide what is really used)"""
    out, st = [], list(roots); seen = set()
    while st:
        k = st.pop()
        if k in seen or k not in base.CON: continue
        if k.startswith('dyn '): continue
        seen.add(k); out.append(k)
        fn = prove.lookup(IX, base.CON[k])
        if fn is None or fn.body is None: continue
        for n in walk_calls(fn.body): 
            f = static(fn, n)
            if f: st.extend([f.key, f.key + '|' + cast.norm(f.type)])
    return sorted((k for k in out if k not in roots), key=lambda k: -base.CON[k].weight)
def walk_calls(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        if x.get('kind') in ('CallExpr', 'CXXMemberCallExpr'): yield x
        st.extend(x.get('inner', []))
def static(fn, n):
    c = n['inner'][0]
    while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
    if c.get('kind') == 'DeclRefExpr':
        r = c.get('referencedDecl', {})
        if r.get('kind') == 'FunctionDecl': return IX.fn(r['name'], r['type']['qualType'])
    if c.get('kind') == 'MemberExpr':
        key = IX.by_id.get((fn.tu, c.get('referencedMemberDecl')))
        if isinstance(key, tuple): return IX.fns[key[0]].get(key[1])
    return None
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2; print('check ended without a verdict')
    sys.stdout.flush(); os._exit(rc)

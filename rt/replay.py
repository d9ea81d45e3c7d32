#!/usr/bin/env python3
"""python3 rt/replay.py REPLAY.json: run the commands of a failing input against a fresh build of the repository and show every answer.
The file's failing_input.what says which answer was expected."""
import sys, os, json, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try: import z3
except ImportError: os.execvp('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:])
sys.path[:0] = [HERE, os.path.join(HERE, 'rt'), os.path.join(HERE, 'vc'), os.path.join(HERE, 'contracts')]
import check; from h import H, Crash; from plan import PROPS
r = json.load(open(sys.argv[1])); f = r.get('failing_input')
if not f:
    print('no failing input; failed obligations:'); [print('  ' + o['name'], o['solver_output']) for o in r['failed_obligations']]; sys.exit(0)
d = tempfile.mkdtemp(prefix='verif_replay_'); hb = {}
try:
    check.build_harness(d, hb, PROPS[r['property']].get('flags', ()))
    if 'exe' not in hb: sys.exit(hb.get('error'))
    h = H(hb['exe'])
    try:
        for c in f['commands']: print('> ' + c); print(h(c, 30))
    except Crash as e: print(e)
    h.close()
    print('reported: ' + f['what'])
finally: shutil.rmtree(d, ignore_errors=True)

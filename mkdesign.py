"""Fills the two tables of DESIGN.md (run by hand; DESIGN.in.md is the source)."""
import json, os, plan
P = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
rows = ['| id | property | decided by | functions proved | note |', '|---|---|---|---|---|']
for p, d in sorted(plan.PROPS.items()):
    ev = {}
    try: ev = json.load(open('evidence/%s.json' % p))['coverage']
    except Exception: pass
    rows.append('| %s | %s | %s | %s | %s |' % (p, P[p]['title'], 'contracts + stand-in' if d.get('level', 'proof') == 'proof' else 'bounded stand-in', '%s (%s obligations)' % (ev.get('functions_proved'), ev.get('discharged')) if ev.get('functions_proved') else '–', d['note']))
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
C = json.load(open('caught.json')) if os.path.exists('caught.json') else {}
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s)); seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], C.get(s, '?')))
t = open('DESIGN.in.md').read().replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds))
open('DESIGN.md', 'w').write(t)

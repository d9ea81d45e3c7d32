"""Rewrites MANIFEST.json from plan.py (run by hand after a change of the plan)."""
import json, plan
T = 'contract-based deductive verification of the C++ sources (clang AST -> verification conditions -> z3/cvc5)'
checks = []
for p, P in sorted(plan.PROPS.items()):
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
        technique=T + ('; ' + P['tech'] if P.get('tech') else '') if P.get('level', 'proof') == 'proof' else 'bounded stand-in for the contracts: random inputs against an exact rational oracle', level=P.get('level', 'proof'), level_note=P['note']))
NA = [dict(property='C16', reason='The scanner and parser are generated by flex/bison: table-driven automata with gotos, C arrays, raw unions and string buffers. Neither the verification-condition generator here nor an installed C++ verifier accepts them, and the grammar tables carry no structure a contract could be stated on; proving a re-written parser would be proving a model.'),
      dict(property='C17', reason='Reading is done by the C++ stream library (ifstream, istringstream extraction into doubles): the whole behaviour is that of library code outside the repository, for which a contract would have to be assumed; nothing would be left to prove.')]
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=NA), open('MANIFEST.json', 'w'), indent=1)

"""Writes /verif/MANIFEST.json; the checks are those suites.py has stages for."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'harness'))
sys.dont_write_bytecode = True
import suites
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    try:
        suites.stages(p['id'], 'quick')
    except SystemExit:
        na.append(dict(property=p['id'], reason='specification module not written yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                       technique=suites.TECH.get(p['id'], suites.TECH['']), level='model_checking',
                       level_note=suites.LEVEL.get(p['id'], suites.LEVEL[''])))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
         notes='TLA+ specification in spec/, checked with TLC; behaviours exported by TLC are replayed on the code in /repo. '
               'No hooks in /repo: everything is observed through the public API.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

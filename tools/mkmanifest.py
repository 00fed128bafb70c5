"""Writes MANIFEST.json from vc/registry.py and the list below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V + '/vc')
import registry
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks = []
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for i in ids:
    if i not in registry.MODS: continue
    p = registry.get(i)
    checks.append(dict(property=i, quick_cmd='python3-vt vc/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt vc/check.py %s' % i,
                       technique='contract-based deductive verification: verification conditions generated from the clang AST of the current sources, discharged by z3/cvc5; failed obligations searched for a failing input on the real code',
                       level='proof', level_note=p.note()))
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in registry.MODS]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

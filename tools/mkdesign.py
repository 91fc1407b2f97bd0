#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, design_tail.md, the suites of the harness and the planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/harness/src/suites/'
txt = {f: open(S + f).read() for f in ('ring.rs', 'disjoint.rs', 'counter.rs', 'interval.rs')}
SM = re.search(r'const SMALL: &str = "(.*?)";', txt['interval.rs']).group(1)
RN = re.search(r'const RANDOM: &str = "(.*?)";', txt['interval.rs']).group(1)
rows = []
for f, t in txt.items():
    for m in re.finditer(r's!?\("(C\d\d)", "([^"]+)", ([\w:]+), ([\d_]+), ([\d_]+), (.*?)\),?\n', t):
        p, n, k, q, th, rest = m.groups()
        a = re.findall(r'"([^"]*)"', rest)
        about = a[-1] if a else SM if 'SMALL' in rest else RN
        miri = re.match(r'([\d_]+),', rest).group(1) if f == 'ring.rs' else '0'
        size = 'every case' if k.endswith('x') or k.endswith('Exhaustive') else '%s / %s' % (q, th)
        if miri != '0':
            size += ', %s under Miri' % miri
        rows.append((p, n, size.replace('_', ' '), about))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
oracles = json.load(open(V + '/tools/design_oracles.json'))
out = [open(V + '/tools/design.md').read().rstrip(), '']
for p in sorted(props, key=lambda p: p['id']):
    mine = [r for r in rows if r[0] == p['id']]
    assert mine, p['id']
    out += ['### %s. %s' % (p['id'], p['title']), '', oracles[p['id']], '']
    out += ['* `%s` (%s): %s.' % r[1:] for r in mine] + ['']
out += [open(V + '/tools/design_tail.md').read().rstrip(), '', '## Planted bugs', '', '| check | planted bug | what it needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda d: (json.load(open(d))['property'], d)):
    m = json.load(open(d))
    out.append('| %s | %s | %s |' % (m['property'], os.path.basename(os.path.dirname(d)), m['needs']))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

#!/usr/bin/env python3
"""Writes DESIGN.md: the prose of tools/design_*.md and a section per property with its bounds."""
import json, glob, re, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
methods = json.load(open(d + '/tools/methods.json'))
out = [open(d + '/tools/design_head.md').read().rstrip(), '', '## 5. The properties, one by one', '',
       'Level: exhaustive symbolic execution within the bounds (model checking). For each: the oracle, the anchors, and each harness with its bound. Costs are for the quick tier on 8 idle cores.', '']
cost = {}
if os.path.exists(d + '/tools/costs.json'):
    cost = json.load(open(d + '/tools/costs.json'))
for l in open(d + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out += ['### %s. %s' % (i, p['title']), '', p['statement'], '', '*Decided by:* ' + methods[i], '',
            '*Anchors:* ' + ', '.join(p['anchors']['files']) + '. *Why tests cannot:* ' + p['why_tests_cant'], '']
    if i in cost:
        out += ['*Cost:* about %s.' % cost[i], '']
    for f in sorted(glob.glob('%s/harness/%s_*.go' % (d, i.lower()))):
        s = open(f).read()
        for m in re.finditer(r'^func (Harness_\w+)\(\) \{(.*?)^\}', s, re.M | re.S):
            b = re.search(r'verifv\.Bound\("(.*?)"\)', m.group(2))
            out.append('* `%s`: %s' % (m.group(1)[8:], b.group(1) if b else ''))
    out.append('')
out.append(open(d + '/tools/design_tail.md').read().rstrip())
out += ['', '| bug | property and check | needs |', '|---|---|---|']
for f in sorted(glob.glob(d + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append('| %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
open(d + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

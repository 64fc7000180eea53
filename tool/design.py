#!/usr/bin/env python3
"""Writes the section "The properties" of DESIGN.md (between its two markers) from proptext.py, designtext.py, the evidence of the
last run, the planted bugs and known_findings.txt."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tool'))
from proptext import PROPS, NOT_APPLICABLE
from designtext import HOW

B, E = '<!-- properties: begin (tool/design.py) -->', '<!-- properties: end -->'
seeds = {}
sd = os.path.join(HERE, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m['what_it_breaks']))
fixed = {}
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('fixed:'):
        a = l.split(None, 3)
        fixed.setdefault(a[1].split('=')[1], []).append((a[2], a[3].strip()))
o = [B, '']
for p in PROPS:
    i = p['id']
    how, oracle, reach = HOW[i]
    o += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    o += ['*How it is decided.* %s' % how, '']
    o += ['*Oracle.* %s. *Bounds.* %s *Why the tests cannot.* %s; %s.' % (oracle[0].upper() + oracle[1:], p['note'], p['why'].rstrip('.'), reach), '']
    ev = os.path.join(HERE, 'evidence', i + '.json')
    if os.path.exists(ev):
        e = json.load(open(ev))
        o += ['Rules (`rules/%s.py`; obligations on the current tree):' % i.lower(), '']
        for k, v in e['coverage']['rules'].items():
            o.append('* `%s` (%d): %s' % (k, v['instances'], v['rule']))
        o.append('')
        if e.get('assumptions'):
            o += ['Assumes: ' + '; '.join(e['assumptions']) + '.', '']
    if seeds.get(i):
        o += ['Planted bugs caught by this check: ' + '; '.join('`%s` (%s)' % s for s in seeds[i]) + '.', '']
    if fixed.get(i):
        o += ['Genuine defects it led to, repaired in /repo: ' + '; '.join('%s %s' % f for f in fixed[i]) + '.', '']
if NOT_APPLICABLE:
    o += ['### Not applicable', '']
    for p in NOT_APPLICABLE:
        o += ['* %s %s: %s' % (p['id'], p['title'], p['reason'])]
    o.append('')
o.append(E)
f = os.path.join(HERE, 'DESIGN.md')
t = open(f).read()
if B in t:
    t = t[:t.index(B)] + '\n'.join(o) + t[t.index(E) + len(E):]
else:
    t = t.rstrip() + '\n\n## The properties\n\n' + '\n'.join(o) + '\n'
open(f, 'w').write(t)

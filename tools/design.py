#!/usr/bin/env python3
"""Rewrites the two tables of DESIGN.md from cv/props.py, properties.jsonl and seeded/."""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from cv.props import PROPS
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
def short(f): return re.sub(r'^(testutil|fileutil)::', '', f)
rows = ['| id | functions under contract (with all they call) | proved by the check of another property | theory, lemma | how |', '|----|----|----|----|----|']
for i in ids:
    P = PROPS.get(i)
    if not P: rows.append('| %s | not claimed: %s | | | |' % (i, NA.get(i, 'contracts not written yet'))); continue
    cut = ', '.join('%s (%s)' % (short(k), v) for k, v in P.get('cut', {}).items())
    if len(cut) > 260: cut = 'callees of ' + ', '.join(sorted(set(P['cut'].values())))
    b = ' Bounded: ' + '; '.join('%s (%s)' % (short(x['function']), x['reason']) for x in P['bounded']) if P.get('bounded') else ''
    rows.append('| %s | %s | %s | %s | %s%s |' % (i, ', '.join(short(f) for f in P['fns']), cut, ', '.join(P.get('theories', []) + P.get('theorems', [])), P['note'], b))
seeds = ['| seeded | property | what it breaks, and when | caught by |', '|----|----|----|----|']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    seeds.append('| %s | %s | %s: %s | %s |' % (s, d['property'], d['needs'], d['what_it_breaks'], caught.get(s, 'a failing input and the obligations named in the replay file')))
t = open(V + '/DESIGN.md').read()
def put(t, head, lines):
    a = t.index('## ' + head) + len('## ' + head); b = t.index('\n## ', a)
    return t[:a] + '\n\n' + '\n'.join(lines) + '\n' + t[b:]
t = put(put(t, 'Properties', rows), 'Planted bugs and what catches them', seeds)
open(V + '/DESIGN.md', 'w').write(t)

#!/usr/bin/env python3
"""Writes DESIGN.md: text of design_text.py, bounds of specs.py, planted bugs with the checks that report them (caught.json)."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
import specs, design_text as T
props = {j['id']: j for j in map(json.loads, open(V + '/properties.jsonl'))}
o = T.HEAD
for p in sorted(specs.SPECS):
    s = specs.SPECS[p]
    o += '\n### %s %s\n\n%s\n\nBounds: %s. Assumptions: %s. Harness: %s; entries (quick): %s.\n' % (p, props[p]['title'], T.P[p], s['bounds'], '; '.join(s['assumptions']) or 'none', ', '.join(sorted({u['harness'] + '.cpp' for u in s['units']})), '%d in %d configurations' % (sum(len(u['entries']['quick']) for u in s['units']), len(s['units'])))
o += T.TAIL
o += '## 6. Planted bugs\n\nEach lies in /verif/seeded with a demonstration; all are reported by the check of their property (quick tier) unless marked.\n\n| bug | property | needs | breaks | reported by |\n|---|---|---|---|---|\n'
c = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for i in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % i)); o += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks'], ', '.join(c.get(i, [m['property']])) or 'MISSED')
o += getattr(T, 'END', '')
open(V + '/DESIGN.md', 'w').write(o)

#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text from tools/design_head.md, per-property sections from the harness registry's own bounds, the table of
planted bugs from seeded/*/meta.json and tools/caught.json (bug -> [checks that reported it])."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo/src')
sys.dont_write_bytecode = True
import re
head = open(os.path.join(HERE, 'tools/design_head.md')).read()
tail = open(os.path.join(HERE, 'tools/design_tail.md')).read()
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
how = json.load(open(os.path.join(HERE, 'tools/design_how.json')))
out = [head, '\n## 3. Properties\n']
for p in props:
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    h = how.get(p['id'], {})
    if p['id'] in h.get('na', ()) or not os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
        out.append(h['text'] + '\n')
        continue
    mod = importlib.import_module('props.' + p['id'].lower())
    out.append('Oracle: %s\n' % h['oracle'])
    if h.get('why'):
        out.append('Reach: %s\n' % h['why'])
    out.append('Harnesses (each decided for every value within its bounds; `cases` are the parts enumerated outside the solver):\n')
    for x in mod.H:
        out.append('- `%s` (%d cases quick, %d thorough): %s' % (x.name, len(list(x.cases('quick'))), len(list(x.cases('thorough'))), x.bounds))
    for a in getattr(mod, 'ASSUMPTIONS', []):
        out.append('- assumed: ' + a)
    if h.get('cost'):
        out.append('\nCost: ' + h['cost'])
    out.append('')
out.append('\n## 4. Planted bugs and what catches them\n')
caught = json.load(open(os.path.join(HERE, 'tools/caught.json')))
out.append('| bug | breaks | needs | caught by (quick) |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (b, m['what_it_breaks'], m['needs'], ', '.join(caught.get(b, [])) or 'none'))
out.append('\n' + tail)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))

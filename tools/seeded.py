#!/usr/bin/env python3
"""seeded.py [--all] [bug...]: applies each planted bug to a scratch copy, runs its property's check (--all: every check), updates tools/caught.json."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '--all']
every = '--all' in sys.argv
OUT = os.path.join(HERE, 'tools/caught.json')
caught = json.load(open(OUT)) if os.path.exists(OUT) else {}
checks = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
for b in args or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    d = os.path.join(HERE, 'seeded', b)
    own = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seeded.')
    try:
        shutil.copytree('/repo/src', w + '/src')
        shutil.copytree('/repo/scripts', w + '/scripts')
        subprocess.run(['git', 'init', '-q', w], check=True)
        subprocess.run(['git', 'apply', '--include=src/*', '--include=scripts/*', d + '/patch.diff'], cwd=w, check=True)
        hits = []
        for c in checks if every else [own]:
            t = time.time()
            r = subprocess.run(['python3-vt', HERE + '/check.py', c], env=dict(os.environ, MELODIA_SRC=w + '/src'), capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                hits.append(c)
            elif r.returncode != 0:
                print('  ', b, c, 'rc', r.returncode, [x for x in r.stdout.splitlines() if x.startswith('PROBLEM')][:2])
            if c == own:
                ce = [x for x in r.stdout.splitlines() if x.startswith('counterexample')]
                print(b, 'rc=%d' % r.returncode, '%.1fs' % (time.time() - t), (ce or [''])[0][:140], flush=True)
        caught[b] = sorted(set(hits)) if every else sorted(set(caught.get(b, [])) - {own} | set(hits))
    finally:
        shutil.rmtree(w)
    json.dump(caught, open(OUT, 'w'), indent=1, sort_keys=True)

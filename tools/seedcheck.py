#!/usr/bin/env python3
"""seedcheck.py [ID...]: runs the check of each planted bug's property on a scratch copy with the bug; -a: all checks"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
a = [x for x in sys.argv[1:] if not x.startswith('-')]
allc = '-a' in sys.argv
sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
import registry
for i in a or sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    tmp = tempfile.mkdtemp(prefix='sc-')
    r = tmp + '/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
        subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=r, check=True)
        for p in (sorted(registry.CHECKS) if allc else [m['property']]):
            if p not in registry.CHECKS:
                print(i, p, 'not claimed'); continue
            o = subprocess.run([V + '/check', p], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in o.stdout.splitlines() if l.startswith('  ')]
            if o.returncode or not allc:
                print(i, p, {0: 'MISSED', 1: 'caught'}.get(o.returncode, o.stdout[-800:]), '|', (v or [''])[0][:230], flush=True)
    finally:
        shutil.rmtree(tmp)

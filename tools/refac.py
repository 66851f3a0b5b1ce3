#!/usr/bin/env python3
"""refac.py [NAME...]: applies behaviour-preserving edits (tools/refac/*.py: EDITS, optionally MODES) to scratch copies
of /repo and runs every analysis on them; all of them must stay quiet."""
import os, shutil, subprocess, sys, tempfile, json, concurrent.futures as cf
V = '/verif'
D = V + '/tools/refac'
MODES = ['000', '000:31', '000:47', '100', '001', '101', '010', '110', '010:13', '010:14', '020', '030', '060', '160']
RUN = '''
import sys, json
sys.path.insert(0, '/verif/lib'); sys.dont_write_bytecode = True
import core, tls, abi
cx = core.Ctx('quick', sys.argv[1])
K = core.known()
kn = {k for p in K.values() for k in p}
seen = set()
for m, j in tls.runs(cx, json.loads(sys.argv[2])):
    if isinstance(j, str):
        print(m, 'NO VERDICT', j[:300]); continue
    for o in j['obs']:
        if not o['ok'] and o['key'].replace(' ', '_') not in kn and o['key'] not in seen:
            seen.add(o['key']); print(m, 'ALARM', o['key'][:160], o['msg'][:300])
rep = core.Rep()
for f in (abi.check, abi.alerts):
    try: f(cx, rep)
    except Exception as e: print('abi', repr(e)[:300])
for o in rep.obs.values():
    if not o['ok']: print('abi ALARM', o['key'], o['msg'][:200])
'''
a = sys.argv[1:]


def one(n):
    g = {}
    exec(open(f'{D}/{n}.py').read(), g)
    tmp = tempfile.mkdtemp(prefix='rf-')
    r = tmp + '/repo'
    out = []
    try:
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('target'))
        for f, x, y in g['EDITS']:
            s = open(f'{r}/{f}').read()
            assert s.count(x) == g.get('COUNT', 1), (n, f, x, s.count(x))
            open(f'{r}/{f}', 'w').write(s.replace(x, y))
        b = subprocess.run(['cargo', 'test', '--offline', '--locked', '-q', '--workspace', '--target-dir', tmp + '/t'], cwd=r,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(tmp + '/t', ignore_errors=True)
        if b.returncode:
            return [f'{n} DOES NOT BUILD OR PASS: ' + b.stdout[-300:]]
        o = subprocess.run(['python3', '-c', RUN, tmp, json.dumps(g.get('MODES', MODES))], env=dict(os.environ, VERIF_REPO=r),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append(f'{n}: ' + (o.stdout.strip() or 'quiet'))
    finally:
        shutil.rmtree(tmp)
    return out


names = a or sorted(x[:-3] for x in os.listdir(D) if x.endswith('.py'))
for n in names:
    for l in one(n):
        print(l, flush=True)

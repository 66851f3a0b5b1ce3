#!/usr/bin/env python3
"""seed.py FILE.py...: turns a description of a planted bug into /verif/seeded/<id>, after checking it in a
scratch copy of /repo: builds, passes the tests, the demonstration passes before and fails after.
A description defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python, or rust if RUST=True)."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
D = V + '/tools/demo/kit.py'


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


SH_PY = '#!/bin/sh\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n'
SH_RS = '''#!/bin/sh
# a small program against the crylib of the current directory
set -e
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$(dirname "$0")/demo.rs" "$T/src/main.rs"
R=${DEMO_REPO:-$(pwd)}
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || true
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[dependencies]\\ncrylib={path="%s/crylib"}\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cd "$T"
timeout 250 cargo run -q --offline --target-dir "$T/target"
'''


def main(f):
    g = {}
    exec(open(f).read(), g)
    out = f"{V}/seeded/{g['ID']}"
    tmp = tempfile.mkdtemp(prefix='seed-')
    r = tmp + '/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('target'))
        base = run(['git', 'show', 'e35cc8b', '--stat'], r)
        for fn, a, b in g['EDITS']:
            s = open(f'{r}/{fn}').read()
            assert s.count(a) == 1, (fn, a, s.count(a))
            open(f'{r}/{fn}', 'w').write(s.replace(a, b))
        patch = run(['git', 'diff'], r).stdout
        # removed lines must be lines of the original repository
        orig = {}
        for l in patch.splitlines():
            if l.startswith('--- a/'):
                cur = run(['git', 'show', 'e35cc8b:' + l[6:]], r).stdout.splitlines()
            elif l.startswith('-') and l[1:].strip() and l[1:] not in cur:
                print('   note: not an original line:', l)
        env = dict(os.environ, CARGO_TARGET_DIR='/tmp/seed-target', CARGO_INCREMENTAL='1')
        subprocess.run('rm -rf /tmp/seed-target/debug/.fingerprint/crylib-* /tmp/seed-target/debug/.fingerprint/turtls-*', shell=True)
        b = run(['cargo', 'build', '--workspace', '--offline', '--locked', '-q'], r, env=env)
        if b.returncode:
            print(g['ID'], 'DOES NOT BUILD', b.stdout[-3000:]); return
        t = run(['cargo', 'test', '--workspace', '--offline', '--locked', '-q'], r, env=env)
        if t.returncode:
            print(g['ID'], 'TESTS FAIL', t.stdout[-1500:]); return
        os.makedirs(out, exist_ok=True)
        rust = g.get('RUST')
        if rust:
            open(out + '/demo.rs', 'w').write(g['DEMO'])
        else:
            open(out + '/demo.py', 'w').write(
                "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom kit import *\n" + g['DEMO'])
            shutil.copy(D, out + '/kit.py')
        open(out + '/demo.sh', 'w').write(SH_RS if rust else SH_PY)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        a = run(['sh', out + '/demo.sh'], '/repo')
        e2 = dict(env, TURTLS_SO='/tmp/seed-target/debug/libturtls.so', DEMO_REPO=r)
        c = run(['sh', out + '/demo.sh'], r, env={k: v for k, v in e2.items() if k != 'CARGO_TARGET_DIR'})
        ok = a.returncode == 0 and c.returncode != 0
        print(g['ID'], 'ok' if ok else 'BAD DEMO', a.returncode, c.returncode, '|', (c.stdout.strip().splitlines() or [''])[-1][:200])
        if not ok:
            print(a.stdout[-800:], '-----', c.stdout[-800:])
            shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp)


for f in sys.argv[1:]:
    main(f)

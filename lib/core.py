"""Shared machinery: build the analysers, extract the type-checked MIR of /repo's working tree, run
one check, write its evidence, print the verdict."""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class Infra(Exception):
    pass


class Rep:
    def __init__(self):
        self.obs = {}
        self.stats = {}
        self.notes = []
        self.samples = []

    def ob(self, key, ok, msg='', site=''):
        o = self.obs.get(key)
        if o is None or (o['ok'] and not ok):
            self.obs[key] = dict(key=key, ok=bool(ok), msg=msg, site=site)

    def fail(self, key, msg, site=''):
        self.ob(key, False, msg, site)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def floor(self, what, n, least):
        """a rule that matches fewer places than were confirmed by hand passes vacuously"""
        self.stats[what] = n
        self.ob('floor:' + what, n >= least, f'only {n} {what} found, {least} expected: the rule lost its anchors')

    def merge(self, j, pre=''):
        for o in j['obs']:
            self.ob(pre + o['key'], o['ok'], o['msg'], o['site'])
        for k, n in j['stats'].items():
            self.stat(pre + k, n)
        self.notes += j.get('notes', [])
        self.samples += j.get('samples', [])


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return r


def need(cmd, env=None, cwd=None, timeout=800):
    r = sh(cmd, env, cwd, timeout)
    if r.returncode != 0:
        raise Infra(f"{' '.join(cmd)} failed ({r.returncode}):\n{r.stdout[-3000:]}\n{r.stderr[-6000:]}")
    return r


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        need(['cargo', '+nightly', 'build', '--offline', '--locked', '-q'],
             {'CARGO_TARGET_DIR': os.path.join(BUILD, 'driver')}, os.path.join(VERIF, 'driver'))
        need(['cargo', '+nightly', 'build', '--release', '--offline', '--locked', '-q'],
             {'CARGO_TARGET_DIR': os.path.join(BUILD, 'ai')}, os.path.join(VERIF, 'ai'))
    return os.path.join(BUILD, 'driver/debug/mirdump'), os.path.join(BUILD, 'ai/release/ai')


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = need(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    return _sys


def extract(driver, scratch):
    """MIR of the library and of crylib from /repo's working tree; a fresh target directory, so cargo
    cannot skip the driver."""
    out = os.path.join(scratch, 'mir')
    os.makedirs(out)
    need(['cargo', '+nightly', 'check', '-p', 'turtls', '--offline', '--locked', '-q'],
         {'LD_LIBRARY_PATH': sysroot() + '/lib', 'MIRDUMP_OUT': out, 'MIRDUMP_CRATES': 'turtls,crylib',
          'RUSTC_WORKSPACE_WRAPPER': driver,
          'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on --cap-lints=warn',
          'CARGO_TARGET_DIR': os.path.join(scratch, 't'), 'CARGO_INCREMENTAL': '0'}, REPO)
    for c in ('turtls', 'crylib'):
        if not os.path.exists(os.path.join(out, c + '.json')):
            raise Infra(f'no MIR was extracted for {c}')
    return out


class Ctx:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.repo = REPO
        self.driver, self.ai_bin = build_tools()
        self.mir = extract(self.driver, scratch)
        self._j = {}

    def crate(self, name):
        if name not in self._j:
            from mir import Crate
            self._j[name] = Crate(json.load(open(os.path.join(self.mir, name + '.json'))))
        return self._j[name]

    def ai(self, crate, *args, timeout=800):
        r = sh([self.ai_bin, os.path.join(self.mir, crate + '.json')] + list(args), {'AI_LIMIT': str(int(timeout * 0.8))}, timeout=timeout)
        if r.returncode != 0:
            raise Infra(f'ai {args} failed ({r.returncode}):\n{r.stdout[-2000:]}\n{r.stderr[-4000:]}')
        return json.loads(r.stdout)


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    k = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                f = l[6:].strip().split(' ', 2)
                prop = f[0].split('=', 1)[1]
                key = f[1].split('=', 1)[1]
                k.setdefault(prop, {})[key] = f[2] if len(f) > 2 else ''
    return k


def main(prop, tier, checks):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    scratch = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    fn, rule, trusted = checks[prop]
    rep = Rep()
    try:
        cx = Ctx(tier, scratch)
        try:
            fn(cx, rep)
        except Infra as e:
            # the tree builds (extraction succeeded) but the analyser has no verdict: fail closed
            rep.fail('analysis', 'the analysis gave no verdict: ' + str(e)[:2000])
        except subprocess.TimeoutExpired as e:
            rep.fail('analysis', f'the analysis gave no verdict in time: {e}')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ks = known().get(prop, {})
    bad, kn = [], []
    for o in rep.obs.values():
        if not o['ok']:
            (kn if o['key'].replace(' ', '_') in ks else bad).append(o)
    if not rep.obs:
        bad.append(dict(key='empty', ok=False, msg='no obligation was generated', site=''))
    n = len(rep.obs)
    cov = dict(
        explanation=rule,
        obligations=n,
        discharged=n - len(bad) - len(kn),
        checker_cmd=f'./check {prop} {tier}',
        trusted_base=trusted,
        analysed=rep.stats,
        known_findings=[o['key'] for o in kn],
        samples=rep.samples[:12] or [o['key'] for o in list(rep.obs.values())[:8]],
    )
    if rep.notes:
        cov['notes'] = sorted(set(rep.notes))[:60]
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                   coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(bad),
                   assumptions=trusted), open(ev, 'w'), indent=1)
    for o in kn:
        print(f"KNOWN-FINDING: property={prop} {o['key']}: {ks[o['key'].replace(' ', '_')]}")
    print(f"{prop}: {n} obligations, {n - len(bad) - len(kn)} discharged, {len(kn)} known, {len(bad)} violated; "
          + ', '.join(f'{k}={v}' for k, v in sorted(rep.stats.items())))
    if bad:
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as f:
            for o in bad:
                f.write(f"{o['key']}\n  {o['msg']}\n  at {o['site']}\n")
        for o in bad[:20]:
            print(f"  {o['key']}: {o['msg'][:1500]} [{o['site']}]")
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    return 0

"""Runs of the most-general-client analysis of the TLS library (`ai <mir> tls <mode>`); every
property takes the events of its own kind."""
import concurrent.futures as cf
import core


def cfg(bits, name=0, protos=0):
    """configuration number, see set_config in ai/src/tls.rs"""
    return bits | (16 if name else 0) | (32 if protos else 0) | name << 8 | protos << 24


def flag_cfgs():
    """every choice of at least one supported suite and the group, with and without a signature
    algorithm, unknown flag bits, an empty protocol list"""
    return [s | 4 | r << 3 | u << 6 | e << 7 for s in (1, 2, 3) for r in (0, 1) for u in (0, 1) for e in (0, 1)]


def runs(cx, modes, timeout=300):
    """[(mode, result or the reason there is none)]"""
    def one(m):
        try:
            return m, cx.ai('turtls', 'tls', m, timeout=timeout)
        except core.Infra as e:
            return m, str(e)
        except core.subprocess.TimeoutExpired:
            return m, f'no result within {timeout} s'
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, modes))


def take(rep, results, kinds, skip=()):
    """obligations of `kinds` (event prefixes; None: all); a run without verdict reduces coverage and
    is a failure when no run is left"""
    good = 0
    for m, j in results:
        if isinstance(j, str):
            rep.notes.append(f'{m}: {j[:300]}')
            rep.stat('runs without verdict')
            continue
        lost = [o for o in j['obs'] if o['key'].startswith(('analysis', 'imprecise'))]
        for o in lost:
            rep.notes.append(f"{m}: {o['msg'][:300]}")
        if lost:
            rep.stat('runs without verdict')
        else:
            good += 1
            rep.ob(f'run:{m}', True)
        for o in j['obs']:
            k = o['key'].split(':', 1)[0]
            if k in ('analysis', 'imprecise') or k in skip or (kinds is not None and k not in kinds):
                continue
            rep.ob(o['key'], o['ok'], o['msg'] + f' (mode {m})', o['site'])
        for k, n in j['stats'].items():
            rep.stat(k, n)
    rep.ob('runs', good > 0, f'none of {len(results)} analyses gave a verdict: {rep.notes[:3]}')
    return good


NAMES = [1, 2, 11, 63, 255, 256, 1000, 16200, 16211, 16212, 16215, 16220, 16224, 20000, 32768, 65530]


def c08(cx, rep):
    ms = [f'000:{c}' for c in flag_cfgs()]
    ms += [f'000:{cfg(15, n, p)}' for n, p in
           [(n, 0) for n in NAMES] + [(11, 3), (0, 2), (0, 300), (0, 16217), (0, 40000), (250, 70000), (65535, 0),
                                      (65000, 65000), (20000, 20000)]]
    # names and protocol lists of arbitrary length
    ms += [f'000:{c}' for c in (31, 47, 23, 39, 95, 111, 63 | 11 << 8)] + ['001:31', '001:47', '001:77']
    if cx.tier == 'thorough':
        ms += [f'000:{cfg(b, n, p)}' for b in (13, 15, 71) for n in list(range(1, 40)) + list(range(16170, 16250)) +
               [32000, 32600] for p in (0, 14)]
    # a panic on the way is no ClientHello
    take(rep, runs(cx, ms), ('C08', 'panic', 'memory'))
    rep.floor('client_hellos', rep.stats.get('client_hellos', 0), 20)
    rep.floor('extensions', rep.stats.get('extensions', 0), 80)


def writes(cx, thorough):
    ms = ['000', '100', f'100:{cfg(15, 11, 9)}', f'100:{cfg(69)}', '001', '101', f'000:{cfg(15, 20000)}',
          f'000:{cfg(15, 40000, 300)}']
    if thorough:
        ms += [f'{m}:{c}' for m in ('100', '101') for c in flag_cfgs()] + [f'000:{c}' for c in flag_cfgs()]
    return ms


def c11(cx, rep):
    take(rep, runs(cx, ['110'] + writes(cx, cx.tier == 'thorough')), ('C11',))
    rep.floor('connect_returns', rep.stats.get('connect_returns', 0), 30)
    rep.floor('close_returns', rep.stats.get('close_returns', 0), 5)


def c12(cx, rep):
    take(rep, runs(cx, ['110'] + writes(cx, cx.tier == 'thorough')), ('C12',))
    rep.floor('writes', rep.stats.get('writes', 0), 50)


def c19(cx, rep):
    take(rep, runs(cx, ['110'] + writes(cx, cx.tier == 'thorough')), ('C19',))
    rep.floor('records', rep.stats.get('records', 0), 20)


def c18(cx, rep):
    take(rep, runs(cx, writes(cx, cx.tier == 'thorough')), ('C18',))
    rep.floor('client_hellos', rep.stats.get('client_hellos', 0), 20)


def c13(cx, rep):
    """what holds for a first connection on a fresh object holds for every later one"""
    first = runs(cx, ['000', '100', '110'], timeout=600)
    again = runs(cx, ['001', '101', '011', '111', f'011:{ALL}'] + ([f'{m}:{c}' for m in ('001', '101') for c in flag_cfgs()]
                                       + [f'111:{c}' for c in (13, 14, ALL)] if cx.tier == 'thorough' else []), timeout=600)
    base = {o['key'] for _, j in first if not isinstance(j, str) for o in j['obs']}
    for _, j in again:
        if not isinstance(j, str):
            j['obs'] = [o for o in j['obs'] if o['key'] not in base]
    take(rep, again, None)
    rep.floor('connect_returns', rep.stats.get('connect_returns', 0), 30)


# with every extension
ALL = cfg(15, 11, 9)


def c22(cx, rep):
    take(rep, runs(cx, [f'010:{ALL}', f'020:{ALL}', f'011:{ALL}', '010', '011'] + ([f'110:{ALL}', f'111:{ALL}', f'060:{ALL}']
                                                              if cx.tier == 'thorough' else []), timeout=600), ('C22',))
    rep.floor('protocols', rep.stats.get('protocols', 0), 500)


def reads(cx, thorough):
    """runs with incoming data: every message shape (01x, 11x), partial deliveries (02x), messages split over
    two records (03x)"""
    ms = ['010', '110', f'010:{cfg(13)}', f'010:{cfg(14)}', f'010:{ALL}', '020', '030', '060', '160']
    if thorough:
        ms += ['130', '120'] + [f'{m}:{c}' for m in ('010', '030') for c in (13, 14, 71, 79)] + [f'110:{ALL}']
    return ms


def incoming(kinds, floors, extra=()):
    def check(cx, rep):
        take(rep, runs(cx, list(extra) + reads(cx, cx.tier == 'thorough'), timeout=700), kinds)
        for k, n in floors.items():
            rep.floor(k, rep.stats.get(k, 0), n)
    return check


_c01 = incoming(('panic', 'memory'), {'assertions examined': 20000, 'connect_returns': 500},
               ['001', '101', '001:31', '001:47', f'000:{cfg(15, 20000)}', f'000:{cfg(15, 65535)}'])
c02 = incoming(('C02',), dict(encryptions=200, decryptions=100))
c04 = incoming(('C04',), dict(decryptions=100, connect_returns=500))
c05 = incoming(('C05',), dict(connect_returns=500, transcript_updates=100))
c06 = incoming(('C06',), dict(transcript_updates=100))
c07 = incoming(('C07',), dict(hkdf_expand=100, hkdf_extract=20, aead_keys=20))
c09 = incoming(('C09',), dict(negotiated_suites=20, connect_returns=500))
c10 = incoming(('C10',), dict(shared_secrets=10))
c20 = incoming(('C20',), dict(reads=300))
_alerts_in = incoming(('C15',), dict(connect_returns=500))


def c15(cx, rep):
    import abi
    abi.alerts(cx, rep)
    _alerts_in(cx, rep)


def part(cx, rep, mode, what):
    """one of the parser analyses (ai/src/parse.rs): what it could not decide is noted"""
    j = cx.ai('turtls', mode)
    for o in j['obs']:
        if o['key'].startswith(('analysis', 'imprecise')):
            rep.notes.append(f"{mode}: {o['msg'][:300]}")
            rep.stat(f'{mode}: undecided')
        else:
            rep.ob(o['key'], o['ok'], o['msg'], o['site'])
    for k, n in j['stats'].items():
        rep.stat(f'{what}: {k}', n)
    return j['stats']


def c01(cx, rep):
    _c01(cx, rep)
    # messages with any content of any length
    res = runs(cx, ['070', f'070:{cfg(13)}', f'070:{cfg(14)}'], timeout=300)
    take(rep, res, ('panic', 'memory'))
    part(cx, rep, 'parse', 'certificates')
    rep.floor('certificates: parsers', rep.stats.get('certificates: parsers', 0), 2)


def c21(cx, rep):
    st = part(cx, rep, 'shapes', 'shapes')
    rep.floor('elements', st.get('elements', 0), 100)
    rep.floor('certificates', st.get('certificates', 0), 20)

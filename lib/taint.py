"""C16: secret-independence of the operations documented as constant-time.

For every function of crylib whose documentation claims constant-time behaviour, the monomorphic MIR of
the function and of everything it calls (the standard library included) is analysed: points-to and
taint, context-sensitive (every call is analysed for its own call chain), field-sensitive, flow-
insensitive (a location that ever holds a secret is secret everywhere). Secrets are the digits of the
numbers, carries and borrows; lengths and positions are public. A branch, a memory address, a
division by a variable or a comparison routine with early exit that depends on a secret is a violation.
A branch of which all but one way panics is not: the documented precondition decides it."""
import json, os, re

from core import Infra, REPO, need, sysroot

# documented as constant-time when this check was written; the documentation of the current tree is
# read in addition
DIGITS = ('overflowing_sub overflowing_sub_assign overflowing_add overflowing_add_assign count_digits add add_assign '
          'mul_digit_assign sub sub_assign and_bool and_bool_assign left_align shift_right_assign shift_right '
          'shift_left_assign shift_left not_assign not xor_assign xor and_assign and or_assign or nor_assign nor '
          'xnor_assign xnor nand_assign nand len widening_mul widening_shift_left').split()
SIGNED = ('len neg neg_assign add_assign add sub_assign sub is_negative is_positive not_assign not xor_assign xor '
          'abs_assign abs').split()
FIELD = 'count_digits add sub sub_assign'.split()
BASE = [('UBigInt', n) for n in DIGITS] + [('BigInt', n) for n in SIGNED] + [('FieldElement', n) for n in FIELD]
INST = {'UBigInt': 'crylib::big_int::UBigInt::<4>', 'BigInt': 'crylib::big_int::BigInt::<4>',
        'FieldElement': 'crylib::finite_field::FieldElement::<4, crylib::ec::Secp256r1>'}


def documented(repo):
    """(type, function) pairs found in the source -> True if the documentation claims constant time"""
    out = {}
    src = os.path.join(repo, 'crylib/src')
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith('.rs'):
                continue
            doc, typ = '', None
            for l in open(os.path.join(d, f), encoding='utf-8'):
                s = l.strip()
                if s.startswith('#[cfg(test)]'):
                    break
                m = re.match(r'(unsafe )?impl\b(?:<[^{]*?>)?\s+(\w+)\s*<', s) if ' for ' not in s else None
                if s.startswith('impl'):
                    typ = m.group(2) if m else None
                if s.startswith('///'):
                    doc += s[3:] + ' '
                elif s.startswith('#['):
                    continue
                else:
                    m = re.search(r'\bpub (?:const )?(?:unsafe )?fn (\w+)', s)
                    if m and typ in INST:
                        dl = doc.lower().replace('*', '')
                        out[(typ, m.group(1))] = bool(re.search(r'\bis (a |an )?constant[- ]time', dl))
                    if s:
                        doc = ''
    return out


def dump(ctx, sel):
    scratch = os.path.join(ctx.scratch, 'ct')
    os.makedirs(os.path.join(scratch, 'src'))
    open(os.path.join(scratch, 'Cargo.toml'), 'w').write(
        '[package]\nname = "ctroots"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
        f'[dependencies]\ncrylib = {{ path = "{os.path.join(ctx.repo, "crylib")}" }}\n')
    body = ''.join(f'    let _ = {INST[t]}::{n} as *const ();\n' for t, n in sel)
    open(os.path.join(scratch, 'src/lib.rs'), 'w').write('#![allow(deprecated)]\npub fn roots() {\n' + body + '}\n')
    out = os.path.join(scratch, 'mir')
    os.makedirs(out)
    need(['cargo', '+nightly', 'check', '--offline', '-q'],
         {'LD_LIBRARY_PATH': sysroot() + '/lib', 'MIRDUMP_OUT': out, 'MIRDUMP_CRATES': 'ctroots',
          'RUSTC_WRAPPER': ctx.driver,
          'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off --cap-lints=warn',
          'CARGO_TARGET_DIR': os.path.join(scratch, 't'), 'CARGO_INCREMENTAL': '0'}, scratch)
    from mir import Crate
    return Crate(json.load(open(os.path.join(out, 'ctroots.json'))))


DEPTH = 10          # longest access path kept apart
PURE = re.compile(r'intrinsic:')
EARLY = ('raw_eq', 'compare_bytes', 'memcmp', 'bcmp')
DIVS = ('Div', 'Rem', 'DivUnchecked', 'RemUnchecked')


class Taint:
    def __init__(self, cr):
        self.cr = cr
        self.ret = {}

    def returning(self, f):
        """blocks from which the function can return"""
        r = self.ret.get(id(f))
        if r is None:
            bl = f['body']['blocks']
            pred = {}
            work = []
            for i, b in enumerate(bl):
                t = b[1][1:]
                k = t[0]
                if k == 'goto':
                    ss = [t[1]]
                elif k == 'switch':
                    ss = [x[1] for x in t[2]] + [t[3]]
                elif k == 'drop':
                    ss = [t[2]]
                elif k == 'call':
                    ss = [t[4]] if t[4] is not None else []
                elif k == 'assert':
                    ss = [t[5]]
                elif k == 'asm':
                    ss = [t[1]] if t[1] is not None else []
                else:
                    ss = []
                    if k == 'ret':
                        work.append(i)
                for s in ss:
                    pred.setdefault(s, []).append(i)
            r = set(work)
            while work:
                for p in pred.get(work.pop(), []):
                    if p not in r:
                        r.add(p)
                        work.append(p)
            self.ret[id(f)] = r
        return r

    def run(self, fid):
        self.mem = {}
        self.cons = []
        self.checks = []
        self.nobj = 0
        self.unknown = set()
        self.nfn = 0
        f = self.cr.fns[fid]
        objs = self.inline(fid, (), None)
        sig = f['sig'][0]
        self.secret_args = 0
        for i, t in enumerate(sig):
            self.secret(objs[i + 1], (), t)
        changed = True
        rounds = 0
        while changed:
            rounds += 1
            self.changed = False
            for c in self.cons:
                self.step(c)
            changed = self.changed
        return self.judge(), rounds

    # ---- secrets
    def secret(self, obj, path, t):
        ty = self.cr.types[t]
        k = ty['k']
        if k in ('ref', 'ptr'):
            o = self.obj()
            self.join((obj, path), False, {(o, ())})
            self.secret(o, (), ty['e'])
        elif k == 'uint' and ty['name'] == 'usize':
            return
        elif k in ('uint', 'int', 'bool', 'adt', 'array', 'slice', 'tuple'):
            self.secret_args += 1
            self.join((obj, path), True, ())

    def obj(self):
        self.nobj += 1
        return self.nobj

    # ---- memory
    def join(self, loc, t, pts):
        o, p = loc
        p = p[:DEPTH]
        m = self.mem.setdefault(o, {})
        c = m.get(p)
        if c is None:
            if not t and not pts:
                return
            m[p] = [t, set(pts)]
            self.changed = True
            return
        if t and not c[0]:
            c[0] = True
            self.changed = True
        if not c[1].issuperset(pts):
            c[1].update(pts)
            self.changed = True

    def read(self, loc):
        o, p = loc
        t, pts = False, set()
        n = len(p)
        for q, c in self.mem.get(o, {}).items():
            k = min(n, len(q))
            if q[:k] == p[:k]:
                t |= c[0]
                pts |= c[1]
        return t, pts

    def resolve(self, place, ctx, deep=None):
        """locations of a place; deep collects (what, tainted) for indices and addresses"""
        l, pr = place
        locs = {(ctx[l], ())}
        for e in pr:
            if e == '*':
                nl = set()
                for x in locs:
                    t, pts = self.read(x)
                    if deep is not None and t:
                        # only the pointer itself, not what was stored beside it
                        deep.append('address')
                    nl |= pts
                locs = nl
            elif e[0] == 'f':
                locs = {(o, p + (e[1],)) for o, p in locs}
            elif e[0] == 'i':
                if deep is not None and self.read((ctx[e[1]], ()))[0]:
                    deep.append('index')
                locs = {(o, p + ('[]',)) for o, p in locs}
            elif e[0] == 'ci':
                locs = {(o, p + ('[]',)) for o, p in locs}
            elif e[0] == 'd':
                locs = {(o, p + (('d', e[1]),)) for o, p in locs}
        return locs

    def value(self, op, ctx):
        """merged taint and points-to of an operand"""
        if op[0] in 'cm':
            t, pts = False, set()
            for x in self.resolve(op[1], ctx):
                a, b = self.read(x)
                t |= a
                pts |= b
            return t, pts
        return False, self.kpts(op)

    def kpts(self, op):
        if op[0] == 'k' and isinstance(op[2 - 1], list):
            a = op[1][1] if len(op[1]) > 1 else None
            if isinstance(a, dict):
                return {(('A', p[1]), ()) for p in a.get('p', [])}
        return set()

    def copy(self, dst, src, ctx):
        if src[0] in 'cm':
            for s in self.resolve(src[1], ctx):
                o, p = s
                n = len(p)
                m = self.mem.get(o, {})
                for q, c in list(m.items()):
                    if q[:n] == p:
                        for do, dp in dst:
                            self.join((do, dp + q[n:]), c[0], c[1])
                    elif p[:len(q)] == q:
                        for d in dst:
                            self.join(d, c[0], c[1])
        else:
            for d in dst:
                self.join(d, False, self.kpts(src))

    # ---- constraints
    def inline(self, fid, stack, site):
        f = self.cr.fns[fid]
        b = f['body']
        ctx = [self.obj() for _ in b['locals']]
        self.nfn += 1
        ret = self.returning(f)
        stack = stack + (fid,)
        for bi, (ss, tm) in enumerate(b['blocks']):
            if bi not in ret:
                continue        # leads to a panic only
            for s in ss:
                if s[1] == '=':
                    self.cons.append(('=', s[2], s[3], ctx))
                    self.checks.append(('rv', s[3], s[2], ctx, f, (b['span'][0], s[0])))
                elif s[1] == 'cno':
                    self.cons.append(('cno', s[2], s[3], ctx))
            sp, k = tm[0], tm[1]
            if k == 'switch':
                live = {x for x in [y[1] for y in tm[3]] + [tm[4]] if x in ret}
                if len(live) > 1:
                    self.checks.append(('switch', tm[2], None, ctx, f, sp))
            elif k == 'call':
                if tm[5] is None:
                    continue
                cal, args, dest = tm[2], tm[3], tm[4]
                if cal[0] == 'i':
                    g = self.cr.fns[cal[1]]
                    if g.get('body') and stack.count(cal[1]) < 2 and len(stack) < 40:
                        sub = self.inline(cal[1], stack, sp)
                        gb = g['body']
                        self.bind(args, ctx, sub, gb)
                        self.cons.append(('ret', dest, sub[0], ctx))
                    else:
                        self.cons.append(('ext', dest, args, ctx, g))
                        self.checks.append(('ext', g, args, ctx, f, sp))
                else:
                    self.cons.append(('ext', dest, args, ctx, None))
                    self.checks.append(('ext', None, args, ctx, f, sp))
        return ctx

    def bind(self, args, ctx, sub, gb):
        n = gb['argc']
        sp = gb['spread']
        if sp is not None and len(args) != n:
            for i in range(1, sp):
                self.cons.append(('arg', sub[i], (), args[i - 1], ctx))
            for j, a in enumerate(args[sp - 1:]):
                self.cons.append(('arg', sub[sp], (j,), a, ctx))
        elif len(args) == n:
            for i, a in enumerate(args):
                self.cons.append(('arg', sub[i + 1], (), a, ctx))
        else:
            for i, a in enumerate(args[:-1]):
                self.cons.append(('arg', sub[i + 1], (), a, ctx))
            for i in range(len(args), n + 1):
                self.cons.append(('arg', sub[i], (), args[-1], ctx))

    def step(self, c):
        k = c[0]
        if k == 'arg':
            self.copy([(c[1], c[2])], c[3], c[4])
        elif k == 'ret':
            dst = self.resolve(c[1], c[3])
            for q, v in list(self.mem.get(c[2], {}).items()):
                for o, p in dst:
                    self.join((o, p + q), v[0], v[1])
        elif k == 'cno':
            ctx = c[3]
            for s in self.value(c[1], ctx)[1]:
                t, pts = self.read(s)
                for d in self.value(c[2], ctx)[1]:
                    self.join(d, t, pts)
        elif k == 'ext':
            self.ext(c)
        else:
            self.assign(c[1], c[2], c[3])

    def assign(self, place, rv, ctx):
        dst = self.resolve(place, ctx)
        if not dst:
            return
        k = rv[0]
        if k == 'use':
            self.copy(dst, rv[1], ctx)
        elif k in ('ref', 'addr'):
            src = self.resolve(rv[2], ctx)
            # a reborrow keeps the taint of the pointer it goes through
            for d in dst:
                self.join(d, False, src)
        elif k == 'agg':
            kind, ops = rv[1], rv[2]
            for i, o in enumerate(ops):
                if kind[0] == 'array':
                    pp = ('[]',)
                elif kind[0] == 'adt' and kind[3] is not None:
                    pp = (kind[3],)
                elif kind[0] == 'adt' and self.cr.types[kind[1]].get('adt') == 'enum':
                    pp = (('d', kind[2]), i)
                elif kind[0] == 'rawptr':
                    pp = ()
                else:
                    pp = (i,)
                self.copy([(o2, p + pp) for o2, p in dst], o, ctx)
        elif k == 'repeat':
            self.copy([(o, p + ('[]',)) for o, p in dst], rv[1], ctx)
        elif k in ('bin', 'cbin'):
            a, b = self.value(rv[2], ctx), self.value(rv[3], ctx)
            if rv[1] == 'Offset':
                pts = a[1]
            elif rv[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                pts = ()
            else:
                pts = a[1] | b[1]
            for d in dst:
                self.join(d, a[0] or b[0], pts)
        elif k == 'cast':
            self.copy(dst, rv[2], ctx)
        elif k == 'un':
            t, pts = self.value(rv[2], ctx)
            if rv[1] == 'PtrMetadata':
                pts = ()
            for d in dst:
                self.join(d, t, pts)
        elif k == 'discr':
            t = any(self.discr(x) for x in self.resolve(rv[1], ctx))
            for d in dst:
                self.join(d, t, ())
        elif k == 'len':
            pass

    def discr(self, loc):
        o, p = loc
        return any(c[0] for q, c in self.mem.get(o, {}).items() if p[:len(q)] == q)

    def reach(self, pts):
        seen, work, t = set(), list(pts), False
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            a, b = self.read(x)
            t |= a
            work += b
        return t

    def ext(self, c):
        _, dest, args, ctx, g = c
        vs = [self.value(a, ctx) for a in args]
        nm = (g['kind'].split(':', 1)[1] if g['kind'].startswith('intrinsic:') else g['name']) if g else '?'
        base = nm.split('::')[-1].split('<')[0]
        dst = self.resolve(dest, ctx)
        if base in ('copy_nonoverlapping', 'copy'):
            for s in vs[0][1]:
                t, pts = self.read(s)
                for d in vs[1][1]:
                    self.join(d, t, pts)
            return
        if base in ('read_via_copy', 'volatile_load', 'unaligned_volatile_load'):
            for s in vs[0][1]:
                t, pts = self.read(s)
                for d in dst:
                    self.join(d, t, pts)
            return
        if base in ('write_via_move', 'volatile_store', 'write_bytes'):
            for s in vs[0][1]:
                self.join(s, vs[1][0], vs[1][1])
            return
        if base == 'discriminant_value':
            t = any(self.discr(s) for s in vs[0][1])
            for d in dst:
                self.join(d, t, ())
            return
        t = any(v[0] for v in vs)
        pts = set().union(*[v[1] for v in vs]) if vs else set()
        if base in EARLY or base not in ('transmute', 'offset', 'arith_offset', 'ptr_mask', 'transmute_unchecked'):
            # a value computed from everything the arguments reach
            if base in EARLY or g is None or not g['kind'].startswith('intrinsic:'):
                t = t or self.reach(pts)
            if base in ('ptr_offset_from', 'ptr_offset_from_unsigned', 'size_of_val'):
                pts = set()
        for d in dst:
            self.join(d, t, pts)

    # ---- verdict
    def judge(self):
        out = []

        def bad(kind, f, sp, why):
            out.append((kind, f, sp, why))
        for k, x, y, ctx, f, sp in self.checks:
            if k == 'switch':
                if self.value(x, ctx)[0]:
                    bad('branch', f, sp, 'a branch depends on a secret value')
                deep = []
                if x[0] in 'cm':
                    self.resolve(x[1], ctx, deep)
                for d in deep:
                    bad(d, f, sp, f'a memory {d} depends on a secret value')
            elif k == 'rv':
                deep = []
                self.resolve(y, ctx, deep)
                for p in places(x):
                    self.resolve(p, ctx, deep)
                for d in set(deep):
                    bad(d, f, sp, f'a memory {d} depends on a secret value')
                if x[0] in ('bin', 'cbin') and x[1] in DIVS and x[3][0] in 'cm' \
                        and (self.value(x[2], ctx)[0] or self.value(x[3], ctx)[0]):
                    bad('division', f, sp, 'a division by a variable has a secret operand')
            elif k == 'ext':
                g = x
                nm = (g['kind'].split(':', 1)[1] if g['kind'].startswith('intrinsic:') else g['name']) if g else '?'
                base = nm.split('::')[-1].split('<')[0]
                vs = [self.value(a, ctx) for a in y]
                if base in EARLY:
                    if any(self.reach(v[1]) for v in vs):
                        bad('compare', f, sp, f'secret bytes are compared by {base}, which stops at the first difference')
                elif g is None or not g['kind'].startswith('intrinsic:'):
                    if any(v[0] or self.reach(v[1]) for v in vs):
                        self.unknown.add(nm)
        return out


def places(rv):
    k = rv[0]
    if k in ('ref', 'addr'):
        return [rv[2]]
    if k in ('discr', 'len'):
        return [rv[1]]
    ops = {'use': rv[1:2], 'repeat': rv[1:2], 'bin': rv[2:4], 'cbin': rv[2:4], 'cast': rv[2:3], 'un': rv[2:3],
           'agg': rv[2] if k == 'agg' else []}.get(k, [])
    return [o[1] for o in ops if o[0] in 'cm']


def check(ctx, rep):
    doc = documented(ctx.repo)
    sel = sorted({k for k, v in doc.items() if v} | {k for k in BASE if k in doc})
    for k in BASE:
        if k not in doc:
            rep.notes.append(f'{k[0]}::{k[1]} is no longer a public function of crylib')
    cr = dump(ctx, sel)
    insts = {}
    for f in cr.fns:
        pass
    roots = next(f for f in cr.fns if f['crate'] == 'ctroots' and f['body'])
    for l in roots['body']['locals']:
        pass
    ids = []
    for blk in roots['body']['blocks']:
        for s in blk[0]:
            if s[1] == '=' and s[3][0] == 'cast':
                o = s[3][2]
                if o[0] == 'k':
                    t = cr.types[o[1][0]]
                    if isinstance(t.get('inst'), int):
                        ids.append(t['inst'])
    an = Taint(cr)
    fns = 0
    for fid in ids:
        f = cr.fns[fid]
        if not f.get('body'):
            rep.stat('undecided')
            rep.notes.append(f'no MIR for {f["name"]}')
            continue
        bad, rounds = an.run(fid)
        fns += an.nfn
        rep.stat('constraints', len(an.cons))
        rep.stat('obligations', len(an.checks))
        name = re.sub(r'::<.*?>', '', f['def'])
        if an.unknown:
            rep.notes.append(f'{name}: secrets reach functions that could not be looked into: {sorted(an.unknown)}')
        first = bad[0] if bad else None
        rep.ob(f'ct:{name}', not bad,
               f'{name} is documented as constant-time, but in {first[1]["name"]} {first[3]}' if bad else '',
               cr.site(first[2]) if bad else cr.site(f['span']))
    rep.stat('function instances', fns)
    rep.floor('functions documented as constant-time', len(ids), 50)
    rep.samples.append('rule: with the digits, carries and borrows of the operands secret and lengths public, no branch, address, '
                       'variable division or early-exit comparison depends on a secret')

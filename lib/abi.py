"""C header <-> library agreement: clang's AST of the shipped header against rustc's layouts and
signatures of the exported items."""
import json, os, re, subprocess
from core import need, Infra

PRIM = {'char': (1, 1), 'signed char': (1, 1), 'unsigned char': (1, 1), 'uint8_t': (1, 1), 'int8_t': (1, 1),
        'uint16_t': (2, 2), 'int16_t': (2, 2), 'short': (2, 2), 'unsigned short': (2, 2),
        'int': (4, 4), 'unsigned int': (4, 4), 'uint32_t': (4, 4), 'int32_t': (4, 4),
        'uint64_t': (8, 8), 'int64_t': (8, 8), 'size_t': (8, 8), 'ptrdiff_t': (8, 8), 'long': (8, 8),
        'unsigned long': (8, 8), 'uintptr_t': (8, 8), 'intptr_t': (8, 8), '_Bool': (1, 1), 'bool': (1, 1)}
SIGNED = {'char', 'signed char', 'int8_t', 'int16_t', 'short', 'int', 'int32_t', 'int64_t', 'ptrdiff_t', 'long',
          'intptr_t'}


def clang_ast(path):
    r = need(['clang', '-x', 'c', '-fsyntax-only', '-Xclang', '-ast-dump=json', path])
    return json.loads(r.stdout)


def macros(path):
    """object-like integer macros the header itself defines"""
    out = {}
    r = need(['clang', '-x', 'c', '-E', '-dD', path])
    cur = None
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r'#define\s+(\w+)\s+\(?(0x[0-9a-fA-F]+|\d+)[uUlL]*\)?\s*$', l)
        if m and cur and os.path.abspath(cur) == os.path.abspath(path):
            out[m.group(1)] = int(m.group(2), 0)
    return out


class Header:
    def __init__(self, path):
        self.structs, self.enums, self.typedefs, self.funcs = {}, {}, {}, {}
        a = clang_ast(path)
        cur = [None]
        for d in a['inner']:
            loc = d.get('loc', {})
            if 'file' in loc:
                cur[0] = loc['file']
            inc = 'includedFrom' in loc or 'includedFrom' in loc.get('expansionLoc', {})
            f = cur[0]
            mine = f and os.path.abspath(f) == os.path.abspath(path)
            k = d['kind']
            if k == 'TypedefDecl' and mine:
                self.typedefs[d['name']] = d['type']['qualType']
            if not mine:
                continue
            if k == 'RecordDecl' and d.get('completeDefinition'):
                self.structs[d['name']] = [(x['name'], x['type']['qualType']) for x in d['inner']
                                           if x['kind'] == 'FieldDecl']
            elif k == 'EnumDecl':
                v, m = -1, {}
                for e in d.get('inner', []):
                    if e['kind'] != 'EnumConstantDecl':
                        continue
                    c = None

                    def find(x):
                        nonlocal c
                        if 'value' in x and c is None and x['kind'] in ('ConstantExpr', 'IntegerLiteral'):
                            c = int(x['value'])
                        for y in x.get('inner', []):
                            find(y)
                    for x in e.get('inner', []):
                        find(x)
                    v = c if c is not None else v + 1
                    m[e['name']] = v
                self.enums[d['name']] = m
            elif k == 'FunctionDecl':
                qt = d['type']['qualType']
                self.funcs[d['name']] = (qt[:qt.index('(')].strip(),
                                         [x['type']['qualType'] for x in d.get('inner', []) if x['kind'] == 'ParmVarDecl'])

    def norm(self, t):
        t = t.strip()
        while True:
            u = re.sub(r'\b(const|volatile|restrict)\b', '', t).strip()
            u = re.sub(r'\s+', ' ', u)
            if u in self.typedefs and u not in PRIM:
                t = self.typedefs[u]
                continue
            return u

    def layout(self, t):
        t = self.norm(t)
        if '(*)' in t or t.endswith('*'):
            return 8, 8
        if t in PRIM:
            return PRIM[t]
        if t.startswith('enum '):
            return 4, 4
        if t.startswith('struct '):
            off, al = 0, 1
            for _, ft in self.structs[t[7:]]:
                s, a = self.layout(ft)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Infra('C type ' + t)


def snake(n):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', n).upper()


class Match:
    def __init__(self, h, cr):
        self.h, self.cr = h, cr

    def peel(self, t):
        """through transparent wrappers and nullable function pointers"""
        while True:
            ty = self.cr.ty(t)
            if ty['k'] == 'adt' and ty['adt'] == 'struct' and 'is_transparent: true' in ty['repr']:
                fs = [f for f in ty['vs'][0][2]
                      if not (self.cr.ty(f[1]).get('layout') or {}).get('size') == 0]
                t = fs[0][1]
                continue
            if ty['k'] == 'adt' and ty.get('def', '').endswith('option::Option') and ty['args'][0][0] == 't':
                t = ty['args'][0][1]
                continue
            return t, ty

    def same(self, c, t, depth=0):
        """'' if the C type and the Rust type agree, else why not"""
        c = self.h.norm(c)
        t, ty = self.peel(t)
        k = ty['k']
        if '(*)' in c:
            if k != 'fnptr':
                return f'{c} against {ty["name"]}'
            i = c.index('(*)')
            ret, args = c[:i].strip(), c[i + 3:].strip()[1:-1]
            args = [] if args in ('void', '') else args.split(',')
            if len(args) != len(ty['ins']):
                return f'{c} takes {len(args)} arguments, {ty["name"]} {len(ty["ins"])}'
            if 'extern "C"' not in ty['name']:
                return f'{ty["name"]} does not use the C calling convention'
            for a, b in zip(args, ty['ins']):
                r = self.same(a, b, depth + 1)
                if r:
                    return r
            return self.same(ret, ty['out'], depth + 1)
        if c.endswith('*'):
            if k not in ('ptr', 'ref'):
                return f'{c} against {ty["name"]}'
            e = c[:-1].strip()
            et, ety = self.peel(ty['e'])
            e = self.h.norm(e)
            if e == 'void':
                return ''
            if e == 'char':
                return '' if ety['k'] in ('int', 'uint') and ety['bits'] == 8 else f'{c} against {ty["name"]}'
            if e.startswith('struct '):
                n = e[7:]
                if ety['k'] != 'adt' or ety['def'].rsplit('::', 1)[-1] != n:
                    return f'{c} against {ty["name"]}'
                return ''
            return self.same(e, ty['e'], depth + 1)
        if c == 'void':
            return '' if k == 'tuple' or ty['name'] == '()' else f'void against {ty["name"]}'
        if c in PRIM:
            if k not in ('int', 'uint', 'bool'):
                # a fieldless C enum passed as its integer
                if k == 'adt' and ty['adt'] == 'enum' and ty['layout']['size'] == PRIM[c][0] and c == 'int':
                    return ''
                return f'{c} against {ty["name"]}'
            if k == 'bool':
                return '' if c in ('bool', '_Bool') else f'{c} against bool'
            if ty['bits'] != PRIM[c][0] * 8 or (k == 'int') != (c in SIGNED):
                return f'{c} against {ty["name"]}'
            return ''
        if c.startswith('enum '):
            if k != 'adt' or ty['adt'] != 'enum' or ty['def'].rsplit('::', 1)[-1] != c[5:]:
                return f'{c} against {ty["name"]}'
            if ty['layout']['size'] != 4:
                return f'{c} has 4 bytes, {ty["name"]} {ty["layout"]["size"]}'
            return ''
        if c.startswith('struct '):
            if k != 'adt' or ty['def'].rsplit('::', 1)[-1] != c[7:]:
                return f'{c} against {ty["name"]}'
            return ''
        return f'unknown C type {c}'


def find_adt(cr, name):
    for i, ty in enumerate(cr.types):
        if ty['k'] == 'adt' and ty['def'].startswith('turtls::') and ty['def'].rsplit('::', 1)[-1] == name \
                and ty.get('layout'):
            return i
    return None


def int_const(cr, name):
    ty, al, span = cr.consts[name]
    return int.from_bytes(bytes.fromhex(al['b']), 'little')


def check(cx, rep):
    cr = cx.crate('turtls')
    path = os.path.join(cx.repo, 'include/turtls.h')
    if not os.path.exists(path):
        rep.fail('header', 'include/turtls.h is missing')
        return
    h = Header(path)
    m = Match(h, cr)
    # functions
    exported = {f['sym']: f for f in cr.fns if f['crate'] == 'turtls' and f['sym'] == f['def'].rsplit('::', 1)[-1]
                and f['abi'].startswith('C')}
    for name, (ret, params) in sorted(h.funcs.items()):
        f = exported.get(name)
        if f is None:
            rep.fail('fn:' + name, f'{name} is declared in the header but not exported with the C calling convention')
            continue
        site = cr.site(f['span'])
        ins, out = f['sig']
        rep.ob(f'fn:{name}:arity', len(ins) == len(params), f'{len(params)} parameters declared, {len(ins)} defined', site)
        for i, (c, t) in enumerate(zip(params, ins)):
            r = m.same(c, t)
            rep.ob(f'fn:{name}:param{i}', not r, r, site)
        r = m.same(ret, out)
        rep.ob(f'fn:{name}:result', not r, r, site)
    rep.floor('functions', len(h.funcs), 9)
    # structures: every field at the offset and with the type the header promises
    nf = 0
    for name, fields in sorted(h.structs.items()):
        i = find_adt(cr, name)
        if i is None:
            rep.fail('struct:' + name, f'no type {name} in the library')
            continue
        ty = cr.ty(i)
        rf = ty['vs'][0][2]
        offs = ty['layout']['fields'][1]
        size, align = h.layout('struct ' + name)
        rep.ob(f'struct:{name}:size', size == ty['layout']['size'] and align == ty['layout']['align'],
               f"C size {size} align {align}, library {ty['layout']['size']} {ty['layout']['align']}", cr.site(ty['span']))
        rep.ob(f'struct:{name}:repr', 'is_c: true' in ty['repr'], 'the layout is not fixed by repr(C)', cr.site(ty['span']))
        rep.ob(f'struct:{name}:fields', len(rf) == len(fields), 'different number of fields', cr.site(ty['span']))
        by = {n: (t, offs[k]) for k, (n, t) in enumerate(rf)}
        off = 0
        for n, ct in fields:
            s, a = h.layout(ct)
            off = (off + a - 1) // a * a
            if n not in by:
                rep.fail(f'struct:{name}.{n}', 'field missing in the library', cr.site(ty['span']))
            else:
                r = m.same(ct, by[n][0])
                rep.ob(f'struct:{name}.{n}:type', not r, r, cr.site(ty['span']))
                rep.ob(f'struct:{name}.{n}:offset', by[n][1] == off, f'offset {off} in C, {by[n][1]} in the library',
                       cr.site(ty['span']))
            off += s
            nf += 1
    rep.floor('fields', nf, 11)
    # enumerations: same constants, same values, both ways
    ne = 0
    for name, consts in sorted(h.enums.items()):
        i = find_adt(cr, name)
        if i is None:
            rep.fail('enum:' + name, f'no type {name} in the library')
            continue
        ty = cr.ty(i)
        rep.ob(f'enum:{name}:repr', 'is_c: true' in ty['repr'] or 'int: Some' in ty['repr'],
               'the representation is not fixed', cr.site(ty['span']))
        pre = snake(name) + '_'
        lib = {pre + snake(v[0]): v[1] for v in ty['vs']}
        for n, v in consts.items():
            rep.ob(f'enum:{name}:{n}', lib.get(n) == v, f'{n} is {v} in C, {lib.get(n)} in the library', cr.site(ty['span']))
            ne += 1
        for n in lib:
            rep.ob(f'enum:{name}:{n}:declared', n in consts, f'{n} can be returned but is not declared', cr.site(ty['span']))
    rep.floor('enumeration_constants', ne, 35)
    # flags
    nm = 0
    rust = {}
    for full in cr.consts:
        parts = full.split('::')
        if full.startswith('turtls::') and '{' not in full:
            rust.setdefault(parts[-1], []).append(full)
            rust.setdefault('_'.join(parts[-2:]), []).append(full)
    for n, v in sorted(macros(path).items()):
        c = rust.get(n)
        if not c:
            rep.fail('flag:' + n, f'{n} is declared in the header but not defined by the library')
            continue
        rv = int_const(cr, c[0])
        rep.ob('flag:' + n, rv == v, f'{n} is {v} in C and {rv} in the library', cr.site(cr.consts[c[0]][2]))
        nm += 1
    rep.floor('flags', nm, 4)
    rep.samples += [f'{n}: {r} ({", ".join(p)})' for n, (r, p) in list(h.funcs.items())[:4]]


# ---------------------------------------------------------------- alert codes
IANA = {  # RFC 8446 section 6 (and the registry): code -> accepted identifiers
    0: 'close_notify', 10: 'unexpected_message', 20: 'bad_record_mac', 22: 'record_overflow', 40: 'handshake_failure',
    42: 'bad_certificate', 43: 'unsupported_certificate', 44: 'certificate_revoked', 45: 'certificate_expired',
    46: 'certificate_unknown', 47: 'illegal_parameter', 48: 'unknown_ca', 49: 'access_denied', 50: 'decode_error',
    51: 'decrypt_error', 70: 'protocol_version', 71: 'insufficient_security', 80: 'internal_error',
    86: 'inappropriate_fallback', 90: 'user_canceled', 109: 'missing_extension', 110: 'unsupported_extension',
    112: 'unrecognized_name', 113: 'bad_certificate_status_response', 115: 'unknown_psk_identity',
    116: 'certificate_required', 120: 'no_application_protocol'}


def canon_alert(n):
    n = n.upper().replace('CERTIFICATE', 'CERT').replace('ILLEGAL_PARAMETER', 'ILLEGAL_PARAM')
    n = n.replace('USER_CANCELLED', 'USER_CANCELED').replace('DECRYPT_ERORR', 'DECRYPT_ERROR')
    return n.replace('APPLICATION', 'APP').replace('PROTOCOL', 'PROTO').replace('PROTO_VERSION', 'PROTOCOL_VERSION')


def alerts(cx, rep):
    cr = cx.crate('turtls')
    i = find_adt(cr, 'TurtlsAlert')
    if i is None:
        rep.fail('alerts', 'no alert enumeration')
        return
    ty = cr.ty(i)
    want = {canon_alert(v): k for k, v in IANA.items()}
    seen = set()
    for n, v, fs in ty['vs']:
        c = canon_alert(snake(n))
        if c in want:
            rep.ob('code:' + c, want[c] == v, f'{n} has code {v}, the protocol assigns {want[c]}', cr.site(ty['span']))
            seen.add(c)
        else:
            rep.notes.append(f'alert {n} = {v} is not in the table')
    for c in want:
        rep.ob('defined:' + c, c in seen, f'{c} is not defined', cr.site(ty['span']))
    rep.floor('alert_codes', len(seen), 27)
    rep.merge(cx.ai('turtls', 'alerts'))

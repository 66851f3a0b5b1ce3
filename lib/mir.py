"""Thin reader of the driver dump."""


class Crate:
    def __init__(self, j):
        self.j = j
        self.name = j['crate']
        self.files = j['files']
        self.types = j['types']
        self.fns = j['fns']
        self.items = j['items']
        self.consts = {}
        for kind, name, ty, al, span in j['items']:
            if isinstance(al, dict) and 'b' in al:
                self.consts[name] = (ty, al, span)

    def site(self, span):
        return f'{self.files[span[0]]}:{span[1]}' if span else '?'

    def ty(self, i):
        return self.types[i]

    def const_bytes(self, name):
        ty, al, span = self.consts[name]
        return bytes.fromhex(al['b'].replace('_', '0'))

    def alloc(self, i):
        return self.j['allocs'][i]

    def callees(self, f):
        """ids of the functions a body mentions (calls, drops, function values, vtables are items)"""
        out = set()
        b = f.get('body')
        if not b:
            return out

        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'i' and isinstance(x[1], int):
                    out.add(x[1])
                for y in x:
                    walk(y)
        for blk in b['blocks']:
            walk(blk)
        for l in b['locals']:
            t = self.types[l]
            if isinstance(t.get('fn'), int):
                out.add(t['fn'])
        return out

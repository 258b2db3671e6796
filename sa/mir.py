"""Loads the dump of the compiler's monomorphic MIR and decodes evaluated constants."""
import json, re

TRANSPARENT = {
    'std::mem::MaybeUninit', 'core::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'core::mem::ManuallyDrop',
    'std::mem::MaybeDangling', 'core::mem::MaybeDangling', 'core::mem::maybe_dangling::MaybeDangling',
    'std::mem::maybe_dangling::MaybeDangling',
    'std::ptr::NonNull', 'core::ptr::NonNull', 'std::ptr::Unique', 'core::ptr::Unique', 'core::ptr::unique::Unique',
    'std::cell::UnsafeCell', 'core::cell::UnsafeCell', 'std::cell::Cell', 'core::cell::Cell',
    'std::mem::maybe_uninit::MaybeUninit', 'std::boxed::Box', 'alloc::boxed::Box',
    'std::num::Wrapping', 'core::num::Wrapping', 'std::mem::manually_drop::ManuallyDrop',
}


class Ty:
    __slots__ = ('id', 'k', 'd', 's', 'size', 'transparent', 'fe', 'bits', 'signed')


class Fn:
    __slots__ = ('id', 'name', 'defn', 'kind', 'args', 'intr', 'crate', 'span', 'stopped', 'raw', 'locals',
                 'argc', 'spread', 'blocks', 'is_closure', 'ipdom', 'dead', 'compiled', 'names', 'short', 'vidx')


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.files = d['files']
        self.types = []
        for i, t in enumerate(d['types']):
            x = Ty()
            x.id = i
            x.k = t['k']
            x.d = t
            x.s = t['s']
            l = t.get('l')
            x.size = l['size'] if l else None
            x.transparent = x.k in ('struct', 'union') and (t['name'] in TRANSPARENT or t.get('box', False))
            if x.k == 'union':
                x.transparent = True
            x.fe = None
            x.bits = t.get('bits') if x.k in ('int', 'uint') else (32 if x.k == 'char' else 8 if x.k == 'bool' else None)
            x.signed = x.k == 'int'
            self.types.append(x)
        self.allocs = d['allocs']
        self.fns = []
        for i, f in enumerate(d['fns']):
            x = Fn()
            x.id = i
            x.name = f['name']
            x.defn = f['def']
            x.kind = f['kind']
            x.args = f['args']
            x.intr = f['intr']
            x.crate = f['crate']
            x.span = (self.files[f['span'][0]], f['span'][1])
            x.stopped = f['stopped']
            x.vidx = f.get('vidx')
            x.raw = f.get('blocks')
            x.locals = f.get('locals')
            x.names = dict((a, b) for a, b in f.get('names', []))
            x.argc = f.get('argc')
            x.spread = f.get('spread')
            x.is_closure = x.kind == 'item' and re.search(r'\{closure#\d+\}$', x.defn) is not None
            x.ipdom = None
            x.compiled = None
            x.short = x.name
            self.fns.append(x)
        self.roots = {n: i for n, i in d['roots']}
        self.statics = {n: (t, o) for n, t, o in d['statics']}

    def loc(self, sp):
        return f'{self.files[sp[0]]}:{sp[1]}'

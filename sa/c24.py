"""C24 serde forms: hex string of the canonical bytes in readable formats, fixed array of them in the others.
The two format primitives of the libraries (hex::serde, serde_arrays) are the boundary: what is written through them is
recorded, what is read from them is an undetermined byte array or an error."""
from c10 import *
from c12 import TCtx, enc2, dec2, same_el, TW

KINDS = {'hex::serde::serialize': ('w', 'hex'), 'serde_arrays::serialize': ('w', 'array'),
         'hex::serde::deserialize': ('r', 'hex'), 'serde_arrays::deserialize': ('r', 'array')}


class Io:
    """the format: primitives written so far, byte arrays to hand out"""
    def __init__(self, c, root):
        self.c, self.e = c, c.eng
        self.kind = 'hex' if root.endswith('_h') else 'array'
        self.written = []           # (path condition, bytes)
        self.marks = []
        self.pending = []
        self.read = 0
        self.ok = []
        e = self.e
        def h(e, fn, a):
            way, kind = KINDS[fn.defn]
            if 'MissingFieldDeserializer' in fn.name:
                # serde's stand-in for an absent field: anything but an option is an error
                return En(1, (Opq('Error', ('missing field',)),))
            if kind != self.kind:
                raise Bad(f'{root}: a {"readable" if self.kind == "hex" else "binary"} format is given {"a hex string" if kind == "hex" else "an array"}')
            if way == 'w':
                v = a[0]
                while isinstance(v, Ptr) and v.meta is None and isinstance(e.load(v), Ptr):
                    v = e.load(v)
                self.written.append((e.pc, c.codec.bytes_arg(v)))
                n = e.bdd.atom(('write succeeds', len(self.written)))
                return e.mkg([(n, En(0, ((),))), (e.bdd.Not(n), En(1, (Opq('Error', ('w', len(self.written))),)))])
            t = fn.name
            k = self.read
            self.read += 1
            if k >= len(self.pending):
                raise Bad(f'{root}: reads more values than were written')
            m = re.search(r'\[u8; (\d+)\]>$|, u8, (\d+)>$', t)
            want = int(m.group(1) or m.group(2))
            if want != len(self.pending[k]):
                raise Bad(f'{root}: reads {want} bytes where {len(self.pending[k])} are written')
            n = e.bdd.atom(('well formed', k))
            self.ok.append(n)
            return e.mkg([(n, En(0, (self.pending[k],))), (e.bdd.Not(n), En(1, (Opq('Error', ('r', k)),)))])
        def err(e, fn, a):
            return Opq('Error', (fn.name.split('::')[-1],))
        def mark(e, fn, a):
            self.marks.append(bytes(e.load_slice(a[0])).decode())
            return ()
        e.prefix_summaries.insert(0, (lambda f: f.defn in KINDS, h))
        e.prefix_summaries.insert(0, (lambda f: re.search(r'(de|ser)::Error(>)?::\w+(::<.*>)?$', f.name) is not None, err))
        e.prefix_summaries.insert(0, (lambda f: f.defn == 'probe::ser::mark', mark))

    def valid(self):
        n = 1
        for x in self.ok:
            n = self.e.bdd.And(n, x)
        return n

    def write(self, fid, v):
        """bytes of a single value"""
        w = self.writes(fid, v)
        if len(w) != 1:
            raise Bad(f'{len(w)} values are written instead of one')
        return w[0]

    def writes(self, fid, v):
        e, D = self.e, self.e.bdd
        r = e.call(fid, [e.ref(v)])
        node, _ = payload(self.c, r, 0)
        exp = 1
        for i, (g, _) in enumerate(self.written):
            if D.And(e.pc, D.Xor(g, exp)):
                raise Bad(f'value {i} is not written whenever the earlier ones were')
            exp = D.And(exp, D.atom(('write succeeds', i + 1)))
        if D.And(e.pc, D.Xor(node, exp)):
            raise Bad('the result does not tell whether the format accepted the value')
        return [b for _, b in self.written]


def field(P, item, fid):
    root, cases = item
    mod, op = root.split('::')[-2:]
    if mod[0] == 't':
        c = TCtx(P, mod.rstrip('p'))
    else:
        from c04 import Ctx
        c = Ctx(P, dom=CodecDom())
        c.nf = lambda p: p
        c.codec = Codec(c)
    e, D = c.eng, c.eng.bdd
    io = Io(c, root)
    if mod[0] == 'f':
        tname = pm_type(mod)
        sp = c.prime[tname]
        n = c.codec.size(sp)
        if op.startswith('ser'):
            x = sp.var('a')
            out = io.write(fid, x)
            no_panic(c, op)
            same_bytes(c, out, c.codec.encode(x, 'repr'), op)
            return c
        bs = inbytes(c, n, 'in')
        io.pending = [bs]
        r = e.call(fid, [])
        no_panic(c, op)
        x, ok = c.codec.decode(sp, bs, 'repr')
        node, val = payload(c, r, 0)
        ok = D.And(ok, io.valid())
        accepts(c, node, ok, op)
        if io.read != 1:
            raise Bad(f'{op}: nothing is read')
        e.assume(ok)
        for g, v in (val.alts if isinstance(val, G) else [(1, val)]):
            if e.feasible(g) and not (isinstance(v, FE) and v.p == x.p):
                raise Bad(f'{op}: {v!r} but must be {x!r}'[:300])
        return c
    b = c.b
    n = c.codec.size(b)
    if op.startswith('ser'):
        a = (b.var('a0'), b.var('a1'))
        w = io.writes(fid, a)
        no_panic(c, op)
        if len(w) != 2:
            raise Bad(f'{op}: {len(w)} values are written instead of two')
        if sorted(io.marks) != ['c0', 'c1']:
            raise Bad(f'{op}: the fields are called {io.marks}')
        if io.marks != ['c0', 'c1']:
            raise Bad(f'{op}: the coefficients are written in the order {io.marks}')
        for i in range(2):
            same_bytes(c, w[i], c.codec.encode(a[i], 'repr'), op)
        return c
    io.pending = [inbytes(c, n, 'in%d' % i) for i in range(3 if op[:3] == 'dup' else 2)]
    r = e.call(fid, [])
    no_panic(c, op)
    if op[:2] != 'de' and op[:3] != 'rev':
        node, val = payload(c, r, 0)
        if e.feasible(node):
            raise Bad(f'{op}: an element is made of input in which a coefficient is missing or given twice')
        return c
    if op[:3] == 'rev':
        io.pending.reverse()
    elif io.kind == 'hex' and io.marks != ['c0', 'c1']:
        raise Bad(f'{op}: the fields are called {io.marks}')
    if io.read != 2:
        raise Bad(f'{op}: {io.read} values are read instead of two')
    x, k0 = c.codec.decode(b, io.pending[0], 'repr')
    y, k1 = c.codec.decode(b, io.pending[1], 'repr')
    ok = D.And(io.valid(), D.And(k0, k1))
    node, val = payload(c, r, 0)
    accepts(c, node, ok, op)
    e.assume(ok)
    same_el(c, val, (x, y), op)
    return c


def inbytes(c, n, nm):
    D = c.eng.bdd
    return tuple(BV(tuple(D.atom((nm, i, j)) for j in range(8))) for i in range(n))


TY = {'bn_fq': 'bn256::Fq', 'bn_fr': 'bn256::Fr', 'bls_fq': 'bls12381::Fq', 'bls_fr': 'bls12381::Fr', 'pl_fp': 'pluto_eris::Fp',
      'pl_fq': 'pluto_eris::Fq', 'k1_fp': 'secp256k1::Fp', 'k1_fq': 'secp256k1::Fq', 'r1_fp': 'secp256r1::Fp', 'r1_fq': 'secp256r1::Fq'}


def pm_type(mod):
    return 'halo2curves::' + TY[mod[2:]]


def main():
    P = dump('C24', ['ser'])
    chk = Check('C24', '', 'what reaches the format is the canonical encoding; what is returned is decoded from it')
    its = []
    for r, f in sorted(P.roots.items()):
        p = r.split('::')
        if p[-3:-2] != ['ser'] or p[-1] not in ('ser_h', 'ser_b', 'de_h', 'de_b') and p[-2][-1] != 'p':
            continue
        for x in (['fin', 'id'] if p[-2][0] in 'ac' else ['any']):
            its.append(((r, (x,)), f))
    if len(its) < 13 * 4 + 22 * 8 + 27:
        print('probe roots missing')
        sys.exit(2)
    def fn(P, item, fid):
        if item[0].split('::')[-2][0] in 'ac':
            return compressed(P, item, fid, Io)
        return field(P, item, fid)
    run_items(P, chk, its, fn, 'serde form = canonical encoding')
    chk.finish()

"""C10 compressed point encodings; C11 uncompressed and raw point encodings"""
from curves import *
from codec import *
from c07 import run_items

SIGN = {'bls_g1': 'lex', 'bls_g2': 'lex'}
FLAGS = {'bls_g1': 'three', 'bls_g2': 'three', 'k1': 'extra', 'r1': 'extra', 'q1': 'extra'}     # others: two spare bits

COMP = ['a_to', 'c_to', 'a_from', 'c_from', 'a_from_un', 'c_from_un']
REST = ['u_to', 'u_from', 'u_from_un', 'ra_to', 'rc_to', 'ra_from', 'rc_from', 'ra_from_un', 'rc_from_un', 'ra_write', 'rc_write',
        'ra_read', 'rc_read', 'ra_read_un', 'rc_read_un']


class PCtx(CCtx):
    def __init__(self, P, mod):
        super().__init__(P, mod, dom=CodecDom())
        self.codec = Codec(self)
        self.sz = self.codec.size(self.base)
        self.signk = SIGN.get(mod, 'odd')
        self.flags = FLAGS.get(mod, 'two')
        self.be = self.codec.big(self.base, 'bytes')

    def xy(self, name):
        x, y = super().xy(name)
        # no point of order two: y never vanishes on the curve
        self.base.vars.unit.add(max(y.vars()))
        return x, y

    def inbytes(self, n, name='in'):
        D = self.eng.bdd
        return tuple(BV(tuple(D.atom((name, i, j)) for j in range(8))) for i in range(n))

    def layout(self):
        """(total bytes, flag byte index, x offset, {flag: bit})"""
        if self.flags == 'extra':
            return self.sz + 1, 0, 1, {'sign': 7, 'id': 6}
        i = 0 if self.be else self.sz - 1
        if self.flags == 'two':
            return self.sz, i, 0, {'sign': 7, 'id': 6}
        return self.sz, i, 0, {'comp': 7, 'id': 6, 'sign': 5}

    def flip(self, x, y, sign):
        """(x, +-y) with the requested sign node"""
        D = self.eng.bdd
        s = self.codec.sign(self.fe(y), self.signk)
        return self.eng.mkg([(D.Xor(s, sign), self.fe(-y)), (D.Not(D.Xor(s, sign)), self.fe(y))])


def no_two_torsion(mod):
    """x^3 + a x + b has no root in the base field: decided on the constants (a = 0: -b is not a cube; otherwise
    gcd(x^q - x, x^3 + a x + b) = 1)"""
    from ecpy import F1, F2
    from c06 import py_curve
    C, _ = py_curve(mod)
    F = C.F
    q = F.p if isinstance(F, F1) else F.p ** 2
    # x^q mod (x^3 + a x + b)
    a, b = C.a, C.b
    def mul(u, v):
        w = [F.c(0)] * 5
        for i in range(3):
            for j in range(3):
                w[i + j] = F.add(w[i + j], F.mul(u[i], v[j]))
        for k in (4, 3):
            w[k - 2] = F.sub(w[k - 2], F.mul(w[k], a))
            w[k - 3] = F.sub(w[k - 3], F.mul(w[k], b))
        return w[:3]
    r, base, e = [F.c(1), F.c(0), F.c(0)], [F.c(0), F.c(1), F.c(0)], q
    while e:
        if e & 1:
            r = mul(r, base)
        base = mul(base, base)
        e >>= 1
    r[1] = F.sub(r[1], F.c(1))
    # gcd(r, f) has degree 0  <=>  r invertible mod f: resultant of r and the cubic is non-zero
    # multiplication-by-r matrix determinant
    M = []
    v = r
    for _ in range(3):
        M.append(v)
        v = mul(v, [F.c(0), F.c(1), F.c(0)])
    def det3(m):
        t = lambda i, j, k, l: F.sub(F.mul(m[i][j], m[k][l]), F.mul(m[i][l], m[k][j]))
        return F.add(F.sub(F.mul(m[0][0], t(1, 1, 2, 2)), F.mul(m[0][1], t(1, 0, 2, 2))), F.mul(m[0][2], t(1, 0, 2, 1)))
    return not F.zero(det3(M))


def same_bytes(c, got, exp, what):
    e, D = c.eng, c.eng.bdd
    if len(got) != len(exp):
        raise Bad(f'{what}: {len(got)} bytes, expected {len(exp)}')
    for i, (x, y) in enumerate(zip(got, exp)):
        x = c.codec.flatten(x)
        p, q = bits_of(x, 8), bits_of(y, 8)
        if p is None:
            raise Unsupported(f'{what}: byte {x!r}'[:100])
        for j in range(8):
            if D.And(e.pc, D.Xor(p[j], q[j])):
                raise Bad(f'{what}: byte {i} bit {j} is {D.show(p[j])[:200]} but must be {D.show(q[j])[:200]}')


def flatv(v):
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return v


def payload(c, r, good):
    """(node, value under the node) of CtOption/Option/Result"""
    e = c.eng
    if isinstance(r, tuple) and len(r) == 2 and good is None:
        return e.bnode(choice(r[1])), r[0]
    n, alts = 0, []
    for g, x in (r.alts if isinstance(r, G) else [(1, r)]):
        if not isinstance(x, En):
            raise Unsupported(f'result {x!r}'[:80])
        if x.v == good:
            n = e.bdd.Or(n, g)
            alts.append((g, x.f[0]))
    return n, (e.mkg(alts) if alts else None)


def accepts(c, node, exp, what, at_least=False):
    e, D = c.eng, c.eng.bdd
    d = D.And(e.pc, D.And(exp, D.Not(node)))
    if d:
        raise Bad(f'{what}: refuses a valid encoding: when {D.show(d)[:300]}')
    if not at_least:
        d = D.And(e.pc, D.And(node, D.Not(exp)))
        if d:
            raise Bad(f'{what}: accepts an invalid encoding: when {D.show(d)[:300]}')


def same_val(c, got, exp, what):
    """got, exp: tuples of possibly gated elements, compared under the path condition"""
    e, D = c.eng, c.eng.bdd
    for i, (x, y) in enumerate(zip(got, exp)):
        for g, u in (x.alts if isinstance(x, G) else [(1, x)]):
            for h, v in (y.alts if isinstance(y, G) else [(1, y)]):
                if not D.And(e.pc, D.And(g, h)):
                    continue
                if not isinstance(u, FE) or u.f is not v.f:
                    raise Bad(f'{what}[{i}]: not a field element: {u!r}'[:200])
                d = c.nf(u.p - v.p)
                if not d.is_zero():
                    raise Bad(f'{what}[{i}]: {u.f.show(u.p)[:200]} but must be {v.f.show(v.p)[:200]} when {D.show(D.And(e.pc, D.And(g, h)))[:200]}')


def same_pt(c, got, exp, what):
    """affine or projective result against affine expectation (None: identity)"""
    e = c.eng
    def vecs(v):
        """expand a gated struct"""
        if isinstance(v, G):
            for g, x in v.alts:
                if e.feasible(g):
                    yield g, x
        else:
            yield 1, v
    for g, v in vecs(got):
        sv = e.pc
        e.pc = e.bdd.And(e.pc, g)
        if len(v) == 2:
            same_val(c, v, exp or (c.base.const(0), c.base.const(0)), what)
        elif exp is None:
            c.same_point(v, c.proj(('id',)), what)
        else:
            same_val(c, v, exp + (c.base.const(1),), what)
        e.pc = sv


def compressed(P, item, fid, io=None):
    root, cases = item
    mod, op = root.split('::')[-2:]
    if io:
        op, mod = mod[0] + {'ser': '_to', 'de': '_from'}[op.split('_')[0]], mod[2:]
    c = PCtx(P, mod)
    if io:
        io = io(c, root)
    e, D = c.eng, c.eng.bdd
    n, fi, xo, fl = c.layout()
    what = f'{op}({",".join(cases)})'
    if op in ('a_to', 'c_to'):
        v, m = c.point('P', 'A' if op == 'a_to' else 'P', cases[0])
        out = io.write(fid, v) if io else flatv(e.call(fid, [e.ref(v)]))
        no_panic(c, op)
        exp = [0] * n
        x, y = (c.base.const(0), None) if m[0] == 'id' else (c.fe(m[1]), c.fe(m[2]))
        xb = c.codec.encode(x, 'bytes')
        exp[xo:xo + c.sz] = xb
        fb = list(bits_of(exp[fi], 8))
        for k, b in fl.items():
            fb[b] = {'sign': c.codec.sign(y, c.signk) if y is not None else 0, 'id': int(m[0] == 'id'), 'comp': 1}[k] if fb[b] == 0 else None
        if None in fb:
            raise Unsupported('flag overlaps the coordinate')
        exp[fi] = mkbv(fb)
        same_bytes(c, out, exp, what)
        return c
    bs = c.inbytes(n)
    raw = bits_of(bs[fi], 8)
    bit = {k: raw[b] for k, b in fl.items()}
    # the identity flag splits the analysis into two cases
    e.assume(bit['id'] if cases[0] == 'id' else D.Not(bit['id']))
    fb = list(raw)
    for b in fl.values():
        fb[b] = 0
    clean = list(bs)
    clean[fi] = mkbv(fb)
    x, okx = c.codec.decode(c.base, tuple(clean[xo:xo + c.sz]), 'bytes')
    rhs = c.rhs_poly(x.p)
    c.codec.rhs.append(c.nf(rhs))
    y, issq = c.codec.sqrt(c.fe(rhs))
    ok = okx
    if c.flags == 'extra':
        for b in fb:
            ok = D.And(ok, D.Not(b))
    if 'comp' in bit:
        ok = D.And(ok, bit['comp'])
    if cases[0] == 'id':
        ok = D.And(ok, D.And(c.ops.zero_node(x), D.Not(bit['sign'])))
        exp = None
    else:
        ok = D.And(ok, issq)
        exp = (x, c.flip(x.p, y.p, bit['sign']))
    if io:
        io.pending = [bs]
        r = e.call(fid, [])
        ok = D.And(ok, io.valid())
    else:
        r = e.call(fid, [e.ref((bs,))])
    no_panic(c, op)
    node, val = payload(c, r, 0 if io else None)
    accepts(c, node, ok, what, at_least=op.endswith('_un'))
    e.assume(ok)
    same_pt(c, val, exp, what)
    return c


def uncompressed(P, item, fid):
    root, cases = item
    mod, op = root.split('::')[-2:]
    c = PCtx(P, mod)
    e, D = c.eng, c.eng.bdd
    sz = c.sz
    what = f'{op}({",".join(map(str, cases))})'
    if op == 'u_to':
        v, m = c.point('P', 'A', cases[0])
        out = flatv(e.call(fid, [e.ref(v)]))
        no_panic(c, op)
        same_bytes(c, out, c.codec.encode(v[0], 'bytes') + c.codec.encode(v[1], 'bytes'), what)
        return c
    if op in ('u_from', 'u_from_un'):
        bs = c.inbytes(2 * sz)
        if cases[0] == 'zero':
            bs = (0,) * (2 * sz)
        x, a = c.codec.decode(c.base, bs[:sz], 'bytes')
        y, b = c.codec.decode(c.base, bs[sz:], 'bytes')
        ok = D.And(a, b)
        if op == 'u_from':
            ok = D.And(ok, D.Or(c_node(c, x.p, y.p), D.And(c.ops.zero_node(x), c.ops.zero_node(y))))
        r = e.call(fid, [e.ref((bs,))])
        no_panic(c, op)
        node, val = payload(c, r, None)
        accepts(c, node, ok, what)
        e.assume(ok)
        same_ct_id(c, val, x, y, what)
        return c
    kind = 'A' if op.startswith('ra') else 'P'
    k = 2 if kind == 'A' else 3
    act = op[3:]
    if act in ('to', 'write'):
        v, m = c.point('P', kind, cases[0])
        if act == 'to':
            out = c.codec.vec_items(e.call(fid, [e.ref(v)]))
        else:
            w = e.ref(c.codec.vec((1, 2, 3)))
            r = e.call(fid, [e.ref(v), w])
            for g, x in (r.alts if isinstance(r, G) else [(1, r)]):
                if x.v != 0:
                    raise Bad(f'{what}: writing to a growing buffer can fail')
            out = c.codec.vec_items(e.load(w))
            if out[:3] != (1, 2, 3):
                raise Bad(f'{what}: overwrites earlier output')
            out = out[3:]
        no_panic(c, op)
        exp = ()
        for x in v:
            exp += c.codec.encode(x, 'raw')
        same_bytes(c, out, exp, what)
        return c
    n = k * sz
    delta = cases[0]
    z0 = delta == 'z0'
    extra = 0 if delta in ('z0', 'fin') else delta
    total = n + extra
    if total < 0:
        return None
    bs = c.inbytes(total)
    if z0:
        bs = bs[:2 * sz] + (0,) * sz
    un = act.endswith('_un')
    rd = act.startswith('read')
    exact = extra == 0 or (rd and extra > 0)
    els, ok = [], 1
    if exact:
        for i in range(k):
            x, a = c.codec.decode(c.base, bs[i * sz:(i + 1) * sz], 'raw')
            els.append(x)
            ok = D.And(ok, a)
    if kind == 'P' and exact and not z0:
        for v in els[2].p.vars():
            c.base.vars.unit.add(v)
        c.dom.nonzero.append(els[2].p.monic())
    sl = e.ref_slice(bs)
    if rd:
        cell = e.ref(sl)
        r = e.call(fid, [cell])
    else:
        r = e.call(fid, [sl])
    no_panic(c, op)
    if un:
        node, val = 1, r
        e.assume(ok)
        ok = 1
    else:
        node, val = payload(c, r, 0 if rd else 1)
        if not exact:
            if D.And(e.pc, node):
                raise Bad(f'{what}: accepts {total} bytes instead of {n}')
            return c
        X, Y = els[0].p, els[1].p
        if kind == 'A':
            on = D.Or(c_node(c, X, Y), D.And(c.ops.zero_node(els[0]), c.ops.zero_node(els[1])))
        elif z0:
            on = D.And(c.ops.zero_node(els[0]), D.Not(c.ops.zero_node(els[1])))
        else:
            on = c_node(c, X, Y, els[2].p)
        accepts(c, node, D.And(ok, on), what)
        e.assume(D.And(ok, on))
    if val is None:
        raise Bad(f'{what}: never returns a value')
    vals = val
    if isinstance(val, G):
        cand = [x for g, x in val.alts if e.feasible(g)]
        if len(cand) != 1:
            raise Unsupported('several values')
        vals = cand[0]
    same_val(c, vals, tuple(els), what)
    if rd:
        p = e.load(cell)
        if isinstance(p, G):
            p = e.mkg(p.alts)
        if not isinstance(p, Ptr):
            raise Bad(f'{what}: consumes an input-dependent number of bytes')
        rest = e.load_slice(p) if p.meta else ()
        if rest != tuple(bs[n:]):
            raise Bad(f'{what}: consumes {total - len(rest)} bytes instead of {n}')
    return c


def c_node(c, x, y, z=None):
    r = c.base.ring
    z = z if z is not None else Poly.const(r, 1)
    return c.ops.zero_node(c.fe(y * y * z - x * x * x - (x * z * z).scale(c.a) - (z * z * z).scale(c.b)))


def same_ct_id(c, val, x, y, what):
    """(x, y), where the all-zero pair may have been replaced by the identity constant (0, 0)"""
    e, D = c.eng, c.eng.bdd
    zz = D.And(c.ops.zero_node(x), c.ops.zero_node(y))
    sv = e.pc
    for n, exp in ((D.Not(zz), (x, y)), (zz, None)):
        e.pc = D.And(sv, n)
        if e.pc == 0:
            continue
        if exp is None:
            for g, v in (val.alts if isinstance(val, G) else [(1, val)]):
                if not e.feasible(g):
                    continue
                for i, (u, w) in enumerate(zip(v, (x, y))):
                    for h, a in (u.alts if isinstance(u, G) else [(1, u)]):
                        if D.And(e.pc, D.And(g, h)) and not (a.p.is_zero() or a == w):
                            raise Bad(f'{what}: identity has coordinate {a!r}'[:200])
        else:
            same_pt(c, val, exp, what)
    e.pc = sv


def items(P, ops):
    out = []
    for r, f in sorted(P.roots.items()):
        parts = r.split('::')
        if parts[-3] != 'codec' or parts[-2].startswith('t_') or parts[-1] not in ops:
            continue
        op = parts[-1]
        if op in ('a_to', 'c_to', 'u_to', 'ra_to', 'rc_to', 'ra_write', 'rc_write'):
            cs = ['fin', 'id']
        elif op in COMP:
            cs = ['fin', 'id']
        elif op.startswith('u_'):
            cs = ['any', 'zero']
        else:
            rd = 'read' in op
            un = op.endswith('_un')
            cs = ['fin', 'z0'] if op.startswith('rc') else ['fin']
            if not un:
                cs += [-1, 1, -8, 8] if rd else [-1, 1, -8, 8]
            elif rd:
                cs += [5]
        out += [((r, (x,)), f) for x in cs]
    return out


def run(prop, ops, rule):
    P = dump(prop, ['codec'])
    chk = Check(prop, '', rule)
    its = items(P, ops)
    if len({i[0][0].split('::')[-2] for i in its}) < 11:
        print('probe roots missing')
        sys.exit(2)
    fn = compressed if prop == 'C10' else uncompressed
    run_items(P, chk, its, fn, rule)
    for mod in pm.CURVES:
        ok = no_two_torsion(mod)
        chk.add(Obl(f'two-torsion::{mod}', 'x^3+ax+b has no root in the base field (used for signs)', 'proved' if ok else 'undecided', '' if ok else 'has 2-torsion', mod))
    chk.finish()


def main():
    run('C10', COMP, 'compressed encoding and decoding equal their bit-level specification')

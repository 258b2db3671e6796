"""C12 quadratic-extension encodings, order and parity in terms of the coefficients"""
from curves import *
from codec import *
from c04 import Ctx
from c10 import same_bytes, payload, accepts, flatv
from c07 import run_items

TW = {'t_bn_fq2': 'bn', 't_bls_fq2': 'bls', 't_pl_fp2': 'pl'}
LENS = (0, 1, -1, 1, -8, 8)


class TCtx(Ctx):
    def __init__(self, P, mod):
        super().__init__(P, dom=CodecDom())
        self.b = self.prime[pm.TOWERS[TW[mod]][0]]
        self.codec = Codec(self)

    def nf(self, p): return p


def enc2(c, x, form):
    return c.codec.encode(x[0], form) + c.codec.encode(x[1], form)


def dec2(c, bs, form):
    n = len(bs) // 2
    x, a = c.codec.decode(c.b, bs[:n], form)
    y, b = c.codec.decode(c.b, bs[n:], form)
    return (x, y), c.eng.bdd.And(a, b)


def same_el(c, got, exp, what):
    e, D = c.eng, c.eng.bdd
    alts = got.alts if isinstance(got, G) else [(1, got)]
    for g, v in alts:
        if not e.feasible(g):
            continue
        for i in range(2):
            u = v[i]
            for h, x in (u.alts if isinstance(u, G) else [(1, u)]):
                if D.And(e.pc, D.And(g, h)) and not (isinstance(x, FE) and x.p == exp[i].p):
                    raise Bad(f'{what}: coefficient {i} is {x!r} but must be {exp[i]!r}'[:400])


def order_node(c, x, y):
    """(less, equal) of (c0, c1) pairs, most significant coefficient c1"""
    D = c.eng.bdd
    z = lambda i: c.ops.zero_node(FE(c.b, x[i].p - y[i].p))
    l = lambda i: c.codec.lt_node(x[i], y[i])
    e1, e0 = z(1), z(0)
    lt = D.ite(e1, D.And(D.Not(e0), l(0)), l(1))
    return lt, D.And(e1, e0)


def check(P, item, fid):
    root, cases = item
    mod, op = root.split('::')[-2:]
    c = TCtx(P, mod)
    e, D = c.eng, c.eng.bdd
    case = cases[0]
    what = f'{op}({case})'
    n = 2 * c.codec.size(c.b)
    D_in = lambda k: tuple(BV(tuple(D.atom(('in', i, j)) for j in range(8))) for i in range(k))
    elem = lambda s: (c.b.var(s + '0'), c.b.var(s + '1'))
    if op in ('to_bytes', 'end_to_bytes', 'to_repr', 'raw_to', 'raw_write'):
        a = elem('a')
        form = {'to_repr': 'repr', 'raw_to': 'raw', 'raw_write': 'raw'}.get(op, 'bytes')
        if op == 'raw_write':
            w = e.ref(c.codec.vec((7,)))
            r = e.call(fid, [e.ref(a), w])
            node, _ = payload(c, r, 0)
            if D.And(e.pc, D.Not(node)):
                raise Bad(f'{what}: writing to a growing buffer can fail')
            out = c.codec.vec_items(e.load(w))
            if out[:1] != (7,):
                raise Bad(f'{what}: overwrites earlier output')
            out = out[1:]
        else:
            r = e.call(fid, [e.ref(a)])
            out = c.codec.vec_items(r) if op in ('end_to_bytes', 'raw_to') else flatv(r)
        no_panic(c, op)
        same_bytes(c, out, enc2(c, a, form), what)
        return c
    if op in ('from_bytes', 'end_from_bytes', 'from_repr'):
        bs = D_in(n)
        exp, ok = dec2(c, bs, 'repr' if op == 'from_repr' else 'bytes')
        arg = (bs,) if op == 'from_repr' else e.ref(bs) if op == 'from_bytes' else e.ref_slice(bs)
        r = e.call(fid, [arg])
        no_panic(c, op)
        node, val = payload(c, r, None)
        accepts(c, node, ok, what)
        e.assume(ok)
        same_el(c, val, exp, what)
        return c
    if op in ('raw_from', 'raw_from_un', 'raw_read', 'raw_read_un'):
        rd = 'read' in op
        un = op.endswith('_un')
        if un and (case < 0 or not rd and case):
            return None
        bs = D_in(n + case)
        exact = case == 0 or rd and case > 0
        sl = e.ref_slice(bs)
        cell = e.ref(sl)
        r = e.call(fid, [cell if rd else sl])
        no_panic(c, op)
        node, val = (1, r) if un else payload(c, r, 0 if rd else 1)
        if not exact:
            if D.And(e.pc, node):
                raise Bad(f'{what}: accepts {n + case} bytes instead of {n}')
            return c
        exp, ok = dec2(c, bs[:n], 'raw')
        if not un:
            accepts(c, node, ok, what)
        e.assume(ok)
        same_el(c, val, exp, what)
        if rd:
            p = e.load(cell)
            if isinstance(p, G):
                p = e.mkg(p.alts)
            rest = e.load_slice(p) if isinstance(p, Ptr) and p.meta else ()
            if rest != tuple(bs[n:]):
                raise Bad(f'{what}: consumes a wrong number of bytes')
        return c
    if op in ('is_odd', 'is_even', 'lex'):
        a = elem('a')
        r = e.call(fid, [e.ref(a)])
        no_panic(c, op)
        if op == 'lex':
            exp = D.ite(c.ops.zero_node(a[1]), c.codec.sign(a[0], 'lex'), c.codec.sign(a[1], 'lex'))
        else:
            exp = D.ite(c.ops.zero_node(a[0]), c.codec.sign(a[1], 'odd'), c.codec.sign(a[0], 'odd'))
            if op == 'is_even':
                exp = D.Not(exp)
        same_bool(c, r, exp, what)
        return c
    if op in ('cmp', 'partial_cmp', 'lt'):
        a, b = elem('a'), elem('b')
        r = e.call(fid, [e.ref(a), e.ref(b)])
        no_panic(c, op)
        lt, eq = order_node(c, a, b)
        if op == 'lt':
            same_bool(c, r, lt, what)
            return c
        if op == 'partial_cmp':
            node, r = payload(c, r, 1)
            if D.And(e.pc, D.Not(node)):
                raise Bad(f'{what}: incomparable')
        for want, nd in ((0, lt), (1, eq), (2, D.And(D.Not(lt), D.Not(eq)))):
            got = 0
            for g, x in (r.alts if isinstance(r, G) else [(1, r)]):
                if not isinstance(x, En):
                    raise Unsupported('ordering value')
                if x.v == want:
                    got = D.Or(got, g)
            d = D.And(e.pc, D.Xor(got, nd))
            if d:
                raise Bad(f'{what}: {["less", "equal", "greater"][want]} is returned when {D.show(got)[:200]} but must be when {D.show(nd)[:200]}')
        return c
    if op == 'from_u64':
        v = BV(tuple(D.atom(('v', i)) for i in range(64)))
        r = e.call(fid, [v])
        no_panic(c, op)
        x, _ = c.codec.dec_bits(c.b, v.b + (0,) * (64 * c.b.n - 64), 'can')
        same_el(c, r, (x, c.b.const(0)), what)
        return c
    if op == 'wide':
        fn = P.fns[fid]
        t = P.types[fn.locals[1]]
        k = P.types[t.d['to']].d['len']
        bs = D_in(k)
        r = e.call(fid, [e.ref(bs)])
        no_panic(c, op)
        h = k // 2
        def wide(q):
            b = ()
            for y in q:
                b += bits_of(y, 8)
            return FE(c.b, Poly.var(c.b.ring, c.b.vars.new(('wide', c.b.short, b), real=True)))
        # documented order: the first half of the string is the c1 coefficient
        same_el(c, r, (wide(bs[h:]), wide(bs[:h])), what)
        return c
    return None


def main():
    P = dump('C12', ['codec'])
    rule = 'the extension codec/order/parity equals its definition in terms of the coefficients'
    chk = Check('C12', '', rule)
    its = []
    for r, f in sorted(P.roots.items()):
        parts = r.split('::')
        if parts[-3] != 'codec' or not parts[-2].startswith('t_'):
            continue
        raw = parts[-1] in ('raw_from', 'raw_from_un', 'raw_read', 'raw_read_un')
        its += [((r, (k,)), f) for k in ((0, -1, 1, -8, 8, 'half') if raw else (0,)) if k != 'half']
    if len({i[0][0].split('::')[-2] for i in its}) != 3:
        print('probe roots missing')
        sys.exit(2)
    run_items(P, chk, its, check, rule)
    chk.finish()


if __name__ == '__main__':
    main()

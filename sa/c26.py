"""C26 scalar multiplication"""
from group import *
from c07 import run_items, Slow

GROUPS = ['curve']
ROOTS = ['mul', 'mul_vv', 'mul_vr', 'mul_rv', 'amul', 'amul_vv', 'amul_vr', 'amul_rv', 'mul_as', 'mul_as_r']


def root(P, item, fid, lead=None):
    """lead: position of the leading one of the scalar (-1: the scalar is zero; None: any scalar)"""
    mod, op = item
    c = GCtx(P, [mod])
    e = c.eng
    s = c.of[(mod, 'A' if op.startswith('a') else 'P')]
    pv = s.pt('P')
    sv = s.scalar.var('s', real=True)
    bits = c.codec.enc_bits(sv, 'can')
    if lead is not None:
        bits = tuple(b if i < lead else int(i == lead) for i, b in enumerate(bits))
        if lead >= 0:
            # below the modulus: the leading one must not be that of a larger number
            if 1 << lead >= s.scalar.ring.p:
                return None
        if lead < 0:
            sv = s.scalar.const(0)
        c.codec.back[('can', sv.f.short, c.codec.key(sv).key())] = bits
    fn = P.fns[fid]
    args = []
    for i, v in enumerate((pv, sv)):
        t = P.types[fn.locals[1 + i]]
        args.append(e.ref(v) if t.k == 'ref' else v)
    r = e.call(fid, args)
    no_panic(c, op)
    if '_as' in op:
        r = e.load(args[0])
    ps = c.of[(mod, 'P')]
    c.same(r, FE(ps, c.bmul(c.bit_int(bits), pv.p)), f's*P ({op})')
    return c


def c_bits(P, mod):
    return GCtx(P, [mod]).of[(mod, 'A')].scalar.ring.p.bit_length()


def main():
    chk = Check('C26', '', 'scalar multiplication is the binary expansion of the canonical scalar applied to the point',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'subtle behaves as documented',
                         'point operations form a group (C07, C08)', 'to_repr returns the canonical bytes (C09)'])
    P = dump('C26', ['curve'])
    its = [((r, ('*',)), i) for r, i in sorted(P.roots.items()) if r.split('::')[-1] in ROOTS]
    if len(its) < 11 * len(ROOTS):
        print('probe roots missing')
        sys.exit(2)
    def fn(P, item, fid):
        mod, op = item[0].split('::')[-2:]
        try:
            return root(P, (mod, op), fid)
        except (TooLarge, Unsupported) as x:
            if isinstance(x, Slow):
                raise
            # case distinction over the leading one of the scalar
            nb = c_bits(P, mod)
            last = None
            for l in ([-1, 0, 1, 2, 7, 8, 63, 64, nb - 2, nb - 1] if chk.tier == 'quick' else range(-1, nb)):
                r = root(P, (mod, op), fid, l)
                last = r or last
            if chk.tier == 'quick':
                raise
            return last
    run_items(P, chk, its, fn, 'equal combinations of points, coefficient by coefficient')
    chk.finish()

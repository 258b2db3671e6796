"""C07 the group law is complete and correct on every curve"""
import itertools
from curves import *

ADD = {'add', 'sub'}


def law_root(P, item, fid):
    root, cases = item
    mod, op = root.split('::')[-2:]
    ctx = CCtx(P, mod)
    args, pts = make_args(ctx, fid, cases)
    ret = ctx.eng.call(fid, args)
    no_panic(ctx, op)
    ms = [ctx.proj(m) for k, m, v in pts]
    what = f'{op}({", ".join(cases)})'
    stem = op
    for s in ('_vv', '_vr', '_rv', '_as', '_as_r', '_v'):
        if op.endswith(s):
            stem = op[:-len(s)]
    if stem.endswith('_as'):
        stem = stem[:-3]
    stem = {'madd': 'add', 'amadd': 'add', 'aadd': 'add', 'msub': 'sub', 'amsub': 'sub', 'asub': 'sub', 'aneg': 'neg'}.get(stem, stem)
    got = ctx.eng.load(args[0]) if '_as' in op else ret
    if stem == 'add':
        ctx.same_point(got, sums(ctx, cases, ms[0], ms[1]), what)
    elif stem == 'sub':
        ctx.same_point(got, sums(ctx, cases, ms[0], ctx.neg(ms[1])), what)
    elif stem == 'double':
        ctx.same_point(got, ctx.law(ms[0], ms[0]), what)
    elif stem == 'neg':
        if op.startswith('a'):
            x, y = leaves(got)
            k, m, v = pts[0]
            exp = [Poly(ctx.base.ring, {})] * 2 if m[0] == 'id' else [m[1], -m[2]]
            same(ctx, got, exp, what)
        else:
            ctx.same_point(got, ctx.neg(ms[0]), what)
    else:
        raise Unsupported('no specification for ' + op)
    return ctx


def sums(ctx, cases, a, b):
    """acceptable forms of a + b: P + O is P itself, or the law's y-multiple of it (y is never zero)"""
    out = []
    if cases[0] == 'id':
        out.append(b)
    elif cases[1] == 'id':
        out.append(a)
    return out + [ctx.law(a, b)]


def law_ref(P, item, fid):
    """facts about the reference law itself, on this tree's curve constants"""
    mod, what = item
    ctx = CCtx(P, mod)
    r = ctx.base.ring
    if what == 'no-2-torsion':
        got = ctx.eng.call(P.roots[f'probe::curve::{mod}::curve_a'], []), ctx.eng.call(P.roots[f'probe::curve::{mod}::curve_b'], [])
        a, b = got[0].p.const_val(), got[1].p.const_val()
        if has_root(r, a, b):
            raise Bad('x^3 + ax + b has a root: a point of order two exists and the complete formulas are not complete')
        return ctx
    v1, m1 = ctx.point('P', 'A', 'fin')
    x1, y1 = m1[1:]
    if what == 'chord':
        v2, m2 = ctx.point('Q', 'A', 'fin')
        x2, y2 = m2[1:]
        X, Y, Z = ctx.law(ctx.proj(m1), ctx.proj(m2))
        dx, dy = x2 - x1, y2 - y1
        # x3 = (dy/dx)^2 - x1 - x2 ; y3 = (dy/dx)(x1 - x3) - y1 ; cleared by dx^3
        xn = dy * dy - (x1 + x2) * dx * dx
        yn = dy * (x1 * dx * dx - xn) - y1 * dx * dx * dx
        ok = ctx.nf(X * dx * dx - xn * Z).is_zero() and ctx.nf(Y * dx * dx * dx - yn * Z).is_zero()
    elif what == 'tangent':
        X, Y, Z = ctx.law(ctx.proj(m1), ctx.proj(m1))
        n = (x1 * x1).scale(3) + Poly.const(r, ctx.a)
        d = y1.scale(2)
        xn = n * n - x1.scale(2) * d * d
        yn = n * (x1 * d * d - xn) - y1 * d * d * d
        ok = ctx.nf(X * d * d - xn * Z).is_zero() and ctx.nf(Y * d * d * d - yn * Z).is_zero() \
            and ctx.nf(Z - (y1 * y1 * y1).scale(8)).is_zero()
    elif what == 'inverse':
        X, Y, Z = ctx.law(ctx.proj(m1), ctx.neg(ctx.proj(m1)))
        ok = ctx.nf(X).is_zero() and ctx.nf(Z).is_zero()
    elif what == 'identity':
        X, Y, Z = ctx.law(ctx.proj(m1), ctx.proj(('id',)))
        ok = ctx.unit_ratio([ctx.nf(X), ctx.nf(Y), ctx.nf(Z)], [x1 * y1, ctx.nf(y1 * y1), y1]) or \
            (ctx.nf(X - x1 * Z).is_zero() and ctx.nf(Y - y1 * Z).is_zero())
    if not ok:
        raise Unsupported('reference law is wrong: ' + what)
    return ctx


def has_root(r, a, b):
    """does x^3 + a x + b have a root in the ring's field: gcd(x^q - x, f) != 1"""
    def mulmod(f, g):
        o = [r.zero] * 5
        for i, x in enumerate(f):
            for j, y in enumerate(g):
                o[i + j] = r.add(o[i + j], r.mul(x, y))
        for k in (4, 3):
            c = o[k]
            if not r.is_zero(c):
                o[k - 2] = r.sub(o[k - 2], r.mul(c, a))
                o[k - 3] = r.sub(o[k - 3], r.mul(c, b))
                o[k] = r.zero
        return o[:3]
    q = r.order()
    res = [r.one, r.zero, r.zero]
    x = [r.zero, r.one, r.zero]
    for bit in bin(q)[2:]:
        res = mulmod(res, res)
        if bit == '1':
            res = mulmod(res, x)
    res[1] = r.sub(res[1], r.one)
    # gcd(res, f)
    f = [b, a, r.zero, r.one]
    g = res
    def deg(h):
        for i in range(len(h) - 1, -1, -1):
            if not r.is_zero(h[i]):
                return i
        return -1
    while deg(g) >= 0:
        df, dg = deg(f), deg(g)
        if df < dg:
            f, g = g, f
            continue
        c = r.mul(f[df], r.inv(g[dg]))
        f = list(f)
        for i in range(dg + 1):
            f[df - dg + i] = r.sub(f[df - dg + i], r.mul(c, g[i]))
        if deg(f) < deg(g):
            f, g = g, f
    return deg(f) > 0


OPS = ['add', 'madd', 'amadd', 'aadd', 'sub', 'msub', 'amsub', 'asub', 'neg', 'neg_v', 'aneg', 'aneg_v', 'double']
OPS += [f'{o}_{s}' for o in ('add', 'sub', 'madd', 'msub', 'amadd', 'amsub', 'aadd', 'asub') for s in ('vv', 'vr', 'rv')]
OPS += [f'{o}_{s}' for o in ('add', 'sub', 'madd', 'msub') for s in ('as', 'as_r')]


def main():
    chk = Check('C07', 'abstract interpretation of MIR in the polynomial domain modulo the curve equation',
                'for every combination of finite and identity operands (any representative), the coordinates computed by each group operation are a '
                'unit multiple of the complete addition law modulo the curve equations; no feasible panic',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'subtle behaves as documented',
                         'field operations implement the field (C01, C04)',
                         'Renes-Costello-Batina: the law has no exceptional pair when the curve has no rational 2-torsion'])
    P = dump('curve', ['curve'])
    ctx = CCtx(P, 'bn_g1')
    items = []
    for r, i in P.roots.items():
        mod, op = r.split('::')[-2:]
        if op not in OPS:
            continue
        n = count_points(CCtx(P, mod) if False else ctx_for(P, mod), i)
        for cs in itertools.product(('fin', 'id'), repeat=n):
            items.append(((r, cs), i))
    for mod in pm.CURVES:
        for w in ('no-2-torsion', 'chord', 'tangent', 'inverse', 'identity'):
            items.append((('law:' + mod, w), None))
    def fn(P, item, fid):
        if item[0].startswith('law:'):
            return law_ref(P, (item[0][4:], item[1]), fid)
        return law_root(P, item, fid)
    run_items(P, chk, items, fn, 'projectively equal to the complete law')
    chk.finish()


_ctx = {}
def ctx_for(P, mod):
    if mod not in _ctx:
        _ctx[mod] = CCtx(P, mod)
    return _ctx[mod]

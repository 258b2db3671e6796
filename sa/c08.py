"""C08 point representations: equality, selection, conversions, validation flags"""
import itertools
from curves import *
from c07 import run_items, ctx_for

TWO = {'ct_eq', 'eq', 'act_eq', 'aeq', 'sel', 'asel'}
CONV = {'to_affine', 'to_affine_c', 'into_affine', 'into_affine_r', 'to_curve', 'to_curve_c', 'into_curve', 'into_curve_r',
        'is_id', 'ais_id', 'ais_id_c', 'jac', 'coordinates', 'batch1', 'batch3', 'batch0'}
CONST = {'identity', 'aidentity', 'aidentity_c', 'default', 'adefault'}
FREE = {'on_curve', 'aon_curve', 'new_jac', 'from_xy'}


def curve_node(ctx, x, y, z=None):
    """BDD node of  y^2 z = x^3 + a x z^2 + b z^3"""
    r = ctx.base.ring
    z = z if z is not None else Poly.const(r, 1)
    f = y * y * z - x * x * x - (x * z * z).scale(ctx.a) - (z * z * z).scale(ctx.b)
    return ctx.ops.zero_node(ctx.fe(f))


def zn(ctx, p):
    return ctx.ops.zero_node(ctx.fe(p))


def rep_root(P, item, fid):
    root, cases = item
    mod, op = root.split('::')[-2:]
    ctx = CCtx(P, mod)
    e = ctx.eng
    D = e.bdd
    r = ctx.base.ring
    zero, one = Poly(r, {}), Poly.const(r, 1)
    what = f'{op}({", ".join(cases)})'
    if op in CONST:
        got = e.call(fid, [])
        no_panic(ctx, op)
        if op in ('aidentity', 'aidentity_c', 'adefault'):
            same(ctx, got, [zero, zero], what)
        else:
            ctx.same_point(got, ctx.proj(('id',)), what)
        return ctx
    if op in FREE:
        X, Y = ctx.base.var('X'), ctx.base.var('Y')
        if op == 'aon_curve':
            ret = e.call(fid, [e.ref((X, Y))])
            same_bool(ctx, ret, D.Or(curve_node(ctx, X.p, Y.p), D.And(zn(ctx, X.p), zn(ctx, Y.p))), what)
        elif op == 'from_xy':
            val, some = e.call(fid, [X, Y])
            same_bool(ctx, some, D.Or(curve_node(ctx, X.p, Y.p), D.And(zn(ctx, X.p), zn(ctx, Y.p))), what + ' is_some')
            e.assume(e.bnode(choice(some)))
            same(ctx, val, [X.p, Y.p], what)
        elif op == 'on_curve':
            Z = ctx.base.const(0) if cases[0] == 'z0' else ctx.base.var('Z', True)
            ret = e.call(fid, [e.ref((X, Y, Z))])
            if cases[0] == 'z0':
                # the only point at infinity is (0 : Y : 0) with Y != 0
                same_bool(ctx, ret, D.And(zn(ctx, X.p), D.Not(zn(ctx, Y.p))), what)
            else:
                same_bool(ctx, ret, curve_node(ctx, X.p, Y.p, Z.p), what)
        elif op == 'new_jac':
            Z = ctx.base.const(0) if cases[0] == 'z0' else ctx.base.var('Z', True)
            val, some = e.call(fid, [X, Y, Z])
            if cases[0] == 'z0':
                same_bool(ctx, some, 1, what + ' is_some')
                ctx.same_point(val, ctx.proj(('id',)), what)
            else:
                z = Z.p
                zi = Poly(r, {tuple((v, -k) for v, k in m): c for m, c in z.t.items()})
                x, y = X.p * zi * zi, Y.p * zi * zi * zi
                same_bool(ctx, some, curve_node(ctx, x, y), what + ' is_some')
                ctx.same_point(val, (x, y, one), what)
        no_panic(ctx, op)
        return ctx
    if op.startswith('batch'):
        n = int(op[5:])
        pts, vals = [], []
        for i, c in enumerate(cases):
            v, m = ctx.point('PQR'[i], 'P', c)
            vals.append(v)
            pts.append(m)
        qs = tuple((ctx.base.var(f'q{i}x'), ctx.base.var(f'q{i}y')) for i in range(n))
        p, q = e.ref(tuple(vals)), e.ref(qs)
        e.call(fid, [p, q])
        no_panic(ctx, op)
        got = e.load(q)
        exp = []
        for m in pts:
            exp += [zero, zero] if m[0] == 'id' else [m[1], m[2]]
        same(ctx, got, exp, what)
        return ctx
    args, pts = make_args(ctx, fid, cases)
    ret = e.call(fid, args)
    no_panic(ctx, op)
    ms = [m for k, m, v in pts]
    if op in ('ct_eq', 'eq', 'act_eq', 'aeq'):
        if ms[0][0] == 'id' and ms[1][0] == 'id':
            exp = 1
        elif ms[0][0] != ms[1][0]:
            exp = 0
        else:
            exp = D.And(zn(ctx, ms[0][1] - ms[1][1]), zn(ctx, ms[0][2] - ms[1][2]))
        same_bool(ctx, ret, exp, what)
    elif op in ('sel', 'asel'):
        c = choice(e.load(args[2]) if isinstance(args[2], Ptr) else args[2])
        for val in (1, 0):
            n1 = e.bnode(c) if val else D.Not(e.bnode(c))
            sv = e.pc
            e.pc = D.And(sv, n1)
            same(ctx, tuple(pickg(e, x) for x in leaves(ret)), [x.p for x in leaves(pts[val][2])], f'{what} choice={val}')
            e.pc = sv
    elif op in ('to_affine', 'to_affine_c', 'into_affine', 'into_affine_r'):
        m = ms[0]
        same(ctx, ret, [zero, zero] if m[0] == 'id' else [m[1], m[2]], what)
    elif op in ('to_curve', 'to_curve_c', 'into_curve', 'into_curve_r'):
        ctx.same_point(ret, ctx.proj(ms[0]), what)
    elif op in ('is_id', 'ais_id', 'ais_id_c'):
        same_bool(ctx, ret, int(ms[0][0] == 'id'), what)
    elif op == 'jac':
        X, Y, Z = ret
        m = ms[0]
        if m[0] == 'id':
            same(ctx, (Z,), [zero], what + ' Z')
        else:
            if not isinstance(Z, FE) or len(Z.p.t) != 1 or any(v not in ctx.base.vars.unit for v in Z.p.vars()):
                raise Unsupported('Jacobian Z not a unit')
            same(ctx, (X, Y), [m[1] * Z.p * Z.p, m[2] * Z.p * Z.p * Z.p], what)
    elif op == 'coordinates':
        val, some = ret
        if ms[0][0] == 'id':
            # the trait: "Returns None if this is the identity"
            same_bool(ctx, some, 0, what + ' is_some')
            return ctx
        same_bool(ctx, some, 1, what + ' is_some')
        same(ctx, val, [ms[0][1], ms[0][2]], what)
    else:
        raise Unsupported('no specification for ' + op)
    return ctx


def pickg(e, x):
    if not isinstance(x, G):
        return x
    vals = [v for g, v in x.alts if e.feasible(g)]
    if any(v != vals[0] for v in vals[1:]):
        raise Bad('selection does not depend on the choice alone')
    return vals[0]


def main():
    chk = Check('C08', 'abstract interpretation of MIR in the polynomial domain with gated values',
                'equality, selection, affine/projective/Jacobian conversion, batch normalisation and on-curve flags equal their definition '
                'for every combination of finite and identity operands and every representative; no feasible panic',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'subtle behaves as documented',
                         'field operations implement the field (C01, C04)'])
    P = dump('curve', ['curve'])
    items = []
    for r, i in P.roots.items():
        mod, op = r.split('::')[-2:]
        if op in CONST:
            items.append(((r, ()), i))
        elif op in ('on_curve', 'new_jac'):
            items += [((r, ('z0',)), i), ((r, ('z1',)), i)]
        elif op in FREE:
            items.append(((r, ()), i))
        elif op.startswith('batch'):
            for cs in itertools.product(('fin', 'id'), repeat=int(op[5:])):
                items.append(((r, cs), i))
        elif op in TWO or op in CONV:
            for cs in itertools.product(('fin', 'id'), repeat=count_points(ctx_for(P, mod), i)):
                items.append(((r, cs), i))
    run_items(P, chk, items, rep_root, 'equals its definition')
    chk.finish()

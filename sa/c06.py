"""C06 curve parameters, generators and the endomorphism"""
import ecpy
from curves import *
from c07 import run_items

CONSTS = {'curve_a', 'curve_b', 'acurve_a', 'acurve_b'}
GENS = {'generator', 'generator_i', 'agenerator', 'agenerator_c', 'agenerator_i'}

# published generators (affine); None where only the defining properties are checked
GEN = {
    'bn_g1': (1, 2),
    'bn_g2': ((0x1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed, 0x198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2),
              (0x12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa, 0x090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b)),
    'bls_g1': (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
               0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1),
    'bls_g2': ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
                0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
               (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
                0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)),
    'pl_g1': (-2, 7),
    'pl_g2': ((0x13576c81faf3a13fd815d0e9bd54b845ee935948b84498b27ca972bfb93722e223c9e276a4ebe7559cfc86dd865f07d64f2b5fe6556f9066,
               0x142164cb875db0465e5092f9380f44f555243d011699b7393029f2d201554727aeb383298fdf5847b9b3dff01bbe8d63fe7c781a8fd7bf21),
              (0x2239f7408ead478c58e88d4df1e7418c42fdbb92e64ba85aa4dc17d7dace3f32eb471c004db774bfe78574aca67b3898cd1b78ad106ab9fe,
               0x1260b04d51136590dbb53dfd7caf450aeca714555bbe4f079ca65d97eb28fc9fc697b4e10bbcd9e0539ef82a731fb88ed49e3c080e6d945d)),
    'q1': (0x76C39F5585CB160EB6B06C87A2CE32E23134E45A097781A6A24288E37702EDA6, 0x3FFC646C7B2918B5DC2D265A8E82A7F7D18983D26E8DC055A4120DDAD952677F),
    'eris': (-2, 7),
    'grumpkin': (1, 17631683881184975370165255887551781615748388533673675138860),
    'k1': (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8),
    'r1': (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
}


def py_curve(mod):
    bt, st, a, b = pm.CURVES[mod]
    if bt.startswith('halo2curves::ff_ext'):
        inner = bt[bt.index('<') + 1:-1]
        p = pm.FIELDS[inner][1]
        nr = next(t[1] for t in pm.TOWERS.values() if t[0] == inner)
        return ecpy.Curve(ecpy.F2(p, nr), a, b), pm.FIELDS[st][1]
    return ecpy.Curve(ecpy.F1(pm.FIELDS[bt][1]), a, b), pm.FIELDS[st][1]


def as_int(ctx, v, what):
    if not isinstance(v, FE) or not v.p.is_const():
        raise Unsupported(f'{what}: not a constant')
    if ctx.base.noncanon or ctx.scalar.noncanon:
        raise Bad(f'{what}: constant is not in canonical form')
    return v.p.const_val()


def check(P, item, fid):
    root, cases = item
    mod, op = root.split('::')[-2:]
    ctx = CCtx(P, mod)
    e = ctx.eng
    EC, r = py_curve(mod)
    F = EC.F
    what = f'{op}'
    if op in CONSTS:
        got = as_int(ctx, e.call(fid, []), what)
        no_panic(ctx, op)
        want = EC.a if op.endswith('_a') else EC.b
        if F.c(got) != want:
            raise Bad(f'{op} returns {got}, the curve is y^2 = x^3 + {EC.a} x + {EC.b}')
        return ctx
    if op in GENS:
        v = [as_int(ctx, x, what) for x in leaves(e.call(fid, []))]
        no_panic(ctx, op)
        v = [F.c(x) for x in v]
        if len(v) == 3:
            if F.zero(v[2]):
                raise Bad(f'{op}: the point at infinity')
            zi = F.inv(v[2])
            v = [F.mul(v[0], zi), F.mul(v[1], zi)]
        G = tuple(v)
        if not EC.on(G):
            raise Bad(f'{op}: ({G[0]}, {G[1]}) is not on the curve')
        if F.zero(G[0]) and F.zero(G[1]) or EC.mul(r, G) is not None:
            raise Bad(f'{op}: ({G[0]}, {G[1]}) does not have the prime order of the scalar field')
        ref = GEN.get(mod)
        if ref is not None and (F.c(ref[0]), F.c(ref[1])) != G:
            raise Bad(f'{op}: ({G[0]}, {G[1]}) is not the published generator')
        if ref is None:
            other = [F.c(as_int(ctx, x, what)) for x in leaves(e.call(P.roots[root.replace(op, 'agenerator_i')], []))]
            if tuple(other) != G:
                raise Bad(f'{op} differs from the affine generator')
        return ctx
    if op == 'endo':
        v, m = ctx.point('P', 'P', cases[0])
        ret = e.call(fid, [e.ref(v)])
        no_panic(ctx, op)
        if m[0] == 'id':
            ctx.same_point(ret, ctx.proj(m), what)
            return ctx
        lam = as_int(ctx, e.call(P.roots[root.replace('::endo', '::scalar_zeta')], []), 'scalar ZETA')
        if lam == 1 or pow(lam, 3, r) != 1:
            raise Bad('scalar ZETA is not a primitive cube root of unity')
        g = [F.c(as_int(ctx, x, what)) for x in leaves(e.call(P.roots[root.replace('::endo', '::agenerator_i')], []))]
        q = EC.mul(lam, tuple(g))
        # (x, y) -> (z x, y) is multiplication by lam on the subgroup generated by g iff it is so at g
        z = F.mul(q[0], F.inv(g[0]))
        if q[1] != g[1] or fpow3(F, z) != F.c(1):
            raise Bad('multiplication by scalar ZETA is not of the form (x, y) -> (z x, y) with z^3 = 1')
        ring = ctx.base.ring
        ctx.same_point(ret, (m[1].scale(ring.norm(z)), m[2], Poly.const(ring, 1)), what)
        return ctx
    raise Unsupported('no specification for ' + op)


def fpow3(F, z):
    return F.mul(F.mul(z, z), z)


def main():
    chk = Check('C06', 'constant evaluation and polynomial abstract interpretation of MIR',
                'evaluated constants are the published parameters; generators are on the curve and have order r; endo(x, y) = (z x, y) for the z with [ZETA]G = (z x_G, y_G)',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'field operations implement the field (C01, C04)',
                         'the curve group has order h r (published)'])
    P = dump('curve', ['curve'])
    items = []
    for r, i in P.roots.items():
        mod, op = r.split('::')[-2:]
        if op in CONSTS or op in GENS:
            items.append(((r, ()), i))
        elif op == 'endo' and mod != 'r1':
            items += [((r, ('fin',)), i), ((r, ('id',)), i)]
    run_items(P, chk, items, check, 'parameter is as published')
    chk.finish()

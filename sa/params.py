"""Published parameters, written down independently of the code under analysis."""
BN_X = 4965661367192848881
bn_p = 36 * BN_X**4 + 36 * BN_X**3 + 24 * BN_X**2 + 6 * BN_X + 1
bn_r = 36 * BN_X**4 + 36 * BN_X**3 + 18 * BN_X**2 + 6 * BN_X + 1
BLS_X = -0xd201000000010000
bls_r = BLS_X**4 - BLS_X**2 + 1
bls_p = (BLS_X - 1)**2 * bls_r // 3 + BLS_X
pluto_p = 0x24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001
pluto_q = 0x24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd300000001
k1_p = 2**256 - 2**32 - 977
k1_n = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
r1_p = 2**256 - 2**224 + 2**192 + 2**96 - 1
r1_n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551

# rust type -> (short name, modulus, limbs)
FIELDS = {
    'halo2curves::bn256::Fq': ('bn256::Fq', bn_p, 4),
    'halo2curves::bn256::Fr': ('bn256::Fr', bn_r, 4),
    'halo2curves::bls12381::Fq': ('bls12381::Fq', bls_p, 6),
    'halo2curves::bls12381::Fr': ('bls12381::Fr', bls_r, 4),
    'halo2curves::pluto_eris::Fp': ('pluto_eris::Fp', pluto_p, 7),
    'halo2curves::pluto_eris::Fq': ('pluto_eris::Fq', pluto_q, 7),
    'halo2curves::secp256k1::Fp': ('secp256k1::Fp', k1_p, 4),
    'halo2curves::secp256k1::Fq': ('secp256k1::Fq', k1_n, 4),
    'halo2curves::secp256r1::Fp': ('secp256r1::Fp', r1_p, 4),
    'halo2curves::secp256r1::Fq': ('secp256r1::Fq', r1_n, 4),
}
Q = 'halo2curves::ff_ext::quadratic::QuadExtField<%s>'
C = 'halo2curves::ff_ext::cubic::CubicExtField<%s>'
# tower: base type, quadratic non-residue, sextic non-residue xi (u^2 = nr, v^3 = xi, w^2 = v)
TOWERS = {
    'bn': ('halo2curves::bn256::Fq', -1, (9, 1)),
    'bls': ('halo2curves::bls12381::Fq', -1, (1, 1)),
    'pl': ('halo2curves::pluto_eris::Fp', -5, None),
}


def pluto_xi():
    """v^3 = 57/(u+3)"""
    p = pluto_p
    # 1/(3+u) = (3-u)/(9+5)
    i = pow(14, -1, p)
    return (57 * 3 * i % p, -57 * i % p)


TOWERS['pl'] = ('halo2curves::pluto_eris::Fp', -5, pluto_xi())

# curves: probe module -> (base field rust type, scalar field type, a, b); a and b are integers or Fp2 pairs
def _q2inv(p, nr, a):
    n = pow(a[0] * a[0] - nr * a[1] * a[1], -1, p)
    return (a[0] * n % p, -a[1] * n % p)


_bn2 = _q2inv(bn_p, -1, (9, 1))
F = 'halo2curves::%s'
CURVES = {
    'bn_g1': (F % 'bn256::Fq', F % 'bn256::Fr', 0, 3),
    'bn_g2': (Q % (F % 'bn256::Fq'), F % 'bn256::Fr', 0, (3 * _bn2[0] % bn_p, 3 * _bn2[1] % bn_p)),
    'bls_g1': (F % 'bls12381::Fq', F % 'bls12381::Fr', 0, 4),
    'bls_g2': (Q % (F % 'bls12381::Fq'), F % 'bls12381::Fr', 0, (4, 4)),
    'pl_g1': (F % 'pluto_eris::Fp', F % 'pluto_eris::Fq', 0, 57),
    'pl_g2': (Q % (F % 'pluto_eris::Fp'), F % 'pluto_eris::Fq', 0, (3, 1)),
    'eris': (F % 'pluto_eris::Fq', F % 'pluto_eris::Fp', 0, 57),
    'grumpkin': (F % 'bn256::Fr', F % 'bn256::Fq', 0, -17),
    'k1': (F % 'secp256k1::Fp', F % 'secp256k1::Fq', 0, 7),
    'r1': (F % 'secp256r1::Fp', F % 'secp256r1::Fq', -3,
           0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b),
    'q1': (F % 'secp256k1::Fq', F % 'secp256k1::Fp', 0, 7),
}

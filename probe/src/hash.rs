use halo2curves::CurveExt;
macro_rules! h2c {
    ($m:ident, $C:ty) => {
        pub mod $m {
            use super::*;
            pub fn hash(prefix: &str, msg: &[u8]) -> $C { <$C as CurveExt>::hash_to_curve(prefix)(msg) }
        }
    };
}
h2c!(bn_g1, halo2curves::bn256::G1);
h2c!(bn_g2, halo2curves::bn256::G2);
h2c!(bls_g1, halo2curves::bls12381::G1);
h2c!(bls_g2, halo2curves::bls12381::G2);
h2c!(grumpkin, halo2curves::grumpkin::G1);
h2c!(k1, halo2curves::secp256k1::Secp256k1);
h2c!(r1, halo2curves::secp256r1::Secp256r1);
h2c!(q1, halo2curves::secq256k1::Secq256k1);
h2c!(pl_g1, halo2curves::pluto_eris::G1);
h2c!(eris, halo2curves::pluto_eris::Eris);

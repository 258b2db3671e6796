use crate::ty::*;
use ff::Field;
use group::Group;
use rand_core::{Error, RngCore};

/// a generator about which nothing is known
pub struct Tape;
impl RngCore for Tape {
    #[inline(never)]
    fn next_u32(&mut self) -> u32 { panic!() }
    #[inline(never)]
    fn next_u64(&mut self) -> u64 { panic!() }
    #[inline(never)]
    fn fill_bytes(&mut self, _: &mut [u8]) { panic!() }
    #[inline(never)]
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> { panic!() }
}

macro_rules! field {
    ($m:ident, $F:ty) => {
        pub mod $m {
            use super::*;
            pub fn random(r: &mut Tape) -> $F { <$F as Field>::random(r) }
        }
    };
}
macro_rules! curve {
    ($m:ident, $C:ty, $A:ty) => {
        pub mod $m {
            use super::*;
            pub fn point(r: &mut Tape) -> $C { <$C as Group>::random(r) }
            pub fn apoint(r: &mut Tape) -> $A { <$A>::random(r) }
        }
    };
}
field!(bn_fq, BnFq);
field!(bn_fr, BnFr);
field!(bls_fq, BlsFq);
field!(bls_fr, BlsFr);
field!(pl_fp, PlFp);
field!(pl_fq, PlFq);
field!(k1_fp, K1Fp);
field!(k1_fq, K1Fq);
field!(r1_fp, R1Fp);
field!(r1_fq, R1Fq);
field!(bn_fq2, BnFq2);
field!(bn_fq6, BnFq6);
field!(bn_fq12, BnFq12);
field!(bls_fq2, BlsFq2);
field!(bls_fq6, BlsFq6);
field!(bls_fq12, BlsFq12);
field!(pl_fp2, PlFp2);
field!(pl_fp6, PlFp6);
field!(pl_fp12, PlFp12);
curve!(bn_g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine);
curve!(bn_g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine);
curve!(bls_g1, halo2curves::bls12381::G1, halo2curves::bls12381::G1Affine);
curve!(bls_g2, halo2curves::bls12381::G2, halo2curves::bls12381::G2Affine);
curve!(pl_g1, halo2curves::pluto_eris::G1, halo2curves::pluto_eris::G1Affine);
curve!(pl_g2, halo2curves::pluto_eris::G2, halo2curves::pluto_eris::G2Affine);
curve!(eris, halo2curves::pluto_eris::Eris, halo2curves::pluto_eris::ErisAffine);
curve!(grumpkin, halo2curves::grumpkin::G1, halo2curves::grumpkin::G1Affine);
curve!(k1, halo2curves::secp256k1::Secp256k1, halo2curves::secp256k1::Secp256k1Affine);
curve!(r1, halo2curves::secp256r1::Secp256r1, halo2curves::secp256r1::Secp256r1Affine);
curve!(q1, halo2curves::secq256k1::Secq256k1, halo2curves::secq256k1::Secq256k1Affine);

use crate::ty::*;
ring!(bn_fq, BnFq);
ring!(bn_fr, BnFr);
ring!(bls_fq, BlsFq);
ring!(bls_fr, BlsFr);
ring!(pl_fp, PlFp);
ring!(pl_fq, PlFq);
ring!(k1_fp, K1Fp);
ring!(k1_fq, K1Fq);
ring!(r1_fp, R1Fp);
ring!(r1_fq, R1Fq);
macro_rules! prime {
    ($m:ident, $F:ty, $N:literal) => {
        pub mod $m {
            use super::*;
            use ff::{Field, PrimeField, WithSmallOrderMulGroup};
            use halo2curves::serde::SerdeObject;
            use subtle::{Choice, CtOption};
            type F = $F;
            pub fn iadd(a: &F, b: &F) -> F { F::add(a, b) }
            pub fn isub(a: &F, b: &F) -> F { F::sub(a, b) }
            pub fn ineg(a: &F) -> F { F::neg(a) }
            pub fn imul(a: &F, b: &F) -> F { F::mul(a, b) }
            pub fn idouble(a: &F) -> F { F::double(a) }
            pub fn isquare(a: &F) -> F { F::square(a) }
            pub fn izero() -> F { F::zero() }
            pub fn ione() -> F { F::one() }
            pub fn from_raw(v: [u64; $N]) -> F { F::from_raw(v) }
            pub fn from_u64(v: u64) -> F { F::from(v) }
            pub fn from_bool(v: bool) -> F { F::from(v) }
            pub fn from_u128(v: u128) -> F { F::from_u128(v) }
            pub fn from_bytes(b: &[u8; $N * 8]) -> CtOption<F> { F::from_bytes(b) }
            pub fn to_bytes(a: &F) -> [u8; $N * 8] { a.to_bytes() }
            pub fn from_repr(b: <F as PrimeField>::Repr) -> CtOption<F> { F::from_repr(b) }
            pub fn from_repr_vartime(b: <F as PrimeField>::Repr) -> Option<F> { F::from_repr_vartime(b) }
            pub fn to_repr(a: &F) -> <F as PrimeField>::Repr { a.to_repr() }
            pub fn inv(a: &F) -> CtOption<F> { a.invert() }
            pub fn legendre(a: &F) -> i64 { halo2curves::ff_ext::Legendre::legendre(a) }
            pub fn is_odd(a: &F) -> Choice { a.is_odd() }
            pub fn is_even(a: &F) -> Choice { a.is_even() }
            pub fn lex(a: &F) -> Choice { a.lexicographically_largest() }
            pub fn cmp(a: &F, b: &F) -> core::cmp::Ordering { a.cmp(b) }
            pub fn lt(a: &F, b: &F) -> bool { a < b }
            pub fn sqrt(a: &F) -> CtOption<F> { a.sqrt() }
            pub fn modulus() -> &'static str { F::MODULUS }
            pub fn num_bits() -> u32 { F::NUM_BITS }
            pub fn capacity() -> u32 { F::CAPACITY }
            pub fn s() -> u32 { F::S }
            pub fn two_inv() -> F { F::TWO_INV }
            pub fn mul_gen() -> F { F::MULTIPLICATIVE_GENERATOR }
            pub fn root() -> F { F::ROOT_OF_UNITY }
            pub fn root_inv() -> F { F::ROOT_OF_UNITY_INV }
            pub fn delta() -> F { F::DELTA }
            pub fn zeta() -> F { <F as WithSmallOrderMulGroup<3>>::ZETA }
            pub fn le_bits(a: &F) -> [u64; $N] { ff::PrimeFieldBits::to_le_bits(a).into_inner() }
            pub fn char_bits() -> [u64; $N] { <F as ff::PrimeFieldBits>::char_le_bits().into_inner() }
            pub fn into_repr(a: F) -> <F as PrimeField>::Repr { a.into() }
            pub fn into_repr_r(a: &F) -> <F as PrimeField>::Repr { a.into() }
            pub fn end_to_bytes(a: &F) -> Vec<u8> { halo2curves::serde::endian::EndianRepr::to_bytes(a) }
            pub fn end_from_bytes(b: &[u8]) -> CtOption<F> { halo2curves::serde::endian::EndianRepr::from_bytes(b) }
            pub fn raw_to(a: &F) -> Vec<u8> { SerdeObject::to_raw_bytes(a) }
            pub fn raw_from(b: &[u8]) -> Option<F> { SerdeObject::from_raw_bytes(b) }
            pub fn raw_from_un(b: &[u8]) -> F { SerdeObject::from_raw_bytes_unchecked(b) }
            pub fn raw_write(a: &F, w: &mut Vec<u8>) -> std::io::Result<()> { SerdeObject::write_raw(a, w) }
            pub fn raw_read(r: &mut &[u8]) -> std::io::Result<F> { SerdeObject::read_raw(r) }
            pub fn raw_read_un(r: &mut &[u8]) -> F { SerdeObject::read_raw_unchecked(r) }
            pub fn size() -> usize { F::SIZE }
            pub fn num_limbs() -> usize { F::NUM_LIMBS }
        }
    };
}
pub mod p {
    use super::*;
    prime!(bn_fq, BnFq, 4);
    prime!(bn_fr, BnFr, 4);
    prime!(bls_fq, BlsFq, 6);
    prime!(bls_fr, BlsFr, 4);
    prime!(pl_fp, PlFp, 7);
    prime!(pl_fq, PlFq, 7);
    prime!(k1_fp, K1Fp, 4);
    prime!(k1_fq, K1Fq, 4);
    prime!(r1_fp, R1Fp, 4);
    prime!(r1_fq, R1Fq, 4);
}

/// wide-input conversions: (field, input length)
macro_rules! uniform {
    ($($m:ident, $F:ty, $N:literal;)*) => { $(
        pub fn $m(b: &[u8; $N]) -> $F { <$F as ff::FromUniformBytes<$N>>::from_uniform_bytes(b) }
    )* };
}
pub mod u {
    use super::*;
    uniform! {
        bn_fq_64, BnFq, 64; bn_fq_48, BnFq, 48; bn_fr_64, BnFr, 64; bn_fr_48, BnFr, 48;
        bls_fq_64, BlsFq, 64; bls_fq_96, BlsFq, 96; bls_fr_64, BlsFr, 64;
        pl_fp_64, PlFp, 64; pl_fp_72, PlFp, 72; pl_fp_112, PlFp, 112;
        pl_fq_64, PlFq, 64; pl_fq_72, PlFq, 72; pl_fq_112, PlFq, 112;
        k1_fp_48, K1Fp, 48; k1_fp_64, K1Fp, 64; k1_fq_48, K1Fq, 48; k1_fq_64, K1Fq, 64;
        r1_fp_48, R1Fp, 48; r1_fp_64, R1Fp, 64; r1_fq_48, R1Fq, 48; r1_fq_64, R1Fq, 64;
    }
}

/// constants of the quadratic extensions
macro_rules! twoconst {
    ($($m:ident, $F:ty, $B:ty;)*) => { $(
        pub mod $m {
            use super::*;
            use ff::{PrimeField, WithSmallOrderMulGroup};
            type F = $F;
            pub fn modulus() -> &'static str { F::MODULUS }
            pub fn num_bits() -> u32 { F::NUM_BITS }
            pub fn two_inv() -> F { F::TWO_INV }
            pub fn zeta() -> F { <F as WithSmallOrderMulGroup<3>>::ZETA }
            pub fn root() -> F { F::ROOT_OF_UNITY }
            pub fn root_inv() -> F { F::ROOT_OF_UNITY_INV }
            pub fn delta() -> F { F::DELTA }
            pub fn s() -> u32 { F::S }
            pub fn size() -> usize { F::SIZE }
        }
    )* };
}
pub mod q {
    use super::*;
    twoconst! { bn_fq2, BnFq2, BnFq; bls_fq2, BlsFq2, BlsFq; pl_fp2, PlFp2, PlFp; }
}

use crate::ty::*;
macro_rules! pt {
    ($m:ident, $C:ty, $A:ty) => {
        pub mod $m {
            use super::*;
            use group::{GroupEncoding, UncompressedEncoding};
            use halo2curves::serde::SerdeObject;
            use subtle::CtOption;
            type C = $C;
            type A = $A;
            pub fn a_to(a: &A) -> <A as GroupEncoding>::Repr { GroupEncoding::to_bytes(a) }
            pub fn c_to(a: &C) -> <C as GroupEncoding>::Repr { GroupEncoding::to_bytes(a) }
            pub fn a_from(b: &<A as GroupEncoding>::Repr) -> CtOption<A> { <A as GroupEncoding>::from_bytes(b) }
            pub fn c_from(b: &<C as GroupEncoding>::Repr) -> CtOption<C> { <C as GroupEncoding>::from_bytes(b) }
            pub fn a_from_un(b: &<A as GroupEncoding>::Repr) -> CtOption<A> { <A as GroupEncoding>::from_bytes_unchecked(b) }
            pub fn c_from_un(b: &<C as GroupEncoding>::Repr) -> CtOption<C> { <C as GroupEncoding>::from_bytes_unchecked(b) }
            pub fn u_to(a: &A) -> <A as UncompressedEncoding>::Uncompressed { UncompressedEncoding::to_uncompressed(a) }
            pub fn u_from(b: &<A as UncompressedEncoding>::Uncompressed) -> CtOption<A> { <A as UncompressedEncoding>::from_uncompressed(b) }
            pub fn u_from_un(b: &<A as UncompressedEncoding>::Uncompressed) -> CtOption<A> { <A as UncompressedEncoding>::from_uncompressed_unchecked(b) }
            pub fn ra_to(a: &A) -> Vec<u8> { SerdeObject::to_raw_bytes(a) }
            pub fn rc_to(a: &C) -> Vec<u8> { SerdeObject::to_raw_bytes(a) }
            pub fn ra_from(b: &[u8]) -> Option<A> { SerdeObject::from_raw_bytes(b) }
            pub fn rc_from(b: &[u8]) -> Option<C> { SerdeObject::from_raw_bytes(b) }
            pub fn ra_from_un(b: &[u8]) -> A { SerdeObject::from_raw_bytes_unchecked(b) }
            pub fn rc_from_un(b: &[u8]) -> C { SerdeObject::from_raw_bytes_unchecked(b) }
            pub fn ra_write(a: &A, w: &mut Vec<u8>) -> std::io::Result<()> { SerdeObject::write_raw(a, w) }
            pub fn rc_write(a: &C, w: &mut Vec<u8>) -> std::io::Result<()> { SerdeObject::write_raw(a, w) }
            pub fn ra_read(r: &mut &[u8]) -> std::io::Result<A> { SerdeObject::read_raw(r) }
            pub fn rc_read(r: &mut &[u8]) -> std::io::Result<C> { SerdeObject::read_raw(r) }
            pub fn ra_read_un(r: &mut &[u8]) -> A { SerdeObject::read_raw_unchecked(r) }
            pub fn rc_read_un(r: &mut &[u8]) -> C { SerdeObject::read_raw_unchecked(r) }
        }
    };
}
pt!(bn_g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine);
pt!(bn_g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine);
pt!(bls_g1, halo2curves::bls12381::G1, halo2curves::bls12381::G1Affine);
pt!(bls_g2, halo2curves::bls12381::G2, halo2curves::bls12381::G2Affine);
pt!(pl_g1, halo2curves::pluto_eris::G1, halo2curves::pluto_eris::G1Affine);
pt!(pl_g2, halo2curves::pluto_eris::G2, halo2curves::pluto_eris::G2Affine);
pt!(eris, halo2curves::pluto_eris::Eris, halo2curves::pluto_eris::ErisAffine);
pt!(grumpkin, halo2curves::grumpkin::G1, halo2curves::grumpkin::G1Affine);
pt!(k1, halo2curves::secp256k1::Secp256k1, halo2curves::secp256k1::Secp256k1Affine);
pt!(r1, halo2curves::secp256r1::Secp256r1, halo2curves::secp256r1::Secp256r1Affine);
pt!(q1, halo2curves::secq256k1::Secq256k1, halo2curves::secq256k1::Secq256k1Affine);

/// quadratic extensions as pairs
macro_rules! two {
    ($m:ident, $F:ty, $B:ty, $N:literal, $U:literal) => {
        pub mod $m {
            use super::*;
            use ff::PrimeField;
            use halo2curves::serde::{endian::EndianRepr, SerdeObject};
            use subtle::{Choice, CtOption};
            type F = $F;
            pub fn from_bytes(b: &[u8; $N]) -> CtOption<F> { F::from_bytes(b) }
            pub fn to_bytes(a: &F) -> [u8; $N] { F::to_bytes(a) }
            pub fn from_repr(b: <F as PrimeField>::Repr) -> CtOption<F> { <F as PrimeField>::from_repr(b) }
            pub fn to_repr(a: &F) -> <F as PrimeField>::Repr { PrimeField::to_repr(a) }
            pub fn end_to_bytes(a: &F) -> Vec<u8> { EndianRepr::to_bytes(a) }
            pub fn end_from_bytes(b: &[u8]) -> CtOption<F> { EndianRepr::from_bytes(b) }
            pub fn raw_to(a: &F) -> Vec<u8> { SerdeObject::to_raw_bytes(a) }
            pub fn raw_from(b: &[u8]) -> Option<F> { SerdeObject::from_raw_bytes(b) }
            pub fn raw_from_un(b: &[u8]) -> F { SerdeObject::from_raw_bytes_unchecked(b) }
            pub fn raw_write(a: &F, w: &mut Vec<u8>) -> std::io::Result<()> { SerdeObject::write_raw(a, w) }
            pub fn raw_read(r: &mut &[u8]) -> std::io::Result<F> { SerdeObject::read_raw(r) }
            pub fn raw_read_un(r: &mut &[u8]) -> F { SerdeObject::read_raw_unchecked(r) }
            pub fn is_odd(a: &F) -> Choice { PrimeField::is_odd(a) }
            pub fn is_even(a: &F) -> Choice { PrimeField::is_even(a) }
            pub fn lex(a: &F) -> Choice { a.lexicographically_largest() }
            pub fn cmp(a: &F, b: &F) -> core::cmp::Ordering { Ord::cmp(a, b) }
            pub fn partial_cmp(a: &F, b: &F) -> Option<core::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            pub fn lt(a: &F, b: &F) -> bool { a < b }
            pub fn from_u64(v: u64) -> F { F::from(v) }
            pub fn wide(b: &[u8; $U]) -> F { <F as ff::FromUniformBytes<$U>>::from_uniform_bytes(b) }
        }
    };
}
two!(t_bn_fq2, BnFq2, BnFq, 64, 96);
two!(t_bls_fq2, BlsFq2, BlsFq, 96, 128);
two!(t_pl_fp2, PlFp2, PlFp, 112, 128);

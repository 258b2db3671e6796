use crate::ty::*;
macro_rules! ext {
    ($m:ident, $F:ty, $B:ty) => {
        pub mod $m {
            use super::*;
            use halo2curves::ff_ext::ExtField;
            type F = $F;
            type B = $B;
            pub fn frob(a: &mut F, k: usize) { ExtField::frobenius_map(a, k) }
            pub fn mul_nr(a: &F) -> F { ExtField::mul_by_nonresidue(a) }
        }
    };
}
macro_rules! quad {
    ($m:ident, $F:ty, $B:ty) => {
        pub mod $m {
            use super::*;
            type F = $F;
            type B = $B;
            pub fn conjugate(a: &mut F) { a.conjugate() }
            pub fn norm(a: &F) -> B { a.norm() }
            pub fn new(a: B, b: B) -> F { F::new(a, b) }
            pub fn c0(a: &F) -> B { *a.c0() }
            pub fn c1(a: &F) -> B { *a.c1() }
            pub fn zero() -> F { F::zero() }
            pub fn one() -> F { F::one() }
            pub fn i_add(a: &F, b: &F) -> F { F::add(a, b) }
            pub fn i_sub(a: &F, b: &F) -> F { F::sub(a, b) }
            pub fn i_neg(a: &F) -> F { F::neg(a) }
            pub fn i_mul(a: &F, b: &F) -> F { F::mul(a, b) }
            pub fn i_mul_assign(a: &mut F, b: &F) { F::mul_assign(a, b) }
            pub fn i_square(a: &F) -> F { F::square(a) }
            pub fn i_square_assign(a: &mut F) { F::square_assign(a) }
            pub fn i_double(a: &F) -> F { F::double(a) }
        }
    };
}
macro_rules! cubic {
    ($m:ident, $F:ty, $B:ty) => {
        pub mod $m {
            use super::*;
            use halo2curves::ff_ext::cubic::CubicSparseMul;
            type F = $F;
            type B = $B;
            pub fn new(a: B, b: B, c: B) -> F { F::new(a, b, c) }
            pub fn c0(a: &F) -> B { *a.c0() }
            pub fn c1(a: &F) -> B { *a.c1() }
            pub fn c2(a: &F) -> B { *a.c2() }
            pub fn zero() -> F { F::zero() }
            pub fn one() -> F { F::one() }
            pub fn i_add(a: &F, b: &F) -> F { F::add(a, b) }
            pub fn i_sub(a: &F, b: &F) -> F { F::sub(a, b) }
            pub fn i_neg(a: &F) -> F { F::neg(a) }
            pub fn i_mul(a: &F, b: &F) -> F { F::mul(a, b) }
            pub fn i_mul_assign(a: &mut F, b: &F) { F::mul_assign(a, b) }
            pub fn i_square(a: &F) -> F { F::square(a) }
            pub fn i_square_assign(a: &mut F) { F::square_assign(a) }
            pub fn i_double(a: &F) -> F { F::double(a) }
            pub fn by_1(a: &F, b: &B) -> F { <F as CubicSparseMul>::mul_by_1(a, b) }
            pub fn by_01(a: &F, b: &B, c: &B) -> F { <F as CubicSparseMul>::mul_by_01(a, b, c) }
        }
    };
}
macro_rules! twelve {
    ($m:ident, $F:ty, $B:ty) => {
        pub mod $m {
            use super::*;
            use halo2curves::ff_ext::quadratic::QuadSparseMul;
            type F = $F;
            type B = $B;
            pub fn by_014(a: &mut F, b: &B, c: &B, d: &B) { <F as QuadSparseMul>::mul_by_014(a, b, c, d) }
            pub fn by_034(a: &mut F, b: &B, c: &B, d: &B) { <F as QuadSparseMul>::mul_by_034(a, b, c, d) }
            pub fn cyc(a: &mut F) { a.cyclotomic_square() }
        }
    };
}
ring!(bn_fq2, BnFq2);
ring!(bn_fq6, BnFq6);
ring!(bn_fq12, BnFq12);
ring!(bls_fq2, BlsFq2);
ring!(bls_fq6, BlsFq6);
ring!(bls_fq12, BlsFq12);
ring!(pl_fp2, PlFp2);
ring!(pl_fp6, PlFp6);
ring!(pl_fp12, PlFp12);
ext!(bn_fq2_e, BnFq2, BnFq);
ext!(bn_fq6_e, BnFq6, BnFq2);
ext!(bn_fq12_e, BnFq12, BnFq6);
ext!(bls_fq2_e, BlsFq2, BlsFq);
ext!(bls_fq6_e, BlsFq6, BlsFq2);
ext!(bls_fq12_e, BlsFq12, BlsFq6);
ext!(pl_fp2_e, PlFp2, PlFp);
ext!(pl_fp6_e, PlFp6, PlFp2);
ext!(pl_fp12_e, PlFp12, PlFp6);
ext!(bn_fq_e, BnFq, BnFq);
ext!(bls_fq_e, BlsFq, BlsFq);
ext!(pl_fp_e, PlFp, PlFp);
quad!(bn_fq2_q, BnFq2, BnFq);
quad!(bn_fq12_q, BnFq12, BnFq6);
quad!(bls_fq2_q, BlsFq2, BlsFq);
quad!(bls_fq12_q, BlsFq12, BlsFq6);
quad!(pl_fp2_q, PlFp2, PlFp);
quad!(pl_fp12_q, PlFp12, PlFp6);
cubic!(bn_fq6_c, BnFq6, BnFq2);
cubic!(bls_fq6_c, BlsFq6, BlsFq2);
cubic!(pl_fp6_c, PlFp6, PlFp2);
twelve!(bn_fq12_t, BnFq12, BnFq2);
twelve!(bls_fq12_t, BlsFq12, BlsFq2);
twelve!(pl_fp12_t, PlFp12, PlFp2);

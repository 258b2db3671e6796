use crate::ty::*;
macro_rules! curve {
    ($m:ident, $C:ty, $A:ty, $B:ty, $S:ty) => {
        pub mod $m {
            use super::*;
            use group::{cofactor::{CofactorCurveAffine, CofactorCurve, CofactorGroup}, prime::PrimeCurveAffine, Curve, Group};
            use halo2curves::{CurveAffine, CurveExt};
            use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
            type C = $C;
            type A = $A;
            type B = $B;
            type S = $S;
            pub fn add(a: &C, b: &C) -> C { a + b }
            pub fn madd(a: &C, b: &A) -> C { a + b }
            pub fn amadd(a: &A, b: &C) -> C { a + b }
            pub fn aadd(a: &A, b: &A) -> C { a + b }
            pub fn sub(a: &C, b: &C) -> C { a - b }
            pub fn msub(a: &C, b: &A) -> C { a - b }
            pub fn amsub(a: &A, b: &C) -> C { a - b }
            pub fn asub(a: &A, b: &A) -> C { a - b }
            pub fn neg(a: &C) -> C { -a }
            pub fn neg_v(a: C) -> C { -a }
            pub fn aneg(a: &A) -> A { -a }
            pub fn aneg_v(a: A) -> A { -a }
            pub fn double(a: &C) -> C { Group::double(a) }
            pub fn add_vv(a: C, b: C) -> C { a + b }
            pub fn add_vr(a: C, b: &C) -> C { a + b }
            pub fn add_rv(a: &C, b: C) -> C { a + b }
            pub fn sub_vv(a: C, b: C) -> C { a - b }
            pub fn sub_vr(a: C, b: &C) -> C { a - b }
            pub fn sub_rv(a: &C, b: C) -> C { a - b }
            pub fn madd_vv(a: C, b: A) -> C { a + b }
            pub fn madd_vr(a: C, b: &A) -> C { a + b }
            pub fn madd_rv(a: &C, b: A) -> C { a + b }
            pub fn msub_vv(a: C, b: A) -> C { a - b }
            pub fn msub_vr(a: C, b: &A) -> C { a - b }
            pub fn msub_rv(a: &C, b: A) -> C { a - b }
            pub fn amadd_vv(a: A, b: C) -> C { a + b }
            pub fn amadd_vr(a: A, b: &C) -> C { a + b }
            pub fn amadd_rv(a: &A, b: C) -> C { a + b }
            pub fn amsub_vv(a: A, b: C) -> C { a - b }
            pub fn amsub_vr(a: A, b: &C) -> C { a - b }
            pub fn amsub_rv(a: &A, b: C) -> C { a - b }
            pub fn aadd_vv(a: A, b: A) -> C { a + b }
            pub fn aadd_vr(a: A, b: &A) -> C { a + b }
            pub fn aadd_rv(a: &A, b: A) -> C { a + b }
            pub fn asub_vv(a: A, b: A) -> C { a - b }
            pub fn asub_vr(a: A, b: &A) -> C { a - b }
            pub fn asub_rv(a: &A, b: A) -> C { a - b }
            pub fn add_as(a: &mut C, b: C) { *a += b }
            pub fn add_as_r(a: &mut C, b: &C) { *a += b }
            pub fn sub_as(a: &mut C, b: C) { *a -= b }
            pub fn sub_as_r(a: &mut C, b: &C) { *a -= b }
            pub fn madd_as(a: &mut C, b: A) { *a += b }
            pub fn madd_as_r(a: &mut C, b: &A) { *a += b }
            pub fn msub_as(a: &mut C, b: A) { *a -= b }
            pub fn msub_as_r(a: &mut C, b: &A) { *a -= b }
            pub fn sum_r(a: &[C; 3]) -> C { a.iter().sum() }
            pub fn sum_v(a: [C; 3]) -> C { a.into_iter().sum() }
            pub fn mul(a: &C, s: &S) -> C { a * s }
            pub fn mul_vv(a: C, s: S) -> C { a * s }
            pub fn mul_vr(a: C, s: &S) -> C { a * s }
            pub fn mul_rv(a: &C, s: S) -> C { a * s }
            pub fn amul(a: &A, s: &S) -> C { a * s }
            pub fn amul_vv(a: A, s: S) -> C { a * s }
            pub fn amul_vr(a: A, s: &S) -> C { a * s }
            pub fn amul_rv(a: &A, s: S) -> C { a * s }
            pub fn mul_as(a: &mut C, s: S) { *a *= s }
            pub fn mul_as_r(a: &mut C, s: &S) { *a *= s }
            pub fn ct_eq(a: &C, b: &C) -> Choice { a.ct_eq(b) }
            pub fn eq(a: &C, b: &C) -> bool { a == b }
            pub fn act_eq(a: &A, b: &A) -> Choice { a.ct_eq(b) }
            pub fn aeq(a: &A, b: &A) -> bool { a == b }
            pub fn sel(a: &C, b: &C, c: Choice) -> C { C::conditional_select(a, b, c) }
            pub fn asel(a: &A, b: &A, c: Choice) -> A { A::conditional_select(a, b, c) }
            pub fn to_affine(a: &C) -> A { Curve::to_affine(a) }
            pub fn to_affine_c(a: &C) -> A { <C as Curve>::to_affine(a) }
            pub fn into_affine(a: C) -> A { a.into() }
            pub fn into_affine_r(a: &C) -> A { a.into() }
            pub fn to_curve(a: &A) -> C { PrimeCurveAffine::to_curve(a) }
            pub fn to_curve_c(a: &A) -> C { CofactorCurveAffine::to_curve(a) }
            pub fn into_curve(a: A) -> C { a.into() }
            pub fn into_curve_r(a: &A) -> C { a.into() }
            pub fn batch1(a: &[C; 1], q: &mut [A; 1]) { C::batch_normalize(a, q) }
            pub fn batch3(a: &[C; 3], q: &mut [A; 3]) { C::batch_normalize(a, q) }
            pub fn batch0(a: &[C; 0], q: &mut [A; 0]) { C::batch_normalize(a, q) }
            pub fn on_curve(a: &C) -> Choice { CurveExt::is_on_curve(a) }
            pub fn aon_curve(a: &A) -> Choice { CurveAffine::is_on_curve(a) }
            pub fn is_id(a: &C) -> Choice { Group::is_identity(a) }
            pub fn ais_id(a: &A) -> Choice { PrimeCurveAffine::is_identity(a) }
            pub fn ais_id_c(a: &A) -> Choice { CofactorCurveAffine::is_identity(a) }
            pub fn identity() -> C { <C as Group>::identity() }
            pub fn aidentity() -> A { <A as PrimeCurveAffine>::identity() }
            pub fn aidentity_c() -> A { <A as CofactorCurveAffine>::identity() }
            pub fn default() -> C { C::default() }
            pub fn adefault() -> A { A::default() }
            pub fn generator() -> C { <C as Group>::generator() }
            pub fn generator_i() -> C { C::generator() }
            pub fn agenerator() -> A { <A as PrimeCurveAffine>::generator() }
            pub fn agenerator_c() -> A { <A as CofactorCurveAffine>::generator() }
            pub fn agenerator_i() -> A { A::generator() }
            pub fn new_jac(x: B, y: B, z: B) -> CtOption<C> { C::new_jacobian(x, y, z) }
            pub fn jac(a: &C) -> (B, B, B) { a.jacobian_coordinates() }
            pub fn endo(a: &C) -> C { a.endo() }
            pub fn from_xy(x: B, y: B) -> CtOption<A> { A::from_xy(x, y) }
            pub fn coordinates(a: &A) -> CtOption<halo2curves::Coordinates<A>> { a.coordinates() }
            pub fn curve_a() -> B { <C as CurveExt>::a() }
            pub fn curve_b() -> B { <C as CurveExt>::b() }
            pub fn acurve_a() -> B { <A as CurveAffine>::a() }
            pub fn acurve_b() -> B { <A as CurveAffine>::b() }
            pub fn scalar_zeta() -> S { <S as ff::WithSmallOrderMulGroup<3>>::ZETA }
            pub fn curve_id() -> &'static str { <C as CurveExt>::CURVE_ID }
            pub fn clear_cof(a: &C) -> C { CofactorGroup::clear_cofactor(a) }
            pub fn torsion_free(a: &C) -> Choice { CofactorGroup::is_torsion_free(a) }
            pub fn into_sub(a: C) -> CtOption<C> { CofactorGroup::into_subgroup(a) }
        }
    };
}
curve!(bn_g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine, BnFq, BnFr);
curve!(bn_g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine, BnFq2, BnFr);
curve!(bls_g1, halo2curves::bls12381::G1, halo2curves::bls12381::G1Affine, BlsFq, BlsFr);
curve!(bls_g2, halo2curves::bls12381::G2, halo2curves::bls12381::G2Affine, BlsFq2, BlsFr);
curve!(pl_g1, halo2curves::pluto_eris::G1, halo2curves::pluto_eris::G1Affine, PlFp, PlFq);
curve!(pl_g2, halo2curves::pluto_eris::G2, halo2curves::pluto_eris::G2Affine, PlFp2, PlFq);
curve!(eris, halo2curves::pluto_eris::Eris, halo2curves::pluto_eris::ErisAffine, PlFq, PlFp);
curve!(grumpkin, halo2curves::grumpkin::G1, halo2curves::grumpkin::G1Affine, BnFr, BnFq);
curve!(k1, halo2curves::secp256k1::Secp256k1, halo2curves::secp256k1::Secp256k1Affine, K1Fp, K1Fq);
curve!(r1, halo2curves::secp256r1::Secp256r1, halo2curves::secp256r1::Secp256r1Affine, R1Fp, R1Fq);
curve!(q1, halo2curves::secq256k1::Secq256k1, halo2curves::secq256k1::Secq256k1Affine, K1Fq, K1Fp);

//! pairing engines
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use group::Group;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
macro_rules! eng {
    ($m:ident, $E:ty) => {
        pub mod $m {
            use super::*;
            type E = $E;
            type F = <E as MultiMillerLoop>::Result;
            type Gt = <E as Engine>::Gt;
            type Fr = <E as Engine>::Fr;
            type P = <E as Engine>::G1Affine;
            type Q = <E as Engine>::G2Affine;
            pub fn fexp(f: &F) -> Gt { f.final_exponentiation() }
            pub fn mml0() -> F { E::multi_miller_loop(&[]) }
            pub fn mml1(p: &P, q: &Q) -> F { E::multi_miller_loop(&[(p, q)]) }
            pub fn mml2(p: &P, q: &Q, p2: &P, q2: &Q) -> F { E::multi_miller_loop(&[(p, q), (p2, q2)]) }
            pub fn mml3(p: &P, q: &Q, p2: &P, q2: &Q, p3: &P, q3: &Q) -> F { E::multi_miller_loop(&[(p, q), (p2, q2), (p3, q3)]) }
            pub fn pair(p: &P, q: &Q) -> Gt { E::pairing(p, q) }
            pub fn pair_1(p: &P, q: &Q) -> Gt { p.pairing_with(q) }
            pub fn pair_2(p: &P, q: &Q) -> Gt { q.pairing_with(p) }
            pub fn gt_add(a: &Gt, b: &Gt) -> Gt { a + b }
            pub fn gt_add_vv(a: Gt, b: Gt) -> Gt { a + b }
            pub fn gt_add_vr(a: Gt, b: &Gt) -> Gt { a + b }
            pub fn gt_add_rv(a: &Gt, b: Gt) -> Gt { a + b }
            pub fn gt_add_as(a: &mut Gt, b: Gt) { *a += b }
            pub fn gt_add_as_r(a: &mut Gt, b: &Gt) { *a += b }
            pub fn gt_sub(a: &Gt, b: &Gt) -> Gt { a - b }
            pub fn gt_sub_vv(a: Gt, b: Gt) -> Gt { a - b }
            pub fn gt_sub_vr(a: Gt, b: &Gt) -> Gt { a - b }
            pub fn gt_sub_rv(a: &Gt, b: Gt) -> Gt { a - b }
            pub fn gt_sub_as(a: &mut Gt, b: Gt) { *a -= b }
            pub fn gt_sub_as_r(a: &mut Gt, b: &Gt) { *a -= b }
            pub fn gt_neg(a: &Gt) -> Gt { -a }
            pub fn gt_neg_v(a: Gt) -> Gt { -a }
            pub fn gt_double(a: &Gt) -> Gt { a.double() }
            pub fn gt_double_t(a: &Gt) -> Gt { <Gt as Group>::double(a) }
            pub fn gt_id() -> Gt { Gt::identity() }
            pub fn gt_id_t() -> Gt { <Gt as Group>::identity() }
            pub fn gt_is_id(a: &Gt) -> Choice { a.is_identity() }
            pub fn gt_ct_eq(a: &Gt, b: &Gt) -> Choice { a.ct_eq(b) }
            pub fn gt_eq(a: &Gt, b: &Gt) -> bool { a == b }
            pub fn gt_sel(a: &Gt, b: &Gt, c: Choice) -> Gt { Gt::conditional_select(a, b, c) }
            pub fn gt_sum0() -> Gt { let v: [Gt; 0] = []; v.into_iter().sum() }
            pub fn gt_sum3(a: Gt, b: Gt, c: Gt) -> Gt { [a, b, c].into_iter().sum() }
            pub fn gt_sum3_r(a: &Gt, b: &Gt, c: &Gt) -> Gt { [*a, *b, *c].iter().sum() }
            pub fn gt_mul(a: &Gt, s: &Fr) -> Gt { a * s }
            pub fn gt_mul_vv(a: Gt, s: Fr) -> Gt { a * s }
            pub fn gt_mul_vr(a: Gt, s: &Fr) -> Gt { a * s }
            pub fn gt_mul_rv(a: &Gt, s: Fr) -> Gt { a * s }
            pub fn gt_mul_as(a: &mut Gt, s: Fr) { *a *= s }
            pub fn gt_mul_as_r(a: &mut Gt, s: &Fr) { *a *= s }
        }
    };
}
eng!(bn, halo2curves::bn256::Bn256);
eng!(bls, halo2curves::bls12381::Bls12381);
eng!(pl, halo2curves::pluto_eris::Pluto);

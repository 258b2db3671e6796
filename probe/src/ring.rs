macro_rules! ring {
    ($m:ident, $F:ty) => {
        pub mod $m {
            use super::*;
            use ff::Field;
            type F = $F;
            pub fn add(a: &F, b: &F) -> F { a + b }
            pub fn sub(a: &F, b: &F) -> F { a - b }
            pub fn mul(a: &F, b: &F) -> F { a * b }
            pub fn neg(a: &F) -> F { -a }
            pub fn add_vv(a: F, b: F) -> F { a + b }
            pub fn add_vr(a: F, b: &F) -> F { a + b }
            pub fn add_rv(a: &F, b: F) -> F { a + b }
            pub fn sub_vv(a: F, b: F) -> F { a - b }
            pub fn sub_vr(a: F, b: &F) -> F { a - b }
            pub fn sub_rv(a: &F, b: F) -> F { a - b }
            pub fn mul_vv(a: F, b: F) -> F { a * b }
            pub fn mul_vr(a: F, b: &F) -> F { a * b }
            pub fn mul_rv(a: &F, b: F) -> F { a * b }
            pub fn neg_v(a: F) -> F { -a }
            pub fn add_as(a: &mut F, b: F) { *a += b }
            pub fn add_as_r(a: &mut F, b: &F) { *a += b }
            pub fn sub_as(a: &mut F, b: F) { *a -= b }
            pub fn sub_as_r(a: &mut F, b: &F) { *a -= b }
            pub fn mul_as(a: &mut F, b: F) { std::ops::MulAssign::mul_assign(a, b) }
            pub fn mul_as_r(a: &mut F, b: &F) { std::ops::MulAssign::mul_assign(a, b) }
            pub fn double(a: &F) -> F { Field::double(a) }
            pub fn square(a: &F) -> F { Field::square(a) }
            pub fn cube(a: &F) -> F { Field::cube(a) }
            pub fn invert(a: &F) -> subtle::CtOption<F> { Field::invert(a) }
            pub fn is_zero(a: &F) -> subtle::Choice { Field::is_zero(a) }
            pub fn is_zero_vartime(a: &F) -> bool { Field::is_zero_vartime(a) }
            pub fn ct_eq(a: &F, b: &F) -> subtle::Choice { subtle::ConstantTimeEq::ct_eq(a, b) }
            pub fn eq(a: &F, b: &F) -> bool { a == b }
            pub fn ne(a: &F, b: &F) -> bool { a != b }
            pub fn sel(a: &F, b: &F, c: subtle::Choice) -> F { subtle::ConditionallySelectable::conditional_select(a, b, c) }
            pub fn zero() -> F { <F as Field>::ZERO }
            pub fn one() -> F { <F as Field>::ONE }
            pub fn default() -> F { F::default() }
            pub fn sum_r(a: &[F; 3]) -> F { a.iter().sum() }
            pub fn sum_v(a: [F; 3]) -> F { a.into_iter().sum() }
            pub fn prod_r(a: &[F; 3]) -> F { a.iter().product() }
            pub fn prod_v(a: [F; 3]) -> F { a.into_iter().product() }
        }
    };
}

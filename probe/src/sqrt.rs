use crate::ty::*;
use ff::Field;
use subtle::{Choice, CtOption};
macro_rules! root {
    ($m:ident, $F:ty) => {
        pub mod $m {
            use super::*;
            pub fn sqrt(a: &$F) -> CtOption<$F> { a.sqrt() }
        }
    };
}
macro_rules! ratio {
    ($m:ident, $F:ty) => {
        pub mod $m {
            use super::*;
            pub fn sqrt(a: &$F) -> CtOption<$F> { a.sqrt() }
            pub fn sqrt_ratio(a: &$F, b: &$F) -> (Choice, $F) { <$F as Field>::sqrt_ratio(a, b) }
            pub fn sqrt_alt(a: &$F) -> (Choice, $F) { a.sqrt_alt() }
        }
    };
}
ratio!(bn_fq, BnFq);
ratio!(bn_fr, BnFr);
ratio!(bls_fq, BlsFq);
ratio!(bls_fr, BlsFr);
ratio!(pl_fp, PlFp);
ratio!(pl_fq, PlFq);
ratio!(k1_fp, K1Fp);
ratio!(k1_fq, K1Fq);
ratio!(r1_fp, R1Fp);
ratio!(r1_fq, R1Fq);
root!(bn_fq2, BnFq2);
root!(bls_fq2, BlsFq2);
root!(pl_fp2, PlFp2);

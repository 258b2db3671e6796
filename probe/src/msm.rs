//! fixed-size instances of multi-scalar multiplication
use crate::ty::*;
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
macro_rules! sizes {
    ($m:ident, $C:ty, $A:ty, $S:ty: $($s:ident $p:ident $b:ident $n:literal,)*) => {
        pub mod $m {
            use super::*;
            $(
            pub fn $s(k: &[$S; $n], g: &[$A; $n], acc: &mut $C) { msm_serial(k, g, acc) }
            pub fn $p(k: &[$S; $n], g: &[$A; $n]) -> $C { msm_parallel(k, g) }
            pub fn $b(k: &[$S; $n], g: &[$A; $n]) -> $C { msm_best(k, g) }
            )*
            pub fn bads_2_3(k: &[$S; 2], g: &[$A; 3], acc: &mut $C) { msm_serial(k, g, acc) }
            pub fn bads_3_2(k: &[$S; 3], g: &[$A; 2], acc: &mut $C) { msm_serial(k, g, acc) }
            pub fn badp_2_3(k: &[$S; 2], g: &[$A; 3]) -> $C { msm_parallel(k, g) }
            pub fn badp_3_2(k: &[$S; 3], g: &[$A; 2]) -> $C { msm_parallel(k, g) }
            pub fn badb_2_3(k: &[$S; 2], g: &[$A; 3]) -> $C { msm_best(k, g) }
            pub fn badb_3_2(k: &[$S; 3], g: &[$A; 2]) -> $C { msm_best(k, g) }
        }
    };
}
sizes!(bn_g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine, BnFr: s0 p0 b0 0, s1 p1 b1 1, s2 p2 b2 2, s3 p3 b3 3, s4 p4 b4 4, s5 p5 b5 5,
    s17 p17 b17 17, s31 p31 b31 31, s32 p32 b32 32, s55 p55 b55 55, s149 p149 b149 149, s500 p500 b500 500, s1097 p1097 b1097 1097, s2981 p2981 b2981 2981, s8104 p8104 b8104 8104,);
sizes!(bls_g1, halo2curves::bls12381::G1, halo2curves::bls12381::G1Affine, BlsFr: s1 p1 b1 1, s2 p2 b2 2, s3 p3 b3 3, s4 p4 b4 4, s32 p32 b32 32, s8104 p8104 b8104 8104,);
sizes!(r1, halo2curves::secp256r1::Secp256r1, halo2curves::secp256r1::Secp256r1Affine, R1Fq: s1 p1 b1 1, s2 p2 b2 2, s3 p3 b3 3, s4 p4 b4 4, s32 p32 b32 32, s8104 p8104 b8104 8104,);
sizes!(pl_g1, halo2curves::pluto_eris::G1, halo2curves::pluto_eris::G1Affine, PlFq: s1 p1 b1 1, s2 p2 b2 2, s3 p3 b3 3, s4 p4 b4 4, s32 p32 b32 32,);
sizes!(bn_g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine, BnFr: s1 p1 b1 1, s2 p2 b2 2, s3 p3 b3 3, s4 p4 b4 4,);

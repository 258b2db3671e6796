//! fixed-size instances of the FFT
use crate::ty::*;
use halo2curves::fft::best_fft;
macro_rules! sizes {
    ($m:ident, $G:ty, $S:ty: $($n:ident $k:literal $l:literal,)*) => {
        pub mod $m {
            use super::*;
            $(pub fn $n(a: &mut [$G; $k], w: $S) { best_fft(a, w, $l) })*
        }
    };
}
sizes!(bn_fr, BnFr, BnFr: n1 1 0, n2 2 1, n4 4 2, n8 8 3, n16 16 4, n32 32 5, n64 64 6, n128 128 7, n256 256 8, n512 512 9, n1024 1024 10, n2048 2048 11, n4096 4096 12, bad4 4 3, bad3 3 2, bad0 0 0,);
sizes!(pl_fq, PlFq, PlFq: n1 1 0, n2 2 1, n4 4 2, n8 8 3, n16 16 4, n32 32 5, bad4 4 1,);
sizes!(bn_g1, halo2curves::bn256::G1, BnFr: n1 1 0, n2 2 1, n4 4 2, n8 8 3, n16 16 4, n32 32 5,);
sizes!(pl_g1, halo2curves::pluto_eris::G1, PlFq: n1 1 0, n2 2 1, n4 4 2, n8 8 3,);

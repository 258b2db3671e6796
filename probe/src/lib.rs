//! Entry points whose compiled bodies the analyses read.  Nothing here is ever executed: the crate
//! only instantiates halo2curves' public API at concrete types so that the compiler resolves every
//! generic call, operator and macro expansion behind it.
#![allow(dead_code, clippy::all)]

/// type names for the analyses (public paths or associated types only)
pub mod ty {
    pub type BnFq = halo2curves::bn256::Fq;
    pub type BnFr = halo2curves::bn256::Fr;
    pub type BnFq2 = halo2curves::bn256::Fq2;
    pub type BnFq6 = halo2curves::bn256::Fq6;
    pub type BnFq12 = halo2curves::bn256::Fq12;
    pub type BlsFq = halo2curves::bls12381::Fq;
    pub type BlsFr = halo2curves::bls12381::Fr;
    pub type BlsFq2 = halo2curves::bls12381::Fq2;
    pub type BlsFq6 = halo2curves::bls12381::Fq6;
    pub type BlsFq12 = halo2curves::bls12381::Fq12;
    pub type PlFp = halo2curves::pluto_eris::Fp;
    pub type PlFq = halo2curves::pluto_eris::Fq;
    pub type PlFp2 = <halo2curves::pluto_eris::G2Affine as halo2curves::CurveAffine>::Base;
    pub type PlFp6 = halo2curves::ff_ext::cubic::CubicExtField<PlFp2>;
    pub type PlFp12 = halo2curves::ff_ext::quadratic::QuadExtField<PlFp6>;
    pub type K1Fp = halo2curves::secp256k1::Fp;
    pub type K1Fq = halo2curves::secp256k1::Fq;
    pub type R1Fp = halo2curves::secp256r1::Fp;
    pub type R1Fq = halo2curves::secp256r1::Fq;
}

#[macro_use]
mod ring;
#[cfg(feature = "prime")]
pub mod prime;
#[cfg(feature = "curve")]
pub mod curve;
#[cfg(feature = "tower")]
pub mod tower;
#[cfg(feature = "fft")]
pub mod fft;
#[cfg(feature = "codec")]
pub mod codec;
#[cfg(feature = "msm")]
pub mod msm;
#[cfg(feature = "pairing")]
pub mod pairing;
#[cfg(feature = "sqrt")]
pub mod sqrt;
#[cfg(feature = "hash")]
pub mod hash;
#[cfg(feature = "rnd")]
pub mod rnd;
#[cfg(feature = "ser")]
pub mod ser;

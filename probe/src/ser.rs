use crate::ty::*;
use serde::de::value::Error as Er;
use serde::de::{DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Error as _, Impossible, SerializeStruct, Serializer};
use serde::{Deserialize, Serialize};

/// a format of which only readability is known
pub struct Ser(pub bool);
pub struct SerS(bool);
pub struct De(pub bool);
pub struct Seq(bool, usize);
pub struct Map(bool, &'static [&'static str], usize);
pub struct Key(&'static str);

#[inline(never)]
pub fn mark(key: &'static str) { let _ = key; }
#[inline(never)]
pub fn other() -> Er { Er::custom("") }

macro_rules! no {
    ($($f:ident($($a:ty),*) -> $r:ty;)*) => { $( fn $f(self, $(_: $a),*) -> Result<$r, Er> { Err(other()) } )* };
}
type Im = Impossible<(), Er>;
impl Serializer for Ser {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Im;
    type SerializeTuple = Im;
    type SerializeTupleStruct = Im;
    type SerializeTupleVariant = Im;
    type SerializeMap = Im;
    type SerializeStruct = SerS;
    type SerializeStructVariant = Im;
    fn is_human_readable(&self) -> bool { self.0 }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SerS, Er> { Ok(SerS(self.0)) }
    no! {
        serialize_bool(bool) -> (); serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> (); serialize_i64(i64) -> ();
        serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> (); serialize_u64(u64) -> ();
        serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> (); serialize_bytes(&[u8]) -> ();
        serialize_none() -> (); serialize_unit() -> (); serialize_unit_struct(&'static str) -> ();
        serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_seq(Option<usize>) -> Im; serialize_tuple(usize) -> Im; serialize_tuple_struct(&'static str, usize) -> Im;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Im; serialize_map(Option<usize>) -> Im;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Im;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Er> { Err(other()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> { Err(other()) }
}
impl SerializeStruct for SerS {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), Er> { mark(key); v.serialize(Ser(self.0)) }
    fn end(self) -> Result<(), Er> { Ok(()) }
}
macro_rules! node {
    ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Er> { Err(other()) } )* };
}
impl<'de> Deserializer<'de> for De {
    type Error = Er;
    fn is_human_readable(&self) -> bool { self.0 }
    node! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16
        deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
        deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Er> { Err(other()) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Er> { Err(other()) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Er> { Err(other()) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> { Err(other()) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        if self.0 { v.visit_map(Map(self.0, f, 0)) } else { v.visit_seq(Seq(self.0, f.len())) }
    }
}
impl<'de> SeqAccess<'de> for Seq {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Er> {
        if self.1 == 0 { return Ok(None); }
        self.1 -= 1;
        match seed.deserialize(De(self.0)) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
    }
}
impl<'de> MapAccess<'de> for Map {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        if self.2 == self.1.len() { return Ok(None); }
        self.2 += 1;
        mark(self.1[self.2 - 1]);
        match seed.deserialize(Key(self.1[self.2 - 1])) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Er> { seed.deserialize(De(self.0)) }
}
impl<'de> Deserializer<'de> for Key {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { v.visit_str(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// a struct with the given fields present
pub struct DeX(bool, &'static [&'static str], bool);
impl<'de> Deserializer<'de> for DeX {
    type Error = Er;
    fn is_human_readable(&self) -> bool { self.0 }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Er> { Err(other()) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        if self.2 { v.visit_map(Map(self.0, self.1, 0)) } else { v.visit_seq(Seq(self.0, self.1.len())) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map enum identifier ignored_any }
}
macro_rules! parts {
    ($($m:ident = $T:ty;)*) => { $( pub mod $m {
        use super::*;
        type T = $T;
        pub fn rev_h() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(true, &["c1", "c0"], true)) }
        pub fn rev_b() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(false, &["c1", "c0"], true)) }
        pub fn none_h() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(true, &[], true)) }
        pub fn c0_h() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(true, &["c0"], true)) }
        pub fn c1_h() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(true, &["c1"], true)) }
        pub fn dup_h() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(true, &["c0", "c0", "c1"], true)) }
        pub fn dup1_h() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(true, &["c0", "c1", "c1"], true)) }
        pub fn none_b() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(false, &[], false)) }
        pub fn short_b() -> Result<T, Er> { <T as Deserialize>::deserialize(DeX(false, &["c0"], false)) }
    } )* };
}
parts! { t_bn_fq2p = BnFq2; t_bls_fq2p = BlsFq2; t_pl_fp2p = PlFp2; }

macro_rules! ser {
    ($($m:ident = $T:ty;)*) => { $( pub mod $m {
        use super::*;
        type T = $T;
        pub fn ser_h(a: &T) -> Result<(), Er> { Serialize::serialize(a, Ser(true)) }
        pub fn ser_b(a: &T) -> Result<(), Er> { Serialize::serialize(a, Ser(false)) }
        pub fn de_h() -> Result<T, Er> { <T as Deserialize>::deserialize(De(true)) }
        pub fn de_b() -> Result<T, Er> { <T as Deserialize>::deserialize(De(false)) }
    } )* };
}
ser! {
    f_bn_fq = BnFq; f_bn_fr = BnFr; f_bls_fq = BlsFq; f_bls_fr = BlsFr; f_pl_fp = PlFp; f_pl_fq = PlFq;
    f_k1_fp = K1Fp; f_k1_fq = K1Fq; f_r1_fp = R1Fp; f_r1_fq = R1Fq;
    t_bn_fq2 = BnFq2; t_bls_fq2 = BlsFq2; t_pl_fp2 = PlFp2;
    c_bn_g1 = halo2curves::bn256::G1; a_bn_g1 = halo2curves::bn256::G1Affine;
    c_bn_g2 = halo2curves::bn256::G2; a_bn_g2 = halo2curves::bn256::G2Affine;
    c_bls_g1 = halo2curves::bls12381::G1; a_bls_g1 = halo2curves::bls12381::G1Affine;
    c_bls_g2 = halo2curves::bls12381::G2; a_bls_g2 = halo2curves::bls12381::G2Affine;
    c_pl_g1 = halo2curves::pluto_eris::G1; a_pl_g1 = halo2curves::pluto_eris::G1Affine;
    c_pl_g2 = halo2curves::pluto_eris::G2; a_pl_g2 = halo2curves::pluto_eris::G2Affine;
    c_eris = halo2curves::pluto_eris::Eris; a_eris = halo2curves::pluto_eris::ErisAffine;
    c_grumpkin = halo2curves::grumpkin::G1; a_grumpkin = halo2curves::grumpkin::G1Affine;
    c_k1 = halo2curves::secp256k1::Secp256k1; a_k1 = halo2curves::secp256k1::Secp256k1Affine;
    c_r1 = halo2curves::secp256r1::Secp256r1; a_r1 = halo2curves::secp256r1::Secp256r1Affine;
    c_q1 = halo2curves::secq256k1::Secq256k1; a_q1 = halo2curves::secq256k1::Secq256k1Affine;
}

//! Canonical byte encoding of any serialisable state (map entries sorted), used to identify states.
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
/// as `canon`, without signatures and encryptions
pub fn canon_masked<A: Serialize + ?Sized>(a: &A) -> u128 {
    let mut e = Enc { b: Vec::with_capacity(2048), mask: true };
    a.serialize(&mut e).expect("serialise");
    crate::engine::hash128(&e.b)
}
const RANDOM: [&str; 4] = ["signature", "dhkey", "nonce", "cipher"];
#[derive(Default)]
pub struct Enc {
    pub b: Vec<u8>,
    /// leave out what is random in every run: signatures and encryptions
    pub mask: bool,
}
pub fn canon_bytes<A: Serialize + ?Sized>(a: &A) -> Vec<u8> {
    let mut e = Enc { b: Vec::with_capacity(2048), mask: false };
    a.serialize(&mut e).expect("serialise");
    e.b
}
pub fn canon<A: Serialize + ?Sized>(a: &A) -> u128 {
    crate::engine::hash128(&canon_bytes(a))
}
type R = Result<(), E>;
macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { self.b.extend_from_slice(&v.to_le_bytes()); Ok(()) })* };
}
impl<'a> Serializer for &'a mut Enc {
    type Ok = ();
    type Error = E;
    type SerializeSeq = &'a mut Enc;
    type SerializeTuple = &'a mut Enc;
    type SerializeTupleStruct = &'a mut Enc;
    type SerializeTupleVariant = &'a mut Enc;
    type SerializeMap = M<'a>;
    type SerializeStruct = &'a mut Enc;
    type SerializeStructVariant = &'a mut Enc;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> R {
        self.b.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> R {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> R {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.b.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.b.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> R {
        self.b.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        self.b.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R {
        self.serialize_u32(i)?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        // collections without a known length end with a marker (see end)
        self.b.extend_from_slice(&(n.map(|n| n as u32).unwrap_or(u32::MAX)).to_le_bytes());
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.serialize_u32(i)?;
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<M<'a>, E> {
        Ok(M { o: self, k: vec![], l: vec![] })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.serialize_u32(i)?;
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! seq {
    ($($tr:ident $f:ident),*) => { $(impl<'a> $tr for &'a mut Enc {
        type Ok = ();
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* };
}
seq!(SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> SerializeSeq for &'a mut Enc {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        self.b.push(0xa5);
        Ok(())
    }
}
macro_rules! st {
    ($($tr:ident),*) => { $(impl<'a> $tr for &'a mut Enc {
        type Ok = ();
        type Error = E;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> R { if self.mask && RANDOM.contains(&k) { return Ok(()); } v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* };
}
st!(SerializeStruct, SerializeStructVariant);
pub struct M<'a> {
    o: &'a mut Enc,
    k: Vec<u8>,
    l: Vec<(Vec<u8>, Vec<u8>)>,
}
impl<'a> SerializeMap for M<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> R {
        let mut e = Enc { b: vec![], mask: self.o.mask };
        k.serialize(&mut e)?;
        self.k = e.b;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        let mut e = Enc { b: vec![], mask: self.o.mask };
        v.serialize(&mut e)?;
        self.l.push((std::mem::take(&mut self.k), e.b));
        Ok(())
    }
    fn end(mut self) -> R {
        self.l.sort();
        self.o.b.extend_from_slice(&(self.l.len() as u32).to_le_bytes());
        for (k, v) in self.l {
            self.o.serialize_bytes(&k)?;
            self.o.serialize_bytes(&v)?;
        }
        Ok(())
    }
}

//! Serialization (C17).
use crate::elem::*;
use crate::kinds::*;
use crate::model::*;
use crate::sx::*;
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Debug)]
pub struct Bad;
impl fmt::Display for Bad {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl de::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Bad {
        Bad
    }
}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Bad {
        Bad
    }
}

impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u16(self.v())
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u16(self.get())
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> {
        u16::deserialize(d).map(K::new)
    }
}
impl<'de> Deserialize<'de> for V {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        u16::deserialize(d).map(V::new)
    }
}

// ------------------------------------------------------------ the way out

/// What a serialization emitted.
pub struct Out {
    len: Option<usize>,
    /// keys and values in turn; a unit value counts as 0
    items: Vec<u16>,
    ended: bool,
}
impl Out {
    fn new() -> Out {
        Out { len: None, items: Vec::with_capacity(64), ended: false }
    }
}

macro_rules! refuse {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self $(, _: $t)*) -> Result<(), Bad> {
            Err(Bad)
        })*
    };
}
macro_rules! refuse_compound {
    () => {
        type Ok = ();
        type Error = Bad;
        type SerializeSeq = Impossible<(), Bad>;
        type SerializeTuple = Impossible<(), Bad>;
        type SerializeTupleStruct = Impossible<(), Bad>;
        type SerializeTupleVariant = Impossible<(), Bad>;
        type SerializeStructVariant = Impossible<(), Bad>;
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> {
            Err(Bad)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Bad> {
            Err(Bad)
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Bad> {
            Err(Bad)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bad> {
            Err(Bad)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
            Err(Bad)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
            Err(Bad)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
            Err(Bad)
        }
        refuse! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_u8(u8); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
            serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none();
            serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
        }
    };
}

struct Leaf<'a>(&'a mut Out);
impl<'a> Serializer for Leaf<'a> {
    refuse_compound!();
    type SerializeMap = Impossible<(), Bad>;
    type SerializeStruct = Impossible<(), Bad>;
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> {
        Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Bad> {
        Err(Bad)
    }
    fn serialize_u16(self, x: u16) -> Result<(), Bad> {
        self.0.items.push(x);
        Ok(())
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        self.0.items.push(0);
        Ok(())
    }
}

struct Top<'a>(&'a mut Out);
impl<'a> Serializer for Top<'a> {
    refuse_compound!();
    type SerializeMap = Entries<'a>;
    type SerializeStruct = Fields<'a>;
    fn serialize_u16(self, _: u16) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Entries<'a>, Bad> {
        self.0.len = n;
        Ok(Entries(self.0))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields<'a>, Bad> {
        Ok(Fields(self.0))
    }
}
struct Entries<'a>(&'a mut Out);
impl<'a> ser::SerializeMap for Entries<'a> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Bad> {
        k.serialize(Leaf(self.0))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(Leaf(self.0))
    }
    fn end(self) -> Result<(), Bad> {
        self.0.ended = true;
        Ok(())
    }
}
/// A set is a struct around a map.
struct Fields<'a>(&'a mut Out);
impl<'a> ser::SerializeStruct for Fields<'a> {
    type Ok = ();
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(Top(self.0))
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

// ------------------------------------------------------------ the way in

pub struct Stream<'a> {
    items: &'a [(u16, u16)],
    at: usize,
    hint: Option<usize>,
    /// fails instead of yielding this item
    fail: usize,
    unit: bool,
}

struct D<'s, 'a> {
    s: &'s mut Stream<'a>,
    wrapped: bool,
}
impl<'de, 's, 'a> Deserializer<'de> for D<'s, 'a> {
    type Error = Bad;
    fn deserialize_any<T: Visitor<'de>>(self, v: T) -> Result<T::Value, Bad> {
        if self.wrapped {
            v.visit_seq(One(Some(D { s: self.s, wrapped: false })))
        } else {
            v.visit_map(self.s)
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
struct One<'s, 'a>(Option<D<'s, 'a>>);
impl<'de, 's, 'a> SeqAccess<'de> for One<'s, 'a> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        match self.0.take() {
            Some(d) => seed.deserialize(d).map(Some),
            None => Ok(None),
        }
    }
}
impl<'de, 'a> MapAccess<'de> for &mut Stream<'a> {
    type Error = Bad;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.at == self.fail {
            return Err(Bad);
        }
        if self.at >= self.items.len() {
            return Ok(None);
        }
        let k = self.items[self.at].0;
        self.at += 1;
        seed.deserialize(k.into_deserializer()).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        if self.unit {
            seed.deserialize(().into_deserializer())
        } else {
            seed.deserialize(self.items[self.at - 1].1.into_deserializer())
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

/// What a collection must offer to be tested here: maps, and the set.
pub trait Ser: Sized + Serialize + for<'de> Deserialize<'de> {
    const SET: bool;
    fn made(a: u64, b: u64) -> (Self, Ref);
    fn is(&self, r: &Ref, what: &str);
    fn eq_(&self, o: &Self) -> bool;
}
impl Ser for Avl {
    const SET: bool = false;
    fn made(a: u64, b: u64) -> (Self, Ref) {
        build(a, b, 0)
    }
    fn is(&self, r: &Ref, what: &str) {
        same(self, r, CONTENT, what);
        lookups(self, r, CONTENT, what);
        balanced(self, r, what);
    }
    fn eq_(&self, o: &Self) -> bool {
        self == o
    }
}
impl<const N: usize> Ser for BT<N> {
    const SET: bool = false;
    fn made(a: u64, b: u64) -> (Self, Ref) {
        build(a, b, 0)
    }
    fn is(&self, r: &Ref, what: &str) {
        same(self, r, CONTENT, what);
        lookups(self, r, CONTENT, what);
        balanced(self, r, what);
    }
    fn eq_(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ser for ASet {
    const SET: bool = true;
    fn made(a: u64, b: u64) -> (Self, Ref) {
        crate::sets::build_set(a, b)
    }
    fn is(&self, r: &Ref, what: &str) {
        crate::sets::same_set(self, r, CONTENT, what);
        crate::sets::balanced_set(self, r, what);
    }
    fn eq_(&self, o: &Self) -> bool {
        self == o
    }
}

/// a, b: prestate.  What is emitted, and the round trip.
pub fn round<M: Ser>(a: u64, b: u64, _c: u64, _d: u64) {
    let (m, r) = M::made(a, b);
    let mut o = Out::new();
    g().clones = 0;
    let res = m.serialize(Top(&mut o));
    chk_if(LAZY, g().clones == 0, "serialization clones no element");
    chk_if(CONTENT, res.is_ok() && o.ended, "serialization succeeds");
    chk_if(CONTENT, o.len == Some(r.len()), "serialization announces the true length");
    chk_if(CONTENT, o.items.len() == 2 * r.len(), "serialization emits every element");
    let mut items = Vec::with_capacity(64);
    let mut i = 0;
    while i < r.len() {
        let (k, v) = (o.items[2 * i], o.items[2 * i + 1]);
        trace(k as u64);
        chk_if(CONTENT, k == r.k(i), "serialization emits the keys in ascending order");
        chk_if(CONTENT, v == if M::SET { 0 } else { r.v(i) }, "serialization emits each key's value");
        items.push((k, v));
        i += 1;
    }
    let mut s = Stream { items: &items, at: 0, hint: o.len, fail: usize::MAX, unit: M::SET };
    match M::deserialize(D { s: &mut s, wrapped: M::SET }) {
        Ok(n) => {
            n.is(&r, "deserializing what was serialized gives the same contents");
            chk_if(CONTENT, n.eq_(&m) && m.eq_(&n), "deserializing what was serialized gives an equal collection");
        }
        Err(_) => chk_if(CONTENT, false, "deserializing what was serialized succeeds"),
    }
    cover("end");
}

/// a: number of entries.
/// b: 0 all keys symbolic; 1 ascending; 2 descending; 3 ascending but for one
///    symbolic key at a chosen place; 4 ascending, each twice.
/// c: hint: 0 none; 1 exact; 2 any value at all; 3 any up to 2a+8; 4+x: the
///    value x; s<<33|0x8000_0000+..: sign extended, then shifted
///    right by s | 1<<32: the stream fails at a chosen place
pub fn input<M: Ser>(a: u64, b: u64, c: u64, _d: u64) {
    let n = a as usize;
    let at = if b == 3 { choice(a) as usize } else { n };
    let mut items = Vec::with_capacity(64);
    let mut r = Ref::new();
    let mut i = 0;
    while i < n {
        let k = match b {
            0 => any16(),
            1 => i as u16 * 4 + 4,
            2 => (n - i) as u16 * 4 + 4,
            3 => {
                if i == at {
                    any16()
                } else {
                    i as u16 * 4 + 4
                }
            }
            _ => i as u16 / 2 * 4 + 4,
        };
        let v = 0x900 + i as u16;
        items.push((k, v));
        r.ins(k, v);
        i += 1;
    }
    let hint = match c & 0xffff_ffff {
        0 => None,
        1 => Some(n),
        2 => Some(any64() as usize),
        3 => Some(choice(2 * a + 9) as usize),
        // the values from 1<<31 up stand for the largest of all
        x if x >= 1 << 31 => Some((x as i32 as i64 as u64 >> (c >> 33 & 63)) as usize),
        x => Some(x as usize - 4),
    };
    let fail = if c >> 32 & 1 == 1 { choice(a + 1) as usize } else { usize::MAX };
    let mut s = Stream { items: &items, at: 0, hint, fail, unit: M::SET };
    let res = M::deserialize(D { s: &mut s, wrapped: M::SET });
    match res {
        Ok(m) => {
            chk_if(CONTENT, fail == usize::MAX, "an error in the input is reported");
            m.is(&r, "deserializing equals inserting the entries one by one");
            cover("accepted");
        }
        Err(_) => {
            chk_if(CONTENT, fail != usize::MAX, "deserializing a good stream succeeds");
            cover("rejected");
        }
    }
    cover("end");
}

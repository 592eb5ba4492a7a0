//! A serialization format kept in an array of tokens: self-describing (maps
//! with names, numbers as the widest integer) or compact (fields in order,
//! typed, enumerations by index).
use core::fmt;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};

#[derive(Clone, Copy, PartialEq)]
pub enum Tok {
    End,
    Bool(bool),
    U(u8, u64),
    I(u8, i64),
    Str(&'static str),
    Nil,
    Some,
    Var(u32, &'static str),
    Map(usize),
    Key(&'static str),
    MapEnd,
    Seq(usize),
    SeqEnd,
}
pub const LEN: usize = 96;
#[derive(Clone, Copy)]
pub struct Tape {
    pub t: [Tok; LEN],
    pub n: usize,
    pub named: bool,
}
impl Tape {
    pub fn new(named: bool) -> Tape {
        Tape { t: [Tok::End; LEN], n: 0, named }
    }
    pub fn put(&mut self, t: Tok) {
        self.t[self.n] = t;
        self.n += 1;
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Er {
    Other,
    Missing(&'static str),
    Duplicate(&'static str),
    Length(usize),
    UnknownField,
    UnknownVariant,
}
impl fmt::Display for Er {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Er {
        Er::Other
    }
}
impl de::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Er {
        Er::Other
    }
    fn invalid_length(n: usize, _: &dyn de::Expected) -> Er {
        Er::Length(n)
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Er {
        Er::UnknownVariant
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Er {
        Er::UnknownField
    }
    fn missing_field(f: &'static str) -> Er {
        Er::Missing(f)
    }
    fn duplicate_field(f: &'static str) -> Er {
        Er::Duplicate(f)
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Er {
        Er::Other
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Er {
        Er::Other
    }
}

// ---------------------------------------------------------------- writing
macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $( fn $f(self, $(_: $t),*) -> Result<$r, Er> { Err(Er::Other) } )* };
}
fn forever(s: &str) -> &'static str {
    unsafe { core::mem::transmute(s) }
}
impl<'a> Serializer for &'a mut Tape {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = &'a mut Tape;
    type SerializeTuple = &'a mut Tape;
    type SerializeTupleStruct = &'a mut Tape;
    type SerializeTupleVariant = ser::Impossible<(), Er>;
    type SerializeMap = ser::Impossible<(), Er>;
    type SerializeStruct = &'a mut Tape;
    type SerializeStructVariant = ser::Impossible<(), Er>;
    fn is_human_readable(&self) -> bool {
        self.named
    }
    fn serialize_bool(self, v: bool) -> Result<(), Er> {
        self.put(Tok::Bool(v));
        Ok(())
    }
    fn serialize_i8(self, v: i8) -> Result<(), Er> {
        self.put(Tok::I(1, v as i64));
        Ok(())
    }
    fn serialize_i16(self, v: i16) -> Result<(), Er> {
        self.put(Tok::I(2, v as i64));
        Ok(())
    }
    fn serialize_i32(self, v: i32) -> Result<(), Er> {
        self.put(Tok::I(4, v as i64));
        Ok(())
    }
    fn serialize_i64(self, v: i64) -> Result<(), Er> {
        self.put(Tok::I(8, v));
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> Result<(), Er> {
        self.put(Tok::U(1, v as u64));
        Ok(())
    }
    fn serialize_u16(self, v: u16) -> Result<(), Er> {
        self.put(Tok::U(2, v as u64));
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> Result<(), Er> {
        self.put(Tok::U(4, v as u64));
        Ok(())
    }
    fn serialize_u64(self, v: u64) -> Result<(), Er> {
        self.put(Tok::U(8, v));
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), Er> {
        self.put(Tok::Str(forever(v)));
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.put(Tok::Nil);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Er> {
        if !self.named {
            self.put(Tok::Some);
        }
        v.serialize(self)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<(), Er> {
        self.put(Tok::Var(i, v));
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
        Err(Er::Other)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Er> {
        self.put(Tok::Seq(n.unwrap_or(0)));
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Er> {
        self.put(Tok::Seq(n));
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Er> {
        self.put(Tok::Seq(n));
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Er> {
        self.put(Tok::Map(n));
        Ok(self)
    }
    no! {
        serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_bytes(&[u8]) -> ();
        serialize_unit() -> (); serialize_unit_struct(&'static str) -> ();
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_map(Option<usize>) -> Self::SerializeMap;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<(), Er> {
        Err(Er::Other)
    }
}
impl ser::SerializeStruct for &mut Tape {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        self.put(Tok::Key(k));
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Er> {
        self.put(Tok::MapEnd);
        Ok(())
    }
}
impl ser::SerializeSeq for &mut Tape {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Er> {
        self.put(Tok::SeqEnd);
        Ok(())
    }
}
impl ser::SerializeTuple for &mut Tape {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Er> {
        self.put(Tok::SeqEnd);
        Ok(())
    }
}
impl ser::SerializeTupleStruct for &mut Tape {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Er> {
        self.put(Tok::SeqEnd);
        Ok(())
    }
}

// ---------------------------------------------------------------- reading
pub struct Reader<'a> {
    pub t: &'a Tape,
    pub pos: usize,
    /// names are given by position in the structure instead
    pub by_index: bool,
    /// numbers are given in their own width, not the widest
    pub typed: bool,
    pub depth: usize,
    /// sequences do not know their length beforehand
    pub unsized_seq: bool,
    /// texts are handed over as bytes
    pub bytes: bool,
}
impl<'a> Reader<'a> {
    pub fn new(t: &'a Tape) -> Self {
        Reader { t, pos: 0, by_index: false, typed: !t.named, depth: 0, unsized_seq: false, bytes: false }
    }
    fn next(&mut self) -> Tok {
        let t = self.t.t[self.pos];
        self.pos += 1;
        t
    }
    fn peek(&self) -> Tok {
        self.t.t[self.pos]
    }
    fn skip(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::Map(_) | Tok::Seq(_) => d += 1,
                Tok::MapEnd | Tok::SeqEnd => d -= 1,
                Tok::Some | Tok::Key(_) => continue,
                _ => {}
            }
            if d == 0 {
                break;
            }
        }
    }
}
macro_rules! number {
    ($($f:ident $v:ident $t:ident;)*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
            if !self.typed {
                return self.deserialize_any(v);
            }
            match self.next() {
                Tok::U(n, x) if n as usize == core::mem::size_of::<$t>() => v.$v(x as $t),
                Tok::I(n, x) if n as usize == core::mem::size_of::<$t>() => v.$v(x as $t),
                _ => Err(Er::Other),
            }
        }
    )* };
}
macro_rules! any {
    ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.deserialize_any(v) } )* };
}
impl<'de> Deserializer<'de> for &mut Reader<'_> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        self.t.named
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.next() {
            Tok::Bool(x) => v.visit_bool(x),
            Tok::U(1, x) if self.typed => v.visit_u8(x as u8),
            Tok::U(2, x) if self.typed => v.visit_u16(x as u16),
            Tok::U(4, x) if self.typed => v.visit_u32(x as u32),
            Tok::U(_, x) => v.visit_u64(x),
            Tok::I(1, x) if self.typed => v.visit_i8(x as i8),
            Tok::I(2, x) if self.typed => v.visit_i16(x as i16),
            Tok::I(4, x) if self.typed => v.visit_i32(x as i32),
            Tok::I(_, x) => v.visit_i64(x),
            Tok::Str(s) if self.bytes => v.visit_bytes(s.as_bytes()),
            Tok::Str(s) => v.visit_str(s),
            Tok::Nil => v.visit_none(),
            Tok::Map(_) => {
                self.depth += 1;
                let r = v.visit_map(Names { r: self, i: 0 })?;
                self.depth -= 1;
                match self.next() {
                    Tok::MapEnd => Ok(r),
                    _ => Err(Er::Other),
                }
            }
            Tok::Seq(n) => {
                let r = v.visit_seq(Items { r: self, left: n, known: true })?;
                match self.next() {
                    Tok::SeqEnd => Ok(r),
                    _ => Err(Er::Other),
                }
            }
            _ => Err(Er::Other),
        }
    }
    number! {
        deserialize_i8 visit_i8 i8; deserialize_i16 visit_i16 i16; deserialize_i32 visit_i32 i32; deserialize_i64 visit_i64 i64;
        deserialize_u8 visit_u8 u8; deserialize_u16 visit_u16 u16; deserialize_u32 visit_u32 u32; deserialize_u64 visit_u64 u64;
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        self.deserialize_any(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.peek() {
            Tok::Nil => {
                self.next();
                v.visit_none()
            }
            Tok::Some => {
                self.next();
                v.visit_some(self)
            }
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        if self.t.named {
            return self.deserialize_any(v);
        }
        match self.next() {
            Tok::Map(_) => {}
            _ => return Err(Er::Other),
        }
        // as many elements as the reader announces
        let known = !self.unsized_seq;
        let r = v.visit_seq(Items { r: self, left: fields.len(), known })?;
        match self.next() {
            Tok::MapEnd => Ok(r),
            _ => Err(Er::Other),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        match self.next() {
            Tok::Var(i, n) => v.visit_enum(Variant { i, n, named: self.t.named, bytes: self.bytes }),
            _ => Err(Er::Other),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Er> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Er> {
        self.deserialize_any(v)
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        self.deserialize_any(v)
    }
    any! { deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
    deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
}
struct Items<'r, 'a> {
    r: &'r mut Reader<'a>,
    left: usize,
    known: bool,
}
impl<'de> SeqAccess<'de> for Items<'_, '_> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        if self.left == 0 {
            return Ok(None);
        }
        if let Tok::Key(_) = self.r.peek() {
            self.r.next();
        }
        match self.r.peek() {
            Tok::SeqEnd | Tok::MapEnd => return Ok(None),
            _ => {}
        }
        self.left -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        if self.known {
            Some(self.left)
        } else {
            None
        }
    }
}
struct Names<'r, 'a> {
    r: &'r mut Reader<'a>,
    i: u64,
}
struct Name<'n>(&'n str, bool);
impl<'de> Deserializer<'de> for Name<'_> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        if self.1 {
            v.visit_bytes(self.0.as_bytes())
        } else {
            v.visit_str(self.0)
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Index(u64);
impl<'de> Deserializer<'de> for Index {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_u64(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> MapAccess<'de> for Names<'_, '_> {
    type Error = Er;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        match self.r.peek() {
            Tok::Key(k) => {
                self.r.next();
                self.i += 1;
                if self.r.by_index {
                    s.deserialize(Index(self.i - 1)).map(Some)
                } else {
                    s.deserialize(Name(k, self.r.bytes)).map(Some)
                }
            }
            _ => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Er> {
        s.deserialize(&mut *self.r)
    }
}
struct Variant {
    i: u32,
    n: &'static str,
    named: bool,
    bytes: bool,
}
impl<'de> EnumAccess<'de> for Variant {
    type Error = Er;
    type Variant = Unit;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Unit), Er> {
        let v = if self.named { s.deserialize(Name(self.n, self.bytes))? } else { s.deserialize(IntoDeserializer::<Er>::into_deserializer(self.i))? };
        Ok((v, Unit))
    }
}
pub struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = Er;
    fn unit_variant(self) -> Result<(), Er> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Er> {
        Err(Er::Other)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Er> {
        Err(Er::Other)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        Err(Er::Other)
    }
}

// Contracts assumed of serde as serde_json runs it, of base64 and of the RFC 3339 text of a time
// (trusted; checked against the real ones by replay).
pub mod shim_serde {
use vstd::prelude::*;
use crate::shim_time::OffsetDateTime;

/// a JSON value
#[verifier::ext_equal]
pub ghost enum J {
    Null,
    Bool(bool),
    Num(int),
    Str(Seq<char>),
    Arr(Seq<J>),
    Obj(Map<Seq<char>, J>),
    /// a number that is no integer of 64 bits
    Frac,
}
pub open spec fn jempty() -> Map<Seq<char>, J> { Map::empty() }

/// serde_json::Error
#[verifier::external_body]
pub struct Error { e: u8 }
impl core::fmt::Debug for Error {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
/// `Error::custom`
#[verifier::external_body]
pub fn custom<E>(e: E) -> Error { unimplemented!() }

/// what a serializer makes
#[verifier::external_body]
pub struct Out { e: u8 }
impl View for Out { type V = J; uninterp spec fn view(&self) -> J; }

/// a JSON serializer of serde_json
#[verifier::external_body]
pub struct Ser { e: u8 }
/// one in the middle of an object
#[verifier::external_body]
pub struct SerStruct { e: u8 }
/// one in the middle of an array
#[verifier::external_body]
pub struct SerSeq { e: u8 }
/// one in the middle of a variant's array
#[verifier::external_body]
pub struct SerTupleVariant { e: u8 }
impl View for SerStruct { type V = Map<Seq<char>, J>; uninterp spec fn view(&self) -> Map<Seq<char>, J>; }
impl View for SerSeq { type V = Seq<J>; uninterp spec fn view(&self) -> Seq<J>; }

impl Ser {
    /// what it writes to does not fail
    pub uninterp spec fn reliable(&self) -> bool;
    /// the one a nested value is given
    #[verifier::external_body]
    pub fn nested() -> (r: Ser) ensures r.reliable() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_human_readable(&self) -> (r: bool) ensures r { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_str(self, s: &str) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Str(s@), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_u64(self, n: u64) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Num(n as int), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_u8(self, n: u8) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Num(n as int), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_i64(self, n: i64) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Num(n as int), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_bool(self, b: bool) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Bool(b), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_none(self) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Null, self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_unit(self) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Null, self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> (r: Result<Out, Error>)
        requires v.jok(),
        ensures r matches Ok(o) ==> o@ == v.json(), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_newtype_struct<T: Serialize + ?Sized>(self, name: &str, v: &T) -> (r: Result<Out, Error>)
        requires v.jok(),
        ensures r matches Ok(o) ==> o@ == v.json(), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_newtype_variant<T: Serialize + ?Sized>(self, name: &str, i: u32, variant: &str, v: &T) -> (r: Result<Out, Error>)
        requires v.jok(),
        ensures r matches Ok(o) ==> o@ == J::Obj(jempty().insert(variant@, v.json())), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_unit_variant(self, name: &str, i: u32, variant: &str) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Str(variant@), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_tuple_variant(self, name: &str, i: u32, variant: &str, n: usize) -> (r: Result<SerTupleVariant, Error>)
        ensures r matches Ok(o) ==> o.variant() == variant@ && o.elems() == Seq::<J>::empty() && o.reliable() == self.reliable(), self.reliable() ==> r is Ok { unimplemented!() }
    /// with a length of 0 serde_json closes the object at once: no field may follow
    #[verifier::external_body]
    pub fn serialize_struct(self, name: &str, n: usize) -> (r: Result<SerStruct, Error>)
        ensures r matches Ok(o) ==> o@ == jempty() && o.reliable() == self.reliable() && o.closed() == (n == 0), self.reliable() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<SerSeq, Error>)
        ensures r matches Ok(o) ==> o@ == Seq::<J>::empty() && o.reliable() == self.reliable() && o.closed() == (n == Some(0usize)), self.reliable() ==> r is Ok { unimplemented!() }
}
impl SerStruct {
    pub uninterp spec fn reliable(&self) -> bool;
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &str, v: &T) -> (r: Result<(), Error>)
        requires v.jok(), !old(self).closed(),
        ensures r is Ok ==> final(self)@ == old(self)@.insert(key@, v.json()), old(self).reliable() ==> r is Ok,
            final(self).reliable() == old(self).reliable(), final(self).closed() == old(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_field(&mut self, key: &str) -> (r: Result<(), Error>)
        ensures r is Ok, final(self)@ == old(self)@, final(self).reliable() == old(self).reliable(), final(self).closed() == old(self).closed() { unimplemented!() }
    /// `serialize_field` of something that serializes itself as `v`
    #[verifier::external_body]
    pub fn field_out(&mut self, key: &str, v: Out) -> (r: Result<(), Error>)
        requires !old(self).closed(),
        ensures r is Ok ==> final(self)@ == old(self)@.insert(key@, v@), old(self).reliable() ==> r is Ok,
            final(self).reliable() == old(self).reliable(), final(self).closed() == old(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Obj(self@), self.reliable() ==> r is Ok { unimplemented!() }
}
impl SerSeq {
    pub uninterp spec fn reliable(&self) -> bool;
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> (r: Result<(), Error>)
        requires v.jok(), !old(self).closed(),
        ensures r is Ok ==> final(self)@ == old(self)@.push(v.json()), old(self).reliable() ==> r is Ok,
            final(self).reliable() == old(self).reliable(), final(self).closed() == old(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Arr(self@), self.reliable() ==> r is Ok { unimplemented!() }
}
impl SerTupleVariant {
    pub uninterp spec fn reliable(&self) -> bool;
    pub uninterp spec fn variant(&self) -> Seq<char>;
    pub uninterp spec fn elems(&self) -> Seq<J>;
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Out, Error>)
        ensures r matches Ok(o) ==> o@ == J::Obj(jempty().insert(self.variant(), J::Arr(self.elems()))), self.reliable() ==> r is Ok { unimplemented!() }
}

/// serde::Serialize, for JSON
pub trait Serialize {
    /// there is JSON for it
    spec fn jok(&self) -> bool;
    spec fn json(&self) -> J;
    fn serialize(&self, s: Ser) -> (r: Result<Out, Error>)
        requires self.jok(),
        ensures r matches Ok(o) ==> o@ == self.json(), s.reliable() ==> r is Ok;
}
@@each u8 u16 u32 u64 usize i64: T
impl Serialize for {T} {
    open spec fn jok(&self) -> bool { true }
    open spec fn json(&self) -> J { J::Num(*self as int) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
@@done
impl Serialize for bool {
    open spec fn jok(&self) -> bool { true }
    open spec fn json(&self) -> J { J::Bool(*self) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
impl Serialize for String {
    open spec fn jok(&self) -> bool { true }
    open spec fn json(&self) -> J { J::Str(self@) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
impl Serialize for str {
    open spec fn jok(&self) -> bool { true }
    open spec fn json(&self) -> J { J::Str(self@) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
pub open spec fn all_jok<T: Serialize>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).jok() }
pub open spec fn all_json<T: Serialize>(s: Seq<T>) -> Seq<J> { Seq::new(s.len(), |i: int| s[i].json()) }
impl<T: Serialize> Serialize for Vec<T> {
    open spec fn jok(&self) -> bool { all_jok(self@) }
    open spec fn json(&self) -> J { J::Arr(all_json(self@)) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
impl<T: Serialize> Serialize for [T] {
    open spec fn jok(&self) -> bool { all_jok(self@) }
    open spec fn json(&self) -> J { J::Arr(all_json(self@)) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
impl<T: Serialize, const N: usize> Serialize for [T; N] {
    open spec fn jok(&self) -> bool { all_jok(self@) }
    open spec fn json(&self) -> J { J::Arr(all_json(self@)) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
impl<T: Serialize> Serialize for Option<T> {
    open spec fn jok(&self) -> bool { match self { Some(v) => v.jok(), None => true } }
    open spec fn json(&self) -> J { match self { Some(v) => v.json(), None => J::Null } }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
impl<T: Serialize + ?Sized> Serialize for &T {
    open spec fn jok(&self) -> bool { T::jok(*self) }
    open spec fn json(&self) -> J { T::json(*self) }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}

/// serde_json::Value
#[verifier::external_body]
pub struct Value { e: u8 }
impl View for Value { type V = J; uninterp spec fn view(&self) -> J; }
/// serde_json::Map
#[verifier::external_body]
pub struct Map_ { e: u8 }
impl View for Map_ { type V = Map<Seq<char>, J>; uninterp spec fn view(&self) -> Map<Seq<char>, J>; }
impl Map_ {
    #[verifier::external_body]
    pub fn new() -> (r: Map_) ensures r@ == jempty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    pub fn Object(m: Map_) -> (r: Value) ensures r@ == J::Obj(m@) { unimplemented!() }
    #[verifier::external_body]
    pub fn String(m: String) -> (r: Value) ensures r@ == J::Str(m@) { unimplemented!() }
}
impl Serialize for Value {
    open spec fn jok(&self) -> bool { true }
    open spec fn json(&self) -> J { self@ }
    #[verifier::external_body]
    fn serialize(&self, s: Ser) -> Result<Out, Error> { unimplemented!() }
}
#[verifier::external_body]
pub fn to_value<T: Serialize>(v: T) -> (r: Result<Value, Error>)
    requires v.jok(),
    ensures r matches Ok(o) && o@ == v.json(),
{ unimplemented!() }

/// `v.to_string()`
#[verifier::external_body]
pub fn text_of<T: crate::shim_text::Display>(v: &T) -> (r: String)
    requires v.text() is Some,
    ensures r@ == v.text()->0,
{ unimplemented!() }

/// the standard base64 text, with padding
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
impl Bytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: Bytes + ?Sized> Bytes for &T { open spec fn bytes(&self) -> Seq<u8> { T::bytes(*self) } }
/// `STANDARD.encode(b)`
#[verifier::external_body]
pub fn b64_encode<T: Bytes>(b: T) -> (r: String) ensures r@ == b64(b.bytes()) { unimplemented!() }

/// the RFC 3339 text of a time, if it has one
pub uninterp spec fn rfc3339(t: OffsetDateTime) -> Option<Seq<char>>;
pub struct Rfc3339;
#[verifier::external_body]
pub struct FormatError { e: u8 }
/// `t.format(&Rfc3339)`
#[verifier::external_body]
pub fn time_format(t: &OffsetDateTime, f: &Rfc3339) -> (r: Result<String, FormatError>)
    ensures match r { Ok(s) => rfc3339(*t) == Some(s@), Err(_) => rfc3339(*t) is None }
{ unimplemented!() }
/// time::serde::rfc3339::serialize
#[verifier::external_body]
pub fn rfc3339_serialize(t: &OffsetDateTime, s: Ser) -> (r: Result<Out, Error>)
    ensures
        r matches Ok(o) ==> rfc3339(*t) is Some && o@ == J::Str(rfc3339(*t)->0),
        s.reliable() && rfc3339(*t) is Some ==> r is Ok,
{ unimplemented!() }

pub open spec fn nanos_json(d: crate::shim_time::Duration) -> J { J::Num(d.ns()) }
pub open spec fn nanos_ok(d: crate::shim_time::Duration) -> bool { 0 <= d.ns() <= u64::MAX }
pub open spec fn time_json(t: OffsetDateTime) -> J { J::Str(rfc3339(t)->0) }
pub open spec fn time_ok(t: OffsetDateTime) -> bool { rfc3339(t) is Some }
pub open spec fn base64_json(b: Seq<u8>) -> J { J::Str(b64(b)) }
pub open spec fn base64_ok(b: Seq<u8>) -> bool { true }
pub open spec fn base64s_json(b: Seq<Vec<u8>>) -> J { J::Arr(Seq::new(b.len(), |i: int| J::Str(b64(b[i]@)))) }
pub open spec fn base64s_ok(b: Seq<Vec<u8>>) -> bool { true }
/// the texts of the first `n`
pub open spec fn b64_texts(a: Vec<String>, v: Seq<Vec<u8>>, n: int) -> bool {
    a@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] a@[i])@ == b64(v[i]@)
}
pub open spec fn times_json(b: Seq<OffsetDateTime>) -> J { J::Arr(Seq::new(b.len(), |i: int| J::Str(rfc3339(b[i])->0))) }
pub open spec fn times_ok(b: Seq<OffsetDateTime>) -> bool { forall|i: int| 0 <= i < b.len() ==> time_ok(#[trigger] b[i]) }

// ---- reading

/// a JSON reader of serde_json at a value
#[verifier::external_body]
pub struct De { e: u8 }
impl View for De { type V = J; uninterp spec fn view(&self) -> J; }
/// in an object: the entries not yet read
#[verifier::external_body]
pub struct MapAcc { e: u8 }
impl View for MapAcc { type V = Map<Seq<char>, J>; uninterp spec fn view(&self) -> Map<Seq<char>, J>; }
/// in an array: the elements not yet read
#[verifier::external_body]
pub struct SeqAcc { e: u8 }
impl View for SeqAcc { type V = Seq<J>; uninterp spec fn view(&self) -> Seq<J>; }
/// what a visitor is called with
pub enum Shape { Map(MapAcc), Seq(SeqAcc), Str(String), U64(u64), I64(i64), F64(u64), Bool(bool), Null }

/// the result is what is meant, or an error where nothing is
pub open spec fn res_is<T>(r: Result<T, Error>, o: Option<T>) -> bool {
    match r { Ok(v) => o == Some(v), Err(_) => o is None }
}
pub open spec fn shape_is(s: Shape, d: J) -> bool {
    match d {
        J::Null => s is Null,
        J::Bool(b) => s == Shape::Bool(b),
        J::Num(n) => if n >= 0 { s matches Shape::U64(v) && v == n } else { s matches Shape::I64(v) && v == n },
        J::Frac => s is F64,
        J::Str(t) => s matches Shape::Str(v) && v@ == t,
        J::Arr(a) => s matches Shape::Seq(q) && q@ == a && q.sound(),
        J::Obj(m) => s matches Shape::Map(q) && q@ == m && q.sound(),
    }
}

impl De {
    /// it is at a well-formed document in which no object repeats a key, within serde_json's depth limit,
    /// and what it reads from does not fail
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    pub fn is_human_readable(&self) -> (r: bool) ensures r { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(d: De) -> (r: Result<Shape, Error>)
        ensures d.sound() ==> (r matches Ok(s) && shape_is(s, d@)) { unimplemented!() }
}
/// the value under a key, if there is one
pub open spec fn field<T: Deserialize>(m: Map<Seq<char>, J>, key: Seq<char>) -> Option<Option<T>> {
    if m.contains_key(key) { match T::de(m[key]) { Some(v) => Some(Some(v)), None => None } } else { Some(None) }
}
impl MapAcc {
    pub uninterp spec fn sound(&self) -> bool;
    /// how many entries are left
    pub uninterp spec fn left(&self) -> nat;
    /// the value of the key just read
    pub uninterp spec fn pending(&self) -> J;
    /// the loop a derived reader runs over all keys, as far as one key goes
    #[verifier::external_body]
    pub fn take<T: Deserialize>(m: &MapAcc, key: &str) -> (r: Result<Option<T>, Error>)
        ensures m.sound() ==> res_is(r, field::<T>(m@, key@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_de(m: &MapAcc, key: &str) -> (r: Result<Option<De>, Error>)
        ensures m.sound() ==> (r matches Ok(o) && match o {
            Some(d) => m@.contains_key(key@) && d@ == m@[key@] && d.sound(),
            None => !m@.contains_key(key@),
        }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_key<T: Key>(&mut self) -> (r: Result<Option<T>, Error>)
        ensures
            old(self).sound() ==> final(self).sound() && r is Ok,
            r matches Ok(Some(k)) ==> final(self).left() < old(self).left(), r matches Ok(None) ==> final(self).left() == old(self).left(),
            old(self).sound() ==> match r {
                Ok(Some(k)) => old(self)@.contains_key(k.key()) && final(self)@ == old(self)@.remove(k.key()) && final(self).pending() == old(self)@[k.key()],
                Ok(None) => old(self)@ =~= jempty() && final(self)@ == old(self)@,
                Err(_) => true,
            } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value<T: Deserialize>(&mut self) -> (r: Result<T, Error>)
        ensures
            final(self).left() == old(self).left(), final(self)@ == old(self)@,
            old(self).sound() ==> final(self).sound() && res_is(r, dev::<T>(old(self).pending())) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(m: MapAcc) -> (r: Result<(), Error>)
        ensures m.sound() && m@ =~= jempty() ==> r is Ok { unimplemented!() }
}
impl SeqAcc {
    pub uninterp spec fn sound(&self) -> bool;
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next_element<T: Deserialize>(&mut self) -> (r: Result<Option<T>, Error>)
        ensures
            r matches Ok(Some(k)) ==> final(self).left() < old(self).left(), r matches Ok(None) ==> final(self).left() == old(self).left(),
            old(self).sound() ==> (if old(self)@.len() == 0 {
                r == Ok::<Option<T>, Error>(None) && final(self)@ == old(self)@ && final(self).sound()
            } else {
                match r {
                    Ok(Some(v)) => T::de(old(self)@[0]) == Some(v) && final(self)@ == old(self)@.drop_first() && final(self).sound(),
                    Ok(None) => false,
                    Err(_) => T::de(old(self)@[0]) is None,
                }
            }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_de(s: &mut SeqAcc) -> (r: Result<Option<De>, Error>)
        ensures
            old(s).sound() ==> final(s).sound() && (if old(s)@.len() == 0 {
                r == Ok::<Option<De>, Error>(None) && final(s)@ == old(s)@
            } else {
                (r matches Ok(Some(d)) && d@ == old(s)@[0] && d.sound()) && final(s)@ == old(s)@.drop_first()
            }) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(s: SeqAcc) -> (r: Result<(), Error>)
        ensures s.sound() ==> (r is Ok <==> s@.len() == 0) { unimplemented!() }
}
pub trait Key { spec fn key(&self) -> Seq<char>; }
impl Key for String { open spec fn key(&self) -> Seq<char> { self@ } }

/// serde::Deserialize, for JSON
pub trait Deserialize: Sized {
    /// the value a document denotes
    spec fn de(d: J) -> Option<Self>;
    /// what a field that is not there reads as
    spec fn absent() -> Option<Self>;
    fn deserialize(d: De) -> (r: Result<Self, Error>)
        ensures d.sound() ==> res_is(r, Self::de(d@));
}
@@each u8 u16 u32 u64 usize i64: T
impl Deserialize for {T} {
    open spec fn de(d: J) -> Option<Self> { match d { J::Num(n) => if {T}::MIN <= n <= {T}::MAX { Some(n as {T}) } else { None }, _ => None } }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
@@done
impl Deserialize for bool {
    open spec fn de(d: J) -> Option<Self> { match d { J::Bool(b) => Some(b), _ => None } }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
/// a text, which in memory has less than 2^64 bytes
pub open spec fn text(d: J) -> Option<Seq<char>> {
    match d { J::Str(s) => if crate::spec::str_bytes(s).len() <= usize::MAX { Some(s) } else { None }, _ => None }
}
impl Deserialize for String {
    open spec fn de(d: J) -> Option<Self> { match text(d) { Some(s) => Some(crate::spec::string_from(crate::spec::str_bytes(s))), None => None } }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
/// each of them denotes one, and they fit in memory
pub open spec fn all_de<T: Deserialize>(a: Seq<J>) -> bool { a.len() <= usize::MAX && forall|i: int| 0 <= i < a.len() ==> T::de(#[trigger] a[i]) is Some }
pub open spec fn seq_de<T: Deserialize>(a: Seq<J>) -> Seq<T> { Seq::new(a.len(), |i: int| T::de(a[i])->0) }
impl<T: Deserialize> Deserialize for Vec<T> {
    open spec fn de(d: J) -> Option<Self> { match d { J::Arr(a) => if all_de::<T>(a) { Some(crate::spec::vec_from(seq_de::<T>(a))) } else { None }, _ => None } }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
impl<T: Deserialize, const N: usize> Deserialize for [T; N] {
    open spec fn de(d: J) -> Option<Self> { match d { J::Arr(a) => if a.len() == N && all_de::<T>(a) { Some(crate::spec::array_from(seq_de::<T>(a))) } else { None }, _ => None } }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
impl<T: Deserialize> Deserialize for Option<T> {
    open spec fn de(d: J) -> Option<Self> { match d { J::Null => Some(None), _ => match T::de(d) { Some(v) => Some(Some(v)), None => None } } }
    open spec fn absent() -> Option<Self> { Some(None) }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
impl<A: Deserialize, B: Deserialize> Deserialize for (A, B) {
    open spec fn de(d: J) -> Option<Self> {
        match d {
            J::Arr(a) => if a.len() == 2 { match (A::de(a[0]), B::de(a[1])) { (Some(x), Some(y)) => Some((x, y)), _ => None } } else { None },
            _ => None,
        }
    }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
pub uninterp spec fn value_from(j: J) -> Value;
pub broadcast axiom fn ax_value_from(v: Value)
    ensures value_from(#[trigger] v@) == v;
pub broadcast axiom fn ax_value_from_view(j: J)
    ensures #[trigger] value_from(j)@ == j;
pub broadcast axiom fn ax_string_from_text(s: Seq<char>)
    requires crate::spec::str_bytes(s).len() <= usize::MAX,
    ensures (#[trigger] crate::spec::string_from(crate::spec::str_bytes(s)))@ == s;
pub broadcast group group_de { lemma_dev_value, ax_value_from, ax_value_from_view, ax_string_from_text }
impl Deserialize for Value {
    open spec fn de(d: J) -> Option<Self> { Some(value_from(d)) }
    open spec fn absent() -> Option<Self> { None }
    #[verifier::external_body]
    fn deserialize(d: De) -> Result<Self, Error> { unimplemented!() }
}
#[verifier::external_body]
pub fn from_value<T: Deserialize>(v: Value) -> (r: Result<T, Error>)
    ensures res_is(r, dev::<T>(v@)),
{ unimplemented!() }
/// `T::de(d)`, opened only where it is asked for
#[verifier::opaque]
pub open spec fn dev<T: Deserialize>(d: J) -> Option<T> { T::de(d) }
pub broadcast proof fn lemma_dev_value(d: J)
    ensures #[trigger] dev::<Value>(d) == Some(value_from(d)),
{ reveal(dev); }

/// what a derived reader takes for a field
pub open spec fn req<T: Deserialize>(m: Map<Seq<char>, J>, key: Seq<char>) -> Option<T> {
    if m.contains_key(key) { T::de(m[key]) } else { T::absent() }
}
pub open spec fn dflt<T: Deserialize>(m: Map<Seq<char>, J>, key: Seq<char>, v: T) -> Option<T> {
    if m.contains_key(key) { T::de(m[key]) } else { Some(v) }
}
/// `v` is what has been read of a field, with `rest` still to come
pub open spec fn got<T: Deserialize>(m: Map<Seq<char>, J>, rest: Map<Seq<char>, J>, key: Seq<char>, v: Option<T>) -> bool {
    if rest.contains_key(key) { m.contains_key(key) && rest[key] == m[key] && v is None }
    else if m.contains_key(key) { v is Some && dev::<T>(m[key]) == v }
    else { v is None }
}
pub open spec fn el<T: Deserialize>(a: Seq<J>, i: int) -> Option<T> { if i < a.len() { T::de(a[i]) } else { None } }
pub open spec fn el_dflt<T: Deserialize>(a: Seq<J>, i: int, v: T) -> Option<T> { if i < a.len() { T::de(a[i]) } else { Some(v) } }

/// `missing_field`
#[verifier::external_body]
pub fn missing_field<T: Deserialize>() -> (r: Result<T, Error>) ensures res_is(r, T::absent()) { unimplemented!() }
/// an error, whatever its text
#[verifier::external_body]
pub fn err() -> Error { unimplemented!() }
/// `r.map_err(..)` to an error
pub fn erase<T, E>(r: Result<T, E>) -> (s: Result<T, Error>)
    ensures match r { Ok(v) => s == Ok::<T, Error>(v), Err(_) => s is Err },
{ match r { Ok(v) => Ok(v), Err(_) => Err(err()) } }
/// `o.ok_or(..)` with an error
pub fn need<T>(o: Option<T>) -> (s: Result<T, Error>)
    ensures match o { Some(v) => s == Ok::<T, Error>(v), None => s is Err },
{ match o { Some(v) => Ok(v), None => Err(err()) } }

pub uninterp spec fn unb64(t: Seq<u8>) -> Option<Seq<u8>>;
impl Bytes for String { open spec fn bytes(&self) -> Seq<u8> { crate::spec::str_bytes(self@) } }
#[verifier::external_body]
pub struct B64Error { e: u8 }
/// `STANDARD.decode(t)`
#[verifier::external_body]
pub fn b64_decode<T: Bytes>(t: T) -> (r: Result<Vec<u8>, B64Error>)
    ensures match r { Ok(v) => unb64(t.bytes()) == Some(v@), Err(_) => unb64(t.bytes()) is None }
{ unimplemented!() }

/// the time an RFC 3339 text denotes
pub uninterp spec fn unrfc(t: Seq<char>) -> Option<OffsetDateTime>;
#[verifier::external_body]
pub struct ParseError { e: u8 }
/// `OffsetDateTime::parse(t, &Rfc3339)`
#[verifier::external_body]
pub fn time_parse(t: &str) -> (r: Result<OffsetDateTime, ParseError>)
    ensures match r { Ok(v) => unrfc(t@) == Some(v), Err(_) => unrfc(t@) is None }
{ unimplemented!() }
/// time::serde::rfc3339::deserialize
#[verifier::external_body]
pub fn rfc3339_deserialize(d: De) -> (r: Result<OffsetDateTime, Error>)
    ensures d.sound() ==> res_is(r, time_de(d@))
{ unimplemented!() }
pub open spec fn time_de(d: J) -> Option<OffsetDateTime> { match text(d) { Some(s) => unrfc(s), None => None } }
pub open spec fn base64_de(d: J) -> Option<Vec<u8>> {
    match text(d) { Some(s) => match unb64(crate::spec::str_bytes(s)) { Some(b) => Some(crate::spec::vec_from(b)), None => None }, None => None }
}
pub open spec fn all_base64(a: Seq<J>) -> bool { a.len() <= usize::MAX && forall|i: int| 0 <= i < a.len() ==> base64_de(#[trigger] a[i]) is Some }
pub open spec fn b64_read(out: Vec<Vec<u8>>, src: Vec<String>, n: int) -> bool {
    out@.len() == n && forall|i: int| 0 <= i < n ==> unb64(crate::spec::str_bytes((#[trigger] src@[i])@)) == Some(out@[i]@)
}
pub proof fn lemma_base64s(a: Seq<J>, src: Vec<String>, out: Vec<Vec<u8>>)
    requires
        Vec::<String>::de(J::Arr(a)) == Some(src), b64_read(out, src, src@.len() as int),
    ensures base64s_de(J::Arr(a)) == Some(out),
{
    broadcast use group_de, crate::spec::group_spec;
    crate::spec::ax_vec_from_view(seq_de::<String>(a));
    assert forall|i: int| 0 <= i < a.len() implies base64_de(#[trigger] a[i]) == Some(out@[i]) by {
        assert(String::de(a[i]) is Some);
        assert(src@[i] == String::de(a[i])->0);
    }
    assert(Seq::new(a.len(), |i: int| base64_de(a[i])->0) =~= out@);
}
pub proof fn lemma_base64s_not(d: J, src: Vec<String>, k: int)
    requires
        Vec::<String>::de(d) == Some(src), 0 <= k < src@.len(), unb64(crate::spec::str_bytes(src@[k]@)) is None,
    ensures base64s_de(d) is None,
{
    broadcast use group_de, crate::spec::group_spec;
    let a = d->Arr_0;
    crate::spec::ax_vec_from_view(seq_de::<String>(a));
    assert(String::de(a[k]) is Some);
    assert(src@[k] == String::de(a[k])->0);
    assert(base64_de(a[k]) is None);
}
pub proof fn lemma_base64s_shape(d: J)
    requires Vec::<String>::de(d) is None,
    ensures base64s_de(d) is None,
{
    match d {
        J::Arr(a) => if a.len() <= usize::MAX {
            let i = choose|i: int| 0 <= i < a.len() && String::de(#[trigger] a[i]) is None;
            assert(base64_de(a[i]) is None);
        }
        _ => {}
    }
}
pub open spec fn base64s_de(d: J) -> Option<Vec<Vec<u8>>> {
    match d { J::Arr(a) => if all_base64(a) { Some(crate::spec::vec_from(Seq::new(a.len(), |i: int| base64_de(a[i])->0))) } else { None }, _ => None }
}
/// nanoseconds of 64 bits, two's complement
pub open spec fn nanos_de(d: J) -> Option<crate::shim_time::Duration> {
    match d { J::Num(n) => if 0 <= n <= u64::MAX { Some(crate::shim_time::dur_from((n as u64 as i64) as int)) } else { None }, _ => None }
}
pub open spec fn all_times(a: Seq<J>) -> bool { forall|i: int| 0 <= i < a.len() ==> time_de(#[trigger] a[i]) is Some }
/// at most eleven, the rest the epoch
pub open spec fn times_de(d: J) -> Option<[OffsetDateTime; 11]> {
    match d {
        J::Arr(a) => if a.len() <= 11 && all_times(a) {
            Some(crate::spec::array_from(Seq::new(11, |i: int| if i < a.len() { time_de(a[i])->0 } else { crate::shim_time::odt_from(0) })))
        } else { None },
        _ => None,
    }
}
/// `s.strip_prefix(p)`
#[verifier::external_body]
pub fn str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(t) => p@.is_prefix_of(s@) && t@ == s@.skip(p@.len() as int), None => !p@.is_prefix_of(s@) }
{ unimplemented!() }
/// the ones among the lowest `k` bits
pub open spec fn ones(n: u64, k: nat) -> nat
    decreases k,
{ if k == 0 { 0 } else { ones(n, (k - 1) as nat) + if crate::consensus::tree_at(n, (k - 1) as nat) { 1nat } else { 0nat } } }
pub proof fn lemma_ones(n: u64, i: nat, k: nat)
    requires i <= k,
    ensures ones(n, i) <= ones(n, k), i < k && crate::consensus::tree_at(n, i) ==> ones(n, i) < ones(n, k),
    decreases k,
{ if i < k { lemma_ones(n, i, (k - 1) as nat); } }
#[verifier::external_body]
pub fn count_ones(n: u64) -> (r: u32) ensures r == ones(n, 64), r <= 64 { unimplemented!() }
/// a Work from decimal digits (none are zero)
pub open spec fn work_de(s: Seq<char>) -> Option<crate::types::work::Work> {
    if (s.len() == 0 || crate::spec::digits(s)) && crate::spec::decimal(s) < vstd::arithmetic::power::pow(2, 256) {
        Some(crate::lemmas_types::work_from(crate::spec::decimal(s)))
    } else { None }
}
#[verifier::external_body]
pub struct FromDecStrErr { e: u8 }
/// `Work::from_dec_str(s)`, of the crate uint
#[verifier::external_body]
pub fn work_from_dec(s: &str) -> (r: Result<crate::types::work::Work, FromDecStrErr>)
    ensures match r { Ok(v) => work_de(s@) == Some(v), Err(_) => work_de(s@) is None }
{ unimplemented!() }
/// `v.into_iter()`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecIter<T> { v: Vec<T> }
impl<T> View for VecIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn vec_iter<T>(v: Vec<T>) -> (r: VecIter<T>) ensures r@ == v@ { unimplemented!() }
impl<T> VecIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures if old(self)@.len() == 0 { r is None && final(self)@ == old(self)@ } else { r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() }
    { unimplemented!() }
}
} // shim_serde

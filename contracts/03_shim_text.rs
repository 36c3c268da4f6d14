// Contracts assumed of core::fmt, core::str and hex (trusted; checked against the real ones by replay).
pub mod shim_text {
use vstd::prelude::*;
use crate::spec::*;

/// core::fmt::Error
pub struct Error;
pub type Result = core::result::Result<(), Error>;

/// core::fmt::Formatter, over whatever it writes to
#[verifier::external_body]
pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
impl<'a> View for Formatter<'a> {
    type V = Seq<char>;
    /// everything written so far
    uninterp spec fn view(&self) -> Seq<char>;
}
impl<'a> Formatter<'a> {
    /// what is written to never fails
    pub uninterp spec fn reliable(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result)
        ensures
            r is Ok ==> final(self)@ == old(self)@ + s@,
            old(self).reliable() ==> r is Ok,
            final(self).reliable() == old(self).reliable(),
    { unimplemented!() }
}
/// core::fmt::Display, with the empty format specification
pub trait Display {
    /// its text, if it has one
    spec fn text(&self) -> Option<Seq<char>>;
    fn fmt(&self, f: &mut Formatter) -> (r: Result)
        ensures
            r is Ok ==> self.text() is Some && final(f)@ == old(f)@ + self.text()->0,
            old(f).reliable() && self.text() is Some ==> r is Ok,
            final(f).reliable() == old(f).reliable();
}
/// the literal pieces of a format string
#[verifier::external_body]
pub fn write_lit(f: &mut Formatter, s: &[char]) -> (r: Result)
    ensures
        r is Ok ==> final(f)@ == old(f)@ + s@,
        old(f).reliable() ==> r is Ok,
        final(f).reliable() == old(f).reliable(),
{ unimplemented!() }
impl Display for str {
    open spec fn text(&self) -> Option<Seq<char>> { Some(self@) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
impl Display for String {
    open spec fn text(&self) -> Option<Seq<char>> { Some(self@) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
impl Display for u64 {
    open spec fn text(&self) -> Option<Seq<char>> { Some(dec_text(*self as nat)) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> Result { unimplemented!() }
}
impl<T: Display + ?Sized> Display for &T {
    open spec fn text(&self) -> Option<Seq<char>> { T::text(*self) }
    fn fmt(&self, f: &mut Formatter) -> Result { assert(<Self as Display>::text(self) == T::text(*self)); T::fmt(*self, f) }
}

#[verifier::external_body]
pub struct Utf8Error { e: u8 }
#[verifier::external_body]
pub fn str_from_utf8(b: &[u8]) -> (r: core::result::Result<&str, Utf8Error>)
    ensures match r { Ok(s) => utf8(b@) == Some(s@), Err(_) => utf8(b@) is None }
{ unimplemented!() }
/// `s.split_once(c)`
#[verifier::external_body]
pub fn str_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((a, b)) => split_once(s@, c) == Some((a@, b@)), None => split_once(s@, c) is None }
{ unimplemented!() }
/// `a == b` on slices
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ =~= b@)
{ unimplemented!() }
} // shim_text

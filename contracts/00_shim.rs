// Contracts assumed of the dependencies and of the parts of std that the crate calls. Everything
// in this module is trusted; the replay harness checks the same facts against the real
// dependencies on every run.
pub mod shim {
pub use crate::shim_time as time;
pub use crate::shim_deps::{ed25519_dalek, hex, bip39, num_bigint, num_rational};
use vstd::prelude::*;

// ---------------------------------------------------------------- std::io
pub mod io {
use vstd::prelude::*;

#[verifier::external_body]
pub struct Error { e: u8 }

pub trait Write {
    /// everything accepted so far
    spec fn written(&self) -> Seq<u8>;
    /// never fails
    spec fn reliable(&self) -> bool;
    /// what writing does not change
    spec fn kind(&self) -> nat;

    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), Error>)
        ensures
            r is Ok ==> final(self).written() == old(self).written() + buf@,
            old(self).reliable() ==> r is Ok,
            final(self).reliable() == old(self).reliable(), final(self).kind() == old(self).kind();
}

pub trait Read {
    /// everything not read yet
    spec fn remaining(&self) -> Seq<u8>;
    /// fails only when the input is exhausted
    spec fn reliable(&self) -> bool;

    fn read_exact(&mut self, buf: &mut [u8]) -> (r: core::result::Result<(), Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).remaining().len() >= old(buf)@.len()
                && final(buf)@ == old(self).remaining().take(old(buf)@.len() as int)
                && final(self).remaining() == old(self).remaining().skip(old(buf)@.len() as int),
            old(self).reliable() && r is Err ==> old(self).remaining().len() < old(buf)@.len(),
            final(self).reliable() == old(self).reliable();
}

impl Write for Vec<u8> {
    open spec fn written(&self) -> Seq<u8> { self@ }
    open spec fn reliable(&self) -> bool { true }
    open spec fn kind(&self) -> nat { 0 }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> core::result::Result<(), Error> { unimplemented!() }
}
} // io

// ---------------------------------------------------------------- blake2b_simd
pub mod blake2b_simd {
use vstd::prelude::*;
use crate::spec::*;

#[verifier::external_body]
pub struct Params { p: u8 }
#[verifier::external_body]
pub struct State { p: u8 }
#[verifier::external_body]
pub struct Hash { p: u8 }

impl Params {
    pub uninterp spec fn hlen(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: Params) ensures r.hlen() == 64 { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_length(&mut self, n: usize) -> (r: &mut Params)
        requires 32 <= n <= 64,
        ensures r.hlen() == n, *final(self) == *final(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_state(&self) -> (r: State)
        ensures r.hlen() == self.hlen(), r.data() == Seq::<u8>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hash(&self, b: &[u8]) -> (r: Hash)
        ensures r@ == blake2b(self.hlen(), b@),
            forall|s: Seq<u8>| s =~= b@ ==> r@ == #[trigger] blake2b(self.hlen(), s),
    { unimplemented!() }
}

impl State {
    pub uninterp spec fn hlen(&self) -> nat;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn update(&mut self, b: &[u8]) -> (r: &mut State)
        ensures r.data() == old(self).data() + b@, r.hlen() == old(self).hlen(), *final(self) == *final(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&self) -> (r: Hash)
        ensures r@ == blake2b(self.hlen(), self.data()),
            forall|s: Seq<u8>| s =~= self.data() ==> r@ == #[trigger] blake2b(self.hlen(), s),
    { unimplemented!() }
}

pub mod many {
use vstd::prelude::*;
use crate::spec::*;
#[verifier::external_body]
pub struct HashManyJob { p: u8 }
impl HashManyJob {
    pub uninterp spec fn hlen(&self) -> nat;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    /// the job was run
    pub uninterp spec fn done(&self) -> bool;
    #[verifier::external_body]
    pub fn new(p: &super::Params, b: &[u8]) -> (r: HashManyJob)
        ensures r.hlen() == p.hlen(), r.data() == b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_hash(&self) -> (r: super::Hash)
        requires self.done(),
        ensures r@ == blake2b(self.hlen(), self.data()),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn hash_many(jobs: &mut [HashManyJob])
    ensures final(jobs)@.len() == old(jobs)@.len(),
        forall|i: int| 0 <= i < old(jobs)@.len() ==> (#[trigger] final(jobs)@[i]).done()
            && final(jobs)@[i].hlen() == old(jobs)@[i].hlen() && final(jobs)@[i].data() == old(jobs)@[i].data(),
{ unimplemented!() }
} // many

impl crate::shim::io::Write for State {
    open spec fn written(&self) -> Seq<u8> { self.data() }
    open spec fn reliable(&self) -> bool { true }
    open spec fn kind(&self) -> nat { self.hlen() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> core::result::Result<(), crate::shim::io::Error> { unimplemented!() }
}

impl View for Hash {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl Hash {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
} // blake2b_simd

// ---------------------------------------------------------------- std
pub trait AsRefSh<T: ?Sized + View<V = Seq<u8>>> {
    spec fn asref(&self) -> Seq<u8>;
    fn as_ref_sh(&self) -> (r: &T) ensures r@ == self.asref();
}
impl AsRefSh<[u8]> for [u8] {
    open spec fn asref(&self) -> Seq<u8> { self@ }
    fn as_ref_sh(&self) -> (r: &[u8]) { self }
}
impl<const N: usize> AsRefSh<[u8]> for [u8; N] {
    open spec fn asref(&self) -> Seq<u8> { self@ }
    fn as_ref_sh(&self) -> (r: &[u8]) { self }
}
impl AsRefSh<[u8]> for str {
    open spec fn asref(&self) -> Seq<u8> { crate::spec::str_bytes(self@) }
    #[verifier::external_body]
    fn as_ref_sh(&self) -> (r: &[u8]) { unimplemented!() }
}
impl AsRefSh<[u8]> for String {
    open spec fn asref(&self) -> Seq<u8> { crate::spec::str_bytes(self@) }
    #[verifier::external_body]
    fn as_ref_sh(&self) -> (r: &[u8]) { unimplemented!() }
}
impl AsRefSh<[u8]> for Vec<u8> {
    open spec fn asref(&self) -> Seq<u8> { self@ }
    fn as_ref_sh(&self) -> (r: &[u8]) { self.as_slice() }
}
impl<T: AsRefSh<[u8]> + ?Sized> AsRefSh<[u8]> for &T {
    open spec fn asref(&self) -> Seq<u8> { T::asref(*self) }
    fn as_ref_sh(&self) -> (r: &[u8]) { let r = T::as_ref_sh(*self); assert(<Self as AsRefSh<[u8]>>::asref(self) == T::asref(*self)); r }
}

pub trait TryIntoSh<T>: Sized {
    type Error;
    spec fn tryinto(self) -> Option<T>;
    fn try_into_sh(self) -> (r: core::result::Result<T, Self::Error>)
        ensures match r { Ok(v) => self.tryinto() == Some(v), Err(_) => self.tryinto() is None };
}
impl TryIntoSh<u64> for u128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u64> { if self <= u64::MAX { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u32> for u128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u32> { if self <= u32::MAX { Some(self as u32) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u32, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<usize> for u128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<usize> { if self <= usize::MAX { Some(self as usize) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<usize, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<i64> for u128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<i64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<i128> for u128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<i128> { if self <= i128::MAX { Some(self as i128) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<i128, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<i64> for i128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<i64> { if i64::MIN <= self && self <= i64::MAX { Some(self as i64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<i64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u64> for i128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u64> { if 0 <= self && self <= u64::MAX { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u128> for i128 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u128> { if 0 <= self && self <= u128::MAX { Some(self as u128) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u128, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u64> for i64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u64> { if 0 <= self && self <= u64::MAX { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u128> for i64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u128> { if 0 <= self && self <= u128::MAX { Some(self as u128) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u128, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u32> for i64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u32> { if 0 <= self && self <= u32::MAX { Some(self as u32) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u32, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<i64> for u64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<i64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<usize> for u64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<usize> { if self <= usize::MAX { Some(self as usize) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<usize, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u32> for u64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u32> { if self <= u32::MAX { Some(self as u32) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u32, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u16> for u64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u16> { if self <= u16::MAX { Some(self as u16) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u16, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u8> for u64 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u8> { if self <= u8::MAX { Some(self as u8) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u8, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u32> for usize {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u32> { if self <= u32::MAX { Some(self as u32) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u32, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u8> for usize {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u8> { if self <= u8::MAX { Some(self as u8) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u8, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u64> for usize {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u64> { if self <= u64::MAX { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u64, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<u8> for u32 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<u8> { if self <= u8::MAX { Some(self as u8) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<u8, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<usize> for u32 {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<usize> { if self <= usize::MAX { Some(self as usize) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<usize, core::num::TryFromIntError> { unimplemented!() }
}
impl TryIntoSh<i64> for usize {
    type Error = core::num::TryFromIntError;
    open spec fn tryinto(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<i64, core::num::TryFromIntError> { unimplemented!() }
}
impl<'a, const N: usize> TryIntoSh<[u8; N]> for &'a [u8] {
    type Error = core::array::TryFromSliceError;
    open spec fn tryinto(self) -> Option<[u8; N]> { if self@.len() == N { Some(crate::spec::array_from::<u8, N>(self@)) } else { None } }
    #[verifier::external_body]
    fn try_into_sh(self) -> core::result::Result<[u8; N], core::array::TryFromSliceError> { unimplemented!() }
}

pub trait IntBytes<const N: usize> {
    spec fn le_spec(&self) -> Seq<u8>;
    spec fn be_spec(&self) -> Seq<u8>;
    fn sia_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == self.le_spec();
    fn sia_to_be_bytes(&self) -> (r: [u8; N]) ensures r@ == self.be_spec();
}
impl IntBytes<1> for u8 {
    open spec fn le_spec(&self) -> Seq<u8> { seq![*self] }
    open spec fn be_spec(&self) -> Seq<u8> { seq![*self] }
    #[verifier::external_body]
    fn sia_to_le_bytes(&self) -> [u8; 1] { unimplemented!() }
    #[verifier::external_body]
    fn sia_to_be_bytes(&self) -> [u8; 1] { unimplemented!() }
}
impl IntBytes<2> for u16 {
    open spec fn le_spec(&self) -> Seq<u8> { crate::spec::le(*self as nat, 2) }
    open spec fn be_spec(&self) -> Seq<u8> { crate::spec::be(*self as nat, 2) }
    #[verifier::external_body]
    fn sia_to_le_bytes(&self) -> [u8; 2] { unimplemented!() }
    #[verifier::external_body]
    fn sia_to_be_bytes(&self) -> [u8; 2] { unimplemented!() }
}
impl IntBytes<4> for u32 {
    open spec fn le_spec(&self) -> Seq<u8> { crate::spec::le(*self as nat, 4) }
    open spec fn be_spec(&self) -> Seq<u8> { crate::spec::be(*self as nat, 4) }
    #[verifier::external_body]
    fn sia_to_le_bytes(&self) -> [u8; 4] { unimplemented!() }
    #[verifier::external_body]
    fn sia_to_be_bytes(&self) -> [u8; 4] { unimplemented!() }
}
impl IntBytes<8> for u64 {
    open spec fn le_spec(&self) -> Seq<u8> { crate::spec::le(*self as nat, 8) }
    open spec fn be_spec(&self) -> Seq<u8> { crate::spec::be(*self as nat, 8) }
    #[verifier::external_body]
    fn sia_to_le_bytes(&self) -> [u8; 8] { unimplemented!() }
    #[verifier::external_body]
    fn sia_to_be_bytes(&self) -> [u8; 8] { unimplemented!() }
}
impl IntBytes<8> for usize {
    open spec fn le_spec(&self) -> Seq<u8> { crate::spec::le(*self as nat, 8) }
    open spec fn be_spec(&self) -> Seq<u8> { crate::spec::be(*self as nat, 8) }
    #[verifier::external_body]
    fn sia_to_le_bytes(&self) -> [u8; 8] { unimplemented!() }
    #[verifier::external_body]
    fn sia_to_be_bytes(&self) -> [u8; 8] { unimplemented!() }
}
impl IntBytes<16> for u128 {
    open spec fn le_spec(&self) -> Seq<u8> { crate::spec::le(*self as nat, 16) }
    open spec fn be_spec(&self) -> Seq<u8> { crate::spec::be(*self as nat, 16) }
    #[verifier::external_body]
    fn sia_to_le_bytes(&self) -> [u8; 16] { unimplemented!() }
    #[verifier::external_body]
    fn sia_to_be_bytes(&self) -> [u8; 16] { unimplemented!() }
}
#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == crate::spec::unle(b@) { unimplemented!() }
#[verifier::external_body]
pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == crate::spec::unbe(b@) { unimplemented!() }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == crate::spec::unle(b@) { unimplemented!() }
#[verifier::external_body]
pub fn u128_from_le_bytes(b: [u8; 16]) -> (r: u128) ensures r as nat == crate::spec::unle(b@) { unimplemented!() }
#[verifier::external_body]
pub fn u128_from_be_bytes(b: [u8; 16]) -> (r: u128) ensures r as nat == crate::spec::unbe(b@) { unimplemented!() }

/// a panic: never reachable
#[verifier::external_body]
pub const fn panic_() -> (r: !) requires false { unimplemented!() }
#[verifier::external_body]
pub fn any_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn lit_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
/// `x == "text"`
#[verifier::external_body]
pub fn str_is(s: &str, lit: &[char]) -> (r: bool) ensures r == (s@ =~= lit@) { unimplemented!() }
/// `s.char_indices().collect()`
#[verifier::external_body]
pub fn str_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).1 == s@[i] && r@[i].0 == crate::spec::offset(s@, i),
{ unimplemented!() }
/// panics unless `mid` is the boundary of a character
#[verifier::external_body]
pub fn str_split_at<'a>(s: &'a str, mid: usize) -> (r: (&'a str, &'a str))
    requires exists|k: int| 0 <= k <= s@.len() && mid == #[trigger] crate::spec::offset(s@, k),
    ensures forall|k: int| 0 <= k <= s@.len() && mid == #[trigger] crate::spec::offset(s@, k) ==> r.0@ == s@.take(k) && r.1@ == s@.skip(k),
{ unimplemented!() }
/// `s.split(c).collect()`
#[verifier::external_body]
pub fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == crate::spec::split_on(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == crate::spec::split_on(s@, c)[i],
{ unimplemented!() }
/// `s.parse::<u128>()`: decimal digits after an optional plus sign
#[verifier::external_body]
pub fn str_parse_u128(s: &str) -> (r: core::result::Result<u128, core::num::ParseIntError>)
    ensures
        r matches Ok(v) ==> crate::spec::parse_int(s@) == Some(v as nat),
        r is Err ==> (crate::spec::parse_int(s@) matches Some(v) ==> v > u128::MAX),
{ unimplemented!() }
/// the most elements that may be allocated before they exist
pub open spec fn alloc_ok(n: int) -> bool { n <= 0x10000 }
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires alloc_ok(n as int),
    ensures r@ == Seq::<T>::empty(),
{ unimplemented!() }
/// `Vec::with_capacity(x.len())`: no more than there already is
#[verifier::external_body]
pub fn vec_with_capacity_of<T>(n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::<T>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(a: T, n: usize) -> (r: Vec<T>)
    requires alloc_ok(n as int),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == a,
{ unimplemented!() }

/// `[x; N]`
#[verifier::external_body]
pub const fn arr_fill<T: Copy, const N: usize>(x: T) -> (r: [T; N])
    ensures r@ == Seq::new(N as nat, |i: int| x)
{ [x; N] }
/// things that can be sliced
pub trait SliceSh<T> {
    spec fn sl(&self) -> Seq<T>;
}
impl<T> SliceSh<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<T> SliceSh<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> SliceSh<T> for [T; N] { open spec fn sl(&self) -> Seq<T> { self@ } }
/// `&mut x[lo..hi]`
#[verifier::external_body]
pub fn range_mut<T, S: SliceSh<T> + ?Sized>(x: &mut S, lo: usize, hi: usize) -> (r: &mut [T])
    requires lo <= hi <= old(x).sl().len(),
    ensures r@ == old(x).sl().subrange(lo as int, hi as int), final(r)@.len() == r@.len(),
        final(x).sl() == old(x).sl().take(lo as int) + final(r)@ + old(x).sl().skip(hi as int),
{ unimplemented!() }
/// `&mut x[lo..]`
#[verifier::external_body]
pub fn range_mut_from<T, S: SliceSh<T> + ?Sized>(x: &mut S, lo: usize) -> (r: &mut [T])
    requires lo <= old(x).sl().len(),
    ensures r@ == old(x).sl().skip(lo as int), final(r)@.len() == r@.len(),
        final(x).sl() == old(x).sl().take(lo as int) + final(r)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn copy_from<T: Copy, S: SliceSh<T> + ?Sized>(d: &mut S, s: &[T])
    requires old(d).sl().len() == s@.len(),
    ensures final(d).sl() == s@,
{ unimplemented!() }
/// how many chunks of `z` there are in `n` elements; `exact`: only whole ones
#[verifier::external_body]
pub fn chunk_count(n: usize, z: usize, exact: bool) -> (r: usize)
    requires z > 0,
    ensures exact ==> r == n / z, !exact ==> r == (n + z - 1) / (z as int),
{ unimplemented!() }
/// where the `i`-th of them ends
#[verifier::external_body]
pub fn chunk_end(n: usize, z: usize, i: usize) -> (r: usize)
    ensures r == if (i + 1) * z <= n { (i + 1) * z } else { n as int },
{ unimplemented!() }
/// what a `for` loop or `.iter()` walks over
pub trait IterSrc<T> {
    spec fn iter_view(&self) -> Seq<T>;
    fn iter_src(&self) -> (r: &[T]) ensures r@ == self.iter_view();
}
impl<T> IterSrc<T> for Vec<T> {
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    fn iter_src(&self) -> &[T] { self.as_slice() }
}
impl<T> IterSrc<T> for [T] {
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    fn iter_src(&self) -> &[T] { self }
}
impl<T, const N: usize> IterSrc<T> for [T; N] {
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    fn iter_src(&self) -> &[T] { let r = vstd::array::array_as_slice(self); assert(r@ =~= self@); assert(<Self as IterSrc<T>>::iter_view(self) == self@); r }
}
impl<T, S: IterSrc<T> + ?Sized> IterSrc<T> for &S {
    open spec fn iter_view(&self) -> Seq<T> { S::iter_view(*self) }
    fn iter_src(&self) -> &[T] { let r = S::iter_src(*self); assert(r@ == S::iter_view(*self)); assert(<Self as IterSrc<T>>::iter_view(self) == S::iter_view(*self)); r }
}
} // shim


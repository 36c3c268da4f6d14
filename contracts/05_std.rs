pub mod stdspec {
use vstd::prelude::*;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
pub assume_specification [std::string::String::from_utf8](v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures
        vstd::utf8::valid_utf8(v@) ==> r is Ok,
        r matches Ok(s) ==> vstd::utf8::valid_utf8(v@) && s == crate::spec::string_from(v@);
pub assume_specification [std::string::String::as_bytes](s: &String) -> (r: &[u8])
    ensures r@ == crate::spec::str_bytes(s@);
pub assume_specification<T: Clone> [<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(s@[i], #[trigger] r@[i]);
/// panics (or wraps) when the power does not fit
pub assume_specification [u128::pow](b: u128, e: u32) -> (r: u128)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u128::MAX,
    ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
// ---- text
/// text in memory
pub broadcast axiom fn ax_str_len(s: &str)
    ensures (#[trigger] vstd::utf8::encode_utf8(s@)).len() <= usize::MAX;
pub assume_specification [char::is_ascii_digit](c: &char) -> (r: bool)
    ensures r == crate::spec::is_digit(*c);
pub assume_specification<'a> [str::trim](s: &'a str) -> (r: &'a str)
    ensures r@ == crate::spec::trim(s@);
// ---- functions of the standard library the verifier does not know, so that code that uses them stays in reach
pub assume_specification<T: Ord> [core::cmp::max](a: T, b: T) -> (r: T)
    ensures call_ensures(<T as Ord>::max, (a, b), r);
pub assume_specification<T: Ord> [core::cmp::min](a: T, b: T) -> (r: T)
    ensures call_ensures(<T as Ord>::min, (a, b), r);
pub assume_specification [u64::abs_diff](a: u64, b: u64) -> (r: u64)
    ensures r == if a < b { b - a } else { a - b };
pub assume_specification [usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u128::abs_diff](a: u128, b: u128) -> (r: u128)
    ensures r == if a < b { b - a } else { a - b };
pub assume_specification [u64::div_ceil](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification [usize::div_ceil](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification [u128::div_ceil](a: u128, b: u128) -> (r: u128)
    requires b != 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification [u64::rem_euclid](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a % b;
pub assume_specification [u64::div_euclid](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a / b;
pub assume_specification [usize::rem_euclid](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a % b;
pub assume_specification [u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 == (a + b) % 0x1_0000_0000_0000_0000, r.1 == (a + b > u64::MAX);
pub assume_specification [u64::overflowing_sub](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 == (a - b) % 0x1_0000_0000_0000_0000, r.1 == (a < b);
pub assume_specification [u128::overflowing_add](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a + b > u128::MAX), r.0 == if a + b > u128::MAX { a + b - u128::MAX - 1 } else { a + b };
pub assume_specification [u128::overflowing_sub](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a < b), r.0 == if a < b { a - b + u128::MAX + 1 } else { a - b };
pub assume_specification [u128::overflowing_mul](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a * b > u128::MAX), !r.1 ==> r.0 == a * b;
pub assume_specification<T> [<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T: Clone> [<[T]>::fill](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> vstd::pervasive::cloned(v, #[trigger] final(s)@[i]);
pub assume_specification<T> [core::mem::replace](d: &mut T, v: T) -> (r: T)
    ensures *final(d) == v, r == *old(d);
pub assume_specification<T: Default> [core::mem::take](d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T> [Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == match (a, b) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None };
pub assume_specification<T> [bool::then_some](a: bool, v: T) -> (r: Option<T>)
    ensures r == if a { Some(v) } else { None };
pub assume_specification<T, U> [Option::<T>::zip](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None };
pub assume_specification<T, U> [Option::<T>::and](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == if a is Some { b } else { None };
pub assume_specification<T> [Option::<T>::replace](a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures *final(a) == Some(v), r == *old(a);
pub assume_specification<T> [Option::<Option<T>>::flatten](a: Option<Option<T>>) -> (r: Option<T>)
    ensures r == match a { Some(x) => x, None => None };
pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose](a: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == match a { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) };
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied](a: Option<&'a T>) -> (r: Option<T>)
    ensures r == match a { Some(x) => Some(*x), None => None };
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or](a: core::result::Result<T, E>, d: T) -> (r: T)
    ensures r == match a { Ok(x) => x, Err(e) => d };
pub assume_specification<'a, T> [<[T]>::split_last](s: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures match r { Some((x, t)) => s@.len() > 0 && *x == s@.last() && t@ == s@.drop_last(), None => s@.len() == 0 };
pub assume_specification [u64::wrapping_neg](a: u64) -> (r: u64)
    ensures r == if a == 0 { 0 } else { 0x1_0000_0000_0000_0000 - a };
pub assume_specification [i64::unsigned_abs](a: i64) -> (r: u64)
    ensures r == if a < 0 { -a as int } else { a as int };
pub assume_specification [u8::is_ascii_digit](c: &u8) -> (r: bool)
    ensures r == (0x30 <= *c <= 0x39);
pub assume_specification [core::cmp::Ordering::is_lt](a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a is Less);
pub assume_specification [core::cmp::Ordering::is_le](a: core::cmp::Ordering) -> (r: bool)
    ensures r == !(a is Greater);
pub assume_specification [core::cmp::Ordering::is_gt](a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a is Greater);
pub assume_specification [core::cmp::Ordering::is_ge](a: core::cmp::Ordering) -> (r: bool)
    ensures r == !(a is Less);
pub assume_specification [core::cmp::Ordering::is_eq](a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a is Equal);
pub assume_specification [core::cmp::Ordering::is_ne](a: core::cmp::Ordering) -> (r: bool)
    ensures r == !(a is Equal);
pub assume_specification [core::cmp::Ordering::reverse](a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less };
pub assume_specification [core::cmp::Ordering::then](a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == if a is Equal { b } else { a };
} // stdspec
global size_of usize == 8;

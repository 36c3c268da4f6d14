// Contracts assumed of num-bigint and num-rational: integers and fractions of any size.
pub mod shim_big {
use vstd::prelude::*;
pub mod num_bigint {
use vstd::prelude::*;
#[verifier::external_body]
pub struct BigInt { b: u8 }
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn big(v: int) -> BigInt;
pub broadcast axiom fn ax_big(v: int) ensures (#[trigger] big(v))@ == v;
/// what an operand stands for
pub trait Num { spec fn v(&self) -> int; }
impl Num for BigInt { open spec fn v(&self) -> int { self@ } }
impl Num for &BigInt { open spec fn v(&self) -> int { (*self)@ } }
@@each i32 u32 i64 u64 usize i128 u128: t
impl Num for {t} { open spec fn v(&self) -> int { *self as int } }
impl vstd::std_specs::convert::FromSpecImpl<{t}> for BigInt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: {t}) -> BigInt { big(v as int) }
}
impl From<{t}> for BigInt {
    #[verifier::external_body]
    fn from(v: {t}) -> BigInt { unimplemented!() }
}
@@done
/// rounds towards zero
pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 && b > 0 { a / b } else if a >= 0 && b < 0 { -(a / -b) } else if a < 0 && b > 0 { -(-a / b) } else { -a / -b }
}
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 && b > 0 { a % b } else { a - b * tdiv(a, b) } }
@@each BigInt,BigInt BigInt,&BigInt BigInt,i32 BigInt,u32 BigInt,i64 BigInt,u64 BigInt,usize BigInt,i128 BigInt,u128 &BigInt,BigInt &BigInt,&BigInt &BigInt,i32 &BigInt,u32 &BigInt,i64 &BigInt,u64 &BigInt,usize &BigInt,i128 &BigInt,u128: a,b
impl vstd::std_specs::ops::AddSpecImpl<{b}> for {a} {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: {b}) -> bool { true }
    open spec fn add_spec(self, o: {b}) -> BigInt { big(self.v() + o.v()) }
}
impl core::ops::Add<{b}> for {a} {
    type Output = BigInt;
    #[verifier::external_body]
    fn add(self, o: {b}) -> BigInt { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<{b}> for {a} {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: {b}) -> bool { true }
    open spec fn sub_spec(self, o: {b}) -> BigInt { big(self.v() - o.v()) }
}
impl core::ops::Sub<{b}> for {a} {
    type Output = BigInt;
    #[verifier::external_body]
    fn sub(self, o: {b}) -> BigInt { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<{b}> for {a} {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: {b}) -> bool { true }
    open spec fn mul_spec(self, o: {b}) -> BigInt { big(self.v() * o.v()) }
}
impl core::ops::Mul<{b}> for {a} {
    type Output = BigInt;
    #[verifier::external_body]
    fn mul(self, o: {b}) -> BigInt { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<{b}> for {a} {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: {b}) -> bool { o.v() != 0 }
    open spec fn div_spec(self, o: {b}) -> BigInt { big(tdiv(self.v(), o.v())) }
}
impl core::ops::Div<{b}> for {a} {
    type Output = BigInt;
    #[verifier::external_body]
    fn div(self, o: {b}) -> BigInt { unimplemented!() }
}
impl vstd::std_specs::ops::RemSpecImpl<{b}> for {a} {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: {b}) -> bool { o.v() != 0 }
    open spec fn rem_spec(self, o: {b}) -> BigInt { big(trem(self.v(), o.v())) }
}
impl core::ops::Rem<{b}> for {a} {
    type Output = BigInt;
    #[verifier::external_body]
    fn rem(self, o: {b}) -> BigInt { unimplemented!() }
}
@@done
impl BigInt {
    #[verifier::external_body]
    pub fn from_u32(v: u32) -> (r: Option<BigInt>) ensures r is Some, r->0@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i32(v: i32) -> (r: Option<BigInt>) ensures r is Some, r->0@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u64(v: u64) -> (r: Option<BigInt>) ensures r is Some, r->0@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i64(v: i64) -> (r: Option<BigInt>) ensures r is Some, r->0@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u128(v: u128) -> (r: Option<BigInt>) ensures r is Some, r->0@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i128(v: i128) -> (r: Option<BigInt>) ensures r is Some, r->0@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u32(&self) -> (r: Option<u32>)
        ensures (r is Some) == (0 <= self@ <= u32::MAX), r matches Some(v) ==> v == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u64(&self) -> (r: Option<u64>)
        ensures (r is Some) == (0 <= self@ <= u64::MAX), r matches Some(v) ==> v == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i64(&self) -> (r: Option<i64>)
        ensures (r is Some) == (i64::MIN <= self@ <= i64::MAX), r matches Some(v) ==> v == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u128(&self) -> (r: Option<u128>)
        ensures (r is Some) == (0 <= self@ <= u128::MAX), r matches Some(v) ==> v == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i128(&self) -> (r: Option<i128>)
        ensures (r is Some) == (i128::MIN <= self@ <= i128::MAX), r matches Some(v) ==> v == self@
    { unimplemented!() }
}
impl Clone for BigInt {
    #[verifier::external_body]
    fn clone(&self) -> (r: BigInt) ensures r@ == self@ { unimplemented!() }
}
} // num_bigint

pub mod num_rational {
use vstd::prelude::*;
use super::num_bigint::*;
/// a fraction in lowest terms
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ratio<T> { b: core::marker::PhantomData<T> }
pub uninterp spec fn num(r: Ratio<BigInt>) -> int;
pub uninterp spec fn den(r: Ratio<BigInt>) -> int;
/// it has the value n / d
pub open spec fn is_frac(r: Ratio<BigInt>, n: int, d: int) -> bool { den(r) > 0 && num(r) * d == n * den(r) }
pub uninterp spec fn frac(n: int, d: int) -> Ratio<BigInt>;
pub broadcast axiom fn ax_frac(n: int, d: int)
    requires d > 0,
    ensures is_frac(#[trigger] frac(n, d), n, d);
/// a fraction is kept in lowest terms: equal values are the same fraction
pub axiom fn ax_lowest(r: Ratio<BigInt>, n: int, d: int)
    requires is_frac(r, n, d), d > 0,
    ensures r == frac(n, d);
/// what is left of a fraction when it is rounded towards zero
pub broadcast proof fn lemma_frac(n: int, d: int)
    requires n >= 0, d > 0,
    ensures ({ let r = #[trigger] frac(n, d); num(r) >= 0 && den(r) > 0 && num(r) / den(r) == n / d && tdiv(num(r), den(r)) == n / d }),
{
    let r = frac(n, d);
    ax_frac(n, d);
    let (p, q) = (num(r), den(r));
    assert(p >= 0) by(nonlinear_arith) requires p * d == n * q, n >= 0, d > 0, q > 0;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish_quotient(d, p, q);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish_quotient(q, n, d);
    assert(d * p == q * n && d * q == q * d) by(nonlinear_arith) requires p * d == n * q;
}
/// the double-precision number nearest to a literal of the source, exactly
#[verifier::external_body]
pub fn ratio_of_f64(n: u64, d: u128) -> (r: Option<Ratio<BigInt>>)
    requires d > 0,
    ensures r is Some, r->0 == frac(n as int, d as int),
{ unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<BigInt> for Ratio<BigInt> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: BigInt) -> Ratio<BigInt> { frac(v@, 1) }
}
impl From<BigInt> for Ratio<BigInt> {
    #[verifier::external_body]
    fn from(v: BigInt) -> Ratio<BigInt> { unimplemented!() }
}
pub uninterp spec fn radd(a: Ratio<BigInt>, b: Ratio<BigInt>) -> Ratio<BigInt>;
pub axiom fn ax_radd(a: Ratio<BigInt>, b: Ratio<BigInt>, n1: int, d1: int, n2: int, d2: int)
    requires is_frac(a, n1, d1), is_frac(b, n2, d2), d1 > 0, d2 > 0, 
    ensures is_frac(radd(a, b), n1 * d2 + n2 * d1, d1 * d2);
/// the same for fractions that were made from known numbers
pub broadcast proof fn lemma_radd(n1: int, d1: int, n2: int, d2: int)
    requires d1 > 0, d2 > 0, 
    ensures is_frac(#[trigger] radd(frac(n1, d1), frac(n2, d2)), n1 * d2 + n2 * d1, d1 * d2), radd(frac(n1, d1), frac(n2, d2)) == frac(n1 * d2 + n2 * d1, d1 * d2),
{ assert(d1 * d2 > 0) by(nonlinear_arith) requires d1 > 0, d2 > 0; ax_frac(n1, d1); ax_frac(n2, d2); ax_radd(frac(n1, d1), frac(n2, d2), n1, d1, n2, d2); ax_lowest(radd(frac(n1, d1), frac(n2, d2)), n1 * d2 + n2 * d1, d1 * d2); }
impl vstd::std_specs::ops::AddSpecImpl for Ratio<BigInt> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Ratio<BigInt>) -> bool { true }
    open spec fn add_spec(self, o: Ratio<BigInt>) -> Ratio<BigInt> { radd(self, o) }
}
impl core::ops::Add for Ratio<BigInt> {
    type Output = Ratio<BigInt>;
    #[verifier::external_body]
    fn add(self, o: Ratio<BigInt>) -> Ratio<BigInt> { unimplemented!() }
}
pub uninterp spec fn rsub(a: Ratio<BigInt>, b: Ratio<BigInt>) -> Ratio<BigInt>;
pub axiom fn ax_rsub(a: Ratio<BigInt>, b: Ratio<BigInt>, n1: int, d1: int, n2: int, d2: int)
    requires is_frac(a, n1, d1), is_frac(b, n2, d2), d1 > 0, d2 > 0, 
    ensures is_frac(rsub(a, b), n1 * d2 - n2 * d1, d1 * d2);
/// the same for fractions that were made from known numbers
pub broadcast proof fn lemma_rsub(n1: int, d1: int, n2: int, d2: int)
    requires d1 > 0, d2 > 0, 
    ensures is_frac(#[trigger] rsub(frac(n1, d1), frac(n2, d2)), n1 * d2 - n2 * d1, d1 * d2), rsub(frac(n1, d1), frac(n2, d2)) == frac(n1 * d2 - n2 * d1, d1 * d2),
{ assert(d1 * d2 > 0) by(nonlinear_arith) requires d1 > 0, d2 > 0; ax_frac(n1, d1); ax_frac(n2, d2); ax_rsub(frac(n1, d1), frac(n2, d2), n1, d1, n2, d2); ax_lowest(rsub(frac(n1, d1), frac(n2, d2)), n1 * d2 - n2 * d1, d1 * d2); }
impl vstd::std_specs::ops::SubSpecImpl for Ratio<BigInt> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Ratio<BigInt>) -> bool { true }
    open spec fn sub_spec(self, o: Ratio<BigInt>) -> Ratio<BigInt> { rsub(self, o) }
}
impl core::ops::Sub for Ratio<BigInt> {
    type Output = Ratio<BigInt>;
    #[verifier::external_body]
    fn sub(self, o: Ratio<BigInt>) -> Ratio<BigInt> { unimplemented!() }
}
pub uninterp spec fn rmul(a: Ratio<BigInt>, b: Ratio<BigInt>) -> Ratio<BigInt>;
pub axiom fn ax_rmul(a: Ratio<BigInt>, b: Ratio<BigInt>, n1: int, d1: int, n2: int, d2: int)
    requires is_frac(a, n1, d1), is_frac(b, n2, d2), d1 > 0, d2 > 0, 
    ensures is_frac(rmul(a, b), n1 * n2, d1 * d2);
/// the same for fractions that were made from known numbers
pub broadcast proof fn lemma_rmul(n1: int, d1: int, n2: int, d2: int)
    requires d1 > 0, d2 > 0, 
    ensures is_frac(#[trigger] rmul(frac(n1, d1), frac(n2, d2)), n1 * n2, d1 * d2), rmul(frac(n1, d1), frac(n2, d2)) == frac(n1 * n2, d1 * d2),
{ assert(d1 * d2 > 0) by(nonlinear_arith) requires d1 > 0, d2 > 0; ax_frac(n1, d1); ax_frac(n2, d2); ax_rmul(frac(n1, d1), frac(n2, d2), n1, d1, n2, d2); ax_lowest(rmul(frac(n1, d1), frac(n2, d2)), n1 * n2, d1 * d2); }
impl vstd::std_specs::ops::MulSpecImpl for Ratio<BigInt> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Ratio<BigInt>) -> bool { true }
    open spec fn mul_spec(self, o: Ratio<BigInt>) -> Ratio<BigInt> { rmul(self, o) }
}
impl core::ops::Mul for Ratio<BigInt> {
    type Output = Ratio<BigInt>;
    #[verifier::external_body]
    fn mul(self, o: Ratio<BigInt>) -> Ratio<BigInt> { unimplemented!() }
}
pub uninterp spec fn rdiv(a: Ratio<BigInt>, b: Ratio<BigInt>) -> Ratio<BigInt>;
pub axiom fn ax_rdiv(a: Ratio<BigInt>, b: Ratio<BigInt>, n1: int, d1: int, n2: int, d2: int)
    requires is_frac(a, n1, d1), is_frac(b, n2, d2), d1 > 0, d2 > 0, n2 > 0, 
    ensures is_frac(rdiv(a, b), n1 * d2, d1 * n2);
/// the same for fractions that were made from known numbers
pub broadcast proof fn lemma_rdiv(n1: int, d1: int, n2: int, d2: int)
    requires d1 > 0, d2 > 0, n2 > 0, 
    ensures is_frac(#[trigger] rdiv(frac(n1, d1), frac(n2, d2)), n1 * d2, d1 * n2), rdiv(frac(n1, d1), frac(n2, d2)) == frac(n1 * d2, d1 * n2),
{ assert(d1 * n2 > 0) by(nonlinear_arith) requires d1 > 0, n2 > 0; ax_frac(n1, d1); ax_frac(n2, d2); ax_rdiv(frac(n1, d1), frac(n2, d2), n1, d1, n2, d2); ax_lowest(rdiv(frac(n1, d1), frac(n2, d2)), n1 * d2, d1 * n2); }
impl vstd::std_specs::ops::DivSpecImpl for Ratio<BigInt> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Ratio<BigInt>) -> bool { num(o) != 0 }
    open spec fn div_spec(self, o: Ratio<BigInt>) -> Ratio<BigInt> { rdiv(self, o) }
}
impl core::ops::Div for Ratio<BigInt> {
    type Output = Ratio<BigInt>;
    #[verifier::external_body]
    fn div(self, o: Ratio<BigInt>) -> Ratio<BigInt> { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for Ratio<BigInt> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    open spec fn mul_spec(self, o: BigInt) -> Ratio<BigInt> { rmul(self, frac(o@, 1)) }
}
impl core::ops::Mul<BigInt> for Ratio<BigInt> {
    type Output = Ratio<BigInt>;
    #[verifier::external_body]
    fn mul(self, o: BigInt) -> Ratio<BigInt> { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for Ratio<BigInt> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: BigInt) -> bool { o@ != 0 }
    open spec fn div_spec(self, o: BigInt) -> Ratio<BigInt> { rdiv(self, frac(o@, 1)) }
}
impl core::ops::Div<BigInt> for Ratio<BigInt> {
    type Output = Ratio<BigInt>;
    #[verifier::external_body]
    fn div(self, o: BigInt) -> Ratio<BigInt> { unimplemented!() }
}
impl Ratio<BigInt> {
    #[verifier::external_body]
    pub fn new(n: BigInt, d: BigInt) -> (r: Ratio<BigInt>)
        requires d@ != 0,
        ensures r == if d@ > 0 { frac(n@, d@) } else { frac(-n@, -d@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_integer(n: BigInt) -> (r: Ratio<BigInt>) ensures r == frac(n@, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn numer(&self) -> (r: &BigInt) ensures r@ == num(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn denom(&self) -> (r: &BigInt) ensures r@ == den(*self), r@ > 0 { unimplemented!() }
    /// rounds towards zero
    #[verifier::external_body]
    pub fn to_integer(&self) -> (r: BigInt) ensures r@ == tdiv(num(*self), den(*self)), den(*self) > 0 { unimplemented!() }
}
pub broadcast group group_ratio { lemma_frac, lemma_radd, lemma_rsub, lemma_rmul, lemma_rdiv, ax_big }
} // num_rational
} // shim_big

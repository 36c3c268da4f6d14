pub mod shim_time {
use vstd::prelude::*;
#[verifier::external_body]
pub struct OffsetDateTime { e: u8 }
#[verifier::external_body]
pub struct Duration { e: u8 }
#[verifier::external_body]
pub struct ComponentRange { e: u8 }

pub uninterp spec fn odt_from(secs: int) -> OffsetDateTime;
pub open spec fn odt_ok(secs: int) -> bool { -377705116800 <= secs <= 253402300799 }
pub uninterp spec fn dur_from(ns: int) -> Duration;
pub broadcast axiom fn ax_odt(t: OffsetDateTime)
    ensures odt_ok(#[trigger] t.secs());
pub broadcast axiom fn ax_odt_from(s: int)
    requires odt_ok(s),
    ensures #[trigger] odt_from(s).secs() == s;
pub broadcast axiom fn ax_dur(d: Duration)
    ensures dur_from(#[trigger] d.ns()) == d;
pub broadcast axiom fn ax_dur_from(ns: int)
    requires i64::MIN <= ns <= i64::MAX,
    ensures #[trigger] dur_from(ns).ns() == ns;
pub broadcast group group_time { ax_odt, ax_odt_from, ax_dur, ax_dur_from }

/// `OffsetDateTime::UNIX_EPOCH`
#[verifier::external_body]
pub const fn unix_epoch() -> (r: OffsetDateTime) ensures r == odt_from(0) { unimplemented!() }
impl OffsetDateTime {
    pub uninterp spec fn secs(&self) -> int;
    #[verifier::external_body]
    pub fn unix_timestamp(self) -> (r: i64) ensures r == self.secs() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_unix_timestamp(t: i64) -> (r: core::result::Result<OffsetDateTime, ComponentRange>)
        ensures r is Ok <==> odt_ok(t as int), r matches Ok(v) ==> v == odt_from(t as int)
    { unimplemented!() }
}
impl Clone for OffsetDateTime {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for OffsetDateTime {}
impl Duration {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn whole_nanoseconds(self) -> (r: i128) ensures r == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn nanoseconds(n: i64) -> (r: Duration) ensures r == dur_from(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn weeks(n: i64) -> (r: Duration)
        requires -15250284452471 <= n <= 15250284452471,
        ensures r.ns() == n * 604800000000000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn days(n: i64) -> (r: Duration)
        requires -106751991167300 <= n <= 106751991167300,
        ensures r.ns() == n * 86400000000000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hours(n: i64) -> (r: Duration)
        requires -2562047788015215 <= n <= 2562047788015215,
        ensures r.ns() == n * 3600000000000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn minutes(n: i64) -> (r: Duration)
        requires -153722867280912930 <= n <= 153722867280912930,
        ensures r.ns() == n * 60000000000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seconds(n: i64) -> (r: Duration)
        requires -9223372036854775807 <= n <= 9223372036854775807,
        ensures r.ns() == n * 1000000000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn milliseconds(n: i64) -> (r: Duration)
        requires -9223372036854775807 <= n <= 9223372036854775807,
        ensures r.ns() == n * 1000000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn microseconds(n: i64) -> (r: Duration)
        requires -9223372036854775807 <= n <= 9223372036854775807,
        ensures r.ns() == n * 1000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn whole_seconds(self) -> (r: i64) ensures r == self.ns() / 1_000_000_000 || self.ns() < 0 { unimplemented!() }
}
impl Clone for Duration {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Duration {}
} // shim_time

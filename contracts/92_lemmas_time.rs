pub mod lemmas_time {
use vstd::prelude::*;
use crate::spec::*;
use crate::encoding::*;
use crate::lemmas::*;
impl Codec for crate::shim::time::OffsetDateTime {
    /// whole seconds
    open spec fn wf(&self) -> bool { *self == crate::shim_time::odt_from(self.secs()) }
    proof fn rt(&self, rest: Seq<u8>) {
        broadcast use group_spec;
        let s = self.secs() as i64;
        assert(odt_ok_(s)) by { crate::shim_time::ax_odt(*self); }
        assert((s as u64) as i64 == s) by(bit_vector);
    }
}
spec fn odt_ok_(s: i64) -> bool { crate::shim_time::odt_ok(s as int) }
impl Codec for crate::shim::time::Duration {
    /// whole nanoseconds that fit in an i64, not negative
    open spec fn wf(&self) -> bool { 0 <= self.ns() <= i64::MAX }
    proof fn rt(&self, rest: Seq<u8>) { broadcast use group_spec; crate::shim_time::ax_dur(*self); }
}
} // lemmas_time

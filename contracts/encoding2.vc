@@ impl encoding::v2::<Error as From<io::Error>>
@@ mod encoding::v2
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Error { Error::Io(e) }
}
@@ impl encoding::v2::<OffsetDateTime as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { crate::spec::u64le(self.secs() as i64 as u64) }
@@ impl encoding::v2::<OffsetDateTime as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match crate::spec::take_u64(b) {
        None => None,
        Some((v, rest)) => if crate::shim_time::odt_ok(v as i64 as int) { Some((crate::shim_time::odt_from(v as i64 as int), rest)) } else { None },
    }
}
@@ impl encoding::v2::<Duration as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { crate::spec::u64le(self.ns() as i128 as u64) }
@@ impl encoding::v2::<Duration as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match crate::spec::take_u64(b) {
        None => None,
        Some((v, rest)) => if v <= i64::MAX as u64 { Some((crate::shim_time::dur_from(v as int), rest)) } else { None },
    }
}
@@ fn encoding::v2::<Error as From<io::Error>>::from external
    ensures res == Error::Io(source)
@@ mod encoding::v2
#[verifier::external]
impl core::fmt::Debug for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}

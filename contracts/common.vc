@@each Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID: T
@@ impl types::common::<{T} as Clone>
@@ fn types::common::<{T} as Clone>::clone
    ensures res == *self
@@ fn types::common::{T}::new
    ensures res.0@ == b@
@@ fn types::common::<{T} as From<blake2b_simd::Hash>>::from
    ensures res.0@ == hash@.take(32)
@@ mod types::common
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::blake2b_simd::Hash> for {T} {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(h: crate::shim::blake2b_simd::Hash) -> {T} { {T}(crate::spec::array_from(h@.take(32))) }
}
@@ impl types::common::<{T} as AsRef<[u8;32]>>
open spec fn asref(&self) -> Seq<u8> { self.0@ }
@@ impl types::common::<{T} as AsRef<[u8]>>
open spec fn asref(&self) -> Seq<u8> { self.0@ }
@@ mod types::common
impl vstd::std_specs::convert::FromSpecImpl<{T}> for [u8; 32] {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(h: {T}) -> [u8; 32] { h.0 }
}
impl vstd::std_specs::convert::FromSpecImpl<[u8; 32]> for {T} {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(h: [u8; 32]) -> {T} { {T}(h) }
}
@@ fn types::common::<[u8;32] as From<{T}>>::from
    ensures res@ == hash.0@
@@ fn types::common::<{T} as From<[u8;32]>>::from
    ensures res.0@ == data@
@@ fn types::common::<{T} as Default>::default
    ensures res.0@ == Seq::new(32, |i: int| 0u8)
@@done
@@ impl types::common::<Address as AsRef<[u8]>>
open spec fn asref(&self) -> Seq<u8> { self.0@ }
@@ mod types::common
impl vstd::std_specs::convert::FromSpecImpl<[u8; 32]> for Address {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(h: [u8; 32]) -> Address { Address(h) }
}
@@ fn types::common::<Address as From<[u8;32]>>::from
    ensures res.0@ == val@
@@ fn types::common::Address::new
    ensures res.0@ == addr@
@@ fn types::specifier::Specifier::new
    ensures res.0@ == buf@
@@ fn types::specifier::Specifier::as_bytes
    ensures res@ == self.0@
@@specifier types::common::BlockID::FOUNDATION_OUTPUT_ID_PREFIX BlockID__FOUNDATION_OUTPUT_ID_PREFIX: foundation
@@specifier types::common::FileContractID::PROOF_OUTPUT_ID_PREFIX FileContractID__PROOF_OUTPUT_ID_PREFIX: storage proof
@@ fn types::common::<Address as From<&[u8]>>::from
    requires val@.len() == 32
    ensures res.0@ == val@

@@# keys, signatures and seeds
@@ impl signing::<PublicKey as AsRef<[u8]>>
open spec fn asref(&self) -> Seq<u8> { self.0@ }
@@ impl signing::<Signature as AsRef<[u8;64]>>
open spec fn asref(&self) -> Seq<u8> { self.0@ }
@@ fn signing::PublicKey::new
    ensures res.0 == buf
@@ fn signing::Signature::new
    ensures res.0 == sig
@@ fn signing::Signature::data
    ensures res@ == self.0@
@@ fn signing::<Signature as Default>::default
    ensures res.0@ == Seq::new(64, |i: int| 0u8)
@@ fn signing::PublicKey::verify
    ensures res == (crate::shim::ed25519_dalek::ed_point(self.0@) && crate::shim::ed25519_dalek::ed_verify(self.0@, sig_hash.0@, signature.0@))
@@ mod signing
impl vstd::std_specs::convert::FromSpecImpl<Hash256> for PrivateKey {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(h: Hash256) -> PrivateKey { key_of_seed(h.0@) }
}
impl vstd::std_specs::convert::FromSpecImpl<[u8; 64]> for PrivateKey {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: [u8; 64]) -> PrivateKey { PrivateKey(b) }
}
impl vstd::std_specs::convert::FromSpecImpl<[u8; 64]> for Signature {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: [u8; 64]) -> Signature { Signature(b) }
}
/// the ed25519 key of a secret: the secret and its public key
pub open spec fn key_of_seed(seed: Seq<u8>) -> PrivateKey { PrivateKey(crate::spec::array_from(seed + crate::shim::ed25519_dalek::ed_public(seed))) }
impl PrivateKey {
    pub open spec fn secret(&self) -> Seq<u8> { self.0@.take(32) }
}
@@ fn signing::<Signature as From<[u8;64]>>::from
    ensures res.0 == buf
@@ fn signing::<PrivateKey as From<[u8;64]>>::from
    ensures res.0 == key
@@ fn signing::<PrivateKey as From<Hash256>>::from
    ensures res == key_of_seed(hash.0@)
@@ fn signing::PrivateKey::from_seed
    ensures res == key_of_seed(seed@), res.secret() == seed@
@@ fn signing::PrivateKey::public_key
    ensures res.0@ == self.0@.skip(32)
@@ fn signing::PrivateKey::sign_hash
    ensures res.0@ == crate::shim::ed25519_dalek::ed_sign(self.secret(), h.0@)
@@ fn signing::PrivateKey::as_bytes
    ensures res@ == self.0@
@@ fn signing::<PrivateKey as Drop>::drop
    ensures final(self).0@ == Seq::new(64, |i: int| 0u8)
@loops 1
@loop 0
    invariant
        __i0 <= 64,
        forall|j: int| 0 <= j < __i0 ==> self.0@[j] == 0,
    decreases 64 - __i0,
@@ fn seed::Seed::new
    ensures res.0 == seed
@@ fn seed::Seed::as_bytes
    ensures res@ == self.0@
@@ fn seed::Seed::from_mnemonic
    ensures match crate::shim::bip39::phrase_entropy(s@) {
        Some(e) => if e.len() == 16 { res is Ok && res->Ok_0.0@ == e } else { res is Err },
        None => res is Err }
@@ fn seed::Seed::to_mnemonic
    ensures res@ == crate::shim::bip39::entropy_phrase(self.0@)
@@ fn seed::Seed::private_key
    ensures res == crate::signing::key_of_seed(crate::spec::h256(crate::spec::h256(self.0@) + crate::spec::u64le(index)))
@start
broadcast use crate::spec::lemma_take32;
@@ fn seed::<Seed as Drop>::drop
    ensures final(self).0@ == Seq::new(16, |i: int| 0u8)
@loops 1
@loop 0
    invariant
        __i0 <= 16,
        forall|j: int| 0 <= j < __i0 ==> self.0@[j] == 0,
    decreases 16 - __i0,
@@ mod seed
/// recovering from a seed's phrase gives the seed back
pub proof fn lemma_recover(s: Seed)
    ensures crate::shim::bip39::phrase_entropy(crate::shim::bip39::entropy_phrase(s.0@)) == Some(s.0@),
{ crate::shim::bip39::ax_phrase(s.0@); }
impl vstd::std_specs::convert::FromSpecImpl<MnemonicError> for SeedError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: MnemonicError) -> SeedError { SeedError::MnemonicError }
}
@@ fn seed::<SeedError as From<MnemonicError>>::from
    ensures res is MnemonicError

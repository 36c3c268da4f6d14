// Contracts assumed of the remaining dependencies (trusted; checked against the real ones by replay).
pub mod shim_deps {
use vstd::prelude::*;

pub mod ed25519_dalek {
use vstd::prelude::*;
/// the public key of a seed
pub uninterp spec fn ed_public(seed: Seq<u8>) -> Seq<u8>;
/// the signature of a message
pub uninterp spec fn ed_sign(seed: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
/// the bytes are a curve point
pub uninterp spec fn ed_point(pk: Seq<u8>) -> bool;
/// the signature is valid
pub uninterp spec fn ed_verify(pk: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;

#[verifier::external_body]
pub struct SigningKey { k: u8 }
#[verifier::external_body]
pub struct VerifyingKey { k: u8 }
#[verifier::external_body]
pub struct Signature { k: u8 }
#[verifier::external_body]
pub struct SignatureError { k: u8 }
impl View for SigningKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for VerifyingKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for Signature { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl SigningKey {
    #[verifier::external_body]
    pub fn from_bytes(seed: &[u8; 32]) -> (r: SigningKey) ensures r@ == seed@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_keypair_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ + ed_public(self@), self@.len() == 32 { unimplemented!() }
}
pub trait Signer {
    fn sign(&self, msg: &[u8]) -> Signature;
}
impl Signer for SigningKey {
    #[verifier::external_body]
    fn sign(&self, msg: &[u8]) -> (r: Signature) ensures r@ == ed_sign(self@, msg@) { unimplemented!() }
}
impl Signature {
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8; 64]) -> (r: Signature) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ { unimplemented!() }
}
impl VerifyingKey {
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8; 32]) -> (r: core::result::Result<VerifyingKey, SignatureError>)
        ensures r is Ok <==> ed_point(b@), r matches Ok(k) ==> k@ == b@
    { unimplemented!() }
}
pub trait Verifier {
    fn verify(&self, msg: &[u8], sig: &Signature) -> core::result::Result<(), SignatureError>;
}
impl Verifier for VerifyingKey {
    #[verifier::external_body]
    fn verify(&self, msg: &[u8], sig: &Signature) -> (r: core::result::Result<(), SignatureError>)
        ensures r is Ok <==> ed_verify(self@, msg@, sig@)
    { unimplemented!() }
}
} // ed25519_dalek

pub mod hex {
use vstd::prelude::*;
use crate::spec::{hex_text, unhex};
use crate::shim::{AsRefSh, SliceSh};
#[verifier::external_body]
pub struct FromHexError { e: u8 }
#[verifier::external_body]
pub fn encode<T: AsRefSh<[u8]>>(b: T) -> (r: String)
    ensures r@ == hex_text(b.asref())
{ unimplemented!() }
#[verifier::external_body]
pub fn decode<T: AsRefSh<[u8]>>(t: T) -> (r: core::result::Result<Vec<u8>, FromHexError>)
    ensures match r { Ok(v) => unhex(t.asref()) == Some(v@), Err(_) => unhex(t.asref()) is None }
{ unimplemented!() }
/// also fails if there is not exactly as much room as needed
#[verifier::external_body]
pub fn decode_to_slice<T: AsRefSh<[u8]>, S: SliceSh<u8> + ?Sized>(t: T, out: &mut S) -> (r: core::result::Result<(), FromHexError>)
    ensures
        final(out).sl().len() == old(out).sl().len(),
        r is Ok ==> unhex(t.asref()) == Some(final(out).sl()),
        r is Err ==> (unhex(t.asref()) matches Some(b) ==> b.len() != old(out).sl().len()),
{ unimplemented!() }
} // hex

pub mod bip39 {
use vstd::prelude::*;
/// the entropy a phrase stands for, if it is one
pub uninterp spec fn phrase_entropy(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn entropy_phrase(e: Seq<u8>) -> Seq<char>;
/// BIP-39: the 12-word phrase of 128 bits stands for them
pub axiom fn ax_phrase(e: Seq<u8>)
    requires e.len() == 16,
    ensures phrase_entropy(entropy_phrase(e)) == Some(e);
#[verifier::external_body]
pub struct Error { e: u8 }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub enum Language { English }
#[verifier::external_body]
pub struct Mnemonic { m: u8 }
impl View for Mnemonic { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Mnemonic {
    #[verifier::external_body]
    pub fn parse_in(l: Language, s: &str) -> (r: core::result::Result<Mnemonic, Error>)
        ensures match phrase_entropy(s@) { Some(e) => r is Ok && r->Ok_0@ == e, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_entropy(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_entropy_in(l: Language, e: &[u8]) -> (r: core::result::Result<Mnemonic, Error>)
        ensures e@.len() == 16 ==> r is Ok, r matches Ok(m) ==> m@ == e@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == entropy_phrase(self@) { unimplemented!() }
}
} // bip39
pub use crate::shim_big::{num_bigint, num_rational};
} // shim_deps

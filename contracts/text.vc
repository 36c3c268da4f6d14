@@# the text of ids, addresses, keys and signatures
@@each Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID: T
@@ impl types::common::<{T} as Display>
open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::hex_text(self.0@)) }
@@ fn types::common::{T}::parse_string
    ensures
        match crate::spec::unhex(id_part(s@)) {
            Some(b) if b.len() == 32 => res is Ok && res->Ok_0.0@ == b,
            _ => res is Err,
        },
        crate::spec::unhex(id_part(s@)) is Some && res is Err ==> res->Err_0 is InvalidLength,
        id_part(s@).len() == 64 && res is Err ==> res->Err_0 is HexError,
@start
broadcast use lemma_id_len, crate::stdspec::ax_str_len;
@@ mod types::common
impl {T} {
    /// the text is parsed back, with any prefix or none
    pub proof fn lemma_text(&self, prefix: Seq<char>)
        requires forall|i: int| 0 <= i < prefix.len() ==> #[trigger] prefix[i] != ':',
        ensures
            self.0@.len() == 32,
            crate::spec::unhex(id_part(crate::shim_text::Display::text(self)->0)) == Some(self.0@),
            crate::spec::unhex(id_part(prefix + seq![':'] + crate::shim_text::Display::text(self)->0)) == Some(self.0@),
    { lemma_id_text(self.0@, prefix); }
}
@@done
@@ mod types::common
/// what an id is read from: everything behind the first colon, if there is one
pub open spec fn id_part(s: Seq<char>) -> Seq<u8> {
    crate::spec::str_bytes(match crate::spec::split_once(s, ':') { Some((_, t)) => t, None => s })
}
pub broadcast proof fn lemma_id_len(s: Seq<char>)
    ensures crate::spec::unhex(#[trigger] id_part(s)) matches Some(b) ==> id_part(s).len() == 2 * b.len(),
{ crate::spec::lemma_unhex_len(id_part(s)); }
pub proof fn lemma_id_text(b: Seq<u8>, prefix: Seq<char>)
    requires forall|i: int| 0 <= i < prefix.len() ==> #[trigger] prefix[i] != ':',
    ensures
        crate::spec::unhex(id_part(crate::spec::hex_text(b))) == Some(b),
        crate::spec::unhex(id_part(prefix + seq![':'] + crate::spec::hex_text(b))) == Some(b),
{
    let t = crate::spec::hex_text(b);
    crate::spec::lemma_hex_ascii(b);
    crate::spec::lemma_split_none(t, ':');
    crate::spec::lemma_split_at(prefix, ':', t);
    crate::spec::lemma_unhex_hex(b);
}
@@ impl types::common::<ChainIndex as Display>
open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::dec_text(self.height as nat) + seq![':'] + crate::spec::hex_text(self.id.0@)) }
@@ impl types::common::<Leaf as Display>
open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::hex_text(self.0@)) }
@@ fn types::common::Leaf::parse_string
    ensures
        match crate::spec::unhex(crate::spec::str_bytes(s@)) {
            Some(b) if b.len() == 64 => res is Ok && res->Ok_0.0@ == b,
            _ => res is Err,
        },
        crate::spec::unhex(crate::spec::str_bytes(s@)) is Some && res is Err ==> res->Err_0 is InvalidLength,
        crate::spec::str_bytes(s@).len() == 128 && res is Err ==> res->Err_0 is HexError,
@start
broadcast use crate::stdspec::ax_str_len;
proof { crate::spec::lemma_unhex_len(crate::spec::str_bytes(s@)); }
@@ impl types::common::<Address as Display>
open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::hex_text(self.0@ + crate::spec::h256(self.0@).take(6))) }
@@ fn types::common::<Address as Display>::fmt
@start
broadcast use crate::spec::lemma_hex_add, crate::spec::lemma_hex_then;
@@ fn types::common::Address::parse_string
    ensures
        match crate::spec::unhex(crate::spec::str_bytes(s@)) {
            Some(b) if b.len() == 38 && b.skip(32) == crate::spec::h256(b.take(32)).take(6) => res is Ok && res->Ok_0.0@ == b.take(32),
            _ => res is Err,
        },
        res is Err ==> match crate::spec::unhex(crate::spec::str_bytes(s@)) {
            Some(b) => if b.len() == 38 { res->Err_0 is InvalidChecksum } else { res->Err_0 is InvalidLength },
            None => crate::spec::str_bytes(s@).len() == 76 ==> res->Err_0 is HexError,
        },
@start
broadcast use crate::stdspec::ax_str_len;
proof { crate::spec::lemma_unhex_len(crate::spec::str_bytes(s@)); }
@@ mod types::common
impl Address {
    pub proof fn lemma_text(&self)
        ensures ({
            let b = self.0@ + crate::spec::h256(self.0@).take(6);
            &&& crate::spec::unhex(crate::spec::str_bytes(crate::shim_text::Display::text(self)->0)) == Some(b)
            &&& b.len() == 38 && b.take(32) == self.0@ && b.skip(32) == crate::spec::h256(b.take(32)).take(6)
        }),
    {
        let b = self.0@ + crate::spec::h256(self.0@).take(6);
        crate::spec::lemma_unhex_hex(b);
        assert(b.take(32) =~= self.0@);
        assert(b.skip(32) =~= crate::spec::h256(self.0@).take(6));
    }
}
impl Leaf {
    pub proof fn lemma_text(&self)
        ensures crate::spec::unhex(crate::spec::str_bytes(crate::shim_text::Display::text(self)->0)) == Some(self.0@),
    { crate::spec::lemma_unhex_hex(self.0@); }
}
@@ impl signing::<PublicKey as Display>
open spec fn text(&self) -> Option<Seq<char>> { Some(seq!['e', 'd', '2', '5', '5', '1', '9', ':'] + crate::spec::hex_text(self.0@)) }
@@ impl signing::<Signature as Display>
open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::hex_text(self.0@)) }
@@ fn signing::Signature::parse_string
    ensures
        match crate::spec::unhex(crate::spec::str_bytes(s@)) {
            Some(b) if b.len() == 64 => res is Ok && res->Ok_0.0@ == b,
            _ => res is Err,
        },
        crate::spec::unhex(crate::spec::str_bytes(s@)) is Some && res is Err ==> res->Err_0 is InvalidLength,
        crate::spec::str_bytes(s@).len() == 128 && res is Err ==> res->Err_0 is HexError,
@start
broadcast use crate::stdspec::ax_str_len;
proof { crate::spec::lemma_unhex_len(crate::spec::str_bytes(s@)); }
@@ mod signing
impl Signature {
    pub proof fn lemma_text(&self)
        ensures crate::spec::unhex(crate::spec::str_bytes(crate::shim_text::Display::text(self)->0)) == Some(self.0@),
    { crate::spec::lemma_unhex_hex(self.0@); }
}
@@ mod types::specifier
/// text as a specifier: cut off or filled up to 16 bytes
pub open spec fn spec_pad(b: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| if i < b.len() { b[i] } else { 0u8 }) }
/// without the zeros at its end
pub open spec fn unpad(b: Seq<u8>) -> Seq<u8>
    decreases b.len(),
{ if b.len() > 0 && b.last() == 0 { unpad(b.drop_last()) } else { b } }
@@ fn types::specifier::<Specifier as From<&str>>::from
    ensures res.0@ == spec_pad(crate::spec::str_bytes(s@)),
@tail
proof { assert(res__.0@ =~= spec_pad(crate::spec::str_bytes(s@))); }
@@ impl types::specifier::<Specifier as Display>
open spec fn text(&self) -> Option<Seq<char>> { crate::spec::utf8(unpad(self.0@)) }
@@ impl types::v1::<UnlockKey as Display>
open spec fn text(&self) -> Option<Seq<char>> {
    match crate::shim_text::Display::text(&self.algorithm) { None => None, Some(a) => Some(a + seq![':'] + crate::spec::hex_text(self.key@)) }
}
@@ fn types::v1::UnlockKey::parse_string
    ensures
        match crate::spec::split_once(s@, ':') {
            None => res is Err && res->Err_0 is MissingPrefix,
            Some((a, k)) => match crate::spec::unhex(crate::spec::str_bytes(k)) {
                None => res is Err && res->Err_0 is HexError,
                Some(b) => res is Ok && res->Ok_0.key@ == b && res->Ok_0.algorithm.0@ == crate::types::specifier::spec_pad(crate::spec::str_bytes(a)),
            },
        },
@@ mod types::specifier
pub proof fn lemma_unpad(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len(), forall|k: int| n <= k < b.len() ==> b[k] == 0, n > 0 ==> b[n - 1] != 0,
    ensures unpad(b) == b.take(n),
    decreases b.len(),
{
    if b.len() > n { lemma_unpad(b.drop_last(), n); assert(b.drop_last().take(n) =~= b.take(n)); } else { assert(b.take(n) =~= b); }
}
/// a text of up to 16 bytes that does not end in a zero is read back
pub proof fn lemma_pad(b: Seq<u8>)
    requires b.len() <= 16, b.len() > 0 ==> b.last() != 0,
    ensures unpad(spec_pad(b)) == b,
{ lemma_unpad(spec_pad(b), b.len() as int); assert(spec_pad(b).take(b.len() as int) =~= b); }
/// and so is a specifier that is text
pub proof fn lemma_unpad_pad(s: Seq<u8>)
    requires s.len() == 16,
    ensures spec_pad(unpad(s)) == s, unpad(s).len() <= 16,
{ lemma_unpad_zeros(s); assert(spec_pad(unpad(s)) =~= s); }
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
pub proof fn lemma_unpad_zeros(s: Seq<u8>)
    ensures unpad(s).len() <= s.len(), unpad(s) == s.take(unpad(s).len() as int), forall|k: int| unpad(s).len() <= k < s.len() ==> s[k] == 0,
    decreases s.len(),
{
    if s.len() > 0 && s.last() == 0 {
        lemma_unpad_zeros(s.drop_last());
        assert(s.drop_last().take(unpad(s).len() as int) =~= s.take(unpad(s).len() as int));
        assert forall|k: int| unpad(s).len() <= k < s.len() implies s[k] == 0 by { if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); } }
    } else { assert(s.take(s.len() as int) =~= s); }
}
@@ fn types::specifier::<Specifier as Display>::fmt
@loops 1
@loop 0
    invariant
        __n0 == 16, __i0 <= 16,
        forall|k: int| 16 - __i0 + (if __f0 is Some { 1int } else { 0 }) <= k < 16 ==> self.0@[k] == 0,
        __f0 matches Some(q) ==> q == __i0 - 1 && self.0@[15 - q] != 0,
    decreases 16 - __i0,
@after 0
proof { lemma_unpad(self.0@, match __f0 { Some(q) => 16 - q, None => 0 }); }
@@ mod types::v1
impl UnlockKey {
    /// the text of a key is parsed back, if its algorithm's name is text without a colon
    pub proof fn lemma_text(&self)
        requires
            crate::shim_text::Display::text(&self.algorithm) matches Some(a) && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != ':',
        ensures ({
            let a = crate::shim_text::Display::text(&self.algorithm)->0;
            &&& crate::spec::split_once(crate::shim_text::Display::text(self)->0, ':') == Some((a, crate::spec::hex_text(self.key@)))
            &&& crate::spec::unhex(crate::spec::str_bytes(crate::spec::hex_text(self.key@))) == Some(self.key@)
            &&& crate::types::specifier::spec_pad(crate::spec::str_bytes(a)) == self.algorithm.0@
        }),
    {
        let a = crate::shim_text::Display::text(&self.algorithm)->0;
        crate::spec::lemma_split_at(a, ':', crate::spec::hex_text(self.key@));
        crate::spec::lemma_unhex_hex(self.key@);
        crate::types::specifier::lemma_unpad_pad(self.algorithm.0@);
        vstd::utf8::decode_utf8_encode_utf8(crate::types::specifier::unpad(self.algorithm.0@));
    }
}
@@ fn macros::decode_hex_char
    ensures match crate::spec::nib(c) { Some(n) => res == Some(n as u8), None => res is None }
@@ fn macros::decode_hex_pair
    ensures match (crate::spec::nib(hi), crate::spec::nib(lo)) { (Some(h), Some(l)) => res == Some((16 * h + l) as u8), _ => res is None }
@start
proof {
    assert forall|h: u8, l: u8| h < 16 && l < 16 implies #[trigger] (h << 4u8 | l) == 16 * h + l by {
        assert(h << 4u8 | l == add(mul(16, h), l)) by(bit_vector) requires h < 16, l < 16;
    }
}
@@ fn macros::decode_hex_256
    requires input@.len() >= 64, crate::spec::unhex(input@.take(64)) is Some,
    ensures crate::spec::unhex(input@.take(64)) == Some(res@),
@loops 1
@start
let ghost t = input@.take(64);
proof { crate::spec::lemma_unhex_len(t); crate::spec::lemma_unhex_all(t); }
@loop 0
    invariant
        i <= 64, i % 2 == 0,
        forall|k: int| 0 <= k < i / 2 ==> #[trigger] result@[k] == crate::spec::unhex(t)->0[k],
    decreases 64 - i,
@body 0
proof {
    let n = (i / 2) as int;
    assert(2 * n == i);
    assert(t[2 * n] == input@[i as int]);
    assert(t[2 * n + 1] == input@[i + 1]);
    assert(crate::spec::hex_at(t, n, crate::spec::unhex(t)->0[n]));
}
@after 0
proof { assert(result@ =~= crate::spec::unhex(t)->0); }

// Specification functions and lemmas.
pub mod spec {
use vstd::prelude::*;

/// BLAKE2b with an output of `len` bytes: all that is assumed is that it is a function, and the length
pub uninterp spec fn blake2b(len: nat, pre: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_blake2b_len(len: nat, pre: Seq<u8>)
    requires len <= 64,
    ensures #[trigger] blake2b(len, pre).len() == len;
/// blake2b_simd::Hash holds as many bytes as were asked for, and `hash_length` requires 32 or more
pub broadcast axiom fn ax_hash_len(h: crate::shim::blake2b_simd::Hash)
    ensures 32 <= (#[trigger] h@).len() <= 64;
pub open spec fn h256(pre: Seq<u8>) -> Seq<u8> { blake2b(32, pre) }
/// `r` is the hash of `pre`, whatever type of identifier it is
pub open spec fn id_of<T: vstd::std_specs::convert::FromSpec<crate::shim::blake2b_simd::Hash>>(r: T, pre: Seq<u8>) -> bool {
    exists|h: crate::shim::blake2b_simd::Hash| #[trigger] h@ == h256(pre) && (T::obeys_from_spec() ==> r == T::from_spec(h))
}
pub broadcast proof fn lemma_take32(pre: Seq<u8>)
    ensures #[trigger] h256(pre).take(32) == h256(pre),
{ ax_blake2b_len(32, pre); assert(h256(pre).take(32) =~= h256(pre)); }

// ---- text
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
/// the characters with the Unicode property White_Space
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    9 <= n <= 13 || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || 0x2000 <= n <= 0x200a || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && is_ws(s[0]) { trim_start(s.skip(1)) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
/// the byte where the `k`-th character begins
pub open spec fn offset(s: Seq<char>, k: int) -> int { str_bytes(s.take(k)).len() as int }
/// the pieces of `s` between the `c`s
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![seq![]] } else {
        let p = split_on(s.drop_last(), c);
        if s.last() == c { p.push(seq![]) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
/// a number in decimal: digits and nothing else, at least one
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn decimal(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { 10 * decimal(s.drop_last()) + ((s.last() as u32) - ('0' as u32)) as nat } }
/// a digit is one byte
pub proof fn lemma_digits_bytes(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]),
    ensures str_bytes(s).len() == s.len(),
{ vstd::utf8::is_ascii_chars_encode_utf8(s); }
pub open spec fn parse_int(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if digits(d) { Some(decimal(d)) } else { None }
}
/// in front of the first `c`, and behind it
pub open spec fn split_once(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s[0] == c { Some((seq![], s.skip(1))) } else {
        match split_once(s.skip(1), c) { None => None, Some((a, b)) => Some((seq![s[0]] + a, b)) }
    }
}
/// a number as text
pub open spec fn dec_text(n: nat) -> Seq<char>
    decreases n,
{ if n < 10 { seq![(('0' as u32) + n) as char] } else { dec_text(n / 10).push((('0' as u32) + n % 10) as char) } }
/// text of UTF-8 bytes
pub open spec fn utf8(b: Seq<u8>) -> Option<Seq<char>> { if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None } }

// ---- hex
pub open spec fn hexd(n: int) -> char { if n < 10 { (('0' as u32) + n) as char } else { (('a' as u32) + (n - 10)) as char } }
/// bytes in lowercase hex
pub open spec fn hex_text(b: Seq<u8>) -> Seq<char>
    decreases b.len(),
{ if b.len() == 0 { seq![] } else { hex_text(b.drop_last()) + seq![hexd(b.last() as int / 16), hexd(b.last() as int % 16)] } }
/// the value of a hex digit of either case
pub open spec fn nib(c: u8) -> Option<int> {
    if 0x30 <= c <= 0x39 { Some(c - 0x30) } else if 0x61 <= c <= 0x66 { Some(c - 0x61 + 10) } else if 0x41 <= c <= 0x46 { Some(c - 0x41 + 10) } else { None }
}
/// the bytes hex digits stand for
pub open spec fn unhex(t: Seq<u8>) -> Option<Seq<u8>>
    decreases t.len(),
{
    if t.len() == 0 { Some(seq![]) } else if t.len() == 1 { None } else {
        match (unhex(t.take(t.len() - 2)), nib(t[t.len() - 2]), nib(t.last())) {
            (Some(b), Some(h), Some(l)) => Some(b.push((16 * h + l) as u8)),
            _ => None,
        }
    }
}
pub proof fn lemma_unhex_len(t: Seq<u8>)
    ensures unhex(t) matches Some(b) ==> t.len() == 2 * b.len(),
    decreases t.len(),
{ if t.len() > 1 { lemma_unhex_len(t.take(t.len() - 2)); } }
/// the `i`-th pair of digits stands for `v`
pub open spec fn hex_at(t: Seq<u8>, i: int, v: u8) -> bool {
    nib(t[2 * i]) matches Some(h) && nib(t[2 * i + 1]) matches Some(l) && v == (16 * h + l) as u8
}
pub proof fn lemma_unhex_all(t: Seq<u8>)
    ensures unhex(t) matches Some(b) ==> forall|i: int| 0 <= i < b.len() ==> hex_at(t, i, #[trigger] b[i]),
    decreases t.len(),
{
    if unhex(t) is Some {
        let b = unhex(t)->0;
        lemma_unhex_len(t);
        if t.len() > 1 {
            let p = t.take(t.len() - 2);
            lemma_unhex_all(p);
            lemma_unhex_len(p);
            let q = unhex(p)->0;
            assert forall|i: int| 0 <= i < b.len() implies hex_at(t, i, #[trigger] b[i]) by {
                if i < q.len() { assert(hex_at(p, i, q[i])); assert(t[2 * i] == p[2 * i]); assert(t[2 * i + 1] == p[2 * i + 1]); }
                else { assert(2 * i == t.len() - 2); }
            }
        }
    }
}
pub broadcast proof fn lemma_hex_len(b: Seq<u8>)
    ensures #[trigger] hex_text(b).len() == 2 * b.len(),
    decreases b.len(),
{ if b.len() > 0 { lemma_hex_len(b.drop_last()); } }
/// hex is written byte by byte
pub broadcast proof fn lemma_hex_add(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] (hex_text(a) + hex_text(b)) == hex_text(a + b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(hex_text(a) + hex_text(b) =~= hex_text(a)); } else {
        lemma_hex_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(hex_text(a) + hex_text(b) =~= hex_text((a + b).drop_last()) + seq![hexd((a + b).last() as int / 16), hexd((a + b).last() as int % 16)]);
    }
}
pub broadcast proof fn lemma_hex_then(o: Seq<char>, a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] (o + hex_text(a) + hex_text(b)) == o + hex_text(a + b),
{ lemma_hex_add(a, b); assert(o + hex_text(a) + hex_text(b) =~= o + (hex_text(a) + hex_text(b))); }
/// hex is ASCII
pub proof fn lemma_hex_ascii(b: Seq<u8>)
    ensures forall|i: int| 0 <= i < hex_text(b).len() ==> { let c = #[trigger] hex_text(b)[i]; '0' <= c <= '9' || 'a' <= c <= 'f' },
    decreases b.len(),
{ if b.len() > 0 { lemma_hex_ascii(b.drop_last()); lemma_hex_len(b.drop_last()); } }
/// what is written in hex is read back
pub proof fn lemma_unhex_hex(b: Seq<u8>)
    ensures unhex(str_bytes(hex_text(b))) == Some(b), str_bytes(hex_text(b)).len() == 2 * b.len(),
    decreases b.len(),
{
    lemma_hex_ascii(b);
    lemma_hex_len(b);
    let t = hex_text(b);
    vstd::utf8::is_ascii_chars_encode_utf8(t);
    if b.len() > 0 {
        let p = b.drop_last();
        lemma_unhex_hex(p);
        lemma_hex_ascii(p);
        lemma_hex_len(p);
        vstd::utf8::is_ascii_chars_encode_utf8(hex_text(p));
        let u = str_bytes(t);
        assert(u.take(u.len() - 2) =~= str_bytes(hex_text(p)));
        let (h, l) = (b.last() as int / 16, b.last() as int % 16);
        assert(u[u.len() - 2] == hexd(h) as u8);
        assert(u.last() == hexd(l) as u8);
        assert(nib(hexd(h) as u8) == Some(h));
        assert(nib(hexd(l) as u8) == Some(l));
        assert(p.push(b.last()) =~= b);
    } else {
        assert(b =~= seq![]);
    }
}
/// nothing to split at
pub proof fn lemma_split_none(s: Seq<char>, c: char)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c,
    ensures split_once(s, c) is None,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] != c by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_split_none(s.skip(1), c);
    }
}
/// split at the only place there is
pub proof fn lemma_split_at(a: Seq<char>, c: char, b: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != c,
    ensures split_once(a + seq![c] + b, c) == Some((a, b)),
    decreases a.len(),
{
    let s = a + seq![c] + b;
    if a.len() > 0 {
        assert(s[0] == a[0]);
        assert(s.skip(1) =~= a.skip(1) + seq![c] + b);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] a.skip(1)[i] != c by { assert(a.skip(1)[i] == a[i + 1]); }
        lemma_split_at(a.skip(1), c, b);
        assert(seq![s[0]] + a.skip(1) =~= a);
    } else {
        assert(s[0] == c);
        assert(s.skip(1) =~= b);
        assert(a =~= seq![]);
    }
}

// ---- integers
pub open spec fn le(v: nat, n: nat) -> Seq<u8>
    decreases n,
{ if n == 0 { seq![] } else { seq![(v % 256) as u8] + le(v / 256, (n - 1) as nat) } }
pub open spec fn unle(b: Seq<u8>) -> nat
    decreases b.len(),
{ if b.len() == 0 { 0 } else { b[0] as nat + 256 * unle(b.skip(1)) } }
pub open spec fn be(v: nat, n: nat) -> Seq<u8>
    decreases n,
{ if n == 0 { seq![] } else { be(v / 256, (n - 1) as nat).push((v % 256) as u8) } }
pub open spec fn unbe(b: Seq<u8>) -> nat
    decreases b.len(),
{ if b.len() == 0 { 0 } else { 256 * unbe(b.drop_last()) + b.last() as nat } }

pub open spec fn pow256(n: nat) -> nat
    decreases n,
{ if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }

pub proof fn lemma_pow256()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{ reveal_with_fuel(pow256, 17); }

pub broadcast proof fn lemma_le_len(v: nat, n: nat)
    ensures #[trigger] le(v, n).len() == n,
    decreases n,
{ if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }
pub broadcast proof fn lemma_be_len(v: nat, n: nat)
    ensures #[trigger] be(v, n).len() == n,
    decreases n,
{ if n > 0 { lemma_be_len(v / 256, (n - 1) as nat); } }
pub proof fn lemma_unle_le(v: nat, n: nat)
    requires v < pow256(n),
    ensures unle(le(v, n)) == v,
    decreases n,
{
    if n > 0 {
        assert(v / 256 < pow256((n - 1) as nat)) by(nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_unle_le(v / 256, (n - 1) as nat);
        lemma_le_len(v / 256, (n - 1) as nat);
        assert(le(v, n).skip(1) =~= le(v / 256, (n - 1) as nat));
    }
}
pub proof fn lemma_unbe_be(v: nat, n: nat)
    requires v < pow256(n),
    ensures unbe(be(v, n)) == v,
    decreases n,
{
    if n > 0 {
        assert(v / 256 < pow256((n - 1) as nat)) by(nonlinear_arith) requires v < 256 * pow256((n - 1) as nat);
        lemma_unbe_be(v / 256, (n - 1) as nat);
        assert(be(v, n).drop_last() =~= be(v / 256, (n - 1) as nat));
    }
}
pub proof fn lemma_unle_bound(b: Seq<u8>)
    ensures unle(b) < pow256(b.len()),
    decreases b.len(),
{ if b.len() > 0 { lemma_unle_bound(b.skip(1)); } }

/// `b` without its leading zeros
pub open spec fn trim0(b: Seq<u8>) -> Seq<u8>
    decreases b.len(),
{ if b.len() > 0 && b[0] == 0 { trim0(b.skip(1)) } else { b } }

/// the 8-byte little-endian integer every number is encoded as
pub open spec fn u64le(v: u64) -> Seq<u8> { le(v as nat, 8) }
/// parse one of them
pub open spec fn take_u64(b: Seq<u8>) -> Option<(u64, Seq<u8>)> {
    if b.len() < 8 { None } else { Some((unle(b.take(8)) as u64, b.skip(8))) }
}
pub broadcast proof fn lemma_take_u64(v: u64, rest: Seq<u8>)
    ensures #[trigger] take_u64(u64le(v) + rest) == Some((v, rest)),
{
    lemma_pow256();
    lemma_le_len(v as nat, 8);
    lemma_unle_le(v as nat, 8);
    assert((u64le(v) + rest).take(8) =~= u64le(v));
    assert((u64le(v) + rest).skip(8) =~= rest);
}

pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }

pub broadcast proof fn lemma_empty_left(b: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + b) == b,
{ assert(Seq::<u8>::empty() + b =~= b); }

pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }

// ---- values determined by their contents
pub uninterp spec fn vec_from<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec_from<T>(v: Vec<T>)
    ensures vec_from(#[trigger] v@) == v;
pub broadcast axiom fn ax_vec_from_view<T>(s: Seq<T>)
    requires s.len() <= usize::MAX,
    ensures #[trigger] vec_from(s)@ == s;
pub broadcast proof fn lemma_vec_len<T>(v: Vec<T>)
    ensures #[trigger] v@.len() <= usize::MAX,
{ broadcast use vstd::std_specs::vec::group_vec_axioms; assert(vstd::std_specs::vec::spec_vec_len(&v) == v@.len()); }
pub uninterp spec fn array_from<T, const N: usize>(s: Seq<T>) -> [T; N];
pub broadcast axiom fn ax_array_from<T, const N: usize>(a: [T; N])
    ensures array_from::<T, N>(#[trigger] a@) == a;
pub broadcast axiom fn ax_array_from_view<T, const N: usize>(s: Seq<T>)
    requires s.len() == N,
    ensures #[trigger] array_from::<T, N>(s)@ == s;

pub open spec fn str_bytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub uninterp spec fn string_from(b: Seq<u8>) -> String;
pub broadcast axiom fn ax_string_from(s: String)
    ensures string_from(str_bytes(#[trigger] s@)) == s, vstd::utf8::valid_utf8(str_bytes(s@)),
        str_bytes(s@).len() <= usize::MAX;

/// one byte, however it was put into an array
pub broadcast proof fn lemma_one(a: [u8; 1])
    ensures #[trigger] a@ == seq![a@[0]],
{ assert(a@ =~= seq![a@[0]]); }
pub broadcast group group_light {
    lemma_empty_left, lemma_one,
    ax_blake2b_len, ax_hash_len, lemma_le_len, lemma_be_len, lemma_take_u64, lemma_vec_len, ax_vec_from, ax_string_from, ax_array_from, ax_array_from_view,
    crate::shim_time::group_time, vstd::std_specs::vec::group_vec_axioms, vstd::array::group_array_axioms,
}
pub broadcast group group_spec {
    lemma_one,
    ax_blake2b_len, ax_hash_len, lemma_le_len, lemma_be_len, lemma_take_u64, lemma_vec_len, ax_vec_from, ax_string_from, ax_array_from, ax_array_from_view,
    crate::shim_time::group_time, vstd::seq_lib::group_seq_properties, vstd::std_specs::vec::group_vec_axioms, vstd::array::group_array_axioms,
}

// ---- sequences of encodings
use crate::encoding::{SiaEncodable, SiaDecodable, V1SiaEncodable, V1SiaDecodable};
pub open spec fn enc_all<T: SiaEncodable>(s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { enc_all(s.drop_last()) + s.last().enc() } }
pub open spec fn enc1_all<T: V1SiaEncodable>(s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { enc1_all(s.drop_last()) + s.last().enc1() } }
/// `n` values in a row
pub open spec fn dec_n<T: SiaDecodable>(b: Seq<u8>, n: nat) -> Option<(Seq<T>, Seq<u8>)>
    decreases n,
{
    if n == 0 { Some((seq![], b)) } else {
        match dec_n::<T>(b, (n - 1) as nat) {
            None => None,
            Some((s, b2)) => match T::dec(b2) { None => None, Some((v, b3)) => Some((s.push(v), b3)) },
        }
    }
}
pub open spec fn dec1_n<T: V1SiaDecodable>(b: Seq<u8>, n: nat) -> Option<(Seq<T>, Seq<u8>)>
    decreases n,
{
    if n == 0 { Some((seq![], b)) } else {
        match dec1_n::<T>(b, (n - 1) as nat) {
            None => None,
            Some((s, b2)) => match T::dec1(b2) { None => None, Some((v, b3)) => Some((s.push(v), b3)) },
        }
    }
}
pub proof fn lemma_enc_all_u8(s: Seq<u8>)
    ensures enc_all::<u8>(s) == s,
    decreases s.len(),
{ if s.len() > 0 { lemma_enc_all_u8(s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); } else { assert(s =~= seq![]); } }
pub proof fn lemma_enc1_all_u8(s: Seq<u8>)
    ensures enc1_all::<u8>(s) == s,
    decreases s.len(),
{ if s.len() > 0 { lemma_enc1_all_u8(s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); } else { assert(s =~= seq![]); } }
pub proof fn lemma_enc_all_u8s()
    ensures forall|s: Seq<u8>| #[trigger] enc_all::<u8>(s) == s,
{ assert forall|s: Seq<u8>| #[trigger] enc_all::<u8>(s) == s by { lemma_enc_all_u8(s); } }
pub proof fn lemma_enc1_all_u8s()
    ensures forall|s: Seq<u8>| #[trigger] enc1_all::<u8>(s) == s,
{ assert forall|s: Seq<u8>| #[trigger] enc1_all::<u8>(s) == s by { lemma_enc1_all_u8(s); } }
/// a failure does not go away by asking for more
pub proof fn lemma_dec_n_none<T: SiaDecodable>(b: Seq<u8>, n: nat, m: nat)
    requires n <= m, dec_n::<T>(b, n) is None,
    ensures dec_n::<T>(b, m) is None,
    decreases m,
{ if n < m { lemma_dec_n_none::<T>(b, n, (m - 1) as nat); } }
pub proof fn lemma_dec1_n_none<T: V1SiaDecodable>(b: Seq<u8>, n: nat, m: nat)
    requires n <= m, dec1_n::<T>(b, n) is None,
    ensures dec1_n::<T>(b, m) is None,
    decreases m,
{ if n < m { lemma_dec1_n_none::<T>(b, n, (m - 1) as nat); } }
} // spec


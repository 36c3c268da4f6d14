//! Independent reference encoders and decoders, written from the Sia wire format.
#![allow(deprecated)]
use crate::rng::Rng;
use sia::consensus::{ElementAccumulator, State};
use sia::encoding::{SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use sia::signing::{PublicKey, Signature};
use sia::types::v1::{self, UnlockConditions, UnlockKey};
use sia::types::v2::{self, SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use std::fmt::Debug;
use time::{Duration, OffsetDateTime};

/// how a value is generated
pub trait G: Sized {
    fn g(r: &mut Rng) -> Self;
    /// the most elements a generated vector of these has
    const MAXLEN: usize = 4;
}
/// the v2 format
pub trait R2: Sized + SiaEncodable + SiaDecodable + PartialEq + Debug + G {
    fn e(&self, o: &mut Vec<u8>);
    fn d(i: &mut &[u8]) -> Option<Self>;
    fn e2v(&self) -> Vec<u8> {
        let mut o = vec![];
        self.e(&mut o);
        o
    }
}
/// the v1 format
pub trait R1: Sized + V1SiaEncodable + V1SiaDecodable + PartialEq + Debug + G {
    fn e1(&self, o: &mut Vec<u8>);
    fn d1(i: &mut &[u8]) -> Option<Self>;
    fn e1v(&self) -> Vec<u8> {
        let mut o = vec![];
        self.e1(&mut o);
        o
    }
}

pub fn take<'a>(i: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if i.len() < n {
        return None;
    }
    let (a, b) = i.split_at(n);
    *i = b;
    Some(a)
}
pub fn du64(i: &mut &[u8]) -> Option<u64> {
    let b = take(i, 8)?;
    let mut v = 0u64;
    for k in (0..8).rev() {
        v = v << 8 | b[k] as u64;
    }
    Some(v)
}
pub fn eu64(v: u64, o: &mut Vec<u8>) {
    for k in 0..8 {
        o.push((v >> (8 * k)) as u8);
    }
}

macro_rules! both {
    ($t:ty, $e:expr, $d:expr) => {
        impl R2 for $t {
            fn e(&self, o: &mut Vec<u8>) {
                let f: fn(&$t, &mut Vec<u8>) = $e;
                f(self, o)
            }
            fn d(i: &mut &[u8]) -> Option<Self> {
                let f: fn(&mut &[u8]) -> Option<$t> = $d;
                f(i)
            }
        }
        impl R1 for $t {
            fn e1(&self, o: &mut Vec<u8>) {
                let f: fn(&$t, &mut Vec<u8>) = $e;
                f(self, o)
            }
            fn d1(i: &mut &[u8]) -> Option<Self> {
                let f: fn(&mut &[u8]) -> Option<$t> = $d;
                f(i)
            }
        }
    };
}

// ---- primitives
impl G for u8 {
    const MAXLEN: usize = 3000;
    fn g(r: &mut Rng) -> u8 { r.u64() as u8 }
}
both!(u8, |v, o| o.push(*v), |i| Some(take(i, 1)?[0]));
impl G for bool {
    const MAXLEN: usize = 300;
    fn g(r: &mut Rng) -> bool { r.chance(2) }
}
both!(bool, |v, o| o.push(if *v { 1 } else { 0 }), |i| match take(i, 1)?[0] { 0 => Some(false), 1 => Some(true), _ => None });
macro_rules! ints {
    ($($t:ty)*) => { $(
        impl G for $t { const MAXLEN: usize = 1200; fn g(r: &mut Rng) -> $t { r.u64() as $t } }
        both!($t, |v, o| eu64(*v as i128 as u64, o), |i| Some(du64(i)? as $t));
    )* };
}
ints!(u16 u32 usize i16 i32 i64 u64);
impl<const N: usize> G for [u8; N] {
    const MAXLEN: usize = 300;
    fn g(r: &mut Rng) -> Self { r.array() }
}
impl<const N: usize> R2 for [u8; N] {
    fn e(&self, o: &mut Vec<u8>) { o.extend_from_slice(self) }
    fn d(i: &mut &[u8]) -> Option<Self> { take(i, N)?.try_into().ok() }
}
impl<const N: usize> R1 for [u8; N] {
    fn e1(&self, o: &mut Vec<u8>) { o.extend_from_slice(self) }
    fn d1(i: &mut &[u8]) -> Option<Self> { take(i, N)?.try_into().ok() }
}
impl G for String {
    const MAXLEN: usize = 30;
    fn g(r: &mut Rng) -> String { r.string() }
}
both!(String, |v, o| { eu64(v.len() as u64, o); o.extend_from_slice(v.as_bytes()) }, |i| {
    let n = du64(i)?;
    if n > i.len() as u64 { return None; }
    String::from_utf8(take(i, n as usize)?.to_vec()).ok()
});
impl<T: G> G for Vec<T> {
    const MAXLEN: usize = 5;
    fn g(r: &mut Rng) -> Self {
        // now and then a long list (of lists that are not long themselves)
        if !r.inlong && T::MAXLEN <= 20 && r.chance(400) {
            r.inlong = true;
            let m = [20, 60, 120, 300][r.below(4) as usize];
            let n = if T::MAXLEN < 5 { 6 + r.below(30) } else { 17 + r.below(m) };
            let v = (0..n).map(|_| T::g(r)).collect();
            r.inlong = false;
            return v;
        }
        let n = r.len(T::MAXLEN);
        (0..n).map(|_| T::g(r)).collect()
    }
}
impl<T: R2> R2 for Vec<T> {
    fn e(&self, o: &mut Vec<u8>) { eu64(self.len() as u64, o); self.iter().for_each(|x| x.e(o)) }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let n = du64(i)?;
        let mut v = vec![];
        for _ in 0..n { v.push(T::d(i)?) }
        Some(v)
    }
}
impl<T: R1> R1 for Vec<T> {
    fn e1(&self, o: &mut Vec<u8>) { eu64(self.len() as u64, o); self.iter().for_each(|x| x.e1(o)) }
    fn d1(i: &mut &[u8]) -> Option<Self> {
        let n = du64(i)?;
        let mut v = vec![];
        for _ in 0..n { v.push(T::d1(i)?) }
        Some(v)
    }
}
impl<T: G> G for Option<T> {
    const MAXLEN: usize = T::MAXLEN;
    fn g(r: &mut Rng) -> Self { if r.chance(3) { None } else { Some(T::g(r)) } }
}
impl<T: R2> R2 for Option<T> {
    fn e(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(v) => { o.push(1); v.e(o) } } }
    fn d(i: &mut &[u8]) -> Option<Self> { match take(i, 1)?[0] { 0 => Some(None), 1 => Some(Some(T::d(i)?)), _ => None } }
}
impl<T: R1> R1 for Option<T> {
    fn e1(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(v) => { o.push(1); v.e1(o) } } }
    fn d1(i: &mut &[u8]) -> Option<Self> { match take(i, 1)?[0] { 0 => Some(None), 1 => Some(Some(T::d1(i)?)), _ => None } }
}
pub const T_MIN: i64 = -377705116800;
pub const T_MAX: i64 = 253402300799;
/// the first second of the year 0, from which times have an RFC 3339 text
pub const T_TEXT: i64 = -62167219200;
fn gen_secs(r: &mut Rng) -> i64 {
    let s = any_secs(r);
    if r.json && s < T_TEXT { T_TEXT } else { s }
}
fn any_secs(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => T_MIN + r.below(3) as i64,
        2 => T_MAX - r.below(3) as i64,
        3 => -(r.below(1 << 33) as i64),
        4 => (r.u64() % T_MAX as u64) as i64,
        _ => r.below(1 << 33) as i64,
    }
}
impl G for OffsetDateTime {
    const MAXLEN: usize = 20;
    fn g(r: &mut Rng) -> Self { OffsetDateTime::from_unix_timestamp(gen_secs(r)).unwrap() }
}
fn secs(t: &OffsetDateTime) -> i64 {
    // by the calendar, not by unix_timestamp
    (*t - OffsetDateTime::UNIX_EPOCH).whole_seconds()
}
impl R2 for OffsetDateTime {
    fn e(&self, o: &mut Vec<u8>) { eu64(secs(self) as u64, o) }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let v = du64(i)? as i64;
        if !(T_MIN..=T_MAX).contains(&v) { return None; }
        Some(OffsetDateTime::UNIX_EPOCH + Duration::seconds(v))
    }
}
impl G for Duration {
    const MAXLEN: usize = 20;
    fn g(r: &mut Rng) -> Self {
        let d = Duration::nanoseconds((r.u64() >> 1) as i64);
        // above i64::MAX nanoseconds: writable, but not readable back
        if r.long && r.chance(3) { d + Duration::nanoseconds(i64::MAX) + Duration::nanoseconds(r.below(2) as i64) } else { d }
    }
}
impl R2 for Duration {
    fn e(&self, o: &mut Vec<u8>) { eu64(self.whole_nanoseconds() as u64, o) }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let v = du64(i)?;
        if v >> 63 != 0 { return None; }
        Some(Duration::nanoseconds(v as i64))
    }
}

// ---- fixed-size values
macro_rules! ids {
    ($($t:ident)*) => { $(
        impl G for $t { const MAXLEN: usize = 300; fn g(r: &mut Rng) -> Self { $t::new(r.array()) } }
        both!($t, |v, o| o.extend_from_slice(idb(v)), |i| Some($t::new(take(i, 32)?.try_into().unwrap())));
    )* };
}
pub fn idb<T: AsRef<[u8; 32]>>(t: &T) -> &[u8] { t.as_ref() }
ids!(Hash256 SiacoinOutputID SiafundOutputID AttestationID BlockID TransactionID FileContractID);
impl G for Address {
    const MAXLEN: usize = 20;
    fn g(r: &mut Rng) -> Self { Address::new(r.array()) }
}
both!(Address, |v, o| o.extend_from_slice(v.as_ref()), |i| Some(Address::new(take(i, 32)?.try_into().unwrap())));
pub fn leaf_bytes(l: &Leaf) -> [u8; 64] {
    if std::mem::size_of::<Leaf>() == 64 {
        unsafe { std::mem::transmute_copy(l) }
    } else {
        hex::decode(l.to_string()).unwrap().try_into().unwrap()
    }
}
impl G for Leaf {
    fn g(r: &mut Rng) -> Self { Leaf::from(r.array::<64>()) }
}
both!(Leaf, |v, o| o.extend_from_slice(&leaf_bytes(v)), |i| Some(Leaf::from(<[u8; 64]>::try_from(take(i, 64)?).unwrap())));
pub fn specifier_of(s: &[u8]) -> [u8; 16] {
    let mut b = [0; 16];
    b[..s.len()].copy_from_slice(s);
    b
}
impl G for Specifier {
    fn g(r: &mut Rng) -> Self {
        if r.json && r.chance(2) {
            // a text that ends in no NUL and holds no colon
            let s: String = r.string().chars().filter(|c| *c != ':').scan(0, |n, c| { *n += c.len_utf8(); Some((*n, c)) }).take_while(|x| x.0 <= 16).map(|x| x.1).collect();
            Specifier::new(specifier_of(s.trim_end_matches('\0').as_bytes()))
        } else if !r.json && r.chance(2) {
            Specifier::new(r.array())
        } else {
            let w: &[&[u8]] = &[b"ed25519", b"siacoin output", b"siafund output", b"file contract", b"storage proof", b"foundation", b"entropy"];
            Specifier::new(specifier_of(w[r.below(w.len() as u64) as usize]))
        }
    }
}
both!(Specifier, |v, o| o.extend_from_slice(v.as_bytes()), |i| Some(Specifier::new(take(i, 16)?.try_into().unwrap())));
impl G for PublicKey {
    const MAXLEN: usize = 20;
    fn g(r: &mut Rng) -> Self { PublicKey::new(r.array()) }
}
impl R2 for PublicKey {
    fn e(&self, o: &mut Vec<u8>) { o.extend_from_slice(self.as_ref()) }
    fn d(i: &mut &[u8]) -> Option<Self> { Some(PublicKey::new(take(i, 32)?.try_into().unwrap())) }
}
impl G for Signature {
    const MAXLEN: usize = 20;
    fn g(r: &mut Rng) -> Self { Signature::new(r.array()) }
}
impl R2 for Signature {
    fn e(&self, o: &mut Vec<u8>) { o.extend_from_slice(self.data()) }
    fn d(i: &mut &[u8]) -> Option<Self> { Some(Signature::new(take(i, 64)?.try_into().unwrap())) }
}

// ---- currency and work
impl G for Currency {
    const MAXLEN: usize = 300;
    fn g(r: &mut Rng) -> Self { Currency::new(r.u128()) }
}
impl R2 for Currency {
    fn e(&self, o: &mut Vec<u8>) { for k in 0..16 { o.push((**self >> (8 * k)) as u8) } }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let b = take(i, 16)?;
        Some(Currency::new((0..16).rev().fold(0u128, |a, k| a << 8 | b[k] as u128)))
    }
}
pub fn ecur1(v: u128, o: &mut Vec<u8>) {
    let n = (128 - v.leading_zeros() as usize).div_ceil(8);
    eu64(n as u64, o);
    for k in (0..n).rev() { o.push((v >> (8 * k)) as u8) }
}
pub fn dcur1(i: &mut &[u8]) -> Option<u128> {
    let n = du64(i)?;
    if n > 16 { return None; }
    Some(take(i, n as usize)?.iter().fold(0u128, |a, b| a << 8 | *b as u128))
}
impl R1 for Currency {
    fn e1(&self, o: &mut Vec<u8>) { ecur1(**self, o) }
    fn d1(i: &mut &[u8]) -> Option<Self> { dcur1(i).map(Currency::new) }
}
impl G for Work {
    const MAXLEN: usize = 20;
    fn g(r: &mut Rng) -> Self { Work([r.u64(), r.u64(), r.u64(), r.u64()]) }
}
both!(Work, |v, o| for k in (0..4).rev() { for j in (0..8).rev() { o.push((v.0[k] >> (8 * j)) as u8) } }, |i| {
    let b = take(i, 32)?;
    let mut w = [0u64; 4];
    for (k, x) in b.iter().enumerate() { let l = 3 - k / 8; w[l] = w[l] << 8 | *x as u64; }
    Some(Work(w))
});

// ---- structures
macro_rules! gens {
    ($t:path, $($f:ident)*) => { impl G for $t { fn g(r: &mut Rng) -> Self { $(let $f = G::g(r);)* Self { $($f),* } } } };
}
macro_rules! s2 {
    ($t:path: $($f:ident)*) => { impl R2 for $t {
        fn e(&self, o: &mut Vec<u8>) { $(self.$f.e(o);)* }
        fn d(i: &mut &[u8]) -> Option<Self> { $(let $f = R2::d(i)?;)* Some(Self { $($f),* }) }
    } };
}
macro_rules! s1 {
    ($t:path: $($f:ident)*) => { impl R1 for $t {
        fn e1(&self, o: &mut Vec<u8>) { $(self.$f.e1(o);)* }
        fn d1(i: &mut &[u8]) -> Option<Self> { $(let $f = R1::d1(i)?;)* Some(Self { $($f),* }) }
    } };
}
macro_rules! g2 { ($t:path: $($f:ident)*) => { gens!($t, $($f)*); s2!($t: $($f)*); } }
macro_rules! g1 { ($t:path: $($f:ident)*) => { gens!($t, $($f)*); s1!($t: $($f)*); } }
g2!(SiacoinOutput: value address);
s1!(SiacoinOutput: value address);
g2!(SiafundOutput: value address);
impl R1 for SiafundOutput {
    fn e1(&self, o: &mut Vec<u8>) { ecur1(self.value as u128, o); self.address.e1(o); ecur1(0, o) }
    fn d1(i: &mut &[u8]) -> Option<Self> {
        let value = u64::try_from(dcur1(i)?).ok()?;
        let address = R1::d1(i)?;
        dcur1(i)?;
        Some(SiafundOutput { value, address })
    }
}
g2!(ChainIndex: height id);
g2!(StateElement: leaf_index merkle_proof);
g2!(UnlockKey: algorithm key);
s1!(UnlockKey: algorithm key);
g2!(UnlockConditions: timelock public_keys signatures_required);
s1!(UnlockConditions: timelock public_keys signatures_required);
g1!(v1::SiacoinInput: parent_id unlock_conditions);
g1!(v1::SiafundInput: parent_id unlock_conditions claim_address);
g1!(v1::FileContract: file_size file_merkle_root window_start window_end payout valid_proof_outputs missed_proof_outputs unlock_hash revision_number);
g1!(v1::FileContractRevision: parent_id unlock_conditions revision_number file_size file_merkle_root window_start window_end valid_proof_outputs missed_proof_outputs unlock_hash);
g1!(v1::StorageProof: parent_id leaf proof);
g1!(v1::CoveredFields: whole_transaction siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures);
g1!(v1::TransactionSignature: parent_id public_key_index timelock covered_fields signature);
g1!(v1::Transaction: siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures);
gens!(Block, parent_id nonce timestamp miner_payouts transactions);
impl R1 for Block {
    fn e1(&self, o: &mut Vec<u8>) {
        self.parent_id.e(o);
        self.nonce.e(o);
        self.timestamp.e(o);
        self.miner_payouts.e1(o);
        self.transactions.e1(o);
    }
    fn d1(i: &mut &[u8]) -> Option<Self> {
        Some(Block { parent_id: R2::d(i)?, nonce: R2::d(i)?, timestamp: R2::d(i)?, miner_payouts: R1::d1(i)?, transactions: R1::d1(i)? })
    }
}

g2!(v2::Attestation: public_key key value signature);
g2!(v2::FileContract: capacity filesize file_merkle_root proof_height expiration_height renter_output host_output missed_host_value total_collateral renter_public_key host_public_key revision_number renter_signature host_signature);
g2!(v2::SiacoinElement: state_element id siacoin_output maturity_height);
g2!(v2::SiafundElement: state_element id siafund_output claim_start);
g2!(v2::FileContractElement: state_element id v2_file_contract);
g2!(v2::ChainIndexElement: state_element id chain_index);
g2!(v2::SiacoinInput: parent satisfied_policy);
g2!(v2::SiafundInput: parent claim_address satisfied_policy);
g2!(v2::FileContractRevision: parent revision);
g2!(v2::FileContractRenewal: final_revision new_contract renter_rollover host_rollover renter_signature host_signature);
g2!(v2::StorageProof: proof_index leaf proof);
g2!(SatisfiedPolicy: policy signatures preimages);

// ---- spend policies
impl G for SpendPolicy {
    fn g(r: &mut Rng) -> Self {
        match r.below(if r.depth > 4 { 6 } else { 9 }) {
            0 => SpendPolicy::Above(r.u64()),
            1 => SpendPolicy::After(G::g(r)),
            2 => SpendPolicy::PublicKey(G::g(r)),
            3 => SpendPolicy::Hash(G::g(r)),
            4 => SpendPolicy::Opaque(G::g(r)),
            5 => SpendPolicy::UnlockConditions(G::g(r)),
            _ => {
                r.depth += 1;
                let n = if r.depth == 1 { r.len(255) } else { r.len(4) };
                let deep = r.depth;
                if n > 8 { r.depth = 9 }
                let v = (0..n).map(|_| SpendPolicy::g(r)).collect();
                r.depth = deep - 1;
                SpendPolicy::Threshold(r.u64() as u8, v)
            }
        }
    }
}
pub fn epol(p: &SpendPolicy, o: &mut Vec<u8>) {
    match p {
        SpendPolicy::Above(h) => { o.push(1); eu64(*h, o) }
        SpendPolicy::After(t) => { o.push(2); eu64(secs(t) as u64, o) }
        SpendPolicy::PublicKey(k) => { o.push(3); o.extend_from_slice(k.as_ref()) }
        SpendPolicy::Hash(h) => { o.push(4); o.extend_from_slice(idb(h)) }
        SpendPolicy::Threshold(n, v) => { o.push(5); o.push(*n); o.push(v.len() as u8); v.iter().for_each(|p| epol(p, o)) }
        SpendPolicy::Opaque(a) => { o.push(6); o.extend_from_slice(a.as_ref()) }
        SpendPolicy::UnlockConditions(u) => { o.push(7); u.e(o) }
    }
}
fn dpol(i: &mut &[u8], t: &mut usize) -> Option<SpendPolicy> {
    Some(match take(i, 1)?[0] {
        1 => SpendPolicy::Above(du64(i)?),
        2 => SpendPolicy::After(OffsetDateTime::d(i)?),
        3 => SpendPolicy::PublicKey(R2::d(i)?),
        4 => SpendPolicy::Hash(R2::d(i)?),
        5 => {
            let n = take(i, 1)?[0];
            let m = take(i, 1)?[0] as usize;
            *t += m;
            if *t > 1024 { return None; }
            let mut v = vec![];
            for _ in 0..m { v.push(dpol(i, t)?) }
            SpendPolicy::Threshold(n, v)
        }
        6 => SpendPolicy::Opaque(R2::d(i)?),
        7 => SpendPolicy::UnlockConditions(R2::d(i)?),
        _ => return None,
    })
}
impl R2 for SpendPolicy {
    fn e(&self, o: &mut Vec<u8>) { o.push(1); epol(self, o) }
    fn d(i: &mut &[u8]) -> Option<Self> {
        if take(i, 1)?[0] != 1 { return None; }
        dpol(i, &mut 1)
    }
}
/// policies seen when decoding
pub fn npol(p: &SpendPolicy) -> usize {
    match p { SpendPolicy::Threshold(_, v) => v.len() + v.iter().map(npol).sum::<usize>(), _ => 0 }
}

// ---- v2 contract resolutions and transactions
impl G for v2::ContractResolution {
    fn g(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => v2::ContractResolution::Renewal(G::g(r)),
            1 => v2::ContractResolution::StorageProof(G::g(r)),
            _ => v2::ContractResolution::Expiration(),
        }
    }
}
gens!(v2::FileContractResolution, parent resolution);
impl R2 for v2::FileContractResolution {
    fn e(&self, o: &mut Vec<u8>) {
        self.parent.e(o);
        match &self.resolution {
            v2::ContractResolution::Renewal(x) => { o.push(0); x.e(o) }
            v2::ContractResolution::StorageProof(x) => { o.push(1); x.e(o) }
            v2::ContractResolution::Expiration() => o.push(2),
        }
    }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let parent = R2::d(i)?;
        let resolution = match take(i, 1)?[0] {
            0 => v2::ContractResolution::Renewal(R2::d(i)?),
            1 => v2::ContractResolution::StorageProof(R2::d(i)?),
            2 => v2::ContractResolution::Expiration(),
            _ => return None,
        };
        Some(v2::FileContractResolution { parent, resolution })
    }
}
impl G for v2::Transaction {
    fn g(r: &mut Rng) -> Self {
        // few fields, so that every combination of present fields comes up
        let m = match r.below(4) { 0 => r.next(), 1 => 1 << r.below(11), 2 => !(1 << r.below(11)), _ => r.next() & r.next() };
        fn v<T: G>(r: &mut Rng, m: u64, k: u32) -> Vec<T> { if m >> k & 1 == 1 { G::g(r) } else { vec![] } }
        v2::Transaction {
            siacoin_inputs: v(r, m, 0),
            siacoin_outputs: v(r, m, 1),
            siafund_inputs: v(r, m, 2),
            siafund_outputs: v(r, m, 3),
            file_contracts: v(r, m, 4),
            file_contract_revisions: v(r, m, 5),
            file_contract_resolutions: v(r, m, 6),
            attestations: v(r, m, 7),
            arbitrary_data: v(r, m, 8),
            new_foundation_address: if m >> 9 & 1 == 1 { Some(G::g(r)) } else { None },
            miner_fee: if m >> 10 & 1 == 1 { G::g(r) } else { Currency::new(0) },
        }
    }
}
impl R2 for v2::Transaction {
    fn e(&self, o: &mut Vec<u8>) {
        o.push(2);
        let mut m = 0u64;
        let mut b = vec![];
        macro_rules! f { ($k:expr, $x:expr) => { if !$x.is_empty() { m |= 1 << $k; $x.e(&mut b) } } }
        f!(0, self.siacoin_inputs);
        f!(1, self.siacoin_outputs);
        f!(2, self.siafund_inputs);
        f!(3, self.siafund_outputs);
        f!(4, self.file_contracts);
        f!(5, self.file_contract_revisions);
        f!(6, self.file_contract_resolutions);
        f!(7, self.attestations);
        f!(8, self.arbitrary_data);
        if let Some(a) = &self.new_foundation_address { m |= 1 << 9; a.e(&mut b) }
        if *self.miner_fee != 0 { m |= 1 << 10; self.miner_fee.e(&mut b) }
        eu64(m, o);
        o.extend_from_slice(&b);
    }
    fn d(i: &mut &[u8]) -> Option<Self> {
        if take(i, 1)?[0] != 2 { return None; }
        let m = du64(i)?;
        fn v<T: R2>(i: &mut &[u8], m: u64, k: u32) -> Option<Vec<T>> { if m >> k & 1 == 1 { R2::d(i) } else { Some(vec![]) } }
        Some(v2::Transaction {
            siacoin_inputs: v(i, m, 0)?,
            siacoin_outputs: v(i, m, 1)?,
            siafund_inputs: v(i, m, 2)?,
            siafund_outputs: v(i, m, 3)?,
            file_contracts: v(i, m, 4)?,
            file_contract_revisions: v(i, m, 5)?,
            file_contract_resolutions: v(i, m, 6)?,
            attestations: v(i, m, 7)?,
            arbitrary_data: v(i, m, 8)?,
            new_foundation_address: if m >> 9 & 1 == 1 { Some(R2::d(i)?) } else { None },
            miner_fee: if m >> 10 & 1 == 1 { R2::d(i)? } else { Currency::new(0) },
        })
    }
}

// ---- consensus state
impl G for ElementAccumulator {
    fn g(r: &mut Rng) -> Self {
        let num_leaves = r.u64();
        let mut trees = [Hash256::new([0; 32]); 64];
        for k in 0..64 { if num_leaves >> k & 1 == 1 { trees[k] = G::g(r) } }
        ElementAccumulator { num_leaves, trees }
    }
}
impl R2 for ElementAccumulator {
    fn e(&self, o: &mut Vec<u8>) {
        eu64(self.num_leaves, o);
        for k in 0..64 { if self.num_leaves >> k & 1 == 1 { self.trees[k].e(o) } }
    }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let num_leaves = du64(i)?;
        let mut trees = [Hash256::new([0; 32]); 64];
        for k in 0..64 { if num_leaves >> k & 1 == 1 { trees[k] = R2::d(i)? } }
        Some(ElementAccumulator { num_leaves, trees })
    }
}
/// timestamps a state has
fn ntime(height: u64) -> usize { if height == u64::MAX { 0 } else if height >= 10 { 11 } else { height as usize + 1 } }
impl G for State {
    fn g(r: &mut Rng) -> Self {
        let mut index = ChainIndex::g(r);
        if r.chance(2) { index.height = r.below(13).wrapping_sub(1) }
        let mut prev_timestamps = [OffsetDateTime::UNIX_EPOCH; 11];
        for t in prev_timestamps.iter_mut().take(ntime(index.height)) { *t = G::g(r) }
        State {
            index, prev_timestamps, depth: G::g(r), child_target: G::g(r), siafund_pool: G::g(r), oak_time: G::g(r), oak_target: G::g(r),
            foundation_primary_address: G::g(r), foundation_failsafe_address: G::g(r), total_work: G::g(r), difficulty: G::g(r),
            oak_work: G::g(r), elements: G::g(r), attestations: G::g(r),
        }
    }
}
impl R2 for State {
    fn e(&self, o: &mut Vec<u8>) {
        self.index.e(o);
        for t in self.prev_timestamps.iter().take(ntime(self.index.height)) { t.e(o) }
        self.depth.e(o);
        self.child_target.e(o);
        self.siafund_pool.e(o);
        self.oak_time.e(o);
        self.oak_target.e(o);
        self.foundation_primary_address.e(o);
        self.foundation_failsafe_address.e(o);
        self.total_work.e(o);
        self.difficulty.e(o);
        self.oak_work.e(o);
        self.elements.e(o);
        self.attestations.e(o);
    }
    fn d(i: &mut &[u8]) -> Option<Self> {
        let index = ChainIndex::d(i)?;
        let mut prev_timestamps = [OffsetDateTime::UNIX_EPOCH; 11];
        for t in prev_timestamps.iter_mut().take(ntime(index.height)) { *t = R2::d(i)? }
        Some(State {
            index, prev_timestamps, depth: R2::d(i)?, child_target: R2::d(i)?, siafund_pool: R2::d(i)?, oak_time: R2::d(i)?, oak_target: R2::d(i)?,
            foundation_primary_address: R2::d(i)?, foundation_failsafe_address: R2::d(i)?, total_work: R2::d(i)?, difficulty: R2::d(i)?,
            oak_work: R2::d(i)?, elements: R2::d(i)?, attestations: R2::d(i)?,
        })
    }
}

//! Independent references for the JSON form: what a value is written as, and what a document denotes.
#![allow(deprecated)]
use crate::codec::*;
use crate::ctx::hx;
use crate::props::amounts::parse;
use crate::props::h256;
use crate::props::text::*;
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::v1::{self, UnlockConditions, UnlockKey};
use sia::types::v2::{self, SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use time::{Duration, OffsetDateTime};

pub trait RJ: Sized {
    fn j(&self) -> Value;
    fn r(v: &Value) -> Option<Self>;
    /// what a field that is left out is
    fn absent() -> Option<Self> { None }
}
macro_rules! int { ($($t:ty)*) => { $(impl RJ for $t {
    fn j(&self) -> Value { json!(*self) }
    fn r(v: &Value) -> Option<Self> { <$t>::try_from(v.as_u64()?).ok() }
})* } }
int!(u8 u64 usize);
impl RJ for bool {
    fn j(&self) -> Value { Value::Bool(*self) }
    fn r(v: &Value) -> Option<Self> { v.as_bool() }
}
impl RJ for String {
    fn j(&self) -> Value { Value::String(self.clone()) }
    fn r(v: &Value) -> Option<Self> { v.as_str().map(|s| s.to_string()) }
}
impl<T: RJ> RJ for Vec<T> {
    fn j(&self) -> Value { Value::Array(self.iter().map(|x| x.j()).collect()) }
    fn r(v: &Value) -> Option<Self> { v.as_array()?.iter().map(T::r).collect() }
}
impl<T: RJ> RJ for Option<T> {
    fn j(&self) -> Value { match self { None => Value::Null, Some(x) => x.j() } }
    fn r(v: &Value) -> Option<Self> { if v.is_null() { Some(None) } else { Some(Some(T::r(v)?)) } }
    fn absent() -> Option<Self> { Some(None) }
}
macro_rules! ids { ($($t:ident)*) => { $(impl RJ for $t {
    fn j(&self) -> Value { Value::String(hx(idb(self))) }
    fn r(v: &Value) -> Option<Self> { Some($t::new(id_ref(v.as_str()?)?.try_into().unwrap())) }
})* } }
ids!(Hash256 SiacoinOutputID SiafundOutputID AttestationID BlockID TransactionID FileContractID);
impl RJ for Address {
    fn j(&self) -> Value { Value::String(format!("{}{}", hx(self.as_ref()), hx(&h256(&[self.as_ref()])[..6]))) }
    fn r(v: &Value) -> Option<Self> { Some(Address::new(addr_ref(v.as_str()?)?.try_into().unwrap())) }
}
impl RJ for Leaf {
    fn j(&self) -> Value { Value::String(hx(&leaf_bytes(self))) }
    fn r(v: &Value) -> Option<Self> { Some(Leaf::from(<[u8; 64]>::try_from(fixed_ref(v.as_str()?, 64)?).unwrap())) }
}
impl RJ for PublicKey {
    fn j(&self) -> Value { Value::String(format!("ed25519:{}", hx(self.as_ref()))) }
    fn r(v: &Value) -> Option<Self> { Some(PublicKey::new(fixed_ref(v.as_str()?.strip_prefix("ed25519:")?, 32)?.try_into().unwrap())) }
}
impl RJ for Signature {
    fn j(&self) -> Value { Value::String(hx(self.data())) }
    fn r(v: &Value) -> Option<Self> { Some(Signature::new(fixed_ref(v.as_str()?, 64)?.try_into().unwrap())) }
}
impl RJ for Specifier {
    fn j(&self) -> Value { Value::Array(self.as_bytes().iter().map(|b| json!(*b)).collect()) }
    fn r(v: &Value) -> Option<Self> { Some(Specifier::new(<Vec<u8>>::r(v)?.try_into().ok()?)) }
}
impl RJ for UnlockKey {
    fn j(&self) -> Value {
        let a = self.algorithm.as_bytes();
        let n = a.iter().rposition(|b| *b != 0).map_or(0, |k| k + 1);
        Value::String(format!("{}:{}", std::str::from_utf8(&a[..n]).unwrap(), hx(&self.key)))
    }
    fn r(v: &Value) -> Option<Self> {
        let (a, k) = v.as_str()?.split_once(':')?;
        let mut b = [0; 16];
        for (d, s) in b.iter_mut().zip(a.bytes()) { *d = s }
        Some(UnlockKey { algorithm: Specifier::new(b), key: unhex(k)? })
    }
}
impl RJ for Currency {
    fn j(&self) -> Value { Value::String(format!("{}", **self)) }
    fn r(v: &Value) -> Option<Self> {
        match v {
            Value::String(s) => parse(s).map(Currency::new),
            Value::Number(n) => n.as_u64().map(|x| Currency::new(x as u128)),
            _ => None,
        }
    }
}
impl RJ for Work {
    fn j(&self) -> Value {
        // long division by ten
        let mut w = self.0;
        let mut s = vec![];
        loop {
            let mut rem = 0u128;
            for k in (0..4).rev() {
                let x = rem << 64 | w[k] as u128;
                w[k] = (x / 10) as u64;
                rem = x % 10;
            }
            s.push(b'0' + rem as u8);
            if w == [0; 4] { break; }
        }
        s.reverse();
        Value::String(String::from_utf8(s).unwrap())
    }
    fn r(v: &Value) -> Option<Self> {
        let mut w = [0u64; 4];
        for b in v.as_str()?.bytes() {
            let mut c = (b as char).to_digit(10)? as u128;
            for x in w.iter_mut() {
                let y = *x as u128 * 10 + c;
                *x = y as u64;
                c = y >> 64;
            }
            if c != 0 { return None; }
        }
        Some(Work(w))
    }
}
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            s.push(if k <= c.len() { B64[(x >> (18 - 6 * k) & 63) as usize] as char } else { '=' });
        }
    }
    s
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return None; }
    for c in b.chunks(4) {
        let mut x = 0u32;
        let n = c.iter().position(|b| *b == b'=').unwrap_or(4);
        for k in 0..n { x |= (B64.iter().position(|b| *b == c[k])? as u32) << (18 - 6 * k) }
        if n > 1 { o.extend_from_slice(&x.to_be_bytes()[1..n]) }
    }
    // exactly the text of those bytes
    if b64(&o) == s { Some(o) } else { None }
}
fn time_j(t: &OffsetDateTime) -> Value {
    Value::String(t.format(&time::format_description::well_known::Rfc3339).unwrap())
}
fn time_r(v: &Value) -> Option<OffsetDateTime> {
    OffsetDateTime::parse(v.as_str()?, &time::format_description::well_known::Rfc3339).ok()
}
/// a field that is written some other way than its type is
macro_rules! w { ($v:expr, p) => { $v.j() }; ($v:expr, d) => { $v.j() }; ($v:expr, o) => { $v.j() };
    ($v:expr, t) => { time_j(&$v) }; ($v:expr, ts) => { Value::Array($v.iter().map(time_j).collect()) };
    ($v:expr, n) => { json!($v.whole_nanoseconds() as u64) };
    ($v:expr, b) => { Value::String(b64(&$v)) }; ($v:expr, db) => { Value::String(b64(&$v)) };
    ($v:expr, dvb) => { Value::Array($v.iter().map(|x| Value::String(b64(x))).collect()) }; }
macro_rules! rd { ($v:expr, p) => { RJ::r($v)? }; ($v:expr, d) => { RJ::r($v)? }; ($v:expr, o) => { RJ::r($v)? };
    ($v:expr, t) => { time_r($v)? };
    ($v:expr, ts) => { {
        let a = $v.as_array()?;
        if a.len() > 11 { return None; }
        let mut t = [OffsetDateTime::UNIX_EPOCH; 11];
        for (t, x) in t.iter_mut().zip(a) { *t = time_r(x)? }
        t
    } };
    ($v:expr, n) => { Duration::nanoseconds($v.as_u64()? as i64) };
    ($v:expr, b) => { unb64($v.as_str()?)? }; ($v:expr, db) => { unb64($v.as_str()?)? };
    ($v:expr, dvb) => { $v.as_array()?.iter().map(|x| unb64(x.as_str()?)).collect::<Option<_>>()? }; }
macro_rules! skip { ($v:expr, d) => { $v.is_empty() }; ($v:expr, o) => { $v.is_none() }; ($v:expr, db) => { $v.is_empty() }; ($v:expr, dvb) => { $v.is_empty() }; ($v:expr, $m:ident) => { false }; }
macro_rules! none { (d) => { Vec::new() }; (db) => { Vec::new() }; (dvb) => { Vec::new() }; (o) => { None }; (p) => { RJ::absent()? }; ($m:ident) => { return None }; }
macro_rules! js { ($t:path: $($f:ident $k:literal $m:ident,)*) => {
    impl RJ for $t {
        fn j(&self) -> Value {
            let mut o = Map::new();
            $(if !skip!(self.$f, $m) { o.insert($k.to_string(), w!(self.$f, $m)); })*
            Value::Object(o)
        }
        fn r(v: &Value) -> Option<Self> {
            let names = [$($k),*];
            let get = |k: &str| match v {
                Value::Object(o) => o.get(k),
                Value::Array(a) => a.get(names.iter().position(|n| *n == k).unwrap()),
                _ => None,
            };
            match v {
                Value::Object(_) => {}
                Value::Array(a) if a.len() <= names.len() => {
                    // a field left out at the end has a value only if it has a default
                    $(if get($k).is_none() { let _ = stringify!($f); if !["d", "o", "db", "dvb"].contains(&stringify!($m)) { return None; } })*
                }
                _ => return None,
            }
            Some(Self { $($f: match get($k) { Some(v) => rd!(v, $m), None => none!($m) }),* })
        }
    }
} }
js!(HardforkDevAddr: height "height" p, old_address "oldAddress" p, new_address "newAddress" p,);
js!(HardforkTax: height "height" p,);
js!(HardforkStorageProof: height "height" p,);
js!(HardforkOak: height "height" p, fix_height "fixHeight" p, genesis_timestamp "genesisTimestamp" t,);
js!(HardforkASIC: height "height" p, oak_time "oakTime" n, oak_target "oakTarget" p,);
js!(HardforkFoundation: height "height" p, primary_address "primaryAddress" p, failsafe_address "failsafeAddress" p,);
js!(HardforkV2: allow_height "allowHeight" p, require_height "requireHeight" p,);
js!(Network: name "name" p, initial_coinbase "initialCoinbase" p, minimum_coinbase "minimumCoinbase" p, initial_target "initialTarget" p, block_interval "blockInterval" n, maturity_delay "maturityDelay" p, hardfork_dev_addr "hardforkDevAddr" p, hardfork_tax "hardforkTax" p, hardfork_storage_proof "hardforkStorageProof" p, hardfork_oak "hardforkOak" p, hardfork_asic "hardforkASIC" p, hardfork_foundation "hardforkFoundation" p, hardfork_v2 "hardforkV2" p,);
js!(State: index "index" p, prev_timestamps "prevTimestamps" ts, depth "depth" p, child_target "childTarget" p, siafund_pool "siafundPool" p, oak_time "oakTime" n, oak_target "oakTarget" p, foundation_primary_address "foundationPrimaryAddress" p, foundation_failsafe_address "foundationFailsafeAddress" p, total_work "totalWork" p, difficulty "difficulty" p, oak_work "oakWork" p, elements "elements" p, attestations "attestations" p,);
js!(ChainState: network "network" p, state "state" p,);
js!(ChainIndex: height "height" p, id "id" p,);
js!(Block: parent_id "parentID" p, nonce "nonce" p, timestamp "timestamp" t, miner_payouts "minerPayouts" p, transactions "transactions" p,);
js!(SiacoinOutput: value "value" p, address "address" p,);
js!(SiafundOutput: value "value" p, address "address" p,);
js!(StateElement: leaf_index "leafIndex" p, merkle_proof "merkleProof" p,);
js!(SatisfiedPolicy: policy "policy" p, signatures "signatures" d, preimages "preimages" d,);
js!(UnlockConditions: timelock "timelock" p, public_keys "publicKeys" p, signatures_required "signaturesRequired" p,);
js!(v1::SiacoinInput: parent_id "parentID" p, unlock_conditions "unlockConditions" p,);
js!(v1::SiafundInput: parent_id "parentID" p, unlock_conditions "unlockConditions" p, claim_address "claimAddress" p,);
js!(v1::FileContract: file_size "filesize" p, file_merkle_root "fileMerkleRoot" p, window_start "windowStart" p, window_end "windowEnd" p, payout "payout" p, valid_proof_outputs "validProofOutputs" p, missed_proof_outputs "missedProofOutputs" p, unlock_hash "unlockHash" p, revision_number "revisionNumber" p,);
js!(v1::FileContractRevision: parent_id "parentID" p, unlock_conditions "unlockConditions" p, revision_number "revisionNumber" p, file_size "filesize" p, file_merkle_root "fileMerkleRoot" p, window_start "windowStart" p, window_end "windowEnd" p, valid_proof_outputs "validProofOutputs" p, missed_proof_outputs "missedProofOutputs" p, unlock_hash "unlockHash" p,);
js!(v1::StorageProof: parent_id "parentID" p, leaf "leaf" p, proof "proof" p,);
js!(v1::CoveredFields: whole_transaction "wholeTransaction" p, siacoin_inputs "siacoinInputs" d, siacoin_outputs "siacoinOutputs" d, file_contracts "fileContracts" d, file_contract_revisions "fileContractRevisions" d, storage_proofs "storageProofs" d, siafund_inputs "siafundInputs" d, siafund_outputs "siafundOutputs" d, miner_fees "minerFees" d, arbitrary_data "arbitraryData" d, signatures "signatures" d,);
js!(v1::TransactionSignature: parent_id "parentID" p, public_key_index "publicKeyIndex" p, timelock "timelock" p, covered_fields "coveredFields" p, signature "signature" b,);
js!(v1::Transaction: siacoin_inputs "siacoinInputs" d, siacoin_outputs "siacoinOutputs" d, file_contracts "fileContracts" d, file_contract_revisions "fileContractRevisions" d, storage_proofs "storageProofs" d, siafund_inputs "siafundInputs" d, siafund_outputs "siafundOutputs" d, miner_fees "minerFees" d, arbitrary_data "arbitraryData" dvb, signatures "signatures" d,);
js!(v2::Attestation: public_key "publicKey" p, key "key" p, value "value" b, signature "signature" p,);
js!(v2::FileContract: capacity "capacity" p, filesize "filesize" p, file_merkle_root "fileMerkleRoot" p, proof_height "proofHeight" p, expiration_height "expirationHeight" p, renter_output "renterOutput" p, host_output "hostOutput" p, missed_host_value "missedHostValue" p, total_collateral "totalCollateral" p, renter_public_key "renterPublicKey" p, host_public_key "hostPublicKey" p, revision_number "revisionNumber" p, renter_signature "renterSignature" p, host_signature "hostSignature" p,);
js!(v2::SiacoinElement: state_element "stateElement" p, id "id" p, siacoin_output "siacoinOutput" p, maturity_height "maturityHeight" p,);
js!(v2::SiafundElement: state_element "stateElement" p, id "id" p, siafund_output "siafundOutput" p, claim_start "claimStart" p,);
js!(v2::FileContractElement: state_element "stateElement" p, id "id" p, v2_file_contract "v2FileContract" p,);
js!(v2::ChainIndexElement: state_element "stateElement" p, id "id" p, chain_index "chainIndex" p,);
js!(v2::SiacoinInput: parent "parent" p, satisfied_policy "satisfiedPolicy" p,);
js!(v2::SiafundInput: parent "parent" p, claim_address "claimAddress" p, satisfied_policy "satisfiedPolicy" p,);
js!(v2::FileContractRevision: parent "parent" p, revision "revision" p,);
js!(v2::FileContractRenewal: final_revision "finalRevision" p, new_contract "newContract" p, renter_rollover "renterRollover" p, host_rollover "hostRollover" p, renter_signature "renterSignature" p, host_signature "hostSignature" p,);
js!(v2::StorageProof: proof_index "proofIndex" p, leaf "leaf" p, proof "proof" p,);
js!(v2::Transaction: siacoin_inputs "siacoinInputs" d, siacoin_outputs "siacoinOutputs" d, siafund_inputs "siafundInputs" d, siafund_outputs "siafundOutputs" d, file_contracts "fileContracts" d, file_contract_revisions "fileContractRevisions" d, file_contract_resolutions "fileContractResolutions" d, attestations "attestations" d, arbitrary_data "arbitraryData" db, new_foundation_address "newFoundationAddress" o, miner_fee "minerFee" p,);
// ---- the ones with a form of their own
impl RJ for ElementAccumulator {
    fn j(&self) -> Value {
        let t: Vec<Value> = (0..64).filter(|k| self.num_leaves >> k & 1 == 1).map(|k| self.trees[k].j()).collect();
        json!({"numLeaves": self.num_leaves, "trees": t})
    }
    fn r(v: &Value) -> Option<Self> {
        let (n, t) = match v {
            Value::Object(o) => (u64::r(o.get("numLeaves")?)?, <Vec<Hash256>>::r(o.get("trees")?)?),
            Value::Array(a) if a.len() == 2 => (u64::r(&a[0])?, <Vec<Hash256>>::r(&a[1])?),
            _ => return None,
        };
        if t.len() != n.count_ones() as usize { return None; }
        let mut trees = [Hash256::new([0; 32]); 64];
        let mut t = t.into_iter();
        for k in 0..64 { if n >> k & 1 == 1 { trees[k] = t.next()? } }
        Some(ElementAccumulator { num_leaves: n, trees })
    }
}
impl RJ for SpendPolicy {
    fn j(&self) -> Value {
        let (t, p) = match self {
            SpendPolicy::Above(h) => ("above", h.j()),
            SpendPolicy::After(t) => ("after", json!((*t - OffsetDateTime::UNIX_EPOCH).whole_seconds() as u64)),
            SpendPolicy::PublicKey(k) => ("pk", k.j()),
            SpendPolicy::Hash(h) => ("h", h.j()),
            SpendPolicy::Threshold(n, v) => ("thresh", json!({"n": n, "of": v.j()})),
            SpendPolicy::Opaque(a) => ("opaque", a.j()),
            SpendPolicy::UnlockConditions(u) => ("uc", u.j()),
        };
        json!({"type": t, "policy": p})
    }
    fn r(v: &Value) -> Option<Self> {
        let o = v.as_object()?;
        if o.len() != 2 { return None; }
        let p = o.get("policy")?;
        Some(match o.get("type")?.as_str()? {
            "above" => SpendPolicy::Above(RJ::r(p)?),
            "after" => {
                let s = p.as_u64()? as i64;
                if !(T_MIN..=T_MAX).contains(&s) { return None; }
                SpendPolicy::After(OffsetDateTime::UNIX_EPOCH + Duration::seconds(s))
            }
            "pk" => SpendPolicy::PublicKey(RJ::r(p)?),
            "h" => SpendPolicy::Hash(RJ::r(p)?),
            "thresh" => match p {
                Value::Object(q) => SpendPolicy::Threshold(RJ::r(q.get("n")?)?, RJ::r(q.get("of")?)?),
                Value::Array(a) if a.len() == 2 => SpendPolicy::Threshold(RJ::r(&a[0])?, RJ::r(&a[1])?),
                _ => return None,
            },
            "opaque" => SpendPolicy::Opaque(RJ::r(p)?),
            "uc" => SpendPolicy::UnlockConditions(RJ::r(p)?),
            _ => return None,
        })
    }
}
impl RJ for v2::ContractResolution {
    fn j(&self) -> Value {
        match self {
            v2::ContractResolution::Renewal(x) => json!({"renewal": x.j()}),
            v2::ContractResolution::StorageProof(x) => json!({"storageProof": x.j()}),
            v2::ContractResolution::Expiration() => json!({"expiration": []}),
        }
    }
    fn r(v: &Value) -> Option<Self> {
        let o = v.as_object()?;
        if o.len() != 1 { return None; }
        let (k, v) = o.iter().next()?;
        Some(match k.as_str() {
            "renewal" => v2::ContractResolution::Renewal(RJ::r(v)?),
            "storageProof" => v2::ContractResolution::StorageProof(RJ::r(v)?),
            "expiration" if v == &json!([]) => v2::ContractResolution::Expiration(),
            _ => return None,
        })
    }
}
impl RJ for v2::FileContractResolution {
    fn j(&self) -> Value {
        let (t, r) = match &self.resolution {
            v2::ContractResolution::Renewal(x) => ("renewal", x.j()),
            v2::ContractResolution::StorageProof(x) => ("storageProof", x.j()),
            v2::ContractResolution::Expiration() => ("expiration", json!({})),
        };
        json!({"parent": self.parent.j(), "type": t, "resolution": r})
    }
    fn r(v: &Value) -> Option<Self> {
        let o = v.as_object()?;
        if o.len() != 3 { return None; }
        let v = o.get("resolution")?;
        Some(v2::FileContractResolution { parent: RJ::r(o.get("parent")?)?, resolution: match o.get("type")?.as_str()? {
            "renewal" => v2::ContractResolution::Renewal(RJ::r(v)?),
            "storageProof" => v2::ContractResolution::StorageProof(RJ::r(v)?),
            "expiration" => v2::ContractResolution::Expiration(),
            _ => return None,
        } })
    }
}

// ---- generators of what has no binary form
macro_rules! gens { ($t:path: $($f:ident)*) => { impl G for $t { fn g(r: &mut Rng) -> Self { $(let $f = G::g(r);)* Self { $($f),* } } } } }
gens!(HardforkDevAddr: height old_address new_address);
gens!(HardforkTax: height);
gens!(HardforkStorageProof: height);
gens!(HardforkOak: height fix_height genesis_timestamp);
gens!(HardforkASIC: height oak_time oak_target);
gens!(HardforkFoundation: height primary_address failsafe_address);
gens!(HardforkV2: allow_height require_height);
gens!(Network: name initial_coinbase minimum_coinbase initial_target block_interval maturity_delay hardfork_dev_addr hardfork_tax hardfork_storage_proof hardfork_oak hardfork_asic hardfork_foundation hardfork_v2);
gens!(ChainState: network state);

use super::text::alter;
use crate::codec::*;
use crate::ctx::*;
use crate::jref::*;
use crate::rng::Rng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::v1::{self, UnlockConditions, UnlockKey};
use sia::types::v2::{self, SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use std::fmt::Debug;

macro_rules! types { ($m:ident) => {
    $m!(Hash256, SiacoinOutputID, SiafundOutputID, AttestationID, BlockID, TransactionID, FileContractID, Address, Leaf, PublicKey, Signature, Specifier,
        UnlockKey, Currency, Work, ChainIndex, SiacoinOutput, SiafundOutput, StateElement, UnlockConditions, SpendPolicy, SatisfiedPolicy,
        v1::SiacoinInput, v1::FileContract, v1::FileContractRevision, v1::StorageProof, v1::CoveredFields, v1::SiafundInput, v1::TransactionSignature, v1::Transaction, Block,
        v2::Attestation, v2::FileContract, v2::SiacoinElement, v2::SiafundElement, v2::FileContractElement, v2::ChainIndexElement, v2::SiacoinInput, v2::SiafundInput,
        v2::FileContractRevision, v2::FileContractRenewal, v2::StorageProof, v2::ContractResolution, v2::FileContractResolution, v2::Transaction,
        ElementAccumulator, State, HardforkDevAddr, HardforkTax, HardforkStorageProof, HardforkOak, HardforkASIC, HardforkFoundation, HardforkV2, Network, ChainState);
} }
fn name(s: &str) -> String { s.replace(' ', "") }
fn rng(c: &Ctx, f: &str) -> Rng {
    let mut r = c.rng(f);
    r.json = true;
    r
}
fn write<T: G + RJ + Serialize>(c: &mut Ctx, name: &str, r: &mut Rng) {
    let v = T::g(r);
    let want = v.j();
    c.case(&format!("write {name}"), want.to_string(), || format!("the {name} of the JSON {want}"), || {
        same(&want, &serde_json::to_value(&v).map_err(|e| ("JSON".into(), e.to_string()))?)?;
        // the text holds no key twice and says the same
        let t = serde_json::to_string(&v).map_err(|e| ("JSON".into(), e.to_string()))?;
        same(want.to_string().len(), t.len())?;
        same(&want, &serde_json::from_str::<Value>(&t).map_err(|e| ("JSON text".into(), e.to_string()))?)
    });
}
/// every position of a document
fn paths(v: &Value, at: String, o: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| paths(x, format!("{at}/{k}"), o)),
        Value::Object(m) => m.iter().for_each(|(k, x)| paths(x, format!("{at}/{k}"), o)),
        _ => {}
    }
    o.push(at);
}
fn spoil(r: &mut Rng, v: &mut Value) {
    let mut p = vec![];
    paths(v, String::new(), &mut p);
    let Some(x) = v.pointer_mut(&p[r.below(p.len() as u64) as usize]) else { return };
    match x {
        Value::String(s) if !r.chance(4) => { *s = alter(r, s); return }
        Value::Number(_) if r.chance(2) => { *x = [json!(0), json!(-1), json!(1.5), json!(256), json!(u64::MAX), json!(1u64 << 63), json!(i64::MIN), json!(1e30)][r.below(8) as usize].clone(); return }
        Value::Object(m) if !m.is_empty() && !r.chance(5) => {
            let k = m.keys().nth(r.below(m.len() as u64) as usize).unwrap().clone();
            match r.below(5) {
                0 | 1 => { m.remove(&k); }
                2 => { m.insert("extra".into(), json!(1)); }
                3 => { let x = m.remove(&k).unwrap(); m.insert(k.to_uppercase(), x); }
                _ => { let j = m.keys().nth(r.below(m.len() as u64) as usize).unwrap().clone(); let y = m[&j].clone(); m.insert(k, y); }
            }
            return;
        }
        Value::Array(a) if !a.is_empty() && !r.chance(5) => {
            let k = r.below(a.len() as u64) as usize;
            match r.below(3) { 0 => { a.remove(k); } 1 => { let y = a[k].clone(); a.push(y) } _ => { let l = a.len(); a.swap(k, l - 1) } }
            return;
        }
        _ => {}
    }
    *x = [Value::Null, json!(true), json!(5), json!(-1), json!(""), json!("x"), json!([]), json!({}), json!([1, 2]), json!("17"), json!({"type": "above", "policy": 3})][r.below(11) as usize].clone();
}
fn read<T: G + RJ + DeserializeOwned + PartialEq + Debug>(c: &mut Ctx, name: &str, r: &mut Rng) {
    let v = T::g(r);
    let doc = v.j();
    // a serde_json::Value gives a variant without fields a unit, which no derived reader takes
    let only_text = name == "v2::ContractResolution";
    c.case(&format!("read {name}"), doc.to_string(), || format!("{name} from {doc}"), || {
        let say = |e: serde_json::Error| (format!("{v:?}"), format!("error: {e}"));
        if !only_text { same(&v, &serde_json::from_value::<T>(doc.clone()).map_err(say)?)? }
        same(&v, &serde_json::from_str::<T>(&doc.to_string()).map_err(say)?)
    });
    for _ in 0..3 {
        let mut d = doc.clone();
        for _ in 0..=r.below(2) { spoil(r, &mut d) }
        let want = T::r(&d);
        c.case(&format!("read altered {name}"), d.to_string(), || format!("{name} from {d}"), || {
            if !only_text { same(&want, &serde_json::from_value::<T>(d.clone()).ok())? }
            same(&want, &serde_json::from_str::<T>(&d.to_string()).ok())
        });
    }
}
/// a key given twice is not a document of a derived type
fn twice<T: G + RJ + DeserializeOwned + PartialEq + Debug>(c: &mut Ctx, name: &str, r: &mut Rng) {
    let doc = T::g(r).j();
    let Value::Object(m) = &doc else { return };
    if m.is_empty() || ["SpendPolicy", "v2::FileContractResolution", "v2::ContractResolution"].contains(&name) { return }
    let (k, x) = m.iter().nth(r.below(m.len() as u64) as usize).unwrap();
    let t = doc.to_string();
    let t = format!("{},{}:{x}}}", &t[..t.len() - 1], Value::String(k.clone()));
    c.case(&format!("read {name} with a key twice"), &t, || format!("{name} from {t}"), || same(None, serde_json::from_str::<T>(&t).ok()));
}
pub fn c23(c: &mut Ctx) {
    let mut r = rng(c, "json write");
    r.long = true;
    for _ in 0..c.n(40) {
        macro_rules! all { ($($t:ty),*) => { $(if !c.time() { return; } write::<$t>(c, &name(stringify!($t)), &mut r);)* } }
        types!(all);
    }
}
pub fn c24(c: &mut Ctx) {
    let mut r = rng(c, "json read");
    for k in 0..c.n(25) {
        macro_rules! all { ($($t:ty),*) => { $(if !c.time() { return; } read::<$t>(c, &name(stringify!($t)), &mut r); if k % 4 == 0 { twice::<$t>(c, &name(stringify!($t)), &mut r) })* } }
        types!(all);
    }
}

use super::h256;
use crate::codec::*;
use crate::ctx::*;
use crate::rng::Rng;
use sia::consensus::{ChainState, Network};
use sia::types::v1::{CoveredFields, UnlockConditions, UnlockKey};
use sia::types::v2::{ContractResolution, SpendPolicy};
use sia::types::{v1, v2, *};

/// a chain state with arbitrary parameters
pub fn chain(r: &mut Rng) -> ChainState {
    let mut n = match r.below(3) { 0 => Network::mainnet(), 1 => Network::zen(), _ => Network::anagami() };
    let mut s = sia::consensus::State::g(r);
    if r.chance(2) {
        // few heights, so that they meet
        let b = r.u64();
        let mut p = |r: &mut Rng| if r.chance(4) { r.u64() } else { b.wrapping_add(r.below(5)) };
        n.hardfork_asic.height = p(r);
        n.hardfork_foundation.height = p(r);
        n.hardfork_v2.allow_height = p(r);
        n.hardfork_v2.require_height = p(r);
        n.hardfork_tax.height = p(r);
        n.hardfork_oak.height = p(r);
        n.hardfork_oak.fix_height = p(r);
        n.hardfork_storage_proof.height = p(r);
        n.hardfork_dev_addr.height = p(r);
        s.index.height = p(r).wrapping_sub(1);
    } else {
        let hs = [n.hardfork_asic.height, n.hardfork_foundation.height, n.hardfork_v2.allow_height, n.hardfork_v2.require_height, n.hardfork_tax.height, n.hardfork_oak.height];
        s.index.height = hs[r.below(6) as usize].wrapping_add(r.below(5)).wrapping_sub(2);
        if r.chance(4) { s.index.height = r.u64() }
    }
    ChainState { network: n, state: s }
}
pub fn show_chain(c: &ChainState) -> String {
    format!("height {}, hardforks: asic {}, foundation {}, v2 allow {} require {}", c.state.index.height, c.network.hardfork_asic.height,
        c.network.hardfork_foundation.height, c.network.hardfork_v2.allow_height, c.network.hardfork_v2.require_height)
}
pub fn prefix(c: &ChainState) -> Vec<u8> {
    let h = c.state.index.height;
    if c.network.hardfork_v2.allow_height <= h { vec![2] } else if c.network.hardfork_foundation.height <= h { vec![1] } else if c.network.hardfork_asic.height <= h { vec![0] } else { vec![] }
}
/// the v1 encoding without the signatures
fn no_sigs(t: &v1::Transaction) -> Vec<u8> {
    let mut o = vec![];
    t.siacoin_inputs.e1(&mut o);
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    t.siafund_inputs.e1(&mut o);
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o
}
fn idx(r: &mut Rng) -> usize {
    if r.chance(3) { r.below(6) as usize } else { r.u64() as usize }
}
fn le(i: usize) -> [u8; 8] {
    let mut o = vec![];
    eu64(i as u64, &mut o);
    o.try_into().unwrap()
}

pub fn c05(c: &mut Ctx) {
    let fam = "v1 transaction ids";
    let mut r = c.rng(fam);
    for k in 0..c.n(600) {
        if !c.time() { return; }
        let t = if k == 0 { v1::Transaction::default() } else { v1::Transaction::g(&mut r) };
        let b = no_sigs(&t);
        let i = idx(&mut r);
        c.case(fam, (&b, 0), || format!("{t:?}"), || same_bytes(&h256(&[&b]), idb(&t.id())));
        c.case(fam, (&b, 1), || format!("encode_no_sigs {t:?}"), || { let mut o = vec![]; t.encode_no_sigs(&mut o).unwrap(); same_bytes(&b, &o) });
        c.case(fam, (&b, 2), || format!("siacoin_output_id({i}) of {t:?}"), || same_bytes(&h256(&[&specifier_of(b"siacoin output"), &b, &le(i)]), idb(&t.siacoin_output_id(i))));
        c.case(fam, (&b, 3), || format!("siafund_output_id({i}) of {t:?}"), || same_bytes(&h256(&[&specifier_of(b"siafund output"), &b, &le(i)]), idb(&t.siafund_output_id(i))));
        c.case(fam, (&b, 4), || format!("file_contract_id({i}) of {t:?}"), || same_bytes(&h256(&[&specifier_of(b"file contract"), &b, &le(i)]), idb(&t.file_contract_id(i))));
        let mut u = t;
        u.signatures = G::g(&mut r);
        c.case(fam, (&b, 5), || format!("id of {u:?}"), || same_bytes(&h256(&[&b]), idb(&u.id())));
    }
}

fn whole(t: &v1::Transaction, cs: &ChainState, parent: &[u8], ki: u64, tl: u64) -> Vec<u8> {
    let p = prefix(cs);
    let mut o = vec![];
    eu64(t.siacoin_inputs.len() as u64, &mut o);
    for i in &t.siacoin_inputs { o.extend_from_slice(&p); i.e1(&mut o) }
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    eu64(t.siafund_inputs.len() as u64, &mut o);
    for i in &t.siafund_inputs { o.extend_from_slice(&p); i.e1(&mut o) }
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o.extend_from_slice(parent);
    eu64(ki, &mut o);
    eu64(tl, &mut o);
    o
}
fn partial(t: &v1::Transaction, cs: &ChainState, f: &CoveredFields) -> Option<Vec<u8>> {
    let p = prefix(cs);
    let mut o = vec![];
    for &i in &f.siacoin_inputs { o.extend_from_slice(&p); t.siacoin_inputs.get(i)?.e1(&mut o) }
    for &i in &f.siacoin_outputs { t.siacoin_outputs.get(i)?.e1(&mut o) }
    for &i in &f.file_contracts { t.file_contracts.get(i)?.e1(&mut o) }
    for &i in &f.file_contract_revisions { t.file_contract_revisions.get(i)?.e1(&mut o) }
    for &i in &f.storage_proofs { t.storage_proofs.get(i)?.e1(&mut o) }
    for &i in &f.siafund_inputs { o.extend_from_slice(&p); t.siafund_inputs.get(i)?.e1(&mut o) }
    for &i in &f.siafund_outputs { t.siafund_outputs.get(i)?.e1(&mut o) }
    for &i in &f.miner_fees { t.miner_fees.get(i)?.e1(&mut o) }
    for &i in &f.arbitrary_data { t.arbitrary_data.get(i)?.e1(&mut o) }
    for &i in &f.signatures { t.signatures.get(i)?.e1(&mut o) }
    Some(o)
}
/// covered fields that mostly exist
fn covered(r: &mut Rng, t: &v1::Transaction) -> CoveredFields {
    let bad = r.below(25);
    let mut k = 0;
    let mut f = |r: &mut Rng, n: usize| -> Vec<usize> {
        k += 1;
        let m = r.below(4);
        let mut v: Vec<usize> = (0..m).filter(|_| n > 0).map(|_| r.below(n as u64) as usize).collect();
        if bad == k { let x = if r.chance(2) { n } else { r.u64() as usize }; let at = r.below(v.len() as u64 + 1) as usize; v.insert(at, x) }
        v
    };
    CoveredFields {
        whole_transaction: false,
        siacoin_inputs: f(r, t.siacoin_inputs.len()),
        siacoin_outputs: f(r, t.siacoin_outputs.len()),
        file_contracts: f(r, t.file_contracts.len()),
        file_contract_revisions: f(r, t.file_contract_revisions.len()),
        storage_proofs: f(r, t.storage_proofs.len()),
        siafund_inputs: f(r, t.siafund_inputs.len()),
        siafund_outputs: f(r, t.siafund_outputs.len()),
        miner_fees: f(r, t.miner_fees.len()),
        arbitrary_data: f(r, t.arbitrary_data.len()),
        signatures: f(r, t.signatures.len()),
    }
}
pub fn c06(c: &mut Ctx) {
    let mut r = c.rng("v1 sighash");
    for _ in 0..c.n(900) {
        if !c.time() { return; }
        let t = v1::Transaction::g(&mut r);
        let cs = chain(&mut r);
        let (pid, ki, tl) = (Hash256::g(&mut r), r.u64(), r.u64());
        let b = whole(&t, &cs, idb(&pid), ki, tl);
        c.case("whole_sig_hash", &b, || format!("{}, parent {pid}, key {ki}, timelock {tl}, {t:?}", show_chain(&cs)), || match t.whole_sig_hash(&cs, &pid, ki, tl) {
            Ok(h) => same_bytes(&h256(&[&b]), idb(&h)),
            Err(e) => Err((hx(&h256(&[&b])), format!("{e:?}"))),
        });
        for _ in 0..3 {
            let f = covered(&mut r, &t);
            let want = partial(&t, &cs, &f);
            c.case("partial_sig_hash", (&b, format!("{f:?}")), || format!("{}, covered {f:?}, {t:?}", show_chain(&cs)), || match (t.partial_sig_hash(&cs, &f), &want) {
                (Ok(h), Some(b)) => same_bytes(&h256(&[b]), idb(&h)),
                (Err(_), None) => Ok(()),
                (Ok(h), None) => Err(("an error: a covered index is out of range".into(), h.to_string())),
                (Err(e), Some(b)) => Err((hx(&h256(&[b])), format!("{e:?}"))),
            });
        }
        let f: CoveredFields = G::g(&mut r);
        let want = partial(&t, &cs, &f);
        c.case("partial_sig_hash, arbitrary fields", (&b, format!("{f:?}")), || format!("{}, covered {f:?}, {t:?}", show_chain(&cs)), || match (t.partial_sig_hash(&cs, &f), &want) {
            (Ok(h), Some(b)) => same_bytes(&h256(&[b]), idb(&h)),
            (Err(_), None) => Ok(()),
            (Ok(h), None) => Err(("an error: a covered index is out of range".into(), h.to_string())),
            (Err(e), Some(b)) => Err((hx(&h256(&[b])), format!("{e:?}"))),
        });
    }
}

// ---- v2: what is signed, and what the id commits to
fn sem_att(a: &v2::Attestation, o: &mut Vec<u8>) {
    a.public_key.e(o);
    a.key.e(o);
    a.value.e(o);
    o.extend_from_slice(&[0; 64]);
}
fn sem_fc(f: &v2::FileContract, o: &mut Vec<u8>) {
    let n = o.len();
    f.e(o);
    let m = o.len();
    debug_assert!(m - n > 128);
    o.truncate(m - 128);
    o.extend_from_slice(&[0; 128]);
}
fn sem_ren(f: &v2::FileContractRenewal, o: &mut Vec<u8>) {
    sem_fc(&f.final_revision, o);
    sem_fc(&f.new_contract, o);
    f.renter_rollover.e(o);
    f.host_rollover.e(o);
    o.extend_from_slice(&[0; 128]);
}
fn sem_cie(e: &v2::ChainIndexElement, o: &mut Vec<u8>) {
    eu64(e.state_element.leaf_index, o);
    eu64(0, o);
    e.id.e(o);
    e.chain_index.e(o);
}
fn sem_txn(t: &v2::Transaction) -> Vec<u8> {
    let mut o = vec![];
    eu64(t.siacoin_inputs.len() as u64, &mut o);
    for i in &t.siacoin_inputs { i.parent.id.e(&mut o) }
    t.siacoin_outputs.e(&mut o);
    eu64(t.siafund_inputs.len() as u64, &mut o);
    for i in &t.siafund_inputs { i.parent.id.e(&mut o) }
    t.siafund_outputs.e(&mut o);
    eu64(t.file_contracts.len() as u64, &mut o);
    for f in &t.file_contracts { sem_fc(f, &mut o) }
    eu64(t.file_contract_revisions.len() as u64, &mut o);
    for f in &t.file_contract_revisions { f.parent.id.e(&mut o); sem_fc(&f.revision, &mut o) }
    eu64(t.file_contract_resolutions.len() as u64, &mut o);
    for f in &t.file_contract_resolutions {
        f.parent.id.e(&mut o);
        match &f.resolution {
            ContractResolution::Renewal(x) => sem_ren(x, &mut o),
            ContractResolution::StorageProof(p) => { sem_cie(&p.proof_index, &mut o); p.leaf.e(&mut o); p.proof.e(&mut o) }
            ContractResolution::Expiration() => {}
        }
    }
    t.attestations.e(&mut o);
    t.arbitrary_data.e(&mut o);
    t.new_foundation_address.e(&mut o);
    t.miner_fee.e(&mut o);
    o
}
pub fn c07(c: &mut Ctx) {
    let mut r = c.rng("v2 sighash");
    for k in 0..c.n(700) {
        if !c.time() { return; }
        let t = v2::Transaction::g(&mut r);
        let cs = chain(&mut r);
        let p = prefix(&cs);
        let b = sem_txn(&t);
        c.case("v2 transaction id", &b, || format!("{t:?}"), || same_bytes(&h256(&[b"sia/id/transaction|", &b]), idb(&t.id())));
        c.case("v2 input_sig_hash", (&b, &p), || format!("{}, {t:?}", show_chain(&cs)), || same_bytes(&h256(&[b"sia/sig/input|", &p, &b]), idb(&t.input_sig_hash(&cs))));
        let a = v2::Attestation::g(&mut r);
        let mut b = vec![];
        sem_att(&a, &mut b);
        c.case("attestation sig_hash", (&b, &p), || format!("{}, {a:?}", show_chain(&cs)), || same_bytes(&h256(&[b"sia/sig/attestation|", &p, &b]), idb(&a.sig_hash(&cs))));
        let f = v2::FileContract::g(&mut r);
        let mut b = vec![];
        sem_fc(&f, &mut b);
        c.case("file contract sig_hash", (&b, &p), || format!("{}, {f:?}", show_chain(&cs)), || same_bytes(&h256(&[b"sia/sig/filecontract|", &p, &b]), idb(&f.sig_hash(&cs))));
        let f = v2::FileContractRenewal::g(&mut r);
        let mut b = vec![];
        sem_ren(&f, &mut b);
        c.case("renewal sig_hash", (&b, &p), || format!("{}, {f:?}", show_chain(&cs)), || same_bytes(&h256(&[b"sia/sig/filecontractrenewal|", &p, &b]), idb(&f.sig_hash(&cs))));
        let e = v2::ChainIndexElement::g(&mut r);
        let mut b = vec![];
        sem_cie(&e, &mut b);
        c.case("chain index element", &b, || format!("{e:?}"), || { let mut o = vec![]; e.encode_semantics(&mut o).unwrap(); same_bytes(&b, &o) });
        // what is not committed to does not change the id
        if k % 4 == 0 {
            let want = idb(&t.id()).to_vec();
            let mut u = t;
            for i in &mut u.siacoin_inputs { i.satisfied_policy = G::g(&mut r); i.parent.state_element = G::g(&mut r); i.parent.maturity_height = r.u64(); i.parent.siacoin_output = G::g(&mut r) }
            for i in &mut u.siafund_inputs { i.satisfied_policy = G::g(&mut r); i.parent.state_element = G::g(&mut r) }
            for f in &mut u.file_contracts { f.renter_signature = G::g(&mut r); f.host_signature = G::g(&mut r) }
            for f in &mut u.file_contract_revisions { f.revision.host_signature = G::g(&mut r); f.parent.state_element = G::g(&mut r) }
            c.case("id ignores witnesses", &want, || format!("{u:?}"), || same_bytes(&want, idb(&u.id())));
        }
    }
}

pub fn c08(c: &mut Ctx) {
    let mut r = c.rng("derived ids");
    for _ in 0..c.n(1500) {
        let x: [u8; 32] = r.array();
        let i = idx(&mut r);
        let n = le(i);
        macro_rules! id { ($name:expr, $got:expr, $($p:expr),*) => {
            c.case($name, (x, i), || format!("{} of {}, index {i}", $name, hx(&x)), || same_bytes(&h256(&[$($p),*]), idb(&$got)));
        } }
        let sf = SiafundOutputID::new(x);
        id!("claim_output_id", sf.claim_output_id(), &x);
        id!("v2_claim_output_id", sf.v2_claim_output_id(), b"sia/id/v2siacoinclaimoutput|", &x);
        let b = BlockID::new(x);
        id!("foundation_output_id", b.foundation_output_id(), &x, &specifier_of(b"foundation"));
        id!("miner_output_id", b.miner_output_id(i), &x, &n);
        let t = TransactionID::new(x);
        id!("v2_siacoin_output_id", t.v2_siacoin_output_id(i), b"sia/id/siacoinoutput|", &x, &n);
        id!("v2_siafund_output_id", t.v2_siafund_output_id(i), b"sia/id/siafundoutput|", &x, &n);
        id!("v2_file_contract_id", t.v2_file_contract_id(i), b"sia/id/filecontract|", &x, &n);
        id!("v2_attestation_id", t.v2_attestation_id(i), b"sia/id/attestation|", &x, &n);
        let f = FileContractID::new(x);
        id!("valid_output_id", f.valid_output_id(i), &specifier_of(b"storage proof"), &x, &[1], &n);
        id!("missed_output_id", f.missed_output_id(i), &specifier_of(b"storage proof"), &x, &[0], &n);
        id!("v2_renter_output_id", f.v2_renter_output_id(), b"sia/id/v2filecontractoutput|", &x, &[0; 8]);
        id!("v2_host_output_id", f.v2_host_output_id(), b"sia/id/v2filecontractoutput|", &x, &[1, 0, 0, 0, 0, 0, 0, 0]);
        id!("v2_renewal_id", f.v2_renewal_id(), b"sia/id/v2filecontractrenewal|", &x);
    }
}

/// the root of an RFC 6962 tree
fn mroot(l: &[[u8; 32]]) -> [u8; 32] {
    match l.len() {
        0 => [0; 32],
        1 => l[0],
        n => {
            let mut k = 1;
            while k * 2 < n { k *= 2 }
            h256(&[&[1], &mroot(&l[..k]), &mroot(&l[k..])])
        }
    }
}
fn uc_address(u: &UnlockConditions) -> [u8; 32] {
    let mut l = vec![h256(&[&[0], &le(u.timelock as usize)])];
    for k in &u.public_keys { l.push(h256(&[&[0], &k.e1v()])) }
    l.push(h256(&[&[0], &le(u.signatures_required as usize)]));
    mroot(&l)
}
pub fn c09(c: &mut Ctx) {
    let mut r = c.rng("unlock conditions address");
    let sizes: Vec<usize> = (0..140).chain([200, 253, 254, 255, 256, 257, 510, 511, 512, 1022, 1023, 1024, 1025, 2046, 4094, 4095, 5000]).collect();
    for n in sizes {
        let u = UnlockConditions { timelock: r.u64(), public_keys: (0..n).map(|_| UnlockKey { algorithm: G::g(&mut r), key: r.array::<8>().to_vec() }).collect(), signatures_required: r.u64() };
        c.case("address by number of keys", n, || format!("{n} keys: {u:?}"), || same_bytes(&uc_address(&u), u.address().as_ref()));
    }
    for _ in 0..c.n(800) {
        if !c.time() { return; }
        let u = UnlockConditions::g(&mut r);
        c.case("unlock conditions address", u.e1v(), || format!("{u:?}"), || same_bytes(&uc_address(&u), u.address().as_ref()));
        let pk: [u8; 32] = r.array();
        c.case("standard unlock conditions", pk, || format!("standard_unlock_conditions({})", hx(&pk)), || {
            let s = UnlockConditions::standard_unlock_conditions(sia::signing::PublicKey::new(pk));
            let w = UnlockConditions { timelock: 0, public_keys: vec![UnlockKey { algorithm: Specifier::new(specifier_of(b"ed25519")), key: pk.to_vec() }], signatures_required: 1 };
            same(&w, &s)?;
            same_bytes(&uc_address(&w), s.address().as_ref())
        });
        let (t, n) = (r.u64(), r.u64());
        let keys: Vec<UnlockKey> = G::g(&mut r);
        c.case("unlock conditions new", (t, n), || format!("UnlockConditions::new({t}, {keys:?}, {n})"), || {
            let w = UnlockConditions { timelock: t, public_keys: keys.clone(), signatures_required: n };
            same(w, UnlockConditions::new(t, keys.clone(), n))
        });
    }
}
pub fn c10(c: &mut Ctx) {
    use sia::rhp::{sector_root, SECTOR_SIZE, SEGMENT_SIZE};
    fn reference(s: &[u8]) -> [u8; 32] {
        let l: Vec<[u8; 32]> = s.chunks(64).map(|x| h256(&[&[0], x])).collect();
        mroot(&l)
    }
    c.case("sizes", 0, || "the sizes".into(), || same((1usize << 22, 64usize), (SECTOR_SIZE, SEGMENT_SIZE)));
    let mut r = c.rng("sector root");
    let n = 1usize << 22;
    let zeros = vec![0u8; n];
    c.case("sector root", 0, || "the zero sector".into(), || same_bytes(&hex::decode("50ed59cecd5ed3ca9e65cec0797202091dbba45272dafa3faa4e27064eedd52c").unwrap(), idb(&sector_root(&zeros))));
    for k in 0..c.n(2) {
        if !c.time() { return; }
        let seed = r.next();
        let mut q = Rng::new(seed, "sector");
        let mut s = if k % 3 == 2 { vec![0u8; n] } else { let mut v = Vec::with_capacity(n); while v.len() < n { v.extend_from_slice(&q.next().to_le_bytes()) } v };
        if k % 3 == 2 { let p = q.below(n as u64) as usize; s[p] = 1; }
        c.case("sector root", seed, || format!("sector {k} of seed {seed}"), || same_bytes(&reference(&s), idb(&sector_root(&s))));
        // each byte matters
        for _ in 0..2 {
            let at = match q.below(3) { 0 => q.below(64) as usize, 1 => n - 1 - q.below(64) as usize, _ => q.below(n as u64) as usize };
            s[at] ^= 1 << q.below(8);
            c.case("sector root, one bit changed", (seed, at), || format!("sector {k} of seed {seed}, a bit of byte {at} changed"), || same_bytes(&reference(&s), idb(&sector_root(&s))));
        }
    }
}

fn pol_address(p: &SpendPolicy) -> [u8; 32] {
    match p {
        #[allow(deprecated)]
        SpendPolicy::UnlockConditions(u) => uc_address(u),
        SpendPolicy::Opaque(a) => a.as_ref().try_into().unwrap(),
        SpendPolicy::Threshold(n, v) => {
            let mut b = vec![1, 5, *n, v.len() as u8];
            for p in v { b.push(6); b.extend_from_slice(&pol_address(p)) }
            h256(&[b"sia/address|", &b])
        }
        p => h256(&[b"sia/address|", &p.e2v()]),
    }
}
/// some subpolicies replaced by their opaque form
fn opaque(r: &mut Rng, p: &SpendPolicy) -> SpendPolicy {
    match p {
        SpendPolicy::Threshold(n, v) => SpendPolicy::Threshold(*n, v.iter().map(|p| if r.chance(2) { SpendPolicy::Opaque(Address::new(pol_address(p))) } else { opaque(r, p) }).collect()),
        p => p.clone(),
    }
}
pub fn c12(c: &mut Ctx) {
    let mut r = c.rng("policy address");
    for _ in 0..c.n(4000) {
        if !c.time() { return; }
        let p = SpendPolicy::g(&mut r);
        let b = p.e2v();
        let want = pol_address(&p);
        c.case("policy address", &b, || format!("{p:?}"), || same_bytes(&want, p.address().as_ref()));
        let q = opaque(&mut r, &p);
        c.case("policy address of an opaque form", (&b, 1), || format!("{q:?}, a form of {p:?}"), || same_bytes(&want, q.address().as_ref()));
    }
    for n in 0..=255usize {
        let p = SpendPolicy::Threshold(n as u8, (0..n).map(|k| SpendPolicy::Above(k as u64)).collect());
        c.case("policy address by size", n, || format!("a threshold of {n} policies"), || same_bytes(&pol_address(&p), p.address().as_ref()));
    }
}

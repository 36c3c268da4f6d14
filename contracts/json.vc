@@# what a type is in JSON (the derived ones: layout_json.txt)
@@each types::common,Hash256 types::common,SiacoinOutputID types::common,AttestationID types::common,SiafundOutputID types::common,BlockID types::common,TransactionID types::common,FileContractID types::common,Address types::common,Leaf signing,PublicKey types::currency,Currency types::v1,UnlockKey types::work,Work: M,T
@@ impl {M}::<{T} as Serialize>
open spec fn jok(&self) -> bool { crate::shim_text::Display::text(self) is Some }
open spec fn json(&self) -> crate::shim_serde::J { crate::shim_serde::J::Str(crate::shim_text::Display::text(self)->0) }
@@done
@@ impl signing::<Signature as Serialize>
open spec fn jok(&self) -> bool { true }
open spec fn json(&self) -> crate::shim_serde::J { crate::shim_serde::J::Str(crate::spec::hex_text(self.0@)) }
@@ impl types::specifier::<Specifier as Serialize>
open spec fn jok(&self) -> bool { true }
open spec fn json(&self) -> crate::shim_serde::J { crate::shim_serde::J::Arr(Seq::new(16, |i: int| crate::shim_serde::J::Num(self.0@[i] as int))) }
@@ mod types::currency
/// Currency has no text of its own: its `to_string` is that of the u128 it derefs to
impl crate::shim_text::Display for Currency {
    open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::dec_text(self.0 as nat)) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut crate::shim_text::Formatter) -> crate::shim_text::Result { unimplemented!() }
}
@@ mod types::work
/// `construct_uint!` of the crate uint
impl crate::shim_text::Display for Work {
    open spec fn text(&self) -> Option<Seq<char>> { Some(crate::spec::dec_text(self.val())) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut crate::shim_text::Formatter) -> crate::shim_text::Result { unimplemented!() }
}
@@ fn types::utils::base64::serialize
    ensures res matches Ok(o) ==> o@ == crate::shim_serde::base64_json(v@), s.reliable() ==> res is Ok
@@ fn types::utils::nano_second_duration::serialize
    requires crate::shim_serde::nanos_ok(*v),
    ensures res matches Ok(o) ==> o@ == crate::shim_serde::nanos_json(*v), s.reliable() ==> res is Ok
@@ mod consensus
/// the roots of the trees that are there, the lowest first
pub open spec fn trees_json(n: u64, t: Seq<Hash256>, k: nat) -> Seq<crate::shim_serde::J>
    decreases k,
{ if k == 0 { seq![] } else { let r = trees_json(n, t, (k - 1) as nat); if tree_at(n, (k - 1) as nat) { r.push(t[k - 1].json()) } else { r } } }
@@ impl consensus::<ElementAccumulator as Serialize>
open spec fn jok(&self) -> bool { true }
open spec fn json(&self) -> crate::shim_serde::J {
    crate::shim_serde::J::Obj(crate::shim_serde::jempty().insert("numLeaves"@, self.num_leaves.json())
        .insert("trees"@, crate::shim_serde::J::Arr(trees_json(self.num_leaves, self.trees@, 64))))
}
@@ fn consensus::<ElementAccumulator as Serialize>::serialize
@loops 1
@loop 0
    invariant __i0 <= __n0, __n0 == 64, __s0@ == self.trees@,
        __a0@.len() <= __i0,
        crate::shim_serde::all_json(__a0@) =~= trees_json(self.num_leaves, self.trees@, __i0 as nat),
    decreases __n0 - __i0,
@@ fn types::utils::timestamp_array::serialize
    requires crate::shim_serde::times_ok(timestamps@),
    ensures res matches Ok(o) ==> o@ == crate::shim_serde::times_json(timestamps@), serializer.reliable() ==> res is Ok
@loops 1
@before 0
let ghost rel = seq.reliable();
@loop 0
    invariant __i0 <= __n0, __n0 == 11, __s0@ == timestamps@, crate::shim_serde::times_ok(timestamps@),
        seq.reliable() == serializer.reliable(), !seq.closed(),
        seq@ =~= Seq::new(__i0 as nat, |i: int| crate::shim_serde::J::Str(crate::shim_serde::rfc3339(timestamps@[i])->0)),
    decreases __n0 - __i0,
@body 0
proof { assert(crate::shim_serde::time_ok(timestamps@[__j0 as int])); }
@@ fn types::utils::vec_base64::serialize
    ensures res matches Ok(o) ==> o@ == crate::shim_serde::base64s_json(v@), serializer.reliable() ==> res is Ok
@loops 1
@loop 0
    invariant __i0 <= __n0, __n0 == __s0@.len(), __s0@ == v@, crate::shim_serde::b64_texts(__a0, v@, __i0 as int),
    decreases __n0 - __i0,
@after 0
proof {
    assert(crate::shim_serde::all_json(__a0@) =~= Seq::new(v@.len(), |i: int| crate::shim_serde::J::Str(crate::shim_serde::b64(v@[i]@))));
}
@@ impl types::v2::<ContractResolution as Serialize>
open spec fn jok(&self) -> bool { match self { ContractResolution::Renewal(r) => r.jok(), ContractResolution::StorageProof(r) => r.jok(), ContractResolution::Expiration() => true } }
open spec fn json(&self) -> crate::shim_serde::J {
    crate::shim_serde::J::Obj(match self {
        ContractResolution::Renewal(r) => crate::shim_serde::jempty().insert("renewal"@, r.json()),
        ContractResolution::StorageProof(r) => crate::shim_serde::jempty().insert("storageProof"@, r.json()),
        ContractResolution::Expiration() => crate::shim_serde::jempty().insert("expiration"@, crate::shim_serde::J::Arr(seq![])),
    })
}
@@ impl types::v2::<FileContractResolution as Serialize>
open spec fn jok(&self) -> bool { self.parent.jok() && self.resolution.jok() }
open spec fn json(&self) -> crate::shim_serde::J {
    crate::shim_serde::J::Obj(match self.resolution {
        ContractResolution::Renewal(r) => crate::shim_serde::jempty().insert("parent"@, self.parent.json()).insert("type"@, crate::shim_serde::J::Str("renewal"@)).insert("resolution"@, r.json()),
        ContractResolution::StorageProof(r) => crate::shim_serde::jempty().insert("parent"@, self.parent.json()).insert("type"@, crate::shim_serde::J::Str("storageProof"@)).insert("resolution"@, r.json()),
        ContractResolution::Expiration() => crate::shim_serde::jempty().insert("parent"@, self.parent.json()).insert("type"@, crate::shim_serde::J::Str("expiration"@)).insert("resolution"@, crate::shim_serde::J::Obj(crate::shim_serde::jempty())),
    })
}
@@ mod types::spendpolicy
pub open spec fn pol_obj(t: crate::shim_serde::J, v: crate::shim_serde::J) -> crate::shim_serde::J {
    crate::shim_serde::J::Obj(crate::shim_serde::jempty().insert("type"@, t).insert("policy"@, v))
}
pub open spec fn pol_name(p: SpendPolicy) -> Seq<char> {
    match p {
        SpendPolicy::Above(_) => "above"@,
        SpendPolicy::After(_) => "after"@,
        SpendPolicy::PublicKey(_) => "pk"@,
        SpendPolicy::Hash(_) => "h"@,
        SpendPolicy::Threshold(..) => "thresh"@,
        SpendPolicy::Opaque(_) => "opaque"@,
        SpendPolicy::UnlockConditions(_) => "uc"@,
    }
}
pub open spec fn pol_jok(p: SpendPolicy) -> bool
    decreases p,
{
    match p {
        SpendPolicy::Threshold(n, ps) => pols_jok(ps, ps@.len()),
        SpendPolicy::UnlockConditions(uc) => uc.jok(),
        _ => true,
    }
}
pub open spec fn pols_jok(v: Vec<SpendPolicy>, n: nat) -> bool
    decreases v, n,
{ if n == 0 || n > v@.len() { true } else { pols_jok(v, (n - 1) as nat) && pol_jok(v@[n - 1]) } }
pub open spec fn pol_json(p: SpendPolicy) -> crate::shim_serde::J
    decreases p,
{
    pol_obj(crate::shim_serde::J::Str(pol_name(p)), match p {
        SpendPolicy::Above(h) => crate::shim_serde::J::Num(h as int),
        SpendPolicy::After(t) => crate::shim_serde::J::Num(t.secs() as u64 as int),
        SpendPolicy::PublicKey(pk) => pk.json(),
        SpendPolicy::Hash(h) => h.json(),
        SpendPolicy::Threshold(n, ps) => crate::shim_serde::J::Obj(crate::shim_serde::jempty().insert("n"@, crate::shim_serde::J::Num(n as int)).insert("of"@, crate::shim_serde::J::Arr(pols_json(ps, ps@.len())))),
        SpendPolicy::Opaque(a) => a.json(),
        SpendPolicy::UnlockConditions(uc) => uc.json(),
    })
}
pub open spec fn pols_json(v: Vec<SpendPolicy>, n: nat) -> Seq<crate::shim_serde::J>
    decreases v, n,
{ if n == 0 || n > v@.len() { seq![] } else { pols_json(v, (n - 1) as nat).push(pol_json(v@[n - 1])) } }
pub proof fn lemma_pols_json(v: Vec<SpendPolicy>, n: nat)
    requires n <= v@.len(),
    ensures
        pols_json(v, n) =~= Seq::new(n, |i: int| v@[i].json()),
        pols_jok(v, n) ==> forall|i: int| 0 <= i < n ==> (#[trigger] v@[i]).jok(),
    decreases n,
{ if n > 0 { lemma_pols_json(v, (n - 1) as nat); } }
@@ impl types::spendpolicy::<SpendPolicy as Serialize>
open spec fn jok(&self) -> bool { pol_jok(*self) }
open spec fn json(&self) -> crate::shim_serde::J { pol_json(*self) }
@@ fn types::spendpolicy::<SpendPolicy as Serialize>::serialize
    requires pol_jok(*self),
    ensures res matches Ok(o) ==> o@ == pol_json(*self), serializer.reliable() ==> res is Ok,
@attr //apart
@start
proof {
    if let SpendPolicy::Threshold(n, ps) = self {
        lemma_pols_json(*ps, ps@.len());
        assert(pols_json(*ps, ps@.len()) =~= crate::shim_serde::all_json(ps@));
    }
}
@@ fn types::spendpolicy::SpendPolicy::type_str
    ensures res@ == pol_name(*self)
@@ fn types::specifier::<Specifier as Serialize>::serialize
@start
proof { assert(crate::shim_serde::all_json(self.0@) =~= Seq::new(16, |i: int| crate::shim_serde::J::Num(self.0@[i] as int))); }

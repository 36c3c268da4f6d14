@@# what a JSON document is read as (the derived types: layout_json.txt)
@@each Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID: T
@@ impl types::common::<{T} as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match crate::shim_serde::text(d) {
        Some(s) => match crate::spec::unhex(id_part(s)) {
            Some(b) => if b.len() == 32 { Some({T}(crate::spec::array_from(b))) } else { None },
            None => None,
        },
        _ => None,
    }
}
@@done
@@ impl types::common::<Address as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match crate::shim_serde::text(d) {
        Some(s) => match crate::spec::unhex(crate::spec::str_bytes(s)) {
            Some(b) => if b.len() == 38 && b.skip(32) == crate::spec::h256(b.take(32)).take(6) { Some(Address(crate::spec::array_from(b.take(32)))) } else { None },
            None => None,
        },
        _ => None,
    }
}
@@each types::common,Leaf signing,Signature: M,T
@@ impl {M}::<{T} as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match crate::shim_serde::text(d) {
        Some(s) => match crate::spec::unhex(crate::spec::str_bytes(s)) {
            Some(b) => if b.len() == 64 { Some({T}(crate::spec::array_from(b))) } else { None },
            None => None,
        },
        _ => None,
    }
}
@@ fn {M}::<{T} as Deserialize>::deserialize
@start
broadcast use crate::stdspec::ax_str_len;
@@done
@@ impl signing::<PublicKey as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match crate::shim_serde::text(d) {
        Some(s) => {
            let p = "ed25519:"@;
            if p.is_prefix_of(s) {
                match crate::spec::unhex(crate::spec::str_bytes(s.skip(p.len() as int))) {
                    Some(b) => if b.len() == 32 { Some(PublicKey(crate::spec::array_from(b))) } else { None },
                    None => None,
                }
            } else { None }
        }
        _ => None,
    }
}
@@ impl types::v1::<UnlockKey as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match crate::shim_serde::text(d) {
        Some(s) => match crate::spec::split_once(s, ':') {
            None => None,
            Some((a, k)) => match crate::spec::unhex(crate::spec::str_bytes(k)) {
                None => None,
                Some(b) => Some(UnlockKey { algorithm: crate::types::Specifier(crate::spec::array_from(crate::types::specifier::spec_pad(crate::spec::str_bytes(a)))), key: crate::spec::vec_from(b) }),
            },
        },
        _ => None,
    }
}
@@ impl types::specifier::<Specifier as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match <[u8; 16] as crate::shim_serde::Deserialize>::de(d) { Some(b) => Some(Specifier(b)), None => None }
}
@@ impl types::currency::<Currency as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match d {
        crate::shim_serde::J::Str(s) => match denotes(s) { Some(n) => if n <= u128::MAX { Some(Currency(n as u128)) } else { None }, None => None },
        crate::shim_serde::J::Num(n) => if 0 <= n { Some(Currency(n as u128)) } else { None },
        _ => None,
    }
}
@@ impl types::work::<Work as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> { match crate::shim_serde::text(d) { Some(s) => crate::shim_serde::work_de(s), _ => None } }
@@ fn types::utils::base64::deserialize
    ensures d.sound() ==> crate::shim_serde::res_is(res, crate::shim_serde::base64_de(d@))
@@ fn types::utils::nano_second_duration::deserialize
    ensures d.sound() ==> crate::shim_serde::res_is(res, crate::shim_serde::nanos_de(d@))
@@ fn types::utils::timestamp_array::deserialize
    ensures deserializer.sound() ==> crate::shim_serde::res_is(res, crate::shim_serde::times_de(deserializer@))
@loops 1
@loop 0
    invariant
        deserializer.sound() ==> deserializer@ is Arr && seq.sound() && ({
            let a = deserializer@->Arr_0;
            let n = idx as int;
            &&& n <= 11 && n <= a.len()
            &&& seq@ =~= a.skip(n)
            &&& forall|i: int| 0 <= i < n ==> crate::shim_serde::time_de(#[trigger] a[i]) == Some(timestamps@[i])
            &&& forall|i: int| n <= i < 11 ==> #[trigger] timestamps@[i] == crate::shim_time::odt_from(0)
            &&& __go || seq@.len() == 0
        }),
    decreases seq.left() + (if __go { 1nat } else { 0nat }),
@after 0
proof {
    if deserializer.sound() {
        let a = deserializer@->Arr_0;
        assert(timestamps@ =~= Seq::new(11, |i: int| if i < a.len() { crate::shim_serde::time_de(a[i])->0 } else { crate::shim_time::odt_from(0) }));
    }
}
@@ fn types::utils::vec_base64::deserialize
    ensures deserializer.sound() ==> crate::shim_serde::res_is(res, crate::shim_serde::base64s_de(deserializer@))
@loops 1
@start
proof { if Vec::<String>::de(deserializer@) is None { crate::shim_serde::lemma_base64s_shape(deserializer@); } }
@loop 0
    invariant __k <= __src@.len(), crate::shim_serde::b64_read(__out, __src, __k as int),
        deserializer.sound() ==> Vec::<String>::de(deserializer@) == Some(__src),
    decreases __src@.len() - __k,
@body 0
proof {
    if deserializer.sound() && crate::shim_serde::unb64(crate::spec::str_bytes(__src@[__k as int]@)) is None {
        crate::shim_serde::lemma_base64s_not(deserializer@, __src, __k as int);
    }
}
@after 0
proof { if deserializer.sound() { crate::shim_serde::lemma_base64s(deserializer@->Arr_0, __src, __out); } }
@@ mod consensus
/// the trees of a list, each where one stands; none is zero
pub open spec fn trees_put(n: u64, t: Seq<Hash256>, k: nat) -> Seq<Hash256>
    decreases k,
{
    if k == 0 { seq![] } else {
        let r = trees_put(n, t, (k - 1) as nat);
        if tree_at(n, (k - 1) as nat) { r.push(t[crate::shim_serde::ones(n, (k - 1) as nat) as int]) } else { r.push(crate::lemmas_merkle::zero_hash()) }
    }
}
@@ type consensus::InterElementAccumulator
@@ impl consensus::<InterElementAccumulator as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match d {
        crate::shim_serde::J::Obj(m) => match crate::shim_serde::req(m, "numLeaves"@) {
            Some(num_leaves) => match crate::shim_serde::req(m, "trees"@) { Some(trees) => Some(InterElementAccumulator { num_leaves, trees }), None => None },
            None => None,
        },
        crate::shim_serde::J::Arr(a) => if a.len() > 2 { None } else {
            match crate::shim_serde::el(a, 0) {
                Some(num_leaves) => match crate::shim_serde::el(a, 1) { Some(trees) => Some(InterElementAccumulator { num_leaves, trees }), None => None },
                None => None,
            }
        },
        _ => None,
    }
}
@@ impl consensus::<ElementAccumulator as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match <InterElementAccumulator as crate::shim_serde::Deserialize>::de(d) {
        Some(i) => if i.trees@.len() == crate::shim_serde::ones(i.num_leaves, 64) {
            Some(ElementAccumulator { num_leaves: i.num_leaves, trees: crate::spec::array_from(trees_put(i.num_leaves, i.trees@, 64)) })
        } else { None },
        None => None,
    }
}
@@ fn consensus::<ElementAccumulator as Deserialize>::deserialize
@loops 1
@before 0
let ghost ts = trees_iter@;
@loop 0
    invariant 0 <= __i0 <= __n0, __n0 == 64, ts == inter.trees@, ts.len() == crate::shim_serde::ones(inter.num_leaves, 64),
        ea.num_leaves == inter.num_leaves,
        crate::shim_serde::ones(ea.num_leaves, __i0 as nat) <= ts.len(),
        trees_iter@ =~= ts.skip(crate::shim_serde::ones(ea.num_leaves, __i0 as nat) as int),
        ea.trees@.take(__i0 as int) =~= trees_put(ea.num_leaves, ts, __i0 as nat),
        forall|k: int| __i0 <= k < 64 ==> #[trigger] ea.trees@[k] == crate::lemmas_merkle::zero_hash(),
    decreases __n0 - __i0,
@body 0
let ghost old_trees = ea.trees@;
proof { crate::shim_serde::lemma_ones(ea.num_leaves, __j0 as nat, 64); crate::shim_serde::lemma_ones(ea.num_leaves, (__j0 + 1) as nat, 64); }
@bodyend 0
proof { assert(ea.trees@.take(__j0 + 1) =~= ea.trees@.take(__j0 as int).push(ea.trees@[__j0 as int])); assert(ea.trees@.take(__j0 as int) =~= old_trees.take(__j0 as int)); }
@after 0
proof { assert(ea.trees@.take(64) =~= ea.trees@); }
@@ mod types::v2
pub open spec fn resolution_key(k: Seq<char>) -> bool { k == "parent"@ || k == "type"@ || k == "resolution"@ }
/// how a contract ended, by the name of its kind
pub open spec fn resolution_de(t: Seq<char>, d: crate::shim_serde::J) -> Option<ContractResolution> {
    if t == "renewal"@ {
        match crate::shim_serde::dev::<FileContractRenewal>(d) { Some(r) => Some(ContractResolution::Renewal(r)), None => None }
    } else if t == "storageProof"@ {
        match crate::shim_serde::dev::<StorageProof>(d) { Some(r) => Some(ContractResolution::StorageProof(r)), None => None }
    } else if t == "expiration"@ { Some(ContractResolution::Expiration()) }
    else { None }
}
@@ impl types::v2::<FileContractResolution as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match d {
        crate::shim_serde::J::Obj(m) => if forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> resolution_key(k) {
            if m.contains_key("parent"@) && m.contains_key("type"@) && m.contains_key("resolution"@) {
                match (crate::shim_serde::dev::<FileContractElement>(m["parent"@]), crate::shim_serde::dev::<String>(m["type"@])) {
                    (Some(parent), Some(t)) => match resolution_de(t@, m["resolution"@]) { Some(resolution) => Some(FileContractResolution { parent, resolution }), None => None },
                    _ => None,
                }
            } else { None }
        } else { None },
        _ => None,
    }
}
@@ fn types::v2::<FileContractResolution as Deserialize>::deserialize
@light
@attr #[verifier::loop_isolation(true)]
@loops 1
@start
proof {
    reveal_strlit("parent"); reveal_strlit("type"); reveal_strlit("resolution");
    reveal_strlit("renewal"); reveal_strlit("storageProof"); reveal_strlit("expiration");
    assert("renewal"@.len() != "storageProof"@.len() && "renewal"@.len() != "expiration"@.len() && "storageProof"@.len() != "expiration"@.len());
    assert forall|d: crate::shim_serde::J| #[trigger] crate::shim_serde::dev::<crate::shim_serde::Value>(d) is Some by { crate::shim_serde::lemma_dev_value(d); }
    assert("parent"@.len() != "type"@.len() && "parent"@.len() != "resolution"@.len() && "type"@.len() != "resolution"@.len());
}
@before 0
let ghost m = map@;
@loop 0
    invariant
        forall|d: crate::shim_serde::J| #[trigger] crate::shim_serde::dev::<crate::shim_serde::Value>(d) is Some,
        "parent"@ != "type"@, "parent"@ != "resolution"@, "type"@ != "resolution"@, "parent"@ =~= seq!['p', 'a', 'r', 'e', 'n', 't'], "type"@ =~= seq!['t', 'y', 'p', 'e'], "resolution"@ =~= seq!['r', 'e', 's', 'o', 'l', 'u', 't', 'i', 'o', 'n'],
        deserializer.sound() ==> map.sound() && deserializer@ == crate::shim_serde::J::Obj(m)
            && (forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> map@.contains_key(k) || resolution_key(k))
            && (forall|k: Seq<char>| #[trigger] map@.contains_key(k) ==> m.contains_key(k))
            && crate::shim_serde::got(m, map@, "parent"@, parent)
            && crate::shim_serde::got(m, map@, "type"@, resolution_type)
            && crate::shim_serde::got(m, map@, "resolution"@, resolution_value)
            && (__go || map@ =~= crate::shim_serde::jempty()),
    decreases map.left() + (if __go { 1nat } else { 0nat }),
@after 0
proof {
    assert("renewal"@ =~= seq!['r', 'e', 'n', 'e', 'w', 'a', 'l']); assert("storageProof"@ =~= seq!['s', 't', 'o', 'r', 'a', 'g', 'e', 'P', 'r', 'o', 'o', 'f']); assert("expiration"@ =~= seq!['e', 'x', 'p', 'i', 'r', 'a', 't', 'i', 'o', 'n']);
    assert(!map@.contains_key("parent"@) && !map@.contains_key("type"@) && !map@.contains_key("resolution"@) || !deserializer.sound());
    crate::shim_serde::lemma_dev_value(m["resolution"@]);
}
@@ mod types::spendpolicy
pub open spec fn policy_key(k: Seq<char>) -> bool { k == "type"@ || k == "policy"@ }
/// the kinds of policy that hold no other
pub open spec fn leaf_de(t: Seq<char>, v: crate::shim_serde::J) -> Option<SpendPolicy> {
    if t == "above"@ { match crate::shim_serde::dev::<u64>(v) { Some(x) => Some(SpendPolicy::Above(x)), None => None } }
    else if t == "after"@ {
        match crate::shim_serde::dev::<u64>(v) {
            Some(x) => if crate::shim_time::odt_ok((x as i64) as int) { Some(SpendPolicy::After(crate::shim_time::odt_from((x as i64) as int))) } else { None },
            None => None,
        }
    }
    else if t == "pk"@ { match crate::shim_serde::dev::<PublicKey>(v) { Some(x) => Some(SpendPolicy::PublicKey(x)), None => None } }
    else if t == "h"@ { match crate::shim_serde::dev::<Hash256>(v) { Some(x) => Some(SpendPolicy::Hash(x)), None => None } }
    else if t == "opaque"@ { match crate::shim_serde::dev::<Address>(v) { Some(x) => Some(SpendPolicy::Opaque(x)), None => None } }
    else if t == "uc"@ { match crate::shim_serde::dev::<UnlockConditions>(v) { Some(x) => Some(SpendPolicy::UnlockConditions(x)), None => None } }
    else { None }
}
/// what a document denotes as a spend policy
pub open spec fn pol_de(d: crate::shim_serde::J) -> Option<SpendPolicy>
    decreases d,
{
    match d {
        crate::shim_serde::J::Obj(m) => if (forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> policy_key(k)) && m.contains_key("type"@) && m.contains_key("policy"@) {
            match crate::shim_serde::dev::<String>(m["type"@]) {
                None => None,
                Some(t) => if t@ == "thresh"@ {
                    match thresh_de(m["policy"@]) { Some((n, of)) => Some(SpendPolicy::Threshold(n, of)), None => None }
                } else { leaf_de(t@, m["policy"@]) },
            }
        } else { None },
        _ => None,
    }
}
pub open spec fn thresh_de(v: crate::shim_serde::J) -> Option<(u8, Vec<SpendPolicy>)>
    decreases v,
{
    match v {
        crate::shim_serde::J::Obj(m) => if m.contains_key("n"@) && m.contains_key("of"@) { thresh_parts(m["n"@], m["of"@]) } else { None },
        crate::shim_serde::J::Arr(a) => if a.len() == 2 { thresh_parts(a[0], a[1]) } else { None },
        _ => None,
    }
}
pub open spec fn thresh_parts(n: crate::shim_serde::J, of: crate::shim_serde::J) -> Option<(u8, Vec<SpendPolicy>)>
    decreases of,
{
    match of {
        crate::shim_serde::J::Arr(a) => if a.len() <= usize::MAX {
            match (crate::shim_serde::dev::<u8>(n), pols_de(a, a.len())) {
                (Some(n), Some(of)) => Some((n, crate::spec::vec_from(of))),
                _ => None,
            }
        } else { None },
        _ => None,
    }
}
/// the first `k`
pub open spec fn pols_de(a: Seq<crate::shim_serde::J>, k: nat) -> Option<Seq<SpendPolicy>>
    decreases a, k,
{
    if k == 0 || k > a.len() { Some(seq![]) } else {
        match (pols_de(a, (k - 1) as nat), pol_de(a[k - 1])) { (Some(s), Some(p)) => Some(s.push(p)), _ => None }
    }
}
pub proof fn lemma_pols_de(a: Seq<crate::shim_serde::J>, k: nat)
    requires k <= a.len(),
    ensures match pols_de(a, k) {
        Some(s) => s.len() == k && forall|i: int| 0 <= i < k ==> pol_de(#[trigger] a[i]) == Some(s[i]),
        None => exists|i: int| 0 <= i < k && pol_de(#[trigger] a[i]) is None,
    },
    decreases k,
{ if k > 0 { lemma_pols_de(a, (k - 1) as nat); } }
pub proof fn lemma_thresh_of(d: crate::shim_serde::J)
    ensures <Vec<SpendPolicy> as crate::shim_serde::Deserialize>::de(d) == (match d {
        crate::shim_serde::J::Arr(a) => if a.len() <= usize::MAX { match pols_de(a, a.len()) { Some(s) => Some(crate::spec::vec_from(s)), None => None } } else { None },
        _ => None,
    }),
{
    if let crate::shim_serde::J::Arr(a) = d {
        lemma_pols_de(a, a.len());
        if let Some(s) = pols_de(a, a.len()) { assert(crate::shim_serde::seq_de::<SpendPolicy>(a) =~= s); }
    }
}
pub proof fn lemma_thresh(d: crate::shim_serde::J)
    ensures crate::shim_serde::dev::<ThreshPolicy>(d) == (match thresh_de(d) { Some((n, of)) => Some(ThreshPolicy { n, of }), None => None }),
{
    reveal(crate::shim_serde::dev);
    match d {
        crate::shim_serde::J::Obj(m) => { if m.contains_key("of"@) { lemma_thresh_of(m["of"@]); } }
        crate::shim_serde::J::Arr(a) => { if a.len() == 2 { lemma_thresh_of(a[1]); } }
        _ => {}
    }
}
@@ impl types::spendpolicy::<ThreshPolicy as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> {
    match d {
        crate::shim_serde::J::Obj(m) => match crate::shim_serde::req(m, "n"@) {
            Some(n) => match crate::shim_serde::req(m, "of"@) { Some(of) => Some(ThreshPolicy { n, of }), None => None },
            None => None,
        },
        crate::shim_serde::J::Arr(a) => if a.len() > 2 { None } else {
            match crate::shim_serde::el(a, 0) {
                Some(n) => match crate::shim_serde::el(a, 1) { Some(of) => Some(ThreshPolicy { n, of }), None => None },
                None => None,
            }
        },
        _ => None,
    }
}
@@ impl types::spendpolicy::<SpendPolicy as Deserialize>
open spec fn absent() -> Option<Self> { None }
open spec fn de(d: crate::shim_serde::J) -> Option<Self> { pol_de(d) }
@@ fn types::spendpolicy::<SpendPolicy as Deserialize>::deserialize
    ensures deserializer.sound() ==> crate::shim_serde::res_is(res, pol_de(deserializer@))
@attr //apart
@light
@attr #[verifier::loop_isolation(true)]
@loops 1
@start
proof {
    reveal_strlit("type"); reveal_strlit("policy"); reveal_strlit("above"); reveal_strlit("after"); reveal_strlit("pk"); reveal_strlit("h"); reveal_strlit("thresh"); reveal_strlit("opaque"); reveal_strlit("uc");
    assert("type"@.len() != "policy"@.len());
    assert("above"@.len() == 5 && "after"@.len() == 5 && "pk"@.len() == 2 && "h"@.len() == 1 && "thresh"@.len() == 6 && "opaque"@.len() == 6 && "uc"@.len() == 2);
    assert("above"@[1] == 'b' && "after"@[1] == 'f' && "pk"@[0] == 'p' && "uc"@[0] == 'u' && "thresh"@[0] == 't' && "opaque"@[0] == 'o');
    assert forall|d: crate::shim_serde::J| #[trigger] crate::shim_serde::dev::<crate::shim_serde::Value>(d) is Some by { crate::shim_serde::lemma_dev_value(d); }
}
@before 0
let ghost m = map@;
@loop 0
    invariant
        forall|d: crate::shim_serde::J| #[trigger] crate::shim_serde::dev::<crate::shim_serde::Value>(d) is Some,
        "type"@ != "policy"@, "type"@ =~= seq!['t', 'y', 'p', 'e'], "policy"@ =~= seq!['p', 'o', 'l', 'i', 'c', 'y'],
        deserializer.sound() ==> map.sound() && deserializer@ == crate::shim_serde::J::Obj(m)
            && (forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> map@.contains_key(k) || policy_key(k))
            && (forall|k: Seq<char>| #[trigger] map@.contains_key(k) ==> m.contains_key(k))
            && crate::shim_serde::got(m, map@, "type"@, policy_type)
            && crate::shim_serde::got(m, map@, "policy"@, policy_value)
            && (__go || map@ =~= crate::shim_serde::jempty()),
    decreases map.left() + (if __go { 1nat } else { 0nat }),
@after 0
proof {
    assert("above"@ =~= seq!['a', 'b', 'o', 'v', 'e']); assert("after"@ =~= seq!['a', 'f', 't', 'e', 'r']); assert("pk"@ =~= seq!['p', 'k']); assert("h"@ =~= seq!['h']);
    assert("thresh"@ =~= seq!['t', 'h', 'r', 'e', 's', 'h']); assert("opaque"@ =~= seq!['o', 'p', 'a', 'q', 'u', 'e']); assert("uc"@ =~= seq!['u', 'c']);
    assert(!map@.contains_key("type"@) && !map@.contains_key("policy"@) || !deserializer.sound());
    crate::shim_serde::lemma_dev_value(m["policy"@]);
    lemma_thresh(m["policy"@]);
    assert forall|s: Seq<char>| #[trigger] s.len() == 1 && s[0] == 'h' implies s == "h"@ by { assert(s =~= "h"@); }
}

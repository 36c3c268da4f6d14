@@ fn types::spendpolicy::SpendPolicy::above
    ensures res == SpendPolicy::Above(height)
@@ fn types::spendpolicy::SpendPolicy::after
    ensures res == SpendPolicy::After(timestamp)
@@ fn types::spendpolicy::SpendPolicy::public_key
    ensures res == SpendPolicy::PublicKey(pk)
@@ fn types::spendpolicy::SpendPolicy::hash
    ensures res == SpendPolicy::Hash(hash)
@@ fn types::spendpolicy::SpendPolicy::unlock_conditions
    ensures res == SpendPolicy::UnlockConditions(uc)
@@ fn types::spendpolicy::SpendPolicy::threshold
    requires forall|i: int| 0 <= i < policies@.len() ==> !(policies@[i] is UnlockConditions)
    ensures res == SpendPolicy::Threshold(n, policies)
@loops 1
@loop 0
    invariant
        __i0 <= __n0, __n0 == policies@.len(), __s0@ == policies@,
        forall|i: int| 0 <= i < policies@.len() ==> !(policies@[i] is UnlockConditions),
    decreases __n0 - __i0,
@@ fn types::v1::<CoveredFields as Default>::default
    ensures !res.whole_transaction, res.siacoin_inputs@.len() == 0, res.siacoin_outputs@.len() == 0, res.file_contracts@.len() == 0,
        res.file_contract_revisions@.len() == 0, res.storage_proofs@.len() == 0, res.siafund_inputs@.len() == 0,
        res.siafund_outputs@.len() == 0, res.miner_fees@.len() == 0, res.arbitrary_data@.len() == 0, res.signatures@.len() == 0,
@@ fn types::v1::CoveredFields::whole_transaction
    ensures res.whole_transaction, res.siacoin_inputs@.len() == 0, res.siacoin_outputs@.len() == 0, res.file_contracts@.len() == 0,
        res.file_contract_revisions@.len() == 0, res.storage_proofs@.len() == 0, res.siafund_inputs@.len() == 0,
        res.siafund_outputs@.len() == 0, res.miner_fees@.len() == 0, res.arbitrary_data@.len() == 0, res.signatures@.len() == 0,
@@ fn types::work::<Work as From<&[u8;32]>>::from
    ensures res.val() == crate::spec::unbe(bytes@)
@@ fn types::currency::<Currency as DerefMut>::deref_mut
    ensures *res == old(self).0, final(self).0 == *final(res)
@@ fn consensus::<ElementAccumulator as Default>::default
    ensures res.num_leaves == 0, forall|i: int| 0 <= i < 64 ==> res.trees@[i].0@ =~= Seq::new(32, |k: int| 0u8)
@@ mod types::work
impl vstd::std_specs::convert::FromSpecImpl<&[u8; 32]> for Work {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: &[u8; 32]) -> Work { crate::lemmas_types::work_from(crate::spec::unbe(b@)) }
}
@@ mod types::currency
use vstd::std_specs::iter::IteratorSpec;
/// the sum of amounts
pub open spec fn total(s: Seq<Currency>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0].0 as int + total(s.drop_first()) } }
pub broadcast proof fn lemma_total(s: Seq<Currency>) ensures #[trigger] total(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_total(s.drop_first()); } }
@@ fn types::currency::<Currency as Sum>::sum
    requires iter.obeys_prophetic_iter_laws(), iter.decrease() is Some, total(iter.remaining()) <= u128::MAX,
    ensures res.0 == total(iter.remaining())
@attr #[verifier::loop_isolation(true)]
@loops 1
@loop 0
    invariant __it0.obeys_prophetic_iter_laws(), __it0.decrease() is Some, __a0.0 + total(__it0.remaining()) == total(iter.remaining()), total(iter.remaining()) <= u128::MAX,
    ensures __it0.remaining().len() == 0
    decreases __it0.decrease()->0
@start
broadcast use lemma_total;
@body 0
let ghost r = __it0.remaining();
proof { lemma_total(r.drop_first()); assert(r.len() > 0 ==> total(r) == r[0].0 + total(r.drop_first())); }

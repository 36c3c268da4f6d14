@@specifier types::v1::ALGORITHM_ED25519 ALGORITHM_ED25519: ed25519
@@ mod types::v1
impl Transaction {
    /// the encoding without the signatures
    pub open spec fn no_sigs(&self) -> Seq<u8> {
        self.siacoin_inputs.enc1() + (self.siacoin_outputs.enc1() + (self.file_contracts.enc1() + (self.file_contract_revisions.enc1()
            + (self.storage_proofs.enc1() + (self.siafund_inputs.enc1() + (self.siafund_outputs.enc1() + (self.miner_fees.enc1() + self.arbitrary_data.enc1())))))))
    }
}
/// inputs, each behind the replay-protection prefix
pub open spec fn prefixed<T: V1SiaEncodable>(p: Seq<u8>, s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { prefixed(p, s.drop_last()) + p + s.last().enc1() } }
/// the listed elements in the listed order, each behind the prefix
pub open spec fn covered<T: V1SiaEncodable>(p: Seq<u8>, s: Seq<T>, idx: Seq<usize>) -> Seq<u8>
    decreases idx.len(),
{ if idx.len() == 0 { seq![] } else { covered(p, s, idx.drop_last()) + p + s[idx.last() as int].enc1() } }
pub open spec fn in_range<T>(s: Seq<T>, idx: Seq<usize>) -> bool { forall|k: int| 0 <= k < idx.len() ==> (#[trigger] idx[k]) < s.len() }
@@ fn types::v1::Transaction::encode_no_sigs
    ensures
        res is Ok ==> final(w).written() == old(w).written() + self.no_sigs(),
        old(w).reliable() ==> res is Ok,
        final(w).reliable() == old(w).reliable(), final(w).kind() == old(w).kind(),
@start
broadcast use crate::spec::lemma_assoc;
@@ fn types::v1::Transaction::id
    ensures res.0@ == crate::spec::h256(self.no_sigs())
@start
broadcast use crate::spec::lemma_take32;
@@ fn types::v1::Transaction::derive_child_id
    ensures crate::spec::id_of(res, prefix.0@ + self.no_sigs() + crate::spec::u64le(i as u64))
@@ fn types::v1::Transaction::siacoin_output_id
    ensures res.0@ == crate::spec::h256({s:siacoin output} + self.no_sigs() + crate::spec::u64le(i as u64))
@start
broadcast use crate::spec::lemma_take32;
@@ fn types::v1::Transaction::siafund_output_id
    ensures res.0@ == crate::spec::h256({s:siafund output} + self.no_sigs() + crate::spec::u64le(i as u64))
@start
broadcast use crate::spec::lemma_take32;
@@ fn types::v1::Transaction::file_contract_id
    ensures res.0@ == crate::spec::h256({s:file contract} + self.no_sigs() + crate::spec::u64le(i as u64))
@start
broadcast use crate::spec::lemma_take32;
@@specifier types::v1::Transaction::siacoin_output_id::SIACOIN_OUTPUT_ID_PREFIX SIACOIN_OUTPUT_ID_PREFIX: siacoin output
@@specifier types::v1::Transaction::siafund_output_id::SIAFUND_OUTPUT_ID_PREFIX SIAFUND_OUTPUT_ID_PREFIX: siafund output
@@specifier types::v1::Transaction::file_contract_id::FILE_CONTRACT_ID_PREFIX FILE_CONTRACT_ID_PREFIX: file contract
@@ fn types::v1::FileContract::tax
    ensures ({
        let p = self.payout.0 as int;
        let t = if cs.next_height() < cs.network.hardfork_tax.height { (p * 5620492334958379) / 0x200_0000_0000_0000 } else { (p * 39) / 1000 };
        res.0 == t - t % 10000
    })
@start
broadcast use crate::shim::num_rational::group_ratio;

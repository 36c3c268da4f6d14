@@ light types::v1
@@ mod types::v1
impl Transaction {
    /// what a whole-transaction signature signs
    pub open spec fn whole_pre(&self, p: Seq<u8>, parent: Seq<u8>, key: u64, timelock: u64) -> Seq<u8> {
        crate::spec::u64le(self.siacoin_inputs@.len() as u64) + prefixed(p, self.siacoin_inputs@)
            + self.siacoin_outputs.enc1() + self.file_contracts.enc1() + self.file_contract_revisions.enc1() + self.storage_proofs.enc1()
            + crate::spec::u64le(self.siafund_inputs@.len() as u64) + prefixed(p, self.siafund_inputs@)
            + self.siafund_outputs.enc1() + self.miner_fees.enc1() + self.arbitrary_data.enc1()
            + parent + crate::spec::u64le(key) + crate::spec::u64le(timelock)
    }
    /// the listed elements exist
    pub open spec fn covers(&self, c: CoveredFields) -> bool {
        in_range(self.siacoin_inputs@, c.siacoin_inputs@) && in_range(self.siacoin_outputs@, c.siacoin_outputs@)
        && in_range(self.file_contracts@, c.file_contracts@) && in_range(self.file_contract_revisions@, c.file_contract_revisions@)
        && in_range(self.storage_proofs@, c.storage_proofs@) && in_range(self.siafund_inputs@, c.siafund_inputs@)
        && in_range(self.siafund_outputs@, c.siafund_outputs@) && in_range(self.miner_fees@, c.miner_fees@)
        && in_range(self.arbitrary_data@, c.arbitrary_data@) && in_range(self.signatures@, c.signatures@)
    }
    /// what a partial signature signs
    pub open spec fn partial_pre(&self, p: Seq<u8>, c: CoveredFields) -> Seq<u8> {
        covered(p, self.siacoin_inputs@, c.siacoin_inputs@) + covered(seq![], self.siacoin_outputs@, c.siacoin_outputs@)
            + covered(seq![], self.file_contracts@, c.file_contracts@) + covered(seq![], self.file_contract_revisions@, c.file_contract_revisions@)
            + covered(seq![], self.storage_proofs@, c.storage_proofs@) + covered(p, self.siafund_inputs@, c.siafund_inputs@)
            + covered(seq![], self.siafund_outputs@, c.siafund_outputs@) + covered(seq![], self.miner_fees@, c.miner_fees@)
            + covered(seq![], self.arbitrary_data@, c.arbitrary_data@) + covered(seq![], self.signatures@, c.signatures@)
    }
}
@@ fn types::v1::Transaction::whole_sig_hash
    ensures res is Ok, res->Ok_0.0@ == crate::spec::h256(self.whole_pre(cs.prefix(), parent_id.asref(), public_key_index, timelock))
@light
@start
hide(<Vec<u8> as V1SiaEncodable>::enc1);
broadcast use crate::spec::lemma_take32;
@loops 2
@before 0
let ghost w0 = state.data();
@loop 0
    invariant __i0 <= __n0, __n0 == __s0@.len(), __s0@ == self.siacoin_inputs@, state.hlen() == 32,
        state.data() == w0 + prefixed(cs.prefix(), __s0@.take(__i0 as int)),
    decreases __n0 - __i0,
@bodyend 0
proof {
    assert(__s0@.take(__j0 as int + 1).drop_last() =~= __s0@.take(__j0 as int));
    crate::spec::lemma_assoc(w0, prefixed(cs.prefix(), __s0@.take(__j0 as int)), cs.prefix() + input.enc1());
    assert(state.data() =~= w0 + prefixed(cs.prefix(), __s0@.take(__i0 as int)));
}
@after 0
proof { assert(__s0@.take(__n0 as int) =~= __s0@); }
@before 1
let ghost w1 = state.data();
@loop 1
    invariant __i1 <= __n1, __n1 == __s1@.len(), __s1@ == self.siafund_inputs@, state.hlen() == 32,
        state.data() == w1 + prefixed(cs.prefix(), __s1@.take(__i1 as int)),
    decreases __n1 - __i1,
@bodyend 1
proof {
    assert(__s1@.take(__j1 as int + 1).drop_last() =~= __s1@.take(__j1 as int));
    assert(state.data() =~= w1 + prefixed(cs.prefix(), __s1@.take(__i1 as int)));
}
@after 1
proof { assert(__s1@.take(__n1 as int) =~= __s1@); }
@@ fn types::v1::Transaction::partial_sig_hash
    ensures res is Ok <==> self.covers(*covered_fields),
        res matches Ok(h) ==> h.0@ == crate::spec::h256(self.partial_pre(cs.prefix(), *covered_fields))
@attr #[verifier::loop_isolation(true)]
@start
broadcast use crate::spec::lemma_take32;
@loops 10
@@each 0,siacoin_inputs,cs.prefix() 1,siacoin_outputs,seq![] 2,file_contracts,seq![] 3,file_contract_revisions,seq![] 4,storage_proofs,seq![] 5,siafund_inputs,cs.prefix() 6,siafund_outputs,seq![] 7,miner_fees,seq![] 8,arbitrary_data,seq![] 9,signatures,seq![]: N,F,P
@before {N}
let ghost w{N} = state.data();
@loop {N}
    invariant __i{N} <= __n{N}, __n{N} == __s{N}@.len(), __s{N}@ == covered_fields.{F}@, state.hlen() == 32,
        forall|k: int| 0 <= k < __i{N} ==> (#[trigger] __s{N}@[k]) < self.{F}@.len(),
        state.data() == w{N} + covered({P}, self.{F}@, __s{N}@.take(__i{N} as int)),
    decreases __n{N} - __i{N},
@bodyend {N}
proof {
    assert(__s{N}@.take(__j{N} as int + 1).drop_last() =~= __s{N}@.take(__j{N} as int));
    assert(state.data() =~= w{N} + covered({P}, self.{F}@, __s{N}@.take(__i{N} as int)));
}
@after {N}
proof { assert(__s{N}@.take(__n{N} as int) =~= __s{N}@); }
@@done

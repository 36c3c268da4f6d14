@@# the semantic encodings, and what is signed
@@ mod types::v2
pub open spec fn zeros64() -> Seq<u8> { Seq::new(64, |i: int| 0u8) }
impl Attestation {
    pub open spec fn sem(&self) -> Seq<u8> { self.public_key.enc() + (self.key.enc() + (self.value.enc() + zeros64())) }
}
impl FileContract {
    pub open spec fn sem(&self) -> Seq<u8> {
        self.capacity.enc() + (self.filesize.enc() + (self.file_merkle_root.enc() + (self.proof_height.enc() + (self.expiration_height.enc()
            + (self.renter_output.enc() + (self.host_output.enc() + (self.missed_host_value.enc() + (self.total_collateral.enc()
            + (self.renter_public_key.enc() + (self.host_public_key.enc() + (self.revision_number.enc() + (zeros64() + zeros64()))))))))))))
    }
}
impl ChainIndexElement {
    pub open spec fn sem(&self) -> Seq<u8> { self.state_element.leaf_index.enc() + (crate::spec::u64le(0) + (self.id.enc() + self.chain_index.enc())) }
}
impl FileContractRevision {
    pub open spec fn sem(&self) -> Seq<u8> { self.parent.id.enc() + self.revision.sem() }
}
impl FileContractRenewal {
    pub open spec fn sem(&self) -> Seq<u8> {
        self.final_revision.sem() + (self.new_contract.sem() + (self.renter_rollover.enc() + (self.host_rollover.enc() + (zeros64() + zeros64()))))
    }
}
impl StorageProof {
    pub open spec fn sem(&self) -> Seq<u8> { self.proof_index.sem() + (self.leaf.enc() + self.proof.enc()) }
}
impl FileContractResolution {
    pub open spec fn sem(&self) -> Seq<u8> {
        self.parent.id.enc() + match self.resolution {
            ContractResolution::Renewal(r) => r.sem(),
            ContractResolution::StorageProof(p) => p.sem(),
            ContractResolution::Expiration() => seq![],
        }
    }
}
@@each sci,SiacoinInput,parent.id.enc sfi,SiafundInput,parent.id.enc fcs,FileContract,sem revs,FileContractRevision,sem ress,FileContractResolution,sem: N,T,E
pub open spec fn {N}_sem(s: Seq<{T}>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { {N}_sem(s.drop_last()) + s.last().{E}() } }
@@done
impl Transaction {
    /// inputs by the id of what they spend, contracts, revisions and resolutions by their semantics
    pub open spec fn sem(&self) -> Seq<u8> {
        crate::spec::u64le(self.siacoin_inputs@.len() as u64) + sci_sem(self.siacoin_inputs@)
            + self.siacoin_outputs.enc()
            + crate::spec::u64le(self.siafund_inputs@.len() as u64) + sfi_sem(self.siafund_inputs@)
            + self.siafund_outputs.enc()
            + crate::spec::u64le(self.file_contracts@.len() as u64) + fcs_sem(self.file_contracts@)
            + crate::spec::u64le(self.file_contract_revisions@.len() as u64) + revs_sem(self.file_contract_revisions@)
            + crate::spec::u64le(self.file_contract_resolutions@.len() as u64) + ress_sem(self.file_contract_resolutions@)
            + self.attestations.enc() + self.arbitrary_data.enc() + self.new_foundation_address.enc() + self.miner_fee.enc()
    }
}
@@each Attestation FileContract ChainIndexElement FileContractRevision FileContractRenewal StorageProof FileContractResolution: T
@@ fn types::v2::{T}::encode_semantics
    ensures
        res is Ok ==> final(w).written() == old(w).written() + self.sem(),
        old(w).reliable() ==> res is Ok,
        final(w).reliable() == old(w).reliable(), final(w).kind() == old(w).kind(),
@start
broadcast use crate::spec::lemma_assoc;
@@done
@@ fn types::v2::Transaction::encode_semantics
    ensures
        res is Ok ==> final(w).written() == old(w).written() + self.sem(),
        old(w).reliable() ==> res is Ok,
        final(w).reliable() == old(w).reliable(), final(w).kind() == old(w).kind(),
@attr #[verifier::loop_isolation(true)]
@start
let ghost wa = w.written();
let ghost (k0, r0) = (w.kind(), w.reliable());
let ghost g0 = crate::spec::u64le(self.siacoin_inputs@.len() as u64);
let ghost g1 = g0 + sci_sem(self.siacoin_inputs@);
let ghost g2 = g1 + self.siacoin_outputs.enc();
let ghost g3 = g2 + crate::spec::u64le(self.siafund_inputs@.len() as u64);
let ghost g4 = g3 + sfi_sem(self.siafund_inputs@);
let ghost g5 = g4 + self.siafund_outputs.enc();
let ghost g6 = g5 + crate::spec::u64le(self.file_contracts@.len() as u64);
let ghost g7 = g6 + fcs_sem(self.file_contracts@);
let ghost g8 = g7 + crate::spec::u64le(self.file_contract_revisions@.len() as u64);
let ghost g9 = g8 + revs_sem(self.file_contract_revisions@);
let ghost g10 = g9 + crate::spec::u64le(self.file_contract_resolutions@.len() as u64);
let ghost g11 = g10 + ress_sem(self.file_contract_resolutions@);
let ghost g12 = g11 + self.attestations.enc();
let ghost g13 = g12 + self.arbitrary_data.enc();
let ghost g14 = g13 + self.new_foundation_address.enc();
let ghost g15 = g14 + self.miner_fee.enc();
proof {
    crate::spec::lemma_assoc(wa, g0, sci_sem(self.siacoin_inputs@));
    crate::spec::lemma_assoc(wa, g1, self.siacoin_outputs.enc());
    crate::spec::lemma_assoc(wa, g2, crate::spec::u64le(self.siafund_inputs@.len() as u64));
    crate::spec::lemma_assoc(wa, g3, sfi_sem(self.siafund_inputs@));
    crate::spec::lemma_assoc(wa, g4, self.siafund_outputs.enc());
    crate::spec::lemma_assoc(wa, g5, crate::spec::u64le(self.file_contracts@.len() as u64));
    crate::spec::lemma_assoc(wa, g6, fcs_sem(self.file_contracts@));
    crate::spec::lemma_assoc(wa, g7, crate::spec::u64le(self.file_contract_revisions@.len() as u64));
    crate::spec::lemma_assoc(wa, g8, revs_sem(self.file_contract_revisions@));
    crate::spec::lemma_assoc(wa, g9, crate::spec::u64le(self.file_contract_resolutions@.len() as u64));
    crate::spec::lemma_assoc(wa, g10, ress_sem(self.file_contract_resolutions@));
    crate::spec::lemma_assoc(wa, g11, self.attestations.enc());
    crate::spec::lemma_assoc(wa, g12, self.arbitrary_data.enc());
    crate::spec::lemma_assoc(wa, g13, self.new_foundation_address.enc());
    crate::spec::lemma_assoc(wa, g14, self.miner_fee.enc());
}
@loops 5
@before 0
proof { assert(w.written() == wa + g0); }
let ghost w0 = w.written();
@loop 0
    invariant __i0 <= __n0, __n0 == __s0@.len(), __s0@ == self.siacoin_inputs@, w.kind() == k0, w.reliable() == r0,
        w.written() == w0 + sci_sem(__s0@.take(__i0 as int)), k0 == old(w).kind(), r0 == old(w).reliable(),
    decreases __n0 - __i0,
@bodyend 0
proof {
    assert(__s0@.take(__j0 as int + 1).drop_last() =~= __s0@.take(__j0 as int));
    crate::spec::lemma_assoc(w0, sci_sem(__s0@.take(__j0 as int)), __e0.parent.id.enc());
}
@after 0
proof { assert(__s0@.take(__n0 as int) =~= __s0@); }
@before 1
proof { assert(w.written() == wa + g3); }
let ghost w1 = w.written();
@loop 1
    invariant __i1 <= __n1, __n1 == __s1@.len(), __s1@ == self.siafund_inputs@, w.kind() == k0, w.reliable() == r0,
        w.written() == w1 + sfi_sem(__s1@.take(__i1 as int)), k0 == old(w).kind(), r0 == old(w).reliable(),
    decreases __n1 - __i1,
@bodyend 1
proof {
    assert(__s1@.take(__j1 as int + 1).drop_last() =~= __s1@.take(__j1 as int));
    crate::spec::lemma_assoc(w1, sfi_sem(__s1@.take(__j1 as int)), __e1.parent.id.enc());
}
@after 1
proof { assert(__s1@.take(__n1 as int) =~= __s1@); }
@before 2
proof { assert(w.written() == wa + g6); }
let ghost w2 = w.written();
@loop 2
    invariant __i2 <= __n2, __n2 == __s2@.len(), __s2@ == self.file_contracts@, w.kind() == k0, w.reliable() == r0,
        w.written() == w2 + fcs_sem(__s2@.take(__i2 as int)), k0 == old(w).kind(), r0 == old(w).reliable(),
    decreases __n2 - __i2,
@bodyend 2
proof {
    assert(__s2@.take(__j2 as int + 1).drop_last() =~= __s2@.take(__j2 as int));
    crate::spec::lemma_assoc(w2, fcs_sem(__s2@.take(__j2 as int)), __e2.sem());
}
@after 2
proof { assert(__s2@.take(__n2 as int) =~= __s2@); }
@before 3
proof { assert(w.written() == wa + g8); }
let ghost w3 = w.written();
@loop 3
    invariant __i3 <= __n3, __n3 == __s3@.len(), __s3@ == self.file_contract_revisions@, w.kind() == k0, w.reliable() == r0,
        w.written() == w3 + revs_sem(__s3@.take(__i3 as int)), k0 == old(w).kind(), r0 == old(w).reliable(),
    decreases __n3 - __i3,
@bodyend 3
proof {
    assert(__s3@.take(__j3 as int + 1).drop_last() =~= __s3@.take(__j3 as int));
    crate::spec::lemma_assoc(w3, revs_sem(__s3@.take(__j3 as int)), __e3.sem());
}
@after 3
proof { assert(__s3@.take(__n3 as int) =~= __s3@); }
@before 4
proof { assert(w.written() == wa + g10); }
let ghost w4 = w.written();
@loop 4
    invariant __i4 <= __n4, __n4 == __s4@.len(), __s4@ == self.file_contract_resolutions@, w.kind() == k0, w.reliable() == r0,
        w.written() == w4 + ress_sem(__s4@.take(__i4 as int)), k0 == old(w).kind(), r0 == old(w).reliable(),
    decreases __n4 - __i4,
@bodyend 4
proof {
    assert(__s4@.take(__j4 as int + 1).drop_last() =~= __s4@.take(__j4 as int));
    crate::spec::lemma_assoc(w4, ress_sem(__s4@.take(__j4 as int)), __e4.sem());
}
@after 4
proof { assert(__s4@.take(__n4 as int) =~= __s4@); }
@tail
proof { assert(w.written() == wa + self.sem()); }
@@each Attestation,sig_hash,sia/sig/attestation|,+~cs.prefix() FileContract,sig_hash,sia/sig/filecontract|,+~cs.prefix() FileContractRenewal,sig_hash,sia/sig/filecontractrenewal|,+~cs.prefix() Transaction,input_sig_hash,sia/sig/input|,+~cs.prefix() Transaction,id,sia/id/transaction|,: T,F,P,X
@@ fn types::v2::{T}::{F}
    ensures res.0@ == crate::spec::h256({b:{P}} {X} + self.sem())
@start
broadcast use crate::spec::lemma_take32;
@@done
@@ fn types::v2::FileContract::tax
    requires self.renter_output.value.0 + self.host_output.value.0 <= u128::MAX,
    ensures ({
        let t = (self.renter_output.value.0 + self.host_output.value.0) / 25;
        res.0 == t - t % 10000
    })
@@ impl types::v2::<FileContractResolution as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> {
    self.parent.enc() + match self.resolution {
        ContractResolution::Renewal(r) => seq![0u8] + r.enc(),
        ContractResolution::StorageProof(p) => seq![1u8] + p.enc(),
        ContractResolution::Expiration() => seq![2u8],
    }
}
@@ fn types::v2::<FileContractResolution as SiaEncodable>::encode
@start
broadcast use crate::spec::lemma_assoc;
@@ impl types::v2::<FileContractResolution as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match FileContractElement::dec(b) { None => None, Some((parent, b)) =>
        if b.len() < 1 || b[0] > 2 { None }
        else if b[0] == 0 { match FileContractRenewal::dec(b.skip(1)) { None => None, Some((v, b)) => Some((FileContractResolution { parent, resolution: ContractResolution::Renewal(v) }, b)) } }
        else if b[0] == 1 { match StorageProof::dec(b.skip(1)) { None => None, Some((v, b)) => Some((FileContractResolution { parent, resolution: ContractResolution::StorageProof(v) }, b)) } }
        else { Some((FileContractResolution { parent, resolution: ContractResolution::Expiration() }, b.skip(1))) }
    }
}
@@ mod types::v2
pub proof fn lemma_tag(k: u8, a: Seq<u8>, rest: Seq<u8>)
    ensures ((seq![k] + a) + rest).skip(1) == a + rest, ((seq![k] + a) + rest).len() >= 1, ((seq![k] + a) + rest)[0] == k,
{ assert(((seq![k] + a) + rest).skip(1) =~= a + rest); }
impl crate::lemmas::Codec for FileContractResolution {
    open spec fn wf(&self) -> bool {
        crate::lemmas::Codec::wf(&self.parent) && match self.resolution {
            ContractResolution::Renewal(r) => crate::lemmas::Codec::wf(&r),
            ContractResolution::StorageProof(p) => crate::lemmas::Codec::wf(&p),
            ContractResolution::Expiration() => true,
        }
    }
    proof fn rt(&self, rest: Seq<u8>) {
        hide(<FileContractRenewal as SiaEncodable>::enc); hide(<FileContractRenewal as SiaDecodable>::dec); hide(<StorageProof as SiaEncodable>::enc); hide(<StorageProof as SiaDecodable>::dec); hide(<FileContractElement as SiaEncodable>::enc); hide(<FileContractElement as SiaDecodable>::dec);
        let t: Seq<u8> = match self.resolution {
            ContractResolution::Renewal(r) => seq![0u8] + r.enc(),
            ContractResolution::StorageProof(p) => seq![1u8] + p.enc(),
            ContractResolution::Expiration() => seq![2u8],
        };
        crate::lemmas::Codec::rt(&self.parent, t + rest);
        crate::spec::lemma_assoc(self.parent.enc(), t, rest);
        match self.resolution {
            ContractResolution::Renewal(r) => { crate::lemmas::Codec::rt(&r, rest); lemma_tag(0, r.enc(), rest); }
            ContractResolution::StorageProof(p) => { crate::lemmas::Codec::rt(&p, rest); lemma_tag(1, p.enc(), rest); }
            ContractResolution::Expiration() => { assert((seq![2u8] + rest).skip(1) =~= rest); }
        }
    }
}

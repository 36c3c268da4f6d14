@@# ids are hashes of the protocol's preimages
@@ fn types::common::SiafundOutputID::claim_output_id
    ensures res.0@ == crate::spec::h256(self.0@)
@@ fn types::common::SiafundOutputID::v2_claim_output_id
    ensures res.0@ == crate::spec::h256({b:sia/id/v2siacoinclaimoutput|} + self.0@)
@@ fn types::common::BlockID::foundation_output_id
    ensures res.0@ == crate::spec::h256(self.0@ + {s:foundation})
@@ fn types::common::BlockID::miner_output_id
    ensures res.0@ == crate::spec::h256(self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::TransactionID::derive_v2_child_id
    ensures crate::spec::id_of(res, prefix@ + self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::TransactionID::v2_siacoin_output_id
    ensures res.0@ == crate::spec::h256({b:sia/id/siacoinoutput|} + self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::TransactionID::v2_siafund_output_id
    ensures res.0@ == crate::spec::h256({b:sia/id/siafundoutput|} + self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::TransactionID::v2_file_contract_id
    ensures res.0@ == crate::spec::h256({b:sia/id/filecontract|} + self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::TransactionID::v2_attestation_id
    ensures res.0@ == crate::spec::h256({b:sia/id/attestation|} + self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::FileContractID::derive_proof_output_id
    ensures crate::spec::id_of(res, {s:storage proof} + self.0@ + seq![if valid { 1u8 } else { 0u8 }] + crate::spec::u64le(i as u64))
@@ fn types::common::FileContractID::derive_v2_proof_output_id
    ensures crate::spec::id_of(res, {b:sia/id/v2filecontractoutput|} + self.0@ + crate::spec::u64le(i as u64))
@@ fn types::common::FileContractID::valid_output_id
    ensures res.0@ == crate::spec::h256({s:storage proof} + self.0@ + seq![1u8] + crate::spec::u64le(i as u64))
@@ fn types::common::FileContractID::missed_output_id
    ensures res.0@ == crate::spec::h256({s:storage proof} + self.0@ + seq![0u8] + crate::spec::u64le(i as u64))
@@ fn types::common::FileContractID::v2_renter_output_id
    ensures res.0@ == crate::spec::h256({b:sia/id/v2filecontractoutput|} + self.0@ + crate::spec::u64le(0))
@@ fn types::common::FileContractID::v2_host_output_id
    ensures res.0@ == crate::spec::h256({b:sia/id/v2filecontractoutput|} + self.0@ + crate::spec::u64le(1))
@@ fn types::common::FileContractID::v2_renewal_id
    ensures res.0@ == crate::spec::h256({b:sia/id/v2filecontractrenewal|} + self.0@)

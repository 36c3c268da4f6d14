@@# only the fields that are present
@@ light types::v2
@@ mod types::v2
impl Transaction {
    pub open spec fn has0(&self) -> bool { self.siacoin_inputs@.len() != 0 }
    pub open spec fn has1(&self) -> bool { self.siacoin_outputs@.len() != 0 }
    pub open spec fn has2(&self) -> bool { self.siafund_inputs@.len() != 0 }
    pub open spec fn has3(&self) -> bool { self.siafund_outputs@.len() != 0 }
    pub open spec fn has4(&self) -> bool { self.file_contracts@.len() != 0 }
    pub open spec fn has5(&self) -> bool { self.file_contract_revisions@.len() != 0 }
    pub open spec fn has6(&self) -> bool { self.file_contract_resolutions@.len() != 0 }
    pub open spec fn has7(&self) -> bool { self.attestations@.len() != 0 }
    pub open spec fn has8(&self) -> bool { self.arbitrary_data@.len() != 0 }
    pub open spec fn has9(&self) -> bool { self.new_foundation_address is Some }
    pub open spec fn has10(&self) -> bool { self.miner_fee.0 != 0 }
    /// one bit for every field that is present
    #[verifier::opaque]
    pub open spec fn mask0(&self) -> u64 { (0 + (if self.has0() { 1int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask1(&self) -> u64 { (self.mask0() + (if self.has1() { 2int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask2(&self) -> u64 { (self.mask1() + (if self.has2() { 4int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask3(&self) -> u64 { (self.mask2() + (if self.has3() { 8int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask4(&self) -> u64 { (self.mask3() + (if self.has4() { 16int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask5(&self) -> u64 { (self.mask4() + (if self.has5() { 32int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask6(&self) -> u64 { (self.mask5() + (if self.has6() { 64int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask7(&self) -> u64 { (self.mask6() + (if self.has7() { 128int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask8(&self) -> u64 { (self.mask7() + (if self.has8() { 256int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask9(&self) -> u64 { (self.mask8() + (if self.has9() { 512int } else { 0 })) as u64 }
    #[verifier::opaque]
    pub open spec fn mask10(&self) -> u64 { (self.mask9() + (if self.has10() { 1024int } else { 0 })) as u64 }
    pub open spec fn mask(&self) -> u64 { self.mask10() }
    pub proof fn lemma_mask_steps(&self)
        ensures
            self.mask0() == 0 + (if self.has0() { 1int } else { 0 }), self.mask0() < 2,
            self.mask1() == self.mask0() + (if self.has1() { 2int } else { 0 }), self.mask1() < 4,
            self.mask2() == self.mask1() + (if self.has2() { 4int } else { 0 }), self.mask2() < 8,
            self.mask3() == self.mask2() + (if self.has3() { 8int } else { 0 }), self.mask3() < 16,
            self.mask4() == self.mask3() + (if self.has4() { 16int } else { 0 }), self.mask4() < 32,
            self.mask5() == self.mask4() + (if self.has5() { 32int } else { 0 }), self.mask5() < 64,
            self.mask6() == self.mask5() + (if self.has6() { 64int } else { 0 }), self.mask6() < 128,
            self.mask7() == self.mask6() + (if self.has7() { 128int } else { 0 }), self.mask7() < 256,
            self.mask8() == self.mask7() + (if self.has8() { 256int } else { 0 }), self.mask8() < 512,
            self.mask9() == self.mask8() + (if self.has9() { 512int } else { 0 }), self.mask9() < 1024,
            self.mask10() == self.mask9() + (if self.has10() { 1024int } else { 0 }), self.mask10() < 2048,
    {
        reveal(Transaction::mask0);
        reveal(Transaction::mask1);
        reveal(Transaction::mask2);
        reveal(Transaction::mask3);
        reveal(Transaction::mask4);
        reveal(Transaction::mask5);
        reveal(Transaction::mask6);
        reveal(Transaction::mask7);
        reveal(Transaction::mask8);
        reveal(Transaction::mask9);
        reveal(Transaction::mask10);
    }
    pub proof fn lemma_mask_bits(&self)
        ensures (self.mask() & 1 != 0) == self.has0(), (self.mask() & 2 != 0) == self.has1(), (self.mask() & 4 != 0) == self.has2(), (self.mask() & 8 != 0) == self.has3(), (self.mask() & 16 != 0) == self.has4(), (self.mask() & 32 != 0) == self.has5(), (self.mask() & 64 != 0) == self.has6(), (self.mask() & 128 != 0) == self.has7(), (self.mask() & 256 != 0) == self.has8(), (self.mask() & 512 != 0) == self.has9(), (self.mask() & 1024 != 0) == self.has10(),
    {
        self.lemma_mask_steps();
        lemma_mask(self.has0(), self.has1(), self.has2(), self.has3(), self.has4(), self.has5(), self.has6(), self.has7(), self.has8(), self.has9(), self.has10(), self.mask0(), self.mask1(), self.mask2(), self.mask3(), self.mask4(), self.mask5(), self.mask6(), self.mask7(), self.mask8(), self.mask9(), self.mask10());
    }
    #[verifier::opaque]
    pub open spec fn part0(&self) -> Seq<u8> { if self.has0() { self.siacoin_inputs.enc() } else { seq![] } }
    pub open spec fn upto0(&self) -> Seq<u8> { seq![2u8] + crate::spec::u64le(self.mask()) + self.part0() }
    #[verifier::opaque]
    pub open spec fn wh(&self, wa: Seq<u8>) -> Seq<u8> { wa + (seq![2u8] + crate::spec::u64le(self.mask())) }
    #[verifier::opaque]
    pub open spec fn w0(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto0() }
    pub proof fn step0(&self, wa: Seq<u8>)
        ensures self.has0() ==> self.wh(wa) + self.siacoin_inputs.enc() == self.w0(wa), !self.has0() ==> self.wh(wa) == self.w0(wa),
    { reveal(Transaction::part0); reveal(Transaction::w0); reveal(Transaction::wh); crate::spec::lemma_assoc(wa, seq![2u8] + crate::spec::u64le(self.mask()), self.part0()); if !self.has0() { assert((seq![2u8] + crate::spec::u64le(self.mask())) + seq![] =~= seq![2u8] + crate::spec::u64le(self.mask())); } }
    #[verifier::opaque]
    pub open spec fn tail0(&self, rest: Seq<u8>) -> Seq<u8> { self.part0() + self.tail1(rest) }
    #[verifier::opaque]
    pub open spec fn part1(&self) -> Seq<u8> { if self.has1() { self.siacoin_outputs.enc() } else { seq![] } }
    pub open spec fn upto1(&self) -> Seq<u8> { self.upto0() + self.part1() }
    #[verifier::opaque]
    pub open spec fn w1(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto1() }
    pub proof fn step1(&self, wa: Seq<u8>)
        ensures self.has1() ==> self.w0(wa) + self.siacoin_outputs.enc() == self.w1(wa), !self.has1() ==> self.w0(wa) == self.w1(wa),
    { reveal(Transaction::part1); reveal(Transaction::w1); reveal(Transaction::w0); crate::spec::lemma_assoc(wa, self.upto0(), self.part1()); if !self.has1() { assert((self.upto0()) + seq![] =~= self.upto0()); } }
    #[verifier::opaque]
    pub open spec fn tail1(&self, rest: Seq<u8>) -> Seq<u8> { self.part1() + self.tail2(rest) }
    #[verifier::opaque]
    pub open spec fn part2(&self) -> Seq<u8> { if self.has2() { self.siafund_inputs.enc() } else { seq![] } }
    pub open spec fn upto2(&self) -> Seq<u8> { self.upto1() + self.part2() }
    #[verifier::opaque]
    pub open spec fn w2(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto2() }
    pub proof fn step2(&self, wa: Seq<u8>)
        ensures self.has2() ==> self.w1(wa) + self.siafund_inputs.enc() == self.w2(wa), !self.has2() ==> self.w1(wa) == self.w2(wa),
    { reveal(Transaction::part2); reveal(Transaction::w2); reveal(Transaction::w1); crate::spec::lemma_assoc(wa, self.upto1(), self.part2()); if !self.has2() { assert((self.upto1()) + seq![] =~= self.upto1()); } }
    #[verifier::opaque]
    pub open spec fn tail2(&self, rest: Seq<u8>) -> Seq<u8> { self.part2() + self.tail3(rest) }
    #[verifier::opaque]
    pub open spec fn part3(&self) -> Seq<u8> { if self.has3() { self.siafund_outputs.enc() } else { seq![] } }
    pub open spec fn upto3(&self) -> Seq<u8> { self.upto2() + self.part3() }
    #[verifier::opaque]
    pub open spec fn w3(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto3() }
    pub proof fn step3(&self, wa: Seq<u8>)
        ensures self.has3() ==> self.w2(wa) + self.siafund_outputs.enc() == self.w3(wa), !self.has3() ==> self.w2(wa) == self.w3(wa),
    { reveal(Transaction::part3); reveal(Transaction::w3); reveal(Transaction::w2); crate::spec::lemma_assoc(wa, self.upto2(), self.part3()); if !self.has3() { assert((self.upto2()) + seq![] =~= self.upto2()); } }
    #[verifier::opaque]
    pub open spec fn tail3(&self, rest: Seq<u8>) -> Seq<u8> { self.part3() + self.tail4(rest) }
    #[verifier::opaque]
    pub open spec fn part4(&self) -> Seq<u8> { if self.has4() { self.file_contracts.enc() } else { seq![] } }
    pub open spec fn upto4(&self) -> Seq<u8> { self.upto3() + self.part4() }
    #[verifier::opaque]
    pub open spec fn w4(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto4() }
    pub proof fn step4(&self, wa: Seq<u8>)
        ensures self.has4() ==> self.w3(wa) + self.file_contracts.enc() == self.w4(wa), !self.has4() ==> self.w3(wa) == self.w4(wa),
    { reveal(Transaction::part4); reveal(Transaction::w4); reveal(Transaction::w3); crate::spec::lemma_assoc(wa, self.upto3(), self.part4()); if !self.has4() { assert((self.upto3()) + seq![] =~= self.upto3()); } }
    #[verifier::opaque]
    pub open spec fn tail4(&self, rest: Seq<u8>) -> Seq<u8> { self.part4() + self.tail5(rest) }
    #[verifier::opaque]
    pub open spec fn part5(&self) -> Seq<u8> { if self.has5() { self.file_contract_revisions.enc() } else { seq![] } }
    pub open spec fn upto5(&self) -> Seq<u8> { self.upto4() + self.part5() }
    #[verifier::opaque]
    pub open spec fn w5(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto5() }
    pub proof fn step5(&self, wa: Seq<u8>)
        ensures self.has5() ==> self.w4(wa) + self.file_contract_revisions.enc() == self.w5(wa), !self.has5() ==> self.w4(wa) == self.w5(wa),
    { reveal(Transaction::part5); reveal(Transaction::w5); reveal(Transaction::w4); crate::spec::lemma_assoc(wa, self.upto4(), self.part5()); if !self.has5() { assert((self.upto4()) + seq![] =~= self.upto4()); } }
    #[verifier::opaque]
    pub open spec fn tail5(&self, rest: Seq<u8>) -> Seq<u8> { self.part5() + self.tail6(rest) }
    #[verifier::opaque]
    pub open spec fn part6(&self) -> Seq<u8> { if self.has6() { self.file_contract_resolutions.enc() } else { seq![] } }
    pub open spec fn upto6(&self) -> Seq<u8> { self.upto5() + self.part6() }
    #[verifier::opaque]
    pub open spec fn w6(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto6() }
    pub proof fn step6(&self, wa: Seq<u8>)
        ensures self.has6() ==> self.w5(wa) + self.file_contract_resolutions.enc() == self.w6(wa), !self.has6() ==> self.w5(wa) == self.w6(wa),
    { reveal(Transaction::part6); reveal(Transaction::w6); reveal(Transaction::w5); crate::spec::lemma_assoc(wa, self.upto5(), self.part6()); if !self.has6() { assert((self.upto5()) + seq![] =~= self.upto5()); } }
    #[verifier::opaque]
    pub open spec fn tail6(&self, rest: Seq<u8>) -> Seq<u8> { self.part6() + self.tail7(rest) }
    #[verifier::opaque]
    pub open spec fn part7(&self) -> Seq<u8> { if self.has7() { self.attestations.enc() } else { seq![] } }
    pub open spec fn upto7(&self) -> Seq<u8> { self.upto6() + self.part7() }
    #[verifier::opaque]
    pub open spec fn w7(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto7() }
    pub proof fn step7(&self, wa: Seq<u8>)
        ensures self.has7() ==> self.w6(wa) + self.attestations.enc() == self.w7(wa), !self.has7() ==> self.w6(wa) == self.w7(wa),
    { reveal(Transaction::part7); reveal(Transaction::w7); reveal(Transaction::w6); crate::spec::lemma_assoc(wa, self.upto6(), self.part7()); if !self.has7() { assert((self.upto6()) + seq![] =~= self.upto6()); } }
    #[verifier::opaque]
    pub open spec fn tail7(&self, rest: Seq<u8>) -> Seq<u8> { self.part7() + self.tail8(rest) }
    #[verifier::opaque]
    pub open spec fn part8(&self) -> Seq<u8> { if self.has8() { self.arbitrary_data.enc() } else { seq![] } }
    pub open spec fn upto8(&self) -> Seq<u8> { self.upto7() + self.part8() }
    #[verifier::opaque]
    pub open spec fn w8(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto8() }
    pub proof fn step8(&self, wa: Seq<u8>)
        ensures self.has8() ==> self.w7(wa) + self.arbitrary_data.enc() == self.w8(wa), !self.has8() ==> self.w7(wa) == self.w8(wa),
    { reveal(Transaction::part8); reveal(Transaction::w8); reveal(Transaction::w7); crate::spec::lemma_assoc(wa, self.upto7(), self.part8()); if !self.has8() { assert((self.upto7()) + seq![] =~= self.upto7()); } }
    #[verifier::opaque]
    pub open spec fn tail8(&self, rest: Seq<u8>) -> Seq<u8> { self.part8() + self.tail9(rest) }
    #[verifier::opaque]
    pub open spec fn part9(&self) -> Seq<u8> { if self.has9() { self.new_foundation_address->0.enc() } else { seq![] } }
    pub open spec fn upto9(&self) -> Seq<u8> { self.upto8() + self.part9() }
    #[verifier::opaque]
    pub open spec fn w9(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto9() }
    pub proof fn step9(&self, wa: Seq<u8>)
        ensures self.has9() ==> self.w8(wa) + self.new_foundation_address->0.enc() == self.w9(wa), !self.has9() ==> self.w8(wa) == self.w9(wa),
    { reveal(Transaction::part9); reveal(Transaction::w9); reveal(Transaction::w8); crate::spec::lemma_assoc(wa, self.upto8(), self.part9()); if !self.has9() { assert((self.upto8()) + seq![] =~= self.upto8()); } }
    #[verifier::opaque]
    pub open spec fn tail9(&self, rest: Seq<u8>) -> Seq<u8> { self.part9() + self.tail10(rest) }
    #[verifier::opaque]
    pub open spec fn part10(&self) -> Seq<u8> { if self.has10() { self.miner_fee.enc() } else { seq![] } }
    pub open spec fn upto10(&self) -> Seq<u8> { self.upto9() + self.part10() }
    #[verifier::opaque]
    pub open spec fn w10(&self, wa: Seq<u8>) -> Seq<u8> { wa + self.upto10() }
    pub proof fn step10(&self, wa: Seq<u8>)
        ensures self.has10() ==> self.w9(wa) + self.miner_fee.enc() == self.w10(wa), !self.has10() ==> self.w9(wa) == self.w10(wa),
    { reveal(Transaction::part10); reveal(Transaction::w10); reveal(Transaction::w9); crate::spec::lemma_assoc(wa, self.upto9(), self.part10()); if !self.has10() { assert((self.upto9()) + seq![] =~= self.upto9()); } }
    #[verifier::opaque]
    pub open spec fn tail10(&self, rest: Seq<u8>) -> Seq<u8> { self.part10() + rest }
    pub open spec fn first0(&self) -> Transaction { Transaction { siacoin_inputs: none::<SiacoinInput>(), siacoin_outputs: none::<SiacoinOutput>(), siafund_inputs: none::<SiafundInput>(), siafund_outputs: none::<SiafundOutput>(), file_contracts: none::<FileContract>(), file_contract_revisions: none::<FileContractRevision>(), file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first1(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: none::<SiacoinOutput>(), siafund_inputs: none::<SiafundInput>(), siafund_outputs: none::<SiafundOutput>(), file_contracts: none::<FileContract>(), file_contract_revisions: none::<FileContractRevision>(), file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first2(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: none::<SiafundInput>(), siafund_outputs: none::<SiafundOutput>(), file_contracts: none::<FileContract>(), file_contract_revisions: none::<FileContractRevision>(), file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first3(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: none::<SiafundOutput>(), file_contracts: none::<FileContract>(), file_contract_revisions: none::<FileContractRevision>(), file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first4(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: none::<FileContract>(), file_contract_revisions: none::<FileContractRevision>(), file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first5(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: none::<FileContractRevision>(), file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first6(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: self.file_contract_revisions, file_contract_resolutions: none::<FileContractResolution>(), attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first7(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: self.file_contract_revisions, file_contract_resolutions: self.file_contract_resolutions, attestations: none::<Attestation>(), arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first8(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: self.file_contract_revisions, file_contract_resolutions: self.file_contract_resolutions, attestations: self.attestations, arbitrary_data: none::<u8>(), new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first9(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: self.file_contract_revisions, file_contract_resolutions: self.file_contract_resolutions, attestations: self.attestations, arbitrary_data: self.arbitrary_data, new_foundation_address: None, miner_fee: Currency(0) } }
    pub open spec fn first10(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: self.file_contract_revisions, file_contract_resolutions: self.file_contract_resolutions, attestations: self.attestations, arbitrary_data: self.arbitrary_data, new_foundation_address: self.new_foundation_address, miner_fee: Currency(0) } }
    pub open spec fn first11(&self) -> Transaction { Transaction { siacoin_inputs: self.siacoin_inputs, siacoin_outputs: self.siacoin_outputs, siafund_inputs: self.siafund_inputs, siafund_outputs: self.siafund_outputs, file_contracts: self.file_contracts, file_contract_revisions: self.file_contract_revisions, file_contract_resolutions: self.file_contract_resolutions, attestations: self.attestations, arbitrary_data: self.arbitrary_data, new_foundation_address: self.new_foundation_address, miner_fee: self.miner_fee } }
    pub proof fn rt0(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.siacoin_inputs),
        ensures stage0(self.mask(), self.first0(), self.tail0(rest)) == stage1(self.mask(), self.first1(), self.tail1(rest)),
    {
        reveal(Transaction::part0); reveal(Transaction::tail0);
        self.lemma_mask_bits();
        if self.has0() { crate::lemmas::Codec::rt(&self.siacoin_inputs, self.tail1(rest)); } else { assert(seq![] + self.tail1(rest) =~= self.tail1(rest)); assert(self.siacoin_inputs@ =~= seq![]); crate::spec::ax_vec_from(self.siacoin_inputs); assert(self.first0() == self.first1()); }
    }
    pub proof fn rt1(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.siacoin_outputs),
        ensures stage1(self.mask(), self.first1(), self.tail1(rest)) == stage2(self.mask(), self.first2(), self.tail2(rest)),
    {
        reveal(stage1); reveal(Transaction::part1); reveal(Transaction::tail1);
        self.lemma_mask_bits();
        if self.has1() { crate::lemmas::Codec::rt(&self.siacoin_outputs, self.tail2(rest)); } else { assert(seq![] + self.tail2(rest) =~= self.tail2(rest)); assert(self.siacoin_outputs@ =~= seq![]); crate::spec::ax_vec_from(self.siacoin_outputs); assert(self.first1() == self.first2()); }
    }
    pub proof fn rt2(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.siafund_inputs),
        ensures stage2(self.mask(), self.first2(), self.tail2(rest)) == stage3(self.mask(), self.first3(), self.tail3(rest)),
    {
        reveal(stage2); reveal(Transaction::part2); reveal(Transaction::tail2);
        self.lemma_mask_bits();
        if self.has2() { crate::lemmas::Codec::rt(&self.siafund_inputs, self.tail3(rest)); } else { assert(seq![] + self.tail3(rest) =~= self.tail3(rest)); assert(self.siafund_inputs@ =~= seq![]); crate::spec::ax_vec_from(self.siafund_inputs); assert(self.first2() == self.first3()); }
    }
    pub proof fn rt3(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.siafund_outputs),
        ensures stage3(self.mask(), self.first3(), self.tail3(rest)) == stage4(self.mask(), self.first4(), self.tail4(rest)),
    {
        reveal(stage3); reveal(Transaction::part3); reveal(Transaction::tail3);
        self.lemma_mask_bits();
        if self.has3() { crate::lemmas::Codec::rt(&self.siafund_outputs, self.tail4(rest)); } else { assert(seq![] + self.tail4(rest) =~= self.tail4(rest)); assert(self.siafund_outputs@ =~= seq![]); crate::spec::ax_vec_from(self.siafund_outputs); assert(self.first3() == self.first4()); }
    }
    pub proof fn rt4(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.file_contracts),
        ensures stage4(self.mask(), self.first4(), self.tail4(rest)) == stage5(self.mask(), self.first5(), self.tail5(rest)),
    {
        reveal(stage4); reveal(Transaction::part4); reveal(Transaction::tail4);
        self.lemma_mask_bits();
        if self.has4() { crate::lemmas::Codec::rt(&self.file_contracts, self.tail5(rest)); } else { assert(seq![] + self.tail5(rest) =~= self.tail5(rest)); assert(self.file_contracts@ =~= seq![]); crate::spec::ax_vec_from(self.file_contracts); assert(self.first4() == self.first5()); }
    }
    pub proof fn rt5(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.file_contract_revisions),
        ensures stage5(self.mask(), self.first5(), self.tail5(rest)) == stage6(self.mask(), self.first6(), self.tail6(rest)),
    {
        reveal(stage5); reveal(Transaction::part5); reveal(Transaction::tail5);
        self.lemma_mask_bits();
        if self.has5() { crate::lemmas::Codec::rt(&self.file_contract_revisions, self.tail6(rest)); } else { assert(seq![] + self.tail6(rest) =~= self.tail6(rest)); assert(self.file_contract_revisions@ =~= seq![]); crate::spec::ax_vec_from(self.file_contract_revisions); assert(self.first5() == self.first6()); }
    }
    pub proof fn rt6(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.file_contract_resolutions),
        ensures stage6(self.mask(), self.first6(), self.tail6(rest)) == stage7(self.mask(), self.first7(), self.tail7(rest)),
    {
        reveal(stage6); reveal(Transaction::part6); reveal(Transaction::tail6);
        self.lemma_mask_bits();
        if self.has6() { crate::lemmas::Codec::rt(&self.file_contract_resolutions, self.tail7(rest)); } else { assert(seq![] + self.tail7(rest) =~= self.tail7(rest)); assert(self.file_contract_resolutions@ =~= seq![]); crate::spec::ax_vec_from(self.file_contract_resolutions); assert(self.first6() == self.first7()); }
    }
    pub proof fn rt7(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.attestations),
        ensures stage7(self.mask(), self.first7(), self.tail7(rest)) == stage8(self.mask(), self.first8(), self.tail8(rest)),
    {
        reveal(stage7); reveal(Transaction::part7); reveal(Transaction::tail7);
        self.lemma_mask_bits();
        if self.has7() { crate::lemmas::Codec::rt(&self.attestations, self.tail8(rest)); } else { assert(seq![] + self.tail8(rest) =~= self.tail8(rest)); assert(self.attestations@ =~= seq![]); crate::spec::ax_vec_from(self.attestations); assert(self.first7() == self.first8()); }
    }
    pub proof fn rt8(&self, rest: Seq<u8>)
        requires crate::lemmas::Codec::wf(&self.arbitrary_data),
        ensures stage8(self.mask(), self.first8(), self.tail8(rest)) == stage9(self.mask(), self.first9(), self.tail9(rest)),
    {
        reveal(stage8); reveal(Transaction::part8); reveal(Transaction::tail8);
        self.lemma_mask_bits();
        if self.has8() { crate::lemmas::Codec::rt(&self.arbitrary_data, self.tail9(rest)); } else { assert(seq![] + self.tail9(rest) =~= self.tail9(rest)); assert(self.arbitrary_data@ =~= seq![]); crate::spec::ax_vec_from(self.arbitrary_data); assert(self.first8() == self.first9()); }
    }
    pub proof fn rt9(&self, rest: Seq<u8>)
        requires true,
        ensures stage9(self.mask(), self.first9(), self.tail9(rest)) == stage10(self.mask(), self.first10(), self.tail10(rest)),
    {
        reveal(stage9); reveal(Transaction::part9); reveal(Transaction::tail9);
        self.lemma_mask_bits();
        if self.has9() { crate::lemmas::Codec::rt(&self.new_foundation_address->0, self.tail10(rest)); } else { assert(seq![] + self.tail10(rest) =~= self.tail10(rest));  assert(self.first9() == self.first10()); }
    }
    pub proof fn rt10(&self, rest: Seq<u8>)
        requires true,
        ensures stage10(self.mask(), self.first10(), self.tail10(rest)) == stage11(self.mask(), self.first11(), rest),
    {
        reveal(stage10); reveal(Transaction::part10); reveal(Transaction::tail10);
        self.lemma_mask_bits();
        if self.has10() { crate::lemmas::Codec::rt(&self.miner_fee, rest); } else { assert(seq![] + rest =~= rest); assert(self.miner_fee =~= Currency(0)); assert(self.first10() == self.first11()); }
    }
    pub proof fn start(&self, wa: Seq<u8>)
        ensures wa + seq![2u8] + crate::spec::u64le(self.mask()) == self.wh(wa), wa + self.upto10() == self.w10(wa),
    { reveal(Transaction::wh); reveal(Transaction::w10); crate::spec::lemma_assoc(wa, seq![2u8], crate::spec::u64le(self.mask())); }
}
pub open spec fn none<T>() -> Vec<T> { crate::spec::vec_from(seq![]) }
pub open spec fn stage0(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 1 != 0 { match <Vec<SiacoinInput> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage1(m, Transaction { siacoin_inputs: v, ..t }, b) } } else { stage1(m, t, b) }
}
pub proof fn lemma_stage0(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 1 == 0 ==> stage0(m, t, b) == stage1(m, t, b),
        m & 1 != 0 ==> (match <Vec<SiacoinInput> as SiaDecodable>::dec(b) { None => stage0(m, t, b) is None, Some((v, b2)) => stage0(m, t, b) == stage1(m, Transaction { siacoin_inputs: v, ..t }, b2) }),
{ }
#[verifier::opaque]
pub open spec fn stage1(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 2 != 0 { match <Vec<SiacoinOutput> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage2(m, Transaction { siacoin_outputs: v, ..t }, b) } } else { stage2(m, t, b) }
}
pub proof fn lemma_stage1(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 2 == 0 ==> stage1(m, t, b) == stage2(m, t, b),
        m & 2 != 0 ==> (match <Vec<SiacoinOutput> as SiaDecodable>::dec(b) { None => stage1(m, t, b) is None, Some((v, b2)) => stage1(m, t, b) == stage2(m, Transaction { siacoin_outputs: v, ..t }, b2) }),
{ reveal(stage1); }
#[verifier::opaque]
pub open spec fn stage2(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 4 != 0 { match <Vec<SiafundInput> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage3(m, Transaction { siafund_inputs: v, ..t }, b) } } else { stage3(m, t, b) }
}
pub proof fn lemma_stage2(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 4 == 0 ==> stage2(m, t, b) == stage3(m, t, b),
        m & 4 != 0 ==> (match <Vec<SiafundInput> as SiaDecodable>::dec(b) { None => stage2(m, t, b) is None, Some((v, b2)) => stage2(m, t, b) == stage3(m, Transaction { siafund_inputs: v, ..t }, b2) }),
{ reveal(stage2); }
#[verifier::opaque]
pub open spec fn stage3(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 8 != 0 { match <Vec<SiafundOutput> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage4(m, Transaction { siafund_outputs: v, ..t }, b) } } else { stage4(m, t, b) }
}
pub proof fn lemma_stage3(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 8 == 0 ==> stage3(m, t, b) == stage4(m, t, b),
        m & 8 != 0 ==> (match <Vec<SiafundOutput> as SiaDecodable>::dec(b) { None => stage3(m, t, b) is None, Some((v, b2)) => stage3(m, t, b) == stage4(m, Transaction { siafund_outputs: v, ..t }, b2) }),
{ reveal(stage3); }
#[verifier::opaque]
pub open spec fn stage4(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 16 != 0 { match <Vec<FileContract> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage5(m, Transaction { file_contracts: v, ..t }, b) } } else { stage5(m, t, b) }
}
pub proof fn lemma_stage4(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 16 == 0 ==> stage4(m, t, b) == stage5(m, t, b),
        m & 16 != 0 ==> (match <Vec<FileContract> as SiaDecodable>::dec(b) { None => stage4(m, t, b) is None, Some((v, b2)) => stage4(m, t, b) == stage5(m, Transaction { file_contracts: v, ..t }, b2) }),
{ reveal(stage4); }
#[verifier::opaque]
pub open spec fn stage5(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 32 != 0 { match <Vec<FileContractRevision> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage6(m, Transaction { file_contract_revisions: v, ..t }, b) } } else { stage6(m, t, b) }
}
pub proof fn lemma_stage5(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 32 == 0 ==> stage5(m, t, b) == stage6(m, t, b),
        m & 32 != 0 ==> (match <Vec<FileContractRevision> as SiaDecodable>::dec(b) { None => stage5(m, t, b) is None, Some((v, b2)) => stage5(m, t, b) == stage6(m, Transaction { file_contract_revisions: v, ..t }, b2) }),
{ reveal(stage5); }
#[verifier::opaque]
pub open spec fn stage6(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 64 != 0 { match <Vec<FileContractResolution> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage7(m, Transaction { file_contract_resolutions: v, ..t }, b) } } else { stage7(m, t, b) }
}
pub proof fn lemma_stage6(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 64 == 0 ==> stage6(m, t, b) == stage7(m, t, b),
        m & 64 != 0 ==> (match <Vec<FileContractResolution> as SiaDecodable>::dec(b) { None => stage6(m, t, b) is None, Some((v, b2)) => stage6(m, t, b) == stage7(m, Transaction { file_contract_resolutions: v, ..t }, b2) }),
{ reveal(stage6); }
#[verifier::opaque]
pub open spec fn stage7(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 128 != 0 { match <Vec<Attestation> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage8(m, Transaction { attestations: v, ..t }, b) } } else { stage8(m, t, b) }
}
pub proof fn lemma_stage7(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 128 == 0 ==> stage7(m, t, b) == stage8(m, t, b),
        m & 128 != 0 ==> (match <Vec<Attestation> as SiaDecodable>::dec(b) { None => stage7(m, t, b) is None, Some((v, b2)) => stage7(m, t, b) == stage8(m, Transaction { attestations: v, ..t }, b2) }),
{ reveal(stage7); }
#[verifier::opaque]
pub open spec fn stage8(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 256 != 0 { match <Vec<u8> as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage9(m, Transaction { arbitrary_data: v, ..t }, b) } } else { stage9(m, t, b) }
}
pub proof fn lemma_stage8(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 256 == 0 ==> stage8(m, t, b) == stage9(m, t, b),
        m & 256 != 0 ==> (match <Vec<u8> as SiaDecodable>::dec(b) { None => stage8(m, t, b) is None, Some((v, b2)) => stage8(m, t, b) == stage9(m, Transaction { arbitrary_data: v, ..t }, b2) }),
{ reveal(stage8); }
#[verifier::opaque]
pub open spec fn stage9(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 512 != 0 { match <Address as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage10(m, Transaction { new_foundation_address: Some(v), ..t }, b) } } else { stage10(m, t, b) }
}
pub proof fn lemma_stage9(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 512 == 0 ==> stage9(m, t, b) == stage10(m, t, b),
        m & 512 != 0 ==> (match <Address as SiaDecodable>::dec(b) { None => stage9(m, t, b) is None, Some((v, b2)) => stage9(m, t, b) == stage10(m, Transaction { new_foundation_address: Some(v), ..t }, b2) }),
{ reveal(stage9); }
#[verifier::opaque]
pub open spec fn stage10(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> {
    if m & 1024 != 0 { match <Currency as SiaDecodable>::dec(b) { None => None, Some((v, b)) => stage11(m, Transaction { miner_fee: v, ..t }, b) } } else { stage11(m, t, b) }
}
pub proof fn lemma_stage10(m: u64, t: Transaction, b: Seq<u8>)
    ensures m & 1024 == 0 ==> stage10(m, t, b) == stage11(m, t, b),
        m & 1024 != 0 ==> (match <Currency as SiaDecodable>::dec(b) { None => stage10(m, t, b) is None, Some((v, b2)) => stage10(m, t, b) == stage11(m, Transaction { miner_fee: v, ..t }, b2) }),
{ reveal(stage10); }
pub open spec fn stage11(m: u64, t: Transaction, b: Seq<u8>) -> Option<(Transaction, Seq<u8>)> { Some((t, b)) }
pub proof fn lemma_bits()
    ensures 1u64 << 0 == 1, 1u64 << 1 == 2, 1u64 << 2 == 4, 1u64 << 3 == 8, 1u64 << 4 == 16, 1u64 << 5 == 32, 1u64 << 6 == 64, 1u64 << 7 == 128, 1u64 << 8 == 256, 1u64 << 9 == 512, 1u64 << 10 == 1024,
{ assert(1u64 << 0 == 1 && 1u64 << 1 == 2 && 1u64 << 2 == 4 && 1u64 << 3 == 8 && 1u64 << 4 == 16 && 1u64 << 5 == 32 && 1u64 << 6 == 64 && 1u64 << 7 == 128 && 1u64 << 8 == 256 && 1u64 << 9 == 512 && 1u64 << 10 == 1024) by(bit_vector); }
pub proof fn lemma_mask(c0: bool, c1: bool, c2: bool, c3: bool, c4: bool, c5: bool, c6: bool, c7: bool, c8: bool, c9: bool, c10: bool, m0: u64, m1: u64, m2: u64, m3: u64, m4: u64, m5: u64, m6: u64, m7: u64, m8: u64, m9: u64, m10: u64)
    requires m0 == 0 + (if c0 { 1int } else { 0 }), m0 < 2, m1 == m0 + (if c1 { 2int } else { 0 }), m1 < 4, m2 == m1 + (if c2 { 4int } else { 0 }), m2 < 8, m3 == m2 + (if c3 { 8int } else { 0 }), m3 < 16, m4 == m3 + (if c4 { 16int } else { 0 }), m4 < 32, m5 == m4 + (if c5 { 32int } else { 0 }), m5 < 64, m6 == m5 + (if c6 { 64int } else { 0 }), m6 < 128, m7 == m6 + (if c7 { 128int } else { 0 }), m7 < 256, m8 == m7 + (if c8 { 256int } else { 0 }), m8 < 512, m9 == m8 + (if c9 { 512int } else { 0 }), m9 < 1024, m10 == m9 + (if c10 { 1024int } else { 0 }), m10 < 2048,
    ensures (m10 & 1 != 0) == c0, (m10 & 2 != 0) == c1, (m10 & 4 != 0) == c2, (m10 & 8 != 0) == c3, (m10 & 16 != 0) == c4, (m10 & 32 != 0) == c5, (m10 & 64 != 0) == c6, (m10 & 128 != 0) == c7, (m10 & 256 != 0) == c8, (m10 & 512 != 0) == c9, (m10 & 1024 != 0) == c10,
{
    let x0: u64 = if c0 { 1 } else { 0 };
    let x1: u64 = if c1 { 2 } else { 0 };
    let x2: u64 = if c2 { 4 } else { 0 };
    let x3: u64 = if c3 { 8 } else { 0 };
    let x4: u64 = if c4 { 16 } else { 0 };
    let x5: u64 = if c5 { 32 } else { 0 };
    let x6: u64 = if c6 { 64 } else { 0 };
    let x7: u64 = if c7 { 128 } else { 0 };
    let x8: u64 = if c8 { 256 } else { 0 };
    let x9: u64 = if c9 { 512 } else { 0 };
    let x10: u64 = if c10 { 1024 } else { 0 };
    assert(m10 == x0 + x1 + x2 + x3 + x4 + x5 + x6 + x7 + x8 + x9 + x10);
    assert(((m10 & 1 != 0) == c0) && ((m10 & 2 != 0) == c1) && ((m10 & 4 != 0) == c2) && ((m10 & 8 != 0) == c3) && ((m10 & 16 != 0) == c4) && ((m10 & 32 != 0) == c5) && ((m10 & 64 != 0) == c6) && ((m10 & 128 != 0) == c7) && ((m10 & 256 != 0) == c8) && ((m10 & 512 != 0) == c9) && ((m10 & 1024 != 0) == c10)) by(bit_vector)
        requires m10 == (if c0 { 1u64 } else { 0u64 }) + (if c1 { 2u64 } else { 0u64 }) + (if c2 { 4u64 } else { 0u64 }) + (if c3 { 8u64 } else { 0u64 }) + (if c4 { 16u64 } else { 0u64 }) + (if c5 { 32u64 } else { 0u64 }) + (if c6 { 64u64 } else { 0u64 }) + (if c7 { 128u64 } else { 0u64 }) + (if c8 { 256u64 } else { 0u64 }) + (if c9 { 512u64 } else { 0u64 }) + (if c10 { 1024u64 } else { 0u64 });
}
impl crate::lemmas::Codec for Transaction {
    open spec fn wf(&self) -> bool { crate::lemmas::Codec::wf(&self.siacoin_inputs) && crate::lemmas::Codec::wf(&self.siacoin_outputs) && crate::lemmas::Codec::wf(&self.siafund_inputs) && crate::lemmas::Codec::wf(&self.siafund_outputs) && crate::lemmas::Codec::wf(&self.file_contracts) && crate::lemmas::Codec::wf(&self.file_contract_revisions) && crate::lemmas::Codec::wf(&self.file_contract_resolutions) && crate::lemmas::Codec::wf(&self.attestations) && crate::lemmas::Codec::wf(&self.arbitrary_data) }
    proof fn rt(&self, rest: Seq<u8>) {
        crate::spec::lemma_take_u64(self.mask(), self.tail0(rest));
        self.rt0(rest); reveal(Transaction::tail0);
        self.rt1(rest); reveal(Transaction::tail1);
        self.rt2(rest); reveal(Transaction::tail2);
        self.rt3(rest); reveal(Transaction::tail3);
        self.rt4(rest); reveal(Transaction::tail4);
        self.rt5(rest); reveal(Transaction::tail5);
        self.rt6(rest); reveal(Transaction::tail6);
        self.rt7(rest); reveal(Transaction::tail7);
        self.rt8(rest); reveal(Transaction::tail8);
        self.rt9(rest); reveal(Transaction::tail9);
        self.rt10(rest); reveal(Transaction::tail10);
        let h = seq![2u8] + crate::spec::u64le(self.mask());
        crate::spec::lemma_assoc(h, self.part0(), self.tail1(rest));
        crate::spec::lemma_assoc(self.upto0(), self.part1(), self.tail2(rest));
        crate::spec::lemma_assoc(self.upto1(), self.part2(), self.tail3(rest));
        crate::spec::lemma_assoc(self.upto2(), self.part3(), self.tail4(rest));
        crate::spec::lemma_assoc(self.upto3(), self.part4(), self.tail5(rest));
        crate::spec::lemma_assoc(self.upto4(), self.part5(), self.tail6(rest));
        crate::spec::lemma_assoc(self.upto5(), self.part6(), self.tail7(rest));
        crate::spec::lemma_assoc(self.upto6(), self.part7(), self.tail8(rest));
        crate::spec::lemma_assoc(self.upto7(), self.part8(), self.tail9(rest));
        crate::spec::lemma_assoc(self.upto8(), self.part9(), self.tail10(rest));
        crate::spec::lemma_assoc(self.upto9(), self.part10(), rest);
        crate::spec::lemma_assoc(seq![2u8], crate::spec::u64le(self.mask()), self.tail0(rest));
        let b = self.enc() + rest;
        assert(b == seq![2u8] + (crate::spec::u64le(self.mask()) + self.tail0(rest)));
        assert(b.skip(1) =~= crate::spec::u64le(self.mask()) + self.tail0(rest));
        assert(self.first11() == *self);
    }
}
@@ impl types::v2::<Transaction as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { self.upto10() }
@@ fn types::v2::<Transaction as SiaEncodable>::encode
@attr #[verifier::spinoff_prover] #[verifier::rlimit(150)]
@light
@start
hide(Transaction::upto0); hide(Transaction::upto1); hide(Transaction::upto2); hide(Transaction::upto3); hide(Transaction::upto4); hide(Transaction::upto5); hide(Transaction::upto6); hide(Transaction::upto7); hide(Transaction::upto8); hide(Transaction::upto9); hide(Transaction::upto10); 
hide(<Vec<u8> as SiaEncodable>::enc); hide(<Address as SiaEncodable>::enc); hide(<Currency as SiaEncodable>::enc);
let ghost wa = w.written();
proof {
    lemma_bits();
    self.lemma_mask_steps();
    self.start(wa);
    self.step0(wa);
    self.step1(wa);
    self.step2(wa);
    self.step3(wa);
    self.step4(wa);
    self.step5(wa);
    self.step6(wa);
    self.step7(wa);
    self.step8(wa);
    self.step9(wa);
    self.step10(wa);
}
@ifs 11
@sumstep 0
proof { assert(__a0 == self.mask0()); }
@afterif 0
proof { assert(w.written() == self.w0(wa)); }
@sumstep 1
proof { assert(__a0 == self.mask1()); }
@afterif 1
proof { assert(w.written() == self.w1(wa)); }
@sumstep 2
proof { assert(__a0 == self.mask2()); }
@afterif 2
proof { assert(w.written() == self.w2(wa)); }
@sumstep 3
proof { assert(__a0 == self.mask3()); }
@afterif 3
proof { assert(w.written() == self.w3(wa)); }
@sumstep 4
proof { assert(__a0 == self.mask4()); }
@afterif 4
proof { assert(w.written() == self.w4(wa)); }
@sumstep 5
proof { assert(__a0 == self.mask5()); }
@afterif 5
proof { assert(w.written() == self.w5(wa)); }
@sumstep 6
proof { assert(__a0 == self.mask6()); }
@afterif 6
proof { assert(w.written() == self.w6(wa)); }
@sumstep 7
proof { assert(__a0 == self.mask7()); }
@afterif 7
proof { assert(w.written() == self.w7(wa)); }
@sumstep 8
proof { assert(__a0 == self.mask8()); }
@afterif 8
proof { assert(w.written() == self.w8(wa)); }
@sumstep 9
proof { assert(__a0 == self.mask9()); }
@afterif 9
proof { assert(w.written() == self.w9(wa)); }
@sumstep 10
proof { assert(__a0 == self.mask10()); }
@afterif 10
proof { assert(w.written() == self.w10(wa)); }
@@ impl types::v2::<Transaction as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    if b.len() < 1 || b[0] != 2 { None } else {
    match crate::spec::take_u64(b.skip(1)) { None => None, Some((m, b)) => stage0(m, Transaction { siacoin_inputs: none(), siacoin_outputs: none(), siafund_inputs: none(), siafund_outputs: none(), file_contracts: none(), file_contract_revisions: none(), file_contract_resolutions: none(), attestations: none(), arbitrary_data: none(), new_foundation_address: None, miner_fee: Currency(0) }, b) } }
}
@@ fn types::v2::<Transaction as SiaDecodable>::decode
@attr #[verifier::spinoff_prover] #[verifier::rlimit(150)]
@light
@ifs 12
@start
hide(<Vec<u8> as SiaDecodable>::dec); hide(<Address as SiaDecodable>::dec); hide(<Currency as SiaDecodable>::dec);
let ghost b0 = r.remaining();
@afterif 1
proof { lemma_stage1(fields, txn, r.remaining()); }
@afterif 2
proof { lemma_stage2(fields, txn, r.remaining()); }
@afterif 3
proof { lemma_stage3(fields, txn, r.remaining()); }
@afterif 4
proof { lemma_stage4(fields, txn, r.remaining()); }
@afterif 5
proof { lemma_stage5(fields, txn, r.remaining()); }
@afterif 6
proof { lemma_stage6(fields, txn, r.remaining()); }
@afterif 7
proof { lemma_stage7(fields, txn, r.remaining()); }
@afterif 8
proof { lemma_stage8(fields, txn, r.remaining()); }
@afterif 9
proof { lemma_stage9(fields, txn, r.remaining()); }
@afterif 10
proof { lemma_stage10(fields, txn, r.remaining()); }

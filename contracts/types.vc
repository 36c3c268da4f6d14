@@# codecs that are not plain sequences of fields
@@ impl types::common::<SiafundOutput as V1SiaEncodable>
open spec fn enc1(&self) -> Seq<u8> {
    Currency(self.value as u128).enc1() + (self.address.enc1() + Currency(0).enc1())
}
@@ fn types::common::<SiafundOutput as V1SiaEncodable>::encode_v1
@start
broadcast use crate::spec::lemma_assoc;
@@ impl types::common::<SiafundOutput as V1SiaDecodable>
open spec fn dec1(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match Currency::dec1(b) {
        None => None,
        Some((v, b)) => if v.0 > u64::MAX { None } else {
            match Address::dec1(b) {
                None => None,
                Some((address, b)) => match Currency::dec1(b) { None => None, Some((_, b)) => Some((SiafundOutput { value: v.0 as u64, address }, b)) },
            }
        },
    }
}
@@ impl types::common::<Block as V1SiaEncodable>
open spec fn enc1(&self) -> Seq<u8> {
    self.parent_id.enc() + (self.nonce.enc() + (self.timestamp.enc() + (self.miner_payouts.enc1() + self.transactions.enc1())))
}
@@ fn types::common::<Block as V1SiaEncodable>::encode_v1
@start
broadcast use crate::spec::lemma_assoc;
@@ impl types::common::<Block as V1SiaDecodable>
open spec fn dec1(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match BlockID::dec(b) { None => None, Some((parent_id, b)) =>
    match u64::dec(b) { None => None, Some((nonce, b)) =>
    match OffsetDateTime::dec(b) { None => None, Some((timestamp, b)) =>
    match Vec::<SiacoinOutput>::dec1(b) { None => None, Some((miner_payouts, b)) =>
    match Vec::<v1::Transaction>::dec1(b) { None => None, Some((transactions, b)) =>
        Some((Block { parent_id, nonce, timestamp, miner_payouts, transactions }, b)) } } } } }
}
@@ type types::work::Work
#[verifier::ext_equal]
@@ mod types::work
impl Work {
    /// the number
    pub open spec fn val(&self) -> nat {
        self.0[0] as nat + 0x1_0000_0000_0000_0000 * (self.0[1] as nat + 0x1_0000_0000_0000_0000 * (self.0[2] as nat + 0x1_0000_0000_0000_0000 * self.0[3] as nat))
    }
}
@@ fn types::work::Work::to_big_endian external
    ensures res@ == crate::spec::be(self.val(), 32)
@@ fn types::work::Work::from_big_endian external
    ensures slice@.len() <= 32 ==> res.val() == crate::spec::unbe(slice@) && res == crate::lemmas_types::work_from(crate::spec::unbe(slice@))
@@ impl types::work::<Work as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { crate::spec::be(self.val(), 32) }
@@ impl types::work::<Work as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    if b.len() < 32 { None } else { Some((crate::lemmas_types::work_from(crate::spec::unbe(b.take(32))), b.skip(32))) }
}
@@ impl types::work::<Work as V1SiaEncodable>
open spec fn enc1(&self) -> Seq<u8> { crate::spec::be(self.val(), 32) }
@@ impl types::work::<Work as V1SiaDecodable>
open spec fn dec1(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    if b.len() < 32 { None } else { Some((crate::lemmas_types::work_from(crate::spec::unbe(b.take(32))), b.skip(32))) }
}

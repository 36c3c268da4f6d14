// Round trips of the codecs in types.vc, and the facts about numbers they need.
pub mod lemmas_types {
use vstd::prelude::*;
use crate::spec::*;
use crate::encoding::*;
use crate::lemmas::{Codec, Codec1};
use crate::types::currency::Currency;
use crate::types::common::*;
use crate::types::work::Work;

pub proof fn lemma_trim0(b: Seq<u8>)
    ensures unbe(trim0(b)) == unbe(b), trim0(b).len() <= b.len(),
    decreases b.len(),
{
    if b.len() > 0 && b[0] == 0 {
        lemma_trim0(b.skip(1));
        lemma_unbe_zero(b);
    }
}
pub proof fn lemma_unbe_zero(b: Seq<u8>)
    requires b.len() > 0, b[0] == 0,
    ensures unbe(b) == unbe(b.skip(1)),
    decreases b.len(),
{
    if b.len() > 1 {
        lemma_unbe_zero(b.drop_last());
        assert(b.skip(1).drop_last() =~= b.drop_last().skip(1));
    } else {
        assert(b.drop_last() =~= seq![]);
        assert(b.skip(1) =~= seq![]);
    }
}
/// leading zeros do not count
pub proof fn lemma_unbe_zeros(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> b[i] == 0,
    ensures unbe(b) == unbe(b.skip(k)),
    decreases k,
{
    if k > 0 {
        lemma_unbe_zero(b);
        lemma_unbe_zeros(b.skip(1), k - 1);
        assert(b.skip(1).skip(k - 1) =~= b.skip(k));
    } else {
        assert(b.skip(0) =~= b);
    }
}
pub proof fn lemma_trim0_is(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> b[i] == 0, k < b.len() ==> b[k] != 0,
    ensures trim0(b) == b.skip(k),
    decreases k,
{
    if k > 0 {
        lemma_trim0_is(b.skip(1), k - 1);
        assert(b.skip(1).skip(k - 1) =~= b.skip(k));
    } else {
        assert(b.skip(0) =~= b);
    }
}
pub proof fn lemma_trim0_all(b: Seq<u8>)
    ensures forall|k: int| 0 <= k <= b.len() && (forall|i: int| 0 <= i < k ==> b[i] == 0) && (k < b.len() ==> b[k] != 0) ==> #[trigger] b.skip(k) == trim0(b),
{
    assert forall|k: int| 0 <= k <= b.len() && (forall|i: int| 0 <= i < k ==> b[i] == 0) && (k < b.len() ==> b[k] != 0) implies #[trigger] b.skip(k) == trim0(b) by {
        lemma_trim0_is(b, k);
    }
}
/// a number in the last bytes of a zeroed buffer
pub proof fn lemma_unbe_pad16()
    ensures forall|b: Seq<u8>, t: Seq<u8>| b.len() == 16 && t.len() <= 16 && b.skip(16 - t.len()) =~= t && (forall|i: int| 0 <= i < 16 - t.len() ==> b[i] == 0)
        ==> #[trigger] unbe(b) == #[trigger] unbe(t),
{
    assert forall|b: Seq<u8>, t: Seq<u8>| b.len() == 16 && t.len() <= 16 && b.skip(16 - t.len()) =~= t && (forall|i: int| 0 <= i < 16 - t.len() ==> b[i] == 0)
        implies #[trigger] unbe(b) == #[trigger] unbe(t) by {
        lemma_unbe_zeros(b, 16 - t.len());
    }
}
pub proof fn lemma_unbe_bound(b: Seq<u8>)
    ensures unbe(b) < pow256(b.len()),
    decreases b.len(),
{ if b.len() > 0 { lemma_unbe_bound(b.drop_last()); } }
pub proof fn lemma_pow256_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow256(a) <= pow256(b),
    decreases b,
{ if a < b { lemma_pow256_mono(a, (b - 1) as nat); assert(pow256((b - 1) as nat) <= pow256(b)); } }

impl Codec for Currency {
    open spec fn wf(&self) -> bool { true }
    proof fn rt(&self, rest: Seq<u8>) {
        broadcast use group_spec;
        lemma_pow256();
        lemma_unle_le(self.0 as nat, 16);
        assert((self.enc() + rest).take(16) =~= self.enc());
        assert((self.enc() + rest).skip(16) =~= rest);
    }
}
impl Codec1 for Currency {
    open spec fn wf1(&self) -> bool { true }
    proof fn rt1(&self, rest: Seq<u8>) {
        broadcast use group_spec;
        lemma_pow256();
        let b = be(self.0 as nat, 16);
        let t = trim0(b);
        lemma_trim0(b);
        lemma_unbe_be(self.0 as nat, 16);
        assert(self.enc1() + rest =~= u64le(t.len() as u64) + (t + rest));
        assert((t + rest).take(t.len() as int) =~= t);
        assert((t + rest).skip(t.len() as int) =~= rest);
    }
}
impl Codec1 for SiafundOutput {
    open spec fn wf1(&self) -> bool { true }
    proof fn rt1(&self, rest: Seq<u8>) {
        broadcast use group_spec;
        broadcast use lemma_assoc;
        let (c, a, z) = (Currency(self.value as u128), self.address, Currency(0));
        c.rt1(a.enc1() + (z.enc1() + rest));
        Codec1::rt1(&a, z.enc1() + rest);
        z.rt1(rest);
    }
}
impl Codec1 for Block {
    open spec fn wf1(&self) -> bool { Codec::wf(&self.timestamp) && Codec1::wf1(&self.miner_payouts) && Codec1::wf1(&self.transactions) }
    proof fn rt1(&self, rest: Seq<u8>) {
        broadcast use group_spec;
        broadcast use lemma_assoc;
        let r4 = self.transactions.enc1() + rest;
        let r3 = self.miner_payouts.enc1() + r4;
        let r2 = self.timestamp.enc() + r3;
        let r1 = self.nonce.enc() + r2;
        Codec::rt(&self.parent_id, r1);
        Codec::rt(&self.nonce, r2);
        Codec::rt(&self.timestamp, r3);
        Codec1::rt1(&self.miner_payouts, r4);
        Codec1::rt1(&self.transactions, rest);
    }
}
pub uninterp spec fn work_from(n: nat) -> Work;
/// a Work is its four 64-bit limbs
pub axiom fn ax_work_from(w: Work) ensures work_from(w.val()) == w;
impl Codec for Work {
    open spec fn wf(&self) -> bool { true }
    proof fn rt(&self, rest: Seq<u8>) {
        broadcast use group_spec;
        ax_work_from(*self);
        lemma_work_bound(*self);
        lemma_unbe_be(self.val(), 32);
        assert((self.enc() + rest).take(32) =~= self.enc());
        assert((self.enc() + rest).skip(32) =~= rest);
    }
}
pub proof fn lemma_work_bound(w: Work)
    ensures w.val() < pow256(32),
{
    reveal_with_fuel(pow256, 33);
}
} // lemmas_types

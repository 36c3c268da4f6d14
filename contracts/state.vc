@@# the accumulator's leaf count and the trees it implies; the chain state
@@ mod consensus
pub open spec fn tree_at(n: u64, i: nat) -> bool { n & (1u64 << (i as u64)) != 0 }
/// the trees below height `k`
pub open spec fn trees_enc(n: u64, t: Seq<Hash256>, k: nat) -> Seq<u8>
    decreases k,
{ if k == 0 { seq![] } else { trees_enc(n, t, (k - 1) as nat) + (if tree_at(n, (k - 1) as nat) { t[k - 1].enc() } else { seq![] }) } }
pub open spec fn no_tree() -> Hash256 { crate::lemmas_merkle::zero_hash() }
pub open spec fn trees_dec(n: u64, b: Seq<u8>, k: nat) -> Option<(Seq<Hash256>, Seq<u8>)>
    decreases k,
{
    if k == 0 { Some((seq![], b)) } else {
        match trees_dec(n, b, (k - 1) as nat) {
            None => None,
            Some((s, b)) => if tree_at(n, (k - 1) as nat) { match Hash256::dec(b) { None => None, Some((h, b)) => Some((s.push(h), b)) } } else { Some((s.push(no_tree()), b)) },
        }
    }
}
pub proof fn lemma_trees_none(n: u64, b: Seq<u8>, k: nat, m: nat)
    requires k <= m, trees_dec(n, b, k) is None,
    ensures trees_dec(n, b, m) is None,
    decreases m,
{ if k < m { lemma_trees_none(n, b, k, (m - 1) as nat); } }
pub proof fn lemma_trees_len(n: u64, b: Seq<u8>, k: nat)
    ensures trees_dec(n, b, k) matches Some((s, _)) ==> s.len() == k,
    decreases k,
{ if k > 0 { lemma_trees_len(n, b, (k - 1) as nat); } }
pub proof fn lemma_trees_rt(n: u64, t: Seq<Hash256>, k: nat, rest: Seq<u8>)
    requires k <= t.len(), forall|i: nat| i < k && !(#[trigger] tree_at(n, i)) ==> t[i as int] == no_tree(),
    ensures trees_dec(n, trees_enc(n, t, k) + rest, k) == Some((t.take(k as int), rest)),
    decreases k,
{
    broadcast use crate::spec::group_spec;
    if k == 0 {
        assert(trees_enc(n, t, 0) + rest =~= rest);
        assert(t.take(0) =~= seq![]);
    } else {
        let j = (k - 1) as nat;
        let e = if tree_at(n, j) { t[k - 1].enc() } else { seq![] };
        lemma_trees_rt(n, t, j, e + rest);
        assert(trees_enc(n, t, k) + rest =~= trees_enc(n, t, j) + (e + rest));
        if tree_at(n, j) { crate::lemmas::Codec::rt(&t[k - 1], rest); } else { assert(e + rest =~= rest); }
        assert(t.take(j as int).push(t[k - 1]) =~= t.take(k as int));
    }
}
impl crate::lemmas::Codec for ElementAccumulator {
    /// no trees but those the count implies
    open spec fn wf(&self) -> bool { forall|i: nat| i < 64 && !(#[trigger] tree_at(self.num_leaves, i)) ==> self.trees@[i as int] == no_tree() }
    proof fn rt(&self, rest: Seq<u8>) {
        broadcast use crate::spec::group_spec;
        let r = trees_enc(self.num_leaves, self.trees@, 64) + rest;
        crate::lemmas::Codec::rt(&self.num_leaves, r);
        assert(self.enc() + rest =~= self.num_leaves.enc() + r);
        lemma_trees_rt(self.num_leaves, self.trees@, 64, rest);
        assert(self.trees@.take(64) =~= self.trees@);
    }
}
@@ fn consensus::has_tree_at_height
    requires height < 64
    ensures res == tree_at(*num_leaves, height as nat)
@start
proof {
    let (n, h) = (*num_leaves, height as u64);
    assert((n & (1u64 << h) != 0) == ((n >> h) & 1 == 1) && (n & (1u64 << h) != 0) == ((n >> h) % 2 == 1)) by(bit_vector) requires h < 64;
}
@@ impl consensus::<ElementAccumulator as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { self.num_leaves.enc() + trees_enc(self.num_leaves, self.trees@, 64) }
@@ fn consensus::<ElementAccumulator as SiaEncodable>::encode
@loops 1
@loop 0
    invariant __i0 <= __n0, __n0 == 64, __s0@ == self.trees@, w.reliable() == old(w).reliable(), w.kind() == old(w).kind(),
        w.written() == old(w).written() + self.num_leaves.enc() + trees_enc(self.num_leaves, self.trees@, __i0 as nat),
    decreases __n0 - __i0,
@@ impl consensus::<ElementAccumulator as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match u64::dec(b) { None => None, Some((num_leaves, b)) =>
    match trees_dec(num_leaves, b, 64) { None => None, Some((t, b)) => Some((ElementAccumulator { num_leaves, trees: crate::spec::array_from(t) }, b)) } }
}
@@ fn consensus::<ElementAccumulator as SiaDecodable>::decode
@loops 1
@before 0
let ghost r0 = r.remaining();
@loop 0
    invariant __i0 <= __n0, __n0 == 64, trees@.len() == 64, r.reliable() == old(r).reliable(), r.remaining().len() <= r0.len(),
        trees_dec(num_leaves, r0, __i0 as nat) == Some((trees@.take(__i0 as int), r.remaining())),
        forall|x: int| __i0 <= x < 64 ==> #[trigger] trees@[x] == no_tree(),
    decreases __n0 - __i0,
@body 0
let ghost k = __i0 as nat;
let ghost t0 = trees@;
proof { if trees_dec(num_leaves, r0, k) is None { lemma_trees_none(num_leaves, r0, k, 64); } }
@bodyend 0
proof { assert(trees@.take(k as int) =~= t0.take(k - 1).push(trees@[k - 1])); }
@after 0
proof { assert(trees@.take(64) =~= trees@); }

@@ mod consensus
/// how many timestamps exist at this height
pub open spec fn ts_count(h: u64) -> nat { if h == u64::MAX { 0 } else if h >= 10 { 11 } else { (h + 1) as nat } }
pub open spec fn ts_enc(t: Seq<OffsetDateTime>, k: nat) -> Seq<u8>
    decreases k,
{ if k == 0 { seq![] } else { ts_enc(t, (k - 1) as nat) + t[k - 1].enc() } }
pub open spec fn ts_dec(b: Seq<u8>, k: nat) -> Option<(Seq<OffsetDateTime>, Seq<u8>)>
    decreases k,
{
    if k == 0 { Some((seq![], b)) } else {
        match ts_dec(b, (k - 1) as nat) {
            None => None,
            Some((s, b)) => match OffsetDateTime::dec(b) { None => None, Some((h, b)) => Some((s.push(h), b)) },
        }
    }
}
/// those that do not exist are the epoch
pub open spec fn ts_pad(s: Seq<OffsetDateTime>) -> Seq<OffsetDateTime> { Seq::new(11, |i: int| if i < s.len() { s[i] } else { crate::shim_time::odt_from(0) }) }
pub proof fn lemma_ts_none(b: Seq<u8>, k: nat, m: nat)
    requires k <= m, ts_dec(b, k) is None,
    ensures ts_dec(b, m) is None,
    decreases m,
{ if k < m { lemma_ts_none(b, k, (m - 1) as nat); } }
pub proof fn lemma_ts_rt(t: Seq<OffsetDateTime>, k: nat, rest: Seq<u8>)
    requires k <= t.len(), forall|i: int| 0 <= i < k ==> crate::lemmas::Codec::wf(&(#[trigger] t[i])),
    ensures ts_dec(ts_enc(t, k) + rest, k) == Some((t.take(k as int), rest)),
    decreases k,
{
    broadcast use crate::spec::group_spec;
    if k == 0 {
        assert(ts_enc(t, 0) + rest =~= rest);
        assert(t.take(0) =~= seq![]);
    } else {
        let j = (k - 1) as nat;
        let e = t[k - 1].enc();
        lemma_ts_rt(t, j, e + rest);
        assert(ts_enc(t, k) + rest =~= ts_enc(t, j) + (e + rest));
        crate::lemmas::Codec::rt(&t[k - 1], rest);
        assert(t.take(j as int).push(t[k - 1]) =~= t.take(k as int));
    }
}
impl State {
    pub open spec fn tail_enc(&self) -> Seq<u8> { self.depth.enc() + self.child_target.enc() + self.siafund_pool.enc() + self.oak_time.enc() + self.oak_target.enc() + self.foundation_primary_address.enc() + self.foundation_failsafe_address.enc() + self.total_work.enc() + self.difficulty.enc() + self.oak_work.enc() + self.elements.enc() + self.attestations.enc() }
    pub open spec fn tail_dec(index: ChainIndex, ts: Seq<OffsetDateTime>, b: Seq<u8>) -> Option<(State, Seq<u8>)> {
        match <BlockID as SiaDecodable>::dec(b) { None => None, Some((depth, b)) =>
        match <BlockID as SiaDecodable>::dec(b) { None => None, Some((child_target, b)) =>
        match <Currency as SiaDecodable>::dec(b) { None => None, Some((siafund_pool, b)) =>
        match <Duration as SiaDecodable>::dec(b) { None => None, Some((oak_time, b)) =>
        match <BlockID as SiaDecodable>::dec(b) { None => None, Some((oak_target, b)) =>
        match <Address as SiaDecodable>::dec(b) { None => None, Some((foundation_primary_address, b)) =>
        match <Address as SiaDecodable>::dec(b) { None => None, Some((foundation_failsafe_address, b)) =>
        match <Work as SiaDecodable>::dec(b) { None => None, Some((total_work, b)) =>
        match <Work as SiaDecodable>::dec(b) { None => None, Some((difficulty, b)) =>
        match <Work as SiaDecodable>::dec(b) { None => None, Some((oak_work, b)) =>
        match <ElementAccumulator as SiaDecodable>::dec(b) { None => None, Some((elements, b)) =>
        match <u64 as SiaDecodable>::dec(b) { None => None, Some((attestations, b)) =>
        Some((State { index, prev_timestamps: crate::spec::array_from(ts_pad(ts)), depth, child_target, siafund_pool, oak_time, oak_target, foundation_primary_address, foundation_failsafe_address, total_work, difficulty, oak_work, elements, attestations }, b)) } } } } } } } } } } } }
    }
    pub proof fn lemma_tail(&self, ts: Seq<OffsetDateTime>, rest: Seq<u8>)
        requires
            self.prev_timestamps@ == ts_pad(ts),
            crate::lemmas::Codec::wf(&self.depth), crate::lemmas::Codec::wf(&self.child_target), crate::lemmas::Codec::wf(&self.siafund_pool), crate::lemmas::Codec::wf(&self.oak_time), crate::lemmas::Codec::wf(&self.oak_target), crate::lemmas::Codec::wf(&self.foundation_primary_address), crate::lemmas::Codec::wf(&self.foundation_failsafe_address), crate::lemmas::Codec::wf(&self.total_work), crate::lemmas::Codec::wf(&self.difficulty), crate::lemmas::Codec::wf(&self.oak_work), crate::lemmas::Codec::wf(&self.elements), crate::lemmas::Codec::wf(&self.attestations),
        ensures State::tail_dec(self.index, ts, self.tail_enc() + rest) == Some((*self, rest)),
    {
        broadcast use crate::spec::group_spec;
        let r12 = rest;
        let r11 = self.attestations.enc() + r12;
        crate::lemmas::Codec::rt(&self.attestations, r12);
        let r10 = self.elements.enc() + r11;
        crate::lemmas::Codec::rt(&self.elements, r11);
        let r9 = self.oak_work.enc() + r10;
        crate::lemmas::Codec::rt(&self.oak_work, r10);
        let r8 = self.difficulty.enc() + r9;
        crate::lemmas::Codec::rt(&self.difficulty, r9);
        let r7 = self.total_work.enc() + r8;
        crate::lemmas::Codec::rt(&self.total_work, r8);
        let r6 = self.foundation_failsafe_address.enc() + r7;
        crate::lemmas::Codec::rt(&self.foundation_failsafe_address, r7);
        let r5 = self.foundation_primary_address.enc() + r6;
        crate::lemmas::Codec::rt(&self.foundation_primary_address, r6);
        let r4 = self.oak_target.enc() + r5;
        crate::lemmas::Codec::rt(&self.oak_target, r5);
        let r3 = self.oak_time.enc() + r4;
        crate::lemmas::Codec::rt(&self.oak_time, r4);
        let r2 = self.siafund_pool.enc() + r3;
        crate::lemmas::Codec::rt(&self.siafund_pool, r3);
        let r1 = self.child_target.enc() + r2;
        crate::lemmas::Codec::rt(&self.child_target, r2);
        let r0 = self.depth.enc() + r1;
        crate::lemmas::Codec::rt(&self.depth, r1);
        assert(self.tail_enc() + rest =~= r0);
    }
}
impl crate::lemmas::Codec for State {
    open spec fn wf(&self) -> bool {
        let n = ts_count(self.index.height);
        &&& forall|i: int| 0 <= i < n ==> crate::lemmas::Codec::wf(&(#[trigger] self.prev_timestamps@[i]))
        &&& forall|i: int| n <= i < 11 ==> (#[trigger] self.prev_timestamps@[i]) == crate::shim_time::odt_from(0)
        &&& crate::lemmas::Codec::wf(&self.depth)
        &&& crate::lemmas::Codec::wf(&self.child_target)
        &&& crate::lemmas::Codec::wf(&self.siafund_pool)
        &&& crate::lemmas::Codec::wf(&self.oak_time)
        &&& crate::lemmas::Codec::wf(&self.oak_target)
        &&& crate::lemmas::Codec::wf(&self.foundation_primary_address)
        &&& crate::lemmas::Codec::wf(&self.foundation_failsafe_address)
        &&& crate::lemmas::Codec::wf(&self.total_work)
        &&& crate::lemmas::Codec::wf(&self.difficulty)
        &&& crate::lemmas::Codec::wf(&self.oak_work)
        &&& crate::lemmas::Codec::wf(&self.elements)
        &&& crate::lemmas::Codec::wf(&self.attestations)
    }
    proof fn rt(&self, rest: Seq<u8>) {
        broadcast use crate::spec::group_spec;
        let n = ts_count(self.index.height);
        let r2 = self.tail_enc() + rest;
        let r1 = ts_enc(self.prev_timestamps@, n) + r2;
        crate::lemmas::Codec::rt(&self.index, r1);
        lemma_ts_rt(self.prev_timestamps@, n, r2);
        let ts = self.prev_timestamps@.take(n as int);
        assert(self.prev_timestamps@ =~= ts_pad(ts));
        self.lemma_tail(ts, rest);
        assert(self.enc() + rest =~= self.index.enc() + r1);
    }
}
@@ impl consensus::<State as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { self.index.enc() + ts_enc(self.prev_timestamps@, ts_count(self.index.height)) + self.tail_enc() }
@@ fn consensus::<State as SiaEncodable>::encode
@loops 1
@loop 0
    invariant __i0 <= __n0, __n0 == ts_count(self.index.height), __n0 <= __s0@.len(), forall|i: int| 0 <= i < __n0 ==> __s0@[i] == self.prev_timestamps@[i], w.reliable() == old(w).reliable(), w.kind() == old(w).kind(),
        w.written() == old(w).written() + self.index.enc() + ts_enc(self.prev_timestamps@, __i0 as nat),
    decreases __n0 - __i0,
@@ impl consensus::<State as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match ChainIndex::dec(b) { None => None, Some((index, b)) =>
    match ts_dec(b, ts_count(index.height)) { None => None, Some((ts, b)) => State::tail_dec(index, ts, b) } }
}
@@ fn consensus::<State as SiaDecodable>::decode
@loops 1
@before 0
let ghost r0 = r.remaining();
@loop 0
    invariant __i0 <= __n0, __n0 == ts_count(index.height), __s0@.len() == __n0, r.reliable() == old(r).reliable(), r.remaining().len() <= r0.len(),
        ts_dec(r0, __i0 as nat) == Some((__s0@.take(__i0 as int), r.remaining())),
    decreases __n0 - __i0,
@body 0
let ghost k = __i0 as nat;
let ghost t0 = __s0@;
proof { if ts_dec(r0, k) is None { lemma_ts_none(r0, k, __n0 as nat); } }
@bodyend 0
proof { assert(__s0@.take(k as int) =~= t0.take(k - 1).push(__s0@[k - 1])); }
@after 0
let ghost ts = __s0@;
proof { assert(__s0@.take(__n0 as int) =~= __s0@); }
@tail
proof { assert(prev_timestamps@ =~= ts_pad(prev_timestamps@.take(timestamps_count as int))); }

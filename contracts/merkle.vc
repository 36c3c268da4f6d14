@@# the Merkle tree accumulator
@@ mod merkle
impl Accumulator {
    pub open spec fn wf(&self) -> bool { self.params.hlen() == 32 }
    /// it accumulates the leaves `s`
    pub open spec fn holds(&self, s: Seq<Hash256>) -> bool {
        &&& self.num_leaves == s.len()
        &&& forall|i: nat| i < 64 && crate::lemmas_merkle::bit(s.len(), i) ==> #[trigger] self.tree_ok(s, i)
    }
    /// the tree at height `i` is that of its 2^i leaves
    pub open spec fn tree_ok(&self, s: Seq<Hash256>, i: nat) -> bool {
        let o = crate::lemmas_merkle::off(s.len(), i) as int;
        self.trees[i as int] == crate::lemmas_merkle::mroot(s.subrange(o, o + vstd::arithmetic::power2::pow2(i)))
    }
}
@@ fn merkle::Accumulator::new
    ensures res.wf(), res.holds(seq![])
@tail
proof { assert forall|i: nat| !(#[trigger] crate::lemmas_merkle::bit(0, i)) by { vstd::arithmetic::power2::lemma_pow2_pos(i); vstd::arithmetic::div_mod::lemma_basic_div(0, vstd::arithmetic::power2::pow2(i) as int); } }
@@ fn merkle::Accumulator::has_tree_at_height
    requires height < 64
    ensures res == crate::lemmas_merkle::bit(self.num_leaves as nat, height as nat)
@start
proof { crate::lemmas_merkle::lemma_bit(self.num_leaves, height as u64); }
@@ fn merkle::sum_leaf
    requires params.hlen() == 32
    ensures res == crate::lemmas_merkle::leaf(leaf@)
@start
broadcast use crate::spec::lemma_take32;
proof { assert(Seq::<u8>::empty() + [0u8]@ =~= seq![0u8]); }
@tail
proof { assert(res__.0@ == crate::spec::h256(seq![0u8] + leaf@)); }
@@ fn merkle::sum_node
    requires params.hlen() == 32
    ensures res == crate::lemmas_merkle::node(*left, *right)
@start
broadcast use crate::spec::lemma_take32;
proof { assert(Seq::<u8>::empty() + [1u8]@ =~= seq![1u8]); }
@tail
proof { assert(res__.0@ == crate::spec::h256(seq![1u8] + left.0@ + right.0@)); }
@@ mod merkle
/// the last 2^i leaves of those in `s` and `h`
pub open spec fn newest(s: Seq<Hash256>, h: Hash256, i: nat) -> Hash256 {
    crate::lemmas_merkle::mroot(s.push(h).subrange(s.len() + 1 - vstd::arithmetic::power2::pow2(i), s.len() as int + 1))
}
pub proof fn lemma_add_start(s: Seq<Hash256>, h: Hash256)
    ensures newest(s, h, 0) == h, crate::lemmas_merkle::low(s.len(), 0) == vstd::arithmetic::power2::pow2(0) - 1, vstd::arithmetic::power2::pow2(0) == 1,
{
    vstd::arithmetic::power2::lemma2_to64();
    crate::lemmas_merkle::lemma_digits(s.len(), 0);
    assert(s.push(h).subrange(s.len() as int, s.len() as int + 1) =~= seq![h]);
}
pub proof fn lemma_add_step(acc: Accumulator, s: Seq<Hash256>, h: Hash256, i: nat)
    requires acc.holds(s), i < 64, crate::lemmas_merkle::bit(s.len(), i), crate::lemmas_merkle::low(s.len(), i) == vstd::arithmetic::power2::pow2(i) - 1,
    ensures crate::lemmas_merkle::node(acc.trees[i as int], newest(s, h, i)) == newest(s, h, i + 1),
{
    crate::lemmas_merkle::lemma_digits(s.len(), i);
    assert(acc.tree_ok(s, i));
    let n = s.len() as int;
    let p = vstd::arithmetic::power2::pow2(i) as int;
    let o = crate::lemmas_merkle::off(s.len(), i) as int;
    assert(o + 2 * p == n + 1);
    assert(s.subrange(o, o + p) =~= s.push(h).subrange(o, o + p));
    crate::lemmas_merkle::lemma_join_at(s.push(h), o, i, o + p, n + 1);
}
pub proof fn lemma_add_done(acc: Accumulator, acc2: Accumulator, s: Seq<Hash256>, h: Hash256, i: nat)
    requires acc.holds(s), i < 64, !crate::lemmas_merkle::bit(s.len(), i), crate::lemmas_merkle::low(s.len(), i) == vstd::arithmetic::power2::pow2(i) - 1,
        acc2.num_leaves == acc.num_leaves + 1, acc2.trees[i as int] == newest(s, h, i),
        forall|j: int| 0 <= j < 64 && j != i ==> acc2.trees[j] == acc.trees[j],
    ensures acc2.holds(s.push(h)),
{
    let n = s.len();
    let s2 = s.push(h);
    crate::lemmas_merkle::lemma_inc(n, n + 1, i);
    assert forall|j: nat| j < 64 && crate::lemmas_merkle::bit(s2.len(), j) implies #[trigger] acc2.tree_ok(s2, j) by {
        if j > i {
            assert(crate::lemmas_merkle::bit(n, j));
            assert(acc.tree_ok(s, j));
            crate::lemmas_merkle::lemma_digits(n, j);
            let o = crate::lemmas_merkle::off(n, j) as int;
            let p = vstd::arithmetic::power2::pow2(j) as int;
            assert(s.subrange(o, o + p) =~= s2.subrange(o, o + p));
        }
    }
}
pub proof fn lemma_ones(n: nat, i: nat)
    requires n < u64::MAX, crate::lemmas_merkle::low(n, i) == vstd::arithmetic::power2::pow2(i) - 1, i <= 64,
    ensures i < 64,
{
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::lemma2_to64_rest();
    vstd::arithmetic::div_mod::lemma_small_mod(n, 0x1_0000_0000_0000_0000);
}
/// the leaves below height `i`
pub open spec fn lowest(s: Seq<Hash256>, i: nat) -> Hash256 {
    crate::lemmas_merkle::mroot(s.subrange(s.len() - crate::lemmas_merkle::low(s.len(), i), s.len() as int))
}
pub proof fn lemma_root_start(acc: Accumulator, s: Seq<Hash256>, i: nat)
    requires acc.holds(s), i < 64, crate::lemmas_merkle::bit(s.len(), i), crate::lemmas_merkle::low(s.len(), i) == 0,
    ensures acc.trees[i as int] == lowest(s, i + 1), crate::lemmas_merkle::low(s.len(), i + 1) > 0,
{
    crate::lemmas_merkle::lemma_digits(s.len(), i);
    assert(acc.tree_ok(s, i));
}
pub proof fn lemma_root_step(acc: Accumulator, s: Seq<Hash256>, i: nat)
    requires acc.holds(s), i < 64, crate::lemmas_merkle::low(s.len(), i) > 0,
    ensures crate::lemmas_merkle::low(s.len(), i + 1) > 0,
        crate::lemmas_merkle::bit(s.len(), i) ==> crate::lemmas_merkle::node(acc.trees[i as int], lowest(s, i)) == lowest(s, i + 1),
        !crate::lemmas_merkle::bit(s.len(), i) ==> lowest(s, i) == lowest(s, i + 1),
{
    crate::lemmas_merkle::lemma_digits(s.len(), i);
    if crate::lemmas_merkle::bit(s.len(), i) {
        assert(acc.tree_ok(s, i));
        let o = crate::lemmas_merkle::off(s.len(), i) as int;
        crate::lemmas_merkle::lemma_join_at(s, o, i, o + vstd::arithmetic::power2::pow2(i), s.len() as int);
    }
}
pub proof fn lemma_root_done(s: Seq<Hash256>)
    requires s.len() <= u64::MAX,
    ensures lowest(s, 64) == crate::lemmas_merkle::mroot(s),
{
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::lemma2_to64_rest();
    vstd::arithmetic::div_mod::lemma_small_mod(s.len(), 0x1_0000_0000_0000_0000);
    assert(s.subrange(0, s.len() as int) =~= s);
}
/// the lowest digit that is one
pub proof fn lemma_tz(n: u64, t: u32)
    requires t == vstd::std_specs::bits::u64_trailing_zeros(n), t < 64,
    ensures crate::lemmas_merkle::bit(n as nat, t as nat), crate::lemmas_merkle::low(n as nat, t as nat) == 0,
{
    vstd::std_specs::bits::axiom_u64_trailing_zeros(n);
    let t = t as u64;
    assert(n & (1u64 << t) != 0 && (n & sub((1u64 << t), 1)) == 0) by(bit_vector)
        requires t < 64, (n >> t) & 1u64 == 1u64, n << sub(64, t) == 0 || t == 0;
    crate::lemmas_merkle::lemma_bit(n, t);
    assert(1u64 << t == vstd::arithmetic::power2::pow2(t as nat)) by {
        vstd::arithmetic::power2::lemma2_to64();
        vstd::arithmetic::power2::lemma2_to64_rest();
        vstd::arithmetic::power2::lemma_pow2_strictly_increases(t as nat, 64);
        vstd::bits::lemma_u64_shl_is_mul(1, t);
    }
    vstd::bits::lemma_u64_low_bits_mask_is_mod(n, t as nat);
    vstd::bits::lemma_low_bits_mask_values();
    vstd::arithmetic::power2::lemma_pow2_pos(t as nat);
    reveal(vstd::bits::low_bits_mask);
    assert(vstd::bits::low_bits_mask(t as nat) == vstd::arithmetic::power2::pow2(t as nat) - 1);
}
@@ fn merkle::Accumulator::add_leaf
    requires old(self).wf(), old(self).num_leaves < u64::MAX
    ensures final(self).wf(), final(self).num_leaves == old(self).num_leaves + 1,
        forall|s: Seq<Hash256>| old(self).holds(s) ==> #[trigger] final(self).holds(s.push(*h))
@loops 1
@start
let ghost n = self.num_leaves as nat;
let ghost acc = *self;
proof {
    vstd::arithmetic::power2::lemma2_to64();
    crate::lemmas_merkle::lemma_digits(n, 0);
    assert forall|s: Seq<Hash256>| #[trigger] newest(s, *h, 0) == *h by { lemma_add_start(s, *h); }
}
@loop 0
    invariant
        i < 64, crate::lemmas_merkle::low(n, i as nat) == vstd::arithmetic::power2::pow2(i as nat) - 1,
        forall|s: Seq<Hash256>| #[trigger] acc.holds(s) ==> node == newest(s, *h, i as nat),
    decreases 64 - i,
@body 0
proof {
    crate::lemmas_merkle::lemma_digits(n, i as nat);
    lemma_ones(n, i as nat + 1);
    assert forall|s: Seq<Hash256>| #[trigger] acc.holds(s) implies crate::lemmas_merkle::node(acc.trees[i as int], newest(s, *h, i as nat)) == newest(s, *h, i as nat + 1) by { lemma_add_step(acc, s, *h, i as nat); }
}
@tail
proof {
    assert forall|s: Seq<Hash256>| acc.holds(s) implies #[trigger] self.holds(s.push(*h)) by { lemma_add_done(acc, *self, s, *h, i as nat); }
}
@@ fn merkle::Accumulator::root
    requires self.wf()
    ensures forall|s: Seq<Hash256>| #[trigger] self.holds(s) ==> res == crate::lemmas_merkle::mroot(s)
@loops 1
@ifs 1
@afterif 0
proof {
    lemma_tz(self.num_leaves, i as u32);
    crate::lemmas_merkle::lemma_digits(self.num_leaves as nat, i as nat);
    assert forall|s: Seq<Hash256>| #[trigger] self.holds(s) implies self.trees[i as int] == lowest(s, i as nat + 1) by { lemma_root_start(*self, s, i as nat); }
}
@loop 0
    invariant
        i <= 64, crate::lemmas_merkle::low(self.num_leaves as nat, i as nat) > 0,
        forall|s: Seq<Hash256>| #[trigger] self.holds(s) ==> root == lowest(s, i as nat),
    decreases 64 - i,
@body 0
proof {
    crate::lemmas_merkle::lemma_digits(self.num_leaves as nat, i as nat);
    assert forall|s: Seq<Hash256>| #[trigger] self.holds(s) implies (
        (crate::lemmas_merkle::bit(s.len(), i as nat) ==> crate::lemmas_merkle::node(self.trees[i as int], lowest(s, i as nat)) == lowest(s, i as nat + 1))
        && (!crate::lemmas_merkle::bit(s.len(), i as nat) ==> lowest(s, i as nat) == lowest(s, i as nat + 1))) by { lemma_root_step(*self, s, i as nat); }
}
@tail
proof {
    assert forall|s: Seq<Hash256>| #[trigger] self.holds(s) implies lowest(s, 64) == crate::lemmas_merkle::mroot(s) by { lemma_root_done(s); }
}
@@# unlock conditions
@@ mod types::v1
/// what the address of unlock conditions is the Merkle root of
pub open spec fn uc_leaves(uc: UnlockConditions, n: nat) -> Seq<Hash256>
    decreases n,
{
    if n == 0 { seq![crate::lemmas_merkle::leaf(crate::spec::u64le(uc.timelock))] } else {
        uc_leaves(uc, (n - 1) as nat).push(crate::lemmas_merkle::leaf(uc.public_keys@[n - 1].enc()))
    }
}
pub open spec fn uc_address(uc: UnlockConditions) -> Address {
    Address(crate::lemmas_merkle::mroot(uc_leaves(uc, uc.public_keys@.len()).push(crate::lemmas_merkle::leaf(crate::spec::u64le(uc.signatures_required)))).0)
}
pub open spec fn key_of(pk: PublicKey) -> UnlockKey {
    UnlockKey { algorithm: crate::types::Specifier(crate::spec::array_from({s:ed25519})), key: crate::spec::vec_from(pk.0@) }
}
impl vstd::std_specs::convert::FromSpecImpl<PublicKey> for UnlockKey {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(pk: PublicKey) -> UnlockKey { key_of(pk) }
}
@@ fn types::v1::<UnlockKey as From<PublicKey>>::from
    ensures res == key_of(val)
@tail
proof { assert(res__.key@ =~= val.0@); assert(res__.algorithm.0@ == {s:ed25519}); }
@@ fn types::v1::UnlockConditions::new
    ensures res == (UnlockConditions { timelock, public_keys, signatures_required: required_signatures })
@@ fn types::v1::UnlockConditions::standard_unlock_conditions
    ensures res.timelock == 0, res.signatures_required == 1, res.public_keys@ == seq![key_of(public_key)]
@@ mod types::v1
/// a `Vec` never holds more than isize::MAX bytes, and a key takes at least one
#[verifier::external_body]
pub proof fn ax_keys_len(v: Vec<UnlockKey>) ensures v@.len() <= isize::MAX {}
@@ fn types::v1::UnlockConditions::address
    ensures res == uc_address(*self)
@loops 1
@start
broadcast use crate::spec::lemma_take32;
proof { ax_keys_len(self.public_keys); assert(Seq::<u8>::empty() + [0u8]@ =~= seq![0u8]); }
let ghost pre = seq![0u8];
@loop 0
    invariant
        __i0 <= __n0, __n0 == self.public_keys@.len(), __s0@ == self.public_keys@,
        p.hlen() == 32, acc.wf(), acc.num_leaves == __i0 + 1,
        acc.holds(uc_leaves(*self, __i0 as nat)),
    decreases __n0 - __i0,
@tail
proof {
    let s = uc_leaves(*self, self.public_keys@.len());
    let l = crate::lemmas_merkle::leaf(crate::spec::u64le(self.signatures_required));
    assert(acc.holds(s.push(l)));
}

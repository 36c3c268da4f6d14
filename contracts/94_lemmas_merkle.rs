// The protocol's binary Merkle tree.
pub mod lemmas_merkle {
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use crate::types::Hash256;

pub open spec fn hash_of(pre: Seq<u8>) -> Hash256 { Hash256(crate::spec::array_from(crate::spec::h256(pre))) }
/// leaves and inner nodes are hashed under different prefixes
pub open spec fn leaf(b: Seq<u8>) -> Hash256 { hash_of(seq![0u8] + b) }
pub open spec fn node(l: Hash256, r: Hash256) -> Hash256 { hash_of(seq![1u8] + l.0@ + r.0@) }
pub open spec fn zero_hash() -> Hash256 { Hash256(crate::spec::array_from(Seq::new(32, |i: int| 0u8))) }
/// the leaves of a sector: its segments of 64 bytes
pub open spec fn leaves(sector: Seq<u8>) -> Seq<Hash256> {
    Seq::new(sector.len() / 64, |i: int| leaf(sector.subrange(64 * i, 64 * i + 64)))
}
/// the largest power of two below `n`
pub open spec fn split(n: nat) -> nat
    decreases n,
{ if n <= 2 { 1 } else { 2 * split(((n + 1) / 2) as nat) } }
pub proof fn lemma_split_bounds(n: nat)
    requires n >= 2,
    ensures 0 < split(n) < n,
    decreases n,
{ if n > 2 { lemma_split_bounds(((n + 1) / 2) as nat); } }
/// the root of the tree over `s`: the largest complete subtree is on the left
pub open spec fn mroot(s: Seq<Hash256>) -> Hash256
    decreases s.len(),
{
    if s.len() == 0 { zero_hash() } else if s.len() == 1 { s[0] } else {
        let k = split(s.len());
        if 0 < k < s.len() { node(mroot(s.take(k as int)), mroot(s.skip(k as int))) } else { zero_hash() }
    }
}
pub proof fn lemma_split(k: nat, r: nat)
    requires 1 <= r <= pow2(k),
    ensures split(pow2(k) + r) == pow2(k),
    decreases k,
{
    lemma2_to64();
    if k > 0 {
        lemma_pow2_unfold(k);
        lemma_pow2_pos((k - 1) as nat);
        let h = pow2((k - 1) as nat);
        assert((pow2(k) + r + 1) / 2 == h + (r + 1) / 2);
        lemma_split((k - 1) as nat, (r + 1) / 2);
    }
}
/// a complete subtree of 2^k leaves followed by up to as many more
pub proof fn lemma_join(a: Seq<Hash256>, b: Seq<Hash256>, k: nat)
    requires a.len() == pow2(k), 1 <= b.len() <= pow2(k),
    ensures mroot(a + b) == node(mroot(a), mroot(b)),
{
    lemma_split(k, b.len());
    lemma_pow2_pos(k);
    assert((a + b).take(a.len() as int) =~= a);
    assert((a + b).skip(a.len() as int) =~= b);
}
/// the same for ranges of one sequence
pub proof fn lemma_join_at(s: Seq<Hash256>, x: int, k: nat, y: int, z: int)
    requires 0 <= x, y == x + pow2(k), 1 <= z - y <= pow2(k), z <= s.len(),
    ensures mroot(s.subrange(x, z)) == node(mroot(s.subrange(x, y)), mroot(s.subrange(y, z))),
{
    lemma_join(s.subrange(x, y), s.subrange(y, z), k);
    assert(s.subrange(x, y) + s.subrange(y, z) =~= s.subrange(x, z));
}

// ---- trees computed level by level, in place
/// the `x`-th group of `g` leaves has its root where the group begins
pub open spec fn level_at(t: Seq<Hash256>, lv: Seq<Hash256>, x: int, g: int) -> bool {
    t[x * g] == mroot(lv.subrange(x * g, (x + 1) * g))
}
/// groups `lo` to `hi` have
#[verifier::opaque]
pub open spec fn level(t: Seq<Hash256>, lv: Seq<Hash256>, g: int, lo: int, hi: int) -> bool {
    forall|x: int| lo <= x < hi ==> #[trigger] level_at(t, lv, x, g)
}
pub proof fn lemma_level_get(t: Seq<Hash256>, lv: Seq<Hash256>, g: int, lo: int, hi: int, x: int)
    requires level(t, lv, g, lo, hi), lo <= x < hi,
    ensures t[x * g] == mroot(lv.subrange(x * g, (x + 1) * g)),
{ reveal(level); assert(level_at(t, lv, x, g)); }
pub proof fn lemma_level_0(t: Seq<Hash256>, lv: Seq<Hash256>, hi: int)
    requires forall|x: int| 0 <= x < hi ==> #[trigger] t[x] == lv[x], hi <= lv.len(),
    ensures level(t, lv, 1, 0, hi), pow2(0) == 1,
{
    reveal(level);
    lemma2_to64();
    assert forall|x: int| 0 <= x < hi implies #[trigger] level_at(t, lv, x, 1) by {
        let s = lv.subrange(x * 1, (x + 1) * 1);
        assert(s.len() == 1 && s[0] == lv[x]);
        assert(t[x] == lv[x]);
    }
}
/// joining the four groups of the `i`-th chunk into two
pub proof fn lemma_level_step(t: Seq<Hash256>, t2: Seq<Hash256>, lv: Seq<Hash256>, k: nat, m: int, i: int, b: int)
    requires
        0 <= i < m, t.len() == lv.len(), t2.len() == lv.len(), lv.len() == 4 * pow2(k) * m, b == i * (4 * pow2(k)),
        level(t, lv, 2 * pow2(k) as int, 0, 2 * i), level(t, lv, pow2(k) as int, 4 * i, 4 * m),
        forall|x: int| 0 <= x < b || b + 4 * pow2(k) <= x < lv.len() ==> #[trigger] t2[x] == t[x],
        t2[b] == node(t[b], t[b + pow2(k)]),
        t2[b + 2 * pow2(k)] == node(t[b + 2 * pow2(k)], t[b + 3 * pow2(k)]),
    ensures
        level(t2, lv, 2 * pow2(k) as int, 0, 2 * (i + 1)), level(t2, lv, pow2(k) as int, 4 * (i + 1), 4 * m),
{
    reveal(level);
    let g = pow2(k) as int;
    lemma_pow2_pos(k);
    assert(b + 4 * g <= lv.len()) by(nonlinear_arith)
        requires b == i * (4 * g), lv.len() == 4 * g * m, i < m, g > 0;
    assert(b >= 0) by(nonlinear_arith) requires b == i * (4 * g), i >= 0, g > 0;
    assert((4 * i) * g == b && (4 * i + 1) * g == b + g && (4 * i + 2) * g == b + 2 * g && (4 * i + 3) * g == b + 3 * g && (4 * i + 4) * g == b + 4 * g) by(nonlinear_arith)
        requires b == i * (4 * g);
    assert((2 * i) * (2 * g) == b && (2 * i + 1) * (2 * g) == b + 2 * g && (2 * i + 2) * (2 * g) == b + 4 * g) by(nonlinear_arith)
        requires b == i * (4 * g);
    assert(level_at(t, lv, 4 * i, g));
    assert(level_at(t, lv, 4 * i + 1, g));
    assert(level_at(t, lv, 4 * i + 2, g));
    assert(level_at(t, lv, 4 * i + 3, g));
    lemma_join_at(lv, b, k, b + g, b + 2 * g);
    lemma_join_at(lv, b + 2 * g, k, b + 3 * g, b + 4 * g);
    assert forall|x: int| 0 <= x < 2 * (i + 1) implies #[trigger] level_at(t2, lv, x, 2 * g) by {
        if x < 2 * i {
            assert(level_at(t, lv, x, 2 * g));
            assert(0 <= x * (2 * g) < b) by(nonlinear_arith) requires 0 <= x < 2 * i, b == i * (4 * g), g > 0;
            assert(t2[x * (2 * g)] == t[x * (2 * g)]);
        } else {
            assert(x == 2 * i || x == 2 * i + 1);
        }
    }
    assert forall|x: int| 4 * (i + 1) <= x < 4 * m implies #[trigger] level_at(t2, lv, x, g) by {
        assert(level_at(t, lv, x, g));
        assert(b + 4 * g <= x * g < lv.len()) by(nonlinear_arith)
            requires 4 * (i + 1) <= x < 4 * m, b == i * (4 * g), g > 0, lv.len() == 4 * g * m;
        assert(t2[x * g] == t[x * g]);
    }
}

// ---- the binary digits of a number
pub open spec fn bit(n: nat, i: nat) -> bool { (n / pow2(i)) % 2 == 1 }
/// `n` without its digits up to and including `i`
pub open spec fn off(n: nat, i: nat) -> nat { (n / pow2(i + 1)) * pow2(i + 1) }
/// the digits below `i`
pub open spec fn low(n: nat, i: nat) -> nat { n % pow2(i) }
pub proof fn lemma_bit(n: u64, h: u64)
    requires h < 64,
    ensures (n & (1u64 << h) != 0) == bit(n as nat, h as nat),
{
    assert((n & (1u64 << h) != 0) == ((n >> h) % 2 == 1)) by(bit_vector) requires h < 64;
    vstd::bits::lemma_u64_shr_is_div(n, h);
}
/// n = off + digit + low
pub proof fn lemma_digits(n: nat, i: nat)
    ensures
        pow2(i) > 0, pow2(i + 1) == 2 * pow2(i), low(n, i) < pow2(i),
        n == off(n, i) + (if bit(n, i) { pow2(i) } else { 0 }) + low(n, i),
        low(n, i + 1) == (if bit(n, i) { pow2(i) } else { 0 }) + low(n, i),
{
    lemma_pow2_unfold(i + 1);
    lemma_pow2_pos(i);
    let p = pow2(i);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, p as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, 2 * p as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod((n / p) as int, 2);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, p as int, 2);
    let q = n / (2 * p);
    assert(p * 2 == 2 * p);
    assert((n / p) / 2 == q);
    assert(n == 2 * p * q + n % (2 * p));
    assert(n == p * (n / p) + n % p);
    let d = (n / p) % 2;
    assert(n / p == 2 * q + d);
    assert(p * (2 * q + d) == 2 * p * q + p * d) by(nonlinear_arith);
    assert(q * (2 * p) == 2 * p * q) by(nonlinear_arith);
    assert(p * 1 == p && p * 0 == 0);
}
/// adding one to a number that ends in a zero digit and `i` ones
pub proof fn lemma_inc(n: nat, n2: nat, i: nat)
    requires n2 == n + 1, low(n, i) == pow2(i) - 1, !bit(n, i),
    ensures
        forall|j: nat| j < i ==> !(#[trigger] bit(n2, j)),
        bit(n2, i), off(n2, i) == n + 1 - pow2(i),
        forall|j: nat| j > i ==> #[trigger] bit(n2, j) == bit(n, j),
        forall|j: nat| j > i ==> #[trigger] off(n2, j) == off(n, j),
{
    lemma_digits(n, i);
    lemma_digits(n + 1, i);
    let p = pow2(i);
    // n + 1 = off + p
    let m = n / (2 * p);
    assert(off(n, i) == m * (2 * p));
    assert(n + 1 == m * (2 * p) + p);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int + 1, 2 * p as int, m as int, p as int);
    assert(off(n + 1, i) == off(n, i));
    assert(bit(n + 1, i) && low(n + 1, i) == 0) by {
        if !bit(n + 1, i) { assert(low(n + 1, i) == p); }
    }
    assert forall|j: nat| j < i implies !(#[trigger] bit(n2, j)) by {
        // pow2(i) = pow2(j+1) * pow2(i-j-1)
        lemma_pow2_adds(j + 1, (i - j - 1) as nat);
        lemma_pow2_unfold(j + 1);
        lemma_pow2_pos(j);
        let q = pow2(j); let r = pow2((i - j - 1) as nat);
        assert(n + 1 == q * (2 * (r * (2 * m + 1)))) by(nonlinear_arith)
            requires n + 1 == m * (2 * p) + p, p == (2 * q) * r;
        let t = r * (2 * m + 1);
        assert(n + 1 == (2 * t) * q) by(nonlinear_arith) requires n + 1 == q * (2 * t);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int + 1, q as int, 2 * t as int, 0);
        assert((2 * t) % 2 == 0);
    }
    // neither division sees the digits up to i
    assert forall|j: nat| j > i implies #[trigger] bit(n2, j) == bit(n, j) by { lemma_div_same(n, i, j); }
    assert forall|j: nat| j > i implies #[trigger] off(n2, j) == off(n, j) by { lemma_div_same(n, i, j + 1); }
}
pub proof fn lemma_div_same(n: nat, i: nat, j: nat)
    requires low(n, i) == pow2(i) - 1, !bit(n, i), j > i,
    ensures (n + 1) / pow2(j) == n / pow2(j),
{
    lemma_digits(n, i);
    lemma_pow2_adds(i + 1, (j - i - 1) as nat);
    lemma_pow2_pos(i); lemma_pow2_pos((j - i - 1) as nat);
    let (p, r) = (pow2(i), pow2((j - i - 1) as nat));
    let m = n / (2 * p);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 2 * p as int, r as int);
    vstd::arithmetic::div_mod::lemma_div_denominator(n as int + 1, 2 * p as int, r as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int + 1, 2 * p as int, m as int, p as int);
}
} // lemmas_merkle

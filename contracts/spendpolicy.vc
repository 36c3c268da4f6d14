@@# the binary form of a policy: version 1, then the tagged policy
@@ mod types::spendpolicy
/// the tagged form of a policy, without the version
pub open spec fn pol_enc(p: SpendPolicy) -> Seq<u8>
    decreases p, 0nat,
{
    match p {
        SpendPolicy::Above(h) => seq![1u8] + h.enc(),
        SpendPolicy::After(t) => seq![2u8] + crate::spec::u64le(t.secs() as i64 as u64),
        SpendPolicy::PublicKey(k) => seq![3u8] + k.enc(),
        SpendPolicy::Hash(h) => seq![4u8] + h.enc(),
        SpendPolicy::Threshold(n, ps) => (seq![5u8, n, ps@.len() as u8]) + pols_enc(ps, ps@.len()),
        SpendPolicy::Opaque(a) => seq![6u8] + a.enc(),
        SpendPolicy::UnlockConditions(uc) => seq![7u8] + uc.enc(),
    }
}
/// the first `n` policies of a list, one after the other
pub open spec fn pols_enc(v: Vec<SpendPolicy>, n: nat) -> Seq<u8>
    decreases v, n,
{ if n == 0 || n > v@.len() { seq![] } else { pols_enc(v, (n - 1) as nat) + pol_enc(v@[n - 1]) } }
/// read a tagged policy; `t` counts the policies seen, at most `MAX_POLICIES` are accepted
pub open spec fn pol_dec(b: Seq<u8>, t: nat) -> Option<(SpendPolicy, Seq<u8>, nat)>
    decreases b.len(), 0nat,
{
    if b.len() < 1 { None } else {
        let rest = b.skip(1);
        if b[0] == 1 { match u64::dec(rest) { None => None, Some((v, rest)) => Some((SpendPolicy::Above(v), rest, t)) } }
        else if b[0] == 2 { match OffsetDateTime::dec(rest) { None => None, Some((v, rest)) => Some((SpendPolicy::After(v), rest, t)) } }
        else if b[0] == 3 { match PublicKey::dec(rest) { None => None, Some((v, rest)) => Some((SpendPolicy::PublicKey(v), rest, t)) } }
        else if b[0] == 4 { match Hash256::dec(rest) { None => None, Some((v, rest)) => Some((SpendPolicy::Hash(v), rest, t)) } }
        else if b[0] == 5 {
            if rest.len() < 2 || t + rest[1] > 1024 { None } else {
                match pols_dec(rest.skip(2), rest[1] as nat, t + rest[1] as nat) {
                    None => None,
                    Some((s, r2, t2)) => Some((SpendPolicy::Threshold(rest[0], crate::spec::vec_from(s)), r2, t2)),
                }
            }
        }
        else if b[0] == 6 { match Address::dec(rest) { None => None, Some((v, rest)) => Some((SpendPolicy::Opaque(v), rest, t)) } }
        else if b[0] == 7 { match UnlockConditions::dec(rest) { None => None, Some((v, rest)) => Some((SpendPolicy::UnlockConditions(v), rest, t)) } }
        else { None }
    }
}
pub open spec fn pols_dec(b: Seq<u8>, n: nat, t: nat) -> Option<(Seq<SpendPolicy>, Seq<u8>, nat)>
    decreases b.len(), n,
{
    if n == 0 { Some((seq![], b, t)) } else {
        match pols_dec(b, (n - 1) as nat, t) {
            None => None,
            Some((s, b2, t2)) => if b2.len() > b.len() { None } else {
                match pol_dec(b2, t2) { None => None, Some((p, b3, t3)) => Some((s.push(p), b3, t3)) }
            },
        }
    }
}
/// what an accepted policy counts
pub open spec fn pol_count(p: SpendPolicy) -> nat
    decreases p, 0nat,
{ match p { SpendPolicy::Threshold(_, ps) => ps@.len() + pols_count(ps, ps@.len()), _ => 0 } }
pub open spec fn pols_count(v: Vec<SpendPolicy>, n: nat) -> nat
    decreases v, n,
{ if n == 0 || n > v@.len() { 0 } else { pols_count(v, (n - 1) as nat) + pol_count(v@[n - 1]) } }
/// the policies the format can represent
pub open spec fn pol_wf(p: SpendPolicy) -> bool
    decreases p, 0nat,
{
    match p {
        SpendPolicy::After(t) => crate::lemmas::Codec::wf(&t),
        SpendPolicy::Threshold(_, ps) => ps@.len() <= 255 && pols_wf(ps, ps@.len()),
        SpendPolicy::UnlockConditions(uc) => crate::lemmas::Codec::wf(&uc),
        _ => true,
    }
}
pub open spec fn pols_wf(v: Vec<SpendPolicy>, n: nat) -> bool
    decreases v, n,
{ n == 0 || n > v@.len() || (pols_wf(v, (n - 1) as nat) && pol_wf(v@[n - 1])) }

pub proof fn lemma_pols_dec_none(b: Seq<u8>, n: nat, m: nat, t: nat)
    requires n <= m, pols_dec(b, n, t) is None,
    ensures pols_dec(b, m, t) is None,
    decreases m,
{ if n < m { lemma_pols_dec_none(b, n, (m - 1) as nat, t); } }
pub proof fn lemma_pol_rt(p: SpendPolicy, rest: Seq<u8>, t: nat)
    requires pol_wf(p), t + pol_count(p) <= 1024,
    ensures pol_dec(pol_enc(p) + rest, t) == Some((p, rest, t + pol_count(p))),
    decreases p, 0nat,
{
    let b = pol_enc(p) + rest;
    let r1 = b.skip(1);
    match p {
        SpendPolicy::Above(v) => { assert(r1 =~= v.enc() + rest); crate::lemmas::Codec::rt(&v, rest); }
        SpendPolicy::After(v) => { assert(r1 =~= v.enc() + rest); crate::lemmas::Codec::rt(&v, rest); }
        SpendPolicy::PublicKey(v) => { assert(r1 =~= v.enc() + rest); crate::lemmas::Codec::rt(&v, rest); }
        SpendPolicy::Hash(v) => { assert(r1 =~= v.enc() + rest); crate::lemmas::Codec::rt(&v, rest); }
        SpendPolicy::Opaque(v) => { assert(r1 =~= v.enc() + rest); crate::lemmas::Codec::rt(&v, rest); }
        SpendPolicy::UnlockConditions(v) => { assert(r1 =~= v.enc() + rest); crate::lemmas::Codec::rt(&v, rest); }
        SpendPolicy::Threshold(n, ps) => {
            let m = ps@.len();
            assert(r1.skip(2) =~= pols_enc(ps, m) + rest);
            assert(r1[0] == n && r1[1] == m);
            lemma_pols_rt(ps, m, rest, t + m);
            assert(ps@.take(m as int) =~= ps@);
        }
    }
}
pub proof fn lemma_pols_rt(v: Vec<SpendPolicy>, n: nat, rest: Seq<u8>, t: nat)
    requires n <= v@.len(), pols_wf(v, n), t + pols_count(v, n) <= 1024,
    ensures pols_dec(pols_enc(v, n) + rest, n, t) == Some((v@.take(n as int), rest, t + pols_count(v, n))),
    decreases v, n,
{
    if n == 0 {
        assert(pols_enc(v, 0) + rest =~= rest);
        assert(v@.take(0) =~= seq![]);
    } else {
        let k = (n - 1) as nat;
        let r2 = pol_enc(v@[k as int]) + rest;
        lemma_pols_rt(v, k, r2, t);
        lemma_pol_rt(v@[k as int], rest, t + pols_count(v, k));
        assert(pols_enc(v, n) + rest =~= pols_enc(v, k) + r2);
        assert(v@.take(k as int).push(v@[k as int]) =~= v@.take(n as int));
    }
}
impl crate::lemmas::Codec for SpendPolicy {
    open spec fn wf(&self) -> bool { pol_wf(*self) && pol_count(*self) < 1024 }
    proof fn rt(&self, rest: Seq<u8>) {
        lemma_pol_rt(*self, rest, 1);
        assert((self.enc() + rest).skip(1) =~= pol_enc(*self) + rest);
    }
}
@@ fn types::spendpolicy::SpendPolicy::type_prefix
    ensures res == match *self {
        SpendPolicy::Above(_) => 1u8, SpendPolicy::After(_) => 2, SpendPolicy::PublicKey(_) => 3, SpendPolicy::Hash(_) => 4,
        SpendPolicy::Threshold(_, _) => 5, SpendPolicy::Opaque(_) => 6, SpendPolicy::UnlockConditions(_) => 7,
    }
@@ impl types::spendpolicy::<SpendPolicy as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { seq![1u8] + pol_enc(*self) }
@@ fn types::spendpolicy::<SpendPolicy as SiaEncodable>::encode::encode_policy
    ensures
        res is Ok ==> final(w).written() == old(w).written() + pol_enc(*policy),
        old(w).reliable() ==> res is Ok,
        final(w).reliable() == old(w).reliable(), final(w).kind() == old(w).kind(),
    decreases *policy,
@loops 1
@before 0
let ghost w0 = w.written();
@loop 0
    invariant __i0 <= __n0, __n0 == __s0@.len(), __s0@ == policies@, w.reliable() == old(w).reliable(), w.kind() == old(w).kind(),
        w.written() == w0 + pols_enc(*policies, __i0 as nat),
    decreases __n0 - __i0,
@@ impl types::spendpolicy::<SpendPolicy as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    if b.len() < 1 || b[0] != 1 { None } else { match pol_dec(b.skip(1), 1) { None => None, Some((p, rest, _)) => Some((p, rest)) } }
}
@@ fn types::spendpolicy::<SpendPolicy as SiaDecodable>::decode::decode_policy
    requires *old(total) <= 1024,
    ensures
        res matches Ok(v) ==> pol_dec(old(r).remaining(), *old(total) as nat) == Some((v, final(r).remaining(), *final(total) as nat))
            && *final(total) <= 1024 && final(r).remaining().len() < old(r).remaining().len(),
        old(r).reliable() && res is Err ==> pol_dec(old(r).remaining(), *old(total) as nat) is None,
        final(r).reliable() == old(r).reliable(),
    decreases old(r).remaining().len(),
@start
broadcast use crate::spec::lemma_skip_skip;
@loops 1
@before 0
let ghost r0 = r.remaining();
let ghost t0 = *total as nat;
@loop 0
    invariant policies@.len() <= n, r.reliable() == old(r).reliable(), *total <= 1024,
        r.remaining().len() <= r0.len(),
        pols_dec(r0, policies@.len(), t0) == Some((policies@, r.remaining(), *total as nat)),
    decreases n - policies@.len(),
@body 0
proof {
    let k = (policies@.len() + 1) as nat;
    if pols_dec(r0, k, t0) is None { lemma_pols_dec_none(r0, k, n as nat, t0); }
}
@@ mod types::spendpolicy
/// the address of a policy
pub open spec fn pol_address(p: SpendPolicy) -> Address
    decreases p, 0nat,
{
    match p {
        SpendPolicy::UnlockConditions(uc) => crate::types::v1::uc_address(uc),
        SpendPolicy::Opaque(a) => a,
        SpendPolicy::Threshold(n, ps) => hashed(seq![1u8, 5u8, n, ps@.len() as u8] + opaque_enc(ps, ps@.len())),
        _ => hashed(seq![1u8] + pol_enc(p)),
    }
}
/// the first `n` policies of a list, each as its opaque address
pub open spec fn opaque_enc(v: Vec<SpendPolicy>, n: nat) -> Seq<u8>
    decreases v, n,
{ if n == 0 || n > v@.len() { seq![] } else { opaque_enc(v, (n - 1) as nat) + (seq![6u8] + pol_address(v@[n - 1]).0@) } }
pub open spec fn hashed(b: Seq<u8>) -> Address { Address(crate::spec::array_from(crate::spec::h256({b:sia/address|} + b))) }
/// `q` is `p`, or `p` with some of its parts, at any depth, made opaque
pub open spec fn hides(p: SpendPolicy, q: SpendPolicy) -> bool
    decreases p, 0nat,
{
    p == q || q == SpendPolicy::Opaque(pol_address(p)) || match (p, q) {
        (SpendPolicy::Threshold(n, ps), SpendPolicy::Threshold(m, qs)) => n == m && ps@.len() == qs@.len() && hides_all(ps, qs, ps@.len()),
        _ => false,
    }
}
pub open spec fn hides_all(ps: Vec<SpendPolicy>, qs: Vec<SpendPolicy>, n: nat) -> bool
    decreases ps, n,
{ n == 0 || n > ps@.len() || (hides_all(ps, qs, (n - 1) as nat) && hides(ps@[n - 1], qs@[n - 1])) }
/// the address of a policy does not depend on which of its parts are opaque
pub proof fn lemma_opaque_address(p: SpendPolicy, q: SpendPolicy)
    requires hides(p, q),
    ensures pol_address(p) == pol_address(q),
    decreases p, 0nat,
{
    match (p, q) {
        (SpendPolicy::Threshold(n, ps), SpendPolicy::Threshold(m, qs)) => { if p != q { lemma_opaque_addresses(ps, qs, ps@.len()); } }
        _ => {}
    }
}
pub proof fn lemma_opaque_addresses(ps: Vec<SpendPolicy>, qs: Vec<SpendPolicy>, n: nat)
    requires hides_all(ps, qs, n), n <= ps@.len(), ps@.len() == qs@.len(),
    ensures opaque_enc(ps, n) == opaque_enc(qs, n),
    decreases ps, n,
{
    if n > 0 {
        lemma_opaque_addresses(ps, qs, (n - 1) as nat);
        lemma_opaque_address(ps@[n - 1], qs@[n - 1]);
    }
}
/// a list of opaque policies is encoded as their addresses
pub proof fn lemma_opaque_list(os: Vec<SpendPolicy>, v: Vec<SpendPolicy>, n: nat)
    requires
        n <= v@.len(), os@.len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] os@[i] == SpendPolicy::Opaque(pol_address(v@[i])),
    ensures pols_enc(os, n) == opaque_enc(v, n),
    decreases n,
{
    if n > 0 {
        lemma_opaque_list(os, v, (n - 1) as nat);
        let a = pol_address(v@[n - 1]);
        assert(os@[n - 1] == SpendPolicy::Opaque(a));
        assert(pol_enc(SpendPolicy::Opaque(a)) == seq![6u8] + a.enc());
        assert(a.enc() =~= a.0@);
    }
}
@@ fn types::spendpolicy::SpendPolicy::address
    ensures res == pol_address(*self)
    decreases *self
@start
broadcast use crate::spec::lemma_take32;
@loops 1
@loop 0
    invariant __i0 <= __n0, __n0 == of@.len(), __s0@ == of@, opaque@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> #[trigger] opaque@[i] == SpendPolicy::Opaque(pol_address(of@[i])),
    decreases __n0 - __i0,
@after 0
proof {
    lemma_opaque_list(opaque, *of, of@.len());
    assert(seq![1u8] + (seq![5u8, *n, of@.len() as u8] + opaque_enc(*of, of@.len())) =~= seq![1u8, 5u8, *n, of@.len() as u8] + opaque_enc(*of, of@.len()));
    assert(Seq::<u8>::empty() + {b:sia/address|} =~= {b:sia/address|});
}
@tail
proof {
    assert(Seq::<u8>::empty() + {b:sia/address|} =~= {b:sia/address|});
    assert(res__.0@ =~= crate::spec::h256(state.data()));
    assert(res__ =~= Address(crate::spec::array_from(crate::spec::h256(state.data()))));
}

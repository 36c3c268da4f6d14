@@# the v1 form of a currency: its big-endian bytes without leading zeros, behind their number
@@ impl types::currency::<Currency as SiaEncodable>
open spec fn enc(&self) -> Seq<u8> { crate::spec::le(self.0 as nat, 16) }
@@ impl types::currency::<Currency as SiaDecodable>
open spec fn dec(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    if b.len() < 16 { None } else { Some((Currency(crate::spec::unle(b.take(16)) as u128), b.skip(16))) }
}
@@ impl types::currency::<Currency as V1SiaEncodable>
open spec fn enc1(&self) -> Seq<u8> {
    let t = crate::spec::trim0(crate::spec::be(self.0 as nat, 16));
    crate::spec::u64le(t.len() as u64) + t
}
@@ fn types::currency::<Currency as V1SiaEncodable>::encode_v1
@start
proof {
    crate::spec::lemma_enc1_all_u8s();
    crate::lemmas_types::lemma_trim0_all(crate::spec::be(self.0 as nat, 16));
}
@loops 1
@loop 0
    invariant __i0 <= __n0, __n0 == __s0@.len(), __s0@ == crate::spec::be(self.0 as nat, 16),
        __f0 is None ==> forall|k: int| 0 <= k < __i0 ==> __s0@[k] == 0,
        __f0 matches Some(k) ==> k < __n0 && __s0@[k as int] != 0 && forall|j: int| 0 <= j < k ==> __s0@[j] == 0,
    decreases __n0 - __i0,
@@ impl types::currency::<Currency as V1SiaDecodable>
open spec fn dec1(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {
    match crate::spec::take_u64(b) {
        None => None,
        Some((n, rest)) => if n > 16 || rest.len() < n { None } else { Some((Currency(crate::spec::unbe(rest.take(n as int)) as u128), rest.skip(n as int))) },
    }
}
@@ impl types::currency::<Currency as Clone>
@@ fn types::currency::<Currency as Clone>::clone
    ensures res == *self
@@ fn types::currency::Currency::new
    ensures res.0 == value
@@ fn types::currency::Currency::zero
    ensures res.0 == 0
@@ impl types::currency::<Currency as Deref>
@@ fn types::currency::<Currency as Deref>::deref
    ensures *res == self.0
@@ impl types::currency::<Currency as TryInto<u64>>
open spec fn tryinto(self) -> Option<u64> { if self.0 <= u64::MAX { Some(self.0 as u64) } else { None } }
@@ fn types::currency::<Currency as TryInto<u64>>::try_into
@start
proof { assert(<Self as crate::shim::TryIntoSh<u64>>::tryinto(self) == <u128 as crate::shim::TryIntoSh<u64>>::tryinto(self.0)); }
@@ fn types::currency::<Currency as V1SiaDecodable>::decode_v1
@start
proof { crate::lemmas_types::lemma_unbe_pad16(); }
@@ mod types::currency
impl vstd::std_specs::ops::AddSpecImpl for Currency {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Currency) -> bool { self.0 + rhs.0 <= u128::MAX }
    open spec fn add_spec(self, rhs: Currency) -> Currency { Currency((self.0 + rhs.0) as u128) }
}
impl vstd::std_specs::ops::SubSpecImpl for Currency {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Currency) -> bool { self.0 >= rhs.0 }
    open spec fn sub_spec(self, rhs: Currency) -> Currency { Currency((self.0 - rhs.0) as u128) }
}
impl vstd::std_specs::ops::MulSpecImpl for Currency {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Currency) -> bool { self.0 * rhs.0 <= u128::MAX }
    open spec fn mul_spec(self, rhs: Currency) -> Currency { Currency((self.0 * rhs.0) as u128) }
}
impl vstd::std_specs::ops::DivSpecImpl for Currency {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: Currency) -> bool { rhs.0 != 0 }
    open spec fn div_spec(self, rhs: Currency) -> Currency { Currency((self.0 / rhs.0) as u128) }
}
impl vstd::std_specs::ops::RemSpecImpl for Currency {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: Currency) -> bool { rhs.0 != 0 }
    open spec fn rem_spec(self, rhs: Currency) -> Currency { Currency((self.0 % rhs.0) as u128) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Currency {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Currency) -> bool { self.0 == o.0 }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Currency {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Currency) -> Option<core::cmp::Ordering> {
        Some(if self.0 < o.0 { core::cmp::Ordering::Less } else if self.0 == o.0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Currency {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Currency) -> core::cmp::Ordering {
        if self.0 < o.0 { core::cmp::Ordering::Less } else if self.0 == o.0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
    }
}
@@ impl types::currency::<Currency as Add>
@@ impl types::currency::<Currency as Sub>
@@ impl types::currency::<Currency as Mul>
@@ impl types::currency::<Currency as Div>
@@ impl types::currency::<Currency as Rem>
@@ impl types::currency::<Currency as PartialEq>
@@ impl types::currency::<Currency as Eq>
@@ impl types::currency::<Currency as PartialOrd>
@@ impl types::currency::<Currency as Ord>
@@ impl types::currency::<Currency as Default>
@@ fn types::currency::<Currency as Default>::default
    ensures res.0 == 0
@@ fn types::currency::Currency::checked_add
    ensures match res { Some(v) => v.0 == self.0 + other.0, None => self.0 + other.0 > u128::MAX }
@@ fn types::currency::Currency::checked_sub
    ensures match res { Some(v) => v.0 == self.0 - other.0, None => self.0 < other.0 }
@@ fn types::currency::Currency::checked_mul
    ensures match res { Some(v) => v.0 == self.0 * other.0, None => self.0 * other.0 > u128::MAX }
@@ fn types::currency::Currency::checked_div
    ensures match res { Some(v) => other.0 != 0 && v.0 == self.0 / other.0, None => other.0 == 0 }
@@ fn types::currency::Currency::siacoins
    requires n <= 340282366920938,
    ensures res.0 == n * 1_000_000_000_000_000_000_000_000,
@start
proof { reveal_with_fuel(vstd::arithmetic::power::pow, 26); assert(vstd::arithmetic::power::pow(10, 24) == 1_000_000_000_000_000_000_000_000); }
@@# amounts as text
@@ mod types::currency
/// how many digits a hasting is below one unit
pub open spec fn unit_digits(u: Seq<char>) -> Option<nat> {
    if u =~= seq!['p', 'S'] { Some(12) } else if u =~= seq!['n', 'S'] { Some(15) } else if u =~= seq!['u', 'S'] { Some(18) }
    else if u =~= seq!['m', 'S'] { Some(21) } else if u =~= seq!['S', 'C'] { Some(24) } else if u =~= seq!['K', 'S'] { Some(27) }
    else if u =~= seq!['M', 'S'] { Some(30) } else if u =~= seq!['G', 'S'] { Some(33) } else if u =~= seq!['T', 'S'] { Some(36) } else { None }
}
pub open spec fn num_char(c: char) -> bool { crate::spec::is_digit(c) || c == '.' }
/// the length of the number at the beginning
pub open spec fn num_len(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() > 0 && num_char(s[0]) { 1 + num_len(s.skip(1)) } else { 0 } }
/// the hastings that `whole`.`frac` units are, if no digit is below a hasting
pub open spec fn scaled(whole: Seq<char>, frac: Seq<char>, p: nat) -> Option<nat> {
    if crate::spec::digits(whole) && (frac.len() == 0 || crate::spec::digits(frac)) && frac.len() <= p {
        Some((crate::spec::decimal(whole) * p10(p) + crate::spec::decimal(frac) * p10((p - frac.len()) as nat)) as nat)
    } else { None }
}
/// the amount that text denotes
#[verifier::opaque]
pub open spec fn denotes(s: Seq<char>) -> Option<nat> {
    let k = num_len(s) as int;
    let v = s.take(k);
    let u = crate::spec::trim(s.skip(k));
    if u.len() == 0 || u =~= seq!['H'] {
        if crate::spec::digits(v) { Some(crate::spec::decimal(v)) } else { None }
    } else {
        match unit_digits(u) {
            None => None,
            Some(p) => {
                let d = crate::spec::split_on(v, '.');
                if d.len() == 1 { scaled(d[0], seq![], p) }
                else if d.len() == 2 && d[1].len() > 0 { scaled(d[0], d[1], p) }
                else { None }
            }
        }
    }
}
@@ mod types::currency
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for CurrencyParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParseIntError) -> CurrencyParseError { CurrencyParseError::ParseIntErr(e) }
}
@@ fn types::currency::<CurrencyParseError as From<ParseIntError>>::from
    ensures res == CurrencyParseError::ParseIntErr(err)
@@ mod types::currency
pub proof fn lemma_num_len(s: Seq<char>, k: nat)
    requires k <= s.len(), forall|x: int| 0 <= x < k ==> num_char(#[trigger] s[x]), k < s.len() ==> !num_char(s[k as int]),
    ensures num_len(s) == k,
    decreases k,
{
    if k > 0 {
        let t = s.skip(1);
        assert(num_char(s[0]));
        assert forall|x: int| 0 <= x < k - 1 implies num_char(#[trigger] t[x]) by { assert(t[x] == s[x + 1]); }
        lemma_num_len(t, (k - 1) as nat);
    }
}
/// there is nothing to trim from a number
pub proof fn lemma_num_trim(v: Seq<char>)
    requires forall|x: int| 0 <= x < v.len() ==> num_char(#[trigger] v[x]),
    ensures crate::spec::trim(v) == v,
{
    if v.len() > 0 { assert(num_char(v[0]) && num_char(v[v.len() - 1])); }
}
/// nor a sign
pub proof fn lemma_num_parse(v: Seq<char>)
    requires forall|x: int| 0 <= x < v.len() ==> num_char(#[trigger] v[x]),
    ensures crate::spec::parse_int(v) == if crate::spec::digits(v) { Some(crate::spec::decimal(v)) } else { None },
{
    if v.len() > 0 { assert(num_char(v[0])); }
}
/// the parts of a number are digits
pub proof fn lemma_num_split(v: Seq<char>)
    requires forall|x: int| 0 <= x < v.len() ==> num_char(#[trigger] v[x]),
    ensures
        crate::spec::split_on(v, '.').len() > 0,
        forall|i: int, j: int| #![trigger crate::spec::split_on(v, '.')[i][j]]
            0 <= i < crate::spec::split_on(v, '.').len() && 0 <= j < crate::spec::split_on(v, '.')[i].len() ==> crate::spec::is_digit(crate::spec::split_on(v, '.')[i][j]),
    decreases v.len(),
{
    if v.len() > 0 {
        let w = v.drop_last();
        assert forall|x: int| 0 <= x < w.len() implies num_char(#[trigger] w[x]) by { assert(w[x] == v[x]); }
        lemma_num_split(w);
        assert(num_char(v[v.len() - 1]));
        let (p, q) = (crate::spec::split_on(w, '.'), crate::spec::split_on(v, '.'));
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q[i].len() implies crate::spec::is_digit(#[trigger] q[i][j]) by {
            if i < p.len() && j < p[i].len() { assert(crate::spec::is_digit(p[i][j])); }
        }
    }
}
pub proof fn lemma_pow10(n: nat)
    requires n <= 36,
    ensures 1 <= vstd::arithmetic::power::pow(10, n) <= 1_000_000_000_000_000_000_000_000_000_000_000_000,
{
    reveal_with_fuel(vstd::arithmetic::power::pow, 38);
    assert(vstd::arithmetic::power::pow(10, 36) == 1_000_000_000_000_000_000_000_000_000_000_000_000);
    vstd::arithmetic::power::lemma_pow_increases(10, n, 36);
    vstd::arithmetic::power::lemma_pow_positive(10, n);
}
/// what the parts of a text say about the amount it denotes
pub proof fn lemma_denotes(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|x: int| 0 <= x < k ==> num_char(#[trigger] s[x]), k < s.len() ==> !num_char(s[k]),
    ensures ({
        let v = s.take(k);
        let u = crate::spec::trim(s.skip(k));
        let d = crate::spec::split_on(v, '.');
        &&& crate::spec::trim(v) == v
        // an amount is no less than its parts
        &&& u.len() != 0 && !(u =~= seq!['H']) && denotes(s) is Some ==> (crate::spec::parse_int(d[0]) matches Some(w) ==> denotes(s).unwrap() >= w)
                && (d.len() == 2 ==> (crate::spec::parse_int(d[1]) matches Some(f) ==> denotes(s).unwrap() >= f))
        &&& (u.len() == 0 || u =~= seq!['H'] ==> denotes(s) == crate::spec::parse_int(v))
        &&& (u.len() != 0 && !(u =~= seq!['H']) ==> match unit_digits(u) {
            None => denotes(s) is None,
            Some(p) => d.len() > 0 && match crate::spec::parse_int(d[0]) {
                None => denotes(s) is None,
                Some(w) => {
                    &&& d.len() > 2 ==> denotes(s) is None
                    &&& d.len() == 1 ==> denotes(s) == Some((w * p10(p)) as nat)
                    &&& d.len() == 2 ==> crate::spec::str_bytes(d[1]).len() == d[1].len() && match crate::spec::parse_int(d[1]) {
                        None => denotes(s) is None,
                        Some(f) => denotes(s) == if d[1].len() <= p { Some((w * p10(p) + f * p10((p - d[1].len()) as nat)) as nat) } else { None },
                    }
                }
            },
        })
    }),
{
    reveal(denotes);
    let v = s.take(k);
    lemma_num_len(s, k as nat);
    lemma_num_trim(v);
    lemma_num_parse(v);
    lemma_num_split(v);
    let d = crate::spec::split_on(v, '.');
    assert forall|i: int| 0 <= i < d.len() implies crate::spec::parse_int(#[trigger] d[i]) == (if crate::spec::digits(d[i]) { Some(crate::spec::decimal(d[i])) } else { None::<nat> }) by {
        assert forall|j: int| 0 <= j < d[i].len() implies num_char(#[trigger] d[i][j]) by { assert(crate::spec::is_digit(d[i][j])); }
        lemma_num_parse(d[i]);
    }
    if d.len() == 2 {
        assert forall|j: int| 0 <= j < d[1].len() implies crate::spec::is_digit(#[trigger] d[1][j]) by {}
        crate::spec::lemma_digits_bytes(d[1]);
    }
    assert(d.len() > 0 ==> crate::spec::parse_int(d[0]) == crate::spec::parse_int(d[0]));
    assert(d.len() > 1 ==> crate::spec::parse_int(d[1]) == crate::spec::parse_int(d[1]));
    assert(crate::spec::decimal(seq![]) == 0);
    let u = crate::spec::trim(s.skip(k));
    if !(u.len() == 0 || u =~= seq!['H']) && unit_digits(u) is Some {
        let p = unit_digits(u).unwrap();
        assert(0 * p10(p) == 0) by(nonlinear_arith);
        lemma_pow10(p);
        let w = crate::spec::decimal(d[0]);
        assert(w * p10(p) >= w) by(nonlinear_arith) requires p10(p) >= 1, w >= 0;
        if d.len() == 2 && d[1].len() <= p {
            lemma_pow10((p - d[1].len()) as nat);
            let (f, q) = (crate::spec::decimal(d[1]), p10((p - d[1].len()) as nat));
            assert(f * q >= f) by(nonlinear_arith) requires q >= 1, f >= 0;
        }
        if d.len() == 1 {
            assert(denotes(s) == scaled(d[0], seq![], p));
        } else if d.len() == 2 && d[1].len() > 0 {
            assert(denotes(s) == scaled(d[0], d[1], p));
        } else { assert(denotes(s) is None); }
    }
}
pub open spec fn p10(n: nat) -> int { vstd::arithmetic::power::pow(10, n) }
@@ fn types::currency::Currency::parse_string
    ensures
        res matches Ok(v) ==> denotes(s@) == Some(v.0 as nat),
        res is Err ==> (denotes(s@) matches Some(n) ==> n > u128::MAX),
@loops 1
@start
hide(vstd::arithmetic::power::pow); hide(crate::spec::split_on); hide(crate::spec::trim); hide(crate::spec::parse_int); hide(crate::spec::digits); hide(crate::spec::decimal);
broadcast use crate::stdspec::ax_str_len;
@before 0
let ghost mut k: int = 0;
@loop 0
    invariant __i0 <= __n0, __n0 == s@.len(), 0 <= k <= s@.len(), k <= __i0,
        forall|x: int| 0 <= x < k ==> num_char(#[trigger] s@[x]),
        __f0 is None ==> k == __i0,
        __f0 matches Some(o) ==> o == crate::spec::offset(s@, k) && k < s@.len() && !num_char(s@[k]),
    decreases __n0 - __i0,
@bodyend 0
proof { if __f0 is None { k = __i0 as int; } }
@after 0
proof {
    assert(s@.take(s@.len() as int) =~= s@);
    assert(__f0 is None ==> s.len() == crate::spec::offset(s@, k));
    assert(__f0 matches Some(o) ==> o == crate::spec::offset(s@, k));
    lemma_denotes(s@, k);
    let v = s@.take(k);
    let d = crate::spec::split_on(v, '.');
    assert forall|n: nat| n <= 36 implies 1 <= #[trigger] vstd::arithmetic::power::pow(10, n) <= 1_000_000_000_000_000_000_000_000_000_000_000_000 by { lemma_pow10(n); }
}

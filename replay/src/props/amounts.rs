use super::hashes::{chain, prefix, show_chain};
use crate::codec::*;
use crate::ctx::*;
use crate::rng::Rng;
use num_bigint::BigUint;
use sia::types::{v1, v2, *};

const SC: u128 = 1_000_000_000_000_000_000_000_000;

/// a pair of numbers that often fit together
fn pair(r: &mut Rng) -> (u128, u128) {
    let a = r.u128();
    let b = match r.below(5) {
        0 => a,
        1 => a.wrapping_add(1),
        2 => u128::MAX - a,
        3 if a != 0 => (u128::MAX / a).wrapping_add(r.below(2) as u128),
        _ => r.u128(),
    };
    (a, b)
}
pub fn c13(c: &mut Ctx) {
    let mut r = c.rng("currency");
    for _ in 0..c.n(20_000) {
        let (a, b) = pair(&mut r);
        let (x, y) = (Currency::new(a), Currency::new(b));
        let fit = |v: BigUint| -> Option<u128> { v.try_into().ok() };
        let (ba, bb) = (BigUint::from(a), BigUint::from(b));
        let add = fit(&ba + &bb);
        let sub = if a >= b { fit(&ba - &bb) } else { None };
        let mul = fit(&ba * &bb);
        let div = if b != 0 { fit(&ba / &bb) } else { None };
        let rem = if b != 0 { fit(&ba % &bb) } else { None };
        macro_rules! op { ($name:expr, $want:expr, $checked:expr, $plain:expr) => {
            c.case($name, (a, b), || format!("{} of {a} and {b}", $name), || {
                same($want, $checked.map(|v| *v))?;
                if let Some(w) = $want { same(w, *$plain)? }
                Ok(())
            });
        } }
        op!("add", add, x.checked_add(y), (x + y));
        op!("sub", sub, x.checked_sub(y), (x - y));
        op!("mul", mul, x.checked_mul(y), (x * y));
        op!("div", div, x.checked_div(y), (x / y));
        if let Some(w) = rem { c.case("rem", (a, b), || format!("{a} % {b}"), || same(w, *(x % y))); }
        c.case("compare", (a, b), || format!("compare {a} and {b}"), || {
            same(ba.cmp(&bb), x.cmp(&y))?;
            same(Some(ba.cmp(&bb)), x.partial_cmp(&y))?;
            same((a == b, a < b, a <= b, a > b, a >= b), (x == y, x < y, x <= y, x > y, x >= y))
        });
        c.case("value", a, || format!("the value {a}"), || {
            same(a, *x)?;
            same(u64::try_from(a).ok(), TryInto::<u64>::try_into(x).ok())?;
            same(0, *Currency::zero())?;
            same(0, *Currency::default())?;
            let mut z = x;
            *z = b;
            same(b, *z)
        });
        let n = r.u64();
        if (n as u128) <= u128::MAX / SC { c.case("siacoins", n, || format!("siacoins({n})"), || same(n as u128 * SC, *Currency::siacoins(n))); }
        let n = r.below(340_282_366_920_938);
        c.case("siacoins", n, || format!("siacoins({n})"), || same(n as u128 * SC, *Currency::siacoins(n)));
        if r.chance(10) {
            let v: Vec<u128> = (0..r.below(20)).map(|_| r.u128() >> 5).collect();
            c.case("sum", &v, || format!("sum of {v:?}"), || same(v.iter().sum::<u128>(), *v.iter().map(|x| Currency::new(*x)).sum::<Currency>()));
        }
    }
}

const UNITS: [(&str, u32); 9] = [("pS", 12), ("nS", 15), ("uS", 18), ("mS", 21), ("SC", 24), ("KS", 27), ("MS", 30), ("GS", 33), ("TS", 36)];
/// what a string stands for
pub fn parse(s: &str) -> Option<u128> {
    let n = s.chars().take_while(|c| c.is_ascii_digit() || *c == '.').map(|c| c.len_utf8()).sum::<usize>();
    let (v, u) = (&s[..n], s[n..].trim());
    let digits = |x: &str| -> Option<BigUint> { if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { BigUint::parse_bytes(x.as_bytes(), 10) } else { None } };
    if u.is_empty() || u == "H" {
        return digits(v)?.try_into().ok();
    }
    let prec = UNITS.iter().find(|x| x.0 == u)?.1;
    let p: Vec<&str> = v.split('.').collect();
    if p.len() > 2 { return None; }
    let int = digits(p[0])?;
    let ten = BigUint::from(10u32);
    let mut total = int * ten.pow(prec);
    if p.len() == 2 {
        let f = digits(p[1])?;
        if p[1].len() > prec as usize { return None; }
        total += f * ten.pow(prec - p[1].len() as u32);
    }
    total.try_into().ok()
}
pub fn c14(c: &mut Ctx) {
    let mut r = c.rng("currency strings");
    let mut strs: Vec<String> = ["", "H", "0", "0H", "0 H", "1", "1 ", " 1", "1.0", "1.0 H", ".", ". SC", "1. SC", ".5 SC", "1.5SC", "1..5 SC", "1.2.3 SC", "1 sc", "1 S", "1 SC ", "1  SC", "1\tSC", "1\u{a0}SC", "1 SC x",
        "-1", "+1", "+1 SC", "1e3 SC", "1_000", "1,000 SC", "０ SC", "٣ SC", "1 KSC", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "340282366920938.463463374607431768211455 SC",
        "340282366920938.463463374607431768211456 SC", "340282366920938.4634633746074317682114550 SC", "340.282366920938463463374607431768211455 TS", "340.282366920938463463374607431768211456 TS", "341 TS", "340 TS",
        "0.000000000000000000000001 SC", "0.0000000000000000000000001 SC", "0.0000000000000000000000000 SC", "99999999999999999999999999999999999999999999 SC", "000000000000000000000000000000000000000000000000000001 SC",
        "0.1 pS", "0.000000000001 pS", "0.0000000000001 pS", "1 pS", "1 nS", "1 uS", "1 mS", "1 MS", "1 GS", "1 μS", "é", "1é", "1.é", "1H1", "HH", "1 HH", "SC"].iter().map(|s| s.to_string()).collect();
    for _ in 0..c.n(20_000) {
        let u = if r.chance(8) { "H" } else { UNITS[r.below(9) as usize].0 };
        let prec = UNITS.iter().find(|x| x.0 == u).map(|x| x.1 as u64).unwrap_or(0);
        let mut s = match r.below(4) {
            0 => r.u128().to_string(),
            1 => (r.u128() / 10u128.pow(prec as u32)).wrapping_add(r.below(2) as u128).to_string(),
            2 => r.below(1000).to_string(),
            _ => "0".repeat(r.below(4) as usize) + &r.below(1_000_000).to_string(),
        };
        if r.chance(2) {
            s.push('.');
            let n = match r.below(4) { 0 => prec, 1 => prec + 1, 2 => r.below(45), _ => r.below(prec + 1) };
            for _ in 0..n { s.push((b'0' + r.below(10) as u8) as char) }
        }
        if r.chance(8) {
            // exactly at the limit
            let m = BigUint::from(u128::MAX) + r.below(2);
            let d = m.to_string();
            let k = d.len() - prec as usize;
            s = if prec == 0 { d } else { format!("{}.{}", &d[..k], &d[k..]) };
        }
        match r.below(4) { 0 => {} 1 => s.push(' '), 2 => s.push_str("  "), _ => s.push('\t') }
        if !r.chance(12) { s.push_str(u) }
        if r.chance(8) {
            let at = r.below(s.chars().count() as u64 + 1) as usize;
            let ch = ['.', '-', '0', ' ', 'S', 'C', 'é', '\0', '+', '9'][r.below(10) as usize];
            s = s.chars().take(at).chain([ch]).chain(s.chars().skip(at)).collect();
        }
        strs.push(s);
    }
    for _ in 0..c.n(2000) { strs.push(r.string()) }
    for s in strs {
        c.case("currency strings", &s, || format!("parse_string({s:?})"), || same(parse(&s), Currency::parse_string(&s).ok().map(|v| *v)));
    }
    for _ in 0..c.n(3000) {
        let v = r.u128();
        c.case("currency strings, decimal", v, || format!("parse_string({v})"), || {
            same(Some(v), Currency::parse_string(&v.to_string()).ok().map(|x| *x))?;
            same(v.to_string(), Currency::new(v).to_string())
        });
        let (u, p) = UNITS[r.below(9) as usize];
        let one = 10u128.pow(p);
        let mut f = format!("{:0w$}", v % one, w = p as usize);
        while f.ends_with('0') { f.pop(); }
        let s = if f.is_empty() { format!("{} {u}", v / one) } else { format!("{}.{f} {u}", v / one) };
        c.case("currency strings, exact amounts", &s, || format!("parse_string({s:?})"), || same(Some(v), Currency::parse_string(&s).ok().map(|x| *x)));
    }
}

pub fn c15(c: &mut Ctx) {
    let mut r = c.rng("tax");
    for _ in 0..c.n(4000) {
        if !c.time() { return; }
        let mut cs = chain(&mut r);
        if r.chance(2) { cs.network.hardfork_tax.height = cs.state.index.height.wrapping_add(r.below(3)) }
        let mut f = v1::FileContract::g(&mut r);
        f.payout = Currency::new(r.u128());
        let p = BigUint::from(*f.payout);
        // the nearest double to 0.039 is 5620492334958379 / 2^57
        let t = if cs.state.index.height.wrapping_add(1) < cs.network.hardfork_tax.height { &p * 5620492334958379u64 >> 57usize } else { &p * 39u32 / 1000u32 };
        let want: u128 = (&t - &t % 10000u32).try_into().unwrap();
        c.case("v1 tax", (*f.payout, cs.state.index.height, cs.network.hardfork_tax.height), || format!("payout {}, height {}, tax hardfork {}", *f.payout, cs.state.index.height, cs.network.hardfork_tax.height), || same(want, *f.tax(&cs)));
        let mut f = v2::FileContract::g(&mut r);
        let (a, b) = pair(&mut r);
        let Some(s) = a.checked_add(b) else { continue };
        f.renter_output.value = Currency::new(a);
        f.host_output.value = Currency::new(b);
        let t = s / 25;
        c.case("v2 tax", (a, b), || format!("renter {a}, host {b}, height {}", cs.state.index.height), || same(t - t % 10000, *f.tax(&cs)));
    }
}

pub fn c16(c: &mut Ctx) {
    let mut r = c.rng("rewards");
    for k in 0..c.n(6000) {
        if !c.time() { return; }
        let mut cs = chain(&mut r);
        // block rewards
        let h = match r.below(4) { 0 => r.below(400_000), 1 => r.below(340_282_366_920_938), 2 => r.u64() % 340_282_366_920_938, _ => 269_998 + r.below(5) };
        cs.state.index.height = h.wrapping_sub(1);
        if r.chance(2) { cs.network.initial_coinbase = Currency::new(r.u128()) }
        if r.chance(2) { cs.network.minimum_coinbase = Currency::new(r.u128()) }
        if r.chance(4) { cs.network.minimum_coinbase = Currency::new((*cs.network.initial_coinbase).saturating_sub(h as u128 * SC).wrapping_add(r.below(3) as u128).wrapping_sub(1)) }
        let (i, m) = (*cs.network.initial_coinbase, *cs.network.minimum_coinbase);
        let want = i.saturating_sub(h as u128 * SC).max(m);
        c.case("block reward", (h, i, m), || format!("height {h}, initial {i}, minimum {m}"), || same(want, *cs.block_reward()));
        // maturity
        cs.network.maturity_delay = if r.chance(2) { 144 } else { r.u64() };
        if let Some(w) = h.checked_add(cs.network.maturity_delay) {
            let d = cs.network.maturity_delay;
            c.case("maturity height", (h, d), || format!("height {h}, delay {d}"), || same(w, cs.maturity_height()));
        }
        // foundation
        if r.chance(2) { cs.network.block_interval = time::Duration::seconds(1 + r.below(2_000_000) as i64) }
        if r.chance(5) { cs.network.block_interval += time::Duration::nanoseconds(r.below(1_000_000_000) as i64) }
        let ns = cs.network.block_interval.whole_nanoseconds() as u128;
        let bpm = (365u128 * 86400 * 1_000_000_000 / 12 / ns) as u64;
        c.case("blocks per month", ns, || format!("block interval {ns} ns"), || same(bpm, cs.blocks_per_month()));
        if bpm == 0 { continue }
        let f = match r.below(3) { 0 => r.below(1 << 20), 1 => r.u64() >> 1, _ => 298_000 };
        cs.network.hardfork_foundation.height = f;
        let h = match k % 5 { 0 => f, 1 => f.saturating_sub(1), 2 => f.saturating_add(bpm.saturating_mul(r.below(50))), 3 => f.saturating_add(bpm.saturating_mul(r.below(50))).saturating_add(1), _ => f.saturating_add(r.below(3 * bpm)) };
        cs.state.index.height = h.wrapping_sub(1);
        let per = 30_000u128 * SC * bpm as u128;
        let want = if h < f || (h - f) % bpm != 0 { None } else { Some(SiacoinOutput { value: Currency::new(if h == f { per * 12 } else { per }), address: cs.state.foundation_primary_address.clone() }) };
        c.case("foundation subsidy", (h, f, ns), || format!("child height {h}, foundation hardfork {f}, block interval {ns} ns, network address {}, state address {}", cs.network.hardfork_foundation.primary_address, cs.state.foundation_primary_address), || same(want, cs.foundation_subsidy()));
        c.case("constants", h, || "siafund count, ancestor depth".into(), || same((10000, 1000), (cs.siafund_count(), cs.ancestor_depth())));
    }
}
pub fn c17(c: &mut Ctx) {
    let mut r = c.rng("replay prefix");
    for _ in 0..c.n(6000) {
        if !c.time() { return; }
        let cs = chain(&mut r);
        let h = cs.state.index.height;
        c.case("replay prefix", (h, cs.network.hardfork_asic.height, cs.network.hardfork_foundation.height, cs.network.hardfork_v2.allow_height), || show_chain(&cs), || same_bytes(&prefix(&cs), cs.replay_prefix()));
        c.case("child height", h, || format!("height {h}"), || same((h.wrapping_add(1), h.wrapping_add(1)), (cs.child_height(), cs.state.index.child_height())));
        let want = if h.wrapping_add(1) < cs.network.hardfork_asic.height { 1 } else { 1009 };
        c.case("nonce factor", (h, cs.network.hardfork_asic.height), || format!("height {h}, asic hardfork {}", cs.network.hardfork_asic.height), || same(want, cs.nonce_factor()));
    }
}

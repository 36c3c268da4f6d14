use super::h256;
use crate::codec::*;
use crate::ctx::*;
use crate::rng::Rng;
use sia::signing::{PublicKey, Signature};
use sia::types::v1::UnlockKey;
use sia::types::*;

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 { return None; }
    let d = |c: u8| (c as char).to_digit(16).filter(|_| c.is_ascii()).map(|x| x as u8);
    b.chunks(2).map(|p| Some(d(p[0])? << 4 | d(p[1])?)).collect()
}
/// a string near a valid one
pub fn alter(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..=r.below(2) {
        let k = r.below(v.len() as u64 + 1) as usize;
        let ch = ['0', 'f', 'F', 'g', 'G', '/', ':', '@', '`', ' ', 'é', 'h', '\0', 'A'][r.below(14) as usize];
        match r.below(6) {
            0 => v.insert(k, ch),
            1 => { if k < v.len() { v.remove(k); } }
            2 | 3 => if k < v.len() { v[k] = ch },
            4 => if k < v.len() { v[k] = if v[k].is_ascii_lowercase() { v[k].to_ascii_uppercase() } else { v[k] } },
            _ => { let (a, b) = (r.below(v.len() as u64 + 1) as usize, r.below(v.len() as u64 + 1) as usize); if a < v.len() && b < v.len() { v.swap(a, b) } }
        }
    }
    let s: String = v.into_iter().collect();
    if r.chance(6) { s.to_uppercase() } else { s }
}
pub fn id_ref(s: &str) -> Option<Vec<u8>> {
    let s = match s.find(':') { Some(k) => &s[k + 1..], None => s };
    if s.len() != 64 { return None; }
    unhex(s)
}
pub fn addr_ref(s: &str) -> Option<Vec<u8>> {
    if s.len() != 76 { return None; }
    let b = unhex(s)?;
    if h256(&[&b[..32]])[..6] != b[32..] { return None; }
    Some(b[..32].to_vec())
}
pub fn fixed_ref(s: &str, n: usize) -> Option<Vec<u8>> {
    unhex(s).filter(|b| b.len() == n)
}
pub fn c19(c: &mut Ctx) {
    let mut r = c.rng("text");
    for _ in 0..c.n(1500) {
        if !c.time() { return; }
        let x: [u8; 32] = r.array();
        let hex = hx(&x);
        macro_rules! ids { ($($t:ident)*) => { $(
            c.case(concat!("display ", stringify!($t)), x, || format!("{} {hex}", stringify!($t)), || same(hex.clone(), $t::new(x).to_string()));
            let s = match r.below(5) { 0 => hex.clone(), 1 => format!("{}:{hex}", r.string()), 2 => r.string(), _ => alter(&mut r, &hex) };
            let want = id_ref(&s);
            c.case(concat!("parse ", stringify!($t)), &s, || format!("{}::parse_string({s:?})", stringify!($t)), || same(want, $t::parse_string(&s).ok().map(|v| idb(&v).to_vec())));
            c.case(concat!("round trip ", stringify!($t)), x, || format!("{} {hex}", stringify!($t)), || same(Some($t::new(x)), $t::parse_string(&$t::new(x).to_string()).ok()));
            c.case(concat!("conversions ", stringify!($t)), x, || format!("{} {hex}", stringify!($t)), || {
                same_bytes(&x, &<[u8; 32]>::from($t::from(x)))?;
                same_bytes(&x, AsRef::<[u8]>::as_ref(&$t::from(x)))?;
                same_bytes(&x, idb(&$t::new(x)))?;
                same_bytes(&[0; 32], idb(&$t::default()))
            });
        )* } }
        ids!(Hash256 SiacoinOutputID SiafundOutputID AttestationID BlockID TransactionID FileContractID);
        // addresses
        let full = format!("{hex}{}", hx(&h256(&[&x])[..6]));
        c.case("display Address", x, || format!("Address {hex}"), || same(full.clone(), Address::new(x).to_string()));
        let s = match r.below(5) {
            0 => full.clone(),
            1 => { let mut b = unhex(&full).unwrap(); b[r.below(38) as usize] ^= 1 << r.below(8); hx(&b) }
            2 => full.to_uppercase(),
            _ => alter(&mut r, &full),
        };
        let want = addr_ref(&s);
        c.case("parse Address", &s, || format!("Address::parse_string({s:?})"), || same(want, Address::parse_string(&s).ok().map(|v| v.as_ref().to_vec())));
        c.case("conversions Address", x, || format!("Address {hex}"), || {
            same_bytes(&x, Address::from(x).as_ref())?;
            same_bytes(&x, Address::from(&x[..]).as_ref())?;
            same_bytes(&[0; 32], Address::default().as_ref())
        });
        // every flipped bit of a checksum is noticed
        if r.chance(50) {
            for k in 0..304usize {
                let mut b = unhex(&full).unwrap();
                b[k / 8] ^= 1 << (k % 8);
                let s = hx(&b);
                c.case("address checksum", &s, || format!("Address::parse_string({s:?})"), || same(None, Address::parse_string(&s).ok()));
            }
        }
        // signatures, leaves
        let y: [u8; 64] = r.array();
        let hy = hx(&y);
        let s = if r.chance(3) { hy.clone() } else { alter(&mut r, &hy) };
        let want = fixed_ref(&s, 64);
        c.case("Signature", &s, || format!("Signature::parse_string({s:?})"), || {
            same(want.clone(), Signature::parse_string(&s).ok().map(|v| v.data().to_vec()))?;
            same(hy.clone(), Signature::new(y).to_string())?;
            same_bytes(&y, Signature::from(y).as_ref())?;
            same_bytes(&[0; 64], Signature::default().data())
        });
        c.case("Leaf", &s, || format!("Leaf::parse_string({s:?})"), || {
            same(want.clone(), Leaf::parse_string(&s).ok().map(|v| leaf_bytes(&v).to_vec()))?;
            same(hy.clone(), Leaf::from(y).to_string())
        });
        // keys
        c.case("display PublicKey", x, || format!("PublicKey {hex}"), || same(format!("ed25519:{hex}"), PublicKey::new(x).to_string()));
        let kb = { let n = r.len(100); r.bytes(n) };
        let alg = match r.below(3) { 0 => "ed25519".to_string(), 1 => r.string(), _ => "entropy".to_string() };
        let mut sp = [0u8; 16];
        for (d, s) in sp.iter_mut().zip(alg.bytes()) { *d = s }
        let s = format!("{alg}:{}", hx(&kb));
        let s = if r.chance(2) { s } else { alter(&mut r, &s) };
        let want = s.split_once(':').and_then(|(a, k)| {
            let mut sp = [0u8; 16];
            for (d, s) in sp.iter_mut().zip(a.bytes()) { *d = s }
            Some((sp.to_vec(), unhex(k)?))
        });
        c.case("parse UnlockKey", &s, || format!("UnlockKey::parse_string({s:?})"), || same(want, UnlockKey::parse_string(&s).ok().map(|k| (k.algorithm.as_bytes().to_vec(), k.key))));
        c.case("specifier", &alg, || format!("Specifier::from({alg:?})"), || same_bytes(&sp, Specifier::from(alg.as_str()).as_bytes()));
        let end = sp.iter().rposition(|b| *b != 0).map_or(0, |k| k + 1);
        if let Ok(text) = std::str::from_utf8(&sp[..end]) {
            c.case("display Specifier", sp, || format!("Specifier {}", hx(&sp)), || same(text, &Specifier::new(sp).to_string()));
            c.case("display UnlockKey", (&sp, &kb), || format!("UnlockKey {} {}", hx(&sp), hx(&kb)), || same(format!("{text}:{}", hx(&kb)), UnlockKey { algorithm: Specifier::new(sp), key: kb.clone() }.to_string()));
            if !text.contains(':') {
                let k = UnlockKey { algorithm: Specifier::new(sp), key: kb.clone() };
                c.case("round trip UnlockKey", (&sp, &kb), || format!("{k:?}"), || same(Some(k.clone()), UnlockKey::parse_string(&k.to_string()).ok()));
            }
        }
        c.case("UnlockKey from PublicKey", x, || format!("PublicKey {hex}"), || same(UnlockKey { algorithm: Specifier::new(specifier_of(b"ed25519")), key: x.to_vec() }, UnlockKey::from(PublicKey::new(x))));
        let h = r.u64();
        c.case("display ChainIndex", (h, x), || format!("ChainIndex {h} {hex}"), || same(format!("{h}:{hex}"), ChainIndex { height: h, id: BlockID::new(x) }.to_string()));
        // literals
        let s: String = hex.chars().map(|ch| if r.chance(3) { ch.to_ascii_uppercase() } else { ch }).collect();
        c.case("hex literals", &s, || format!("decode_hex_256({s:?})"), || same_bytes(&x, &sia::macros::decode_hex_256(s.as_bytes())));
    }
    for ch in 0..=255u8 {
        let mut s = [b'0'; 64];
        for k in [0usize, 1, 31, 62, 63] {
            s[k] = ch;
            let want = std::str::from_utf8(&s).ok().and_then(unhex);
            c.case("hex literal characters", (ch, k), || format!("decode_hex_256, character {ch} at {k}"), || {
                let r = std::panic::catch_unwind(|| sia::macros::decode_hex_256(&s)).ok().map(|x| x.to_vec());
                same(want, r)
            });
            s[k] = b'0';
        }
    }
}

use super::h256;
use crate::codec::*;
use crate::ctx::*;
use ed25519_dalek::{Signer, SigningKey, Verifier, VerifyingKey};
use sia::seed::{Seed, SeedError};
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::Hash256;

pub fn c20(c: &mut Ctx) {
    let mut r = c.rng("seeds");
    for _ in 0..c.n(400) {
        if !c.time() { return; }
        let s: [u8; 16] = r.array();
        let i = r.u64();
        let mut ib = vec![];
        eu64(i, &mut ib);
        let want = SigningKey::from_bytes(&h256(&[&h256(&[&s]), &ib])).to_keypair_bytes();
        c.case("private key", (s, i), || format!("seed {}, index {i}", hx(&s)), || same_bytes(&want, Seed::new(s).private_key(i).as_bytes()));
        c.case("public key", (s, i), || format!("seed {}, index {i}", hx(&s)), || same_bytes(&want[32..], Seed::new(s).private_key(i).public_key().as_ref()));
        c.case("seed bytes", s, || format!("seed {}", hx(&s)), || same_bytes(&s, Seed::new(s).as_bytes()));
        let phrase = bip39::Mnemonic::from_entropy_in(bip39::Language::English, &s).unwrap().to_string();
        c.case("mnemonic", s, || format!("seed {}", hx(&s)), || {
            same(phrase.clone(), Seed::new(s).to_mnemonic())?;
            match Seed::from_mnemonic(&phrase) { Ok(x) => same_bytes(&s, x.as_bytes()), Err(e) => Err((hx(&s), format!("{e:?}"))) }
        });
        // other phrases
        let n = [20usize, 24, 28, 32][r.below(4) as usize];
        let long = bip39::Mnemonic::from_entropy_in(bip39::Language::English, &r.bytes(n)).unwrap().to_string();
        c.case("long mnemonic", &long, || long.clone(), || match Seed::from_mnemonic(&long) { Err(SeedError::InvalidLength) => Ok(()), Err(e) => Err(("InvalidLength".into(), format!("{e:?}"))), Ok(x) => Err(("InvalidLength".into(), hx(x.as_bytes()))) });
        let mut w: Vec<&str> = phrase.split(' ').collect();
        let (a, b) = (r.below(12) as usize, r.below(12) as usize);
        w.swap(a, b);
        if r.chance(3) { w.pop(); }
        if r.chance(3) { w.push("zoo") }
        let other = w.join(" ");
        let want = bip39::Mnemonic::parse_in(bip39::Language::English, other.as_str()).ok().map(|m| m.to_entropy());
        c.case("altered mnemonic", &other, || other.clone(), || match (Seed::from_mnemonic(&other), &want) {
            (Ok(x), Some(w)) if w.len() == 16 => same_bytes(w, x.as_bytes()),
            (Err(_), Some(w)) if w.len() != 16 => Ok(()),
            (Err(SeedError::MnemonicError), None) => Ok(()),
            (x, w) => Err((format!("{w:?}"), format!("{:?}", x.map(|x| hx(x.as_bytes()))))),
        });
    }
}
pub fn c21(c: &mut Ctx) {
    let mut r = c.rng("signatures");
    for _ in 0..c.n(500) {
        if !c.time() { return; }
        let seed: [u8; 32] = r.array();
        let h: [u8; 32] = r.array();
        let sk = SigningKey::from_bytes(&seed);
        let want = sk.sign(&h).to_bytes();
        c.case("keys from seeds", seed, || format!("seed {}", hx(&seed)), || {
            same_bytes(&sk.to_keypair_bytes(), PrivateKey::from_seed(&seed).as_bytes())?;
            same_bytes(&sk.to_keypair_bytes(), PrivateKey::from(Hash256::new(seed)).as_bytes())?;
            same_bytes(&sk.to_keypair_bytes(), PrivateKey::from(sk.to_keypair_bytes()).as_bytes())?;
            same_bytes(sk.verifying_key().as_bytes(), PrivateKey::from_seed(&seed).public_key().as_ref())
        });
        c.case("sign", (seed, h), || format!("seed {}, hash {}", hx(&seed), hx(&h)), || {
            let k = PrivateKey::from_seed(&seed);
            let s = k.sign_hash(&Hash256::new(h));
            same_bytes(&want, s.data())?;
            same(true, k.public_key().verify(&Hash256::new(h), &s))
        });
        // a key whose public half is not that of its seed
        let mut kp: [u8; 64] = r.array();
        if r.chance(2) { kp[..32].copy_from_slice(&seed) }
        c.case("sign with any key bytes", (kp, h), || format!("key {}, hash {}", hx(&kp), hx(&h)), || {
            let k = PrivateKey::from(kp);
            same_bytes(&kp[32..], k.public_key().as_ref())?;
            same_bytes(&SigningKey::from_bytes(kp[..32].try_into().unwrap()).sign(&h).to_bytes(), k.sign_hash(&Hash256::new(h)).data())
        });
        // any bytes whatever
        for _ in 0..6 {
            let mut pk = sk.verifying_key().to_bytes();
            let mut s = want;
            let mut m = h;
            match r.below(6) {
                0 => pk = r.array(),
                1 => s = r.array(),
                2 => s[r.below(64) as usize] ^= 1 << r.below(8),
                3 => m[r.below(32) as usize] ^= 1 << r.below(8),
                4 => pk[r.below(32) as usize] ^= 1 << r.below(8),
                _ => { pk = r.array(); s = r.array(); m = r.array() }
            }
            let want = match VerifyingKey::from_bytes(&pk) { Ok(k) => k.verify(&m, &ed25519_dalek::Signature::from_bytes(&s)).is_ok(), Err(_) => false };
            c.case("verify", (pk, m, s), || format!("key {}, hash {}, signature {}", hx(&pk), hx(&m), hx(&s)), || same(want, PublicKey::new(pk).verify(&Hash256::new(m), &Signature::new(s))));
        }
    }
    // every small encoding of a key
    for x in 0..=255u8 {
        for y in [0u8, 0x7f, 0x80, 0xff] {
            let mut pk = [0u8; 32];
            pk[0] = x;
            pk[31] = y;
            let s = r.array::<64>();
            let m = r.array::<32>();
            let want = match VerifyingKey::from_bytes(&pk) { Ok(k) => k.verify(&m, &ed25519_dalek::Signature::from_bytes(&s)).is_ok(), Err(_) => false };
            c.case("verify, small keys", (pk, m, s), || format!("key {}, hash {}, signature {}", hx(&pk), hx(&m), hx(&s)), || same(want, PublicKey::new(pk).verify(&Hash256::new(m), &Signature::new(s))));
        }
    }
}
/// the bytes where a value was, once it is dropped
fn after_drop<T, const N: usize>(v: T) -> Vec<u8> {
    assert!(std::mem::size_of::<T>() >= N);
    let mut b = Box::new(std::mem::MaybeUninit::<T>::uninit());
    b.write(v);
    let p = b.as_mut_ptr();
    unsafe {
        std::ptr::drop_in_place(p);
        (0..std::mem::size_of::<T>()).map(|i| std::ptr::read_volatile((p as *const u8).add(i))).collect()
    }
}
pub fn c22(c: &mut Ctx) {
    let mut r = c.rng("wiping");
    for _ in 0..c.n(500) {
        let s: [u8; 16] = r.array();
        c.case("seed wiped", s, || format!("drop of the seed {}", hx(&s)), || same_bytes(&[0; 16], &after_drop::<_, 16>(Seed::new(s))));
        let k: [u8; 64] = r.array();
        c.case("private key wiped", k, || format!("drop of the private key {}", hx(&k)), || same_bytes(&[0; 64], &after_drop::<_, 64>(PrivateKey::from(k))));
        let x: [u8; 32] = r.array();
        c.case("derived key wiped", x, || format!("drop of the key of the seed {}", hx(&x)), || same_bytes(&[0; 64], &after_drop::<_, 64>(PrivateKey::from_seed(&x))));
        c.case("cloned key wiped", k, || format!("drop of a clone of the private key {}", hx(&k)), || {
            let a = PrivateKey::from(k);
            same_bytes(&[0; 64], &after_drop::<_, 64>(a.clone()))?;
            same_bytes(&k, a.as_bytes())
        });
    }
}

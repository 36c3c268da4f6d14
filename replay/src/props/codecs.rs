use crate::codec::*;
use crate::ctx::*;
use crate::rng::Rng;
use sia::consensus::{ElementAccumulator, State};
use sia::encoding::*;
use sia::signing::{PublicKey, Signature};
use sia::types::v1::{UnlockConditions, UnlockKey};
use sia::types::v2::{SatisfiedPolicy, SpendPolicy};
use sia::types::{v1, v2, *};
use std::io::{Error, ErrorKind, Read, Write};
use time::{Duration, OffsetDateTime};

macro_rules! v2_prims { ($f:ident, $c:expr, $n:expr) => {
    $f::<u8>($c, "u8", $n); $f::<bool>($c, "bool", $n); $f::<u16>($c, "u16", $n); $f::<u32>($c, "u32", $n);
    $f::<u64>($c, "u64", $n); $f::<usize>($c, "usize", $n); $f::<i16>($c, "i16", $n); $f::<i32>($c, "i32", $n);
    $f::<i64>($c, "i64", $n); $f::<[u8; 1]>($c, "[u8;1]", $n); $f::<[u8; 33]>($c, "[u8;33]", $n); $f::<String>($c, "String", $n);
    $f::<Vec<u8>>($c, "Vec<u8>", $n); $f::<Vec<u64>>($c, "Vec<u64>", $n); $f::<Vec<Vec<u8>>>($c, "Vec<Vec<u8>>", $n);
    $f::<Vec<String>>($c, "Vec<String>", $n); $f::<Option<u64>>($c, "Option<u64>", $n); $f::<Option<Vec<u8>>>($c, "Option<Vec<u8>>", $n);
    $f::<Hash256>($c, "Hash256", $n); $f::<SiacoinOutputID>($c, "SiacoinOutputID", $n); $f::<SiafundOutputID>($c, "SiafundOutputID", $n);
    $f::<AttestationID>($c, "AttestationID", $n); $f::<BlockID>($c, "BlockID", $n); $f::<TransactionID>($c, "TransactionID", $n);
    $f::<FileContractID>($c, "FileContractID", $n); $f::<Address>($c, "Address", $n); $f::<Leaf>($c, "Leaf", $n);
    $f::<Specifier>($c, "Specifier", $n); $f::<Currency>($c, "Currency", $n); $f::<Work>($c, "Work", $n);
    $f::<SiacoinOutput>($c, "SiacoinOutput", $n); $f::<SiafundOutput>($c, "SiafundOutput", $n);
    $f::<UnlockKey>($c, "UnlockKey", $n); $f::<UnlockConditions>($c, "UnlockConditions", $n); $f::<Vec<Currency>>($c, "Vec<Currency>", $n);
} }
macro_rules! v2_only { ($f:ident, $c:expr, $n:expr) => {
    $f::<OffsetDateTime>($c, "OffsetDateTime", $n); $f::<Duration>($c, "Duration", $n); $f::<PublicKey>($c, "PublicKey", $n);
    $f::<Signature>($c, "Signature", $n); $f::<ChainIndex>($c, "ChainIndex", $n); $f::<StateElement>($c, "StateElement", $n);
    $f::<Option<Address>>($c, "Option<Address>", $n); $f::<Vec<Hash256>>($c, "Vec<Hash256>", $n);
    $f::<v2::Attestation>($c, "v2::Attestation", $n); $f::<v2::FileContract>($c, "v2::FileContract", $n);
    $f::<v2::SiacoinElement>($c, "v2::SiacoinElement", $n); $f::<v2::SiafundElement>($c, "v2::SiafundElement", $n);
    $f::<v2::FileContractElement>($c, "v2::FileContractElement", $n); $f::<v2::ChainIndexElement>($c, "v2::ChainIndexElement", $n);
    $f::<v2::FileContractRevision>($c, "v2::FileContractRevision", $n); $f::<v2::FileContractRenewal>($c, "v2::FileContractRenewal", $n);
    $f::<v2::StorageProof>($c, "v2::StorageProof", $n); $f::<v2::FileContractResolution>($c, "v2::FileContractResolution", $n);
    $f::<v2::SiacoinInput>($c, "v2::SiacoinInput", $n / 2); $f::<v2::SiafundInput>($c, "v2::SiafundInput", $n / 2);
    $f::<v2::Transaction>($c, "v2::Transaction", $n);
} }
macro_rules! v1_only { ($f:ident, $c:expr, $n:expr) => {
    $f::<Block>($c, "Block", $n / 4); $f::<v1::SiacoinInput>($c, "v1::SiacoinInput", $n); $f::<v1::SiafundInput>($c, "v1::SiafundInput", $n);
    $f::<v1::FileContract>($c, "v1::FileContract", $n); $f::<v1::FileContractRevision>($c, "v1::FileContractRevision", $n);
    $f::<v1::StorageProof>($c, "v1::StorageProof", $n); $f::<v1::CoveredFields>($c, "v1::CoveredFields", $n);
    $f::<v1::TransactionSignature>($c, "v1::TransactionSignature", $n); $f::<v1::Transaction>($c, "v1::Transaction", $n / 2);
} }
macro_rules! policies { ($f:ident, $c:expr, $n:expr) => {
    $f::<SpendPolicy>($c, "SpendPolicy", $n); $f::<SatisfiedPolicy>($c, "SatisfiedPolicy", $n);
} }
macro_rules! states { ($f:ident, $c:expr, $n:expr) => {
    $f::<ElementAccumulator>($c, "ElementAccumulator", $n); $f::<State>($c, "State", $n); $f::<ChainIndex>($c, "state ChainIndex", $n);
} }

type R<T> = Option<(T, usize)>;
fn dec2<T: R2>(b: &[u8]) -> R<T> {
    let mut r = b;
    T::decode(&mut r).ok().map(|v| (v, r.len()))
}
fn ref2<T: R2>(b: &[u8]) -> R<T> {
    let mut r = b;
    T::d(&mut r).map(|v| (v, r.len()))
}
fn dec1<T: R1>(b: &[u8]) -> R<T> {
    let mut r = b;
    T::decode_v1(&mut r).ok().map(|v| (v, r.len()))
}
fn ref1<T: R1>(b: &[u8]) -> R<T> {
    let mut r = b;
    T::d1(&mut r).map(|v| (v, r.len()))
}

// ---- layout and round trip
fn rt2<T: R2>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("v2 round trip {name}");
    let mut r = c.rng(&fam);
    for _ in 0..c.n(n) {
        if !c.time() { return; }
        let v = T::g(&mut r);
        let want = v.e2v();
        let tl = r.below(12) as usize;
        let tail = r.bytes(tl);
        c.case(&fam, &want, || format!("{v:?}"), || {
            let mut got = Vec::new();
            v.encode(&mut got).map_err(|e| (format!("encoding {}", hx(&want)), format!("encode failed: {e:?}")))?;
            same_bytes(&want, &got)?;
            let mut b = want.clone();
            b.extend_from_slice(&tail);
            let mut rd: &[u8] = &b;
            let back = T::decode(&mut rd).map_err(|e| ("the value back".to_string(), format!("decode of {} failed: {e:?}", hx(&b))))?;
            if back != v { return Err((format!("decoding {} gives {v:?}", hx(&b)), format!("{back:?}"))); }
            same_bytes(&tail, rd).map_err(|(e, a)| (format!("left over {e}"), format!("left over {a}")))
        });
    }
}
fn rt1<T: R1>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("v1 round trip {name}");
    let mut r = c.rng(&fam);
    for _ in 0..c.n(n) {
        if !c.time() { return; }
        let v = T::g(&mut r);
        let want = v.e1v();
        let tl = r.below(12) as usize;
        let tail = r.bytes(tl);
        c.case(&fam, &want, || format!("{v:?}"), || {
            let mut got = Vec::new();
            v.encode_v1(&mut got).map_err(|e| (format!("encoding {}", hx(&want)), format!("encode failed: {e:?}")))?;
            same_bytes(&want, &got)?;
            let mut b = want.clone();
            b.extend_from_slice(&tail);
            let mut rd: &[u8] = &b;
            let back = T::decode_v1(&mut rd).map_err(|e| ("the value back".to_string(), format!("decode of {} failed: {e:?}", hx(&b))))?;
            if back != v { return Err((format!("decoding {} gives {v:?}", hx(&b)), format!("{back:?}"))); }
            same_bytes(&tail, rd).map_err(|(e, a)| (format!("left over {e}"), format!("left over {a}")))
        });
    }
}
fn slice2<T: R2>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("v2 slice [{name}]");
    let mut r = c.rng(&fam);
    for _ in 0..c.n(n) {
        let v: Vec<T> = G::g(&mut r);
        let want = v.e2v();
        c.case(&fam, &want, || format!("{v:?}"), || {
            let mut got = Vec::new();
            v[..].encode(&mut got).map_err(|e| (hx(&want), format!("{e:?}")))?;
            same_bytes(&want, &got)
        });
    }
}
fn slice1<T: R1>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("v1 slice [{name}]");
    let mut r = c.rng(&fam);
    for _ in 0..c.n(n) {
        let v: Vec<T> = G::g(&mut r);
        let want = v.e1v();
        c.case(&fam, &want, || format!("{v:?}"), || {
            let mut got = Vec::new();
            v[..].encode_v1(&mut got).map_err(|e| (hx(&want), format!("{e:?}")))?;
            same_bytes(&want, &got)
        });
    }
}

// ---- arbitrary input
const HEAP: usize = 64 << 20;
/// an encoding, damaged; and sometimes noise
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(9) {
        0 => { let k = r.below(b.len() as u64 + 1) as usize; b.truncate(k) }
        1 | 2 => if !b.is_empty() { let k = r.below(b.len() as u64) as usize; b[k] ^= 1 << r.below(8) },
        3 => if !b.is_empty() { let k = r.below(b.len() as u64) as usize; b[k] = r.next() as u8 },
        4 | 5 => {
            // a length, or anything else, replaced
            let k = r.below(b.len() as u64 + 1) as usize;
            let v = r.u64().to_le_bytes();
            for (j, x) in v.iter().enumerate() { if k + j < b.len() { b[k + j] = *x } }
        }
        6 => { let k = r.below(b.len() as u64 + 1) as usize; let n = r.below(9) as usize; let x = r.bytes(n); for y in x { b.insert(k, y) } }
        7 => if !b.is_empty() {
            // the first length
            let v = r.u64().to_le_bytes();
            for (j, x) in v.iter().enumerate() { if j < b.len() { b[j] = *x } }
        },
        _ => { let n = r.len(300); *b = r.bytes(n) }
    }
}
fn any2<T: R2>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("v2 arbitrary input {name}");
    let mut r = c.rng(&fam);
    for k in 0..c.n(n) {
        if !c.time() { return; }
        let mut b = T::g(&mut r).e2v();
        let trunc = k % 4 == 0;
        if trunc { let k = r.below(b.len() as u64) as usize; b.truncate(k) } else { for _ in 0..=r.below(2) { damage(&mut r, &mut b) } }
        let want = ref2::<T>(&b);
        c.case(&fam, &b, || format!("decode {name} from {}", hx(&b)), || {
            let (got, heap) = heap(|| dec2::<T>(&b));
            if heap > HEAP { return Err((format!("at most {HEAP} bytes of heap"), format!("{heap} bytes"))); }
            same(want, got)
        });
    }
}
fn any1<T: R1>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("v1 arbitrary input {name}");
    let mut r = c.rng(&fam);
    for k in 0..c.n(n) {
        if !c.time() { return; }
        let mut b = T::g(&mut r).e1v();
        let trunc = k % 4 == 0;
        if trunc { let k = r.below(b.len() as u64) as usize; b.truncate(k) } else { for _ in 0..=r.below(2) { damage(&mut r, &mut b) } }
        let want = ref1::<T>(&b);
        c.case(&fam, &b, || format!("decode_v1 {name} from {}", hx(&b)), || {
            let (got, heap) = heap(|| dec1::<T>(&b));
            if heap > HEAP { return Err((format!("at most {HEAP} bytes of heap"), format!("{heap} bytes"))); }
            same(want, got)
        });
    }
}
/// a policy nested `n` deep, each level with `m` subpolicies, as bytes
fn deep_policy(n: usize, m: u8, leafs: u8) -> Vec<u8> {
    let mut b = vec![1u8];
    for _ in 0..n { b.extend_from_slice(&[5, 1, m]) }
    for _ in 0..n * (m as usize).saturating_sub(1) + 1 { b.extend_from_slice(&[1, leafs, 0, 0, 0, 0, 0, 0, 0]) }
    b
}
fn policy_limits(c: &mut Ctx) {
    for (n, m) in [(10, 1), (1022, 1), (1023, 1), (1024, 1), (1025, 1), (3000, 1), (100_000, 1), (4, 255), (5, 255), (100, 10), (102, 10), (103, 10), (7, 146), (1, 255)] {
        let b = deep_policy(n, m, 7);
        let want = ref2::<SpendPolicy>(&b).is_some();
        c.case("policy complexity", (n, m), || format!("a policy of {n} nested thresholds of {m} policies each"), || {
            let mut rd: &[u8] = &b;
            let got = SpendPolicy::decode(&mut rd);
            same(want, got.is_ok())
        });
    }
    for x in 0..=255u8 {
        let mut b = vec![x];
        b.extend_from_slice(&[0; 64]);
        let want = ref2::<SpendPolicy>(&b);
        c.case("policy version", x, || format!("decode SpendPolicy from {}", hx(&b)), || same(want, dec2::<SpendPolicy>(&b)));
        let mut b = vec![1, x];
        b.extend_from_slice(&[0; 64]);
        let want = ref2::<SpendPolicy>(&b);
        c.case("policy tag", x, || format!("decode SpendPolicy from {}", hx(&b)), || same(want, dec2::<SpendPolicy>(&b)));
    }
    let mut r = c.rng("policy timestamps");
    for _ in 0..c.n(300) {
        let t = match r.below(5) { 0 => T_MAX + r.below(3) as i64, 1 => T_MIN - r.below(3) as i64, 2 => r.next() as i64, 3 => r.u64() as i64, _ => r.below(1 << 34) as i64 };
        let mut p = vec![1, 2];
        p.extend_from_slice(&t.to_le_bytes());
        c.case("policy timestamps", t, || format!("decode SpendPolicy::After from {t}"), || same(ref2::<SpendPolicy>(&p), dec2(&p)));
    }
}
fn limits(c: &mut Ctx) {
    // lengths without content
    let huge = [1u64 << 20, 1 << 30, 1 << 32, 1 << 40, 1 << 60, (1 << 61) - 1, 1 << 63, u64::MAX];
    for l in huge {
        macro_rules! short { ($($t:ty)*) => { $(
            c.case("v2 length without content", (stringify!($t), l), || format!("decode {} from the length {l} and 5 bytes", stringify!($t)), || {
                let mut b = l.to_le_bytes().to_vec();
                b.extend_from_slice(&[0; 5]);
                let (r, heap) = heap(|| { let mut rd: &[u8] = &b; <$t as SiaDecodable>::decode(&mut rd).is_ok() });
                if r { return Err(("an error".into(), "a value".into())); }
                if heap > HEAP { return Err((format!("at most {HEAP} bytes of heap"), format!("{heap} bytes"))); }
                Ok(())
            });
        )* } }
        short!(Vec<u8> Vec<u64> String Vec<Vec<u8>> Vec<v2::Transaction> Vec<Hash256> Vec<v2::FileContractRevision> Vec<[u8; 4096]>);
        macro_rules! short1 { ($($t:ty)*) => { $(
            c.case("v1 length without content", (stringify!($t), l), || format!("decode_v1 {} from the length {l} and 5 bytes", stringify!($t)), || {
                let mut b = l.to_le_bytes().to_vec();
                b.extend_from_slice(&[0; 5]);
                let (r, heap) = heap(|| { let mut rd: &[u8] = &b; <$t as V1SiaDecodable>::decode_v1(&mut rd).is_ok() });
                if r { return Err(("an error".into(), "a value".into())); }
                if heap > HEAP { return Err((format!("at most {HEAP} bytes of heap"), format!("{heap} bytes"))); }
                Ok(())
            });
        )* } }
        short1!(Vec<u8> Vec<u64> String Vec<Vec<u8>> Vec<v1::Transaction> Vec<v1::FileContract> Currency v1::Transaction Vec<[u8; 4096]>);
    }
    // every first byte
    for x in 0..=255u8 {
        let mut b = vec![x];
        b.extend_from_slice(&[0; 64]);
        macro_rules! first { ($($t:ty)*) => { $(
            let want = ref2::<$t>(&b);
            c.case("v2 first byte", (stringify!($t), x), || format!("decode {} from {}", stringify!($t), hx(&b)), || same(want, dec2::<$t>(&b)));
        )* } }
        first!(bool u8 Option<u8> Option<u64> v2::Transaction);
        macro_rules! first1 { ($($t:ty)*) => { $(
            let want = ref1::<$t>(&b);
            c.case("v1 first byte", (stringify!($t), x), || format!("decode_v1 {} from {}", stringify!($t), hx(&b)), || same(want, dec1::<$t>(&b)));
        )* } }
        first1!(bool u8 Option<u8> Option<u64> v1::CoveredFields Currency);
    }
    let mut r = c.rng("resolution tag");
    for x in 0..=255u8 {
        let mut b = v2::FileContractElement::g(&mut r).e2v();
        b.push(x);
        if x < 2 { let n = v2::FileContractRenewal::g(&mut r).e2v(); b.extend_from_slice(&n); }
        let want = ref2::<v2::FileContractResolution>(&b);
        c.case("resolution tag", x, || format!("decode FileContractResolution from {}", hx(&b)), || same(want, dec2(&b)));
    }
    let mut r = c.rng("timestamps");
    for _ in 0..c.n(300) {
        let t = match r.below(5) { 0 => T_MAX + r.below(3) as i64, 1 => T_MIN - r.below(3) as i64, 2 => r.next() as i64, 3 => r.u64() as i64, _ => r.below(1 << 34) as i64 };
        let b = t.to_le_bytes();
        c.case("timestamps", t, || format!("decode OffsetDateTime from {t}"), || same(ref2::<OffsetDateTime>(&b), dec2(&b)));
    }
}

// ---- readers and writers that fail
struct FailAfter { left: usize, got: Vec<u8>, kind: ErrorKind }
impl Write for FailAfter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.left == 0 { return if self.kind == ErrorKind::WriteZero { Ok(0) } else { Err(Error::new(self.kind, "full")) }; }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Slow<'a> { b: &'a [u8], rng: Rng, fail_at: Option<usize>, pos: usize }
impl Read for Slow<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        if o.is_empty() { return Ok(0); }
        if self.rng.chance(5) { return Err(Error::new(ErrorKind::Interrupted, "again")); }
        if let Some(f) = self.fail_at { if self.pos >= f { return Err(Error::new(ErrorKind::ConnectionReset, "gone")); } }
        let mut n = o.len().min(1 + self.rng.below(9) as usize).min(self.b.len());
        if let Some(f) = self.fail_at { n = n.min(f - self.pos) }
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        self.pos += n;
        Ok(n)
    }
}
struct SlowW { got: Vec<u8>, rng: Rng }
impl Write for SlowW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.rng.chance(5) { return Err(Error::new(ErrorKind::Interrupted, "again")); }
        let n = b.len().min(1 + self.rng.below(9) as usize);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn cuts(r: &mut Rng, len: usize, max: usize) -> Vec<usize> {
    if len <= max { (0..len).collect() } else { let mut v: Vec<usize> = (0..max).map(|_| r.below(len as u64) as usize).collect(); v.push(len - 1); v.push(0); v }
}
macro_rules! io { ($fn:ident, $tr:ident, $enc:ident, $dec:ident, $bytes:ident, $what:expr) => {
fn $fn<T: $tr>(c: &mut Ctx, name: &str, n: u64) {
    let fam = format!("{} failing io {name}", $what);
    let mut r = c.rng(&fam);
    for _ in 0..c.n(n) {
        if !c.time() { return; }
        let v = T::g(&mut r);
        let b = v.$bytes();
        for k in cuts(&mut r, b.len(), 60) {
            let kind = [ErrorKind::Other, ErrorKind::WriteZero, ErrorKind::BrokenPipe][r.below(3) as usize];
            c.case(&fam, (&b, k, 0), || format!("writer accepts {k} of {} bytes ({kind:?}), value {v:?}", b.len()), || {
                let mut w = FailAfter { left: k, got: vec![], kind };
                if v.$enc(&mut w).is_ok() { return Err(("an error".into(), format!("success, {} bytes written", w.got.len()))); }
                same_bytes(&b[..k], &w.got)
            });
            let rng = Rng::new(r.next(), "slow");
            c.case(&fam, (&b, k, 1), || format!("reader fails after {k} bytes of {}", hx(&b)), || {
                let mut s = Slow { b: &b, rng, fail_at: Some(k), pos: 0 };
                match T::$dec(&mut s) { Ok(v) => Err(("an error".into(), format!("{v:?}"))), Err(_) => Ok(()) }
            });
        }
        let rng = Rng::new(r.next(), "slow");
        c.case(&fam, (&b, 2), || format!("slow reader, {}", hx(&b)), || {
            let mut s = Slow { b: &b, rng, fail_at: None, pos: 0 };
            match T::$dec(&mut s) { Ok(x) => same(&v, &x), Err(e) => Err((format!("{v:?}"), format!("{e:?}"))) }
        });
        let rng = Rng::new(r.next(), "slow");
        c.case(&fam, (&b, 3), || format!("slow writer, {v:?}"), || {
            let mut s = SlowW { got: vec![], rng };
            v.$enc(&mut s).map_err(|e| (hx(&b), format!("{e:?}")))?;
            same_bytes(&b, &s.got)
        });
    }
}
} }
io!(io2, R2, encode, decode, e2v, "v2");
io!(io1, R1, encode_v1, decode_v1, e1v, "v1");
fn io_other(c: &mut Ctx) {
    let fam = "failing io, other encoders";
    let mut r = c.rng(fam);
    for _ in 0..c.n(60) {
        let v = v1::Transaction::g(&mut r);
        let mut b = v.e1v();
        let n = v.signatures.e1v().len();
        b.truncate(b.len() - n);
        for k in cuts(&mut r, b.len(), 40) {
            c.case(fam, (&b, k), || format!("encode_no_sigs, writer accepts {k} bytes, {v:?}"), || {
                let mut w = FailAfter { left: k, got: vec![], kind: ErrorKind::Other };
                if v.encode_no_sigs(&mut w).is_ok() { return Err(("an error".into(), "success".into())); }
                same_bytes(&b[..k], &w.got)
            });
        }
        let v = v2::ChainIndexElement::g(&mut r);
        let mut b = v.state_element.leaf_index.e2v();
        b.extend_from_slice(&[0; 8]);
        v.id.e(&mut b);
        v.chain_index.e(&mut b);
        for k in cuts(&mut r, b.len(), 200) {
            c.case(fam, (&b, k, 1), || format!("ChainIndexElement::encode_semantics, writer accepts {k} bytes, {v:?}"), || {
                let mut w = FailAfter { left: k, got: vec![], kind: ErrorKind::Other };
                if v.encode_semantics(&mut w).is_ok() { return Err(("an error".into(), "success".into())); }
                same_bytes(&b[..k], &w.got)
            });
        }
        let v: Vec<u64> = (0..r.below(5)).map(|_| r.u64()).collect();
        let b = v.e2v();
        for k in 0..b.len() {
            c.case(fam, (&b, k, 2), || format!("slice encode, writer accepts {k} bytes, {v:?}"), || {
                let mut w = FailAfter { left: k, got: vec![], kind: ErrorKind::Other };
                if v[..].encode(&mut w).is_ok() { return Err(("an error".into(), "success".into())); }
                let mut w = FailAfter { left: k, got: vec![], kind: ErrorKind::Other };
                if v[..].encode_v1(&mut w).is_ok() { return Err(("an error".into(), "success of encode_v1".into())); }
                Ok(())
            });
        }
    }
}

pub fn c01(c: &mut Ctx) {
    v2_prims!(rt2, c, 250);
    v2_only!(rt2, c, 200);
    policies!(rt2, c, 100);
    slice2::<u8>(c, "u8", 60);
    slice2::<String>(c, "String", 60);
    slice2::<u64>(c, "u64", 60);
    // every combination of present transaction fields
    let mut r = c.rng("v2 transaction fields");
    for m in 0..2048u64 {
        let e = |r: &mut Rng| {
            let mut t = v2::Transaction {
                siacoin_inputs: vec![], siacoin_outputs: vec![], siafund_inputs: vec![], siafund_outputs: vec![], file_contracts: vec![],
                file_contract_revisions: vec![], file_contract_resolutions: vec![], attestations: vec![], arbitrary_data: vec![],
                new_foundation_address: None, miner_fee: Currency::new(0),
            };
            r.depth = 9;
            if m & 1 != 0 { t.siacoin_inputs.push(G::g(r)) }
            if m & 2 != 0 { t.siacoin_outputs.push(G::g(r)) }
            if m & 4 != 0 { t.siafund_inputs.push(G::g(r)) }
            if m & 8 != 0 { t.siafund_outputs.push(G::g(r)) }
            if m & 16 != 0 { t.file_contracts.push(G::g(r)) }
            if m & 32 != 0 { t.file_contract_revisions.push(G::g(r)) }
            if m & 64 != 0 { t.file_contract_resolutions.push(G::g(r)) }
            if m & 128 != 0 { t.attestations.push(G::g(r)) }
            if m & 256 != 0 { t.arbitrary_data.push(G::g(r)) }
            if m & 512 != 0 { t.new_foundation_address = Some(G::g(r)) }
            if m & 1024 != 0 { t.miner_fee = Currency::new(1 + r.below(1000) as u128) }
            t
        };
        let t = e(&mut r);
        let b = t.e2v();
        c.case("v2 transaction fields", m, || format!("{t:?}"), || {
            let mut o = vec![];
            t.encode(&mut o).map_err(|e| (hx(&b), format!("{e:?}")))?;
            same_bytes(&b, &o)?;
            match dec2::<v2::Transaction>(&b) { Some((x, 0)) if x == t => Ok(()), x => Err((format!("{t:?}"), format!("{x:?}"))) }
        });
    }
}
pub fn c02(c: &mut Ctx) {
    v2_prims!(rt1, c, 250);
    v1_only!(rt1, c, 250);
    slice1::<u8>(c, "u8", 60);
    slice1::<String>(c, "String", 60);
    slice1::<u64>(c, "u64", 60);
    // currencies of every length, and encodings with leading zeros
    let mut r = c.rng("v1 currency lengths");
    for n in 0..=17usize {
        for k in 0..60 {
            let mut b = vec![];
            eu64(n as u64, &mut b);
            let x = r.bytes(n);
            b.extend_from_slice(&x);
            b.push(9);
            let want = ref1::<Currency>(&b);
            c.case("v1 currency lengths", (n, k, &b), || format!("decode_v1 Currency from {}", hx(&b)), || same(want, dec1::<Currency>(&b)));
        }
    }
    let mut r = c.rng("v1 siafund outputs");
    for k in 0..c.n(400) {
        let v = if k % 2 == 0 { r.u64() as u128 } else { r.u128() };
        let mut b = vec![];
        ecur1(v, &mut b);
        Address::g(&mut r).e1(&mut b);
        ecur1(if r.chance(2) { 0 } else { r.u128() }, &mut b);
        let want = ref1::<SiafundOutput>(&b);
        c.case("v1 siafund outputs", &b, || format!("decode_v1 SiafundOutput from {}", hx(&b)), || same(want, dec1::<SiafundOutput>(&b)));
    }
}
pub fn c03(c: &mut Ctx) {
    limits(c);
    policy_limits(c);
    v2_prims!(any2, c, 120);
    v2_only!(any2, c, 150);
    policies!(any2, c, 400);
    states!(any2, c, 200);
    v2_prims!(any1, c, 120);
    v1_only!(any1, c, 150);
}
pub fn c04(c: &mut Ctx) {
    io_other(c);
    v2_prims!(io2, c, 8);
    v2_only!(io2, c, 6);
    policies!(io2, c, 10);
    states!(io2, c, 10);
    v2_prims!(io1, c, 8);
    v1_only!(io1, c, 8);
}
pub fn c11(c: &mut Ctx) {
    policy_limits(c);
    policies!(rt2, c, 1500);
    policies!(any2, c, 3000);
    policies!(io2, c, 20);
    for n in 0..=255usize {
        let p = SpendPolicy::Threshold(n as u8, (0..n).map(|k| SpendPolicy::Above(k as u64)).collect());
        let b = p.e2v();
        c.case("threshold sizes", n, || format!("a threshold of {n} policies"), || {
            let mut o = vec![];
            p.encode(&mut o).map_err(|e| (hx(&b), format!("{e:?}")))?;
            same_bytes(&b, &o)?;
            same(Some((p, 0)), dec2::<SpendPolicy>(&b))
        });
    }
}
pub fn c18(c: &mut Ctx) {
    states!(rt2, c, 1500);
    states!(any2, c, 1500);
    states!(io2, c, 20);
    for k in 0..64 {
        for n in [1u64 << k, (1u64 << k).wrapping_sub(1), !(1u64 << k)] {
            let mut trees = [Hash256::new([0; 32]); 64];
            for j in 0..64 { if n >> j & 1 == 1 { trees[j] = Hash256::new([j as u8 + 1; 32]) } }
            let v = ElementAccumulator { num_leaves: n, trees };
            let b = v.e2v();
            c.case("accumulator sizes", n, || format!("{v:?}"), || {
                let mut o = vec![];
                v.encode(&mut o).map_err(|e| (hx(&b), format!("{e:?}")))?;
                same_bytes(&b, &o)?;
                match dec2::<ElementAccumulator>(&b) { Some((x, 0)) if x == v => Ok(()), x => Err((format!("{v:?}"), format!("{x:?}"))) }
            });
        }
    }
    let mut r = c.rng("state heights");
    for h in (0..30u64).chain([u64::MAX, u64::MAX - 1, u64::MAX - 11, 1 << 32, 1 << 63, 256, 65536]) {
        let mut v = State::g(&mut r);
        v.index.height = h;
        let n = if h == u64::MAX { 0 } else { (h as u128 + 1).min(11) as usize };
        for (k, t) in v.prev_timestamps.iter_mut().enumerate() { *t = if k < n { G::g(&mut r) } else { OffsetDateTime::UNIX_EPOCH } }
        let b = v.e2v();
        c.case("state heights", h, || format!("{v:?}"), || {
            let mut o = vec![];
            v.encode(&mut o).map_err(|e| (hx(&b), format!("{e:?}")))?;
            same_bytes(&b, &o)?;
            match dec2::<State>(&b) { Some((x, 0)) if x == v => Ok(()), x => Err((format!("{v:?}"), format!("{x:?}"))) }
        });
    }
}

//! A small deterministic generator, biased to the values at which code changes its mind.
use std::sync::OnceLock;

pub static INTS: OnceLock<Vec<u128>> = OnceLock::new();
pub static STRS: OnceLock<Vec<String>> = OnceLock::new();

#[derive(Clone)]
pub struct Rng {
    s: u64,
    /// nesting, so that generated values stay finite
    pub depth: u32,
    /// only values that have JSON (their times and algorithms have a text)
    pub json: bool,
    /// durations of more than i64::MAX nanoseconds as well
    pub long: bool,
    /// inside a long list
    pub inlong: bool,
}

impl Rng {
    pub fn new(seed: u64, fam: &str) -> Rng {
        let mut h = seed ^ 0x9e37_79b9_7f4a_7c15;
        for b in fam.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        let mut r = Rng { s: h, depth: 0, json: false, long: false, inlong: false };
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    fn lit(&mut self) -> u128 {
        let v = INTS.get().map(|v| v.as_slice()).unwrap_or(&[]);
        if v.is_empty() {
            return self.next() as u128;
        }
        let x = v[self.below(v.len() as u64) as usize];
        match self.below(3) {
            0 => x,
            1 => x.wrapping_add(1),
            _ => x.wrapping_sub(1),
        }
    }
    pub fn u128(&mut self) -> u128 {
        match self.below(10) {
            0 => self.below(4) as u128,
            1 => u128::MAX - self.below(4) as u128,
            2 => self.lit(),
            3 => 1u128 << self.below(128),
            4 => (1u128 << self.below(128)).wrapping_sub(1),
            5 => self.next() as u128,
            6 => u64::MAX as u128 + self.below(3) as u128,
            // some zero bytes in the middle or at an end
            7 => {
                let x = (self.next() as u128) << 64 | self.next() as u128;
                x & !(0xffff_ffffu128 << self.below(100))
            }
            8 => {
                let k = self.below(128) as u32;
                ((self.next() as u128) << 64 | self.next() as u128) >> k
            }
            _ => (self.next() as u128) << 64 | self.next() as u128,
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => self.lit() as u64,
            3 => 1u64 << self.below(64),
            4 => (1u64 << self.below(64)).wrapping_sub(1),
            5 => self.below(100_000),
            6 => {
                let k = self.below(64) as u32;
                self.next() >> k
            }
            _ => self.next(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(8);
        let mut v: Vec<u8> = (0..n).map(|_| self.next() as u8).collect();
        match mode {
            0 => v.iter_mut().for_each(|b| *b = 0),
            1 => v.iter_mut().for_each(|b| *b = 0xff),
            2 => {
                let k = self.below(n as u64 + 1) as usize;
                v[k..].iter_mut().for_each(|b| *b = 0)
            }
            3 => {
                let k = self.below(n as u64 + 1) as usize;
                v[..k].iter_mut().for_each(|b| *b = 0)
            }
            4 => v.iter_mut().for_each(|b| *b = b' ' + *b % 95),
            _ => {}
        }
        v
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    /// a length: mostly small, sometimes at a boundary, at most `max`
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.below(20) {
            0..=4 => 0,
            5..=8 => 1,
            9..=11 => 2,
            12..=13 => 3,
            14..=15 => self.below(9) as usize,
            16 => [15, 16, 17, 31, 32, 33, 63, 64, 65][self.below(9) as usize],
            17 => [127, 128, 129, 254, 255, 256, 257][self.below(7) as usize],
            18 => {
                let l = self.lit();
                if l <= max as u128 { l as usize } else { 4 }
            }
            _ => self.below(40) as usize,
        };
        if n <= max { n } else { self.below(max as u64 + 1) as usize }
    }
    pub fn string(&mut self) -> String {
        match self.below(6) {
            0 => String::new(),
            1 => {
                let v = STRS.get().map(|v| v.as_slice()).unwrap_or(&[]);
                if v.is_empty() { "x".into() } else { v[self.below(v.len() as u64) as usize].clone() }
            }
            2 => {
                let n = self.len(300);
                (0..n).map(|_| (b' ' + self.below(95) as u8) as char).collect()
            }
            _ => {
                let n = self.len(40);
                (0..n)
                    .map(|_| loop {
                        let c = match self.below(5) {
                            0 => self.below(0x80),
                            1 => self.below(0x800),
                            2 => self.below(0x10000),
                            3 => self.below(0x110000),
                            _ => 0x20 + self.below(0x5f),
                        };
                        if let Some(c) = char::from_u32(c as u32) {
                            break c;
                        }
                    })
                    .collect()
            }
        }
    }
}

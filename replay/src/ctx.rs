//! Running cases: every case is a concrete input put through the real code and compared with a
//! reference; a failure is kept with its input.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

/// counts the live heap, and refuses absurd requests
pub struct Alloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 2 << 30 {
            return std::ptr::null_mut();
        }
        let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
/// the most additional heap `f` had at once
pub fn heap<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}

pub struct Fail {
    pub fam: String,
    pub index: u64,
    pub input: String,
    pub expected: String,
    pub actual: String,
}
pub static CURRENT: Mutex<(String, u64, Option<std::time::Instant>)> = Mutex::new((String::new(), 0, None));

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub fams: BTreeMap<String, u64>,
    pub fails: Vec<Fail>,
    pub samples: Vec<(String, String)>,
    pub state: Option<std::fs::File>,
    pub only: Option<(String, u64)>,
    pub started: std::time::Instant,
    pub budget: f64,
}

fn clip(s: String) -> String {
    if s.len() <= 6000 {
        return s;
    }
    let mut k = 6000;
    while !s.is_char_boundary(k) { k -= 1 }
    format!("{}... ({} bytes)", &s[..k], s.len())
}
pub fn hx(b: &[u8]) -> String {
    hex::encode(b)
}

impl Ctx {
    /// the number of cases, scaled by the tier
    pub fn n(&self, quick: u64) -> u64 {
        if self.thorough { quick * 200 } else { quick * 10 }
    }
    pub fn rng(&self, fam: &str) -> Rng {
        Rng::new(self.seed, fam)
    }
    /// time is left
    pub fn time(&self) -> bool {
        self.started.elapsed().as_secs_f64() < self.budget
    }
    /// one concrete case: `key` identifies it (for counting distinct ones), `input` describes it
    pub fn case<K: Hash>(&mut self, fam: &str, key: K, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), (String, String)>) {
        let idx = {
            let c = self.fams.entry(fam.to_string()).or_insert(0);
            *c += 1;
            *c - 1
        };
        if let Some((of, oi)) = &self.only {
            if of == fam && *oi == idx {
                println!("INPUT {}", clip(input()));
                use std::io::Write;
                std::io::stdout().flush().unwrap();
            }
        }
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        fam.hash(&mut h);
        key.hash(&mut h);
        self.distinct.insert(h.finish());
        if idx == 3 || (idx == 0 && self.samples.len() < 4) {
            if self.samples.len() < 40 {
                self.samples.push((fam.to_string(), clip(input()).chars().take(400).collect()));
            }
        }
        if let Some(s) = &self.state {
            let _ = s.write_all_at(format!("{:<60} {:<12}\n", fam, idx).as_bytes(), 0);
        }
        {
            let mut c = CURRENT.lock().unwrap();
            if c.0 != fam { c.0 = fam.to_string() }
            c.1 = idx;
            c.2 = Some(std::time::Instant::now());
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        CURRENT.lock().unwrap().2 = None;
        let fail = match r {
            Ok(Ok(())) => return,
            Ok(Err((e, a))) => (e, a),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                ("no panic".to_string(), format!("panicked: {m}"))
            }
        };
        let seen = self.fails.iter().filter(|x| x.fam == fam).count();
        let input = clip(input());
        if seen < 3 {
            self.fails.push(Fail { fam: fam.to_string(), index: idx, input, expected: clip(fail.0), actual: clip(fail.1) });
        } else {
            // keep the smallest inputs
            let (k, _) = self.fails.iter().enumerate().filter(|(_, x)| x.fam == fam).max_by_key(|(_, x)| x.input.len()).unwrap();
            if input.len() < self.fails[k].input.len() {
                self.fails[k] = Fail { fam: fam.to_string(), index: idx, input, expected: clip(fail.0), actual: clip(fail.1) };
            }
        }
    }
}
/// compare two values
pub fn same<T: PartialEq + std::fmt::Debug>(expected: T, actual: T) -> Result<(), (String, String)> {
    if expected == actual { Ok(()) } else { Err((format!("{expected:?}"), format!("{actual:?}"))) }
}
pub fn same_bytes(expected: &[u8], actual: &[u8]) -> Result<(), (String, String)> {
    if expected == actual { Ok(()) } else { Err((hx(expected), hx(actual))) }
}

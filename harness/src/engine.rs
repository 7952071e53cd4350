//! Property engine: choice-sequence generators, parallel deterministic case
//! runner, internal shrinking, replay files, evidence, crash and hang capture.
//!
//! Every generated case is a pure function of (VERIF_SEED, relation, index).
//! A generator draws bounded integers from a `Src`; the recorded list of draws
//! *is* the case, so shrinking works on that list (delete, zero, halve) for
//! every structured generator alike and always yields well-formed cases.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng([u64; 2]);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0[0];
        let mut s1 = self.0[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.0[1] = s1.rotate_left(37);
        r
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for &p in parts {
        h ^= p;
        h = splitmix(&mut h);
    }
    h
}
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ (b.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h ^= u64::from_le_bytes(v);
        h = splitmix(&mut h);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(7, s.as_bytes())
}

enum Mode {
    Gen(Rng),
    Replay(Vec<u64>),
    /// a fuzzer's bytes: a draw below n takes as many as n - 1 has
    Bytes(Vec<u8>),
}
fn width(n: u64) -> usize {
    (64 - (n - 1).leading_zeros() as usize).div_ceil(8)
}
fn from_raw(c: &[u8], at: usize, n: u64) -> u64 {
    let mut t = [0u8; 8];
    let c = c.get(at..(at + width(n)).min(c.len())).unwrap_or(&[]);
    t[..c.len()].copy_from_slice(c);
    u64::from_le_bytes(t) % n
}
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    pos: usize,
    pub index: u64,
    /// the draws as a fuzzer's bytes, if wanted
    pub raw: Option<Vec<u8>>,
}
impl Src {
    pub fn generate(seed: u64, relation: u64, index: u64) -> Self {
        Src {
            mode: Mode::Gen(Rng::new(hash64(&[seed, relation, index]))),
            rec: Vec::with_capacity(64),
            pos: 0,
            index,
            raw: None,
        }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(c), rec: Vec::new(), pos: 0, index: 0, raw: None }
    }
    /// From raw fuzzer bytes: each draw consumes the bytes it needs.
    pub fn from_bytes(b: &[u8]) -> Self {
        Src { mode: Mode::Bytes(b.to_vec()), rec: Vec::new(), pos: 0, index: 0, raw: None }
    }
    /// Uniform in 0..n (n >= 1). 0 is the simplest value.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Gen(r) => {
                if n.is_power_of_two() {
                    (r.next() >> 7) & (n - 1)
                } else {
                    (((r.next() as u128) * (n as u128)) >> 64) as u64
                }
            }
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            Mode::Bytes(c) => from_raw(c, self.pos, n),
        };
        self.drawn(v, n)
    }
    #[inline]
    fn drawn(&mut self, v: u64, n: u64) -> u64 {
        self.pos += if matches!(self.mode, Mode::Bytes(_)) { width(n) } else { 1 };
        self.rec.push(v);
        if let Some(r) = &mut self.raw {
            r.extend_from_slice(&v.to_le_bytes()[..width(n)]);
        }
        v
    }
    pub fn bits(&mut self, k: u32) -> u64 {
        if k == 0 {
            return 0;
        }
        self.below(1u64 << k)
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, t: &[T]) -> T {
        t[self.below(t.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A k-bit field: uniform, or one of its boundary values.
    pub fn edgy(&mut self, k: u32) -> u64 {
        let max = (1u64 << k) - 1;
        match self.below(10) {
            0 => 0,
            1 => max,
            2 => self.below(4).min(max),
            3 => max - self.below(4).min(max),
            4 => (1u64 << (k - 1)).wrapping_add(self.below(3)).wrapping_sub(1) & max,
            _ => self.bits(k),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let take = (n - v.len()).min(7);
            let x = self.bits(8 * take as u32).to_le_bytes();
            v.extend_from_slice(&x[..take]);
        }
        v
    }
    /// Enumerated choice: the case index modulo n, so that consecutive cases
    /// sweep a finite space completely.
    pub fn enumerated(&mut self, n: u64) -> u64 {
        let v = match &self.mode {
            Mode::Gen(_) => self.index % n,
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            Mode::Bytes(c) => from_raw(c, self.pos, n),
        };
        self.drawn(v, n)
    }
}

#[derive(Debug)]
pub struct Fail {
    pub msg: String,
    pub detail: Value,
}
pub type Check = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>, detail: Value) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), detail })
}

/// What the runner records about one case.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub key: Option<u64>,
    pub want_sample: bool,
    pub sample: Option<Value>,
    /// library calls made by this case
    pub calls: u64,
}
impl Obs {
    #[inline]
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// This case is non-trivial by its relation's rule; `key` identifies it.
    #[inline]
    pub fn nontrivial(&mut self, key: u64) {
        self.key = Some(key);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub struct Relation {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// the space `enumerated` sweeps, when quick covers all of it
    pub exhaustive: Option<u64>,
    pub f: fn(&mut Src, &mut Obs) -> Check,
}

pub struct Prop {
    pub id: &'static str,
    pub relations: Vec<Relation>,
    pub assumptions: Vec<&'static str>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
/// Runs `f`; Err(message) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn run_case(r: &Relation, src: &mut Src, obs: &mut Obs) -> Check {
    match catch_unwind(AssertUnwindSafe(|| (r.f)(src, obs))) {
        Ok(c) => c,
        Err(_) => fail(
            format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())),
            json!(null),
        ),
    }
}

pub fn shrink(r: &Relation, start: Vec<u64>, first: Fail) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut bestf = first;
    let mut runs = 0u64;
    let budget = |runs: u64| runs < 30_000 && t0.elapsed() < Duration::from_secs(20);
    let attempt = |cand: Vec<u64>, runs: &mut u64| -> Option<(Vec<u64>, Fail)> {
        *runs += 1;
        let mut s = Src::replay(cand);
        let mut o = Obs::default();
        let c = run_case(r, &mut s, &mut o);
        c.err().map(|e| (s.rec, e))
    };
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut progress = true;
    while progress && budget(runs) {
        progress = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && budget(runs) {
            let mut i = 0;
            while i < best.len() && budget(runs) {
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                match attempt(c, &mut runs) {
                    Some((n, f)) if smaller(&n, &best) => {
                        best = n;
                        bestf = f;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero runs, then single values
        for w in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && budget(runs) {
                let hi = (i + w).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    if let Some((n, f)) = attempt(c, &mut runs) {
                        if smaller(&n, &best) {
                            best = n;
                            bestf = f;
                            progress = true;
                        }
                    }
                }
                i += w;
            }
        }
        // reduce each value
        let mut i = 0;
        while i < best.len() && budget(runs) {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && budget(runs) {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match attempt(c, &mut runs) {
                    Some((n, f)) if smaller(&n, &best) => {
                        best = n;
                        bestf = f;
                        progress = true;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    (best, bestf, runs)
}

pub struct RelStats {
    pub evaluations: u64,
    pub calls: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(u64, Vec<u64>, Fail, u64)>,
}

/// Words per thread in the slot file: one thread's slots share no cache line
/// with another's.
const STRIDE: usize = 32;
/// Distinct keys counted per thread; beyond it the count is a lower bound.
const MAX_KEYS: usize = 3_000_000;

/// The keys are hashes already.
#[derive(Default, Clone, Copy)]
pub struct Same(u64);
impl std::hash::Hasher for Same {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.rotate_left(8) ^ x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}
type Keys = HashSet<u64, std::hash::BuildHasherDefault<Same>>;

/// Slots shared with the parent process, so that a crash can be attributed.
pub struct Slots {
    ptr: *mut AtomicU64,
    pub n: usize,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn map(path: &str, n: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len((n * STRIDE * 8) as u64).expect("slot file");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * STRIDE * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap of the slot file failed");
        Slots { ptr: p as *mut AtomicU64, n }
    }
    pub fn at(&self, i: usize, k: usize) -> &AtomicU64 {
        unsafe { &*self.ptr.add(i * STRIDE + k) }
    }
}

/// Whether this process is the harness built with the address sanitiser.
pub fn sanitised() -> bool {
    std::env::var_os("T2D_SANITISED").is_some()
}
pub const SANITISED: &str = " (address sanitiser)";
/// The sanitised build draws cases of its own.
pub fn full_name(r: &Relation) -> String {
    format!("{}{}", r.name, if sanitised() { SANITISED } else { "" })
}

pub const HANG_SECS: u64 = 60;

pub fn run_relation(
    r: &Relation,
    rel_idx: usize,
    seed: u64,
    n: u64,
    threads: usize,
    slots: &Slots,
) -> RelStats {
    let rel_hash = hash_str(&full_name(r));
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let chunk = (n / (threads as u64 * 8)).clamp(1, 512);
    struct Acc {
        evals: u64,
        calls: u64,
        keys: Keys,
        labels: BTreeMap<&'static str, u64>,
        samples: Vec<(u64, Value)>,
        fails: Vec<(u64, Vec<u64>, Fail)>,
    }
    let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    let _ = &t0;
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop_at, accs, slots) = (&next, &stop_at, &accs, slots);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut a = Acc {
                        evals: 0,
                        calls: 0,
                        keys: Keys::default(),
                        labels: BTreeMap::new(),
                        samples: vec![],
                        fails: vec![],
                    };
                    let sample_every = (n / 4).max(1);
                    'outer: loop {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= n || lo > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            if i > stop_at.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            slots.at(t, 0).store(rel_idx as u64, Ordering::Relaxed);
                            slots.at(t, 1).store(i, Ordering::Relaxed);
                            slots.at(t, 2).fetch_add(1, Ordering::Relaxed);
                            let mut src = Src::generate(seed, rel_hash, i);
                            let mut obs = Obs {
                                want_sample: i % sample_every == sample_every / 2,
                                ..Obs::default()
                            };
                            let c = run_case(r, &mut src, &mut obs);
                            a.evals += 1;
                            a.calls += obs.calls.max(1);
                            if let Some(k) = obs.key {
                                if a.keys.len() < MAX_KEYS {
                                    a.keys.insert(k);
                                }
                            }
                            for l in obs.labels {
                                *a.labels.entry(l).or_insert(0) += 1;
                            }
                            if let Some(s) = obs.sample {
                                a.samples.push((i, s));
                            }
                            if let Err(f) = c {
                                stop_at.fetch_min(i, Ordering::Relaxed);
                                a.fails.push((i, src.rec, f));
                                break 'outer;
                            }
                        }
                    }
                    slots.at(t, 1).store(u64::MAX, Ordering::Relaxed);
                    accs.lock().unwrap().push(a);
                })
                .expect("spawn");
        }
    });
    let mut st = RelStats {
        evaluations: 0,
        calls: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        failure: None,
    };
    let mut samples = vec![];
    let mut fails = vec![];
    let mut keys = Keys::default();
    for a in accs.into_inner().unwrap() {
        st.evaluations += a.evals;
        st.calls += a.calls;
        if keys.is_empty() {
            keys = a.keys;
        } else {
            keys.extend(a.keys);
        }
        for (k, v) in a.labels {
            *st.labels.entry(k).or_insert(0) += v;
        }
        samples.extend(a.samples);
        fails.extend(a.fails);
    }
    st.distinct = keys.len() as u64;
    samples.sort_by_key(|s| s.0);
    st.samples = samples.into_iter().take(4).map(|s| s.1).collect();
    fails.sort_by_key(|f| f.0);
    if let Some((i, rec, f)) = fails.into_iter().next() {
        let (c, f, runs) = shrink(r, rec, f);
        st.failure = Some((i, c, f, runs));
    }
    st
}

pub fn rerun(r: &Relation, choices: Vec<u64>) -> Check {
    let mut s = Src::replay(choices);
    let mut o = Obs { want_sample: true, ..Obs::default() };
    let c = run_case(r, &mut s, &mut o);
    if let Some(v) = o.sample {
        println!("case: {v}");
    }
    c
}

/// Choices of case `index`, and its outcome. Used to attribute a crash.
pub fn single(r: &Relation, seed: u64, index: u64) -> (Vec<u64>, Check) {
    let mut s = Src::generate(seed, hash_str(&full_name(r)), index);
    let mut o = Obs::default();
    let c = run_case(r, &mut s, &mut o);
    (s.rec, c)
}

pub static WATCH_ON: AtomicBool = AtomicBool::new(true);

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

//! Property engine: choice-sequence generation, integrated shrinking, parallel deterministic runs.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use serde_json::{json, Value};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = seed
        .wrapping_mul(0x2545F4914F6CDD1D)
        .wrapping_add(fnv(prop.as_bytes()));
    splitmix(&mut x);
    x ^= idx.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

/// Source of choices. Every random decision of a case goes through `draw`, so that the recorded
/// sequence replays and shrinks the case.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    /// choices come from these bytes while they last (coverage-guided search)
    bytes: Option<(Vec<u8>, usize)>,
    pub rec: Vec<u64>,
    rec_file: Option<std::fs::File>,
    case: u64,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: seed, replay: None, bytes: None, rec: vec![], rec_file: None, case: 0 }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: 0, replay: Some(choices), bytes: None, rec: vec![], rec_file: None, case: 0 }
    }
    /// Choices from bytes, as many as each needs; then pseudo-random ones that depend on all of them.
    #[allow(dead_code)]
    pub fn bytes(data: Vec<u8>) -> Self {
        Src { bytes: Some((data.clone(), 0)), ..Src::random(fnv(&data)) }
    }
    fn from_bytes(&mut self, max: u64) -> Option<u64> {
        let (data, at) = self.bytes.as_mut()?;
        let n = match max {
            0 => return Some(0),
            1..=0xff => 1,
            0x100..=0xffff => 2,
            0x1_0000..=0xffff_ffff => 4,
            _ => 8,
        };
        let b = data.get(*at..*at + n)?;
        *at += n;
        let v = b.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
        Some(if max == u64::MAX { v } else { v % (max + 1) })
    }
    pub fn with_rec_file(mut self, f: std::fs::File) -> Self {
        self.rec_file = Some(f);
        self
    }
    /// Uniform value in `0..=max`. Smaller is simpler.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(max),
            None if self.bytes.is_some() => self.from_bytes(max).unwrap_or_else(|| {
                let r = splitmix(&mut self.rng);
                if max == u64::MAX { r } else { r % (max + 1) }
            }),
            None => {
                let r = splitmix(&mut self.rng);
                if max == u64::MAX {
                    r
                } else {
                    r % (max + 1)
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.rec_file {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn with_case(mut self, idx: u64) -> Self {
        self.case = idx;
        self
    }
    /// The case's own number modulo n, for exhaustive enumeration.
    pub fn index(&mut self, n: u64) -> u64 {
        if self.replay.is_some() || self.bytes.is_some() {
            return self.upto(n - 1);
        }
        let v = self.case % n;
        self.rec.push(v);
        v
    }
    /// Uniform in `lo..=hi`, shrinks to lo.
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.upto(hi - lo)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.upto(xs.len() as u64 - 1) as usize;
        &xs[i]
    }
    /// Weighted index.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.upto(total - 1);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A `bits`-wide unsigned integer, biased to boundaries (0, 1, 2^k-1, 2^k, 2^k+1, max).
    pub fn ubits(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        match self.upto(3) {
            0 => self.upto(max.min(255)),
            1 => {
                let k = self.upto(bits as u64) as u32;
                let base = if k >= 64 { 0 } else { 1u64 << k };
                let d = self.upto(2);
                base.wrapping_add(d).wrapping_sub(1) & max
            }
            2 => max - self.upto(3.min(max)),
            _ => self.upto(max),
        }
    }
    /// Content seed for bulk payloads.
    pub fn seed(&mut self) -> u64 {
        self.upto(u32::MAX as u64)
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.us(0, n - 1 - i);
            v.swap(i, j);
        }
        v
    }
}

/// Deterministic bulk bytes from a content seed. Several textures so that codecs see compressible
/// and incompressible data. seed 0 => zeros.
pub fn bulk(seed: u64, len: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; len];
    }
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ len as u64;
    let style = splitmix(&mut s) % 8;
    let mut out = vec![0u8; len];
    match style {
        0 | 1 | 2 => {
            let mut i = 0;
            while i < len {
                let w = splitmix(&mut s).to_le_bytes();
                let n = (len - i).min(8);
                out[i..i + n].copy_from_slice(&w[..n]);
                i += n;
            }
        }
        3 => {
            // runs
            let mut i = 0;
            while i < len {
                let r = splitmix(&mut s);
                let n = ((r >> 8) % 300 + 1) as usize;
                let n = n.min(len - i);
                out[i..i + n].fill(r as u8);
                i += n;
            }
        }
        4 => {
            // ramp with noise
            let step = splitmix(&mut s) % 7;
            for (i, o) in out.iter_mut().enumerate() {
                *o = (i as u64 * step / 3) as u8 ^ ((splitmix(&mut s) % 16 == 0) as u8);
            }
        }
        5 => {
            // extremes only
            for o in out.iter_mut() {
                *o = [0, 0xff, 0x7f, 0x80, 1, 0xfe][(splitmix(&mut s) % 6) as usize];
            }
        }
        6 => {
            let p = (splitmix(&mut s) % 37 + 1) as usize;
            let pat: Vec<u8> = (0..p).map(|_| splitmix(&mut s) as u8).collect();
            for (i, o) in out.iter_mut().enumerate() {
                *o = pat[i % p];
            }
        }
        _ => {
            let c = splitmix(&mut s) as u8;
            out.fill(c);
            if len > 0 {
                let k = (splitmix(&mut s) % len as u64) as usize;
                out[k] ^= 1;
            }
        }
    }
    out
}

#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub notes: Vec<String>,
    pub verbose: bool,
    /// extra oracle evaluations performed inside this case (e.g. fault positions)
    pub extra: u64,
}

impl Cx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
}

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Cx) -> R;

pub struct Check {
    pub id: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub exhaustive: bool,
    /// null out Rust allocations above this while inside the code under test
    pub alloc_limit: usize,
}

// ---------- panics and allocations inside the code under test ----------

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static MAX_ALLOC: Cell<usize> = const { Cell::new(0) };
    static ALLOC_LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if !note_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if !note_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if !note_alloc(n) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}

fn note_alloc(size: usize) -> bool {
    if size < 1 << 16 {
        return true;
    }
    IN_SUT
        .try_with(|c| {
            if c.get() == 0 {
                return true;
            }
            let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(size)));
            size <= ALLOC_LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX)
        })
        .unwrap_or(true)
}

pub fn reset_max_alloc() {
    MAX_ALLOC.with(|m| m.set(0));
}
pub fn max_alloc() -> usize {
    MAX_ALLOC.with(|m| m.get())
}

struct SutGuard(u32);
impl Drop for SutGuard {
    fn drop(&mut self) {
        IN_SUT.with(|c| c.set(self.0));
    }
}

/// Run code under test: a panic inside it is a failure of the property.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_SUT.with(|c| c.replace(1));
    let g = SutGuard(prev);
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(g);
    r.map_err(|_| format!("{what} panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

/// Run harness code called back from inside the code under test.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let prev = IN_SUT.with(|c| c.replace(0));
    let _g = SutGuard(prev);
    f()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub enum Outcome {
    Ok,
    Fail(String),
    HarnessError(String),
}

pub fn run_case(check: &Check, src: &mut Src, cx: &mut Cx) -> Outcome {
    IN_SUT.with(|c| c.set(0));
    ALLOC_LIMIT.with(|l| l.set(check.alloc_limit));
    reset_max_alloc();
    match catch_unwind(AssertUnwindSafe(|| (check.f)(src, cx))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => {
            if let Some(m) = m.strip_prefix("HARNESS:") {
                Outcome::HarnessError(m.to_string())
            } else {
                Outcome::Fail(m)
            }
        }
        Err(_) => Outcome::HarnessError(format!(
            "harness panicked: {}",
            PANIC_MSG.with(|m| m.borrow().clone())
        )),
    }
}

// ---------- shrinking ----------

pub fn shrink(
    initial: Vec<u64>,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    max_evals: usize,
    max_secs: u64,
) -> Vec<u64> {
    // `fails` returns the recorded (normalised) choices if the case still fails
    let start = Instant::now();
    let mut best = initial;
    let mut evals = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if evals >= max_evals || start.elapsed().as_secs() >= max_secs {
            return false;
        }
        if (cand.len(), &cand) >= (best.len(), &*best) {
            return false;
        }
        evals += 1;
        if let Some(rec) = fails(&cand) {
            let c = if (rec.len(), &rec) <= (cand.len(), &cand) { rec } else { cand };
            *best = c;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = 32usize;
        while k >= 1 {
            let mut i = best.len().saturating_sub(k);
            loop {
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    if !attempt(c.clone(), &mut best) && i > 0 {
                        // deleting elements of a list: reduce the preceding length too
                        if c[i - 1] > 0 {
                            c[i - 1] -= 1;
                            attempt(c, &mut best);
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1;
                if i > best.len() {
                    i = best.len();
                }
            }
            k /= 2;
        }
        // zero blocks
        let mut k = 16usize;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + k].fill(0);
                    attempt(c, &mut best);
                }
                i += k;
            }
            k /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while i < best.len() && lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

// ---------- the run ----------

pub struct RunResult {
    pub json: Value,
    pub failed: bool,
    pub harness_error: Option<String>,
}

#[derive(Default)]
struct Acc {
    evals: u64,
    extra: u64,
    nontrivial: HashSet<u64>,
    nontrivial_total: u64,
    labels: BTreeMap<String, u64>,
    samples: BTreeMap<u64, Vec<String>>,
    fail: Option<(u64, Vec<u64>, String)>,
    herr: Option<(u64, String)>,
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in c {
        let mut x = h ^ v;
        h = splitmix(&mut x);
    }
    h
}

pub fn threads() -> usize {
    std::env::var("VH_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
}

/// Describe a case (re-run with notes on).
pub fn describe(check: &Check, choices: &[u64]) -> (Vec<String>, String) {
    let mut cx = Cx { verbose: true, ..Default::default() };
    let mut src = Src::replay(choices.to_vec());
    let msg = match run_case(check, &mut src, &mut cx) {
        Outcome::Ok => "ok".to_string(),
        Outcome::Fail(m) => m,
        Outcome::HarnessError(m) => format!("HARNESS: {m}"),
    };
    (cx.notes, msg)
}

/// Worker: run all cases of a check. `inflight[i]` = case index + 1 being run by thread i.
pub fn run(check: &Check, seed: u64, n: u64, inflight: &[AtomicU64], partial: &dyn Fn(&Value)) -> RunResult {
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let acc = Mutex::new(Acc::default());
    let nthreads = threads().min(inflight.len());
    let sample_stride = (n / 5).max(1);
    // wall-clock limit: fewer cases on a slow machine, never a different verdict
    let max_s: u64 = std::env::var("VH_MAX_S").ok().and_then(|v| v.parse().ok()).unwrap_or(u64::MAX);
    let start = Instant::now();
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, stop_at, acc) = (&next, &stop_at, &acc);
            let slot = &inflight[t];
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    let mut a = Acc::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= n || idx >= stop_at.load(Ordering::SeqCst) || start.elapsed().as_secs() >= max_s {
                            break;
                        }
                        slot.store(idx + 1, Ordering::SeqCst);
                        let mut cx = Cx {
                            verbose: idx % sample_stride < 3,
                            ..Default::default()
                        };
                        let mut src = Src::random(case_seed(seed, check.id, idx)).with_case(idx);
                        let out = run_case(check, &mut src, &mut cx);
                        slot.store(0, Ordering::SeqCst);
                        a.evals += 1;
                        a.extra += cx.extra;
                        for l in cx.labels.drain(..) {
                            *a.labels.entry(l).or_default() += 1;
                        }
                        if cx.nontrivial {
                            // bounded memory: beyond this the count is a lower bound
                            if a.nontrivial.len() < 4_000_000 {
                                a.nontrivial.insert(hash_choices(&src.rec));
                            }
                            a.nontrivial_total += 1;
                            if cx.verbose {
                                a.samples.insert(idx, std::mem::take(&mut cx.notes));
                            }
                        }
                        match out {
                            Outcome::Ok => {}
                            Outcome::Fail(m) => {
                                stop_at.fetch_min(idx, Ordering::SeqCst);
                                if a.fail.as_ref().map(|f| f.0 > idx).unwrap_or(true) {
                                    a.fail = Some((idx, src.rec, m));
                                }
                            }
                            Outcome::HarnessError(m) => {
                                stop_at.fetch_min(idx, Ordering::SeqCst);
                                if a.herr.as_ref().map(|f| f.0 > idx).unwrap_or(true) {
                                    a.herr = Some((idx, m));
                                }
                            }
                        }
                    }
                    let mut g = acc.lock().unwrap();
                    g.evals += a.evals;
                    g.extra += a.extra;
                    g.nontrivial.extend(a.nontrivial);
                    g.nontrivial_total += a.nontrivial_total;
                    for (k, v) in a.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    g.samples.extend(a.samples);
                    if let Some(f) = a.fail {
                        if g.fail.as_ref().map(|x| x.0 > f.0).unwrap_or(true) {
                            g.fail = Some(f);
                        }
                    }
                    if let Some(f) = a.herr {
                        if g.herr.as_ref().map(|x| x.0 > f.0).unwrap_or(true) {
                            g.herr = Some(f);
                        }
                    }
                })
                .unwrap();
        }
    });
    let acc = acc.into_inner().unwrap();
    let mut samples: Vec<Value> = vec![];
    for (idx, notes) in acc.samples.iter() {
        if samples.len() < 8 {
            samples.push(json!({"case": idx, "what": notes}));
        }
    }
    let mut js = json!({
        "evaluations": acc.evals,
        "inner_evaluations": acc.extra,
        "distinct_nontrivial": acc.nontrivial.len(),
        "classes": acc.labels,
        "samples": samples,
    });
    let mut harness_error = None;
    let mut failed = false;
    let fail_idx = acc.fail.as_ref().map(|f| f.0).unwrap_or(u64::MAX);
    if let Some((idx, m)) = &acc.herr {
        if *idx < fail_idx {
            harness_error = Some(format!("case {idx}: {m}"));
        }
    }
    if harness_error.is_none() {
        if let Some((idx, choices, msg)) = acc.fail {
            failed = true;
            js["failure"] = json!({"case": idx, "choices": choices, "message": msg, "shrunk": false});
            partial(&js);
            let best = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || {
                        shrink(
                            choices,
                            |c| {
                                let mut src = Src::replay(c.to_vec());
                                let mut cx = Cx::default();
                                match run_case(check, &mut src, &mut cx) {
                                    Outcome::Fail(_) => Some(src.rec),
                                    _ => None,
                                }
                            },
                            4000,
                            45,
                        )
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            let (notes, m2) = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || describe(check, &best))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            js["failure"] = json!({"case": idx, "choices": best, "message": m2, "notes": notes, "shrunk": true, "original_message": msg});
        }
    }
    RunResult { json: js, failed, harness_error }
}

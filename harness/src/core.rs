//! Case runner: deterministic PRNG, statistics, verdicts.
use crate::monalloc as ma;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;

#[derive(Clone)]
pub struct Rng(pub u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, seed.rotate_left(32) | 1);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // splitmix64 over a weyl sequence
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.u64() % (n as u64)) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'x, T>(&mut self, s: &'x [T]) -> &'x T {
        &s[self.below(s.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
}

pub struct Violation(pub String);

/// Whether sharing (addresses) and lifetimes (destructor counts, leaks) are part of the verdict of this run.
pub static ADDR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static LIFE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn violation(msg: String) -> ! {
    std::panic::panic_any(Violation(msg))
}

/// Verdict macro: the oracle disagrees.
#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        $crate::core::bump_checks();
        if !($cond) {
            $crate::core::violation(format!($($arg)*));
        }
    };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, as_ref, $($arg:tt)*) => {{
        let a = $a;
        $crate::check_eq!(a.as_ref(), $b, $($arg)*);
    }};
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        $crate::core::bump_checks();
        match (&$a, &$b) { (a, b) => if !(*a == *b) {
            $crate::core::violation(format!("{}: got {}, expected {}", format!($($arg)*), $crate::core::short(&format!("{:?}", a)), $crate::core::short(&format!("{:?}", b))));
        } }
    }};
}

pub fn short(s: &str) -> String {
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} chars)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
#[cfg(target_has_atomic = "64")]
pub use std::sync::atomic::AtomicU64 as Count;
#[cfg(not(target_has_atomic = "64"))]
pub use count32::Count;
/// A 64 bit counter for targets that have no such atomic.
#[cfg(not(target_has_atomic = "64"))]
mod count32 {
    use std::sync::atomic::{AtomicU32, Ordering};
    pub struct Count(AtomicU32);
    impl Count {
        pub const fn new(n: u64) -> Self {
            Count(AtomicU32::new(n as u32))
        }
        pub fn fetch_add(&self, n: u64, o: Ordering) -> u64 {
            self.0.fetch_add(n as u32, o) as u64
        }
        pub fn load(&self, o: Ordering) -> u64 {
            self.0.load(o) as u64
        }
        pub fn store(&self, n: u64, o: Ordering) {
            self.0.store(n as u32, o)
        }
    }
}
static CHECKS: Count = Count::new(0);
pub fn bump_checks() {
    CHECKS.fetch_add(1, Relaxed);
}

/// Per-case context.
pub struct Ctx {
    pub rng: Rng,
    pub record: bool,
    pub log: Vec<String>,
    pub sig: u64,
    pub weight: u32,
    pub counters: &'static RefCell<BTreeMap<&'static str, u64>>,
    pub transcript: Option<u64>,
    pub live: Option<std::fs::File>,
    /// memory may stay allocated after this case (a destructor panicked)
    pub leaks_ok: bool,
}
thread_local! {
    static CNT: &'static RefCell<BTreeMap<&'static str, u64>> = Box::leak(Box::new(RefCell::new(BTreeMap::new())));
}
impl Ctx {
    pub fn new(seed: u64, record: bool) -> Self {
        Ctx { rng: Rng::new(seed), record, log: Vec::new(), sig: 0xcbf2_9ce4_8422_2325, weight: 0, counters: CNT.with(|c| *c), transcript: None, live: None, leaks_ok: false }
    }
    /// Counts an event and mixes it into the case signature.
    pub fn ev(&mut self, name: &'static str, a: u64) {
        self.count(name);
        self.mix(hash_str(name));
        self.mix(a);
        self.weight += 1;
    }
    pub fn count(&mut self, name: &'static str) {
        self.count_n(name, 1)
    }
    pub fn count_n(&mut self, name: &'static str, n: u64) {
        ma::untracked(|| {
            *self.counters.borrow_mut().entry(name).or_insert(0) += n;
        })
    }
    pub fn mix(&mut self, v: u64) {
        self.sig = (self.sig ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ v.rotate_left(7);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            ma::untracked(|| {
                if self.log.len() < 400 {
                    let s = short(&f());
                    if let Some(w) = &mut self.live {
                        use std::io::Write;
                        let _ = writeln!(w, "{s}");
                    }
                    self.log.push(s);
                }
            })
        }
    }
    /// adds observable output to the transcript digest (configuration comparison)
    pub fn emit(&mut self, data: &[u8]) {
        if let Some(t) = &mut self.transcript {
            let mut h = *t;
            for b in data {
                h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
            }
            h = (h ^ data.len() as u64).wrapping_mul(0x0000_0100_0000_01B3);
            *t = h;
        }
    }
}
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// Runs a library call that may legitimately panic. `None` = it panicked.
/// Violations raised inside are passed on.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<Violation>() || p.is::<AllocFail>() {
                std::panic::resume_unwind(p);
            }
            ma::untracked(move || drop(p));
            None
        }
    }
}

/// Raised when the library gives up because memory was refused by fault injection.
pub struct AllocFail;
/// Runs a library call while no block can be resized in place; falling back to a new block is always possible.
/// A caller that has no fallback ends the case without a verdict.
pub fn no_realloc<R>(cx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> R) -> R {
    if !cfg!(feature = "unstable") || !ma::ACTIVE {
        return f(cx);
    }
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            ma::NO_REALLOC.store(false, Relaxed);
        }
    }
    let n = ma::REALLOCS_REFUSED.load(Relaxed);
    ma::NO_REALLOC.store(true, Relaxed);
    let g = G;
    let r = f(cx);
    drop(g);
    if ma::REALLOCS_REFUSED.load(Relaxed) > n {
        cx.count("resizing_refused");
    }
    r
}

pub type CaseFn = fn(&mut Ctx);

pub struct Suite {
    pub name: &'static str,
    pub run: CaseFn,
    /// audit leaked blocks after each case
    pub leaks: bool,
}

pub enum Verdict {
    Held,
    Violated(String),
}

fn install_hook() {
    #[cfg(feature = "unstable")]
    std::alloc::set_alloc_error_hook(|l| {
        if ma::NO_REALLOC.swap(false, Relaxed) {
            std::panic::panic_any(AllocFail);
        }
        eprintln!("memory allocation of {} bytes failed", l.size());
        std::process::abort();
    });
    std::panic::set_hook(Box::new(|info| {
        ma::untracked(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::from("(non-string panic)")
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        })
    }));
}

pub fn run_case(s: &Suite, seed: u64, record: bool, live: Option<std::fs::File>) -> (Verdict, Ctx) {
    let mut cx = Ctx::new(seed, record);
    cx.live = live;
    cx.log.reserve(if record { 512 } else { 0 });
    let before = (ma::LIVE_BLOCKS.load(Relaxed), ma::LIVE_BYTES.load(Relaxed));
    let r = ma::tracked(|| catch_unwind(AssertUnwindSafe(|| (s.run)(&mut cx))));
    let v = match r {
        Ok(()) => {
            let after = (ma::LIVE_BLOCKS.load(Relaxed), ma::LIVE_BYTES.load(Relaxed));
            if s.leaks && !cx.leaks_ok && LIFE.load(Relaxed) && ma::ACTIVE && after.0 != before.0 {
                Verdict::Violated(format!(
                    "LEAK: {} block(s), {} byte(s) still allocated after every value was dropped",
                    after.0 as isize - before.0 as isize,
                    after.1 as isize - before.1 as isize
                ))
            } else {
                Verdict::Held
            }
        }
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                Verdict::Violated(v.0.clone())
            } else if p.is::<AllocFail>() {
                cx.count("gave_up_when_resizing_was_refused");
                Verdict::Held
            } else {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                Verdict::Violated(format!("unexpected panic: {m}"))
            }
        }
    };
    (v, cx)
}

pub fn case_seed(suite: &str, seed: u64, idx: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ hash_str(suite) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.u64()
}

#[cfg(not(miri))]
mod sys {
    #[repr(C)]
    struct Tv {
        s: i64,
        us: i64,
    }
    #[repr(C)]
    struct Itv {
        interval: Tv,
        value: Tv,
    }
    extern "C" {
        fn setitimer(which: i32, new: *const Itv, old: *mut Itv) -> i32;
    }
    /// CPU-time budget of the current case: the process is killed by SIGPROF when it runs out.
    pub fn cpu_budget(secs: i64) {
        let v = Itv { interval: Tv { s: 0, us: 0 }, value: Tv { s: secs, us: 0 } };
        unsafe {
            setitimer(2, &v, std::ptr::null_mut());
        }
    }
}
#[cfg(miri)]
mod sys {
    pub fn cpu_budget(_: i64) {}
}

pub struct Opts {
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub cases: u64,
    pub secs: f64,
    pub out: Option<String>,
    pub only: Option<u64>,
    pub cpu: i64,
    pub memory_only: bool,
    pub only_lifetimes: bool,
}

pub fn main_loop(s: &Suite, o: &Opts) -> i32 {
    install_hook();
    // warm up lazily initialised parts of the standard library
    for _ in 0..2 {
        let _ = may_panic(|| panic!("warm {}", 1));
        let _ = catch_unwind(|| std::panic::panic_any(Violation(String::new())));
    }
    let start = std::time::Instant::now();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut done = 0u64;
    let mut nontrivial = 0u64;
    let mut ended_early = 0u64;
    let mut violation: Option<serde_json::Value> = None;
    let state = o.out.as_ref().map(|d| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{d}/state_{}", o.shard)).expect("state file")
    });
    let mut slowest = 0f64;
    let mut idx = o.shard;
    let first = idx;
    while done < o.cases {
        if let Some(k) = o.only {
            idx = k;
        }
        if !cfg!(miri) && done % 16 == 0 && start.elapsed().as_secs_f64() > o.secs {
            ended_early = 1;
            break;
        }
        #[cfg(not(miri))]
        if let Some(f) = &state {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&idx.to_le_bytes(), 0);
        }
        let seed = case_seed(s.name, o.seed, idx);
        let record = o.only.is_some() || idx < first + o.shards * 1;
        sys::cpu_budget(o.cpu);
        let began = std::time::Instant::now();
        let live = match (&o.out, o.only) {
            (Some(d), Some(_)) => std::fs::File::create(format!("{d}/log_{}", o.shard)).ok(),
            _ => None,
        };
        if cfg!(miri) {
            println!("CASE {idx}");
        }
        let (mut v, mut cx) = run_case(s, seed, record, live);
        slowest = slowest.max(began.elapsed().as_secs_f64());
        if let Verdict::Violated(m) = &v {
            if m.starts_with("LEAK") {
                // one-off lazy initialisation is not a leak of the case: it must leak every time
                let mut again = 0;
                for _ in 0..3 {
                    sys::cpu_budget(o.cpu);
                    if let (Verdict::Violated(m2), _) = run_case(s, seed, false, None) {
                        if m2.starts_with("LEAK") {
                            again += 1;
                        }
                    }
                }
                if again < 3 {
                    v = Verdict::Held;
                    cx.count("one_off_allocation_dismissed");
                }
            }
        }
        if let Verdict::Violated(m) = v {
            if o.memory_only || o.only_lifetimes && !m.starts_with("LEAK") && !m.starts_with("LIFETIME") {
                cx.count("case_cut_short_by_functional_disagreement");
            } else {
                let log = if record { std::mem::take(&mut cx.log) } else {
                    sys::cpu_budget(o.cpu);
                    run_case(s, seed, true, None).1.log
                };
                violation = Some(serde_json::json!({"suite": s.name, "seed": o.seed, "case": idx, "message": m, "log": log}));
                break;
            }
        }
        if cx.weight > 0 {
            nontrivial += 1;
            if sigs.len() < 3_000_000 {
                sigs.insert(cx.sig);
            }
        }
        if record && samples.len() < 1 {
            let mut l = std::mem::take(&mut cx.log);
            l.truncate(14);
            samples.push(serde_json::json!({"case": idx, "ops": l}));
        }
        done += 1;
        idx += o.shards;
        if done % 64 == 0 {
            ma::flush();
        }
        if o.only.is_some() {
            break;
        }
    }
    sys::cpu_budget(0);
    ma::flush();
    let counters: BTreeMap<String, u64> = CNT.with(|c| c.borrow().iter().map(|(k, v)| ((*k).to_string(), *v)).collect());
    let res = serde_json::json!({
        "suite": s.name, "shard": o.shard, "cases": done, "nontrivial": nontrivial, "distinct_local": sigs.len(),
        "checks": CHECKS.load(Relaxed), "allocs": ma::ALLOCS.load(Relaxed), "frees": ma::FREES.load(Relaxed),
        "counters": counters, "samples": samples, "violation": violation, "ended_early": ended_early,
        "wall_s": start.elapsed().as_secs_f64(), "slowest_case_s": slowest,
    });
    if let Some(d) = &o.out {
        let mut raw: Vec<u8> = Vec::with_capacity(sigs.len() * 8);
        for x in &sigs {
            raw.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(format!("{d}/sigs_{}", o.shard), raw).expect("sigs");
        std::fs::write(format!("{d}/res_{}.json", o.shard), serde_json::to_vec(&res).unwrap()).expect("res");
    } else {
        println!("RESULT {}", res);
    }
    if res["violation"].is_null() {
        0
    } else {
        println!("VIOL {}", res["violation"]);
        1
    }
}

/// 2^k, or half of the address space where that is smaller.
pub const fn p2(k: u32) -> usize {
    if k < usize::BITS {
        1 << k
    } else {
        usize::MAX / 2 + 1
    }
}

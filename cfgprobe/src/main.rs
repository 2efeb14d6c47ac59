//! Runs seeded programs against the crate in whatever feature configuration it was built with
//! and records what each program observed; the transcripts of two configurations are compared by the driver.
//!
//!   cfgprobe LEVEL SEED FROM COUNT OUT      writes one u64 digest per program
//!   cfgprobe LEVEL SEED CASE --explain      prints the transcript of one program
//!   cfgprobe --levels                       lists the levels this configuration offers
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(all(feature = "arbitrary", not(feature = "alloc")))]
mod arb;
#[cfg(feature = "http")]
mod body;
#[cfg(feature = "alloc")]
mod heap;
#[cfg(feature = "bytes")]
mod buf;
#[cfg(all(feature = "queue", not(feature = "alloc")))]
mod capacity;
mod plain;
#[cfg(feature = "nom")]
mod parse;
#[cfg(feature = "queue")]
mod queue;
#[cfg(feature = "serde")]
mod ser;

pub struct Rng(u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'x, T>(&mut self, s: &'x [T]) -> &'x T {
        let i = self.below(s.len());
        &s[i]
    }
}

pub struct Cx {
    pub r: Rng,
    h: u64,
    lines: Option<Vec<String>>,
    buf: String,
    pub steps: u64,
    pub broken: Option<String>,
}

impl Cx {
    fn line(&mut self) {
        for c in self.buf.as_bytes().chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.h = (self.h ^ u64::from_le_bytes(w)).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(29);
        }
        self.h = (self.h ^ self.buf.len() as u64).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        self.steps += 1;
        if let Some(l) = &mut self.lines {
            l.push(self.buf.clone());
        }
    }
    /// records one observation
    pub fn put(&mut self, what: &str, v: impl std::fmt::Debug) {
        let mut b = std::mem::take(&mut self.buf);
        b.clear();
        let _ = write!(b, "{what}: {v:?}");
        self.buf = b;
        self.line();
    }
    /// records the outcome of a call, a panic being one
    pub fn call<T: std::fmt::Debug>(&mut self, what: &str, f: impl FnOnce() -> T) {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => self.put(what, v),
            Err(_) => self.put(what, "panic"),
        }
    }
    pub fn run<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => {
                self.put(what, "ok");
                Some(v)
            }
            Err(_) => {
                self.put(what, "panic");
                None
            }
        }
    }
    pub fn bytes(&mut self, max: usize) -> &'static [u8] {
        let n = self.r.below(max + 1);
        let n = if self.r.chance(1, 3) { n.min(20) } else { n };
        let at = self.r.below(POOL.len() - n);
        &POOL[at..at + n]
    }
    pub fn text(&mut self, max: usize) -> &'static str {
        let t = text_pool();
        let mut n = self.r.below(max + 1);
        let mut at = self.r.below(t.len() - n);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        while !t.is_char_boundary(at + n) {
            n -= 1;
        }
        &t[at..at + n]
    }
    pub fn pos(&mut self, n: usize) -> usize {
        match self.r.below(12) {
            0 => 0,
            1 => n,
            2 => n + 1,
            3 => usize::MAX - self.r.below(3),
            4 => n.saturating_sub(1),
            _ => self.r.below(n + 1),
        }
    }
    /// a range, rarely one a slice would reject
    pub fn span(&mut self, n: usize) -> (usize, usize) {
        if self.r.chance(1, 8) {
            return (self.pos(n), self.pos(n));
        }
        let a = self.r.below(n + 1);
        (a, self.r.range(a, n))
    }
    /// an oracle inside the program disagrees (levels with a model)
    pub fn fail(&mut self, msg: String) {
        if self.broken.is_none() {
            self.broken = Some(msg);
        }
    }
}

static POOL: &[u8] = {
    static P: [u8; 8192] = {
        let mut p = [0u8; 8192];
        let mut i = 0;
        let mut x: u32 = 12345;
        while i < p.len() {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            let b = (x >> 16) as u8;
            p[i] = match x >> 30 {
                0 => b,
                1 => b'a' + b % 4,
                2 => [b' ', b'\n', b'"', b'\\', 0, 0xff, b'0', b'A'][(b % 8) as usize],
                _ => b'a' + b % 2,
            };
            i += 1;
        }
        p
    };
    &P
};
fn text_pool() -> &'static str {
    use std::sync::OnceLock;
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| {
        let mut r = Rng(99);
        let mut s = String::new();
        while s.len() < 8192 {
            s.push(match r.below(9) {
                0 => '\n',
                1 => ' ',
                2 => 'é',
                3 => '€',
                4 => '𝄞',
                5 => (b'0' + r.below(10) as u8) as char,
                6 => '"',
                _ => (b'a' + r.below(4) as u8) as char,
            });
        }
        s
    })
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

type Level = (&'static str, fn(&mut Cx));
fn levels() -> Vec<Level> {
    #[allow(unused_mut)]
    let mut v: Vec<Level> = vec![("plain", plain::run)];
    #[cfg(feature = "alloc")]
    v.push(("heap", heap::run));
    #[cfg(feature = "std")]
    v.push(("io", heap::io));
    #[cfg(feature = "queue")]
    v.push(("queue", queue::run));
    #[cfg(all(feature = "queue", feature = "alloc"))]
    v.push(("queueheap", queue::heap));
    #[cfg(all(feature = "queue", not(feature = "alloc")))]
    v.push(("capacity", capacity::run));
    #[cfg(all(feature = "bytes", feature = "alloc"))]
    v.push(("bytes", buf::heap));
    #[cfg(feature = "bytes")]
    v.push(("buf", buf::run));
    #[cfg(all(feature = "bytes", feature = "queue"))]
    v.push(("bufqueue", buf::queue));
    #[cfg(feature = "http")]
    v.push(("body", body::run));
    #[cfg(all(feature = "http", feature = "queue"))]
    v.push(("bodyqueue", body::queue));
    #[cfg(all(feature = "arbitrary", not(feature = "alloc")))]
    v.push(("arb", arb::run));
    #[cfg(feature = "nom")]
    v.push(("parse", parse::run));
    #[cfg(feature = "serde")]
    v.push(("serde", ser::run));
    #[cfg(all(feature = "serde", feature = "alloc"))]
    v.push(("serdeheap", ser::heap));
    v
}

fn one(f: fn(&mut Cx), seed: u64, case: u64, keep: bool) -> Cx {
    let mut cx = Cx { r: Rng(seed.wrapping_mul(0x1_0000_0001).wrapping_add(case.wrapping_mul(0x9E37))), h: case, lines: keep.then(Vec::new), buf: String::new(), steps: 0, broken: None };
    let res = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    if res.is_err() {
        cx.put("program", "uncaught panic");
    }
    cx
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--levels" {
        for (n, _) in levels() {
            println!("{n}");
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let f = levels().into_iter().find(|l| l.0 == a[1]).expect("level").1;
    let (seed, from) = (a[2].parse().unwrap(), a[3].parse::<u64>().unwrap());
    if a[4] == "--explain" {
        let cx = one(f, seed, from, true);
        for l in cx.lines.unwrap() {
            println!("{l}");
        }
        if let Some(b) = cx.broken {
            println!("BROKEN {b}");
        }
        return;
    }
    let n: u64 = a[4].parse().unwrap();
    let mut out = Vec::new();
    let (mut steps, mut broken) = (0, None);
    for c in from..from + n {
        let cx = one(f, seed, c, false);
        steps += cx.steps;
        out.extend_from_slice(&cx.h.to_le_bytes());
        if let (Some(b), None) = (cx.broken, &broken) {
            broken = Some((c, b));
        }
    }
    std::fs::write(&a[5], out).unwrap();
    println!("STEPS {steps}");
    if let Some((c, b)) = broken {
        println!("BROKEN {c} {b}");
    }
}

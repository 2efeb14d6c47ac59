//! A pool of live values of every handle type, each paired with a plain model, under random
//! conversions, slicing, mutation and drops. After every step *every* live value is re-read and
//! compared with its model, external objects are audited against the set of values that may
//! still reference them, and (where sharing is promised) the content address is compared with
//! the address it had in the original storage.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena, ExtHeap, ExtTag};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use bytes::{Buf, Bytes};
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

pub enum H {
    B(ByteData<'static>),
    S(SharedBytes),
    T(StringData<'static>),
    U(SharedBytesBuilder),
    W(SharedStrBuilder),
    Y(Bytes),
    V(Vec<u8>),
    G(String),
    Q(ByteQueue<'static>),
    K(StringQueue<'static>),
}
/// what the storage is known to be
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unknown,
    Static,
    Borrowed,
    Shared,
    ExtVec,
    ExtBytes,
    Ext,
}
pub struct E {
    pub h: H,
    pub m: Vec<u8>,
    pub tags: Vec<Arc<ExtTag>>,
    /// expected content address, 0 = not promised
    pub addr: usize,
    pub st: St,
}
impl H {
    fn name(&self) -> &'static str {
        match self {
            H::B(_) => "ByteData",
            H::S(_) => "SharedBytes",
            H::T(_) => "StringData",
            H::U(_) => "SharedBytesBuilder",
            H::W(_) => "SharedStrBuilder",
            H::Y(_) => "Bytes",
            H::V(_) => "Vec",
            H::G(_) => "String",
            H::Q(_) => "ByteQueue",
            H::K(_) => "StringQueue",
        }
    }
}
impl E {
    /// short values may be stored inline by any operation: no address is promised for them
    fn forget_small(&mut self) {
        if self.m.len() <= 14 && matches!(self.h, H::B(_) | H::T(_)) {
            self.addr = 0;
            self.st = St::Unknown;
        }
    }
}

/// Content that reads as the filling of released memory: the storage was given back too early.
fn dead(p: &[u8], m: &[u8], n: &str) {
    if p != m && p.len() >= 4 && (p.iter().all(|b| *b == 0xDD) || p.iter().all(|b| *b == 0xEE)) {
        crate::core::violation(format!("LIFETIME: {n} of {} byte(s) reads as released memory", p.len()));
    }
}
pub fn verify(e: &E, deep: bool) {
    let m = &e.m[..];
    let n = e.h.name();
    if crate::core::LIFE.load(Relaxed) {
        match &e.h {
            H::B(d) => dead(d.as_slice(), m, n),
            H::S(d) => dead(d.as_slice(), m, n),
            H::T(d) => dead(d.as_bytes(), m, n),
            H::Y(d) => dead(d, m, n),
            H::V(d) => dead(d, m, n),
            H::Q(q) => {
                let mut at = 0;
                for c in q.chunks() {
                    if at + c.len() <= m.len() {
                        dead(c.as_slice(), &m[at..at + c.len()], n);
                    }
                    at += c.len();
                }
            }
            H::K(q) => {
                let mut at = 0;
                for c in q.chunks() {
                    if at + c.len() <= m.len() {
                        dead(c.as_bytes(), &m[at..at + c.len()], n);
                    }
                    at += c.len();
                }
            }
            _ => {}
        }
    }
    let p = match &e.h {
        H::B(d) => {
            check_eq!(d.len(), m.len(), "{n}::len");
            check_eq!(d.is_empty(), m.is_empty(), "{n}::is_empty");
            check_eq!(d.as_slice(), m, "{n} content");
            if deep {
                check!(d == m && &(**d)[..] == m, "{n} comparison with its own content fails");
                if let Some(b) = d.as_borrowed() {
                    check_eq!(b, m, "{n}::as_borrowed");
                }
            }
            d.as_slice().as_ptr() as usize
        }
        H::S(d) => {
            check_eq!(d.len(), m.len(), "{n}::len");
            check_eq!(d.is_empty(), m.is_empty(), "{n}::is_empty");
            check_eq!(d.as_slice(), m, "{n} content");
            if deep && !m.is_empty() {
                check_eq!(d[m.len() - 1], m[m.len() - 1], "{n} index");
            }
            d.as_slice().as_ptr() as usize
        }
        H::T(d) => {
            check_eq!(d.len(), m.len(), "{n}::len");
            check_eq!(d.is_empty(), m.is_empty(), "{n}::is_empty");
            check_eq!(d.as_bytes(), m, "{n} content");
            check!(std::str::from_utf8(d.as_bytes()).is_ok(), "{n} holds invalid UTF-8");
            d.as_bytes().as_ptr() as usize
        }
        H::U(d) => {
            check_eq!(d.len(), m.len(), "{n}::len");
            check_eq!(d.is_empty(), m.is_empty(), "{n}::is_empty");
            check!(d.capacity() >= d.len(), "{n}: capacity {} below length {}", d.capacity(), d.len());
            check_eq!(d.as_slice(), m, "{n} content");
            d.as_slice().as_ptr() as usize
        }
        H::W(d) => {
            check_eq!(d.len(), m.len(), "{n}::len");
            check_eq!(d.is_empty(), m.is_empty(), "{n}::is_empty");
            check!(d.capacity() >= d.len(), "{n}: capacity {} below length {}", d.capacity(), d.len());
            check_eq!(d.as_bytes(), m, "{n} content");
            check!(std::str::from_utf8(d.as_bytes()).is_ok(), "{n} holds invalid UTF-8");
            0
        }
        H::Y(d) => {
            check_eq!(d.len(), m.len(), "{n}::len");
            check_eq!(&d[..], m, "{n} content");
            d.as_ptr() as usize
        }
        H::V(d) => {
            check_eq!(&d[..], m, "{n} content");
            d.as_ptr() as usize
        }
        H::G(d) => {
            check_eq!(d.as_bytes(), m, "{n} content");
            check!(std::str::from_utf8(d.as_bytes()).is_ok(), "{n} holds invalid UTF-8");
            0
        }
        H::Q(q) => {
            check_eq!(q.len(), m.len(), "{n}::len");
            check_eq!(q.is_empty(), m.is_empty(), "{n}::is_empty");
            let mut at = 0;
            let mut chunks = 0;
            for c in q.chunks() {
                check!(at + c.len() <= m.len(), "{n} yields more bytes than its length");
                check_eq!(c.as_slice(), &m[at..at + c.len()], "{n} chunk at {at}");
                at += c.len();
                chunks += 1;
            }
            check_eq!(at, m.len(), "{n} bytes yielded by chunks");
            check_eq!(chunks, q.chunk_len(), "{n}::chunk_len");
            if deep {
                check!(q.bytes().eq(m.iter().copied()), "{n}::bytes");
            }
            0
        }
        H::K(q) => {
            check_eq!(q.len(), m.len(), "{n}::len");
            check_eq!(q.is_empty(), m.is_empty(), "{n}::is_empty");
            let mut at = 0;
            let mut chunks = 0;
            for c in q.chunks() {
                check!(at + c.len() <= m.len(), "{n} yields more bytes than its length");
                check_eq!(c.as_bytes(), &m[at..at + c.len()], "{n} chunk at {at}");
                check!(std::str::from_utf8(c.as_bytes()).is_ok(), "{n} chunk holds invalid UTF-8");
                at += c.len();
                chunks += 1;
            }
            check_eq!(at, m.len(), "{n} bytes yielded by chunks");
            check_eq!(chunks, q.chunk_len(), "{n}::chunk_len");
            0
        }
    };
    let inline_allowed = m.len() <= 14 && matches!(e.h, H::B(_) | H::T(_));
    if crate::core::ADDR.load(Relaxed) && e.addr != 0 && !m.is_empty() && p != 0 && !inline_allowed {
        check!(p == e.addr, "{n} ({:?}) was copied or moved: content of {} byte(s) is no longer at its original address", e.st, m.len());
    }
}

pub struct Zoo {
    pub pool: Vec<E>,
    pub panics: bool,
}

fn range(cx: &mut Ctx, n: usize) -> (usize, usize) {
    let a = cx.rng.below(n + 1);
    let b = cx.rng.range(a, n);
    match cx.rng.below(8) {
        0 => (0, n),
        1 => (0, b),
        2 => (a, n),
        3 if n > 15 => (1, n),
        4 if n > 16 => {
            let a = cx.rng.below(n - 14);
            (a, a + 14 + cx.rng.below(2).min(n - 14 - a))
        }
        _ => (a, b),
    }
}
fn txt(m: &[u8], mut i: usize) -> usize {
    let s = std::str::from_utf8(m).unwrap_or_default();
    if s.len() != m.len() {
        return i;
    }
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// address of a slice of a value that shares storage; slices of at most 14 bytes may be inlined
fn sub(addr: usize, a: usize, n: usize) -> usize {
    if addr == 0 || n <= 14 {
        0
    } else {
        addr + a
    }
}

impl Zoo {
    pub fn new(panics: bool) -> Zoo {
        Zoo { pool: Vec::new(), panics }
    }
    pub fn create(&mut self, cx: &mut Ctx, ar: &Arena) {
        let e = match cx.rng.below(12) {
            0..=3 => {
                let c = gen::bytes(&mut cx.rng);
                let before = ar.exts.borrow().len();
                let (d, s) = gen::mk_bd(cx, ar, &c);
                let tags: Vec<_> = ar.exts.borrow()[before..].to_vec();
                let st = match s.name {
                    "static" | "static-make-sliced" => St::Static,
                    "borrowed" => St::Borrowed,
                    "shared" | "shared-sliced" => St::Shared,
                    "owned-vec" => St::ExtVec,
                    "ext-bytes" => St::ExtBytes,
                    "ext-box" | "ext-arc" | "ext-heap" | "ext-into-sliced" => St::Ext,
                    _ => St::Unknown,
                };
                let addr = if c.len() > 14 && st != St::Unknown { s.addr } else { 0 };
                let st = if c.len() > 14 { st } else { St::Unknown };
                E { h: H::B(d), m: c, tags, addr, st }
            }
            4 => {
                let c = gen::bytes(&mut cx.rng);
                let al = 1usize << cx.rng.below(14);
                let s = SharedBytes::from_slice_aligned(&c, al);
                cx.ev("new_shared_aligned", c.len() as u64);
                let addr = s.as_slice().as_ptr() as usize;
                E { h: H::S(s), m: c, tags: vec![], addr, st: St::Shared }
            }
            5 => {
                let t = gen::text(&mut cx.rng);
                let before = ar.exts.borrow().len();
                let (d, _) = gen::mk_sd(cx, ar, &t);
                let tags: Vec<_> = ar.exts.borrow()[before..].to_vec();
                E { h: H::T(d), m: t.into_bytes(), tags, addr: 0, st: St::Unknown }
            }
            6 => {
                let c = gen::bytes(&mut cx.rng);
                let mut b = SharedBytesBuilder::with_alignment(1 << cx.rng.below(10));
                if cx.rng.chance(1, 2) {
                    b.reserve(cx.rng.below(100));
                }
                b.extend_from_slice(&c);
                cx.ev("new_builder", c.len() as u64);
                E { h: H::U(b), m: c, tags: vec![], addr: 0, st: St::Unknown }
            }
            7 => {
                let t = gen::text(&mut cx.rng);
                let mut b = SharedStrBuilder::new();
                b.push_str(&t);
                cx.ev("new_str_builder", t.len() as u64);
                E { h: H::W(b), m: t.into_bytes(), tags: vec![], addr: 0, st: St::Unknown }
            }
            8 => {
                let c = gen::bytes(&mut cx.rng);
                let y = match cx.rng.below(4) {
                    0 => Bytes::from_static(ar.stat(&c)),
                    1 => Bytes::from(c.clone()),
                    2 => Bytes::from(SharedBytes::from_slice(&c)),
                    _ => Bytes::copy_from_slice(&c),
                };
                cx.ev("new_bytes", c.len() as u64);
                E { h: H::Y(y), m: c, tags: vec![], addr: 0, st: St::Unknown }
            }
            9 => {
                let c = gen::bytes(&mut cx.rng);
                let before = ar.exts.borrow().len();
                let q = gen::q::mk_bq(cx, ar, &c);
                let tags: Vec<_> = ar.exts.borrow()[before..].to_vec();
                cx.ev("new_queue", c.len() as u64);
                E { h: H::Q(q), m: c, tags, addr: 0, st: St::Unknown }
            }
            10 => {
                let t = gen::text(&mut cx.rng);
                let before = ar.exts.borrow().len();
                let q = gen::q::mk_sq(cx, ar, &t);
                let tags: Vec<_> = ar.exts.borrow()[before..].to_vec();
                cx.ev("new_str_queue", t.len() as u64);
                E { h: H::K(q), m: t.into_bytes(), tags, addr: 0, st: St::Unknown }
            }
            _ => {
                // tagged externals whose destruction is observed
                let n = cx.rng.range(15, 90);
                let c = gen::bytes_n(&mut cx.rng, n);
                let tag = ar.tag();
                cx.ev("new_ext_tagged", n as u64);
                let d = if cx.rng.chance(1, 2) {
                    let data = c.clone();
                    ByteData::from_external(ExtHeap { data, tag: tag.clone() })
                } else {
                    gen::ext_inline(&mut cx.rng, &c, tag.clone())
                };
                let addr = d.as_slice().as_ptr() as usize;
                E { h: H::B(d), m: c, tags: vec![tag], addr, st: St::Ext }
            }
        };
        cx.note(|| format!("create {} ({:?}) of {} byte(s)", e.h.name(), e.st, e.m.len()));
        self.pool.push(e);
    }

    pub fn audit(&self, ar: &Arena, deep: bool) {
        for e in &self.pool {
            verify(e, deep);
        }
        if !crate::core::LIFE.load(Relaxed) {
            return;
        }
        for t in ar.exts.borrow().iter() {
            let d = t.drops.load(SeqCst);
            check!(d <= 1, "LIFETIME: external object destroyed {d} times");
            let held = self.pool.iter().any(|e| e.tags.iter().any(|x| Arc::ptr_eq(x, t)));
            if !held {
                check!(d == 1, "LIFETIME: external object still alive although every value made from it is gone");
            }
        }
    }

    pub fn step(&mut self, cx: &mut Ctx, ar: &Arena) {
        if self.pool.is_empty() || (self.pool.len() < 8 && cx.rng.chance(1, 5)) {
            self.create(cx, ar);
            return;
        }
        let i = cx.rng.below(self.pool.len());
        if self.pool.len() > 12 || cx.rng.chance(1, 14) {
            let e = self.pool.swap_remove(i);
            cx.ev("drop", e.m.len() as u64);
            cx.note(|| format!("drop {}", e.h.name()));
            drop(e);
            return;
        }
        if self.panics && cx.rng.chance(1, 3) {
            self.reject(cx, i);
            return;
        }
        // half of the operations borrow the value (and may add another one to the pool)
        if cx.rng.chance(1, 2) {
            let n = self.borrow_op(cx, i);
            if let Some(e) = n {
                self.pool.push(e);
            }
        } else {
            let e = self.pool.swap_remove(i);
            self.consume_op(cx, ar, e);
        }
    }

    /// Operations that leave the value in place, possibly modified.
    fn borrow_op(&mut self, cx: &mut Ctx, i: usize) -> Option<E> {
        let e = &mut self.pool[i];
        e.forget_small();
        let n = e.m.len();
        let op = cx.rng.below(12);
        let (a, b) = range(cx, n);
        let hn = e.h.name();
        let st = e.st;
        let (r, addr, tags) = (e.m[a..b].to_vec(), e.addr, e.tags.clone());
        let mk = |h, m: Vec<u8>, addr, st| Some(E { h, m, tags: tags.clone(), addr, st });
        macro_rules! ev {
            ($s:literal) => {
                cx.ev($s, (a * 4099 + b) as u64);
                cx.note(|| format!("{} {}..{} of {hn}({:?}) len {n}", $s, a, b, st));
            };
        }
        match &mut e.h {
            H::B(d) => match op {
                0 | 1 => {
                    ev!("bd.clone");
                    let m = e.m.clone();
                    mk(H::B(d.clone()), m, addr, st)
                }
                2 | 3 => {
                    ev!("bd.sliced");
                    let x = match cx.rng.below(3) {
                        0 if b > a => d.sliced(a..=b - 1),
                        1 if b == n => d.sliced(a..),
                        _ => d.sliced(a..b),
                    };
                    let ad = sub(addr, a, b - a);
                    mk(H::B(x), r, ad, if ad == 0 { St::Unknown } else { st })
                }
                4 | 5 => {
                    ev!("bd.make_sliced");
                    match cx.rng.below(3) {
                        0 if a == 0 => d.make_sliced(..b),
                        1 if b == n => d.make_sliced(a..),
                        _ => d.make_sliced(a..b),
                    }
                    e.addr = sub(addr, a, b - a);
                    if e.addr == 0 {
                        e.st = St::Unknown;
                    }
                    e.m = r;
                    None
                }
                6 => {
                    ev!("bd.take_bytes");
                    let x = d.take_bytes(b);
                    let m = e.m[..b].to_vec();
                    e.m.drain(..b);
                    e.addr = if b == 0 { addr } else { sub(addr, b, n - b) };
                    let ad = if b == n { addr } else { sub(addr, 0, b) };
                    if e.addr == 0 {
                        e.st = St::Unknown;
                    }
                    mk(H::B(x), m, ad, if ad == 0 { St::Unknown } else { st })
                }
                7 => {
                    ev!("bd.take_while");
                    let mut k = 0;
                    let x = d.take_while(|_| {
                        k += 1;
                        k <= b
                    });
                    let m = e.m[..b].to_vec();
                    e.m.drain(..b);
                    e.addr = if b == 0 { addr } else { sub(addr, b, n - b) };
                    if e.addr == 0 {
                        e.st = St::Unknown;
                    }
                    mk(H::B(x), m, 0, St::Unknown)
                }
                8 => {
                    ev!("bd.next");
                    let k = b.min(5);
                    for j in 0..k {
                        check_eq!(d.next(), Some(e.m[j]), "ByteData::next");
                    }
                    if k == n {
                        check_eq!(d.next(), None, "ByteData::next at end");
                    }
                    e.m.drain(..k);
                    e.addr = 0;
                    e.st = St::Unknown;
                    None
                }
                9 => {
                    ev!("bd.copy_to_bytes");
                    let x = d.copy_to_bytes(b);
                    let m = e.m[..b].to_vec();
                    e.m.drain(..b);
                    e.addr = 0;
                    e.st = St::Unknown;
                    mk(H::Y(x), m, 0, St::Unknown)
                }
                10 => {
                    ev!("bd.read");
                    let mut buf = vec![0u8; b];
                    let got = std::io::Read::read(d, &mut buf).unwrap_or(0);
                    check!(got <= b, "read reports more than the buffer");
                    check_eq!(&buf[..got], &e.m[..got], "read content");
                    e.m.drain(..got);
                    e.addr = 0;
                    e.st = St::Unknown;
                    None
                }
                _ => {
                    ev!("bd.advance");
                    d.advance(a);
                    e.m.drain(..a);
                    e.addr = if a == 0 { addr } else { sub(addr, a, n - a) };
                    if e.addr == 0 {
                        e.st = St::Unknown;
                    }
                    None
                }
            },
            H::S(d) => match op {
                0 | 1 => {
                    ev!("sb.clone");
                    let m = e.m.clone();
                    mk(H::S(d.clone()), m, addr, st)
                }
                2..=4 => {
                    ev!("sb.sliced");
                    let x = if cx.rng.chance(1, 2) { d.sliced(a, b - a) } else { d.sliced_range(a..b) };
                    let ad = if addr == 0 || a == b { 0 } else { addr + a };
                    mk(H::S(x), r, ad, st)
                }
                5..=7 => {
                    ev!("sb.make_sliced");
                    if cx.rng.chance(1, 2) {
                        d.make_sliced(a, b - a);
                    } else {
                        d.make_sliced_range(a..b);
                    }
                    e.addr = if addr == 0 || a == b { 0 } else { addr + a };
                    e.m = r;
                    None
                }
                8 => {
                    ev!("sb.copy_to_bytes");
                    let x = d.copy_to_bytes(b);
                    let m = e.m[..b].to_vec();
                    e.m.drain(..b);
                    e.addr = if addr == 0 || b == n { 0 } else { addr + b };
                    mk(H::Y(x), m, if b == 0 { 0 } else { addr }, St::Shared)
                }
                _ => {
                    ev!("sb.advance");
                    d.advance(a);
                    e.m.drain(..a);
                    e.addr = if addr == 0 { 0 } else { addr + a };
                    None
                }
            },
            H::T(d) => {
                let (a, b) = (txt(&e.m, a), txt(&e.m, b));
                let r = e.m[a..b].to_vec();
                match op {
                    0 | 1 => {
                        ev!("sd.clone");
                        let m = e.m.clone();
                        mk(H::T(d.clone()), m, addr, st)
                    }
                    2 | 3 => {
                        ev!("sd.sliced");
                        mk(H::T(d.sliced(a..b)), r, 0, St::Unknown)
                    }
                    4 | 5 => {
                        ev!("sd.make_sliced");
                        d.make_sliced(a..b);
                        e.m = r;
                        e.addr = 0;
                        None
                    }
                    6 | 7 => {
                        ev!("sd.trim");
                        let s = std::str::from_utf8(&e.m).unwrap_or_default();
                        let (x, y) = match cx.rng.below(3) {
                            0 => (d.trim(), s.trim()),
                            1 => (d.trim_start(), s.trim_start()),
                            _ => (d.trim_end(), s.trim_end()),
                        };
                        let m = y.as_bytes().to_vec();
                        mk(H::T(x), m, 0, St::Unknown)
                    }
                    8 | 9 => {
                        ev!("sd.take_while");
                        let s = std::str::from_utf8(&e.m).unwrap_or_default();
                        let lim = s[..b].chars().count();
                        let mut k = 0;
                        let x = d.take_while(|_| {
                            k += 1;
                            k <= lim
                        });
                        let m = e.m[..b].to_vec();
                        e.m.drain(..b);
                        e.addr = 0;
                        mk(H::T(x), m, 0, St::Unknown)
                    }
                    _ => {
                        ev!("sd.next");
                        let s = String::from_utf8(e.m.clone()).unwrap_or_default();
                        if let Some(c) = s.chars().next() {
                            check_eq!(d.next(), Some(c), "StringData::next");
                            e.m.drain(..c.len_utf8());
                        } else {
                            check_eq!(d.next(), None, "StringData::next at end");
                        }
                        e.addr = 0;
                        None
                    }
                }
            }
            H::U(d) => {
                match op {
                    0..=3 => {
                        ev!("ub.extend");
                        let c = gen::bytes(&mut cx.rng);
                        d.extend_from_slice(&c);
                        e.m.extend_from_slice(&c);
                    }
                    4 => {
                        ev!("ub.truncate");
                        d.truncate(b);
                        e.m.truncate(b);
                    }
                    5 => {
                        ev!("ub.clear");
                        d.clear();
                        e.m.clear();
                    }
                    6 => {
                        ev!("ub.reserve");
                        d.reserve(b);
                        check!(d.capacity() >= n + b, "capacity after reserve({b}) is {} with {n} held", d.capacity());
                    }
                    7..=9 => {
                        ev!("ub.mutate");
                        for x in d.as_slice_mut()[a..b].iter_mut() {
                            *x = x.wrapping_add(1);
                        }
                        for x in &mut e.m[a..b] {
                            *x = x.wrapping_add(1);
                        }
                    }
                    _ => {
                        ev!("ub.put_u8s");
                        d.extend(r.iter());
                        e.m.extend_from_slice(&r);
                    }
                }
                e.addr = 0;
                None
            }
            H::W(d) => {
                let b = txt(&e.m, b);
                match op {
                    0..=3 => {
                        ev!("wb.push");
                        let c = gen::ch(&mut cx.rng);
                        d.push(c);
                        let mut t = [0; 4];
                        e.m.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                    }
                    4..=6 => {
                        ev!("wb.push_str");
                        let c = gen::text(&mut cx.rng);
                        d.push_str(&c);
                        e.m.extend_from_slice(c.as_bytes());
                    }
                    7 | 8 => {
                        ev!("wb.truncate");
                        d.truncate(b);
                        e.m.truncate(b);
                    }
                    9 => {
                        ev!("wb.clear");
                        d.clear();
                        e.m.clear();
                    }
                    _ => {
                        ev!("wb.reserve");
                        d.reserve(b);
                        check!(d.capacity() >= n + b, "capacity after reserve({b}) is {} with {n} held", d.capacity());
                    }
                }
                None
            }
            H::Y(d) => match op {
                0..=2 => {
                    ev!("by.clone");
                    let m = e.m.clone();
                    mk(H::Y(d.clone()), m, addr, st)
                }
                3..=5 => {
                    ev!("by.slice");
                    let x = d.slice(a..b);
                    mk(H::Y(x), r, if addr == 0 || a == b { 0 } else { addr + a }, st)
                }
                6 | 7 => {
                    ev!("by.split_to");
                    let x = d.split_to(b);
                    let m = e.m[..b].to_vec();
                    e.m.drain(..b);
                    e.addr = if addr == 0 || b == n { 0 } else { addr + b };
                    mk(H::Y(x), m, if b == 0 { 0 } else { addr }, st)
                }
                8 => {
                    ev!("by.split_off");
                    let x = d.split_off(b);
                    let m = e.m.split_off(b);
                    mk(H::Y(x), m, if addr == 0 || b == n { 0 } else { addr + b }, st)
                }
                _ => {
                    ev!("by.truncate");
                    d.truncate(b);
                    e.m.truncate(b);
                    None
                }
            },
            H::V(_) | H::G(_) => None,
            H::Q(q) => match op {
                0 => {
                    ev!("q.clone");
                    let m = e.m.clone();
                    mk(H::Q(q.clone()), m, 0, St::Unknown)
                }
                1 | 2 => {
                    ev!("q.slice");
                    mk(H::Q(q.slice(a..b)), r, 0, St::Unknown)
                }
                3 => {
                    ev!("q.split_off");
                    let x = q.split_off(b);
                    let m = e.m.split_off(b);
                    mk(H::Q(x), m, 0, St::Unknown)
                }
                4 => {
                    ev!("q.drain");
                    {
                        let mut it = q.drain(a..b);
                        let k = cx.rng.below(b - a + 2);
                        for j in 0..k {
                            let x = it.next();
                            check_eq!(x, e.m[a..b].get(j).copied(), "drain yield {j}");
                        }
                    }
                    e.m.drain(a..b);
                    None
                }
                5 => {
                    ev!("q.pop_front");
                    match q.pop_front() {
                        Some(c) => {
                            check!(c.len() <= n, "popped chunk longer than the queue");
                            let m: Vec<u8> = e.m.drain(..c.len()).collect();
                            mk(H::B(c), m, 0, St::Unknown)
                        }
                        None => {
                            check!(n == 0, "pop_front of a non-empty queue gives nothing");
                            None
                        }
                    }
                }
                6 => {
                    ev!("q.pop_back");
                    match q.pop_back() {
                        Some(c) => {
                            check!(c.len() <= n, "popped chunk longer than the queue");
                            let m = e.m.split_off(n - c.len());
                            mk(H::B(c), m, 0, St::Unknown)
                        }
                        None => {
                            check!(n == 0, "pop_back of a non-empty queue gives nothing");
                            None
                        }
                    }
                }
                7 => {
                    ev!("q.consume");
                    q.consume(b);
                    e.m.drain(..b);
                    None
                }
                8 => {
                    ev!("q.take_while");
                    let mut k = 0;
                    let x = q.take_while(|_| {
                        k += 1;
                        k <= b
                    });
                    let m: Vec<u8> = e.m.drain(..b).collect();
                    mk(H::Q(x), m, 0, St::Unknown)
                }
                9 => {
                    ev!("q.copy_to_bytes");
                    let x = q.copy_to_bytes(b);
                    let m: Vec<u8> = e.m.drain(..b).collect();
                    mk(H::Y(x), m, 0, St::Unknown)
                }
                _ => {
                    // insert a clone of another pool value
                    let j = cx.rng.below(self.pool.len());
                    let (d, m2, t2) = {
                        let o = &self.pool[j];
                        match &o.h {
                            H::B(d) => (d.clone(), o.m.clone(), o.tags.clone()),
                            H::T(d) => (d.as_bytedata().clone(), o.m.clone(), o.tags.clone()),
                            H::S(d) => (ByteData::from(d.clone()), o.m.clone(), vec![]),
                            _ => return None,
                        }
                    };
                    let e = &mut self.pool[i];
                    let H::Q(q) = &mut e.h else { unreachable!() };
                    e.tags.extend(t2);
                    match cx.rng.below(3) {
                        0 => {
                            cx.ev("q.push_back", m2.len() as u64);
                            cx.note(|| format!("push_back clone of {} byte(s)", m2.len()));
                            q.push_back(d);
                            e.m.extend_from_slice(&m2);
                        }
                        1 => {
                            cx.ev("q.push_front", m2.len() as u64);
                            cx.note(|| format!("push_front clone of {} byte(s)", m2.len()));
                            q.push_front(d);
                            e.m.splice(0..0, m2);
                        }
                        _ => {
                            cx.ev("q.replace_range", (a * 4099 + b) as u64);
                            cx.note(|| format!("replace_range {a}..{b} of {n} by {} byte(s)", m2.len()));
                            q.replace_range(a..b, d);
                            e.m.splice(a..b, m2);
                        }
                    }
                    None
                }
            },
            H::K(q) => {
                let (a, b) = (txt(&e.m, a), txt(&e.m, b));
                let r = e.m[a..b].to_vec();
                match op {
                    0 => {
                        ev!("k.clone");
                        let m = e.m.clone();
                        mk(H::K(q.clone()), m, 0, St::Unknown)
                    }
                    1..=3 => {
                        ev!("k.slice");
                        mk(H::K(q.slice(a..b)), r, 0, St::Unknown)
                    }
                    4 | 5 => {
                        ev!("k.split_off");
                        let x = q.split_off(b);
                        let m = e.m.split_off(b);
                        mk(H::K(x), m, 0, St::Unknown)
                    }
                    6 | 7 => {
                        ev!("k.drain");
                        {
                            let mut it = q.drain(a..b);
                            let k = cx.rng.below(4);
                            for _ in 0..k {
                                let _ = it.next();
                            }
                        }
                        e.m.drain(a..b);
                        None
                    }
                    8 => {
                        ev!("k.pop_front");
                        match q.pop_front() {
                            Some(c) => {
                                let m: Vec<u8> = e.m.drain(..c.len()).collect();
                                mk(H::T(c), m, 0, St::Unknown)
                            }
                            None => None,
                        }
                    }
                    9 => {
                        ev!("k.pop_back");
                        match q.pop_back() {
                            Some(c) => {
                                let m = e.m.split_off(n - c.len());
                                mk(H::T(c), m, 0, St::Unknown)
                            }
                            None => None,
                        }
                    }
                    _ => {
                        ev!("k.push");
                        let t = gen::text(&mut cx.rng);
                        q.push_back(t.clone());
                        e.m.extend_from_slice(t.as_bytes());
                        None
                    }
                }
            }
        }
    }

    /// Operations that take the value by value.
    fn consume_op(&mut self, cx: &mut Ctx, ar: &Arena, mut e: E) {
        e.forget_small();
        let n = e.m.len();
        let op = cx.rng.below(12);
        let (a, b) = range(cx, n);
        let st = e.st;
        let addr = e.addr;
        let m = e.m.clone();
        let hn = e.h.name();
        let r = m[a..b].to_vec();
        macro_rules! ev {
            ($s:literal) => {
                cx.ev($s, (a * 4099 + b) as u64);
                cx.note(|| format!("{} {}..{} of {hn}({st:?}) len {n}", $s, a, b));
            };
        }
        let tags = e.tags.clone();
        let mk = move |h, m: Vec<u8>, addr: usize| E { h, m, tags: tags.clone(), addr, st: if addr == 0 { St::Unknown } else { st } };
        let is_text = std::str::from_utf8(&m).is_ok();
        match e.h {
            H::B(d) => match op {
                0 | 1 => {
                    ev!("bd.into_sliced");
                    let x = d.into_sliced(a..b);
                    self.pool.push(mk(H::B(x), r, sub(addr, a, b - a)));
                }
                2 => {
                    ev!("bd.split_at");
                    let (x, y) = d.split_at(b);
                    let ax = if b == n { addr } else { sub(addr, 0, b) };
                    let ay = if b == 0 { addr } else { sub(addr, b, n - b) };
                    self.pool.push(mk(H::B(x), m[..b].to_vec(), ax));
                    self.pool.push(mk(H::B(y), m[b..].to_vec(), ay));
                }
                3 => {
                    ev!("bd.into_shared");
                    let x = if cx.rng.chance(1, 2) { d.into_shared() } else { d.into_shared_range(..) };
                    let keep = matches!(st, St::Static | St::Shared | St::Ext | St::ExtVec | St::ExtBytes);
                    self.pool.push(mk(H::B(x), m, if keep { addr } else { 0 }));
                }
                4 => {
                    ev!("bd.into_shared_range");
                    let x = d.into_shared_range(a..b);
                    let keep = matches!(st, St::Static | St::Shared | St::Ext | St::ExtVec | St::ExtBytes);
                    self.pool.push(mk(H::B(x), r, if keep { sub(addr, a, b - a) } else { 0 }));
                }
                5 => {
                    ev!("bd.to_string_data");
                    match StringData::try_from_bytedata(d) {
                        Ok(x) => {
                            check!(is_text, "invalid UTF-8 accepted as text");
                            self.pool.push(mk(H::T(x), m, addr));
                        }
                        Err(x) => {
                            check!(!is_text, "valid UTF-8 refused as text");
                            self.pool.push(mk(H::B(x), m, addr));
                        }
                    }
                }
                6 => {
                    ev!("bd.to_shared");
                    let x = SharedBytes::from(d);
                    self.pool.push(mk(H::S(x), m, if st == St::Shared { addr } else { 0 }));
                }
                7 => {
                    ev!("bd.to_bytes");
                    let x = Bytes::from(d);
                    let keep = matches!(st, St::Static | St::Shared | St::ExtBytes);
                    self.pool.push(mk(H::Y(x), m, if keep { addr } else { 0 }));
                }
                8 => {
                    ev!("bd.to_vec");
                    let x = Vec::from(d);
                    self.pool.push(mk(H::V(x), m, 0));
                }
                9 => {
                    ev!("bd.to_cow");
                    let x: std::borrow::Cow<'static, [u8]> = d.into();
                    check_eq!(&x[..], &m[..], "Cow content");
                    self.pool.push(mk(H::V(x.into_owned()), m, 0));
                }
                10 => {
                    ev!("bd.to_queue");
                    self.pool.push(mk(H::Q(ByteQueue::with_item(d)), m, 0));
                }
                _ => {
                    ev!("bd.statically_borrowed");
                    self.pool.push(mk(H::B(d.statically_borrowed()), m, addr));
                }
            },
            H::S(d) => match op {
                0..=2 => {
                    ev!("sb.to_bytedata");
                    let (x, ad) = if cx.rng.chance(1, 2) { (ByteData::from(d), if n > 14 { addr } else { 0 }) } else { (ByteData::from_shared(d), addr) };
                    self.pool.push(mk(H::B(x), m, ad));
                }
                3 => {
                    ev!("sb.to_bytes");
                    self.pool.push(mk(H::Y(Bytes::from(d)), m, addr));
                }
                4..=6 => {
                    ev!("sb.to_builder");
                    let x = SharedBytesBuilder::from(d);
                    self.pool.push(mk(H::U(x), m, 0));
                }
                7 | 8 => {
                    ev!("sb.into_sliced");
                    let x = if cx.rng.chance(1, 2) { d.into_sliced(a, b - a) } else { d.into_sliced_range(a..b) };
                    self.pool.push(mk(H::S(x), r, if addr == 0 || a == b { 0 } else { addr + a }));
                }
                _ => {
                    ev!("sb.to_string_data");
                    match StringData::try_from_shared(d) {
                        Ok(x) => {
                            check!(is_text, "invalid UTF-8 accepted as text");
                            self.pool.push(mk(H::T(x), m, addr));
                        }
                        Err(x) => {
                            check!(!is_text, "valid UTF-8 refused as text");
                            self.pool.push(mk(H::S(x), m, addr));
                        }
                    }
                }
            },
            H::T(d) => {
                let (a, b) = (txt(&m, a), txt(&m, b));
                let r = m[a..b].to_vec();
                match op {
                    0 | 1 => {
                        ev!("sd.into_sliced");
                        self.pool.push(mk(H::T(d.into_sliced(a..b)), r, 0));
                    }
                    2 => {
                        ev!("sd.split_at");
                        let (x, y) = d.split_at(b);
                        self.pool.push(mk(H::T(x), m[..b].to_vec(), 0));
                        self.pool.push(mk(H::T(y), m[b..].to_vec(), 0));
                    }
                    3 => {
                        ev!("sd.into_shared");
                        self.pool.push(mk(H::T(d.into_shared()), m, 0));
                    }
                    4 => {
                        ev!("sd.into_shared_range");
                        self.pool.push(mk(H::T(d.into_shared_range(a..b)), r, 0));
                    }
                    5 | 6 => {
                        ev!("sd.to_bytedata");
                        self.pool.push(mk(H::B(d.into_bytedata()), m, addr));
                    }
                    7 => {
                        ev!("sd.to_string");
                        self.pool.push(mk(H::G(String::from(d)), m, 0));
                    }
                    8 => {
                        ev!("sd.to_vec");
                        self.pool.push(mk(H::V(Vec::from(d)), m, 0));
                    }
                    9 => {
                        ev!("sd.to_str_builder");
                        self.pool.push(mk(H::W(SharedStrBuilder::from(d)), m, 0));
                    }
                    10 => {
                        ev!("sd.to_queue");
                        self.pool.push(mk(H::K(StringQueue::with_item(d)), m, 0));
                    }
                    _ => {
                        ev!("sd.to_cow");
                        let x: std::borrow::Cow<'static, str> = d.into();
                        check_eq!(x.as_bytes(), &m[..], "Cow content");
                        self.pool.push(mk(H::G(x.into_owned()), m, 0));
                    }
                }
            }
            H::U(d) => match op {
                0..=3 => {
                    ev!("ub.build");
                    let p = d.as_slice().as_ptr() as usize;
                    let x = d.build();
                    let ad = if n == 0 { 0 } else { p };
                    self.pool.push(E { h: H::S(x), m, tags: vec![], addr: ad, st: St::Shared });
                }
                4..=6 => {
                    ev!("ub.to_bytedata");
                    let p = d.as_slice().as_ptr() as usize;
                    let x = ByteData::from(d);
                    self.pool.push(E { h: H::B(x), m, tags: vec![], addr: if n > 14 { p } else { 0 }, st: if n > 14 { St::Shared } else { St::Unknown } });
                }
                7 => {
                    ev!("ub.to_bytes");
                    let x = Bytes::from(SharedBytes::from(d));
                    self.pool.push(mk(H::Y(x), m, 0));
                }
                8 | 9 => {
                    ev!("ub.to_str_builder");
                    match SharedStrBuilder::try_from(d) {
                        Ok(x) => {
                            check!(is_text, "invalid UTF-8 accepted as text");
                            self.pool.push(mk(H::W(x), m, 0));
                        }
                        Err(_) => {
                            check!(!is_text, "valid UTF-8 refused as text");
                        }
                    }
                }
                _ => {
                    ev!("ub.drop");
                }
            },
            H::W(d) => match op {
                0..=3 => {
                    ev!("wb.build_str");
                    self.pool.push(mk(H::T(d.build_str()), m, 0));
                }
                4..=6 => {
                    ev!("wb.build");
                    self.pool.push(mk(H::S(d.build()), m, 0));
                }
                7 | 8 => {
                    ev!("wb.to_bytedata");
                    self.pool.push(mk(H::B(ByteData::from(d)), m, 0));
                }
                _ => {
                    ev!("wb.to_builder");
                    self.pool.push(mk(H::U(d.into_shared_bytes_builder()), m, 0));
                }
            },
            H::Y(d) => match op {
                0..=2 => {
                    ev!("by.to_bytedata");
                    self.pool.push(mk(H::B(ByteData::from(d)), m, 0));
                }
                3 | 4 => {
                    ev!("by.to_shared");
                    self.pool.push(mk(H::S(SharedBytes::from(d)), m, 0));
                }
                5 | 6 => {
                    ev!("by.to_external");
                    let x = ByteData::from_external(d);
                    self.pool.push(E { h: H::B(x), m, tags: e.tags, addr: 0, st: St::Unknown });
                }
                7 => {
                    ev!("by.to_vec");
                    self.pool.push(mk(H::V(Vec::from(d)), m, 0));
                }
                8 | 9 => {
                    ev!("by.to_mut");
                    match d.try_into_mut() {
                        Ok(mut x) => {
                            check_eq!(&x[..], &m[..], "BytesMut content");
                            let mut m = m;
                            for (p, q) in x.iter_mut().zip(m.iter_mut()) {
                                *p ^= 0x55;
                                *q ^= 0x55;
                            }
                            self.pool.push(mk(H::Y(x.freeze()), m, 0));
                        }
                        Err(x) => self.pool.push(mk(H::Y(x), m, addr)),
                    }
                }
                10 => {
                    ev!("by.to_queue");
                    self.pool.push(mk(H::Q(ByteQueue::from(d)), m, 0));
                }
                _ => {
                    ev!("by.to_bytesmut");
                    let x = bytes::BytesMut::from(d);
                    self.pool.push(mk(H::Y(x.freeze()), m, 0));
                }
            },
            H::V(d) => match op {
                0..=3 => {
                    ev!("v.to_bytedata");
                    self.pool.push(mk(H::B(ByteData::from(d)), m, 0));
                }
                4..=6 => {
                    ev!("v.from_owned");
                    let p = d.as_ptr() as usize;
                    let x = ByteData::from_owned(d);
                    let big = n > 14;
                    self.pool.push(E { h: H::B(x), m, tags: vec![], addr: if big { p } else { 0 }, st: if big { St::ExtVec } else { St::Unknown } });
                }
                7 | 8 => {
                    ev!("v.to_shared");
                    self.pool.push(mk(H::S(SharedBytes::from(d)), m, 0));
                }
                9 => {
                    ev!("v.to_queue");
                    self.pool.push(mk(H::Q(ByteQueue::from(d)), m, 0));
                }
                _ => {
                    ev!("v.to_string");
                    if let Ok(s) = String::from_utf8(d) {
                        self.pool.push(mk(H::G(s), m, 0));
                    }
                }
            },
            H::G(d) => match op {
                0..=3 => {
                    ev!("g.to_string_data");
                    self.pool.push(mk(H::T(StringData::from(d)), m, 0));
                }
                4..=6 => {
                    ev!("g.from_owned");
                    self.pool.push(mk(H::T(StringData::from_owned(d)), m, 0));
                }
                7 | 8 => {
                    ev!("g.to_bytedata");
                    self.pool.push(mk(H::B(ByteData::from(d)), m, 0));
                }
                9 => {
                    ev!("g.to_shared");
                    self.pool.push(mk(H::S(SharedBytes::from(d)), m, 0));
                }
                _ => {
                    ev!("g.to_queue");
                    self.pool.push(mk(H::K(StringQueue::from(d)), m, 0));
                }
            },
            H::Q(d) => match op {
                0 | 1 => {
                    ev!("q.to_bytedata");
                    self.pool.push(mk(H::B(ByteData::from(d)), m, 0));
                }
                2 => {
                    ev!("q.to_vec");
                    self.pool.push(mk(H::V(Vec::from(d)), m, 0));
                }
                3 => {
                    ev!("q.to_bytes");
                    self.pool.push(mk(H::Y(Bytes::from(d)), m, 0));
                }
                4 => {
                    ev!("q.to_shared");
                    self.pool.push(mk(H::S(SharedBytes::from(d)), m, 0));
                }
                5 => {
                    ev!("q.into_bytes");
                    let mut it = d.into_bytes();
                    let k = cx.rng.below(n + 2);
                    for j in 0..k {
                        check_eq!(it.next(), m.get(j).copied(), "OwnedByteIter yield {j}");
                    }
                    drop(it);
                }
                6 => {
                    ev!("q.into_iter");
                    let mut at = 0;
                    for c in d {
                        let l = c.len();
                        check!(at + l <= n, "chunks longer than the queue");
                        self.pool.push(mk(H::B(c), m[at..at + l].to_vec(), 0));
                        at += l;
                        if self.pool.len() > 14 {
                            break;
                        }
                    }
                }
                7 => {
                    ev!("q.collect");
                    let q: ByteQueue<'static> = d.into_iter().collect();
                    self.pool.push(mk(H::Q(q), m, 0));
                }
                _ => {
                    // append another queue
                    let j = (0..self.pool.len()).find(|&j| matches!(self.pool[j].h, H::Q(_)));
                    let mut q = d;
                    let mut out = mk(H::V(Vec::new()), m, 0);
                    if let Some(j) = j {
                        let o = self.pool.swap_remove(j);
                        let H::Q(oq) = o.h else { unreachable!() };
                        cx.ev("q.append", o.m.len() as u64);
                        cx.note(|| format!("append queue of {} byte(s) to one of {n}", o.m.len()));
                        q.append(oq);
                        out.m.extend_from_slice(&o.m);
                        out.tags.extend(o.tags);
                    } else {
                        ev!("q.extend");
                        let c = gen::bytes(&mut cx.rng);
                        q.extend([ar.stat(&c), &[][..], ar.stat(&c)]);
                        out.m.extend_from_slice(&c);
                        out.m.extend_from_slice(&c);
                    }
                    out.h = H::Q(q);
                    self.pool.push(out);
                }
            },
            H::K(d) => match op {
                0..=2 => {
                    ev!("k.to_string_data");
                    self.pool.push(mk(H::T(StringData::from(d)), m, 0));
                }
                3..=5 => {
                    ev!("k.to_string");
                    self.pool.push(mk(H::G(String::from(d)), m, 0));
                }
                6..=8 => {
                    ev!("k.to_bytequeue");
                    self.pool.push(mk(H::Q(d.into_bytequeue()), m, 0));
                }
                9 => {
                    ev!("k.into_chars");
                    let s = String::from_utf8(m).unwrap_or_default();
                    check!(d.into_chars().eq(s.chars()), "OwnedCharIter");
                }
                _ => {
                    ev!("k.collect");
                    let q: StringQueue<'static> = d.into_iter().collect();
                    self.pool.push(mk(H::K(q), m, 0));
                }
            },
        }
    }

    /// Calls with arguments that a plain slice/vector rejects; the receiver must be unchanged.
    fn reject(&mut self, cx: &mut Ctx, i: usize) {
        let e = &mut self.pool[i];
        let n = e.m.len();
        let big = *cx.rng.pick(&[n + 1, n + 2, n + 15, usize::MAX, usize::MAX - 1, u32::MAX as usize, crate::core::p2(32) + n / 2, crate::core::p2(40), isize::MAX as usize]);
        let a = cx.rng.below(n + 1);
        cx.ev("reject", (i * 31 + a) as u64);
        cx.note(|| format!("rejected operation on {} len {n}, argument {big}", e.h.name()));
        let op = cx.rng.below(6);
        let mut got: Option<String> = None;
        macro_rules! must_reject {
            ($what:literal, $x:expr) => {
                if let Some(_r) = may_panic(|| $x) {
                    got = Some(format!("{}: out-of-range argument accepted (len {n}, argument {big})", $what));
                }
            };
        }
        match &mut e.h {
            H::B(d) => match op {
                0 => must_reject!("ByteData::sliced", d.sliced(a..big)),
                1 => must_reject!("ByteData::make_sliced", d.make_sliced(a..big)),
                2 => must_reject!("ByteData::make_sliced", d.make_sliced(big..)),
                3 => must_reject!("ByteData::take_bytes", d.take_bytes(big)),
                4 => must_reject!("ByteData::advance", d.advance(big)),
                _ => must_reject!("ByteData::into_sliced", d.clone().into_sliced(..big)),
            },
            H::S(d) => match op {
                0 => must_reject!("SharedBytes::sliced", d.sliced(a.max(1), big.max(n))),
                1 => must_reject!("SharedBytes::make_sliced", {
                    d.make_sliced(a.max(1), big.max(n));
                }),
                2 => must_reject!("SharedBytes::sliced_range", d.sliced_range(big..)),
                3 => must_reject!("SharedBytes::make_sliced_range", {
                    d.make_sliced_range(a..big);
                }),
                4 => must_reject!("SharedBytes::advance", d.advance(big)),
                _ => must_reject!("SharedBytes::into_sliced", d.clone().into_sliced(big, n)),
            },
            H::T(d) => match op {
                0 | 1 => must_reject!("StringData::sliced", d.sliced(a..big)),
                2 | 3 => must_reject!("StringData::make_sliced", d.make_sliced(..big)),
                _ => must_reject!("StringData::split_at", d.clone().split_at(big)),
            },
            H::Q(q) => match op {
                0 => must_reject!("ByteQueue::slice", q.slice(a..big)),
                1 => must_reject!("ByteQueue::split_off", q.split_off(big)),
                2 => must_reject!("ByteQueue::drain", {
                    let _ = q.drain(a..big).count();
                }),
                3 => must_reject!("ByteQueue::consume", q.consume(big)),
                4 => must_reject!("ByteQueue::advance", q.advance(big)),
                _ => must_reject!("ByteQueue::replace_range", q.replace_range(a..big, ByteData::empty())),
            },
            H::K(q) => match op {
                0 | 1 => must_reject!("StringQueue::slice", q.slice(a..big)),
                2 => must_reject!("StringQueue::split_off", q.split_off(big)),
                3 => must_reject!("StringQueue::drain", {
                    let _ = q.drain(big..).count();
                }),
                _ => must_reject!("StringQueue::replace_range", q.replace_range(a..big, StringData::empty())),
            },
            _ => {}
        }
        if let Some(g) = got {
            check!(false, "{g}");
        }
    }
}

/// One history over the pool.
pub fn history(cx: &mut Ctx, steps: usize, panics: bool) {
    let ar = Arena::new();
    {
        let mut z = Zoo::new(panics);
        for k in 0..steps {
            z.step(cx, &ar);
            z.audit(&ar, k % 8 == 7);
        }
        // drop in random order
        while !z.pool.is_empty() {
            let i = cx.rng.below(z.pool.len());
            drop(z.pool.swap_remove(i));
            z.audit(&ar, false);
        }
    }
    ar.audit_exts();
    cx.count_n("external_objects_audited", ar.ext_counts().0 as u64);
}

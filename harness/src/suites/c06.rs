//! Handles that share storage, used from several threads at once. Every thread checks the bytes it
//! sees; the race detectors (ThreadSanitizer, Miri) watch the accesses; destructors are counted.
use crate::core::{Ctx, Rng};
use crate::gen::{Arena, ExtHeap, ExtTag};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use bytes::{Bytes, BytesMut};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

enum H {
    S(SharedBytes),
    B(ByteData<'static>),
    T(StringData<'static>),
    Y(Bytes),
    Q(ByteQueue<'static>),
}
struct E {
    h: H,
    m: Vec<u8>,
}
impl E {
    fn check(&self, what: &str) {
        match &self.h {
            H::S(s) => {
                check_eq!(s.as_slice(), &self.m[..], "SharedBytes {what}");
            }
            H::B(s) => {
                check_eq!(s.as_slice(), &self.m[..], "ByteData {what}");
            }
            H::T(s) => {
                check_eq!(s.as_bytes(), &self.m[..], "StringData {what}");
            }
            H::Y(s) => {
                check_eq!(&s[..], &self.m[..], "Bytes {what}");
            }
            H::Q(q) => {
                let mut at = 0;
                for c in q.chunks() {
                    let c = c.as_slice();
                    check_eq!(c, self.m.get(at..at + c.len()).unwrap_or(&[]), "ByteQueue chunk {what}");
                    at += c.len();
                }
                check_eq!(at, self.m.len(), "ByteQueue length {what}");
            }
        }
    }
    fn dup(&self) -> E {
        let h = match &self.h {
            H::S(s) => H::S(s.clone()),
            H::B(s) => H::B(s.clone()),
            H::T(s) => H::T(s.clone()),
            H::Y(s) => H::Y(s.clone()),
            H::Q(s) => H::Q(s.clone()),
        };
        E { h, m: self.m.clone() }
    }
}

fn pattern(r: &mut Rng, n: usize) -> Vec<u8> {
    // ASCII, so that it is text wherever it is cut
    (0..n).map(|_| b'a' + (r.below(26) as u8)).collect()
}

/// writes through an exclusive builder: a reader elsewhere would race with it
fn scribble(mut b: SharedBytesBuilder, m: &mut Vec<u8>, r: &mut Rng) -> SharedBytesBuilder {
    check_eq!(b.as_slice(), &m[..], "builder made from a shared value");
    for (x, y) in b.as_slice_mut().iter_mut().zip(m.iter_mut()) {
        *x = if *x == b'z' { b'a' } else { *x + 1 };
        *y = if *y == b'z' { b'a' } else { *y + 1 };
    }
    if r.chance(1, 2) {
        b.extend_from_slice(b"more");
        m.extend_from_slice(b"more");
    }
    b
}

fn op(r: &mut Rng, pool: &mut Vec<E>, mail: &Mutex<Vec<E>>, use_mail: bool, tally: &Tally) {
    if pool.is_empty() {
        return;
    }
    let i = r.below(pool.len());
    match r.below(12) {
        0 | 1 => pool[i].check("read"),
        2 => {
            if pool.len() < 6 {
                let d = pool[i].dup();
                d.check("clone");
                pool.push(d);
                tally.clones.fetch_add(1, Relaxed);
            }
        }
        3 => {
            // slice
            let n = pool[i].m.len();
            let a = r.below(n + 1);
            let b = r.range(a, n);
            let m = pool[i].m[a..b].to_vec();
            let h = match &pool[i].h {
                H::S(s) => H::S(s.sliced_range(a..b)),
                H::B(s) => H::B(s.sliced(a..b)),
                H::T(s) => H::T(s.sliced(a..b)),
                H::Y(s) => H::Y(s.slice(a..b)),
                H::Q(q) => H::Q(q.slice(a..b)),
            };
            let e = E { h, m };
            e.check("slice");
            if r.chance(1, 2) {
                pool[i] = e;
            } else if pool.len() < 6 {
                pool.push(e);
            }
        }
        4 | 5 => {
            // hand over to any thread
            let e = pool.swap_remove(i);
            if use_mail {
                let mut g = mail.lock().unwrap();
                g.push(e);
                if r.chance(1, 2) {
                    let k = r.below(g.len());
                    let e = g.swap_remove(k);
                    drop(g);
                    e.check("received");
                    pool.push(e);
                }
            } else {
                drop(e);
                tally.drops.fetch_add(1, Relaxed);
            }
        }
        6 | 7 => {
            let e = pool.swap_remove(i);
            drop(e);
            tally.drops.fetch_add(1, Relaxed);
        }
        _ => {
            let E { h, mut m } = pool.swap_remove(i);
            let h = match h {
                H::S(s) => match r.below(5) {
                    0 => H::B(ByteData::from_shared(s)),
                    1 => H::Y(Bytes::from(s)),
                    2 => {
                        // asking synchronises with the last drop elsewhere, so a conversion that does not is
                        // seen only where nobody asked before it
                        if r.chance(1, 3) && s.is_unique() && !m.is_empty() {
                            tally.unique.fetch_add(1, Relaxed);
                        }
                        H::S(scribble(SharedBytesBuilder::from(s), &mut m, r).build())
                    }
                    3 => {
                        let v = Vec::<u8>::from(ByteData::from_shared(s));
                        check_eq!(v, m, "Vec from shared ByteData");
                        H::S(SharedBytes::from(v))
                    }
                    _ => H::B(ByteData::from(s)),
                },
                H::B(d) => match r.below(6) {
                    0 => H::S(SharedBytes::from(d)),
                    1 => H::Y(Bytes::from(d)),
                    2 => {
                        // takes an external vector back when this is its last handle
                        let p = d.as_slice().as_ptr();
                        let mut v = Vec::<u8>::from(d);
                        check_eq!(v, m, "Vec from ByteData");
                        if v.as_ptr() == p {
                            tally.taken.fetch_add(1, Relaxed);
                        }
                        for (x, y) in v.iter_mut().zip(m.iter_mut()) {
                            *x = b'a' + (*x - b'a' + 3) % 26;
                            *y = b'a' + (*y - b'a' + 3) % 26;
                        }
                        H::B(ByteData::from_external(v))
                    }
                    3 => match StringData::try_from_bytedata(d) {
                        Ok(t) => H::T(t),
                        Err(_) => crate::core::violation("ASCII refused as text".into()),
                    },
                    4 => {
                        let mut q = ByteQueue::new();
                        let k = m.len() / 2;
                        let (x, y) = d.split_at(k);
                        q.push_back(x);
                        q.push_back(y);
                        H::Q(q)
                    }
                    _ => H::B(d.into_shared()),
                },
                H::T(t) => match r.below(3) {
                    0 => H::B(t.into_bytedata()),
                    1 => {
                        let s = String::from(t);
                        check_eq!(s.as_bytes(), &m[..], "String from StringData");
                        H::T(StringData::from_owned(s))
                    }
                    _ => H::T(t.into_shared()),
                },
                H::Y(y) => match r.below(5) {
                    0 => {
                        let v = Vec::<u8>::from(y);
                        check_eq!(v, m, "Vec from Bytes");
                        H::Y(Bytes::from(ByteData::from(v)))
                    }
                    1 => H::B(ByteData::from_external(y)),
                    2 => H::S(SharedBytes::from(y)),
                    3 => match y.try_into_mut() {
                        Ok(mut b) => {
                            check_eq!(&b[..], &m[..], "BytesMut from Bytes");
                            for (x, y) in b.iter_mut().zip(m.iter_mut()) {
                                *x = b'a' + (*x - b'a' + 3) % 26;
                                *y = b'a' + (*y - b'a' + 3) % 26;
                            }
                            tally.unique.fetch_add(1, Relaxed);
                            H::Y(b.freeze())
                        }
                        Err(y) => H::Y(y),
                    },
                    _ => {
                        let b = BytesMut::from(y);
                        check_eq!(&b[..], &m[..], "BytesMut from Bytes");
                        H::Y(b.freeze())
                    }
                },
                H::Q(mut q) => match r.below(3) {
                    0 => {
                        let (a, b) = (q.pop_front(), q.pop_back());
                        if let Some(a) = a {
                            q.push_front(a);
                        }
                        if let Some(b) = b {
                            q.push_back(b);
                        }
                        H::Q(q)
                    }
                    1 => {
                        let v: Vec<u8> = q.into_iter().flat_map(|c| c.as_slice().to_vec()).collect();
                        check_eq!(v, m, "bytes of a queue");
                        H::B(ByteData::from(v))
                    }
                    _ => H::B(ByteData::from(q)),
                },
            };
            let e = E { h, m };
            e.check("converted");
            tally.conversions.fetch_add(1, Relaxed);
            pool.push(e);
        }
    }
}

#[derive(Default)]
struct Tally {
    clones: AtomicUsize,
    drops: AtomicUsize,
    unique: AtomicUsize,
    taken: AtomicUsize,
    conversions: AtomicUsize,
    /// which thread performed the destruction that ended each phase (schedule fingerprint)
    order: AtomicUsize,
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    let threads = cx.rng.range(2, 4);
    let kind = cx.rng.below(7);
    let n = *cx.rng.pick(&[15usize, 16, 30, 64, 200]);
    let m = pattern(&mut cx.rng, n);
    let small = cfg!(miri);
    let ops = if small { cx.rng.range(1, 6) } else { cx.rng.range(1, 24) };
    let use_mail = cx.rng.chance(1, 3);
    cx.ev("thread_case", (threads * 1000 + kind * 100 + ops) as u64);
    let stat = ar.stat(&m);
    let tag = |ar: &Arena| -> Arc<ExtTag> { ar.tag() };
    let first = match kind {
        0 | 1 => H::S(SharedBytes::from_slice(&m)),
        2 => H::B(ByteData::from_external(m.clone())),
        3 => H::B(ByteData::from_external(ExtHeap { data: m.clone(), tag: tag(&ar) })),
        4 if n <= 96 => {
            let t = tag(&ar);
            H::B(crate::gen::ext_inline(&mut cx.rng, &m, t))
        }
        5 => H::Y(Bytes::from(SharedBytes::from_slice_aligned(&m, 1 << cx.rng.below(8)))),
        6 => {
            let mut q = ByteQueue::new();
            let s = ByteData::from_shared(SharedBytes::from_slice(&m));
            for _ in 0..3 {
                q.push_back(s.clone());
                q.push_back(ByteData::from_static(stat));
            }
            H::Q(q)
        }
        _ => H::B(ByteData::from(m.clone())),
    };
    let m = if let H::Q(_) = first { m.repeat(6) } else { m };
    let first = E { h: first, m };
    first.check("created");
    let mail = Arc::new(Mutex::new(Vec::<E>::new()));
    let tally = Arc::new(Tally::default());
    let go = Arc::new(AtomicBool::new(false));
    let mut hs = Vec::new();
    let per = cx.rng.range(1, 3);
    let mut sets: Vec<Vec<E>> = (0..threads).map(|_| (0..per).map(|_| first.dup()).collect()).collect();
    sets[0].push(first);
    // handles read by one thread through a reference into another one's memory
    for mut pool in sets {
        let mut r = Rng::new(cx.rng.u64());
        let (mail, tally, go) = (mail.clone(), tally.clone(), go.clone());
        hs.push(std::thread::spawn(move || {
            while !go.load(Acquire) {
                std::hint::spin_loop();
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
            let mut sig = 0u64;
            for _ in 0..ops {
                op(&mut r, &mut pool, &mail, use_mail, &tally);
                // what this thread did and holds now
                for e in &pool {
                    sig = (sig ^ e.m.len() as u64 ^ ((std::mem::discriminant(&e.h) == std::mem::discriminant(&pool[0].h)) as u64) << 20).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(11);
                }
                sig = sig.wrapping_add(pool.len() as u64 + 1);
                match r.below(8) {
                    0 => std::thread::yield_now(),
                    1 => {
                        for _ in 0..r.below(200) {
                            std::hint::spin_loop();
                        }
                    }
                    _ => {}
                }
            }
            for e in &pool {
                e.check("at the end");
            }
            (tally.order.fetch_add(1, Relaxed), sig)
        }));
    }
    go.store(true, Release);
    let mut fin = 0u64;
    for h in hs {
        match h.join() {
            Ok((o, sig)) => {
                fin = fin * 8 + o as u64;
                cx.mix(sig);
            }
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    for e in mail.lock().unwrap().drain(..) {
        e.check("left in the mailbox");
    }
    drop(mail);
    // the order in which the threads finished is part of the history
    cx.mix(fin);
    cx.count_n("t.clones", tally.clones.load(Relaxed) as u64);
    cx.count_n("t.drops", tally.drops.load(Relaxed) as u64);
    cx.count_n("t.conversions", tally.conversions.load(Relaxed) as u64);
    cx.count_n("t.exclusive_reuse", tally.unique.load(Relaxed) as u64);
    cx.count_n("t.external_taken_back", tally.taken.load(Relaxed) as u64);
    check!(Arc::strong_count(&tally) == 1, "a thread is still running");
    ar.audit_exts();
}

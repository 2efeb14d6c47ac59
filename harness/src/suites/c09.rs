//! Builder histories against Vec<u8> and String.
use crate::core::{may_panic, no_realloc, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use std::fmt::Write as _;
use std::future::Future;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::task::{Context, Poll, Waker};

/// a future that is pending a few times before it fills
struct Fill<'l> {
    buf: Pin<&'l mut [MaybeUninit<u8>]>,
    data: Vec<u8>,
    claim: usize,
    pending: usize,
}
impl Future for Fill<'_> {
    type Output = (usize, usize);
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.pending > 0 {
            self.pending -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let d = std::mem::take(&mut self.data);
        for (s, b) in self.buf.iter_mut().zip(&d) {
            s.write(*b);
        }
        Poll::Ready((d.len(), self.claim))
    }
}

struct B {
    b: SharedBytesBuilder,
    m: Vec<u8>,
    align: usize,
    /// capacity promised by with_capacity/reserve
    cap: usize,
}

fn same(x: &B, what: &str) {
    check_eq!(x.b.as_slice(), &x.m[..], "{what}: content");
    check_eq!(x.b.len(), x.m.len(), "{what}: len");
    check_eq!(x.b.is_empty(), x.m.is_empty(), "{what}: is_empty");
    check!(x.b.capacity() >= x.b.len(), "{what}: capacity {} below length {}", x.b.capacity(), x.b.len());
    check!(x.b.capacity() >= x.cap, "{what}: capacity {} below the reserved {}", x.b.capacity(), x.cap);
    if !x.m.is_empty() {
        check!(x.b.as_slice().as_ptr() as usize % x.align == 0, "{what}: storage is not aligned to {}", x.align);
    }
}

fn aligned(p: *const u8, align: usize, what: &str) {
    check!(p as usize % align == 0, "{what}: storage is not aligned to {align}");
}

fn new(cx: &mut Ctx) -> B {
    let cap = match cx.rng.below(4) {
        0 => 0,
        1 => cx.rng.below(20),
        _ => gen::len(&mut cx.rng),
    };
    let al = 1usize << cx.rng.below(10);
    let (b, align, cap) = match cx.rng.below(6) {
        0 => (SharedBytesBuilder::new(), 1, 0),
        1 => (SharedBytesBuilder::with_capacity(cap), 1, cap),
        2 => (SharedBytesBuilder::with_alignment(al), al, 0),
        3 | 4 => (SharedBytesBuilder::with_aligned_capacity(cap, al), al, cap),
        _ => (SharedBytes::builder(), 1, 0),
    };
    cx.ev("new_builder", (al * 4096 + cap) as u64);
    cx.note(|| format!("new builder align {align} capacity {cap}"));
    let x = B { b, m: Vec::new(), align, cap };
    same(&x, "new");
    x
}

/// Whether this case refuses to resize blocks.
static REFUSE: AtomicBool = AtomicBool::new(false);
/// Sometimes the block of the builder can not be resized, so that the content has to move to a new one.
fn maybe_refused<R>(cx: &mut Ctx, f: impl FnOnce() -> R) -> R {
    if REFUSE.load(Relaxed) && cx.rng.chance(1, 2) {
        no_realloc(cx, |_| f())
    } else {
        f()
    }
}

fn part(cx: &mut Ctx) -> Vec<u8> {
    let n = if cx.rng.chance(1, 3) { cx.rng.below(5) } else { gen::small_len(&mut cx.rng) };
    let n = if cx.rng.chance(1, 60) { cx.rng.range(1000, 70_000) } else { n };
    gen::bytes_n(&mut cx.rng, n)
}

fn step(cx: &mut Ctx, ar: &Arena, x: &mut B, others: &mut Vec<(ByteData<'static>, Vec<u8>)>) {
    let n = x.m.len();
    macro_rules! op {
        ($n:literal, $a:expr) => {{
            cx.ev($n, (n as u64).wrapping_mul(131) ^ ($a as u64));
            let c = x.b.capacity();
            cx.note(|| format!("{}({}) with {n} byte(s), capacity {c}", $n, $a));
        }};
    }
    match cx.rng.below(24) {
        0..=3 => {
            let c = part(cx);
            op!("extend_from_slice", c.len());
            maybe_refused(cx, || x.b.extend_from_slice(&c));
            x.m.extend(c);
        }
        4 => {
            let c = part(cx);
            op!("extend", c.len());
            let k = cx.rng.below(3);
            let it = gen::hinted(&mut cx.rng, c.clone());
            maybe_refused(cx, || match k {
                0 => x.b.extend(it),
                1 => x.b.extend(c.iter()),
                _ => x.b.extend([&c[..c.len() / 2], &c[c.len() / 2..], &[][..]]),
            });
            x.m.extend(c);
        }
        5 => {
            let k = gen::small_len(&mut cx.rng);
            let t = gen::text_n(&mut cx.rng, k);
            op!("write_fmt", t.len());
            maybe_refused(cx, || x.b.extend([&t[..], "", &t[..]]));
            let ok = maybe_refused(cx, || write!(x.b, "{}-{t:?}", n).is_ok());
            check!(ok, "formatted write failed");
            x.m.extend_from_slice(format!("{t}{t}{n}-{t:?}").as_bytes());
        }
        6 | 7 => {
            let k = match cx.rng.below(4) {
                0 => cx.rng.below(4),
                1 => x.b.capacity() - n,
                2 => x.b.capacity() - n + 1,
                _ => gen::len(&mut cx.rng),
            };
            op!("reserve", k);
            maybe_refused(cx, || x.b.reserve(k));
            check!(x.b.capacity() >= n + k, "reserve({k}) with {n} byte(s) left a capacity of {}", x.b.capacity());
            x.cap = x.cap.max(n + k);
        }
        8 => {
            // more than can ever be stored
            let k = *cx.rng.pick(&[usize::MAX, usize::MAX / 2, crate::core::p2(32), (crate::core::p2(32)) + 0x10, (crate::core::p2(33)) + 5, 0xFFFF_FFFF, (crate::core::p2(63)) - 1]);
            op!("reserve_too_much", k >> 20);
            if may_panic(|| x.b.reserve(k)).is_some() {
                check!(x.b.capacity() >= n.saturating_add(k), "reserve({k}) returned with a capacity of {}", x.b.capacity());
            }
        }
        9 | 10 => {
            let k = match cx.rng.below(6) {
                0 => 0,
                1 => n,
                2 => *cx.rng.pick(&[n + 1, n + 1000, crate::core::p2(32), (crate::core::p2(32)) + 1, (crate::core::p2(32)) + n / 2, (crate::core::p2(40)) + 3, usize::MAX, u32::MAX as usize, u32::MAX as usize - 8]),
                _ => cx.rng.below(n + 1),
            };
            op!("truncate", k);
            x.b.truncate(k);
            x.m.truncate(k);
        }
        11 => {
            op!("clear", 0);
            x.b.clear();
            x.m.clear();
        }
        12 => {
            op!("mutate", 0);
            for _ in 0..4 {
                if n > 0 {
                    let i = cx.rng.below(n);
                    let v = cx.rng.byte();
                    match cx.rng.below(3) {
                        0 => x.b.as_slice_mut()[i] = v,
                        1 => x.b[i] = v,
                        _ => x.b.as_mut()[i] = v,
                    }
                    x.m[i] = v;
                }
            }
            x.b.reverse();
            x.m.reverse();
            check_eq!(x.b.as_slice_mut().len(), n, "length of the mutable slice");
        }
        13 | 14 => {
            let c = part(cx);
            let room = x.b.capacity() - n;
            op!("apply_unfilled", room);
            let give = c.len().min(room);
            let over = cx.rng.chance(1, 8);
            let r = may_panic(|| {
                x.b.apply_unfilled(|s| {
                    check_eq!(s.len(), room, "spare capacity handed to the closure");
                    for (s, b) in s.iter_mut().zip(&c) {
                        s.write(*b);
                    }
                    (give * 3, if over { s.len() + 1 } else { give })
                })
            });
            if over {
                check!(r.is_none(), "apply_unfilled accepted more bytes than there is room for");
            } else {
                check_eq!(r, Some(give * 3), "result of apply_unfilled");
                x.m.extend_from_slice(&c[..give]);
            }
        }
        15 => {
            let c = part(cx);
            let room = x.b.capacity() - n;
            op!("apply_unfilled_async", room);
            let give = c.len().min(room);
            let data = c[..give].to_vec();
            let pending = cx.rng.below(4);
            let over = cx.rng.chance(1, 8);
            let cancel = cx.rng.chance(1, 5) && pending > 0;
            let r = may_panic(|| {
                let mut f = Box::pin(x.b.apply_unfilled_async(|buf| Fill { claim: if over { buf.len() + 1 } else { give }, buf, data, pending }));
                let mut t = Context::from_waker(Waker::noop());
                for _ in 0..10 {
                    match f.as_mut().poll(&mut t) {
                        Poll::Ready(r) => return Some(r),
                        Poll::Pending if cancel => return None,
                        Poll::Pending => {}
                    }
                }
                None
            });
            if cancel {
                check!(r == Some(None), "a future dropped early");
            } else if over {
                check!(r.is_none(), "apply_unfilled_async accepted more bytes than there is room for");
            } else {
                check_eq!(r, Some(Some(give)), "result of apply_unfilled_async");
                x.m.extend_from_slice(&c[..give]);
            }
        }
        #[cfg(feature = "unstable")]
        16 | 17 => {
            let c = part(cx);
            let room = x.b.capacity() - n;
            op!("apply_borrowed_buf", room);
            let give = c.len().min(room);
            let r = x.b.apply_borrowed_buf(|b| {
                check_eq!(b.capacity(), room, "spare capacity handed to the closure");
                b.unfilled().append(&c[..give]);
                give
            });
            check_eq!(r, give, "result of apply_borrowed_buf");
            x.m.extend_from_slice(&c[..give]);
        }
        18 | 19 => {
            // freeze, and turn back while (maybe) others hold the storage
            op!("freeze", 0);
            let b = std::mem::replace(&mut x.b, SharedBytesBuilder::new());
            let mut s = maybe_refused(cx, || b.build());
            check_eq!(s.as_slice(), &x.m[..], "frozen content");
            check_eq!(s.len(), n, "frozen length");
            if n > 0 {
                aligned(s.as_slice().as_ptr(), x.align, "frozen value");
            }
            let mut kept = 0;
            if cx.rng.chance(1, 2) && others.len() < 4 {
                let a = cx.rng.below(n + 1);
                let l = cx.rng.below(n - a + 1);
                others.push((ByteData::from(s.sliced(a, l)), x.m[a..a + l].to_vec()));
                kept = l;
            }
            if cx.rng.chance(1, 2) {
                let a = cx.rng.below(n + 1);
                let l = cx.rng.below(n - a + 1);
                s.make_sliced(a, l);
                x.m = x.m[a..a + l].to_vec();
            }
            if cx.rng.chance(1, 4) {
                let d = ByteData::from(s);
                s = SharedBytes::from(d);
            }
            cx.mix(kept as u64);
            x.b = SharedBytesBuilder::from(s);
            x.cap = 0;
            if x.m.len() <= 14 {
                x.align = 1;
            }
        }
        20 => {
            op!("finish", 0);
            let done = std::mem::replace(x, new(cx));
            let (m, al) = (done.m, done.align);
            let d = match cx.rng.below(3) {
                0 => ByteData::from(done.b),
                1 => ByteData::from_shared(done.b.build()),
                _ => ByteData::from(SharedBytes::from(done.b)),
            };
            check_eq!(d.as_slice(), &m[..], "frozen content");
            if m.len() > 14 {
                aligned(d.as_slice().as_ptr(), al, "frozen value");
            }
            if others.len() < 6 {
                others.push((d, m));
            }
        }
        21 => {
            op!("reject", 0);
            let al = *cx.rng.pick(&[0usize, 3, 6, 12, 24, 100, 513, 1024, 1 << 20, usize::MAX]);
            check!(may_panic(|| SharedBytesBuilder::with_alignment(al)).is_none(), "alignment {al} accepted");
            check!(may_panic(|| SharedBytesBuilder::with_aligned_capacity(10, al)).is_none(), "alignment {al} accepted with a capacity");
            let cap = *cx.rng.pick(&[usize::MAX, crate::core::p2(32), (crate::core::p2(32)) - 1, (crate::core::p2(32)) - 8, usize::MAX - 3]);
            check!(may_panic(|| SharedBytesBuilder::with_capacity(cap)).is_none(), "capacity {cap} accepted");
            check!(may_panic(|| SharedBytesBuilder::with_aligned_capacity(cap, 16)).is_none(), "aligned capacity {cap} accepted");
            // shared storage with an alignment nobody can store: refused, or as good as any other
            if cx.rng.chance(1, 8) {
                let c = part(cx);
                let al = *cx.rng.pick(&[24, 100, 513, usize::MAX, (crate::core::p2(63)) + 1, crate::core::p2(63), #[cfg(not(miri))] (crate::core::p2(32)), #[cfg(not(miri))] (crate::core::p2(33))]);
                if let Some(s) = may_panic(|| SharedBytes::from_slice_aligned(&c, al)) {
                    let _second = s.clone();
                    check_eq!(s.as_slice(), &c[..], as_ref, "content with alignment {al}");
                    check!(c.is_empty() || al.is_power_of_two(), "alignment {al} accepted");
                    if !c.is_empty() {
                        aligned(s.as_slice().as_ptr(), al, "from_slice_aligned");
                    }
                }
            }
        }
        _ => {
            op!("from", 0);
            // a builder made from an existing shared value, with room to grow
            let c = part(cx);
            let al = 1usize << if cx.rng.chance(1, 50) { cx.rng.below(17) } else { cx.rng.below(10) };
            let s = SharedBytes::from_slice_aligned(&c, al);
            check_eq!(s.as_slice(), &c[..], "from_slice_aligned content");
            if !c.is_empty() {
                aligned(s.as_slice().as_ptr(), al, "from_slice_aligned");
            }
            if cx.rng.chance(1, 2) && others.len() < 6 {
                others.push((ByteData::from(s.clone()), c.clone()));
            }
            *x = B { b: SharedBytesBuilder::from(s), align: if c.is_empty() { 1 } else { al }, m: c, cap: 0 };
            let _ = ar;
        }
    }
}

fn bytes(cx: &mut Ctx, ar: &Arena) {
    let mut others = Vec::new();
    let mut x = new(cx);
    let n = cx.rng.range(6, 40);
    for _ in 0..n {
        step(cx, ar, &mut x, &mut others);
        same(&x, "after operation");
        for (d, m) in &others {
            check_eq!(d.as_slice(), &m[..], "a frozen handle after builder operations");
        }
        if x.m.len() > 200_000 {
            x.b.clear();
            x.m.clear();
        }
    }
}

fn text(cx: &mut Ctx, ar: &Arena) {
    let mut m = String::new();
    let mut cap = 0;
    let mut b = match cx.rng.below(4) {
        0 => SharedStrBuilder::new(),
        1 => {
            cap = gen::len(&mut cx.rng);
            SharedStrBuilder::with_capacity(cap)
        }
        2 => {
            m = gen::text(&mut cx.rng);
            SharedStrBuilder::from(&m[..])
        }
        _ => {
            m = gen::text(&mut cx.rng);
            SharedStrBuilder::from(gen::sd(cx, ar, &m))
        }
    };
    let mut others: Vec<(StringData<'static>, String)> = Vec::new();
    let steps = cx.rng.range(6, 40);
    for _ in 0..steps {
        let n = m.len();
        cx.ev("str_builder", n as u64);
        match cx.rng.below(12) {
            0..=2 => {
                let c = gen::ch(&mut cx.rng);
                cx.note(|| format!("push({c:?})"));
                maybe_refused(cx, || b.push(c));
                m.push(c);
            }
            3 | 4 => {
                let k = gen::small_len(&mut cx.rng);
                let t = gen::text_n(&mut cx.rng, k);
                cx.note(|| format!("push_str({t:?})"));
                maybe_refused(cx, || b.push_str(&t));
                m.push_str(&t);
            }
            5 => {
                let c = gen::ch(&mut cx.rng);
                let ok = maybe_refused(cx, || write!(b, "{n:>5}{c:?}").is_ok() && b.write_char(c).is_ok());
                check!(ok, "formatted write failed");
                let _ = write!(m, "{n:>5}{c:?}{c}");
            }
            6 => {
                let k = gen::len(&mut cx.rng);
                maybe_refused(cx, || b.reserve(k));
                check!(b.capacity() >= n + k, "reserve({k}) with {n} byte(s) left a capacity of {}", b.capacity());
                cap = cap.max(n + k);
            }
            7 | 8 => {
                let k = if cx.rng.chance(1, 5) { *cx.rng.pick(&[n, n + 1, usize::MAX, (crate::core::p2(32)) + n / 2]) } else { cx.rng.below(n + 1) };
                cx.note(|| format!("truncate({k}) of {n}"));
                let ok = may_panic(|| b.truncate(k)).is_some();
                if k <= n && !m.is_char_boundary(k) {
                    check!(!ok, "truncating inside a character (at {k}) accepted");
                } else {
                    check!(ok, "truncate({k}) of {n} byte(s) rejected");
                    m.truncate(k);
                }
            }
            9 => {
                b.clear();
                m.clear();
            }
            10 => {
                // freeze and come back
                let d = match cx.rng.below(3) {
                    0 => b.build_str(),
                    1 => StringData::from(b),
                    _ => match StringData::try_from_bytedata(ByteData::from(b)) {
                        Ok(d) => d,
                        Err(_) => crate::core::violation("content of a string builder refused as text".into()),
                    },
                };
                check_eq!(d.as_str(), &m[..], "frozen text");
                if others.len() < 4 && cx.rng.chance(1, 2) {
                    others.push((d.clone(), m.clone()));
                }
                b = SharedStrBuilder::from(d);
                cap = 0;
            }
            _ => {
                // through the byte builder: accepted back exactly when it is text
                let mut bb = if cx.rng.chance(1, 2) { b.into_shared_bytes_builder() } else { SharedBytesBuilder::from(b) };
                check_eq!(bb.as_slice(), m.as_bytes(), "as byte builder");
                let mut raw = m.clone().into_bytes();
                if n > 0 && cx.rng.chance(1, 2) {
                    let i = cx.rng.below(n);
                    bb[i] ^= 0x80;
                    raw[i] ^= 0x80;
                }
                match (SharedStrBuilder::try_from(bb), String::from_utf8(raw)) {
                    (Ok(x), Ok(s)) => {
                        b = x;
                        m = s;
                    }
                    (Err(e), Err(f)) => {
                        check_eq!(e, f.utf8_error(), "error of a refused byte builder");
                        b = SharedStrBuilder::default();
                        m = String::new();
                        cap = 0;
                    }
                    (Ok(_), Err(_)) => crate::core::violation("a byte builder that is not text was accepted".into()),
                    (Err(_), Ok(_)) => crate::core::violation("a byte builder that is text was refused".into()),
                }
                cap = 0;
            }
        }
        check!(std::str::from_utf8(b.as_bytes()).is_ok(), "string builder holds invalid UTF-8: {:?}", b.as_bytes());
        check_eq!(b.as_str(), &m[..], "string builder content");
        check_eq!(b.len(), m.len(), "string builder length");
        check_eq!(b.is_empty(), m.is_empty(), "string builder is_empty");
        check!(b.capacity() >= m.len() && b.capacity() >= cap, "string builder capacity {} with {} byte(s), reserved {cap}", b.capacity(), m.len());
        check_eq!(b.to_string(), m, "string builder display");
        for (d, s) in &others {
            check_eq!(d.as_str(), &s[..], "a frozen text after builder operations");
        }
    }
    check_eq!(b.build().as_slice(), m.as_bytes(), "built bytes");
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    REFUSE.store(cx.rng.chance(1, 5), Relaxed);
    if cx.rng.chance(1, 4) {
        text(cx, &ar);
    } else {
        bytes(cx, &ar);
    }
    ar.audit_exts();
}

//! Panics out of user-supplied code (callbacks, iterators, conversions, writers, destructors) and
//! rejected arguments: what survives has to be usable, and nothing may be released twice.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, q, Arena, ExtTag};
use crate::{check, check_eq};
use bytedata::external::{ExternalBytes, ExternalOps};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use std::cell::Cell;
use std::ops::{Bound, RangeBounds};
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

thread_local! { static FUSE: Cell<i64> = const { Cell::new(-1) }; }
/// Panics when the fuse has burnt down.
fn tick() {
    let n = FUSE.with(Cell::get);
    if n < 0 {
        return;
    }
    if n == 0 {
        FUSE.with(|f| f.set(-1));
        if !std::thread::panicking() {
            panic!("injected");
        }
        return;
    }
    FUSE.with(|f| f.set(n - 1));
}
/// Runs `f` with a fuse of `n` ticks; tells whether it came back.
fn fused<R>(cx: &mut Ctx, n: usize, f: impl FnOnce() -> R) -> Option<R> {
    FUSE.with(|f| f.set(n as i64));
    let r = may_panic(f);
    FUSE.with(|f| f.set(-1));
    cx.count(if r.is_some() { "call.completed" } else { "call.panicked" });
    r
}

/// External object that may panic when read for the first time or when destroyed.
struct Bomb {
    data: Vec<u8>,
    tag: Arc<ExtTag>,
    drop_armed: bool,
    read_armed: bool,
}
impl ExternalBytes for Bomb {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x: &Bomb| {
        x.tag.reads.fetch_add(1, SeqCst);
        if x.read_armed {
            tick();
        }
        &x.data
    });
}
impl Drop for Bomb {
    fn drop(&mut self) {
        let n = self.tag.drops.fetch_add(1, SeqCst);
        check!(n == 0 || std::thread::panicking(), "LIFETIME: external object destroyed again");
        self.data.fill(0xEE);
        if self.drop_armed {
            tick();
        }
    }
}
fn bomb(ar: &Arena, c: &[u8], drop_armed: bool) -> ByteData<'static> {
    ByteData::from_external(Bomb { data: c.to_vec(), tag: ar.tag(), drop_armed, read_armed: false })
}

/// Range whose bounds are only found out by asking, and not always the same.
struct Odd {
    a: usize,
    b: usize,
    shift: usize,
    asked: Cell<usize>,
}
impl RangeBounds<usize> for Odd {
    fn start_bound(&self) -> Bound<&usize> {
        tick();
        self.asked.set(self.asked.get() + 1);
        Bound::Included(if self.asked.get() > 1 { &self.shift } else { &self.a })
    }
    fn end_bound(&self) -> Bound<&usize> {
        tick();
        self.asked.set(self.asked.get() + 1);
        Bound::Excluded(if self.asked.get() > 2 { &self.shift } else { &self.b })
    }
}

fn flat(x: &ByteQueue<'_>, what: &str) -> Vec<u8> {
    let mut v = Vec::new();
    let mut k = 0;
    x.chunks().for_each(|c| {
        v.extend_from_slice(c.as_slice());
        k += 1;
    });
    check_eq!((x.len(), x.chunk_len(), x.is_empty()), (v.len(), k, v.is_empty()), "{what}: length, chunk count, emptiness");
    check!(x.bytes().eq(v.iter().copied()), "{what}: content read byte by byte");
    v
}
fn flat_s(x: &StringQueue<'_>, what: &str) -> Vec<u8> {
    x.chunks().for_each(|c| {
        check!(std::str::from_utf8(c.as_bytes()).is_ok(), "{what}: invalid text {:?}", c.as_bytes());
    });
    flat(x.as_bytequeue(), what)
}
/// keeps using a queue
fn go_on(cx: &mut Ctx, ar: &Arena, mut x: ByteQueue<'static>, what: &str) {
    let mut m = flat(&x, what);
    for _ in 0..cx.rng.range(2, 12) {
        match cx.rng.below(6) {
            0 | 1 => {
                let n = gen::small_len(&mut cx.rng);
                let c = gen::bytes_n(&mut cx.rng, n);
                x.push_back(gen::bd(cx, ar, &c));
                m.extend_from_slice(&c);
            }
            2 => {
                let n = gen::small_len(&mut cx.rng);
                let c = gen::bytes_n(&mut cx.rng, n);
                x.push_front(gen::bd(cx, ar, &c));
                m.splice(0..0, c);
            }
            3 => {
                if let Some(f) = x.pop_front() {
                    check!(m.starts_with(f.as_slice()), "{what}: chunk taken from the front afterwards");
                    m.drain(..f.len());
                }
            }
            4 => {
                if let Some(f) = x.pop_back() {
                    check!(m.ends_with(f.as_slice()), "{what}: chunk taken from the back afterwards");
                    m.truncate(m.len() - f.len());
                }
            }
            _ => {
                let k = cx.rng.below(m.len() + 1);
                let t = x.split_off(k);
                check_eq!(flat(&t, what), &m[k..], "{what}: split off afterwards");
                m.truncate(k);
            }
        }
        check_eq!(flat(&x, what), &m[..], "{what}: queue used afterwards");
    }
}

fn is_suffix(got: &[u8], m: &[u8], what: &str) {
    check!(m.ends_with(got), "{what}: {} byte(s) left are not the end of the {} there were", got.len(), m.len());
}

/// callbacks and iterators on single values
fn on_value(cx: &mut Ctx, ar: &Arena) {
    let text = gen::text(&mut cx.rng);
    let c = text.as_bytes().to_vec();
    let d = gen::bd(cx, ar, &c);
    let t = gen::sd(cx, ar, &text);
    let (keep_d, keep_t) = (d.clone(), t.clone());
    let fuse = cx.rng.below(c.len() + 2);
    let k = cx.rng.below(9);
    cx.ev("value", k as u64);
    cx.mix(fuse as u64);
    cx.note(|| format!("value operation {k}, fuse {fuse}, content {text:?}"));
    let mut d = d;
    let mut t = t;
    match k {
        0 => {
            let lim = cx.rng.below(c.len() + 1);
            let mut i = 0;
            let r = fused(cx, fuse, || {
                ByteData::take_while(&mut d, |_| {
                    tick();
                    i += 1;
                    i <= lim
                })
            });
            match r {
                Some(x) => check_eq!([x.as_slice(), d.as_slice()].concat(), c, "take_while"),
                None => is_suffix(d.as_slice(), &c, "ByteData after take_while panicked"),
            }
        }
        1 => {
            let lim = cx.rng.below(c.len() + 1);
            let mut i = 0;
            let r = fused(cx, fuse, || {
                StringData::take_while(&mut t, |_| {
                    tick();
                    i += 1;
                    i <= lim
                })
            });
            match r {
                Some(x) => check_eq!([x.as_bytes(), t.as_bytes()].concat(), c, "take_while"),
                None => {
                    is_suffix(t.as_bytes(), &c, "StringData after take_while panicked");
                    check!(std::str::from_utf8(t.as_bytes()).is_ok(), "StringData after take_while panicked: invalid text");
                }
            }
        }
        2 => {
            // the value itself is the iterator
            let r = fused(cx, fuse, || {
                for (i, b) in d.by_ref().enumerate() {
                    check_eq!(b, c[i], "iterated byte");
                    tick();
                }
            });
            let _ = r;
            is_suffix(d.as_slice(), &c, "ByteData after iteration panicked");
        }
        3 => {
            let _ = fused(cx, fuse, || t.by_ref().for_each(|_| tick()));
            is_suffix(t.as_bytes(), &c, "StringData after iteration panicked");
            check!(std::str::from_utf8(t.as_bytes()).is_ok(), "StringData after iteration panicked: invalid text");
        }
        4 => {
            let _ = fused(cx, fuse, || {
                let mut n = 0usize;
                d.clone().fold((), |(), _| tick());
                for x in d.clone().split_on(b"e") {
                    tick();
                    n += x.len();
                }
                n
            });
        }
        5 => {
            // writers that panic
            struct W;
            impl std::fmt::Write for W {
                fn write_str(&mut self, _: &str) -> std::fmt::Result {
                    tick();
                    Ok(())
                }
            }
            use std::fmt::Write;
            let f = fuse % 4;
            let _ = fused(cx, f, || write!(W, "{d:?}{t}{t:?}{:x}", d));
        }
        6 => {
            struct H;
            impl std::hash::Hasher for H {
                fn finish(&self) -> u64 {
                    0
                }
                fn write(&mut self, _: &[u8]) {
                    tick();
                }
            }
            use std::hash::Hash;
            let f = fuse % 3;
            let _ = fused(cx, f, || {
                d.hash(&mut H);
                t.hash(&mut H);
            });
        }
        7 => {
            // collecting from an iterator that panics
            let it = Burning { items: c.iter().copied(), hint: (cx.rng.below(4), None) };
            if let Some(x) = fused(cx, fuse, || it.collect::<ByteData<'static>>()) {
                check_eq!(x.as_slice(), &c[..], "collected bytes");
            }
        }
        _ => {
            // an external object that panics while being read, by the first or second look at it
            let tag = ar.tag();
            let b = Bomb { data: c.clone(), tag: tag.clone(), drop_armed: false, read_armed: true };
            let f = cx.rng.below(3);
            match fused(cx, f, || ByteData::from_external(b)) {
                Some(x) => {
                    check_eq!(x.as_slice(), &c[..], "external value");
                    drop(x);
                }
                None => {
                    if tag.drops.load(SeqCst) == 0 {
                        cx.count("external object lost by a panic in as_slice");
                        cx.leaks_ok = true;
                        tag.drops.fetch_add(1, SeqCst);
                    }
                }
            }
            check_eq!(tag.drops.load(SeqCst), 1, "LIFETIME: destructor runs of an external object that panicked while being read");
        }
    }
    check_eq!(keep_d.as_slice(), &c[..], "ByteData sharing storage with one in a call that panicked");
    check_eq!(keep_t.as_bytes(), &c[..], "StringData sharing storage with one in a call that panicked");
    let rest = d.as_slice().to_vec();
    let e = d.clone().into_shared();
    check_eq!(e.as_slice(), &rest[..], "value shared afterwards");
    d.make_sliced(rest.len() / 2..);
    check_eq!(d.as_slice(), &rest[rest.len() / 2..], "value sliced afterwards");
}

struct Burning<I> {
    items: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Burning<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// builders
fn on_builder(cx: &mut Ctx, ar: &Arena) {
    let c = gen::text(&mut cx.rng).into_bytes();
    let al = 1usize << cx.rng.below(8);
    let mut b = SharedBytesBuilder::with_alignment(al);
    if cx.rng.chance(1, 2) {
        b.reserve(cx.rng.below(200));
    }
    b.extend_from_slice(&c);
    if cx.rng.chance(1, 2) {
        b.reserve(cx.rng.below(100));
    }
    let k = cx.rng.below(10);
    let fuse = cx.rng.below(8);
    let room = b.capacity() - b.len();
    cx.ev("builder", k as u64);
    cx.mix((fuse * 1000 + room) as u64);
    cx.note(|| format!("builder operation {k}, fuse {fuse}, {} of {} used", b.len(), b.capacity()));
    let n = cx.rng.range(1, 20);
    let more = gen::bytes_n(&mut cx.rng, n);
    let hint = (cx.rng.below(5), Some(cx.rng.below(3)));
    let mut strict = false;
    match k {
        0 => {
            let it = Burning { items: more.iter().copied(), hint };
            let _ = fused(cx, fuse, || b.extend(it));
        }
        1 => {
            let it = Burning { items: more.iter(), hint };
            let _ = fused(cx, fuse, || b.extend(it));
        }
        2 => {
            let it = Burning { items: more.chunks(3), hint };
            let _ = fused(cx, fuse, || b.extend(it));
        }
        3 => {
            let it = Burning { items: ["ab", "", "é", "long enough for more room"].into_iter(), hint };
            let _ = fused(cx, fuse, || b.extend(it));
        }
        4 => {
            // panics after having written some of the room
            let r = fused(cx, 0, || {
                b.apply_unfilled(|u| {
                    u.iter_mut().for_each(|x| {
                        x.write(0x5A);
                    });
                    tick();
                    ((), 0)
                })
            });
            check!(r.is_none(), "apply_unfilled swallowed a panic");
            strict = true;
        }
        5 => {
            // claims to have filled more than there is
            let over = *cx.rng.pick(&[room + 1, room + 7, usize::MAX, crate::core::p2(32), (crate::core::p2(32)) + room, (usize::MAX - b.len()).saturating_add(1)]);
            let r = may_panic(|| b.apply_unfilled(|_| ((), over)));
            check!(r.is_none(), "apply_unfilled accepted {over} bytes into room for {room}");
            strict = true;
        }
        6 | 7 => {
            use std::future::Future;
            use std::task::{Context, Poll, Wake, Waker};
            struct Nop;
            impl Wake for Nop {
                fn wake(self: Arc<Self>) {}
            }
            let waker = Waker::from(Arc::new(Nop));
            let over = if k == 6 { 0 } else { *cx.rng.pick(&[room + 1, usize::MAX, crate::core::p2(32)]) };
            let stage = cx.rng.below(3);
            let wait = cx.rng.below(3);
            let r = may_panic(|| {
                let mut f = Box::pin(b.apply_unfilled_async(|mut u| {
                    if stage == 0 && k == 6 {
                        panic!("injected");
                    }
                    async move {
                        for _ in 0..wait {
                            let mut first = true;
                            std::future::poll_fn(|_| {
                                if std::mem::replace(&mut first, false) {
                                    Poll::Pending
                                } else {
                                    Poll::Ready(())
                                }
                            })
                            .await;
                        }
                        u.iter_mut().for_each(|x| {
                            x.write(0x5A);
                        });
                        if stage == 1 && k == 6 {
                            panic!("injected");
                        }
                        ((), over)
                    }
                }));
                let mut polls = 0;
                loop {
                    polls += 1;
                    if stage == 2 && k == 6 && polls > wait {
                        // dropped before it is ready
                        return true;
                    }
                    if let Poll::Ready(()) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                        return false;
                    }
                }
            });
            check!(r != Some(false), "apply_unfilled_async accepted {over} bytes into room for {room}");
            strict = true;
        }
        8 => {
            struct D<'a>(&'a str);
            impl std::fmt::Display for D<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    for x in self.0.chars() {
                        tick();
                        f.write_str(x.encode_utf8(&mut [0; 4]))?;
                    }
                    Ok(())
                }
            }
            use std::fmt::Write;
            let t = String::from_utf8(c.clone()).unwrap_or_default();
            let mut s = SharedStrBuilder::new();
            s.push_str(&t);
            let _ = fused(cx, fuse, || {
                let _ = write!(s, "x{}", D("éa日b😀cdefghijklmnop"));
            });
            check!(std::str::from_utf8(s.as_bytes()).is_ok(), "text builder holds invalid text after formatting panicked");
            check!(s.as_bytes().starts_with(t.as_bytes()), "text builder lost content when formatting panicked");
            let v = s.as_str().to_string();
            s.push('é');
            check_eq!(s.build_str().as_str(), v + "é", "text built after a panic");
            let _ = fused(cx, fuse, || {
                let _ = write!(b, "x{}", D("éa日b😀cdefghijklmnop"));
            });
        }
        _ => {
            // reading from a source that panics
            struct R;
            impl bytes::Buf for R {
                fn remaining(&self) -> usize {
                    40
                }
                fn chunk(&self) -> &[u8] {
                    tick();
                    &[1, 2, 3, 4, 5]
                }
                fn advance(&mut self, _: usize) {
                    tick();
                }
            }
            use bytes::BufMut;
            let f = fuse + 1;
            if cx.rng.chance(1, 4) {
                strict = true;
                let r = may_panic(|| b.put_slice(&[]));
                check!(r.is_some(), "putting nothing is rejected");
            } else {
                // `R` never ends, the fuse does
                let r = fused(cx, f, || b.put(R));
                check!(r.is_none(), "putting from a source that panics came back");
            }
        }
    }
    if strict {
        check_eq!(b.as_slice(), &c[..], "builder after a rejected or panicking fill");
    }
    check!(b.as_slice().starts_with(&c), "builder lost content when a call panicked");
    check!(b.len() <= b.capacity(), "builder longer than its capacity after a panic");
    let m = b.as_slice().to_vec();
    let n = cx.rng.below(80);
    let more = gen::bytes_n(&mut cx.rng, n);
    b.extend_from_slice(&more);
    let want = [m, more].concat();
    check_eq!(b.as_slice(), &want[..], "builder used afterwards");
    let s = b.build();
    check_eq!(s.as_slice(), &want[..], "bytes built after a panic");
    let _ = ar;
}

/// callbacks, iterators and ranges on queues
fn on_queue(cx: &mut Ctx, ar: &Arena) {
    let text = gen::text(&mut cx.rng);
    let c = text.as_bytes().to_vec();
    let by = cx.rng.chance(1, 2);
    let mut x = q::mk_bq(cx, ar, &c);
    let mut s = q::mk_sq(cx, ar, &text);
    let (keep_x, keep_s) = (x.clone(), s.clone());
    let fuse = if cx.rng.chance(1, 2) { cx.rng.below(5) } else { cx.rng.below(c.len() + 2) };
    let k = cx.rng.below(14);
    let a = cx.rng.below(c.len() + 1);
    let b = cx.rng.range(a, c.len());
    cx.ev("queue", k as u64);
    cx.mix((fuse as u64) << 20 | (a as u64) << 10 | b as u64);
    cx.note(|| format!("queue operation {k} (bytes: {by}), fuse {fuse}, {a}..{b}, content {text:?}, chunks {}", x.chunk_len()));
    let what = "queue after a panic";
    match k {
        0 => {
            let _ = fused(cx, fuse, || {
                x.find_byte(|_| {
                    tick();
                    false
                })
            });
            check_eq!(flat(&x, what), &c[..], "{what}");
            let _ = fused(cx, fuse, || {
                s.find_char(|_| {
                    tick();
                    false
                })
            });
            // it takes the text it searches by exclusive reference
            check!(c.ends_with(&flat_s(&s, what)), "{what}: text");
        }
        1 => {
            let lim = cx.rng.below(c.len() + 1);
            let mut i = 0;
            let r = fused(cx, fuse, || {
                x.take_while(|_| {
                    tick();
                    i += 1;
                    i <= lim
                })
            });
            match r {
                Some(t) => check_eq!([flat(&t, what), flat(&x, what)].concat(), c, "take_while"),
                None => is_suffix(&flat(&x, what), &c, what),
            }
        }
        2 => {
            let lim = cx.rng.below(c.len() + 1);
            let mut i = 0;
            let r = fused(cx, fuse, || {
                s.take_while(|_| {
                    tick();
                    i += 1;
                    i <= lim
                })
            });
            match r {
                Some(t) => check_eq!([flat_s(&t, what), flat_s(&s, what)].concat(), c, "take_while"),
                None => is_suffix(&flat_s(&s, what), &c, what),
            }
        }
        3 => {
            // draining abandoned by a panic
            let back = cx.rng.chance(1, 2);
            let _ = fused(cx, fuse, || {
                let it = x.drain(a..b);
                if back {
                    it.for_each(|_| tick());
                } else {
                    for _ in it {
                        tick();
                    }
                }
            });
            let g = flat(&x, what);
            check!(g.starts_with(&c[..a]) && g.ends_with(&c[b..]) && g.len() <= c.len() && g.len() >= c.len() - (b - a), "{what}: draining {a}..{b} of {} left {} byte(s)", c.len(), g.len());
        }
        4 => {
            let (a, b) = (floor(&text, a), floor(&text, b));
            let _ = fused(cx, fuse, || {
                for _ in s.drain(a..b) {
                    tick();
                }
            });
            let g = flat_s(&s, what);
            check!(g.starts_with(&c[..a]) && g.ends_with(&c[b..]) && g.len() <= c.len(), "{what}: draining {a}..{b} of {} left {} byte(s)", c.len(), g.len());
        }
        5 => {
            let which = cx.rng.below(6);
            let _ = fused(cx, fuse, || match which {
                0 => x.clone().into_bytes().for_each(|_| tick()),
                1 => x.clone().into_iter().for_each(|_| tick()),
                2 => s.clone().into_chars().for_each(|_| tick()),
                3 => s.clone().into_iter().for_each(|_| tick()),
                4 => x.bytes().fold((), |(), _| tick()),
                _ => s.chars().for_each(|_| tick()),
            });
            check_eq!(flat(&x, what), &c[..], "{what}");
            check_eq!(flat_s(&s, what), &c[..], "{what}");
        }
        6 => {
            let parts: Vec<ByteData<'static>> = (0..cx.rng.below(6)).map(|i| gen::bd(cx, ar, &c[..(i * 7).min(c.len())])).collect();
            let before = parts.iter().map(ByteData::len).sum::<usize>();
            let it = Burning { items: parts.into_iter(), hint: (0, None) };
            let _ = fused(cx, fuse, || x.extend(it));
            let g = flat(&x, what);
            check!(g.starts_with(&c) && g.len() <= c.len() + before, "{what}: extending lost content");
        }
        7 => {
            let it = Burning { items: ["a", "", "日", "bcdefghijklmnopqrstuvw"].into_iter(), hint: (0, Some(0)) };
            match cx.rng.below(5) {
                0 => {
                    let _ = fused(cx, fuse, || x.extend(it));
                }
                1 => {
                    let _ = fused(cx, fuse, || s.extend(it));
                }
                2 => {
                    let _ = fused(cx, fuse, || s.extend(it.map(String::from)));
                }
                3 => {
                    let _ = fused(cx, fuse, || x.extend(it.map(|t| t.as_bytes().to_vec())));
                }
                _ => {
                    let _ = fused(cx, fuse, || it.map(StringData::from_borrowed).collect::<StringQueue<'_>>());
                }
            }
            check!(flat(&x, what).starts_with(&c) && flat_s(&s, what).starts_with(&c), "{what}: extending lost content");
        }
        8 => {
            // conversion of the argument panics
            struct I;
            impl From<I> for ByteData<'static> {
                fn from(_: I) -> Self {
                    tick();
                    ByteData::empty()
                }
            }
            let r = fused(cx, 0, || x.push_back(I));
            let r2 = fused(cx, 0, || x.push_front(I));
            check!(r.is_none() && r2.is_none(), "a panic in a conversion was swallowed");
            check_eq!(flat(&x, what), &c[..], "{what}");
        }
        9 => {
            // a range that panics when asked
            let o = Odd { a, b, shift: a, asked: Cell::new(0) };
            let f = cx.rng.below(2);
            let r = match cx.rng.below(3) {
                0 => fused(cx, f, || x.slice(o)).is_some(),
                1 => fused(cx, f, || drop(x.drain(o))).is_some(),
                _ => fused(cx, f, || x.replace_range(o, ByteData::from_static(b"replacement of more than 14"))).is_some(),
            };
            check!(!r, "a panic in a range was swallowed");
            check_eq!(flat(&x, what), &c[..], "{what}");
        }
        10 => {
            // a range that changes its mind: any outcome, but a well-formed one
            let shift = *cx.rng.pick(&[0, c.len(), c.len() + 1, usize::MAX, b]);
            let o = Odd { a, b, shift, asked: Cell::new(0) };
            match cx.rng.below(6) {
                0 => {
                    if let Some(y) = may_panic(|| x.slice(o)) {
                        let g = flat(&y, "slice by an inconsistent range");
                        check!(g.len() <= c.len() && c.windows(g.len().max(1)).any(|w| w == g) || g.is_empty(), "slice by an inconsistent range: bytes that were not there");
                    }
                    check_eq!(flat(&x, what), &c[..], "sliced queue");
                }
                1 => {
                    let _ = may_panic(|| drop(x.drain(o)));
                }
                2 => {
                    let _ = may_panic(|| x.drain(o).count());
                }
                3 => {
                    let _ = may_panic(|| x.replace_range(o, ByteData::from_static(b"replacement of more than 14")));
                }
                4 => {
                    let _ = may_panic(|| s.replace_range(o, StringData::from_static("replacement of more than 14")));
                    flat_s(&s, "text queue after an inconsistent range");
                }
                _ => {
                    let sh = SharedBytes::from_slice(&c);
                    if let Some(y) = may_panic(|| sh.sliced_range(o)) {
                        let g = y.as_slice().to_vec();
                        check!(g.is_empty() || c.windows(g.len()).any(|w| w == g), "slice by an inconsistent range: bytes that were not there");
                    }
                }
            }
            flat(&x, "queue after an inconsistent range");
        }
        11 => {
            struct W;
            impl std::fmt::Write for W {
                fn write_str(&mut self, _: &str) -> std::fmt::Result {
                    tick();
                    Ok(())
                }
            }
            use std::fmt::Write;
            let f = fuse % 6;
            let _ = fused(cx, f, || write!(W, "{s}{x:?}{s:?}{x:x}"));
            check_eq!(flat(&x, what), &c[..], "{what}");
            check_eq!(flat_s(&s, what), &c[..], "{what}");
        }
        12 => {
            let _ = fused(cx, fuse, || {
                let mut n = 0;
                for y in x.split_on(b"e") {
                    tick();
                    n += y.len();
                }
                for y in s.split_on("a") {
                    tick();
                    n += y.len();
                }
                n
            });
            check_eq!(flat(&x, what), &c[..], "{what}");
            check_eq!(flat_s(&s, what), &c[..], "{what}");
        }
        _ => {
            use nom::{InputIter, InputTakeAtPosition};
            let _ = fused(cx, fuse, || {
                let p = |_: u8| {
                    tick();
                    false
                };
                let _ = InputIter::position(&x, p);
                let _ = x.split_at_position_complete::<_, nom::error::Error<_>>(p);
                let _ = s.split_at_position_complete::<_, nom::error::Error<_>>(|_| {
                    tick();
                    false
                });
            });
            check_eq!(flat(&x, what), &c[..], "{what}");
            check_eq!(flat_s(&s, what), &c[..], "{what}");
        }
    }
    check_eq!(flat(&keep_x, "bystander"), &c[..], "queue sharing storage with one in a call that panicked");
    check_eq!(flat_s(&keep_s, "bystander"), &c[..], "text queue sharing storage with one in a call that panicked");
    if by {
        go_on(cx, ar, x, what);
    } else {
        flat_s(&s, what);
        go_on(cx, ar, s.into_bytequeue(), what);
    }
}
fn floor(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// destructors that panic while the library releases the value
fn on_destroy(cx: &mut Ctx, ar: &Arena) {
    cx.leaks_ok = true;
    let n = cx.rng.range(15, 60);
    let c = gen::bytes_n(&mut cx.rng, n);
    let k = cx.rng.below(24);
    cx.ev("destructor", k as u64);
    cx.note(|| format!("destructor case {k} of {n} bytes"));
    let by_c = gen::bytes(&mut cx.rng);
    let bystander = gen::bd(cx, ar, &by_c);
    let by2 = bystander.clone();
    let a = cx.rng.below(n + 1);
    let b = cx.rng.range(a, n);
    cx.mix((a * 64 + b) as u64);
    let d = bomb(ar, &c, true);
    let tag = ar.exts.borrow().last().cloned();
    macro_rules! boom { ($e:expr) => { fused(cx, 0, || $e) } }
    /// a value that lived through the panic
    fn alive(d: &ByteData<'_>, what: &str) {
        let v = d.as_slice().to_vec();
        check_eq!(d.len(), v.len(), "{what}: length");
        check_eq!(d.clone().as_slice(), &v[..], "{what}: clone");
    }
    match k {
        0 => {
            let _ = boom!(drop(d));
        }
        1 => {
            let e = d.clone();
            let _ = boom!(drop(d));
            check_eq!(e.as_slice(), &c[..], "value while its clone is dropped");
            let _ = boom!(drop(e));
        }
        2 => {
            let mut d = d;
            let _ = boom!(d.make_sliced(a..b));
            alive(&d, "value after make_sliced panicked");
            check!(d.is_empty() || d.as_slice() == &c[a..b] || d.as_slice() == &c[..], "value after make_sliced panicked: wrong content");
            let _ = boom!(drop(d));
        }
        3 => {
            let _ = boom!(d.into_sliced(a..b)).map(|x| check_eq!(x.as_slice(), &c[a..b], "into_sliced"));
        }
        4 => {
            let mut d = d;
            let r = boom!(d.take_bytes(a)).map(|x| x.as_slice().to_vec());
            alive(&d, "value after take_bytes panicked");
            if let Some(r) = r {
                check_eq!([&r[..], d.as_slice()].concat(), c, "take_bytes");
            }
            let _ = boom!(drop(d));
        }
        5 => {
            if let Some(x) = boom!(d.into_shared()) {
                check_eq!(x.as_slice(), &c[..], "into_shared");
                let _ = boom!(drop(x));
            }
        }
        6 => {
            let _ = boom!(d.into_shared_range(a..b)).map(|x| check_eq!(x.as_slice(), &c[a..b], "into_shared_range"));
        }
        7 => {
            let _ = boom!(Vec::<u8>::from(d)).map(|x| check_eq!(x, c, "into Vec"));
        }
        8 => {
            let _ = boom!({
                let mut s = ByteData::from_static(b"x");
                std::mem::swap(&mut s, &mut { d });
                s = ByteData::empty();
                s
            });
        }
        9 => {
            let r = boom!(bytes::Bytes::from(d));
            if let Some(y) = r {
                check_eq!(&y[..], &c[..], "into Bytes");
                let z = y.slice(a..b);
                let _ = boom!(drop(y));
                check_eq!(&z[..], &c[a..b], "slice of Bytes");
                let _ = boom!(drop(z));
            }
        }
        10 => {
            let mut x = d;
            let _ = boom!(x.by_ref().for_each(|_| ()));
            alive(&x, "value iterated to its end");
            let _ = boom!(drop(x));
        }
        11 => {
            let _ = boom!(d.statically_borrowed()).map(|x| {
                check_eq!(x.as_slice(), &c[..], "statically_borrowed");
                cx.count("statically_borrowed");
                let _ = may_panic(|| drop(x));
            });
        }
        12 => {
            let _ = boom!(d.split_at(a)).map(|(x, y)| check_eq!([x.as_slice(), y.as_slice()].concat(), c, "split_at"));
        }
        13 => {
            let mut d = d;
            let _ = boom!(bytes::Buf::advance(&mut d, a));
            alive(&d, "value after advance panicked");
            let _ = boom!(drop(d));
        }
        _ => {
            // in a queue, between other chunks, over one or several blocks
            let mut m: Vec<u8> = Vec::new();
            let mut x = ByteQueue::new();
            let chunks = *cx.rng.pick(&[1usize, 2, 3, 5, 30, 50]);
            let at = cx.rng.below(chunks);
            let mut d = Some(d);
            for i in 0..chunks {
                let (v, armed) = match i {
                    _ if i == at => (c.clone(), true),
                    _ => {
                        let l = gen::small_len(&mut cx.rng) + 1;
                        (gen::bytes_n(&mut cx.rng, l), cx.rng.chance(1, 3))
                    }
                };
                m.extend_from_slice(&v);
                let e = if i == at { d.take().unwrap_or_default() } else if armed { bomb(ar, &v, true) } else { gen::bd(cx, ar, &v) };
                x.push_back(e);
            }
            let keep = if cx.rng.chance(1, 3) { Some(x.clone()) } else { None };
            let f = cx.rng.below(3);
            let l = m.len();
            let a = cx.rng.below(l + 1);
            let b = cx.rng.range(a, l);
            cx.mix((chunks * 64 + at) as u64);
            cx.note(|| format!("{chunks} chunks, the object in chunk {at}, range {a}..{b} of {l}, fuse {f}, clone kept {}", keep.is_some()));
            let what = "queue whose chunk panicked in its destructor";
            let mut gone = false;
            match k {
                14 => {
                    gone = true;
                    let y = std::mem::take(&mut x);
                    let _ = fused(cx, f, || drop(y));
                }
                15 => {
                    let _ = fused(cx, f, || x.consume(a));
                }
                16 => {
                    let _ = fused(cx, f, || drop(x.drain(a..b)));
                }
                17 => {
                    let _ = fused(cx, f, || x.drain(a..b).map(usize::from).sum::<usize>());
                }
                18 => {
                    let _ = fused(cx, f, || x.replace_range(a..b, ByteData::from_static(b"new content of more than 14")));
                }
                19 => {
                    let _ = fused(cx, f, || while x.pop_front().is_some() {});
                }
                20 => {
                    let _ = fused(cx, f, || {
                        x.split_off(a);
                    });
                }
                21 => {
                    gone = true;
                    let y = std::mem::take(&mut x);
                    let n = cx.rng.below(l + 1);
                    let _ = fused(cx, f, || {
                        let mut it = y.into_bytes();
                        for _ in 0..n {
                            it.next();
                        }
                        it.nth(n / 3);
                        it.skip(a).take(3).count()
                    });
                }
                22 => {
                    gone = true;
                    let y = std::mem::take(&mut x);
                    let _ = fused(cx, f, || match a % 3 {
                        0 => ByteData::from(y).as_slice().to_vec(),
                        1 => Vec::<u8>::from(y),
                        _ => SharedBytes::from(y).as_slice().to_vec(),
                    })
                    .map(|v| check_eq!(v, m, "queue converted"));
                }
                _ => {
                    let mut y = ByteQueue::new();
                    y.push_back(ByteData::from_static(b"front"));
                    let z = std::mem::take(&mut x);
                    let _ = fused(cx, f, || y.append(z));
                    x = y;
                    m.splice(0..0, *b"front");
                }
            }
            let g = flat(&x, what);
            // what is left is made of what was there, in order, plus possibly the replacement
            if !gone && k != 18 {
                check!(subsequence(&g, &m), "{what}: content that was not there");
            }
            if let Some(y) = keep {
                let want = if k == 23 { &m[5..] } else { &m[..] };
                check_eq!(flat(&y, "clone"), want, "clone of a queue whose chunk panicked");
                let _ = fused(cx, 0, || drop(y));
            }
            // the rest of its destructors may panic too
            if cx.rng.chance(1, 2) {
                let _ = fused(cx, f, || drop(x));
            } else {
                go_on(cx, ar, x, what);
            }
        }
    }
    check_eq!(bystander.as_slice(), &by_c[..], "value not involved in the panic");
    drop(by2);
    check_eq!(bystander.as_slice(), &by_c[..], "value not involved in the panic");
    let drops = tag.as_ref().map_or(0, |t| t.drops.load(SeqCst));
    check!(drops <= 1, "LIFETIME: external object destroyed {drops} times after its destructor panicked");
    let (_, _, many) = ar.ext_counts();
    check!(many == 0, "LIFETIME: {many} external object(s) destroyed more than once");
}
fn subsequence(g: &[u8], m: &[u8]) -> bool {
    let mut it = m.iter();
    g.iter().all(|x| it.any(|y| x == y))
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    let k = cx.rng.below(8);
    match k {
        0 | 1 => on_value(cx, &ar),
        2 | 3 => on_builder(cx, &ar),
        4 | 5 => on_queue(cx, &ar),
        _ => on_destroy(cx, &ar),
    }
    if k < 6 {
        ar.audit_exts();
    }
}

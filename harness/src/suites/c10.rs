//! Byte queue edit histories against a plain vector.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use std::collections::VecDeque;
use std::fmt::Write as _;

pub fn same(q: &ByteQueue<'_>, m: &[u8], what: &str) {
    check_eq!(q.len(), m.len(), "{what}: len");
    check_eq!(q.is_empty(), m.is_empty(), "{what}: is_empty");
    let (mut at, mut n) = (0, 0);
    for c in q.chunks() {
        check!(!c.is_empty(), "{what}: the queue yields an empty chunk");
        check!(m.len() - at >= c.len(), "{what}: chunks hold more bytes than the length says");
        check_eq!(c.as_slice(), &m[at..at + c.len()], "{what}: chunk {n} at byte {at}");
        at += c.len();
        n += 1;
    }
    check_eq!(at, m.len(), "{what}: bytes in chunks");
    check_eq!(q.chunk_len(), n, "{what}: chunk_len");
    check!(q.front().map(|c| c.as_slice().as_ptr()) == q.chunks().next().map(|c| c.as_slice().as_ptr()), "{what}: front is not the first chunk");
    check!(q.back().map(|c| c.as_slice().as_ptr()) == q.chunks().last().map(|c| c.as_slice().as_ptr()), "{what}: back is not the last chunk");
}

struct Q {
    q: ByteQueue<'static>,
    m: Vec<u8>,
}

fn rng(cx: &mut Ctx, n: usize) -> (usize, usize) {
    let a = cx.rng.below(n + 1);
    let b = cx.rng.range(a, n);
    match cx.rng.below(8) {
        0 => (0, b),
        1 => (a, n),
        2 => (0, n),
        3 => (a, a),
        _ => (a, b),
    }
}
/// position that falls on a chunk edge, or next to one
fn edge(cx: &mut Ctx, q: &ByteQueue<'_>) -> usize {
    let n = q.chunk_len();
    let k = cx.rng.below(n + 1);
    let e: usize = q.chunks().take(k).map(|c| c.len()).sum();
    match cx.rng.below(4) {
        0 => e.saturating_sub(1),
        1 => (e + 1).min(q.len()),
        _ => e,
    }
}
fn span(cx: &mut Ctx, q: &ByteQueue<'_>) -> (usize, usize) {
    if cx.rng.chance(1, 2) {
        let (a, b) = (edge(cx, q), edge(cx, q));
        (a.min(b), a.max(b))
    } else {
        rng(cx, q.len())
    }
}

fn part(cx: &mut Ctx) -> Vec<u8> {
    let n = if cx.rng.chance(1, 3) { cx.rng.below(4) } else { gen::small_len(&mut cx.rng) };
    gen::bytes_n(&mut cx.rng, n)
}

fn step(cx: &mut Ctx, ar: &Arena, x: &mut Q, spare: &mut Vec<Q>) {
    let n = x.m.len();
    let chunks = x.q.chunk_len() as u64;
    macro_rules! op {
        ($n:literal, $a:expr) => {{
            cx.ev($n, (n as u64) * 131 + ($a as u64));
            cx.mix(chunks);
            cx.note(|| format!("{}({}) on {n} byte(s) in {chunks} chunk(s)", $n, $a));
        }};
    }
    match cx.rng.below(30) {
        0..=3 => {
            let c = part(cx);
            op!("push_back", c.len());
            match cx.rng.below(5) {
                0 => x.q.push_back(ar.stat(&c)),
                1 => x.q.push_back(c.clone()),
                2 => x.q.push_back(SharedBytes::from_slice(&c)),
                3 => x.q.push_back(bytes::Bytes::from(c.clone())),
                _ => {
                    let d = gen::bd(cx, ar, &c);
                    x.q.push_back(d);
                }
            }
            x.m.extend_from_slice(&c);
            if !c.is_empty() {
                check_eq!(x.q.back().map(|d| d.as_slice()), Some(&c[..]), "back after push_back");
            }
        }
        4..=6 => {
            let c = part(cx);
            op!("push_front", c.len());
            let d = gen::bd(cx, ar, &c);
            x.q.push_front(d);
            if !c.is_empty() {
                check_eq!(x.q.front().map(|d| d.as_slice()), Some(&c[..]), "front after push_front");
            }
            let mut v = c;
            v.extend_from_slice(&x.m);
            x.m = v;
        }
        7 | 8 => {
            op!("pop_front", 0);
            let want = x.q.front().map(|d| d.as_slice().to_vec());
            let got = x.q.pop_front();
            check_eq!(got.as_ref().map(|d| d.as_slice().to_vec()), want, "pop_front yields the front chunk");
            check_eq!(got.is_none(), n == 0, "pop_front none exactly when empty");
            let l = got.map_or(0, |d| {
                check_eq!(d.as_slice(), &x.m[..d.len()], "pop_front content");
                d.len()
            });
            x.m.drain(..l);
        }
        9 | 10 => {
            op!("pop_back", 0);
            let want = x.q.back().map(|d| d.as_slice().to_vec());
            let got = x.q.pop_back();
            check_eq!(got.as_ref().map(|d| d.as_slice().to_vec()), want, "pop_back yields the back chunk");
            check_eq!(got.is_none(), n == 0, "pop_back none exactly when empty");
            let l = got.map_or(0, |d| {
                check_eq!(d.as_slice(), &x.m[n - d.len()..], "pop_back content");
                d.len()
            });
            x.m.truncate(n - l);
        }
        11 | 12 => {
            let o = match spare.pop() {
                Some(o) => o,
                None => {
                    let k = gen::len(&mut cx.rng);
                    let m = gen::bytes_n(&mut cx.rng, k.min(200));
                    Q { q: gen::q::mk_bq(cx, ar, &m), m }
                }
            };
            op!("append", o.m.len());
            let oc = o.q.chunk_len() as u64;
            cx.mix(oc);
            x.q.append(o.q);
            x.m.extend_from_slice(&o.m);
        }
        13 => {
            let (a, b) = span(cx, &x.q);
            op!("slice", a * 1009 + b);
            let s = match cx.rng.below(4) {
                0 if b > a => x.q.slice(a..=b - 1),
                1 if b == n => x.q.slice(a..),
                2 if a > 0 => x.q.slice((std::ops::Bound::Excluded(a - 1), std::ops::Bound::Excluded(b))),
                _ => x.q.slice(a..b),
            };
            same(&s, &x.m[a..b], "slice");
            if spare.len() < 3 {
                spare.push(Q { q: s, m: x.m[a..b].to_vec() });
            }
        }
        14 | 15 => {
            let at = if cx.rng.chance(1, 2) { edge(cx, &x.q) } else { cx.rng.below(n + 1) };
            op!("split_off", at);
            let t = x.q.split_off(at);
            let tm = x.m.split_off(at);
            same(&t, &tm, "split_off tail");
            if spare.len() < 3 {
                spare.push(Q { q: t, m: tm });
            }
        }
        16 | 17 => {
            let (a, b) = span(cx, &x.q);
            op!("drain", a * 1009 + b);
            let k = cx.rng.below(b - a + 2);
            {
                let mut d = x.q.drain(a..b);
                for j in 0..k {
                    check_eq!(d.next(), x.m[a..b].get(j).copied(), "drain yields");
                }
                check_eq!(d.len(), (b - a).saturating_sub(k), "drain remaining length");
            }
            x.m.drain(a..b);
        }
        18 | 19 => {
            let k = if cx.rng.chance(1, 2) { edge(cx, &x.q) } else { cx.rng.below(n + 1) };
            op!("consume", k);
            x.q.consume(k);
            x.m.drain(..k);
        }
        20 => {
            let stop = cx.rng.below(n + 2);
            op!("take_while", stop);
            let mut i = 0;
            let m = x.m.clone();
            let t = x.q.take_while(|b| {
                check!(m.get(i) == Some(&b), "take_while shows byte {b} at {i}");
                i += 1;
                i <= stop
            });
            let k = stop.min(n);
            same(&t, &x.m[..k], "take_while result");
            x.m.drain(..k);
        }
        21 | 22 => {
            let (a, b) = span(cx, &x.q);
            let c = part(cx);
            op!("replace_range", a * 1009 + b);
            let d = gen::bd(cx, ar, &c);
            if cx.rng.chance(1, 4) && b > a {
                x.q.replace_range(a..=b - 1, d);
            } else {
                x.q.replace_range(a..b, d);
            }
            x.m.splice(a..b, c);
        }
        23 => {
            op!("extend", 0);
            let t: Vec<String> = (0..cx.rng.below(4)).map(|_| { let k = gen::small_len(&mut cx.rng); gen::text_n(&mut cx.rng, k) }).collect();
            let flat: Vec<u8> = t.concat().into_bytes();
            match cx.rng.below(6) {
                0 => x.q.extend(t.iter().map(|s| ByteData::from(s.clone()))),
                1 => x.q.extend(t.iter().map(|s| ar.stat(s.as_bytes()))),
                2 => x.q.extend(t.iter().map(|s| s.clone().into_bytes())),
                3 => {
                    cx.count("extend_stringdata");
                    x.q.extend(t.iter().map(|s| StringData::from(s.clone())));
                }
                4 => {
                    cx.count("extend_str");
                    x.q.extend(t.iter().map(|s| ar.stat_str(s)));
                }
                _ => {
                    cx.count("extend_string");
                    x.q.extend(t.iter().cloned());
                }
            }
            x.m.extend(flat);
        }
        24 => {
            op!("clone", 0);
            let y = x.q.clone();
            same(&y, &x.m, "clone");
            check_eq!(y.chunk_len(), x.q.chunk_len(), "clone chunk count");
            if spare.len() < 3 && cx.rng.chance(1, 2) {
                spare.push(Q { q: std::mem::replace(&mut x.q, y), m: x.m.clone() });
            }
        }
        25 => {
            op!("write", 0);
            let k = gen::small_len(&mut cx.rng);
            let s = gen::text_n(&mut cx.rng, k);
            check!(write!(x.q, "{}{}", n, s).is_ok(), "formatted write failed");
            x.m.extend_from_slice(format!("{n}{s}").as_bytes());
        }
        26 => {
            op!("collect", 0);
            let q = std::mem::take(&mut x.q);
            x.q = match cx.rng.below(3) {
                0 => q.into_iter().collect(),
                1 => {
                    let v: Vec<_> = q.into_iter().rev().collect();
                    v.into_iter().rev().collect()
                }
                _ => {
                    let mut o = ByteQueue::with_item(gen::bd(cx, ar, b""));
                    same(&o, b"", "with_item(empty)");
                    o.extend(q);
                    o
                }
            };
        }
        27 => {
            op!("convert", 0);
            let q = std::mem::take(&mut x.q);
            x.q = match cx.rng.below(6) {
                0 => ByteQueue::from(ByteData::from(q)),
                1 => ByteQueue::from(Vec::from(q)),
                2 => ByteQueue::from(ByteData::from(SharedBytes::from(q))),
                3 => ByteQueue::from(bytes::Bytes::from(q)),
                4 => ByteQueue::from(std::borrow::Cow::<'static, [u8]>::Owned(Vec::from(q))),
                _ => {
                    let mut b = SharedBytesBuilder::new();
                    for c in &q {
                        b.extend_from_slice(c);
                    }
                    ByteQueue::with_item(ByteData::from(b))
                }
            };
        }
        28 => {
            // positions a vector rejects
            let big = *cx.rng.pick(&[n + 1, n + 2, n + 100, usize::MAX, usize::MAX - 1, usize::MAX - n, crate::core::p2(32), crate::core::p2(63)]);
            let a = cx.rng.below(n + 1);
            op!("reject", a);
            let what = match cx.rng.below(10) {
                0 => may_panic(|| drop(x.q.slice(a..big))).map(|_| "slice(a..big)"),
                1 => may_panic(|| drop(x.q.slice(big..))).map(|_| "slice(big..)"),
                2 => may_panic(|| drop(x.q.slice(..=big.max(n)))).map(|_| "slice(..=big)"),
                3 => may_panic(|| drop(x.q.split_off(big))).map(|_| "split_off(big)"),
                4 => may_panic(|| drop(x.q.drain(a..big))).map(|_| "drain(a..big)"),
                5 => may_panic(|| drop(x.q.drain(big..))).map(|_| "drain(big..)"),
                6 => may_panic(|| x.q.replace_range(a..big, ByteData::from_static(b"xyz"))).map(|_| "replace_range(a..big)"),
                7 if a < n => {
                    let (s, e) = (a + 1, a);
                    may_panic(|| drop(x.q.drain(s..e))).map(|_| "drain with start past end")
                }
                8 => may_panic(|| drop(x.q.slice((std::ops::Bound::Excluded(usize::MAX), std::ops::Bound::Unbounded)))).map(|_| "slice(Excluded(MAX)..)"),
                _ => may_panic(|| x.q.consume(big)).map(|_| "consume(big)"),
            };
            if let Some(w) = what {
                check!(false, "{w} accepted on a queue of {n} byte(s) (a={a}, big={big})");
            }
        }
        _ => {
            if let Some(mut o) = spare.pop() {
                op!("swap", o.m.len());
                std::mem::swap(x, &mut o);
                spare.push(o);
            } else {
                op!("new", 0);
                let c = part(cx);
                spare.push(Q { q: ByteQueue::from(ar.stat(&c)), m: c });
            }
        }
    }
}

/// pushes and pops only: the queue is also a deque of chunks
fn deque(cx: &mut Ctx) {
    let ar = Arena::new();
    let mut q = ByteQueue::new();
    let mut m: VecDeque<Vec<u8>> = VecDeque::new();
    let n = if !cfg!(miri) && cx.rng.chance(1, 60) { cx.rng.range(300, 2500) } else { cx.rng.range(20, 120) };
    let bias = cx.rng.range(1, 9);
    for _ in 0..n {
        let grow = cx.rng.below(10) < bias;
        let c = part(cx);
        match (grow, cx.rng.chance(1, 2)) {
            (true, true) => {
                q.push_back(gen::bd(cx, &ar, &c));
                if !c.is_empty() {
                    m.push_back(c);
                }
            }
            (true, false) => {
                q.push_front(gen::bd(cx, &ar, &c));
                if !c.is_empty() {
                    m.push_front(c);
                }
            }
            (false, true) => {
                check_eq!(q.pop_back().map(|d| d.as_slice().to_vec()), m.pop_back(), "pop_back");
            }
            (false, false) => {
                check_eq!(q.pop_front().map(|d| d.as_slice().to_vec()), m.pop_front(), "pop_front");
            }
        }
        cx.ev("deque_op", m.len() as u64);
        check_eq!(q.chunk_len(), m.len(), "chunk_len");
        check_eq!(q.len(), m.iter().map(Vec::len).sum::<usize>(), "len");
        if n < 200 || cx.rng.chance(1, 40) {
            check!(q.chunks().map(|c| c.as_slice()).eq(m.iter().map(|c| &c[..])), "chunks of a queue that was only pushed and popped");
        }
    }
    check!(q.into_iter().map(|c| c.as_slice().to_vec()).eq(m), "into_iter of a queue that was only pushed and popped");
}

pub fn run(cx: &mut Ctx) {
    if cx.rng.chance(1, 6) {
        return deque(cx);
    }
    let ar = Arena::new();
    {
        let mut spare: Vec<Q> = Vec::new();
        let k = gen::len(&mut cx.rng);
        let m = gen::bytes_n(&mut cx.rng, k.min(400));
        let mut x = Q { q: gen::q::mk_bq(cx, &ar, &m), m };
        same(&x.q, &x.m, "new");
        let n = cx.rng.range(8, 40);
        for _ in 0..n {
            step(cx, &ar, &mut x, &mut spare);
            same(&x.q, &x.m, "after operation");
            for s in &spare {
                same(&s.q, &s.m, "other queue");
            }
            if x.m.len() > 3000 {
                let keep = cx.rng.below(200);
                x.q.consume(x.m.len() - keep);
                let d = x.m.len() - keep;
                x.m.drain(..d);
                same(&x.q, &x.m, "after large consume");
            }
        }
        check!(x.q.bytes().eq(x.m.iter().copied()), "bytes() at the end");
    }
    ar.audit_exts();
}

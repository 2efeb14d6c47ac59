//! Every iterator of the library, driven by a random script, against a cursor over the plain content.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq)]
enum Size {
    Bounds,
    Exact,
}

fn hint<T, I: Iterator<Item = T>>(it: &I, left: usize, size: Size, what: &str) {
    let (lo, hi) = it.size_hint();
    check!(lo <= left, "{what}: size_hint lower bound {lo} with {left} element(s) left");
    check!(hi.map_or(true, |h| h >= left), "{what}: size_hint upper bound {hi:?} with {left} element(s) left");
    if size == Size::Exact {
        check!(lo == left && hi == Some(left), "{what}: size_hint ({lo}, {hi:?}) is not exactly {left}");
    }
}

fn many(cx: &mut Ctx, left: usize) -> usize {
    match cx.rng.below(10) {
        0 => 0,
        1 => left,
        2 => left.saturating_sub(1),
        3 => left + 1,
        4 if cx.rng.chance(1, 4) => *cx.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, crate::core::p2(32)]),
        5 | 6 => cx.rng.below(4),
        _ => cx.rng.below(left + 1),
    }
}

/// One front-end step; false when the iterator has been used up by value.
fn drive<T: PartialEq + Debug, I: Iterator<Item = T>>(cx: &mut Ctx, mut it: I, m: &[T], size: Size, what: &'static str) {
    let mut at = 0;
    hint(&it, m.len(), size, what);
    let steps = cx.rng.range(1, 12);
    cx.ev(what, (m.len() * 16 + steps) as u64);
    for _ in 0..steps {
        let left = m.len() - at;
        match cx.rng.below(8) {
            0..=3 => {
                check_eq!(it.next(), m.get(at), as_ref, "{what}: next at {at} of {}", m.len());
                at = (at + 1).min(m.len());
            }
            4 | 5 => {
                let n = many(cx, left);
                cx.mix(n as u64);
                let want = if n < left { Some(&m[at + n]) } else { None };
                check_eq!(it.nth(n), want, as_ref, "{what}: nth({n}) at {at} of {}", m.len());
                at = if n < left { at + n + 1 } else { m.len() };
            }
            6 => {
                let n = many(cx, left).min(1 << 20);
                let mut k = 0;
                for x in it.by_ref().take(n) {
                    check!(at < m.len(), "{what}: more elements than the content has");
                    check_eq!(x, m[at], "{what}: element {at} of {}", m.len());
                    at += 1;
                    k += 1;
                }
                check_eq!(k, n.min(left), "{what}: by_ref().take({n}) with {left} left");
            }
            _ => {
                let want = at + cx.rng.below(left + 1);
                if want < m.len() {
                    let mut i = at;
                    let p = it.position(|x| {
                        let r = i == want;
                        if i >= m.len() || x != m[i] {
                            crate::core::violation(format!("{what}: position() shows a wrong element at {i}"));
                        }
                        i += 1;
                        r
                    });
                    check_eq!(p, Some(want - at), "{what}: position()");
                    at = want + 1;
                }
            }
        }
        hint(&it, m.len() - at, size, what);
    }
    let left = m.len() - at;
    cx.mix(left as u64);
    match cx.rng.below(6) {
        0 => check_eq!(it.last(), if left > 0 { m.last() } else { None }, as_ref, "{what}: last with {left} left"),
        1 => check_eq!(it.count(), left, "{what}: count"),
        2 => {
            let v = it.fold(at, |i, x| {
                if i >= m.len() || x != m[i] {
                    crate::core::violation(format!("{what}: fold shows a wrong element at {i}"));
                }
                i + 1
            });
            check_eq!(v, m.len(), "{what}: fold");
        }
        3 => {}
        _ => {
            for i in at..m.len() {
                check_eq!(it.next(), Some(&m[i]), as_ref, "{what}: next at {i} of {}", m.len());
                if i % 7 == 0 {
                    hint(&it, m.len() - i - 1, size, what);
                }
            }
            for k in 0..3 {
                check!(it.next().is_none(), "{what}: an exhausted iterator yielded again (attempt {k})");
                hint(&it, 0, size, what);
            }
            check!(it.nth(0).is_none(), "{what}: nth on an exhausted iterator");
            check!(it.nth(usize::MAX).is_none(), "{what}: nth(MAX) on an exhausted iterator");
            check!(it.next().is_none(), "{what}: an exhausted iterator yielded again");
            check_eq!(it.count(), 0, "{what}: count of an exhausted iterator");
        }
    }
}

fn drive_de<T: PartialEq + Debug, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(cx: &mut Ctx, mut it: I, m: &[T], what: &'static str) {
    let (mut a, mut b) = (0, m.len());
    let steps = cx.rng.range(1, 14);
    cx.ev(what, (m.len() * 16 + steps) as u64);
    for _ in 0..steps {
        let left = b - a;
        check_eq!(it.len(), left, "{what}: len");
        match cx.rng.below(6) {
            0 | 1 => {
                check_eq!(it.next(), if left > 0 { Some(&m[a]) } else { None }, as_ref, "{what}: next");
                a = (a + 1).min(b);
            }
            2 | 3 => {
                check_eq!(it.next_back(), if left > 0 { Some(&m[b - 1]) } else { None }, as_ref, "{what}: next_back");
                b = b.saturating_sub(1).max(a);
            }
            4 => {
                let n = many(cx, left).min(left + 5);
                check_eq!(it.nth(n), if n < left { Some(&m[a + n]) } else { None }, as_ref, "{what}: nth({n})");
                a = (a + n + 1).min(b);
            }
            _ => {
                let n = many(cx, left).min(left + 5);
                check_eq!(it.nth_back(n), if n < left { Some(&m[b - 1 - n]) } else { None }, as_ref, "{what}: nth_back({n})");
                b = if n < left { b - n - 1 } else { a };
            }
        }
    }
    let left = b - a;
    match cx.rng.below(5) {
        0 => check_eq!(it.count(), left, "{what}: count"),
        1 => check_eq!(it.last(), if left > 0 { Some(&m[b - 1]) } else { None }, as_ref, "{what}: last"),
        2 => {
            let v: Vec<T> = it.rev().collect();
            check!(v.iter().eq(m[a..b].iter().rev()), "{what}: rev() of {left} element(s)");
        }
        3 => {}
        _ => {
            let v: Vec<T> = it.by_ref().collect();
            check!(v.iter().eq(m[a..b].iter()), "{what}: collect of {left} element(s)");
            check!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "{what}: an exhausted iterator yielded again");
        }
    }
}

/// inherent skip/take of the byte iterators, applied in the middle of an iteration
macro_rules! skip_take {
    ($cx:expr, $it:expr, $m:expr, $what:literal, $take:ident) => {{
        let mut it = $it;
        let mut m: &[u8] = $m;
        for _ in 0..$cx.rng.below(4) {
            match $cx.rng.below(3) {
                0 => {
                    let n = many($cx, m.len());
                    $cx.ev(concat!($what, ".skip"), n as u64);
                    it = it.skip(n);
                    m = &m[n.min(m.len())..];
                }
                1 => {
                    let n = many($cx, m.len());
                    $cx.ev(concat!($what, ".take"), n as u64);
                    it = it.$take(n);
                    m = &m[..n.min(m.len())];
                }
                _ => {
                    check_eq!(it.next(), m.first().copied(), concat!($what, ": next between skip and take"));
                    m = m.get(1..).unwrap_or(&[]);
                }
            }
            check_eq!(it.len(), m.len(), concat!($what, ": len after skip/take"));
            check_eq!(it.is_empty(), m.is_empty(), concat!($what, ": is_empty after skip/take"));
        }
        (it, m)
    }};
}

fn queue(cx: &mut Ctx, ar: &Arena) {
    let k = gen::len(&mut cx.rng).min(400);
    let m = gen::bytes_n(&mut cx.rng, k);
    let q = gen::q::mk_bq(cx, ar, &m);
    cx.note(|| format!("byte queue of {} byte(s) in {} chunk(s): {:?}", m.len(), q.chunk_len(), &m));
    byte_queue(cx, q, m);
}

fn byte_queue(cx: &mut Ctx, mut q: ByteQueue<'static>, mut m: Vec<u8>) {
    for _ in 0..cx.rng.range(1, 4) {
        let parts: Vec<Vec<u8>> = {
            // chunk boundaries by the borrowing iterator itself; their concatenation is checked first
            let p: Vec<Vec<u8>> = (&q).into_iter().map(|c| c.as_slice().to_vec()).collect();
            check_eq!(p.concat(), m, "chunks concatenated");
            check!(p.iter().all(|c| !c.is_empty()), "an empty chunk is yielded");
            p
        };
        let refs: Vec<&[u8]> = parts.iter().map(|c| &c[..]).collect();
        match cx.rng.below(12) {
            0 | 1 => {
                let (it, m) = skip_take!(cx, q.bytes(), &m, "bytes", take);
                drive(cx, it, m, Size::Exact, "queue.bytes");
            }
            2 | 3 => {
                let (it, m) = skip_take!(cx, q.clone().into_bytes(), &m, "into_bytes", take);
                drive(cx, it, m, Size::Exact, "queue.into_bytes");
            }
            4 => drive(cx, q.chunks().map(|c| c.as_slice()), &refs, Size::Exact, "queue.chunks"),
            5 => {
                // inherent skip of the chunk iterator
                let n = many(cx, refs.len());
                let k = cx.rng.below(3);
                let mut it = q.chunks();
                for i in 0..k {
                    check_eq!(it.next().map(|c| c.as_slice()), refs.get(i).copied(), "chunks: next before skip");
                }
                let it = if cx.rng.chance(1, 2) { it.skip(n) } else { it.skip_mut(n); it };
                let from = k.min(refs.len()).saturating_add(n).min(refs.len());
                cx.ev("chunks.skip", n as u64);
                check_eq!(it.len(), refs.len() - from, "chunks: len after skip({n})");
                drive(cx, it.map(|c| c.as_slice()), &refs[from..], Size::Exact, "queue.chunks.skip");
            }
            6 => {
                // the native nth/last/count of the chunk iterator
                let n = many(cx, refs.len());
                let mut it = q.iter();
                check_eq!(it.nth(n).map(|c| c.as_slice()), refs.get(n).copied(), "chunks: nth({n})");
                let rest = refs.len().saturating_sub(n.saturating_add(1));
                check_eq!(it.len(), rest, "chunks: len after nth({n})");
                let n2 = cx.rng.below(3);
                check_eq!(it.nth(n2).map(|c| c.as_slice()), refs.get(n.saturating_add(1 + n2)).copied(), "chunks: second nth");
                let rest = refs.len().saturating_sub(n.saturating_add(2 + n2));
                if cx.rng.chance(1, 2) {
                    check_eq!(it.count(), rest, "chunks: count");
                } else {
                    check_eq!(it.last().map(|c| c.as_slice()), if rest > 0 { refs.last().copied() } else { None }, "chunks: last");
                }
                cx.ev("chunks.native", n as u64);
            }
            7 => {
                let own: Vec<ByteData<'static>> = parts.iter().map(|p| ByteData::from(p.clone())).collect();
                let c = q.clone();
                match cx.rng.below(3) {
                    0 => drive_de(cx, c.into_iter(), &own, "queue.into_iter"),
                    1 => drive_de(cx, IntoIterator::into_iter(c), &own, "queue.IntoIterator"),
                    _ => drive(cx, c.into_iter(), &own, Size::Exact, "queue.into_iter.front"),
                }
            }
            8..=10 => {
                let n = m.len();
                let a = cx.rng.below(n + 1);
                let b = cx.rng.range(a, n);
                let (a, b) = match cx.rng.below(6) {
                    0 => (0, b),
                    1 => (a, n),
                    2 => (0, n),
                    _ => (a, b),
                };
                cx.note(|| format!("drain {a}..{b} of {n}"));
                let d = q.drain(a..b);
                check_eq!(ExactSizeIterator::len(&d), b - a, "drain: len");
                drive(cx, d, &m[a..b], Size::Exact, "queue.drain");
                m.drain(a..b);
                super::c10::same(&q, &m, "after drain");
            }
            _ => {
                let mut i = 0;
                let r = q.bytes().try_fold(0u64, |s, b| {
                    check_eq!(Some(&b), m.get(i), "try_fold element {i}");
                    i += 1;
                    if i > 30 { Err(s) } else { Ok(s + 1) }
                });
                check_eq!(r.is_err(), m.len() > 30, "try_fold");
                cx.ev("try_fold", i as u64);
            }
        }
    }
    super::c10::same(&q, &m, "after iterating");
}

fn str_queue(cx: &mut Ctx, ar: &Arena) {
    let k = gen::len(&mut cx.rng).min(300);
    let m = gen::text_n(&mut cx.rng, k);
    let mut q = gen::q::mk_sq(cx, ar, &m);
    let mut m = m;
    cx.note(|| format!("string queue {m:?} in {} chunk(s)", q.chunk_len()));
    for _ in 0..cx.rng.range(1, 4) {
        let parts: Vec<String> = q.chunks().map(|c| c.as_str().to_string()).collect();
        check_eq!(parts.concat(), m, "string chunks concatenated");
        let refs: Vec<&str> = parts.iter().map(|c| &c[..]).collect();
        let chars: Vec<char> = m.chars().collect();
        let idx: Vec<(usize, char)> = m.char_indices().collect();
        match cx.rng.below(12) {
            0 => drive(cx, q.chars(), &chars, Size::Bounds, "sq.chars"),
            1 => drive(cx, q.clone().into_chars(), &chars, Size::Bounds, "sq.into_chars"),
            2 => drive(cx, q.chars_indecies(), &idx, Size::Bounds, "sq.char_indices"),
            3 => {
                let (it, m) = skip_take!(cx, q.bytes(), m.as_bytes(), "sq.bytes", take);
                drive(cx, it, m, Size::Exact, "sq.bytes");
            }
            4 => {
                let (it, m) = skip_take!(cx, q.clone().into_bytes(), m.as_bytes(), "sq.into_bytes", take);
                drive(cx, it, m, Size::Exact, "sq.into_bytes");
            }
            5 => {
                let b: Vec<&[u8]> = refs.iter().map(|s| s.as_bytes()).collect();
                drive(cx, q.byte_chunks().map(|c| c.as_slice()), &b, Size::Exact, "sq.byte_chunks");
            }
            6 => {
                let mut own: Vec<StringData<'static>> = parts.iter().map(|p| StringData::from(p.clone())).collect();
                let r: Vec<&StringData<'static>> = own.iter().collect();
                drive(cx, q.chunks(), &r, Size::Exact, "sq.chunks");
                drop(r);
                drive_de(cx, q.clone().into_iter(), &own, "sq.into_iter");
                own.clear();
            }
            7..=9 => {
                let pos: Vec<usize> = m.char_indices().map(|(i, _)| i).chain([m.len()]).collect();
                let x = *cx.rng.pick(&pos);
                let y = *cx.rng.pick(&pos);
                let (a, b) = (x.min(y), x.max(y));
                let sub: Vec<char> = m[a..b].chars().collect();
                cx.note(|| format!("drain {a}..{b}"));
                drive(cx, q.drain(a..b), &sub, Size::Bounds, "sq.drain");
                m.replace_range(a..b, "");
                check_eq!(q.len(), m.len(), "string queue length after drain");
                check!(q == m.as_str(), "string queue content after drain");
            }
            _ => {
                let n = many(cx, refs.len());
                let mut it = q.chunks();
                check_eq!(it.nth(n).map(|c| c.as_str()), refs.get(n).copied(), "sq.chunks: nth({n})");
                check_eq!(it.len(), refs.len().saturating_sub(n.saturating_add(1)), "sq.chunks: len");
                check_eq!(it.last().map(|c| c.as_str()), if n.saturating_add(1) < refs.len() { refs.last().copied() } else { None }, "sq.chunks: last");
                cx.ev("sq.chunks.native", n as u64);
            }
        }
    }
    check!(q.chars().eq(m.chars()), "string queue characters at the end");
    let _: StringQueue<'static> = q;
}

fn single(cx: &mut Ctx, ar: &Arena) {
    let k = gen::len(&mut cx.rng).min(300);
    let t = gen::text_n(&mut cx.rng, k);
    match cx.rng.below(5) {
        0 | 1 => {
            let b = gen::bytes_n(&mut cx.rng, k);
            let d = gen::bd(cx, ar, &b);
            if cx.rng.chance(1, 3) {
                // consuming a clone byte by byte leaves the original alone
                drive(cx, d.clone(), &b, Size::Bounds, "ByteData as iterator");
                check_eq!(d.as_slice(), &b[..], "original after iterating a clone");
            } else {
                drive(cx, d, &b, Size::Bounds, "ByteData as iterator");
            }
        }
        2 => {
            let d = gen::bd(cx, ar, t.as_bytes());
            drive(cx, d.as_slice().iter().copied(), t.as_bytes(), Size::Exact, "ByteData slice");
        }
        _ => {
            let d = gen::sd(cx, ar, &t);
            let chars: Vec<char> = t.chars().collect();
            match cx.rng.below(3) {
                0 => drive(cx, d.iter(), &chars, Size::Bounds, "StringData::iter"),
                1 => drive(cx, IntoIterator::into_iter(&d), &chars, Size::Bounds, "&StringData"),
                _ => drive(cx, d, &chars, Size::Bounds, "StringData as iterator"),
            }
        }
    }
}

/// a drain abandoned by a panic still removes exactly its range
fn drain_panic(cx: &mut Ctx, ar: &Arena) {
    let k = gen::len(&mut cx.rng).min(200);
    let mut m = gen::bytes_n(&mut cx.rng, k);
    let mut q = gen::q::mk_bq(cx, ar, &m);
    let a = cx.rng.below(k + 1);
    let b = cx.rng.range(a, k);
    let stop = cx.rng.below(b - a + 1);
    cx.ev("drain_panic", (a * 7 + b) as u64);
    let r = may_panic(|| {
        for (i, _) in q.drain(a..b).enumerate() {
            if i == stop {
                panic!("user stops");
            }
        }
    });
    check_eq!(r.is_none(), stop < b - a, "panic inside a drain loop");
    m.drain(a..b);
    super::c10::same(&q, &m, "after a drain abandoned by a panic");
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(10) {
        0..=4 => queue(cx, &ar),
        5..=7 => str_queue(cx, &ar),
        8 => single(cx, &ar),
        _ => drain_panic(cx, &ar),
    }
    ar.audit_exts();
}

//! Sharing: results of sharing operations point into the original storage and no copy is allocated.
use crate::core::Ctx;
use crate::gen::{self, Arena, ExtHeap};
use crate::monalloc as ma;
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use bytes::{Buf, Bytes};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

/// Runs `f`; the largest single allocation it makes must stay below the size of the content.
fn cheap<R>(n: usize, what: &str, f: impl FnOnce() -> R) -> R {
    let l = ma::LARGEST.swap(0, Relaxed);
    let r = f();
    let big = ma::LARGEST.swap(l, Relaxed);
    // bookkeeping blocks of a few hundred bytes are not copies
    check!(!ma::ACTIVE || n < 2000 || big < n, "{what} allocated {big} bytes at once for a value of {n} bytes that is to be shared");
    r
}
fn free<R>(what: &str, f: impl FnOnce() -> R) -> R {
    let a = ma::ALLOCS.load(Relaxed);
    let r = f();
    let b = ma::ALLOCS.load(Relaxed);
    check!(!ma::ACTIVE || a == b, "{what} allocated {} time(s)", b - a);
    r
}

/// `p` views `base[a..b]`; nothing is promised for up to 14 bytes
fn at(p: &[u8], base: usize, a: usize, b: usize, what: &str) {
    check_eq!(p.len(), b - a, "{what}: length");
    if b - a > 14 {
        check!(p.as_ptr() as usize == base + a, "{what}: {a}..{b} does not point at the original storage");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Static,
    Borrowed,
    Shared,
    ExtVec,
    ExtBytes,
    Ext,
}

fn source(cx: &mut Ctx, ar: &Arena, c: &[u8]) -> (ByteData<'static>, usize, Kind) {
    let k = cx.rng.below(10);
    let (d, p, kind) = match k {
        0 => {
            let p = ar.stat(c);
            (ByteData::from_static(p), p.as_ptr(), Kind::Static)
        }
        1 => {
            let p = ar.stat(c);
            (ByteData::from_borrowed(p), p.as_ptr(), Kind::Borrowed)
        }
        2 | 3 => {
            let s = SharedBytes::from_slice_aligned(c, 1 << cx.rng.below(13));
            let p = s.as_slice().as_ptr();
            (if k == 2 { ByteData::from_shared(s) } else { ByteData::from(s) }, p, Kind::Shared)
        }
        4 | 5 => {
            let mut v = Vec::with_capacity(c.len() + cx.rng.below(3) * 16);
            v.extend_from_slice(c);
            let p = v.as_ptr();
            (if k == 4 { ByteData::from_owned(v) } else { ByteData::from_external(v) }, p, Kind::ExtVec)
        }
        6 => {
            let v: Box<[u8]> = c.into();
            let p = v.as_ptr();
            (ByteData::from_external(v), p, Kind::Ext)
        }
        7 => {
            let v: Arc<[u8]> = c.into();
            let p = v.as_ptr();
            (ByteData::from_external(v), p, Kind::Ext)
        }
        8 => {
            let data = c.to_vec();
            let p = data.as_ptr();
            (ByteData::from_external(ExtHeap { data, tag: ar.tag() }), p, Kind::Ext)
        }
        _ => {
            let b = Bytes::from(c.to_vec());
            let p = b.as_ptr();
            (ByteData::from_external(b), p, Kind::ExtBytes)
        }
    };
    cx.ev("source", k as u64);
    at(d.as_slice(), p as usize, 0, c.len(), "wrapping a buffer");
    (d, p as usize, kind)
}

fn size(cx: &mut Ctx) -> usize {
    match cx.rng.below(6) {
        0 => cx.rng.range(15, 18),
        1 => cx.rng.range(15, 60),
        2 => cx.rng.range(60, 600),
        _ => cx.rng.range(2000, 5000),
    }
}
fn span(cx: &mut Ctx, n: usize) -> (usize, usize) {
    let (a, b) = match cx.rng.below(6) {
        0 => (0, n),
        1 => (1, n),
        2 => (0, n.saturating_sub(1)),
        3 if n > 15 => {
            let a = cx.rng.below(n - 15);
            (a, a + 15)
        }
        _ => {
            let a = cx.rng.below(n + 1);
            (a, cx.rng.range(a, n))
        }
    };
    (a.min(n), b.max(a.min(n)))
}

/// A chain of sharing operations on one value.
fn chain(cx: &mut Ctx, ar: &Arena) {
    let n = size(cx);
    let text = cx.rng.chance(1, 2);
    let c = if text { (0..n).map(|i| if i % 13 == 7 { b'\n' } else { b'a' + (i % 26) as u8 }).collect::<Vec<u8>>() } else { gen::bytes_n(&mut cx.rng, n) };
    let (d0, base, mut kind) = source(cx, ar, &c);
    cx.note(|| format!("{kind:?} value of {n} byte(s)"));
    let mut keep: Vec<ByteData<'static>> = Vec::new();
    let (mut d, mut a, mut b) = (d0, 0usize, n);
    for _ in 0..cx.rng.range(1, 6) {
        let m = b - a;
        if m <= 14 {
            break;
        }
        let (x, y) = span(cx, m);
        let op = cx.rng.below(26);
        cx.ev("op", op as u64);
        cx.mix((x * 8192 + y) as u64);
        cx.note(|| format!("op {op} on {a}..{b} with {x}..{y}"));
        macro_rules! ck {
            ($v:expr, $lo:expr, $hi:expr, $w:literal) => {
                at($v, base, $lo, $hi, $w)
            };
        }
        match op {
            0 => {
                let e = cheap(m, "clone", || d.clone());
                ck!(e.as_slice(), a, b, "clone");
                keep.push(e);
            }
            1 => {
                let e = cheap(m, "sliced", || d.sliced(x..y));
                ck!(e.as_slice(), a + x, a + y, "sliced");
                keep.push(e);
            }
            2 => {
                d = cheap(m, "into_sliced", || d.into_sliced(x..y));
                (a, b) = (a + x, a + y);
                ck!(d.as_slice(), a, b, "into_sliced");
            }
            3 => {
                cheap(m, "make_sliced", || d.make_sliced(x..y));
                (a, b) = (a + x, a + y);
                ck!(d.as_slice(), a, b, "make_sliced");
            }
            4 => {
                let t = cheap(m, "take_bytes", || d.take_bytes(x));
                ck!(t.as_slice(), a, a + x, "taken prefix");
                a += x;
                ck!(d.as_slice(), a, b, "rest after take_bytes");
                keep.push(t);
            }
            5 => {
                let (l, r) = cheap(m, "split_at", || d.split_at(x));
                ck!(l.as_slice(), a, a + x, "left half");
                ck!(r.as_slice(), a + x, b, "right half");
                keep.push(l);
                d = r;
                a += x;
            }
            6 => {
                let stop = x;
                let mut k = 0;
                let t = cheap(m, "take_while", || {
                    ByteData::take_while(&mut d, |_| {
                        k += 1;
                        k <= stop
                    })
                });
                ck!(t.as_slice(), a, a + stop, "take_while");
                a += stop;
                ck!(d.as_slice(), a, b, "rest after take_while");
                keep.push(t);
            }
            7 => {
                let needle = c[a + x..(a + y).min(a + x + 3)].to_vec();
                let pos = if needle.is_empty() { None } else { c[a..b].windows(needle.len()).position(|w| w == needle) };
                match cheap(m, "split_once_on", || d.split_once_on(&needle)) {
                    Ok((l, r)) => {
                        if let Some(p) = pos {
                            ck!(l.as_slice(), a, a + p, "first part");
                            ck!(r.as_slice(), a + p, b, "second part");
                            a += p;
                        } else {
                            a += l.len();
                        }
                        keep.push(l);
                        d = r;
                    }
                    Err(e) => d = e,
                }
            }
            8 => {
                let needle = [c[a + m / 2]];
                let e = d.clone();
                let mut p = a;
                let mut it = cheap(m, "split_on", || e.split_on(&needle));
                while let Some(piece) = cheap(m, "next piece", || it.next()) {
                    ck!(piece.as_slice(), p, p + piece.len(), "piece of a split");
                    p += piece.len() + 1;
                    if keep.len() < 20 {
                        keep.push(piece);
                    }
                }
            }
            9 if kind != Kind::Borrowed => {
                d = cheap(m, "into_shared", || d.into_shared());
                ck!(d.as_slice(), a, b, "into_shared");
            }
            10 if kind != Kind::Borrowed => {
                d = cheap(m, "into_shared_range", || d.into_shared_range(x..y));
                (a, b) = (a + x, a + y);
                ck!(d.as_slice(), a, b, "into_shared_range");
            }
            11 if text => {
                let Ok(s) = StringData::try_from_bytedata(d.clone()) else { unreachable!() };
                ck!(s.as_bytes(), a, b, "StringData of a ByteData");
                let t = cheap(m, "StringData::sliced", || s.sliced(x..y));
                ck!(t.as_bytes(), a + x, a + y, "StringData::sliced");
                let (l, r) = cheap(m, "StringData::split_at", || s.clone().split_at(x));
                ck!(l.as_bytes(), a, a + x, "left half of a text");
                ck!(r.as_bytes(), a + x, b, "right half of a text");
                let mut s2 = s.clone();
                let line = cheap(m, "take_line", || s2.take_line());
                ck!(line.as_bytes(), a, a + line.len(), "taken line");
                ck!(s2.as_bytes(), a + line.len(), b, "rest after take_line");
                let tr = s.trim();
                let off = s.len() - s.as_str().trim_start().len();
                ck!(tr.as_bytes(), a + off, a + off + s.as_str().trim().len(), "trimmed text");
                if kind == Kind::Borrowed {
                    let st = cheap(m, "statically borrowed text", || s.clone().statically_borrowed().into_shared());
                    ck!(st.as_bytes(), a, b, "statically borrowed text");
                }
                let back = cheap(m, "into_bytedata", || s.into_bytedata());
                ck!(back.as_slice(), a, b, "into_bytedata");
                d = back;
            }
            12 if kind == Kind::Shared => {
                let s = cheap(m, "SharedBytes from ByteData", || SharedBytes::from(d.clone()));
                ck!(s.as_slice(), a, b, "SharedBytes from ByteData");
                let t = cheap(m, "SharedBytes::sliced", || s.sliced(x, y - x));
                ck!(t.as_slice(), a + x, a + y, "SharedBytes::sliced");
                let u = cheap(m, "SharedBytes::into_sliced_range", || s.clone().into_sliced_range(x..y));
                ck!(u.as_slice(), a + x, a + y, "SharedBytes::into_sliced_range");
                let e = cheap(m, "ByteData from SharedBytes", || ByteData::from(s));
                ck!(e.as_slice(), a, b, "ByteData from SharedBytes");
                keep.push(e);
            }
            13 | 14 if matches!(kind, Kind::Shared | Kind::Static | Kind::ExtBytes) => {
                let z = cheap(m, "Bytes from ByteData", || Bytes::from(d.clone()));
                ck!(&z, a, b, "Bytes from ByteData");
                let w = cheap(m, "slice of converted Bytes", || z.slice(x..y));
                ck!(&w, a + x, a + y, "slice of converted Bytes");
                let mut z2 = cheap(m, "clone of converted Bytes", || z.clone());
                ck!(&z2, a, b, "clone of converted Bytes");
                let h = cheap(m, "split of converted Bytes", || z2.split_to(x));
                ck!(&h, a, a + x, "split_to of converted Bytes");
                ck!(&z2, a + x, b, "rest of converted Bytes");
                let e = cheap(m, "wrapping Bytes", || ByteData::from_external(z));
                ck!(e.as_slice(), a, b, "Bytes wrapped as external");
                keep.push(e);
            }
            15 | 16 => {
                // queued values keep their storage
                let mut q = ByteQueue::new();
                cheap(m, "queueing", || {
                    q.push_back(d.clone());
                    q.push_front(d.clone());
                    q.push_back(d.sliced(x..y));
                });
                let ch: Vec<_> = q.chunks().map(|c| (c.as_slice().as_ptr() as usize, c.len())).collect();
                check!(ch[0] == (base + a, m) && ch[1] == (base + a, m), "queued values were copied");
                if y - x > 14 {
                    check_eq!(ch[2], (base + a + x, y - x), "queued slice");
                }
                let s = cheap(m, "ByteQueue::slice", || q.slice(x..m + y));
                let mut want = vec![(a + x, b), (a, a + y)];
                want.retain(|(l, r)| l < r);
                for (c, (l, r)) in s.chunks().zip(&want) {
                    ck!(c.as_slice(), *l, *r, "chunk of a queue slice");
                }
                check_eq!(s.chunk_len(), want.len(), "chunks of a queue slice");
                let r = cheap(m, "split_off", || q.split_off(m + x));
                let first: Vec<_> = q.chunks().collect();
                ck!(first[0].as_slice(), a, b, "chunk before the split");
                if x > 0 {
                    ck!(first[1].as_slice(), a, a + x, "chunk cut by the split");
                }
                if x < m {
                    let f = r.front().expect("rest");
                    ck!(f.as_slice(), a + x, b, "chunk after the split");
                }
                let mut q2 = ByteQueue::with_item(d.clone());
                cheap(m, "append", || q2.append(r));
                let p = q2.pop_front().expect("chunk");
                ck!(p.as_slice(), a, b, "popped chunk");
                let t = cheap(m, "queue take_while", || {
                    let mut k = 0;
                    q.take_while(|_| {
                        k += 1;
                        k <= x
                    })
                });
                if x > 0 {
                    ck!(t.front().expect("taken").as_slice(), a, a + x.min(m), "queue take_while");
                }
                keep.push(p);
            }
            17 if text => {
                let Ok(s) = StringData::try_from_bytedata(d.clone()) else { unreachable!() };
                let mut q = StringQueue::with_item(s.clone());
                cheap(m, "queueing text", || q.push_back(s.clone()));
                let f: Vec<_> = q.chunks().map(|c| c.as_ptr() as usize).collect();
                check_eq!(f, vec![base + a, base + a], "queued texts");
                let z = cheap(m, "StringQueue::slice", || q.slice(x..m + y));
                if x < m {
                    ck!(z.front().expect("chunk").as_bytes(), a + x, b, "chunk of a text queue slice");
                }
                let one: StringData<'static> = cheap(m, "StringData of a one-chunk queue", || StringQueue::with_item(s).into());
                ck!(one.as_bytes(), a, b, "StringData of a one-chunk queue");
            }
            18 => {
                let e: ByteData<'static> = cheap(m, "ByteData of a one-chunk queue", || ByteQueue::with_item(d.clone()).into());
                ck!(e.as_slice(), a, b, "ByteData of a one-chunk queue");
                keep.push(e);
            }
            19 => {
                let mut e = d.clone();
                if kind == Kind::Shared || kind == Kind::Static {
                    let z = cheap(m, "copy_to_bytes", || e.copy_to_bytes(x));
                    ck!(&z, a, a + x, "copy_to_bytes");
                } else {
                    e.advance(x);
                }
                ck!(e.as_slice(), a + x, b, "rest after advancing");
            }
            20 => {
                use nom::{InputTake, Slice};
                let e = cheap(m, "nom take", || InputTake::take(&d, x));
                ck!(e.as_slice(), a, a + x, "nom take");
                let (s, p) = cheap(m, "nom take_split", || d.take_split(x));
                ck!(p.as_slice(), a, a + x, "nom take_split prefix");
                ck!(s.as_slice(), a + x, b, "nom take_split suffix");
                let e = cheap(m, "nom slice", || d.slice(x..y));
                ck!(e.as_slice(), a + x, a + y, "nom slice");
            }
            21 => {
                // from here on a borrowed value counts as static
                d = cheap(m, "statically_borrowed", || d.statically_borrowed());
                ck!(d.as_slice(), a, b, "statically_borrowed");
                if kind == Kind::Borrowed {
                    kind = Kind::Static;
                    cx.count("statically_borrowed");
                }
            }
            22 => {
                if let Some(s) = d.as_borrowed() {
                    ck!(s, a, b, "as_borrowed");
                } else {
                    check!(!matches!(kind, Kind::Static | Kind::Borrowed), "as_borrowed of a {kind:?} value");
                }
            }
            _ => {
                let e = free_clone(kind, &d);
                ck!(e.as_slice(), a, b, "clone");
                keep.push(e);
            }
        }
        while keep.len() > 12 {
            let i = cx.rng.below(keep.len());
            keep.swap_remove(i);
        }
    }
    // the whole buffer comes back when this is the last handle
    if kind == Kind::ExtVec && (a, b) == (0, n) {
        keep.clear();
        let v: Vec<u8> = cheap(n, "Vec back out of its handle", || d.into());
        check!(v.as_ptr() as usize == base, "a vector taken back from its only handle is another one");
        check_eq!(v, c, "vector taken back");
        cx.count("taken back");
    }
}
/// cloning plain references and reference-counted values needs no memory
fn free_clone(kind: Kind, d: &ByteData<'static>) -> ByteData<'static> {
    match kind {
        Kind::Static | Kind::Borrowed | Kind::Shared => free("clone of a reference", || d.clone()),
        _ => d.clone(),
    }
}

fn builders(cx: &mut Ctx) {
    let n = size(cx);
    let c: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let k = cx.rng.below(4);
    cx.ev("builders", (k * 8192 + n) as u64);
    cx.note(|| format!("builder way {k} with {n} byte(s)"));
    match k {
        0 | 1 => {
            let al = 1usize << cx.rng.below(9);
            let mut b = if k == 0 { SharedBytesBuilder::with_aligned_capacity(cx.rng.below(n + 1), al) } else { SharedBytesBuilder::with_alignment(al) };
            for p in c.chunks(cx.rng.range(1, n)) {
                b.extend_from_slice(p);
            }
            let p = b.as_slice().as_ptr() as usize;
            let (p2, s) = match cx.rng.below(3) {
                0 => {
                    let s = cheap(n, "build", || b.build());
                    (s.as_slice().as_ptr() as usize, s)
                }
                1 => {
                    let d = cheap(n, "ByteData from builder", || ByteData::from(b));
                    (d.as_slice().as_ptr() as usize, SharedBytes::from(d))
                }
                _ => {
                    let s = cheap(n, "SharedBytes from builder", || SharedBytes::from(b));
                    (s.as_slice().as_ptr() as usize, s)
                }
            };
            check_eq!(p2, p, "address of a frozen builder");
            check_eq!(s.as_slice().as_ptr() as usize, p, "address of a frozen builder");
            // unique and whole: back in place
            let b = cheap(n, "builder from a unique value", || SharedBytesBuilder::from(s));
            check_eq!(b.as_slice().as_ptr() as usize, p, "address of a builder made from a unique value");
            check_eq!(b.as_slice(), &c[..], "content of a builder made from a unique value");
            let s = b.build();
            // not unique: a copy, the other handle stays where it is
            let other = s.clone();
            let b = SharedBytesBuilder::from(s);
            check_eq!(other.as_slice().as_ptr() as usize, p, "address of a value after a sibling became a builder");
            check!(b.as_slice().as_ptr() as usize != p, "a builder shares its storage with a live value");
        }
        2 => {
            let t = std::str::from_utf8(&c).expect("ascii");
            let mut b = SharedStrBuilder::with_capacity(cx.rng.below(n + 1));
            for p in c.chunks(cx.rng.range(1, n)) {
                b.push_str(std::str::from_utf8(p).expect("ascii"));
            }
            let p = b.as_bytes().as_ptr() as usize;
            let d = cheap(n, "build_str", || b.build_str());
            check_eq!(d.as_str(), t, "built text");
            check_eq!(d.as_bytes().as_ptr() as usize, p, "address of a frozen text builder");
            let b = cheap(n, "text builder from a unique value", || SharedStrBuilder::from(d));
            check_eq!(b.as_bytes().as_ptr() as usize, p, "address of a text builder made from a unique value");
        }
        _ => {
            // text made from an owned String is copied once; after that it is shared
            let s = String::from_utf8(c.clone()).expect("ascii");
            let d = if cx.rng.chance(1, 2) { StringData::from(s) } else { StringData::from_owned(s) };
            let p = d.as_bytes().as_ptr() as usize;
            let e = cheap(n, "clone", || d.clone());
            check_eq!(e.as_bytes().as_ptr() as usize, p, "address of a cloned text");
            drop(d);
            let (l, r) = cheap(n, "split_at", || e.split_at(n / 2));
            check!(n < 32 || (l.as_bytes().as_ptr() as usize == p && r.as_bytes().as_ptr() as usize == p + n / 2), "halves of a text do not share its storage");
        }
    }
}

fn inline(cx: &mut Ctx) {
    let n = cx.rng.below(15);
    let c = gen::bytes_n(&mut cx.rng, n);
    cx.ev("inline", n as u64);
    cx.mix(c.iter().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(*b))));
    let d = free("from_chunk_slice", || ByteData::from_chunk_slice(&c));
    check_eq!(d.as_slice(), &c[..], "inline value");
    let e = free("clone of an inline value", || d.clone());
    check_eq!(e.as_slice(), &c[..], "clone of an inline value");
    let k = cx.rng.below(n + 1);
    let s = free("slice of an inline value", || d.sliced(k..));
    check_eq!(s.as_slice(), &c[k..], "slice of an inline value");
    let (l, r) = free("split of an inline value", || e.split_at(k));
    check_eq!((l.as_slice(), r.as_slice()), (&c[..k], &c[k..]), "split of an inline value");
    let d = free("into_shared of an inline value", || d.into_shared());
    check_eq!(d.as_slice(), &c[..], "into_shared of an inline value");
    free("from_byte", || ByteData::from_byte(7));
    free("from_chunk", || ByteData::from_chunk(b"fourteen bytes"));
    free("empty", || (ByteData::empty(), StringData::empty(), SharedBytes::empty(), ByteQueue::new(), StringQueue::new(), SharedBytesBuilder::new(), SharedStrBuilder::new()));
    drop((l, r, s, d));
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(12) {
        0..=8 => chain(cx, &ar),
        9 | 10 => builders(cx),
        _ => inline(cx),
    }
    ar.audit_exts();
}

//! Values and queues of more than 4 GiB: one lazily mapped area, of which only a few pages near
//! round offsets hold anything but zeros. What is at which position of the area is known, so lengths
//! and bytes at positions of interest are compared after every operation without copying anything.
use crate::core::{may_panic, Ctx, Rng};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};
use bytes::Buf;
use nom::{InputLength, InputTake, Slice};
use std::sync::OnceLock;

const SIZE: usize = (5 << 30) + (1 << 29) + 12_345;
const STEP: usize = 1 << 29;
const W: usize = 1500;

#[cfg(not(miri))]
fn area() -> Option<&'static [u8]> {
    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    static AREA: OnceLock<Option<&'static [u8]>> = OnceLock::new();
    *AREA.get_or_init(|| {
        // SAFETY: a fresh private anonymous mapping, never unmapped
        let p = unsafe { mmap(std::ptr::null_mut(), SIZE, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        let mut r = Rng::new(77);
        for k in 0..=SIZE / STEP {
            for i in (k * STEP).saturating_sub(W)..(k * STEP + W).min(SIZE) {
                // SAFETY: in bounds of the mapping
                unsafe { *p.add(i) = 1 + r.below(120) as u8 };
            }
        }
        // SAFETY: initialised by the kernel
        Some(unsafe { std::slice::from_raw_parts(p, SIZE) })
    })
}
#[cfg(miri)]
fn area() -> Option<&'static [u8]> {
    None
}

/// a position of the area worth looking at
fn global(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => SIZE,
        2 => r.below(SIZE),
        _ => (r.below(SIZE / STEP + 1) * STEP + r.below(2 * W)).saturating_sub(W).min(SIZE),
    }
}
type Part = (usize, usize);
fn total(m: &[Part]) -> usize {
    m.iter().map(|p| p.1 - p.0).sum()
}
/// a position in 0..=len of interest
fn pos(r: &mut Rng, m: &[Part]) -> usize {
    let n = total(m);
    let k = match r.below(8) {
        0 => r.below(3),
        1 => n - r.below(3).min(n),
        2 => (crate::core::p2(32)) + r.below(40) - 20,
        3 => (1usize << 31) + r.below(40) - 20,
        4 => r.below(n + 1),
        5 if !m.is_empty() => {
            // a chunk boundary
            let c = r.below(m.len());
            total(&m[..c]) + r.below(3)
        }
        _ if !m.is_empty() => {
            let c = r.below(m.len());
            let g = global(r);
            total(&m[..c]) + g.clamp(m[c].0, m[c].1) - m[c].0
        }
        _ => 0,
    };
    k.min(n)
}
fn range(r: &mut Rng, m: &[Part]) -> (usize, usize) {
    let (a, b) = (pos(r, m), pos(r, m));
    (a.min(b), a.max(b))
}
fn at(area: &[u8], m: &[Part], mut i: usize) -> u8 {
    for p in m {
        if i < p.1 - p.0 {
            return area[p.0 + i];
        }
        i -= p.1 - p.0;
    }
    unreachable!()
}
fn cut(m: &[Part], a: usize, b: usize) -> Vec<Part> {
    let mut out = Vec::new();
    let mut s = 0;
    for p in m {
        let l = p.1 - p.0;
        let (x, y) = (a.max(s), b.min(s + l));
        if x < y {
            out.push((p.0 + x - s, p.0 + y - s));
        }
        s += l;
    }
    out
}
fn same_slice(r: &mut Rng, area: &[u8], d: &[u8], m: &[Part], what: &str) {
    check_eq!(d.len(), total(m), "length after {}", what);
    for _ in 0..6 {
        let a = pos(r, m);
        let b = (a + r.below(40)).min(d.len());
        for i in a..b {
            if d[i] != at(area, m, i) {
                crate::core::violation(format!("after {what}: byte {i} of {} is {}, expected {}", d.len(), d[i], at(area, m, i)));
            }
        }
    }
}
fn same_queue(r: &mut Rng, area: &[u8], q: &ByteQueue<'_>, m: &[Part], what: &str) {
    check_eq!((q.len(), q.is_empty()), (total(m), total(m) == 0), "length of the queue after {}", what);
    let chunks: Vec<&[u8]> = q.chunks().map(|c| c.as_slice()).collect();
    check_eq!(chunks.iter().map(|c| c.len()).sum::<usize>(), total(m), "sum of the chunk lengths after {}", what);
    check_eq!(chunks.len(), q.chunk_len(), "number of chunks after {}", what);
    let mut s = 0;
    for c in chunks {
        for _ in 0..3 {
            if c.is_empty() {
                continue;
            }
            let i = match r.below(3) {
                0 => 0,
                1 => c.len() - 1,
                _ => (pos(r, m).saturating_sub(s)).min(c.len() - 1),
            };
            let (g, w) = (c[i], at(area, m, s + i));
            if g != w {
                crate::core::violation(format!("after {what}: byte {} of {} is {g}, expected {w}", s + i, total(m)));
            }
        }
        s += c.len();
    }
    for _ in 0..2 {
        if s > 0 {
            let i = pos(r, m).min(s - 1);
            check_eq!(q.bytes().skip(i).next(), Some(at(area, m, i)), "byte {} of {} after {}", i, s, what);
            check_eq!(q.bytes().skip(i).len(), s - i, "length of the byte iterator from {} of {}", i, s);
        }
    }
    check_eq!(q.bytes().size_hint(), (s, Some(s)), "size hint of the byte iterator after {}", what);
}
fn too_far(r: &mut Rng, n: usize) -> (usize, usize) {
    match r.below(5) {
        0 => (0, n + 1),
        1 => (n.saturating_sub(5), n + (crate::core::p2(32))),
        2 => (n + 1, n + 1),
        3 => (n + (crate::core::p2(32)), n + (crate::core::p2(32)) + 1),
        _ => (n.saturating_sub(1), usize::MAX),
    }
}

pub fn values(cx: &mut Ctx) {
    let Some(area) = area() else {
        cx.count("no_large_mapping");
        return;
    };
    let (mut a, mut b) = (global(&mut cx.rng), global(&mut cx.rng));
    if cx.rng.chance(1, 3) {
        (a, b) = (cx.rng.below(3000), SIZE - cx.rng.below(3000));
    }
    let mut m = vec![(a.min(b), a.max(b))];
    let text = cx.rng.chance(1, 3);
    let part = |p: Part| &area[p.0..p.1];
    // SAFETY: every byte of the area is below 128
    let spart = |p: Part| unsafe { std::str::from_utf8_unchecked(&area[p.0..p.1]) };
    let r = &mut cx.rng.clone();
    cx.rng.u64();
    let mut d = if r.chance(1, 2) { ByteData::from_static(part(m[0])) } else { ByteData::from_borrowed(part(m[0])) };
    let mut s = StringData::from_borrowed(spart(m[0]));
    cx.note(|| format!("a value of {} bytes", total(&m)));
    for _ in 0..r.range(1, 8) {
        let n = total(&m);
        let op = r.below(11);
        let (x, y) = range(r, &m);
        let p = pos(r, &m);
        cx.ev("huge_value", (op as u64) << 40 | (x ^ y ^ n) as u64);
        cx.note(|| format!("operation {op} at {x}..{y} / {p} of {n}"));
        if n > u32::MAX as usize {
            cx.count("over_4_gib");
        }
        if text {
            m = match op {
                0 => {
                    s = s.sliced(x..y);
                    cut(&m, x, y)
                }
                1 => {
                    s = s.into_sliced(x..);
                    cut(&m, x, n)
                }
                2 => {
                    s.make_sliced(..y);
                    cut(&m, 0, y)
                }
                3 => {
                    let (l, t) = s.split_at(p);
                    same_slice(r, area, l.as_bytes(), &cut(&m, 0, p), "split_at (first)");
                    same_slice(r, area, t.as_bytes(), &cut(&m, p, n), "split_at (second)");
                    let first = r.chance(1, 2);
                    s = if first { l } else { t };
                    if first { cut(&m, 0, p) } else { cut(&m, p, n) }
                }
                4 => {
                    let (t, l) = InputTake::take_split(&s, p);
                    same_slice(r, area, l.as_bytes(), &cut(&m, 0, p), "take_split (prefix)");
                    s = t;
                    cut(&m, p, n)
                }
                5 => {
                    s = Slice::slice(&s, x..y);
                    cut(&m, x, y)
                }
                6 => {
                    let (x, y) = too_far(r, n);
                    check!(may_panic(|| s.sliced(x..y)).is_none(), "sliced({x}..{y}) of a text of {n} bytes accepted");
                    m
                }
                7 if n > u32::MAX as usize => {
                    if let Some(t) = may_panic(|| s.clone().into_shared()) {
                        check_eq!(t.len(), n, "length after into_shared");
                    }
                    m
                }
                _ => {
                    check_eq!((s.len(), s.as_str().len(), s.as_bytedata().len(), s.input_len()), (n, n, n, n), "lengths of a text");
                    let t = StringQueue::from(s.clone());
                    check_eq!((t.len(), t.as_bytequeue().len()), (n, n), "length of a queue of one text");
                    m
                }
            };
            same_slice(r, area, s.as_bytes(), &m, "an operation on a text");
            continue;
        }
        m = match op {
            0 => {
                d = d.sliced(x..y);
                cut(&m, x, y)
            }
            1 => {
                d = d.into_sliced(x..);
                cut(&m, x, n)
            }
            2 => {
                d.make_sliced(..y);
                cut(&m, 0, y)
            }
            3 => {
                let (l, t) = d.split_at(p);
                same_slice(r, area, &l, &cut(&m, 0, p), "split_at (first)");
                same_slice(r, area, &t, &cut(&m, p, n), "split_at (second)");
                let first = r.chance(1, 2);
                d = if first { l } else { t };
                if first { cut(&m, 0, p) } else { cut(&m, p, n) }
            }
            4 => {
                let l = d.take_bytes(p);
                same_slice(r, area, &l, &cut(&m, 0, p), "take_bytes (taken)");
                cut(&m, p, n)
            }
            5 => {
                let (t, l) = InputTake::take_split(&d, p);
                same_slice(r, area, &l, &cut(&m, 0, p), "take_split (prefix)");
                d = t;
                cut(&m, p, n)
            }
            6 => {
                let (x, y) = too_far(r, n);
                check!(may_panic(|| d.sliced(x..y)).is_none(), "sliced({x}..{y}) of {n} bytes accepted");
                check!(may_panic(|| d.clone().into_sliced(x..y)).is_none(), "into_sliced({x}..{y}) of {n} bytes accepted");
                check!(may_panic(|| Buf::advance(&mut d.clone(), n + 1)).is_none(), "advancing {n} bytes by one more accepted");
                m
            }
            7 => {
                check_eq!(Buf::remaining(&d), n, "remaining");
                Buf::advance(&mut d, p);
                cut(&m, p, n)
            }
            8 if n > u32::MAX as usize => {
                // more than shared storage can hold: refused, or held completely
                let lens = [
                    may_panic(|| d.clone().into_shared().len()),
                    may_panic(|| SharedBytes::from_slice(&d).len()),
                    may_panic(|| SharedBytes::from(d.as_slice()).len()),
                    may_panic(|| SharedBytes::from(d.clone()).len()),
                    may_panic(|| SharedBytes::from(ByteQueue::from(d.clone())).len()),
                    may_panic(|| {
                        let k = SharedBytesBuilder::with_capacity(3);
                        let mut k = k;
                        k.extend_from_slice(b"abc");
                        let ok = may_panic(|| k.extend_from_slice(&d)).is_some();
                        check_eq!(k.len(), if ok { n + 3 } else { 3 }, "builder offered {} bytes", n);
                        check_eq!(&k.as_slice()[..3], b"abc", "builder offered {} bytes", n);
                        n
                    }),
                ];
                for (i, l) in lens.iter().enumerate() {
                    check!(l.map_or(true, |l| l == n), "making {n} bytes shared (way {i}) gave {l:?} bytes");
                }
                m
            }
            9 if n > u32::MAX as usize => {
                let h = n / 2;
                if let Some(c) = may_panic(|| ByteData::from_concat(&[part(m[0]), &part(m[0])[..h]]).len()) {
                    check_eq!(c, n + h, "length of a concatenation");
                }
                m
            }
            _ => {
                check_eq!((d.len(), d.as_slice().len(), d.input_len(), d.is_empty()), (n, n, n, n == 0), "lengths of a value");
                check_eq!(d.as_borrowed().map(<[u8]>::len), d.as_borrowed().map(|_| n), "as_borrowed");
                check_eq!(http_body_1::Body::size_hint(&d).exact(), Some(n as u64), "size hint of a body");
                check_eq!(http_body_04::Body::size_hint(&d).exact(), Some(n as u64), "size hint of a body (0.4)");
                let by = bytes::Bytes::from(d.clone().sliced(..n.min(100)));
                check_eq!(by.len(), n.min(100), "start of a value as Bytes");
                m
            }
        };
        same_slice(r, area, &d, &m, "an operation on a value");
    }
}

pub fn queues(cx: &mut Ctx) {
    let Some(area) = area() else {
        cx.count("no_large_mapping");
        return;
    };
    let r = &mut cx.rng.clone();
    cx.rng.u64();
    let piece = |r: &mut Rng| -> Part {
        let (a, b) = (global(r), global(r));
        let (a, b) = (a.min(b), a.max(b));
        if r.chance(1, 4) {
            (a, (a + r.below(60)).min(SIZE))
        } else {
            (a, b)
        }
    };
    let val = |p: Part| ByteData::from_borrowed(&area[p.0..p.1]);
    // SAFETY: every byte of the area is below 128
    let sval = |p: Part| StringData::from_borrowed(unsafe { std::str::from_utf8_unchecked(&area[p.0..p.1]) });
    let mut q = ByteQueue::new();
    let mut m: Vec<Part> = Vec::new();
    let text = cx.rng.chance(1, 3);
    for _ in 0..r.range(3, 16) {
        let n = total(&m);
        let op = if m.len() < 2 { 0 } else { r.below(16) };
        let (x, y) = range(r, &m);
        let p = pos(r, &m);
        cx.ev("huge_queue", (op as u64) << 40 | (x ^ y ^ n) as u64);
        cx.note(|| format!("operation {op} at {x}..{y} / {p} of {n}"));
        if n > u32::MAX as usize {
            cx.count("over_4_gib");
        }
        match op {
            0 | 1 => {
                let k = piece(r);
                if r.chance(1, 2) {
                    if text {
                        q.push_back(sval(k));
                    } else {
                        q.push_back(val(k));
                    }
                    m.push(k);
                } else {
                    q.push_front(val(k));
                    m.insert(0, k);
                }
            }
            2 if text => {
                // SAFETY: all content is ASCII
                let s = unsafe { std::mem::transmute::<ByteQueue<'static>, StringQueue<'static>>(q) };
                let t = s.slice(x..y);
                check_eq!((s.len(), t.len()), (n, y - x), "lengths of a text queue and its slice");
                same_queue(r, area, t.as_bytequeue(), &cut(&m, x, y), "slice of a text queue");
                q = s.into_bytequeue();
            }
            2 | 3 => {
                let t = q.slice(x..y);
                same_queue(r, area, &t, &cut(&m, x, y), "slice");
                if r.chance(1, 3) {
                    q = t;
                    m = cut(&m, x, y);
                }
            }
            4 => {
                let t = if text {
                    // SAFETY: all content is ASCII
                    let mut s = unsafe { std::mem::transmute::<ByteQueue<'static>, StringQueue<'static>>(q) };
                    let t = s.split_off(p);
                    q = s.into_bytequeue();
                    t.into_bytequeue()
                } else {
                    q.split_off(p)
                };
                same_queue(r, area, &t, &cut(&m, p, n), "split_off (returned)");
                let all = std::mem::replace(&mut m, Vec::new());
                m = cut(&all, 0, p);
                if r.chance(1, 2) {
                    same_queue(r, area, &q, &m, "split_off (kept)");
                    q.append(t);
                    m.extend(cut(&all, p, n));
                }
            }
            5 => {
                let mut dr = q.drain(x..y);
                check_eq!(dr.len(), y - x, "length of a drain");
                for i in 0..r.below(3).min(y - x) {
                    check_eq!(dr.next(), Some(at(area, &m, x + i)), "drained byte");
                }
                drop(dr);
                let mut k = cut(&m, 0, x);
                k.extend(cut(&m, y, n));
                m = k;
            }
            6 => {
                q.consume(p);
                m = cut(&m, p, n);
            }
            7 => {
                check_eq!(Buf::remaining(&q), n, "remaining");
                Buf::advance(&mut q, p);
                m = cut(&m, p, n);
                check!(total(&m) == 0 || !Buf::chunk(&q).is_empty(), "empty chunk with bytes remaining");
            }
            8 => {
                let k = piece(r);
                q.replace_range(x..y, val(k));
                let mut v = cut(&m, 0, x);
                v.push(k);
                v.extend(cut(&m, y, n));
                m = v;
            }
            9 => {
                let l = r.below(70).min(n - p);
                let mut w: Vec<u8> = (p..p + l).map(|i| at(area, &m, i)).collect();
                let mut yes = true;
                if l > 0 && r.chance(1, 3) {
                    w[r.below(l)] ^= 0x80;
                    yes = false;
                }
                check_eq!(q.exists_at(p, &w), yes, "exists_at({}) of {} byte(s)", p, l);
            }
            10 => {
                let start = n - r.below(3000).min(n);
                let tail: Vec<u8> = (start..n).map(|i| at(area, &m, i)).collect();
                let l = 1 + r.below(5);
                let needle: Vec<u8> = if tail.len() > l && r.chance(4, 5) {
                    let a = r.below(tail.len() - l);
                    tail[a..a + l].to_vec()
                } else {
                    vec![0x80; l]
                };
                let w = tail.windows(l).position(|w| w == needle).map(|i| start + i);
                check_eq!(q.find_slice_after(&needle, start), w, "find_slice_after({}) in {} bytes", start, n);
                check_eq!(q.ends_with(&tail), true, "ends_with");
            }
            11 => {
                let (x, y) = too_far(r, n);
                check!(may_panic(|| q.slice(x..y)).is_none(), "slice({x}..{y}) of a queue of {n} bytes accepted");
                check!(may_panic(|| drop(q.drain(x..y))).is_none(), "drain({x}..{y}) of a queue of {n} bytes accepted");
                check!(may_panic(|| q.split_off(n + 1 + (x & 1) * (crate::core::p2(32)))).is_none(), "split_off beyond {n} bytes accepted");
                check!(may_panic(|| q.consume(n + 1)).is_none(), "consume beyond {n} bytes accepted");
            }
            12 => {
                let back = r.chance(1, 2);
                let l = if back { q.pop_back() } else { q.pop_front() }.map_or(0, |c| c.len());
                m = if back { cut(&m, 0, n - l) } else { cut(&m, l, n) };
            }
            13 => {
                let (t, l) = InputTake::take_split(&q, p);
                same_queue(r, area, &l, &cut(&m, 0, p), "take_split (prefix)");
                same_queue(r, area, &t, &cut(&m, p, n), "take_split (suffix)");
                check_eq!(q.input_len(), n, "input_len");
            }
            14 => {
                use http_body_1::Body as _;
                check_eq!(http_body_1::Body::size_hint(&q).exact(), Some(n as u64), "size hint of a body");
                check_eq!(q.is_end_stream(), n == 0, "end of a body");
            }
            _ => {
                let mut o = ByteQueue::from(val(m[0]));
                o.append(std::mem::take(&mut q));
                q = o;
                m.insert(0, m[0]);
            }
        }
        same_queue(r, area, &q, &m, "an operation on a queue");
    }
}

//! Edge states and edge arguments: values that have just been made, emptied, or filled to a limit, and
//! one to four calls on them with empty, minimal, exact and excessive arguments. The cases are tiny so
//! that the interpreter gets through many of them; nothing but memory use (and readability) is judged.
use crate::core::{may_panic, Ctx, Rng};
use crate::check_eq;
use bytedata::{ByteChunk, ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use bytes::{Buf, BufMut};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::io::{BufRead, IoSlice, IoSliceMut, Read, Write};

static T: &str = "aé\nb€c,dd\u{10348}e ,,fgh\nijklmnop";

fn look(b: &[u8]) {
    let mut s = 0u32;
    for x in b {
        s = s.wrapping_mul(31).wrapping_add(u32::from(*x));
        if *x == 0xEE {
            s ^= 5;
        }
    }
    black_box(s);
}
fn text(b: &str) {
    look(b.as_bytes());
    assert!(std::str::from_utf8(b.as_bytes()).is_ok());
}
fn n(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 0, 1, 2, 13, 14, 15, 16, 30])
}
/// a position that is of interest for `len` bytes
fn at(r: &mut Rng, len: usize) -> usize {
    match r.below(12) {
        0..=2 => 0,
        3 => 1,
        4..=6 => len,
        7 => len + 1,
        8 => len.saturating_sub(1),
        9 => usize::MAX - r.below(2),
        _ => r.below(len + 1),
    }
}
fn src(r: &mut Rng) -> &'static [u8] {
    &T.as_bytes()[..n(r)]
}
fn stxt(r: &mut Rng) -> &'static str {
    let mut k = n(r);
    while !T.is_char_boundary(k) {
        k -= 1;
    }
    &T[..k]
}
fn sb(r: &mut Rng) -> SharedBytes {
    let s = src(r);
    match r.below(7) {
        0 => SharedBytes::EMPTY,
        1 => SharedBytes::from_slice(s),
        2 => SharedBytes::from_slice_aligned(s, 1 << r.below(12)),
        3 => SharedBytes::from(s.to_vec()),
        4 => {
            let mut b = SharedBytesBuilder::with_capacity(n(r));
            b.extend_from_slice(s);
            b.build()
        }
        5 => {
            let x = SharedBytes::from_slice(T.as_bytes());
            let a = r.below(20);
            let l = n(r).min(x.len() - a);
            x.into_sliced(a, l)
        }
        _ => {
            let x = SharedBytes::from_slice(T.as_bytes());
            x.sliced(r.below(10), n(r).min(10))
        }
    }
}
fn bd(r: &mut Rng) -> ByteData<'static> {
    let s = src(r);
    match r.below(11) {
        0 => ByteData::empty(),
        1 => ByteData::from_static(s),
        2 => ByteData::from_borrowed(s),
        3 => ByteData::from_chunk_slice(&s[..s.len().min(14)]),
        4 => ByteData::from_owned(s.to_vec()),
        5 => ByteData::from(SharedBytesBuilder::new()),
        6 => ByteData::from_external(s.to_vec()),
        7 => ByteData::from_external(std::sync::Arc::<[u8]>::from(s)),
        8 => ByteData::from_external(Box::<[u8]>::from(s)),
        9 => ByteData::from(bytes::Bytes::from_static(s)),
        _ => ByteData::from_shared(sb(r)),
    }
}
fn sd(r: &mut Rng) -> StringData<'static> {
    let s = stxt(r);
    match r.below(6) {
        0 => StringData::empty(),
        1 => StringData::from_static(s),
        2 => StringData::from_owned(s.to_string()),
        3 => StringData::from_borrowed(s),
        4 => StringData::from_concat(&[s, "", "é"]),
        _ => StringData::try_from(SharedBytes::from_slice(s.as_bytes())).unwrap(),
    }
}
fn sbb(r: &mut Rng) -> SharedBytesBuilder {
    match r.below(9) {
        0 | 1 => SharedBytesBuilder::new(),
        2 => SharedBytesBuilder::with_alignment(1 << r.below(10)),
        3 => SharedBytesBuilder::with_capacity(n(r)),
        4 => SharedBytesBuilder::with_aligned_capacity(n(r), 1 << r.below(10)),
        5 => SharedBytesBuilder::from(sb(r)),
        6 => {
            let s = sb(r);
            let b = SharedBytesBuilder::from(s.clone());
            look(s.as_slice());
            b
        }
        7 => {
            let mut b = SharedBytesBuilder::new();
            b.extend_from_slice(src(r));
            b.clear();
            b
        }
        _ => {
            let mut b = SharedBytesBuilder::new();
            b.extend_from_slice(src(r));
            b
        }
    }
}
fn bq(r: &mut Rng) -> ByteQueue<'static> {
    let mut q = match r.below(4) {
        0 => ByteQueue::new(),
        1 => ByteQueue::with_item(bd(r)),
        2 => ByteQueue::from(src(r)),
        _ => (0..r.below(20)).map(|_| bd(r)).collect(),
    };
    match r.below(6) {
        0 => while q.pop_front().is_some() {},
        1 => {
            while q.chunk_len() > 1 {
                q.pop_back();
            }
        }
        2 => {
            // a ring that has turned
            for _ in 0..r.below(12) {
                q.push_back(bd(r));
                q.pop_front();
            }
        }
        _ => {}
    }
    q
}
fn sq(r: &mut Rng) -> StringQueue<'static> {
    let mut q = match r.below(3) {
        0 => StringQueue::new(),
        1 => StringQueue::from(sd(r)),
        _ => (0..r.below(12)).map(|_| sd(r)).collect(),
    };
    if r.chance(1, 4) {
        while q.pop_front().is_some() {}
    }
    q
}
macro_rules! p {
    ($e:expr) => {
        may_panic(|| $e)
    };
}
fn hash<H: Hash>(h: &H) {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    black_box(s.finish());
}

fn builder(cx: &mut Ctx, b: &mut SharedBytesBuilder) {
    let r = &mut cx.rng;
    let k = r.below(26);
    let (s, a) = (src(r), at(r, b.len()));
    match k {
        0 => p!(b.extend_from_slice(s)),
        1 => p!(b.reserve(a)),
        2 => p!(b.truncate(a)),
        3 => p!(b.clear()),
        4 => p!(look(b.as_slice_mut())),
        5 => p!(b.apply_unfilled(|x| {
            let m = x.len().min(a);
            x[..m].iter_mut().for_each(|y| {
                y.write(1);
            });
            ((), m)
        })),
        6 => p!(b.put_bytes(7, if a > 100 { 0 } else { a })),
        7 => p!(b.put_slice(s)),
        8 => p!(b.put(s)),
        9 => p!({
            let c = b.chunk_mut();
            let m = c.len().min(s.len());
            c[..m].copy_from_slice(&s[..m]);
            // SAFETY: these bytes have just been written
            unsafe { b.advance_mut(m) };
        }),
        10 => p!({
            let _ = b.write(s);
            let _ = b.flush();
        }),
        11 => p!({
            let _ = b.write_vectored(&[IoSlice::new(s), IoSlice::new(b""), IoSlice::new(s)]);
        }),
        12 => p!({
            let _ = b.write_vectored(&[]);
        }),
        13 => p!({
            let _ = b.write_all(s);
        }),
        14 => p!(b.extend(s.iter())),
        15 => p!(b.extend(s.iter().copied())),
        16 => p!(b.put_u8(1)),
        17 => p!(b.put_u64(1)),
        18 => p!(b.put(ByteData::from_borrowed(s))),
        19 => p!(b.put(ByteQueue::new())),
        20 => p!({
            black_box((b.remaining_mut(), b.capacity(), b.is_empty()));
            b.chunk_mut();
        }),
        21 => p!({
            let _ = std::fmt::Write::write_fmt(b, format_args!("{}{}", "", a));
        }),
        22 => p!(look(b.as_ref())),
        23 => p!({
            // freezing and thawing in place
            let s = std::mem::take(b).build();
            let keep = a & 1 == 1;
            let other = keep.then(|| s.clone());
            *b = SharedBytesBuilder::from(s);
            look(b.as_slice());
            drop(other);
        }),
        24 => p!({
            let x: bytes::Bytes = std::mem::take(b).build().into();
            look(&x);
            *b = SharedBytesBuilder::from(SharedBytes::from(x));
        }),
        _ => p!({
            let t = SharedStrBuilder::try_from(std::mem::take(b));
            if let Ok(mut t) = t {
                t.push_str(if a & 1 == 1 { "" } else { "é" });
                t.push('x');
                t.reserve(0);
                let _ = may_panic(|| t.truncate(a));
                t.clear();
                text(t.as_str());
                *b = t.into_shared_bytes_builder();
            }
        }),
    };
    cx.ev("builder", k as u64);
    look(b.as_slice());
    assert!(b.capacity() >= b.len());
}

fn shared(cx: &mut Ctx, v: &mut SharedBytes) {
    let r = &mut cx.rng;
    let k = r.below(18);
    let (a, l) = (at(r, v.len()), n(r));
    match k {
        0 => p!(look(v.sliced(a, l).as_slice())),
        1 => p!(look(v.sliced_range(a..).as_slice())),
        2 => p!(look(v.sliced_range(..a).as_slice())),
        3 => p!({
            v.make_sliced(a, l);
        }),
        4 => p!({
            v.make_sliced_range(a..);
        }),
        5 => p!(*v = v.clone().into_sliced(a, l)),
        6 => p!({
            black_box(v.is_unique());
            black_box(v.eq_const(&v.clone()));
        }),
        7 => p!(Buf::advance(v, a)),
        8 => p!(look(&Buf::copy_to_bytes(v, a))),
        9 => p!({
            let mut d = [0u8; 16];
            let m = v.read(&mut d[..l.min(16)]).unwrap_or(0);
            look(&d[..m]);
        }),
        10 => p!({
            let mut d = Vec::new();
            let _ = v.read_until(b',', &mut d);
            look(&d);
        }),
        11 => p!({
            let (mut x, mut y) = ([0u8; 3], [0u8; 0]);
            let _ = v.read_vectored(&mut [IoSliceMut::new(&mut y), IoSliceMut::new(&mut x)]);
            look(&x);
        }),
        12 => p!({
            look(v.fill_buf().unwrap_or(b""));
            BufRead::consume(v, a);
        }),
        13 => p!({
            look(&v[a..]);
        }),
        14 => p!({
            look(&[v[a]]);
        }),
        15 => p!({
            let w = Vec::<u8>::from(ByteData::from(v.clone()));
            look(&w);
        }),
        16 => p!({
            let w: bytes::Bytes = std::mem::replace(v, SharedBytes::EMPTY).into();
            let z = w.clone();
            black_box(w.is_unique());
            *v = SharedBytes::from(w);
            look(&z);
        }),
        _ => p!({
            hash(v);
            black_box(format!("{v:?}"));
            let mut d = Vec::new();
            let _ = v.clone().read_to_end(&mut d);
            look(&d);
        }),
    };
    cx.ev("shared", k as u64);
    look(v.as_slice());
}

fn value(cx: &mut Ctx, v: &mut ByteData<'static>) {
    let r = &mut cx.rng;
    let k = r.below(34);
    let (a, b, s) = (at(r, v.len()), at(r, v.len()), src(r));
    match k {
        0 => p!(look(v.sliced(a..).as_slice())),
        1 => p!(look(v.sliced(..a).as_slice())),
        2 => p!(look(v.sliced(a..b).as_slice())),
        3 => p!(look(v.sliced(a..=b).as_slice())),
        4 => p!({
            v.make_sliced(a..b);
        }),
        5 => p!({
            v.make_sliced(..=a);
        }),
        6 => p!(*v = v.clone().into_sliced(a..)),
        7 => p!(*v = v.clone().into_sliced(a..b)),
        8 => p!(*v = v.clone().into_shared()),
        9 => p!(*v = v.clone().into_shared_range(a..b)),
        10 => p!(look(v.take_bytes(a).as_slice())),
        11 => p!({
            let x = ByteData::take_while(v, |x| x != b',');
            look(x.as_slice());
        }),
        12 => p!({
            let (x, y) = v.clone().split_at(a);
            look(x.as_slice());
            look(y.as_slice());
        }),
        13 => p!({
            if let Ok((x, y)) = v.clone().split_once_on(&s[..s.len().min(2)]) {
                look(x.as_slice());
                look(y.as_slice());
            }
        }),
        14 => p!({
            for x in v.clone().split_on(&s[..s.len().min(2)]) {
                look(x.as_slice());
            }
        }),
        15 => p!(*v = v.clone().statically_borrowed()),
        16 => p!({
            black_box(v.as_borrowed().map(look));
        }),
        17 => p!({
            let x: Vec<u8> = v.clone().into();
            look(&x);
        }),
        18 => p!({
            let x: Vec<u8> = std::mem::take(v).into();
            *v = ByteData::from(x);
        }),
        19 => p!({
            let x: std::borrow::Cow<'_, [u8]> = v.clone().into();
            look(&x);
        }),
        20 => p!({
            let x: bytes::Bytes = std::mem::take(v).into();
            look(&x.slice(..0));
            *v = ByteData::from(x);
        }),
        21 => p!({
            let x = SharedBytes::from(std::mem::take(v));
            *v = ByteData::from(SharedBytesBuilder::from(x));
        }),
        22 => p!(Buf::advance(v, a)),
        23 => p!(look(&Buf::copy_to_bytes(v, a))),
        24 => p!({
            let mut d = [0u8; 20];
            let _ = v.read(&mut d[..a.min(20)]);
            look(&d);
        }),
        25 => p!({
            let mut d = Vec::new();
            let _ = v.read_until(b'\n', &mut d);
            look(&d);
            look(v.fill_buf().unwrap_or(b""));
            BufRead::consume(v, a);
        }),
        26 => p!({
            black_box((v.starts_with(s), v.ends_with(s), v.eq_slice(s), v.eq_const(&ByteData::from_borrowed(s))));
        }),
        27 => p!({
            black_box(v.next());
            black_box(v.nth(a));
            black_box(v.size_hint());
        }),
        28 => p!({
            hash(v);
            black_box(format!("{v:?} {v:x} {v:X}"));
        }),
        29 => p!({
            if let Ok(x) = StringData::try_from_bytedata(v.clone()) {
                text(x.as_str());
            }
        }),
        30 => p!({
            look(ByteData::from_concat(&[s, b"", s]).as_slice());
            look(ByteData::from_concat(&[]).as_slice());
        }),
        31 => p!({
            let x = ByteChunk::from_slice(&s[..s.len().min(14)]);
            look(x.sliced(a.min(20)..).as_slice());
            let mut y = x.clone();
            let _ = y.write_str("é");
            look(y.as_slice());
            *v = ByteData::from_chunk_slice(y.as_slice());
        }),
        32 => p!({
            let mut it = v.clone().into_iter();
            it.next();
            look(&it.collect::<Vec<u8>>());
        }),
        _ => p!({
            black_box(PartialOrd::partial_cmp(v, s));
            black_box(Ord::cmp(&*v, &ByteData::from_borrowed(s)));
        }),
    };
    cx.ev("value", k as u64);
    look(v.as_slice());
}

fn string(cx: &mut Ctx, v: &mut StringData<'static>) {
    let r = &mut cx.rng;
    let k = r.below(17);
    let (a, b, s) = (at(r, v.len()), at(r, v.len()), stxt(r));
    match k {
        0 => p!(text(v.sliced(a..).as_str())),
        1 => p!(text(v.sliced(a..b).as_str())),
        2 => p!({
            v.make_sliced(..a);
        }),
        3 => p!(*v = v.clone().into_sliced(a..b)),
        4 => p!(*v = v.clone().into_shared_range(a..b)),
        5 => p!(text(StringData::take_while(v, |c| c != '€').as_str())),
        6 => p!(text(v.take_line().as_str())),
        7 => p!({
            let (x, y) = v.clone().split_at(a);
            text(x.as_str());
            text(y.as_str());
        }),
        8 => p!({
            for x in v.clone().split_on(&s[..s.len().min(1)]) {
                text(x.as_str());
            }
        }),
        9 => p!({
            let _ = v.clone().split_once_on(if a & 1 == 1 { "" } else { "," });
        }),
        10 => p!({
            text(v.trim().as_str());
            text(v.trim_start().as_str());
            text(v.trim_end().as_str());
        }),
        11 => p!({
            black_box(v.next());
            black_box(v.nth(a));
        }),
        12 => p!({
            let x: String = v.clone().into();
            text(&x);
            let y: std::borrow::Cow<'_, str> = v.clone().into();
            text(&y);
        }),
        13 => p!(*v = v.clone().into_shared().statically_borrowed()),
        14 => p!({
            let mut x = SharedStrBuilder::from(v.clone());
            x.push_str(s);
            let _ = may_panic(|| x.truncate(a));
            *v = x.build_str();
        }),
        15 => p!({
            hash(v);
            black_box(format!("{v:?} {v}"));
            black_box((v.starts_with(s), v.ends_with(s), v.eq_str(s)));
        }),
        _ => p!(look(std::mem::take(v).into_bytedata().as_slice())),
    };
    cx.ev("string", k as u64);
    text(v.as_str());
}

fn queue(cx: &mut Ctx, q: &mut ByteQueue<'static>) {
    let r = &mut cx.rng;
    let k = r.below(30);
    let (a, b, s) = (at(r, q.len()), at(r, q.len()), src(r));
    let (x, other) = (bd(r), bq(r));
    match k {
        0 => p!(q.push_back(x)),
        1 => p!(q.push_front(x)),
        2 => p!({
            q.pop_front();
        }),
        3 => p!({
            q.pop_back();
        }),
        4 => p!(q.consume(a)),
        5 => p!(queue_look(&q.slice(a..b))),
        6 => p!({
            let o = q.split_off(a);
            queue_look(&o);
            queue_look(q);
            if b & 1 == 1 {
                q.append(o);
            }
        }),
        7 => p!(q.append(other)),
        8 => p!({
            let mut d = q.drain(a..b);
            d.next();
            d.nth(1);
        }),
        9 => p!(drop(q.drain(a..b))),
        10 => p!(q.replace_range(a..b, x)),
        11 => p!(queue_look(&q.take_while(|c| c != b','))),
        12 => p!({
            black_box((q.starts_with(s), q.ends_with(s), q.exists_at(a, s), q.find_slice(s), q.find_slice_after(s, a)));
            black_box(q.find_byte(|x| x == b'p'));
        }),
        13 => p!({
            for z in q.split_on(&s[..s.len().min(2)]) {
                queue_look(&z);
            }
        }),
        14 => p!({
            for z in q.splitn_on(&s[..s.len().min(1)], a.min(3)) {
                queue_look(&z);
            }
        }),
        15 => p!({
            let mut i = ByteQueue::bytes(q).skip(a).take(b);
            i.next();
            black_box(i.size_hint());
            i.nth(1);
            look(&i.collect::<Vec<u8>>());
        }),
        16 => p!({
            let mut i = q.clone().into_bytes();
            i.nth(a);
            black_box(i.size_hint());
            look(&i.collect::<Vec<u8>>());
        }),
        17 => p!({
            let mut i = q.clone().into_iter();
            i.next_back();
            i.next();
            i.nth(a);
            black_box(i.len());
        }),
        18 => p!({
            let mut i = q.chunks();
            black_box(i.size_hint());
            i.nth(a);
            black_box(i.map(|x| look(x.as_slice())).count());
        }),
        19 => p!({
            look(&Vec::<u8>::from(q.clone()));
            look(ByteData::from(q.clone()).as_slice());
            look(&bytes::Bytes::from(q.clone()));
            look(SharedBytes::from(q.clone()).as_slice());
        }),
        20 => p!(Buf::advance(q, a)),
        21 => p!(look(&q.copy_to_bytes(a))),
        22 => p!({
            look(q.chunk());
            let mut d = [IoSlice::new(b""); 3];
            let m = q.chunks_vectored(&mut d[..a.min(3)]);
            d[..m].iter().for_each(|x| look(x));
        }),
        23 => p!({
            let mut d = [0u8; 20];
            let _ = q.read(&mut d[..a.min(20)]);
            look(&d);
        }),
        24 => p!({
            let (mut x, mut y) = ([0u8; 3], [0u8; 0]);
            let _ = q.read_vectored(&mut [IoSliceMut::new(&mut y), IoSliceMut::new(&mut x)]);
            look(&x);
        }),
        25 => p!({
            let mut d = Vec::new();
            let _ = q.read_until(b'\n', &mut d);
            look(&d);
            look(q.fill_buf().unwrap_or(b""));
            BufRead::consume(q, a);
        }),
        26 => p!({
            let _ = q.write(s);
            let _ = q.write_vectored(&[IoSlice::new(s), IoSlice::new(b"")]);
            let _ = std::fmt::Write::write_fmt(q, format_args!("{}{a}", ""));
        }),
        27 => p!({
            hash(q);
            black_box((*q == other, Ord::cmp(&*q, &other), *q == *s, s == &*q));
            black_box(format!("{q:?} {q:x} {q:X}"));
        }),
        28 => p!({
            let _ = q.front().map(|x| look(x.as_slice()));
            let _ = q.back().map(|x| look(x.as_slice()));
        }),
        _ => p!(q.extend([x, ByteData::empty()])),
    };
    cx.ev("queue", k as u64);
    queue_look(q);
}
fn queue_look(q: &ByteQueue<'_>) {
    let mut m = 0;
    for c in q.chunks() {
        look(c.as_slice());
        m += c.len();
    }
    check_eq!(m, q.len(), "length of a queue");
}

fn strings(cx: &mut Ctx, q: &mut StringQueue<'static>) {
    let r = &mut cx.rng;
    let k = r.below(19);
    let (a, b, s) = (at(r, q.len()), at(r, q.len()), stxt(r));
    let (x, other) = (sd(r), sq(r));
    match k {
        0 => p!(q.push_back(x)),
        1 => p!(q.push_front(x)),
        2 => p!({
            q.pop_front();
            q.pop_back();
        }),
        3 => p!(drop(q.slice(a..b))),
        4 => p!({
            let o = q.split_off(a);
            strings_look(&o);
        }),
        5 => p!(q.extend(other)),
        6 => p!({
            let mut d = q.drain(a..b);
            d.next();
            d.nth(1);
        }),
        7 => p!(q.replace_range(a..b, x)),
        8 => p!(strings_look(&q.take_while(|c| c != '€'))),
        9 => p!(strings_look(&q.take_line())),
        10 => p!({
            black_box((q.starts_with(s), q.ends_with(s), q.find_char(|c| c == 'é')));
        }),
        11 => p!({
            for z in q.split_on(&s[..s.len().min(1)]) {
                strings_look(&z);
            }
            for z in q.splitn_on(",", a.min(3)) {
                strings_look(&z);
            }
        }),
        12 => p!({
            let mut i = q.chars();
            i.nth(a);
            black_box((i.size_hint(), i.last()));
            let mut i = q.clone().into_chars();
            i.nth(a);
            black_box(i.count());
            black_box(q.chars_indecies().nth(a));
        }),
        13 => p!({
            q.clone().into_iter().rev().for_each(|x| text(x.as_str()));
            look(&q.clone().into_bytes().collect::<Vec<u8>>());
        }),
        14 => p!({
            text(&String::from(q.clone()));
            text(StringData::from(q.clone()).as_str());
        }),
        15 => p!({
            let _ = q.write_str(s);
            let _ = q.write_char('é');
            let _ = write!(q, "");
        }),
        16 => p!({
            black_box(*q == other);
            black_box(format!("{q:?} {q} {q:5.1}"));
        }),
        17 => p!({
            let z = std::mem::take(q).into_bytequeue();
            *q = z.into_iter().filter_map(|x| StringData::try_from_bytedata(x).ok()).collect();
        }),
        _ => p!({
            let _ = q.front().map(|x| text(x.as_str()));
            let _ = q.back().map(|x| text(x.as_str()));
            q.extend([x, StringData::empty()]);
        }),
    };
    cx.ev("strings", k as u64);
    strings_look(q);
}
fn strings_look(q: &StringQueue<'_>) {
    let mut m = 0;
    for c in q.chunks() {
        text(c.as_str());
        m += c.len();
    }
    check_eq!(m, q.len(), "length of a queue of texts");
}

pub fn run(cx: &mut Ctx) {
    let steps = cx.rng.range(1, 4);
    let kind = cx.rng.below(10);
    macro_rules! go {
        ($make:ident, $step:ident) => {{
            let mut v = $make(&mut cx.rng);
            for _ in 0..steps {
                $step(cx, &mut v);
            }
        }};
    }
    match kind {
        0..=2 => go!(sbb, builder),
        3 => go!(sb, shared),
        4 | 5 => go!(bd, value),
        6 => go!(sd, string),
        7 | 8 => go!(bq, queue),
        _ => go!(sq, strings),
    }
}

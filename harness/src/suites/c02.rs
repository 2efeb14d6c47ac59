//! Slicing against the plain slice as oracle.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteChunk, ByteData, SharedBytes, StringData};
use std::ops::Bound::{self, *};

fn pos(cx: &mut Ctx, n: usize) -> usize {
    match cx.rng.below(16) {
        0 => n,
        1 => n + 1,
        2 => usize::MAX,
        3 => usize::MAX - cx.rng.below(20),
        4 => (crate::core::p2(32)) + cx.rng.below(n + 2),
        5 => u32::MAX as usize - cx.rng.below(20),
        6 => (usize::MAX - n).wrapping_add(cx.rng.below(n + 2)),
        7 => n.wrapping_sub(1),
        8 => 0,
        9 => isize::MAX as usize,
        _ => cx.rng.below(n + 2),
    }
}
fn bound(cx: &mut Ctx, n: usize) -> Bound<usize> {
    match cx.rng.below(5) {
        0 => Unbounded,
        1 | 2 => Included(pos(cx, n)),
        _ => Excluded(pos(cx, n)),
    }
}

/// got: None = rejected by panic
fn judge(what: &str, arg: &str, got: Option<&[u8]>, want: Option<&[u8]>) {
    match (got, want) {
        (Some(g), Some(w)) => {
            check_eq!(g, w, "{what}({arg})");
        }
        (None, None) => {
            check!(true, "");
        }
        (Some(g), None) => {
            check!(false, "{what}({arg}) accepted a range the plain slice rejects; result has {} byte(s)", g.len());
        }
        (None, Some(w)) => {
            check!(false, "{what}({arg}) rejected a valid range of {} byte(s)", w.len());
        }
    }
}

macro_rules! all_ranges {
    ($cx:expr, $n:expr, $r:ident, $body:block) => {{
        let n: usize = $n;
        let a = pos($cx, n);
        let b = pos($cx, n);
        match $cx.rng.below(6) {
            0 => {
                let $r = a..b;
                $body
            }
            1 => {
                let $r = ..b;
                $body
            }
            2 => {
                let $r = a..;
                $body
            }
            3 => {
                let $r = a..=b;
                $body
            }
            4 => {
                let $r = ..=b;
                $body
            }
            _ => {
                let $r = ..;
                $body
            }
        }
    }};
}

fn bytes_case(cx: &mut Ctx) {
    let ar = Arena::new();
    let c = gen::bytes(&mut cx.rng);
    let (d, src) = gen::mk_bd(cx, &ar, &c);
    for _ in 0..6 {
        if cx.rng.chance(1, 2) {
            let r = (bound(cx, c.len()), bound(cx, c.len()));
            one(cx, &d, &c, r, src.name);
        } else {
            all_ranges!(cx, c.len(), r, { one(cx, &d, &c, r, src.name) });
        }
    }
    let p = pos(cx, c.len());
    let want = if p <= c.len() { Some(c.split_at(p)) } else { None };
    cx.ev("bd_split_at", p as u64);
    match (may_panic(|| d.clone().split_at(p)), want) {
        (Some((x, y)), Some((wx, wy))) => {
            check_eq!(x.as_slice(), wx, "ByteData::split_at({p}) first");
            check_eq!(y.as_slice(), wy, "ByteData::split_at({p}) second");
        }
        (None, None) => {}
        (g, _) => {
            check!(false, "ByteData::split_at({p}) of {} byte(s): {}", c.len(), if g.is_some() { "accepted" } else { "rejected" });
        }
    }
    let mut e = d.clone();
    match (may_panic(|| e.take_bytes(p)), want) {
        (Some(x), Some((wx, wy))) => {
            check_eq!(x.as_slice(), wx, "ByteData::take_bytes({p})");
            check_eq!(e.as_slice(), wy, "ByteData after take_bytes({p})");
        }
        (None, None) => {
            check_eq!(e.as_slice(), &c[..], "ByteData after rejected take_bytes({p})");
        }
        (g, _) => {
            check!(false, "ByteData::take_bytes({p}) of {} byte(s): {}", c.len(), if g.is_some() { "accepted" } else { "rejected" });
        }
    }
    let got = may_panic(|| d[p]);
    check_eq!(got, c.get(p).copied(), "ByteData[{p}]");
    let mut i = 0;
    let stop = cx.rng.below(c.len() + 2);
    let mut e = d.clone();
    let t = ByteData::take_while(&mut e, |b| {
        check!(c.get(i) == Some(&b), "take_while shows a wrong byte at {i}");
        i += 1;
        i <= stop
    });
    let k = stop.min(c.len());
    check_eq!(t.as_slice(), &c[..k], "ByteData::take_while result");
    check_eq!(e.as_slice(), &c[k..], "ByteData after take_while");
    drop((t, e));
    check_eq!(d.as_slice(), &c[..], "value sliced from");
}

fn one<R>(cx: &mut Ctx, d: &ByteData<'static>, c: &[u8], r: R, route: &str)
where
    R: std::ops::RangeBounds<usize> + std::slice::SliceIndex<[u8], Output = [u8]> + Clone + std::fmt::Debug,
{
    let want = c.get(r.clone());
    let arg = format!("{r:?} of {} [{route}]", c.len());
    cx.ev("bd_range", want.map_or(u64::MAX, |w| w.len() as u64));
    cx.mix(route.len() as u64);
    cx.count(if want.is_some() { "range_valid" } else { "range_rejected" });
    cx.note(|| arg.clone());
    let g = may_panic(|| d.sliced(r.clone()));
    judge("ByteData::sliced", &arg, g.as_deref(), want);
    if let (Some(g), Some(w)) = (&g, want) {
        check_eq!((g.len(), g.is_empty()), (w.len(), w.is_empty()), "ByteData::sliced({arg}) length/emptiness");
    }
    drop(g);
    let g = may_panic(|| d.clone().into_sliced(r.clone()));
    judge("ByteData::into_sliced", &arg, g.as_deref(), want);
    drop(g);
    let mut e = d.clone();
    let ok = may_panic(|| e.make_sliced(r.clone())).is_some();
    judge("ByteData::make_sliced", &arg, ok.then(|| e.as_slice()), want);
    if !ok {
        check_eq!(e.as_slice(), c, "ByteData after rejected make_sliced({arg})");
    } else {
        // slice the slice
        let m = e.as_slice().to_vec();
        let (a, b) = (cx.rng.below(m.len() + 1), cx.rng.below(m.len() + 1));
        let g = may_panic(|| e.sliced(a..b));
        judge("ByteData::sliced twice", &format!("{a}..{b} of {arg}"), g.as_deref(), m.get(a..b));
    }
    drop(e);
    let g = may_panic(|| d.clone().into_shared_range(r.clone()));
    judge("ByteData::into_shared_range", &arg, g.as_deref(), want);
    if let (Some(g), Some(w)) = (&g, want) {
        check_eq!((g.len(), g.is_empty()), (w.len(), w.is_empty()), "ByteData::into_shared_range({arg}) length/emptiness");
    }
    // a borrowed value with an unrelated lifetime
    {
        let local = c.to_vec();
        let b = ByteData::from_borrowed(&local);
        let g = may_panic(|| b.clone().into_shared_range(r.clone()));
        drop(b);
        drop(local);
        judge("borrowed ByteData::into_shared_range", &arg, g.as_deref(), want);
    }
}

fn shared_case(cx: &mut Ctx) {
    let c = gen::bytes(&mut cx.rng);
    let n = c.len();
    let d = match cx.rng.below(3) {
        0 => SharedBytes::from_slice(&c),
        1 => SharedBytes::from_slice_aligned(&c, 1 << cx.rng.below(14)),
        _ => {
            let mut v = vec![7u8; cx.rng.below(20)];
            let a = v.len();
            v.extend_from_slice(&c);
            v.extend(vec![9u8; cx.rng.below(20)]);
            SharedBytes::from_slice(&v).into_sliced(a, n)
        }
    };
    let keep = cx.rng.chance(1, 2).then(|| d.clone());
    for _ in 0..6 {
        let (o, l) = match cx.rng.below(4) {
            0 => {
                let o = pos(cx, n);
                // sum wraps around to something small
                (o, 0usize.wrapping_sub(o).wrapping_add(cx.rng.below(n + 2)))
            }
            _ => (pos(cx, n), pos(cx, n)),
        };
        let want = o.checked_add(l).and_then(|e| c.get(o..e));
        let arg = format!("{o}, {l} of {n}");
        cx.ev("sb_offset_len", want.map_or(u64::MAX, |w| w.len() as u64));
        cx.count(if want.is_some() { "range_valid" } else { "range_rejected" });
        cx.note(|| arg.clone());
        let g = may_panic(|| d.sliced(o, l));
        judge("SharedBytes::sliced", &arg, g.as_deref(), want);
        drop(g);
        let g = may_panic(|| d.clone().into_sliced(o, l));
        judge("SharedBytes::into_sliced", &arg, g.as_deref(), want);
        drop(g);
        let mut e = d.clone();
        let ok = may_panic(|| {
            e.make_sliced(o, l);
        })
        .is_some();
        judge("SharedBytes::make_sliced", &arg, ok.then(|| e.as_slice()), want);
        if !ok {
            check_eq!(e.as_slice(), &c[..], "SharedBytes after rejected make_sliced({arg})");
        }
        let r = (bound(cx, n), bound(cx, n));
        let want = c.get(r);
        let arg = format!("{r:?} of {n}");
        cx.ev("sb_range", want.map_or(u64::MAX, |w| w.len() as u64));
        cx.note(|| arg.clone());
        let g = may_panic(|| d.sliced_range(r));
        judge("SharedBytes::sliced_range", &arg, g.as_deref(), want);
        drop(g);
        let g = may_panic(|| d.clone().into_sliced_range(r));
        judge("SharedBytes::into_sliced_range", &arg, g.as_deref(), want);
        drop(g);
        let mut e = d.clone();
        let ok = may_panic(|| {
            e.make_sliced_range(r);
        })
        .is_some();
        judge("SharedBytes::make_sliced_range", &arg, ok.then(|| e.as_slice()), want);
        if !ok {
            check_eq!(e.as_slice(), &c[..], "SharedBytes after rejected make_sliced_range({arg})");
        }
        let p = pos(cx, n);
        let q = pos(cx, n);
        check_eq!(may_panic(|| d[p]), c.get(p).copied(), "SharedBytes[{p}]");
        judge("SharedBytes[a..b]", &format!("{p}..{q} of {n}"), may_panic(|| &d[p..q]), c.get(p..q));
        judge("SharedBytes[a..]", &format!("{p}.. of {n}"), may_panic(|| &d[p..]), c.get(p..));
        judge("SharedBytes[..b]", &format!("..{p} of {n}"), may_panic(|| &d[..p]), c.get(..p));
        check_eq!(&d[..], &c[..], "SharedBytes[..]");
    }
    check_eq!(d.as_slice(), &c[..], "value sliced from");
    if let Some(k) = keep {
        drop(d);
        check_eq!(k.as_slice(), &c[..], "other handle of the value sliced from");
    }
}

fn text_one<R>(cx: &mut Ctx, d: &StringData<'static>, s: &str, r: R)
where
    R: std::ops::RangeBounds<usize> + std::slice::SliceIndex<str, Output = str> + std::slice::SliceIndex<[u8], Output = [u8]> + Clone + std::fmt::Debug,
{
    let want = s.get(r.clone()).map(str::as_bytes);
    let arg = format!("{r:?} of {}", s.len());
    cx.ev("sd_range", want.map_or(u64::MAX, |w| w.len() as u64));
    cx.count(if want.is_some() { "range_valid" } else { "range_rejected" });
    cx.note(|| arg.clone());
    let g = may_panic(|| d.sliced(r.clone()));
    judge("StringData::sliced", &arg, g.as_ref().map(|x| x.as_bytes()), want);
    drop(g);
    let g = may_panic(|| d.clone().into_sliced(r.clone()));
    judge("StringData::into_sliced", &arg, g.as_ref().map(|x| x.as_bytes()), want);
    drop(g);
    let mut e = d.clone();
    let ok = may_panic(|| {
        e.make_sliced(r.clone());
    })
    .is_some();
    judge("StringData::make_sliced", &arg, ok.then(|| e.as_bytes()), want);
    if !ok {
        check_eq!(e.as_str(), s, "StringData after rejected make_sliced({arg})");
    }
    let g = may_panic(|| d.clone().into_shared_range(r.clone()));
    judge("StringData::into_shared_range", &arg, g.as_ref().map(|x| x.as_bytes()), want);
}

fn text_case(cx: &mut Ctx) {
    let ar = Arena::new();
    let s = gen::text(&mut cx.rng);
    let d = gen::sd(cx, &ar, &s);
    for _ in 0..6 {
        all_ranges!(cx, s.len(), r, { text_one(cx, &d, &s, r) });
    }
    let p = pos(cx, s.len());
    let want = s.is_char_boundary(p).then(|| s.split_at(p));
    match (may_panic(|| d.clone().split_at(p)), want) {
        (Some((x, y)), Some((wx, wy))) => {
            check_eq!(x.as_str(), wx, "StringData::split_at({p}) first");
            check_eq!(y.as_str(), wy, "StringData::split_at({p}) second");
        }
        (None, None) => {}
        (g, _) => {
            check!(false, "StringData::split_at({p}) of {} byte(s): {}", s.len(), if g.is_some() { "accepted" } else { "rejected" });
        }
    }
    let k = cx.rng.below(s.chars().count() + 2);
    let mut seen = 0;
    let mut chars = s.chars();
    let mut e = d.clone();
    let t = StringData::take_while(&mut e, |ch| {
        check!(chars.next() == Some(ch), "take_while shows a wrong char at {seen}");
        seen += 1;
        seen <= k
    });
    let at = s.char_indices().nth(k).map_or(s.len(), |x| x.0);
    check_eq!(t.as_str(), &s[..at], "StringData::take_while result");
    check_eq!(e.as_str(), &s[at..], "StringData after take_while");
    let mut e = d.clone();
    let (mut rest, mut lines) = (&s[..], 0);
    // every line in turn, terminator included
    while !rest.is_empty() && lines < 60 {
        let cut = rest.find('\n').map_or(rest.len(), |i| i + 1);
        let l = e.take_line();
        check_eq!(l.as_str(), &rest[..cut], "StringData::take_line");
        check_eq!(e.as_str(), &rest[cut..], "StringData after take_line");
        rest = &rest[cut..];
        lines += 1;
    }
    check_eq!(d.trim().as_str(), s.trim(), "trim");
    check_eq!(d.trim_start().as_str(), s.trim_start(), "trim_start");
    check_eq!(d.trim_end().as_str(), s.trim_end(), "trim_end");
}

fn chunk_case(cx: &mut Ctx) {
    let n = cx.rng.below(15);
    let c = gen::bytes_n(&mut cx.rng, n);
    let d = ByteChunk::from_slice(&c);
    cx.ev("chunk", n as u64);
    check_eq!(d.as_slice(), &c[..], "ByteChunk content");
    check_eq!((d.len(), d.is_empty()), (n, n == 0), "ByteChunk length");
    let n2 = cx.rng.range(15, 300);
    let big = gen::bytes_n(&mut cx.rng, n2);
    check!(may_panic(|| ByteChunk::from_slice(&big)).is_none(), "ByteChunk::from_slice accepted {} bytes", big.len());
    check!(may_panic(|| ByteData::from_chunk_slice(&big)).is_none(), "ByteData::from_chunk_slice accepted {} bytes", big.len());
    for _ in 0..6 {
        let r = (bound(cx, n), bound(cx, n));
        let want = c.get(r);
        let arg = format!("{r:?} of {n}");
        cx.ev("chunk_range", want.map_or(u64::MAX, |w| w.len() as u64));
        cx.count(if want.is_some() { "range_valid" } else { "range_rejected" });
        let g = may_panic(|| d.sliced(r));
        judge("ByteChunk::sliced", &arg, g.as_ref().map(|x| x.as_slice()), want);
        let g = may_panic(|| d.clone().into_sliced(r));
        judge("ByteChunk::into_sliced", &arg, g.as_ref().map(|x| x.as_slice()), want);
        let mut e = d.clone();
        let ok = may_panic(|| {
            e.make_sliced(r);
        })
        .is_some();
        judge("ByteChunk::make_sliced", &arg, ok.then(|| e.as_slice()), want);
        if !ok {
            check_eq!(e.as_slice(), &c[..], "ByteChunk after rejected make_sliced({arg})");
        }
    }
}

pub fn run(cx: &mut Ctx) {
    match cx.rng.below(8) {
        0..=3 => bytes_case(cx),
        4 | 5 => shared_case(cx),
        6 => text_case(cx),
        _ => chunk_case(cx),
    }
}

//! Programs that need no feature at all.
use crate::{hash, Cx};
use bytedata::*;

fn value(cx: &mut Cx, d: &'static [u8]) -> ByteData<'static> {
    match cx.r.below(4) {
        0 => ByteData::from_static(d),
        1 => ByteData::from_borrowed(d),
        2 if d.len() <= 14 => ByteData::from_chunk_slice(d),
        2 if d.len() == 1 => ByteData::from_byte(d[0]),
        _ => ByteData::from(d),
    }
}
fn text(cx: &mut Cx, d: &'static str) -> StringData<'static> {
    match cx.r.below(4) {
        0 => StringData::from_static(d),
        1 => StringData::from_borrowed(d),
        2 if d.len() <= 14 => StringData::try_from_bytedata(ByteData::from_chunk_slice(d.as_bytes())).unwrap(),
        _ => StringData::from(d),
    }
}
pub fn show(cx: &mut Cx, what: &str, b: &ByteData<'_>) {
    cx.put(what, (b.len(), b.is_empty(), b.as_slice()));
}
pub fn shows(cx: &mut Cx, what: &str, b: &StringData<'_>) {
    cx.put(what, (b.len(), b.is_empty(), b.as_str()));
}

fn bytes(cx: &mut Cx) {
    let d = cx.bytes(60);
    let mut b = value(cx, d);
    for _ in 0..cx.r.range(3, 10) {
        let n = b.len();
        match cx.r.below(20) {
            0 => {
                let (s, e) = cx.span(n);
                cx.call("sliced", || b.sliced(s..e));
            }
            1 => {
                let (s, _) = cx.span(n);
                cx.call("sliced from", || b.sliced(s..));
                cx.call("sliced to", || b.sliced(..s));
                cx.call("sliced to=", || b.sliced(..=s));
            }
            2 => {
                let (s, e) = cx.span(n);
                let c = b.clone();
                cx.call("into_sliced", move || c.into_sliced(s..=e));
            }
            3 => {
                let (s, e) = cx.span(n);
                let mut c = b.clone();
                cx.run("make_sliced", || {
                    c.make_sliced(s..e);
                });
                show(cx, "after", &c);
            }
            4 => {
                let p = cx.pos(n);
                if let Some(x) = cx.run("take_bytes", || b.take_bytes(p)) {
                    show(cx, "taken", &x);
                }
            }
            5 => {
                let k = cx.r.u64() as u8;
                let x = ByteData::take_while(&mut b, |c| c > k);
                show(cx, "take_while", &x);
            }
            6 => {
                let p = cx.pos(n);
                let c = b.clone();
                cx.call("split_at", move || c.split_at(p));
            }
            7 => {
                let nd = cx.bytes(3);
                let c = b.clone();
                cx.call("split_once_on", move || c.split_once_on(nd).map_err(|e| e.len()));
                let c = b.clone();
                cx.call("split_on", move || c.split_on(nd).take(70).map(|x| x.as_slice().to_vec()).collect::<Vec<_>>());
            }
            8 => {
                let nd = cx.bytes(4);
                cx.put("with", (b.starts_with(nd), b.ends_with(nd), b.eq_slice(nd)));
            }
            9 => {
                let o = cx.bytes(10);
                let o = value(cx, o);
                cx.put("cmp", (b == o, PartialOrd::partial_cmp(&b, &o), Ord::cmp(&b, &o), b.eq_const(&o), b == *o.as_slice(), PartialOrd::partial_cmp(&b, o.as_slice())));
            }
            10 => cx.put("hash", (hash(&b), hash(b.as_slice()))),
            11 => cx.put("hex", (format!("{b:x}"), format!("{b:X}"), format!("{b:#x}"), format!("{b:08x}"))),
            12 => cx.put("debug", format!("{b:?} {b:#?}")),
            13 => {
                let k = cx.r.below(5);
                cx.put("next", (0..k).map(|_| Iterator::next(&mut b)).collect::<Vec<_>>());
                cx.put("hint", Iterator::size_hint(&b));
            }
            14 => {
                let p = cx.pos(n);
                cx.call("index", || b[p]);
            }
            15 => cx.put("borrowed", b.as_borrowed()),
            16 => {
                let x = b.clone().statically_borrowed();
                show(cx, "statically_borrowed", &x);
            }
            17 => cx.call("text", || StringData::try_from_bytedata(b.clone()).map(|s| s.as_str().len()).map_err(|e| e.len())),
            18 => {
                let r = ByteStringRender::from_slice(b.as_slice());
                cx.put("render", format!("{r} {r:?} {r:x} {r:X}"));
            }
            _ => {
                let d = cx.bytes(40);
                b = value(cx, d);
            }
        }
        show(cx, "value", &b);
    }
}

fn strings(cx: &mut Cx) {
    let d = cx.text(60);
    let mut b = text(cx, d);
    for _ in 0..cx.r.range(3, 10) {
        let n = b.len();
        match cx.r.below(16) {
            0 => {
                let (s, e) = cx.span(n);
                cx.call("sliced", || b.sliced(s..e));
                let c = b.clone();
                cx.call("into_sliced", move || c.into_sliced(s..));
            }
            1 => {
                let (s, e) = cx.span(n);
                let mut c = b.clone();
                cx.run("make_sliced", || {
                    c.make_sliced(s..e);
                });
                shows(cx, "after", &c);
            }
            2 => {
                let x = b.take_line();
                shows(cx, "take_line", &x);
            }
            3 => {
                let x = StringData::take_while(&mut b, |c| c != ' ');
                shows(cx, "take_while", &x);
            }
            4 => {
                let p = cx.pos(n);
                let c = b.clone();
                cx.call("split_at", move || c.split_at(p));
            }
            5 => {
                let nd = cx.text(4);
                let c = b.clone();
                cx.call("split_once_on", move || c.split_once_on(nd).map_err(|e| e.len()));
                let c = b.clone();
                cx.call("split_on", move || c.split_on(nd).take(70).map(|x| x.as_str().to_string()).collect::<Vec<_>>());
            }
            6 => cx.put("trim", (b.trim().as_str(), b.trim_start().as_str(), b.trim_end().as_str())),
            7 => {
                let o = cx.text(6);
                cx.put("with", (b.starts_with(o), b.ends_with(o), b.eq_str(o), b.eq_slice(o.as_bytes())));
                let o = text(cx, o);
                cx.put("cmp", (b == o, PartialOrd::partial_cmp(&b, &o), Ord::cmp(&b, &o), b.eq_const(&o), b == *o.as_bytedata(), b == *o.as_str()));
            }
            8 => cx.put("hash", (hash(&b), hash(b.as_str()))),
            9 => cx.put("format", format!("{b} {b:?} {b:>12} {b:.3} {b:*^9}")),
            10 => {
                let k = cx.r.below(5);
                cx.put("next", (0..k).map(|_| Iterator::next(&mut b)).collect::<Vec<_>>());
                cx.put("hint", Iterator::size_hint(&b));
            }
            11 => cx.put("iter", StringData::iter(&b).rev().collect::<Vec<char>>()),
            12 => cx.put("borrowed", b.as_borrowed()),
            13 => {
                let x = b.clone().into_bytedata();
                show(cx, "bytes", &x);
                let x = b.clone().statically_borrowed();
                shows(cx, "static", &x);
            }
            _ => {
                let d = cx.text(40);
                b = text(cx, d);
            }
        }
        shows(cx, "value", &b);
    }
}

fn helpers(cx: &mut Cx) {
    for _ in 0..6 {
        let (a, b) = (cx.bytes(30), cx.bytes(3));
        let (s, t) = (cx.text(30), cx.text(4));
        match cx.r.below(8) {
            0 => cx.put("eq", (const_eq(a, b), const_starts_with(a, b), const_ends_with(a, b))),
            1 => {
                let (x, y) = cx.span(a.len());
                cx.call("slice", || const_slice(a, x..y));
                cx.call("slice_str", || const_slice_str(s, x..y).ok());
            }
            2 => {
                cx.put("find", const_find_bytes(a, b));
                let n = cx.r.u64() as u8;
                cx.put("split", const_split_once_byte(a, n));
                cx.put("split", const_split_once_bytes(a, b));
                cx.put("split", const_split_once_str(s, t));
            }
            3 => cx.call("char_next", || const_utf8_char_next(a)),
            4 => {
                cx.put("or", (const_or_bytes(None, a), const_or_str(Some(s), t)));
                cx.put("build", build_const_bytes::<8>([0; 8], &[&a[..a.len().min(4)], b]));
            }
            5 => {
                let v: Vec<_> = Utf8CharIndices::new(a).take(40).map(|x| x.ok()).collect();
                cx.put("decode", v);
                let v: Vec<_> = Utf8CharIndices::new(s.as_bytes()).map(|x| x.ok()).collect();
                cx.put("decode", v);
            }
            6 => {
                cx.call("chunk", || ByteChunk::from_slice(a).as_slice().to_vec());
                let c = ByteChunk::from_slice(&a[..a.len().min(14)]);
                cx.put("chunk", (c.len(), c.is_empty(), format!("{c:?}")));
                let (x, y) = cx.span(c.len());
                cx.call("chunk sliced", || c.sliced(x..y).as_slice().to_vec());
            }
            _ => {
                use std::fmt::Write;
                let mut c = ByteChunk::from_slice(b);
                let r: Vec<bool> = s.split(' ').map(|p| c.write_str(p).is_ok()).collect();
                cx.put("chunk write", (r, c.as_slice()));
            }
        }
    }
}

pub fn run(cx: &mut Cx) {
    match cx.r.below(5) {
        0 | 1 => bytes(cx),
        2 | 3 => strings(cx),
        _ => helpers(cx),
    }
}

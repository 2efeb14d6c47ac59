//! Programs that need heap support.
use crate::plain::{show, shows};
use crate::{hash, Cx};
use bytedata::*;
use std::borrow::Cow;

fn value(cx: &mut Cx, d: &'static [u8]) -> ByteData<'static> {
    match cx.r.below(12) {
        0 => ByteData::from_owned(d.to_vec()),
        1 => ByteData::from_shared(SharedBytes::from_slice(d)),
        2 => ByteData::from_external(d.to_vec()),
        3 => ByteData::from_external(d.to_vec().into_boxed_slice()),
        4 => ByteData::from_cow(Cow::Owned(d.to_vec())),
        5 => ByteData::from_cow_static(Cow::Borrowed(d)),
        6 => ByteData::from_borrowed(d).into_shared(),
        7 => ByteData::from_concat(&[&d[..d.len() / 2], &d[d.len() / 2..]]),
        8 => d.iter().copied().collect(),
        9 => {
            let mut b = SharedBytesBuilder::with_capacity(d.len() / 2);
            b.extend_from_slice(d);
            ByteData::from(b.build())
        }
        10 => ByteData::from(d.to_vec()),
        _ => ByteData::from_static(d),
    }
}

pub fn run(cx: &mut Cx) {
    let d = cx.bytes(80);
    let mut b = value(cx, d);
    let mut sb = SharedBytes::from_slice(d);
    let mut bl = SharedBytesBuilder::new();
    let mut sl = SharedStrBuilder::new();
    for _ in 0..cx.r.range(4, 14) {
        let n = b.len();
        match cx.r.below(24) {
            0 | 1 => {
                let d = cx.bytes(60);
                b = value(cx, d);
            }
            2 => {
                let (s, e) = cx.span(n);
                let c = b.clone();
                cx.call("into_shared_range", move || c.into_shared_range::<_>(s..e));
            }
            3 => {
                let p = cx.pos(n);
                if let Some(x) = cx.run("take_bytes", || b.take_bytes(p)) {
                    show(cx, "taken", &x);
                }
            }
            4 => {
                let (s, e) = cx.span(n);
                cx.call("sliced", || b.sliced(s..e));
                cx.run("make_sliced", || {
                    b.make_sliced(s..e);
                });
            }
            5 => {
                let v: Vec<u8> = b.clone().into();
                let c: Cow<'_, [u8]> = b.clone().into();
                cx.put("vec", (&v, &*c, b == v, PartialOrd::partial_cmp(&b, &v)));
            }
            6 => {
                let t: SharedBytes = b.clone().into();
                cx.put("shared", (t.as_slice(), t == *b.as_slice(), t.is_unique()));
                sb = t;
            }
            7 => {
                let x = std::mem::take(&mut bl).build();
                cx.put("build", x.as_slice());
                b = x.into();
            }
            8 => {
                let t = cx.text(40);
                let s: StringData<'static> = match cx.r.below(5) {
                    0 => StringData::from_owned(t.into()),
                    1 => StringData::from_cow(Cow::Owned(t.into())),
                    2 => StringData::from_concat(&[t, "x"]),
                    3 => StringData::from_borrowed(t).into_shared(),
                    _ => StringData::try_from_shared(SharedBytes::from_slice(t.as_bytes())).unwrap(),
                };
                shows(cx, "text", &s);
                let x: String = s.clone().into();
                cx.put("string", (x.as_str(), s == x, hash(&s)));
                let (a, e) = cx.span(x.len());
                cx.call("text range", || s.into_shared_range::<_>(a..e));
            }
            9 => cx.call("utf8", || StringData::try_from_shared(sb.clone()).map(|s| s.len()).map_err(|e| e.len())),
            10 => {
                let (o, l) = (cx.pos(sb.len()), cx.pos(sb.len()));
                cx.call("sb.sliced", || sb.sliced(o, l).as_slice().to_vec());
                let (s, e) = cx.span(sb.len());
                cx.call("sb.sliced_range", || sb.sliced_range(s..e).as_slice().to_vec());
                cx.run("sb.make_sliced_range", || {
                    sb.make_sliced_range(s..=e);
                });
                cx.put("sb", sb.as_slice());
            }
            11 => {
                cx.put("sb fmt", format!("{sb:x} {sb:X}"));
                cx.put("sb cmp", (sb == *d, sb.cmp(&SharedBytes::from_slice(d)), hash(&sb)));
            }
            12 | 13 => {
                let d = cx.bytes(90);
                bl.extend_from_slice(d);
            }
            14 => {
                let k = cx.pos(bl.len());
                bl.truncate(k.min(1000));
                let k = cx.r.below(200);
                bl.reserve(k);
                cx.put("cap", bl.capacity() >= bl.len() + k);
            }
            15 => {
                bl.as_slice_mut().iter_mut().for_each(|x| *x = x.wrapping_add(1));
                bl.extend([1u8, 2, 3]);
            }
            16 => {
                use std::fmt::Write;
                cx.put("fmt", write!(bl, "{n:5}|{:?}", d).is_ok());
            }
            17 => {
                let t = cx.text(30);
                sl.push_str(t);
                sl.push('é');
                let k = cx.pos(sl.len());
                cx.run("sl.truncate", || sl.truncate(k));
                cx.put("sl", (sl.as_str(), sl.len(), sl.is_empty()));
            }
            18 => {
                let s = std::mem::take(&mut sl).build_str();
                shows(cx, "build_str", &s);
                let r = SharedStrBuilder::try_from(SharedBytesBuilder::from(SharedBytes::from_slice(d)));
                cx.put("try_from", r.map(|x| x.as_str().to_string()).map_err(|_| ()));
            }
            19 => {
                bl = SharedBytesBuilder::from(sb.clone());
                if cx.r.chance(1, 2) {
                    sb = SharedBytes::default();
                }
            }
            20 => {
                let a = 1 << cx.r.below(7);
                let x = SharedBytes::from_slice_aligned(d, a);
                cx.put("aligned", (x.as_slice(), d.is_empty() || x.as_slice().as_ptr() as usize % a == 0));
            }
            21 => {
                let k = cx.r.below(40);
                let r = bl.apply_unfilled(|s| {
                    let n = s.len().min(k);
                    for x in &mut s[..n] {
                        *x = std::mem::MaybeUninit::new(7);
                    }
                    ((), n)
                });
                cx.put("unfilled", r);
                let keep = bl.len().min(30);
                bl.truncate(keep);
            }
            22 => {
                cx.put("take external", ByteData::from_external(d.to_vec()).as_slice());
                let x = b.clone();
                drop(std::mem::replace(&mut b, ByteData::empty()));
                b = x;
            }
            _ => cx.put("cmp", (Ord::cmp(&b, &ByteData::from(sb.clone())), hash(&b))),
        }
        show(cx, "value", &b);
        cx.put("builder", &*bl);
    }
}

#[cfg(feature = "std")]
pub fn io(cx: &mut Cx) {
    use std::io::{BufRead, Read, Write};
    let d = cx.bytes(80);
    let mut b = value(cx, d);
    let mut o = SharedBytesBuilder::new();
    for _ in 0..cx.r.range(3, 10) {
        match cx.r.below(8) {
            0 | 1 => {
                let mut x = vec![0xEE; cx.r.below(30)];
                let r = b.read(&mut x).map_err(|e| e.kind());
                cx.put("read", (r, x));
            }
            2 => {
                let mut x = vec![0xEE; cx.r.below(30)];
                let r = b.read_exact(&mut x).map_err(|e| e.kind());
                cx.put("read_exact", r);
                if r.is_err() {
                    return;
                }
                cx.put("got", x);
            }
            3 => {
                let mut v = vec![];
                let r = b.read_until(b'a', &mut v).map_err(|e| e.kind());
                cx.put("read_until", (r, v));
            }
            4 => {
                let n = b.fill_buf().map(|x| x.len()).unwrap_or(0);
                let k = cx.r.below(n + 1);
                b.consume(k);
                cx.put("consume", k);
            }
            5 => {
                let mut v = vec![];
                let mut c = b.clone();
                let r = c.read_to_end(&mut v).map_err(|e| e.kind());
                cx.put("read_to_end", (r, v));
                let mut s = String::new();
                let r = b.clone().read_to_string(&mut s).map_err(|e| e.kind());
                cx.put("read_to_string", (r.is_ok(), s));
            }
            _ => {
                let d = cx.bytes(40);
                let r = o.write(d).map_err(|e| e.kind());
                cx.put("write", (r, o.flush().is_ok()));
                cx.put("written", &*o);
            }
        }
        show(cx, "left", &b);
    }
}

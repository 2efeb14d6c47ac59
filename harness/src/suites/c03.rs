//! Text validity: whatever is done, every text value holds valid UTF-8.
use super::c18::hostile_utf8;
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::interning::ByteInterning;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use serde::de::value::{BorrowedBytesDeserializer, BytesDeserializer, Error as DeError, SeqDeserializer};
use serde::de::Deserialize;
use std::fmt::Write as _;

enum T {
    D(StringData<'static>),
    Q(StringQueue<'static>),
    B(SharedStrBuilder),
}
struct V {
    t: T,
    m: String,
}

fn valid(b: &[u8], what: &str) {
    check!(std::str::from_utf8(b).is_ok(), "{what} holds invalid UTF-8: {b:02x?}");
}

fn verify(v: &V, what: &str) {
    match &v.t {
        T::D(d) => {
            valid(d.as_bytes(), what);
            valid(d.as_bytedata().as_slice(), what);
            check_eq!(d.as_bytes(), v.m.as_bytes(), "{what}: text");
        }
        T::Q(q) => {
            let mut all = Vec::new();
            for c in q.chunks() {
                valid(c.as_bytes(), "a chunk of a string queue");
                all.extend_from_slice(c.as_bytes());
            }
            for c in q.byte_chunks() {
                valid(c.as_slice(), "a byte chunk of a string queue");
            }
            check_eq!(all, v.m.as_bytes(), "{what}: text of the queue");
            check_eq!(q.chars().collect::<String>(), v.m, "{what}: chars of the queue");
        }
        T::B(b) => {
            valid(b.as_bytes(), what);
            check_eq!(b.as_bytes(), v.m.as_bytes(), "{what}: text of the builder");
        }
    }
}

/// An interner that does not return what it was given.
struct Fickle(ByteData<'static>, bool);
impl ByteInterning<'static> for Fickle {
    fn intern<'b>(&self, _: ByteData<'b>) -> Result<ByteData<'static>, ByteData<'b>> {
        if self.1 {
            Ok(self.0.clone())
        } else {
            Err(self.0.clone())
        }
    }
    fn intern_always<'b>(&self, _: ByteData<'b>) -> ByteData<'static> {
        self.0.clone()
    }
    fn get<'b>(&self, v: ByteData<'b>) -> Result<ByteData<'static>, ByteData<'b>> {
        self.intern(v)
    }
}

/// Raw bytes through every entrance to a text type.
fn entry(cx: &mut Ctx, ar: &Arena, v: &[u8]) -> Option<V> {
    let want = std::str::from_utf8(v);
    cx.ev(if want.is_ok() { "entry.valid" } else { "entry.invalid" }, v.len() as u64);
    for b in v.iter().take(12) {
        cx.mix(u64::from(*b));
    }
    cx.note(|| format!("text from {v:02x?}"));
    macro_rules! ok {
        ($got:expr, $what:literal) => {
            check_eq!($got, want.is_ok(), "{} of {v:02x?} accepted", $what);
        };
    }
    let k = cx.rng.below(10);
    cx.mix(k as u64);
    let t = match k {
        0 | 1 => {
            let d = gen::bd(cx, ar, v);
            let r = if k == 0 { StringData::try_from_bytedata(d) } else { StringData::try_from(d) };
            ok!(r.is_ok(), "StringData from ByteData");
            match r {
                Ok(s) => Some(T::D(s)),
                Err(d) => {
                    check_eq!(d.as_slice(), v, "bytes handed back by try_from_bytedata");
                    None
                }
            }
        }
        2 | 3 => {
            let d = SharedBytes::from_slice(v);
            let r = if k == 2 { StringData::try_from_shared(d) } else { StringData::try_from(d) };
            ok!(r.is_ok(), "StringData from SharedBytes");
            match r {
                Ok(s) => Some(T::D(s)),
                Err(d) => {
                    check_eq!(d.as_slice(), v, "bytes handed back by try_from_shared");
                    None
                }
            }
        }
        4 | 5 => {
            let mut b = SharedBytesBuilder::with_capacity(cx.rng.below(40));
            for p in v.chunks(3) {
                b.extend_from_slice(p);
            }
            let r = SharedStrBuilder::try_from(b);
            ok!(r.is_ok(), "SharedStrBuilder from SharedBytesBuilder");
            if let (Err(e), Err(w)) = (&r, &want) {
                check_eq!((e.valid_up_to(), e.error_len()), (w.valid_up_to(), w.error_len()), "error of SharedStrBuilder::try_from");
            }
            r.ok().map(T::B)
        }
        6 | 7 => {
            // text formats hand over strings; whatever else is accepted has to be valid
            let r = match cx.rng.below(4) {
                0 => StringData::deserialize(BorrowedBytesDeserializer::<DeError>::new(ar.stat(v))),
                1 => StringData::deserialize(BytesDeserializer::<DeError>::new(v)),
                2 => StringData::deserialize_static(BytesDeserializer::<DeError>::new(v)),
                _ => StringData::deserialize(SeqDeserializer::<_, DeError>::new(v.iter().copied())),
            };
            if r.is_ok() {
                ok!(true, "StringData from serialised bytes");
            }
            r.ok().map(T::D)
        }
        8 => {
            // an interner somebody else wrote, which answers with bytes of its own choice
            let i = Fickle(gen::bd(cx, ar, v), cx.rng.chance(1, 2));
            let given = StringData::from_borrowed(if cx.rng.chance(1, 2) { "given" } else { "" });
            let r = may_panic(|| match cx.rng.below(3) {
                0 => i.intern_str(given).unwrap_or_else(|x| x.into_shared()),
                1 => i.intern_always_str(given),
                _ => i.get_str(given).unwrap_or_else(|x| x.into_shared()),
            });
            if let Some(r) = &r {
                valid(r.as_bytes(), "text made through an interner");
                ok!(true, "StringData from an interner");
            }
            r.map(T::D)
        }
        _ => {
            let s = String::from_utf8_lossy(v).into_owned();
            let (r, m) = match cx.rng.below(3) {
                0 => (StringData::from(s.clone()), s),
                1 => (StringData::from_borrowed(ar.stat_str(&s)), s),
                _ => (StringData::from_concat(&[ar.stat_str(&s), "é", ar.stat_str(&s)]), format!("{s}é{s}")),
            };
            return Some(V { t: T::D(r), m });
        }
    };
    t.map(|t| V { t, m: want.expect("checked").to_string() })
}

/// any position, boundary or not, sometimes out of range
fn pos(cx: &mut Ctx, n: usize) -> usize {
    match cx.rng.below(16) {
        0 => n,
        1 => n + 1,
        2 => usize::MAX - cx.rng.below(2),
        _ => cx.rng.below(n + 1),
    }
}

fn step(cx: &mut Ctx, ar: &Arena, mut v: V) -> Vec<V> {
    let n = v.m.len();
    let (a, b) = (pos(cx, n), pos(cx, n));
    let (a, b) = if a > b && cx.rng.chance(7, 8) { (b, a) } else { (a, b) };
    let want = v.m.get(a..b).map(str::to_string);
    let at = v.m.is_char_boundary(a);
    let kind = cx.rng.below(16);
    let form = match &v.t {
        T::D(_) => 0,
        T::Q(q) => 100 + q.chunk_len() as u64,
        T::B(_) => 1,
    };
    cx.ev("text op", (kind as u64) * 4096 + form);
    cx.mix(((a.min(n + 2)) * 1000 + b.min(n + 2)) as u64);
    cx.mix(n as u64);
    cx.note(|| format!("op {kind} on form {form} {:?} with {a}..{b}", v.m));
    let mut out = Vec::new();
    macro_rules! agree {
        ($got:expr, $want:expr, $what:literal) => {
            check_eq!($got, $want, "{} with {a}..{b} accepted on {:?}", $what, v.m);
        };
    }
    match &mut v.t {
        T::D(d) => match kind {
            0..=2 => {
                let r = may_panic(|| if kind == 0 { d.clone().into_sliced(a..b) } else { d.sliced(a..b) });
                if let Some(s) = &r {
                    valid(s.as_bytes(), "a text slice");
                }
                agree!(r.is_some(), want.is_some(), "slicing");
                if let Some(s) = r {
                    out.push(V { t: T::D(s), m: want.unwrap() });
                }
            }
            3 => {
                let r = may_panic(|| d.make_sliced(a..b));
                valid(d.as_bytes(), "a text value after make_sliced");
                agree!(r.is_some(), want.is_some(), "make_sliced");
                if let Some(w) = want {
                    v.m = w;
                }
            }
            4 => {
                let r = may_panic(|| d.clone().split_at(a));
                if let Some((x, y)) = &r {
                    valid(x.as_bytes(), "left half of split_at");
                    valid(y.as_bytes(), "right half of split_at");
                }
                agree!(r.is_some(), at, "split_at");
                if let Some((x, y)) = r {
                    out.push(V { t: T::D(x), m: v.m[..a].to_string() });
                    out.push(V { t: T::D(y), m: v.m[a..].to_string() });
                }
            }
            5 => {
                let r = may_panic(|| d.clone().into_shared_range(a..b));
                if let Some(s) = &r {
                    valid(s.as_bytes(), "into_shared_range of text");
                }
                agree!(r.is_some(), want.is_some(), "into_shared_range");
            }
            6 => {
                let stop = cx.rng.below(4);
                let mut k = 0;
                let t = StringData::take_while(d, |_| {
                    k += 1;
                    k <= stop
                });
                let cut: usize = v.m.chars().take(stop).map(char::len_utf8).sum();
                out.push(V { t: T::D(t), m: v.m[..cut].to_string() });
                v.m.drain(..cut);
            }
            7 => {
                // taking chars from the front
                let k = cx.rng.below(4);
                for _ in 0..k {
                    let c = d.next();
                    valid(d.as_bytes(), "a text value after next()");
                    let w = v.m.chars().next();
                    check_eq!(c, w, "next char");
                    v.m.drain(..w.map_or(0, char::len_utf8));
                }
            }
            8 => {
                let t = d.take_line();
                let cut = v.m.find('\n').map_or(n, |i| i + 1);
                out.push(V { t: T::D(t), m: v.m[..cut].to_string() });
                v.m.drain(..cut);
            }
            9 => {
                let (t, w) = match cx.rng.below(3) {
                    0 => (d.trim(), v.m.trim()),
                    1 => (d.trim_start(), v.m.trim_start()),
                    _ => (d.trim_end(), v.m.trim_end()),
                };
                out.push(V { t: T::D(t), m: w.to_string() });
            }
            10 => {
                let needle = if let Some(w) = &want { w.clone() } else { gen::ch(&mut cx.rng).to_string() };
                for p in StringData::split_on(d.clone(), &needle).take(5) {
                    valid(p.as_bytes(), "a piece of split text");
                }
                match d.clone().split_once_on(&needle) {
                    Ok((x, y)) => {
                        valid(x.as_bytes(), "first part");
                        valid(y.as_bytes(), "second part");
                    }
                    Err(x) => valid(x.as_bytes(), "unsplit part"),
                }
            }
            11 => {
                let b = SharedStrBuilder::from(d.clone());
                out.push(V { t: T::B(b), m: v.m.clone() });
            }
            12 => {
                // parser inputs are cut by position
                use nom::{InputTake, Slice};
                let r = may_panic(|| d.take_split(a));
                if let Some((x, y)) = &r {
                    valid(x.as_bytes(), "take_split");
                    valid(y.as_bytes(), "take_split");
                }
                agree!(r.is_some(), at, "nom take_split");
                let r = may_panic(|| d.slice(a..b));
                if let Some(x) = &r {
                    valid(x.as_bytes(), "nom slice");
                }
                agree!(r.is_some(), want.is_some(), "nom slice");
            }
            13 => {
                let s: String = d.clone().into();
                valid(s.as_bytes(), "String from StringData");
                check_eq!(s, v.m, "String from StringData");
                out.push(V { t: T::Q(StringQueue::from(s)), m: v.m.clone() });
            }
            14 => {
                let mut q = StringQueue::from(d.clone());
                let t = gen::text_n(&mut cx.rng, 5);
                q.push_back(ar.stat_str(&t));
                out.push(V { t: T::Q(q), m: v.m.clone() + &t });
            }
            _ => {
                // bytes of the text cut anywhere come back as text only when valid
                let e = cx.rng.below(n + 1);
                let x = d.as_bytedata().sliced(..e);
                let w = std::str::from_utf8(&v.m.as_bytes()[..e]).is_ok();
                check_eq!(StringData::try_from_bytedata(x).is_ok(), w, "text cut at byte {e} of {:?}", v.m);
            }
        },
        T::Q(q) => match kind {
            0..=2 => {
                let r = may_panic(|| q.slice(a..b));
                if let Some(s) = &r {
                    s.chunks().for_each(|c| valid(c.as_bytes(), "a chunk of a slice"));
                }
                agree!(r.is_some(), want.is_some(), "queue slice");
                if let Some(s) = r {
                    out.push(V { t: T::Q(s), m: want.unwrap() });
                }
            }
            3 | 4 => {
                let r = may_panic(|| q.split_off(a));
                q.chunks().for_each(|c| valid(c.as_bytes(), "a chunk after split_off"));
                agree!(r.is_some(), at, "split_off");
                if let Some(s) = r {
                    s.chunks().for_each(|c| valid(c.as_bytes(), "a chunk split off"));
                    out.push(V { t: T::Q(s), m: v.m.split_off(a) });
                }
            }
            5 | 6 => {
                let take = cx.rng.below(4);
                let forget = cx.rng.chance(1, 8);
                let r = may_panic(|| {
                    let mut dr = q.drain(a..b);
                    let got: String = dr.by_ref().take(take).collect();
                    if forget {
                        // a leaked drain must not leave broken text behind either
                        std::mem::forget(dr);
                    }
                    got
                });
                q.chunks().for_each(|c| valid(c.as_bytes(), "a chunk after drain"));
                agree!(r.is_some(), want.is_some(), "drain");
                if let (Some(g), Some(w)) = (r, want) {
                    check_eq!(g, w.chars().take(take).collect::<String>(), "drained chars");
                    if forget {
                        let mut s = String::new();
                        q.chunks().for_each(|c| s.push_str(c.as_str()));
                        v.m = s;
                    } else {
                        v.m.replace_range(a..b, "");
                    }
                }
            }
            7 | 8 => {
                let t = gen::text_n(&mut cx.rng, 4);
                let d = gen::sd(cx, ar, &t);
                let r = may_panic(|| q.replace_range(a..b, d));
                q.chunks().for_each(|c| valid(c.as_bytes(), "a chunk after replace_range"));
                agree!(r.is_some(), want.is_some(), "replace_range");
                if r.is_some() {
                    v.m.replace_range(a..b, &t);
                }
            }
            9 => {
                let stop = cx.rng.below(6);
                let mut k = 0;
                let t = q.take_while(|_| {
                    k += 1;
                    k <= stop
                });
                let cut: usize = v.m.chars().take(stop).map(char::len_utf8).sum();
                out.push(V { t: T::Q(t), m: v.m[..cut].to_string() });
                v.m.drain(..cut);
            }
            10 => {
                let t = q.take_line();
                let cut = v.m.find('\n').map_or(n, |i| i + 1);
                out.push(V { t: T::Q(t), m: v.m[..cut].to_string() });
                v.m.drain(..cut);
            }
            11 => {
                let needle = if let Some(w) = &want { w.clone() } else { gen::ch(&mut cx.rng).to_string() };
                for p in q.split_on(&needle).take(5) {
                    for c in p.chunks() {
                        valid(c.as_bytes(), "a chunk of a split piece");
                    }
                }
            }
            12 => {
                use nom::{InputTake, Slice};
                let r = may_panic(|| q.take_split(a));
                if let Some((x, y)) = &r {
                    x.chunks().chain(y.chunks()).for_each(|c| valid(c.as_bytes(), "take_split of a queue"));
                }
                agree!(r.is_some(), at, "nom take_split");
                let r = may_panic(|| q.slice(a..b));
                if let Some(x) = &r {
                    x.chunks().for_each(|c| valid(c.as_bytes(), "nom slice of a queue"));
                }
                let r = may_panic(|| Slice::slice(&*q, a..));
                if let Some(x) = &r {
                    x.chunks().for_each(|c| valid(c.as_bytes(), "nom slice of a queue"));
                }
                agree!(r.is_some(), at, "nom slice");
            }
            13 => {
                let q2 = std::mem::take(q);
                let d: StringData<'static> = q2.into();
                valid(d.as_bytes(), "StringData from a queue");
                v.t = T::D(d);
            }
            14 => {
                let (f, m) = if cx.rng.chance(1, 2) {
                    let c = q.pop_front();
                    let l = c.as_ref().map_or(0, |c| c.len());
                    (c, v.m.drain(..l).collect::<String>())
                } else {
                    let c = q.pop_back();
                    let l = c.as_ref().map_or(0, |c| c.len());
                    (c, v.m.split_off(n - l))
                };
                if let Some(f) = f {
                    out.push(V { t: T::D(f), m });
                }
            }
            _ => {
                let t = gen::text_n(&mut cx.rng, 3);
                let _ = q.write_str(&t);
                v.m.push_str(&t);
            }
        },
        T::B(b2) => match kind {
            0..=4 => {
                let mut m = v.m.clone();
                let w = may_panic(|| m.truncate(a));
                let r = may_panic(|| b2.truncate(a));
                valid(b2.as_bytes(), "a builder after truncate");
                agree!(r.is_some(), w.is_some(), "truncate");
                v.m = m;
            }
            5..=7 => {
                let c = gen::ch(&mut cx.rng);
                b2.push(c);
                v.m.push(c);
            }
            8 | 9 => {
                let t = gen::text_n(&mut cx.rng, 6);
                b2.push_str(&t);
                v.m.push_str(&t);
            }
            10 => {
                let _ = write!(b2, "{:>4}{}", 'é', n);
                let _ = write!(v.m, "{:>4}{}", 'é', n);
            }
            11 => {
                b2.clear();
                v.m.clear();
            }
            12 => {
                let d = std::mem::take(b2).build();
                check_eq!(d.as_slice(), v.m.as_bytes(), "built bytes");
                match StringData::try_from_shared(d) {
                    Ok(d) => v.t = T::D(d),
                    Err(_) => {
                        check!(false, "bytes built from text are refused as text: {:?}", v.m);
                    }
                }
            }
            _ => {
                let d = std::mem::take(b2).build_str();
                v.t = T::D(d);
            }
        },
    }
    out.push(v);
    for o in &out {
        verify(o, "after a text operation");
    }
    out
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    let mut pool: Vec<V> = Vec::new();
    for _ in 0..cx.rng.range(1, 3) {
        let h = hostile_utf8(cx, 24);
        if let Some(v) = entry(cx, &ar, &h) {
            verify(&v, "fresh text");
            pool.push(v);
        }
    }
    let k = gen::small_len(&mut cx.rng);
    let t = gen::text_n(&mut cx.rng, k);
    if let Some(v) = entry(cx, &ar, t.as_bytes()) {
        pool.push(v);
    }
    let k = gen::small_len(&mut cx.rng);
    let t = gen::text_n(&mut cx.rng, k);
    let q = gen::q::mk_sq(cx, &ar, &t);
    pool.push(V { t: T::Q(q), m: t });
    for _ in 0..cx.rng.range(4, 14) {
        if pool.is_empty() {
            break;
        }
        let i = cx.rng.below(pool.len());
        let v = pool.swap_remove(i);
        let mut o = step(cx, &ar, v);
        pool.append(&mut o);
        while pool.len() > 8 {
            let i = cx.rng.below(pool.len());
            pool.swap_remove(i);
        }
    }
    for v in &pool {
        verify(v, "at the end of the history");
    }
    let _ = ByteData::empty();
    drop(pool);
    ar.audit_exts();
}

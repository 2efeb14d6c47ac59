//! A walk over the conversions between the library's types: one content, converted at every step into
//! another type by one of the conversions there are from the current one, read in every way there is.
//! Sharers kept on the way are re-read after every step; text conversions of non-text must hand the
//! bytes back.
use crate::core::{Ctx, Rng};
use crate::gen::{self, q, Arena};
use crate::{check, check_eq};
use bytedata::{ByteChunk, ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use std::borrow::{Borrow, Cow};
use std::str::FromStr;

enum V {
    Bd(ByteData<'static>),
    Sd(StringData<'static>),
    Sb(SharedBytes),
    Sbb(SharedBytesBuilder),
    Ssb(SharedStrBuilder),
    Bq(ByteQueue<'static>),
    Sq(StringQueue<'static>),
    Raw(Vec<u8>),
    Str(String),
    CowB(Cow<'static, [u8]>),
    CowS(Cow<'static, str>),
}
use V::*;

fn bq_bytes(x: &ByteQueue<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    x.chunks().for_each(|c| v.extend_from_slice(c.as_slice()));
    v
}
fn sq_bytes(x: &StringQueue<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    x.chunks().for_each(|c| v.extend_from_slice(c.as_bytes()));
    v
}

/// Reads the value in every way its type offers.
fn read(v: &V, m: &[u8], what: &str) {
    macro_rules! same {
        ($($e:expr, $n:literal;)*) => { $( let g: &[u8] = $e; check_eq!(g, m, concat!($n, " after {}"), what); )* };
    }
    match v {
        Bd(x) => {
            same! { x.as_slice(), "as_slice"; AsRef::<[u8]>::as_ref(x), "AsRef<[u8]>"; &**x, "Deref"; Borrow::<[u8]>::borrow(x), "Borrow<[u8]>"; }
            check_eq!((x.len(), x.is_empty()), (m.len(), m.is_empty()), "len, is_empty of ByteData after {}", what);
            if let Some(b) = x.as_borrowed() {
                check_eq!(b, m, "as_borrowed after {}", what);
            }
            check!(x.eq_const(&ByteData::from_borrowed(m)) && x.eq_slice(m), "eq_const, eq_slice after {what}");
        }
        Sd(x) => {
            same! { x.as_bytes(), "as_bytes"; x.as_str().as_bytes(), "as_str"; AsRef::<[u8]>::as_ref(x), "AsRef<[u8]>"; AsRef::<str>::as_ref(x).as_bytes(), "AsRef<str>";
            AsRef::<ByteData<'_>>::as_ref(x).as_slice(), "AsRef<ByteData>"; x.as_bytedata().as_slice(), "as_bytedata"; (**x).as_bytes(), "Deref"; Borrow::<str>::borrow(x).as_bytes(), "Borrow<str>"; }
            check_eq!((x.len(), x.is_empty()), (m.len(), m.is_empty()), "len, is_empty of StringData after {}", what);
            if let Some(b) = x.as_borrowed() {
                check_eq!(b.as_bytes(), m, "as_borrowed after {}", what);
            }
        }
        Sb(x) => {
            same! { x.as_slice(), "as_slice"; AsRef::<[u8]>::as_ref(x), "AsRef<[u8]>"; &**x, "Deref"; }
            check_eq!((x.len(), x.is_empty()), (m.len(), m.is_empty()), "len, is_empty of SharedBytes after {}", what);
        }
        Sbb(x) => {
            same! { x.as_slice(), "as_slice"; AsRef::<[u8]>::as_ref(x), "AsRef<[u8]>"; &**x, "Deref"; }
            check_eq!((x.len(), x.is_empty()), (m.len(), m.is_empty()), "len, is_empty of SharedBytesBuilder after {}", what);
        }
        Ssb(x) => {
            same! { x.as_bytes(), "as_bytes"; x.as_str().as_bytes(), "as_str"; Borrow::<str>::borrow(x).as_bytes(), "Borrow<str>"; }
            check_eq!((x.len(), x.is_empty()), (m.len(), m.is_empty()), "len, is_empty of SharedStrBuilder after {}", what);
        }
        Bq(x) => {
            check_eq!(bq_bytes(x), m, "ByteQueue after {}", what);
            check_eq!((x.len(), x.is_empty(), x.chunks().count(), x.is_full()), (m.len(), m.is_empty(), x.chunk_len(), false), "len, is_empty, chunk_len, is_full of ByteQueue after {}", what);
            let by = x.bytes();
            check_eq!((ExactSizeIterator::len(&by), by.size_hint()), (m.len(), (m.len(), Some(m.len()))), "length of the byte iterator after {}", what);
        }
        Sq(x) => {
            check_eq!(sq_bytes(x), m, "StringQueue after {}", what);
            check_eq!(bq_bytes(x.as_bytequeue()), m, "as_bytequeue after {}", what);
            check_eq!((x.len(), x.is_empty(), x.chunks().count(), x.is_full()), (m.len(), m.is_empty(), x.chunk_len(), false), "len, is_empty, chunk_len, is_full of StringQueue after {}", what);
        }
        Raw(x) => check_eq!(x, m, "Vec after {}", what),
        Str(x) => check_eq!(x.as_bytes(), m, "String after {}", what),
        CowB(x) => check_eq!(&**x, m, "Cow<[u8]> after {}", what),
        CowS(x) => check_eq!(x.as_bytes(), m, "Cow<str> after {}", what),
    }
}
fn dup(v: &V) -> Option<V> {
    Some(match v {
        Bd(x) => Bd(x.clone()),
        Sd(x) => Sd(x.clone()),
        Sb(x) => Sb(x.clone()),
        Bq(x) => Bq(x.clone()),
        Sq(x) => Sq(x.clone()),
        _ => return None,
    })
}
/// Inputs given to the text conversions must come back unchanged if they are refused.
fn text<T, E>(r: Result<T, E>, m: &[u8], what: &'static str, ok: impl FnOnce(T) -> V, back: impl FnOnce(E) -> V) -> V {
    let w = std::str::from_utf8(m).is_ok();
    match r {
        Ok(x) => {
            check!(w, "{what} accepted bytes that are not text: {m:02x?}");
            ok(x)
        }
        Err(e) => {
            check!(!w, "{what} refused valid text {m:02x?}");
            back(e)
        }
    }
}

fn step(r: &mut Rng, ar: &Arena, v: V, m: &[u8]) -> (V, &'static str) {
    let ms = std::str::from_utf8(m).ok();
    macro_rules! to {
        ($n:literal, $e:expr) => {
            ($e, $n)
        };
    }
    match v {
        Bd(x) => match r.below(14) {
            0 => to!("SharedBytes::from(ByteData)", Sb(SharedBytes::from(x))),
            1 => to!("Vec::from(ByteData)", Raw(Vec::from(x))),
            2 => to!("Cow::from(ByteData)", CowB(Cow::from(x))),
            3 => to!("ByteQueue::from(ByteData)", Bq(ByteQueue::from(x))),
            4 => to!("ByteQueue::with_item", Bq(ByteQueue::with_item(x))),
            5 => to!("ByteQueue from an iterator", Bq(std::iter::once(x).collect())),
            6 => to!("StringData::try_from_bytedata", text(StringData::try_from_bytedata(x), m, "StringData::try_from_bytedata", Sd, Bd)),
            7 => to!("StringData::try_from(ByteData)", text(StringData::try_from(x), m, "StringData::try_from(ByteData)", Sd, Bd)),
            8 => to!("into_shared", Bd(x.into_shared())),
            9 => to!("statically_borrowed", Bd(x.statically_borrowed())),
            10 => to!("ByteData from an iterator of its bytes", Bd(x.as_slice().iter().copied().collect())),
            11 => to!("from_concat of one slice", Bd(ByteData::from_concat(&[ar.stat(x.as_slice())]))),
            12 => to!("extending a builder", {
                let mut b = SharedBytesBuilder::new();
                match r.below(3) {
                    0 => b.extend(x.as_slice().iter()),
                    1 => b.extend(x.as_slice().iter().copied()),
                    _ => b.extend(std::iter::once(x.as_slice())),
                }
                Sbb(b)
            }),
            _ => to!("statically borrowed slice", Bd(ByteData::from(ar.stat(x.as_slice())))),
        },
        Sd(x) => match r.below(12) {
            0 => to!("into_bytedata", Bd(x.into_bytedata())),
            1 => to!("ByteData::from(StringData)", Bd(ByteData::from(x))),
            2 => to!("String::from(StringData)", Str(String::from(x))),
            3 => to!("Cow::from(StringData)", CowS(Cow::from(x))),
            4 => to!("Vec::from(StringData)", Raw(Vec::from(x))),
            5 => to!("StringQueue::from(StringData)", Sq(StringQueue::from(x))),
            6 => to!("StringQueue::with_item", Sq(StringQueue::with_item(x))),
            7 => to!("SharedStrBuilder::from(StringData)", Ssb(SharedStrBuilder::from(x))),
            8 => to!("into_shared", Sd(x.into_shared())),
            9 => to!("from_concat of one str", Sd(StringData::from_concat(&[ar.stat_str(x.as_str())]))),
            10 => to!("statically_borrowed", Sd(x.statically_borrowed())),
            _ => to!("StringQueue from an iterator", Sq(std::iter::once(x).collect())),
        },
        Sb(x) => match r.below(7) {
            0 => to!("ByteData::from(SharedBytes)", Bd(ByteData::from(x))),
            1 => to!("from_shared", Bd(ByteData::from_shared(x))),
            2 => to!("StringData::try_from_shared", text(StringData::try_from_shared(x), m, "StringData::try_from_shared", Sd, Sb)),
            3 => to!("StringData::try_from(SharedBytes)", text(StringData::try_from(x), m, "StringData::try_from(SharedBytes)", Sd, Sb)),
            4 => to!("SharedBytesBuilder::from(SharedBytes)", Sbb(SharedBytesBuilder::from(x))),
            5 => to!("SharedBytes from a slice", Sb(SharedBytes::from(x.as_slice()))),
            _ => to!("external SharedBytes", Bd(ByteData::from_external(x.as_slice().to_vec().into_boxed_slice()))),
        },
        Sbb(x) => match r.below(4) {
            0 => to!("build", Sb(x.build())),
            1 => to!("SharedBytes::from(builder)", Sb(SharedBytes::from(x))),
            2 => to!("ByteData::from(builder)", Bd(ByteData::from(x))),
            _ => match (SharedStrBuilder::try_from(x), ms) {
                (Ok(b), Some(_)) => to!("SharedStrBuilder::try_from", Ssb(b)),
                (Err(_), None) => to!("refused SharedStrBuilder::try_from", Raw(m.to_vec())),
                (r, _) => crate::core::violation(format!("SharedStrBuilder::try_from gave {} for {m:02x?}", if r.is_ok() { "a builder" } else { "an error" })),
            },
        },
        Ssb(x) => match r.below(6) {
            0 => to!("build", Sb(x.build())),
            1 => to!("build_str", Sd(x.build_str())),
            2 => to!("into_shared_bytes_builder", Sbb(if r.chance(1, 2) { x.into_shared_bytes_builder() } else { SharedBytesBuilder::from(x) })),
            3 => to!("SharedBytes::from(SharedStrBuilder)", Sb(SharedBytes::from(x))),
            4 => to!("ByteData::from(SharedStrBuilder)", Bd(ByteData::from(x))),
            _ => to!("StringData::from(SharedStrBuilder)", Sd(StringData::from(x))),
        },
        Bq(x) => match r.below(6) {
            0 => to!("ByteData::from(ByteQueue)", Bd(ByteData::from(x))),
            1 => to!("SharedBytes::from(ByteQueue)", Sb(SharedBytes::from(x))),
            2 => to!("Vec::from(ByteQueue)", Raw(Vec::from(x))),
            3 => to!("ByteQueue from its own chunks", Bq(x.into_iter().collect())),
            4 => to!("queue extended by a queue's chunks", {
                let mut n = ByteQueue::default();
                for c in &x {
                    match (r.below(5), std::str::from_utf8(c.as_slice())) {
                        (0, _) => n.extend(std::iter::once(ar.stat(c.as_slice()))),
                        (1, _) => n.extend(std::iter::once(c.as_slice().to_vec())),
                        (2, Ok(s)) => n.extend(std::iter::once(s.to_string())),
                        (3, Ok(s)) => n.extend(std::iter::once(ar.stat_str(s))),
                        (4, Ok(s)) => n.extend(std::iter::once(StringData::from_owned(s.to_string()))),
                        _ => n.extend(std::iter::once(c.clone())),
                    }
                }
                Bq(n)
            }),
            _ => to!("collected owned bytes", Raw(x.into_bytes().collect())),
        },
        Sq(x) => match r.below(7) {
            0 => to!("into_bytequeue", Bq(x.into_bytequeue())),
            1 => to!("StringData::from(StringQueue)", Sd(StringData::from(x))),
            2 => to!("String::from(StringQueue)", Str(String::from(x))),
            3 => to!("StringQueue from its own chunks", Sq(x.into_iter().collect())),
            4 => to!("queue extended by a queue's chunks", {
                let mut n = StringQueue::default();
                for c in x {
                    match r.below(3) {
                        0 => n.extend(std::iter::once(ar.stat_str(c.as_str()))),
                        1 => n.extend(std::iter::once(c.as_str().to_string())),
                        _ => n.extend(std::iter::once(c)),
                    }
                }
                Sq(n)
            }),
            5 => to!("collected owned chars", Str(x.into_chars().collect())),
            _ => to!("collected owned bytes", Raw(x.into_bytes().collect())),
        },
        Raw(x) => match r.below(10) {
            0 => to!("ByteData::from(Vec)", Bd(ByteData::from(x))),
            1 => to!("ByteData::from_owned", Bd(ByteData::from_owned(x))),
            2 => to!("SharedBytes::from(Vec)", Sb(SharedBytes::from(x))),
            3 => to!("SharedBytes::from(&[u8])", Sb(SharedBytes::from(&x[..]))),
            4 => to!("ByteQueue::from(Vec)", Bq(ByteQueue::from(x))),
            5 => to!("owned Cow", CowB(Cow::Owned(x))),
            6 => to!("external Vec", Bd(ByteData::from_external(x))),
            7 => to!("borrowed slice", Bd(ByteData::from(ar.stat(&x)))),
            8 => to!("ByteQueue::from(&[u8])", Bq(ByteQueue::from(ar.stat(&x)))),
            _ => match ms {
                Some(_) => to!("String", Str(String::from_utf8(x).unwrap())),
                None => to!("ByteData from an iterator", Bd(x.into_iter().collect())),
            },
        },
        Str(x) => match r.below(16) {
            0 => to!("StringData::from(String)", Sd(StringData::from(x))),
            1 => to!("StringData::from_owned", Sd(StringData::from_owned(x))),
            2 => to!("ByteData::from(String)", Bd(ByteData::from(x))),
            3 => to!("SharedBytes::from(String)", Sb(SharedBytes::from(x))),
            4 => to!("SharedBytes::from_str", Sb(SharedBytes::from_str(&x).unwrap())),
            5 => to!("SharedStrBuilder::from_str", Ssb(SharedStrBuilder::from_str(&x).unwrap())),
            6 => to!("SharedStrBuilder::from(&str)", Ssb(SharedStrBuilder::from(&x[..]))),
            7 => to!("ByteQueue::from(String)", Bq(ByteQueue::from(x))),
            8 => to!("StringQueue::from(String)", Sq(StringQueue::from(x))),
            9 => to!("StringQueue::from(&str)", Sq(StringQueue::from(ar.stat_str(&x)))),
            10 => to!("owned Cow", CowS(Cow::Owned(x))),
            11 => to!("borrowed Cow", CowS(Cow::Borrowed(ar.stat_str(&x)))),
            12 => to!("StringData::from(&str)", Sd(StringData::from(ar.stat_str(&x)))),
            13 => to!("external String", Bd(ByteData::from_external(x))),
            14 => to!("builder extended by a str", {
                let mut b = SharedBytesBuilder::default();
                b.extend(std::iter::once(&x[..]));
                Sbb(b)
            }),
            _ => to!("SharedStrBuilder char by char", {
                let mut b = SharedStrBuilder::default();
                x.chars().for_each(|c| b.push(c));
                Ssb(b)
            }),
        },
        CowB(x) => match r.below(6) {
            0 => to!("ByteData::from(Cow<[u8]>)", Bd(ByteData::from(x))),
            1 => to!("from_cow", Bd(ByteData::from_cow(x))),
            2 => to!("from_cow_static", Bd(ByteData::from_cow_static(x))),
            3 => to!("ByteQueue::from(Cow<[u8]>)", Bq(ByteQueue::from(x))),
            4 => to!("Vec from Cow", Raw(x.into_owned())),
            _ => to!("borrowed Cow<[u8]>", CowB(Cow::Borrowed(ar.stat(&x)))),
        },
        CowS(x) => match r.below(9) {
            0 => to!("StringData::from(Cow<str>)", Sd(StringData::from(x))),
            1 => to!("StringData::from_cow", Sd(StringData::from_cow(x))),
            2 => to!("StringData::from_cow_static", Sd(StringData::from_cow_static(x))),
            3 => to!("ByteData::from(Cow<str>)", Bd(ByteData::from(x))),
            4 => to!("ByteQueue::from(Cow<str>)", Bq(ByteQueue::from(x))),
            5 => to!("StringQueue::from(Cow<str>)", Sq(StringQueue::from(x))),
            6 => to!("borrowed Cow<str>", CowS(Cow::Borrowed(ar.stat_str(&x)))),
            7 => to!("bytes of a Cow<str>", match x {
                Cow::Owned(s) => CowB(Cow::Owned(s.into_bytes())),
                Cow::Borrowed(s) => CowB(Cow::Borrowed(s.as_bytes())),
            }),
            _ => to!("String from Cow", Str(x.into_owned())),
        },
    }
}

/// An external object that shows another slice every time it is asked: two of its own, one static.
struct Fickle {
    own: Vec<u8>,
    inline: [u8; 32],
    plan: Vec<(u8, usize, usize)>,
    asked: std::sync::atomic::AtomicUsize,
    tag: std::sync::Arc<gen::ExtTag>,
}
static FIXED: [u8; 64] = [0x5C; 64];
impl Fickle {
    fn shown(&self, k: usize) -> &[u8] {
        let (which, a, b) = self.plan[k % self.plan.len()];
        match which {
            0 => &self.own[a..b],
            1 => &self.inline[a.min(32)..b.min(32)],
            _ => &FIXED[a..b],
        }
    }
}
impl bytedata::external::ExternalBytes for Fickle {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Self| {
        let k = x.asked.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        x.tag.reads.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        x.shown(k)
    });
}
impl Drop for Fickle {
    fn drop(&mut self) {
        self.tag.drops.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.own.fill(0xEE);
        self.inline.fill(0xEE);
    }
}
fn fickle(cx: &mut Ctx, ar: &Arena) {
    let tag = ar.tag();
    let own = gen::bytes_n(&mut cx.rng, 64);
    let mut inline = [0u8; 32];
    inline.iter_mut().for_each(|b| *b = cx.rng.byte());
    let plan: Vec<(u8, usize, usize)> = (0..cx.rng.range(1, 3))
        .map(|_| {
            let a = cx.rng.below(20);
            let n = if cx.rng.chance(1, 2) { cx.rng.below(15) } else { cx.rng.range(15, 40) };
            (cx.rng.below(3) as u8, a, a + n)
        })
        .collect();
    cx.ev("fickle", plan.iter().fold(0, |h, p| h * 4096 + (p.2 - p.1) as u64 * 3 + u64::from(p.0)));
    let shown: Vec<Vec<u8>> = {
        let x = Fickle { own: own.clone(), inline, plan: plan.clone(), asked: 0.into(), tag: std::sync::Arc::new(gen::ExtTag { drops: 0.into(), reads: 0.into() }) };
        (0..plan.len()).map(|k| x.shown(k).to_vec()).collect()
    };
    let d = ByteData::from_external(Fickle { own, inline, plan, asked: 0.into(), tag: tag.clone() });
    let asked = tag.reads.load(std::sync::atomic::Ordering::SeqCst);
    let m = d.as_slice().to_vec();
    check!(shown.contains(&m), "a value made from an external object holds {m:02x?}, which the object never showed ({shown:02x?})");
    let a = cx.rng.below(m.len() + 1);
    let b = cx.rng.range(a, m.len());
    let s = d.sliced(a..b);
    let e = d.clone();
    let v = Bd(d);
    for _ in 0..3 {
        read(&v, &m, "from_external");
        read(&Bd(e.clone()), &m, "cloning an external value");
    }
    read(&Bd(s.clone()), &m[a..b], "slicing an external value");
    let (n, what) = step(&mut cx.rng, ar, v, &m);
    read(&n, &m, what);
    drop((n, e));
    read(&Bd(s), &m[a..b], "dropping the whole of an external value");
    cx.mix(asked as u64);
}

fn defaults(cx: &mut Ctx) {
    cx.ev("defaults", 0);
    read(&Bd(ByteData::default()), b"", "ByteData::default");
    read(&Sd(StringData::default()), b"", "StringData::default");
    read(&Sb(SharedBytes::default()), b"", "SharedBytes::default");
    read(&Sbb(SharedBytesBuilder::default()), b"", "SharedBytesBuilder::default");
    read(&Ssb(SharedStrBuilder::default()), b"", "SharedStrBuilder::default");
    read(&Bq(ByteQueue::default()), b"", "ByteQueue::default");
    read(&Sq(StringQueue::default()), b"", "StringQueue::default");
    read(&Bd(ByteData::empty()), b"", "ByteData::empty");
    read(&Sd(StringData::empty()), b"", "StringData::empty");
    read(&Sb(SharedBytes::empty()), b"", "SharedBytes::empty");
    read(&Bd(ByteData::from_concat(&[])), b"", "ByteData::from_concat of nothing");
    read(&Sd(StringData::from_concat(&[])), b"", "StringData::from_concat of nothing");
    read(&Bd(ByteData::from_concat(&[b"", b"", b""])), b"", "ByteData::from_concat of empty slices");
    read(&Bd(ByteData::from_chunk(&[])), b"", "ByteData::from_chunk of nothing");
    read(&Bd(ByteData::from_chunk_slice(&[])), b"", "ByteData::from_chunk_slice of nothing");
    check_eq!((ByteChunk::default().as_slice(), ByteChunk::default().len(), ByteChunk::default().is_empty()), (&b""[..], 0, true), "ByteChunk::default");
    let b = cx.rng.byte();
    read(&Bd(ByteData::from_byte(b)), &[b], "ByteData::from_byte");
    check_eq!(ByteChunk::from_byte(b).as_slice(), &[b][..], "ByteChunk::from_byte");
    macro_rules! chunk {
        ($($n:literal)*) => { $(
            let a: [u8; $n] = std::array::from_fn(|_| cx.rng.byte());
            read(&Bd(ByteData::from_chunk(&a)), &a, "ByteData::from_chunk");
            check_eq!(ByteChunk::from_array(&a).as_slice(), &a[..], "ByteChunk::from_array");
        )* };
    }
    chunk!(0 1 2 3 5 7 8 9 12 13 14);
    cx.count("defaults");
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    if cx.rng.chance(1, 40) {
        return defaults(cx);
    }
    if cx.rng.chance(1, 12) {
        fickle(cx, &ar);
        return ar.audit_exts();
    }
    let m = if cx.rng.chance(2, 3) { gen::text(&mut cx.rng).into_bytes() } else { gen::bytes(&mut cx.rng) };
    let is_text = std::str::from_utf8(&m).is_ok();
    let mut v = match cx.rng.below(8) {
        0 => Raw(m.clone()),
        1 => Bq(q::mk_bq(cx, &ar, &m)),
        2 if is_text => Sq(q::mk_sq(cx, &ar, std::str::from_utf8(&m).unwrap())),
        3 if is_text => Sd(gen::sd(cx, &ar, std::str::from_utf8(&m).unwrap())),
        4 => CowB(Cow::Borrowed(ar.stat(&m))),
        5 if is_text => CowS(Cow::Borrowed(ar.stat_str(std::str::from_utf8(&m).unwrap()))),
        _ => Bd(gen::bd(cx, &ar, &m)),
    };
    read(&v, &m, "construction");
    let mut kept: Vec<V> = Vec::new();
    for _ in 0..cx.rng.range(2, if cfg!(miri) { 6 } else { 14 }) {
        if cx.rng.chance(1, 3) && kept.len() < 5 {
            if let Some(k) = dup(&v) {
                kept.push(k);
                cx.count("sharer");
            }
        }
        let (n, what) = step(&mut cx.rng, &ar, v, &m);
        cx.ev(what, m.len() as u64);
        v = n;
        read(&v, &m, what);
        for k in &kept {
            read(k, &m, what);
        }
        if !kept.is_empty() && cx.rng.chance(1, 6) {
            let k = cx.rng.below(kept.len());
            kept.swap_remove(k);
            read(&v, &m, "dropping a sharer");
        }
        if is_text {
            cx.count("text_step");
        } else {
            cx.count("raw_step");
        }
    }
    drop(kept);
    read(&v, &m, "dropping every sharer");
    drop(v);
    ar.audit_exts();
}

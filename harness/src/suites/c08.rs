//! Equality, ordering and hashing against the plain bytes, for every pair of types that can be compared.
use crate::core::Ctx;
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, StringData, StringQueue};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};

/// Records every request, so that hashers treating differently cut input differently are covered.
#[derive(Default, Clone)]
struct RecHasher(Vec<u8>);
impl Hasher for RecHasher {
    fn finish(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in &self.0 {
            h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
        }
        h
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}
#[derive(Clone, Default)]
struct RecBuild;
impl BuildHasher for RecBuild {
    type Hasher = RecHasher;
    fn build_hasher(&self) -> RecHasher {
        RecHasher::default()
    }
}
fn rec<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = RecHasher::default();
    t.hash(&mut h);
    h.0
}
fn def<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! eq {
    ($w:expr, $a:expr, $b:expr, $n:literal) => {{
        let w: Ordering = $w;
        let (a, b) = (&$a, &$b);
        check_eq!(*a == *b, w == Ordering::Equal, "{}: ==", $n);
        check_eq!(*a != *b, w != Ordering::Equal, "{}: !=", $n);
    }};
}
macro_rules! ord {
    ($w:expr, $a:expr, $b:expr, $n:literal) => {{
        let w: Ordering = $w;
        eq!(w, $a, $b, $n);
        let (a, b) = (&$a, &$b);
        check_eq!(PartialOrd::partial_cmp(a, b), Some(w), "{}: partial_cmp", $n);
        check_eq!((*a < *b, *a <= *b, *a > *b, *a >= *b), (w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()), "{}: < <= > >=", $n);
    }};
}
macro_rules! full {
    ($w:expr, $a:expr, $b:expr, $n:literal) => {{
        ord!($w, $a, $b, $n);
        check_eq!(Ord::cmp(&$a, &$b), $w, "{}: cmp", $n);
        if $w == Ordering::Equal {
            check_eq!(rec(&$a), rec(&$b), "{}: hash requests of equal values", $n);
            check_eq!(def(&$a), def(&$b), "{}: hash of equal values", $n);
        }
    }};
}

/// Contents that differ late, early, by length only, or not at all.
fn pair(cx: &mut Ctx, text: bool) -> (Vec<u8>, Vec<u8>) {
    let n = gen::len(&mut cx.rng);
    let n = if cx.rng.chance(1, 2) { n } else { n % 40 };
    let a: Vec<u8> = if text { gen::text_n(&mut cx.rng, n).into_bytes() } else { gen::bytes_n(&mut cx.rng, n) };
    let mut b = a.clone();
    match cx.rng.below(8) {
        0..=2 => {}
        3 => {
            let k = cx.rng.below(n + 1);
            b.truncate(k);
        }
        4 => {
            let k = cx.rng.range(1, 4);
            b.extend(std::iter::repeat(if cx.rng.chance(1, 2) { 0 } else { b'z' }).take(k));
        }
        5 if n > 0 => {
            let i = *cx.rng.pick(&[0, n - 1, n / 2]);
            b[i] = if text { b'~' } else { b[i] ^ (1 << cx.rng.below(8)) };
        }
        _ => {
            let m = gen::small_len(&mut cx.rng);
            b = if text { gen::text_n(&mut cx.rng, m).into_bytes() } else { gen::bytes_n(&mut cx.rng, m) };
        }
    }
    if text {
        let fix = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned().into_bytes();
        (a, fix(b))
    } else {
        (a, b)
    }
}

fn bytes_pair(cx: &mut Ctx, ar: &Arena) {
    let (a, b) = pair(cx, false);
    let w = a.cmp(&b);
    cx.ev("bytes pair", (a.len() * 2048 + b.len()) as u64);
    cx.mix(w as i8 as u64);
    cx.note(|| format!("bytes {a:02x?} vs {b:02x?}"));
    let (x, y) = (gen::bd(cx, ar, &a), gen::bd(cx, ar, &b));
    let (s, t) = (SharedBytes::from_slice(&a), SharedBytes::from_slice(&b));
    let (p, q) = (gen::q::mk_bq(cx, ar, &a), gen::q::mk_bq(cx, ar, &b));
    let (ra, rb) = (&a[..], &b[..]);
    full!(w, x, y, "ByteData vs ByteData");
    full!(w, s, t, "SharedBytes vs SharedBytes");
    full!(w, p, q, "ByteQueue vs ByteQueue");
    ord!(w, x, b, "ByteData vs Vec");
    eq!(w, x, *rb, "ByteData vs [u8]");
    eq!(w, x, rb, "ByteData vs &[u8]");
    ord!(w, s, b, "SharedBytes vs Vec");
    ord!(w, s, *rb, "SharedBytes vs [u8]");
    ord!(w, s, rb, "SharedBytes vs &[u8]");
    ord!(w, p, b, "ByteQueue vs Vec");
    ord!(w, p, *rb, "ByteQueue vs [u8]");
    eq!(w, p, rb, "ByteQueue vs &[u8]");
    ord!(w, a, y, "Vec vs ByteData");
    ord!(w, *ra, y, "[u8] vs ByteData");
    eq!(w, ra, y, "&[u8] vs ByteData");
    ord!(w, a, t, "Vec vs SharedBytes");
    ord!(w, *ra, t, "[u8] vs SharedBytes");
    ord!(w, a, q, "Vec vs ByteQueue");
    ord!(w, *ra, q, "[u8] vs ByteQueue");
    eq!(w, ra, q, "&[u8] vs ByteQueue");
    eq!(w, x, q, "ByteData vs ByteQueue");
    eq!(w, p, y, "ByteQueue vs ByteData");
    // borrowed keys
    check_eq!(rec(&x), rec(ra), "ByteData hashes like its slice");
    check_eq!(def(&x), def(ra), "ByteData hashes like its slice");
    check_eq!(x.eq_slice(rb), w.is_eq(), "eq_slice");
    check_eq!(x.eq_const(&y), w.is_eq(), "eq_const");
    if cx.rng.chance(1, 4) {
        let mut m: HashMap<ByteData<'static>, u8, RecBuild> = HashMap::default();
        m.insert(x.clone(), 1);
        check_eq!(m.get(rb).copied(), if w.is_eq() { Some(1) } else { None }, "map lookup by slice");
        m.insert(y.clone(), 2);
        check_eq!(m.len(), if w.is_eq() { 1 } else { 2 }, "keys in the map");
        let mut m: BTreeMap<ByteData<'static>, u8> = BTreeMap::new();
        m.insert(x.clone(), 1);
        check_eq!(m.contains_key(rb), w.is_eq(), "ordered map lookup by slice");
        m.insert(y.clone(), 2);
        check_eq!(m.keys().next().map(|k| k.as_slice()), Some(ra.min(rb)), "first key of the ordered map");
    }
    if w.is_eq() {
        // further layouts of the same content
        let r = gen::q::mk_bq(cx, ar, &a);
        full!(Ordering::Equal, p, r, "ByteQueue vs its other layout");
        let mut e = ByteQueue::new();
        if !a.is_empty() {
            e.push_back(ByteData::from_borrowed(ar.stat(&a)));
        }
        full!(Ordering::Equal, p, e, "ByteQueue vs one chunk");
    }
}

fn text_pair(cx: &mut Ctx, ar: &Arena) {
    let (a, b) = pair(cx, true);
    let (a, b) = (String::from_utf8(a).expect("text"), String::from_utf8(b).expect("text"));
    let w = a.cmp(&b);
    cx.ev("text pair", (a.len() * 2048 + b.len()) as u64);
    cx.mix(w as i8 as u64);
    cx.note(|| format!("text {a:?} vs {b:?}"));
    let (x, y) = (gen::sd(cx, ar, &a), gen::sd(cx, ar, &b));
    let (p, q) = (gen::q::mk_sq(cx, ar, &a), gen::q::mk_sq(cx, ar, &b));
    let (dx, dy) = (gen::bd(cx, ar, a.as_bytes()), gen::bd(cx, ar, b.as_bytes()));
    let (px, py) = (gen::q::mk_bq(cx, ar, a.as_bytes()), gen::q::mk_bq(cx, ar, b.as_bytes()));
    let (va, vb) = (a.clone().into_bytes(), b.clone().into_bytes());
    let (sa, sb) = (a.as_str(), b.as_str());
    let (ra, rb) = (a.as_bytes(), b.as_bytes());
    full!(w, x, y, "StringData vs StringData");
    ord!(w, x, *sb, "StringData vs str");
    eq!(w, x, sb, "StringData vs &str");
    ord!(w, x, *rb, "StringData vs [u8]");
    eq!(w, x, rb, "StringData vs &[u8]");
    ord!(w, x, vb, "StringData vs Vec");
    ord!(w, x, b, "StringData vs String");
    ord!(w, x, dy, "StringData vs ByteData");
    ord!(w, *sa, y, "str vs StringData");
    eq!(w, sa, y, "&str vs StringData");
    ord!(w, *ra, y, "[u8] vs StringData");
    eq!(w, ra, y, "&[u8] vs StringData");
    ord!(w, va, y, "Vec vs StringData");
    ord!(w, a, y, "String vs StringData");
    ord!(w, dx, y, "ByteData vs StringData");
    ord!(w, p, q, "StringQueue vs StringQueue");
    check_eq!(Ord::cmp(&p, &q), w, "StringQueue vs StringQueue: cmp");
    ord!(w, p, py, "StringQueue vs ByteQueue");
    ord!(w, px, q, "ByteQueue vs StringQueue");
    ord!(w, p, y, "StringQueue vs StringData");
    ord!(w, x, q, "StringData vs StringQueue");
    ord!(w, p, dy, "StringQueue vs ByteData");
    ord!(w, dx, q, "ByteData vs StringQueue");
    ord!(w, p, sb, "StringQueue vs &str");
    ord!(w, p, *sb, "StringQueue vs str");
    ord!(w, *sa, q, "str vs StringQueue");
    eq!(w, sa, q, "&str vs StringQueue");
    ord!(w, p, *rb, "StringQueue vs [u8]");
    ord!(w, p, rb, "StringQueue vs &[u8]");
    ord!(w, *ra, q, "[u8] vs StringQueue");
    eq!(w, ra, q, "&[u8] vs StringQueue");
    eq!(w, px, *sb, "ByteQueue vs str");
    eq!(w, px, sb, "ByteQueue vs &str");
    eq!(w, *sa, py, "str vs ByteQueue");
    eq!(w, sa, py, "&str vs ByteQueue");
    eq!(w, px, y, "ByteQueue vs StringData");
    eq!(w, x, py, "StringData vs ByteQueue");
    check_eq!(x.eq_str(sb), w.is_eq(), "eq_str");
    check_eq!(x.eq_const(&y), w.is_eq(), "eq_const");
    check_eq!(rec(&x), rec(sa), "StringData hashes like its str");
    check_eq!(def(&x), def(sa), "StringData hashes like its str");
    if cx.rng.chance(1, 4) {
        let mut m: HashMap<StringData<'static>, u8, RecBuild> = HashMap::default();
        m.insert(x.clone(), 1);
        check_eq!(m.get(sb).copied(), if w.is_eq() { Some(1) } else { None }, "map lookup by str");
        m.insert(y.clone(), 2);
        check_eq!(m.len(), if w.is_eq() { 1 } else { 2 }, "keys in the map");
        let mut m: BTreeMap<StringData<'static>, u8> = BTreeMap::new();
        m.insert(x.clone(), 1);
        check_eq!(m.contains_key(sb), w.is_eq(), "ordered map lookup by str");
    }
    let _ = StringQueue::new();
}

/// sorting is a consistent total order over mixed storage forms
fn sorting(cx: &mut Ctx, ar: &Arena) {
    let k = cx.rng.range(2, 9);
    let mut m: Vec<Vec<u8>> = Vec::new();
    for _ in 0..k {
        let (a, b) = pair(cx, false);
        m.push(a);
        m.push(b);
    }
    cx.ev("sorting", m.iter().map(Vec::len).sum::<usize>() as u64);
    let mut d: Vec<ByteData<'static>> = m.iter().map(|c| gen::bd(cx, ar, c)).collect();
    let mut q: Vec<ByteQueue<'static>> = m.iter().map(|c| gen::q::mk_bq(cx, ar, c)).collect();
    m.sort();
    d.sort();
    q.sort();
    for i in 0..m.len() {
        check_eq!(d[i].as_slice(), &m[i][..], "sorted ByteData");
        check!(q[i] == m[i], "sorted ByteQueue");
    }
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(12) {
        0..=5 => bytes_pair(cx, &ar),
        6..=10 => text_pair(cx, &ar),
        _ => sorting(cx, &ar),
    }
    ar.audit_exts();
}

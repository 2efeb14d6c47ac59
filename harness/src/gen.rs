//! Generators shared by the suites: contents, storage routes, instrumented external objects.
use crate::core::{Ctx, Rng};
use crate::monalloc as ma;
use bytedata::{external::{ExternalBytes, ExternalOps}, ByteData, SharedBytes, SharedBytesBuilder, StringData};
use std::borrow::Cow;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;

/// Case-lifetime memory handed out as `'static`; declared first in a case so it is dropped last.
pub struct Arena {
    blocks: RefCell<Vec<*mut [u8]>>,
    pub exts: RefCell<Vec<Arc<ExtTag>>>,
}
impl Arena {
    pub fn new() -> Self {
        Arena { blocks: RefCell::new(Vec::new()), exts: RefCell::new(Vec::new()) }
    }
    pub fn stat(&self, d: &[u8]) -> &'static [u8] {
        let b: Box<[u8]> = d.into();
        let p = Box::into_raw(b);
        self.blocks.borrow_mut().push(p);
        // SAFETY: freed only when the arena is dropped, which every case does last
        unsafe { &*p }
    }
    pub fn stat_str(&self, d: &str) -> &'static str {
        // SAFETY: copied from a str
        unsafe { std::str::from_utf8_unchecked(self.stat(d.as_bytes())) }
    }
    pub fn tag(&self) -> Arc<ExtTag> {
        let t = Arc::new(ExtTag { drops: AtomicUsize::new(0), reads: AtomicUsize::new(0) });
        self.exts.borrow_mut().push(t.clone());
        t
    }
    /// (created, dropped once, dropped more than once)
    pub fn ext_counts(&self) -> (usize, usize, usize) {
        let e = self.exts.borrow();
        (e.len(), e.iter().filter(|t| t.drops.load(SeqCst) == 1).count(), e.iter().filter(|t| t.drops.load(SeqCst) > 1).count())
    }
    /// Called when all values are gone: each external object must have been destroyed exactly once.
    pub fn audit_exts(&self) {
        if !crate::core::LIFE.load(Relaxed) {
            return;
        }
        let (n, one, many) = self.ext_counts();
        crate::check!(EXT_BAD.load(SeqCst) == 0, "LIFETIME: the destructor of an external object was called at an address that does not hold one");
        crate::check!(many == 0, "LIFETIME: {many} external object(s) destroyed more than once");
        crate::check!(one == n, "LIFETIME: {} of {n} external object(s) never destroyed although every value was dropped", n - one);
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.blocks.borrow_mut().drain(..) {
            // SAFETY: from Box::into_raw
            unsafe {
                (*p).fill(0xEE);
                drop(Box::from_raw(p));
            }
        }
    }
}

pub struct ExtTag {
    pub drops: AtomicUsize,
    pub reads: AtomicUsize,
}

/// Heap-backed external object.
pub struct ExtHeap {
    pub data: Vec<u8>,
    pub tag: Arc<ExtTag>,
}
impl ExternalBytes for ExtHeap {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x: &ExtHeap| &x.data);
}
impl Drop for ExtHeap {
    fn drop(&mut self) {
        self.tag.drops.fetch_add(1, SeqCst);
        self.data.fill(0xEE);
    }
}
/// External object with its bytes inline, over-aligned.
#[repr(align(64))]
pub struct ExtInline {
    pub buf: [u8; 96],
    pub len: usize,
    pub tag: Arc<ExtTag>,
}
impl ExternalBytes for ExtInline {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x: &ExtInline| &x.buf[..x.len]);
}
impl Drop for ExtInline {
    fn drop(&mut self) {
        self.tag.drops.fetch_add(1, SeqCst);
        self.buf.fill(0xEE);
    }
}
/// Alignment markers.
macro_rules! marks {
    ($($n:ident $a:literal),*) => { $(
        #[derive(Clone, Copy, Default)]
        #[repr(align($a))]
        pub struct $n;
    )* };
}
marks!(M8 8, M16 16, M32 32, M64 64, M128 128, M256 256);
/// Destructions of an [`ExtAl`] at an address that does not hold one.
pub static EXT_BAD: AtomicUsize = AtomicUsize::new(0);
const EXT_CANARY: u64 = 0x5EED_CAFE_0B5E_55ED;
/// External object of chosen alignment and size, whose destructor checks that it is called on one.
pub struct ExtAl<A: Copy + Default + Send + Sync + 'static, const N: usize> {
    canary: u64,
    mark: A,
    len: u8,
    buf: [u8; N],
    tag: std::mem::ManuallyDrop<Arc<ExtTag>>,
}
impl<A: Copy + Default + Send + Sync + 'static, const N: usize> ExternalBytes for ExtAl<A, N> {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x: &Self| &x.buf[..x.len as usize]);
}
impl<A: Copy + Default + Send + Sync + 'static, const N: usize> Drop for ExtAl<A, N> {
    fn drop(&mut self) {
        let _ = self.mark;
        if self.canary != EXT_CANARY || (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
            EXT_BAD.fetch_add(1, SeqCst);
            return;
        }
        self.canary = 0;
        self.tag.drops.fetch_add(1, SeqCst);
        self.buf.fill(0xEE);
        // SAFETY: dropped once, as the canary has just been removed
        unsafe { std::mem::ManuallyDrop::drop(&mut self.tag) };
    }
}
fn ext_al<A: Copy + Default + Send + Sync + 'static, const N: usize>(c: &[u8], tag: Arc<ExtTag>) -> ByteData<'static> {
    let mut buf = [0u8; N];
    buf[..c.len()].copy_from_slice(c);
    ByteData::from_external(ExtAl { canary: EXT_CANARY, mark: A::default(), len: c.len() as u8, buf, tag: std::mem::ManuallyDrop::new(tag) })
}
/// An external object holding `c` (at most 96 bytes) inline, in one of 24 layouts.
pub fn ext_inline(r: &mut Rng, c: &[u8], tag: Arc<ExtTag>) -> ByteData<'static> {
    macro_rules! sizes {
        ($a:ident) => {
            match r.below(3) {
                0 if c.len() <= 41 => ext_al::<$a, 41>(c, tag),
                1 => ext_al::<$a, 96>(c, tag),
                _ => ext_al::<$a, 111>(c, tag),
            }
        };
    }
    match r.below(8) {
        0 | 1 => {
            let mut buf = [0u8; 96];
            buf[..c.len()].copy_from_slice(c);
            ByteData::from_external(ExtInline { buf, len: c.len(), tag })
        }
        2 => sizes!(M8),
        3 => sizes!(M16),
        4 => sizes!(M32),
        5 => sizes!(M64),
        6 => sizes!(M128),
        _ => sizes!(M256),
    }
}
/// External object without a destructor.
#[derive(Clone, Copy)]
pub struct ExtPlain {
    pub buf: [u8; 40],
    pub len: u8,
}
impl ExternalBytes for ExtPlain {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x: &ExtPlain| &x.buf[..x.len as usize]);
}

pub fn len(r: &mut Rng) -> usize {
    let n = len_full(r);
    // the interpreter is slow; long content adds nothing to what it looks for
    if cfg!(miri) && n > 40 { 30 + n % 37 } else { n }
}
fn len_full(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => 0,
        1 => 1,
        2..=5 => r.range(12, 17),
        6..=9 => r.range(2, 13),
        10..=14 => r.range(15, 64),
        15..=17 => r.range(65, 300),
        18 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        _ if r.chance(1, 250) => *r.pick(&[131_071, 131_073, 200_000, 262_145, 1_048_575, 1_048_577]),
        _ if r.chance(1, 12) => *r.pick(&[2047, 2048, 2049, 4095, 4096, 4097, 8192, 0x7FFF, 0x8000, 0x8001, 65_535, 65_536, 65_537, 70_001]),
        _ => r.range(300, 1500),
    }
}
pub fn small_len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.below(3),
        1..=3 => r.range(1, 14),
        4 | 5 => r.range(13, 17),
        _ => r.range(15, 40),
    }
}

pub fn bytes_n(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    match r.below(4) {
        0 => {
            for _ in 0..n {
                v.push(r.byte());
            }
        }
        1 => {
            for _ in 0..n {
                v.push(b'a' + r.below(3) as u8);
            }
        }
        2 => {
            let s = r.byte();
            for i in 0..n {
                v.push(s.wrapping_add(i as u8));
            }
        }
        _ => {
            let t = text_n(r, n);
            v.extend_from_slice(t.as_bytes());
        }
    }
    v
}
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = len(r);
    bytes_n(r, n)
}

pub const CHARS: &[char] = &['a', 'b', 'Z', '0', ' ', '\n', '\t', '\r', '"', '\'', '\\', '\0', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', 'ﷺ', '€', '字', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '🦀', '💩', '\u{10ffff}', '\u{301}', '\u{2028}', '\u{a0}', '\u{3000}'];

pub fn ch(r: &mut Rng) -> char {
    match r.below(8) {
        0..=2 => (b'a' + r.below(4) as u8) as char,
        3..=6 => *r.pick(CHARS),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
    }
}
/// text of exactly n bytes
pub fn text_n(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let ascii = r.chance(1, 4);
    while s.len() < n {
        let c = if ascii { (b'a' + r.below(5) as u8) as char } else { ch(r) };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('.');
        }
    }
    s
}
pub fn text(r: &mut Rng) -> String {
    let n = len(r).min(70_001);
    text_n(r, n)
}

/// What is known about the storage of a generated value.
#[derive(Clone, Copy, Debug)]
pub struct Src {
    pub name: &'static str,
    /// address of the first content byte in the original storage (0 = not applicable)
    pub addr: usize,
}

pub const N_ROUTES: usize = 24;

/// Builds a byte value with the given content through route `k`.
pub fn mk_bd_route(k: usize, r: &mut Rng, ar: &Arena, c: &[u8]) -> (ByteData<'static>, Src) {
    let s = |name, addr: *const u8| Src { name, addr: addr as usize };
    let none = |name| Src { name, addr: 0 };
    let pad = |r: &mut Rng, c: &[u8]| -> (Vec<u8>, usize, usize) {
        let a = r.below(20);
        let b = r.below(20);
        let mut v = vec![0xB1u8; a];
        v.extend_from_slice(c);
        v.extend(std::iter::repeat(0xB2).take(b));
        (v, a, a + c.len())
    };
    match k {
        0 => {
            let p = ar.stat(c);
            (ByteData::from_static(p), s("static", p.as_ptr()))
        }
        1 => {
            let p = ar.stat(c);
            (ByteData::from_borrowed(p), s("borrowed", p.as_ptr()))
        }
        2 => {
            let sb = SharedBytes::from_slice(c);
            let p = sb.as_slice().as_ptr();
            (ByteData::from_shared(sb), s("shared", p))
        }
        3 => {
            let v = c.to_vec();
            let p = v.as_ptr();
            (ByteData::from_owned(v), s("owned-vec", p))
        }
        4 => {
            let v: Box<[u8]> = c.into();
            let p = v.as_ptr();
            (ByteData::from_external(v), s("ext-box", p))
        }
        5 => {
            let v: Arc<[u8]> = c.into();
            let p = v.as_ptr();
            (ByteData::from_external(v), s("ext-arc", p))
        }
        6 => {
            let data = c.to_vec();
            let p = data.as_ptr();
            (ByteData::from_external(ExtHeap { data, tag: ar.tag() }), s("ext-heap", p))
        }
        7 if c.len() <= 96 => {
            (ext_inline(r, c, ar.tag()), none("ext-inline"))
        }
        8 if c.len() <= 40 => {
            let mut buf = [0u8; 40];
            buf[..c.len()].copy_from_slice(c);
            (ByteData::from_external(ExtPlain { buf, len: c.len() as u8 }), none("ext-plain"))
        }
        9 => {
            let (v, a, b) = pad(r, c);
            let sb = SharedBytes::from_slice(&v);
            let p = sb.as_slice().as_ptr().wrapping_add(a);
            let d = ByteData::from_shared(sb);
            (d.sliced(a..b), s("shared-sliced", p))
        }
        10 => {
            let (v, a, b) = pad(r, c);
            let p = v.as_ptr().wrapping_add(a);
            let d = ByteData::from_external(ExtHeap { data: v, tag: ar.tag() });
            (d.into_sliced(a..b), s("ext-into-sliced", p))
        }
        11 => {
            let (v, a, b) = pad(r, c);
            let p = ar.stat(&v);
            let mut d = ByteData::from_static(p);
            d.make_sliced(a..b);
            (d, s("static-make-sliced", p.as_ptr().wrapping_add(a)))
        }
        12 => {
            let cut = r.below(c.len() + 1);
            let cut2 = r.range(cut, c.len());
            let (x, y, z) = (ar.stat(&c[..cut]), ar.stat(&c[cut..cut2]), ar.stat(&c[cut2..]));
            (ByteData::from_concat(&[x, y, z]), none("concat"))
        }
        13 => {
            let it = hinted(r, c.to_vec());
            (it.collect::<ByteData<'static>>(), none("from-iter"))
        }
        14 => {
            let mut b = SharedBytesBuilder::with_capacity(r.below(40));
            for p in c.chunks(r.range(1, 9)) {
                b.extend_from_slice(p);
            }
            (ByteData::from(b), none("builder"))
        }
        15 => {
            let cow: Cow<'static, [u8]> = if r.chance(1, 2) { Cow::Borrowed(ar.stat(c)) } else { Cow::Owned(c.to_vec()) };
            if r.chance(1, 2) {
                (ByteData::from_cow(cow), none("cow"))
            } else {
                (ByteData::from_cow_static(cow), none("cow-static"))
            }
        }
        16 => (ByteData::from(c.to_vec()), none("from-vec")),
        17 => (ByteData::from_borrowed(ar.stat(c)).into_shared(), none("into-shared")),
        18 => {
            let (v, a, b) = pad(r, c);
            let p = ar.stat(&v);
            let d = match r.below(3) {
                0 => ByteData::from_borrowed(p),
                1 => ByteData::from(v),
                _ => ByteData::from_shared(SharedBytes::from_slice(&v)),
            };
            (d.into_shared_range(a..b), none("into-shared-range"))
        }
        19 => {
            let al = 1usize << r.below(14);
            let sb = SharedBytes::from_slice_aligned(c, al);
            (ByteData::from(sb), none("shared-aligned"))
        }
        20 => {
            let b = bytes::Bytes::from(c.to_vec());
            (ByteData::from(b), none("from-bytes"))
        }
        21 => {
            let b = bytes::Bytes::from(c.to_vec());
            let p = b.as_ptr();
            (ByteData::from_external(b), s("ext-bytes", p))
        }
        22 => {
            let d = ByteData::from_static(ar.stat(c));
            (d.statically_borrowed(), none("statically-borrowed"))
        }
        23 if c.len() <= 14 => (ByteData::from_chunk_slice(c), none("chunk")),
        _ => {
            let b: Box<[u8]> = c.into();
            (ByteData::from(SharedBytes::from(b.into_vec())), none("shared-from-vec"))
        }
    }
}

pub fn mk_bd(cx: &mut Ctx, ar: &Arena, c: &[u8]) -> (ByteData<'static>, Src) {
    let k = cx.rng.below(N_ROUTES);
    let (d, s) = mk_bd_route(k, &mut cx.rng, ar, c);
    cx.ev(s.name, c.len() as u64);
    (d, s)
}
pub fn bd(cx: &mut Ctx, ar: &Arena, c: &[u8]) -> ByteData<'static> {
    mk_bd(cx, ar, c).0
}

/// Text value through a random route.
pub fn mk_sd(cx: &mut Ctx, ar: &Arena, c: &str) -> (StringData<'static>, Src) {
    let none = |name| Src { name, addr: 0 };
    let (d, s) = match cx.rng.below(10) {
        0 => (StringData::from_static(ar.stat_str(c)), none("sd-static")),
        1 => (StringData::from_borrowed(ar.stat_str(c)), none("sd-borrowed")),
        2 => (StringData::from_owned(c.to_string()), none("sd-owned")),
        3 => (StringData::from(c.to_string()), none("sd-string")),
        4 => (StringData::from_cow(Cow::Owned(c.to_string())), none("sd-cow")),
        5 => {
            let mut cut = cx.rng.below(c.len() + 1);
            while !c.is_char_boundary(cut) {
                cut -= 1;
            }
            (StringData::from_concat(&[ar.stat_str(&c[..cut]), ar.stat_str(&c[cut..])]), none("sd-concat"))
        }
        _ => {
            let (d, s) = mk_bd(cx, ar, c.as_bytes());
            match StringData::try_from_bytedata(d) {
                Ok(d) => (d, s),
                Err(_) => crate::core::violation(format!("valid UTF-8 refused: {c:?}")),
            }
        }
    };
    cx.ev(s.name, c.len() as u64);
    (d, s)
}
pub fn sd(cx: &mut Ctx, ar: &Arena, c: &str) -> StringData<'static> {
    mk_sd(cx, ar, c).0
}

/// Random cut positions dividing `n` into chunks.
pub fn cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![0];
    let mode = r.below(5);
    let mut at = 0;
    // rarely as many pieces as the content has
    let most = if !cfg!(miri) && n > 90 && r.chance(1, 25) { 2000 } else { 90 };
    while at < n {
        let step = match mode {
            0 => r.range(1, 3),
            1 => r.range(1, 16),
            2 => r.range(12, 40),
            3 => 1,
            _ => r.range(1, n),
        };
        at = (at + step).min(n);
        v.push(at);
        if v.len() > most {
            v.push(n);
            break;
        }
    }
    v
}

#[allow(dead_code)]
pub fn _unused() {
    ma::flush();
}

#[cfg(feature = "full")]
pub mod q {
    use super::*;
    use bytedata::{ByteQueue, StringQueue};
    /// A byte queue with the given content, divided into random chunks from random routes,
    /// built by a random mix of front and back pushes and appends.
    pub fn mk_bq(cx: &mut Ctx, ar: &Arena, c: &[u8]) -> ByteQueue<'static> {
        let cs = cuts(&mut cx.rng, c.len());
        let mut q = ByteQueue::new();
        let start = cx.rng.below(cs.len());
        for w in cs[start..].windows(2) {
            let d = bd(cx, ar, &c[w[0]..w[1]]);
            q.push_back(d);
        }
        for w in cs[..=start].windows(2).rev() {
            let d = bd(cx, ar, &c[w[0]..w[1]]);
            q.push_front(d);
        }
        if cx.rng.chance(1, 6) {
            q.push_back(ByteData::empty());
        }
        cx.mix(q.chunk_len() as u64);
        q
    }
    pub fn mk_sq(cx: &mut Ctx, ar: &Arena, c: &str) -> StringQueue<'static> {
        let mut q = StringQueue::new();
        let mut cs = cuts(&mut cx.rng, c.len());
        for x in cs.iter_mut() {
            while !c.is_char_boundary(*x) {
                *x += 1;
            }
        }
        cs.dedup();
        let start = cx.rng.below(cs.len());
        for w in cs[start..].windows(2) {
            let d = sd(cx, ar, &c[w[0]..w[1]]);
            q.push_back(d);
        }
        for w in cs[..=start].windows(2).rev() {
            let d = sd(cx, ar, &c[w[0]..w[1]]);
            q.push_front(d);
        }
        cx.mix(q.chunk_len() as u64);
        q
    }
}

/// The items of `v` with a size hint that is right and possibly far from exact.
pub fn hinted<T>(r: &mut Rng, v: Vec<T>) -> Hinted<T> {
    let n = v.len();
    let lo = if r.chance(1, 2) { n } else { r.below(n + 1) };
    let hi = match r.below(6) {
        0 => None,
        1 => Some(usize::MAX),
        2 => Some(usize::MAX - r.below(9)),
        3 => Some(n + (isize::MAX as usize) / r.range(1, 9)),
        4 => Some(n + r.below(50)),
        _ => Some(n),
    };
    Hinted { it: v.into_iter(), lo, hi }
}

pub struct Hinted<T> {
    it: std::vec::IntoIter<T>,
    lo: usize,
    hi: Option<usize>,
}

impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.it.next();
        if x.is_some() {
            self.lo = self.lo.saturating_sub(1);
            self.hi = self.hi.map(|h| h - 1);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}

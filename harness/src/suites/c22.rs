//! Arbitrary-value generation from raw input.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use arbitrary::{Arbitrary, Error, Unstructured};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};

/// content of a generated value, after checking that it is well-formed; plus the borrowed parts
trait Well {
    fn well(&mut self, raw: &[u8]) -> Vec<Vec<u8>>;
}
fn within(raw: &[u8], part: &[u8]) -> bool {
    let (r, p) = (raw.as_ptr_range(), part.as_ptr_range());
    let inside = p.start >= r.start && p.start < r.end;
    check!(!inside || p.end <= r.end, "a borrowed part of {} bytes runs over the end of the raw input", part.len());
    inside
}
impl Well for ByteData<'_> {
    fn well(&mut self, raw: &[u8]) -> Vec<Vec<u8>> {
        check_eq!(self.len(), self.as_slice().len(), "length of a generated value");
        check_eq!(self.is_empty(), self.as_slice().is_empty(), "is_empty of a generated value");
        within(raw, self.as_slice());
        let v = self.as_slice().to_vec();
        check_eq!(self.clone().as_slice(), &v[..], "clone of a generated value");
        vec![v]
    }
}
impl Well for StringData<'_> {
    fn well(&mut self, raw: &[u8]) -> Vec<Vec<u8>> {
        check_eq!(self.len(), self.as_bytes().len(), "length of generated text");
        check!(std::str::from_utf8(self.as_bytes()).is_ok(), "generated text is invalid: {:?}", self.as_bytes());
        within(raw, self.as_bytes());
        vec![self.as_bytes().to_vec()]
    }
}
impl Well for SharedBytes {
    fn well(&mut self, _: &[u8]) -> Vec<Vec<u8>> {
        check_eq!(self.len(), self.as_slice().len(), "length of generated shared bytes");
        vec![self.as_slice().to_vec()]
    }
}
impl Well for SharedBytesBuilder {
    fn well(&mut self, _: &[u8]) -> Vec<Vec<u8>> {
        check_eq!(self.len(), self.as_slice().len(), "length of a generated builder");
        check!(self.len() <= self.capacity(), "a generated builder longer than its capacity");
        let v = self.as_slice().to_vec();
        self.extend_from_slice(b"more");
        check!(self.as_slice().ends_with(b"more") && self.len() == v.len() + 4, "appending to a generated builder");
        vec![v]
    }
}
impl Well for ByteQueue<'_> {
    fn well(&mut self, raw: &[u8]) -> Vec<Vec<u8>> {
        let v: Vec<Vec<u8>> = self.chunks().map(|c| c.as_slice().to_vec()).collect();
        self.chunks().for_each(|c| {
            within(raw, c.as_slice());
        });
        let n: usize = v.iter().map(Vec::len).sum();
        check_eq!((self.len(), self.chunk_len(), self.is_empty()), (n, v.len(), n == 0), "length, chunk count and emptiness of a generated queue");
        let mut left = n;
        let mut c = self.clone();
        while let Some(x) = c.pop_front() {
            left -= x.len();
            check_eq!(c.len(), left, "length of a generated queue while taking chunks");
        }
        check_eq!(left, 0, "bytes left after taking every chunk of a generated queue");
        v
    }
}
impl Well for StringQueue<'_> {
    fn well(&mut self, raw: &[u8]) -> Vec<Vec<u8>> {
        let v: Vec<Vec<u8>> = self.chunks().map(|c| c.as_bytes().to_vec()).collect();
        for c in &v {
            check!(std::str::from_utf8(c).is_ok(), "a chunk of a generated text queue is invalid: {c:?}");
        }
        self.chunks().for_each(|c| {
            within(raw, c.as_bytes());
        });
        let n: usize = v.iter().map(Vec::len).sum();
        check_eq!((self.len(), self.chunk_len(), self.is_empty()), (n, v.len(), n == 0), "length, chunk count and emptiness of a generated text queue");
        v
    }
}

/// (content, bytes of raw input left) or that the data ran out
type Out = Option<(Vec<Vec<u8>>, Option<usize>)>;
fn once<'a, T: Arbitrary<'a> + Well>(raw: &'a [u8], rest: bool, what: &str) -> Out {
    let r = may_panic(|| {
        if rest {
            T::arbitrary_take_rest(Unstructured::new(raw)).map(|x| (x, None))
        } else {
            let mut u = Unstructured::new(raw);
            T::arbitrary(&mut u).map(|x| (x, Some(u.len())))
        }
    });
    match r {
        None => crate::core::violation(format!("generating a {what} panics")),
        Some(Ok((mut v, left))) => {
            check!(left.map_or(true, |l| l <= raw.len()), "generating a {what} leaves more raw input than there was");
            Some((v.well(raw), left))
        }
        Some(Err(Error::NotEnoughData)) => None,
        Some(Err(e)) => crate::core::violation(format!("generating a {what} fails with {e:?}")),
    }
}
macro_rules! gen {
    ($cx:ident, $raw:ident, $t:ident $(<$l:lifetime>)?, $name:literal) => {{
        let rest = $cx.rng.chance(1, 2);
        let a = once::<$t>(&$raw, rest, $name);
        // the same raw input elsewhere in memory
        let pad = $cx.rng.below(9);
        let mut moved = vec![0xA5; pad];
        moved.extend_from_slice(&$raw);
        let b = once::<$t>(&moved[pad..], rest, $name);
        check_eq!(a, b, "a {} generated twice from the same raw input (take rest {rest})", $name);
        $cx.ev($name, rest as u64);
        match &a {
            None => $cx.count("ran out"),
            Some((v, left)) => {
                let n: usize = v.iter().map(Vec::len).sum();
                $cx.mix((n as u64) << 8 | v.len() as u64);
                $cx.count(if n == 0 { "empty value" } else { "value" });
                $cx.mix(left.unwrap_or(0) as u64);
            }
        }
    }};
}

/// Out of many long random inputs some make a value with content, of any type, and not all make the same.
fn reach(cx: &mut Ctx) {
    let raws: Vec<Vec<u8>> = (0..64).map(|_| (0..200).map(|_| cx.rng.byte()).collect()).collect();
    let rest = cx.rng.chance(1, 2);
    cx.ev("reach", rest as u64);
    macro_rules! one {
        ($($t:ident $name:literal),*) => {$({
            let mut seen: Vec<_> = raws.iter().filter_map(|r| once::<$t>(r, rest, $name)).map(|(v, _)| v.concat()).filter(|v| !v.is_empty()).collect();
            check!(!seen.is_empty(), "none of 64 inputs of 200 random bytes makes a {} with content (take rest {rest})", $name);
            seen.sort();
            seen.dedup();
            check!(seen.len() > 1, "64 inputs of 200 random bytes all make the same {} (take rest {rest})", $name);
        })*};
    }
    one!(ByteData "byte value", StringData "text value", SharedBytes "shared value", SharedBytesBuilder "builder", ByteQueue "byte queue", StringQueue "text queue");
}

pub fn run(cx: &mut Ctx) {
    let _ar = Arena::new();
    let n = match cx.rng.below(8) {
        0 => cx.rng.below(3),
        1..=3 => cx.rng.range(1, 40),
        4..=6 => cx.rng.range(8, 300),
        _ => cx.rng.range(200, if cfg!(miri) { 400 } else { 5000 }),
    };
    let mut raw = match cx.rng.below(4) {
        0 => super::c18::hostile_utf8(cx, n.max(1)),
        1 => {
            let mut t = gen::text_n(&mut cx.rng, n.max(1)).into_bytes();
            t.truncate(n);
            t
        }
        2 => gen::bytes_n(&mut cx.rng, n),
        _ => {
            let set = [0u8, 1, 2, 3, 255, 128, 14, 13, 15];
            (0..n).map(|_| *cx.rng.pick(&set)).collect()
        }
    };
    if cx.rng.chance(1, 2) && raw.len() > 3 {
        // lengths are taken from the end, choices from the front
        let k = raw.len();
        raw[k - 1] = if cx.rng.chance(1, 2) { (k as u8).wrapping_mul(3) } else { cx.rng.byte() };
        raw[0] = cx.rng.byte();
    }
    if cx.rng.chance(1, if cfg!(miri) { 400 } else { 100 }) {
        return reach(cx);
    }
    cx.note(|| format!("raw {:?}", raw));
    match cx.rng.below(7) {
        0 => gen!(cx, raw, ByteData, "byte value"),
        1 | 2 => gen!(cx, raw, StringData, "text value"),
        3 => gen!(cx, raw, SharedBytes, "shared value"),
        4 => gen!(cx, raw, SharedBytesBuilder, "builder"),
        5 => gen!(cx, raw, ByteQueue, "byte queue"),
        _ => gen!(cx, raw, StringQueue, "text queue"),
    }
}

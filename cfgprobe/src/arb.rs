//! Arbitrary input: no panic, same result twice, well-formed values, whatever the configuration.
use crate::Cx;
use arbitrary::{Arbitrary, Unstructured};
use bytedata::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

trait Parts {
    fn parts(&self) -> Vec<Vec<u8>>;
    /// what does not hold of the value, if anything
    fn wrong(&self) -> Option<String>;
}
impl Parts for ByteData<'_> {
    fn parts(&self) -> Vec<Vec<u8>> {
        vec![self.as_slice().to_vec()]
    }
    fn wrong(&self) -> Option<String> {
        (self.len() != self.as_slice().len() || self.is_empty() != self.as_slice().is_empty()).then(|| "length".into())
    }
}
impl Parts for StringData<'_> {
    fn parts(&self) -> Vec<Vec<u8>> {
        vec![self.as_bytes().to_vec()]
    }
    fn wrong(&self) -> Option<String> {
        if std::str::from_utf8(self.as_bytes()).is_err() {
            return Some("not UTF-8".into());
        }
        (self.len() != self.as_bytes().len()).then(|| "length".into())
    }
}
#[cfg(feature = "queue")]
impl Parts for ByteQueue<'_> {
    fn parts(&self) -> Vec<Vec<u8>> {
        self.chunks().map(|c| c.as_slice().to_vec()).collect()
    }
    fn wrong(&self) -> Option<String> {
        let n: usize = self.chunks().map(|c| c.len()).sum();
        (self.len() != n || self.chunk_len() != self.chunks().count() || self.is_empty() != (n == 0)).then(|| "length".into())
    }
}
#[cfg(feature = "queue")]
impl Parts for StringQueue<'_> {
    fn parts(&self) -> Vec<Vec<u8>> {
        self.chunks().map(|c| c.as_bytes().to_vec()).collect()
    }
    fn wrong(&self) -> Option<String> {
        if self.chunks().any(|c| std::str::from_utf8(c.as_bytes()).is_err()) {
            return Some("a chunk is not UTF-8".into());
        }
        let n: usize = self.chunks().map(|c| c.len()).sum();
        (self.len() != n || self.chunk_len() != self.chunks().count()).then(|| "length".into())
    }
}

fn once<'a, T: Arbitrary<'a> + Parts>(raw: &'a [u8], rest: bool) -> Result<Option<(Vec<Vec<u8>>, Option<String>)>, ()> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut u = Unstructured::new(raw);
        let r = if rest { T::arbitrary_take_rest(u) } else { T::arbitrary(&mut u) };
        r.ok().map(|v| (v.parts(), v.wrong()))
    }))
    .map_err(drop)
}

pub fn run(cx: &mut Cx) {
    let n = match cx.r.below(6) {
        0 => cx.r.below(4),
        1..=2 => cx.r.below(40),
        3..=4 => cx.r.below(300),
        _ => cx.r.range(300, 3000),
    };
    // bytes with zeros and with a repeated byte make lists of many small parts
    let (low, common) = (cx.r.below(3), cx.r.below(4) as u8);
    let raw: Vec<u8> = (0..n).map(|_| match cx.r.below(3) { x if x < low => common, _ => cx.r.u64() as u8 }).collect();
    macro_rules! all {
        ($($t:ident),*) => {$(for rest in [false, true] {
            let a = once::<$t>(&raw, rest);
            let b = once::<$t>(&raw, rest);
            match &a {
                Err(()) => cx.fail(format!("generating a {} from {} bytes (rest: {rest}) panics; raw input {raw:02x?}", stringify!($t), raw.len())),
                Ok(Some((_, Some(w)))) => cx.fail(format!("generated {}: {w}; raw input {raw:02x?}", stringify!($t))),
                _ => (),
            }
            if a != b {
                cx.fail(format!("two {} from the same input differ: {a:?} {b:?}", stringify!($t)));
            }
            cx.put(stringify!($t), a.ok().flatten().map(|(p, _)| (p.len(), p.concat().len(), crate::hash(&p))));
        })*};
    }
    all!(ByteData, StringData);
    #[cfg(feature = "queue")]
    all!(ByteQueue, StringQueue);
}

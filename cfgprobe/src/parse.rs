//! Parser-combinator input.
use crate::Cx;
use bytedata::*;
use nom::bytes::{complete, streaming};
use nom::error::{Error, ErrorKind};
use nom::{FindSubstring, IResult, InputLength, InputTake, InputTakeAtPosition};

type R<T> = IResult<T, T, Error<T>>;
fn flat<T>(r: R<T>, f: fn(&T) -> Vec<u8>) -> String {
    match r {
        Ok((a, b)) => format!("{:?} {:?}", f(&a), f(&b)),
        Err(nom::Err::Incomplete(n)) => format!("incomplete {n:?}"),
        Err(nom::Err::Error(e)) => format!("error {:?} {:?}", f(&e.input), e.code),
        Err(nom::Err::Failure(e)) => format!("failure {:?} {:?}", f(&e.input), e.code),
    }
}
pub fn run(cx: &mut Cx) {
    for _ in 0..4 {
        let d = cx.bytes(20);
        let t = cx.text(20);
        let (x, y) = (cx.bytes(3), cx.text(3));
        let n = cx.r.below(24);
        let b = ByteData::from_static(d);
        let s = StringData::from_static(t);
        let fb = |b: &ByteData<'static>| b.as_slice().to_vec();
        let fs = |b: &StringData<'static>| b.as_str().as_bytes().to_vec();
        cx.call("tag", || flat(complete::tag::<_, _, Error<_>>(x)(b.clone()), fb));
        cx.call("tag", || flat(streaming::tag::<_, _, Error<_>>(y)(s.clone()), fs));
        cx.call("take", || flat(complete::take::<_, _, Error<_>>(n)(b.clone()), fb));
        cx.call("take", || flat(streaming::take::<_, _, Error<_>>(n)(s.clone()), fs));
        cx.call("while", || flat(complete::take_while1::<_, _, Error<_>>(|c: u8| c > 90)(b.clone()), fb));
        cx.call("while", || flat(streaming::take_till::<_, _, Error<_>>(|c: char| c == ' ')(s.clone()), fs));
        cx.call("until", || flat(complete::take_until::<_, _, Error<_>>(y)(s.clone()), fs));
        cx.call("find", || b.find_substring(x));
        cx.call("split", || flat(s.split_at_position1_complete::<_, Error<_>>(|c| c == 'a', ErrorKind::Alpha), fs));
        cx.call("len", || (b.input_len(), s.input_len()));
        let k = n.min(d.len());
        cx.call("take_split", || InputTake::take_split(&b, k));
        #[cfg(feature = "queue")]
        {
            let k = k / 2;
            let q: ByteQueue<'static> = [ByteData::from_static(&d[..k]), ByteData::from_static(&d[k..])].into_iter().collect();
            let fq = |b: &ByteQueue<'static>| b.bytes().collect::<Vec<u8>>();
            // a program without queues sees the same outcome of the same parse
            let a = flat(complete::tag::<_, _, Error<_>>(x)(b.clone()), fb);
            let c = flat(complete::tag::<_, _, Error<_>>(x)(q.clone()), fq);
            if a != c {
                cx.fail(format!("tag {x:?} on {d:?}: {a} for the value, {c} for the queue"));
            }
            let a = flat(streaming::take_while::<_, _, Error<_>>(|c: u8| c > 90)(b.clone()), fb);
            let c = flat(streaming::take_while::<_, _, Error<_>>(|c: u8| c > 90)(q.clone()), fq);
            if a != c {
                cx.fail(format!("take_while on {d:?}: {a} for the value, {c} for the queue"));
            }
        }
    }
}

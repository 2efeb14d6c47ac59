//! HTTP bodies of both generations, polled at random points with hints checked at every step.
use crate::core::Ctx;
use crate::gen::{self, q, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

trait Content {
    fn content(&self) -> Vec<u8>;
}
impl Content for ByteData<'_> {
    fn content(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Content for SharedBytes {
    fn content(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Content for ByteQueue<'_> {
    fn content(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.chunks().for_each(|c| v.extend_from_slice(c.as_slice()));
        v
    }
}

fn frame(cx: &mut Ctx, f: &[u8], model: &[u8], at: &mut usize, what: &str) {
    check!(!f.is_empty(), "{what}: an empty frame at {} of {}", *at, model.len());
    check!(*at + f.len() <= model.len(), "{what}: a frame of {} bytes at {} of {}", f.len(), *at, model.len());
    check_eq!(f, &model[*at..*at + f.len()], "{what}: frame at {}", *at);
    *at += f.len();
    cx.ev("frame", f.len() as u64);
}

fn drive1<B>(cx: &mut Ctx, mut b: B, model: &[u8], what: &'static str)
where
    B: http_body_1::Body<Error = std::convert::Infallible> + Unpin + Content,
    B::Data: Content + bytes::Buf,
{
    use http_body_1::Body;
    let wakes = Arc::new(Count(AtomicUsize::new(0)));
    let waker = Waker::from(wakes.clone());
    let mut at = 0;
    let mut ended = 0;
    let stop = if cx.rng.chance(1, 6) { cx.rng.below(5) } else { usize::MAX };
    let mut polls = 0;
    let frames = cx.rng.range(1, 3);
    cx.ev(what, model.len() as u64);
    loop {
        for _ in 0..cx.rng.below(3) {
            let h = Body::size_hint(&b);
            let left = (model.len() - at) as u64;
            check_eq!((h.lower(), h.upper(), h.exact()), (left, Some(left), Some(left)), "{what}: size hint after {at} of {}", model.len());
            check_eq!(Body::is_end_stream(&b), at == model.len(), "{what}: is_end_stream after {at} of {}", model.len());
        }
        if polls == stop {
            cx.count("abandoned");
            check_eq!(b.content(), &model[at..], "{what}: what is left of an abandoned body");
            return;
        }
        polls += 1;
        match Pin::new(&mut b).poll_frame(&mut Context::from_waker(&waker)) {
            Poll::Pending => { check!(false, "{what}: pending, although everything is at hand"); }
            Poll::Ready(None) => {
                check!(at == model.len(), "{what}: ends after {at} of {} bytes", model.len());
                ended += 1;
                if ended > frames {
                    break;
                }
            }
            Poll::Ready(Some(Err(e))) => match e {},
            Poll::Ready(Some(Ok(f))) => {
                check!(ended == 0, "{what}: a frame after the end");
                check!(f.is_data() && !f.is_trailers(), "{what}: a frame that is not data");
                let Ok(d) = f.into_data() else { crate::core::violation(format!("{what}: a data frame without data")) };
                check_eq!(bytes::Buf::remaining(&d), d.content().len(), "{what}: bytes to read in a frame");
                frame(cx, &d.content(), model, &mut at, what);
            }
        }
        check!(polls <= model.len() + 5, "{what}: no end");
    }
    check!(Body::is_end_stream(&b), "{what}: end of stream after the end");
    check_eq!(Body::size_hint(&b).exact(), Some(0), "{what}: size hint after the end");
    check_eq!(b.content(), Vec::<u8>::new(), "{what}: content after the end");
}

fn drive0<B>(cx: &mut Ctx, mut b: B, model: &[u8], what: &'static str)
where
    B: http_body_04::Body<Error = std::convert::Infallible> + Unpin + Content,
    B::Data: Content + bytes::Buf,
{
    use http_body_04::Body;
    let wakes = Arc::new(Count(AtomicUsize::new(0)));
    let waker = Waker::from(wakes.clone());
    let mut at = 0;
    let mut ended = 0;
    let mut polls = 0;
    cx.ev(what, model.len() as u64);
    loop {
        for _ in 0..cx.rng.below(3) {
            let h = Body::size_hint(&b);
            let left = (model.len() - at) as u64;
            check_eq!((h.lower(), h.upper(), h.exact()), (left, Some(left), Some(left)), "{what}: size hint after {at} of {}", model.len());
            check_eq!(Body::is_end_stream(&b), at == model.len(), "{what}: is_end_stream after {at} of {}", model.len());
        }
        polls += 1;
        if ended > 0 && cx.rng.chance(1, 2) {
            match Pin::new(&mut b).poll_trailers(&mut Context::from_waker(&waker)) {
                Poll::Pending => { check!(false, "{what}: trailers pending"); }
                Poll::Ready(Ok(t)) => { check!(t.is_none(), "{what}: invented trailers"); }
                Poll::Ready(Err(e)) => match e {},
            }
        }
        match Pin::new(&mut b).poll_data(&mut Context::from_waker(&waker)) {
            Poll::Pending => { check!(false, "{what}: pending, although everything is at hand"); }
            Poll::Ready(None) => {
                check!(at == model.len(), "{what}: ends after {at} of {} bytes", model.len());
                ended += 1;
                if ended > 2 {
                    break;
                }
            }
            Poll::Ready(Some(Err(e))) => match e {},
            Poll::Ready(Some(Ok(d))) => {
                check!(ended == 0, "{what}: data after the end");
                check_eq!(bytes::Buf::remaining(&d), d.content().len(), "{what}: bytes to read in a frame");
                frame(cx, &d.content(), model, &mut at, what);
            }
        }
        check!(polls <= model.len() + 5, "{what}: no end");
    }
    check!(Body::is_end_stream(&b), "{what}: end of stream after the end");
    check_eq!(b.content(), Vec::<u8>::new(), "{what}: content after the end");
}

fn size(cx: &mut Ctx) -> usize {
    let base = *cx.rng.pick(&[0xFFFFusize, 0x10000, 2 * 0xFFFF, 0x20000, 3 * 0xFFFF]);
    match cx.rng.below(if cfg!(miri) { 9 } else { 12 }) {
        0 => 0,
        1 => 1,
        2..=6 => gen::len(&mut cx.rng),
        7 | 8 => cx.rng.range(1, 600),
        9 | 10 => base + cx.rng.below(5) - 2,
        _ => cx.rng.range(60_000, 270_000),
    }
}
/// long contents are a repeated random block with the position mixed in
fn fill(cx: &mut Ctx, n: usize) -> Vec<u8> {
    if n < 4096 {
        return gen::bytes_n(&mut cx.rng, n);
    }
    let k = cx.rng.byte();
    (0..n).map(|i| (i as u8) ^ ((i >> 8) as u8).wrapping_mul(31) ^ k).collect()
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    let n = size(cx);
    let c = fill(cx, n);
    cx.note(|| format!("content of {n} bytes"));
    match cx.rng.below(6) {
        0 => {
            let d = gen::bd(cx, &ar, &c);
            drive1(cx, d, &c, "ByteData body");
        }
        1 => {
            let d = gen::bd(cx, &ar, &c);
            drive0(cx, d, &c, "ByteData body 0.4");
        }
        k @ (2 | 3) => {
            let pad = cx.rng.below(20);
            let mut v = fill(cx, pad);
            v.extend_from_slice(&c);
            v.extend_from_slice(&[7; 3]);
            let whole = SharedBytes::from_slice(&v);
            let sh = whole.sliced(pad, n);
            let _keep = if cx.rng.chance(1, 2) { Some(whole) } else { None };
            if k == 2 {
                drive1(cx, sh, &c, "SharedBytes body");
            } else {
                drive0(cx, sh, &c, "SharedBytes body 0.4");
            }
        }
        _ => {
            let mut qu = q::mk_bq(cx, &ar, &c);
            let mut c = c;
            for _ in 0..cx.rng.below(3) {
                // chunks that are themselves longer than a frame, and empty ones
                let m = *cx.rng.pick(&[0, 0, 1, 15, 70, if cfg!(miri) { 40 } else { 0xFFFF + 3 }, if cfg!(miri) { 30 } else { 140_000 }]);
                let x = fill(cx, m);
                if cx.rng.chance(1, 2) {
                    qu.push_back(gen::bd(cx, &ar, &x));
                    c.extend_from_slice(&x);
                } else {
                    qu.push_front(gen::bd(cx, &ar, &x));
                    let mut y = x;
                    y.extend_from_slice(&c);
                    c = y;
                }
            }
            drive1(cx, qu, &c, "ByteQueue body");
        }
    }
    ar.audit_exts();
}

//! HTTP bodies of both generations.
use crate::Cx;
use bytedata::*;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

static BIG: [u8; 200_000] = {
    let mut p = [0u8; 200_000];
    let (mut i, mut x) = (0, 1u32);
    while i < p.len() {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        p[i] = (x >> 24) as u8;
        i += 1;
    }
    p
};

fn piece(cx: &mut Cx, most: usize) -> &'static [u8] {
    let n = match cx.r.below(8) {
        0 => 0xFFFE + cx.r.below(4),
        1 => 2 * 0xFFFF - 1 + cx.r.below(3),
        2 => cx.r.below(200_000),
        3 => 0,
        _ => cx.r.below(40),
    };
    let n = n.min(most);
    let at = cx.r.below(BIG.len() - n);
    &BIG[at..at + n]
}

fn poll1<B: http_body_1::Body<Error = std::convert::Infallible> + Unpin>(cx: &mut Cx, mut b: B, want: &[u8])
where
    B::Data: AsRef<[u8]>,
{
    let mut t = Context::from_waker(Waker::noop());
    let (mut at, mut ended) = (0, 0);
    for _ in 0..2000 {
        let h = b.size_hint();
        if h.exact() != Some((want.len() - at) as u64) || b.is_end_stream() != (at == want.len()) {
            cx.fail(format!("hint {h:?}, end {} with {} of {} bytes delivered", b.is_end_stream(), at, want.len()));
            return;
        }
        match Pin::new(&mut b).poll_frame(&mut t) {
            Poll::Ready(Some(Ok(f))) => match f.into_data() {
                Ok(d) if !d.as_ref().is_empty() && want[at..].starts_with(d.as_ref()) => {
                    at += d.as_ref().len();
                    cx.put("frame", d.as_ref().len());
                }
                _ => return cx.fail(format!("frame at {at} of {}", want.len())),
            },
            Poll::Ready(None) if at == want.len() => {
                ended += 1;
                if ended == 4 {
                    break;
                }
            }
            _ => return cx.fail(format!("no frame at {at} of {}", want.len())),
        }
    }
    if at != want.len() {
        cx.fail(format!("{at} of {} bytes delivered", want.len()));
    }
}
fn poll04<B: http_body_04::Body<Error = std::convert::Infallible> + Unpin>(cx: &mut Cx, mut b: B, want: &[u8])
where
    B::Data: AsRef<[u8]>,
{
    let mut t = Context::from_waker(Waker::noop());
    let (mut at, mut ended) = (0, 0);
    for _ in 0..64 {
        let h = b.size_hint();
        if h.exact() != Some((want.len() - at) as u64) || b.is_end_stream() != (at == want.len()) {
            cx.fail(format!("0.4: hint {h:?}, end {} with {} of {} bytes delivered", b.is_end_stream(), at, want.len()));
            return;
        }
        match Pin::new(&mut b).poll_data(&mut t) {
            Poll::Ready(Some(Ok(d))) if !d.as_ref().is_empty() && want[at..].starts_with(d.as_ref()) => {
                at += d.as_ref().len();
                cx.put("data", d.as_ref().len());
            }
            Poll::Ready(None) if at == want.len() => {
                if !matches!(Pin::new(&mut b).poll_trailers(&mut t), Poll::Ready(Ok(None))) {
                    cx.fail("0.4: trailers".into());
                }
                ended += 1;
                if ended == 4 {
                    break;
                }
            }
            _ => return cx.fail(format!("0.4: no data at {at} of {}", want.len())),
        }
    }
    if at != want.len() {
        cx.fail(format!("0.4: {at} of {} bytes delivered", want.len()));
    }
}

pub fn run(cx: &mut Cx) {
    let d = piece(cx, 150_000);
    let b = if d.len() <= 14 && cx.r.chance(1, 2) { ByteData::from_chunk_slice(d) } else { ByteData::from_static(d) };
    cx.put("content", d.len());
    poll1(cx, b.clone(), d);
    poll04(cx, b, d);
}
#[cfg(feature = "queue")]
pub fn queue(cx: &mut Cx) {
    let mut q = ByteQueue::new();
    let mut want = vec![];
    let n = if cx.r.chance(1, 4) { 15 } else { cx.r.below(8) };
    let mut held = 0;
    for i in 0..n {
        let d = piece(cx, if n > 8 { 70_000 } else { 150_000 });
        if want.len() > 400_000 {
            break;
        }
        held += usize::from(!d.is_empty());
        if i % 5 == 4 {
            q.push_front(ByteData::from_static(d));
            want.splice(0..0, d.iter().copied());
        } else {
            q.push_back(ByteData::from_static(d));
            want.extend_from_slice(d);
        }
    }
    cx.put("content", (want.len(), held));
    poll1(cx, q.clone(), &want);
    // a full queue, which only this configuration has, leaves no trace in the transcript
    #[cfg(not(feature = "alloc"))]
    {
        let (r, h, steps) = (crate::Rng(cx.r.0), cx.h, cx.steps);
        for i in 0..100_000 {
            if q.is_full() {
                break;
            }
            let d = &BIG[i..i + 1 + (i * 40503) % 70_000];
            q.push_back(ByteData::from_static(d));
            want.extend_from_slice(d);
        }
        poll1(cx, q, &want);
        cx.r = r;
        cx.h = h;
        cx.steps = steps;
    }
}

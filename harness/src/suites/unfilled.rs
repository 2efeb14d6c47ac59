//! Callbacks which report more bytes as filled than they have written (see known_findings.txt).
use crate::core::Ctx;
use crate::gen;
use bytedata::SharedBytesBuilder;
use std::task::{Context, Poll, Waker};

pub fn run(cx: &mut Ctx) {
    let n = cx.rng.range(1, 100);
    let c = gen::bytes_n(&mut cx.rng, n);
    let mut b = SharedBytesBuilder::with_capacity(n + 64);
    b.extend_from_slice(&c);
    let claim = cx.rng.range(1, 64);
    let wait = cx.rng.chance(1, 2);
    cx.ev(if wait { "claimed_async" } else { "claimed" }, claim as u64);
    cx.note(|| format!("builder of {n} byte(s), {claim} byte(s) reported as filled and none written, asynchronous {wait}"));
    if wait {
        let mut f = Box::pin(b.apply_unfilled_async(|_| std::future::ready(((), claim))));
        let done = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
        assert!(done == Poll::Ready(()));
    } else {
        b.apply_unfilled(|_| ((), claim));
    }
    // whatever is found there, looking at it must be allowed
    let odd = b.as_slice().iter().filter(|x| **x & 1 == 1).count();
    cx.ev("odd", odd as u64);
    if odd > 1000 {
        cx.note(|| "unreachable".into());
    }
}
use std::future::Future as _;

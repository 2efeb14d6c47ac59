//! Queues whose total length is close to what a 32-bit length can hold (nothing to see on other targets).
use crate::core::{may_panic, Ctx};
use crate::{check, gen};
use bytedata::{ByteData, ByteQueue, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use std::collections::VecDeque;
use std::sync::OnceLock;

const AREA: usize = 1 << 28;

fn area() -> &'static [u8] {
    static A: OnceLock<&'static [u8]> = OnceLock::new();
    A.get_or_init(|| Box::leak(vec![0u8; AREA].into_boxed_slice()))
}

fn piece(cx: &mut Ctx) -> (usize, usize) {
    let n = match cx.rng.below(4) {
        0 => AREA,
        1 => AREA - cx.rng.below(40),
        2 => 1 + cx.rng.below(40),
        _ => 15 + cx.rng.below(AREA - 15),
    };
    (cx.rng.below(AREA - n + 1), n)
}

/// Requests that no block of a 32-bit address space can serve.
fn builders(cx: &mut Ctx) {
    for _ in 0..40 {
        let n = if cx.rng.chance(1, 4) { 0 } else { cx.rng.below(200) };
        let c = gen::bytes_n(&mut cx.rng, n);
        let top = u32::MAX as usize;
        let k = match cx.rng.below(6) {
            0 => top,
            1 => top - n,
            2 => top - cx.rng.below(0x8000 + n),
            3 => (top - n).saturating_add(1),
            4 => (top >> 1) + 1 + cx.rng.below(0x10000),
            _ => (top >> 1) + 1 + cx.rng.below(top >> 1),
        };
        let what = cx.rng.below(5);
        cx.ev("wide.request", what as u64 * 64 + (k >> 26) as u64);
        cx.note(|| format!("request {k:#x} in form {what} with {n} byte(s)"));
        let al = *cx.rng.pick(&[1, 2, 8, 16, 64, 256, 512]);
        let mut b = if cx.rng.chance(1, 3) { SharedBytesBuilder::with_aligned_capacity(n, al) } else { SharedBytesBuilder::new() };
        b.extend_from_slice(&c);
        let mut s = SharedStrBuilder::from("some text");
        let got = match what {
            0 => may_panic(|| SharedBytesBuilder::with_capacity(k).capacity()),
            1 => may_panic(|| SharedBytesBuilder::with_aligned_capacity(k, al).capacity()),
            2 => may_panic(|| {
                s.reserve(k);
                s.capacity() - 9
            }),
            _ => may_panic(|| {
                b.reserve(k);
                b.capacity() - n
            }),
        };
        check!(got.is_none(), "a request for {k:#x} more byte(s) in form {what} with {n} byte(s) was accepted, the capacity is {:#x}", got.unwrap());
        b.extend_from_slice(b"more");
        s.push_str("more");
        check!(s.as_str() == "some textmore" && b.as_slice()[..n] == c[..] && &b.as_slice()[n..] == b"more", "the content after a refused request is {:?} and {:?}", b.as_slice(), s.as_str());
        let x = ByteData::from(b);
        check!(x.len() == n + 4 && x.starts_with(&c) && x.ends_with(b"more"), "the value made after a refused request is {:?}", x.as_slice());
    }
}

pub fn case(cx: &mut Ctx) {
    if usize::BITS != 32 {
        cx.count("not_a_32_bit_target");
        return;
    }
    if cx.rng.chance(1, 4) {
        return builders(cx);
    }
    let a = area();
    let text = cx.rng.chance(1, 4);
    let mut q = ByteQueue::new();
    let mut t = StringQueue::new();
    let mut m: VecDeque<(usize, usize)> = VecDeque::new();
    let part = |(o, n): (usize, usize)| ByteData::from_static(&a[o..o + n]);
    // zeros are text
    let spart = |(o, n): (usize, usize)| StringData::from_static(unsafe { std::str::from_utf8_unchecked(&a[o..o + n]) });
    for _ in 0..20 + cx.rng.below(30) {
        let total: u64 = m.iter().map(|x| x.1 as u64).sum();
        let k = match cx.rng.below(12) {
            7 if text => 6,
            k => k,
        };
        match k {
            0..=7 => {
                let many = if k == 7 { 1 + cx.rng.below(3) } else { 1 };
                let ps: Vec<_> = (0..many).map(|_| piece(cx)).collect();
                let added: u64 = ps.iter().map(|x| x.1 as u64).sum();
                if k == 7 && added > u32::MAX as u64 {
                    continue;
                }
                let fits = total + added <= u32::MAX as u64;
                cx.ev(["wide.push", "wide.beyond"][!fits as usize], (total >> 20) * 8 + k as u64);
                cx.note(|| format!("{} of {added} byte(s) to {total}", ["push_back", "push_front", "append"][if k == 7 { 2 } else { k % 2 }]));
                let ok = may_panic(|| match (k, text) {
                    (7, false) => q.append(ps.iter().map(|p| part(*p)).collect()),
                    (_, false) if k % 2 == 0 => q.push_back(part(ps[0])),
                    (_, true) if k % 2 == 0 => t.push_back(spart(ps[0])),
                    (_, false) => q.push_front(part(ps[0])),
                    (_, true) => t.push_front(spart(ps[0])),
                })
                .is_some();
                check!(ok == fits, "{added} byte(s) put into a queue of {total} were {}", if ok { "accepted" } else { "refused" });
                if ok {
                    for p in ps {
                        if k != 7 && k % 2 == 1 {
                            m.push_front(p);
                        } else {
                            m.push_back(p);
                        }
                    }
                }
            }
            8 | 9 => {
                cx.ev("wide.pop", k as u64);
                let (got, want) = match (k, text) {
                    (8, false) => (q.pop_back(), m.pop_back()),
                    (8, true) => (t.pop_back().map(|x| x.into_bytedata()), m.pop_back()),
                    (_, false) => (q.pop_front(), m.pop_front()),
                    (_, true) => (t.pop_front().map(|x| x.into_bytedata()), m.pop_front()),
                };
                check!(got.as_ref().map(|x| x.len()) == want.map(|x| x.1), "a piece of {:?} byte(s) came out, {:?} expected", got.map(|x| x.len()), want);
            }
            10 if total != 0 && !text => {
                let x = (cx.rng.u64() % total) as usize;
                let y = x + (cx.rng.u64() % (total - x as u64 + 1)) as usize;
                cx.ev("wide.slice", (x >> 20) as u64);
                let s = q.slice(x..y);
                check!(s.len() == y - x && s.chunks().map(|c| c.len() as u64).sum::<u64>() == (y - x) as u64, "slice {x}..{y} of {total} has {} byte(s)", s.len());
            }
            _ => {
                cx.ev("wide.clone", 0);
                if text {
                    t = t.clone();
                } else {
                    q = q.clone();
                }
            }
        }
        let total: u64 = m.iter().map(|x| x.1 as u64).sum();
        let (l, e, c) = if text { (t.len(), t.is_empty(), t.chunk_len()) } else { (q.len(), q.is_empty(), q.chunk_len()) };
        check!(l as u64 == total && e == (total == 0) && c == m.len(), "a queue of {} chunk(s) and {total} byte(s) has {c} and {l}, empty: {e}", m.len());
    }
    let parts: Vec<(usize, usize)> = if text { t.byte_chunks().map(|c| (c.as_slice().as_ptr() as usize, c.len())).collect() } else { q.chunks().map(|c| (c.as_slice().as_ptr() as usize, c.len())).collect() };
    for (p, (o, n)) in parts.iter().zip(&m) {
        check!(p.1 == *n && (*n < 15 || p.0 == a.as_ptr() as usize + o), "a chunk at {:#x} of {} byte(s), expected {n}", p.0, p.1);
    }
}

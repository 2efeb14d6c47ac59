//! Without heap support: a queue of a fixed number of chunks against a deque of chunks.
use crate::Cx;
use bytedata::*;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

type Model = VecDeque<Vec<u8>>;

/// number of chunks a queue takes before it reports being full
fn capacity() -> usize {
    static N: OnceLock<usize> = OnceLock::new();
    *N.get_or_init(|| {
        let mut q = ByteQueue::new();
        while !q.is_full() && q.chunk_len() < 100_000 {
            q.push_back(ByteData::from_static(b"x"));
        }
        q.chunk_len()
    })
}

fn look(cx: &mut Cx, q: &ByteQueue<'static>, m: &Model, what: &str) {
    let v: Vec<Vec<u8>> = q.chunks().map(|c| c.as_slice().to_vec()).collect();
    let bytes: usize = m.iter().map(Vec::len).sum();
    if v.len() != m.len() || !v.iter().eq(m.iter()) {
        cx.fail(format!("{what}: the queue holds {v:?} instead of {m:?}"));
    } else if q.len() != bytes || q.chunk_len() != m.len() || q.is_empty() != (bytes == 0) {
        cx.fail(format!("{what}: length {} and {} chunk(s) reported for {bytes} byte(s) in {} chunk(s)", q.len(), q.chunk_len(), m.len()));
    } else if q.is_full() != (m.len() == capacity()) {
        cx.fail(format!("{what}: is_full {} with {} of {} chunks", q.is_full(), m.len(), capacity()));
    } else if !q.bytes().eq(m.iter().flatten().copied()) || !q.clone().into_bytes().eq(m.iter().flatten().copied()) {
        cx.fail(format!("{what}: bytes differ from the chunks"));
    } else if q.front().map(|c| c.as_slice().to_vec()).as_ref() != m.front() || q.back().map(|c| c.as_slice().to_vec()).as_ref() != m.back() {
        cx.fail(format!("{what}: front/back"));
    }
}

fn chunk(cx: &mut Cx) -> ByteData<'static> {
    let d = cx.bytes(18);
    if d.len() <= 14 && cx.r.chance(1, 2) { ByteData::from_chunk_slice(d) } else { ByteData::from_static(d) }
}

pub fn run(cx: &mut Cx) {
    let cap = capacity();
    let first = chunk(cx);
    let (mut q, mut m): (ByteQueue<'static>, Model) = if cx.r.chance(1, 3) {
        let d = first.as_slice().to_vec();
        (ByteQueue::with_item(first), if d.is_empty() { Model::new() } else { [d].into() })
    } else {
        (ByteQueue::new(), Model::new())
    };
    look(cx, &q, &m, "new");
    // start somewhere in the ring
    for _ in 0..cx.r.below(30) {
        q.push_back(ByteData::from_static(b"y"));
        q.pop_front();
        if m.is_empty() {
            continue;
        }
        m.push_back(b"y".to_vec());
        m.pop_front();
    }
    if cx.r.chance(3, 4) {
        let to = if cx.r.chance(1, 2) { cap } else { cx.r.range(cap - 3, cap) };
        while m.len() < to {
            let c = cx.bytes(18);
            if c.is_empty() {
                continue;
            }
            if cx.r.chance(1, 2) {
                q.push_back(c);
                m.push_back(c.to_vec());
            } else {
                q.push_front(c);
                m.push_front(c.to_vec());
            }
        }
        look(cx, &q, &m, "filled");
    }
    for _ in 0..cx.r.range(4, 24) {
        if cx.broken.is_some() {
            return;
        }
        match cx.r.below(15) {
            k @ 0..=4 => {
                let c = chunk(cx);
                let d = c.as_slice().to_vec();
                let front = k < 2;
                let ok = catch_unwind(AssertUnwindSafe(|| if front { q.push_front(c) } else { q.push_back(c) })).is_ok();
                let fits = d.is_empty() || m.len() < cap;
                cx.put("push", (front, d.len(), ok));
                if ok != fits {
                    cx.fail(format!("push of {} byte(s) with {} of {cap} chunks: accepted {ok}", d.len(), m.len()));
                } else if ok && !d.is_empty() {
                    if front {
                        m.push_front(d);
                    } else {
                        m.push_back(d);
                    }
                }
            }
            5 | 6 => {
                let a = q.pop_front().map(|c| c.as_slice().to_vec());
                let b = m.pop_front();
                cx.put("pop_front", &a);
                if a != b {
                    cx.fail(format!("pop_front gave {a:?} instead of {b:?}"));
                }
            }
            7 => {
                let a = q.pop_back().map(|c| c.as_slice().to_vec());
                let b = m.pop_back();
                cx.put("pop_back", &a);
                if a != b {
                    cx.fail(format!("pop_back gave {a:?} instead of {b:?}"));
                }
            }
            8 | 9 => {
                // append or extend, with room or without: what was there stays, what fitted is there
                let v: Vec<ByteData<'static>> = (0..cx.r.below(5)).map(|_| chunk(cx)).collect();
                let d: Vec<Vec<u8>> = v.iter().map(|c| c.as_slice().to_vec()).filter(|c| !c.is_empty()).collect();
                let app = cx.r.chance(1, 2);
                let ok = catch_unwind(AssertUnwindSafe(|| if app { q.append(v.into_iter().collect()) } else { q.extend(v) })).is_ok();
                let fits = m.len() + d.len() <= cap;
                cx.put("append", (app, d.len(), ok));
                if ok != fits {
                    cx.fail(format!("append of {} chunk(s) with {} of {cap}: accepted {ok}", d.len(), m.len()));
                }
                let got = q.chunk_len().saturating_sub(m.len());
                // an append is rejected as a whole, an extension keeps what fitted
                m.extend(d.into_iter().take(if ok { usize::MAX } else if app { 0 } else { got }));
            }
            10 => {
                let n = q.len();
                let (a, b) = cx.span(n);
                let flat: Vec<u8> = m.iter().flatten().copied().collect();
                let s = catch_unwind(AssertUnwindSafe(|| q.slice(a..b)));
                let want = flat.get(a..b);
                cx.put("slice", s.is_ok());
                if s.as_ref().ok().map(|s| s.bytes().collect::<Vec<u8>>()).as_deref() != want {
                    cx.fail(format!("slice {a}..{b} of {n} in {} chunk(s)", m.len()));
                }
            }
            11 => {
                let n = q.len();
                let at = cx.pos(n);
                let flat: Vec<u8> = m.iter().flatten().copied().collect();
                let r = catch_unwind(AssertUnwindSafe(|| q.split_off(at)));
                cx.put("split_off", r.is_ok());
                match r {
                    Ok(o) => {
                        let v: Vec<u8> = q.bytes().chain(o.bytes()).collect();
                        if at > n || q.len() != at || v != flat {
                            cx.fail(format!("split_off({at}) of {n} byte(s)"));
                        }
                        m = q.chunks().map(|c| c.as_slice().to_vec()).collect();
                        look(cx, &o, &o.chunks().map(|c| c.as_slice().to_vec()).collect(), "split off part");
                        if cx.r.chance(1, 2) {
                            q = o;
                            m = q.chunks().map(|c| c.as_slice().to_vec()).collect();
                        }
                    }
                    Err(_) if at > n => {}
                    Err(_) => cx.fail(format!("split_off({at}) of {n} byte(s) was rejected")),
                }
            }
            12 => {
                let n = q.len();
                let p = cx.pos(n);
                let ok = catch_unwind(AssertUnwindSafe(|| q.consume(p))).is_ok();
                cx.put("consume", ok);
                if ok != (p <= n) {
                    cx.fail(format!("consume({p}) of {n}: accepted {ok}"));
                } else if ok {
                    let mut k = p;
                    while k > 0 {
                        let mut f = m.pop_front().unwrap();
                        if f.len() > k {
                            f.drain(..k);
                            m.push_front(f);
                            break;
                        }
                        k -= f.len();
                    }
                }
            }
            13 => {
                // a callback or an iterator of the caller that panics half-way
                let mut k = cx.r.below(q.len() + 2);
                if cx.r.chance(1, 2) {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        q.take_while(|_| {
                            assert!(k != 0);
                            k -= 1;
                            true
                        })
                    }));
                    cx.put("take_while", r.is_ok());
                    if let Ok(t) = r {
                        look(cx, &t, &m, "taken");
                        m.clear();
                    }
                } else {
                    k %= 6;
                    let v: Vec<ByteData<'static>> = (0..6).map(|_| chunk(cx)).collect();
                    let d: Vec<Vec<u8>> = v.iter().map(|c| c.as_slice().to_vec()).filter(|c| !c.is_empty()).collect();
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        q.extend(v.into_iter().enumerate().map(|(i, c)| {
                            assert!(i != k);
                            c
                        }))
                    }));
                    cx.put("extend", r.is_ok());
                    let got = q.chunk_len().saturating_sub(m.len());
                    m.extend(d.into_iter().take(got));
                }
            }
            _ => {
                // removing or replacing a part may need one or two chunks more than there were
                let n = q.len();
                let a = cx.r.below(n + 1);
                let b = cx.r.range(a, n);
                let mut flat: Vec<u8> = m.iter().flatten().copied().collect();
                let drain = cx.r.chance(1, 2);
                let c = chunk(cx);
                let d = c.as_slice().to_vec();
                let r = catch_unwind(AssertUnwindSafe(|| if drain { drop(q.drain(a..b)) } else { q.replace_range(a..b, c) }));
                cx.put("edit", (drain, r.is_ok()));
                let before = flat.clone();
                let fresh = !drain && !d.is_empty();
                flat.splice(a..b, if drain { vec![] } else { d });
                let now: Vec<u8> = q.bytes().collect();
                if r.is_ok() && now != flat || r.is_err() && now != before {
                    cx.fail(format!("{} of {a}..{b} of {n} byte(s) in {} of {cap} chunks (accepted: {}) left {now:?} instead of {:?}", if drain { "drain" } else { "replace_range" }, m.len(), r.is_ok(), if r.is_ok() { &flat } else { &before }));
                }
                // chunks needed afterwards: those with a byte before, those with a byte after, the new one
                let (mut at, mut need) = (0, usize::from(fresh));
                for c in &m {
                    need += usize::from(at < a) + usize::from(at + c.len() > b);
                    at += c.len();
                }
                if r.is_ok() != (need <= cap || drain && a == b) && !(r.is_ok() && a == b && !fresh) {
                    cx.fail(format!("{} of {a}..{b} with {} of {cap} chunks, {need} needed: accepted {}", if drain { "drain" } else { "replace_range" }, m.len(), r.is_ok()));
                }
                m = q.chunks().map(|c| c.as_slice().to_vec()).collect();
            }
        }
        look(cx, &q, &m, "queue");
    }
}

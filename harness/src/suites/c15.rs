//! Interoperation with `bytes`: conversions, converted buffers, `Buf` and `BufMut`.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, q, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use bytes::{Buf, BufMut, Bytes, BytesMut};

// ---------------------------------------------------------------- Buf

/// One call of the reading interface; the result in a comparable form.
fn read_op(b: &mut dyn Buf, k: usize, n: usize) -> Vec<u8> {
    macro_rules! g {
        ($($m:ident),*) => {{
            let mut i = 0;
            $( if k == i { return b.$m().to_ne_bytes().to_vec(); } i += 1; )*
            i
        }};
    }
    let i = g!(
        get_u8, get_i8, get_u16, get_u16_le, get_u16_ne, get_i16, get_i16_le, get_i16_ne, get_u32, get_u32_le, get_u32_ne, get_i32, get_i32_le, get_i32_ne, get_u64, get_u64_le, get_u64_ne, get_i64, get_i64_le, get_i64_ne,
        get_u128, get_u128_le, get_u128_ne, get_i128, get_i128_le, get_i128_ne, get_f32, get_f32_le, get_f32_ne, get_f64, get_f64_le, get_f64_ne
    );
    let w = n % 9;
    match k - i {
        0 => b.get_uint(w).to_ne_bytes().to_vec(),
        1 => b.get_uint_le(w).to_ne_bytes().to_vec(),
        2 => b.get_uint_ne(w).to_ne_bytes().to_vec(),
        3 => b.get_int(w.max(1)).to_ne_bytes().to_vec(),
        4 => b.get_int_le(w.max(1)).to_ne_bytes().to_vec(),
        5 => b.get_int_ne(w.max(1)).to_ne_bytes().to_vec(),
        6 | 7 => {
            let mut v = vec![0x77; n];
            b.copy_to_slice(&mut v);
            v
        }
        8 | 9 | 10 => b.copy_to_bytes(n).to_vec(),
        11 | 12 => {
            b.advance(n);
            vec![]
        }
        13 => match b.try_get_u32() {
            Ok(x) => x.to_ne_bytes().to_vec(),
            Err(_) => b"short".to_vec(),
        },
        14 => match b.try_get_u64_le() {
            Ok(x) => x.to_ne_bytes().to_vec(),
            Err(_) => b"short".to_vec(),
        },
        15 => {
            let mut v = vec![0x77; n];
            match b.try_copy_to_slice(&mut v) {
                Ok(()) => v,
                Err(_) => b"short".to_vec(),
            }
        }
        16 => {
            let mut v = Vec::new();
            let take = n.min(b.remaining());
            let mut t = b.take(take);
            v.put(&mut t);
            v
        }
        17 => {
            let mut r = b.take(n).reader();
            let mut v = Vec::new();
            std::io::Read::read_to_end(&mut r, &mut v).expect("reader");
            v
        }
        18 => {
            let tail = [9u8, 8, 7];
            let take = n.min(b.remaining());
            let t = b.take(take);
            t.chain(&tail[..]).copy_to_bytes(take + 3).to_vec()
        }
        _ => {
            let take = n.min(b.remaining());
            BytesMut::from_iter(Buf::take(b, take).copy_to_bytes(take).iter()).to_vec()
        }
    }
}
const READ_OPS: usize = 32 + 20;

enum R {
    B(ByteData<'static>),
    S(SharedBytes),
    Q(ByteQueue<'static>),
    Y(Bytes),
}
impl R {
    fn buf(&mut self) -> &mut dyn Buf {
        match self {
            R::B(x) => x,
            R::S(x) => x,
            R::Q(x) => x,
            R::Y(x) => x,
        }
    }
    fn verify(&self, m: &[u8]) {
        let (rem, has, ch, n): (usize, bool, &[u8], &str) = match self {
            R::B(x) => (x.remaining(), x.has_remaining(), x.chunk(), "ByteData"),
            R::S(x) => (x.remaining(), x.has_remaining(), x.chunk(), "SharedBytes"),
            R::Q(x) => (x.remaining(), x.has_remaining(), x.chunk(), "ByteQueue"),
            R::Y(x) => (x.remaining(), x.has_remaining(), x.chunk(), "Bytes"),
        };
        check_eq!(rem, m.len(), "{n}::remaining");
        check_eq!(has, !m.is_empty(), "{n}::has_remaining");
        check!(m.starts_with(ch) && (m.is_empty() || !ch.is_empty()), "{n}::chunk shows {ch:?} of {m:?}");
        let mut sl = [std::io::IoSlice::new(&[]); 6];
        let k = match self {
            R::B(x) => x.chunks_vectored(&mut sl),
            R::S(x) => x.chunks_vectored(&mut sl),
            R::Q(x) => x.chunks_vectored(&mut sl),
            R::Y(x) => x.chunks_vectored(&mut sl),
        };
        check!(k <= 6 && (k > 0 || m.is_empty()), "{n}::chunks_vectored fills {k}");
        let mut at = 0;
        for s in &sl[..k] {
            check!(m[at..].starts_with(s), "{n}::chunks_vectored at {at}");
            at += s.len();
        }
        if let R::Q(x) = self {
            check_eq!(k, x.chunk_len().min(6), "chunks given by chunks_vectored");
            let none = x.chunks_vectored(&mut []);
            check_eq!(none, 0, "chunks_vectored without room");
        }
    }
}

fn reading(cx: &mut Ctx, ar: &Arena) {
    let c = gen::bytes(&mut cx.rng);
    let kind = cx.rng.below(6);
    let mut r = match kind {
        0 => R::B(gen::bd(cx, ar, &c)),
        1 => R::S(SharedBytes::from_slice(&c)),
        2 => R::Y(Bytes::from(gen::bd(cx, ar, &c))),
        3 => R::Y(Bytes::from(q::mk_bq(cx, ar, &c))),
        _ => R::Q(q::mk_bq(cx, ar, &c)),
    };
    cx.ev("Buf", (kind * 4096 + c.len()) as u64);
    cx.note(|| format!("kind {kind} content {c:?}"));
    r.verify(&c);
    let mut m = &c[..];
    for _ in 0..cx.rng.range(1, 10) {
        let k = cx.rng.below(READ_OPS);
        let n = match cx.rng.below(6) {
            0 => m.len(),
            1 => m.len() + cx.rng.range(1, 20),
            2 => cx.rng.below(20),
            _ => cx.rng.below(m.len() + 1),
        };
        cx.ev("Buf op", (k * 8192 + n) as u64);
        cx.note(|| format!("read op {k} n {n} of {}", m.len()));
        let before = m;
        // the reference is the plain slice, which implements the same interface
        let want = may_panic(|| read_op(&mut m, k, n));
        let got = may_panic(|| read_op(r.buf(), k, n));
        check_eq!(got, want, "result of reading operation {k} ({n}) with {} left", before.len());
        if want.is_none() {
            // rejected: nothing is consumed
            m = before;
        }
        r.verify(m);
    }
    // the rest
    let rest = m.len();
    match r {
        R::B(mut x) => check_eq!(x.copy_to_bytes(rest), m, "the rest"),
        R::S(mut x) => check_eq!(x.copy_to_bytes(rest), m, "the rest"),
        R::Q(mut x) => {
            check_eq!(x.copy_to_bytes(rest), m, "the rest");
            check!(x.is_empty() && x.chunk_len() == 0, "a queue read to its end keeps something");
        }
        R::Y(x) => check_eq!(Vec::from(x), m, "the rest"),
    }
}

/// `advance` on the values themselves (statically dispatched) far past the end
fn advance(cx: &mut Ctx, ar: &Arena) {
    let c = gen::bytes(&mut cx.rng);
    let big = *cx.rng.pick(&[c.len() + 1, usize::MAX, usize::MAX - c.len(), (crate::core::p2(32)) + c.len(), crate::core::p2(32), isize::MAX as usize]);
    cx.ev("advance too far", c.len() as u64);
    cx.mix(big as u64);
    cx.note(|| format!("advance {} by {big}", c.len()));
    let mut d = gen::bd(cx, ar, &c);
    let mut s = SharedBytes::from_slice(&c);
    let mut qq = q::mk_bq(cx, ar, &c);
    check!(may_panic(|| Buf::advance(&mut d, big)).is_none(), "ByteData::advance({big}) of {} accepted", c.len());
    check!(may_panic(|| Buf::advance(&mut s, big)).is_none(), "SharedBytes::advance({big}) of {} accepted", c.len());
    check!(may_panic(|| Buf::advance(&mut qq, big)).is_none(), "ByteQueue::advance({big}) of {} accepted", c.len());
    check!(may_panic(|| d.copy_to_bytes(big)).is_none(), "ByteData::copy_to_bytes({big}) of {} accepted", c.len());
    check!(may_panic(|| s.copy_to_bytes(big)).is_none(), "SharedBytes::copy_to_bytes({big}) of {} accepted", c.len());
    check!(may_panic(|| qq.copy_to_bytes(big)).is_none(), "ByteQueue::copy_to_bytes({big}) of {} accepted", c.len());
    check_eq!(d.as_slice(), &c[..], "ByteData after a rejected advance");
    check_eq!(s.as_slice(), &c[..], "SharedBytes after a rejected advance");
    R::Q(qq.clone()).verify(&c);
    check_eq!(ByteData::from(qq).as_slice(), &c[..], "ByteQueue after a rejected advance");
}

// ---------------------------------------------------------------- BufMut

fn write_op<B: BufMut>(b: &mut B, k: usize, x: u128, d: &[u8], cut: usize) {
    macro_rules! p {
        ($($m:ident $t:ty),*) => {{
            let mut i = 0;
            $( if k == i { b.$m(x as $t); return; } i += 1; )*
            i
        }};
    }
    let i = p!(
        put_u8 u8, put_i8 i8, put_u16 u16, put_u16_le u16, put_u16_ne u16, put_i16 i16, put_i16_le i16, put_i16_ne i16, put_u32 u32, put_u32_le u32, put_u32_ne u32, put_i32 i32, put_i32_le i32, put_i32_ne i32,
        put_u64 u64, put_u64_le u64, put_u64_ne u64, put_i64 i64, put_i64_le i64, put_i64_ne i64, put_u128 u128, put_u128_le u128, put_u128_ne u128, put_i128 i128, put_i128_le i128, put_i128_ne i128, put_f32 f32, put_f32_le f32, put_f64 f64, put_f64_le f64
    );
    match k - i {
        0 => b.put_uint(x as u64, 1 + (x >> 64) as usize % 8),
        1 => b.put_uint_le(x as u64, 1 + (x >> 64) as usize % 8),
        2 => b.put_int(x as i64, 1 + (x >> 64) as usize % 8),
        3 => b.put_int_le(x as i64, 1 + (x >> 64) as usize % 8),
        4 | 5 => b.put_slice(d),
        6 | 7 => b.put_bytes(x as u8, d.len()),
        8 => b.put(d),
        9 | 10 => {
            // a source of several pieces
            let (x, y) = d.split_at(cut);
            b.put(x.chain(y))
        }
        11 => b.put(ByteData::from(d.to_vec())),
        12 => {
            let mut s = ByteQueue::new();
            for p in d.chunks(cut.max(1)) {
                s.push_back(ByteData::from(p.to_vec()));
            }
            b.put(s)
        }
        13 | 14 => {
            // by hand through the uninitialised tail
            let mut at = 0;
            while at < d.len() {
                let c = b.chunk_mut();
                let n = c.len().min(d.len() - at).min(cut.max(1));
                check!(n > 0, "chunk_mut offers no room");
                c[..n].copy_from_slice(&d[at..at + n]);
                // SAFETY: n bytes were written
                unsafe { b.advance_mut(n) };
                at += n;
            }
        }
        15 => {
            let mut l = b.limit(d.len());
            l.put_slice(&d[..cut]);
            check_eq!(l.remaining_mut(), d.len() - cut, "remaining_mut of a limited writer");
        }
        16 => {
            let mut w = b.writer();
            std::io::Write::write_all(&mut w, d).expect("writer");
        }
        _ => {
            let c = b.chunk_mut();
            let n = c.len();
            check!(n > 0, "chunk_mut offers no room");
            // filling the offered room but advancing only partly
            for i in 0..n.min(64) {
                c.write_byte(i, 0x11);
            }
        }
    }
}
const WRITE_OPS: usize = 30 + 18;

fn writing(cx: &mut Ctx) {
    let mut m: Vec<u8> = Vec::new();
    let mut b = match cx.rng.below(5) {
        0 => SharedBytesBuilder::new(),
        1 => SharedBytesBuilder::with_capacity(cx.rng.below(64)),
        2 => SharedBytesBuilder::with_aligned_capacity(cx.rng.below(64), 1 << cx.rng.below(8)),
        3 => {
            m = gen::bytes(&mut cx.rng);
            SharedBytesBuilder::from(SharedBytes::from_slice(&m))
        }
        _ => SharedBytesBuilder::with_alignment(1 << cx.rng.below(8)),
    };
    cx.ev("BufMut", m.len() as u64);
    for _ in 0..cx.rng.range(1, 14) {
        let k = cx.rng.below(WRITE_OPS);
        let x = u128::from(cx.rng.u64()) << 64 | u128::from(cx.rng.u64());
        let n = gen::small_len(&mut cx.rng);
        let n = if cx.rng.chance(1, 6) { gen::len(&mut cx.rng) } else { n };
        let d = gen::bytes_n(&mut cx.rng, n);
        let cut = cx.rng.below(n + 1);
        cx.ev("BufMut op", (k * 4096 + n) as u64);
        cx.note(|| format!("write op {k} with {n} byte(s), cut {cut}, on {} of {}", b.len(), b.capacity()));
        let rem = b.remaining_mut();
        let before = m.len();
        write_op(&mut m, k, x, &d, cut);
        write_op(&mut b, k, x, &d, cut);
        check_eq!(b.as_slice(), &m[..], "builder after writing operation {k}");
        check!(b.capacity() >= b.len(), "capacity {} below length {}", b.capacity(), b.len());
        check!(b.has_remaining_mut(), "has_remaining_mut");
        check_eq!(rem - b.remaining_mut(), m.len() - before, "change of remaining_mut");
    }
    if cx.rng.chance(1, 4) {
        // more than can be announced is rejected
        let r = b.remaining_mut();
        let big = *cx.rng.pick(&[r + 1, usize::MAX]);
        check!(may_panic(|| b.put_bytes(1, big)).is_none(), "put_bytes of {big} with room for {r} accepted");
        check_eq!(b.as_slice(), &m[..], "builder after a rejected put_bytes");
    }
    let s = b.build();
    check_eq!(s.as_slice(), &m[..], "frozen builder");
    check_eq!(&Bytes::from(s)[..], &m[..], "converted builder");
}

// ---------------------------------------------------------------- converted buffers

struct V {
    y: Bytes,
    m: Vec<u8>,
    /// group of handles that may share storage
    g: usize,
}

/// Native storage of the same shape for comparison of uniqueness answers.
struct Group {
    /// another handle of this group may exist that the model does not count exactly
    vague: bool,
    others: usize,
    stat: bool,
}

fn handles(cx: &mut Ctx, ar: &Arena) {
    let mut gs: Vec<Group> = Vec::new();
    let mut pool: Vec<V> = Vec::new();
    let mut sib: Vec<(SharedBytes, Vec<u8>, usize)> = Vec::new();
    let mut owned: Vec<(BytesMut, Vec<u8>)> = Vec::new();
    let steps = cx.rng.range(3, 24);
    for _ in 0..steps {
        if pool.is_empty() || pool.len() < 6 && cx.rng.chance(1, 6) {
            let c = gen::bytes(&mut cx.rng);
            let k = cx.rng.below(7);
            cx.ev("convert", (k * 4096 + c.len()) as u64);
            cx.note(|| format!("convert way {k} {} byte(s)", c.len()));
            let g = gs.len();
            let mut gr = Group { vague: false, others: 0, stat: false };
            let y = match k {
                0 | 1 => {
                    let pad = cx.rng.below(3) * 5;
                    let mut v = vec![1; pad];
                    v.extend_from_slice(&c);
                    v.extend_from_slice(&[3; 2]);
                    let s = SharedBytes::from_slice_aligned(&v, 1 << cx.rng.below(13)).into_sliced(pad, c.len());
                    if k == 1 && !c.is_empty() {
                        sib.push((s.clone(), c.clone(), g));
                        gr.others = 1;
                    }
                    Bytes::from(s)
                }
                2 => {
                    gr.stat = c.len() > 14;
                    gr.vague = !gr.stat;
                    Bytes::from(ByteData::from_static(ar.stat(&c)))
                }
                3 => {
                    gr.vague = true;
                    Bytes::from(q::mk_bq(cx, ar, &c))
                }
                4 => {
                    let native = Bytes::from(c.clone());
                    let d = ByteData::from_external(native);
                    gr.vague = true;
                    Bytes::from(d)
                }
                5 => {
                    gr.vague = true;
                    let mut s = StringData::from_borrowed("");
                    if let Ok(t) = std::str::from_utf8(&c) {
                        s = StringData::from(t.to_string());
                    } else {
                        s = s.clone();
                    }
                    let y = Bytes::from(ByteData::from(s));
                    if y.is_empty() && !c.is_empty() {
                        Bytes::from(gen::bd(cx, ar, &c))
                    } else {
                        y
                    }
                }
                _ => {
                    gr.vague = true;
                    Bytes::from(gen::bd(cx, ar, &c))
                }
            };
            gs.push(gr);
            check_eq!(&y[..], &c[..], "converted content (way {k})");
            pool.push(V { y, m: c, g });
            continue;
        }
        let i = cx.rng.below(pool.len());
        let n = pool[i].m.len();
        let a = cx.rng.below(n + 1);
        let b = cx.rng.range(a, n);
        let op = cx.rng.below(18);
        cx.ev("Bytes op", (op * 4096 + n) as u64);
        cx.note(|| format!("op {op} on {n} byte(s) {a}..{b}"));
        match op {
            0 | 1 => {
                let v = V { y: pool[i].y.clone(), m: pool[i].m.clone(), g: pool[i].g };
                pool.push(v);
            }
            2 => {
                let v = V { y: pool[i].y.slice(a..b), m: pool[i].m[a..b].to_vec(), g: pool[i].g };
                pool.push(v);
            }
            3 => {
                let e = &mut pool[i];
                let y = e.y.split_to(a);
                let m = e.m.drain(..a).collect();
                let g = e.g;
                pool.push(V { y, m, g });
            }
            4 => {
                let e = &mut pool[i];
                let y = e.y.split_off(a);
                let m = e.m.split_off(a);
                let g = e.g;
                pool.push(V { y, m, g });
            }
            5 => {
                let e = &mut pool[i];
                e.y.truncate(a);
                e.m.truncate(a);
            }
            6 if cx.rng.chance(1, 3) => {
                let e = &mut pool[i];
                e.y.clear();
                e.m.clear();
            }
            7 => {
                let e = &mut pool[i];
                e.y.advance(a);
                e.m.drain(..a);
            }
            8 => {
                let e = &mut pool[i];
                let y = e.y.copy_to_bytes(a);
                let m = e.m.drain(..a).collect();
                let g = e.g;
                pool.push(V { y, m, g });
            }
            9 => {
                let e = pool.swap_remove(i);
                let v = Vec::from(e.y);
                check_eq!(v, e.m, "Vec of a converted buffer");
            }
            10 => {
                let e = pool.swap_remove(i);
                let mut v = BytesMut::from(e.y);
                check_eq!(&v[..], &e.m[..], "BytesMut of a converted buffer");
                let mut m = e.m;
                v.extend_from_slice(b"more");
                m.extend_from_slice(b"more");
                v[0] ^= 0x55;
                m[0] ^= 0x55;
                owned.push((v, m));
            }
            11 => {
                let e = pool.swap_remove(i);
                match e.y.try_into_mut() {
                    Ok(mut v) => {
                        check_eq!(&v[..], &e.m[..], "try_into_mut of a converted buffer");
                        let mut m = e.m;
                        if !m.is_empty() {
                            v[a.min(m.len() - 1)] ^= 0x2a;
                            m[a.min(n - 1)] ^= 0x2a;
                        }
                        owned.push((v, m));
                    }
                    Err(y) => pool.push(V { y, ..e }),
                }
            }
            12 => {
                // back and forth again
                let e = pool.swap_remove(i);
                let g = e.g;
                gs[g].vague = true;
                let d = match cx.rng.below(4) {
                    0 => ByteData::from(e.y),
                    1 => ByteData::from_external(e.y),
                    2 => SharedBytes::from(e.y).into(),
                    _ => ByteQueue::from(e.y).into(),
                };
                check_eq!(d.as_slice(), &e.m[..], "value of a converted buffer");
                pool.push(V { y: Bytes::from(d), m: e.m, g });
            }
            13 | 14 => {
                let e = &pool[i];
                let u = e.y.is_unique();
                let g = &gs[e.g];
                let mates = pool.iter().enumerate().filter(|(j, o)| *j != i && o.g == e.g).count();
                let empty_mate = pool.iter().any(|o| o.g == e.g && o.m.is_empty());
                let sibs = sib.iter().filter(|s| s.2 == e.g).count();
                if g.stat && !g.vague && n > 0 {
                    check!(!u, "a buffer over static memory is reported unique");
                } else if mates + sibs == 0 && !g.vague && !empty_mate && n > 0 {
                    check!(u || cfg!(feature = "bytes_safe"), "the only handle of {n} byte(s) is not reported unique");
                    cx.count("unique");
                } else if n > 0 && mates + sibs > 0 && !g.vague && !empty_mate && !cfg!(feature = "bytes_safe") {
                    check!(!u, "a handle with {} sibling(s) is reported unique", mates + sibs);
                    cx.count("not unique");
                }
            }
            15 => {
                if !sib.is_empty() && cx.rng.chance(1, 2) {
                    let j = cx.rng.below(sib.len());
                    let (s, m, g) = sib.swap_remove(j);
                    check_eq!(s.as_slice(), &m[..], "sibling of a converted buffer");
                    match cx.rng.below(3) {
                        0 => drop(s),
                        1 => {
                            // growing the sibling must not disturb the converted handles
                            let mut b = SharedBytesBuilder::from(s);
                            b.as_mut()[0] ^= 0xFF;
                            b.extend_from_slice(&[0xEE; 40]);
                            check_eq!(&b.as_slice()[1..m.len()], &m[1..], "builder made from a sibling");
                        }
                        _ => {
                            let y = Bytes::from(s);
                            pool.push(V { y, m, g });
                        }
                    }
                }
            }
            16 => {
                let e = &pool[i];
                check!(e.y == e.m && e.y.iter().eq(e.m.iter()) && e.y.as_ref() == &e.m[..], "comparison of a converted buffer");
                check_eq!(format!("{:?}", e.y), format!("{:?}", Bytes::copy_from_slice(&e.m)), "debug form of a converted buffer");
                if n > 0 {
                    let sub = e.y.slice_ref(&e.y[a..b]);
                    check_eq!(&sub[..], &e.m[a..b], "slice_ref");
                    check!(may_panic(|| e.y.slice(a..n + 1)).is_none(), "slice past the end accepted");
                }
            }
            _ => {
                let e = pool.swap_remove(i);
                drop(e.y);
            }
        }
        for e in &pool {
            check_eq!(&e.y[..], &e.m[..], "converted buffer");
        }
        for (s, m, _) in &sib {
            check_eq!(s.as_slice(), &m[..], "sibling of a converted buffer");
        }
        for (v, m) in &owned {
            check_eq!(&v[..], &m[..], "owned buffer made from a converted buffer");
        }
        while pool.len() > 10 {
            let i = cx.rng.below(pool.len());
            pool.swap_remove(i);
        }
    }
    while !pool.is_empty() {
        let i = cx.rng.below(pool.len());
        pool.swap_remove(i);
        for e in &pool {
            check_eq!(&e.y[..], &e.m[..], "converted buffer after its siblings are gone");
        }
    }
    let _ = gs.iter().filter(|g| g.others > 0).count();
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(10) {
        0..=3 => reading(cx, &ar),
        4 => advance(cx, &ar),
        5 | 6 => writing(cx),
        _ => handles(cx, &ar),
    }
    ar.audit_exts();
}

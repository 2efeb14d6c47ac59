//! The foreign byte-buffer interface.
use crate::Cx;
use bytedata::*;
use bytes::Buf;

fn drive(cx: &mut Cx, b: &mut impl Buf) {
    for _ in 0..cx.r.range(2, 8) {
        cx.put("remaining", (b.remaining(), b.has_remaining(), b.chunk().is_empty()));
        match cx.r.below(5) {
            0 => {
                let k = cx.pos(b.remaining());
                if cx.run("advance", || b.advance(k)).is_none() {
                    return;
                }
            }
            1 => {
                let mut v = vec![0u8; cx.r.below(12)];
                if b.remaining() >= v.len() {
                    b.copy_to_slice(&mut v);
                    cx.put("copy", v);
                }
            }
            2 if b.remaining() > 8 => cx.put("get", (b.get_u8(), b.get_u16(), b.get_u32_le())),
            3 => {
                let k = cx.r.below(20).min(b.remaining());
                cx.put("to_bytes", b.copy_to_bytes(k));
            }
            _ => {
                let c = b.chunk().first().copied();
                cx.put("first", c);
            }
        }
    }
}
pub fn run(cx: &mut Cx) {
    let d = cx.bytes(60);
    let mut b = match cx.r.below(3) {
        0 => ByteData::from_static(d),
        1 if d.len() <= 14 => ByteData::from_chunk_slice(d),
        _ => ByteData::from_borrowed(d),
    };
    drive(cx, &mut b);
    cx.put("left", b.as_slice());
}
#[cfg(feature = "queue")]
pub fn queue(cx: &mut Cx) {
    let mut q = ByteQueue::new();
    for _ in 0..cx.r.below(8) {
        let d = cx.bytes(20);
        q.push_back(d);
    }
    drive(cx, &mut q);
    cx.put("left", q.bytes().collect::<Vec<u8>>());
}
#[cfg(feature = "alloc")]
pub fn heap(cx: &mut Cx) {
    use bytes::{BufMut, Bytes, BytesMut};
    let d = cx.bytes(70);
    let mut pool: Vec<Bytes> = vec![];
    for _ in 0..cx.r.range(3, 12) {
        match cx.r.below(12) {
            0 | 1 => {
                let b = match cx.r.below(5) {
                    0 => ByteData::from_static(d),
                    1 => ByteData::from_owned(d.to_vec()),
                    2 => ByteData::from_external(d.to_vec()),
                    3 => ByteData::from_borrowed(d).into_shared(),
                    _ => ByteData::from_shared(SharedBytes::from_slice(d)),
                };
                let k = cx.r.below(b.len() + 1);
                pool.push(b.sliced(k..).into());
            }
            2 => pool.push(SharedBytes::from_slice(d).into()),
            3 => {
                if let Some(x) = pool.pop() {
                    let b: ByteData<'_> = x.into();
                    cx.put("back", b.as_slice());
                    pool.push(b.into_shared().into());
                }
            }
            4 => {
                if let Some(x) = pool.pop() {
                    let v: Vec<u8> = x.into();
                    cx.put("vec", v);
                }
            }
            5 => {
                if let Some(x) = pool.pop() {
                    let mut m: BytesMut = x.into();
                    m.put_slice(b"!");
                    cx.put("mut", &m[..]);
                    pool.push(m.freeze());
                }
            }
            6 => {
                let c = pool.last().cloned();
                pool.extend(c);
            }
            7 => {
                if let Some(x) = pool.last_mut() {
                    let k = cx.r.below(x.len() + 1);
                    let y = if cx.r.chance(1, 2) { x.split_off(k) } else { x.split_to(k) };
                    cx.put("split", (&x[..], &y[..]));
                    pool.push(y);
                }
            }
            8 => {
                if let Some(x) = pool.last() {
                    let (s, e) = cx.span(x.len());
                    if s <= e && e <= x.len() {
                        let y = x.slice(s..e);
                        pool.push(y);
                    }
                }
            }
            9 => {
                if !pool.is_empty() {
                    let k = cx.r.below(pool.len());
                    pool.swap_remove(k);
                }
            }
            10 => {
                let mut b = SharedBytesBuilder::new();
                b.put_slice(d);
                b.put_u32(7);
                b.put(&d[..d.len() / 2]);
                b.put_bytes(9, 5);
                cx.put("put", &*b);
                pool.push(b.build().into());
            }
            _ => {
                if let Some(mut x) = pool.pop() {
                    drive(cx, &mut x);
                    pool.push(x);
                }
            }
        }
        let v: Vec<&[u8]> = pool.iter().map(|x| &x[..]).collect();
        cx.put("pool", v);
    }
}

//! std I/O: reading values and queues, writing into builders and queues.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, q, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use std::io::{BufRead, ErrorKind, IoSlice, IoSliceMut, Read, Write};

enum R {
    B(ByteData<'static>),
    S(SharedBytes),
    Q(ByteQueue<'static>),
}
impl R {
    fn name(&self) -> &'static str {
        match self {
            R::B(_) => "ByteData",
            R::S(_) => "SharedBytes",
            R::Q(_) => "ByteQueue",
        }
    }
    fn io(&mut self) -> &mut dyn BufRead {
        match self {
            R::B(x) => x,
            R::S(x) => x,
            R::Q(x) => x,
        }
    }
    fn content(&self) -> Vec<u8> {
        match self {
            R::B(x) => x.as_slice().to_vec(),
            R::S(x) => x.as_slice().to_vec(),
            R::Q(x) => {
                let mut v = Vec::new();
                for c in x.chunks() {
                    check!(!c.is_empty(), "a queue keeps an empty chunk after reading");
                    v.extend_from_slice(c.as_slice());
                }
                check_eq!(x.len(), v.len(), "queue length after reading");
                v
            }
        }
    }
    fn dup(&self) -> R {
        match self {
            R::B(x) => R::B(x.clone()),
            R::S(x) => R::S(x.clone()),
            R::Q(x) => R::Q(x.clone()),
        }
    }
}

fn ok<T>(r: std::io::Result<T>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(e) => crate::core::violation(format!("{what} failed: {e}")),
    }
}

fn source(cx: &mut Ctx, ar: &Arena, c: &[u8]) -> R {
    let k = cx.rng.below(4);
    cx.ev("reader", (k * 2048 + c.len()) as u64);
    match k {
        0 => R::B(gen::bd(cx, ar, c)),
        1 => {
            let pad = cx.rng.below(9);
            let mut v = vec![1; pad];
            v.extend_from_slice(c);
            v.extend_from_slice(&[2; 3]);
            R::S(SharedBytes::from_slice(&v).sliced(pad, c.len()))
        }
        _ => R::Q(q::mk_bq(cx, ar, c)),
    }
}

/// size of the next request relative to what is left
fn ask(cx: &mut Ctx, left: usize) -> usize {
    match cx.rng.below(8) {
        0 => 0,
        1 => left,
        2 => left + cx.rng.range(1, 40),
        3 => left.saturating_sub(1),
        4 => cx.rng.range(0, 3),
        5 => cx.rng.range(10, 20),
        _ => cx.rng.below(left + 1),
    }
}

fn content(cx: &mut Ctx) -> Vec<u8> {
    let mut c = match cx.rng.below(3) {
        0 => gen::bytes(&mut cx.rng),
        1 => gen::text(&mut cx.rng).into_bytes(),
        _ => {
            let n = gen::small_len(&mut cx.rng);
            gen::bytes_n(&mut cx.rng, n)
        }
    };
    if cx.rng.chance(1, 2) {
        for _ in 0..cx.rng.below(5) {
            if !c.is_empty() {
                let i = cx.rng.below(c.len());
                if c[i] < 0x80 {
                    c[i] = b'\n';
                    if i > 0 && c[i - 1] < 0x80 && cx.rng.chance(1, 2) {
                        c[i - 1] = b'\r';
                    }
                }
            }
        }
    }
    c
}

fn reading(cx: &mut Ctx, ar: &Arena) {
    let c = content(cx);
    let mut r = source(cx, ar, &c);
    let twin = r.dup();
    let n = r.name();
    cx.note(|| format!("read {n} of {} byte(s) {:?}", c.len(), c));
    let mut at = 0usize;
    for _ in 0..cx.rng.range(1, 10) {
        let left = &c[at..];
        let want = ask(cx, left.len());
        let op = cx.rng.below(15);
        cx.ev("read op", (op * 4096 + want) as u64);
        cx.note(|| format!("op {op} request {want} with {} left", left.len()));
        match op {
            0 | 1 => {
                let mut buf = vec![0xC7u8; want];
                let k = ok(r.io().read(&mut buf), "read");
                check!(k <= want && k <= left.len(), "{n}: read of {want} with {} left reports {k}", left.len());
                check!(k > 0 || want == 0 || left.is_empty(), "{n}: read reports the end with {} byte(s) left", left.len());
                check_eq!(&buf[..k], &left[..k], "{n}: bytes read");
                check!(buf[k..].iter().all(|b| *b == 0xC7), "{n}: read of {k} byte(s) wrote beyond them");
                at += k;
            }
            2 | 3 | 4 => {
                let mut sizes: Vec<usize> = Vec::new();
                for _ in 0..cx.rng.below(6) {
                    let z = ask(cx, left.len() / 2);
                    sizes.push(z);
                }
                cx.mix(sizes.iter().sum::<usize>() as u64);
                cx.note(|| format!("vectored {sizes:?}"));
                let mut bufs: Vec<Vec<u8>> = sizes.iter().map(|z| vec![0xC7u8; *z]).collect();
                let k = {
                    let mut io: Vec<IoSliceMut<'_>> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                    ok(r.io().read_vectored(&mut io), "read_vectored")
                };
                let total: usize = sizes.iter().sum();
                check!(k <= total && k <= left.len(), "{n}: vectored read into {total} with {} left reports {k}", left.len());
                check!(k > 0 || total == 0 || left.is_empty(), "{n}: vectored read reports the end with {} byte(s) left", left.len());
                let flat = bufs.concat();
                check_eq!(&flat[..k], &left[..k], "{n}: bytes of a vectored read");
                check!(flat[k..].iter().all(|b| *b == 0xC7), "{n}: vectored read of {k} byte(s) wrote beyond them");
                at += k;
            }
            5 | 6 => {
                let k = {
                    let b = ok(r.io().fill_buf(), "fill_buf");
                    check!(b.len() <= left.len() && b == &left[..b.len()], "{n}: fill_buf shows {:?} with {:?} left", b, left);
                    check!(!b.is_empty() || left.is_empty(), "{n}: fill_buf reports the end with {} byte(s) left", left.len());
                    b.len()
                };
                let k = match cx.rng.below(3) {
                    0 => k,
                    1 => cx.rng.below(k + 1),
                    _ => k.min(1),
                };
                r.io().consume(k);
                at += k;
            }
            7 => {
                let mut buf = vec![0xC7u8; want];
                let res = r.io().read_exact(&mut buf);
                if want <= left.len() {
                    ok(res, "read_exact");
                    check_eq!(&buf[..], &left[..want], "{n}: bytes of read_exact");
                    at += want;
                } else {
                    check_eq!(res.err().map(|e| e.kind()), Some(ErrorKind::UnexpectedEof), "{n}: read_exact of {want} with {} left", left.len());
                    // how much is consumed is unspecified, but it must be a prefix
                    let now = r.content();
                    check!(now.len() <= left.len() && left.ends_with(&now), "{n}: content after a failed read_exact");
                    at = c.len() - now.len();
                }
            }
            8 => {
                let mut v = b"pre".to_vec();
                let k = ok(r.io().read_to_end(&mut v), "read_to_end");
                check_eq!(k, left.len(), "{n}: count of read_to_end");
                check_eq!((&v[..3], &v[3..]), (&b"pre"[..], left), "{n}: bytes of read_to_end");
                at = c.len();
            }
            9 => {
                let mut s = String::from("prä");
                let res = r.io().read_to_string(&mut s);
                match std::str::from_utf8(left) {
                    Ok(t) => {
                        check_eq!(ok(res, "read_to_string"), left.len(), "{n}: count of read_to_string");
                        check_eq!(s, format!("prä{t}"), "{n}: text of read_to_string");
                        at = c.len();
                    }
                    Err(_) => {
                        check_eq!(res.err().map(|e| e.kind()), Some(ErrorKind::InvalidData), "{n}: read_to_string of invalid text");
                        check_eq!(s, "prä", "{n}: string after a refused read_to_string");
                        let now = r.content();
                        check!(left.ends_with(&now), "{n}: content after a refused read_to_string");
                        at = c.len() - now.len();
                    }
                }
            }
            10 | 11 => {
                let d = if left.is_empty() || cx.rng.chance(1, 3) { cx.rng.byte() } else { left[cx.rng.below(left.len())] };
                let mut v = b"pre".to_vec();
                let k = ok(r.io().read_until(d, &mut v), "read_until");
                let e = left.iter().position(|b| *b == d).map_or(left.len(), |p| p + 1);
                check_eq!(k, e, "{n}: count of read_until {d}");
                check_eq!((&v[..3], &v[3..]), (&b"pre"[..], &left[..e]), "{n}: bytes of read_until {d}");
                at += e;
            }
            12 => {
                let mut s = String::from("prä");
                let e = left.iter().position(|b| *b == b'\n').map_or(left.len(), |p| p + 1);
                let res = r.io().read_line(&mut s);
                match std::str::from_utf8(&left[..e]) {
                    Ok(t) => {
                        check_eq!(ok(res, "read_line"), e, "{n}: count of read_line");
                        check_eq!(s, format!("prä{t}"), "{n}: text of read_line");
                        at += e;
                    }
                    Err(_) => {
                        check_eq!(res.err().map(|e| e.kind()), Some(ErrorKind::InvalidData), "{n}: read_line of invalid text");
                        check_eq!(s, "prä", "{n}: string after a refused read_line");
                        let now = r.content();
                        check!(left.ends_with(&now), "{n}: content after a refused read_line");
                        at = c.len() - now.len();
                    }
                }
            }
            13 => {
                // through the adaptors
                match cx.rng.below(3) {
                    0 => {
                        let mut v = Vec::new();
                        let k = ok(r.io().take(want as u64).read_to_end(&mut v), "take");
                        let e = want.min(left.len());
                        check_eq!((k, &v[..]), (e, &left[..e]), "{n}: bytes of a limited reader");
                        at += e;
                    }
                    1 => {
                        let mut v = Vec::new();
                        let k = ok(std::io::copy(r.io(), &mut v), "copy");
                        check_eq!((k as usize, &v[..]), (left.len(), left), "{n}: bytes copied");
                        at = c.len();
                    }
                    _ => {
                        let m = want.min(left.len());
                        let mut it = Read::bytes(r.io());
                        for i in 0..m {
                            check_eq!(ok(it.next().expect("byte"), "bytes"), left[i], "{n}: byte {i} of Read::bytes");
                        }
                        if m == left.len() {
                            check!(it.next().is_none(), "{n}: Read::bytes yields more than there is");
                        }
                        at += m;
                    }
                }
            }
            _ => {
                // consuming more than there is must not be honoured silently with wrong content
                let big = *cx.rng.pick(&[left.len() + 1, usize::MAX, usize::MAX - 1, crate::core::p2(32) + 1 + left.len()]);
                let _ = may_panic(|| r.io().consume(big));
                let now = r.content();
                check!(now.len() <= left.len() && left.ends_with(&now), "{n}: content after consuming {big} of {}", left.len());
                at = c.len() - now.len();
            }
        }
        check_eq!(r.content(), &c[at..], "{n}: remaining content after op {op}");
    }
    check_eq!(twin.content(), &c[..], "{n}: a clone of the read value");
    // to the end by the plainest means, and then it stays at the end
    let mut rest = Vec::new();
    let mut b = [0u8; 37];
    loop {
        let k = ok(r.io().read(&mut b), "read");
        if k == 0 {
            break;
        }
        rest.extend_from_slice(&b[..k]);
        check!(rest.len() <= c.len(), "{n}: endless reading");
    }
    check_eq!(&rest[..], &c[at..], "{n}: the rest");
    for _ in 0..2 {
        check_eq!(ok(r.io().read(&mut b), "read"), 0, "{n}: read after the end");
        check_eq!(ok(r.io().fill_buf(), "fill_buf").len(), 0, "{n}: fill_buf after the end");
        check_eq!(ok(r.io().read_to_end(&mut rest), "read_to_end"), 0, "{n}: read_to_end after the end");
        check_eq!(ok(r.io().read_until(0, &mut rest), "read_until"), 0, "{n}: read_until after the end");
        check_eq!(ok(r.io().read_vectored(&mut [IoSliceMut::new(&mut b)]), "read_vectored"), 0, "{n}: read_vectored after the end");
    }
}

/// line and split iterators
fn lines(cx: &mut Ctx, ar: &Arena) {
    let n = gen::len(&mut cx.rng);
    let mut t: Vec<u8> = gen::text_n(&mut cx.rng, n).into_bytes();
    for b in t.iter_mut() {
        if *b == b'a' || *b == b'.' {
            *b = b'\n';
        } else if *b == b'b' {
            *b = b'\r';
        }
    }
    let s = match source(cx, ar, &t) {
        R::B(d) => (BufRead::lines(d.clone()).collect::<Result<Vec<_>, _>>(), BufRead::split(d, b'\n').collect::<Result<Vec<_>, _>>()),
        R::S(d) => (BufRead::lines(d.clone()).collect(), BufRead::split(d, b'\n').collect()),
        R::Q(d) => (BufRead::lines(d.clone()).collect(), BufRead::split(d, b'\n').collect()),
    };
    cx.note(|| format!("lines of {t:?}"));
    let want = ok(BufRead::lines(&t[..]).collect::<Result<Vec<_>, _>>(), "reference lines");
    check_eq!(ok(s.0, "lines"), want, "lines");
    let want = ok(BufRead::split(&t[..], b'\n').collect::<Result<Vec<_>, _>>(), "reference split");
    check_eq!(ok(s.1, "split"), want, "split");
}

enum W {
    B(SharedBytesBuilder),
    Q(ByteQueue<'static>),
}
impl W {
    fn io(&mut self) -> &mut dyn Write {
        match self {
            W::B(x) => x,
            W::Q(x) => x,
        }
    }
    fn check(&self, m: &[u8]) {
        match self {
            W::B(b) => {
                check_eq!(b.as_slice(), m, "builder after writing");
                check!(b.capacity() >= b.len(), "capacity below length");
            }
            W::Q(x) => {
                check_eq!(x.len(), m.len(), "queue length after writing");
                let mut at = 0;
                for c in x.chunks() {
                    check!(at + c.len() <= m.len() && c.as_slice() == &m[at..at + c.len()], "queue content after writing");
                    at += c.len();
                }
                check_eq!(at, m.len(), "bytes in a queue after writing");
            }
        }
    }
}

fn writing(cx: &mut Ctx, ar: &Arena) {
    let mut m: Vec<u8> = Vec::new();
    let mut w = match cx.rng.below(4) {
        0 => W::B(SharedBytesBuilder::with_capacity(cx.rng.below(64))),
        1 => {
            let c = gen::bytes(&mut cx.rng);
            m = c.clone();
            W::B(SharedBytesBuilder::from(SharedBytes::from_slice(&c)))
        }
        2 => W::Q(ByteQueue::new()),
        _ => {
            m = gen::bytes(&mut cx.rng);
            W::Q(q::mk_bq(cx, ar, &m))
        }
    };
    cx.ev("writer", (m.len() * 2 + usize::from(matches!(w, W::B(_)))) as u64);
    for _ in 0..cx.rng.range(1, 12) {
        let d = match cx.rng.below(6) {
            0 => Vec::new(),
            1 => gen::bytes(&mut cx.rng),
            2 => {
                let n = cx.rng.range(13, 16);
                gen::bytes_n(&mut cx.rng, n)
            }
            _ => {
                let n = gen::small_len(&mut cx.rng);
                gen::bytes_n(&mut cx.rng, n)
            }
        };
        let op = cx.rng.below(9);
        cx.ev("write op", (op * 4096 + d.len()) as u64);
        cx.note(|| format!("op {op} with {} byte(s)", d.len()));
        match op {
            0 | 1 => {
                let k = ok(w.io().write(&d), "write");
                check!(k <= d.len() && (k > 0 || d.is_empty()), "write of {} byte(s) reports {k}", d.len());
                m.extend_from_slice(&d[..k]);
            }
            2 | 3 | 4 => {
                let mut cs = gen::cuts(&mut cx.rng, d.len());
                if cx.rng.chance(1, 2) {
                    let e = *cx.rng.pick(&cs);
                    let i = cs.iter().position(|x| *x == e).unwrap_or(0);
                    cs.insert(i, e);
                    cs.push(d.len());
                }
                let io: Vec<IoSlice<'_>> = cs.windows(2).map(|p| IoSlice::new(&d[p[0]..p[1]])).collect();
                let k = ok(w.io().write_vectored(&io), "write_vectored");
                check!(k <= d.len() && (k > 0 || d.is_empty()), "vectored write of {} byte(s) reports {k}", d.len());
                cx.mix(io.len() as u64);
                m.extend_from_slice(&d[..k]);
            }
            5 => {
                ok(w.io().write_all(&d), "write_all");
                m.extend_from_slice(&d);
            }
            6 => {
                let t = gen::text_n(&mut cx.rng, d.len());
                let x = cx.rng.u64();
                ok(write!(w.io(), "<{t}|{x:>8}>"), "write_fmt");
                m.extend_from_slice(format!("<{t}|{x:>8}>").as_bytes());
            }
            7 => {
                let k = ok(std::io::copy(&mut &d[..], w.io()), "copy");
                check_eq!(k as usize, d.len(), "bytes copied");
                m.extend_from_slice(&d);
            }
            _ => {
                {
                    let mut b = std::io::BufWriter::with_capacity(cx.rng.range(1, 20), w.io());
                    for p in d.chunks(7) {
                        ok(b.write_all(p), "buffered write");
                    }
                    ok(b.flush(), "flush");
                }
                m.extend_from_slice(&d);
            }
        }
        ok(w.io().flush(), "flush");
        w.check(&m);
    }
    match w {
        W::B(b) => check_eq!(b.build().as_slice(), &m[..], "frozen builder"),
        W::Q(x) => check_eq!(x.into_bytedata_checked(), m, "flattened queue"),
    }
}
trait Flat {
    fn into_bytedata_checked(self) -> Vec<u8>;
}
impl Flat for ByteQueue<'static> {
    fn into_bytedata_checked(self) -> Vec<u8> {
        ByteData::from(self).as_slice().to_vec()
    }
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(10) {
        0..=5 => reading(cx, &ar),
        6 => lines(cx, &ar),
        _ => writing(cx, &ar),
    }
    ar.audit_exts();
}

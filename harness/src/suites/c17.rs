//! Rendering of values and formatting into them.
use crate::core::Ctx;
use crate::gen::{self, q, Arena};
use crate::{check, check_eq};
use bytedata::{ByteChunk, ByteData, ByteQueue, ByteStringRender, MultiByteStringRender, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use std::fmt::{Debug, Display, LowerHex, UpperHex, Write};

const N_SPECS: usize = 26;
/// The same value through one of many format specifications.
fn disp_to<T: Display + ?Sized>(o: &mut dyn Write, k: usize, w: usize, p: usize, x: &T) -> std::fmt::Result {
    match k {
        0..=5 => write!(o, "{x}"),
        6 => o.write_str(&x.to_string()),
        7 => write!(o, "{x:w$}"),
        8 => write!(o, "{x:<w$}"),
        9 => write!(o, "{x:>w$}"),
        10 => write!(o, "{x:^w$}"),
        11 => write!(o, "{x:*<w$}"),
        12 => write!(o, "{x:字>w$}"),
        13 => write!(o, "{x:🦀^w$}"),
        14 => write!(o, "{x:.p$}"),
        15 => write!(o, "{x:w$.p$}"),
        16 => write!(o, "{x:-^w$.p$}"),
        17 => write!(o, "{x:>w$.p$}"),
        18 => write!(o, "{x:0w$}"),
        19 => write!(o, "{x:+}"),
        20 => write!(o, "{x:#}"),
        21 => write!(o, "{x:#<w$.p$}"),
        22 => write!(o, "{x:.0}"),
        23 => write!(o, "{0:1$}|{0:.2$}", x, w, p),
        24 => write!(o, "<{x:^0$.1$}>", w, p),
        _ => write!(o, "{x:\u{301}>w$}"),
    }
}
fn dbg_to<T: Debug + ?Sized>(o: &mut dyn Write, k: usize, w: usize, p: usize, x: &T) -> std::fmt::Result {
    match k {
        0..=5 => write!(o, "{x:?}"),
        6 => write!(o, "{x:#?}"),
        7 => write!(o, "{x:w$?}"),
        8 => write!(o, "{x:>w$?}"),
        9 => write!(o, "{x:*^w$?}"),
        10 => write!(o, "{x:.p$?}"),
        11 => write!(o, "{x:<w$.p$?}"),
        12 => write!(o, "{x:#w$?}"),
        13 => write!(o, "{:?}", Some(x)),
        14 => write!(o, "{:?}", (x, x)),
        _ => write!(o, "{:#?}", [x, x]),
    }
}
fn hex_to<T: LowerHex + UpperHex + ?Sized>(o: &mut dyn Write, k: usize, w: usize, x: &T) -> std::fmt::Result {
    match k % 8 {
        0 | 1 => write!(o, "{x:x}"),
        2 | 3 => write!(o, "{x:X}"),
        4 => write!(o, "{x:w$x}"),
        5 => write!(o, "{x:w$X}"),
        6 => write!(o, "{x:0w$x}"),
        _ => write!(o, "{x:0w$X}"),
    }
}

fn disp<T: Display + ?Sized>(k: usize, w: usize, p: usize, x: &T) -> String {
    let mut s = String::new();
    check!(disp_to(&mut s, k, w, p, x).is_ok(), "display form fails where nothing failed");
    s
}
fn dbg<T: Debug + ?Sized>(k: usize, w: usize, p: usize, x: &T) -> String {
    let mut s = String::new();
    check!(dbg_to(&mut s, k, w, p, x).is_ok(), "debug form fails where nothing failed");
    s
}
fn hex<T: LowerHex + UpperHex + ?Sized>(k: usize, w: usize, x: &T) -> String {
    let mut s = String::new();
    check!(hex_to(&mut s, k, w, x).is_ok(), "hexadecimal form fails where nothing failed");
    s
}
fn hexp<T: LowerHex + UpperHex + ?Sized>(k: usize, w: usize, _: usize, x: &T) -> String {
    hex(k, w, x)
}
fn hexp_to<T: LowerHex + UpperHex + ?Sized>(o: &mut dyn Write, k: usize, w: usize, _: usize, x: &T) -> std::fmt::Result {
    hex_to(o, k, w, x)
}

/// A destination with room for so many bytes: what fits is kept, anything more is an error.
struct Full {
    got: Vec<u8>,
    room: usize,
    /// accepts (and ignores) what comes after its error
    lenient: bool,
    failed: bool,
}
impl Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            return if self.lenient { Ok(()) } else { Err(std::fmt::Error) };
        }
        let n = s.len().min(self.room - self.got.len());
        self.got.extend_from_slice(&s.as_bytes()[..n]);
        self.failed = n < s.len();
        if self.failed { Err(std::fmt::Error) } else { Ok(()) }
    }
}
fn into_full(room: usize, lenient: bool, want: &str, what: &str, run: impl FnOnce(&mut Full) -> std::fmt::Result) {
    let mut o = Full { got: Vec::new(), room, lenient, failed: false };
    let r = run(&mut o);
    check_eq!(r.is_err(), room < want.len(), "{what} of {} byte(s) into a destination with room for {room}: failure", want.len());
    check_eq!(o.got, want.as_bytes()[..room.min(want.len())], "{what} into a destination with room for {room}");
}

/// Rendering into something that fails: the failure is passed on, and what came before it is right.
fn full(cx: &mut Ctx, ar: &Arena) {
    let n = gen::small_len(&mut cx.rng);
    let t = gen::text_n(&mut cx.rng, n);
    let (k, w, p) = (cx.rng.below(N_SPECS), cx.rng.below(t.chars().count() + 12), cx.rng.below(t.chars().count() + 3));
    let len = cx.rng.chance(1, 2);
    let wd = disp(k, w, p, &t[..]);
    let mut room = |x: &str| if cx.rng.chance(1, 8) { x.len() } else { cx.rng.below(x.len() + 1) };
    let (r1, r2) = (room(&wd), room(&wd));
    cx.ev("full", (k * 64 + r1.min(63)) as u64);
    cx.mix((w * 2048 + p) as u64);
    cx.note(|| format!("spec {k} width {w} precision {p} of {t:?} with room for {r1}, {r2} (lenient {len})"));
    let d = gen::sd(cx, ar, &t);
    let qq = q::mk_sq(cx, ar, &t);
    let mut b = SharedStrBuilder::new();
    b.push_str(&t);
    into_full(r1, len, &wd, "display form of StringData", |o| disp_to(o, k, w, p, &d));
    into_full(r2, len, &wd, "display form of StringQueue", |o| disp_to(o, k, w, p, &qq));
    into_full(r1, len, &wd, "display form of SharedStrBuilder", |o| disp_to(o, k, w, p, &b));
    let wq = dbg(k, w, p, &d);
    let r = cx.rng.below(wq.len() + 1);
    into_full(r, len, &wq, "debug form of StringData", |o| dbg_to(o, k, w, p, &d));
    let wq = dbg(k, w, p, &qq);
    let r = cx.rng.below(wq.len() + 1);
    into_full(r, len, &wq, "debug form of StringQueue", |o| dbg_to(o, k, w, p, &qq));
    let wq = dbg(k, w, p, &b);
    let r = cx.rng.below(wq.len() + 1);
    into_full(r, len, &wq, "debug form of SharedStrBuilder", |o| dbg_to(o, k, w, p, &b));
    // bytes
    let n = gen::small_len(&mut cx.rng);
    let c: Vec<u8> = (0..n).map(|_| if cx.rng.chance(1, 2) { cx.rng.byte() } else { *cx.rng.pick(b"\\\"'\n\r\tx0 a~\x7f") }).collect();
    let d = gen::bd(cx, ar, &c);
    let s = SharedBytes::from_slice(&c);
    let qq = q::mk_bq(cx, ar, &c);
    let mut b = SharedBytesBuilder::new();
    b.extend_from_slice(&c);
    let rend = ByteStringRender::from_slice(&c);
    let cs = gen::cuts(&mut cx.rng, c.len());
    let parts: Vec<&[u8]> = cs.windows(2).map(|p| &c[p[0]..p[1]]).collect();
    let multi = MultiByteStringRender::new(&parts);
    macro_rules! each {
        ($to:ident, $one:ident, $k:expr, $what:literal, $($x:expr),*) => {$({
            let want = $one($k, w, p, &$x);
            let r = if cx.rng.chance(1, 8) { want.len() } else { cx.rng.below(want.len() + 1) };
            cx.note(|| format!("{} of {} ({c:?}, spec {k}, width {w}) with room for {r}", $what, stringify!($x)));
            into_full(r, len, &want, concat!($what, " of ", stringify!($x)), |o| $to(o, $k, w, p, &$x));
        })*};
    }
    let w = cx.rng.below(c.len() * 2 + 12);
    each!(hexp_to, hexp, k, "hexadecimal form", d, s, qq, b, rend);
    each!(dbg_to, dbg, k, "debug form", d, s, qq, rend, multi);
    each!(disp_to, disp, 0, "escaped form", rend, multi);
}

/// Reads an escaped rendering back. Anything but printable ASCII, or a stray quote, is refused.
fn unescape(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\\' => {
                let e = *b.get(i + 1)?;
                i += 2;
                match e {
                    b'n' => o.push(b'\n'),
                    b'r' => o.push(b'\r'),
                    b't' => o.push(b'\t'),
                    b'0' => o.push(0),
                    b'\\' | b'"' | b'\'' => o.push(e),
                    b'x' => {
                        let h = b.get(i..i + 2)?;
                        if !h.iter().all(u8::is_ascii_hexdigit) {
                            return None;
                        }
                        o.push(u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()?);
                        i += 2;
                    }
                    _ => return None,
                }
            }
            b'"' => return None,
            c @ 32..=126 => {
                o.push(c);
                i += 1;
            }
            _ => return None,
        }
    }
    Some(o)
}

fn text(cx: &mut Ctx, ar: &Arena) {
    let t = gen::text(&mut cx.rng);
    let n = t.chars().count();
    let k = cx.rng.below(N_SPECS);
    let w = match cx.rng.below(4) {
        0 => n,
        1 => n + 1,
        2 if cx.rng.chance(1, 8) => n + *cx.rng.pick(&[60, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 1000]),
        2 => n + cx.rng.range(1, 30),
        _ => cx.rng.below(n + 1),
    };
    let p = match cx.rng.below(3) {
        0 => n,
        1 => n + cx.rng.below(3),
        _ => cx.rng.below(n + 1),
    };
    cx.ev("text", (k * 4096 + t.len()) as u64);
    cx.mix((w * 2048 + p) as u64);
    cx.note(|| format!("spec {k} width {w} precision {p} of {t:?}"));
    let want = disp(k, w, p, &t[..]);
    let d = gen::sd(cx, ar, &t);
    check_eq!(disp(k, w, p, &d), want, "display form of StringData (spec {k}, width {w}, precision {p})");
    let qq = q::mk_sq(cx, ar, &t);
    check_eq!(disp(k, w, p, &qq), want, "display form of StringQueue of {} chunk(s) (spec {k}, width {w}, precision {p})", qq.chunk_len());
    let mut b = SharedStrBuilder::new();
    b.push_str(&t);
    check_eq!(disp(k, w, p, &b), want, "display form of SharedStrBuilder (spec {k}, width {w}, precision {p})");
    let want = dbg(k, w, p, &t[..]);
    check_eq!(dbg(k, w, p, &d), want, "debug form of StringData (spec {k}, width {w}, precision {p})");
    // the list of chunks of a text queue
    let cs: Vec<String> = qq.chunks().map(|c| c.as_str().to_string()).collect();
    check_eq!(cs.concat(), t, "chunks");
    check_eq!(format!("{qq:?}"), format!("{cs:?}"), "debug form of StringQueue");
    check!(format!("{b:?}").contains(&format!("{t:?}")), "debug form of SharedStrBuilder does not show the text");
    // one at a time
    let mut it = t.chars();
    let s: String = qq.chars().inspect(|c| check_eq!(Some(*c), it.next(), "char")).collect();
    check_eq!(s, t, "chars of a text queue");
}

fn bytes(cx: &mut Ctx, ar: &Arena) {
    let c = match cx.rng.below(4) {
        0 => {
            // every value of a byte, in order
            let a = cx.rng.byte();
            (0..cx.rng.range(1, 256)).map(|i| a.wrapping_add(i as u8)).collect()
        }
        1 => {
            let n = gen::small_len(&mut cx.rng);
            (0..n).map(|_| *cx.rng.pick(b"\\\"'\n\r\tx0 \x7f\x80\xffn\x1f ~")).collect()
        }
        _ => gen::bytes(&mut cx.rng),
    };
    let k = cx.rng.below(N_SPECS);
    let w = match cx.rng.below(4) {
        0 => c.len() * 2,
        1 if cx.rng.chance(1, 8) => c.len() * 2 + *cx.rng.pick(&[32, 33, 64, 65, 128, 256, 300]),
        1 => c.len() * 2 + cx.rng.range(1, 20),
        2 => c.len() * 2 + 1,
        _ => cx.rng.below(c.len() + 1),
    };
    cx.ev("bytes", (k * 4096 + c.len()) as u64);
    cx.mix(w as u64);
    cx.note(|| format!("hex/escape spec {k} width {w} of {c:?}"));
    let d = gen::bd(cx, ar, &c);
    let s = SharedBytes::from_slice(&c);
    let qq = q::mk_bq(cx, ar, &c);
    let mut b = SharedBytesBuilder::new();
    b.extend_from_slice(&c);
    let rend = ByteStringRender::from_slice(&c);
    // hexadecimal: two digits per byte, a larger width only adds zeros in front
    let lower: String = c.iter().map(|x| format!("{x:02x}")).collect();
    let upper: String = c.iter().map(|x| format!("{x:02X}")).collect();
    let digits = if matches!(k % 8, 0 | 1 | 4 | 6) { lower } else { upper };
    let h = hex(k, w, &d);
    check!(h.ends_with(&digits), "hexadecimal form of ByteData: {h} for {digits}");
    let pad = &h[..h.len() - digits.len()];
    let room = if k % 8 < 4 { 0 } else { w.saturating_sub(digits.len()) };
    check!(pad.len() == room && pad.bytes().all(|x| x == b'0'), "hexadecimal form (spec {}) with width {w} of {} byte(s) is padded with {pad:?}", k % 8, c.len());
    check_eq!(hex(k, w, &s), h, "hexadecimal form of SharedBytes");
    check_eq!(hex(k, w, &qq), h, "hexadecimal form of ByteQueue of {} chunk(s)", qq.chunk_len());
    check_eq!(hex(k, w, &b), h, "hexadecimal form of SharedBytesBuilder");
    check_eq!(hex(k, w, &rend), h, "hexadecimal form of ByteStringRender");
    // escaped rendering
    let e = format!("{rend}");
    check_eq!(unescape(&e), Some(c.clone()), "escaped form {e:?} read back");
    let dq = format!("b\"{e}\"");
    check_eq!(format!("{rend:?}"), dq, "debug form of ByteStringRender");
    check_eq!(format!("{d:?}"), dq, "debug form of ByteData");
    check_eq!(format!("{qq:?}"), dq, "debug form of ByteQueue of {} chunk(s)", qq.chunk_len());
    check!(format!("{s:?}").contains(&dq), "debug form of SharedBytes does not show the content");
    check_eq!(format!("{}", ByteStringRender::from_ref(&d)), e, "ByteStringRender::from_ref");
    check_eq!(ByteStringRender::from_ref(&d).as_slice(), &c[..], "ByteStringRender::as_slice");
    check_eq!(format!("{}", ByteStringRender::from(&c[..])), e, "ByteStringRender from a slice");
    if let Ok(t) = std::str::from_utf8(&c) {
        check_eq!(format!("{}", ByteStringRender::from_str(t)), e, "ByteStringRender::from_str");
        check_eq!(format!("{}", ByteStringRender::from(t)), e, "ByteStringRender from text");
    }
    // divided in any way
    let cs = gen::cuts(&mut cx.rng, c.len());
    let parts: Vec<&[u8]> = cs.windows(2).map(|p| &c[p[0]..p[1]]).collect();
    let multi = MultiByteStringRender::new(&parts);
    check_eq!(format!("{multi}"), e, "MultiByteStringRender of {} part(s)", parts.len());
    check_eq!(format!("{multi:?}"), dq, "debug form of MultiByteStringRender");
    check_eq!(format!("{}", MultiByteStringRender::new(&qq)), e, "MultiByteStringRender of a queue");
    if c.len() <= 14 {
        let ch = ByteChunk::from_slice(&c);
        check_eq!(format!("{ch:?}"), dq, "debug form of ByteChunk");
    }
}

/// Text in pieces, for writers.
struct Pieces<'a>(&'a [String]);
impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (i, p) in self.0.iter().enumerate() {
            if i % 3 == 2 {
                for c in p.chars() {
                    f.write_char(c)?;
                }
            } else {
                f.write_str(p)?;
            }
        }
        Ok(())
    }
}

fn writers(cx: &mut Ctx, ar: &Arena) {
    let np = cx.rng.below(6);
    let mut ps: Vec<String> = Vec::new();
    for _ in 0..np {
        let n = match cx.rng.below(6) {
            0 => 0,
            1 => gen::len(&mut cx.rng),
            _ => cx.rng.range(1, 18),
        };
        ps.push(gen::text_n(&mut cx.rng, n));
    }
    let x = cx.rng.u64();
    let w = cx.rng.below(40);
    let f = f64::from_bits(cx.rng.u64() & 0x7FEF_FFFF_FFFF_FFFF | 0x3000_0000_0000_0000) % 1e9;
    let how = cx.rng.below(5);
    cx.ev("format", (how * 64 + np) as u64);
    cx.mix(ps.iter().map(|p| p.len()).sum::<usize>() as u64 ^ x);
    cx.note(|| format!("format way {how} of {ps:?} {x} {w}"));
    macro_rules! each {
        ($m:ident, $($a:tt)*) => {
            match how {
                0 => $m!($($a)* "{}", Pieces(&ps)),
                1 => $m!($($a)* "{:>w$}|{:#x}{{}}", x, w, w = w),
                2 => $m!($($a)* "{0:?}{1:^2$.3$}{0:?}", ps, f, w, 3),
                3 => $m!($($a)* "just text, nothing else: {{}} é字🦀"),
                _ => $m!($($a)* "<{}{x}{:?}{w}>", Pieces(&ps), f),
            }
        };
    }
    let want: String = each!(format,);
    let s = each!(fshared,);
    check_eq!(s.as_str(), &want[..], "format_shared!");
    let k: StringQueue<'static> = each!(fqueue,);
    check_eq!(k.len(), want.len(), "length of format_queue!");
    check_eq!(k.chunks().map(|c| c.as_str().to_string()).collect::<String>(), want, "format_queue!");
    // appending to something
    let pre = gen::text(&mut cx.rng);
    let all = format!("{pre}{want}");
    macro_rules! into {
        ($v:expr, $get:expr, $n:literal) => {{
            let mut v = $v;
            let r = each!(write, v,);
            check!(r.is_ok(), "{} refuses formatted text", $n);
            check_eq!($get(&v), all, "text formatted into {}", $n);
        }};
    }
    into!({ let mut b = SharedBytesBuilder::new(); b.extend_from_slice(pre.as_bytes()); b }, |v: &SharedBytesBuilder| String::from_utf8_lossy(v.as_slice()).into_owned(), "SharedBytesBuilder");
    into!({ let mut b = SharedStrBuilder::with_capacity(w); b.push_str(&pre); b }, |v: &SharedStrBuilder| v.as_str().to_string(), "SharedStrBuilder");
    into!(q::mk_bq(cx, ar, pre.as_bytes()), |v: &ByteQueue<'_>| { check_eq!(v.len(), all.len(), "length of a queue formatted into"); String::from_utf8_lossy(&v.chunks().flat_map(|c| c.as_slice().to_vec()).collect::<Vec<u8>>()).into_owned() }, "ByteQueue");
    into!(q::mk_sq(cx, ar, &pre), |v: &StringQueue<'_>| v.chunks().map(|c| c.as_str().to_string()).collect::<String>(), "StringQueue");
    // nested: rendering a value straight into another one
    let d = StringData::from(want.clone());
    let mut b = SharedStrBuilder::new();
    check!(write!(b, "{d:>w$}{d:?}{}", ByteData::len(&ByteData::from(d.clone()))).is_ok(), "nested formatting");
    check_eq!(b.as_str(), &format!("{want:>w$}{want:?}{}", want.len())[..], "nested formatting");
}
macro_rules! fshared { ($($a:tt)*) => { bytedata::format_shared!($($a)*) } }
macro_rules! fqueue { ($($a:tt)*) => { bytedata::format_queue!($($a)*) } }
use {fqueue, fshared};

/// inline buffer: what fits is stored, what does not is refused
fn chunk(cx: &mut Ctx) {
    let n = cx.rng.below(15);
    let pre = gen::text_n(&mut cx.rng, n);
    let mut c = ByteChunk::from_slice(pre.as_bytes());
    let mut m = pre;
    for _ in 0..cx.rng.range(1, 8) {
        let k = cx.rng.below(5);
        let n = match cx.rng.below(4) {
            0 => 14 - m.len(),
            1 => 15 - m.len(),
            2 => cx.rng.below(4),
            _ => cx.rng.below(20),
        };
        let t = gen::text_n(&mut cx.rng, n);
        cx.ev("chunk", (k * 400 + m.len() * 20 + n) as u64);
        cx.note(|| format!("chunk of {} op {k} with {t:?}", m.len()));
        // pieces arrive one by one; the first that does not fit ends it
        let (r, pieces): (std::fmt::Result, Vec<String>) = match k {
            0 | 1 => (c.write_str(&t), vec![t]),
            2 => {
                let ch = gen::ch(&mut cx.rng);
                (c.write_char(ch), vec![ch.to_string()])
            }
            3 => {
                let ps: Vec<String> = t.chars().map(String::from).collect();
                (write!(c, "{}", Pieces(&ps)), ps)
            }
            _ => {
                let x = cx.rng.below(1000).to_string();
                (write!(c, "{t}{x}"), vec![t, x])
            }
        };
        let fits = pieces.iter().map(|p| p.len()).sum::<usize>() + m.len() <= 14;
        check_eq!(r.is_ok(), fits, "formatting {pieces:?} into an inline buffer holding {} byte(s)", m.len());
        for p in pieces {
            if m.len() + p.len() > 14 {
                break;
            }
            m.push_str(&p);
        }
        check_eq!(c.len(), m.len(), "length of an inline buffer after formatting");
        check_eq!(c.as_slice(), m.as_bytes(), "inline buffer after formatting");
        check_eq!(ByteData::from_chunk_slice(c.as_slice()).as_slice(), m.as_bytes(), "value made from an inline buffer");
    }
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(10) {
        0..=2 => text(cx, &ar),
        3 | 4 => bytes(cx, &ar),
        5 | 6 => writers(cx, &ar),
        7 => chunk(cx),
        _ => full(cx, &ar),
    }
    ar.audit_exts();
}

//! Const helpers and UTF-8 decoding against the standard library.
use crate::core::{may_panic, Ctx};
use crate::gen;
use crate::{check, check_eq};
use bytedata::*;

/// bytes rich in malformed UTF-8
pub fn hostile_utf8(cx: &mut Ctx, max: usize) -> Vec<u8> {
    let n = cx.rng.below(max + 1);
    let mut v: Vec<u8> = Vec::new();
    while v.len() < n {
        match cx.rng.below(14) {
            0..=3 => {
                let c = gen::ch(&mut cx.rng);
                v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            }
            4 => {
                let c = gen::ch(&mut cx.rng);
                let mut b = [0; 4];
                let s = c.encode_utf8(&mut b).as_bytes();
                let k = cx.rng.below(s.len()) + 1;
                v.extend_from_slice(&s[..k]);
            }
            5 => v.push(cx.rng.byte()),
            6 => v.push(0x80 | (cx.rng.byte() & 0x3f)),
            7 => {
                // overlong two byte
                v.push(0xC0 | cx.rng.below(2) as u8);
                v.push(0x80 | (cx.rng.byte() & 0x3f));
            }
            8 => {
                // overlong three byte
                v.push(0xE0);
                v.push(0x80 | (cx.rng.byte() & 0x1f));
                v.push(0x80 | (cx.rng.byte() & 0x3f));
            }
            9 => {
                // surrogates
                v.push(0xED);
                v.push(0xA0 | (cx.rng.byte() & 0x1f));
                v.push(0x80 | (cx.rng.byte() & 0x3f));
            }
            10 => {
                // overlong four byte
                v.push(0xF0);
                v.push(0x80 | (cx.rng.byte() & 0x0f));
                v.push(0x80 | (cx.rng.byte() & 0x3f));
                v.push(0x80 | (cx.rng.byte() & 0x3f));
            }
            11 => {
                // beyond the last code point
                v.push(0xF4 + cx.rng.below(4) as u8);
                v.push(0x90 | (cx.rng.byte() & 0x2f));
                v.push(0x80 | (cx.rng.byte() & 0x3f));
                v.push(0x80 | (cx.rng.byte() & 0x3f));
            }
            12 => v.push(*cx.rng.pick(&[0xC0u8, 0xC1, 0xC2, 0xDF, 0xE0, 0xEC, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFC, 0xFE, 0xFF, 0x7F])),
            _ => {
                // one flipped bit in a valid char
                let c = gen::ch(&mut cx.rng);
                let mut b = [0; 4];
                let s = c.encode_utf8(&mut b).as_bytes().to_vec();
                let at = v.len() + cx.rng.below(s.len());
                v.extend_from_slice(&s);
                v[at] ^= 1 << cx.rng.below(8);
            }
        }
    }
    v
}

/// first char of a byte string as the standard library sees it
fn std_next(d: &[u8]) -> Option<char> {
    for k in 1..=4.min(d.len()) {
        if let Ok(s) = std::str::from_utf8(&d[..k]) {
            return s.chars().next();
        }
    }
    None
}

fn decode(cx: &mut Ctx) {
    let v = hostile_utf8(cx, 24);
    cx.ev("decode", v.len() as u64);
    for b in &v {
        cx.mix(u64::from(*b));
    }
    cx.note(|| format!("decode {v:02x?}"));
    for at in 0..=v.len() {
        let t = &v[at..];
        let (val, n) = const_utf8_char_next(t);
        match std_next(t) {
            Some(c) => {
                check_eq!((val, n as usize), (c as u32, c.len_utf8()), "const_utf8_char_next of {t:02x?}");
            }
            None => {
                check_eq!((val, n), (0, 0), "const_utf8_char_next of {t:02x?}");
            }
        }
    }
    // a whole pass: every char that is yielded is really encoded there, in order, without overlap
    let up_to = match std::str::from_utf8(&v) {
        Ok(_) => v.len(),
        Err(e) => e.valid_up_to(),
    };
    let valid = std::str::from_utf8(&v[..up_to]).unwrap();
    let mut expect = valid.char_indices();
    let mut it = Utf8CharIndices::new(&v);
    let mut err = false;
    let mut end = 0;
    let mut items = 0usize;
    let (lo, hi) = it.size_hint();
    loop {
        let before = it;
        let rem = before.remaining();
        check_eq!(rem, &v[v.len() - rem.len()..], "remaining()");
        match it.next() {
            Some(Ok((i, c))) => {
                items += 1;
                check_eq!(i, v.len() - rem.len(), "position of a decoded char in {v:02x?}");
                check!(i >= end, "char at {i} overlaps the one before in {v:02x?}");
                check_eq!(std_next(&v[i..]), Some(c), "char decoded at {i} of {v:02x?}");
                end = i + c.len_utf8();
                check_eq!(it.remaining(), &v[end..], "remaining() after a char");
                if !err {
                    check_eq!(Some((i, c)), expect.next(), "char of the valid prefix of {v:02x?}");
                }
                match before.next_const() {
                    Ok((n, j, d)) => {
                        check_eq!((j, d, n.remaining()), (i, c, it.remaining()), "next_const and next disagree");
                    }
                    Err(_) => {
                        check!(false, "next_const fails where next yields a char");
                    }
                }
            }
            Some(Err(e)) => {
                items += 1;
                check!(e.error_len != 0, "error_len is 0 before the end of {v:02x?}");
                if !err {
                    check_eq!(e.valid_up_to, up_to, "valid_up_to of the first error in {v:02x?}");
                    check!(expect.next().is_none(), "an error is reported before the end of the valid prefix of {v:02x?}");
                    err = true;
                }
                check!(std_next(rem).is_none(), "a valid char at {} of {v:02x?} is reported as an error", v.len() - rem.len());
                check!(it.remaining().len() < rem.len(), "no progress after an error in {v:02x?}");
                match before.next_const() {
                    Err((n, f)) => {
                        check_eq!((f, n.remaining()), (e, it.remaining()), "next_const and next disagree on an error");
                    }
                    Ok(_) => {
                        check!(false, "next_const yields a char where next fails");
                    }
                }
            }
            None => break,
        }
        let (a, b) = it.size_hint();
        check!(a <= b, "size hint {a}..{b}");
    }
    check!(lo <= items && items <= hi, "{items} items, but the size hint was {lo}..{hi}, for {v:02x?}");
    check_eq!(err, up_to != v.len(), "an error is reported exactly for invalid input {v:02x?}");
    if !err {
        check!(expect.next().is_none(), "chars are missing at the end of {v:02x?}");
    }
    for _ in 0..2 {
        check!(it.next().is_none(), "an exhausted Utf8CharIndices yields again");
    }
    check!(it.next_const().is_err_and(|(_, e)| e.error_len == 0), "next_const at the end");
}

fn slices(cx: &mut Ctx) {
    let (a, b) = match cx.rng.below(3) {
        0 => {
            let n = cx.rng.below(12);
            let m = cx.rng.below(6);
            (gen::bytes_n(&mut cx.rng, n), gen::bytes_n(&mut cx.rng, m))
        }
        1 => {
            let a: Vec<u8> = (0..cx.rng.below(20)).map(|_| b'a' + cx.rng.below(2) as u8).collect();
            let b: Vec<u8> = (0..cx.rng.below(5)).map(|_| b'a' + cx.rng.below(2) as u8).collect();
            (a, b)
        }
        _ => {
            let a = gen::bytes(&mut cx.rng);
            let s = cx.rng.below(a.len() + 1);
            let e = cx.rng.range(s, a.len());
            let mut b = a[s..e].to_vec();
            if cx.rng.chance(1, 4) && !b.is_empty() {
                let i = cx.rng.below(b.len());
                b[i] ^= 1;
            }
            (a, b)
        }
    };
    cx.ev("slices", (a.len() * 64 + b.len()) as u64);
    for x in a.iter().take(16) {
        cx.mix(u64::from(*x));
    }
    cx.note(|| format!("slices {a:02x?} {b:02x?}"));
    let find = |h: &[u8], n: &[u8]| -> Option<usize> {
        if n.is_empty() {
            Some(0)
        } else {
            h.windows(n.len()).position(|w| w == n)
        }
    };
    check_eq!(const_eq(&a, &b), a == b, "const_eq");
    check!(const_eq(&a, &a.clone()), "const_eq of equal slices");
    check_eq!(const_starts_with(&a, &b), a.starts_with(&b), "const_starts_with");
    check_eq!(const_ends_with(&a, &b), a.ends_with(&b), "const_ends_with");
    let k = cx.rng.below(a.len() + 1);
    check!(const_starts_with(&a, &a[..k]) && const_ends_with(&a, &a[k..]), "own prefix/suffix of length {k} is refused");
    check_eq!(const_find_bytes(&a, &b), find(&a, &b), "const_find_bytes({a:02x?}, {b:02x?})");
    check_eq!(const_split_once_bytes(&a, &b), find(&a, &b).map(|i| a.split_at(i)), "const_split_once_bytes({a:02x?}, {b:02x?})");
    let c = if a.is_empty() || cx.rng.chance(1, 3) { cx.rng.byte() } else { a[cx.rng.below(a.len())] };
    check_eq!(const_split_once_byte(&a, c), a.iter().position(|x| *x == c).map(|i| a.split_at(i)), "const_split_once_byte({a:02x?}, {c:02x})");
    for _ in 0..4 {
        let (s, e) = hostile_range(cx, a.len());
        check_eq!(const_slice(&a, s..e), a.get(s..e), "const_slice(len {}, {s}..{e})", a.len());
    }
    check_eq!(const_or_bytes(None, &b), &b[..], "const_or_bytes(None)");
    check_eq!(const_or_bytes(Some(&a), &b), &a[..], "const_or_bytes(Some)");
    // const concatenation into a fixed buffer
    let parts: Vec<&[u8]> = vec![&a, &b, &a[..k]];
    let total: usize = parts.iter().map(|p| p.len()).sum();
    let r = may_panic(|| build_const_bytes([0x55u8; 64], &parts));
    match r {
        Some((buf, n)) => {
            check!(total <= 64, "build_const_bytes put {total} bytes into 64");
            check_eq!(n, total, "length of build_const_bytes");
            check_eq!(&buf[..n], &parts.concat()[..], "content of build_const_bytes");
            check!(buf[n..].iter().all(|x| *x == 0x55), "build_const_bytes changed the rest of the buffer");
        }
        None => {
            check!(total > 64, "build_const_bytes panicked on {total} bytes for 64");
        }
    }
    // const-capable comparisons of the handle types
    let d = ByteData::from_borrowed(&a);
    let e = ByteData::from_borrowed(&b);
    check_eq!(d.eq_const(&e), a == b, "ByteData::eq_const");
    check_eq!(d.eq_slice(&b), a == b, "ByteData::eq_slice");
    check_eq!(d.starts_with(&b), a.starts_with(&b), "ByteData::starts_with");
    check_eq!(d.ends_with(&b), a.ends_with(&b), "ByteData::ends_with");
    let (d, e) = (SharedBytes::from_slice(&a), SharedBytes::from_slice(&b));
    check_eq!(d.eq_const(&e), a == b, "SharedBytes::eq_const");
    check_eq!(d.eq_slice(&b), a == b, "SharedBytes::eq_slice");
    check_eq!(d.starts_with(&b), a.starts_with(&b), "SharedBytes::starts_with");
    check_eq!(d.ends_with(&b), a.ends_with(&b), "SharedBytes::ends_with");
}

pub fn hostile_range(cx: &mut Ctx, n: usize) -> (usize, usize) {
    let mut p = |cx: &mut Ctx| match cx.rng.below(10) {
        0 => n,
        1 => n + 1 + cx.rng.below(3),
        2 => usize::MAX - cx.rng.below(3),
        3 => 0,
        _ => cx.rng.below(n + 1),
    };
    let (a, b) = (p(cx), p(cx));
    if a > b && cx.rng.chance(3, 4) {
        (b, a)
    } else {
        (a, b)
    }
}

fn texts(cx: &mut Ctx) {
    let n = cx.rng.below(24);
    let a = gen::text_n(&mut cx.rng, n);
    cx.ev("texts", n as u64);
    for x in a.bytes() {
        cx.mix(u64::from(x));
    }
    cx.note(|| format!("text {a:?}"));
    for _ in 0..8 {
        let (s, e) = hostile_range(cx, a.len());
        let r = match may_panic(|| const_slice_str(&a, s..e)) {
            Some(r) => r,
            None => {
                check!(false, "const_slice_str({a:?}, {s}..{e}) panicked");
                unreachable!()
            }
        };
        check_eq!(r.ok(), a.get(s..e), "const_slice_str({a:?}, {s}..{e})");
        let oob = s > e || e > a.len();
        match r {
            StrSliceResult::Success(_) => {
                check!(r.is_ok() && !r.is_err() && r.err().is_none(), "state of StrSliceResult::Success");
                check_eq!(r.unwrap(), &a[s..e], "StrSliceResult::unwrap");
            }
            StrSliceResult::OutOfBounds => {
                check!(oob && r.is_err() && !r.is_ok() && r.err() == Some(r), "OutOfBounds for {a:?} {s}..{e}");
            }
            StrSliceResult::InvalidUtf8 => {
                check!(!oob && r.is_err() && !r.is_ok() && r.err() == Some(r), "InvalidUtf8 for {a:?} {s}..{e}");
            }
        }
        if r.is_err() {
            check!(may_panic(|| r.unwrap()).is_none(), "unwrap of an error did not panic");
        }
    }
    let cs: Vec<(usize, char)> = a.char_indices().collect();
    let needle: String = if cs.is_empty() || cx.rng.chance(1, 5) {
        gen::text_n(&mut cx.rng, 2)
    } else {
        let i = cx.rng.below(cs.len());
        cs[i..].iter().take(cx.rng.below(3)).map(|x| x.1).collect()
    };
    check_eq!(const_split_once_str(&a, &needle), a.find(&needle).map(|i| a.split_at(i)), "const_split_once_str({a:?}, {needle:?})");
    check_eq!(const_or_str(None, &a), &a[..], "const_or_str(None)");
    check_eq!(const_or_str(Some(&needle), &a), &needle[..], "const_or_str(Some)");
    let (d, e) = (StringData::from_borrowed(&a), StringData::from_borrowed(&needle));
    check_eq!(d.eq_const(&e), a == needle, "StringData::eq_const");
    check_eq!(d.eq_str(&needle), a == needle, "StringData::eq_str");
    check_eq!(d.eq_slice(needle.as_bytes()), a == needle, "StringData::eq_slice");
    check_eq!(d.starts_with(&needle), a.starts_with(&needle), "StringData::starts_with");
    check_eq!(d.ends_with(&needle), a.ends_with(&needle), "StringData::ends_with");
    // inline chunk
    if a.len() <= ByteChunk::LEN {
        let c = ByteChunk::from_slice(a.as_bytes());
        check_eq!(c.as_slice(), a.as_bytes(), "ByteChunk::from_slice");
        check_eq!((c.len(), c.is_empty()), (a.len(), a.is_empty()), "ByteChunk::len");
    } else {
        check!(may_panic(|| ByteChunk::from_slice(a.as_bytes())).is_none(), "ByteChunk::from_slice accepted {} bytes", a.len());
        check!(may_panic(|| ByteData::from_chunk_slice(a.as_bytes())).is_none(), "ByteData::from_chunk_slice accepted {} bytes", a.len());
    }
    let b = cx.rng.byte();
    check_eq!(ByteChunk::from_byte(b).as_slice(), &[b][..], "ByteChunk::from_byte");
    check_eq!(ByteData::from_byte(b).as_slice(), &[b][..], "ByteData::from_byte");
}

// evaluated at compile time: the same helpers in a const context
const A: &[u8] = "héllo wörld, 🦀!".as_bytes();
const C_EQ: bool = const_eq(A, "héllo wörld, 🦀!".as_bytes()) && !const_eq(A, b"x") && !const_eq(b"", A);
const C_SLICE: Option<&[u8]> = const_slice(A, 1..3);
const C_OOB: Option<&[u8]> = const_slice(A, 3..99);
const C_STR: StrSliceResult<'static> = const_slice_str("héllo", 1..3);
const C_CUT: StrSliceResult<'static> = const_slice_str("héllo", 2..3);
const C_END: StrSliceResult<'static> = const_slice_str("héllo", 6..6);
const C_FIND: Option<usize> = const_find_bytes(A, "🦀".as_bytes());
const C_SPLIT: Option<(&[u8], &[u8])> = const_split_once_byte(b"a=b=c", b'=');
const C_CHAR: (u32, u32) = const_utf8_char_next("🦀".as_bytes());
const C_BUILD: ([u8; 8], usize) = build_const_bytes([0; 8], &[b"ab", b"", b"cde"]);
static C_DATA: ByteData<'static> = ByteData::from_static(A);
static C_CHUNK: ByteData<'static> = ByteData::from_chunk(b"chunk");
static C_TEXT: StringData<'static> = StringData::from_static("é");

fn constants(cx: &mut Ctx) {
    cx.count("constants");
    check!(C_EQ, "const_eq at compile time");
    check_eq!(C_SLICE, Some("é".as_bytes()), "const_slice at compile time");
    check_eq!(C_OOB, None, "const_slice out of bounds at compile time");
    check_eq!(C_STR, StrSliceResult::Success("é"), "const_slice_str at compile time");
    check_eq!(C_CUT, StrSliceResult::InvalidUtf8, "const_slice_str inside a char at compile time");
    check_eq!(C_END, StrSliceResult::Success(""), "const_slice_str at the end at compile time");
    check_eq!(C_FIND, Some(15), "const_find_bytes at compile time");
    check_eq!(C_SPLIT, Some((&b"a"[..], &b"=b=c"[..])), "const_split_once_byte at compile time");
    check_eq!(C_CHAR, (0x1F980, 4), "const_utf8_char_next at compile time");
    check_eq!(C_BUILD, (*b"abcde\0\0\0", 5), "build_const_bytes at compile time");
    check_eq!(C_DATA.len() + C_CHUNK.len() + C_TEXT.len(), A.len() + 7, "len at compile time");
    check_eq!(C_CHUNK.as_slice(), b"chunk", "from_chunk at compile time");
    static CC: &str = bytedata::concat_str_static!("he", "", "llö", " wörld, this is long");
    check_eq!(CC, "hellö wörld, this is long", "concat_str_static!");
    static CB: &[u8] = bytedata::concat_bytes_static!(b"he", b"", b"llo", b"\xff\x00");
    check_eq!(CB, b"hello\xff\x00", "concat_bytes_static!");
}

/// all one, two and three byte inputs are walked through systematically, a slice per case
fn exhaustive(cx: &mut Ctx, k: u64) {
    cx.ev("exhaustive", k % 4096);
    let base = (k as u32 % 4096) << 12;
    for x in base..base + 4096 {
        let b = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        let (val, n) = const_utf8_char_next(&b);
        match std_next(&b) {
            Some(c) => {
                check_eq!((val, n as usize), (c as u32, c.len_utf8()), "const_utf8_char_next of {b:02x?}");
            }
            None => {
                check_eq!((val, n), (0, 0), "const_utf8_char_next of {b:02x?}");
            }
        }
        let first = Utf8CharIndices::new(&b).next();
        check_eq!(first.and_then(|r| r.ok()), std_next(&b).map(|c| (0, c)), "first char of {b:02x?}");
    }
    // every code point of a plane slice
    let cb = (k as u32).wrapping_mul(997) % 0x110000;
    for c in (cb..cb + 256).filter_map(char::from_u32) {
        let mut b = [0; 4];
        let s = c.encode_utf8(&mut b).as_bytes();
        check_eq!(const_utf8_char_next(s), (c as u32, s.len() as u32), "const_utf8_char_next of {c:?}");
        check_eq!(Utf8CharIndices::new(s).next(), Some(Ok((0, c))), "Utf8CharIndices of {c:?}");
    }
}

pub fn run(cx: &mut Ctx) {
    match cx.rng.below(24) {
        0..=7 => decode(cx),
        8..=14 => slices(cx),
        15..=21 => texts(cx),
        22 => {
            constants(cx);
            texts(cx)
        }
        _ if cfg!(miri) => decode(cx),
        _ => {
            let k = cx.rng.u64();
            exhaustive(cx, k);
        }
    }
}

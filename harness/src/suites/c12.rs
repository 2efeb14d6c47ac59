//! Searching and splitting against naive definitions over the plain content.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, SharedBytes, StringData};

fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    let t = h.get(from..)?;
    if n.is_empty() {
        return Some(from);
    }
    (0..t.len().checked_sub(n.len())? + 1).find(|&i| &t[i..i + n.len()] == n).map(|i| i + from)
}
/// `max` pieces at most (0 = no limit); nothing for empty content
fn split(h: &[u8], n: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    if h.is_empty() {
        return v;
    }
    let mut at = 0;
    while v.len() + 1 != max {
        match find(h, n, at) {
            Some(p) => {
                v.push(h[at..p].to_vec());
                at = p + n.len();
            }
            None => break,
        }
    }
    v.push(h[at..].to_vec());
    v
}

/// few letters, so that matches, near-matches and overlaps are frequent
fn content(cx: &mut Ctx) -> Vec<u8> {
    let k = cx.rng.range(1, 3);
    let n = match cx.rng.below(8) {
        0 => 0,
        1 => 1,
        2..=4 => cx.rng.range(2, 24),
        _ => cx.rng.range(10, 120),
    };
    let alpha: Vec<&str> = match cx.rng.below(4) {
        0 | 1 => vec!["a", "b", "c"],
        2 => vec!["a", "\r", "\n"],
        _ => vec!["é", "a", "è"],
    };
    let mut v = Vec::new();
    while v.len() < n {
        v.extend_from_slice(alpha[cx.rng.below(k)].as_bytes());
    }
    v
}
fn needle(cx: &mut Ctx, c: &[u8]) -> Vec<u8> {
    let take = |cx: &mut Ctx, max: usize| {
        let a = cx.rng.below(c.len() + 1);
        let b = (a + cx.rng.below(max + 1)).min(c.len());
        c[a..b].to_vec()
    };
    match cx.rng.below(12) {
        0 => Vec::new(),
        1..=3 => take(cx, 2),
        4..=6 => take(cx, 5),
        7 => take(cx, 40),
        8 => {
            let mut n = take(cx, 6);
            if let Some(l) = n.last_mut() {
                *l ^= 1;
            }
            n
        }
        9 => c.to_vec(),
        10 => {
            let mut n = c.to_vec();
            n.push(b'a');
            n
        }
        _ => b"a".to_vec(),
    }
}
fn text_needle(cx: &mut Ctx, c: &str) -> String {
    let n = needle(cx, c.as_bytes());
    String::from_utf8(n).unwrap_or_else(|_| (*cx.rng.pick(&["a", "é", "aé", "", "\n"])).to_string())
}

/// Collects at most as many pieces as there can be.
fn pieces<T>(it: impl Iterator<Item = T>, content: usize, what: &str, f: impl Fn(T) -> Vec<u8>) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut it = it;
    loop {
        let (lo, hi) = it.size_hint();
        match it.next() {
            Some(x) => {
                check!(hi != Some(0), "{what}: upper bound 0 but a piece follows");
                v.push(f(x));
            }
            None => {
                check!(lo == 0, "{what}: lower bound {lo} but no piece follows");
                break;
            }
        }
        check!(v.len() <= content + 2, "{what}: does not terminate: more pieces than a content of {content} byte(s) can have");
    }
    check!(it.next().is_none() && it.next().is_none(), "{what}: yields again after the end");
    v
}
fn verify(got: Vec<Vec<u8>>, c: &[u8], n: &[u8], max: usize, what: &str) {
    if n.is_empty() {
        check_eq!(got.concat(), c, "{what} on an empty needle: pieces concatenated");
        return;
    }
    check_eq!(got, split(c, n, max), "{what} of {:?} on {:?} (limit {max})", String::from_utf8_lossy(c), String::from_utf8_lossy(n));
}
/// size hint of a fresh iterator bounds the real number of pieces
fn fresh_hint(h: (usize, Option<usize>), n: usize, what: &str) {
    check!(h.0 <= n && h.1.map_or(true, |x| x >= n), "{what}: size_hint {h:?} for {n} piece(s)");
}

fn positions(cx: &mut Ctx, n: usize) -> usize {
    match cx.rng.below(8) {
        0 => 0,
        1 => n,
        2 => n + 1,
        3 => *cx.rng.pick(&[usize::MAX, usize::MAX - 1, n + 2, n + 30]),
        _ => cx.rng.below(n + 1),
    }
}

fn queue(cx: &mut Ctx, ar: &Arena) {
    let c = content(cx);
    let q = gen::q::mk_bq(cx, ar, &c);
    cx.note(|| format!("byte queue {:?} cut as {:?}", String::from_utf8_lossy(&c), q.chunks().map(|x| x.len()).collect::<Vec<_>>()));
    for _ in 0..cx.rng.range(1, 5) {
        let n = needle(cx, &c);
        let at = positions(cx, c.len());
        cx.note(|| format!("needle {:?} position {at}", String::from_utf8_lossy(&n)));
        cx.ev("queue.search", (n.len() * 977 + at.min(5000)) as u64);
        check_eq!(q.starts_with(&n), c.starts_with(&n), "queue.starts_with");
        check_eq!(q.ends_with(&n), c.ends_with(&n), "queue.ends_with");
        check_eq!(q.exists_at(at, &n), c.get(at..).map_or(false, |r| r.starts_with(&n)), "queue.exists_at({at}, {:?}) in {:?}", n, c);
        check_eq!(q.find_slice(&n), find(&c, &n, 0), "queue.find_slice({n:?}) in {c:?}");
        check_eq!(q.find_slice_after(&n, at), find(&c, &n, at), "queue.find_slice_after({n:?}, {at}) in {c:?}");
        let b = cx.rng.byte();
        let b = if cx.rng.chance(3, 4) { n.first().copied().unwrap_or(b) } else { b };
        check_eq!(q.find_byte(|x| x == b), c.iter().position(|x| *x == b), "queue.find_byte");
        let mut seen = 0;
        let stop = cx.rng.below(c.len() + 1);
        q.find_byte(|x| {
            check_eq!(Some(&x), c.get(seen), "queue.find_byte shows byte {seen}");
            seen += 1;
            seen == stop
        });
        check_eq!(seen, if stop == 0 { c.len() } else { stop }, "queue.find_byte calls");
        let want = split(&c, if n.is_empty() { b"\0none" } else { &n }, 0).len();
        if !n.is_empty() {
            fresh_hint(q.split_on(&n).size_hint(), want, "queue.split_on");
        }
        verify(pieces(q.split_on(&n), c.len(), "queue.split_on", Vec::from), &c, &n, 0, "queue.split_on");
        let max = if cx.rng.chance(1, 8) { usize::MAX } else { cx.rng.range(1, 6) };
        if !n.is_empty() {
            fresh_hint(q.splitn_on(&n, max).size_hint(), want.min(max), "queue.splitn_on");
        }
        verify(pieces(q.splitn_on(&n, max), c.len(), "queue.splitn_on", Vec::from), &c, &n, max, "queue.splitn_on");
        // pieces are proper queues
        for p in q.split_on(&n).take(4) {
            let m = Vec::from(p.clone());
            super::c10::same(&p, &m, "piece of a split");
        }
    }
}

fn str_queue(cx: &mut Ctx, ar: &Arena) {
    let c = String::from_utf8(content(cx)).unwrap();
    let mut q = gen::q::mk_sq(cx, ar, &c);
    cx.note(|| format!("string queue {c:?} cut as {:?}", q.chunks().map(|x| x.len()).collect::<Vec<_>>()));
    for _ in 0..cx.rng.range(1, 4) {
        let n = text_needle(cx, &c);
        let b = needle(cx, c.as_bytes());
        cx.note(|| format!("needle {n:?} byte needle {b:?}"));
        cx.ev("strqueue.search", (n.len() * 977 + b.len()) as u64);
        check_eq!(q.starts_with(&n), c.starts_with(&n), "string queue starts_with");
        check_eq!(q.ends_with(&n), c.ends_with(&n), "string queue ends_with");
        check_eq!(q.starts_with(&b), c.as_bytes().starts_with(&b), "string queue starts_with bytes");
        check_eq!(q.ends_with(&b), c.as_bytes().ends_with(&b), "string queue ends_with bytes");
        let ch = *cx.rng.pick(&['a', 'b', 'é', 'è', '\n', 'x']);
        check_eq!(q.find_char(|x| x == ch), c.find(ch), "string queue find_char");
        let st = |x: bytedata::StringQueue<'_>| String::from(x).into_bytes();
        verify(pieces(q.split_on(&n), c.len(), "string queue split_on", st), c.as_bytes(), n.as_bytes(), 0, "string queue split_on");
        let max = cx.rng.range(1, 6);
        verify(pieces(q.splitn_on(&n, max), c.len(), "string queue splitn_on", st), c.as_bytes(), n.as_bytes(), max, "string queue splitn_on");
        verify(pieces(q.split_on_bytes(&b), c.len(), "string queue split_on_bytes", Vec::from), c.as_bytes(), &b, 0, "string queue split_on_bytes");
        verify(pieces(q.splitn_on_bytes(&b, max), c.len(), "string queue splitn_on_bytes", Vec::from), c.as_bytes(), &b, max, "string queue splitn_on_bytes");
    }
}

fn bytes(cx: &mut Ctx, ar: &Arena) {
    let c = content(cx);
    let d = gen::bd(cx, ar, &c);
    cx.note(|| format!("bytes {:?}", String::from_utf8_lossy(&c)));
    for _ in 0..cx.rng.range(1, 5) {
        let n = needle(cx, &c);
        cx.note(|| format!("needle {:?}", String::from_utf8_lossy(&n)));
        cx.ev("bytes.search", n.len() as u64);
        check_eq!(d.starts_with(&n), c.starts_with(&n), "ByteData::starts_with");
        check_eq!(d.ends_with(&n), c.ends_with(&n), "ByteData::ends_with");
        let s = SharedBytes::from_slice(&c);
        check_eq!(s.starts_with(&n), c.starts_with(&n), "SharedBytes::starts_with");
        match d.clone().split_once_on(&n) {
            Ok((a, b)) => {
                let p = find(&c, &n, 0);
                check!(p.is_some(), "ByteData::split_once_on split on an absent needle");
                check_eq!(a.as_slice(), &c[..p.unwrap()], "ByteData::split_once_on head");
                check_eq!(b.as_slice(), &c[p.unwrap()..], "ByteData::split_once_on rest (it starts with the separator)");
            }
            Err(e) => {
                check!(find(&c, &n, 0).is_none(), "ByteData::split_once_on missed a present needle");
                check_eq!(e.as_slice(), &c[..], "ByteData::split_once_on hands the value back");
            }
        }
        let fresh = d.clone().split_on(&n).size_hint();
        if !n.is_empty() {
            fresh_hint(fresh, split(&c, &n, 0).len(), "ByteData::split_on");
        }
        verify(pieces(d.clone().split_on(&n), c.len(), "ByteData::split_on", |x: ByteData<'_>| x.as_slice().to_vec()), &c, &n, 0, "ByteData::split_on");
        let mut t = d.clone();
        let stop = cx.rng.below(c.len() + 2);
        let mut i = 0;
        let h = ByteData::take_while(&mut t, |b| {
            check_eq!(Some(&b), c.get(i), "ByteData::take_while shows byte {i}");
            i += 1;
            i <= stop
        });
        let k = stop.min(c.len());
        check_eq!(h.as_slice(), &c[..k], "ByteData::take_while result");
        check_eq!(t.as_slice(), &c[k..], "ByteData::take_while rest");
    }
}

fn text(cx: &mut Ctx, ar: &Arena) {
    let c = String::from_utf8(content(cx)).unwrap();
    let d = gen::sd(cx, ar, &c);
    cx.note(|| format!("text {c:?}"));
    for _ in 0..cx.rng.range(1, 5) {
        let n = text_needle(cx, &c);
        cx.note(|| format!("needle {n:?}"));
        cx.ev("text.search", n.len() as u64);
        check_eq!(d.starts_with(&n), c.starts_with(&n), "StringData::starts_with");
        check_eq!(d.ends_with(&n), c.ends_with(&n), "StringData::ends_with");
        match d.clone().split_once_on(&n) {
            Ok((a, b)) => {
                let p = c.find(&n);
                check!(p.is_some(), "StringData::split_once_on split on an absent needle");
                check_eq!(a.as_str(), &c[..p.unwrap()], "StringData::split_once_on head");
                check_eq!(b.as_str(), &c[p.unwrap()..], "StringData::split_once_on rest (it starts with the separator)");
            }
            Err(e) => {
                check!(!c.contains(&n), "StringData::split_once_on missed a present needle");
                check_eq!(e.as_str(), &c[..], "StringData::split_once_on hands the value back");
            }
        }
        verify(
            pieces(d.clone().split_on(&n), c.len(), "StringData::split_on", |x: StringData<'_>| {
                check!(std::str::from_utf8(x.as_bytes()).is_ok(), "piece is not valid text");
                x.as_bytes().to_vec()
            }),
            c.as_bytes(),
            n.as_bytes(),
            0,
            "StringData::split_on",
        );
        let ch = *cx.rng.pick(&['a', 'b', 'é', 'è', '\n', 'x']);
        let mut t = d.clone();
        let h = StringData::take_while(&mut t, |x| x != ch);
        let k = c.find(ch).unwrap_or(c.len());
        check_eq!(h.as_str(), &c[..k], "StringData::take_while result");
        check_eq!(t.as_str(), &c[k..], "StringData::take_while rest");
    }
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(8) {
        0..=3 => queue(cx, &ar),
        4 | 5 => str_queue(cx, &ar),
        6 => bytes(cx, &ar),
        _ => text(cx, &ar),
    }
    let _ = may_panic(|| ());
    ar.audit_exts();
}

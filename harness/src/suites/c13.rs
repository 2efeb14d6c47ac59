//! String queue edit histories against a plain string.
use crate::core::{may_panic, Ctx};
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use std::fmt::Write as _;

pub fn same(q: &StringQueue<'_>, m: &str, what: &str) {
    check_eq!(q.len(), m.len(), "{what}: len");
    check_eq!(q.is_empty(), m.is_empty(), "{what}: is_empty");
    let (mut at, mut n) = (0, 0);
    for c in q.chunks() {
        check!(!c.is_empty(), "{what}: the queue yields an empty chunk");
        check!(std::str::from_utf8(c.as_bytes()).is_ok(), "{what}: chunk {n} is not valid UTF-8: {:?}", c.as_bytes());
        check!(m.len() - at >= c.len(), "{what}: chunks hold more bytes than the length says");
        check_eq!(c.as_bytes(), &m.as_bytes()[at..at + c.len()], "{what}: chunk {n} at byte {at}");
        at += c.len();
        n += 1;
    }
    check_eq!(at, m.len(), "{what}: bytes in chunks");
    check_eq!(q.chunk_len(), n, "{what}: chunk_len");
    check_eq!(q.front().map(|c| c.as_str().len()), q.chunks().next().map(|c| c.len()), "{what}: front");
    check_eq!(q.back().map(|c| c.as_str().len()), q.chunks().last().map(|c| c.len()), "{what}: back");
}

struct Q {
    q: StringQueue<'static>,
    m: String,
}
fn part(cx: &mut Ctx) -> String {
    let n = if cx.rng.chance(1, 3) { cx.rng.below(5) } else { gen::small_len(&mut cx.rng) };
    gen::text_n(&mut cx.rng, n)
}
fn pos(cx: &mut Ctx, q: &StringQueue<'_>, m: &str) -> usize {
    let mut p = match cx.rng.below(4) {
        0 => {
            let k = cx.rng.below(q.chunk_len() + 1);
            q.chunks().take(k).map(|c| c.len()).sum()
        }
        1 => *cx.rng.pick(&[0, m.len()]),
        _ => cx.rng.below(m.len() + 1),
    };
    while !m.is_char_boundary(p) {
        p -= 1;
    }
    p
}
fn span(cx: &mut Ctx, x: &Q) -> (usize, usize) {
    let (a, b) = (pos(cx, &x.q, &x.m), pos(cx, &x.q, &x.m));
    (a.min(b), a.max(b))
}

fn step(cx: &mut Ctx, ar: &Arena, x: &mut Q, spare: &mut Vec<Q>) {
    let n = x.m.len();
    let chunks = x.q.chunk_len() as u64;
    macro_rules! op {
        ($n:literal, $a:expr) => {{
            cx.ev($n, (n as u64) * 131 + ($a as u64));
            cx.mix(chunks);
            cx.note(|| format!("{}({}) on {n} byte(s) in {chunks} chunk(s)", $n, $a));
        }};
    }
    match cx.rng.below(28) {
        0..=3 => {
            let c = part(cx);
            op!("s.push_back", c.len());
            match cx.rng.below(4) {
                0 => x.q.push_back(ar.stat_str(&c)),
                1 => x.q.push_back(c.clone()),
                _ => {
                    let d = gen::sd(cx, ar, &c);
                    x.q.push_back(d);
                }
            }
            x.m.push_str(&c);
        }
        4 | 5 => {
            let c = part(cx);
            op!("s.push_front", c.len());
            let d = gen::sd(cx, ar, &c);
            x.q.push_front(d);
            x.m.insert_str(0, &c);
        }
        6 => {
            op!("s.pop_front", 0);
            let want = x.q.front().map(|d| d.as_str().to_string());
            let got = x.q.pop_front();
            check_eq!(got.as_ref().map(|d| d.as_str().to_string()), want, "pop_front");
            check_eq!(got.is_none(), n == 0, "pop_front none exactly when empty");
            let l = got.map_or(0, |d| d.len());
            x.m.drain(..l);
        }
        7 => {
            op!("s.pop_back", 0);
            let want = x.q.back().map(|d| d.as_str().to_string());
            let got = x.q.pop_back();
            check_eq!(got.as_ref().map(|d| d.as_str().to_string()), want, "pop_back");
            check_eq!(got.is_none(), n == 0, "pop_back none exactly when empty");
            x.m.truncate(n - got.map_or(0, |d| d.len()));
        }
        8 | 9 => {
            op!("s.extend", 0);
            let k = cx.rng.below(4);
            let t: Vec<String> = (0..k).map(|_| part(cx)).collect();
            match cx.rng.below(4) {
                0 => x.q.extend(t.iter().map(|s| StringData::from(s.clone()))),
                1 => x.q.extend(t.iter().map(|s| ar.stat_str(s))),
                2 => x.q.extend(t.iter().cloned()),
                _ => {
                    if let Some(o) = spare.pop() {
                        x.q.extend(o.q);
                        x.m.push_str(&o.m);
                    }
                    x.q.extend(t.iter().map(|s| StringData::from_owned(s.clone())));
                }
            }
            x.m.push_str(&t.concat());
        }
        10 | 11 => {
            let (a, b) = span(cx, x);
            op!("s.slice", a * 1009 + b);
            let s = match cx.rng.below(4) {
                0 if b > a => x.q.slice(a..=b - 1),
                1 if b == n => x.q.slice(a..),
                2 if a == 0 => x.q.slice(..b),
                _ => x.q.slice(a..b),
            };
            same(&s, &x.m[a..b], "slice");
            if spare.len() < 3 {
                spare.push(Q { q: s, m: x.m[a..b].to_string() });
            }
        }
        12 | 13 => {
            let at = pos(cx, &x.q, &x.m);
            op!("s.split_off", at);
            let t = x.q.split_off(at);
            let tm = x.m.split_off(at);
            same(&t, &tm, "split_off tail");
            if spare.len() < 3 {
                spare.push(Q { q: t, m: tm });
            }
        }
        14 | 15 => {
            let (a, b) = span(cx, x);
            op!("s.drain", a * 1009 + b);
            let k = cx.rng.below(10);
            {
                let mut d = x.q.drain(a..b);
                let mut w = x.m[a..b].chars();
                for _ in 0..k {
                    check_eq!(d.next(), w.next(), "drain yields");
                }
            }
            x.m.replace_range(a..b, "");
        }
        16 | 17 => {
            let (a, b) = span(cx, x);
            let c = part(cx);
            op!("s.replace_range", a * 1009 + b);
            let d = gen::sd(cx, ar, &c);
            match cx.rng.below(4) {
                0 if b > a => x.q.replace_range(a..=b - 1, d),
                1 if b == n => x.q.replace_range(a.., d),
                _ => x.q.replace_range(a..b, d),
            }
            x.m.replace_range(a..b, &c);
        }
        18 => {
            let stop = cx.rng.below(n + 2);
            op!("s.take_while", stop);
            let mut w = x.m.chars();
            let mut i = 0;
            let t = x.q.take_while(|c| {
                if w.next() != Some(c) {
                    crate::core::violation(format!("take_while shows {c:?} as character {i}"));
                }
                i += 1;
                i <= stop
            });
            let k = x.m.char_indices().nth(stop).map_or(n, |(i, _)| i);
            same(&t, &x.m[..k], "take_while result");
            x.m.drain(..k);
        }
        19 | 20 => {
            op!("s.take_line", 0);
            let k = x.m.find('\n').map_or(n, |i| i + 1);
            let t = x.q.take_line();
            same(&t, &x.m[..k], "take_line result");
            x.m.drain(..k);
        }
        21 => {
            op!("s.write", 0);
            let s = part(cx);
            let c = gen::ch(&mut cx.rng);
            check!(write!(x.q, "{n}{s:?}{c}").is_ok() && x.q.write_char(c).is_ok() && x.q.write_str(&s).is_ok(), "formatted write failed");
            let _ = write!(x.m, "{n}{s:?}{c}{c}{s}");
        }
        22 => {
            op!("s.convert", 0);
            let q = std::mem::take(&mut x.q);
            x.q = match cx.rng.below(8) {
                0 => StringQueue::from(StringData::from(q)),
                1 => StringQueue::from(String::from(q)),
                2 => q.into_iter().collect(),
                3 => {
                    let v: Vec<_> = q.into_iter().rev().collect();
                    v.into_iter().rev().collect()
                }
                4 => {
                    let b: ByteQueue<'static> = q.into_bytequeue();
                    check_eq!(Vec::from(b.clone()), x.m.as_bytes(), "into_bytequeue");
                    match StringData::try_from_bytedata(ByteData::from(b)) {
                        Ok(d) => StringQueue::with_item(d),
                        Err(_) => crate::core::violation("bytes of a string queue are refused as text".into()),
                    }
                }
                5 => StringQueue::from(std::borrow::Cow::<'static, str>::Owned(String::from(q))),
                6 => {
                    let y = q.clone();
                    same(&y, &x.m, "clone");
                    check_eq!(y.chunk_len(), q.chunk_len(), "clone chunk count");
                    if spare.len() < 3 {
                        spare.push(Q { q, m: x.m.clone() });
                    }
                    y
                }
                _ => StringQueue::with_item(StringData::from(q)),
            };
        }
        23 => {
            op!("s.find_char", 0);
            let c = x.m.chars().nth(cx.rng.below(20)).unwrap_or('?');
            check_eq!(x.q.find_char(|y| y == c), x.m.find(c), "find_char {c:?}");
            check!(x.q.chars_indecies().eq(x.m.char_indices()), "character positions");
            check!(x.q.chars().eq(x.m.chars()), "characters");
            check!(x.q.clone().into_chars().eq(x.m.chars()), "owned characters");
            check!(x.q.clone().into_bytes().eq(x.m.bytes()), "owned bytes");
        }
        24 | 25 => {
            // positions a string rejects
            let inside: Vec<usize> = (0..n).filter(|i| !x.m.is_char_boundary(*i)).collect();
            let good = pos(cx, &x.q, &x.m);
            let bad = if !inside.is_empty() && cx.rng.chance(3, 4) { *cx.rng.pick(&inside) } else { *cx.rng.pick(&[n + 1, n + 7, usize::MAX, usize::MAX - 1, usize::MAX - n]) };
            let (a, b) = match cx.rng.below(4) {
                0 => (good.min(bad), good.max(bad)),
                1 => (bad, bad),
                2 => (bad, n),
                _ => (0, bad),
            };
            op!("s.reject", a.wrapping_mul(31).wrapping_add(b) % 65536);
            let what = match cx.rng.below(6) {
                0 => may_panic(|| drop(x.q.slice(a..b))).map(|_| "slice"),
                1 => may_panic(|| drop(x.q.drain(a..b))).map(|_| "drain"),
                2 => may_panic(|| x.q.replace_range(a..b, StringData::from_static("é"))).map(|_| "replace_range"),
                3 if b < usize::MAX && b > 0 && a < b => may_panic(|| drop(x.q.slice(a..=b - 1))).map(|_| "slice inclusive"),
                4 => may_panic(|| drop(x.q.slice(bad..))).map(|_| "slice from"),
                _ => may_panic(|| drop(x.q.split_off(bad))).map(|_| "split_off"),
            };
            if let Some(w) = what {
                check!(false, "{w} accepted positions {a}..{b} (bad one: {bad}) of {:?}", x.m);
            }
        }
        26 => {
            if let Some(mut o) = spare.pop() {
                op!("s.swap", o.m.len());
                std::mem::swap(x, &mut o);
                spare.push(o);
            }
        }
        _ => {
            op!("s.new", 0);
            let m = part(cx);
            let k = cx.rng.below(3);
            let q = match k {
                0 => StringQueue::from(ar.stat_str(&m)),
                1 => StringQueue::with_item(gen::sd(cx, ar, &m)),
                _ => gen::q::mk_sq(cx, ar, &m),
            };
            if spare.len() < 3 {
                spare.push(Q { q, m });
            } else {
                same(&q, &m, "new");
            }
        }
    }
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    {
        let mut spare: Vec<Q> = Vec::new();
        let k = gen::len(&mut cx.rng);
        let m = gen::text_n(&mut cx.rng, k.min(300));
        let mut x = Q { q: gen::q::mk_sq(cx, &ar, &m), m };
        same(&x.q, &x.m, "new");
        let n = cx.rng.range(8, 36);
        for _ in 0..n {
            step(cx, &ar, &mut x, &mut spare);
            same(&x.q, &x.m, "after operation");
            for s in &spare {
                same(&s.q, &s.m, "other queue");
            }
            if x.m.len() > 2500 {
                let t = x.q.split_off(0);
                same(&x.q, "", "emptied");
                x = Q { q: t, m: x.m };
                let mut e = 100;
                while !x.m.is_char_boundary(e) {
                    e += 1;
                }
                drop(x.q.drain(e..));
                x.m.truncate(e);
            }
        }
        check!(x.q == x.m.as_str(), "content at the end");
        check_eq!(x.q.to_string(), x.m, "display at the end");
    }
    ar.audit_exts();
}

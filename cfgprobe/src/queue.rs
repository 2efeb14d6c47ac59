//! Queue programs; never more than a handful of chunks, so that every configuration can hold them.
use crate::{hash, Cx};
use bytedata::*;

fn chunk(cx: &mut Cx) -> ByteData<'static> {
    let d = cx.bytes(24);
    match cx.r.below(3) {
        0 => ByteData::from_static(d),
        1 if d.len() <= 14 => ByteData::from_chunk_slice(d),
        _ => ByteData::from_borrowed(d),
    }
}
fn tchunk(cx: &mut Cx) -> StringData<'static> {
    let d = cx.text(24);
    if cx.r.chance(1, 2) { StringData::from_static(d) } else { StringData::from_borrowed(d) }
}
const MAX: usize = 9;

fn dump(cx: &mut Cx, what: &str, q: &ByteQueue<'_>) {
    let v: Vec<Vec<u8>> = q.chunks().map(|c| c.as_slice().to_vec()).collect();
    cx.put(what, (q.len(), q.is_empty(), q.is_full(), q.chunk_len(), v));
}

fn flat(q: &ByteQueue<'_>) -> Vec<u8> {
    q.bytes().collect()
}

fn bytes(cx: &mut Cx) {
    let mut q = ByteQueue::new();
    if cx.r.chance(1, 2) {
        q = ByteQueue::with_item(chunk(cx));
    }
    for _ in 0..cx.r.range(4, 18) {
        let n = q.len();
        let room = q.chunk_len() < MAX;
        match cx.r.below(26) {
            0..=3 if room => {
                let c = chunk(cx);
                q.push_back(c);
                cx.put("push_back", ());
            }
            4..=6 if room => {
                let c = chunk(cx);
                q.push_front(c);
                cx.put("push_front", ());
            }
            7 => {
                let c = q.pop_front();
                cx.put("pop_front", c.map(|c| c.as_slice().to_vec()));
            }
            8 => {
                let c = q.pop_back();
                cx.put("pop_back", c.map(|c| c.as_slice().to_vec()));
            }
            9 => {
                let p = cx.pos(n);
                cx.run("consume", || q.consume(p));
            }
            10 => {
                let (s, e) = cx.span(n);
                cx.call("slice", || flat(&q.slice(s..e)));
                cx.call("slice=", || flat(&q.slice(s..=e)));
            }
            11 => {
                let p = cx.pos(n);
                if let Some(o) = cx.run("split_off", || q.split_off(p)) {
                    dump(cx, "off", &o);
                    if q.chunk_len() + o.chunk_len() < MAX {
                        q.append(o);
                    }
                }
            }
            12 => {
                let (s, e) = cx.span(n);
                let k = cx.r.below(10);
                cx.call("drain", || {
                    let mut d = q.drain(s..e);
                    let v: Vec<_> = d.by_ref().take(k).collect();
                    (v, d.len())
                });
            }
            13 => {
                let k = cx.r.u64() as u8;
                let o = q.take_while(|c| c > k);
                dump(cx, "take_while", &o);
            }
            14 if room => {
                let (s, e) = cx.span(n);
                let c = chunk(cx);
                cx.run("replace_range", || q.replace_range(s..e, c));
            }
            15 if room => {
                let mut o = ByteQueue::new();
                for _ in 0..cx.r.below(4) {
                    o.push_back(chunk(cx));
                }
                if cx.r.chance(1, 2) {
                    q.append(o);
                } else {
                    q.extend(o);
                }
                cx.put("append", ());
            }
            16 => {
                let nd = cx.bytes(4);
                let p = cx.pos(n).min(n + 3);
                cx.call("search", || (q.starts_with(nd), q.ends_with(nd), q.exists_at(p, nd), q.find_slice(nd), q.find_slice_after(nd, p)));
                let b = cx.r.u64() as u8;
                cx.put("find_byte", q.find_byte(|c| c == b));
            }
            17 => {
                let nd = cx.bytes(2);
                let k = cx.r.below(4);
                let v: Vec<_> = q.split_on(nd).take(99).map(|x| flat(&x)).collect();
                cx.put("split_on", v);
                let v: Vec<_> = q.splitn_on(nd, k).take(99).map(|x| flat(&x)).collect();
                cx.put("splitn_on", v);
            }
            18 => {
                let o: ByteQueue<'_> = (0..3).map(|_| chunk(cx)).collect();
                cx.put("cmp", (q == o, q.partial_cmp(&o), q.cmp(&o), q == *flat(&q).as_slice(), hash(&q) == hash(&q.clone())));
                cx.put("hash", hash(&q));
            }
            19 => cx.put("hex", (format!("{q:x} {q:X} {q:?}"), format!("{}", q.len()))),
            20 => {
                let k = cx.r.below(8);
                let mut it = q.bytes();
                let a = it.nth(k);
                cx.put("bytes", (a, it.size_hint(), it.clone_rest()));
            }
            21 => {
                let k = cx.r.below(8);
                let mut it = q.clone().into_bytes();
                let a = it.nth(k);
                cx.put("into_bytes", (a, it.size_hint(), it.collect::<Vec<u8>>()));
            }
            22 => {
                let k = cx.r.below(4);
                let mut it = q.chunks();
                let a = it.nth(k).map(|c| c.as_slice().to_vec());
                cx.put("chunks", (a, it.len(), it.size_hint(), it.last().map(|c| c.as_slice().to_vec())));
                let l = q.chunks().skip(k + 1).count();
                cx.put("chunks skip", l);
            }
            23 => {
                let mut it = q.clone().into_iter();
                let a = it.next_back().map(|c| c.as_slice().to_vec());
                let b = it.next().map(|c| c.as_slice().to_vec());
                cx.put("into_iter", (a, b, it.len(), it.map(|c| c.as_slice().to_vec()).collect::<Vec<_>>()));
            }
            24 => cx.put("ends", (q.front().map(|c| c.as_slice().to_vec()), q.back().map(|c| c.as_slice().to_vec()))),
            _ => {
                let t = StringDataQueue(&q);
                cx.put("text", t.check());
            }
        }
        dump(cx, "queue", &q);
    }
}
trait Rest {
    fn clone_rest(self) -> Vec<u8>;
}
impl<I: Iterator<Item = u8>> Rest for I {
    fn clone_rest(self) -> Vec<u8> {
        self.collect()
    }
}
struct StringDataQueue<'a, 'b>(&'b ByteQueue<'a>);
impl StringDataQueue<'_, '_> {
    fn check(&self) -> bool {
        std::str::from_utf8(&flat(self.0)).is_ok()
    }
}

fn sdump(cx: &mut Cx, what: &str, q: &StringQueue<'_>) {
    let v: Vec<String> = q.chunks().map(|c| c.as_str().to_string()).collect();
    cx.put(what, (q.len(), q.is_empty(), q.is_full(), q.chunk_len(), v));
}
fn text(q: &StringQueue<'_>) -> String {
    q.chars().collect()
}

fn strings(cx: &mut Cx) {
    let mut q = StringQueue::new();
    if cx.r.chance(1, 2) {
        q = StringQueue::with_item(tchunk(cx));
    }
    for _ in 0..cx.r.range(4, 16) {
        let n = q.len();
        let room = q.chunk_len() < MAX;
        match cx.r.below(24) {
            0..=3 if room => {
                let c = tchunk(cx);
                q.push_back(c);
                cx.put("push_back", ());
            }
            4 | 5 if room => {
                let c = tchunk(cx);
                q.push_front(c);
                cx.put("push_front", ());
            }
            6 => {
                let c = q.pop_front();
                cx.put("pop_front", c.map(|c| c.as_str().to_string()));
            }
            7 => {
                let c = q.pop_back();
                cx.put("pop_back", c.map(|c| c.as_str().to_string()));
            }
            8 => {
                let (s, e) = cx.span(n);
                cx.call("slice", || text(&q.slice(s..e)));
            }
            9 => {
                let p = cx.pos(n);
                if let Some(o) = cx.run("split_off", || q.split_off(p)) {
                    sdump(cx, "off", &o);
                    if q.chunk_len() + o.chunk_len() < MAX {
                        q.extend(o);
                    }
                }
            }
            10 => {
                let (s, e) = cx.span(n);
                let k = cx.r.below(10);
                cx.call("drain", || {
                    let mut d = q.drain(s..e);
                    let v: String = d.by_ref().take(k).collect();
                    (v, d.size_hint().0 <= e.wrapping_sub(s))
                });
            }
            11 => {
                let o = q.take_while(|c| c != ' ' && c != '€');
                sdump(cx, "take_while", &o);
            }
            12 => {
                let o = q.take_line();
                sdump(cx, "take_line", &o);
            }
            13 if room => {
                let (s, e) = cx.span(n);
                let c = tchunk(cx);
                cx.run("replace_range", || q.replace_range(s..e, c));
            }
            14 => {
                let nd = cx.text(3);
                cx.put("search", (q.starts_with(nd), q.ends_with(nd), q.find_char(|c| c == 'é')));
                let k = cx.r.below(4);
                let v: Vec<_> = q.split_on(nd).take(99).map(|x| text(&x)).collect();
                cx.put("split_on", v);
                let v: Vec<_> = q.splitn_on(nd, k).take(99).map(|x| text(&x)).collect();
                cx.put("splitn_on", v);
            }
            15 => {
                let o: StringQueue<'_> = (0..3).map(|_| tchunk(cx)).collect();
                cx.put("cmp", (q == o, q.partial_cmp(&o), q.cmp(&o), q == *text(&q).as_str()));
            }
            16 => cx.put("format", format!("{q} {q:?} {q:>40} {q:.3}")),
            17 => cx.put("indices", q.chars_indecies().collect::<Vec<_>>()),
            18 => {
                let k = cx.r.below(6);
                let mut it = q.clone().into_chars();
                let a = it.nth(k);
                let h = it.size_hint();
                cx.put("into_chars", (a, h.0 <= h.1.unwrap_or(usize::MAX), it.collect::<String>()));
            }
            19 => {
                let k = cx.r.below(4);
                let mut it = q.chunks();
                let a = it.nth(k).map(|c| c.as_str().to_string());
                cx.put("chunks", (a, it.len(), it.last().map(|c| c.as_str().to_string())));
            }
            20 => {
                let mut it = q.clone().into_iter();
                let a = it.next_back().map(|c| c.as_str().to_string());
                cx.put("into_iter", (a, it.len(), it.map(|c| c.as_str().to_string()).collect::<Vec<_>>()));
            }
            21 => cx.put("ends", (q.front().map(|c| c.as_str().to_string()), q.back().map(|c| c.as_str().to_string()))),
            _ => cx.put("bytes", (flat(q.as_bytequeue()), q.bytes().count())),
        }
        sdump(cx, "queue", &q);
    }
}

pub fn run(cx: &mut Cx) {
    if cx.r.chance(1, 2) {
        bytes(cx)
    } else {
        strings(cx)
    }
}

#[cfg(feature = "alloc")]
pub fn heap(cx: &mut Cx) {
    use std::fmt::Write;
    let mut q = ByteQueue::new();
    for _ in 0..cx.r.range(4, 40) {
        let d = cx.bytes(30);
        let c = match cx.r.below(5) {
            0 => ByteData::from_owned(d.to_vec()),
            1 => ByteData::from_shared(d.into()),
            2 => ByteData::from_borrowed(d).into_shared(),
            3 => ByteData::from_external(d.to_vec()),
            _ => ByteData::from_static(d),
        };
        match cx.r.below(12) {
            0..=4 => q.push_back(c),
            5..=7 => q.push_front(c),
            8 => q.extend([d.to_vec(), d.to_vec()]),
            9 => {
                let o = q.clone();
                q.append(o.slice(..o.len().min(50)));
            }
            10 => {
                let n = q.len();
                let (s, e) = cx.span(n);
                cx.run("replace", || q.replace_range(s..e, c));
            }
            _ => {
                let n = q.len();
                let (s, e) = cx.span(n);
                cx.run("drain", || drop(q.drain(s..e)));
            }
        }
        dump(cx, "queue", &q);
    }
    let t = cx.text(20);
    let _ = write!(q, "{t}-{}", q.len());
    dump(cx, "written", &q);
    let o: ByteData<'_> = q.clone().into();
    cx.put("data", o.as_slice());
    let o: SharedBytes = q.clone().into();
    cx.put("shared", o.as_slice());
    let o: Vec<u8> = q.into();
    cx.put("vec", o);
    let mut q = StringQueue::new();
    for _ in 0..cx.r.below(6) {
        let t = cx.text(20);
        let _ = write!(q, "{t}|");
        q.extend([t.to_string()]);
    }
    sdump(cx, "squeue", &q);
    let s: String = q.clone().into();
    let d: StringData<'_> = q.into();
    cx.put("string", (s, d.as_str()));
}

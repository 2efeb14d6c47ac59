//! Interning: canonical instances, exact lookups, from one thread and from several.
use crate::core::Ctx;
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteData, SharedBytes, StringData};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Arc;

/// The set shared by an interner and its copies.
#[derive(Default)]
struct Set {
    /// content -> address of the stored instance
    m: HashMap<Vec<u8>, usize>,
}

fn addr(d: &[u8]) -> usize {
    d.as_ptr() as usize
}

fn content(cx: &mut Ctx, pool: &mut Vec<Vec<u8>>) -> Vec<u8> {
    if !pool.is_empty() && cx.rng.chance(3, 5) {
        let mut c = cx.rng.pick(pool).clone();
        // near misses
        match cx.rng.below(8) {
            0 if !c.is_empty() => {
                c.pop();
            }
            1 => c.push(0),
            2 if !c.is_empty() => {
                let i = cx.rng.below(c.len());
                c[i] ^= 1;
            }
            _ => {}
        }
        return c;
    }
    let c = match cx.rng.below(4) {
        0 => gen::text(&mut cx.rng).into_bytes(),
        1 => gen::bytes(&mut cx.rng),
        _ => {
            let n = *cx.rng.pick(&[0, 1, 13, 14, 15, 16, 31, 32, 33, 34, 100, 127, 128, 129, 130]);
            gen::bytes_n(&mut cx.rng, n)
        }
    };
    pool.push(c.clone());
    c
}

fn history(cx: &mut Ctx, ar: &Arena) {
    let mut sets: Vec<Set> = Vec::new();
    let mut ints: Vec<(StaticInterning, usize, usize)> = Vec::new();
    let mut held: Vec<(ByteData<'static>, Vec<u8>)> = Vec::new();
    let mut pool: Vec<Vec<u8>> = Vec::new();
    let steps = if !cfg!(miri) && cx.rng.chance(1, 300) { cx.rng.range(1000, 5000) } else { cx.rng.range(3, 40) };
    for _ in 0..steps {
        if ints.is_empty() || ints.len() < 4 && cx.rng.chance(1, 12) {
            let max = *cx.rng.pick(&[0usize, 14, 15, 32, 128, usize::MAX]);
            cx.ev("new interner", max as u64);
            cx.note(|| format!("new interner, max {max}"));
            let (i, max) = match cx.rng.below(3) {
                0 => (StaticInterning::new(max), max),
                1 => (StaticInterning::new_const(max), max),
                _ => (StaticInterning::default(), 128),
            };
            sets.push(Set::default());
            ints.push((i, sets.len() - 1, max));
            continue;
        }
        let k = cx.rng.below(ints.len());
        let op = cx.rng.below(16);
        let c = content(cx, &mut pool);
        let n = c.len();
        let (set, max) = (ints[k].1, ints[k].2);
        cx.ev("op", (op * 4096 + n) as u64);
        cx.note(|| format!("op {op} on interner {k} (set {set}, max {max}) with {n} byte(s)"));
        // a buffer of our own that is overwritten as soon as the call is over
        let mut buf = c.clone();
        let known = sets[set].m.get(&c).copied();
        let text = std::str::from_utf8(&c).is_ok();
        match op {
            0 => {
                let i = ints[k].0.clone();
                ints.push((i, set, max));
            }
            1 if cx.rng.chance(1, 3) => {
                ints[k].0.clear();
                sets[set].m.clear();
            }
            2 if ints.len() > 1 => {
                ints.swap_remove(k);
            }
            3 => {
                let s = format!("{:?}", ints[k].0);
                check!(s.contains("StaticInterning"), "debug form of an interner");
            }
            4..=6 => {
                // intern, within the rules
                let src = source(cx, ar, &buf);
                let from = addr(src.as_slice());
                let res = if text && cx.rng.chance(1, 2) {
                    let Ok(s) = StringData::try_from_bytedata(src) else { unreachable!() };
                    ints[k].0.intern_str(s).map(StringData::into_bytedata).map_err(StringData::into_bytedata)
                } else {
                    ints[k].0.intern(src)
                };
                match res {
                    Ok(d) => {
                        check!(n <= max || n <= 14, "a value of {n} bytes interned although only {max} are allowed");
                        check_eq!(d.as_slice(), &c[..], "interned value");
                        settle(&mut sets[set], &c, known, &d);
                        held.push((d, c));
                    }
                    Err(d) => {
                        check!(n > max, "a value of {n} bytes refused although {max} are allowed");
                        check_eq!(d.as_slice(), &c[..], "refused value");
                        check!(n <= 14 || addr(d.as_slice()) == from, "a refused value is not the one that was given");
                    }
                }
            }
            7..=9 => {
                // a borrowed local buffer: the result must not refer to it
                let d: ByteData<'static> = {
                    let src = ByteData::from_borrowed(&buf);
                    if text && cx.rng.chance(1, 2) {
                        let Ok(s) = StringData::try_from_bytedata(src) else { unreachable!() };
                        ints[k].0.intern_always_str(s).into_bytedata()
                    } else {
                        ints[k].0.intern_always(src)
                    }
                };
                check_eq!(d.as_slice(), &c[..], "interned value");
                settle(&mut sets[set], &c, known, &d);
                held.push((d, c));
            }
            10 | 11 => {
                let src = source(cx, ar, &buf);
                let d = ints[k].0.intern_always(src);
                check_eq!(d.as_slice(), &c[..], "interned value");
                settle(&mut sets[set], &c, known, &d);
                held.push((d, c));
            }
            _ => {
                let src = ByteData::from_borrowed(&buf);
                let res = if text && cx.rng.chance(1, 2) {
                    let Ok(s) = StringData::try_from_bytedata(src) else { unreachable!() };
                    match ints[k].0.get_str(s) {
                        Ok(s) => Ok(s.into_bytedata()),
                        Err(s) => Err(s.into_bytedata().as_slice().to_vec()),
                    }
                } else {
                    ints[k].0.get(src).map_err(|d| d.as_slice().to_vec())
                };
                match res {
                    Ok(d) => {
                        check_eq!(d.as_slice(), &c[..], "looked up value");
                        // short values may have been interned without being stored
                        check!(known.is_some() || n <= 14, "a lookup finds {n} byte(s) that were never interned");
                        if let (Some(a), true) = (known, n > 14) {
                            check!(addr(d.as_slice()) == a, "a lookup yields another instance than interning did");
                        }
                        cx.count("found");
                        held.push((d, c));
                    }
                    Err(v) => {
                        check_eq!(v, c, "value handed back by a lookup");
                        check!(known.is_none() || n <= 14, "a lookup does not find {n} byte(s) that were interned");
                        cx.count("not found");
                    }
                }
            }
        }
        buf.fill(0xAB);
        drop(buf);
        if held.len() > 24 {
            let i = cx.rng.below(held.len());
            held.swap_remove(i);
        }
        if steps > 100 && cx.rng.chance(15, 16) {
            continue;
        }
        for (d, c) in &held {
            check_eq!(d.as_slice(), &c[..], "held interned value");
        }
    }
    // interned values outlive the interner
    ints.clear();
    for (d, c) in &held {
        check_eq!(d.as_slice(), &c[..], "interned value after its interner is gone");
    }
}

fn settle(set: &mut Set, c: &[u8], known: Option<usize>, d: &ByteData<'static>) {
    if c.len() <= 14 {
        set.m.insert(c.to_vec(), 0);
        return;
    }
    match known {
        Some(a) => {
            check!(addr(d.as_slice()) == a, "interning equal content of {} byte(s) again yields another instance", c.len());
        }
        None => {
            set.m.insert(c.to_vec(), addr(d.as_slice()));
        }
    }
}

fn source<'a>(cx: &mut Ctx, ar: &Arena, c: &'a [u8]) -> ByteData<'a> {
    if cx.rng.chance(1, 3) {
        ByteData::from_borrowed(c)
    } else {
        gen::bd(cx, ar, c)
    }
}

struct Shared {
    root: StaticInterning,
    contents: Vec<Vec<u8>>,
    /// set once an interning of the content has returned
    done: Vec<AtomicBool>,
    /// set before an interning of the content starts
    begun: Vec<AtomicBool>,
    go: AtomicUsize,
}

fn threads(cx: &mut Ctx) {
    let small = cfg!(miri);
    let nt = if small { cx.rng.range(2, 3) } else { cx.rng.range(2, 6) };
    let nc = cx.rng.range(1, if small { 2 } else { 6 });
    let mut contents: Vec<Vec<u8>> = Vec::new();
    for i in 0..nc {
        let n = *cx.rng.pick(&[15usize, 16, 20, 40, 200]);
        let mut c: Vec<u8> = vec![b'a' + i as u8; n];
        c[n - 1] = cx.rng.below(128) as u8;
        contents.push(c);
    }
    let pre = cx.rng.chance(1, 3);
    let root = if pre { StaticInterning::new(4096) } else { StaticInterning::new_const(4096) };
    let copies = cx.rng.below(3);
    // in some rounds the set is emptied at any time: what was handed out stays, but instances may differ
    let wiping = cx.rng.chance(1, 5);
    cx.ev(if wiping { "threads, emptying" } else { "threads" }, (nt * 100 + nc * 10 + usize::from(pre)) as u64);
    let sh = Arc::new(Shared { root, done: contents.iter().map(|_| AtomicBool::new(false)).collect(), begun: contents.iter().map(|_| AtomicBool::new(false)).collect(), contents, go: AtomicUsize::new(0) });
    let seed = cx.rng.u64();
    let mut hs = Vec::new();
    for t in 0..nt {
        let sh = sh.clone();
        let mut rng = crate::core::Rng::new(seed ^ (t as u64 * 0x9E37_79B9));
        hs.push(std::thread::spawn(move || {
            let mut seen: Vec<(usize, ByteData<'static>)> = Vec::new();
            let mut sig = 0u64;
            sh.go.fetch_add(1, SeqCst);
            if !cfg!(miri) {
                let mut spins = 0;
                while sh.go.load(SeqCst) < nt && spins < 20_000 {
                    spins += 1;
                    std::hint::spin_loop();
                }
            }
            let mine = if copies > 0 && (t + 1) % (copies + 1) == 0 { Some(sh.root.clone()) } else { None };
            let it = mine.as_ref().unwrap_or(&sh.root);
            // what looks at the set before this thread has done anything else with it
            match rng.below(8) {
                0 if wiping => it.clear(),
                1 => {
                    std::hint::black_box(format!("{it:?}"));
                }
                2 => drop(it.clone()),
                _ => {}
            }
            for _ in 0..if small { 3 } else { rng.range(1, 16) } {
                let i = rng.below(sh.contents.len());
                let c = &sh.contents[i];
                match rng.below(9) {
                    0..=3 => {
                        let was = sh.done[i].load(SeqCst);
                        sh.begun[i].store(true, SeqCst);
                        let d = match rng.below(4) {
                            0 => it.intern_always(ByteData::from_borrowed(c)),
                            1 => it.intern_always(SharedBytes::from_slice(c).into()),
                            2 => match it.intern(ByteData::from(c.clone())) {
                                Ok(d) => d,
                                Err(_) => crate::core::violation("interning was refused".to_string()),
                            },
                            _ => {
                                let Ok(s) = StringData::try_from_bytedata(ByteData::from_borrowed(c)) else { unreachable!() };
                                it.intern_always_str(s).into_bytedata()
                            }
                        };
                        sh.done[i].store(true, SeqCst);
                        check_eq!(d.as_slice(), &c[..], "interned value");
                        sig = (sig << 1 | u64::from(was)).wrapping_mul(0x100_0000_01b3) ^ i as u64;
                        seen.push((i, d));
                    }
                    4 | 5 => {
                        let must = sh.done[i].load(SeqCst);
                        let r = it.get(ByteData::from_borrowed(c));
                        let may = sh.begun[i].load(SeqCst);
                        sig = (sig << 1 | u64::from(r.is_ok())).wrapping_mul(0x100_0000_01b3) ^ (i as u64) << 8;
                        match r {
                            Ok(d) => {
                                check!(may, "a lookup finds what nobody has interned");
                                check_eq!(d.as_slice(), &c[..], "looked up value");
                                seen.push((i, d));
                            }
                            Err(d) => {
                                check!(wiping || !must, "a lookup does not find what was interned before it started");
                                check_eq!(d.as_slice(), &c[..], "value handed back");
                            }
                        }
                    }
                    6 => {
                        if let Some((_, d)) = seen.pop() {
                            drop(d);
                        }
                    }
                    7 if wiping && rng.chance(1, 2) => it.clear(),
                    7 if rng.chance(1, 3) => {
                        std::hint::black_box(format!("{it:?}"));
                    }
                    _ => std::thread::yield_now(),
                }
            }
            drop(mine);
            (seen, sig)
        }));
    }
    let mut first: Vec<Option<usize>> = vec![None; sh.contents.len()];
    let mut all = Vec::new();
    let mut fail = None;
    for h in hs {
        match h.join() {
            Ok((seen, sig)) => {
                cx.mix(sig);
                all.extend(seen);
            }
            Err(e) => fail = Some(e),
        }
    }
    if let Some(e) = fail {
        std::panic::resume_unwind(e);
    }
    for (i, d) in &all {
        check_eq!(d.as_slice(), &sh.contents[*i][..], "interned value");
        let a = addr(d.as_slice());
        let f = *first[*i].get_or_insert(a);
        check!(wiping || f == a, "two threads hold different instances of the same interned content");
        cx.count("instance");
    }
    if wiping {
        for c in &sh.contents {
            let d = sh.root.intern_always(ByteData::from_borrowed(c));
            let e = sh.root.intern_always(ByteData::from(c.clone()));
            check!(addr(d.as_slice()) == addr(e.as_slice()) && d.as_slice() == &c[..], "two instances of one content after the set was emptied");
            all.push((0, e));
        }
    }
    // and the set itself agrees
    for (i, c) in sh.contents.iter().enumerate() {
        let done = sh.done[i].load(SeqCst);
        match sh.root.get(ByteData::from_borrowed(c)) {
            Ok(d) => {
                check!(wiping || done, "a lookup finds what nobody has interned");
                check!(wiping || first[i].map_or(true, |f| f == addr(d.as_slice())), "the stored instance is not the one handed out");
            }
            Err(_) => {
                check!(!done, "what a thread has interned through a copy is not in the shared set");
            }
        }
    }
    drop(sh);
    for (_, d) in &all {
        check!(!d.is_empty(), "value after the interner is gone");
        let s = d.as_slice();
        check!(s[0] >= b'a' && s[..s.len() - 1].iter().all(|b| *b == s[0]), "value after the interner is gone");
    }
}

pub fn run_threads(cx: &mut Ctx) {
    threads(cx);
}
pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    history(cx, &ar);
    ar.audit_exts();
}

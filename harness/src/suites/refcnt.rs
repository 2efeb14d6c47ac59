//! A reference count that cannot be exhausted: more than 2^32 handles are made and never dropped.
use crate::core::{may_panic, Ctx};
use crate::{check, check_eq};
use bytedata::{ByteData, SharedBytes};

pub fn run(cx: &mut Ctx) {
    cx.leaks_ok = true;
    let n = cx.rng.range(20, 200);
    let content = crate::gen::bytes_n(&mut cx.rng, n);
    let route = cx.rng.below(4);
    cx.ev("refcnt", (route * 1000 + n) as u64);
    cx.note(|| format!("2^32 - 1 handles of route {route} on {n} byte(s)"));
    let sb = SharedBytes::from_slice(&content);
    let d = ByteData::from_shared(sb.clone());
    let f: bytes::Bytes = d.clone().into();
    let keep = std::mem::ManuallyDrop::new(sb.clone());
    // a 32 bit count that wraps would now be at three, and three handles are dropped below
    let total: u64 = (1 << 32) - 1;
    let mut made = 0u64;
    let _ = may_panic(|| {
        while made < total {
            match route {
                0 => std::mem::forget(sb.clone()),
                1 => std::mem::forget(d.clone()),
                2 => std::mem::forget(sb.sliced(1, 18)),
                _ => std::mem::forget(f.clone()),
            }
            made += 1;
        }
    });
    cx.count_n("handles made", made);
    check_eq!(sb.as_slice(), &content[..], as_ref, "LIFETIME content with {made} more handles");
    drop(f);
    drop(d);
    drop(sb);
    check_eq!(keep.as_slice(), &content[..], as_ref, "LIFETIME content after dropping three of {made} handles");
    let taken = keep.is_unique();
    check!(!taken, "LIFETIME one of {made} handles is taken for the only one");
}

/// As many live handles on one storage as a narrow count could not hold, dropped in some order.
pub fn refs(cx: &mut Ctx) {
    let ar = crate::gen::Arena::new();
    {
        let len = cx.rng.range(20, 60);
        let c = crate::gen::bytes_n(&mut cx.rng, len);
        let n = if cfg!(miri) { 40 } else { *cx.rng.pick(&[126, 127, 128, 254, 255, 256, 257, 300, 1023, 1025, 4097, 32_767, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000]) };
        let d = crate::gen::bd(cx, &ar, &c);
        let how = cx.rng.below(5);
        cx.ev("refs", (n * 8 + how) as u64);
        cx.note(|| format!("{n} handles, made in way {how}, of {len} bytes"));
        let mut hs: Vec<(ByteData<'static>, usize)> = vec![(d, 0)];
        let mut fs: Vec<bytes::Bytes> = Vec::new();
        for _ in 1..n {
            let k = cx.rng.below(hs.len());
            match if how == 4 { cx.rng.below(4) } else { how } {
                0 => {
                    let x = hs[0].0.clone();
                    let at = hs[0].1;
                    hs.push((x, at));
                }
                1 => {
                    let at = hs[k].1;
                    let x = hs[k].0.clone();
                    hs.push((x, at));
                }
                2 => {
                    let (x, at) = (&hs[k].0, hs[k].1);
                    let y = if at < 4 && x.len() > 18 { (x.sliced(1..), at + 1) } else { (x.clone(), at) };
                    hs.push(y);
                }
                _ => {
                    let x = if fs.is_empty() || cx.rng.chance(1, 3) { hs[0].0.clone().into() } else { fs[fs.len() - 1].clone() };
                    fs.push(x);
                }
            }
        }
        let dropped = |ar: &crate::gen::Arena| { let x = ar.ext_counts(); x.1 + x.2 };
        let order = cx.rng.below(4);
        if cx.rng.chance(1, 2) {
            fs.clear();
        }
        while hs.len() > 1 {
            let m = hs.len() / 2;
            match order {
                0 => hs.truncate(m),
                1 => drop(hs.drain(..m)),
                2 => {
                    let mut i = 0;
                    hs.retain(|_| { i += 1; i % 2 == 0 });
                }
                _ => {
                    hs.pop();
                    hs.swap_remove(0);
                    if hs.len() > 300 { hs.truncate(m) }
                }
            }
            if let Some((h, at)) = hs.last() {
                check_eq!(h.as_slice(), &c[*at..], as_ref, "LIFETIME content of one of {} remaining handles", hs.len());
                check!(dropped(&ar) == 0, "LIFETIME the external object is destroyed while {} handles remain", hs.len());
            }
        }
        for f in &fs {
            check_eq!(&f[..], &c[..], as_ref, "LIFETIME content of a foreign handle");
        }
        if let Some((h, at)) = hs.pop() {
            let v: Vec<u8> = h.into();
            check_eq!(&v[..], &c[at..], as_ref, "content taken out of the last handle");
        }
        while let Some(f) = fs.pop() {
            check_eq!(&f[..], &c[..], as_ref, "LIFETIME content of a foreign handle");
        }
    }
    ar.audit_exts();
}

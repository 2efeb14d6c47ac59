//! Monitoring global allocator: every block carries a header and a tail red zone; frees are checked
//! for layout, double free and red-zone damage, then poisoned and quarantined (checked again on
//! eviction). Blocks allocated while tracking is on are counted, so a case can be audited for leaks.
use std::alloc::{GlobalAlloc, Layout, System};
use crate::core::Count;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Mon;

const LIVE: u64 = 0x11AE_B10C_5AFE_600D;
const DEAD: u64 = 0xDEAD_B10C_0FEE_0FEE;
const TAIL: usize = 16;
const TAILB: u8 = 0xFD;
const FRESHB: u8 = 0xA5;
const DEADB: u8 = 0xDD;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    /// 0 = untracked, otherwise serial number
    serial: u64,
}
const H: usize = 32;

pub static TRACK: AtomicBool = AtomicBool::new(false);
pub static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: Count = Count::new(0);
pub static FREES: Count = Count::new(0);
pub static ALLOC_BYTES: Count = Count::new(0);
pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
/// fault injection: while set, no block can be resized (new blocks can still be had)
pub static NO_REALLOC: AtomicBool = AtomicBool::new(false);
pub static REALLOCS_REFUSED: Count = Count::new(0);
pub static RUNAWAY: AtomicUsize = AtomicUsize::new(1 << 31);

pub const ACTIVE: bool = cfg!(not(any(miri, mon_plain_alloc)));

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

struct Lock(AtomicBool);
impl Lock {
    fn with<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.0.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f();
        self.0.store(false, Release);
        r
    }
}
static QLOCK: Lock = Lock(AtomicBool::new(false));
const QN: usize = 512;
const QMAX: usize = 4 << 20;
static mut Q: [(*mut u8, usize, usize); QN] = [(std::ptr::null_mut(), 0, 0); QN];
static mut QHEAD: usize = 0;
static mut QLEN: usize = 0;
static mut QBYTES: usize = 0;

pub fn die(msg: &str, a: usize, b: usize) -> ! {
    // no allocation here
    let mut buf = [0u8; 256];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for c in s {
            if n < 255 {
                buf[n] = *c;
                n += 1;
            }
        }
    };
    fn dec(mut v: usize, out: &mut [u8; 20]) -> &[u8] {
        let mut i = 20;
        loop {
            i -= 1;
            out[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        &out[i..]
    }
    let mut t = [0u8; 20];
    put(b"\nMONALLOC: ");
    put(msg.as_bytes());
    put(b" [");
    put(dec(a, &mut t));
    put(b",");
    put(dec(b, &mut t));
    put(b"]\n");
    unsafe {
        write(2, buf.as_ptr(), n);
        _exit(86)
    }
}

unsafe fn evict_one() {
    let (p, size, align) = Q[QHEAD];
    QHEAD = (QHEAD + 1) % QN;
    QLEN -= 1;
    QBYTES -= size;
    let h = &*(p.sub(H) as *const Hdr);
    if h.magic != DEAD || h.size != size {
        die("header of a freed block was overwritten", h.size, size);
    }
    for i in 0..size + TAIL {
        if *p.add(i) != DEADB {
            die("write into freed block (offset,size)", i, size);
        }
    }
    let off = if align > H { align } else { H };
    System.dealloc(p.sub(off), Layout::from_size_align_unchecked(size + off + TAIL, off));
}

/// Verify and release everything in quarantine.
pub fn flush() {
    if !ACTIVE {
        return;
    }
    QLOCK.with(|| unsafe {
        while QLEN > 0 {
            evict_one();
        }
    });
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE {
            return System.alloc(l);
        }
        let tracked = TRACK.load(Relaxed);
        let off = if l.align() > H { l.align() } else { H };
        let Some(total) = l.size().checked_add(off + TAIL) else { return std::ptr::null_mut() };
        let Ok(lay) = Layout::from_size_align(total, off) else { return std::ptr::null_mut() };
        let base = System.alloc(lay);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let serial = if tracked {
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            let lb = LIVE_BYTES.fetch_add(l.size(), Relaxed) + l.size();
            if lb > RUNAWAY.load(Relaxed) && l.size() < RUNAWAY.load(Relaxed) / 4 {
                die("runaway memory use of one case (bytes live, last)", lb, l.size());
            }
            ALLOC_BYTES.fetch_add(l.size() as u64, Relaxed);
            LARGEST.fetch_max(l.size(), Relaxed);
            ALLOCS.fetch_add(1, Relaxed) + 1
        } else {
            0
        };
        std::ptr::write(p.sub(H) as *mut Hdr, Hdr { magic: LIVE, size: l.size(), align: l.align(), serial });
        if l.size() <= 1 << 20 {
            std::ptr::write_bytes(p, FRESHB, l.size());
        }
        std::ptr::write_bytes(p.add(l.size()), TAILB, TAIL);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ACTIVE {
            return System.dealloc(p, l);
        }
        let h = &mut *(p.sub(H) as *mut Hdr);
        if h.magic == DEAD {
            die("double free (size,align)", l.size(), l.align());
        }
        if h.magic != LIVE {
            die("free of something that is not a live block, or header overwritten (size,align)", l.size(), l.align());
        }
        if h.size != l.size() {
            die("free with wrong size (allocated,freed)", h.size, l.size());
        }
        if h.align != l.align() {
            die("free with wrong alignment (allocated,freed)", h.align, l.align());
        }
        for i in 0..TAIL {
            if *p.add(h.size + i) != TAILB {
                die("write past the end of a block (size,offset)", h.size, i);
            }
        }
        let tracked = h.serial != 0;
        if tracked {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(h.size, Relaxed);
            FREES.fetch_add(1, Relaxed);
        }
        let (size, align) = (h.size, h.align);
        let off = if align > H { align } else { H };
        if tracked && size <= 1 << 16 {
            h.magic = DEAD;
            std::ptr::write_bytes(p, DEADB, size + TAIL);
            QLOCK.with(|| {
                while QLEN == QN || QBYTES + size > QMAX {
                    evict_one();
                }
                let i = (QHEAD + QLEN) % QN;
                Q[i] = (p, size, align);
                QLEN += 1;
                QBYTES += size;
            });
        } else {
            h.magic = DEAD;
            System.dealloc(p.sub(off), Layout::from_size_align_unchecked(size + off + TAIL, off));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ACTIVE {
            return System.realloc(p, l, n);
        }
        if NO_REALLOC.load(Relaxed) && TRACK.load(Relaxed) {
            REALLOCS_REFUSED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        // always move: stale pointers must not stay valid by accident
        let Ok(nl) = Layout::from_size_align(n, l.align()) else { return std::ptr::null_mut() };
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Runs `f` with allocation tracking switched off (harness bookkeeping).
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let old = TRACK.swap(false, Relaxed);
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.store(self.0, Relaxed);
        }
    }
    let _g = G(old);
    f()
}
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let old = TRACK.swap(true, Relaxed);
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.store(self.0, Relaxed);
        }
    }
    let _g = G(old);
    f()
}

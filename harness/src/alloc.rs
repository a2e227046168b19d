//! Observing global allocator: counts live/peak heap bytes (single-threaded phases only)
//! and, when asked, fills fresh and freed memory with a pattern so that a result that
//! depends on stale or uninitialised contents changes.  Blocks start at odd addresses.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::Relaxed};

pub struct Mon;
pub static COUNT: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static BIGGEST: AtomicU64 = AtomicU64::new(0);
pub static POISON: AtomicBool = AtomicBool::new(false);
pub static PATTERN: AtomicU8 = AtomicU8::new(0xA5);
pub static POISONED: AtomicU64 = AtomicU64::new(0);
const POISON_MAX: usize = 1 << 22;

#[inline]
fn grew(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(l, Relaxed);
    ALLOCS.fetch_add(1, Relaxed);
    BIGGEST.fetch_max(n as u64, Relaxed);
}
#[inline]
unsafe fn poison(p: *mut u8, n: usize) {
    if !p.is_null() {
        std::ptr::write_bytes(p, PATTERN.load(Relaxed), n.min(POISON_MAX));
        POISONED.fetch_add(1, Relaxed);
    }
}
/// Every block is placed at a varying, odd multiple of its alignment: no caller may count
/// on more than it asked for.  The byte before the block remembers the distance.
const SPAN: usize = 64;
static TURN: AtomicU64 = AtomicU64::new(0);
fn moved(l: &Layout) -> bool {
    l.align() <= 16
}
unsafe fn place(base: *mut u8, l: &Layout) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let steps = SPAN / l.align();
    let off = l.align() * (1 + TURN.fetch_add(1, Relaxed) as usize % steps);
    let p = base.add(off);
    *p.sub(1) = off as u8;
    p
}
unsafe fn get(l: Layout, zero: bool) -> *mut u8 {
    if !moved(&l) {
        return if zero { System.alloc_zeroed(l) } else { System.alloc(l) };
    }
    let Ok(w) = Layout::from_size_align(l.size().wrapping_add(SPAN), 16) else { return std::ptr::null_mut() };
    if w.size() < SPAN {
        return std::ptr::null_mut();
    }
    place(if zero { System.alloc_zeroed(w) } else { System.alloc(w) }, &l)
}
unsafe fn put(p: *mut u8, l: Layout) {
    if !moved(&l) {
        return System.dealloc(p, l);
    }
    let off = *p.sub(1) as usize;
    System.dealloc(p.sub(off), Layout::from_size_align_unchecked(l.size() + SPAN, 16))
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = get(l, false);
        if COUNT.load(Relaxed) {
            grew(l.size());
        }
        if POISON.load(Relaxed) {
            poison(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if COUNT.load(Relaxed) {
            grew(l.size());
        }
        get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNT.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        if POISON.load(Relaxed) {
            poison(p, l.size());
        }
        put(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // always move, so that stale pointers and spare capacity show
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

//! Counting allocator: per-thread totals, so that a check can measure one call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
// Blocks allocated while recording (address, size, owner), so that a check can look at what an
// object keeps on the heap.
const BLOCKS: usize = 64;
thread_local! {
    static OWNER: Cell<usize> = const { Cell::new(usize::MAX) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static TABLE: Cell<[(usize, usize, usize); BLOCKS]> = const { Cell::new([(0, 0, 0); BLOCKS]) };
}
fn born(p: *mut u8, n: usize) {
    let o = OWNER.try_with(|o| o.get()).unwrap_or(usize::MAX);
    if o == usize::MAX || p.is_null() || n > 1 << 16 {
        return;
    }
    let _ = TABLE.try_with(|t| {
        let mut v = t.get();
        let k = USED.with(|u| u.get());
        if k < BLOCKS {
            v[k] = (p as usize, n, o);
            t.set(v);
            USED.with(|u| u.set(k + 1));
        }
    });
}
fn gone(p: *mut u8) {
    let k = USED.try_with(|u| u.get()).unwrap_or(0);
    if k == 0 {
        return;
    }
    let _ = TABLE.try_with(|t| {
        let mut v = t.get();
        if let Some(i) = v[..k].iter().position(|b| b.0 == p as usize) {
            v[i] = v[k - 1];
            t.set(v);
            USED.with(|u| u.set(k - 1));
        }
    });
}
/// Runs f; what it allocates on this thread and does not free belongs to `owner`.
pub fn recorded<T>(owner: usize, f: impl FnOnce() -> T) -> T {
    OWNER.with(|o| o.set(owner));
    let r = f();
    OWNER.with(|o| o.set(usize::MAX));
    r
}
pub fn forget() {
    OWNER.with(|o| o.set(usize::MAX));
    USED.with(|u| u.set(0));
}
/// Appends the content of the live blocks of `owner`.
pub fn kept(owner: usize, out: &mut Vec<u8>) {
    for b in &TABLE.with(|t| t.get())[..USED.with(|u| u.get())] {
        if b.2 == owner {
            out.extend((0..b.1).map(|i| unsafe { std::ptr::read_volatile((b.0 as *const u8).add(i)) }));
            // blocks are looked at one by one
            out.extend([0u8; 8]);
        }
    }
}
thread_local! {
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n)));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn del(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc(l);
        born(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc_zeroed(l);
        born(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        del(l.size());
        gone(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        del(l.size());
        gone(p);
        let q = System.realloc(p, l, n);
        born(q, n);
        q
    }
}
/// (total bytes requested, peak live growth) while running f on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let t0 = TOTAL.with(|t| t.get());
    let l0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l0));
    let r = f();
    let t1 = TOTAL.with(|t| t.get());
    let p1 = PEAK.with(|p| p.get());
    (r, t1.wrapping_sub(t0), (p1 - l0).max(0) as usize)
}

//! An allocator that counts, per thread, the bytes in use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
// SAFETY: hands everything to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}
/// bytes this thread has allocated and not freed
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// calls of the allocator so far
pub fn calls() -> u64 {
    CALLS.with(|l| l.get())
}
/// runs `f`, returns the most bytes in use during it, above what was in use before
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = live();
    PEAK.with(|p| p.set(base));
    let t = f();
    (t, PEAK.with(|p| p.get()) - base)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread in seconds
pub fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: a valid place for the result; 3 is CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

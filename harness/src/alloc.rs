//! Counting allocator: per-thread current and peak live bytes, the sum of all requests, and the
//! largest single request; processor time of the thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIG: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BIG.try_with(|b| {
        if n as u64 > b.get() {
            b.set(n as u64)
        }
    });
}
fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// Processor time this thread has used, in microseconds; other load does not count.
pub fn cpu_us() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // 3 is CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000 + t.nsec as u64 / 1000
}

pub struct Cost {
    /// peak of live bytes above the start
    pub peak: u64,
    /// largest single request
    pub big: u64,
    /// sum of all requests
    pub total: u64,
    pub cpu_us: u64,
}

/// Runs `f`; returns its result and what it cost.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let start = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    BIG.with(|b| b.set(0));
    let total = TOTAL.with(|b| b.get());
    let cpu = cpu_us();
    let r = f();
    let cpu_us = cpu_us() - cpu;
    let peak = (PEAK.with(|p| p.get()) - start).max(0) as u64;
    let big = BIG.with(|b| b.get());
    let total = TOTAL.with(|b| b.get()) - total;
    (r, Cost { peak, big, total, cpu_us })
}

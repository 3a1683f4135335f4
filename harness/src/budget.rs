//! A counting allocator: gives every case a logical-work budget (number of
//! allocations and allocated bytes), so that runaway computations are seen on
//! logical steps rather than on the wall clock. A thread that exceeds its budget
//! is parked for ever (unwinding out of an allocator is not allowed) and its
//! case is reported through `RUNAWAY`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MAX_ALLOCS: Cell<u64> = const { Cell::new(u64::MAX) };
    static MAX_LIVE: Cell<i64> = const { Cell::new(i64::MAX) };
    static DISTURB: Cell<u64> = const { Cell::new(0) };
    static CASE: Cell<u64> = const { Cell::new(0) };
}

pub static RUNAWAY: [AtomicU64; 64] = [const { AtomicU64::new(u64::MAX) }; 64];
pub static N_RUNAWAY: AtomicU64 = AtomicU64::new(0);

pub struct Counting;

#[inline]
fn charge(n: usize) {
    let _ = ALLOCS.try_with(|a| {
        a.set(a.get() + 1);
        LIVE.with(|l| l.set(l.get() + n as i64));
        let d = DISTURB.with(|d| d.get());
        if d != 0 {
            let d = d.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
            DISTURB.with(|x| x.set(d));
            if (d >> 33) % 16 == 0 {
                std::thread::yield_now();
            }
        }
        if a.get() > MAX_ALLOCS.with(|m| m.get()) || LIVE.with(|l| l.get()) > MAX_LIVE.with(|m| m.get()) {
            park();
        }
    });
}

#[cold]
fn park() -> ! {
    let slot = N_RUNAWAY.fetch_add(1, Ordering::SeqCst) as usize;
    if slot < RUNAWAY.len() {
        RUNAWAY[slot].store(CASE.with(|c| c.get()), Ordering::SeqCst);
    }
    loop {
        std::thread::sleep(std::time::Duration::from_secs(3600));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        charge(n);
        System.realloc(p, l, n)
    }
}

/// Start charging this thread's work to `case`.
pub fn begin(case: u64, max_allocs: u64, max_live: i64) {
    CASE.with(|c| c.set(case));
    ALLOCS.with(|a| a.set(0));
    LIVE.with(|a| a.set(0));
    MAX_ALLOCS.with(|m| m.set(max_allocs));
    MAX_LIVE.with(|m| m.set(max_live));
}

/// Stop charging; returns the number of allocations used.
pub fn end() -> u64 {
    MAX_ALLOCS.with(|m| m.set(u64::MAX));
    MAX_LIVE.with(|m| m.set(i64::MAX));
    ALLOCS.with(|a| a.get())
}

/// Allocations charged to this thread since `begin`.
pub fn used() -> u64 {
    ALLOCS.with(|a| a.get())
}

/// From now on, give up the processor at random allocations of this thread (0: stop doing so).
pub fn disturb(seed: u64) {
    DISTURB.with(|d| d.set(if seed == 0 { 0 } else { seed.wrapping_mul(2) + 1 }));
}

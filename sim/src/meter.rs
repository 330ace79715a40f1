//! Memory as a simulated resource: while code under test runs, its allocations are counted
//! and refused beyond an allowance that grows with the bytes the streams have passed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

/// Bytes that work may use at any rate, and per byte of data met.
pub const BASE: i64 = 4 << 20;
pub const PER_BYTE: i64 = 1024;

static ON: AtomicBool = AtomicBool::new(false);
static FULL: AtomicBool = AtomicBool::new(false);
static IN: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(0);
static DATA: AtomicI64 = AtomicI64::new(0);

pub struct Meter;
#[global_allocator]
static METER: Meter = Meter;

impl Meter {
    /// May the code under test have `n` bytes more?
    fn grant(&self, n: i64) -> bool {
        let l = LIVE.load(Relaxed) + n;
        if l > LIMIT.load(Relaxed) {
            refused(n);
            return false;
        }
        LIVE.store(l, Relaxed);
        true
    }
}
#[cold]
fn refused(n: i64) {
    if FULL.swap(true, Relaxed) {
        return;
    }
    IN.store(false, Relaxed);
    crate::ctx::cnt(crate::ctx::C::fault_no_memory);
    crate::ctx::log(0x700);
    crate::ctx::abort_is(
        "memory-out-of-proportion",
        &format!(
            "{} bytes of memory were asked for (with {} in use) when {} bytes of data had been met; the process aborted",
            n,
            LIVE.load(Relaxed),
            DATA.load(Relaxed)
        ),
    );
    IN.store(true, Relaxed);
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN.load(Relaxed) && !self.grant(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if IN.load(Relaxed) && !self.grant(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if IN.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if IN.load(Relaxed) && !self.grant(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// From now on, calls made through `ctx::sut` are metered; `data` bytes were met already.
pub fn start(data: usize) {
    LIVE.store(0, Relaxed);
    DATA.store(data as i64, Relaxed);
    LIMIT.store(BASE + PER_BYTE * data as i64, Relaxed);
    FULL.store(false, Relaxed);
    ON.store(true, Relaxed);
}
/// A stream passed `n` more bytes.
pub fn met(n: usize) {
    DATA.fetch_add(n as i64, Relaxed);
    LIMIT.fetch_add(PER_BYTE * n as i64, Relaxed);
}
pub fn enter() {
    IN.store(ON.load(Relaxed), Relaxed);
}
pub fn leave() {
    IN.store(false, Relaxed);
}
/// Harness code called back by code under test.
pub struct Pause(bool);
pub fn pause() -> Pause {
    Pause(IN.swap(false, Relaxed))
}
impl Drop for Pause {
    fn drop(&mut self) {
        IN.store(self.0, Relaxed);
    }
}

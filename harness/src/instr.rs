//! Deterministic accounting of the work and memory the code under test uses:
//! a counting allocator and the SanitizerCoverage edge callback.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU32, Ordering};

pub const MAX_EDGES: usize = 1 << 16;
static GUARDS: AtomicU32 = AtomicU32::new(0);
pub static mut EDGE_HITS: [u8; MAX_EDGES] = [0; MAX_EDGES];

// Plain statics: the workers are single-threaded while they run cases.
static EDGES: AtomicU64 = AtomicU64::new(0);
static EDGE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let n = EDGES.load(Ordering::Relaxed) + 1;
    EDGES.store(n, Ordering::Relaxed);
    unsafe {
        let i = *g as usize;
        if i < MAX_EDGES {
            let p = (&raw mut EDGE_HITS as *mut u8).add(i);
            *p = (*p).saturating_add(1);
        }
    }
    if n > EDGE_LIMIT.load(Ordering::Relaxed) {
        EDGE_LIMIT.store(u64::MAX, Ordering::Relaxed);
        crate::engine::hard_stop("work-limit", n);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    unsafe {
        while s < e {
            *s = GUARDS.fetch_add(1, Ordering::Relaxed);
            s = s.add(1);
        }
    }
}
pub fn guards() -> u32 { GUARDS.load(Ordering::Relaxed) }

thread_local! {
    static LIVE:  Cell<i64> = const { Cell::new(0) };
    static PEAK:  Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
            let over = LIMIT.try_with(|m| { let o = v > m.get(); if o { m.set(i64::MAX); } o }).unwrap_or(false);
            if over { crate::engine::hard_stop("memory-limit", v as u64); }
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage { pub edges: u64, pub peak: u64 }

/// Runs `f` (code under test) under deterministic limits on executed edges and
/// on live heap bytes allocated since the start of the call.
pub fn metered<R>(edge_limit: u64, mem_limit: u64, f: impl FnOnce() -> R) -> (R, Usage) {
    struct Restore;
    impl Drop for Restore {
        fn drop(&mut self) {
            EDGE_LIMIT.store(u64::MAX, Ordering::Relaxed);
            LIMIT.with(|m| m.set(i64::MAX));
        }
    }
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    LIMIT.with(|m| m.set(live0.saturating_add(mem_limit.min(i64::MAX as u64 / 2) as i64)));
    EDGES.store(0, Ordering::Relaxed);
    EDGE_LIMIT.store(edge_limit, Ordering::Relaxed);
    let guard = Restore;
    let r = f();
    let edges = EDGES.load(Ordering::Relaxed);
    drop(guard);
    let peak = PEAK.with(|p| p.get()) - live0;
    (r, Usage { edges, peak: peak.max(0) as u64 })
}

/// Clears the edge map before an execution that is to be judged for novelty.
pub fn reset_edge_map() {
    unsafe {
        let p = &raw mut EDGE_HITS as *mut u8;
        std::ptr::write_bytes(p, 0, MAX_EDGES.min(guards() as usize + 1));
    }
}
/// Merges the bucketed edge hits into `seen`; returns the number of new bits.
pub fn merge_edge_map(seen: &mut [u8]) -> u32 {
    let mut new = 0;
    unsafe {
        let p = &raw const EDGE_HITS as *const u8;
        for i in 0..MAX_EDGES.min(guards() as usize + 1) {
            let h = *p.add(i);
            if h == 0 { continue; }
            let b: u8 = match h { 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 };
            if seen[i] & b == 0 { seen[i] |= b; new += 1; }
        }
    }
    new
}

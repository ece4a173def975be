//! Counting allocator: current and peak heap bytes.
#[cfg(feature = "interpose")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub struct Counting;
    pub static CUR: AtomicUsize = AtomicUsize::new(0);
    pub static PEAK: AtomicUsize = AtomicUsize::new(0);
    pub static CALLS: AtomicUsize = AtomicUsize::new(0);
    pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
    fn add(n: usize) {
        let c = CUR.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(c, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        TOTAL.fetch_add(n, Relaxed);
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if !p.is_null() {
                add(l.size());
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                add(l.size());
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l);
            CUR.fetch_sub(l.size(), Relaxed);
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                CUR.fetch_sub(l.size(), Relaxed);
                add(n);
            }
            q
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn current() -> usize {
        CUR.load(Relaxed)
    }
    pub fn calls() -> usize {
        CALLS.load(Relaxed)
    }
    /// Bytes ever asked for (every reallocation counts with its new size).
    pub fn total() -> usize {
        TOTAL.load(Relaxed)
    }
    pub fn reset_peak() {
        PEAK.store(CUR.load(Relaxed), Relaxed)
    }
    pub fn peak() -> usize {
        PEAK.load(Relaxed)
    }
}
#[cfg(feature = "interpose")]
pub use imp::{calls, current, peak, reset_peak, total};

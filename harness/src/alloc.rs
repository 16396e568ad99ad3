//! Counting allocator: per-thread live, peak and total bytes; a cap on the process's live bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(3 << 30);

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
fn add(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as isize;
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        TOTAL.with(|t| t.set(t.get().wrapping_add(n)));
        COUNT.with(|t| t.set(t.get() + 1));
        BIGGEST.with(|t| {
            if n > t.get() {
                t.set(n)
            }
        });
    });
}
fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as isize));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE.fetch_add(l.size(), Relaxed) + l.size() > CAP.load(Relaxed) {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && LIVE.load(Relaxed) + (n - l.size()) > CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n, Relaxed);
        LIVE.fetch_sub(l.size(), Relaxed);
        // growing in place counts only the growth, like a caller that keeps its buffer
        if n > l.size() {
            add(n - l.size());
        } else {
            sub(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Use {
    pub peak: usize,
    pub total: usize,
    pub count: usize,
    pub biggest: usize,
    /// bytes still held at the end
    pub kept: isize,
}
/// Run f and report what this thread allocated meanwhile
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let base = CUR.with(|c| c.get());
    let t0 = TOTAL.with(|c| c.get());
    let c0 = COUNT.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    BIGGEST.with(|p| p.set(0));
    let v = f();
    let u = Use {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as usize,
        total: TOTAL.with(|c| c.get()).wrapping_sub(t0),
        count: COUNT.with(|c| c.get()) - c0,
        biggest: BIGGEST.with(|c| c.get()),
        kept: CUR.with(|c| c.get()) - base,
    };
    (v, u)
}

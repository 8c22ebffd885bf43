//! Instrumented global allocator: per-thread allocation meter, and a watch list of blocks that
//! must contain only zeros when they are released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub struct MonAlloc;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub const MAXW: usize = 64;
static WATCHING: AtomicBool = AtomicBool::new(false);
static WPTR: [AtomicUsize; MAXW] = [const { AtomicUsize::new(0) }; MAXW];
static WLEN: [AtomicUsize; MAXW] = [const { AtomicUsize::new(0) }; MAXW];
/// 0 = still allocated, 1 = released all zero, 2 = released with non-zero bytes, 3 = reallocated
static WRES: [AtomicUsize; MAXW] = [const { AtomicUsize::new(0) }; MAXW];

#[inline]
fn add(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe fn on_free(ptr: *mut u8, realloc: bool) {
    let p = ptr as usize;
    for i in 0..MAXW {
        if WPTR[i].load(SeqCst) == p {
            let len = WLEN[i].load(SeqCst);
            let mut zero = true;
            for k in 0..len {
                if std::ptr::read_volatile(ptr.add(k)) != 0 {
                    zero = false;
                    break;
                }
            }
            WPTR[i].store(0, SeqCst);
            WRES[i].store(if zero { 1 } else if realloc { 3 } else { 2 }, SeqCst);
        }
    }
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if WATCHING.load(SeqCst) {
            on_free(p, false);
        }
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if WATCHING.load(SeqCst) {
            on_free(p, true);
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Runs f and returns its result with the peak net allocation of this thread during it.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

/// Watches blocks (pointer, length); read the outcome with `watch_results`.
pub fn watch(blocks: &[(usize, usize)]) {
    assert!(blocks.len() <= MAXW);
    for i in 0..MAXW {
        let (p, l) = blocks.get(i).copied().unwrap_or((0, 0));
        WRES[i].store(0, SeqCst);
        WLEN[i].store(l, SeqCst);
        WPTR[i].store(p, SeqCst);
    }
    WATCHING.store(true, SeqCst);
}
pub fn watch_results(n: usize) -> Vec<usize> {
    WATCHING.store(false, SeqCst);
    let r = (0..n).map(|i| WRES[i].load(SeqCst)).collect();
    for i in 0..MAXW {
        WPTR[i].store(0, SeqCst);
    }
    r
}

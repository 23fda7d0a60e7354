//! Counts the memory each thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

static EVERYWHERE: AtomicBool = AtomicBool::new(false);
static TOTAL: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static OURS: Cell<u8> = const { Cell::new(0) };
    /// Whether blocks are recorded, and those which live.
    static RECORDING: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static BLOCKS: [Cell<(usize, usize)>; 1000] = const { [const { Cell::new((0, 0)) }; 1000] };
}
fn born(p: *mut u8, n: usize) {
    if !p.is_null() && RECORDING.try_with(|r| r.get()) == Ok(true) {
        let _ = BLOCKS.try_with(|b| {
            let live = LIVE.with(|l| l.replace(l.get() + 1));
            if let Some(c) = b.get(live) {
                c.set((p as usize, n));
            }
        });
    }
}
/// Whether it was recorded.
fn gone(p: *mut u8) -> bool {
    let live = LIVE.try_with(|l| l.get()).unwrap_or(0);
    if live == 0 {
        return false;
    }
    BLOCKS
        .try_with(|b| {
            let known = live.min(b.len());
            // The youngest are freed first.
            let Some(i) = (0..known).rev().find(|i| b[*i].get().0 == p as usize) else { return false };
            if live <= b.len() {
                b[i].set(b[known - 1].get());
                LIVE.with(|l| l.set(live - 1));
            }
            true
        })
        .unwrap_or(false)
}
struct Counting;
fn add(n: i64) {
    if EVERYWHERE.load(Ordering::Relaxed) {
        TOTAL.fetch_add(n, Ordering::Relaxed);
    }
    if OURS.try_with(|o| o.get()) == Ok(2) {
        return;
    }
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        // What an earlier owner left in a block is not what the new one holds.
        let clean = RECORDING.try_with(|r| r.get()) == Ok(true);
        let p = unsafe { if clean { System.alloc_zeroed(l) } else { System.alloc(l) } };
        born(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let p = unsafe { System.alloc_zeroed(l) };
        born(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        gone(p);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        let known = gone(p);
        let was = RECORDING.try_with(|r| r.replace(r.get() || known));
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() && RECORDING.try_with(|r| r.get()) == Ok(true) && n > l.size() {
            unsafe { q.add(l.size()).write_bytes(0, n - l.size()) };
        }
        born(q, n);
        let _ = was.map(|was| RECORDING.with(|r| r.set(was)));
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

/// How much the held memory of this thread rose above its start at most, during `f`.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let start = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - start).max(0) as u64)
}
/// What this thread has allocated and nobody has freed, less what it has freed of others.
pub fn held() -> i64 {
    CUR.with(|c| c.get())
}
/// The memory all threads hold, relative to the first call.
pub fn held_everywhere() -> i64 {
    EVERYWHERE.store(true, Ordering::SeqCst);
    TOTAL.load(Ordering::SeqCst)
}
/// From now on, this thread's memory used inside of `ours` is not counted.
pub fn leave_out_ours() {
    OURS.with(|o| o.set(1));
}
/// Work of the transport and the remote peer.
pub fn ours<T>(f: impl FnOnce() -> T) -> T {
    let on = OURS.with(|o| {
        let on = o.get() == 1;
        if on {
            o.set(2);
        }
        on
    });
    let recording = RECORDING.with(|r| r.replace(false));
    let r = f();
    RECORDING.with(|r| r.set(recording));
    if on {
        OURS.with(|o| o.set(1));
    }
    r
}
/// Records the blocks this thread allocates in `f` until it frees them.
pub fn record<T>(f: impl FnOnce() -> T) -> T {
    let old = RECORDING.with(|r| r.replace(true));
    let r = f();
    RECORDING.with(|r| r.set(old));
    r
}
/// Recorded blocks which live; None if there are too many, which are then forgotten.
pub fn recorded() -> Option<Vec<(usize, usize)>> {
    let live = LIVE.with(|l| l.get());
    BLOCKS.with(|b| {
        if live > b.len() {
            LIVE.with(|l| l.set(0));
            return None;
        }
        Some(b[..live].iter().map(|c| c.get()).collect())
    })
}

//! Stand-ins for the C library's clocks: sleeping is accelerated for every thread of this
//! process, and a thread can be given a clock of its own.
use std::cell::Cell;
use std::ffi::{c_int, c_long};
use std::sync::atomic::{AtomicU64, Ordering};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}
const SYS_NANOSLEEP: c_long = 35;
const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_CLOCK_NANOSLEEP: c_long = 230;
/// A second of sleep takes this many microseconds.
const MICROS_PER_SECOND: i64 = 2_000;

/// How often any thread slept.
pub static SLEEPS: AtomicU64 = AtomicU64::new(0);
thread_local! { static OWN: Cell<Option<u64>> = const { Cell::new(None) }; }

/// Gives this thread its own clock (nanoseconds), or the real one back.
pub fn set(now: Option<u64>) {
    OWN.with(|o| o.set(now));
}
fn scaled(t: &Timespec) -> Timespec {
    let micros = t.sec.saturating_mul(MICROS_PER_SECOND).saturating_add(t.nsec / 1000 * MICROS_PER_SECOND / 1_000_000).max(20);
    Timespec { sec: micros / 1_000_000, nsec: micros % 1_000_000 * 1000 }
}
#[no_mangle]
/// # Safety
/// As the C library's function.
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const Timespec, rem: *mut Timespec) -> c_int {
    SLEEPS.fetch_add(1, Ordering::SeqCst);
    if flags != 0 {
        return unsafe { syscall(SYS_CLOCK_NANOSLEEP, clock as c_long, flags as c_long, req, rem) } as c_int;
    }
    let t = scaled(unsafe { &*req });
    unsafe { syscall(SYS_NANOSLEEP, &t as *const Timespec, std::ptr::null_mut::<Timespec>()) };
    0
}
#[no_mangle]
/// # Safety
/// As the C library's function.
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> c_int {
    unsafe { clock_nanosleep(0, 0, req, rem) }
}
#[no_mangle]
/// # Safety
/// As the C library's function.
pub unsafe extern "C" fn clock_gettime(clock: c_int, out: *mut Timespec) -> c_int {
    if let Ok(Some(now)) = OWN.try_with(|o| o.get()) {
        unsafe { *out = Timespec { sec: (now / 1_000_000_000) as i64, nsec: (now % 1_000_000_000) as i64 } };
        return 0;
    }
    unsafe { syscall(SYS_CLOCK_GETTIME, clock as c_long, out) as c_int }
}

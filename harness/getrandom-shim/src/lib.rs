//! Deterministic replacement for getrandom 0.2: each thread has its own seeded stream.
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! { static STATE: Cell<Option<u64>> = const { Cell::new(None) }; }
static UNSEEDED: AtomicU64 = AtomicU64::new(0x1234_5678);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Seed the calling thread's stream.
pub fn seed_thread(seed: u64) {
    STATE.with(|s| s.set(Some(seed ^ 0xA5A5_5A5A_0F0F_F0F0)));
}
/// Number of entropy requests made so far in the process.
pub fn calls() -> u64 {
    CALLS.load(Ordering::Relaxed)
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    STATE.with(|s| {
        let mut st = match s.get() {
            Some(v) => v,
            None => {
                let mut base = UNSEEDED.fetch_add(0x1_0000_0001, Ordering::Relaxed);
                splitmix(&mut base)
            }
        };
        for c in dest.chunks_mut(8) {
            let w = splitmix(&mut st).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        s.set(Some(st));
    });
    Ok(())
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Self(code)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "shim error")
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(err: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, err)
    }
}

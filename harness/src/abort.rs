//! The code under test can end the process: by overflowing the stack, by panicking while
//! panicking, by asking for memory that is not there. The case that did so is then reported
//! from the signal handler.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

type At = (*const u8, usize);
thread_local! { static CURRENT: Cell<At> = const { Cell::new((std::ptr::null(), 0)) }; }
static SEEN: AtomicBool = AtomicBool::new(false);
struct Texts {
    id: String,
    path: CString,
    line: String,
}
static TEXTS: OnceLock<Texts> = OnceLock::new();

extern "C" {
    fn signal(sig: c_int, handler: extern "C" fn(c_int)) -> usize;
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn pause() -> c_int;
}

/// The text of a replay file, ready to be written.
pub struct Replay(String);
#[derive(Clone, Copy)]
pub struct Pointer(At);
unsafe impl Send for Pointer {}

impl Replay {
    pub fn new(family: &str, case: &str) -> Self {
        let id = TEXTS.get().map(|t| t.id.as_str()).unwrap_or("");
        Replay(format!("{{\"property\":\"{id}\",\"family\":\"{family}\",\"message\":\"ends the process\",\"case\":{case}}}\n"))
    }
    pub fn at(&self) -> Pointer {
        Pointer((self.0.as_ptr(), self.0.len()))
    }
}
/// Names the case this thread works on; its text must outlive the work.
pub fn set(p: Pointer) {
    CURRENT.with(|c| c.set(p.0));
}
pub fn current() -> Pointer {
    Pointer(CURRENT.with(|c| c.get()))
}

extern "C" fn on_abort(_: c_int) {
    let (text, n) = CURRENT.with(|c| c.get());
    let Some(t) = TEXTS.get() else { unsafe { _exit(134) } };
    if text.is_null() {
        unsafe { _exit(134) }
    }
    if SEEN.swap(true, Ordering::SeqCst) {
        loop {
            unsafe { pause() };
        }
    }
    unsafe {
        let fd = open(t.path.as_ptr(), 0o1101, 0o644);
        let mut done = 0;
        while fd >= 0 && done < n {
            let k = write(fd, text.add(done).cast(), n - done);
            if k <= 0 {
                break;
            }
            done += k as usize;
        }
        close(fd);
        write(1, t.line.as_ptr().cast(), t.line.len());
        _exit(1)
    }
}

/// From now on an abort in a case is a violation of this property.
pub fn install(id: &str, dir: &str) {
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let path = format!("{dir}/replays/{id}-abort.json");
    let _ = TEXTS.set(Texts {
        id: id.into(),
        line: format!("{id}: the process was ended by the code under test\nVIOLATION property={id} replay={path}\n"),
        path: CString::new(path).expect("no zero byte"),
    });
    unsafe { signal(6, on_abort) };
}

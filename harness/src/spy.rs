//! Stands between the library and what a process can tell it besides the text:
//! environment variables, clocks and processors. Defined here, `getenv`,
//! `clock_gettime` and `sched_getaffinity` take the place of libc's in this
//! program, so the monitor sees what is asked for during a load, and can give
//! other answers. (Not so under Miri and the sanitizers, which have their own.)
use std::cell::{Cell, RefCell};
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static NAMES: RefCell<Vec<CString>> = const { RefCell::new(Vec::new()) };
    static ANSWER: RefCell<Option<CString>> = const { RefCell::new(None) };
    static LEAP: Cell<i64> = const { Cell::new(0) };
    static LEAPT: Cell<i64> = const { Cell::new(0) };
    static ALONE: Cell<bool> = const { Cell::new(false) };
}
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static environ: *const *const libc::c_char;
}

unsafe fn lookup(name: &CStr) -> *mut libc::c_char {
    let n = name.to_bytes();
    let mut e = environ;
    if e.is_null() || n.is_empty() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        let v = CStr::from_ptr(*e).to_bytes();
        if v.len() > n.len() && &v[..n.len()] == n && v[n.len()] == b'=' {
            return (*e).add(n.len() + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// # Safety
/// As libc's: `name` is a string.
#[cfg_attr(not(any(miri, sanitized)), no_mangle)]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if name.is_null() {
        return std::ptr::null_mut();
    }
    let name = CStr::from_ptr(name);
    if WATCH.try_with(|w| w.replace(false)).unwrap_or(false) {
        ENV_READS.fetch_add(1, Ordering::Relaxed);
        NAMES.with(|n| {
            let mut n = n.borrow_mut();
            if n.len() < 64 && !n.iter().any(|k| k.as_c_str() == name) {
                n.push(name.to_owned());
            }
        });
        WATCH.set(true);
        let given = ANSWER.with(|a| a.borrow().as_ref().map(|c| c.as_ptr() as *mut libc::c_char));
        if let Some(p) = given {
            return p;
        }
    }
    lookup(name)
}

/// # Safety
/// As libc's: `t` is writable.
#[cfg_attr(not(any(miri, sanitized)), no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int;
    if r == 0 && WATCH.try_with(|w| w.get()).unwrap_or(false) {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let leapt = LEAPT.get() + LEAP.get();
        LEAPT.set(leapt);
        (*t).tv_sec += leapt;
    }
    r
}

/// # Safety
/// As libc's: `mask` has `size` bytes.
#[cfg_attr(not(any(miri, sanitized)), no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, mask: *mut libc::cpu_set_t) -> libc::c_int {
    let m = mask as *mut u8;
    let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, mask);
    if r < 0 {
        return -1;
    }
    m.add(r as usize).write_bytes(0, size - r as usize);
    if ALONE.try_with(|w| w.get()).unwrap_or(false) {
        // one processor, the first of those there are
        let b = std::slice::from_raw_parts_mut(m, size);
        let first = b.iter().position(|x| *x != 0).unwrap_or(0);
        b[first] &= b[first].wrapping_neg();
        b[first + 1..].fill(0);
    }
    0
}

/// Runs `f` in a process that may use one processor only, or so it seems.
pub fn one_processor<T>(f: impl FnOnce() -> T) -> T {
    ALONE.set(true);
    let r = f();
    ALONE.set(false);
    r
}

/// Turns the clocks this thread sees under watch.
pub fn turn_clocks(seconds: i64) {
    LEAPT.set(seconds);
}

/// Runs `f` under watch; every variable it asks for has the value `answer` (if
/// any), and the clocks move on by `leap` more seconds whenever they are read.
pub fn watched<T>(answer: Option<&str>, leap: i64, f: impl FnOnce() -> T) -> T {
    ANSWER.with(|a| *a.borrow_mut() = answer.and_then(|s| CString::new(s.replace('\0', "")).ok()));
    LEAP.set(leap);
    WATCH.set(true);
    let r = f();
    WATCH.set(false);
    LEAP.set(0);
    ANSWER.with(|a| *a.borrow_mut() = None);
    r
}

/// The names of the variables asked for under watch in this thread.
pub fn asked_for() -> Vec<String> {
    NAMES.with(|n| n.borrow().iter().map(|c| c.to_string_lossy().into_owned()).collect())
}

pub fn forget() {
    NAMES.with(|n| n.borrow_mut().clear());
    ENV_READS.store(0, Ordering::Relaxed);
    CLOCK_READS.store(0, Ordering::Relaxed);
}

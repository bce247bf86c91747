//! One worker process: cases of one property, one after the other. What it is
//! doing at any moment can be read from a shared file, also after it died.
use crate::outcome::guarded;
use crate::props::Prop;
use crate::report::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Shared(*mut AtomicU64, usize);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    /// A file of n counters mapped into memory.
    pub fn open(path: &str, n: usize) -> std::io::Result<Shared> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        f.set_len((n * 8) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Shared(p as *mut AtomicU64, n))
    }
    /// # Safety
    /// Valid as long as the mapping is.
    pub unsafe fn cell(&self, i: usize) -> *mut AtomicU64 {
        self.0.add(i)
    }
    pub fn get(&self, i: usize) -> u64 {
        assert!(i < self.1);
        unsafe { (*self.0.add(i)).load(Ordering::SeqCst) }
    }
    pub fn set(&self, i: usize, v: u64) {
        assert!(i < self.1);
        unsafe { (*self.0.add(i)).store(v, Ordering::SeqCst) }
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut _, self.1 * 8) };
    }
}

pub fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}
pub fn limit_cpu(seconds: u64) {
    let l = libc::rlimit { rlim_cur: seconds, rlim_max: seconds + 5 };
    unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l) };
}

pub enum CaseEnd {
    Held,
    Violated(Violation),
    Harness(String),
}

/// Runs one case. A panic that escapes is the library's if it comes from its
/// sources, else a fault of the harness.
pub fn run_case(p: &Prop, ctx: &mut Ctx, case: u64) -> CaseEnd {
    match guarded(|| (p.run)(ctx, case)) {
        Ok(Ok(())) => CaseEnd::Held,
        Ok(Err(v)) => CaseEnd::Violated(v),
        Err(msg) if msg.contains("/repo/src/") => {
            CaseEnd::Violated(Violation::of(format!("the library panicked: {msg}"), &[]))
        }
        Err(msg) => CaseEnd::Harness(msg),
    }
}

pub const NONE: u64 = u64::MAX;

/// Cases from, from + step, ... below end. Writes what it saw to `out`.
pub fn run(p: &Prop, ctx: &mut Ctx, from: u64, step: u64, end: u64, seconds: u64, progress: &str, out: &str) -> i32 {
    let sh = Shared::open(progress, 2).expect("progress file");
    let start = Instant::now();
    let mut case = from;
    let mut code = 0;
    let mut tail = String::new();
    while case < end && start.elapsed() < Duration::from_secs(seconds) {
        sh.set(0, case);
        match run_case(p, ctx, case) {
            CaseEnd::Held => {}
            CaseEnd::Violated(v) => {
                tail = violation_text(case, &v);
                code = 1;
            }
            CaseEnd::Harness(m) => {
                tail = format!("H\t{case}\t{}\n", json(&m));
                code = 2;
            }
        }
        if code != 0 {
            break;
        }
        case += step;
        sh.set(1, sh.get(1) + 1);
    }
    sh.set(0, NONE);
    let mut text = ctx.to_text();
    text.push_str(&tail);
    std::fs::write(out, text).expect("out file");
    code
}

pub fn violation_text(case: u64, v: &Violation) -> String {
    let mut t = format!("V\t{case}\t{}\n", json(&v.what));
    for (n, x) in &v.texts {
        t.push_str(&format!("T\t{n}\t{}\n", json(x)));
    }
    t
}

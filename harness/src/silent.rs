//! C03: loads under a system call filter. Everything that is not memory
//! management traps; the trap handler notes the call and ends the process.
use crate::dict::dict;
use crate::gen::*;
use crate::outcome::*;
use crate::report::*;
use crate::src::{hash_str, Src};
use crate::supervise::{me, tier_name, Run};
use crate::worker::{Shared, NONE};
use crate::{bad, hostile, mtl, obj};
use std::process::Stdio;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

const RULE: &str = "texts: seeded valid programs, programs with a bad statement, mutated ones, token soup and some of more than 2^16 statements, with names replaced by names of files that exist in the working directory or by absolute paths, devices and URLs; each is loaded as OBJ and as MTL, with the log level off and at trace, in a process whose system calls are filtered by the kernel (seccomp: anything beyond anonymous memory, locks, random numbers and exit traps and is a violation), standard output and error are flushed at the end under the filter, and the environment is compared with what it was; that the filter traps is itself tested by controls that open a file, print, start a thread, start a process and create a socket; non-trivial: the text has a word of a statement that names a file or a material, counted by distinct text";

/// Names of files that are there.
pub fn baits() -> Vec<String> {
    let mut v: Vec<String> = [
        "a.mtl", "b.mtl", "m.mtl", "master.mtl", "lib.mtl", "cube.obj", "s.obj", "shadow.obj", "trace.obj", "a.png", "b.png", "tex.png", "wood.jpg", "a.rfl", "mat",
        "default", "default.mtl", "cube", "x", "textures.map", "a", "sphere", "1", "01_wood",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for d in &dict().strings {
        if d.len() < 60 && !d.contains(['/', '\0', ' ', '\n', '#']) && d != "." && d != ".." && !v.contains(d) && v.len() < 90 {
            v.push(d.clone());
        }
    }
    v
}

const ABSOLUTE: &[&str] = &[
    "/etc/hostname", "/etc/passwd", "/dev/null", "/dev/stdout", "/dev/tty", "/proc/self/environ", "/proc/self/status", "/tmp", "/tmp/x.mtl", "./a.mtl", "../a.mtl", "sub/a.mtl",
    "http://localhost/a.mtl", "https://127.0.0.1/x.png", "file:///etc/hostname", "\\\\localhost\\a.png", "C:\\a.png", "~/a.mtl", "$HOME/a.mtl", "|ls", ";ls", "`ls`", "$(ls)", "-", "*", "a.mtl:b.mtl",
];

/// Text numbers from here on are statements of the tables.
const TABLES: u64 = 1 << 40;

pub fn text(seed: u64, i: u64) -> String {
    if i >= TABLES {
        return if i - TABLES < bad::table_size() { bad::table_text(i - TABLES) } else { String::new() };
    }
    let mut s = Src::seeded(&[seed, hash_str("C03"), i]);
    let s = &mut s;
    if i % 2000 == 700 {
        // hundreds of thousands of bytes, where work might be given away
        let w = if s.flip() {
            mtl::words(&mtl::giant_program(s, &mtl::Profile::mixed()))
        } else {
            obj::words(&obj::giant_program(s, &obj::Profile::mixed()))
        };
        return plain(&w);
    }
    let b = baits();
    let file = |s: &mut Src| -> String {
        if s.one_in(4) {
            s.pick(ABSOLUTE).to_string()
        } else {
            s.pick(&b).clone()
        }
    };
    let is_mtl = s.flip();
    let mut words = if is_mtl {
        let mut p = mtl::program(s, &mtl::Profile::mixed(), false);
        for m in &mut p {
            match m {
                mtl::M::Map(_, m) if !s.one_in(4) => m.file = file(s),
                mtl::M::Color(_, mtl::Color::Spectral(f, _)) if !s.one_in(4) => *f = file(s),
                mtl::M::New(n) if s.one_in(3) => *n = file(s),
                _ => {}
            }
        }
        mtl::words(&p)
    } else {
        let mut prof = obj::Profile::mixed();
        for k in 9..16 {
            prof.weights[k] = 5;
        }
        prof.max_len = 24;
        let mut p = obj::program(s, &prof, false);
        for o in &mut p {
            match o {
                obj::O::MtlLib(n) | obj::O::MapLib(n) => {
                    for x in n {
                        if !s.one_in(4) {
                            *x = file(s);
                        }
                    }
                }
                obj::O::Shadow(n) | obj::O::Trace(n) | obj::O::UseMtl(n) | obj::O::Name(n) | obj::O::UseMap(Some(n)) if !s.one_in(4) => {
                    *n = file(s)
                }
                _ => {}
            }
        }
        obj::words(&p)
    };
    bad::open_up(s, is_mtl, &mut words);
    match s.below(8) {
        0..=4 => {}
        5 => {
            let at = s.below(words.len() + 1);
            words.insert(at, if is_mtl { bad::mtl_line(s).1 } else { bad::obj_line(s).1 });
        }
        6 => {
            let t = layout(s, &words);
            return hostile::mutate(s, &t);
        }
        _ => return hostile::soup(s),
    }
    layout(s, &words)
}

static SEEN: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
static SYSCALL: AtomicU64 = AtomicU64::new(0);

extern "C" fn trapped(_: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    // si_syscall of the kernel's siginfo: after signo, errno, code, padding and si_call_addr
    let nr = unsafe { *((info as *const u8).add(24) as *const i32) };
    SYSCALL.store(nr as u64, Ordering::SeqCst);
    let p = SEEN.load(Ordering::SeqCst);
    if !p.is_null() {
        unsafe { (*p).store(nr as u64 + 1, Ordering::SeqCst) };
    }
    unsafe { libc::_exit(77) };
}

fn filter() -> Result<(), String> {
    use libc::*;
    const LD: u16 = 0x20; // BPF_LD | BPF_W | BPF_ABS
    const JEQ: u16 = 0x15;
    const RET: u16 = 0x06;
    let st = |k: u32| sock_filter { code: LD, jt: 0, jf: 0, k };
    let ret = |k: u32| sock_filter { code: RET, jt: 0, jf: 0, k };
    let jeq = |k: u32, jt: u8, jf: u8| sock_filter { code: JEQ, jt, jf, k };
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    let mut prog = vec![st(4), jeq(0xC000_003E, 1, 0), ret(TRAP), st(0)];
    // mapping memory, but no files
    prog.push(jeq(SYS_mmap as u32, 0, 4));
    prog.push(st(16 + 4 * 8));
    prog.push(jeq(0xffff_ffff, 0, 1));
    prog.push(ret(ALLOW));
    prog.push(ret(TRAP));
    for nr in [
        SYS_munmap, SYS_mremap, SYS_madvise, SYS_mprotect, SYS_brk, SYS_futex, SYS_getrandom, SYS_exit_group, SYS_exit, SYS_rt_sigreturn, SYS_sigaltstack, SYS_rt_sigprocmask,
        SYS_clock_gettime, SYS_gettimeofday, SYS_sched_yield, SYS_gettid, SYS_getpid, SYS_membarrier,
    ] {
        prog.push(jeq(nr as u32, 0, 1));
        prog.push(ret(ALLOW));
    }
    prog.push(ret(TRAP));
    let f = sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
    unsafe {
        let mut sa: sigaction = std::mem::zeroed();
        sa.sa_sigaction = trapped as *const () as usize;
        sa.sa_flags = SA_SIGINFO;
        if sigaction(SIGSYS, &sa, std::ptr::null_mut()) != 0 {
            return Err("sigaction".into());
        }
        if prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return Err("no_new_privs".into());
        }
        if syscall(SYS_seccomp, 1, 0, &f as *const _) != 0 {
            return Err(format!("seccomp: {}", std::io::Error::last_os_error()));
        }
    }
    Ok(())
}

/// Loads texts `from..from + n` under the filter. Shared: 0 current text,
/// 1 loads done, 2 the trapped call + 1, 3 log records seen, 4 to 6 and 8 to
/// 10 outcomes of OBJ and MTL loads.
pub fn child(_tier: Tier, seed: u64, from: u64, n: u64, out: &str, shared: &str) -> i32 {
    quiet_panics();
    install_logger();
    let sh = match Shared::open(shared, 12) {
        Ok(s) => s,
        Err(_) => return 2,
    };
    if let Some(control) = shared_control(out) {
        return control_run(control, &sh);
    }
    let texts: Vec<String> = (from..from + n).map(|i| text(seed, i)).collect();
    // nothing is loaded before the filter is there: what happens only once counts too
    let mut ctx = Ctx::new(Tier::Quick, seed);
    for t in &texts {
        let l = t.to_ascii_lowercase();
        ctx.case(t, ["lib", "usem", "_obj", "newmtl", "map", "bump", "refl", "disp", "decal", "spectral"].iter().any(|k| l.contains(k)));
    }
    if std::fs::write(out, ctx.to_text()).is_err() {
        return 2;
    }
    let env: Vec<_> = std::env::vars_os().collect();
    SEEN.store(unsafe { sh.cell(2) }, Ordering::SeqCst);
    if filter().is_err() {
        return 3;
    }
    let mut loads = 0;
    for (i, t) in texts.iter().enumerate() {
        sh.set(0, from + i as u64);
        for on in [false, true] {
            logging(on);
            let (a, b) = (load_obj(t), load_mtl(t));
            for (k, l) in [(4, a.label()), (8, b.label())] {
                let k = k + if l == "ok" { 0 } else if l == "panic" { 2 } else { 1 };
                sh.set(k, sh.get(k) + 1);
            }
            drop((a, b));
            loads += 2;
            sh.set(1, loads);
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
    }
    sh.set(3, LOGGED.load(Ordering::Relaxed));
    let same = std::env::vars_os().collect::<Vec<_>>() == env;
    sh.set(0, NONE);
    unsafe { libc::_exit(if same { 0 } else { 78 }) }
}

const CONTROLS: [&str; 5] = ["open", "print", "thread", "process", "socket"];

fn shared_control(out: &str) -> Option<&str> {
    out.strip_prefix("control:")
}

fn control_run(what: &str, sh: &Shared) -> i32 {
    SEEN.store(unsafe { sh.cell(2) }, Ordering::SeqCst);
    if filter().is_err() {
        return 3;
    }
    match what {
        "open" => drop(std::fs::metadata("a.mtl")),
        "print" => {
            use std::io::Write;
            print!("x");
            let _ = std::io::stdout().flush();
        }
        "thread" => drop(std::thread::Builder::new().spawn(|| ())),
        "process" => drop(std::process::Command::new("true").spawn()),
        _ => drop(std::net::TcpStream::connect("127.0.0.1:9")),
    }
    unsafe { libc::_exit(0) }
}

fn call_name(nr: u64) -> String {
    let n = match nr as i64 {
        libc::SYS_read => "read",
        libc::SYS_write => "write",
        libc::SYS_writev => "writev",
        libc::SYS_open => "open",
        libc::SYS_openat => "openat",
        libc::SYS_stat => "stat",
        libc::SYS_statx => "statx",
        libc::SYS_newfstatat => "newfstatat",
        libc::SYS_access => "access",
        libc::SYS_faccessat => "faccessat",
        libc::SYS_readlink => "readlink",
        libc::SYS_getcwd => "getcwd",
        libc::SYS_socket => "socket",
        libc::SYS_connect => "connect",
        libc::SYS_clone => "clone",
        libc::SYS_clone3 => "clone3",
        libc::SYS_fork => "fork",
        libc::SYS_vfork => "vfork",
        libc::SYS_execve => "execve",
        libc::SYS_mmap => "mmap of a file",
        libc::SYS_ioctl => "ioctl",
        libc::SYS_unlink => "unlink",
        libc::SYS_mkdir => "mkdir",
        libc::SYS_pipe2 => "pipe2",
        libc::SYS_chdir => "chdir",
        _ => return format!("system call {nr}"),
    };
    n.to_string()
}

/// The handler ended the process, or the kernel did because SIGSYS was blocked.
fn was_trapped(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    s.code() == Some(77) || s.signal() == Some(libc::SIGSYS)
}

pub fn check() -> i32 {
    let mut run = Run::new("C03", RULE);
    let n: u64 = if run.tier == Tier::Quick { 100_000 } else { 1_500_000 };
    let block = if run.tier == Tier::Quick { 1000 } else { 5000 };
    let cwd = run.dir.join("cwd");
    let _ = std::fs::create_dir_all(cwd.join("sub"));
    for b in baits() {
        let t = if b.ends_with(".obj") { "v 7 7 7\n" } else { "newmtl bait\nKd 0.25 0.5 0.75\n" };
        let _ = std::fs::write(cwd.join(&b), t);
    }
    let _ = std::fs::write(cwd.join("sub/a.mtl"), "newmtl bait\n");
    let start = |run: &Run, from: u64, n: u64, out: &str, shared: &str| {
        let a: Vec<String> = ["silent", tier_name(run.tier), &run.seed.to_string(), &from.to_string(), &n.to_string(), out, shared]
            .iter()
            .map(|s| s.to_string())
            .collect();
        me(&a).current_dir(&cwd).stdout(Stdio::null()).stderr(Stdio::null()).spawn()
    };
    for c in CONTROLS {
        let shared = run.dir.join(format!("c-{c}")).to_string_lossy().to_string();
        let ok = start(&run, 0, 0, &format!("control:{c}"), &shared).and_then(|mut k| k.wait());
        match ok {
            Ok(s) if was_trapped(&s) => run.count("controls trapped", 1),
            o => run.harness.push(format!("the filter did not trap the control '{c}' ({o:?})")),
        }
    }
    if !run.harness.is_empty() {
        return run.finish();
    }
    let tables = (0..bad::table_size().div_ceil(block)).map(|k| TABLES + k * block);
    run.count("statements of the tables", bad::table_size());
    let blocks: Vec<u64> = tables.chain((0..n.div_ceil(block)).map(|b| b * block)).collect();
    let limit = std::time::Duration::from_secs(if run.tier == Tier::Quick { 45 } else { 600 });
    let mut it = blocks.into_iter();
    let mut live: Vec<(u64, std::process::Child, String, String)> = Vec::new();
    loop {
        while live.len() < crate::supervise::workers() as usize && run.started.elapsed() < limit && run.found.is_empty() {
            let Some(b) = it.next() else { break };
            let out = run.dir.join(format!("o{b}")).to_string_lossy().to_string();
            let shared = run.dir.join(format!("s{b}")).to_string_lossy().to_string();
            match start(&run, b, block, &out, &shared) {
                Ok(k) => live.push((b, k, out, shared)),
                Err(e) => run.harness.push(format!("child: {e}")),
            }
        }
        if live.is_empty() {
            break;
        }
        let mut i = 0;
        let mut any = false;
        while i < live.len() {
            let st = match live[i].1.try_wait() {
                Ok(Some(st)) => st,
                _ => {
                    if crate::supervise::cpu(live[i].1.id()).unwrap_or(0.0) > 200.0 {
                        let _ = live[i].1.kill();
                    }
                    i += 1;
                    continue;
                }
            };
            any = true;
            let (_, _, out, shared) = live.remove(i);
            if let Ok(t) = std::fs::read_to_string(&out) {
                run.merge(&t);
            }
            let sh = Shared::open(&shared, 12).ok();
            let get = |k| sh.as_ref().map_or(0, |s| s.get(k));
            let (at, loads, nr, logged) = (get(0), get(1), get(2), get(3));
            run.count("loads under the filter", loads);
            run.count("log records passed to the logger", logged);
            for (k, what) in [(4, "OBJ loads that gave a model"), (5, "OBJ loads that gave an error"), (8, "MTL loads that gave materials"), (9, "MTL loads that gave an error"), (6, "OBJ loads that panicked"), (10, "MTL loads that panicked")] {
                run.count(what, get(k));
            }
            match st.code() {
                Some(0) => {}
                _ if was_trapped(&st) => {
                    let t = text(run.seed, at);
                    let call = if nr == 0 { "a system call (with signals blocked)".into() } else { format!("the system call {}", call_name(nr - 1)) };
                    run.violation(Some(at), format!("a load made {call}"), &[("text", &t)]);
                }
                Some(78) => run.violation(None, "loading changed the environment of the process", &[]),
                c => run.harness.push(format!("a child ended with {c:?} at text {at}")),
            }
            let _ = std::fs::remove_file(&out);
            let _ = std::fs::remove_file(&shared);
        }
        if !any {
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
    }
    run.assumptions.push("a system call by which an answer depends on nothing outside the process (clock, process id, locks, memory) is not input or output".into());
    run.finish()
}

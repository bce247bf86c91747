//! C05: loads under AddressSanitizer, ThreadSanitizer, MemorySanitizer, Miri
//! and a counting allocator, alone and from many threads at once.
use crate::alloc::books;
use crate::outcome::*;
use crate::strings;
use crate::report::*;
use crate::src::{hash_str, Src};
use crate::supervise::{unjson, Run, ROOT};
use crate::{bad, gen, hostile, mtl, obj};
use nobject_rs::{Material, Model};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

const RULE: &str = "texts: seeded valid programs, mutated ones, keyword and number soup and long runs, half of them with multibyte names; each is loaded as OBJ and as MTL from a heap block of exactly its size, (1) natively with a counting allocator: what stays allocated after the result is dropped, three loads running, (2) under AddressSanitizer, (3) under ThreadSanitizer with an instrumented standard library, (4) short texts under Miri with several seeds, (5, thorough) under MemorySanitizer with an instrumented standard library; in all of them the text is compared with a copy after the load, overwritten and freed, the result is read in full before and after that, every string in it must be valid UTF-8, batches of texts are shared by threads that load them at once from a barrier, and results are read by two threads at once and dropped by another than the one that loaded; a sanitizer report, a Miri error, a crash, growing allocations or a changed result is a violation; non-trivial: the text loads as OBJ or MTL or has at least three words, counted by distinct text";

/// What the child runs in; Miri and the sanitizers do fewer of everything.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Native,
    Miri,
}

enum Loaded {
    Obj(Outcome<Model>),
    Mtl(Outcome<Vec<Material>>),
}

fn load(is_mtl: bool, t: &str) -> Loaded {
    if is_mtl {
        Loaded::Mtl(load_mtl(t))
    } else {
        Loaded::Obj(load_obj(t))
    }
}

/// Reads all of a result. Err: a string in it is not valid UTF-8.
fn read(l: &Loaded) -> Result<u64, String> {
    let bad = std::cell::Cell::new(None);
    let check = |s: &str| {
        if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
            bad.set(Some(s.as_bytes().to_vec()));
        }
    };
    match l {
        Loaded::Obj(Outcome::Ok(m)) => strings::of_model(m, &check),
        Loaded::Mtl(Outcome::Ok(m)) => m.iter().for_each(|m| strings::of_material(m, &check)),
        Loaded::Obj(Outcome::Err { msg, .. }) | Loaded::Mtl(Outcome::Err { msg, .. }) => check(msg),
        _ => {}
    }
    if let Some(b) = bad.take() {
        return Err(format!("a string of the result is not valid UTF-8: {b:?}"));
    }
    Ok(match l {
        Loaded::Obj(Outcome::Ok(m)) => hash_str(&format!("{:?}", obj::observe(m))),
        Loaded::Mtl(Outcome::Ok(m)) => hash_str(&format!("{m:?}")),
        Loaded::Obj(Outcome::Err { kind, msg }) | Loaded::Mtl(Outcome::Err { kind, msg }) => hash_str(kind) ^ hash_str(msg),
        _ => 0,
    })
}

/// Under Miri a text is loaded as one kind only.
fn is_mtl(t: &str) -> bool {
    t.len() % 8 == 7 || t.to_ascii_lowercase().contains("newmtl")
}

fn say(line: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.flush();
}

struct Child0 {
    violations: u64,
    loads: u64,
    panics: u64,
    residue: u64,
    residue_sample: Option<(usize, i64)>,
    thread_loads: u64,
}

impl Child0 {
    fn bad(&mut self, i: usize, what: &str) {
        self.violations += 1;
        say(&format!("V {i}\t{}\n", json(what)));
    }
}

/// Loads, overwrites and frees the text, reads the result again.
fn detached(c: &mut Child0, i: usize, is_mtl: bool, t: &str) -> Option<u64> {
    let kind = if is_mtl { "MTL" } else { "OBJ" };
    let mut block: Box<[u8]> = t.as_bytes().into();
    let l = load(is_mtl, std::str::from_utf8(&block).expect("valid"));
    c.loads += 1;
    if *block != *t.as_bytes() {
        c.bad(i, &format!("loading as {kind} changed the text"));
        return None;
    }
    if matches!(l, Loaded::Obj(Outcome::Panic(_)) | Loaded::Mtl(Outcome::Panic(_))) {
        c.panics += 1;
        return None;
    }
    let a = read(&l);
    block.iter_mut().for_each(|b| *b = b'~');
    drop(block);
    let b = read(&l);
    match (a, b) {
        (Err(e), _) | (_, Err(e)) => {
            c.bad(i, &format!("{e} (loaded as {kind})"));
            None
        }
        (Ok(a), Ok(b)) => {
            if a != b {
                c.bad(i, &format!("the result of loading as {kind} changed when the text was overwritten and freed"));
                return None;
            }
            Some(a)
        }
    }
}

/// What stays allocated after a load and drop, three times running.
fn balance(c: &mut Child0, i: usize, is_mtl: bool, t: &str) {
    let mut left = [(0, 0); 3];
    for l in &mut left {
        let a = books();
        let r = load(is_mtl, t);
        if matches!(r, Loaded::Obj(Outcome::Panic(_)) | Loaded::Mtl(Outcome::Panic(_))) {
            return;
        }
        drop(r);
        let b = books();
        *l = (b.live - a.live, b.blocks - a.blocks);
        c.loads += 1;
    }
    if left[1].0 > 0 && left[2].0 > 0 {
        c.bad(i, &format!("{} bytes in {} blocks stay allocated after each load as {} whose result was dropped", left[2].0, left[2].1, if is_mtl { "MTL" } else { "OBJ" }));
    }
    if left[0].0 > 0 {
        c.residue += 1;
        c.residue_sample = Some((i, left[0].0));
    }
}

/// Several threads load the same texts at once, read each other's results and drop them.
fn crowd(c: &mut Child0, mode: Mode, texts: &[(usize, String)], threads: usize, want: &[(u64, u64)]) {
    let shared: Arc<Vec<String>> = Arc::new(texts.iter().map(|t| t.1.clone()).collect());
    let barrier = Arc::new(Barrier::new(threads));
    let hands: Vec<_> = (0..threads)
        .map(|k| {
            let (shared, barrier) = (shared.clone(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                let n = shared.len();
                (0..n)
                    .map(|j| {
                        // half of the threads walk the texts in step, the others not
                        let j = if k % 2 == 0 { j } else { (j + k) % n };
                        let first = if mode == Mode::Miri { is_mtl(&shared[j]) } else { k % 4 >= 2 };
                        let second = (mode == Mode::Native).then(|| load(!first, &shared[j]));
                        (j, load(first, &shared[j]), second)
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    let mut results = Vec::new();
    for h in hands {
        match h.join() {
            Ok(r) => results.push(Arc::new(r)),
            Err(_) => c.bad(texts[0].0, "a thread that loaded texts panicked outside the load"),
        }
    }
    let c2: Vec<(usize, String)> = {
        let barrier = Arc::new(Barrier::new(2 * results.len().max(1)));
        let readers: Vec<_> = results
            .iter()
            .flat_map(|r| [r.clone(), r.clone()])
            .map(|r| {
                let barrier = barrier.clone();
                std::thread::spawn(move || {
                    barrier.wait();
                    let mut v: Vec<(usize, bool, Result<u64, String>)> = Vec::new();
                    for (j, a, b) in r.iter() {
                        for l in std::iter::once(a).chain(b) {
                            v.push((*j, matches!(l, Loaded::Mtl(_)), read(l)));
                        }
                    }
                    drop(r);
                    v
                })
            })
            .collect();
        drop(results);
        let mut bad = Vec::new();
        for h in readers {
            let Ok(v) = h.join() else {
                bad.push((texts[0].0, "reading a result from another thread panicked".to_string()));
                continue;
            };
            for (j, m, d) in v {
                c.thread_loads += 1;
                let w = if m { want[j].1 } else { want[j].0 };
                match d {
                    Err(e) => bad.push((texts[j].0, e)),
                    Ok(d) if d != w && w != 0 => bad.push((texts[j].0, "a load at the same time as others gave another result than alone".to_string())),
                    Ok(_) => {}
                }
            }
        }
        bad
    };
    for (i, e) in c2.into_iter().take(3) {
        c.bad(i, &e);
    }
}

/// The texts of a file: lines of JSON strings.
fn texts_of(path: &str) -> Vec<String> {
    let t = std::fs::read(path).expect("text file");
    let t = String::from_utf8(t).expect("text file");
    let mut rest = t.as_str();
    let mut v = Vec::new();
    while let Some((n, r)) = rest.split_once('\n') {
        let n: usize = n.parse().expect("length");
        v.push(r[..n].to_string());
        rest = &r[n..];
    }
    v
}
fn texts_to(path: &Path, texts: &[String]) -> std::io::Result<()> {
    let mut o = String::new();
    for t in texts {
        o.push_str(&format!("{}\n{t}", t.len()));
    }
    std::fs::write(path, o)
}

pub fn child(mode: &str, path: &str, threads: usize) -> i32 {
    let mode = if mode == "miri" { Mode::Miri } else { Mode::Native };
    let texts = texts_of(path);
    let mut c = Child0 { violations: 0, loads: 0, panics: 0, residue: 0, residue_sample: None, thread_loads: 0 };
    let batch = if mode == Mode::Miri { 2 } else { 16 };
    if mode == Mode::Native {
        // what is allocated once per process is no leak
        for t in ["v 1 2 3\nf 1 1 1\n", "f x"] {
            drop(load(false, t));
            drop(load(true, t));
        }
    }
    let mut at = 0;
    for chunk in texts.chunks(batch) {
        let mut want = Vec::new();
        let first = at;
        for t in chunk {
            say(&format!("I {at}\n"));
            if mode == Mode::Native {
                // the very first loads of the text
                balance(&mut c, at, false, t);
                balance(&mut c, at, true, t);
            }
            let only = (mode == Mode::Miri).then(|| is_mtl(t));
            // twice: nothing of the first text may be in use when it is gone
            let mut twice = |is_mtl: bool| {
                let first = detached(&mut c, at, is_mtl, t);
                let second = detached(&mut c, at, is_mtl, t);
                if first != second {
                    c.bad(at, "the second load of the text differs from the first");
                }
                second
            };
            let a = if only != Some(true) { twice(false) } else { None };
            let b = if only != Some(false) { twice(true) } else { None };
            want.push((a.unwrap_or(0), b.unwrap_or(0)));
            at += 1;
        }
        if threads > 1 && (first / batch) % 4 == 0 {
            say(&format!("I {first} {}\n", at - 1));
            let c_texts: Vec<(usize, String)> = chunk.iter().enumerate().map(|(k, t)| (first + k, t.clone())).collect();
            crowd(&mut c, mode, &c_texts, threads, &want);
        }
        if c.violations > 3 {
            break;
        }
    }
    if c.residue > 100 {
        let (i, n) = c.residue_sample.unwrap_or((0, 0));
        c.bad(i, &format!("{} texts left something allocated after their first load and drop, here {n} bytes", c.residue));
    }
    say(&format!("E {} {} {} {} {}\n", at, c.loads, c.thread_loads, c.panics, c.residue));
    i32::from(c.violations > 0)
}

fn text(seed: u64, i: u64, small: bool) -> String {
    let mut s = Src::seeded(&[seed, hash_str("C05"), small as u64, i]);
    let s = &mut s;
    if small {
        for _ in 0..40 {
            let t = match s.below(11) {
                10 => {
                    let m = s.flip();
                    let t = gen::plain(&[bad::open_line(s, m)]);
                    if m { format!("newmtl a\n{t}") } else { t }
                }
                0..=2 => {
                    let mut p = obj::Profile::mixed();
                    p.max_len = 3;
                    let mut p = obj::program(s, &p, false);
                    p.truncate(3);
                    gen::layout(s, &obj::words(&p))
                }
                3..=5 => {
                    let mut p = mtl::Profile::mixed();
                    p.max_len = 3;
                    let mut p = mtl::program(s, &p, false);
                    p.truncate(3);
                    gen::layout(s, &mtl::words(&p))
                }
                6 => hostile::number_soup(s),
                7 => hostile::spliced_keyword(s),
                _ => hostile::text(s).1,
            };
            if t.len() <= 70 {
                return t;
            }
        }
        return "v 1 2 3\n".into();
    }
    match s.below(6) {
        0 | 1 => hostile::program_text(s),
        2 => bad::table_text(s.u64() % bad::table_size()),
        _ => hostile::text(s).1,
    }
}

struct Tool {
    name: &'static str,
    dir: &'static str,
    toolchain: Option<&'static str>,
    flags: &'static str,
    build_std: bool,
    env: &'static [(&'static str, &'static str)],
    /// Marks a report of the tool on standard error.
    report: &'static [&'static str],
}

const TARGET: &str = "x86_64-unknown-linux-gnu";
const TOOLS: [Tool; 5] = [
    Tool { name: "counting allocator", dir: "", toolchain: None, flags: "", build_std: false, env: &[], report: &[] },
    Tool {
        name: "AddressSanitizer",
        dir: "asan",
        toolchain: Some("+nightly"),
        flags: "--cfg=sanitized -Zsanitizer=address",
        build_std: false,
        env: &[("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:allocator_may_return_null=1")],
        report: &["ERROR: AddressSanitizer"],
    },
    Tool {
        name: "ThreadSanitizer",
        dir: "tsan",
        toolchain: Some("+nightly"),
        flags: "--cfg=sanitized -Zsanitizer=thread",
        build_std: true,
        env: &[("TSAN_OPTIONS", "halt_on_error=1:exitcode=86")],
        report: &["WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer"],
    },
    Tool { name: "Miri", dir: "miri", toolchain: Some("+nightly"), flags: "", build_std: false, env: &[], report: &["Undefined Behavior", "memory leaked", "deadlock"] },
    Tool {
        name: "MemorySanitizer",
        dir: "msan",
        toolchain: Some("+nightly"),
        flags: "--cfg=sanitized -Zsanitizer=memory -Zsanitizer-memory-track-origins",
        build_std: true,
        env: &[("MSAN_OPTIONS", "exitcode=86:allocator_may_return_null=1")],
        report: &["WARNING: MemorySanitizer"],
    },
];
/// Reports of the language itself: a broken precondition of an unsafe function, or of the allocator.
const REPORTS: [&str; 6] = ["unsafe precondition(s) violated", "misaligned pointer dereference", "null pointer dereference", "double free", "free():", "corrupted"];

fn build(t: &Tool) -> Option<Child> {
    let mut c = Command::new("cargo");
    let log = std::fs::File::create(format!("{ROOT}/target/build-{}.log", t.dir)).ok()?;
    c.arg(t.toolchain?);
    if t.dir == "miri" {
        // compiles and runs once, on nothing
        let empty = format!("{ROOT}/target/empty.txt");
        std::fs::write(&empty, "").ok()?;
        c.args(["miri", "run", "--offline", "--quiet", "--", "memory", "miri", &empty, "1"]);
        c.env("MIRIFLAGS", "-Zmiri-disable-isolation");
    } else {
        c.args(["build", "--release", "--offline", "--quiet", "--target", TARGET]);
        if t.build_std {
            c.arg("-Zbuild-std");
        }
        c.env("RUSTFLAGS", t.flags);
    }
    c.env("CARGO_TARGET_DIR", format!("{ROOT}/target/{}", t.dir))
        .current_dir(format!("{ROOT}/harness"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(log);
    c.spawn().ok()
}

struct Job {
    tool: usize,
    threads: usize,
    file: PathBuf,
    texts: Vec<String>,
    miri_seed: u64,
}
struct Live {
    job: Job,
    child: Child,
    out: PathBuf,
    err: PathBuf,
    since: Instant,
}

fn start(run: &Run, job: Job, k: usize) -> std::io::Result<Live> {
    let t = &TOOLS[job.tool];
    let mode = if t.dir == "miri" { "miri" } else { "native" };
    let args = ["memory".to_string(), mode.into(), job.file.to_string_lossy().to_string(), job.threads.to_string()];
    let mut c = match t.dir {
        "" => Command::new(std::env::current_exe()?),
        "miri" => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--"]);
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate=0.05 -Zmiri-strict-provenance", job.miri_seed));
            c.env("CARGO_TARGET_DIR", format!("{ROOT}/target/miri"));
            c.current_dir(format!("{ROOT}/harness"));
            c
        }
        d => Command::new(format!("{ROOT}/target/{d}/{TARGET}/release/monitor")),
    };
    for (k, v) in t.env {
        c.env(k, v);
    }
    let (out, err) = (run.dir.join(format!("mo{k}")), run.dir.join(format!("me{k}")));
    let child = c
        .args(&args)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out)?)
        .stderr(std::fs::File::create(&err)?)
        .spawn()?;
    Ok(Live { job, child, out, err, since: Instant::now() })
}

/// What one child printed, as counts and violations.
fn judge(run: &mut Run, l: &Live, st: std::process::ExitStatus) {
    use std::os::unix::process::ExitStatusExt;
    let t = &TOOLS[l.job.tool];
    let out = String::from_utf8_lossy(&std::fs::read(&l.out).unwrap_or_default()).to_string();
    let err = String::from_utf8_lossy(&std::fs::read(&l.err).unwrap_or_default()).to_string();
    let mut at: Vec<usize> = Vec::new();
    let mut done = 0;
    let mut ended = false;
    let mut found = 0;
    for line in out.lines() {
        match line.split_at(line.len().min(2)) {
            ("I ", r) => {
                at = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                done = at[0];
            }
            ("V ", r) => {
                let Some((i, what)) = r.split_once('\t') else { continue };
                let text = i.parse().ok().and_then(|i: usize| l.job.texts.get(i).cloned()).unwrap_or_default();
                run.violation(None, format!("{} ({})", unjson(what), t.name), &[("text", &text)]);
                found += 1;
            }
            ("E ", r) => {
                ended = true;
                let n: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                done = n[0] as usize;
                run.evaluations += n[1] + n[2];
                run.count(&format!("{}: loads alone", t.name), n[1]);
                run.count(&format!("{}: loads read by two threads after loading at once", t.name), n[2]);
                run.count(&format!("{}: loads that panicked (not judged here)", t.name), n[3]);
                run.count(&format!("{}: texts with a residue after the first load", t.name), n[4]);
            }
            _ => {}
        }
    }
    run.count(&format!("{}: texts", t.name), done as u64);
    if ended && st.success() || found > 0 {
        return;
    }
    let report = t.report.iter().chain(&REPORTS).find_map(|r| err.find(r));
    let died = matches!(st.signal(), Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGTRAP));
    let allowed = err.contains("has overflowed its stack") || err.contains("memory allocation of") || err.contains("unsupported operation");
    let texts: Vec<(&str, &str)> = at
        .iter()
        .flat_map(|a| l.job.texts.get(*a).map(|t| ("text", t.as_str())))
        .chain((at.len() == 2).then_some(()).into_iter().flat_map(|_| l.job.texts[at[0]..=at[1].min(l.job.texts.len() - 1)].iter().map(|t| ("text", t.as_str()))))
        .collect();
    match report {
        Some(p) => {
            let e = &err[err[..p].rfind('\n').map_or(0, |x| x + 1)..];
            let e: String = e.lines().take(12).collect::<Vec<_>>().join(" | ");
            let e: String = e.chars().take(1200).collect();
            run.violation(None, format!("{} reports: {e}", t.name), &texts);
        }
        None if died && !allowed => run.violation(None, format!("the process died with {st} ({})", t.name), &texts),
        None => {
            let told = err.lines().skip_while(|l| !l.starts_with("error") && !l.starts_with("thread")).take(4);
            let tail: String = told.chain(err.lines().rev().take(4)).collect::<Vec<_>>().join(" | ");
            run.harness.push(format!("{}: ended with {st} at {at:?}: {tail}", t.name));
        }
    }
}

pub fn check() -> i32 {
    let mut run = Run::new("C05", RULE);
    let thorough = run.tier == Tier::Thorough;
    let tools: &[usize] = if thorough { &[0, 1, 2, 3, 4] } else { &[0, 1, 2, 3] };
    let mut kids: Vec<(usize, Child)> = Vec::new();
    for k in tools.iter().filter(|k| TOOLS[**k].toolchain.is_some()) {
        match build(&TOOLS[*k]) {
            Some(c) => kids.push((*k, c)),
            None => run.harness.push(format!("{}: cargo could not be started", TOOLS[*k].name)),
        }
    }
    let mut usable = vec![0];
    for (k, mut c) in kids {
        match c.wait() {
            Ok(st) if st.success() => usable.push(k),
            _ => {
                let log = std::fs::read_to_string(format!("{ROOT}/target/build-{}.log", TOOLS[k].dir)).unwrap_or_default();
                let tail: String = log.lines().rev().take(6).collect::<Vec<_>>().join(" | ");
                run.harness.push(format!("{}: the build failed: {tail}", TOOLS[k].name));
            }
        }
    }
    run.stats.insert("seconds spent building instrumented copies".into(), run.started.elapsed().as_secs());
    // (tool, files, texts per file)
    let plan: [(usize, u64, u64); 5] = if thorough {
        [(0, 64, 4000), (1, 64, 2500), (2, 48, 800), (3, 240, 6), (4, 48, 1200)]
    } else {
        [(0, 8, 3000), (1, 8, 1500), (2, 8, 400), (3, 16, 4), (4, 0, 0)]
    };
    let mut jobs = Vec::new();
    let mut next = 0u64;
    for (tool, files, per) in plan {
        if !usable.contains(&tool) {
            continue;
        }
        for f in 0..files {
            let small = TOOLS[tool].dir == "miri";
            let texts: Vec<String> = (0..per).map(|i| text(run.seed, next + i, small)).collect();
            next += per;
            let file = run.dir.join(format!("t{tool}-{f}"));
            if let Err(e) = texts_to(&file, &texts) {
                run.harness.push(format!("texts: {e}"));
            }
            jobs.push(Job { tool, threads: if small { 3 } else { 8 }, file, texts, miri_seed: run.seed.wrapping_mul(1000) + f });
        }
    }
    // all statements of the tables, for the books
    let size = bad::table_size();
    for f in 0..8 {
        let texts: Vec<String> = (size * f / 8..size * (f + 1) / 8).map(bad::table_text).collect();
        let file = run.dir.join(format!("tables-{f}"));
        if let Err(e) = texts_to(&file, &texts) {
            run.harness.push(format!("texts: {e}"));
        }
        jobs.push(Job { tool: 0, threads: 8, file, texts, miri_seed: 0 });
    }
    run.count("statements of the tables", size);
    for j in &jobs {
        for t in &j.texts {
            let words = t.split_whitespace().count() >= 3;
            if words {
                run.seen.insert(hash_str(t));
            }
        }
        if let Some(t) = j.texts.iter().find(|t| t.len() < 200 && t.len() > 20) {
            run.samples.push(t.clone());
        }
    }
    // slow ones first
    jobs.sort_by_key(|j| if TOOLS[j.tool].dir == "miri" { 0 } else { 1 });
    let limit = if thorough { 700.0 } else { 300.0 };
    let mut it = jobs.into_iter();
    let mut live: Vec<Live> = Vec::new();
    let mut k = 0;
    loop {
        while live.len() < crate::supervise::workers() as usize && run.found.is_empty() && run.started.elapsed().as_secs_f64() < limit {
            let Some(j) = it.next() else { break };
            k += 1;
            match start(&run, j, k) {
                Ok(l) => live.push(l),
                Err(e) => run.harness.push(format!("child: {e}")),
            }
        }
        if live.is_empty() {
            break;
        }
        let mut i = 0;
        while i < live.len() {
            if let Ok(Some(st)) = live[i].child.try_wait() {
                let l = live.remove(i);
                judge(&mut run, &l, st);
                let _ = std::fs::remove_file(&l.out);
                let _ = std::fs::remove_file(&l.err);
                let _ = std::fs::remove_file(&l.job.file);
            } else if live[i].since.elapsed() > Duration::from_secs(400) {
                let mut l = live.remove(i);
                let _ = l.child.kill();
                let _ = l.child.wait();
                run.harness.push(format!("{}: no end within 400 s", TOOLS[l.job.tool].name));
            } else {
                i += 1;
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    run.assumptions.push("the compilers' instrumentation and Miri report what they claim to report on the paths the texts take".into());
    run.finish()
}

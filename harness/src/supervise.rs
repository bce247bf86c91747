//! `monitor check ID`: runs the workers of one property, watches them, merges
//! what they saw, and gives the verdict.
use crate::props::{find, Prop};
use crate::report::*;
use crate::worker::{Shared, NONE};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

pub const ROOT: &str = "/verif";
/// CPU seconds one case may take. The cases are small; this is a thousand
/// times more than any of them needs.
const HANG: f64 = 60.0;

pub struct Found {
    pub case: Option<u64>,
    pub what: String,
    pub texts: Vec<(String, String)>,
}

pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub dir: PathBuf,
    pub rule: String,
    pub started: Instant,
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub found: Vec<Found>,
    pub harness: Vec<String>,
    pub assumptions: Vec<String>,
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn workers() -> u64 {
    std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 8)
}

pub fn me(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).stdin(Stdio::null());
    c
}

pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// CPU seconds a child has used.
pub fn cpu(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    Some(t as f64 / hz)
}

pub fn unjson(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim_matches('\n').chars().skip(1).peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some('u') => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                }
                Some(c) => o.push(c),
                None => {}
            },
            c => o.push(c),
        }
    }
    o
}

impl Run {
    pub fn new(id: &'static str, rule: &str) -> Run {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let dir = PathBuf::from(format!("{ROOT}/target/run/{id}-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Run {
            id,
            tier,
            seed,
            dir,
            rule: rule.to_string(),
            started: Instant::now(),
            evaluations: 0,
            seen: HashSet::new(),
            stats: BTreeMap::new(),
            samples: Vec::new(),
            found: Vec::new(),
            harness: Vec::new(),
            assumptions: Vec::new(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.into()).or_default() += n;
    }
    pub fn violation(&mut self, case: Option<u64>, what: impl Into<String>, texts: &[(&str, &str)]) {
        self.found.push(Found {
            case,
            what: what.into(),
            texts: texts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        });
    }
    pub fn merge(&mut self, out: &str) {
        for l in out.lines() {
            let mut f = l.splitn(3, '\t');
            let (k, a, b) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
            match k {
                "E" => self.evaluations += a.parse::<u64>().unwrap_or(0),
                "D" => {
                    if let Ok(h) = u64::from_str_radix(a, 16) {
                        self.seen.insert(h);
                    }
                }
                "S" => {
                    let n = b.parse().unwrap_or(0);
                    let e = self.stats.entry(a.to_string()).or_default();
                    if a.starts_with("max ") {
                        *e = (*e).max(n);
                    } else {
                        *e += n;
                    }
                }
                "X" => self.samples.push(unjson(a)),
                "V" => self.found.push(Found { case: a.parse().ok(), what: unjson(b), texts: vec![] }),
                "T" => {
                    if let Some(f) = self.found.last_mut() {
                        f.texts.push((a.to_string(), unjson(b)));
                    }
                }
                "H" => self.harness.push(format!("case {a}: {}", unjson(b))),
                _ => {}
            }
        }
    }

    /// Evidence, replay files, verdict.
    pub fn finish(mut self) -> i32 {
        let _ = std::fs::remove_dir_all(&self.dir);
        let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [",
            json(self.id),
            json(tier_name(self.tier)),
            self.seed,
            self.evaluations,
            self.seen.len(),
            json(&self.rule)
        );
        self.samples.sort_by_key(|s| s.len());
        self.samples.dedup();
        let step = (self.samples.len() / 8).max(1);
        let s: Vec<String> = self.samples.iter().step_by(step).take(10).map(|s| json(s)).collect();
        let _ = write!(j, "{}],\n  \"observed\": {{", s.join(", "));
        let s: Vec<String> = self.stats.iter().map(|(k, v)| format!("\n   {}: {v}", json(k))).collect();
        let _ = write!(j, "{}\n  }}\n }},\n \"assumptions\": [", s.join(","));
        let s: Vec<String> = self.assumptions.iter().map(|s| json(s)).collect();
        let _ = write!(
            j,
            "{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            s.join(", "),
            self.started.elapsed().as_secs_f64(),
            self.found.len()
        );
        if let Err(e) = std::fs::write(format!("{ROOT}/evidence/{}.json", self.id), j) {
            self.harness.push(format!("cannot write the evidence: {e}"));
        }
        println!(
            "{} {} seed {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
            self.id,
            tier_name(self.tier),
            self.seed,
            self.evaluations,
            self.seen.len(),
            self.found.len(),
            self.started.elapsed().as_secs_f64()
        );
        for h in &self.harness {
            println!("check error: {h}");
        }
        if self.found.is_empty() {
            return if self.harness.is_empty() { 0 } else { 2 };
        }
        let _ = std::fs::create_dir_all(format!("{ROOT}/replay"));
        self.found.sort_by_key(|f| f.texts.iter().map(|t| t.1.len()).sum::<usize>());
        let mut printed = HashSet::new();
        for f in &self.found {
            let tag = f.case.map_or("run".to_string(), |c| c.to_string());
            let path = format!("{ROOT}/replay/{}-{}-{}.txt", self.id, self.seed, tag);
            let mut t = format!(
                "property={} tier={} seed={} case={tag}\nwhat: {}\nagain: {ROOT}/run.sh again {path}\n",
                self.id,
                tier_name(self.tier),
                self.seed,
                f.what
            );
            for (n, x) in &f.texts {
                let _ = write!(t, "--- {n} (as a JSON string)\n{}\n--- {n}\n{x}\n", json(x));
            }
            let _ = std::fs::write(&path, t);
            if printed.insert(path.clone()) && printed.len() <= 5 {
                println!("{}: {}", self.id, crate::outcome::clip(&f.what));
                for (n, x) in &f.texts {
                    println!("  {n}: {}", crate::outcome::clip(&format!("{x:?}")));
                }
                println!("VIOLATION property={} replay={path}", self.id);
            }
        }
        1
    }
}

struct Slot {
    child: Child,
    from: u64,
    progress: String,
    out: String,
    shared: Option<Shared>,
    case: u64,
    since: f64,
    done: Option<Option<ExitStatus>>,
}

fn how(s: &ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(n) => format!("killed by signal {n}"),
        None => format!("exit code {}", s.code().unwrap_or(-1)),
    }
}

/// Runs one case alone, in a fresh process. None: it ended as it should.
fn alone(run: &Run, case: u64) -> (String, Option<String>) {
    let args = strs(&["case", run.id, tier_name(run.tier), &run.seed.to_string(), &case.to_string()]);
    match me(&args).stderr(Stdio::null()).output() {
        Err(e) => (String::new(), Some(format!("could not be started: {e}"))),
        Ok(o) => {
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            match o.status.code() {
                Some(0..=2) => (t, None),
                _ => (t, Some(how(&o.status))),
            }
        }
    }
}

/// Cases 0..cases of one property in parallel workers.
pub fn in_process(run: &mut Run, p: &Prop, cases: u64, seconds: u64) {
    let n = workers();
    let mut slots = Vec::new();
    for w in 0..n {
        let progress = run.dir.join(format!("p{w}")).to_string_lossy().to_string();
        let out = run.dir.join(format!("o{w}")).to_string_lossy().to_string();
        let shared = Shared::open(&progress, 2).ok();
        if let Some(s) = &shared {
            s.set(0, NONE);
        }
        let args = [
            "worker".to_string(),
            p.id.into(),
            tier_name(run.tier).into(),
            run.seed.to_string(),
            w.to_string(),
            n.to_string(),
            cases.to_string(),
            seconds.to_string(),
            progress.clone(),
            out.clone(),
        ];
        match me(&args).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            Ok(child) => slots.push(Slot { child, from: w, progress, out, shared, case: NONE, since: 0.0, done: None }),
            Err(e) => run.harness.push(format!("worker {w} could not be started: {e}")),
        }
    }
    let mut hung: Vec<u64> = Vec::new();
    while slots.iter().any(|s| s.done.is_none()) {
        std::thread::sleep(Duration::from_millis(20));
        let mut stop = false;
        for s in &mut slots {
            if s.done.is_some() {
                continue;
            }
            if let Ok(Some(st)) = s.child.try_wait() {
                stop |= st.code() != Some(0);
                s.done = Some(Some(st));
                continue;
            }
            let case = s.shared.as_ref().map_or(NONE, |x| x.get(0));
            let used = cpu(s.child.id()).unwrap_or(0.0);
            if case != s.case {
                s.case = case;
                s.since = used;
            } else if case != NONE && used - s.since > HANG {
                hung.push(case);
                let _ = s.child.kill();
                let _ = s.child.wait();
                s.done = Some(None);
                stop = true;
            }
        }
        if stop {
            // one is enough; let the others finish their case
            let until = Instant::now() + Duration::from_secs(2);
            while Instant::now() < until && slots.iter_mut().any(|s| s.done.is_none() && matches!(s.child.try_wait(), Ok(None))) {
                std::thread::sleep(Duration::from_millis(20));
            }
            for s in &mut slots {
                if s.done.is_none() {
                    match s.child.try_wait() {
                        Ok(Some(st)) => s.done = Some(Some(st)),
                        _ => {
                            let _ = s.child.kill();
                            let _ = s.child.wait();
                            s.done = Some(None);
                        }
                    }
                }
            }
        }
    }
    for s in &slots {
        if let Ok(t) = std::fs::read_to_string(&s.out) {
            run.merge(&t);
        }
        if let Some(x) = &s.shared {
            run.count("cases completed", x.get(1));
        }
        let Some(Some(st)) = &s.done else { continue };
        if matches!(st.code(), Some(0..=2)) && Path::new(&s.out).exists() {
            continue;
        }
        // the process died: which case, and does it again?
        let case = s.shared.as_ref().map_or(NONE, |x| x.get(0));
        if case == NONE {
            run.harness.push(format!("a worker died outside any case ({})", how(st)));
            continue;
        }
        match alone(run, case) {
            (_, Some(again)) => run.violation(Some(case), format!("the process died while loading ({again})"), &[]),
            (text, None) => {
                run.merge(&text);
                // perhaps it takes the cases before it
                let args = [
                    "worker".to_string(),
                    p.id.into(),
                    tier_name(run.tier).into(),
                    run.seed.to_string(),
                    s.from.to_string(),
                    n.to_string(),
                    (case + 1).to_string(),
                    "600".into(),
                    s.progress.clone(),
                    s.out.clone(),
                ];
                match me(&args).stdout(Stdio::null()).stderr(Stdio::null()).status() {
                    Ok(again) if !matches!(again.code(), Some(0..=2)) => run.violation(
                        Some(case),
                        format!("the process died while loading, after the cases before it ({})", how(&again)),
                        &[],
                    ),
                    _ => run.harness.push(format!("a worker died at case {case} ({}), not reproduced", how(st))),
                }
            }
        }
    }
    for case in hung {
        match alone(run, case) {
            (_, Some(again)) => {
                run.violation(Some(case), format!("no answer within {HANG} s of CPU time, nor alone within 150 s ({again})"), &[])
            }
            (text, None) if text.starts_with("V") => run.merge(&text),
            _ => run.harness.push(format!("case {case} took over {HANG} s of CPU time, but ends")),
        }
    }
}

/// Loading in processes that differ in everything but the text.
fn processes(run: &mut Run) {
    let n: u64 = if run.tier == Tier::Quick { 1500 } else { 40_000 };
    let (seed, n_s) = (run.seed.to_string(), n.to_string());
    let elsewhere = run.dir.join("elsewhere");
    let _ = std::fs::create_dir_all(&elsewhere);
    let names: Vec<String> = crate::dict::dict()
        .strings
        .iter()
        .filter(|s| !s.is_empty() && !s.contains(['=', '\0']) && s.len() < 100 && !s.starts_with("LD_"))
        .cloned()
        .collect();
    let mut variants: Vec<(String, Command)> = Vec::new();
    let digest = |order: u64, log: u64| me(&["digest".to_string(), seed.clone(), n_s.clone(), order.to_string(), log.to_string()]);
    variants.push(("an ordinary process".into(), digest(0, 0)));
    variants.push(("a second process (another hash seed and address layout)".into(), digest(0, 0)));
    variants.push(("a process loading in reverse order".into(), digest(1, 0)));
    variants.push(("a process loading in another order".into(), digest(5, 0)));
    variants.push(("a process with logging on".into(), digest(0, 1)));
    let mut c = digest(0, 0);
    c.env_clear();
    variants.push(("a process with an empty environment".into(), c));
    let mut c = digest(0, 0);
    for k in &names {
        c.env(k, "1");
    }
    for (k, v) in [
        ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_NUMERIC", "de_DE.UTF-8"), ("TZ", "Pacific/Kiritimati"),
        ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("HOME", "/nonexistent"), ("USER", "nobody"), ("DEBUG", "1"), ("STRICT", "1"), ("NO_COLOR", "1"),
    ] {
        c.env(k, v);
    }
    variants.push(("a process with another environment".into(), c));
    let mut c = digest(0, 0);
    for k in &names {
        c.env(k, "0");
        c.env(k.to_uppercase(), "off");
    }
    variants.push(("a process with a third environment".into(), c));
    let mut c = digest(0, 0);
    for (i, k) in names.iter().take(60).enumerate() {
        if !k.contains('/') {
            let _ = std::fs::write(elsewhere.join(k), if i % 2 == 0 { "1" } else { "v 1 2 3\n" });
        }
    }
    for k in ["a.mtl", "m.mtl", "a.png", "material.mtl", "cube.mtl", "default"] {
        let _ = std::fs::write(elsewhere.join(k), "newmtl a\nKd 1 1 1\n");
    }
    c.current_dir(&elsewhere);
    variants.push(("a process in another directory".into(), c));
    let mut c = digest(0, 0);
    c.current_dir("/");
    std::os::unix::process::CommandExt::arg0(&mut c, "other");
    c.env("PWD", "/x");
    variants.push(("a process of another name".into(), c));
    let restrict = |c: &mut Command, what: &'static [(u32, u64)], one: bool| {
        use std::os::unix::process::CommandExt;
        unsafe {
            c.pre_exec(move || {
                for (k, n) in what {
                    let l = libc::rlimit { rlim_cur: *n, rlim_max: *n };
                    libc::setrlimit(*k as _, &l);
                }
                if one {
                    let mut all: libc::cpu_set_t = std::mem::zeroed();
                    libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all);
                    if let Some(k) = (0..1024).rev().find(|k| libc::CPU_ISSET(*k, &all)) {
                        let mut set: libc::cpu_set_t = std::mem::zeroed();
                        libc::CPU_SET(k, &mut set);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                    }
                    libc::nice(3);
                    libc::umask(0o777);
                    libc::setsid();
                    libc::close(0);
                }
                Ok(())
            });
        }
    };
    let mut c = digest(0, 0);
    restrict(&mut c, &[], true);
    variants.push(("a process with one processor and no terminal or input".into(), c));
    let mut c = digest(0, 0);
    restrict(&mut c, &[(libc::RLIMIT_NOFILE as u32, 8), (libc::RLIMIT_NPROC as u32, 0), (libc::RLIMIT_FSIZE as u32, 1 << 30), (libc::RLIMIT_STACK as u32, 2 << 20), (libc::RLIMIT_CORE as u32, 0), (libc::RLIMIT_DATA as u32, 2 << 30)], false);
    variants.push(("a process with small limits".into(), c));
    for (what, years) in [("in 1973", -53), ("in 1999", -27), ("in 2040", 14), ("in 2110", 84), ("in 2290", 264i64)] {
        let mut c = digest(0, 0);
        c.arg((years * 31_556_952).to_string());
        variants.push((format!("a process {what}"), c));
    }
    let mut outs: Vec<(String, Vec<String>)> = Vec::new();
    let mut kids = Vec::new();
    for (i, (name, mut c)) in variants.into_iter().enumerate() {
        let path = run.dir.join(format!("d{i}"));
        let Ok(f) = std::fs::File::create(&path) else { continue };
        match c.stdout(f).stderr(Stdio::null()).spawn() {
            Ok(k) => kids.push((name, k, path)),
            Err(e) => run.harness.push(format!("{name} could not be started: {e}")),
        }
    }
    for (name, mut k, path) in kids {
        match k.wait() {
            Ok(st) if st.success() => {
                let t = std::fs::read_to_string(&path).unwrap_or_default();
                outs.push((name, t.lines().map(String::from).collect()));
            }
            Ok(st) => run.violation(None, format!("{name} died while loading ({})", how(&st)), &[]),
            Err(e) => run.harness.push(format!("{name}: {e}")),
        }
    }
    let Some((_, first)) = outs.first().cloned() else { return };
    if first.len() as u64 != n {
        run.harness.push("incomplete digests".into());
        return;
    }
    for i in 0..n {
        let t = crate::props::process_text(run.seed, i);
        run.seen.insert(crate::src::hash_str(&t));
    }
    for (name, d) in &outs[1..] {
        run.evaluations += n;
        run.count(&format!("results compared with: {name}"), n);
        if let Some(i) = (0..n as usize).find(|i| d.get(*i) != first.get(*i)) {
            let t = crate::props::process_text(run.seed, i as u64);
            run.violation(None, format!("{name} gave another result than an ordinary one"), &[("text", &t)]);
        }
    }
}

pub fn check(id: &str) -> i32 {
    crate::outcome::quiet_panics();
    match id {
        "C03" => return crate::silent::check(),
        "C04" => return crate::cost::check(),
        "C05" => return crate::memory::check(),
        _ => {}
    }
    let Some(p) = find(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let mut run = Run::new(p.id, p.rule);
    let (cases, seconds) = match run.tier {
        Tier::Quick => (p.quick, 45),
        Tier::Thorough => (p.thorough, 600),
    };
    in_process(&mut run, p, cases, seconds);
    if id == "C02" && run.found.is_empty() {
        processes(&mut run);
    }
    run.finish()
}

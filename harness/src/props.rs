//! The properties decided inside one process: generators plus oracles.
use crate::dict::dict;
use crate::gen::*;
use crate::obj::{Exp, O};
use crate::outcome::*;
use crate::report::*;
use crate::src::{hash_str, Src};
use crate::{bad, hostile, mtl, obj, spy};
use mtl::M;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, u64) -> Verdict,
}

pub fn src(ctx: &Ctx, id: &str, case: u64) -> Src<'static> {
    Src::seeded(&[ctx.seed, hash_str(id), case])
}

/// Removes items while the failure stays.
pub fn shrink<T: Clone>(items: &[T], fails: impl Fn(&[T]) -> Option<String>) -> (Vec<T>, String) {
    let mut cur = items.to_vec();
    let mut why = fails(&cur).unwrap_or_else(|| "not reproduced".into());
    let start = Instant::now();
    let mut chunk = (cur.len() / 2).max(1);
    while start.elapsed() < Duration::from_secs(5) {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && start.elapsed() < Duration::from_secs(5) {
            let mut cand = cur.clone();
            cand.drain(i..(i + chunk).min(cand.len()));
            if let Some(w) = fails(&cand) {
                cur = cand;
                why = w;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    (cur, why)
}

fn one(kind: &'static str, text: &str, why: String) -> Violation {
    Violation::of(why, &[(kind, text)])
}

fn count_kinds(ctx: &mut Ctx, p: &[O]) {
    for o in p {
        ctx.count(&format!("statement {}", obj::KIND_NAMES[o.kind()]), 1);
    }
    ctx.max("statements in a text", p.len() as u64);
}

fn load_exp(text: &str) -> Result<Exp, String> {
    load_obj(text).valid().map(|m| obj::observe(&m))
}

/// A program and a seed for its layout (None: plain).
fn render(words: &[Words], lay: Option<u64>) -> String {
    match lay {
        None => plain(words),
        Some(x) => layout(&mut Src::seeded(&[x]), words),
    }
}

/// Generate a program, compare one part of the model with what was written.
fn part_case(
    ctx: &mut Ctx,
    s: &mut Src,
    prof: &obj::Profile,
    part: obj::Part,
    events: impl Fn(&O) -> bool,
    big: bool,
) -> Verdict {
    let p = obj::program(s, prof, big);
    let lay = if s.one_in(3) { Some(s.u64()) } else { None };
    part_check(ctx, &p, lay, part, events)
}

pub fn part_check(
    ctx: &mut Ctx,
    p: &[O],
    lay: Option<u64>,
    part: obj::Part,
    events: impl Fn(&O) -> bool,
) -> Verdict {
    let check = |p: &[O]| -> Option<String> {
        let text = render(&obj::words(p), lay);
        load_exp(&text).and_then(|got| obj::diff(part, &obj::expected(p), &got)).err()
    };
    let n = p.iter().filter(|o| events(o)).count();
    ctx.count("events of this property", n as u64);
    count_kinds(ctx, p);
    ctx.case(&plain(&obj::words(p)), n > 0);
    if check(p).is_some() {
        let (p, why) = shrink(p, check);
        return Err(one("obj", &render(&obj::words(&p), lay), why));
    }
    Ok(())
}

fn probe(ctx: &mut Ctx, text: &str, what: &str, ok: impl Fn(&Exp) -> bool) -> Verdict {
    ctx.case(text, true);
    ctx.count("fixed probes", 1);
    match load_exp(text) {
        Err(e) => Err(one("obj", text, format!("{what}: {e}"))),
        Ok(e) if guarded(|| ok(&e)).unwrap_or(false) => Ok(()),
        Ok(e) => Err(one("obj", text, clip(&format!("{what}: loaded {e:?}")))),
    }
}

fn probe_mtl(ctx: &mut Ctx, text: &str, what: &str, ok: impl Fn(&[nobject_rs::Material]) -> bool) -> Verdict {
    ctx.case(text, true);
    ctx.count("fixed probes", 1);
    match load_mtl(text).valid() {
        Err(e) => Err(one("mtl", text, format!("{what}: {e}"))),
        Ok(m) if guarded(|| ok(&m)).unwrap_or(false) => Ok(()),
        Ok(m) => Err(one("mtl", text, clip(&format!("{what}: loaded {m:?}")))),
    }
}

fn rejected<T>(ctx: &mut Ctx, kind: &'static str, text: &str, what: &str, o: Outcome<T>, want: &[&str]) -> Verdict {
    ctx.case(text, true);
    match o {
        Outcome::Err { kind: k, .. } if want.contains(&k) => Ok(()),
        Outcome::Err { kind: k, msg } => {
            Err(one(kind, text, format!("{what}: rejected, but with a {k} error ({})", clip(&msg))))
        }
        Outcome::Ok(_) => Err(one(kind, text, format!("{what}: accepted"))),
        Outcome::Panic(p) => Err(one(kind, text, format!("{what}: panicked: {}", clip(&p)))),
    }
}

// ------------------------------------------------------------------- C01

/// Everything a caller can do with the outcome of a load.
pub fn survive(text: &str) -> Result<&'static str, String> {
    guarded(|| {
        match nobject_rs::load_obj(text) {
            Ok(m) => {
                let c = m.clone();
                let _ = format!("{c:?}");
                let same = c.vertices == m.vertices && c.faces == m.faces && c.groups == m.groups;
                drop(m);
                drop(c);
                if same {
                    "obj ok"
                } else {
                    "obj ok (NaN)"
                }
            }
            Err(e) => {
                let _ = format!("{e} {e:?} {:?}", std::error::Error::source(&e).map(|s| s.to_string()));
                "obj error"
            }
        }
    })
    .map_err(|p| format!("load_obj: {p}"))?;
    guarded(|| match nobject_rs::load_mtl(text) {
        Ok(m) => {
            let c = m.clone();
            let _ = format!("{c:?} {}", c == m);
            "ok"
        }
        Err(e) => {
            let _ = format!("{e} {e:?} {:?}", std::error::Error::source(&e).map(|s| s.to_string()));
            "error"
        }
    })
    .map_err(|p| format!("load_mtl: {p}"))
}

/// As in a thread of a program that gives its threads half the usual stack.
fn on_small_stack(f: impl FnOnce() -> Verdict + Send) -> Verdict {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, f).expect("a thread");
        h.join().expect("the panic of a load is caught")
    })
}

fn answer(ctx: &mut Ctx, label: &str, text: &str) -> Verdict {
    ctx.case(text, !text.trim().is_empty());
    ctx.count(&format!("texts: {label}"), 1);
    ctx.max("bytes in a text", text.len() as u64);
    match survive(text) {
        Ok(r) => {
            ctx.count(&format!("mtl outcomes: {r}"), 1);
            Ok(())
        }
        Err(_) => {
            let chars: Vec<char> = text.chars().collect();
            let f = |c: &[char]| survive(&c.iter().collect::<String>()).err();
            let (c, why) = if chars.len() < 20000 {
                shrink(&chars, f)
            } else {
                (chars.clone(), f(&chars).unwrap_or_default())
            };
            let t: String = c.into_iter().collect();
            Err(one("text", &t, format!("no answer: {}", clip(&why))))
        }
    }
}

const ENUM_BLOCK: u64 = 2000;
const C01_PROBES: &[&str] = &[
    "newmtl a\n\u{212A}a 1 1 1\n",
    "newmtl a\nmap_\u{212A}d x\n",
    "v 99999999999 1 1",
    "f 99999999999 -99999999999 1",
    "",
    "\u{FEFF}v 1 2 3",
    "v 1e99999999999999999999 1 1",
];

fn c01(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        for t in C01_PROBES {
            ctx.count("fixed probes", 1);
            answer(ctx, "probe", t)?;
        }
        return Ok(());
    }
    logging(case % 2 == 0);
    // exhaustive blocks first: all short texts over a small alphabet
    let l = hostile::LETTERS.len() as u64;
    let f = hostile::FRAGMENTS.len() as u64;
    let (llen, flen) = if ctx.tier == Tier::Quick { (4u32, 2u32) } else { (6, 3) };
    let mut k = case - 1;
    for (n, len, frag) in [(l.pow(llen), llen, false), (f.pow(flen), flen, true)] {
        let blocks = n.div_ceil(ENUM_BLOCK);
        if k < blocks {
            for i in k * ENUM_BLOCK..((k + 1) * ENUM_BLOCK).min(n) {
                let t = if frag {
                    hostile::nth_fragments(i, len as usize)
                } else {
                    hostile::nth_letters(i, len as usize)
                };
                answer(ctx, if frag { "enumerated fragments" } else { "enumerated letters" }, &t)?;
            }
            return Ok(());
        }
        k -= blocks;
    }
    let blocks = hostile::wide_size().div_ceil(ENUM_BLOCK);
    if k < blocks {
        for i in k * ENUM_BLOCK..((k + 1) * ENUM_BLOCK).min(hostile::wide_size()) {
            answer(ctx, "wide characters at every byte of every argument", &hostile::nth_wide(i))?;
        }
        return Ok(());
    }
    k -= blocks;
    let blocks = bad::table_size().div_ceil(ENUM_BLOCK);
    if k < blocks {
        for i in k * ENUM_BLOCK..((k + 1) * ENUM_BLOCK).min(bad::table_size()) {
            answer(ctx, "statements of the tables", &bad::table_text(i))?;
        }
        return Ok(());
    }
    k -= blocks;
    if k < hostile::long_size() {
        logging(true);
        let t = hostile::nth_long(k);
        return on_small_stack(|| answer(ctx, "one fragment 66000 times", &t));
    }
    let mut s = src(ctx, "C01", case);
    if s.one_in(500) {
        let max = if ctx.tier == Tier::Quick { 60_000 } else { 300_000 };
        let t = hostile::long(&mut s, max);
        return on_small_stack(|| answer(ctx, "very long", &t));
    }
    let (label, t) = hostile::text(&mut s);
    answer(ctx, label, &t)
}

// ------------------------------------------------------------------- C02

fn digests(text: &str) -> (String, String) {
    (digest_obj(text), digest_mtl(text))
}

fn digits_changed(s: &mut Src, text: &str) -> String {
    text.chars().map(|c| if c.is_ascii_digit() && s.one_in(3) { (b'0' + s.below(10) as u8) as char } else { c }).collect()
}

/// A long life: every kind of statement is loaded more often than 16 bits
/// count in one process, and every load is compared with the first of its text.
fn c02_aged(ctx: &mut Ctx, s: &mut Src) -> Verdict {
    const TIMES: u64 = 70_000;
    let mut loads = 0;
    let mut told = |ctx: &mut Ctx, text: &str, first: &String, d: String| -> Verdict {
        loads += 1;
        if d != *first {
            let i = d.bytes().zip(first.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |t: &str| clip(&String::from_utf8_lossy(&t.as_bytes()[i.saturating_sub(40)..]));
            ctx.count("loads in a long life", loads);
            return Err(Violation::of(format!("load {loads} of a long life gave another result than the first load of the same text: {} / {}", cut(&d), cut(first)), &[("text", text)]));
        }
        Ok(())
    };
    let mut prof = obj::Profile::mixed();
    prof.weights = [1; obj::KINDS];
    for k in [4, 7, 8] {
        prof.weights[k] = 3;
    }
    prof.max_len = 300;
    // short statements, to load many
    let lean = |t: &str| t.len() * 100 / t.lines().count().max(1);
    let mut objs: Vec<(String, [u64; obj::KINDS])> = (0..1500)
        .filter_map(|_| {
            let p = obj::program(s, &prof, false);
            let mut n = [0; obj::KINDS];
            p.iter().for_each(|o| n[o.kind()] += 1);
            (p.len() > 100).then(|| (plain(&obj::words(&p)), n))
        })
        .collect();
    objs.sort_by_key(|o| lean(&o.0));
    let objs: Vec<(String, String, [u64; obj::KINDS])> = objs.into_iter().take(32).map(|(t, n)| (t.clone(), digest_obj(&t), n)).collect();
    let mut seen = [0u64; obj::KINDS];
    while seen.iter().any(|n| *n < TIMES) {
        let before = seen;
        for (t, d, n) in &objs {
            told(ctx, t, d, digest_obj(t))?;
            (0..obj::KINDS).for_each(|k| seen[k] += n[k]);
        }
        if before == seen {
            break;
        }
    }
    ctx.count("least times any OBJ statement was loaded in one process", *seen.iter().min().unwrap_or(&0));
    let mut prof = mtl::Profile::mixed();
    prof.max_len = 300;
    let mut mtls: Vec<(String, u64)> = (0..1500)
        .filter_map(|_| {
            let p = mtl::program(s, &prof, false);
            (p.len() > 100).then(|| (plain(&mtl::words(&p)), p.len() as u64))
        })
        .collect();
    mtls.sort_by_key(|o| lean(&o.0));
    let mtls: Vec<(String, String, u64)> = mtls.into_iter().take(32).map(|(t, n)| (t.clone(), digest_mtl(&t), n)).collect();
    // the rarest of 22 kinds is one in 30 statements
    let mut seen = 0;
    while seen < TIMES * 30 && mtls.iter().any(|m| m.2 > 0) {
        for (t, d, n) in &mtls {
            told(ctx, t, d, digest_mtl(t))?;
            seen += n;
        }
    }
    ctx.count("MTL statements loaded in a long life", seen);
    // as many loads, of short texts of all outcomes
    let short: Vec<(String, String, String)> = (0..20)
        .map(|i| {
            let t = match i {
                0 => String::new(),
                1 => "v 1 2".into(),
                2 => "f 1 2 x".into(),
                3 => "newmtl a\nKd 1 1".into(),
                _ => hostile::soup(s),
            };
            let d = digests(&t);
            (t, d.0, d.1)
        })
        .filter(|x| x.0.len() < 300)
        .collect();
    let times = crate::dict::dict().big.iter().copied().max().unwrap_or(0).clamp(TIMES as usize, 250_000);
    for (t, a, b) in short.iter().cycle().take(times) {
        told(ctx, t, a, digest_obj(t))?;
        told(ctx, t, b, digest_mtl(t))?;
    }
    ctx.count("loads in a long life", loads);
    ctx.case(&"a long life", true);
    Ok(())
}

/// Statements of the tables, alone and again under other circumstances.
fn c02_table(ctx: &mut Ctx, from: u64) -> Verdict {
    let texts: Vec<String> = (from..(from + ENUM_BLOCK).min(bad::table_size())).map(bad::table_text).collect();
    logging(false);
    let first: Vec<_> = texts.iter().map(|t| digests(t)).collect();
    ctx.count("statements of the tables", texts.len() as u64);
    for (i, t) in texts.iter().enumerate().rev() {
        ctx.case(t, true);
        logging(i % 2 == 0);
        let d = if i % 3 == 0 { spy::watched(None, 1000, || digests(t)) } else { digests(t) };
        ctx.count("loads compared", 4);
        if d != first[i] {
            logging(false);
            return Err(Violation::of(format!("loading again gave another result: {} / {}", clip(&format!("{:?}", first[i])), clip(&format!("{d:?}"))), &[("text", t)]));
        }
    }
    logging(false);
    Ok(())
}

fn c02(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C02", case);
    if case == 3 {
        return c02_aged(ctx, &mut s);
    }
    let tables = 100;
    if case >= tables && case < tables + bad::table_size().div_ceil(ENUM_BLOCK) {
        return c02_table(ctx, (case - tables) * ENUM_BLOCK);
    }
    let giant = case % 200 == 57;
    let gen = |s: &mut Src| match s.below(4) {
        _ if giant && s.one_in(4) => hostile::giant_text(s),
        0 | 1 => hostile::program_text(s),
        2 => {
            let t = hostile::program_text(s);
            hostile::mutate(s, &t)
        }
        _ => hostile::soup(s),
    };
    let text = if giant { hostile::giant_text(&mut s) } else { gen(&mut s) };
    ctx.case(&text, text.len() > 2);
    let first = digests(&text);
    ctx.count("loads compared", 2);
    if giant {
        ctx.count("texts of more than 30000 statements", 1);
    }
    let differ = |how: &str, d: &(String, String)| -> Violation {
        let (a, b) = if first.0 != d.0 { (&first.0, &d.0) } else { (&first.1, &d.1) };
        let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
        let cut = |t: &String| {
            let mut i = i.saturating_sub(40);
            while !t.is_char_boundary(i) {
                i -= 1;
            }
            clip(&t[i..])
        };
        Violation::of(format!("{how} gave another result: {} / {}", cut(a), cut(b)), &[("text", &text)])
    };
    // histories: related and unrelated texts, failing ones, the same one
    let n = if giant { 2 } else if s.one_in(30) { s.range(50, 400) } else { s.range(0, 8) };
    for _ in 0..n {
        let t = match s.below(5) {
            0 => text.clone(),
            1 => hostile::mutate(&mut s, &text),
            2 => hostile::twisted(&mut s, &text),
            _ => gen(&mut s),
        };
        let _ = digests(&t);
        ctx.count("loads in between", 2);
    }
    let d = digests(&text);
    ctx.count("loads compared", 2);
    if d != first {
        return Err(differ("loading again after other loads", &d));
    }
    // another address, alignment and surroundings in memory
    for pad in [1usize, 3, 7] {
        let buf = format!("{}{}{}", "v 9 9 9 "[..pad].to_owned(), text, " 7/7/7\nfoo");
        let d = digests(&buf[pad..pad + text.len()]);
        ctx.count("loads compared", 2);
        if d != first {
            return Err(differ("loading a copy elsewhere in memory", &d));
        }
    }
    // another text of the same length in the same place
    if text.len() < 100_000 {
        let other = match s.below(3) {
            0 => hostile::twisted(&mut s, &text),
            1 => digits_changed(&mut s, &text),
            _ => text.chars().rev().collect(),
        };
        if other.len() == text.len() {
            let alone = digests(&other);
            let mut buf = text.clone();
            let a = digests(&buf);
            buf.clear();
            buf.push_str(&other);
            let b = digests(&buf);
            buf.clear();
            buf.push_str(&text);
            let c = digests(&buf);
            ctx.count("loads compared", 8);
            ctx.count("texts replaced in place", 2);
            if a != first || c != first {
                return Err(differ("loading from a buffer that held another text", &if a != first { a } else { c }));
            }
            if b != alone {
                return Err(Violation::of("a text loaded from a buffer that held another text gave another result than on its own", &[("text", &other), ("text-before", &text)]));
            }
        }
    }
    use log::LevelFilter::*;
    let level = s.pick(&[Error, Warn, Info, Debug]);
    for (level, deaf) in [(Trace, false), (*level, false), (Trace, true), (Off, false)] {
        log_level(level, deaf);
        let d = digests(&text);
        ctx.count("loads compared", 2);
        if d != first {
            log_level(Off, false);
            return Err(differ(&format!("loading with logging at {level}, the logger {}", if deaf { "disabled" } else { "enabled" }), &d));
        }
    }
    // what the process could tell the library besides the text
    if case < 64 {
        let control = spy::watched(Some("x"), 1000, || {
            let t = Instant::now();
            (std::env::var("MONITOR_CONTROL"), t.elapsed().as_secs() > 900)
        });
        assert_eq!(control, (Ok("x".to_string()), true), "environment and clock are not under watch");
        let n = spy::one_processor(|| std::thread::available_parallelism().map_or(0, |n| n.get()));
        assert_eq!(n, 1, "processors are not under watch");
        spy::forget();
    }
    for (k, leap) in [0, 1, 100_000].into_iter().enumerate() {
        // anywhere from 1969 to 2300, at any time of the day and day of the week
        spy::turn_clocks([0, s.u64() as i64 % 8_700_000_000, -(s.u64() as i64).abs() % 1_800_000_000][(k + case as usize) % 3]);
        let d = spy::watched(None, leap, || digests(&text));
        spy::turn_clocks(0);
        ctx.count("loads under watch for environment and clock", 2);
        if d != first {
            return Err(differ(&format!("loading while the clocks move {leap} seconds at each look"), &d));
        }
    }
    let d = spy::one_processor(|| digests(&text));
    ctx.count("loads with one processor", 2);
    if d != first {
        return Err(differ("loading in a process that may use one processor only", &d));
    }
    ctx.count("clock reads seen", spy::CLOCK_READS.swap(0, std::sync::atomic::Ordering::Relaxed));
    ctx.count("environment reads seen", spy::ENV_READS.swap(0, std::sync::atomic::Ordering::Relaxed));
    let asked = spy::asked_for();
    if !asked.is_empty() {
        let values = ["", "0", "1", "2", "-1", "on", "off", "true", "false", "strict", "debug", "C", "de_DE.UTF-8", "1.5", "a"];
        for v in values.into_iter().chain(crate::dict::dict().strings.iter().map(|s| s.as_str())) {
            let d = spy::watched(Some(v), 0, || digests(&text));
            ctx.count("loads with another value of a variable that loading asks for", 2);
            if d != first {
                return Err(differ(&format!("loading with the variables {asked:?} set to {v:?}"), &d));
            }
        }
    }
    // threads: the same text and others at once
    if case % 4 == 0 {
        let n = s.range(2, 6);
        let texts: Vec<String> = (0..n).map(|i| if i % 2 == 0 { text.clone() } else { gen(&mut s) }).collect();
        let alone: Vec<_> = texts.iter().map(|t| digests(t)).collect();
        let rounds = 4;
        let barrier = std::sync::Barrier::new(n);
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let (texts, alone, barrier) = (&texts, &alone, &barrier);
                    sc.spawn(move || {
                        let mut bad = None;
                        barrier.wait();
                        for r in 0..rounds {
                            let k = (i + r) % texts.len();
                            if digests(&texts[k]) != alone[k] {
                                bad = Some(k);
                            }
                        }
                        bad
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap_or(Some(0))).next()
        });
        ctx.count("loads in concurrent threads", (n * rounds * 2) as u64);
        if let Some(k) = bad {
            return Err(Violation::of(
                "loading in several threads at once gave another result than loading alone",
                &[("text", &texts[k])],
            ));
        }
    }
    Ok(())
}

/// One line per text, for the comparison between processes.
pub fn digest_lines(seed: u64, n: u64, order: u64) -> Vec<u64> {
    let mut out = vec![0; n as usize];
    let idx: Vec<u64> = match order {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        k => (0..n).map(|i| (i * 7919 + k) % n).collect(),
    };
    for i in idx {
        let t = process_text(seed, i);
        let d = digests(&t);
        out[i as usize] = hash_str(&format!("{} {}", d.0, d.1));
    }
    out
}
pub fn process_text(seed: u64, i: u64) -> String {
    let mut s = Src::seeded(&[seed, 0xC02, i]);
    match s.below(3) {
        0 => hostile::text(&mut s).1,
        _ => hostile::program_text(&mut s),
    }
}

// ------------------------------------------------------------------- C06

const TABLE_BLOCK: u64 = 500;

fn c06_table(ctx: &mut Ctx, from: u64) -> Verdict {
    for i in from..(from + TABLE_BLOCK).min(bad::table_size()) {
        let (is_mtl, key, a) = bad::table(i);
        let Some(good) = bad::well_formed(key, &a) else {
            ctx.count("statements of the tables that are not settled", 1);
            continue;
        };
        let line = [&[key][..], &a].concat().join(" ");
        let (before, after) = match (is_mtl, i % 4) {
            (true, 1) => ("newmtl m\n", "\nnewmtl b\nNs 1"),
            (true, _) => ("newmtl m\n", "\n"),
            (false, 1) => ("v 1 2 3\n", "\nv 4 5 6"),
            (false, 2) => ("g q\n", ""),
            (false, _) => ("", "\n"),
        };
        let text = format!("{before}{line}{after}");
        let (got, bad): (_, &[&str]) = if is_mtl {
            (load_mtl(&text).label(), &["material", "newmaterial"])
        } else {
            (load_obj(&text).label(), &["model"])
        };
        ctx.count(if good { "well formed statements of the tables" } else { "malformed statements of the tables" }, 1);
        ctx.case(&text, true);
        if if good { got != "ok" } else { !bad.contains(&got) } {
            let what = if good { "well formed" } else { "malformed" };
            return Err(one(if is_mtl { "mtl" } else { "obj" }, &text, format!("a text with a {what} statement ({line}) gives {got}")));
        }
        // a statement of no material cannot be accounted for
        if is_mtl && good && key != "newmtl" {
            let text = format!("{line}\n{}", ["", "newmtl b\n", "newmtl b\nNs 1\n"][(i % 3) as usize]);
            ctx.count("well formed statements of no material", 1);
            rejected(ctx, "mtl", &text, "a statement of no material", load_mtl(&text), &["newmaterial"])?;
        }
    }
    Ok(())
}

fn c06(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        for (mtl, t) in bad::PROBES {
            ctx.count("fixed probes", 1);
            if *mtl {
                rejected(ctx, "mtl", t, "a bad text", load_mtl(t), &["material", "newmaterial"])?;
            } else {
                rejected(ctx, "obj", t, "a bad text", load_obj(t), &["model"])?;
            }
        }
        return Ok(());
    }
    // every statement with every short sequence of arguments
    let blocks = bad::table_size().div_ceil(TABLE_BLOCK);
    if case <= blocks {
        return c06_table(ctx, (case - 1) * TABLE_BLOCK);
    }
    let mut s = src(ctx, "C06", case);
    let is_mtl = s.flip();
    // the valid text itself must be accepted, with every statement accounted for
    let mut words;
    let lay = if s.one_in(3) { Some(s.u64()) } else { None };
    let mut prof = obj::Profile::mixed();
    prof.max_len = 14;
    if is_mtl {
        let mut mp = mtl::Profile::mixed();
        mp.max_len = 14;
        let p = mtl::program(&mut s, &mp, case % 50 == 0);
        words = mtl::words(&p);
        let text = render(&words, lay);
        ctx.case(&text, true);
        ctx.count("valid texts", 1);
        let news = p.iter().filter(|m| matches!(m, M::New(_))).count();
        match load_mtl(&text).valid() {
            Err(e) => return Err(one("mtl", &text, e)),
            Ok(m) if m.len() != news => {
                return Err(one("mtl", &text, format!("{news} newmtl statements, {} materials", m.len())))
            }
            Ok(m) => {
                let props: Vec<usize> =
                    mtl::expected(&p).iter().map(|m| m.props.iter().filter(|p| p.is_some()).count()).collect();
                let got: Vec<usize> = m.iter().map(|m| mtl::present(m).iter().filter(|p| **p).count()).collect();
                if props != got {
                    return Err(one("mtl", &text, clip(&format!("properties written per material {props:?}, loaded {got:?}"))));
                }
            }
        }
    } else {
        let p = obj::program(&mut s, &prof, case % 50 == 0);
        words = obj::words(&p);
        let text = render(&words, lay);
        ctx.case(&text, !p.is_empty());
        ctx.count("valid texts", 1);
        match load_exp(&text) {
            Err(e) => return Err(one("obj", &text, e)),
            Ok(got) => {
                let want = obj::expected(&p);
                let tally = |e: &Exp| {
                    [
                        e.v.len(),
                        e.vn.len(),
                        e.vt.len(),
                        e.faces.values().map(Vec::len).sum(),
                        e.lines.values().map(Vec::len).sum(),
                        e.points.values().map(Vec::len).sum(),
                        e.mtllibs.len(),
                        e.maplibs.len(),
                    ]
                };
                if tally(&want) != tally(&got) {
                    return Err(one(
                        "obj",
                        &text,
                        format!(
                            "[v, vn, vt, faces, lines, points, mtllibs, maplibs] written {:?}, loaded {:?}",
                            tally(&want),
                            tally(&got)
                        ),
                    ));
                }
            }
        }
    }
    // one bad statement at some position
    for _ in 0..4 {
        let (label, b) = if is_mtl { bad::mtl_line(&mut s) } else { bad::obj_line(&mut s) };
        let at = match s.below(4) {
            0 => words.len(),
            1 => 0,
            _ => s.below(words.len() + 1),
        };
        let before = if at == 0 { "start".to_string() } else { words[at - 1].key.clone() };
        words.insert(at, b);
        let check = |w: &[Words]| -> Option<String> {
            let text = render(w, lay);
            let (got, want): (_, &[&str]) = if is_mtl {
                (load_mtl(&text).label(), &["material", "newmaterial"])
            } else {
                (load_obj(&text).label(), &["model"])
            };
            if want.contains(&got) {
                None
            } else {
                Some(format!("a text with a bad statement ({label}) gives {got}"))
            }
        };
        let text = render(&words, lay);
        ctx.case(&text, true);
        ctx.count("texts with a bad statement", 1);
        ctx.count(&format!("bad: {label}"), 1);
        ctx.seen.insert(hash_str(&format!("state {label} after {before}")));
        if check(&words).is_some() {
            // shrink everything but the bad line itself
            let badline = words[at].clone();
            let (w, why) = shrink(&words, |w| if w.contains(&badline) { check(w) } else { None });
            return Err(one(if is_mtl { "mtl" } else { "obj" }, &render(&w, lay), why));
        }
        words.remove(at);
    }
    Ok(())
}

// ------------------------------------------------------ C07, C09 to C13

fn vertex_event(o: &O) -> bool {
    matches!(o, O::V(_) | O::Vn(_) | O::Vt(_))
}

fn c07(ctx: &mut Ctx, case: u64) -> Verdict {
    static GRID: std::sync::OnceLock<Vec<O>> = std::sync::OnceLock::new();
    let all = GRID.get_or_init(|| {
        let g = |n| crate::gen::grid(n, if n < 4 { 12 } else { 8 });
        let v = g(4).into_iter().chain(g(3)).map(O::V);
        v.chain(g(3).into_iter().map(O::Vn)).chain((1..4).flat_map(|n| g(n).into_iter().map(O::Vt))).collect()
    });
    if case > 0 {
        if let Some(some) = all.chunks(200).nth(case as usize - 1) {
            ctx.count("statements of plain numbers, all there are", some.len() as u64);
            return part_check(ctx, some, None, obj::Part::Vertices, vertex_event);
        }
    }
    let mut s = src(ctx, "C07", case);
    let prof = match s.below(3) {
        0 => obj::Profile::of(&[("v", 5), ("vn", 3), ("vt", 4)]),
        1 => obj::Profile::of(&[("v", 8), ("vn", 6), ("vt", 8), ("vp", 3), ("f", 3), ("g", 2), ("o", 2), ("s", 1), ("usemtl", 1)]),
        _ => obj::Profile::mixed(),
    };
    if s.one_in(600) {
        // a long run of one kind; alternating kinds
        let n = if ctx.tier == Tier::Quick { s.range(3000, 12000) } else { s.range(3000, 40000) };
        let kinds: Vec<usize> = if s.flip() { vec![s.below(3)] } else { vec![0, 1, 2, 3] };
        let pools = obj::pools(&mut s);
        let mut id = 0;
        let p: Vec<O> = (0..n).map(|i| obj::statement(&mut s, kinds[i % kinds.len()], &prof, &pools, &mut id)).collect();
        return part_check(ctx, &p, None, obj::Part::Vertices, vertex_event);
    }
    part_case(ctx, &mut s, &prof, obj::Part::Vertices, vertex_event, case % 8 == 0)
}

fn c09(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        let el = |e: &Exp| e.faces.get("default").map(|f| f.iter().map(|f| f.0.clone()).collect::<Vec<_>>());
        probe(ctx, "f 1/ 2 3\n", "a trailing slash", |e| {
            el(e) == Some(vec![vec![(1, None, None), (2, None, None), (3, None, None)]])
        })?;
        probe(ctx, "f 1/2/ 3// 4//5\nl 1/ 2/3\n", "trailing slashes", |e| {
            el(e) == Some(vec![vec![(1, Some(2), None), (3, None, None), (4, None, Some(5))]])
                && e.lines["default"] == vec![vec![(1, None), (2, Some(3))]]
        })?;
        probe(ctx, "v 0 0 0\nv 1 0 0\nf -1 -2 1\nv 2 0 0\nf -1 -2 -3\nf -4 1 2\n", "relative references", |e| {
            let v = |a, b, c| vec![(a, None, None), (b, None, None), (c, None, None)];
            el(e) == Some(vec![v(2, 1, 1), v(3, 2, 1), v(-4, 1, 2)])
        })?;
        return Ok(());
    }
    if case <= 2 && !cfg!(miri) {
        // relative references behind more vertex data than 16 bits count
        let n = if case == 1 { 66_000 } else { crate::dict::dict().big.iter().copied().max().unwrap_or(33_000).clamp(33_000, 250_000) as i32 + 10 };
        let one = |k: i32| IntLit { text: k.to_string(), val: k };
        let all = |k: i32| obj::Ref { v: one(k), t: Some(one(k)), n: Some(one(k)), tail: 0 };
        let pair = |k: i32| obj::Ref { n: None, ..all(k) };
        let num = |i: i32| Num { text: i.to_string(), val: i as f32 };
        let mut p = Vec::new();
        for i in 1..=n {
            p.push(O::V(vec![num(i), num(1), num(2)]));
            p.push(O::Vn(vec![num(i), num(1), num(2)]));
            p.push(O::Vt(vec![num(i)]));
            let b = [1, 2, i / 2, i - 1, i, i + 1, 256, 32_768, 65_536].map(|k| -k.max(1));
            if i % 997 == 0 || i == n || [255, 256, 257, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537].contains(&i) {
                p.push(O::F(b.map(all).to_vec()));
                p.push(O::L(b.map(pair).to_vec()));
                p.push(O::P(b.map(one).to_vec()));
            }
        }
        ctx.count("elements with relative references far into a file", p.len() as u64 - 3 * n as u64);
        return part_check(ctx, &p, None, obj::Part::References, |o| matches!(o, O::F(_)));
    }
    let mut s = src(ctx, "C09", case);
    let mut prof = match s.below(3) {
        0 => obj::Profile::of(&[("f", 5), ("l", 3), ("p", 3)]),
        1 => obj::Profile::of(&[("v", 6), ("vt", 5), ("vn", 5), ("f", 6), ("l", 4), ("p", 3), ("vp", 1)]),
        _ => obj::Profile::mixed(),
    };
    prof.relative = s.flip();
    let big = case % 8 == 0;
    if s.one_in(400) {
        let n = if ctx.tier == Tier::Quick { s.range(2000, 9000) } else { s.range(2000, 40000) };
        let form = s.below(5);
        let mut r = Vec::new();
        for _ in 0..n {
            let f = if form == 4 { s.below(4) } else { form };
            r.push(obj::Ref {
                v: int_lit(&mut s, false),
                t: if f & 1 == 1 { Some(int_lit(&mut s, false)) } else { None },
                n: if f & 2 == 2 { Some(int_lit(&mut s, false)) } else { None },
                tail: 0,
            });
        }
        return part_check(ctx, &[O::F(r)], None, obj::Part::References, |_| true);
    }
    part_case(ctx, &mut s, &prof, obj::Part::References, |o| matches!(o, O::F(_) | O::L(_) | O::P(_)), big)
}

fn c10(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        let keys = |e: &Exp| e.groups.keys().cloned().collect::<Vec<_>>().join(",");
        probe(ctx, "g a b\nf 1 2 3\ng\np 7\n", "several names, then none", |e| {
            keys(e) == "a,b,default" && e.faces.len() == 2 && e.faces["a"] == e.faces["b"] && e.points["default"] == vec![vec![7]]
        })?;
        probe(ctx, "g a a\np 1\n", "a name twice", |e| e.points["a"] == vec![vec![1]])?;
        probe(ctx, "p 1\ng a\np 2\ng", "a bare g at the end", |e| {
            e.points["default"] == vec![vec![1]] && e.points["a"] == vec![vec![2]]
        })?;
        return Ok(());
    }
    let mut s = src(ctx, "C10", case);
    let mut prof = match s.below(3) {
        0 => obj::Profile::of(&[("g", 3), ("f", 4), ("l", 2), ("p", 2)]),
        1 => obj::Profile::of(&[("g", 5), ("f", 5), ("l", 4), ("p", 4), ("usemtl", 2), ("s", 2), ("o", 2), ("v", 1), ("mtllib", 1), ("usemap", 1), ("lod", 1)]),
        _ => obj::Profile::mixed(),
    };
    prof.unique = true;
    prof.relative = false;
    prof.weights[7] = prof.weights[7].max(3);
    part_case(
        ctx,
        &mut s,
        &prof,
        obj::Part::Filing,
        |o| matches!(o, O::F(_) | O::L(_) | O::P(_) | O::G(_)),
        case % 8 == 0,
    )
}

fn c11(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C11", case);
    let prof = match s.below(3) {
        0 => obj::Profile::of(&[("s", 3), ("f", 5)]),
        1 => obj::Profile::of(&[("s", 4), ("f", 6), ("g", 3), ("usemtl", 2), ("o", 1), ("l", 1), ("p", 1), ("v", 1), ("lod", 1)]),
        _ => obj::Profile::mixed(),
    };
    part_case(ctx, &mut s, &prof, obj::Part::Smoothing, |o| matches!(o, O::F(_) | O::S(_)), case % 8 == 0)
}

fn attr_event(o: &O) -> bool {
    matches!(o, O::UseMtl(_) | O::UseMap(_) | O::Bevel(_) | O::CInterp(_) | O::DInterp(_) | O::Lod(_))
}

fn c12(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        probe(ctx, "g a\nusemtl m\nlod 7\nbevel on\ng b\ng a\np 1\n", "a group entered again", |e| {
            let a = &e.groups["a"];
            a.material == "m" && a.lod == 7 && a.bevel
        })?;
        probe(ctx, "bevel on\nc_interp ON\nd_interp On\nlod 255\nusemap t.png\n", "display attributes", |e| {
            let a = &e.groups["default"];
            a.bevel && a.c_interp && a.d_interp && a.lod == 255 && a.map.as_deref() == Some("t.png")
        })?;
        probe(ctx, "usemap t.png\nusemap off\n", "usemap off", |e| e.groups["default"].map.is_none())?;
        return Ok(());
    }
    let mut s = src(ctx, "C12", case);
    let prof = match s.below(3) {
        0 => obj::Profile::of(&[("g", 8), ("usemtl", 4), ("usemap", 4), ("bevel", 3), ("c_interp", 3), ("d_interp", 3), ("lod", 3)]),
        1 => obj::Profile::of(&[("g", 6), ("usemtl", 4), ("usemap", 3), ("bevel", 2), ("c_interp", 2), ("d_interp", 2), ("lod", 2), ("f", 3), ("s", 1), ("o", 1), ("mtllib", 1), ("maplib", 1), ("p", 1)]),
        _ => {
            let mut p = obj::Profile::mixed();
            p.weights[0] = 2;
            p
        }
    };
    part_case(ctx, &mut s, &prof, obj::Part::Attributes, attr_event, case % 8 == 0)
}

fn c13(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        probe(ctx, "mtllib a.mtl b.mtl\nmaplib x y\nmtllib a.mtl\nshadow_obj s 1.obj\ntrace_obj t.obj\nshadow_obj s2\n", "libraries", |e| {
            e.mtllibs == ["a.mtl", "b.mtl", "a.mtl"]
                && e.maplibs == ["x", "y"]
                && e.shadow.as_deref() == Some("s2")
                && e.trace.as_deref() == Some("t.obj")
        })?;
        return Ok(());
    }
    let mut s = src(ctx, "C13", case);
    let prof = match s.below(3) {
        0 => obj::Profile::of(&[("mtllib", 4), ("maplib", 4), ("shadow_obj", 2), ("trace_obj", 2)]),
        1 => obj::Profile::of(&[("mtllib", 4), ("maplib", 4), ("shadow_obj", 2), ("trace_obj", 2), ("usemtl", 3), ("usemap", 3), ("g", 2), ("f", 2), ("o", 2), ("v", 1)]),
        _ => {
            let mut p = obj::Profile::mixed();
            for k in 12..16 {
                p.weights[k] = 4;
            }
            p
        }
    };
    part_case(
        ctx,
        &mut s,
        &prof,
        obj::Part::Libraries,
        |o| matches!(o, O::MtlLib(_) | O::MapLib(_) | O::Shadow(_) | O::Trace(_)),
        case % 8 == 0,
    )
}

// ------------------------------------------------------------------- C08

static SPELLINGS: std::sync::OnceLock<Vec<Num>> = std::sync::OnceLock::new();

fn hard(s: &mut Src) -> Num {
    if s.one_in(4) {
        num(s)
    } else {
        hard_num(s)
    }
}

fn c08(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        for (t, v) in [
            ("1e-05", 1e-05f32),
            ("2147483648", 2147483648.0),
            (".5", 0.5),
            ("5.", 5.0),
            ("-.5e1", -5.0),
            ("16777217", 16777216.0),
            ("+3", 3.0),
        ] {
            let text = format!("v {t} {t} {t} {t}\n");
            probe(ctx, &text, "a number", |e| e.v == vec![([v, v, v], Some(v))])?;
        }
        for t in ["v . 1 1\n", "f 2147483648 1 2\n", "lod 256\n", "lod -1\n", "p 99999999999\n", "s 3000000000\n"] {
            rejected(ctx, "obj", t, "an integer out of range", load_obj(t), &["model"])?;
        }
        for t in ["newmtl a\nillum -1\n", "newmtl a\nillum 4294967296\n", "newmtl a\nmap_Kd -texres 2147483648 a.png\n"] {
            rejected(ctx, "mtl", t, "an integer out of range", load_mtl(t), &["material"])?;
        }
        return Ok(());
    }
    let mut s = src(ctx, "C08", case);
    let s = &mut s;
    // every short spelling, as every kind of real number
    let all = SPELLINGS.get_or_init(|| {
        let mut all = crate::gen::all_spellings(if ctx.tier == Tier::Thorough { 9 } else { 7 });
        all.extend(crate::gen::run_spellings());
        all
    });
    if let Some(some) = all.chunks(600).nth(case as usize - 1) {
        ctx.count("spellings of real numbers from the tables", some.len() as u64);
        let four = |i: usize| -> Vec<Num> { (0..4).map(|k| some[(i + k) % some.len()].clone()).collect() };
        let p: Vec<O> = (0..some.len())
            .step_by(4)
            .map(|i| match i / 4 % 3 {
                0 => O::V(four(i)),
                1 => O::Vn(four(i)[..3].to_vec()),
                _ => O::Vt(four(i)[..3].to_vec()),
            })
            .chain((0..some.len()).map(|i| O::V(four(i)[..3].to_vec())))
            .collect();
        part_check(ctx, &p, None, obj::Part::Vertices, |_| true)?;
        let mut p = Vec::new();
        for (i, n) in some.iter().enumerate() {
            p.push(M::New("m".into()));
            p.push(match i % 4 {
                0 => M::Ns(n.clone()),
                1 => M::Ni(n.clone()),
                2 => M::Sharp(n.clone()),
                _ => M::Color(i % 5, mtl::Color::Rgb(n.clone(), four(i)[1].clone(), n.clone())),
            });
        }
        return mtl_check(ctx, &p, None, |_| true, true);
    }
    match s.below(8) {
        0..=2 => {
            let mut p = Vec::new();
            for _ in 0..s.range(1, 6) {
                p.push(match s.below(4) {
                    0 => O::V((0..4).map(|_| hard(s)).collect()),
                    1 => O::Vn((0..3).map(|_| hard(s)).collect()),
                    2 => O::Vt((0..3).map(|_| hard(s)).collect()),
                    _ => O::V((0..3).map(|_| hard(s)).collect()),
                });
            }
            for o in &p {
                if let O::V(n) | O::Vn(n) | O::Vt(n) = o {
                    for x in n {
                        ctx.count("real numbers", 1);
                        if crate::exact::check(&x.text, x.val) {
                            ctx.count("real numbers whose expected value was checked by exact arithmetic", 1);
                        }
                    }
                }
            }
            part_check(ctx, &p, None, obj::Part::Vertices, |_| true)
        }
        3 | 4 => {
            // every real position of a material
            let mut p = vec![M::New("m".into())];
            for i in 0..5 {
                let c = match s.below(3) {
                    0 => mtl::Color::Rgb(hard(s), hard(s), hard(s)),
                    1 => mtl::Color::Spectral("f.rfl".into(), Some(hard(s))),
                    _ => {
                        let x = hard(s);
                        mtl::Color::Xyz(x, if s.flip() { Some((hard(s), if s.flip() { Some(hard(s)) } else { None })) } else { None })
                    }
                };
                p.push(M::Color(i, c));
            }
            p.extend([M::Ns(hard(s)), M::Ni(hard(s)), M::Tr(hard(s)), M::Sharp(hard(s))]);
            p.push(if s.flip() { M::Alpha(hard(s)) } else { M::Halo(hard(s)) });
            for i in 0..9 {
                let before = vec![
                    mtl::Op::Mm(hard(s), hard(s)),
                    mtl::Op::Offset((0..3).map(|_| hard(s)).collect()),
                    mtl::Op::Scale((0..3).map(|_| hard(s)).collect()),
                    mtl::Op::Turb((0..3).map(|_| hard(s)).collect()),
                    mtl::Op::Bm(hard(s)),
                    mtl::Op::TexRes(int_lit(s, true)),
                ];
                p.push(M::Map(i, mtl::Map { key: mtl::MAPS[i].into(), before, file: "a.png".into(), after: vec![] }));
            }
            p.push(M::Illum(int_lit(s, false)));
            ctx.count("real numbers", 119);
            ctx.count("integers", 10);
            mtl_check(ctx, &p, None, |_| true, true)
        }
        5 | 6 => {
            let mut p = Vec::new();
            for _ in 0..s.range(1, 5) {
                let r = |s: &mut Src| obj::Ref {
                    v: int_lit(s, false),
                    t: Some(int_lit(s, false)),
                    n: Some(int_lit(s, false)),
                    tail: 0,
                };
                match s.below(5) {
                    0 => p.push(O::F((0..4).map(|_| r(s)).collect())),
                    1 => p.push(O::L((0..3).map(|_| obj::Ref { n: None, ..r(s) }).collect())),
                    2 => p.push(O::P((0..4).map(|_| int_lit(s, false)).collect())),
                    3 => {
                        p.push(O::S(Some(int_lit(s, true))));
                        p.push(O::F(vec![r(s)]));
                    }
                    _ => {
                        let v = s.below(256) as i32;
                        p.push(O::Lod(int_from(s, v)));
                    }
                }
            }
            ctx.count("integers", p.len() as u64);
            part_check(ctx, &p, None, obj::Part::References, |_| true)?;
            part_check(ctx, &p, None, obj::Part::Smoothing, |_| true)?;
            part_check(ctx, &p, None, obj::Part::Attributes, |_| true)
        }
        _ => {
            // an integer outside its range, somewhere in an otherwise valid statement
            let big = match s.below(4) {
                0 => "2147483648".to_string(),
                1 => "-2147483649".into(),
                2 => format!("{}{}", if s.flip() { "-" } else { "" }, 2147483648u64 + (s.u64() >> s.range(1, 31))),
                _ => {
                    let n = s.range(11, 60);
                    (0..n).map(|_| (b'1' + s.below(9) as u8) as char).collect()
                }
            };
            let lod = if s.flip() { format!("{}", s.range(256, 70000)) } else { format!("-{}", s.range(1, 300)) };
            let neg = format!("-{}", s.range(1, i32::MAX as usize));
            let (m, t) = match s.below(12) {
                0 => (false, format!("f 1 2 {big}\n")),
                1 => (false, format!("f 1/{big}/1 2/2/2 3/3/3\n")),
                2 => (false, format!("f 1//1 2//{big} 3//1\n")),
                3 => (false, format!("l 1 {big}\n")),
                4 => (false, format!("l 1/2 3/{big}\n")),
                5 => (false, format!("p 1 {big} 3\n")),
                6 => (false, format!("s {big}\nf 1 2 3\n")),
                7 => (false, format!("lod {big}\n")),
                8 => (false, format!("lod {lod}\n")),
                9 => (true, format!("newmtl a\nillum {big}\n")),
                10 => (true, format!("newmtl a\nillum {neg}\n")),
                _ => (true, format!("newmtl a\nmap_Kd -texres {big} a.png\n")),
            };
            ctx.count("integers out of range", 1);
            let what = "an integer out of range";
            if m {
                rejected(ctx, "mtl", &t, what, load_mtl(&t), &["material"])
            } else {
                rejected(ctx, "obj", &t, what, load_obj(&t), &["model"])
            }
        }
    }
}

// ------------------------------------------------------------------- C14

/// Whether two texts give the same OBJ result.
fn same_obj(a: &str, b: &str) -> Result<(), String> {
    match (load_obj(a), load_obj(b)) {
        (Outcome::Ok(x), Outcome::Ok(y)) => obj::diff_all(&obj::observe(&x), &obj::observe(&y)),
        (Outcome::Err { .. }, Outcome::Err { .. }) => Ok(()),
        (x, y) => Err(format!("one gives {}, the other {}", x.label(), y.label())),
    }
}

fn c14(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C14", case);
    let mut prof = obj::Profile::mixed();
    prof.max_len = 20;
    if s.flip() {
        prof.weights = [2; obj::KINDS];
    }
    if s.one_in(4) {
        // what could reach across statements
        prof.weights = [1; obj::KINDS];
        for k in [4, 7, 8, 9] {
            prof.weights[k] = 5;
        }
    }
    let p = obj::program(&mut s, &prof, case % 16 == 0);
    for _ in 0..3 {
        let lay = s.u64();
        let check = |p: &[O]| {
            let w = obj::words(p);
            same_obj(&plain(&w), &render(&w, Some(lay))).err()
        };
        let text = render(&obj::words(&p), Some(lay));
        let base = plain(&obj::words(&p));
        ctx.case(&text, text != base);
        ctx.count("layout pairs compared", 1);
        ctx.count("statements", p.len() as u64);
        if load_obj(&base).label() == "ok" {
            ctx.count("pairs with a loadable text", 1);
        }
        if check(&p).is_some() {
            let (p, why) = shrink(&p, check);
            let w = obj::words(&p);
            return Err(Violation::of(
                format!("the same statements in another layout: {why}"),
                &[("obj", &plain(&w)), ("obj-relaid", &render(&w, Some(lay)))],
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C15

fn starts_with<T: PartialEq + std::fmt::Debug>(what: &str, long: &[T], short: &[T]) -> Result<(), String> {
    if long.len() < short.len() {
        return Err(format!("{what}: {} before, {} after more text", short.len(), long.len()));
    }
    match long.iter().zip(short).position(|(a, b)| a != b) {
        None => Ok(()),
        Some(i) => Err(clip(&format!("{what} {i}: {:?} became {:?} after more text", short[i], long[i]))),
    }
}

/// Everything read from a prefix is still there, first, after more text.
fn extends(long: &Exp, short: &Exp) -> Result<(), String> {
    starts_with("position", &long.v, &short.v)?;
    starts_with("normal", &long.vn, &short.vn)?;
    starts_with("texture coordinate", &long.vt, &short.vt)?;
    for (g, v) in &short.faces {
        starts_with("face", long.faces.get(g).map_or(&[][..], |x| x), v)?;
    }
    for (g, v) in &short.lines {
        starts_with("line", long.lines.get(g).map_or(&[][..], |x| x), v)?;
    }
    for (g, v) in &short.points {
        starts_with("point", long.points.get(g).map_or(&[][..], |x| x), v)?;
    }
    for g in short.groups.keys() {
        if !long.groups.contains_key(g) {
            return Err(clip(&format!("group {g:?} disappeared after more text")));
        }
    }
    starts_with("material library", &long.mtllibs, &short.mtllibs)?;
    starts_with("texture library", &long.maplibs, &short.maplibs)
}

fn c15(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C15", case);
    let mut prof = obj::Profile::mixed();
    prof.max_len = 24;
    prof.relative = s.one_in(4);
    if s.flip() {
        prof.weights = [2; obj::KINDS];
    }
    let p = obj::program(&mut s, &prof, case % 16 == 0);
    let text = plain(&obj::words(&p));
    ctx.case(&text, p.len() > 1);
    let loaded = |p: &[O]| match load_obj(&plain(&obj::words(p))) {
        Outcome::Ok(m) => Some(obj::observe(&m)),
        _ => None,
    };
    // prefixes
    let cut = s.below(p.len() + 1);
    let prefix = |p: &[O], cut: usize| -> Option<String> {
        let (long, short) = (loaded(p)?, loaded(&p[..cut.min(p.len())])?);
        extends(&long, &short).err()
    };
    ctx.count("prefix pairs compared", 1);
    if let Some(why) = prefix(&p, cut) {
        let short = plain(&obj::words(&p[..cut]));
        return Err(Violation::of(why, &[("obj", &text), ("obj-prefix", &short)]));
    }
    // concatenation: after a reset of the current group and smoothing group, the
    // second text is read as if on its own
    if !p[cut..].iter().any(O::has_relative) {
        let (a, b) = p.split_at(cut);
        let mut ab = a.to_vec();
        ab.push(O::G(vec![]));
        ab.push(O::S(None));
        let reset = ab.clone();
        ab.extend_from_slice(b);
        if let (Some(x), Some(y), Some(xy)) = (loaded(&reset), loaded(b), loaded(&ab)) {
            ctx.count("concatenations compared", 1);
            let merged = merge(&x, &y, b);
            if let Err(why) = obj::diff_all(&merged, &xy) {
                return Err(Violation::of(
                    format!("concatenation differs from its parts: {why}"),
                    &[("obj", &plain(&obj::words(&ab))), ("obj-first", &plain(&obj::words(&reset))), ("obj-second", &plain(&obj::words(b)))],
                ));
            }
        }
    }
    // moving and removing statements of the kinds the rest does not depend on
    let rel = p.iter().any(O::has_relative);
    let free = |k: usize| matches!(k, 3 | 9 | 12 | 13 | 14 | 15) || (k <= 2 && !rel);
    let kinds: Vec<usize> = (0..obj::KINDS).filter(|k| free(*k)).collect();
    let k = *s.pick(&kinds);
    let seed = s.u64();
    let moved = |p: &[O]| -> Vec<O> {
        let mut s = Src::seeded(&[seed]);
        let (m, mut rest): (Vec<O>, Vec<O>) = p.iter().cloned().partition(|o| o.kind() == k);
        let mut at: Vec<usize> = m.iter().map(|_| s.below(rest.len() + 1)).collect();
        at.sort();
        for (i, (o, at)) in m.into_iter().zip(at).enumerate() {
            rest.insert(at + i, o);
        }
        rest
    };
    let check = |p: &[O]| -> Option<String> {
        let (a, b) = (loaded(p)?, loaded(&moved(p))?);
        obj::diff_all(&a, &b).err()
    };
    let q = moved(&p);
    if q != p {
        ctx.count("reorderings compared", 1);
        if check(&p).is_some() {
            let (p, why) = shrink(&p, check);
            return Err(Violation::of(
                format!("moving the {} statements: {why}", obj::KIND_NAMES[k]),
                &[("obj", &plain(&obj::words(&p))), ("obj-moved", &plain(&obj::words(&moved(&p))))],
            ));
        }
        let without = |p: &[O]| -> Vec<O> { p.iter().filter(|o| o.kind() != k).cloned().collect() };
        let check = |p: &[O]| -> Option<String> {
            let (mut a, mut b) = (loaded(p)?, loaded(&without(p))?);
            for e in [&mut a, &mut b] {
                match k {
                    0 => e.v.clear(),
                    1 => e.vn.clear(),
                    2 => e.vt.clear(),
                    12 => e.mtllibs.clear(),
                    13 => e.maplibs.clear(),
                    14 => e.shadow = None,
                    15 => e.trace = None,
                    _ => {}
                }
            }
            obj::diff_all(&a, &b).err()
        };
        ctx.count("removals compared", 1);
        if check(&p).is_some() {
            let (p, why) = shrink(&p, check);
            return Err(Violation::of(
                format!("removing the {} statements: {why}", obj::KIND_NAMES[k]),
                &[("obj", &plain(&obj::words(&p))), ("obj-without", &plain(&obj::words(&without(&p))))],
            ));
        }
    }
    Ok(())
}

fn merge(x: &Exp, y: &Exp, b: &[O]) -> Exp {
    let mut m = x.clone();
    m.v.extend(y.v.iter().copied());
    m.vn.extend(y.vn.iter().copied());
    m.vt.extend(y.vt.iter().copied());
    for (g, v) in &y.faces {
        m.faces.entry(g.clone()).or_default().extend(v.iter().cloned());
    }
    for (g, v) in &y.lines {
        m.lines.entry(g.clone()).or_default().extend(v.iter().cloned());
    }
    for (g, v) in &y.points {
        m.points.entry(g.clone()).or_default().extend(v.iter().cloned());
    }
    m.mtllibs.extend(y.mtllibs.iter().cloned());
    m.maplibs.extend(y.maplibs.iter().cloned());
    if b.iter().any(|o| matches!(o, O::Shadow(_))) {
        m.shadow = y.shadow.clone();
    }
    if b.iter().any(|o| matches!(o, O::Trace(_))) {
        m.trace = y.trace.clone();
    }
    // attributes: those the second text sets replace those of the first
    let mut cur: Vec<String> = vec!["default".into()];
    for g in y.groups.keys() {
        m.groups.entry(g.clone()).or_default();
    }
    for o in b {
        if let O::G(n) = o {
            cur = if n.is_empty() { vec!["default".into()] } else { n.clone() };
        }
        if attr_event(o) {
            for g in &cur {
                let (Some(to), Some(from)) = (m.groups.get_mut(g), y.groups.get(g)) else { continue };
                match o {
                    O::UseMtl(_) => to.material = from.material.clone(),
                    O::UseMap(_) => to.map = from.map.clone(),
                    O::Bevel(_) => to.bevel = from.bevel,
                    O::CInterp(_) => to.c_interp = from.c_interp,
                    O::DInterp(_) => to.d_interp = from.d_interp,
                    _ => to.lod = from.lod,
                }
            }
        }
    }
    m
}

// ------------------------------------------------------------ C16 to C19

/// Compares the chosen properties of all materials with what was written.
pub fn mtl_check(_ctx: &mut Ctx, p: &[M], lay: Option<u64>, props: impl Fn(usize) -> bool, names: bool) -> Verdict {
    let check = |p: &[M]| -> Option<String> {
        if !matches!(p.first(), Some(M::New(_))) {
            return None;
        }
        let text = render(&mtl::words(p), lay);
        let got = match load_mtl(&text).valid() {
            Ok(g) => g,
            Err(e) => return Some(e),
        };
        let want = mtl::expected(p);
        if want.len() != got.len() {
            return if names { Some(format!("{} newmtl statements, {} materials", want.len(), got.len())) } else { None };
        }
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            if names && w.name != g.name {
                return Some(clip(&format!("material {i}: named {:?}, loaded {:?}", w.name, g.name)));
            }
            for k in (0..mtl::PROPS).filter(|k| props(*k)) {
                if let Err(e) = mtl::cmp_prop(k, &w.props[k], g) {
                    return Some(clip(&format!("material {i} ({:?}): {e}", w.name)));
                }
            }
        }
        None
    };
    if check(p).is_some() {
        let (p, why) = shrink(p, check);
        return Err(one("mtl", &render(&mtl::words(&p), lay), why));
    }
    Ok(())
}

fn count_props(ctx: &mut Ctx, p: &[M], props: impl Fn(usize) -> bool) -> u64 {
    let mut n = 0;
    for m in p {
        match m.prop() {
            None => ctx.count("statement newmtl", 1),
            Some(k) => {
                if props(k) {
                    n += 1;
                }
                ctx.count(&format!("statement {}", mtl::PROP_NAMES[k]), 1);
            }
        }
    }
    ctx.count("events of this property", n);
    ctx.max("statements in a text", p.len() as u64);
    n
}

/// Adding or removing statements of one property changes no other property.
fn undisturbed(ctx: &mut Ctx, p: &[M], prop: usize) -> Verdict {
    let loaded = |p: &[M]| match load_mtl(&plain(&mtl::words(p))) {
        Outcome::Ok(m) => Some(m),
        _ => None,
    };
    let without = |p: &[M]| -> Vec<M> { p.iter().filter(|m| m.prop() != Some(prop)).cloned().collect() };
    let check = |p: &[M]| -> Option<String> {
        if !matches!(p.first(), Some(M::New(_))) {
            return None;
        }
        let (mut a, mut b) = (loaded(p)?, loaded(&without(p))?);
        for m in a.iter_mut().chain(b.iter_mut()) {
            mtl::clear(m, prop);
        }
        let (x, y) = (format!("{a:?}"), format!("{b:?}"));
        if x == y {
            return None;
        }
        let i = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
        Some(format!(
            "the {} statements change something else: ...{} / ...{}",
            mtl::PROP_NAMES[prop],
            x.chars().skip(i.saturating_sub(60)).take(120).collect::<String>(),
            y.chars().skip(i.saturating_sub(60)).take(120).collect::<String>()
        ))
    };
    ctx.count("texts compared with one property removed", 1);
    if check(p).is_some() {
        let (p, why) = shrink(p, check);
        return Err(Violation::of(
            why,
            &[("mtl", &plain(&mtl::words(&p))), ("mtl-without", &plain(&mtl::words(&without(&p))))],
        ));
    }
    Ok(())
}

fn props_case(ctx: &mut Ctx, s: &mut Src, case: u64, range: std::ops::Range<usize>) -> Verdict {
    let prof = if s.flip() { mtl::Profile::focus(range.clone()) } else { mtl::Profile::mixed() };
    let p = mtl::program(s, &prof, case % 8 == 0);
    let lay = if s.one_in(3) { Some(s.u64()) } else { None };
    let n = count_props(ctx, &p, |k| range.contains(&k));
    ctx.case(&plain(&mtl::words(&p)), n > 0);
    mtl_check(ctx, &p, lay, |k| range.contains(&k), false)?;
    let k = s.range(range.start, range.end - 1);
    if p.iter().any(|m| m.prop() == Some(k)) {
        undisturbed(ctx, &p, k)?;
    }
    Ok(())
}

fn c16(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C16", case);
    let s = &mut s;
    if s.one_in(5) {
        // the first statement is not newmtl
        let prof = mtl::Profile::mixed();
        let mut p: Vec<M> = Vec::new();
        for _ in 0..s.range(1, 4) {
            let k = s.below(mtl::PROPS);
            p.push(mtl::statement(s, k));
        }
        if s.flip() {
            p.extend(mtl::program(s, &prof, false));
        }
        let mut w = mtl::words(&p);
        // whatever follows, as long as it cannot be taken for more of the first statement
        let open = matches!(p[0], M::Map(..) | M::Color(_, mtl::Color::Spectral(..)));
        if s.one_in(3) && (!open || w.len() > 1) {
            let at = s.range(1 + open as usize, w.len());
            w.insert(at, bad::mtl_line(s).1);
        }
        let text = if s.flip() { layout(s, &w) } else { plain(&w) };
        ctx.count("texts that do not start with newmtl", 1);
        return rejected(ctx, "mtl", &text, "a text not starting with newmtl", load_mtl(&text), &["newmaterial"]);
    }
    let mut prof = mtl::Profile::mixed();
    prof.newmtl = 40;
    let p = mtl::program(s, &prof, case % 8 == 0);
    let lay = if s.one_in(3) { Some(s.u64()) } else { None };
    let news = p.iter().filter(|m| matches!(m, M::New(_))).count() as u64;
    ctx.count("materials", news);
    count_props(ctx, &p, |_| true);
    ctx.case(&plain(&mtl::words(&p)), news > 1);
    // ownership: who has what; and a unique Ns, Ni or sharpness to trace it by
    let mut id = 0;
    let p: Vec<M> = p
        .into_iter()
        .map(|m| {
            id += 1;
            match m {
                M::Ns(_) => M::Ns(Num::of(format!("{id}"))),
                M::Ni(_) => M::Ni(Num::of(format!("{id}"))),
                M::Sharp(_) => M::Sharp(Num::of(format!("{id}"))),
                M::Tr(_) => M::Tr(Num::of(format!("{id}"))),
                m => m,
            }
        })
        .collect();
    mtl_check(ctx, &p, lay, |k| (5..=8).contains(&k), true)?;
    // presence of everything
    let check = |p: &[M]| -> Option<String> {
        if !matches!(p.first(), Some(M::New(_))) {
            return None;
        }
        let got = load_mtl(&render(&mtl::words(p), lay)).valid().ok()?;
        for (w, g) in mtl::expected(p).iter().zip(&got) {
            let have = mtl::present(g);
            for k in 0..mtl::PROPS {
                if w.props[k].is_some() != have[k] {
                    return Some(clip(&format!(
                        "material {:?}: {} {}",
                        w.name,
                        mtl::PROP_NAMES[k],
                        if have[k] { "is present but was not written" } else { "was written but is absent" }
                    )));
                }
            }
        }
        None
    };
    if check(&p).is_some() {
        let (p, why) = shrink(&p, check);
        return Err(one("mtl", &render(&mtl::words(&p), lay), why));
    }
    Ok(())
}

/// Properties of plain numbers, each in a material of its own.
fn grid_check(ctx: &mut Ctx, case: u64, all: &[M], range: std::ops::Range<usize>) -> Option<Verdict> {
    let some = all.chunks(150).nth((case as usize).checked_sub(1)?)?;
    ctx.count("properties of plain numbers, all there are", some.len() as u64);
    let p: Vec<M> = some.iter().flat_map(|m| [M::New("m".into()), m.clone()]).collect();
    ctx.case(&plain(&mtl::words(&p)), true);
    Some(mtl_check(ctx, &p, None, |k| range.contains(&k), false))
}

fn c17(ctx: &mut Ctx, case: u64) -> Verdict {
    static GRID: std::sync::OnceLock<Vec<M>> = std::sync::OnceLock::new();
    let all = GRID.get_or_init(|| {
        let g = |n| crate::gen::grid(n, 12);
        let mut all = Vec::new();
        for i in 0..5 {
            use mtl::Color::*;
            for n in g(3) {
                all.push(M::Color(i, Rgb(n[0].clone(), n[1].clone(), n[2].clone())));
                all.push(M::Color(i, Xyz(n[0].clone(), Some((n[1].clone(), Some(n[2].clone()))))));
            }
            for n in g(2) {
                all.push(M::Color(i, Xyz(n[0].clone(), Some((n[1].clone(), None)))));
            }
            for n in g(1) {
                all.push(M::Color(i, Xyz(n[0].clone(), None)));
                all.push(M::Color(i, Spectral("a.rfl".into(), Some(n[0].clone()))));
            }
        }
        all
    });
    if let Some(v) = grid_check(ctx, case, all, 0..5) {
        return v;
    }
    let mut s = src(ctx, "C17", case);
    props_case(ctx, &mut s, case, 0..5)
}

fn c18(ctx: &mut Ctx, case: u64) -> Verdict {
    static GRID: std::sync::OnceLock<Vec<M>> = std::sync::OnceLock::new();
    let all = GRID.get_or_init(|| {
        // tenths up to ten, whole numbers up to a thousand
        let tenths = (-20..=100).map(|i: i32| format!("{}{}.{}", if i < 0 { "-" } else { "" }, i.abs() / 10, i.abs() % 10));
        let texts = tenths.chain((-20..=1024).map(|i| i.to_string())).chain(crate::gen::PLAIN_NUMBERS.map(String::from));
        let mut all: Vec<M> = texts.map(Num::of).flat_map(|n| [M::Ns(n.clone()), M::Ni(n.clone()), M::Tr(n.clone()), M::Sharp(n.clone()), M::Alpha(n.clone()), M::Halo(n)]).collect();
        all.extend((0..=1024).map(|i| M::Illum(crate::gen::IntLit { text: i.to_string(), val: i })));
        all
    });
    if let Some(v) = grid_check(ctx, case, all, 5..12) {
        return v;
    }
    let mut s = src(ctx, "C18", case);
    if s.one_in(30) {
        let v = *s.pick(&[1, 2, 10, 127, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, 0]);
        let v = if v == 0 { s.range(1, 1 << 31) } else { v };
        let mut w = mtl::words(&mtl::program(&mut s, &mtl::Profile::mixed(), false));
        w.push(Words { key: "illum".into(), args: vec![crate::gen::w(format!("-{v}"))] });
        let text = plain(&w);
        ctx.count("negative illumination models", 1);
        return rejected(ctx, "mtl", &text, "a negative illumination model", load_mtl(&text), &["material"]);
    }
    props_case(ctx, &mut s, case, 5..12)
}

fn c19(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        return probe_mtl(ctx, "newmtl a\nmap_Kd -boost 5 -clamp on\tfoo.png -o 1\n", "options", |m| {
            m[0].texture_map_diffuse.as_ref().is_some_and(|t| {
                t.file_name == "foo.png" && t.clamp == Some(true) && t.offset == Some((1.0, None, None))
            })
        });
    }
    static GRID: std::sync::OnceLock<Vec<M>> = std::sync::OnceLock::new();
    let all = GRID.get_or_init(|| {
        use mtl::Op;
        let g = |n| crate::gen::grid(n, if n < 3 { 12 } else { 8 });
        let mut ops = Vec::new();
        for n in (1..4).flat_map(g) {
            ops.extend([Op::Offset(n.clone()), Op::Scale(n.clone()), Op::Turb(n)]);
        }
        for n in g(2) {
            ops.push(Op::Mm(n[0].clone(), n[1].clone()));
        }
        for n in g(1) {
            ops.extend([Op::Bm(n[0].clone()), Op::Boost(n[0].clone())]);
        }
        for i in (0..1030).chain([2047, 2048, 4096, 8192, 65535, 65536]) {
            ops.push(Op::TexRes(crate::gen::IntLit { text: i.to_string(), val: i }));
        }
        let mut all = Vec::new();
        for (k, o) in ops.into_iter().enumerate() {
            for i in 0..9 {
                let (before, after) = if (k + i) % 2 == 0 { (vec![o.clone()], vec![]) } else { (vec![], vec![o.clone()]) };
                all.push(M::Map(i, mtl::Map { key: mtl::MAPS[i].into(), before, file: "a.png".into(), after }));
            }
        }
        all
    });
    if let Some(v) = grid_check(ctx, case, all, 12..21) {
        return v;
    }
    let mut s = src(ctx, "C19", case);
    let r = props_case(ctx, &mut s, case, 12..21);
    if r.is_ok() {
        // every option on its own, with every map, in turn
        let (map, op) = (case as usize % 9, (case as usize / 9) % mtl::OPS);
        let mut p = vec![M::New("m".into())];
        let o = mtl::gen_op(&mut s, op);
        let (before, after) = if case % 2 == 0 { (vec![o], vec![]) } else { (vec![], vec![o]) };
        p.push(M::Map(map, mtl::Map { key: mtl::MAPS[map].into(), before, file: mtl_file(&mut s), after }));
        ctx.count("single option texts", 1);
        ctx.case(&plain(&mtl::words(&p)), true);
        mtl_check(ctx, &p, None, |k| k >= 12, false)?;
    }
    r
}

// ------------------------------------------------------------------- C20

fn same_mtl(a: &str, b: &str) -> Result<(), String> {
    match (load_mtl(a), load_mtl(b)) {
        (Outcome::Ok(x), Outcome::Ok(y)) => {
            if x.len() != y.len() {
                return Err(format!("{} materials / {} materials", x.len(), y.len()));
            }
            for (x, y) in x.iter().zip(&y) {
                if x != y {
                    let (p, q) = (format!("{x:?}"), format!("{y:?}"));
                    let i = p.bytes().zip(q.bytes()).take_while(|(a, b)| a == b).count();
                    if i == p.len() && i == q.len() {
                        continue; // NaN cannot occur, but it would print the same
                    }
                    let cut = |t: &str| t.chars().skip(i.saturating_sub(60)).take(120).collect::<String>();
                    return Err(clip(&format!("material {:?}: ...{} / ...{}", x.name, cut(&p), cut(&q))));
                }
            }
            Ok(())
        }
        (Outcome::Err { .. }, Outcome::Err { .. }) => Ok(()),
        (x, y) => Err(format!("one gives {}, the other {}", x.label(), y.label())),
    }
}

fn c20(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C20", case);
    let s = &mut s;
    let mut prof = mtl::Profile::mixed();
    prof.max_len = 20;
    let mut p = mtl::program(s, &prof, case % 16 == 0);
    if s.one_in(3) {
        // the same map or colour again, alike in part
        let i = s.below(p.len());
        let again = match &p[i] {
            M::Map(k, m) => match mtl::gen_map(s, *k) {
                M::Map(k, mut n) => {
                    if s.flip() {
                        n.file = m.file.clone();
                    } else {
                        (n.before, n.after) = (m.before.clone(), m.after.clone());
                    }
                    Some(M::Map(k, n))
                }
                x => Some(x),
            },
            M::New(_) => None,
            x => Some(mtl::statement(s, x.prop().unwrap_or(0))),
        };
        if let Some(m) = again {
            let at = s.range(i + 1, p.len());
            p.insert(at, m);
        }
    }
    let base = plain(&mtl::words(&p));
    ctx.count("statements", p.len() as u64);
    // layout
    for _ in 0..2 {
        let lay = s.u64();
        let check = |p: &[M]| {
            let w = mtl::words(p);
            same_mtl(&plain(&w), &render(&w, Some(lay))).err()
        };
        let text = render(&mtl::words(&p), Some(lay));
        ctx.case(&text, text != base);
        ctx.count("layout pairs compared", 1);
        if check(&p).is_some() {
            let (p, why) = shrink(&p, check);
            let w = mtl::words(&p);
            return Err(Violation::of(
                format!("the same statements in another layout: {why}"),
                &[("mtl", &plain(&w)), ("mtl-relaid", &render(&w, Some(lay)))],
            ));
        }
    }
    // exchanging statements for different properties within a material
    let seed = s.u64();
    let permuted = |p: &[M]| -> Vec<M> {
        let mut s = Src::seeded(&[seed]);
        let mut q = p.to_vec();
        for _ in 0..q.len() * 2 {
            if q.len() < 3 {
                break;
            }
            let i = s.range(1, q.len() - 2);
            if q[i].prop().is_some() && q[i + 1].prop().is_some() && q[i].prop() != q[i + 1].prop() {
                q.swap(i, i + 1);
            }
        }
        q
    };
    // only the last statement of each property
    let last = |p: &[M]| -> Vec<M> {
        let mut keep = vec![false; p.len()];
        let mut have = std::collections::HashSet::new();
        for (i, m) in p.iter().enumerate().rev() {
            match m.prop() {
                None => {
                    have.clear();
                    keep[i] = true;
                }
                Some(k) => keep[i] = have.insert(k),
            }
        }
        p.iter().zip(keep).filter(|(_, k)| *k).map(|(m, _)| m.clone()).collect()
    };
    for (what, f) in [("exchanging statements", &permuted as &dyn Fn(&[M]) -> Vec<M>), ("dropping overwritten statements", &last)] {
        let check = |p: &[M]| -> Option<String> {
            if !matches!(p.first(), Some(M::New(_))) {
                return None;
            }
            same_mtl(&plain(&mtl::words(p)), &plain(&mtl::words(&f(p)))).err()
        };
        let q = f(&p);
        if q == p {
            continue;
        }
        ctx.count(&format!("pairs compared: {what}"), 1);
        ctx.case(&plain(&mtl::words(&q)), true);
        if check(&p).is_some() {
            let (p, why) = shrink(&p, check);
            return Err(Violation::of(
                format!("{what}: {why}"),
                &[("mtl", &plain(&mtl::words(&p))), ("mtl-changed", &plain(&mtl::words(&f(&p))))],
            ));
        }
    }
    // concatenation
    let q = mtl::program(s, &prof, false);
    let second = plain(&mtl::words(&q));
    let both = format!("{base}{second}");
    if let (Outcome::Ok(mut a), Outcome::Ok(b)) = (load_mtl(&base), load_mtl(&second)) {
        a.extend(b);
        ctx.count("concatenations compared", 1);
        match load_mtl(&both) {
            Outcome::Ok(ab) if ab == a || format!("{ab:?}") == format!("{a:?}") => {}
            o => {
                return Err(Violation::of(
                    format!("a concatenation gives {} that differs from its parts", o.label()),
                    &[("mtl", &both), ("mtl-first", &base), ("mtl-second", &second)],
                ))
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C21

fn c21(ctx: &mut Ctx, case: u64) -> Verdict {
    if case == 0 {
        probe(ctx, "o 1\nusemtl 01_wood\ng 5 f v\np 1\nmtllib 3.5 1e5 #\n", "names like numbers and keywords", |e| {
            e.groups.get("5").is_some() && e.groups.contains_key("f") && e.groups.contains_key("v") && e.mtllibs == ["3.5", "1e5"]
        })?;
        probe_mtl(ctx, "newmtl 01\nmap_Kd 1a.png\nnewmtl Kd\nnewmtl -1.5e3\n", "names", |m| {
            m[0].name == "01"
                && m[0].texture_map_diffuse.as_ref().is_some_and(|t| t.file_name == "1a.png")
                && m[1].name == "Kd"
                && m[2].name == "-1.5e3"
        })?;
        return Ok(());
    }
    let mut s = src(ctx, "C21", case);
    let s = &mut s;
    let lay = if s.one_in(4) { Some(s.u64()) } else { None };
    if s.flip() {
        let mut p = Vec::new();
        let mut prof = obj::Profile::mixed();
        prof.relative = false;
        let mut pools = obj::pools(s);
        let mut id = 0;
        for _ in 0..s.range(1, 6) {
            pools.names = vec![name(s)];
            pools.groups = vec![name(s), name(s)];
            let k = *s.pick(&[7usize, 7, 10, 10, 11, 12, 13, 14, 15, 9]);
            p.push(obj::statement(s, k, &prof, &pools, &mut id));
            if s.one_in(3) {
                let k = s.below(9);
                p.push(obj::statement(s, k, &prof, &pools, &mut id));
            }
        }
        let names: Vec<String> = p
            .iter()
            .flat_map(|o| match o {
                O::G(n) | O::MtlLib(n) | O::MapLib(n) => n.clone(),
                O::UseMtl(t) | O::Shadow(t) | O::Trace(t) | O::UseMap(Some(t)) => vec![t.clone()],
                _ => vec![],
            })
            .collect();
        count_names(ctx, &names);
        count_kinds(ctx, &p);
        ctx.case(&plain(&obj::words(&p)), !names.is_empty());
        let check = |p: &[O]| -> Option<String> {
            let text = render(&obj::words(p), lay);
            let got = match load_exp(&text) {
                Ok(g) => g,
                Err(e) => return Some(e),
            };
            let want = obj::expected(p);
            let (a, b): (Vec<_>, Vec<_>) = (want.groups.keys().collect(), got.groups.keys().collect());
            if a != b {
                return Some(clip(&format!("group names written {a:?}, loaded {b:?}")));
            }
            for (g, a) in &want.groups {
                let b = &got.groups[g];
                if a.material != b.material {
                    return Some(clip(&format!("material name written {:?}, loaded {:?}", a.material, b.material)));
                }
                if a.map != b.map {
                    return Some(clip(&format!("texture map written {:?}, loaded {:?}", a.map, b.map)));
                }
            }
            let keys = |m: &Exp| -> Vec<String> {
                let mut k: Vec<String> = m.faces.keys().chain(m.lines.keys()).chain(m.points.keys()).cloned().collect();
                k.sort();
                k
            };
            if keys(&want) != keys(&got) {
                return Some(clip(&format!("groups with elements written {:?}, loaded {:?}", keys(&want), keys(&got))));
            }
            obj::diff(obj::Part::Libraries, &want, &got).err()
        };
        if check(&p).is_some() {
            let (p, why) = shrink(&p, check);
            return Err(one("obj", &render(&obj::words(&p), lay), why));
        }
    } else {
        let mut p = vec![M::New(name(s))];
        for _ in 0..s.range(0, 6) {
            p.push(match s.below(5) {
                0 | 1 => M::New(name(s)),
                2 => M::Color(s.below(5), mtl::Color::Spectral(mtl_file(s), if s.flip() { Some(num(s)) } else { None })),
                _ => {
                    let i = s.below(9);
                    let mut m = mtl::gen_map(s, i);
                    if let M::Map(_, m) = &mut m {
                        if s.flip() {
                            m.before.truncate(1);
                            m.after.truncate(1);
                        }
                    }
                    m
                }
            });
        }
        let names: Vec<String> = p
            .iter()
            .filter_map(|m| match m {
                M::New(n) => Some(n.clone()),
                M::Color(_, mtl::Color::Spectral(f, _)) => Some(f.clone()),
                M::Map(_, m) => Some(m.file.clone()),
                _ => None,
            })
            .collect();
        count_names(ctx, &names);
        count_props(ctx, &p, |_| true);
        ctx.case(&plain(&mtl::words(&p)), true);
        mtl_check(ctx, &p, lay, |k| k < 5 || k >= 12, true)?;
    }
    Ok(())
}

fn count_names(ctx: &mut Ctx, names: &[String]) {
    ctx.count("names", names.len() as u64);
    for n in names {
        ctx.max("bytes in a name", n.len() as u64);
        if !n.is_ascii() {
            ctx.count("names beyond ASCII", 1);
        }
        if is_number(n) {
            ctx.count("names that spell a number", 1);
        }
        let l = n.to_ascii_lowercase();
        if OBJ_WORDS.contains(&l.as_str()) || MTL_WORDS.contains(&l.as_str()) {
            ctx.count("names that spell a keyword", 1);
        }
        if n.contains(' ') || n.contains('\t') {
            ctx.count("names with inner blanks", 1);
        }
        if dict().strings.iter().any(|d| d == n) {
            ctx.count("names that occur in the sources", 1);
        }
    }
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", rule: "texts: all strings of a fixed length over 12 letters and all sequences of a fixed number of 47 fragments (exhaustive), characters of one to four bytes at every byte of every argument of 46 statements, then seeded token soup, mutated programs, spliced keywords, malformed numbers, random characters, very long repetitions, with the logger off and on; each is loaded as OBJ and as MTL and its result formatted, cloned, compared and dropped under a panic hook, with debug assertions and overflow checks on, a CPU clock and a memory limit; non-trivial: not blank, counted by distinct text", quick: 60_000, thorough: 3_000_000, run: c01 },
    Prop { id: "C02", rule: "seeded valid, mutated and soup texts; each is loaded first, then again after a random history (with altered copies of the text in it), from other addresses, from a buffer that held another text, with loggers at several levels, with clocks that leap at every look, with other values of every environment variable a load asks for (getenv and clock_gettime are interposed and watched) and (every fourth case) in 2-6 threads at once, and in child processes with other environments, working directories, orders and hash seeds; digests of the full results are compared; some texts have more than 2^16 statements, and one case is a long life of one process, in which every kind of statement is loaded 70000 times and every result compared with the first of its text; non-trivial: more than two bytes, counted by distinct text", quick: 10_000, thorough: 600_000, run: c02 },
    Prop { id: "C06", rule: "seeded valid programs (must load, with every statement accounted for) and the same with one bad statement of about 200 kinds at a random position (must be an error of the right kind), and tables of every statement with all sequences of up to 2 to 5 of 5 to 11 argument words, judged by a grammar (unsettled ones are skipped), the well formed MTL ones also without a material to belong to; non-trivial: at least one statement, counted by distinct text, plus each distinct pair (kind of bad statement, statement before it)", quick: 80_000, thorough: 1_500_000, run: c06 },
    Prop { id: "C07", rule: "v, vn and vt statements of all triples and many quadruples of a few plain numbers, and seeded programs of vertex statements among others, compared with a fold over the generated statements; non-trivial: at least one v, vn or vt, counted by distinct program", quick: 40_000, thorough: 1_500_000, run: c07 },
    Prop { id: "C08", rule: "every spelling of a number of up to 7 (thorough: 9) of the characters 0 5 . e + -, then seeded literals (half-way cases and their neighbours, long digit strings, subnormals, overflow, 24 and 32 bit edges, all exponent forms) in every numeric position of every statement, compared with the correctly rounded value (cross-checked by exact rational arithmetic), and integers out of range, which must be errors; non-trivial: counted by distinct text", quick: 150_000, thorough: 2_000_000, run: c08 },
    Prop { id: "C09", rule: "seeded f, l and p statements of all forms and lengths, with relative references among vertex statements (also far into files of more than 2^16 of them), compared with a fold over the generated statements; non-trivial: at least one element, counted by distinct program", quick: 20_000, thorough: 1_500_000, run: c09 },
    Prop { id: "C10", rule: "seeded histories of group statements and of elements uniquely numbered or repeated; the filing of every element is compared with a fold over the history; non-trivial: at least one group statement or element, counted by distinct program", quick: 24_000, thorough: 2_000_000, run: c10 },
    Prop { id: "C11", rule: "seeded histories of smoothing, face, group and other statements; the smoothing group of every face is compared with a fold; non-trivial: at least one s or f, counted by distinct program", quick: 26_000, thorough: 2_000_000, run: c11 },
    Prop { id: "C12", rule: "seeded histories of group and attribute statements over small pools of group names; all attributes of all groups are compared with a fold; non-trivial: at least one attribute statement, counted by distinct program", quick: 50_000, thorough: 2_500_000, run: c12 },
    Prop { id: "C13", rule: "seeded mtllib, maplib, shadow_obj and trace_obj statements among others, compared with a fold; non-trivial: at least one of them, counted by distinct program", quick: 50_000, thorough: 2_500_000, run: c13 },
    Prop { id: "C14", rule: "seeded programs in the plainest layout and three random layouts each; the results are compared with each other; non-trivial: the texts differ, counted by distinct re-laid text", quick: 25_000, thorough: 1_000_000, run: c14 },
    Prop { id: "C15", rule: "seeded programs; each is compared with a prefix of it, with the parts it is concatenated from, with a version in which one kind of statement is moved, and with one in which it is removed; non-trivial: more than one statement, counted by distinct program", quick: 25_000, thorough: 1_000_000, run: c15 },
    Prop { id: "C16", rule: "seeded programs of several materials with numbered values: names, presence of all 21 properties and the numbered values are compared with what was written; one in five texts does not start with newmtl and must be rejected as such; non-trivial: more than one material, or such a text, counted by distinct text", quick: 80_000, thorough: 1_500_000, run: c16 },
    Prop { id: "C17", rule: "colours of plain numbers (all there are), and seeded programs with colour statements of all kinds among others, compared with what was written, and with the same text without one colour property; non-trivial: at least one colour statement, counted by distinct program", quick: 80_000, thorough: 1_500_000, run: c17 },
    Prop { id: "C18", rule: "scalars of plain numbers (all there are), and seeded programs with scalar statements among others, compared with what was written, and with the same text without one scalar property; negative illum must be an error; non-trivial: at least one scalar statement, counted by distinct program", quick: 70_000, thorough: 1_500_000, run: c18 },
    Prop { id: "C19", rule: "options of plain numbers (all there are) in every map, and seeded map statements with random subsets, orders, positions and argument counts of all 13 options, every option with every map in turn, compared with what was written and with the same text without one map; non-trivial: at least one map statement, counted by distinct program", quick: 60_000, thorough: 1_200_000, run: c19 },
    Prop { id: "C20", rule: "seeded programs compared with re-laid, permuted, de-duplicated and concatenated versions of themselves; non-trivial: the texts differ, counted by distinct changed text", quick: 60_000, thorough: 800_000, run: c20 },
    Prop { id: "C21", rule: "seeded names (any script, digits, keywords, punctuation, lengths around powers of two, extensions in small letters and capitals, strings from the sources) in every statement that takes one, compared with what was written; non-trivial: at least one name, counted by distinct program", quick: 250_000, thorough: 2_500_000, run: c21 },
    Prop { id: "C22", rule: "seeded component values of all public value types; constructors, tuples, field access, clones and comparisons against each other, and every field of each type, materials and maps included, absent and present against every other; non-trivial: counted by distinct values", quick: 500_000, thorough: 5_000_000, run: crate::types::c22 },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

//! Constants that occur in the sources of the library. They only widen the
//! generated inputs (counts, lengths, values, names, environment variables);
//! no oracle looks at them. Those that are not in `baseline.txt` (the constants
//! of the tree this was written for, by `monitor literals`) are taken more often.
use crate::src::Src;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub new_ints: Vec<i64>,
    /// Sums and products of new ones.
    derived: Vec<i64>,
    /// Those that only a very long text reaches.
    pub big: Vec<usize>,
    pub strings: Vec<String>,
    pub new_strings: Vec<String>,
    pub chars: Vec<char>,
    pub new_chars: Vec<char>,
    pub reals: Vec<String>,
    pub new_reals: Vec<String>,
}

#[derive(Default)]
struct Found {
    ints: BTreeSet<i64>,
    strings: BTreeSet<String>,
    chars: BTreeSet<char>,
    reals: BTreeSet<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn found() -> Found {
    let mut files = Vec::new();
    if !cfg!(miri) {
        collect("/repo/src", 0, &mut files);
    }
    files.sort();
    let mut f = Found::default();
    for p in files {
        if let Ok(text) = std::fs::read_to_string(&p) {
            harvest(&text, &mut f);
        }
    }
    f
}

/// What `baseline.txt` holds, for the present tree.
pub fn literals() -> String {
    let f = found();
    let mut out = String::new();
    f.ints.iter().for_each(|x| out.push_str(&format!("i {x}\n")));
    f.strings.iter().for_each(|x| out.push_str(&format!("s {}\n", x.escape_debug())));
    f.chars.iter().for_each(|x| out.push_str(&format!("c {:x}\n", *x as u32)));
    f.reals.iter().for_each(|x| out.push_str(&format!("r {x}\n")));
    out
}

fn around(ints: impl Iterator<Item = i64>) -> BTreeSet<i64> {
    ints.flat_map(|i| [-1, 0, 1].into_iter().filter_map(move |d| i.checked_add(d))).filter(|x| *x >= 0).collect()
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let f = found();
        let known: BTreeSet<&str> = include_str!("../baseline.txt").lines().collect();
        let new_ints: Vec<i64> = f.ints.iter().copied().filter(|x| !known.contains(format!("i {x}").as_str())).take(40).collect();
        let mut near = around(f.ints.iter().copied());
        near.extend(around((1..=17).map(|k| 1i64 << k)));
        near.extend([9, 10, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 16777215, 16777216, 16777217]);
        let mut derived = BTreeSet::new();
        for a in &new_ints {
            for b in &new_ints {
                let (Some(sum), Some(product)) = (a.checked_add(*b), a.checked_mul(*b)) else { continue };
                derived.extend(around([sum, product, 2 * a.min(&(i64::MAX / 2)), (a - b).abs()].into_iter()));
                for k in 1..4i64 {
                    derived.extend(k.checked_mul(*a).and_then(|x| x.checked_add(*b)));
                }
            }
            if (1..31).contains(a) {
                derived.extend(around(std::iter::once(1 << a)));
            }
        }
        let reals = |r: &BTreeSet<String>| -> Vec<String> {
            let mut out: Vec<String> = Vec::new();
            for t in r {
                let Ok(v) = t.parse::<f32>() else { continue };
                let (up, down) = (f32::from_bits(v.to_bits() + 1), f32::from_bits(v.to_bits().wrapping_sub(1)));
                out.push(t.clone());
                out.extend([up, down, v / 2.0, v * 2.0].iter().filter(|v| v.is_finite()).map(|v| format!("{v}")));
            }
            out.truncate(400);
            out
        };
        let fresh = |r: &BTreeSet<String>| -> BTreeSet<String> { r.iter().filter(|x| !known.contains(format!("r {x}").as_str())).cloned().collect() };
        Dict {
            big: f.ints.iter().filter(|x| (65_538..3_000_000).contains(*x)).map(|x| *x as usize + 2).take(8).collect(),
            ints: near.into_iter().take(400).collect(),
            derived: derived.into_iter().filter(|x| *x >= 0).take(400).collect(),
            new_strings: f.strings.iter().filter(|x| !known.contains(format!("s {}", x.escape_debug()).as_str())).cloned().take(60).collect(),
            strings: f.strings.iter().take(400).cloned().collect(),
            new_chars: f.chars.iter().filter(|x| !known.contains(format!("c {:x}", **x as u32).as_str())).copied().take(60).collect(),
            chars: f.chars.iter().copied().take(400).collect(),
            new_reals: reals(&fresh(&f.reals)),
            reals: reals(&f.reals),
            new_ints: around(new_ints.into_iter()).into_iter().collect(),
        }
    })
}

fn of<'a, T>(s: &mut Src, new: &'a [T], all: &'a [T]) -> Option<&'a T> {
    if !new.is_empty() && !s.one_in(3) {
        return Some(s.pick(new));
    }
    if all.is_empty() {
        return None;
    }
    Some(s.pick(all))
}

pub fn int(s: &mut Src) -> i64 {
    let d = dict();
    if !d.derived.is_empty() && s.one_in(4) {
        return *s.pick(&d.derived);
    }
    of(s, &d.new_ints, &d.ints).copied().unwrap_or(1)
}
pub fn string(s: &mut Src) -> Option<&'static str> {
    of(s, &dict().new_strings, &dict().strings).map(|x| x.as_str())
}
pub fn character(s: &mut Src) -> Option<char> {
    of(s, &dict().new_chars, &dict().chars).copied()
}
pub fn real(s: &mut Src) -> Option<&'static str> {
    of(s, &dict().new_reals, &dict().reals).map(|x| x.as_str())
}

/// How many statements a very long text has.
pub fn giant(s: &mut Src) -> usize {
    let big = &dict().big;
    if !big.is_empty() && !s.one_in(3) {
        return *s.pick(big);
    }
    *s.pick(&[32_766usize, 32_769, 65_534, 65_537, 66_000, 70_001])
}

/// Whether it is time for a very long text.
pub fn giant_now(s: &mut Src) -> bool {
    s.one_in(if dict().big.is_empty() { 300 } else { 100 }) && !cfg!(miri)
}

fn collect(dir: &str, depth: usize, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let s = p.to_string_lossy().to_string();
        let name = e.file_name().to_string_lossy().to_string();
        if name.starts_with("test") {
            continue;
        }
        if p.is_dir() && depth < 6 {
            collect(&s, depth + 1, out);
        } else if name.ends_with(".rs") {
            out.push(s);
        }
    }
}

fn harvest(text: &str, f: &mut Found) {
    let Found { ints, strings, chars, reals } = f;
    for line in text.lines() {
        let line = line.trim_start();
        if line.starts_with("//") {
            continue;
        }
        // string literals
        let mut rest = line;
        while let Some(i) = rest.find('"') {
            let mut out = String::new();
            let mut it = rest[i + 1..].char_indices();
            let mut end = None;
            while let Some((j, c)) = it.next() {
                match c {
                    '\\' => {
                        if let Some((k, c)) = it.next() {
                            let code = &rest[i + 1 + k..];
                            let hex = match c {
                                'u' => code.strip_prefix("u{").and_then(|h| h.split_once('}')).map(|(h, _)| (h, h.len() + 2)),
                                'x' => code.get(1..3).map(|h| (h, 2)),
                                _ => None,
                            };
                            if let Some((c, n)) = hex.and_then(|(h, n)| Some((u32::from_str_radix(h, 16).ok().and_then(char::from_u32)?, n))) {
                                out.push(c);
                                for _ in 0..n {
                                    it.next();
                                }
                                continue;
                            }
                            out.push(match c {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                '0' => '\0',
                                c => c,
                            });
                        }
                    }
                    '"' => {
                        end = Some(j);
                        break;
                    }
                    c => out.push(c),
                }
            }
            if !out.is_empty() && out.len() < 80 {
                strings.insert(out);
            }
            match end {
                Some(j) => rest = &rest[i + 1 + j + 1..],
                None => break,
            }
        }
        // character literals
        let mut rest = line;
        while let Some(i) = rest.find('\'') {
            let body = &rest[i + 1..];
            let c = match body.strip_prefix('\\') {
                None => body.chars().next().filter(|c| body[c.len_utf8()..].starts_with('\'')),
                Some(e) => match e.chars().next() {
                    Some('u') => e.strip_prefix("u{").and_then(|h| h.split_once('}')).and_then(|(h, _)| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32),
                    Some('x') => e.get(1..3).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32),
                    Some('n') => Some('\n'),
                    Some('t') => Some('\t'),
                    Some('r') => Some('\r'),
                    Some('0') => Some('\0'),
                    Some(c @ ('\\' | '\'' | '"')) => Some(c),
                    _ => None,
                },
            };
            chars.extend(c);
            let past = body.chars().next().map_or(0, |c| c.len_utf8());
            // past the literal, or past the quote of a lifetime
            let skip = if c.is_some() { past + body[past..].find('\'').map_or(0, |k| k + 1) } else { 0 };
            rest = &body[skip..];
        }
        // real literals
        for word in line.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '_' || c == '-' || c == '+')) {
            let t = word.trim_start_matches(['-', '+']);
            let t = t.strip_suffix("f32").or_else(|| t.strip_suffix("f64")).unwrap_or(t).replace('_', "");
            if t.starts_with(|c: char| c.is_ascii_digit()) && t.contains(['.', 'e', 'E']) && !t.starts_with("0x") && crate::gen::is_number(&t) {
                reals.insert(t);
            }
        }
        for (name, v) in [("EPSILON", f32::EPSILON), ("MIN_POSITIVE", f32::MIN_POSITIVE), ("f32::MAX", f32::MAX)] {
            if line.contains(name) {
                reals.insert(format!("{v}"));
            }
        }
        // integer literals
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let start_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if b[i].is_ascii_digit() && start_ok {
                let (radix, from) = if line[i..].starts_with("0x") { (16, i + 2) } else { (10, i) };
                let mut j = from;
                let mut digits = String::new();
                while j < b.len() && ((b[j] as char).is_digit(radix) || b[j] == b'_') {
                    if b[j] != b'_' {
                        digits.push(b[j] as char);
                    }
                    j += 1;
                }
                if let Ok(v) = i64::from_str_radix(&digits, radix) {
                    ints.insert(v);
                    // `1 << 20`
                    let shift = line[j..].trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_').trim_start().strip_prefix("<<");
                    let by: String = shift.unwrap_or("").trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Some(v) = by.parse::<u32>().ok().filter(|b| *b < 62).and_then(|b| v.checked_mul(1 << b)) {
                        ints.insert(v);
                    }
                }
                i = j.max(i + 1);
            } else {
                i += 1;
            }
        }
    }
}

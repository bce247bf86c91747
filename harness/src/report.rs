//! What one worker saw.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub what: String,
    /// What to look at or run again: texts, named.
    pub texts: Vec<(String, String)>,
}

impl Violation {
    pub fn of(what: impl Into<String>, texts: &[(&str, &str)]) -> Violation {
        Violation {
            what: what.into(),
            texts: texts.iter().map(|(n, t)| (n.to_string(), t.to_string())).collect(),
        }
    }
}

pub type Verdict = Result<(), Violation>;

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub stats: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub replaying: bool,
}

impl Ctx {
    pub fn new(tier: Tier, seed: u64) -> Ctx {
        Ctx {
            tier,
            seed,
            stats: BTreeMap::new(),
            seen: HashSet::new(),
            evaluations: 0,
            samples: Vec::new(),
            replaying: false,
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        match self.stats.get_mut(key) {
            Some(x) => *x += n,
            None => {
                self.stats.insert(key.into(), n);
            }
        }
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let key = format!("max {key}");
        let e = self.stats.entry(key).or_default();
        *e = (*e).max(n);
    }
    /// One evaluation; remembered if it is a non-trivial case.
    pub fn case(&mut self, text: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.seen.insert(crate::src::hash_str(text)) && text.len() < 400 && self.samples.len() < 40 {
            let n = self.seen.len();
            if n.is_power_of_two() || self.samples.len() < 2 {
                self.samples.push(text.to_string());
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "E\t{}", self.evaluations);
        let mut h: Vec<_> = self.seen.iter().collect();
        h.sort();
        for x in h {
            let _ = writeln!(o, "D\t{x:x}");
        }
        for (k, v) in &self.stats {
            let _ = writeln!(o, "S\t{k}\t{v}");
        }
        for s in &self.samples {
            let _ = writeln!(o, "X\t{}", json(s));
        }
        o
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

//! Texts nobody would write: soups, mutations, multibyte characters where a
//! keyword could start, malformed numbers, very long tokens.
use crate::dict;
use crate::gen::*;
use crate::src::Src;
use crate::{bad, mtl, obj};

const SEPS: &[&str] = &[" ", " ", " ", "\n", "\n", "\t", "\r\n", "\r", "", "", "  ", "/", "//", "#", "\u{a0}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\\\n", "\0"];
const ODD: &[&str] = &[
    "\u{212A}", "\u{212A}a", "\u{212A}d", "\u{212A}s", "\u{17F}", "map_\u{212A}a", "map_\u{212A}d", "map_Kſ", "ſ", "di\u{17F}p", "İllum",
    "ıllum", "N\u{130}", "n\u{131}", "Kſ 1 1 1", "ﬀ", "é", "e\u{301}", "日", "🦀", "\u{10FFFF}", "\u{FEFF}", "\u{0}", "\u{1b}[0m", "%s%n", "{}",
    "-", "+", ".", "-.", "+.", "..", "1..2", "1.2.3", "--1", "+-1", "1e", "1e+", "1.e", "e5", ".e5", "1.5e", "1e5e5", "1e99999999999999999999",
    "0x10", "1_000", "1,5", "nan", "NaN", "inf", "-inf", "infinity", "1f", "1e-", "1/2/3/4", "1///2", "/", "//", "///", "1/", "/1", "-/-", "1/-2/+3",
    "999999999999999999999999", "-2147483648", "-2147483649", "2147483647", "2147483648", "0", "-0", "on", "off", "ON", "oFF", "onn", "o ff",
    "#", "##", "# #", "\"", "'", "\\", "<xml>", "mg 1", "cstype bezier", "deg 3", "end", "curv 0 1", "call a.obj", "map_Bump x", "Pr 0.5", "norm n.png",
];

fn token(s: &mut Src) -> String {
    match s.below(14) {
        0..=2 => s.pick(OBJ_WORDS).to_string(),
        3..=5 => s.pick(MTL_WORDS).to_string(),
        6 | 7 => num(s).text,
        8 => int_lit(s, true).text,
        9 => name(s),
        10 | 11 => s.pick(ODD).to_string(),
        12 => match (dict::string(s), dict::character(s)) {
            (Some(t), _) if s.flip() => t.to_string(),
            (_, Some(c)) => c.to_string(),
            _ => "x".into(),
        },
        _ => {
            let n = s.range(1, 4);
            (0..n).filter_map(|_| char::from_u32(s.u32() % 0x110000)).collect()
        }
    }
}

pub fn soup(s: &mut Src) -> String {
    let n = match s.below(6) {
        0..=3 => s.range(1, 12),
        4 => s.range(1, 60),
        _ => s.range(1, 300),
    };
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&token(s));
        t.push_str(s.pick(SEPS));
        if s.exhausted() {
            break;
        }
    }
    t
}

pub fn program_text(s: &mut Src) -> String {
    let is_mtl = s.flip();
    let mut words = if is_mtl {
        mtl::words(&mtl::program(s, &mtl::Profile::mixed(), false))
    } else {
        obj::words(&obj::program(s, &obj::Profile::mixed(), false))
    };
    bad::open_up(s, is_mtl, &mut words);
    if s.one_in(4) {
        stretch(s, &mut words);
    }
    layout(s, &words)
}

/// Makes some of the names long.
fn stretch(s: &mut Src, words: &mut [Words]) {
    for line in words {
        for w in &mut line.args {
            if !w.fold && w.text.starts_with(|c: char| c.is_alphabetic()) && s.one_in(3) {
                let most = if s.one_in(8) { 300 } else { 40 };
                let (unit, n) = (*s.pick(&["x", "_y", "é", "Ab9", "日", "0"]), s.range(1, most));
                w.text.push_str(&unit.repeat(n));
            }
        }
    }
}

/// More than 30000 statements.
pub fn giant_text(s: &mut Src) -> String {
    let words = if s.flip() {
        obj::words(&obj::giant_program(s, &obj::Profile::mixed()))
    } else {
        mtl::words(&mtl::giant_program(s, &mtl::Profile::mixed()))
    };
    plain(&words)
}

pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..s.range(1, 6) {
        let i = s.below(c.len() + 1);
        match s.below(12) {
            9 => {
                // two characters of one word change places
                let word = |k: usize| c.get(k).is_some_and(|x| !x.is_whitespace());
                let a = (0..i).rev().take_while(|k| word(*k)).last().unwrap_or(i);
                let e = (i..c.len()).take_while(|k| word(*k)).last().map_or(i, |k| k + 1);
                if e > a + 1 {
                    let (x, y) = (a + s.below(e - a), a + s.below(e - a));
                    c.swap(x, y);
                }
            }
            10 if i < c.len() => {
                // another character of the same sort
                c[i] = match c[i] {
                    '0'..='9' => *s.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']),
                    'a'..='z' => (b'a' + s.below(26) as u8) as char,
                    'A'..='Z' => (b'A' + s.below(26) as u8) as char,
                    x => x,
                };
            }
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => {
                let x: Vec<char> = token(s).chars().collect();
                c.splice(i..i, x);
            }
            2 => {
                let x: Vec<char> = s.pick(SEPS).chars().collect();
                c.splice(i..i, x);
            }
            3 => c.truncate(i),
            4 => {
                let j = s.below(c.len() + 1);
                let (i, j) = (i.min(j), i.max(j));
                let x: Vec<char> = c[i..j.min(i + 80)].to_vec();
                c.splice(i..i, x);
            }
            5 => {
                let j = s.below(c.len() + 1);
                let (i, j) = (i.min(j), i.max(j));
                c.drain(i..j.min(i + 40));
            }
            6 if i < c.len() => c[i] = char::from_u32(s.u32() % 0x110000).unwrap_or('?'),
            7 if i < c.len() => {
                let x = s.pick(ODD).chars();
                c.splice(i..i + 1, x);
            }
            _ if i < c.len() => {
                let u: Vec<char> = if s.flip() { c[i].to_uppercase().collect() } else { c[i].to_lowercase().collect() };
                c.splice(i..i + 1, u);
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

/// The same text with every word that is no keyword changed a little: two
/// inner characters change places, so that lengths and ends stay.
pub fn twisted(s: &mut Src, text: &str) -> String {
    let mut out = String::new();
    for line in text.split_inclusive('\n') {
        let mut first = true;
        for part in line.split_inclusive(|c: char| c == ' ' || c == '\t' || c == '\n') {
            let mut c: Vec<char> = part.chars().collect();
            let n = c.iter().take_while(|x| !x.is_whitespace()).count();
            if !first && n >= 4 {
                let (x, y) = (1 + s.below(n - 2), 1 + s.below(n - 2));
                c.swap(x, y);
            } else if !first && n >= 2 && s.one_in(4) {
                c.swap(0, n - 1);
            }
            first &= n == 0;
            out.extend(c);
        }
    }
    out
}

/// A keyword or option with one odd character put in at some place.
pub fn spliced_keyword(s: &mut Src) -> String {
    let k = if s.flip() { s.pick(OBJ_WORDS) } else { s.pick(MTL_WORDS) };
    let mut c: Vec<char> = k.chars().collect();
    let i = s.below(c.len() + 1);
    let x = *s.pick(&['\u{212A}', 'ſ', 'İ', 'ı', 'é', '\u{301}', '日', '🦀', '\u{0}', '\u{a0}', 'ß', 'ﬀ', '\u{1E9E}']);
    if s.flip() || i == c.len() {
        c.insert(i, x);
    } else {
        c[i] = x;
    }
    let mut t = String::new();
    if s.flip() {
        t.push_str(&soup(s));
        t.push_str(s.pick(SEPS));
    }
    t.extend(c);
    t.push_str(s.pick(&["", " ", "\n", " 1 2 3\n", " a\n", " on", "\t1"]));
    if s.flip() {
        t.push_str(&soup(s));
    }
    t
}

pub fn number_soup(s: &mut Src) -> String {
    let key = s.pick(&["v ", "f ", "vt ", "l ", "p ", "s ", "lod ", "newmtl a\nNs ", "newmtl a\nKd ", "newmtl a\nillum ", "newmtl a\nmap_Kd -texres ", ""]);
    let mut t = key.to_string();
    for _ in 0..s.range(1, 6) {
        let n = s.range(1, 10);
        for _ in 0..n {
            t.push(*s.pick(&['0', '1', '9', '5', '.', 'e', 'E', '+', '-', '/', '#', '_']));
        }
        t.push_str(s.pick(SEPS));
    }
    t
}

/// One fragment very often.
pub fn long(s: &mut Src, max: usize) -> String {
    let unit = match s.below(24) {
        0 => "v 1 2 3\n".to_string(),
        1 => "f 1/2/3 4//5 6\n".into(),
        2 => " ".into(),
        3 => "\n".into(),
        4 => "#".into(),
        5 => "# c\n".into(),
        6 => "1".into(),
        7 => "1.".into(),
        8 => "/".into(),
        9 => "1/".into(),
        10 => "-".into(),
        11 => "a".into(),
        12 => "\u{212A}".into(),
        13 => "g a b c\n".into(),
        14 => "g ".into(),
        15 => "newmtl a\n".into(),
        16 => "newmtl ".into(),
        17 => "newmtl a\nKd 1 1 1\n".into(),
        18 => "map_Kd -s 1 2 3 a.png\n".into(),
        19 => "\r".into(),
        20 => "\t".into(),
        21 => "usemtl x\n".into(),
        22 => "-o 1 ".into(),
        _ => token(s) + " ",
    };
    let n = match s.below(4) {
        0 => dict::int(s).clamp(1, 5000) as usize,
        1 => s.range(1, 200),
        _ => s.range(1, max / unit.len().max(1) + 1),
    };
    let head = s.pick(&["", "f ", "v ", "p ", "l ", "g ", "usemtl ", "newmtl ", "newmtl a\n", "newmtl a\nmap_Kd ", "newmtl a\nNs ", "#", "s ", "mtllib ", "v 1 2 3\n", "v 0.", "v 1e"]);
    let tail = s.pick(&["", "\n", " 1 2 3", "x", "\nfoo\n"]);
    format!("{head}{}{tail}", unit.repeat(n))
}

const LONG_HEADS: &[&str] = &[
    "", "#", "v ", "vn ", "vt ", "vp ", "f ", "l ", "p ", "g ", "s ", "o ", "usemtl ", "usemap ", "mtllib ", "maplib ", "shadow_obj ", "trace_obj ", "bevel ", "lod ", "newmtl ", "newmtl a\nKa ", "newmtl a\nKs spectral ",
    "newmtl a\nKe xyz ", "newmtl a\nNs ", "newmtl a\nd -halo ", "newmtl a\nillum ", "newmtl a\nmap_aat ", "newmtl a\nmap_Ka ", "newmtl a\nmap_d ", "newmtl a\nbump -bm 1 ", "newmtl a\nrefl -type sphere ",
    "newmtl a\ndecal -texres ", "newmtl a\ndisp -imfchan ",
];
const LONG_UNITS: &[&str] = &["1 ", "1/1 ", "1/1/1 ", "1//1 ", "-1 ", "0.5 ", "a ", "a/", "//", "\\", "1", "0", "é", "-", ".", " #", "a#", "\t", "on ", "\\\n", "-o 1 ", "-clamp on ", "%20", "..", "\"", "e1"];
const LONG_TAILS: &[&str] = &["", " 1 2 3", "b"];

pub fn long_size() -> u64 {
    (LONG_HEADS.len() * LONG_UNITS.len()) as u64
}

/// One fragment more often than 16 bits count, as argument of one statement.
pub fn nth_long(i: u64) -> String {
    let (h, u) = (i as usize / LONG_UNITS.len(), i as usize % LONG_UNITS.len());
    format!("{}{}{}\n", LONG_HEADS[h], LONG_UNITS[u].repeat(66_000), LONG_TAILS[(h + u) % 3])
}

pub fn text(s: &mut Src) -> (&'static str, String) {
    match s.below(16) {
        0..=3 => ("soup", soup(s)),
        4..=8 => {
            let t = program_text(s);
            ("mutation", mutate(s, &t))
        }
        9 | 10 => ("keyword", spliced_keyword(s)),
        11 | 12 => ("number", number_soup(s)),
        13 => {
            let n = s.range(0, 40);
            let t = (0..n).filter_map(|_| char::from_u32(if s.flip() { s.u32() % 0x80 } else { s.u32() % 0x110000 })).collect();
            ("random", t)
        }
        14 => ("valid", program_text(s)),
        _ => ("long", long(s, 3000)),
    }
}

/// The alphabet of the exhaustive enumeration of short texts.
pub const LETTERS: &[char] = &['\n', ' ', '1', '/', '#', '-', '.', 'e', 'v', 'g', 'd', '\u{212A}'];
pub const FRAGMENTS: &[&str] = &[
    "v ", "vt ", "vp ", "f ", "l ", "p ", "g ", "g", "s ", "o ", "usemtl ", "usemap ", "mtllib ", "bevel ", "lod ", "newmtl ", "Ka ", "d ", "-halo ", "illum ", "map_Kd ",
    "map_aat ", "bump ", "refl ", "-o ", "-bm ", "-clamp ", "-texres ", "spectral ", "xyz ", "1 ", "-2 ", "0.5 ", "1/ ", "1/2 ", "1//3 ", "/ ", "on ", "off ", "x ", "\n",
    "# c\n", "\r\n", "-", "1e9 ", "300 ",
];

pub fn nth_letters(mut i: u64, len: usize) -> String {
    let mut t = String::new();
    for _ in 0..len {
        t.push(LETTERS[(i % LETTERS.len() as u64) as usize]);
        i /= LETTERS.len() as u64;
    }
    t
}
pub fn nth_fragments(mut i: u64, len: usize) -> String {
    let mut t = String::new();
    for _ in 0..len {
        t.push_str(FRAGMENTS[(i % FRAGMENTS.len() as u64) as usize]);
        i /= FRAGMENTS.len() as u64;
    }
    t
}

const TEMPLATES: &[&str] = &[
    "v 1 2 3 4", "vn 1 2 3", "vt 1 2 3", "vp 1 2 3", "f 1/2/3 4//5 6/7 8", "l 1 2/3", "p 1 2", "g a b", "s 1", "s off", "o a", "usemtl a b", "usemap a", "usemap off", "mtllib a b", "maplib a b",
    "shadow_obj a", "trace_obj a", "bevel on", "c_interp off", "d_interp on", "lod 1", "newmtl a", "Ka 1 1 1", "Kd spectral a 1", "Ks xyz 1 1 1", "Ke 1 1 1", "Tf 1 1 1", "Ns 1", "Ni 1", "Tr 1", "d 1", "d -halo 1", "sharpness 1",
    "illum 1", "map_aat on", "map_Ka -blendu on -blendv off a", "map_Kd -cc on -clamp on a -mm 1 2", "map_Ks -o 1 2 3 -s 1 2 3 a", "map_Ns -t 1 2 3 a", "map_d -texres 1 a", "disp -type sphere a", "decal -imfchan l a",
    "bump -bm 1 a", "refl -boost 1 a", "# comment here",
];
const WIDE: &[char] = &['é', '日', '🦀'];
const WIDE_AT: usize = 34;

pub fn wide_size() -> u64 {
    TEMPLATES.iter().map(|t| t.split(' ').count() as u64).sum::<u64>() * (WIDE.len() * WIDE_AT * 2) as u64
}

/// One word of a statement replaced by one (or, for odd `i`, lengthened to one)
/// with a wide character at a given byte.
pub fn nth_wide(i: u64) -> String {
    let grow = i % 2 == 1;
    let i = (i / 2) as usize;
    let (c, i) = (WIDE[i % WIDE.len()], i / WIDE.len());
    let (at, mut i) = (i % WIDE_AT, i / WIDE_AT);
    for t in TEMPLATES {
        let mut w: Vec<String> = t.split(' ').map(|x| x.to_string()).collect();
        if i >= w.len() {
            i -= w.len();
            continue;
        }
        let fill = if grow { "1" } else { "x" };
        let old = if grow { w[i].clone() } else { String::new() };
        w[i] = format!("{old}{}{c}{}", fill.repeat(at), fill.repeat(at % 5));
        let head = if t.starts_with(|c: char| c.is_uppercase()) || t.contains("map_") || t.len() > 40 { "newmtl a\n" } else { "" };
        return format!("{head}{}\n", w.join(" "));
    }
    String::new()
}

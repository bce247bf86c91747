//! Numbers, names and layouts.
use crate::dict;
use crate::src::Src;

/// A real number as written, and the value it must be read as.
#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub text: String,
    pub val: f32,
}

impl Num {
    pub fn of(text: impl Into<String>) -> Num {
        let text = text.into();
        let val = text.parse::<f32>().expect("generator wrote a number");
        Num { text, val }
    }
}

/// An integer as written, and its value.
#[derive(Clone, Debug, PartialEq)]
pub struct IntLit {
    pub text: String,
    pub val: i32,
}

pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_opt(a: Option<f32>, b: Option<f32>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}

fn digits(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

fn sign(s: &mut Src) -> &'static str {
    ["", "", "", "-", "-", "+"][s.below(6)]
}

pub fn int_from(s: &mut Src, val: i32) -> IntLit {
    let mag = (val as i64).abs();
    let sg = if val < 0 {
        "-"
    } else if s.one_in(16) {
        "+"
    } else {
        ""
    };
    let zeros = if s.one_in(16) {
        let n = s.range(1, 12);
        "0".repeat(n)
    } else {
        String::new()
    };
    IntLit { text: format!("{sg}{zeros}{mag}"), val }
}

/// A non-negative value in the i32 range, with the awkward ones well represented.
pub fn nat(s: &mut Src) -> i32 {
    match s.below(12) {
        0..=5 => s.range(1, 12) as i32,
        6 => s.below(300) as i32,
        7 => s.below(70000) as i32,
        8 => *s.pick(&[0, 1, i32::MAX, i32::MAX - 1, 16777215, 16777216, 16777217, 255, 256, 65535, 65536]),
        9 | 10 => dict::int(s).clamp(0, i32::MAX as i64) as i32,
        _ => (s.u32() >> 1) as i32,
    }
}

pub fn int_lit(s: &mut Src, negative: bool) -> IntLit {
    let v = nat(s);
    let v = if negative && s.one_in(3) {
        if s.one_in(40) {
            i32::MIN
        } else {
            -v
        }
    } else {
        v
    };
    int_from(s, v)
}

/// Numbers that are often something's default.
pub const PLAIN_NUMBERS: [&str; 12] = ["0", "1", "0.5", "-1", "2", "0.0", "1.0", "10", "100", "255", "0.8", "1000"];

/// Every list of `n` of the first `k` of these.
pub fn grid(n: usize, k: usize) -> Vec<Vec<Num>> {
    let mut all = vec![Vec::new()];
    for _ in 0..n {
        all = all.iter().flat_map(|l: &Vec<Num>| PLAIN_NUMBERS[..k].iter().map(|x| [&l[..], &[Num::of(*x)]].concat()).collect::<Vec<_>>()).collect();
    }
    all
}

/// Numbers that stand together: any, all alike, or all plain.
pub fn nums(s: &mut Src, n: usize) -> Vec<Num> {
    match s.below(8) {
        0 => (0..n).map(|_| Num::of(*s.pick(&PLAIN_NUMBERS))).collect(),
        1 => {
            let x = Num::of(*s.pick(&PLAIN_NUMBERS[..6]));
            vec![x; n]
        }
        2 => {
            let x = num(s);
            vec![x; n]
        }
        _ => (0..n).map(|_| num(s)).collect(),
    }
}

/// Everyday numbers.
pub fn num(s: &mut Src) -> Num {
    let t = match s.below(18) {
        16 => s.pick(&PLAIN_NUMBERS).to_string(),
        0..=2 => format!("{}{}", sign(s), s.below(20)),
        3 => return spelled(s),
        4..=6 => {
            let (a, b) = (s.below(1000), s.range(1, 6));
            format!("{}{}.{}", sign(s), a, digits(s, b))
        }
        7 => {
            let n = s.range(1, 8);
            format!("{}.{}", sign(s), digits(s, n))
        }
        8 => format!("{}{}.", sign(s), s.below(10000)),
        9 => {
            let (a, b) = (s.below(100), s.range(1, 4));
            format!("{}{}.{}{}{}{}", sign(s), a, digits(s, b), s.pick(&["e", "E"]), s.pick(&["", "+", "-"]), s.below(12))
        }
        10 => format!("{}{}{}{}{}", sign(s), s.below(100), s.pick(&["e", "E"]), s.pick(&["", "+", "-"]), s.below(12)),
        11 => return hard_num(s),
        12 => {
            let v = f32::from_bits(s.u32());
            if v.is_finite() {
                format!("{v}")
            } else {
                "0.0".into()
            }
        }
        13 => {
            let v = f32::from_bits(s.u32());
            if v.is_finite() {
                format!("{v:e}")
            } else {
                "1.0".into()
            }
        }
        14 => match dict::real(s) {
            Some(t) if s.flip() => format!("{}{t}", sign(s)),
            _ => format!("{}{}", sign(s), dict::int(s)),
        },
        _ => {
            let z = s.range(1, 4);
            format!("{}{}{}.{}", sign(s), "0".repeat(z), s.below(50), "0".repeat(z))
        }
    };
    Num::of(t)
}

/// Any way a number may be spelled.
pub fn spelled(s: &mut Src) -> Num {
    let zeros = |s: &mut Src| "0".repeat(if s.one_in(3) { s.range(1, 3) } else { 0 });
    let mut t = sign(s).to_string();
    let whole = !s.one_in(3);
    if whole {
        t.push_str(&zeros(s));
        let n = s.range(1, 4);
        t.push_str(&digits(s, n));
    }
    if !whole || s.flip() {
        t.push('.');
        if !whole || s.flip() {
            t.push_str(&zeros(s));
            let n = s.range(1, 4);
            t.push_str(&digits(s, n));
            t.push_str(&zeros(s));
        }
    }
    if s.flip() {
        t.push_str(s.pick(&["e", "E"]));
        t.push_str(s.pick(&["", "+", "-"]));
        t.push_str(&zeros(s));
        let most = if s.flip() { 10 } else { 42 };
        t.push_str(&s.below(most).to_string());
    }
    Num::of(t)
}

/// Every spelling of a number of up to `max` of the characters `0 5 . e + -`
/// (with `E` for `e` in every other one).
pub fn all_spellings(max: usize) -> Vec<Num> {
    let mut out = Vec::new();
    let mut words = vec![String::new()];
    for _ in 0..max {
        let longer: Vec<String> = words.iter().flat_map(|t| "05.e+-".chars().map(move |c| format!("{t}{c}"))).collect();
        // what cannot become a number any more
        words = longer.into_iter().filter(|t| is_number(t) || is_number(&format!("{t}0"))).collect();
        for t in words.iter().filter(|t| is_number(t)) {
            out.push(Num::of(if out.len() % 2 == 0 { t.clone() } else { t.replace('e', "E") }));
        }
    }
    out
}

/// Numbers of long runs of digits before and after the point, of every length
/// up to fifty.
pub fn run_spellings() -> Vec<Num> {
    let shapes = |k: usize| -> Vec<String> {
        let run = |c: &str| c.repeat(k);
        vec![run("0"), run("0") + "7", String::from("3") + &run("0"), run("9"), run("12345678905")[..k].to_string(), run("5") + "1"]
    };
    let mut wholes = vec![String::new(), "0".into(), "6".into()];
    for k in [1, 2, 7, 8, 9, 10, 16, 19, 20, 32, 39] {
        wholes.extend(shapes(k));
    }
    let mut fractions = vec![String::new(), ".".into()];
    for k in 1..=50 {
        fractions.extend(shapes(k).into_iter().map(|f| format!(".{f}")));
    }
    let exponents = ["", "e5", "E-6", "e+0012", "e-38", "E0"];
    let mut out = Vec::new();
    for (i, w) in wholes.iter().enumerate() {
        for (j, f) in fractions.iter().enumerate() {
            if w.is_empty() && f.len() < 2 {
                continue;
            }
            // all exponents with each fraction, if not with each whole part
            for e in [exponents[(i + j) % 6], exponents[(i * 5 + j + 3) % 6]] {
                out.push(Num::of(format!("{}{w}{f}{e}", ["", "-", "", "+"][(i + j) % 4])));
            }
        }
    }
    out
}

/// Digits in runs: of one digit or of any, long or short.
pub fn runs(s: &mut Src) -> Num {
    fn part(s: &mut Src, most: usize) -> String {
        let mut t = String::new();
        for _ in 0..s.range(0, 3) {
            let n = match s.below(4) {
                0 => 1,
                1 => s.range(1, 5),
                2 => s.range(1, most.div_ceil(2)),
                _ => s.range(1, most),
            };
            match s.below(5) {
                0 | 1 => t.push_str(&"0".repeat(n)),
                2 => t.push_str(&"9".repeat(n)),
                3 => t.push_str(&s.pick(&["1", "5", "4"]).repeat(n)),
                _ => t.push_str(&digits(s, n)),
            }
        }
        t
    }
    let mut t = sign(s).to_string();
    let whole = part(s, 40);
    let fraction = part(s, 60);
    t.push_str(&whole);
    if whole.is_empty() || s.one_in(3) || !fraction.is_empty() {
        t.push('.');
        t.push_str(&fraction);
        if whole.is_empty() && fraction.is_empty() {
            t.push('0');
        }
    }
    if s.flip() {
        t.push_str(s.pick(&["e", "E"]));
        t.push_str(s.pick(&["", "+", "-"]));
        if s.one_in(3) {
            let n = s.range(1, 30);
            t.push_str(&"0".repeat(n));
        }
        let most = *s.pick(&[3, 12, 45, 80]);
        t.push_str(&s.below(most).to_string());
    }
    Num::of(t)
}

/// Numbers whose conversion is easy to get wrong: exact midpoints between
/// neighbouring floats and their nearest neighbours, long digit strings,
/// subnormals, overflow and underflow, integers beyond 24 and 32 bits.
pub fn hard_num(s: &mut Src) -> Num {
    let sg = sign(s);
    let finite = |s: &mut Src| loop {
        let b = match s.below(4) {
            0 => s.u32() & 0x7fff_ffff,
            1 => s.u32() & 0x007f_ffff,                         // subnormal
            2 => (s.range(100, 160) as u32) << 23 | s.u32() & 0x7f_ffff, // moderate
            _ => (s.range(120, 152) as u32) << 23 | s.u32() & 0x7f_ffff,
        };
        let v = f32::from_bits(b);
        if v.is_finite() {
            return v;
        }
        if s.exhausted() {
            return 1.5;
        }
    };
    let t = match s.below(15) {
        12 => return spelled(s),
        13 | 14 => return runs(s),
        0..=3 => {
            // midpoint of two neighbours, exactly representable in f64
            let a = finite(s);
            let b = f32::from_bits(a.to_bits() + 1);
            let mid = if b.is_finite() { (a as f64 + b as f64) / 2.0 } else { a as f64 };
            let mut t = format!("{mid:.160}");
            if let Some(dot) = t.find('.') {
                let keep = t.trim_end_matches('0').len().max(dot + 2);
                t.truncate(keep);
            }
            match s.below(4) {
                0 => t,                                 // exactly half way
                1 => format!("{t}{}1", "0".repeat(s.range(0, 60))), // just above
                2 => {
                    // just below: last digit one less, then nines
                    let mut c: Vec<char> = t.chars().collect();
                    let l = c.len() - 1;
                    if let Some(d) = c[l].to_digit(10).filter(|d| *d > 0) {
                        c[l] = char::from_digit(d - 1, 10).unwrap();
                        let n = s.range(1, 60);
                        c.extend(std::iter::repeat_n('9', n));
                    }
                    c.into_iter().collect()
                }
                _ => format!("{mid:.60e}"),
            }
        }
        4 => {
            let n = s.range(1, 400);
            let m = s.range(0, 200);
            format!("{}.{}", digits(s, n), digits(s, m))
        }
        5 => {
            let v = finite(s);
            format!("{v:.150}")
        }
        6 => format!("{}.{}e{}{}", s.below(10), digits(s, 12), s.pick(&["", "+", "-"]), s.below(60)),
        7 => {
            // the decimal exponent cancels a shifted mantissa
            let k = s.range(1, 120);
            if s.flip() {
                let m = s.range(1, 9);
                format!("0.{}{}e{}", "0".repeat(k), digits(s, m), k)
            } else {
                let m = s.range(1, 9);
                format!("{}{}.0e-{}", digits(s, m), "0".repeat(k), k)
            }
        }
        8 => (*s.pick(&[
            "3.4028235e38", "3.40282347e38", "3.4028236e38", "3.402823567e38", "3.4028235677973366e38",
            "340282346638528859811704183484516925440.0", "340282356779733661637539395458142568448",
            "340282356779733661637539395458142568447", "1e39", "1e400", "1e-400", "1.4e-45", "7.0e-46",
            "7.1e-46", "1.1754944e-38", "1.1754943e-38", "1.17549435e-38", "1e-45", "1e-46", "0.0e99999", "0e5",
            "00000000000000000000000000000000000001", "1e0000000000000000000001", "0.1", "0.3", "16777217",
            "16777219.0", "33554435", "2147483647", "2147483648", "4294967296", "9007199254740993",
            "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890",
            "8388609.5", "8388608.5", "0.50000002980232238769531250", "1.00000017881393432617187499",
            "1.000000178813934326171875", "1.00000017881393432617187501", "1.00000017881393421514957253748434595763683319091796875001",
        ]))
        .to_string(),
        9 => format!("{}", s.u32()),
        10 => format!("{}", s.u64()),
        _ => format!("{}.{}", s.u64(), s.u64()),
    };
    Num::of(format!("{sg}{t}"))
}

pub fn is_number(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    let (a, b) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    let dig = |s: &str| s.bytes().all(|c| c.is_ascii_digit());
    dig(a)
        && dig(b)
        && a.len() + b.len() > 0
        && e.is_none_or(|e| {
            let e = e.strip_prefix(['+', '-']).unwrap_or(e);
            !e.is_empty() && dig(e)
        })
}

pub const MTL_WORDS: &[&str] = &[
    "newmtl", "ka", "kd", "ks", "ke", "ns", "tr", "spectral", "xyz", "d", "-halo", "tf", "sharpness", "ni", "illum",
    "map_disp", "map_ka", "map_kd", "map_ks", "map_ns", "map_aat", "map_d", "disp", "decal", "bump", "refl", "-type",
    "-texres", "-blendu", "-blendv", "-bm", "-boost", "-cc", "-clamp", "-imfchan", "-mm", "-o", "-s", "-t",
];

pub const OBJ_WORDS: &[&str] = &[
    "mtllib", "usemtl", "vt", "vn", "vp", "v", "f", "l", "p", "o", "g", "s", "bevel", "c_interp", "d_interp", "lod",
    "shadow_obj", "trace_obj", "maplib", "usemap",
];

const CHARS: &[char] = &[
    'a', 'b', 'c', 'x', 'z', 'A', 'B', 'K', 'Z', '0', '1', '9', '_', '-', '.', '/', '\\', ':', ',', ';', '(', ')', '[',
    ']', '{', '}', '\'', '"', '!', '?', '*', '+', '=', '&', '%', '$', '@', '^', '~', '|', '<', '>', '`', 'é', 'ß', 'Ж',
    'ı', 'İ', 'ſ', '\u{212A}', '\u{0301}', '漢', '字', 'ﬀ', '🦀', '\u{10FFFF}', '\u{7f}', '\u{1}', '\u{0}', '\u{200B}',
    '\u{FEFF}', '#',
];

/// About `n` bytes; in characters of one or of several bytes, so that any
/// position may fall inside one.
fn long_name(s: &mut Src, n: usize) -> String {
    let kind = s.below(4);
    let unit = *s.pick(&['é', 'Ж', '木', '🦀', '\u{212A}']);
    let shift = s.below(4);
    let mut t = "abc"[..shift.min(n)].to_string();
    while t.len() < n {
        t.push(match kind {
            0 | 1 => (b'a' + s.below(26) as u8) as char,
            2 => unit,
            _ => *s.pick(CHARS),
        });
    }
    t
}

/// One word: no blanks, does not start with '#'.
pub fn name(s: &mut Src) -> String {
    let mut t: String = match s.below(23) {
        21 => {
            // enclosed, or with something at an end
            let n = s.range(1, 5);
            let inner: String = (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect();
            let (a, b) = *s.pick(&[
                ("\"", "\""), ("'", "'"), ("`", "`"), ("<", ">"), ("(", ")"), ("[", "]"), ("{", "}"), ("$", ""), ("%", "%"), ("", ","), ("", ";"), ("", ":"), ("", "/"), ("/", ""), ("\\", ""), ("", "\\"), ("./", ""),
                ("", "."), (".", ""), ("-", ""), ("+", ""), ("", "-"), ("_", "_"), ("", "\""), ("\"", ""), ("", "*"), ("@", ""), ("", "\0"), ("\u{FEFF}", ""), ("", "="), ("0", ""), ("", "0"), ("&", ";"), ("\\", "\\n"), ("", "%20"), ("", "|"),
            ]);
            format!("{a}{inner}{b}")
        }
        0..=4 => {
            let n = s.range(1, 8);
            (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
        }
        5 => format!("{}{}", s.pick(&["cube", "Mesh", "mat", "group", "part", "tex"]), s.below(100)),
        6 => file(s),
        7 => {
            let drive = s.pick(&["C:", "c:", "D:", "..", ".", "", "~", "/usr", "\\\\srv", "//srv", "file://", "http://h", "$X", "%TMP%"]).to_string();
            let mut t = drive;
            for _ in 0..s.range(1, 3) {
                t.push_str(s.pick(&["/", "/", "\\", "\\", "//", "/./", "/../", "\\..\\"]));
                t.push_str(s.pick(&["a", "x", "tex", "1", "2", "Maps", "TEX", "b.d", "..", "n", "t", "r", "u"]));
            }
            if s.flip() {
                t.push_str(s.pick(&["/", "\\"]));
                t.push_str(&file(s));
            }
            t
        }
        8 => num(s).text,
        9 => format!("{}{}", num(s).text, s.pick(&["a", "_wood", "x", "/", "/2", ".png", "e", "#", "-"])),
        10 => s.pick(OBJ_WORDS).to_string(),
        11 => s.pick(MTL_WORDS).to_string(),
        12 => format!("{}{}", s.pick(OBJ_WORDS), s.pick(&["1", "_", "x", "/", ".obj"])),
        13 => format!("{}{}", s.pick(MTL_WORDS), s.pick(&["1", "_", "x", "/", ".png"])),
        14 => s.pick(&["default", "Default", "DEFAULT", "on", "off", "none", "null", "(null)", "true", "nan", "inf", "-", "+", ".", "-.", "e5", "1e", "0x10", "1_000", "a#b", "x#", "\"q\""]).to_string(),
        15 | 16 => {
            let n = s.range(1, 12);
            (0..n).map(|_| *s.pick(CHARS)).collect()
        }
        17 => {
            let n = *s.pick(&[15usize, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4097]);
            long_name(s, n)
        }
        18 => {
            let n = dict::int(s).clamp(1, 5000) as usize;
            if s.flip() {
                "n".repeat(n)
            } else {
                long_name(s, n)
            }
        }
        19 | 20 => {
            let t = dict::string(s).unwrap_or("n");
            // alone, or with something around it
            match s.below(6) {
                0 => format!("{t}{}", s.pick(&["a", "1", "_x", ".png", "é"])),
                1 => format!("{}{t}", s.pick(&["a", "1", "x_", "é"])),
                2 => format!("a{t}b"),
                _ => t.to_string(),
            }
        }
        22 if s.flip() => {
            let n = s.range(1, 4);
            let mut t: Vec<char> = (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect();
            for _ in 0..s.range(1, 2) {
                let i = s.below(t.len() + 1);
                t.insert(i, dict::character(s).unwrap_or('é'));
            }
            t.into_iter().collect()
        }
        22 => {
            // one of several ways of spelling the same, or nothing to see
            const SPELLINGS: &[&str] = &[
                "é", "e\u{301}", "Å", "A\u{30a}", "\u{212b}", "ñ", "n\u{303}", "ü", "u\u{308}", "ç", "c\u{327}", "ｱ", "ア", "が", "か\u{3099}", "가", "\u{1100}\u{1161}", "ﬁ", "fi", "ß", "ẞ", "ss", "ſ", "İ", "i\u{307}", "ı", "Σ", "σ", "ς", "Ω", "\u{2126}",
                "ǆ", "ǅ", "½", "²", "①", "Ⅳ", "…", "ﷺ", "\u{feff}", "\u{200b}", "\u{200c}", "\u{200d}", "\u{200e}", "\u{200f}", "\u{202e}", "\u{2060}", "\u{ad}", "\u{fe0e}", "\u{fe0f}", "\u{e0001}", "\u{1b}", "\u{7f}", "\u{1}", "\u{8}", "\u{1a}", "\u{0}", "\u{180e}", "\u{fffd}", "\u{ffff}",
                "\u{10ffff}", "\u{e000}", "\u{2019}", "’", "“", "”", "–", "—", "⁄", "∕", "＃", "／", "＋", "－", "０", "，", "．", "🏳\u{fe0f}\u{200d}🌈", "👩\u{200d}🔬", "\u{644}\u{627}", "ə", "ä", "a\u{308}", "ö", "Ö", "o\u{308}", "ł", "đ", "þ", "й", "и\u{306}", "ё", "е\u{308}",
            ];
            let n = s.range(1, 4);
            (0..n).map(|_| if s.one_in(3) { "a" } else { *s.pick(SPELLINGS) }).collect()
        }
        _ => s.pick(&["ÄÖÜ", "текстура", "木目", "K\u{212A}", "ſharp", "maſk", "日本語.png", "emoji🦀", "ﬀ"]).to_string(),
    };
    if s.one_in(12) {
        t = if s.flip() { t.to_uppercase() } else { t.to_lowercase() };
    }
    let mut t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
    while t.starts_with('#') {
        t.remove(0);
    }
    if t.is_empty() {
        t.push('n');
    }
    t
}

const STEMS: &[&str] = &["a", "Wood", "my_tex", "x-1", "..", "tex.final", "a.b", "A", "TEX", "wood_01", "1", "v1.2.3", ".hidden", "Stone Wall", "map_Kd", "é", "木", "x+y", "a,b", "a&b", "(1)", "x~1", "LONGNA~1"];
const EXTENSIONS: &[&str] = &[
    "png", "jpg", "jpeg", "bmp", "tga", "tif", "tiff", "gif", "dds", "exr", "hdr", "rgb", "sgi", "pic", "pcx", "psd", "ppm", "pgm", "pfm", "xpm", "webp", "ktx", "ktx2", "svg", "iff", "rla", "mpc", "mps", "mpb", "cxc", "cxs", "cxb", "cub", "cube",
    "rfl", "mtl", "obj", "map", "mod", "txt", "tar.gz", "bak", "png.bak", "1", "0", "", "x", "#1", "png~", "png?v=1", "png:1", "off", "on", "mtl2", "mtlx", "oBJ",
];

/// A file name with an extension, in upper or lower case.
pub fn file(s: &mut Src) -> String {
    let case = |s: &mut Src, t: &str| match s.below(8) {
        0 | 1 => t.to_ascii_uppercase(),
        2 => t[..1.min(t.len())].to_ascii_uppercase() + &t[1.min(t.len())..],
        _ => t.to_string(),
    };
    let stem = if s.one_in(4) { (0..s.range(1, 6)).map(|_| (b'a' + s.below(26) as u8) as char).collect() } else { s.pick(STEMS).to_string() };
    let stem = if s.one_in(8) { stem.to_ascii_uppercase() } else { stem };
    let e = s.pick(EXTENSIONS);
    format!("{stem}.{}", case(s, e))
}

/// Words with inner blanks; no comment inside.
pub fn text_name(s: &mut Src) -> String {
    let mut t = name(s);
    if s.one_in(3) {
        for _ in 0..s.range(1, 3) {
            let n = s.range(1, 3);
            for _ in 0..n {
                t.push(if s.one_in(4) { '\t' } else { ' ' });
            }
            t.push_str(&name(s));
        }
    }
    t
}

/// A texture file name the MTL guarantee covers.
pub fn mtl_file(s: &mut Src) -> String {
    loop {
        let t = name(s);
        if !is_number(&t) && !MTL_WORDS.contains(&t.to_ascii_lowercase().as_str()) {
            return t;
        }
        if s.exhausted() {
            return "file.png".into();
        }
    }
}

pub fn comment(s: &mut Src) -> String {
    let t = match s.below(9) {
        8 => {
            // what ends a line elsewhere
            let c = *s.pick(&['\u{85}', '\u{2028}', '\u{2029}', '\u{b}', '\u{c}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{a0}', '\u{0}', '\u{1a}', '\u{4}', ';', '\\']);
            format!(" {}{c}{}", s.pick(&["", "x", "a b"]), s.pick(&["", "v 1 2 3", " f 1 2 3", "s 4", "newmtl b", "Kd 1 1 1", " 7", "x", "usemtl q"]))
        }
        0 => String::new(),
        1 => " v 1 2 3".into(),
        2 => "f 1/2/3 4 5".into(),
        3 => "newmtl hidden".into(),
        4 => {
            let n = s.range(1, 30);
            (0..n).map(|_| *s.pick(CHARS)).collect()
        }
        5 => match (dict::string(s), dict::character(s)) {
            (Some(t), _) if s.flip() => t.to_string(),
            (_, Some(c)) => format!(" {}{c}{}", s.pick(&["", "x"]), s.pick(&["", "v 1 2 3", " Kd 1 1 1", "y"])),
            _ => " x".into(),
        },
        6 => " g a # b \t # c /* ".into(),
        _ => format!(" {}", name(s)),
    };
    t.chars().filter(|c| *c != '\n' && *c != '\r').collect()
}

/// One statement as words. A word may hold inner blanks when it is a name that
/// keeps them.
#[derive(Clone, Debug, PartialEq)]
pub struct Words {
    pub key: String,
    pub args: Vec<Word>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Word {
    pub text: String,
    /// Upper/lower case does not matter (keywords, options, on/off).
    pub fold: bool,
}

pub fn w(text: impl Into<String>) -> Word {
    Word { text: text.into(), fold: false }
}
pub fn kw(text: impl Into<String>) -> Word {
    Word { text: text.into(), fold: true }
}

fn recase(s: &mut Src, t: &str) -> String {
    match s.below(4) {
        0 => t.to_string(),
        1 => t.to_ascii_uppercase(),
        2 => t.to_ascii_lowercase(),
        _ => t.chars().map(|c| if s.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

fn blanks(s: &mut Src) -> String {
    match s.below(8) {
        0..=3 => " ".into(),
        4 => "\t".into(),
        5 => "  ".into(),
        6 => " \t ".into(),
        _ => {
            let n = if s.one_in(30) { s.range(1, 3000) } else { s.range(1, 9) };
            (0..n).map(|_| if s.one_in(3) { '\t' } else { ' ' }).collect()
        }
    }
}

/// The plainest text of a list of statements.
pub fn plain(words: &[Words]) -> String {
    let mut t = String::new();
    for st in words {
        t.push_str(&st.key);
        for a in &st.args {
            t.push(' ');
            t.push_str(&a.text);
        }
        t.push('\n');
    }
    t
}

/// A text of the same statements with an arbitrary layout.
pub fn layout(s: &mut Src, words: &[Words]) -> String {
    let case = s.flip();
    let indent = s.below(4);
    let seps = s.below(3);
    let trail = s.flip();
    let eol = s.below(3);
    let blank = s.flip();
    let comments = s.below(4);
    let mut t = String::new();
    let nl = |s: &mut Src, t: &mut String| {
        let crlf = match eol {
            0 => false,
            1 => true,
            _ => s.flip(),
        };
        t.push_str(if crlf { "\r\n" } else { "\n" });
    };
    let noise = |s: &mut Src, t: &mut String| {
        while blank && s.one_in(4) {
            if s.one_in(3) {
                t.push_str(&blanks(s));
            }
            nl(s, t);
        }
        while comments > 0 && s.one_in(6) {
            if s.flip() {
                t.push_str(&blanks(s));
            }
            t.push('#');
            t.push_str(&comment(s));
            nl(s, t);
        }
    };
    noise(s, &mut t);
    let last = words.len().wrapping_sub(1);
    for (i, st) in words.iter().enumerate() {
        if indent > 0 && s.below(4) < indent {
            t.push_str(&blanks(s));
        }
        t.push_str(&if case { recase(s, &st.key) } else { st.key.clone() });
        for a in &st.args {
            t.push_str(&if seps == 0 { " ".to_string() } else { blanks(s) });
            t.push_str(&if case && a.fold { recase(s, &a.text) } else { a.text.clone() });
        }
        if trail && s.one_in(3) {
            t.push_str(&blanks(s));
        }
        if comments > 1 && s.one_in(4) {
            t.push_str(&blanks(s));
            t.push('#');
            t.push_str(&comment(s));
        }
        if i == last && s.one_in(3) {
            return t;
        }
        nl(s, &mut t);
        noise(s, &mut t);
    }
    if s.one_in(8) {
        t.push('#');
        t.push_str(&comment(s));
    }
    t
}

//! Statements a load must not accept, among otherwise valid ones.
use crate::gen::*;
use crate::src::Src;
use crate::{mtl, obj};
use mtl::M;
use obj::O;

/// (is MTL, text)
pub const PROBES: &[(bool, &str)] = &[
    (false, "v 1 2 3\nfoo\nv 4 5 6\n"),
    (false, "mg 1\n"),
    (false, "v 1 2 3\ncstype bezier\nv 4 5 6\n"),
    (false, "bevel maybe\n"),
    (false, "lod 256\n"),
    (false, "v 1 2\n"),
    (false, "v 1 2 3 4 5\n"),
    (false, "f 1/2/3/4\n"),
    (false, "f\n"),
    (false, "g\nfoo\n"),
    (false, "g\n5\n"),
    (false, "usemtl\nv 1 2 3\n"),
    (false, "v 1 2 3\n)"),
    (false, "newmtl a\n"),
    (false, "vn 1 2\nv 1 2 3\n"),
    (false, "vn 1 2 3 4\n"),
    (false, "f 1.5 2 3\n"),
    (false, "call a.obj\n"),
    (false, "end\n"),
    (true, "newmtl a\nKd 1 1 1\nPr 0.5\nKs 1 1 1\n"),
    (true, "newmtl a\nmap_aat maybe\n"),
    (true, "newmtl a\nmap_Kd -clamp maybe x.png\n"),
    (true, "newmtl a\nmap_Kd\n"),
    (true, "newmtl a\nmap_Kd a.png b.png\n"),
    (true, "newmtl a\nmap_Kd my tex.png\n"),
    (true, "newmtl a\nillum -1\n"),
    (true, "newmtl a\nillum 1.5\n"),
    (true, "newmtl\nKd 1 1 1\n"),
    (true, "newmtl a b\n"),
    (true, "newmtl a\nfoo\n"),
    (true, "newmtl a\nKd 1 1 1 1\n"),
    (true, "newmtl a\nd -halo\n"),
    (true, "newmtl a\nv 1 2 3\n"),
    (true, "newmtl a\nKd 1 1 1\nmap_Ke x.png\nnewmtl b\n"),
];

const NOT_NUMBERS: &[&str] = &[
    "x", "abc", "on", "none", "nan", "NaN", "inf", "-inf", "infinity", "1.2.3", "--1", "+-1", "1e", "1e+", "0x10", "1,5",
    "1_0", "(1)", "1f", "½", "１", "٣", "1.5e", "-", "+", ".", "-.", "1e5e5", "1..2", "1%", "1e5.5", "\u{0}", "π", "1-2", "1+2", "1*2", "1\\2",
    "1.0.", "e5", "'1'", "1:2", "one", "1d5", "1.5D-3", "2.5d0", "1.5f", "1.0F", "1.0l", "1L", "1u", "1i", "0b1", "0o7", "0X1F", "1p3", "0x1p3", "+inf", "-nan", "INF",
    "1'000", "1e+-5", "1e--5", "1ee5", "1e5e", "1E5.", ".e5", "-.e5", "+.", "..", "1.-5", "1^2", "10**2", "1/2.5", "$1", "1$", "1h", "1px", "\u{2212}1", "\u{feff}1", "1\u{0}", "1\u{200b}", "१", "Ⅷ", "²", "∞", "1;", "1,", ",1", "=1", "1=", "~1", "!1", "<1>", "[1]", "{1}", "\"1\"", "`1`", "1\u{301}",
];
const GARBAGE: &[&str] = &[
    "foo", "foo bar", "foo 1 2 3", "_ 1", "?", "(", ")", "<obj>", "{", "}", "\"v\"", "'v'", "*", "=", "verts", "x 1 2 3", "face 1 2 3",
    "vertex 1 2 3", "normal 0 0 1", "group a", "material m", "object a", "line 1 2", "point 1", "日本", "é", "\u{FEFF}", "-", "+", ".", "\\", "\u{0}", "include a.obj",
    "version 1", "w 1 2 3", "fn 1", "vx 1 2 3", "vvv 1 2 3", "ff 1 2 3", "gg a", "usemat m", "use m", "matlib m", "mtl m", "lods 1", "bevels on", "smooth 1",
];
const OBJ_UNSUPPORTED: &[&str] = &[
    "mg 1 0.5", "mg off", "cstype bezier", "cstype rat bspline", "deg 3", "deg 3 3", "bmat u 1 0 0 1", "step 1", "step 1 1", "curv 0 1 1 2 3", "curv2 1 2 3",
    "surf 0 1 0 1 1 2 3 4", "parm u 0 1", "parm v 0 1", "trim 0 1 1", "hole 0 1 1", "scrv 0 1 1", "sp 1 2", "end", "con 1 0 1 1 2 0 1 2", "ctech cparm 1",
    "ctech cspace 1", "stech cparma 1 1", "stech curv 0.5 10", "call a.obj", "call a.obj 1", "csh echo", "csh -echo", "res 1 2", "bzp 1 2 3", "bsp 1 2 3", "cdc 1 2 3 4", "cdp 1 2",
    "vtx 1", "fo 1 2 3", "tri 1 2 3", "xfv 1 2 3", "newmtl a", "Kd 1 1 1", "Ka 0 0 0", "map_Kd a.png", "illum 2", "Ns 10", "Ni 1.5", "Tf 1 1 1", "sharpness 60", "d 0.5", "refl a.png", "bump a.png",
];
const MTL_UNSUPPORTED: &[&str] = &[
    "Pr 0.5", "Pm 0.5", "Ps 0.5", "Pc 0.5", "Pcr 0.5", "aniso 0.5", "anisor 0.5", "norm n.png", "map_Pr a.png", "map_Pm a.png", "map_Ps a.png", "map_Ke a.png", "map_bump a.png", "map_Bump a.png",
    "map_Tr a.png", "map_opacity a.png", "map_refl a.png", "Km 0.1", "Kt 1 1 1", "map_Kt a.png", "map_Tf a.png", "map_Ni a.png", "map_kk a.png", "map a.png", "map_ a.png", "transparency 1", "ambient 1 1 1", "diffuse 1 1 1",
    "v 1 2 3", "vn 0 0 1", "vt 0 0", "f 1 2 3", "g a", "o a", "s 1", "usemtl a", "mtllib a.mtl", "l 1 2", "p 1", "lod 1", "bevel on", "usemap a",
];

fn line(text: &str) -> Words {
    let mut it = text.split(' ');
    Words { key: it.next().unwrap().into(), args: it.map(w).collect() }
}

fn with(key: &str, args: Vec<Word>) -> Words {
    Words { key: key.into(), args }
}
fn ws(args: &[&str]) -> Vec<Word> {
    args.iter().map(|a| w(*a)).collect()
}
fn nums(s: &mut Src, n: usize) -> Vec<Word> {
    (0..n).map(|_| w(num(s).text)).collect()
}
fn ints(s: &mut Src, n: usize) -> Vec<Word> {
    (0..n).map(|_| w(int_lit(s, true).text)).collect()
}
fn not_number(s: &mut Src) -> Word {
    w(*s.pick(NOT_NUMBERS))
}
/// A number, but not an integer.
fn fraction(s: &mut Src) -> Word {
    w(*s.pick(&["1.5", "1.0", "2.", ".5", "1e2", "1E0", "-1.5", "0.0", "+3.25", "100e-2"]))
}
const NEITHER: &[&str] = &[
    "maybe", "1", "0", "true", "false", "yes", "no", "onn", "of", "offf", "o", "0n", "on,", "-on", "\"on\"", "onoff", "ón", "ofﬀ", "1.5", "oƒƒ",
];

fn long(s: &mut Src) -> usize {
    if s.one_in(6) {
        s.range(4, 300)
    } else {
        s.range(1, 5)
    }
}

/// A label and the statement.
pub fn obj_line(s: &mut Src) -> (String, Words) {
    let (l, b) = match s.below(16) {
        0 | 1 => {
            let t = *s.pick(OBJ_UNSUPPORTED);
            (format!("unsupported {}", t.split(' ').next().unwrap()), line(t))
        }
        2 => {
            let t = *s.pick(GARBAGE);
            (format!("garbage {}", t.split(' ').next().unwrap()), line(t))
        }
        3 | 4 => {
            // too few or too many numbers
            let (key, lo, hi) = *s.pick(&[("v", 3, 4), ("vn", 3, 3), ("vt", 1, 3), ("vp", 1, 3), ("s", 1, 1), ("lod", 1, 1)]);
            if s.flip() {
                let n = s.below(lo);
                let a = if key == "lod" { vec![] } else { nums(s, n) };
                (format!("{key} with {n} of {lo} arguments"), with(key, a))
            } else {
                let n = hi + if s.one_in(4) { s.range(1, 40) } else { s.range(1, 3) };
                let a = if lo == 1 && hi == 1 { (0..n).map(|_| w("1")).collect() } else { nums(s, n) };
                (format!("{key} with surplus arguments"), with(key, a))
            }
        }
        5 | 6 => {
            // a word that is no number
            let (key, n) = *s.pick(&[("v", 3), ("v", 4), ("vn", 3), ("vt", 1), ("vt", 2), ("vt", 3), ("vp", 1), ("vp", 3)]);
            let mut a = nums(s, n);
            let i = s.below(n);
            a[i] = not_number(s);
            (format!("{key} with a word as argument {}", i + 1), with(key, a))
        }
        7 | 8 => {
            // references that are none
            let key = *s.pick(&["f", "l", "p"]);
            let n = long(s);
            let mut a = ints(s, n);
            let i = s.below(n);
            let (what, x): (&str, Word) = match s.below(4) {
                0 => ("a word", not_number(s)),
                1 => ("a fraction", fraction(s)),
                2 => {
                    let forms: &[&str] = match key {
                        "f" => &["1/2/3/4", "1///", "1////", "1///2", "1/2//3", "1/a", "1/2/b", "1//x", "1/1.5", "1/2/1e2", "1//1.5", "a/1/2", "1/2/3/4/5", "1|2", "1;2", "1//2/3", "1/--2"],
                        "l" => &["1/2/3", "1//2", "1/a", "1/1.5", "a/1", "1/2/3/4", "1|2", "1/+-2"],
                        _ => &["1/2", "1//2", "1/2/3", "1|2", "1.0", "a/1"],
                    };
                    ("a malformed reference", w(*s.pick(forms)))
                }
                _ => ("an integer out of range", w(*s.pick(&["2147483648", "-2147483649", "99999999999", "4294967297", "18446744073709551617"]))),
            };
            a[i] = x;
            let place = if i == 0 { "first" } else if i + 1 == n { "last" } else { "inner" };
            (format!("{key} with {what} as {place} reference"), with(key, a))
        }
        9 => {
            let key = *s.pick(&["f", "l"]);
            match s.below(3) {
                0 => {
                    let mut a = ws(&[*s.pick(&["/1", "//1", "/", "//", "/1/1", "/x"])]);
                    let n = s.below(4);
                    a.extend(ints(s, n));
                    (format!("{key} with a first reference that has no vertex"), with(key, a))
                }
                _ => {
                    let key = *s.pick(&["f", "l", "p"]);
                    (format!("{key} without references"), with(key, vec![]))
                }
            }
        }
        10 => {
            let key = *s.pick(&["usemtl", "usemap", "mtllib", "maplib", "shadow_obj", "trace_obj", "o", "s", "lod", "bevel", "c_interp", "d_interp"]);
            (format!("{key} without argument"), with(key, vec![]))
        }
        11 | 12 => {
            let key = *s.pick(&["bevel", "c_interp", "d_interp"]);
            if s.one_in(4) {
                let a = s.pick(&[["on", "off"], ["off", "on"], ["on", "on"], ["on", "x"], ["off", "1"]]);
                (format!("{key} with surplus arguments"), with(key, ws(a)))
            } else {
                (format!("{key} neither on nor off"), with(key, ws(&[*s.pick(NEITHER)])))
            }
        }
        13 => {
            let x = match s.below(3) {
                0 => (*s.pick(&["256", "-1", "1000", "257", "511", "512", "65536", "4294967296", "-256", "2147483647", "-2147483648", "2147483648", "300"])).to_string(),
                1 => fraction(s).text,
                _ => not_number(s).text,
            };
            ("lod out of range".into(), with("lod", vec![w(x)]))
        }
        14 => {
            let a = match s.below(4) {
                0 => vec![fraction(s)],
                1 => ws(&[*s.pick(&["x", "abc", "maybe", "true", "-", "1e", "none", "offf", "of", "0x1"])]),
                2 => ws(s.pick(&[["1", "2"], ["off", "1"], ["off", "off"], ["1", "x"]])),
                _ => ws(&[*s.pick(&["2147483648", "-2147483649", "99999999999"])]),
            };
            ("s with a wrong argument".into(), with("s", a))
        }
        _ => {
            // a valid statement followed by something that is none
            let k = *s.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 16, 17, 18, 19]);
            let mut prof = obj::Profile::mixed();
            prof.relative = false;
            let pools = obj::pools(s);
            let mut id = 0;
            let o = obj::statement(s, k, &prof, &pools, &mut id);
            let mut b = o.words();
            // for on/off statements and smoothing a second word makes the argument wrong
            b.args.push(w(*s.pick(&["x", "foo", "abc", "on", "?", "(", "_"])));
            if matches!(o, O::F(_)) && s.flip() {
                b.args.insert(0, w("x"));
            }
            (format!("{} followed by a word", b.key), b)
        }
    };
    (l, b)
}

pub fn mtl_line(s: &mut Src) -> (String, Words) {
    const COLORS: [&str; 5] = mtl::COLORS;
    match s.below(18) {
        0 | 1 => {
            let t = *s.pick(MTL_UNSUPPORTED);
            (format!("unsupported {}", t.split(' ').next().unwrap()), line(t))
        }
        2 => {
            let t = *s.pick(GARBAGE);
            (format!("garbage {}", t.split(' ').next().unwrap()), line(t))
        }
        3 | 4 => {
            let c = *s.pick(&COLORS);
            match s.below(6) {
                0 => {
                    let n = s.below(3);
                    let a = nums(s, n);
                    (format!("{c} with {n} components"), with(c, a))
                }
                1 => {
                    let n = s.range(4, 7);
                    let a = nums(s, n);
                    (format!("{c} with surplus components"), with(c, a))
                }
                2 => {
                    let mut a = nums(s, 3);
                    let i = s.below(3);
                    a[i] = not_number(s);
                    (format!("{c} with a word as component {}", i + 1), with(c, a))
                }
                3 => {
                    let (what, a) = *s.pick(&[
                        ("without a file", &["spectral"][..]),
                        ("without a file", &["spectral", "0.5"]),
                        ("with two files", &["spectral", "a.rfl", "b.rfl"]),
                        ("with two factors", &["spectral", "a.rfl", "0.5", "0.5"]),
                        ("with a word as factor", &["spectral", "a.rfl", "x"]),
                    ]);
                    (format!("{c} spectral {what}"), with(c, ws(a)))
                }
                4 => {
                    let (what, a) = *s.pick(&[
                        ("without components", &["xyz"][..]),
                        ("with surplus components", &["xyz", "1", "1", "1", "1"]),
                        ("with a word", &["xyz", "x"]),
                        ("with a word", &["xyz", "1", "x", "1"]),
                        ("with a word", &["xyz", "1", "1", "x"]),
                    ]);
                    (format!("{c} xyz {what}"), with(c, ws(a)))
                }
                _ => {
                    let t = *s.pick(&["rgb", "xyy", "spectra", "on", "-xyz", "XYZW"]);
                    let mut a = vec![w(t)];
                    a.extend(nums(s, 3));
                    (format!("{c} of an unknown kind"), with(c, a))
                }
            }
        }
        5 | 6 => {
            let k = *s.pick(&["Ns", "Ni", "Tr", "sharpness", "d"]);
            match s.below(3) {
                0 => (format!("{k} without a value"), with(k, vec![])),
                1 => {
                    let n = s.range(2, 5);
                    let a = nums(s, n);
                    (format!("{k} with surplus values"), with(k, a))
                }
                _ => {
                    let a = vec![not_number(s)];
                    (format!("{k} with a word"), with(k, a))
                }
            }
        }
        7 => {
            let a: &[&str] = *s.pick(&[
                &["-halo"][..],
                &["-halo", "x"],
                &["-halo", "0.5", "0.5"],
                &["halo", "0.5"],
                &["0.5", "-halo"],
                &["-halo", "-halo", "0.5"],
                &["-hal", "0.5"],
                &["--halo", "0.5"],
            ]);
            ("d -halo malformed".into(), with("d", ws(a)))
        }
        8 => {
            let a: Vec<Word> = match s.below(5) {
                0 => vec![],
                1 => ws(&["1", "2"]),
                2 => vec![fraction(s)],
                3 => ws(&[*s.pick(&["-1", "-2", "-10", "-2147483648", "2147483648", "99999999999", "-2147483649"])]),
                _ => vec![not_number(s)],
            };
            ("illum with a wrong argument".into(), with("illum", a))
        }
        9 => {
            let a = match s.below(4) {
                0 => vec![],
                1 => ws(s.pick(&[["on", "off"], ["on", "on"], ["off", "x"]])),
                _ => ws(&[*s.pick(NEITHER)]),
            };
            ("map_aat neither on nor off".into(), with("map_aat", a))
        }
        10 => {
            if s.flip() {
                ("newmtl without a name".into(), with("newmtl", vec![]))
            } else {
                let n = s.range(2, 4);
                let a = (0..n).map(|_| w(*s.pick(&["a", "b_1", "Wood", "x.y"]))).collect();
                ("newmtl with several names".into(), with("newmtl", a))
            }
        }
        _ => {
            // maps
            let i = s.below(9);
            let key = if i == 5 && s.flip() { "map_disp" } else { mtl::MAPS[i] };
            let M::Map(_, m) = mtl::gen_map(s, i) else { unreachable!() };
            let full = M::Map(i, m).words();
            match s.below(8) {
                0 => (format!("{key} without anything"), with(key, vec![])),
                1 => {
                    let k = s.below(mtl::OPS);
                    let o = mtl::gen_op(s, k);
                    let t = M::Map(i, mtl::Map { key: key.into(), before: vec![o], file: "#gone".into(), after: vec![] }).words();
                    let a: Vec<Word> = t.args.into_iter().filter(|a| a.text != "#gone").collect();
                    (format!("{key} with {} but no file", a[0].text), with(key, a))
                }
                2 => {
                    // a second file right behind the options or at the end
                    let mut a = full.args.clone();
                    a.push(w(*s.pick(&["b.png", "tex", "x"])));
                    (format!("{key} with two files"), with(key, a))
                }
                3 => {
                    let mut a = ws(&["a.png"]);
                    a.push(w(*s.pick(&["1", "0.5", "-3", "1e5"])));
                    (format!("{key} with a stray number"), with(key, a))
                }
                _ => {
                    let opts: &[(&str, &[&str])] = &[
                        ("-blendu", &["maybe"]),
                        ("-blendu", &["1"]),
                        ("-blendv", &["onn"]),
                        ("-blendv", &["0"]),
                        ("-cc", &["true"]),
                        ("-cc", &["of"]),
                        ("-clamp", &["yes"]),
                        ("-clamp", &["2"]),
                        ("-mm", &["1"]),
                        ("-mm", &[]),
                        ("-mm", &["1", "2", "3"]),
                        ("-mm", &["x", "1"]),
                        ("-o", &[]),
                        ("-o", &["1", "2", "3", "4"]),
                        ("-o", &["1", "x"]),
                        ("-s", &[]),
                        ("-s", &["1", "2", "3", "4"]),
                        ("-s", &["y", "2", "3"]),
                        ("-t", &[]),
                        ("-t", &["1", "2", "3", "4"]),
                        ("-t", &["1", "2", "z"]),
                        ("-texres", &[]),
                        ("-texres", &["1.5"]),
                        ("-texres", &["x"]),
                        ("-texres", &["1", "2"]),
                        ("-texres", &["2147483648"]),
                        ("-bm", &[]),
                        ("-bm", &["x"]),
                        ("-bm", &["1", "2"]),
                        ("-boost", &[]),
                        ("-boost", &["x"]),
                        ("-boost", &["1", "2"]),
                        ("-foo", &["1"]),
                        ("-foo", &[]),
                        ("-imfchan", &[]),
                        ("-type", &[]),
                        ("-imfchan", &["r", "g"]),
                        ("-type", &["sphere", "cube"]),
                        ("-halo", &["1"]),
                        ("-", &[]),
                        ("o", &["1"]),
                    ];
                    let (o, v) = *s.pick(opts);
                    let mut a = vec![w(o)];
                    a.extend(ws(v));
                    if s.flip() || ["-imfchan", "-type"].contains(&o) && v.is_empty() {
                        a.push(w("a.png"));
                    } else {
                        a.insert(0, w("a.png"));
                    }
                    (format!("{key} with {o} {}", v.join(" ")), with(key, a))
                }
            }
        }
    }
}

// ------------------------------------------------------------------- table

const NUMS: &[&str] = &["1", "0.5", "-3", "x", "on", "1/2", "1e5"];
const FEW: &[&str] = &["1", "0.5", "-3", "x.png", "on", "off", "256"];
const OBJ_REFS: &[&str] = &["1", "-3", "1/2", "1//2", "1/2/3", "0.5", "x", "1/", "1//"];
const COLOR: &[&str] = &["1", "0.5", "-3", "spectral", "xyz", "a.rfl", "on"];
const HALO: &[&str] = &["1", "0.5", "-halo", "x", "-o"];
const MAP: &[&str] = &["a.png", "b.png", "1", "0.5", "on", "-o", "-clamp", "-mm", "-texres", "-bm", "-3"];

/// (is MTL, keyword, argument words, longest)
const TABLES: &[(bool, &str, &[&str], u32)] = &[
    (false, "v", NUMS, 5), (false, "vn", NUMS, 5), (false, "vt", NUMS, 5), (false, "vp", NUMS, 5),
    (false, "f", OBJ_REFS, 4), (false, "l", OBJ_REFS, 4), (false, "p", OBJ_REFS, 4),
    (false, "g", FEW, 3), (false, "s", FEW, 3), (false, "o", FEW, 2), (false, "usemtl", FEW, 2), (false, "usemap", FEW, 2), (false, "mtllib", FEW, 3), (false, "maplib", FEW, 3),
    (false, "shadow_obj", FEW, 2), (false, "trace_obj", FEW, 2), (false, "bevel", FEW, 3), (false, "c_interp", FEW, 3), (false, "d_interp", FEW, 3), (false, "lod", FEW, 3),
    (true, "newmtl", FEW, 3), (true, "Ka", COLOR, 5), (true, "Kd", COLOR, 5), (true, "Ks", COLOR, 5), (true, "Ke", COLOR, 5), (true, "Tf", COLOR, 5),
    (true, "Ns", FEW, 3), (true, "Ni", FEW, 3), (true, "Tr", FEW, 3), (true, "sharpness", FEW, 3), (true, "d", HALO, 4), (true, "illum", FEW, 3), (true, "map_aat", FEW, 3),
    (true, "map_Ka", MAP, 4), (true, "map_Kd", MAP, 4), (true, "map_Ks", MAP, 4), (true, "map_Ns", MAP, 4), (true, "map_d", MAP, 4), (true, "disp", MAP, 4), (true, "map_disp", MAP, 4),
    (true, "decal", MAP, 4), (true, "bump", MAP, 4), (true, "refl", MAP, 4),
];

fn table_len(words: usize, longest: u32) -> u64 {
    (0..=longest).map(|l| (words as u64).pow(l)).sum()
}

pub fn table_size() -> u64 {
    TABLES.iter().map(|t| table_len(t.2.len(), t.3)).sum()
}

/// The `i`-th statement of the tables: is MTL, keyword, arguments.
pub fn table(mut i: u64) -> (bool, &'static str, Vec<&'static str>) {
    for (is_mtl, key, words, longest) in TABLES {
        let n = table_len(words.len(), *longest);
        if i >= n {
            i -= n;
            continue;
        }
        let k = words.len() as u64;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut a = Vec::new();
        for _ in 0..l {
            a.push(words[(i % k) as usize]);
            i /= k;
        }
        return (*is_mtl, key, a);
    }
    unreachable!()
}

/// The `i`-th statement of the tables where it could stand in a text.
pub fn table_text(i: u64) -> String {
    let (is_mtl, key, a) = table(i);
    let line = [&[key][..], &a].concat().join(" ");
    if is_mtl {
        format!("newmtl m\n{line}\n")
    } else {
        format!("v 1 2 3\nvt 1 1\n{line}\nf 1/1 1 1\n")
    }
}

const OPEN_OBJ: &[&str] = &[
    "s on", "s ON", "s On", "s -3", "s -2147483648", "usemap OFF", "usemap Off", "usemap off x", "f 1/2// 3", "f 1//2/ 3", "f 1/2/3/ 4", "l 1// 2", "l 1/2/ 2", "p 1/ 2", "f 1/ 2/ 3/", "f 1// 2// 3//", "v 1 2 3#c",
    "f 1 // 2", "g", "g #x", "o #x", "g default", "usemtl \u{b}x", "lod 0", "lod 255", "f 0 0 0", "f 0/0/0 0//0", "l 0/0", "p 0", "f -2147483648 2147483647", "vp 1 2 3", "vt 1", "o 1", "s 0", "s off", "f 1", "l 1", "p 1",
    "s 2147483647", "f 99 99 99", "f -99 -99 -99", "usemap off", "f 1 1 1", "l 1 1", "p 1 1",
];
const OPEN_MTL: &[&str] = &[
    "map_Kd -o 1 -o 2 a.png", "bump -bm 1 -bm 2 a.png", "refl -type a -type b c.png", "map_d -imfchan q a.png", "map_Ns -imfchan R a.png", "disp -imfchan rgb a.png", "map_Ka on", "map_Ks 1", "decal off", "decal 0.5",
    "-o 1 2 3", "-clamp on", "a.png", "map_d -cc on a.png", "map_Kd -bm 1 a.png", "disp -type cube a.png", "map_Kd -imfchan l a.png", "map_aat ON", "map_aat Off", "refl -type -o a.png", "bump -boost 10 a.png",
    "d 1.5", "d -1", "d -halo 0", "Tr -1", "Tr 2", "Ns -1", "Ns 1001", "Ni 0", "Ni 100", "illum 11", "illum 4294967295", "sharpness 0", "sharpness 1001", "sharpness -1", "Ka -1 2 -3", "Ks xyz 1", "Ke xyz 1 2", "Tf spectral a",
    "Kd spectral a -1", "map_Kd -mm 1 0 a.png", "map_Kd -texres 0 a.png", "map_Kd -texres -5 a.png", "map_Kd -s 0 a.png", "newmtl m", "newmtl 1", "newmtl Ka", "Kd spectral on 1", "Kd spectral 1 1",
];

/// A statement that is well formed, or whose meaning the format leaves open:
/// what a load makes of it is not judged everywhere, but it is answered,
/// always in the same way, in silence and without damage.
pub fn open_line(s: &mut Src, is_mtl: bool) -> Words {
    if s.one_in(3) {
        for _ in 0..20 {
            let (m, key, a) = table(s.u64() % table_size());
            if m == is_mtl && well_formed(key, &a) != Some(false) {
                return with(key, a.into_iter().map(w).collect());
            }
        }
    }
    line(s.pick(if is_mtl { OPEN_MTL } else { OPEN_OBJ }))
}

/// Puts one to three such statements into a program, now and then.
pub fn open_up(s: &mut Src, is_mtl: bool, words: &mut Vec<Words>) {
    if s.one_in(3) {
        for _ in 0..s.range(1, 3) {
            let at = s.below(words.len() + 1);
            words.insert(at, open_line(s, is_mtl));
        }
    }
}

fn is_int(t: &str) -> bool {
    t.parse::<i32>().is_ok()
}

fn map_args(mut a: &[&str]) -> Option<bool> {
    let (mut files, mut odd) = (0, 0);
    while let Some(x) = a.first() {
        let num = |k: usize| a.get(k).is_some_and(|t| is_number(t));
        let used = match *x {
            "-o" if num(1) => 1 + (1..=3).take_while(|k| num(*k)).count(),
            "-mm" if num(1) && num(2) => 3,
            "-bm" if num(1) => 2,
            "-texres" if a.get(1).is_some_and(|t| is_int(t)) => 2,
            "-clamp" if a.get(1).is_some_and(|t| *t == "on") => 2,
            t if t.starts_with('-') && !is_number(t) => return Some(false),
            // `on` or a number as the only file: not settled
            t if t == "on" || is_number(t) => {
                odd += 1;
                1
            }
            _ => {
                files += 1;
                1
            }
        };
        if files + odd > 1 {
            return Some(false);
        }
        a = &a[used..];
    }
    if odd > 0 {
        return None;
    }
    Some(files == 1)
}

/// Whether a statement is well formed; `None`: not settled.
pub fn well_formed(key: &str, a: &[&str]) -> Option<bool> {
    let n = a.len();
    let all = |f: fn(&str) -> bool| a.iter().all(|t| f(t));
    let index = |t: &str| is_int(t);
    let reference = |t: &str, most: usize| -> Option<bool> {
        let p: Vec<&str> = t.split('/').collect();
        if !index(p[0]) || p.len() > most {
            return Some(false);
        }
        if p.iter().skip(1).all(|x| x.is_empty() || index(x)) {
            // a line has no normals: slashes that promise one are not settled
            return if most == 2 && p.len() > 2 { None } else { Some(true) };
        }
        Some(false)
    };
    let on_off = n == 1 && (a[0] == "on" || a[0] == "off");
    Some(match key {
        "v" => (3..=4).contains(&n) && all(is_number),
        "vn" => n == 3 && all(is_number),
        "vt" | "vp" => (1..=3).contains(&n) && all(is_number),
        "f" | "l" => {
            let most = if key == "f" { 3 } else { 2 };
            if key == "l" && a.iter().any(|t| *t == "1//") {
                return None;
            }
            let mut ok = n > 0;
            for t in a {
                ok &= reference(t, most)?;
            }
            ok
        }
        "p" => {
            if a.iter().any(|t| t.ends_with('/')) {
                return None;
            }
            n > 0 && all(is_int)
        }
        "g" => true,
        "mtllib" | "maplib" | "o" | "usemtl" | "shadow_obj" | "trace_obj" => n > 0,
        "usemap" if n > 1 && a.contains(&"off") => return None,
        "usemap" => n > 0,
        "s" if n == 1 && (a[0] == "-3" || a[0] == "on") => return None,
        "s" => n == 1 && (a[0] == "off" || is_int(a[0])),
        "bevel" | "c_interp" | "d_interp" | "map_aat" => on_off,
        "lod" => n == 1 && a[0].parse::<u8>().is_ok(),
        "newmtl" => n == 1,
        "Ka" | "Kd" | "Ks" | "Ke" | "Tf" => match a.first() {
            Some(&"spectral") => {
                if n > 1 && a[1] != "a.rfl" {
                    return None;
                }
                n == 2 || n == 3 && is_number(a[2])
            }
            Some(&"xyz") => (2..=4).contains(&n) && a[1..].iter().all(|t| is_number(t)),
            _ => n == 3 && all(is_number),
        },
        "Ns" | "Ni" | "Tr" | "sharpness" => n == 1 && is_number(a[0]),
        "d" => n == 1 && is_number(a[0]) || n == 2 && a[0] == "-halo" && is_number(a[1]),
        "illum" => n == 1 && a[0].parse::<u32>().is_ok(),
        _ => return map_args(a),
    })
}

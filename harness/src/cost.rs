//! C04: the same shape of text at sizes n, 2n and 4n; the second step may cost
//! about twice what the first one does.
use crate::alloc::{books, reset_peak};
use crate::gen::plain;
use crate::report::*;
use crate::src::{hash_str, Src};
use crate::supervise::{me, Run};
use crate::{bad, hostile, mtl, obj};
use std::hint::black_box;
use std::process::{Child, Stdio};

const RULE: &str = "families of growing texts (every statement often; every list-valued statement long; distinct and equal names, groups and materials; long names, numbers, comments, blanks and line ends; elements in several groups; errors at the end; something large of one kind and then every kind of statement often; seeded random blocks repeated with fixed or numbered names), each loaded at sizes n, 2n and 4n under cachegrind (instructions executed) and a counting allocator (bytes and calls in total, peak bytes held); a violation is a step 2n to 4n that costs over 2.6 times the step n to 2n (linear: 2, quadratic: 4) in instructions and is confirmed by a second measurement at 2n, 4n and 8n, or likewise for the bytes; composites and large sizes are first timed by the CPU clock of their thread, which decides nothing: where the time grows steeply the sizes are measured by cachegrind; besides, short texts (every statement of the tables of C06 before every kind of statement, seeded programs and hostile texts) must not hold or allocate more than a million bytes and 4000 for each of theirs, nor, where one takes over 0.1 s four times, execute over 4e8 instructions; non-trivial: each measured pair of family and size";

/// Linear growth doubles the step, quadratic growth makes it four times as large.
const STEEP: f64 = 2.6;

type Make = fn(usize) -> String;

fn rep(unit: &str, n: usize) -> String {
    unit.repeat(n)
}
fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

pub struct Family {
    pub name: &'static str,
    pub mtl: bool,
    /// Size of the smallest text, in units.
    pub n: usize,
    pub make: Make,
}

macro_rules! fam {
    ($mtl:expr, $n:expr, $name:expr, $f:expr) => {
        Family { name: $name, mtl: $mtl, n: $n, make: $f }
    };
}

/// Statements that touch no group.
const PLAIN: &str = "v 1 2 3\nvn 0 0 1\nvt 0.5\nvp 0\ns 1\no x\nshadow_obj a\ntrace_obj b\n";
const ELEMENTS: &str = "f 1/1 2/2 -1\nl 1 2\np 1\n";
const SETTINGS: &str = "bevel on\nc_interp off\nd_interp on\nlod 3\n";
const NAMES: &str = "usemtl m\nusemap n\nmtllib a.mtl\nmaplib b.map\n";
const GROUPS: &str = "g a\ng b\n";

/// Something large, then every kind of statement often: state kept from the
/// large part must not be gone through for each of them.
fn after(head: String, tail: &[&str], n: usize) -> String {
    head + &rep(&tail.concat(), n)
}
const ALL: &[&str] = &[PLAIN, ELEMENTS, SETTINGS, NAMES, GROUPS];
const UNGROUPED: &[&str] = &[PLAIN, ELEMENTS, SETTINGS, NAMES];
fn long_names(n: usize) -> String {
    let x = rep("x", 40 * n);
    format!("usemtl {x}\nusemap {x}\nshadow_obj {x}\ntrace_obj {x}\no {x}\nmtllib {x}\nmaplib {x}\n")
}
const MTL_ALL: &str = "Ka 1 1 1\nKd spectral a.rfl\nKs xyz 1\nKe 1 1 1\nTf 0 0 0\nNs 1\nNi 1\nTr 0\nsharpness 1\nd 1\nd -halo 0\nillum 1\nmap_aat on\nmap_Ka a\nmap_Kd b\nmap_Ks c\nmap_Ns d\nmap_d e\ndisp f\ndecal g\nbump h\nrefl i\n";
const MTL_NUMBERS: &str = "Ka 1 1 1\nKs xyz 1\nNs 1\nNi 1\nTr 0\nsharpness 1\nd 1\nd -halo 0\nillum 1\nmap_aat on\n";
fn long_material(n: usize) -> String {
    let x = rep("x", 40 * n);
    format!("newmtl {x}\nKd spectral {x}\nKe spectral {x}\nTf spectral {x}\nmap_Ka {x}\nmap_Kd {x}\nmap_Ks {x}\nmap_Ns {x}\nmap_d -imfchan {x} {x}\ndisp {x}\ndecal {x}\nbump {x}\nrefl -type {x} {x}\n")
}

pub const FAMILIES: &[Family] = &[
    fam!(false, 150, "long names, then settings and elements", |n| after(long_names(n), &[PLAIN, ELEMENTS, SETTINGS], n)),
    fam!(false, 100, "long names, then everything", |n| after(long_names(n) + "g a\n", ALL, n)),
    fam!(false, 100, "long group names, then everything", |n| after(format!("g {0} y{0}\nf 1 2 3\ng a\n", rep("x", 40 * n)), ALL, n)),
    fam!(false, 100, "many libraries, then everything", |n| after(each(8 * n, |i| format!("mtllib l{i:06}\nmaplib m{i:06}\n")), ALL, n)),
    fam!(false, 100, "many vertices, then everything", |n| after(each(4 * n, |i| format!("v {i} 0 0\nvn {i} 0 0\nvt {i}\n")), ALL, n)),
    fam!(false, 120, "many elements, then everything but groups", |n| after(each(4 * n, |i| format!("f {0} 2 3\nl {0} 2\np {0}\n", i + 1)), UNGROUPED, n)),
    fam!(false, 100, "many groups, then everything", |n| after(each(4 * n, |i| format!("g part{i:06}\nusemtl m{i:06}\nf 1 2 3\n")) + "g a\n", ALL, n)),
    fam!(false, 250, "many groups at once, then what touches no group", |n| after(format!("g{}\n", each(8 * n, |i| format!(" part{i:06}"))), &[PLAIN], n)),
    fam!(false, 100, "long elements, then everything", |n| after(format!("f{0}\nl{0}\np{0}\n", each(8 * n, |i| format!(" {}", i + 1))), ALL, n)),
    fam!(false, 100, "a long comment, blanks and a number, then everything", |n| after(format!("#{}\n{}v {}1 2 3\n", rep(" c", 20 * n), rep(" \n", 20 * n), rep("0", 20 * n)), ALL, n)),
    fam!(true, 150, "a long material, then numbers", |n| after(long_material(n), &[MTL_NUMBERS], n)),
    fam!(true, 80, "a long material, then everything in others", |n| after(long_material(n), &[MTL_ALL, "newmtl a\n"], n)),
    fam!(true, 80, "many materials, then everything in one", |n| after(each(8 * n, |i| format!("newmtl m{i:06}\n")), &[MTL_ALL], n)),
    fam!(true, 80, "a map of many options, then everything", |n| after(format!("newmtl a\nmap_Ka{} a\nbump{} a\n", rep(" -o 1 2 3", 8 * n), rep(" -bm 1 -imfchan r", 8 * n)), &[MTL_ALL], n)),
    fam!(false, 1000, "v", |n| each(n, |i| format!("v {i} 2.5 -3\n"))),
    fam!(false, 1000, "v with w", |n| rep("v 1 2.5 -3 1.0\n", n)),
    fam!(false, 1000, "vn", |n| rep("vn 0 1 0.5\n", n)),
    fam!(false, 1000, "vt", |n| rep("vt 0 1\n", n)),
    fam!(false, 1000, "vp", |n| rep("vp 0 1\n", n)),
    fam!(false, 800, "f", |n| rep("f 1/2/3 4//5 6\n", n)),
    fam!(false, 800, "f relative", |n| rep("v 0 0 0\nf -1 -1 -1\n", n)),
    fam!(false, 1000, "l", |n| rep("l 1 2/3\n", n)),
    fam!(false, 1000, "p", |n| rep("p 1 2\n", n)),
    fam!(false, 1000, "s", |n| each(n, |i| format!("s {i}\n"))),
    fam!(false, 1000, "o", |n| each(n, |i| format!("o part{i:06}\n"))),
    fam!(false, 1000, "g distinct", |n| each(n, |i| format!("g part{i:06}\n"))),
    fam!(false, 1000, "g same", |n| rep("g part\n", n)),
    fam!(false, 1000, "g alternating", |n| rep("g a\ng b\n", n)),
    fam!(false, 1000, "g without names", |n| rep("g\n", n)),
    fam!(false, 700, "g distinct with faces", |n| each(n, |i| format!("g part{i:06}\nf 1 2 3\n"))),
    fam!(false, 700, "g in turn with faces", |n| each(n, |i| format!("g part{}\nf 1 2 3\n", i % 7))),
    fam!(false, 700, "faces in three groups", |n| format!("g a b c\n{}", rep("f 1 2 3\n", n))),
    fam!(false, 700, "g distinct with usemtl", |n| each(n, |i| format!("g part{i:06}\nusemtl mat{i:06}\n"))),
    fam!(false, 700, "g distinct with attributes", |n| each(n, |i| format!("g part{i:06}\nbevel on\nc_interp on\nd_interp off\nlod 3\nusemap m{i:06}\n"))),
    fam!(false, 1000, "usemtl in one group", |n| each(n, |i| format!("usemtl mat{i:06}\n"))),
    fam!(false, 1000, "usemap in one group", |n| each(n, |i| format!("usemap map{i:06}\n"))),
    fam!(false, 1000, "mtllib", |n| each(n, |i| format!("mtllib lib{i:06}.mtl\n"))),
    fam!(false, 1000, "maplib", |n| each(n, |i| format!("maplib lib{i:06}.map\n"))),
    fam!(false, 1000, "shadow_obj and trace_obj", |n| rep("shadow_obj a\ntrace_obj b\n", n)),
    fam!(false, 1000, "display attributes", |n| rep("bevel on\nc_interp off\nd_interp on\nlod 1\n", n)),
    fam!(false, 2000, "one f", |n| format!("f{}\n", rep(" 1/2/3", n))),
    fam!(false, 3000, "one f of vertices", |n| format!("f{}\n", each(n, |i| format!(" {}", i + 1)))),
    fam!(false, 2000, "one f of distinct triples", |n| format!("f{}\n", each(n, |i| format!(" {0:06}/{0:06}/{0:06}", i + 1)))),
    fam!(false, 2000, "one l of distinct pairs", |n| format!("l{}\n", each(n, |i| format!(" {0:06}/{0:06}", i + 1)))),
    fam!(false, 3000, "one p of distinct vertices", |n| format!("p{}\n", each(n, |i| format!(" {:06}", i + 1)))),
    fam!(false, 2000, "one f of mixed forms", |n| format!("f{}\n", rep(" 1/2 3//4", n))),
    fam!(false, 2000, "one l", |n| format!("l{}\n", rep(" 1/2", n))),
    fam!(false, 3000, "one p", |n| format!("p{}\n", rep(" 7", n))),
    fam!(false, 2000, "one g of distinct names", |n| format!("g{}\nf 1 2 3\n", each(n, |i| format!(" part{i:06}")))),
    fam!(false, 2000, "one g of equal names", |n| format!("g{}\nf 1 2 3\n", rep(" part", n))),
    fam!(false, 2000, "one g and one usemtl", |n| format!("g{}\nusemtl m\n", each(n, |i| format!(" part{i:06}")))),
    fam!(false, 3000, "one mtllib", |n| format!("mtllib{}\n", each(n, |i| format!(" lib{i:06}.mtl")))),
    fam!(false, 3000, "one maplib", |n| format!("maplib{}\n", each(n, |i| format!(" lib{i:06}.map")))),
    fam!(false, 20000, "one long usemtl name", |n| format!("usemtl {}\n", rep("x", n))),
    fam!(false, 6000, "one usemtl name of many words", |n| format!("usemtl {}\n", rep("xy ", n))),
    fam!(false, 1500, "one usemtl name of number signs", |n| format!("usemtl {}\n", rep("x#", n))),
    fam!(false, 1500, "one group name of slashes", |n| format!("g {}\n", rep("x/", n))),
    fam!(false, 1500, "one library of steps up", |n| format!("mtllib {}\n", rep("../", n))),
    fam!(false, 1500, "one library of backslashes", |n| format!("mtllib {}\n", rep("x\\", n))),
    fam!(false, 1500, "one texture library of dots", |n| format!("maplib {}\n", rep("x.", n))),
    fam!(false, 1500, "one usemap name of quotes and percent signs", |n| format!("usemap {}\n", rep("\"%20'", n))),
    fam!(false, 1500, "one shadow object of digits, signs and points", |n| format!("shadow_obj {}x\n", rep("1.5e-3+", n))),
    fam!(false, 1500, "one trace object of capitals and dashes", |n| format!("trace_obj {}\n", rep("A-b_", n))),
    fam!(false, 1500, "one object of blanks and tabs between letters", |n| format!("o {}\n", rep("a \t", n))),
    fam!(false, 20000, "one long group name", |n| format!("g {}\n", rep("x", n))),
    fam!(false, 20000, "one long object name", |n| format!("o {}\n", rep("é", n))),
    fam!(false, 1500, "comment lines", |n| rep("# a comment\n", n)),
    fam!(false, 1000, "trailing comments", |n| rep("v 1 2 3 # a comment\n", n)),
    fam!(false, 40000, "one long comment", |n| format!("# {}\nv 1 2 3\n", rep("c", n))),
    fam!(false, 20000, "one comment of number signs", |n| format!("{}\nv 1 2 3\n", rep("#", n))),
    fam!(false, 30000, "one run of blanks", |n| format!("v 1{}2 3\n", rep(" ", n))),
    fam!(false, 15000, "one run of blanks and tabs", |n| format!("v 1{}2 3\n", rep(" \t", n))),
    fam!(false, 20000, "blank lines", |n| format!("v 1 2 3{}v 1 2 3\n", rep("\n", n))),
    fam!(false, 15000, "CRLF blank lines", |n| format!("v 1 2 3{}v 1 2 3\n", rep("\r\n", n))),
    fam!(false, 700, "indented statements", |n| rep("      v   1 \t 2   3    \r\n", n)),
    fam!(false, 10000, "one long number", |n| format!("v {} 2 3\n", rep("7", n))),
    fam!(false, 10000, "one long fraction", |n| format!("v 0.{} 2 3\n", rep("7", n))),
    fam!(false, 10000, "leading zeros", |n| format!("v {}1 2 3\n", rep("0", n))),
    fam!(false, 10000, "zeros of an exponent", |n| format!("v 1e{}1 2 3\n", rep("0", n))),
    fam!(false, 10000, "leading zeros of an index", |n| format!("p {}1\n", rep("0", n))),
    fam!(false, 700, "numbers of 40 digits", |n| rep("v 0.1234567890123456789012345678901234567890 1234567890123456789012345678901234567890 1e-20\n", n)),
    fam!(false, 20000, "one unknown word", |n| format!("v 1 2 3\n{}\n", rep("x", n))),
    fam!(false, 2000, "unknown words", |n| rep("foo ", n)),
    fam!(false, 1000, "an error at the end", |n| format!("{}f\n", rep("v 1 2 3\n", n))),
    fam!(false, 1000, "an error at the start", |n| format!("v 1\n{}", rep("v 1 2 3\n", n))),
    fam!(false, 1000, "an unknown word at the end", |n| format!("{}foo\n", rep("f 1 2 3\n", n))),
    fam!(false, 3000, "one f with an error at the end", |n| format!("f{} x\n", rep(" 1/2/3", n))),
    fam!(false, 3000, "one v with too many numbers", |n| format!("v{}\n", rep(" 1", n))),
    fam!(false, 3000, "slashes", |n| format!("f {}\n", rep("/", n))),
    fam!(false, 2000, "words that start like numbers", |n| each(n, |i| format!("usemtl {i:06}_a\n"))),
    fam!(false, 1000, "upper case", |n| rep("V 1 2 3\nUSEMTL A\nMTLLIB B\n", n)),
    fam!(false, 500, "a model", |n| each(n, |i| format!("v {i} 0 1.5\nvt 0.5 0.25\nvn 0 0 1\ng part{:06}\nusemtl m{}\ns 1\nf {}/1/1 2/2/2 3/3/3\n", i / 10, i % 5, i + 1))),
    fam!(false, 1000, "one line", |n| rep("v 1 2 3 ", n)),
    fam!(true, 1000, "newmtl distinct", |n| each(n, |i| format!("newmtl mat{i:06}\n"))),
    fam!(true, 1000, "newmtl same", |n| rep("newmtl mat\n", n)),
    fam!(true, 20000, "one long material name", |n| format!("newmtl {}\n", rep("x", n))),
    fam!(true, 700, "Ka Kd Ks Ke Tf", |n| format!("newmtl a\n{}", rep("Ka 1 1 1\nKd 0.5 0 1\nKs 0 0 0\nKe 1 2 3\nTf 1 1 1\n", n))),
    fam!(true, 1000, "spectral", |n| format!("newmtl a\n{}", each(n, |i| format!("Kd spectral f{i:06}.rfl 0.5\n")))),
    fam!(true, 1000, "xyz", |n| format!("newmtl a\n{}", rep("Kd xyz 1 2 3\n", n))),
    fam!(true, 500, "scalars", |n| format!("newmtl a\n{}", rep("Ns 10\nNi 1.5\nTr 0.5\nsharpness 60\nd 0.5\nd -halo 0.5\nillum 2\nmap_aat on\n", n))),
    fam!(true, 500, "maps", |n| format!("newmtl a\n{}", each(n, |i| format!("map_Ka a{i:06}\nmap_Kd b{i:06}\nmap_Ks c\nmap_Ns d\nmap_d e\ndisp f\ndecal g\nbump h\nrefl i\n")))),
    fam!(true, 500, "maps with options", |n| format!("newmtl a\n{}", rep("map_Kd -blendu on -o 1 2 3 -s 1 1 -texres 512 a.png -clamp on\nbump -bm 0.5 b.png\n", n))),
    fam!(true, 1500, "options of one map", |n| format!("newmtl a\nmap_Kd{} a.png\n", rep(" -clamp on -o 1 2 3", n))),
    fam!(true, 1500, "distinct options of one map", |n| format!("newmtl a\nmap_Kd{} a.png\n", each(n, |i| format!(" -o {i:06} 2 3")))),
    fam!(true, 1500, "distinct options of one bump", |n| format!("newmtl a\nbump{} a.png\n", each(n, |i| format!(" -imfchan r{i:06} -bm {i:06}")))),
    fam!(true, 1500, "options of one refl", |n| format!("newmtl a\nrefl -type sphere a.png{}\n", rep(" -s 1 2 -cc on", n))),
    fam!(true, 300, "full materials", |n| each(n, |i| format!("newmtl m{i:06}\nKa 1 1 1\nKd 0.5 0 1\nKs 0 0 0\nNs 10\nd 0.5\nillum 2\nmap_Kd -s 2 2 t{i:06}.png\nbump b.png\n"))),
    fam!(true, 20000, "one long file name", |n| format!("newmtl a\nmap_Kd {}\n", rep("x", n))),
    fam!(true, 1500, "one file name of slashes", |n| format!("newmtl a\nmap_Kd {}x\n", rep("../", n))),
    fam!(true, 1500, "one file name of backslashes", |n| format!("newmtl a\nbump {}x\n", rep("x\\", n))),
    fam!(true, 1500, "one file name of dots", |n| format!("newmtl a\nrefl {}x\n", rep("x.", n))),
    fam!(true, 1500, "one file name of dashes", |n| format!("newmtl a\ndecal x{}\n", rep("-o", n))),
    fam!(true, 1500, "one file name of number signs and percents", |n| format!("newmtl a\ndisp x{}\n", rep("#%20", n))),
    fam!(true, 1500, "one curve of digits and points", |n| format!("newmtl a\nKd spectral x{}\n", rep("1.5e-3+", n))),
    fam!(true, 1500, "one material of words and signs", |n| format!("newmtl {}\n", rep("Ka_-", n))),
    fam!(true, 1500, "comment lines", |n| format!("newmtl a\n{}", rep("# a comment\n", n))),
    fam!(true, 40000, "one long comment", |n| format!("newmtl a #{}\nKd 1 1 1\n", rep("c", n))),
    fam!(true, 30000, "one run of blanks", |n| format!("newmtl a\nKd{}1 1 1\n", rep(" ", n))),
    fam!(true, 20000, "blank lines", |n| format!("newmtl a{}Kd 1 1 1\n", rep("\n", n))),
    fam!(true, 10000, "one long number", |n| format!("newmtl a\nKd 0.{} 1 1\n", rep("7", n))),
    fam!(true, 1000, "an error at the end", |n| format!("newmtl a\n{}Kd 1\n", rep("Kd 1 1 1\n", n))),
    fam!(true, 1000, "an error at the start", |n| format!("newmtl a\nKd 1\n{}", rep("Kd 1 1 1\n", n))),
    fam!(true, 1000, "no newmtl", |n| rep("Kd 1 1 1\n", n)),
    fam!(true, 2000, "unknown words", |n| format!("newmtl a\n{}", rep("foo ", n))),
    fam!(true, 20000, "one unknown word", |n| format!("newmtl a\n{}\n", rep("x", n))),
    fam!(true, 3000, "one Kd with too many numbers", |n| format!("newmtl a\nKd{}\n", rep(" 1", n))),
];

/// A seeded block of statements, repeated; every copy gets its number where
/// the block has `@`.
fn random_block(seed: u64, k: u64) -> (bool, String, String) {
    let mut s = Src::seeded(&[seed, hash_str("C04"), k]);
    let s = &mut s;
    let m = s.flip();
    let numbered = s.flip();
    let mut t = if m {
        let mut p = mtl::Profile::mixed();
        p.max_len = 6;
        let mut p = mtl::program(s, &p, false);
        for x in &mut p {
            if let mtl::M::New(n) = x {
                *n = if numbered { "m@".into() } else { "m".into() };
            }
        }
        plain(&mtl::words(&p))
    } else {
        let mut prof = obj::Profile::mixed();
        prof.max_len = 6;
        prof.relative = s.one_in(4);
        let mut p = obj::program(s, &prof, false);
        for x in &mut p {
            match x {
                obj::O::G(n) => {
                    n.truncate(3);
                    for x in n {
                        *x = if numbered { format!("{}@", x.replace('@', "")) } else { x.replace('@', "") };
                    }
                }
                obj::O::F(r) | obj::O::L(r) => r.truncate(8),
                obj::O::P(r) => r.truncate(8),
                _ => {}
            }
        }
        plain(&obj::words(&p))
    };
    if t.len() > 600 {
        let mut e = 600;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        let e = t[..e].rfind('\n').map_or(0, |x| x + 1);
        t.truncate(e);
    }
    if t.is_empty() {
        t = "v 1 2 3\n".into();
    }
    let head = if m && !t.starts_with("newmtl") { "newmtl a\n".to_string() } else { String::new() };
    (m, head, t)
}

/// The text of a family; families beyond the table are seeded blocks.
pub fn text(seed: u64, family: usize, n: usize) -> (bool, String) {
    match FAMILIES.get(family) {
        Some(f) => (f.mtl, (f.make)(n)),
        None => {
            let (m, mut t, block) = random_block(seed, family as u64);
            for i in 0..n {
                t.push_str(&block.replace('@', &format!("{i:06}")));
            }
            (m, t)
        }
    }
}
fn size(seed: u64, family: usize) -> usize {
    match FAMILIES.get(family) {
        Some(f) => f.n,
        None => (14_000 / random_block(seed, family as u64).2.len()).clamp(20, 2000),
    }
}
fn name(family: usize) -> String {
    match FAMILIES.get(family) {
        Some(f) => format!("{} ({})", f.name, if f.mtl { "MTL" } else { "OBJ" }),
        None => format!("seeded block {}", family - FAMILIES.len()),
    }
}

/// Measured process: loads one text of a family once; prints the books.
pub fn child(seed: u64, family: &str, n: u64) -> i32 {
    let f: usize = family.parse().unwrap_or(0);
    let (m, t) = text(seed, f, n as usize);
    let a = books();
    reset_peak();
    let start = thread_seconds();
    if m {
        drop(black_box(nobject_rs::load_mtl(black_box(&t))));
    } else {
        drop(black_box(nobject_rs::load_obj(black_box(&t))));
    }
    let micros = (thread_seconds() - start) * 1e6;
    let b = books();
    println!("B {} {} {} {} {micros}", b.total - a.total, b.calls - a.calls, b.peak - a.live, t.len());
    0
}

fn thread_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: writes one timespec
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

#[derive(Clone, Debug, Default)]
struct Cost {
    instructions: f64,
    bytes: f64,
    calls: f64,
    peak: f64,
    len: f64,
    micros: f64,
}

/// What no short text may cost, whatever its numbers and names are: a load
/// takes a few hundred bytes and instructions for each byte of the text.
fn short_bound(len: f64) -> f64 {
    1e6 + 4000.0 * len
}
/// In microseconds; only where it takes that long each time, instructions decide.
const SHORT_TIME: f64 = 100_000.0;
const SHORT_INSTRUCTIONS: f64 = 4e8;

/// The short texts: every statement of the tables before every kind of
/// statement, and seeded ones.
fn short(seed: u64, i: u64) -> (bool, String) {
    let tables = bad::table_size();
    if i < tables {
        let mut t = bad::table_text(i);
        let m = bad::table(i).0;
        t += &if m { MTL_ALL.to_string() } else { ALL.concat() };
        return (m, t);
    }
    let mut s = Src::seeded(&[seed, hash_str("C04 short"), i]);
    let t = match s.below(4) {
        0 => hostile::text(&mut s).1,
        1 => bad::table_text(s.u64() % tables) + &bad::table_text(s.u64() % tables),
        _ => hostile::program_text(&mut s),
    };
    (t.contains("newmtl"), t)
}

/// Loads the short texts `from..to`; prints those that cost more than any text
/// of their length may, and the most that others took.
pub fn short_child(seed: u64, from: u64, to: u64) -> i32 {
    let (mut most, mut loads) = ([0.0f64; 3], 0);
    for i in from..to {
        let (m, t) = short(seed, i);
        let load = || {
            let a = books();
            reset_peak();
            let start = thread_seconds();
            let _ = std::panic::catch_unwind(|| {
                if m {
                    drop(black_box(nobject_rs::load_mtl(black_box(&t))));
                } else {
                    drop(black_box(nobject_rs::load_obj(black_box(&t))));
                }
            });
            let micros = (thread_seconds() - start) * 1e6;
            let b = books();
            [(b.peak - a.live) as f64, (b.total - a.total) as f64, micros]
        };
        let mut c = load();
        loads += 1;
        for _ in 0..3 {
            if c[2] > SHORT_TIME {
                c[2] = c[2].min(load()[2]);
            }
        }
        let bound = short_bound(t.len() as f64);
        if c[0] > bound || c[1] > bound || c[2] > SHORT_TIME {
            println!("X {i} {} {} {}", c[0], c[1], c[2]);
        } else if t.len() > 50 {
            let len = t.len() as f64;
            most = [most[0].max(c[0] / len), most[1].max(c[1] / len), most[2].max(c[2] / len)];
        }
    }
    println!("E {loads} {} {} {}", most[0], most[1], most[2]);
    0
}

/// One short text, for cachegrind.
pub fn short_one(seed: u64, i: u64) -> i32 {
    let (m, t) = short(seed, i);
    let _ = std::panic::catch_unwind(|| {
        if m {
            drop(black_box(nobject_rs::load_mtl(black_box(&t))));
        } else {
            drop(black_box(nobject_rs::load_obj(black_box(&t))));
        }
    });
    0
}

fn short_texts(run: &mut Run) {
    let tables = bad::table_size();
    let all = tables + if run.tier == Tier::Quick { 60_000 } else { 2_000_000 };
    let w = crate::supervise::workers() as u64 * 4;
    let mut kids = Vec::new();
    for k in 0..w {
        let (from, to) = (all * k / w, all * (k + 1) / w);
        let args = ["short".to_string(), run.seed.to_string(), from.to_string(), to.to_string()];
        match me(&args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => kids.push(c),
            Err(e) => run.harness.push(format!("a process could not be started: {e}")),
        }
    }
    let mut slow = Vec::new();
    for k in kids {
        let Ok(o) = k.wait_with_output() else { continue };
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut ended = false;
        for l in out.lines() {
            let n: Vec<f64> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
            if l.starts_with("X ") && n.len() == 4 {
                let t = short(run.seed, n[0] as u64).1;
                let bound = short_bound(t.len() as f64);
                for (x, what) in [(n[1], "bytes held at once"), (n[2], "bytes allocated")] {
                    if x > bound {
                        run.violation(None, format!("{x} {what} for a text of {} bytes (at most {bound} expected)", t.len()), &[("text", &t)]);
                    }
                }
                if n[3] > SHORT_TIME {
                    slow.push((n[0] as u64, t));
                }
            } else if l.starts_with("E ") && n.len() == 4 {
                ended = true;
                run.evaluations += n[0] as u64;
                run.count("short texts whose bytes and time were measured", n[0] as u64);
                for (x, what) in [(n[1], "max bytes held per byte of a short text"), (n[2], "max bytes allocated per byte of a short text"), (n[3], "max microseconds per byte of a short text (decides nothing)")] {
                    let e = run.stats.entry(what.into()).or_default();
                    *e = (*e).max(x as u64);
                }
            }
        }
        // what ends a process is not judged here
        if !ended {
            run.count("processes of short texts that ended early (not judged here)", 1);
        }
    }
    for (i, t) in slow.into_iter().take(4) {
        let child = std::env::current_exe().and_then(|e| {
            std::process::Command::new("valgrind")
                .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
                .arg(e)
                .args(["short-one".to_string(), run.seed.to_string(), i.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
        });
        let Ok(child) = child else { continue };
        let pid = child.id();
        let (send, receive) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = send.send(child.wait_with_output());
        });
        let mut used = None;
        loop {
            match receive.recv_timeout(std::time::Duration::from_millis(50)) {
                Ok(o) => {
                    if let Ok(o) = o {
                        used = instructions(&String::from_utf8_lossy(&o.stderr));
                    }
                    break;
                }
                Err(_) if crate::supervise::cpu(pid).unwrap_or(0.0) > TOO_LONG => {
                    // SAFETY: ends a child of this process
                    unsafe { libc::kill(pid as i32, libc::SIGKILL) };
                    used = Some(f64::INFINITY);
                    break;
                }
                Err(_) => {}
            }
        }
        if let Some(x) = used {
            run.count("short texts that took long, measured in instructions", 1);
            if x > SHORT_INSTRUCTIONS {
                run.violation(None, format!("{x} instructions for a text of {} bytes (at most {SHORT_INSTRUCTIONS} expected)", t.len()), &[("text", &t)]);
            }
        }
    }
}

fn instructions(err: &str) -> Option<f64> {
    err.lines().find_map(|l| {
        let i = l.find("I refs:").or_else(|| l.find("I   refs:"))?;
        l[i..].chars().filter(char::is_ascii_digit).collect::<String>().parse().ok()
    })
}

struct Job {
    family: usize,
    n: usize,
    child: Child,
}

fn start(run: &Run, family: usize, n: usize, valgrind: bool) -> std::io::Result<Job> {
    let args = ["cost".to_string(), run.seed.to_string(), family.to_string(), n.to_string()];
    let mut c = if valgrind {
        let mut c = std::process::Command::new("valgrind");
        c.args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"]);
        c.arg(std::env::current_exe()?);
        c.args(&args);
        c
    } else {
        me(&args)
    };
    let child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    Ok(Job { family, n, child })
}

fn read(j: Job) -> Result<Cost, String> {
    let o = j.child.wait_with_output().map_err(|e| e.to_string())?;
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if !o.status.success() {
        return Err(format!("{} at {}: ended with {}", name(j.family), j.n, o.status));
    }
    let mut c = Cost::default();
    let b: Vec<f64> = out.trim_start_matches("B ").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if b.len() != 5 {
        return Err(format!("{} at {}: no measurement", name(j.family), j.n));
    }
    (c.bytes, c.calls, c.peak, c.len, c.micros) = (b[0], b[1], b[2], b[3], b[4]);
    c.instructions = instructions(&err).unwrap_or(0.0);
    Ok(c)
}

/// A measurement of a text that costs what texts of its length do takes a few
/// seconds; one that takes so much CPU time (even under cachegrind) is given up.
const TOO_LONG: f64 = 100.0;
const GIVEN_UP: &str = "measurements given up";
/// Without cachegrind, which takes some 50 times as long.
const TOO_LONG_ALONE: f64 = 15.0;

/// Measures (family, n) pairs, several at a time.
fn measure(run: &mut Run, jobs: &[(usize, usize)], valgrind: bool) -> Vec<Option<Cost>> {
    let mut res = vec![None; jobs.len()];
    let w = crate::supervise::workers() as usize;
    let mut live: Vec<(usize, Job)> = Vec::new();
    let mut next = 0;
    let limit = if run.tier == Tier::Quick { 400.0 } else { 700.0 };
    while next < jobs.len() || !live.is_empty() {
        while live.len() < w && next < jobs.len() && run.started.elapsed().as_secs_f64() < limit {
            match start(run, jobs[next].0, jobs[next].1, valgrind) {
                Ok(j) => live.push((next, j)),
                Err(e) => run.harness.push(format!("valgrind could not be started: {e}")),
            }
            next += 1;
        }
        if live.is_empty() {
            break;
        }
        let mut any = false;
        let mut i = 0;
        while i < live.len() {
            if matches!(live[i].1.child.try_wait(), Ok(None)) {
                let most = if valgrind { TOO_LONG } else { TOO_LONG_ALONE };
                if crate::supervise::cpu(live[i].1.child.id()).unwrap_or(0.0) > most {
                    let (k, mut j) = live.remove(i);
                    if !valgrind {
                        // it has no length
                        res[k] = Some(Cost { micros: most * 1e6, ..Cost::default() });
                    }
                    let _ = j.child.kill();
                    let _ = j.child.wait();
                    run.count(GIVEN_UP, 1);
                } else {
                    i += 1;
                }
                continue;
            }
            any = true;
            let (k, j) = live.remove(i);
            match read(j) {
                Ok(c) => {
                    run.evaluations += 1;
                    run.seen.insert(hash_str(&format!("{:?}", jobs[k])));
                    res[k] = Some(c);
                }
                Err(e) => run.harness.push(e),
            }
        }
        if !any {
            std::thread::sleep(std::time::Duration::from_millis(3));
        }
    }
    res
}

fn growth(c: &[&Cost; 3], f: impl Fn(&Cost) -> f64) -> f64 {
    let (a, b) = (f(c[1]) - f(c[0]), f(c[2]) - f(c[1]));
    // steps too small to mean anything
    if a < 2000.0 && b < 20_000.0 {
        return 0.0;
    }
    b / a.max(1.0)
}

fn steepest(c: &[&Cost; 3], instructions: bool) -> Option<(&'static str, f64)> {
    let m: [(&'static str, fn(&Cost) -> f64); 4] =
        [("instructions", |c| c.instructions), ("bytes allocated", |c| c.bytes), ("allocations", |c| c.calls), ("peak bytes held", |c| c.peak)];
    m.iter()
        .filter(|(n, _)| instructions || *n != "instructions")
        .map(|(n, f)| (*n, growth(c, f)))
        .filter(|(_, g)| *g > STEEP)
        .max_by(|a, b| a.1.total_cmp(&b.1))
}

pub fn check() -> i32 {
    let mut run = Run::new("C04", RULE);
    let blocks = if run.tier == Tier::Quick { 16 } else { 300 };
    let scale = if run.tier == Tier::Quick { 1 } else { 2 };
    let families: Vec<usize> = (0..FAMILIES.len() + blocks).collect();
    let mut jobs = Vec::new();
    for f in &families {
        let n = size(run.seed, *f) * scale;
        for k in [1, 2, 4] {
            jobs.push((*f, n * k));
        }
    }
    short_texts(&mut run);
    if !run.found.is_empty() {
        return run.finish();
    }
    // allocation books alone, at larger sizes
    let mut large = Vec::new();
    for f in &families {
        let n = size(run.seed, *f) * 8 * scale;
        for k in [1, 2, 4] {
            large.push((*f, n * k));
        }
    }
    for (valgrind, jobs) in [(false, large), (true, jobs)] {
        let res = measure(&mut run, &jobs, valgrind);
        let mut suspects = Vec::new();
        for (i, c) in res.chunks(3).enumerate() {
            let [Some(a), Some(b), Some(d)] = c else { continue };
            if c.iter().flatten().any(|c| c.len == 0.0) {
                continue;
            }
            run.count(if valgrind { "families measured in instructions and bytes" } else { "families measured in bytes" }, 1);
            let per = if valgrind { (d.instructions - a.instructions) / (d.len - a.len).max(1.0) } else { (d.bytes - a.bytes) / (d.len - a.len).max(1.0) };
            let key = if valgrind { "max instructions per byte of text" } else { "max bytes allocated per byte of text" };
            let e = run.stats.entry(key.into()).or_default();
            *e = (*e).max(per as u64);
            let g = growth(&[a, b, d], if valgrind { |c: &Cost| c.instructions } else { |c: &Cost| c.bytes });
            let key = if valgrind { "max growth of the step in instructions, percent" } else { "max growth of the step in bytes, percent" };
            let e = run.stats.entry(key.into()).or_default();
            *e = (*e).max((g * 100.0) as u64);
            if run.samples.len() < 12 && i % 17 == 0 {
                let f = jobs[i * 3].0;
                let t = text(run.seed, f, 2).1;
                run.samples.push(format!("{}: {} -> {} -> {} {}, {} -> {} -> {} bytes allocated; at size 2: {}", name(f), if valgrind { a.instructions } else { a.micros }, if valgrind { b.instructions } else { b.micros }, if valgrind { d.instructions } else { d.micros }, if valgrind { "instructions" } else { "microseconds" }, a.bytes, b.bytes, d.bytes, crate::outcome::clip(&t)));
            }
            if let Some((what, g)) = steepest(&[a, b, d], valgrind) {
                suspects.push((jobs[i * 3].0, jobs[i * 3].1, what, g));
            }
        }
        // Time is only a hint, instructions at these sizes decide.
        if !valgrind && suspects.is_empty() {
            let mut times: Vec<[f64; 3]> = Vec::new();
            for c in res.chunks(3) {
                times.push([0, 1, 2].map(|k| c[k].as_ref().map_or(0.0, |c| c.micros)));
            }
            let growth = |t: &[f64; 3]| {
                let g = (t[2] - t[1]) / (t[1] - t[0]).max(500.0);
                match t[2] >= TOO_LONG_ALONE * 1e6 {
                    true => Some(f64::INFINITY),
                    false => (t[2] - t[1] > 4000.0 && g > 3.0).then_some(g),
                }
            };
            // the shortest of several times
            for _ in 0..3 {
                let odd: Vec<usize> = (0..times.len()).filter(|i| times[*i][2] < TOO_LONG_ALONE * 1e6 && growth(&times[*i]).is_some()).collect();
                let again: Vec<(usize, usize)> = odd.iter().flat_map(|i| [0, 1, 2].map(|k| jobs[i * 3 + k])).collect();
                for (c, i) in measure(&mut run, &again, false).chunks(3).zip(&odd) {
                    for k in 0..3 {
                        times[*i][k] = times[*i][k].min(c[k].as_ref().map_or(f64::MAX, |c| c.micros));
                    }
                }
            }
            let mut slow: Vec<(usize, usize, f64)> =
                times.iter().enumerate().filter_map(|(i, t)| growth(t).map(|g| (jobs[i * 3].0, jobs[i * 3].1, g))).collect();
            slow.sort_by(|a, b| b.2.total_cmp(&a.2));
            run.count("families whose time grew steeply, measured again in instructions", slow.len().min(8) as u64);
            slow.truncate(8);
            // cachegrind takes some 50 times as long; smaller sizes will do where even that is long
            for (f, n, _) in &mut slow {
                let i = families.iter().position(|x| x == f).unwrap_or(0);
                let first = times[i].iter().position(|t| *t >= TOO_LONG_ALONE * 1e6).unwrap_or(2);
                let mut micros = times[i][first] * 4f64.powi(2 - first as i32);
                while micros > 500_000.0 && *n > 16 {
                    *n /= 2;
                    micros /= 4.0;
                }
            }
            let again: Vec<(usize, usize)> = slow.iter().flat_map(|(f, n, _)| [1, 2, 4].map(|k| (*f, n * k))).collect();
            for (c, (f, n, _)) in measure(&mut run, &again, true).chunks(3).zip(slow) {
                let [Some(a), Some(b), Some(d)] = c else { continue };
                if let Some((what, g)) = steepest(&[a, b, d], true) {
                    let t = text(run.seed, f, n).1;
                    let why = format!("{}: {what} grow faster than the text: the step from {} to {} units costs {g:.2} times the step before", name(f), n * 2, n * 4);
                    run.violation(Some(f as u64), why, &[("text", &t)]);
                }
            }
        }
        suspects.sort_by(|a, b| b.3.total_cmp(&a.3));
        for (f, n, what, g) in suspects.into_iter().take(6) {
            // once more, larger
            let given_up = |run: &Run| run.stats.get(GIVEN_UP).copied().unwrap_or(0);
            let before = given_up(&run);
            let again = measure(&mut run, &[(f, n * 2), (f, n * 4), (f, n * 8)], valgrind);
            let second = match &again[..] {
                [Some(a), Some(b), Some(d)] => steepest(&[a, b, d], valgrind).map(|s| format!("{:.2} times", s.1)),
                // the last took longer than any text of its length may
                [Some(_), _, None] if given_up(&run) > before => Some("more than could be measured".to_string()),
                _ => continue,
            };
            match second {
                Some(g2) => {
                    let t = text(run.seed, f, n).1;
                    let why = format!(
                        "{}: {what} grow faster than the text: the step from {} to {} units costs {g:.2} times the step before, the next one {g2}",
                        name(f), n * 2, n * 4
                    );
                    run.violation(Some(f as u64), why, &[("text", &t)]);
                }
                None => run.count("suspicions not confirmed at larger sizes", 1),
            }
        }
        if !run.found.is_empty() {
            break;
        }
    }
    run.assumptions.push("cost is judged by growth between sizes, not by its constant factor".into());
    run.finish()
}

//! MTL programs: statements, their text, and the materials they stand for.
use crate::dict;
use crate::gen::*;
use crate::src::Src;
use nobject_rs::{ColorCorrectedMap, ColorType, DisolveType, Material, NonColorCorrectedMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Color {
    Rgb(Num, Num, Num),
    Spectral(String, Option<Num>),
    Xyz(Num, Option<(Num, Option<Num>)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    BlendU(bool),
    BlendV(bool),
    Cc(bool),
    Clamp(bool),
    Mm(Num, Num),
    Offset(Vec<Num>),
    Scale(Vec<Num>),
    Turb(Vec<Num>),
    TexRes(IntLit),
    Imf(String),
    Bm(Num),
    Type(String),
    Boost(Num),
}
pub const OPS: usize = 13;

#[derive(Clone, Debug, PartialEq)]
pub struct Map {
    pub key: String,
    pub before: Vec<Op>,
    pub file: String,
    pub after: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    New(String),
    /// 0..5: Ka Kd Ks Ke Tf
    Color(usize, Color),
    Ns(Num),
    Ni(Num),
    Tr(Num),
    Sharp(Num),
    Alpha(Num),
    Halo(Num),
    Illum(IntLit),
    Aat(bool),
    /// index into MAPS
    Map(usize, Map),
}

pub const COLORS: [&str; 5] = ["Ka", "Kd", "Ks", "Ke", "Tf"];
pub const MAPS: [&str; 9] = ["map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "decal", "bump", "refl"];
/// maps with colour correction / channel choice / bump multiplier / type
pub fn has_cc(m: usize) -> bool {
    m < 3 || m == 8
}

/// Properties of a material, as one number each.
pub const PROPS: usize = 21;
pub const PROP_NAMES: [&str; PROPS] = [
    "Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Ni", "Tr", "sharpness", "d", "illum", "map_aat", "map_Ka", "map_Kd", "map_Ks",
    "map_Ns", "map_d", "disp", "decal", "bump", "refl",
];

impl M {
    /// The property a statement sets; None for newmtl.
    pub fn prop(&self) -> Option<usize> {
        Some(match self {
            M::New(_) => return None,
            M::Color(i, _) => *i,
            M::Ns(_) => 5,
            M::Ni(_) => 6,
            M::Tr(_) => 7,
            M::Sharp(_) => 8,
            M::Alpha(_) | M::Halo(_) => 9,
            M::Illum(_) => 10,
            M::Aat(_) => 11,
            M::Map(i, _) => 12 + i,
        })
    }
    pub fn words(&self) -> Words {
        let (key, args): (String, Vec<Word>) = match self {
            M::New(n) => ("newmtl".into(), vec![w(n.clone())]),
            M::Color(i, c) => {
                let a = match c {
                    Color::Rgb(r, g, b) => vec![w(r.text.clone()), w(g.text.clone()), w(b.text.clone())],
                    Color::Spectral(f, x) => {
                        let mut v = vec![kw("spectral"), w(f.clone())];
                        v.extend(x.iter().map(|x| w(x.text.clone())));
                        v
                    }
                    Color::Xyz(x, yz) => {
                        let mut v = vec![kw("xyz"), w(x.text.clone())];
                        if let Some((y, z)) = yz {
                            v.push(w(y.text.clone()));
                            v.extend(z.iter().map(|z| w(z.text.clone())));
                        }
                        v
                    }
                };
                (COLORS[*i].into(), a)
            }
            M::Ns(n) => ("Ns".into(), vec![w(n.text.clone())]),
            M::Ni(n) => ("Ni".into(), vec![w(n.text.clone())]),
            M::Tr(n) => ("Tr".into(), vec![w(n.text.clone())]),
            M::Sharp(n) => ("sharpness".into(), vec![w(n.text.clone())]),
            M::Alpha(n) => ("d".into(), vec![w(n.text.clone())]),
            M::Halo(n) => ("d".into(), vec![kw("-halo"), w(n.text.clone())]),
            M::Illum(n) => ("illum".into(), vec![w(n.text.clone())]),
            M::Aat(b) => ("map_aat".into(), vec![kw(if *b { "on" } else { "off" })]),
            M::Map(_, m) => {
                let mut v = Vec::new();
                for o in &m.before {
                    op_words(o, &mut v);
                }
                v.push(w(m.file.clone()));
                for o in &m.after {
                    op_words(o, &mut v);
                }
                (m.key.clone(), v)
            }
        };
        Words { key, args }
    }
}

fn op_words(o: &Op, v: &mut Vec<Word>) {
    let b = |x: &bool| kw(if *x { "on" } else { "off" });
    let (k, a): (&str, Vec<Word>) = match o {
        Op::BlendU(x) => ("-blendu", vec![b(x)]),
        Op::BlendV(x) => ("-blendv", vec![b(x)]),
        Op::Cc(x) => ("-cc", vec![b(x)]),
        Op::Clamp(x) => ("-clamp", vec![b(x)]),
        Op::Mm(x, y) => ("-mm", vec![w(x.text.clone()), w(y.text.clone())]),
        Op::Offset(n) => ("-o", n.iter().map(|x| w(x.text.clone())).collect()),
        Op::Scale(n) => ("-s", n.iter().map(|x| w(x.text.clone())).collect()),
        Op::Turb(n) => ("-t", n.iter().map(|x| w(x.text.clone())).collect()),
        Op::TexRes(n) => ("-texres", vec![w(n.text.clone())]),
        Op::Imf(c) => ("-imfchan", vec![w(c.clone())]),
        Op::Bm(n) => ("-bm", vec![w(n.text.clone())]),
        Op::Type(t) => ("-type", vec![w(t.clone())]),
        Op::Boost(n) => ("-boost", vec![w(n.text.clone())]),
    };
    v.push(kw(k));
    v.extend(a);
}

pub fn words(p: &[M]) -> Vec<Words> {
    p.iter().map(M::words).collect()
}

/// The materials written, each property with the statement that set it last.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mat {
    pub name: String,
    pub props: Vec<Option<M>>,
}

pub fn expected(p: &[M]) -> Vec<Mat> {
    let mut v: Vec<Mat> = Vec::new();
    for m in p {
        match m {
            M::New(n) => v.push(Mat { name: n.clone(), props: vec![None; PROPS] }),
            m => v.last_mut().expect("program starts with newmtl").props[m.prop().unwrap()] = Some(m.clone()),
        }
    }
    v
}

pub fn present(m: &Material) -> [bool; PROPS] {
    [
        m.ambient.is_some(),
        m.diffuse.is_some(),
        m.specular.is_some(),
        m.emissive_coefficient.is_some(),
        m.transmission_factor.is_some(),
        m.specular_exponent.is_some(),
        m.index_of_refraction.is_some(),
        m.transparancy.is_some(),
        m.sharpness.is_some(),
        m.disolve.is_some(),
        m.illumination_mode.is_some(),
        m.anti_alias_map.is_some(),
        m.texture_map_ambient.is_some(),
        m.texture_map_diffuse.is_some(),
        m.texture_map_specular.is_some(),
        m.shininess_map.is_some(),
        m.disolve_map.is_some(),
        m.displacement_map.is_some(),
        m.decal.is_some(),
        m.bump_map.is_some(),
        m.reflection_map.is_some(),
    ]
}

/// Clears one property (to compare what is left).
pub fn clear(m: &mut Material, prop: usize) {
    match prop {
        0 => m.ambient = None,
        1 => m.diffuse = None,
        2 => m.specular = None,
        3 => m.emissive_coefficient = None,
        4 => m.transmission_factor = None,
        5 => m.specular_exponent = None,
        6 => m.index_of_refraction = None,
        7 => m.transparancy = None,
        8 => m.sharpness = None,
        9 => m.disolve = None,
        10 => m.illumination_mode = None,
        11 => m.anti_alias_map = None,
        12 => m.texture_map_ambient = None,
        13 => m.texture_map_diffuse = None,
        14 => m.texture_map_specular = None,
        15 => m.shininess_map = None,
        16 => m.disolve_map = None,
        17 => m.displacement_map = None,
        18 => m.decal = None,
        19 => m.bump_map = None,
        _ => m.reflection_map = None,
    }
}

fn color(m: &Material, i: usize) -> &Option<ColorType> {
    match i {
        0 => &m.ambient,
        1 => &m.diffuse,
        2 => &m.specular,
        3 => &m.emissive_coefficient,
        _ => &m.transmission_factor,
    }
}

/// The common fields of both kinds of map.
struct Seen {
    file: String,
    blend_u: Option<bool>,
    blend_v: Option<bool>,
    cc: Option<bool>,
    clamp: Option<bool>,
    imf: Option<String>,
    mm: Option<(f32, f32)>,
    o: Option<(f32, Option<f32>, Option<f32>)>,
    s: Option<(f32, Option<f32>, Option<f32>)>,
    t: Option<(f32, Option<f32>, Option<f32>)>,
    texres: Option<i32>,
    bm: Option<f32>,
    ty: Option<String>,
}

fn cc(m: &ColorCorrectedMap) -> Seen {
    Seen {
        file: m.file_name.clone(),
        blend_u: m.blend_u,
        blend_v: m.blend_v,
        cc: m.color_correct,
        clamp: m.clamp,
        imf: None,
        mm: m.texture_range,
        o: m.offset,
        s: m.scale,
        t: m.turbulance,
        texres: m.texture_res,
        bm: None,
        ty: None,
    }
}
fn ncc(m: &NonColorCorrectedMap) -> Seen {
    Seen {
        file: m.file_name.clone(),
        blend_u: m.blend_u,
        blend_v: m.blend_v,
        cc: None,
        clamp: m.clamp,
        imf: m.imf_chan.clone(),
        mm: m.texture_range,
        o: m.offset,
        s: m.scale,
        t: m.turbulance,
        texres: m.texture_res,
        bm: None,
        ty: None,
    }
}

fn seen(m: &Material, i: usize) -> Option<Seen> {
    match i {
        0 => m.texture_map_ambient.as_ref().map(cc),
        1 => m.texture_map_diffuse.as_ref().map(cc),
        2 => m.texture_map_specular.as_ref().map(cc),
        3 => m.shininess_map.as_ref().map(ncc),
        4 => m.disolve_map.as_ref().map(ncc),
        5 => m.displacement_map.as_ref().map(ncc),
        6 => m.decal.as_ref().map(ncc),
        7 => m.bump_map.as_ref().and_then(|b| {
            let mut s = ncc(b.map_settings.as_ref()?);
            s.bm = b.bump_multiplier;
            Some(s)
        }),
        _ => m.reflection_map.as_ref().and_then(|r| {
            let mut s = cc(r.map_settings.as_ref()?);
            s.ty = Some(r.reflection_type.clone());
            Some(s)
        }),
    }
}

fn want_map(i: usize, m: &Map) -> Seen {
    let mut s = Seen {
        file: m.file.clone(),
        blend_u: None,
        blend_v: None,
        cc: None,
        clamp: None,
        imf: None,
        mm: None,
        o: None,
        s: None,
        t: None,
        texres: None,
        bm: None,
        ty: if i == 8 { Some(String::new()) } else { None },
    };
    let uvw = |n: &Vec<Num>| Some((n[0].val, n.get(1).map(|x| x.val), n.get(2).map(|x| x.val)));
    for o in m.before.iter().chain(&m.after) {
        match o {
            Op::BlendU(b) => s.blend_u = Some(*b),
            Op::BlendV(b) => s.blend_v = Some(*b),
            Op::Cc(b) if has_cc(i) => s.cc = Some(*b),
            Op::Clamp(b) => s.clamp = Some(*b),
            Op::Mm(a, b) => s.mm = Some((a.val, b.val)),
            Op::Offset(n) => s.o = uvw(n),
            Op::Scale(n) => s.s = uvw(n),
            Op::Turb(n) => s.t = uvw(n),
            Op::TexRes(n) => s.texres = Some(n.val),
            Op::Imf(c) if !has_cc(i) => s.imf = Some(c.clone()),
            Op::Bm(n) if i == 7 => s.bm = Some(n.val),
            Op::Type(t) if i == 8 => s.ty = Some(t.clone()),
            _ => {}
        }
    }
    s
}

fn cmp_map(what: &str, want: &Seen, got: &Seen) -> Result<(), String> {
    let e = |f: &str, a: String, b: String| Err(format!("{what} {f}: written {a}, loaded {b}"));
    macro_rules! field {
        ($f:ident, $n:expr, $eq:expr) => {
            if !$eq(&want.$f, &got.$f) {
                return e($n, format!("{:?}", want.$f), format!("{:?}", got.$f));
            }
        };
    }
    let uvw = |a: &Option<(f32, Option<f32>, Option<f32>)>, b: &Option<(f32, Option<f32>, Option<f32>)>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a.0, b.0) && same_opt(a.1, b.1) && same_opt(a.2, b.2),
        _ => false,
    };
    field!(file, "file name", |a: &String, b: &String| a == b);
    field!(blend_u, "-blendu", |a, b| a == b);
    field!(blend_v, "-blendv", |a, b| a == b);
    field!(cc, "-cc", |a, b| a == b);
    field!(clamp, "-clamp", |a, b| a == b);
    field!(imf, "-imfchan", |a, b| a == b);
    field!(mm, "-mm", |a: &Option<(f32, f32)>, b: &Option<(f32, f32)>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a.0, b.0) && same(a.1, b.1),
        _ => false,
    });
    field!(o, "-o", uvw);
    field!(s, "-s", uvw);
    field!(t, "-t", uvw);
    field!(texres, "-texres", |a, b| a == b);
    field!(bm, "-bm", |a: &Option<f32>, b: &Option<f32>| same_opt(*a, *b));
    field!(ty, "-type", |a, b| a == b);
    Ok(())
}

/// Compares one property of a loaded material with the statement that set it.
pub fn cmp_prop(prop: usize, want: &Option<M>, m: &Material) -> Result<(), String> {
    let name = PROP_NAMES[prop];
    let real = |want: &Num, got: Option<f32>| match got {
        Some(g) if same(want.val, g) => Ok(()),
        g => Err(format!("{name}: written {} ({:?}), loaded {g:?}", want.text, want.val)),
    };
    match want {
        None => {
            if present(m)[prop] {
                return Err(format!("{name} was not written but is present"));
            }
            Ok(())
        }
        Some(M::Color(i, c)) => {
            let ok = match (c, color(m, *i)) {
                (Color::Rgb(r, g, b), Some(ColorType::Rgb(x, y, z))) => {
                    same(r.val, *x) && same(g.val, *y) && same(b.val, *z)
                }
                (Color::Spectral(f, k), Some(ColorType::Spectral(g, x))) => {
                    f == g && same(k.as_ref().map_or(1.0, |k| k.val), *x)
                }
                (Color::Xyz(x, yz), Some(ColorType::CieXyz(a, b, c))) => {
                    let (y, z) = yz.as_ref().map_or((x.val, x.val), |(y, z)| (y.val, z.as_ref().map_or(x.val, |z| z.val)));
                    same(x.val, *a) && same(y, *b) && same(z, *c)
                }
                _ => false,
            };
            if ok {
                Ok(())
            } else {
                Err(format!("{name}: written {c:?}, loaded {:?}", color(m, *i)))
            }
        }
        Some(M::Ns(n)) => real(n, m.specular_exponent),
        Some(M::Ni(n)) => real(n, m.index_of_refraction),
        Some(M::Tr(n)) => real(n, m.transparancy),
        Some(M::Sharp(n)) => real(n, m.sharpness),
        Some(M::Alpha(n)) => match m.disolve {
            Some(DisolveType::Alpha(x)) if same(x, n.val) => Ok(()),
            d => Err(format!("d: written {}, loaded {d:?}", n.text)),
        },
        Some(M::Halo(n)) => match m.disolve {
            Some(DisolveType::Halo(x)) if same(x, n.val) => Ok(()),
            d => Err(format!("d: written -halo {}, loaded {d:?}", n.text)),
        },
        Some(M::Illum(n)) => {
            if m.illumination_mode == Some(n.val as u32) {
                Ok(())
            } else {
                Err(format!("illum: written {}, loaded {:?}", n.text, m.illumination_mode))
            }
        }
        Some(M::Aat(b)) => {
            if m.anti_alias_map == Some(*b) {
                Ok(())
            } else {
                Err(format!("map_aat: written {b}, loaded {:?}", m.anti_alias_map))
            }
        }
        Some(M::Map(i, map)) => match seen(m, *i) {
            None => Err(format!("{name}: written but absent")),
            Some(s) => cmp_map(name, &want_map(*i, map), &s),
        },
        Some(M::New(_)) => unreachable!(),
    }
}

// --------------------------------------------------------------- generation

fn gen_color(s: &mut Src) -> Color {
    match s.below(6) {
        0..=2 => {
            let n = nums(s, 3);
            Color::Rgb(n[0].clone(), n[1].clone(), n[2].clone())
        }
        3 => Color::Spectral(mtl_file(s), None),
        4 => {
            let f = mtl_file(s);
            Color::Spectral(f, Some(num(s)))
        }
        _ => {
            let n = nums(s, 3);
            let yz = match s.below(3) {
                0 => None,
                1 => Some((n[1].clone(), None)),
                _ => Some((n[1].clone(), Some(n[2].clone()))),
            };
            Color::Xyz(n[0].clone(), yz)
        }
    }
}

pub fn gen_op(s: &mut Src, kind: usize) -> Op {
    let uvw = |s: &mut Src| {
        let n = s.range(1, 3);
        nums(s, n)
    };
    let pair = |s: &mut Src| {
        let n = nums(s, 2);
        (n[0].clone(), n[1].clone())
    };
    match kind {
        0 => Op::BlendU(s.flip()),
        1 => Op::BlendV(s.flip()),
        2 => Op::Cc(s.flip()),
        3 => Op::Clamp(s.flip()),
        4 => {
            let (a, b) = pair(s);
            Op::Mm(a, b)
        }
        5 => Op::Offset(uvw(s)),
        6 => Op::Scale(uvw(s)),
        7 => Op::Turb(uvw(s)),
        8 => Op::TexRes(int_lit(s, false)),
        9 => Op::Imf(s.pick(&["r", "g", "b", "m", "l", "z"]).to_string()),
        10 => Op::Bm(num(s)),
        11 => Op::Type(s.pick(&["sphere", "cube_top", "cube_bottom", "cube_front", "cube_back", "cube_left", "cube_right", "cube_side", "cube", "Sphere", "CUBE_TOP"]).to_string()),
        _ => Op::Boost(num(s)),
    }
}

pub fn gen_map(s: &mut Src, i: usize) -> M {
    let mut kinds: Vec<usize> = (0..OPS).collect();
    // a random subset in random order
    for k in (1..kinds.len()).rev() {
        let j = s.below(k + 1);
        kinds.swap(k, j);
    }
    let n = match s.below(8) {
        0 => 0,
        1..=4 => s.range(1, 3),
        5 | 6 => s.range(2, 8),
        _ => OPS,
    };
    kinds.truncate(n);
    let mut ops: Vec<Op> = kinds.into_iter().map(|k| gen_op(s, k)).collect();
    let cut = if s.flip() { ops.len() } else { s.below(ops.len() + 1) };
    let after = ops.split_off(cut);
    let key = if i == 5 && s.flip() { "map_disp" } else { MAPS[i] };
    M::Map(i, Map { key: key.into(), before: ops, file: mtl_file(s), after })
}

pub fn statement(s: &mut Src, prop: usize) -> M {
    match prop {
        0..=4 => M::Color(prop, gen_color(s)),
        5 => M::Ns(num(s)),
        6 => M::Ni(num(s)),
        7 => M::Tr(num(s)),
        8 => M::Sharp(num(s)),
        9 => {
            let n = num(s);
            if s.flip() {
                M::Alpha(n)
            } else {
                M::Halo(n)
            }
        }
        10 => M::Illum(if s.flip() {
            let v = s.below(11) as i32;
            int_from(s, v)
        } else {
            int_lit(s, false)
        }),
        11 => M::Aat(s.flip()),
        p => gen_map(s, p - 12),
    }
}

#[derive(Clone)]
pub struct Profile {
    pub weights: [u32; PROPS],
    pub newmtl: u32,
    pub max_len: usize,
}

impl Profile {
    pub fn mixed() -> Profile {
        Profile { weights: [3, 3, 3, 3, 3, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2], newmtl: 12, max_len: 40 }
    }
    pub fn focus(props: std::ops::Range<usize>) -> Profile {
        let mut p = Profile::mixed();
        for (i, x) in p.weights.iter_mut().enumerate() {
            *x = if props.contains(&i) { 6 } else { 1 };
        }
        p
    }
}

/// A run that leaves 16 bits, then an ordinary program.
pub fn giant_program(s: &mut Src, prof: &Profile) -> Vec<M> {
    let mut p = vec![M::New(name(s))];
    let n = crate::dict::giant(s);
    let prop = s.weighted(&prof.weights);
    let run = s.below(3);
    let same = statement(s, prop);
    let (own, distinct) = (name(s), s.flip());
    for i in 0..n {
        p.push(match run {
            0 => M::New(if distinct { format!("{own}{i}") } else { own.clone() }),
            1 => same.clone(),
            _ => M::Ns(Num { text: i.to_string(), val: i as f32 }),
        });
    }
    for _ in 0..s.range(3, 30) {
        let prop = s.weighted(&prof.weights);
        p.push(if s.one_in(4) { M::New(name(s)) } else { statement(s, prop) });
    }
    p
}

/// A statement for another property with the same arguments.
fn alike(s: &mut Src, m: M) -> M {
    match m {
        M::Color(_, c) => M::Color(s.below(5), c),
        M::Ns(n) | M::Ni(n) | M::Tr(n) | M::Sharp(n) | M::Alpha(n) | M::Halo(n) => match s.below(7) {
            0 => M::Ns(n),
            1 => M::Ni(n),
            2 => M::Tr(n),
            3 => M::Sharp(n),
            4 => M::Alpha(n),
            5 => M::Halo(n),
            _ => M::Color(s.below(5), Color::Rgb(n.clone(), n.clone(), n)),
        },
        M::Map(i, mut m) => {
            let j = s.below(9);
            m.key = MAPS[j].into();
            match s.below(4) {
                0 => m.before.extend(std::mem::take(&mut m.after)),
                1 => std::mem::swap(&mut m.before, &mut m.after),
                2 => {
                    m.before.clear();
                    m.after.clear();
                }
                _ => {}
            }
            let _ = i;
            M::Map(j, m)
        }
        m => m,
    }
}

pub fn program(s: &mut Src, prof: &Profile, big: bool) -> Vec<M> {
    let k = s.range(1, 4);
    let names: Vec<String> = (0..k).map(|_| name(s)).collect();
    let nm = |s: &mut Src| {
        if s.one_in(3) {
            name(s)
        } else {
            s.pick(&names).clone()
        }
    };
    if big && crate::dict::giant_now(s) {
        return giant_program(s, prof);
    }
    let mut p = vec![M::New(nm(s))];
    let mut weights = prof.weights;
    if s.flip() {
        for x in weights.iter_mut() {
            if s.one_in(3) {
                *x = 0;
            }
        }
        if weights.iter().all(|x| *x == 0) {
            weights = prof.weights;
        }
    }
    let total: u32 = weights.iter().sum();
    let newmtl = match s.below(4) {
        0 => 0,
        1 => total / 2,
        _ => prof.newmtl,
    };
    let n = match s.below(20) {
        0..=9 => s.range(0, 10.min(prof.max_len)),
        10..=18 => s.range(0, prof.max_len),
        _ if big => s.range(prof.max_len, prof.max_len * 12),
        _ => s.range(0, prof.max_len),
    };
    while p.len() <= n {
        let run = if big && s.one_in(60) {
            match s.below(3) {
                0 => dict::int(s).clamp(1, 1100) as usize,
                _ => s.range(2, 40),
            }
        } else {
            1
        };
        let new = s.below((total + newmtl) as usize) as u32 >= total;
        let prop = s.weighted(&weights);
        for _ in 0..run {
            if new {
                p.push(M::New(nm(s)));
            } else if s.one_in(8) {
                let i = s.below(p.len());
                let m = p[i].clone();
                let m = if s.one_in(3) { alike(s, m) } else { m };
                if m.prop().is_none_or(|k| weights[k] > 0) {
                    p.push(m);
                }
            } else {
                p.push(statement(s, prop));
            }
            if s.exhausted() {
                break;
            }
        }
        if s.exhausted() {
            break;
        }
    }
    p
}

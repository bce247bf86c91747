//! OBJ programs: statements, their text, and the model they stand for.
use crate::dict;
use crate::gen::*;
use crate::src::Src;
use nobject_rs::Model;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub v: IntLit,
    pub t: Option<IntLit>,
    pub n: Option<IntLit>,
    /// Trailing slashes that separate nothing (0..=2, less after a texture index).
    pub tail: usize,
}

impl Ref {
    fn text(&self) -> String {
        match (&self.t, &self.n) {
            (None, None) => format!("{}{}", self.v.text, "/".repeat(self.tail)),
            (Some(t), None) => format!("{}/{}{}", self.v.text, t.text, "/".repeat(self.tail.min(1))),
            (None, Some(n)) => format!("{}//{}", self.v.text, n.text),
            (Some(t), Some(n)) => format!("{}/{}/{}", self.v.text, t.text, n.text),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum O {
    V(Vec<Num>),
    Vn(Vec<Num>),
    Vt(Vec<Num>),
    Vp(Vec<Num>),
    F(Vec<Ref>),
    L(Vec<Ref>),
    P(Vec<IntLit>),
    G(Vec<String>),
    S(Option<IntLit>),
    Name(String),
    UseMtl(String),
    UseMap(Option<String>),
    MtlLib(Vec<String>),
    MapLib(Vec<String>),
    Shadow(String),
    Trace(String),
    Bevel(bool),
    CInterp(bool),
    DInterp(bool),
    Lod(IntLit),
}

pub const KINDS: usize = 20;
pub const KIND_NAMES: [&str; KINDS] = [
    "v", "vn", "vt", "vp", "f", "l", "p", "g", "s", "o", "usemtl", "usemap", "mtllib", "maplib", "shadow_obj",
    "trace_obj", "bevel", "c_interp", "d_interp", "lod",
];

fn onoff(b: bool) -> Word {
    kw(if b { "on" } else { "off" })
}

impl O {
    pub fn kind(&self) -> usize {
        match self {
            O::V(_) => 0,
            O::Vn(_) => 1,
            O::Vt(_) => 2,
            O::Vp(_) => 3,
            O::F(_) => 4,
            O::L(_) => 5,
            O::P(_) => 6,
            O::G(_) => 7,
            O::S(_) => 8,
            O::Name(_) => 9,
            O::UseMtl(_) => 10,
            O::UseMap(_) => 11,
            O::MtlLib(_) => 12,
            O::MapLib(_) => 13,
            O::Shadow(_) => 14,
            O::Trace(_) => 15,
            O::Bevel(_) => 16,
            O::CInterp(_) => 17,
            O::DInterp(_) => 18,
            O::Lod(_) => 19,
        }
    }
    pub fn words(&self) -> Words {
        let nums = |n: &Vec<Num>| n.iter().map(|x| w(x.text.clone())).collect();
        let names = |n: &Vec<String>| n.iter().map(|x| w(x.clone())).collect();
        let args: Vec<Word> = match self {
            O::V(n) | O::Vn(n) | O::Vt(n) | O::Vp(n) => nums(n),
            O::F(r) | O::L(r) => r.iter().map(|r| w(r.text())).collect(),
            O::P(i) => i.iter().map(|i| w(i.text.clone())).collect(),
            O::G(n) | O::MtlLib(n) | O::MapLib(n) => names(n),
            O::S(None) => vec![kw("off")],
            O::S(Some(i)) | O::Lod(i) => vec![w(i.text.clone())],
            O::Name(t) | O::UseMtl(t) | O::Shadow(t) | O::Trace(t) => vec![w(t.clone())],
            O::UseMap(Some(t)) => vec![w(t.clone())],
            O::UseMap(None) => vec![kw("off")],
            O::Bevel(b) | O::CInterp(b) | O::DInterp(b) => vec![onoff(*b)],
        };
        Words { key: KIND_NAMES[self.kind()].into(), args }
    }
    pub fn has_relative(&self) -> bool {
        match self {
            O::F(r) | O::L(r) => r.iter().any(|r| {
                r.v.val < 0 || r.t.as_ref().is_some_and(|x| x.val < 0) || r.n.as_ref().is_some_and(|x| x.val < 0)
            }),
            O::P(p) => p.iter().any(|x| x.val < 0),
            _ => false,
        }
    }
}

pub fn words(p: &[O]) -> Vec<Words> {
    p.iter().map(O::words).collect()
}

// ---------------------------------------------------------------- expected

pub type Refs = Vec<(i32, Option<i32>, Option<i32>)>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Attr {
    pub material: String,
    pub bevel: bool,
    pub c_interp: bool,
    pub d_interp: bool,
    pub lod: u8,
    pub map: Option<String>,
}

/// The observable part of a model.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Exp {
    pub v: Vec<([f32; 3], Option<f32>)>,
    pub vn: Vec<[f32; 3]>,
    pub vt: Vec<(f32, Option<f32>, Option<f32>)>,
    pub faces: BTreeMap<String, Vec<(Refs, i32)>>,
    pub lines: BTreeMap<String, Vec<Vec<(i32, Option<i32>)>>>,
    pub points: BTreeMap<String, Vec<Vec<i32>>>,
    pub groups: BTreeMap<String, Attr>,
    pub mtllibs: Vec<String>,
    pub maplibs: Vec<String>,
    pub shadow: Option<String>,
    pub trace: Option<String>,
}

pub struct State {
    pub exp: Exp,
    pub cur: Vec<String>,
    pub smoothing: i32,
}

fn resolve(i: i32, count: usize) -> i32 {
    let abs = i as i64 + count as i64 + 1;
    if i < 0 && abs > 0 {
        abs as i32
    } else {
        i
    }
}

impl State {
    pub fn new() -> State {
        let mut exp = Exp::default();
        exp.groups.insert("default".into(), Attr::default());
        State { exp, cur: vec!["default".into()], smoothing: 0 }
    }
    fn attr(&mut self, f: impl Fn(&mut Attr)) {
        for g in &self.cur {
            f(self.exp.groups.get_mut(g).unwrap());
        }
    }
    pub fn step(&mut self, o: &O) {
        let (nv, nt, nn) = (self.exp.v.len(), self.exp.vt.len(), self.exp.vn.len());
        let f = |n: &Num| n.val;
        match o {
            O::V(n) => self.exp.v.push(([n[0].val, n[1].val, n[2].val], n.get(3).map(f))),
            O::Vn(n) => self.exp.vn.push([n[0].val, n[1].val, n[2].val]),
            O::Vt(n) => self.exp.vt.push((n[0].val, n.get(1).map(f), n.get(2).map(f))),
            O::Vp(_) | O::Name(_) => {}
            O::F(r) => {
                let refs: Refs = r
                    .iter()
                    .map(|r| {
                        (
                            resolve(r.v.val, nv),
                            r.t.as_ref().map(|t| resolve(t.val, nt)),
                            r.n.as_ref().map(|n| resolve(n.val, nn)),
                        )
                    })
                    .collect();
                for g in &self.cur {
                    self.exp.faces.entry(g.clone()).or_default().push((refs.clone(), self.smoothing));
                }
            }
            O::L(r) => {
                let refs: Vec<_> =
                    r.iter().map(|r| (resolve(r.v.val, nv), r.t.as_ref().map(|t| resolve(t.val, nt)))).collect();
                for g in &self.cur {
                    self.exp.lines.entry(g.clone()).or_default().push(refs.clone());
                }
            }
            O::P(p) => {
                let refs: Vec<_> = p.iter().map(|p| resolve(p.val, nv)).collect();
                for g in &self.cur {
                    self.exp.points.entry(g.clone()).or_default().push(refs.clone());
                }
            }
            O::G(names) => {
                self.cur.clear();
                for n in names {
                    if !self.cur.contains(n) {
                        self.cur.push(n.clone());
                    }
                    self.exp.groups.entry(n.clone()).or_default();
                }
                if names.is_empty() {
                    self.cur.push("default".into());
                }
            }
            O::S(x) => self.smoothing = x.as_ref().map_or(0, |x| x.val),
            O::UseMtl(m) => self.attr(|a| a.material = m.clone()),
            O::UseMap(m) => self.attr(|a| a.map = m.clone()),
            O::Bevel(b) => self.attr(|a| a.bevel = *b),
            O::CInterp(b) => self.attr(|a| a.c_interp = *b),
            O::DInterp(b) => self.attr(|a| a.d_interp = *b),
            O::Lod(l) => self.attr(|a| a.lod = l.val as u8),
            O::MtlLib(n) => self.exp.mtllibs.extend(n.iter().cloned()),
            O::MapLib(n) => self.exp.maplibs.extend(n.iter().cloned()),
            O::Shadow(n) => self.exp.shadow = Some(n.clone()),
            O::Trace(n) => self.exp.trace = Some(n.clone()),
        }
    }
}

pub fn expected(p: &[O]) -> Exp {
    let mut s = State::new();
    for o in p {
        s.step(o);
    }
    s.exp
}

pub fn observe(m: &Model) -> Exp {
    Exp {
        v: m.vertices.iter().map(|v| ([v.x, v.y, v.z], v.w)).collect(),
        vn: m.normals.iter().map(|v| [v.x, v.y, v.z]).collect(),
        vt: m.textures.iter().map(|v| (v.u, v.v, v.w)).collect(),
        faces: m
            .faces
            .iter()
            .map(|(k, f)| {
                let f = f.iter().map(|f| {
                    let r = f.elements.iter().map(|e| (e.vertex_index, e.texture_index, e.normal_index)).collect();
                    (r, f.smoothing_group)
                });
                (k.clone(), f.collect())
            })
            .collect(),
        lines: m
            .lines
            .iter()
            .map(|(k, l)| {
                let l = l.iter().map(|l| l.elements.iter().map(|e| (e.vertex_index, e.texture_index)).collect());
                (k.clone(), l.collect())
            })
            .collect(),
        points: m
            .points
            .iter()
            .map(|(k, p)| (k.clone(), p.iter().map(|p| p.elements.clone()).collect()))
            .collect(),
        groups: m
            .groups
            .iter()
            .map(|(k, g)| {
                let a = Attr {
                    material: g.material_name.clone(),
                    bevel: g.bevel,
                    c_interp: g.c_interp,
                    d_interp: g.d_interp,
                    lod: g.lod,
                    map: g.texture_map.clone(),
                };
                (k.clone(), a)
            })
            .collect(),
        mtllibs: m.material_libs.clone(),
        maplibs: m.texture_libs.clone(),
        shadow: m.shadow_obj.clone(),
        trace: m.trace_obj.clone(),
    }
}

/// Which part of a model a property speaks about.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
    Vertices,
    References,
    Filing,
    Smoothing,
    Attributes,
    Libraries,
}

fn clip(s: String) -> String {
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}

fn list<T: std::fmt::Debug>(what: &str, want: &[T], got: &[T], eq: impl Fn(&T, &T) -> bool) -> Result<(), String> {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if !eq(a, b) {
            return Err(clip(format!("{what} {i}: written {a:?}, loaded {b:?}")));
        }
    }
    if want.len() != got.len() {
        return Err(format!("{what}: {} written, {} loaded", want.len(), got.len()));
    }
    Ok(())
}

pub fn diff_vertices(want: &Exp, got: &Exp) -> Result<(), String> {
    let eq3 = |a: &[f32; 3], b: &[f32; 3]| (0..3).all(|i| same(a[i], b[i]));
    list("position", &want.v, &got.v, |a, b| eq3(&a.0, &b.0) && same_opt(a.1, b.1))?;
    list("normal", &want.vn, &got.vn, eq3)?;
    list("texture coordinate", &want.vt, &got.vt, |a, b| same(a.0, b.0) && same_opt(a.1, b.1) && same_opt(a.2, b.2))
}

fn per_group<T>(
    want: &BTreeMap<String, Vec<T>>,
    got: &BTreeMap<String, Vec<T>>,
    strict: bool,
    what: &str,
    eq: impl Fn(&T, &T) -> Result<(), String>,
) -> Result<(), String> {
    if strict {
        let nonempty = |m: &BTreeMap<String, Vec<T>>| -> Vec<String> {
            m.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k.clone()).collect()
        };
        let (a, b) = (nonempty(want), nonempty(got));
        if a != b {
            return Err(clip(format!("groups holding {what}: expected {a:?}, got {b:?}")));
        }
    }
    for (k, a) in want {
        let Some(b) = got.get(k) else { continue };
        if a.len() != b.len() {
            if strict {
                return Err(clip(format!("{what} of group {k:?}: expected {}, got {}", a.len(), b.len())));
            }
            continue;
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if let Err(e) = eq(x, y) {
                return Err(clip(format!("{what} {i} of group {k:?}: {e}")));
            }
        }
    }
    Ok(())
}

fn eq_dbg<T: PartialEq + std::fmt::Debug>(a: &T, b: &T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        let l = |x: &T| format!("{x:?}");
        Err(format!("expected {}, got {}", l(a), l(b)))
    }
}

pub fn diff(part: Part, want: &Exp, got: &Exp) -> Result<(), String> {
    match part {
        Part::Vertices => diff_vertices(want, got),
        Part::References => {
            per_group(&want.faces, &got.faces, false, "face", |a, b| {
                if a.0.len() != b.0.len() {
                    return Err(format!("{} references written, {} loaded", a.0.len(), b.0.len()));
                }
                a.0.iter().zip(&b.0).try_for_each(|(x, y)| eq_dbg(x, y))
            })?;
            per_group(&want.lines, &got.lines, false, "line", |a, b| {
                if a.len() != b.len() {
                    return Err(format!("{} references written, {} loaded", a.len(), b.len()));
                }
                a.iter().zip(b).try_for_each(|(x, y)| eq_dbg(x, y))
            })?;
            per_group(&want.points, &got.points, false, "point", eq_dbg)
        }
        Part::Filing => {
            // elements are told apart by the first reference, which is unique
            per_group(&want.faces, &got.faces, true, "faces", |a, b| {
                eq_dbg(&a.0.first().map(|x| x.0), &b.0.first().map(|x| x.0))
            })?;
            per_group(&want.lines, &got.lines, true, "lines", |a, b| {
                eq_dbg(&a.first().map(|x| x.0), &b.first().map(|x| x.0))
            })?;
            per_group(&want.points, &got.points, true, "points", |a, b| eq_dbg(&a.first(), &b.first()))?;
            let (a, b): (Vec<_>, Vec<_>) = (want.groups.keys().collect(), got.groups.keys().collect());
            if a != b {
                return Err(clip(format!("groups: expected {a:?}, got {b:?}")));
            }
            Ok(())
        }
        Part::Smoothing => per_group(&want.faces, &got.faces, false, "face", |a, b| {
            if a.1 == b.1 {
                Ok(())
            } else {
                Err(format!("smoothing group should be {}, is {}", a.1, b.1))
            }
        }),
        Part::Attributes => {
            for (k, a) in &want.groups {
                let Some(b) = got.groups.get(k) else { continue };
                if a != b {
                    return Err(clip(format!("group {k:?}: expected {a:?}, got {b:?}")));
                }
            }
            Ok(())
        }
        Part::Libraries => {
            list("material library", &want.mtllibs, &got.mtllibs, |a, b| a == b)?;
            list("texture library", &want.maplibs, &got.maplibs, |a, b| a == b)?;
            if want.shadow != got.shadow {
                return Err(clip(format!("shadow object: expected {:?}, got {:?}", want.shadow, got.shadow)));
            }
            if want.trace != got.trace {
                return Err(clip(format!("trace object: expected {:?}, got {:?}", want.trace, got.trace)));
            }
            Ok(())
        }
    }
}

/// All of it, for relations between two loads.
pub fn diff_all(want: &Exp, got: &Exp) -> Result<(), String> {
    diff_vertices(want, got)?;
    let eq = |a: &(Refs, i32), b: &(Refs, i32)| eq_dbg(a, b);
    per_group(&want.faces, &got.faces, true, "faces", eq)?;
    per_group(&want.lines, &got.lines, true, "lines", eq_dbg)?;
    per_group(&want.points, &got.points, true, "points", eq_dbg)?;
    if want.groups.keys().ne(got.groups.keys()) {
        return Err(clip(format!("groups: {:?} / {:?}", want.groups.keys(), got.groups.keys())));
    }
    diff(Part::Attributes, want, got)?;
    diff(Part::Libraries, want, got)
}

// --------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Profile {
    pub weights: [u32; KINDS],
    pub relative: bool,
    /// Give every element a first reference nothing else has.
    pub unique: bool,
    pub max_len: usize,
}

impl Profile {
    pub fn mixed() -> Profile {
        Profile {
            weights: [8, 4, 4, 1, 8, 4, 3, 6, 4, 1, 4, 2, 1, 1, 1, 1, 2, 2, 2, 2],
            relative: true,
            unique: false,
            max_len: 60,
        }
    }
    pub fn of(w: &[(&str, u32)]) -> Profile {
        let mut p = Profile::mixed();
        p.weights = [0; KINDS];
        for (k, n) in w {
            let i = KIND_NAMES.iter().position(|x| x == k).expect("kind");
            p.weights[i] = *n;
        }
        p
    }
}

pub struct Pools {
    pub groups: Vec<String>,
    pub names: Vec<String>,
}

pub fn pools(s: &mut Src) -> Pools {
    let k = s.range(1, 5);
    let mut groups: Vec<String> = (0..k).map(|_| name(s)).collect();
    if s.flip() {
        groups.push("default".into());
    }
    if s.one_in(4) {
        // names that differ in case only, or by a prefix
        let g = groups[0].clone();
        groups.push(g.to_ascii_uppercase());
        groups.push(format!("{g}_"));
        groups.push(g.to_ascii_lowercase());
    }
    let k = s.range(1, 4);
    let names = (0..k).map(|_| name(s)).collect();
    Pools { groups, names }
}

fn length(s: &mut Src) -> usize {
    match s.below(40) {
        0..=29 => s.range(1, 6),
        30..=35 => s.range(1, 40),
        36 | 37 => dict::int(s).clamp(1, 600) as usize,
        38 => s.range(100, 600),
        _ => *s.pick(&[255, 256, 257, 1023, 1024, 1025]),
    }
}

fn many_names(s: &mut Src, pool: &[String], max: usize) -> Vec<String> {
    let n = match s.below(4) {
        0 => dict::int(s).clamp(1, max as i64) as usize,
        1 => *s.pick(&[16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257]),
        2 => s.range(10, 100),
        _ => s.range(10, max),
    };
    let n = if cfg!(miri) { n.min(40) } else { n };
    let base = s.pick(pool).clone();
    (0..n).map(|i| format!("{base}.{i}")).collect()
}

pub fn statement(s: &mut Src, kind: usize, prof: &Profile, pools: &Pools, id: &mut i32) -> O {
    let rel = prof.relative && s.flip();
    let nums = |s: &mut Src, lo: usize, hi: usize| -> Vec<Num> {
        let n = s.range(lo, hi);
        crate::gen::nums(s, n)
    };
    let mut idx = |s: &mut Src, first: bool| -> IntLit {
        if first && prof.unique {
            *id += 1;
            return int_from(s, *id);
        }
        int_lit(s, rel)
    };
    let nm = |s: &mut Src| -> String {
        if s.one_in(3) {
            name(s)
        } else {
            s.pick(&pools.names).clone()
        }
    };
    let txt = |s: &mut Src| -> String {
        if s.one_in(4) {
            text_name(s)
        } else {
            s.pick(&pools.names).clone()
        }
    };
    match kind {
        0 => O::V(nums(s, 3, 4)),
        1 => O::Vn(nums(s, 3, 3)),
        2 => O::Vt(nums(s, 1, 3)),
        3 => O::Vp(nums(s, 1, 3)),
        4 | 5 => {
            let n = length(s);
            let uniform = if s.flip() { Some(s.below(4)) } else { None };
            let mut r = Vec::new();
            for i in 0..n {
                let form = uniform.unwrap_or_else(|| s.below(4));
                let form = if kind == 5 { form % 2 } else { form };
                let v = idx(s, i == 0);
                let t = if form == 1 || form == 3 { Some(int_lit(s, rel)) } else { None };
                let n = if form >= 2 { Some(int_lit(s, rel)) } else { None };
                let tail = if s.one_in(12) { s.range(1, if kind == 5 { 1 } else { 2 }) } else { 0 };
                // for lines `v/vt/` is not a form
                let tail = if kind == 5 && t.is_some() { 0 } else { tail };
                r.push(Ref { v, t, n, tail });
            }
            if kind == 4 {
                O::F(r)
            } else {
                O::L(r)
            }
        }
        6 => {
            let n = length(s);
            O::P((0..n).map(|i| idx(s, i == 0)).collect())
        }
        7 => {
            let n = match s.below(12) {
                0 => 0,
                1..=7 => 1,
                8..=10 => s.range(2, 4),
                _ => s.range(1, 12),
            };
            if s.one_in(150) {
                // very many at once, all different
                return O::G(many_names(s, &pools.groups, 400));
            }
            O::G((0..n).map(|_| if s.one_in(10) { name(s) } else { s.pick(&pools.groups).clone() }).collect())
        }
        8 => O::S(if s.one_in(4) {
            None
        } else if s.one_in(3) {
            Some(int_lit(s, false))
        } else {
            let v = s.below(4) as i32;
            Some(int_from(s, v))
        }),
        9 => O::Name(txt(s)),
        10 => O::UseMtl(txt(s)),
        11 => {
            let t = txt(s);
            O::UseMap(if s.one_in(4) || t.eq_ignore_ascii_case("off") { None } else { Some(t) })
        }
        12 | 13 => {
            let n = s.weighted(&[0, 6, 2, 1, 1]);
            let v = if s.one_in(60) { many_names(s, &pools.names, 700) } else { (0..n).map(|_| nm(s)).collect() };
            if kind == 12 {
                O::MtlLib(v)
            } else {
                O::MapLib(v)
            }
        }
        14 => O::Shadow(txt(s)),
        15 => O::Trace(txt(s)),
        16 => O::Bevel(s.flip()),
        17 => O::CInterp(s.flip()),
        18 => O::DInterp(s.flip()),
        _ => {
            let v = s.below(256) as i32;
            let v = *s.pick(&[0, 1, 100, 127, 128, 255, v, v]);
            O::Lod(int_from(s, v))
        }
    }
}

/// A run of one kind, long enough to leave 16 bits, then a mixed program.
fn giant(s: &mut Src, prof: &Profile, pools: &Pools, id: &mut i32) -> Vec<O> {
    let kind = s.weighted(&prof.weights);
    let n = crate::dict::giant(s);
    let name = s.pick(&pools.names).clone();
    let group = s.pick(&pools.groups).clone();
    let distinct = s.flip();
    let own = |name: &str, i: usize| if distinct { format!("{name}{i}") } else { name.to_string() };
    let one = |k: i32| IntLit { text: k.to_string(), val: k };
    let mut p = Vec::with_capacity(n + 60);
    for _ in 0..s.below(6) {
        let k = s.weighted(&prof.weights);
        p.push(statement(s, k, prof, pools, id));
    }
    if prof.weights[7] > 0 {
        // few groups at once, the model holds everything once for each
        p.push(O::G(vec![group.clone()]));
    }
    for i in 0..n {
        let k = i as i32 + 1;
        let num = |i: usize| Num { text: i.to_string(), val: i as f32 };
        let r = |k: i32| Ref { v: one(k), t: None, n: None, tail: 0 };
        *id += 1;
        p.push(match kind {
            0 => O::V(vec![num(i), num(1), num(2)]),
            1 => O::Vn(vec![num(i), num(1), num(2)]),
            2 => O::Vt(vec![num(i)]),
            3 => O::Vp(vec![num(i)]),
            4 => O::F(vec![r(*id), r(1), r(k)]),
            5 => O::L(vec![r(*id), r(k)]),
            6 => O::P(vec![one(*id)]),
            7 => O::G(vec![own(&group, i)]),
            8 => O::S(Some(one(k))),
            9 => O::Name(own(&name, i)),
            10 => O::UseMtl(own(&name, i)),
            11 => O::UseMap(Some(own(&name, i)).filter(|n| !n.eq_ignore_ascii_case("off"))),
            12 => O::MtlLib(vec![own(&name, i)]),
            13 => O::MapLib(vec![own(&name, i)]),
            14 => O::Shadow(own(&name, i)),
            15 => O::Trace(own(&name, i)),
            16 => O::Bevel(i % 2 == 0),
            17 => O::CInterp(i % 2 == 0),
            18 => O::DInterp(i % 2 == 0),
            _ => O::Lod(one(k % 256)),
        });
    }
    for _ in 0..s.range(3, 50) {
        let k = s.weighted(&prof.weights);
        p.push(statement(s, k, prof, pools, id));
    }
    p
}

pub fn giant_program(s: &mut Src, prof: &Profile) -> Vec<O> {
    let pools = pools(s);
    giant(s, prof, &pools, &mut 0)
}

/// A statement of another kind with the same arguments, or of the same kind
/// with almost the same.
fn alike(s: &mut Src, o: O) -> O {
    let word = |t: &String| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    match o {
        O::V(n) | O::Vn(n) | O::Vt(n) => match s.below(4) {
            0 => O::Vn(n.iter().chain(&n).chain(&n).take(3).cloned().collect()),
            1 => O::Vt(n[..n.len().min(s.range(1, 3))].to_vec()),
            2 => O::V(n.iter().chain(&n).chain(&n).take(4).cloned().collect()),
            _ => O::V(n.iter().chain(&n).chain(&n).take(3).cloned().collect()),
        },
        O::F(mut r) | O::L(mut r) => match s.below(6) {
            0 => O::P(r.into_iter().map(|x| x.v).collect()),
            1 => O::L(r.into_iter().map(|x| Ref { n: None, tail: 0, ..x }).collect()),
            2 => {
                r.reverse();
                O::F(r)
            }
            3 => {
                r.pop();
                if r.is_empty() {
                    r.push(Ref { v: IntLit { text: "1".into(), val: 1 }, t: None, n: None, tail: 0 });
                }
                O::F(r)
            }
            4 => {
                let i = s.below(r.len());
                let x = r[i].clone();
                r.insert(i, x);
                O::F(r)
            }
            _ => {
                let i = s.below(r.len());
                r[i].t = None;
                r[i].n = None;
                r[i].tail = 0;
                O::F(r)
            }
        },
        O::P(i) => match s.below(3) {
            0 => O::F(i.into_iter().map(|v| Ref { v, t: None, n: None, tail: 0 }).collect()),
            1 => O::L(i.into_iter().map(|v| Ref { v, t: None, n: None, tail: 0 }).collect()),
            _ => O::P(i.into_iter().rev().collect()),
        },
        O::Name(t) | O::UseMtl(t) | O::UseMap(Some(t)) | O::Shadow(t) | O::Trace(t) => match s.below(7) {
            0 => O::G(vec![word(&t)]),
            1 => O::UseMtl(t),
            2 if !t.eq_ignore_ascii_case("off") => O::UseMap(Some(t)),
            3 => O::Shadow(t),
            4 => O::Trace(t),
            5 => O::MtlLib(vec![word(&t)]),
            _ => O::Name(t),
        },
        O::G(n) | O::MtlLib(n) | O::MapLib(n) if !n.is_empty() => match s.below(5) {
            0 => O::G(n.into_iter().rev().collect()),
            1 => O::MtlLib(n),
            2 => O::MapLib(n),
            3 => O::UseMtl(n[0].clone()),
            _ => O::G(vec![n[n.len() - 1].clone()]),
        },
        O::Bevel(b) | O::CInterp(b) | O::DInterp(b) => match s.below(3) {
            0 => O::Bevel(b),
            1 => O::CInterp(b),
            _ => O::DInterp(b),
        },
        o => o,
    }
}

/// `big` allows the rare very long programs.
pub fn program(s: &mut Src, prof: &Profile, big: bool) -> Vec<O> {
    let pools = pools(s);
    let mut id = 0;
    if big && crate::dict::giant_now(s) {
        return giant(s, prof, &pools, &mut id);
    }
    let n = match s.below(20) {
        0..=9 => s.range(1, 12.min(prof.max_len)),
        10..=16 => s.range(1, prof.max_len),
        17 | 18 => s.range(1, 3),
        _ => {
            if big {
                s.range(prof.max_len, prof.max_len * 12)
            } else {
                s.range(1, prof.max_len)
            }
        }
    };
    let mut p = Vec::new();
    // a swarm of kinds: each program leaves some kinds out
    let mut weights = prof.weights;
    if s.flip() {
        for x in weights.iter_mut() {
            if s.one_in(3) {
                *x = 0;
            }
        }
    }
    if weights.iter().all(|x| *x == 0) {
        weights = prof.weights;
    }
    while p.len() < n {
        let k = s.weighted(&weights);
        if s.one_in(40) && big {
            // a run of one kind, of a length that may matter
            let m = match s.below(4) {
                0 => dict::int(s).clamp(1, 1100) as usize,
                1 => s.range(2, 300),
                _ => s.range(2, 20),
            };
            for _ in 0..m {
                p.push(statement(s, k, prof, &pools, &mut id));
                if s.exhausted() {
                    break;
                }
            }
        } else if s.one_in(12) && !p.is_empty() {
            // the same statement again
            let i = s.below(p.len());
            let o: O = p[i].clone();
            if s.one_in(3) {
                // in part, or the same of another kind
                let o = alike(s, o);
                if prof.weights[o.kind()] > 0 {
                    p.push(o);
                }
            } else {
                p.push(o);
            }
        } else {
            p.push(statement(s, k, prof, &pools, &mut id));
        }
        if s.exhausted() {
            break;
        }
    }
    p
}

//! C22: constructors, conversions, copies and equality of the value types.
use crate::gen::nat;
use crate::props::src;
use crate::report::*;
use crate::src::Src;
use nobject_rs::*;
use std::fmt::Debug;

fn real(s: &mut Src) -> f32 {
    loop {
        let f = match s.below(6) {
            0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, 1e-45, 0.1]),
            1 => s.below(10) as f32,
            _ => f32::from_bits(s.u32()),
        };
        if !f.is_nan() {
            return f;
        }
        if s.exhausted() {
            return 0.5;
        }
    }
}
fn opt<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Option<T> {
    if s.one_in(3) {
        None
    } else {
        Some(f(s))
    }
}
fn int(s: &mut Src) -> i32 {
    let n = nat(s);
    if s.flip() {
        n
    } else {
        n.wrapping_neg()
    }
}
fn text(s: &mut Src) -> String {
    crate::gen::name(s)
}

// Values of a field among which two are equal only if they are the same.
fn flags(_: &mut Src) -> Vec<bool> {
    vec![false, true]
}
fn reals(s: &mut Src) -> Vec<f32> {
    vec![0.0, 1.0, -1.0, f32::INFINITY, real(s), real(s)]
}
fn ints(s: &mut Src) -> Vec<i32> {
    vec![0, 1, -1, i32::MAX, i32::MIN, int(s), int(s)]
}
fn words(s: &mut Src) -> Vec<String> {
    let t = text(s);
    let long = s.range(10, 70);
    let long = "cube_side/".repeat(long / 10 + 1)[..long].to_string();
    vec![String::new(), "a".into(), "A".into(), " a".into(), "default".into(), t.to_uppercase(), format!("{long}!"), long, t]
}
fn opts<T: Clone>(f: fn(&mut Src) -> Vec<T>) -> impl Fn(&mut Src) -> Vec<Option<T>> {
    move |s| std::iter::once(None).chain(f(s).into_iter().map(Some)).collect()
}
fn pairs(s: &mut Src) -> Vec<(f32, f32)> {
    vec![(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (real(s), real(s)), (real(s), real(s))]
}
fn uvws(s: &mut Src) -> Vec<(f32, Option<f32>, Option<f32>)> {
    let mut v = Vec::new();
    for x in [0.0, 1.0] {
        v.extend([(x, None, None), (x, Some(0.0), None), (x, Some(1.0), None), (x, Some(0.0), Some(0.0)), (x, Some(1.0), Some(1.0)), (x, None, Some(1.0)), (x, None, Some(0.0)), (x, Some(1.0), Some(0.0))]);
    }
    v.push((real(s), opt(s, real), opt(s, real)));
    v
}
fn one<T: Clone>(s: &mut Src, f: impl Fn(&mut Src) -> Vec<T>) -> T {
    let v = f(s);
    s.pick(&v).clone()
}

/// All values of one field against each other, the others being as in `a`.
fn cross<T: Clone + PartialEq + Debug, F: Clone + PartialEq + Debug>(a: &T, what: &str, values: &[F], put: fn(&mut T, F), get: fn(&T) -> &F) -> R {
    let all: Vec<T> = values
        .iter()
        .map(|v| {
            let mut x = a.clone();
            put(&mut x, v.clone());
            x
        })
        .collect();
    for (x, v) in all.iter().zip(values) {
        let c = x.clone();
        ensure(get(&c) == v, || format!("{what}: {v:?} given, {:?} in the clone", get(&c)))?;
        ensure(format!("{c:?}") == format!("{x:?}"), || format!("{x:?} and its clone {c:?} print differently"))?;
        for (y, w) in all.iter().zip(values) {
            let same = v == w;
            ensure((x == y) == same && (x != y) != same, || format!("values with {what} {v:?} and {w:?}: equal {}, unequal {}", x == y, x != y))?;
        }
    }
    Ok(())
}
macro_rules! cross {
    ($s:expr, $a:expr, $t:ident, $($f:ident: $values:expr),+ $(,)?) => {{
        let a: $t = $t { $($f: one($s, $values),)+ ..Default::default() };
        note(&a);
        $(cross(&a, concat!(stringify!($t), ".", stringify!($f)), &($values)($s), |x, v| x.$f = v, |x| &x.$f)?;)+
        a
    }};
}

fn parts(s: &mut Src) -> R {
    cross!(s, a, Vertex, x: reals, y: reals, z: reals, w: opts(reals));
    cross!(s, a, Normal, x: reals, y: reals, z: reals);
    cross!(s, a, Texture, u: reals, v: opts(reals), w: opts(reals));
    cross!(s, a, Group, material_name: words, bevel: flags, c_interp: flags, d_interp: flags, lod: |s: &mut Src| vec![0, 1, 127, 128, 255, s.below(256) as u8], texture_map: opts(words));
    cross!(s, a, FaceElement, vertex_index: ints, texture_index: opts(ints), normal_index: opts(ints));
    cross!(s, a, LineElement, vertex_index: ints, texture_index: opts(ints));
    fn cc(s: &mut Src) -> Result<ColorCorrectedMap, Bad> {
        Ok(cross!(s, a, ColorCorrectedMap, file_name: words, blend_u: opts(flags), blend_v: opts(flags), color_correct: opts(flags), clamp: opts(flags), texture_range: opts(pairs), offset: opts(uvws), scale: opts(uvws), turbulance: opts(uvws), texture_res: opts(ints)))
    }
    fn ncc(s: &mut Src) -> Result<NonColorCorrectedMap, Bad> {
        Ok(cross!(s, a, NonColorCorrectedMap, file_name: words, blend_u: opts(flags), blend_v: opts(flags), clamp: opts(flags), imf_chan: opts(words), texture_range: opts(pairs), offset: opts(uvws), scale: opts(uvws), turbulance: opts(uvws), texture_res: opts(ints)))
    }
    let (c, n) = (cc(s)?, ncc(s)?);
    let ccs = |_: &mut Src| vec![None, Some(ColorCorrectedMap::default()), Some(c.clone()), Some(ColorCorrectedMap { file_name: format!("{}!", c.file_name), ..c.clone() })];
    let nccs = |_: &mut Src| vec![None, Some(NonColorCorrectedMap::default()), Some(n.clone()), Some(NonColorCorrectedMap { file_name: format!("{}!", n.file_name), ..n.clone() })];
    let b = cross!(s, a, BumpMap, bump_multiplier: opts(reals), map_settings: nccs);
    let r = cross!(s, a, ReflectionMap, reflection_type: words, map_settings: ccs);
    let bumps = |_: &mut Src| vec![None, Some(BumpMap::default()), Some(b.clone())];
    let refls = |_: &mut Src| vec![None, Some(ReflectionMap::default()), Some(r.clone())];
    let colors = |s: &mut Src| {
        let mut v = vec![None];
        for (x, y, z) in [(0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (real(s), real(s), real(s))] {
            v.extend([Some(ColorType::Rgb(x, y, z)), Some(ColorType::CieXyz(x, y, z))]);
        }
        for t in ["", "a", "a.rfl"] {
            v.extend([0.0, 1.0, real(s)].map(|x| Some(ColorType::Spectral(t.into(), x))));
        }
        v
    };
    let disolves = |s: &mut Src| {
        let mut v = vec![None];
        for x in [0.0, 1.0, real(s)] {
            v.extend([Some(DisolveType::Alpha(x)), Some(DisolveType::Halo(x))]);
        }
        v
    };
    let modes = |s: &mut Src| vec![None, Some(0u32), Some(1), Some(2), Some(10), Some(u32::MAX), Some(s.u32())];
    cross!(
        s, a, Material,
        name: words, ambient: colors, diffuse: colors, specular: colors, emissive_coefficient: colors, transmission_factor: colors,
        specular_exponent: opts(reals), transparancy: opts(reals), sharpness: opts(reals), index_of_refraction: opts(reals),
        disolve: disolves, illumination_mode: modes, anti_alias_map: opts(flags),
        texture_map_ambient: ccs, texture_map_diffuse: ccs, texture_map_specular: ccs,
        shininess_map: nccs, disolve_map: nccs, displacement_map: nccs, decal: nccs, bump_map: bumps, reflection_map: refls,
    );
    Ok(())
}
/// Another value than the given one.
fn other<T: PartialEq>(s: &mut Src, x: &T, f: impl Fn(&mut Src) -> T, fallback: T) -> T {
    for _ in 0..8 {
        let y = f(s);
        if y != *x {
            return y;
        }
    }
    fallback
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn note(x: &impl Debug) {
    LAST.with(|l| *l.borrow_mut() = format!("{x:?}"));
}

struct Bad(String);
type R = Result<(), Bad>;
fn ensure(ok: bool, what: impl FnOnce() -> String) -> R {
    if ok {
        Ok(())
    } else {
        Err(Bad(what()))
    }
}

/// Three ways to the same value, its copy, and its printout.
fn agree<T: PartialEq + Clone + Debug>(a: &T, b: &T, c: &T) -> R {
    note(a);
    ensure(a == b && b == a, || format!("built from components {a:?}, from a tuple {b:?}"))?;
    ensure(a == c && c == a, || format!("built from components {a:?}, by fields {c:?}"))?;
    let d = a.clone();
    #[allow(clippy::eq_op)]
    ensure(*a == *a, || format!("{a:?} is not equal to itself"))?;
    ensure(d == *a && *a == d, || format!("the clone {d:?} of {a:?} is not equal"))?;
    ensure(!(d != *a), || format!("{a:?} is both equal and unequal to its clone"))?;
    ensure(format!("{a:?}") == format!("{d:?}"), || format!("{a:?} and its clone print differently"))
}
fn differ<T: PartialEq + Debug>(what: &str, a: &T, b: &T) -> R {
    ensure(a != b && !(a == b) && !(b == a), || format!("{a:?} and {b:?} differ in {what} but are equal"))
}
fn bits(a: f32, b: f32, what: &str) -> R {
    ensure(a.to_bits() == b.to_bits(), || format!("{what}: {a:?} given, {b:?} kept"))
}
fn bits_opt(a: Option<f32>, b: Option<f32>, what: &str) -> R {
    ensure(a.map(f32::to_bits) == b.map(f32::to_bits), || format!("{what}: {a:?} given, {b:?} kept"))
}
fn eq<T: PartialEq + Debug>(a: T, b: T, what: &str) -> R {
    ensure(a == b, || format!("{what}: {a:?} given, {b:?} kept"))
}

fn vertex(s: &mut Src) -> R {
    let (x, y, z, w) = (real(s), real(s), real(s), opt(s, real));
    let a = Vertex::new(x, y, z, w);
    agree(&a, &Vertex::from((x, y, z, w)), &Vertex { x, y, z, w })?;
    let copy = a;
    eq(copy, a, "copy of a vertex")?;
    bits(x, a.x, "x of a vertex")?;
    bits(y, a.y, "y of a vertex")?;
    bits(z, a.z, "z of a vertex")?;
    bits_opt(w, a.w, "w of a vertex")?;
    let t: (f32, f32, f32, Option<f32>) = a.into();
    bits(x, t.0, "first of a vertex tuple")?;
    bits(y, t.1, "second of a vertex tuple")?;
    bits(z, t.2, "third of a vertex tuple")?;
    bits_opt(w, t.3, "fourth of a vertex tuple")?;
    let n = other(s, &x, real, if x == 7.0 { 8.0 } else { 7.0 });
    differ("x", &a, &Vertex { x: n, ..a })?;
    let n = other(s, &y, real, if y == 7.0 { 8.0 } else { 7.0 });
    differ("y", &a, &Vertex { y: n, ..a })?;
    let n = other(s, &z, real, if z == 7.0 { 8.0 } else { 7.0 });
    differ("z", &a, &Vertex { z: n, ..a })?;
    let n = other(s, &w, |s| opt(s, real), if w.is_none() { Some(1.0) } else { None });
    differ("w", &a, &Vertex { w: n, ..a })
}

fn normal(s: &mut Src) -> R {
    let (x, y, z) = (real(s), real(s), real(s));
    let a = Normal::new(x, y, z);
    agree(&a, &Normal::from((x, y, z)), &Normal { x, y, z })?;
    let copy = a;
    eq(copy, a, "copy of a normal")?;
    bits(x, a.x, "x of a normal")?;
    bits(y, a.y, "y of a normal")?;
    bits(z, a.z, "z of a normal")?;
    let t: (f32, f32, f32) = a.into();
    bits(x, t.0, "first of a normal tuple")?;
    bits(y, t.1, "second of a normal tuple")?;
    bits(z, t.2, "third of a normal tuple")?;
    let n = other(s, &x, real, if x == 7.0 { 8.0 } else { 7.0 });
    differ("x", &a, &Normal { x: n, ..a })?;
    let n = other(s, &y, real, if y == 7.0 { 8.0 } else { 7.0 });
    differ("y", &a, &Normal { y: n, ..a })?;
    let n = other(s, &z, real, if z == 7.0 { 8.0 } else { 7.0 });
    differ("z", &a, &Normal { z: n, ..a })
}

fn texture(s: &mut Src) -> R {
    let (u, v, w) = (real(s), opt(s, real), opt(s, real));
    let a = Texture::new(u, v, w);
    agree(&a, &Texture::from((u, v, w)), &Texture { u, v, w })?;
    let copy = a;
    eq(copy, a, "copy of a texture coordinate")?;
    bits(u, a.u, "u of a texture coordinate")?;
    bits_opt(v, a.v, "v of a texture coordinate")?;
    bits_opt(w, a.w, "w of a texture coordinate")?;
    let t: (f32, Option<f32>, Option<f32>) = a.into();
    bits(u, t.0, "first of a texture tuple")?;
    bits_opt(v, t.1, "second of a texture tuple")?;
    bits_opt(w, t.2, "third of a texture tuple")?;
    let n = other(s, &u, real, if u == 7.0 { 8.0 } else { 7.0 });
    differ("u", &a, &Texture { u: n, ..a })?;
    let n = other(s, &v, |s| opt(s, real), if v.is_none() { Some(1.0) } else { None });
    differ("v", &a, &Texture { v: n, ..a })?;
    let n = other(s, &w, |s| opt(s, real), if w.is_none() { Some(1.0) } else { None });
    differ("w", &a, &Texture { w: n, ..a })
}

fn group(s: &mut Src) -> R {
    let (m, b, c, d, l, t) = (text(s), s.flip(), s.flip(), s.flip(), s.below(256) as u8, opt(s, text));
    let a = Group::new(m.clone(), b, c, d, l, t.clone());
    let by_fields = Group { material_name: m.clone(), bevel: b, c_interp: c, d_interp: d, lod: l, texture_map: t.clone() };
    agree(&a, &Group::from((m.clone(), b, c, d, l, t.clone())), &by_fields)?;
    eq(&m, &a.material_name, "material name of a group")?;
    eq(b, a.bevel, "bevel of a group")?;
    eq(c, a.c_interp, "c_interp of a group")?;
    eq(d, a.d_interp, "d_interp of a group")?;
    eq(l, a.lod, "lod of a group")?;
    eq(&t, &a.texture_map, "texture map of a group")?;
    let mut k = a.clone();
    k.material_name.push('!');
    differ("the material name", &a, &k)?;
    eq(&m, &a.material_name, "material name after a change to a clone")?;
    differ("bevel", &a, &Group { bevel: !b, ..a.clone() })?;
    differ("c_interp", &a, &Group { c_interp: !c, ..a.clone() })?;
    differ("d_interp", &a, &Group { d_interp: !d, ..a.clone() })?;
    let n = other(s, &l, |s| s.below(256) as u8, l ^ 128);
    differ("lod", &a, &Group { lod: n, ..a.clone() })?;
    let n = other(s, &t, |s| opt(s, text), if t.is_none() { Some(String::new()) } else { None });
    differ("the texture map", &a, &Group { texture_map: n, ..a.clone() })?;
    let u: (String, bool, bool, bool, u8, Option<String>) = a.into();
    eq(u, (m, b, c, d, l, t), "tuple of a group")
}

fn face_element(s: &mut Src) -> FaceElement {
    FaceElement { vertex_index: int(s), texture_index: opt(s, int), normal_index: opt(s, int) }
}
fn face_elements(s: &mut Src) -> R {
    let (v, t, n) = (int(s), opt(s, int), opt(s, int));
    let a = FaceElement::new(v, t, n);
    agree(&a, &FaceElement::from((v, t, n)), &FaceElement { vertex_index: v, texture_index: t, normal_index: n })?;
    let copy = a;
    eq(copy, a, "copy of a face element")?;
    eq((v, t, n), (a.vertex_index, a.texture_index, a.normal_index), "components of a face element")?;
    eq((v, t, n), a.into(), "tuple of a face element")?;
    let x = other(s, &v, int, v ^ 1);
    differ("the vertex index", &a, &FaceElement { vertex_index: x, ..a })?;
    let x = other(s, &t, |s| opt(s, int), if t.is_none() { Some(1) } else { None });
    differ("the texture index", &a, &FaceElement { texture_index: x, ..a })?;
    let x = other(s, &n, |s| opt(s, int), if n.is_none() { Some(1) } else { None });
    differ("the normal index", &a, &FaceElement { normal_index: x, ..a })
}

fn list<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    let n = if s.one_in(30) { s.range(10, 300) } else { s.range(0, 6) };
    (0..n).map(|_| f(s)).collect()
}
/// The list with one entry changed, added, dropped or swapped; always different.
fn changed<T: Clone + PartialEq>(s: &mut Src, l: &[T], f: impl Fn(&mut Src) -> T) -> Vec<T> {
    let mut k = l.to_vec();
    match s.below(4) {
        0 if !k.is_empty() => {
            let i = s.below(k.len());
            k[i] = f(s);
        }
        1 if !k.is_empty() => {
            k.pop();
        }
        2 if k.len() > 1 => {
            let (i, j) = (s.below(k.len()), s.below(k.len()));
            k.swap(i, j);
        }
        _ => k.push(f(s)),
    }
    if k == l {
        let x = f(s);
        k.push(x);
    }
    k
}

fn face(s: &mut Src) -> R {
    let (e, g) = (list(s, face_element), int(s));
    let a = Face::new(e.clone(), g);
    agree(&a, &Face::from((e.clone(), g)), &Face { elements: e.clone(), smoothing_group: g })?;
    eq(&e, &a.elements, "elements of a face")?;
    eq(g, a.smoothing_group, "smoothing group of a face")?;
    let n = other(s, &g, int, g ^ 1);
    differ("the smoothing group", &a, &Face { smoothing_group: n, ..a.clone() })?;
    let n = changed(s, &e, face_element);
    differ("the elements", &a, &Face { elements: n, ..a.clone() })?;
    let mut k = a.clone();
    k.elements.clear();
    eq(&e, &a.elements, "elements of a face after a change to a clone")?;
    let t: (Vec<FaceElement>, i32) = a.into();
    eq(t, (e, g), "tuple of a face")
}

fn line_element(s: &mut Src) -> LineElement {
    LineElement { vertex_index: int(s), texture_index: opt(s, int) }
}
fn line_elements(s: &mut Src) -> R {
    let (v, t) = (int(s), opt(s, int));
    let a = LineElement::new(v, t);
    agree(&a, &LineElement::from((v, t)), &LineElement { vertex_index: v, texture_index: t })?;
    let copy = a;
    eq(copy, a, "copy of a line element")?;
    eq((v, t), (a.vertex_index, a.texture_index), "components of a line element")?;
    eq((v, t), a.into(), "tuple of a line element")?;
    let x = other(s, &v, int, v ^ 1);
    differ("the vertex index", &a, &LineElement { vertex_index: x, ..a })?;
    let x = other(s, &t, |s| opt(s, int), if t.is_none() { Some(1) } else { None });
    differ("the texture index", &a, &LineElement { texture_index: x, ..a })
}
fn line(s: &mut Src) -> R {
    let e = list(s, line_element);
    let a = Line::new(e.clone());
    agree(&a, &Line::from(e.clone()), &Line { elements: e.clone() })?;
    eq(&e, &a.elements, "elements of a line")?;
    let n = changed(s, &e, line_element);
    differ("the elements", &a, &Line { elements: n })?;
    let t: Vec<LineElement> = a.into();
    eq(t, e, "elements taken out of a line")
}
fn point(s: &mut Src) -> R {
    let e = list(s, int);
    let a = Point::new(e.clone());
    agree(&a, &Point::from(e.clone()), &Point { elements: e.clone() })?;
    eq(&e, &a.elements, "elements of a point")?;
    let n = changed(s, &e, int);
    differ("the elements", &a, &Point { elements: n })?;
    let t: Vec<i32> = a.into();
    eq(t, e, "elements taken out of a point")
}

fn model(s: &mut Src) -> R {
    let m = Model::default();
    let ok = m.vertices.is_empty()
        && m.normals.is_empty()
        && m.textures.is_empty()
        && m.faces.is_empty()
        && m.lines.is_empty()
        && m.points.is_empty()
        && m.groups.len() == 1
        && m.groups.get("default") == Some(&Group::default())
        && m.material_libs.is_empty()
        && m.texture_libs.is_empty()
        && m.shadow_obj.is_none()
        && m.trace_obj.is_none();
    ensure(ok, || format!("the default model is {m:?}"))?;
    eq(Group::default(), Group::new(String::new(), false, false, false, 0, None), "default group")?;
    eq(Vertex::default(), Vertex::new(0.0, 0.0, 0.0, None), "default vertex")?;
    eq(Normal::default(), Normal::new(0.0, 0.0, 0.0), "default normal")?;
    eq(Texture::default(), Texture::new(0.0, None, None), "default texture coordinate")?;
    eq(Face::default(), Face::new(vec![], 0), "default face")?;
    eq(FaceElement::default(), FaceElement::new(0, None, None), "default face element")?;
    eq(LineElement::default(), LineElement::new(0, None), "default line element")?;
    eq(Line::default(), Line::new(vec![]), "default line")?;
    eq(Point::default(), Point::new(vec![]), "default point")?;
    // clones of a loaded model are equal and independent
    let p = crate::obj::program(s, &crate::obj::Profile::mixed(), false);
    let text = crate::gen::plain(&crate::obj::words(&p));
    if let crate::outcome::Outcome::Ok(m) = crate::outcome::load_obj(&text) {
        let before = format!("{:?}", crate::obj::observe(&m));
        note(&before);
        let mut c = m.clone();
        eq(&before, &format!("{:?}", crate::obj::observe(&c)), "clone of a model")?;
        c.vertices.clear();
        c.faces.clear();
        c.groups.clear();
        c.material_libs.push("x".into());
        eq(&before, &format!("{:?}", crate::obj::observe(&m)), "model after a change to its clone")?;
        drop(c);
    }
    Ok(())
}

/// Materials and their parts compare by value.
fn material(s: &mut Src) -> R {
    let (p, text) = {
        let p = crate::mtl::program(s, &crate::mtl::Profile::mixed(), false);
        let t = crate::gen::plain(&crate::mtl::words(&p));
        (p, t)
    };
    let crate::outcome::Outcome::Ok(m) = crate::outcome::load_mtl(&text) else { return Ok(()) };
    let nan = format!("{m:?}").contains("NaN");
    if nan || p.is_empty() {
        return Ok(());
    }
    note(&m);
    for x in &m {
        let c = x.clone();
        ensure(c == *x && !(c != *x), || format!("the clone {c:?} of {x:?} is not equal"))?;
        let here = crate::mtl::present(x);
        for (k, has) in here.iter().enumerate() {
            let mut d = x.clone();
            crate::mtl::clear(&mut d, k);
            ensure((d == *x) != *has, || {
                format!("material with and without {}: equality is {}", crate::mtl::PROP_NAMES[k], d == *x)
            })?;
            ensure(crate::mtl::present(x)[k] == *has, || "a change to a clone reached the original".into())?;
        }
        let mut d = x.clone();
        d.name.push('!');
        differ("the name", x, &d)?;
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx, case: u64) -> Verdict {
    let mut s = src(ctx, "C22", case);
    let kinds: [(&str, fn(&mut Src) -> R); 12] = [
        ("any, all fields", parts),
        ("vertex", vertex),
        ("normal", normal),
        ("texture coordinate", texture),
        ("group", group),
        ("face element", face_elements),
        ("face", face),
        ("line element", line_elements),
        ("line", line),
        ("point", point),
        ("model", model),
        ("material", material),
    ];
    let (name, f) = kinds[(case % 12) as usize];
    ctx.count(&format!("values of type {name}"), 1);
    LAST.with(|l| l.borrow_mut().clear());
    let r = crate::outcome::guarded(|| f(&mut s));
    let seen = LAST.with(|l| l.borrow().clone());
    ctx.case(&seen, !seen.is_empty());
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(Bad(why))) => Err(Violation::of(crate::outcome::clip(&why), &[("values", &format!("{name}: {why}\n"))])),
        Err(p) => Err(Violation::of(format!("{name}: panicked: {p}"), &[("values", &format!("{name}\n"))])),
    }
}

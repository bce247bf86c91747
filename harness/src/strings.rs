//! Every string in a result.
use nobject_rs::*;

pub fn of_model(m: &Model, f: &impl Fn(&str)) {
    m.faces.keys().for_each(|s| f(s));
    m.lines.keys().for_each(|s| f(s));
    m.points.keys().for_each(|s| f(s));
    for (k, g) in &m.groups {
        f(k);
        f(&g.material_name);
        g.texture_map.iter().for_each(|s| f(s));
    }
    m.material_libs.iter().chain(&m.texture_libs).chain(&m.shadow_obj).chain(&m.trace_obj).for_each(|s| f(s));
}

pub fn of_material(m: &Material, f: &impl Fn(&str)) {
    f(&m.name);
    for c in [&m.ambient, &m.diffuse, &m.specular, &m.emissive_coefficient, &m.transmission_factor].into_iter().flatten() {
        if let ColorType::Spectral(s, _) = c {
            f(s);
        }
    }
    let refl = m.reflection_map.iter().flat_map(|r| &r.map_settings);
    for c in [&m.texture_map_ambient, &m.texture_map_diffuse, &m.texture_map_specular].into_iter().flatten().chain(refl) {
        f(&c.file_name);
    }
    m.reflection_map.iter().for_each(|r| f(&r.reflection_type));
    let bump = m.bump_map.iter().flat_map(|r| &r.map_settings);
    for c in [&m.shininess_map, &m.disolve_map, &m.displacement_map, &m.decal].into_iter().flatten().chain(bump) {
        f(&c.file_name);
        c.imf_chan.iter().for_each(|s| f(s));
    }
}

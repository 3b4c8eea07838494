//! C04: objects survive saving and loading
use crate::defaults::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a case adds 1-5 generated objects (kind round-robin plus random neighbours, each field drawn with a per-object density) to a new drawing, saves it as text or binary at a generated version and reloads; non-trivial: at least one object is supported by the version; distinct by content hash",
        quick: 30_000,
        thorough: 400_000,
        run,
        assumptions: &["reference table model/model.json (record names, group codes, version windows) is the intended format", "values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

fn findings() -> Vec<(usize, &'static str, &'static str, Value)> {
    vec![
        (R2018, "NavisWorksModelDefinition", "is_model_loaded_on_drawing_open", json!(true)),
        (R2018, "RapidRTRenderEnvironment", "is_enabled", json!(true)),
        (R2018, "RapidRenderSettings", "render_preset_name", json!("P")),
        (R2018, "MentalRayRenderSettings", "preset_name", json!("P")),
        (R2018, "RenderEnvironment", "is_fog_enabled", json!(true)),
        (R2018, "RenderGlobal", "class_version", json!(77)),
        (R2018, "SectionSettings", "is_generation_option", json!(true)),
        (R2007, "Field", "__objects_handle", json!([0x77])),
        (R2018, "Material", "map_v_tile", json!(5)),
        (R2018, "Material", "specular_gloss_factor", json!(3.0)),
        (R2018, "VbaProject", "data", json!([1, 2, 3])),
    ]
}
/// cases that reproduce the recorded findings
fn probe(idx: u64, c: &mut Case) {
    let (ver, name, field, value) = findings().swap_remove(idx as usize);
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    let mut spec = default_object(name);
    if spec.get(field).is_some() {
        spec[field] = value;
    }
    d.add_object(to_object(&json!({"common": default_object_common(), "specific": {name: spec}})));
    compare(&d, ver, idx % 2 == 0, c, format!("recorded finding, {}", name), "finding");
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    if idx < findings().len() as u64 {
        return probe(idx, c);
    }
    let ver = *s.pick(&[R2018, R2000, R14, R2004, R2007, R2010, R2013, R13, R12]);
    let binary = s.flip();
    let n = 1 + s.size(4);
    let cfg = ECfg { xdata: false, ext: false, children: true };
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    let mut desc = format!("{} {}:", VERSIONS[ver], if binary { "binary" } else { "text" });
    for i in 0..n {
        let name = if i == 0 { OBJECTS[idx as usize % OBJECTS.len()] } else { *s.pick(OBJECTS) };
        let mut v = gen_object(s, name, &cfg);
        mask_object(&mut v, ver);
        c.class(format!("kind:{}", name));
        desc += &format!(" {}", name);
        d.add_object(to_object(&v));
    }
    c.class(format!("version:{}", VERSIONS[ver]));
    compare(&d, ver, binary, c, desc, "object");
}

pub fn compare(d: &Drawing, ver: usize, binary: bool, c: &mut Case, mut desc: String, tag: &str) {
    let before = objects_json(d);
    let mut want: Vec<Value> = before.iter().filter_map(|e| expect_object(e, ver)).collect();
    want.iter_mut().for_each(scrub_object);
    c.nontrivial = !want.is_empty();
    for w in &want {
        c.ident(w.to_string().as_bytes());
    }
    if let Some(w) = want.first() {
        desc += &format!(" first={}", short(w));
    }
    c.desc = desc;
    let bytes = match save(d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    let d2 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", format!("saved file does not load: {}", e)),
    };
    let mut got = objects_json(&d2);
    got.iter_mut().for_each(scrub_object);
    if tag == "object" {
        want.iter_mut().for_each(drop_by_position);
        got.iter_mut().for_each(drop_by_position);
    }
    let kinds = |v: &[Value]| v.iter().map(kind).collect::<Vec<_>>().join(",");
    if kinds(&want) != kinds(&got) {
        return c.fail(format!("{}-list", tag), format!("expected [{}], loaded [{}]", kinds(&want), kinds(&got)));
    }
    for (w, g) in want.iter().zip(&got) {
        let mut o = vec![];
        diff("", w, g, binary, &mut o);
        for (p, m) in o {
            c.fail(format!("{}:{}", tag, field_of(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

//! C03: entities survive saving and loading
use crate::defaults::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "a case adds 1-7 generated entities (kind round-robin plus random neighbours, each field drawn with a per-entity density) to a new drawing, saves it as text or binary at a generated version and reloads; non-trivial: at least one entity is supported by the version and differs from its default in some field; distinct by content hash",
        quick: 30_000,
        thorough: 400_000,
        run,
        assumptions: &["reference table model/model.json (record names, group codes, version windows) is the intended format", "values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

/// kinds that only make sense as parts of another entity
pub fn standalone(k: &str) -> bool {
    !matches!(k, "Seqend" | "Vertex" | "Attribute")
}

/// the recorded findings: version, kind and field with a value that is lost
const FINDINGS: &[(usize, &str, &str)] = &[
    (R2010, "ProxyEntity", "entity_data_string"),
    (R2007, "DgnUnderlay", "points"),
    (R2007, "DwfUnderlay", "points"),
    (R2007, "PdfUnderlay", "points"),
    (R2000, "MLine", "vertices"),
    (R2000, "MLine", "segment_directions"),
    (R2000, "MLine", "miter_directions"),
    (R2000, "Wipeout", "clipping_vertices"),
];
/// cases that reproduce the recorded findings
fn probe(idx: u64, c: &mut Case) {
    let mut d = Drawing::new();
    let (ver, name, field) = FINDINGS[idx as usize / 2];
    d.header.version = acad(ver);
    let mut spec = default_entity(name);
    spec[field] = if name == "ProxyEntity" { json!([[1, 2, 3]]) } else { json!([{"x": 1.0, "y": 2.0, "z": 0.0}, {"x": 3.0, "y": 4.0, "z": 0.0}]) };
    let e = build_entity(&mut d, &json!({"common": default_entity_common(), "specific": {name: spec}}), &[]);
    d.add_entity(e);
    compare(&d, ver, idx % 2 == 0, c, format!("recorded finding, {}", name), &format!("finding {}@{}", field, VERSIONS[ver]));
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    if idx < 2 * FINDINGS.len() as u64 {
        return probe(idx, c);
    }
    let ver = gen_version(s);
    let binary = s.flip();
    let n = 1 + s.size(6);
    let cfg = ECfg { xdata: false, ext: false, children: true };
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    let mut desc = format!("{} {}:", VERSIONS[ver], if binary { "binary" } else { "text" });
    for i in 0..n {
        let name = if i == 0 { ENTITIES[idx as usize % ENTITIES.len()] } else { *s.pick(ENTITIES) };
        let name = if n > 1 && !standalone(name) { "Line" } else { name };
        let (mut v, mut kids) = gen_entity(s, name, &cfg);
        mask_entity(&mut v, &mut kids, ver);
        c.class(format!("kind:{}", name));
        desc += &format!(" {}({} parts)", name, kids.len());
        let e = build_entity(&mut d, &v, &kids);
        d.add_entity(e);
    }
    c.class(format!("version:{}", VERSIONS[ver]));
    compare(&d, ver, binary, c, desc, "entity");
}

pub fn compare(d: &Drawing, ver: usize, binary: bool, c: &mut Case, mut desc: String, tag: &str) {
    let before = entities_json(d);
    let mut want: Vec<Value> = before.iter().filter_map(|e| expect_entity(e, ver)).collect();
    want.iter_mut().for_each(scrub_entity);
    c.nontrivial = !want.is_empty();
    for w in &want {
        c.ident(w.to_string().as_bytes());
    }
    if let Some(w) = want.first() {
        desc += &format!(" first={}", short(w));
    }
    c.desc = desc;
    let bytes = match save(d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    let d2 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", format!("saved file does not load: {}", e)),
    };
    let mut got = entities_json(&d2);
    got.iter_mut().for_each(scrub_entity);
    let kinds = |v: &[Value]| v.iter().map(kind).collect::<Vec<_>>().join(",");
    if kinds(&want) != kinds(&got) {
        return c.fail("entity-list", format!("expected [{}], loaded [{}]", kinds(&want), kinds(&got)));
    }
    for (w, g) in want.iter().zip(&got) {
        let mut o = vec![];
        diff("", w, g, binary, &mut o);
        for (p, m) in o {
            c.fail(format!("{}:{}", tag, field_of(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

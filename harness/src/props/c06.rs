//! C06: header variables survive saving and loading
use crate::defaults::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a case assigns generated values to a generated subset of all header variables of a new drawing (some cases set a single variable, some every variable), saves it as text or binary at a generated version and compares the whole header after reloading with what the version keeps; non-trivial: at least one variable that the version defines differs from its default; distinct by content hash",
        quick: 24_000,
        thorough: 300_000,
        run,
        assumptions: &["reference table model/model.json (variable names, group codes, version windows) is the intended format", "TZ=UTC", "R11 and R12 share the version code AC1009, which loads as R12"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

pub fn gen_header_value(s: &mut Src, f: &Field, cur: &Value) -> Option<Value> {
    Some(match f.ty.as_str() {
        "DateTime<Local>" | "DateTime<Utc>" => gen_date(s),
        "Duration" => json!({"secs": match s.below(3) { 0 => s.below(100), 1 => s.below(100_000_000), _ => s.below(1 << 40) }, "nanos": 0}),
        "Uuid" => {
            let (a, b) = (s.any64(), s.any64());
            json!(uuid::Uuid::from_u64_pair(a, b).to_string())
        }
        "char" => json!((s.below(256) as u8 as char).to_string()),
        "f64" if code_width(f.codes[0]) == 's' => json!(gen_int(s, i16::MIN as i64, i16::MAX as i64) as f64),
        "AcadVersion" => return None,
        _ => return gen_field(s, f, cur),
    })
}

pub const VOLATILE: &[&str] = &["creation_date", "update_date", "creation_date_universal", "update_date_universal", "fingerprint_guid", "version_guid"];
pub fn gen_header(s: &mut Src, dens: u64) -> Value {
    let def = default_header();
    let mut v = def.clone();
    // the defaults of these are the current time and random numbers
    for f in model().header.iter().filter(|f| VOLATILE.contains(&f.name.as_str())) {
        v[&f.name] = gen_header_value(s, f, &def[&f.name]).unwrap();
    }
    for f in &model().header {
        if f.name == "next_available_handle" || f.name == "handles_enabled" {
            continue;
        }
        if dens > 0 && s.chance(dens, 10) {
            if let Some(x) = gen_header_value(s, f, &def[&f.name]) {
                v[&f.name] = x;
            }
        }
    }
    v
}

pub fn expect_header(v: &Value, ver: usize) -> Value {
    let def = default_header();
    let mut o = v.clone();
    for f in &model().header {
        let kept = model().header.iter().any(|g| g.name == f.name && !g.suppress && ver >= g.min && ver <= g.max);
        if !kept && !VOLATILE.contains(&f.name.as_str()) {
            o[&f.name] = def[&f.name].clone();
        }
    }
    o["version"] = json!(if ver == R11 { "R12" } else { VERSIONS[ver] });
    if ver >= R2004 && ver <= R2007 && v["is_x_ref_clipping_boundary_visible"] != "NotDisplayedNotPlotted" {
        // a yes/no value in these versions
        o["is_x_ref_clipping_boundary_visible"] = json!("DisplayedAndPlotted");
    }
    o
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let mut d = Drawing::new();
    let base = serde_json::to_value(&d.header).unwrap();
    let mode = s.below(3);
    let mut v = match mode {
        0 => gen_header(s, 0),
        1 => gen_header(s, 10),
        _ => gen_header(s, 3),
    };
    // one variable in turn
    let f = &model().header[idx as usize % model().header.len()];
    if let Some(x) = gen_header_value(s, f, &base[&f.name]) {
        v[&f.name] = x;
    }
    let handles = s.flip();
    v["handles_enabled"] = json!(handles);
    let next = base["next_available_handle"].as_u64().unwrap();
    v["next_available_handle"] = json!(next.max(gen_handle(s)));
    v["version"] = json!(VERSIONS[ver]);
    d.header = serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: header {} from {}", e, v));
    let want = expect_header(&v, ver);
    c.ident(want.to_string().as_bytes());
    let def = expect_header(&default_header(), ver);
    let changed: Vec<String> = want.as_object().unwrap().iter().filter(|(k, x)| def[k.as_str()] != **x && *k != "version").map(|(k, x)| format!("{}={}", k, short(x))).collect();
    c.nontrivial = !changed.is_empty();
    c.class(format!("version:{}", VERSIONS[ver]));
    c.class(format!("variable:{}", f.var));
    c.desc = format!("{} {}: {}", VERSIONS[ver], if binary { "binary" } else { "text" }, changed.join(" "));
    let bytes = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    let d2 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", format!("saved file does not load: {}", e)),
    };
    let mut got = serde_json::to_value(&d2.header).unwrap();
    if ver < R13 && !handles {
        // the loader numbers the items itself
        got["next_available_handle"] = want["next_available_handle"].clone();
    }
    for f in model().header.iter().filter(|f| VOLATILE.contains(&f.name.as_str()) && ver < f.min) {
        got[&f.name] = want[&f.name].clone();
    }
    let mut o = vec![];
    diff("", &want, &got, binary, &mut o);
    for (p, m) in o {
        c.fail(format!("header.{}", root_field(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
    }
}

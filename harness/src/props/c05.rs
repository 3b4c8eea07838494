//! C05: table records survive saving and loading
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use crate::tables::*;
use dxf::Drawing;
use serde_json::Value;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a case adds 1-8 generated records (table round-robin plus random others, each field drawn with a per-record density, names possibly repeated or non-standard) to a new or cleared drawing, saves it as text or binary at a generated version and reloads; every record of every table is compared with what the version keeps; non-trivial: at least one generated record is in a table of the version; distinct by content hash",
        quick: 30_000,
        thorough: 400_000,
        run,
        assumptions: &["reference table model/model.json (record names, group codes, version windows) is the intended format", "values are compared through the crate's own JSON form", "a layer colour is an index of at least 1 (0 cannot carry the on/off state)"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let mut d = Drawing::new();
    if s.chance(1, 4) {
        d.clear();
    }
    d.header.version = acad(ver);
    d.header.handles_enabled = s.chance(3, 4);
    let handles = ver >= R13 || d.header.handles_enabled;
    let n = 1 + s.size(7);
    let mut desc = format!("{} {}:", VERSIONS[ver], if binary { "binary" } else { "text" });
    for i in 0..n {
        let t = if i == 0 { idx as usize % TABLES.len() } else { s.us(TABLES.len()) };
        let name = TABLES[t];
        let v = gen_record(s, name, ver);
        c.class(format!("table:{}", name));
        desc += &format!(" {}", name);
        add_record(&mut d, name, &v);
        if name != "BlockRecord" || ver >= R13 {
            c.nontrivial = true;
        }
        if i == 0 {
            desc += &format!(" {}", short(&v));
        }
    }
    c.class(format!("version:{}", VERSIONS[ver]));
    c.desc = desc;
    compare(&d, ver, handles, binary, c);
}

pub fn compare(d: &Drawing, ver: usize, handles: bool, binary: bool, c: &mut Case) {
    let bytes = match save(d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    let d2 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", format!("saved file does not load: {}", e)),
    };
    for name in TABLES {
        let want: Vec<Value> = if *name == "BlockRecord" && ver < R13 {
            vec![]
        } else {
            records(d, name).iter().map(|r| expect_record(name, r, ver, handles)).collect()
        };
        let mut got = records(&d2, name);
        if want.len() != got.len() {
            c.fail(format!("{}-list", name), format!("expected {} records, loaded {}", want.len(), got.len()));
            continue;
        }
        for (w, g) in want.iter().zip(got.iter_mut()) {
            c.ident(w.to_string().as_bytes());
            if !handles {
                if g["handle"] == 0 {
                    c.fail(format!("{}.handle", name), "a loaded record has no handle");
                }
                g["handle"] = w["handle"].clone();
            }
            strip_offsets(g);
            let mut o = vec![];
            diff("", w, g, binary, &mut o);
            for (p, m) in o {
                c.fail(format!("{}.{}", name, root_field(&p)), format!("{} {} at {}: {}", name, p, VERSIONS[ver], m));
            }
        }
    }
}

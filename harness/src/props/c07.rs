//! C07: blocks, their contents and classes survive saving and loading
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c03::standalone;
use crate::reflect::*;
use crate::tables::records;
use crate::defaults::*;
use dxf::{Block, Class, Drawing};
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "a case adds 0-4 generated blocks (each with 0-5 generated entities incl. inserts with attributes and polylines), 0-4 generated classes and 0-2 loose entities to a new drawing, saves it as text or binary at a generated version, reloads, compares blocks, contents, block records and classes with what the version keeps, and repeats the cycle; non-trivial: at least one block or class; distinct by content hash",
        quick: 12_000,
        thorough: 200_000,
        run,
        assumptions: &["reference table model/model.json is the intended format of the entities in blocks", "values are compared through the crate's own JSON form", "block flags are 16 bit, as the file stores them; class record names do not start with a control keyword in R13 files, where they open the record"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

pub fn gen_class(s: &mut Src) -> Value {
    let full = s.flip();
    let n = |s: &mut Src, t: &str| if full { format!("{}{}", t, gen_text(s)) } else { format!("{}{}", t, s.below(10)) };
    json!({
        "record_name": n(s, "REC"), "class_name": n(s, ""), "application_name": n(s, ""),
        "version_number": gen_int(s, i32::MIN as i64, i32::MAX as i64),
        "proxy_capability_flags": gen_int(s, i32::MIN as i64, i32::MAX as i64),
        "instance_count": gen_int(s, 0, i32::MAX as i64),
        "was_class_loaded_with_file": s.flip(), "is_entity": s.flip(),
    })
}
pub fn expect_class(v: &Value, ver: usize) -> Value {
    let mut o = v.clone();
    if ver < R14 {
        o["proxy_capability_flags"] = json!(0);
    } else {
        o["version_number"] = json!(0);
    }
    if ver < R2004 {
        o["instance_count"] = json!(0);
    }
    o
}

/// block fields without its entities
pub fn gen_block(s: &mut Src) -> Value {
    let mut b = serde_json::to_value(Block::default()).unwrap();
    b["name"] = json!(if s.chance(1, 4) { gen_text(s) } else { gen_name(s) });
    if s.flip() {
        b["layer"] = json!(gen_name(s));
    }
    if s.flip() {
        b["flags"] = json!(gen_int(s, i16::MIN as i64, i16::MAX as i64));
    }
    if s.flip() {
        b["base_point"] = gen_point(s, 3, 0.0);
    }
    if s.flip() {
        b["xref_path_name"] = json!(gen_text(s));
    }
    if s.flip() {
        b["description"] = json!(gen_text(s));
    }
    b["is_in_paperspace"] = json!(s.chance(1, 3));
    if s.chance(1, 3) {
        b["__owner_handle"] = json!(gen_handle(s));
    }
    b
}

pub fn to_block(d: &mut Drawing, v: &Value, ents: &[(Value, Vec<Value>)]) -> Block {
    let mut b: Block = serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: block {} from {}", e, v));
    for (v, kids) in ents {
        b.entities.push(build_entity(d, v, kids));
    }
    b
}

/// what the version keeps of a block (its entities included)
pub fn expect_block(v: &Value, ver: usize) -> Value {
    let mut o = v.clone();
    let ents: Vec<Value> = v["entities"].as_array().unwrap().iter().filter_map(|e| expect_entity(e, ver)).map(|mut e| { scrub_entity(&mut e); e }).collect();
    o["entities"] = Value::Array(ents);
    if ver < R13 {
        o["__owner_handle"] = json!(0);
    }
    if ver < R14 {
        o["extension_data_groups"] = json!([]);
    }
    if ver < R2000 {
        o["x_data"] = json!([]);
    }
    strip_offsets(&mut o);
    o
}

pub fn blocks_json(d: &Drawing) -> Vec<Value> {
    d.blocks().map(|b| serde_json::to_value(b).unwrap()).collect()
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    let cfg = ECfg { xdata: false, ext: false, children: true };
    let nb = s.size(4);
    let nc = s.size(4);
    let mut desc = format!("{} {}:", VERSIONS[ver], if binary { "binary" } else { "text" });
    for _ in 0..nc {
        let v = gen_class(s);
        desc += &format!(" class {}", short(&v));
        d.classes.push(serde_json::from_value::<Class>(v).unwrap());
    }
    let mut k = idx as usize;
    let mut ent = |s: &mut Src| {
        let name = match s.below(4) {
            0 => "Insert",
            1 => "Polyline",
            _ => {
                k += 1;
                ENTITIES[k % ENTITIES.len()]
            }
        };
        let name = if standalone(name) { name } else { "Line" };
        let (mut v, mut kids) = gen_entity(s, name, &cfg);
        mask_entity(&mut v, &mut kids, ver);
        (v, kids)
    };
    for _ in 0..nb {
        let b = gen_block(s);
        let n = s.size(5);
        let ents: Vec<_> = (0..n).map(|_| ent(s)).collect();
        desc += &format!(" block {} with {} entities", short(&b["name"]), n);
        for e in &ents {
            c.class(format!("in block:{}", kind(&e.0)));
        }
        let b = to_block(&mut d, &b, &ents);
        d.add_block(b);
    }
    for _ in 0..s.us(3) {
        let (v, kids) = ent(s);
        let e = build_entity(&mut d, &v, &kids);
        d.add_entity(e);
    }
    c.class(format!("version:{}", VERSIONS[ver]));
    c.class(format!("blocks:{}", nb));
    c.class(format!("classes:{}", nc));
    c.nontrivial = nb + nc > 0;
    c.desc = desc;
    let mut cur = d;
    for cycle in 1..=2 {
        match compare(&cur, ver, binary, c, cycle) {
            Some(d2) => cur = d2,
            None => return,
        }
        if !c.fails.is_empty() {
            return;
        }
        cur.header.version = acad(ver);
    }
}

fn compare(d: &Drawing, ver: usize, binary: bool, c: &mut Case, cycle: usize) -> Option<Drawing> {
    let bytes = match save(d, binary) {
        Ok(b) => b,
        Err(e) => {
            c.fail("save-error", e);
            return None;
        }
    };
    let d2 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => {
            c.fail("load-error", format!("saved file does not load: {}", e));
            return None;
        }
    };
    let want: Vec<Value> = blocks_json(d).iter().map(|b| expect_block(b, ver)).collect();
    let mut got = blocks_json(&d2);
    if want.len() != got.len() {
        c.fail("block-list", format!("cycle {}: expected {} blocks, loaded {}", cycle, want.len(), got.len()));
        return None;
    }
    for (w, g) in want.iter().zip(got.iter_mut()) {
        c.ident(w.to_string().as_bytes());
        for e in g["entities"].as_array_mut().unwrap() {
            scrub_entity(e);
        }
        if ver < R13 {
            if g["handle"] == 0 {
                c.fail("block.handle", "a loaded block has no handle");
            }
            g["handle"] = w["handle"].clone();
        }
        let mut o = vec![];
        diff("", w, g, binary, &mut o);
        for (p, m) in o {
            let f = if p.starts_with("entities[") { format!("block/entity:{}", field_of(p.splitn(2, "].").nth(1).unwrap_or(""))) } else { format!("block.{}", root_field(&p)) };
            c.fail(f, format!("cycle {}: block {} {} at {}: {}", cycle, short(&w["name"]), p, VERSIONS[ver], m));
        }
    }
    // exactly one record per block
    for (which, dd) in [("before saving", d), ("loaded", &d2)] {
        let recs = records(dd, "BlockRecord");
        for b in dd.blocks() {
            let n = recs.iter().filter(|r| r["name"] == json!(b.name)).count();
            if n != 1 {
                c.fail("block-record", format!("cycle {}: block {:?} has {} block records ({})", cycle, b.name, n, which));
            }
        }
    }
    if ver >= R13 {
        let (a, b) = (records(d, "BlockRecord").len(), records(&d2, "BlockRecord").len());
        if a != b {
            c.fail("block-record-count", format!("cycle {}: {} block records became {}", cycle, a, b));
        }
    }
    // contents do not migrate into or out of the blocks
    let (a, b) = (entities_json(d).iter().filter(|e| expect_entity(e, ver).is_some()).count(), d2.entities().count());
    if a != b {
        c.fail("entity-count", format!("cycle {}: {} loose entities became {}", cycle, a, b));
    }
    if ver >= R13 {
        let want: Vec<Value> = d.classes.iter().map(|x| expect_class(&serde_json::to_value(x).unwrap(), ver)).collect();
        let got: Vec<Value> = d2.classes.iter().map(|x| serde_json::to_value(x).unwrap()).collect();
        if want.len() != got.len() {
            c.fail("class-list", format!("cycle {}: expected {} classes, loaded {}", cycle, want.len(), got.len()));
            return None;
        }
        for (w, g) in want.iter().zip(&got) {
            c.ident(w.to_string().as_bytes());
            let mut o = vec![];
            diff("", w, g, binary, &mut o);
            for (p, m) in o {
                c.fail(format!("class.{}", root_field(&p)), format!("cycle {}: {} at {}: {}", cycle, p, VERSIONS[ver], m));
            }
        }
    }
    Some(d2)
}

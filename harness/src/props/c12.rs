//! C12: saved files are structurally well formed for their version
use crate::drawing::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c10::lex;
use crate::tables::TABLES;
use crate::wire::*;
use crate::wireval::*;
use dxf::Drawing;
use serde_json::Value;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a case builds a whole generated drawing, saves it as text or binary at a generated version, parses the bytes with an independent reader of pairs, sections, tables, blocks and records and compares the structure with the drawing in memory: sections and their order, tables, record sequence (type by type, parts and end markers included), handles, subclass markers and count pairs; non-trivial: the drawing holds an entity, object or block; distinct by file content",
        quick: 15_000,
        thorough: 250_000,
        run,
        assumptions: &["model/segments.json (subclass markers per kind and version) and model/model.json (record names, version windows) are the standard", "count pairs that the library leaves to the user (fields of their own) are not compared"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

/// version ranges -> markers
type Segs = BTreeMap<String, Vec<(String, String, Value)>>;
fn segs() -> &'static (Segs, Segs) {
    use std::sync::OnceLock;
    static S: OnceLock<(Segs, Segs)> = OnceLock::new();
    S.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../../model/segments.json")).unwrap();
        (serde_json::from_value(v["entities"].clone()).unwrap(), serde_json::from_value(v["objects"].clone()).unwrap())
    })
}
fn markers(s: &Segs, kind: &str, ver: usize) -> Option<Vec<String>> {
    let r = s.get(kind)?.iter().find(|(a, b, _)| ver_idx(a) <= ver && ver <= ver_idx(b))?;
    Some(r.2["markers"].as_array()?.iter().map(|x| x.as_str().unwrap().to_string()).collect())
}

#[derive(Debug)]
struct Want {
    kind: String,
    what: String,
    markers: Option<Vec<String>>,
    handle: Option<u64>,
    /// for an insert: attributes follow
    parts: Option<bool>,
}
fn w(kind: &str, what: &str, markers: Option<Vec<String>>, handle: Option<u64>) -> Want {
    Want { kind: kind.into(), what: what.into(), markers, handle, parts: None }
}
fn supported(name: &str, ver: usize) -> bool {
    let t = &model().entities[name];
    ver >= t.min && ver <= t.max
}
fn want_entity(v: &Value, ver: usize, out: &mut Vec<Want>) {
    let name = kind(v);
    if !supported(&name, ver) {
        return;
    }
    // older versions have no subclass markers; what the writer does there is not claimed
    let m = |n: &str| if ver < R13 { None } else { markers(&segs().0, n, ver) };
    let spec = &v["specific"][&name];
    let rec = |n: &str| model().entities[n].types[0].clone();
    let mut mk = m(&name);
    let flags = spec["flags"].as_i64().unwrap_or(0);
    if name == "Polyline" && flags & (8 | 16) != 0 && ver >= R13 {
        mk = Some(vec!["AcDbEntity".into(), "AcDb3dPolyline".into()]);
    }
    out.push(w(&rec(&name), &name, mk, v["common"]["handle"].as_u64()));
    match name.as_str() {
        "AttributeDefinition" | "Attribute" => {
            if supported("MText", ver) {
                out.push(w("MTEXT", "MText of attribute", None, None));
            }
        }
        "Insert" => {
            let a = spec["__attributes_and_handles"].as_array().cloned().unwrap_or_default();
            out.last_mut().unwrap().parts = Some(!a.is_empty());
            for x in &a {
                out.push(w("ATTRIB", "Attribute of Insert", m("Attribute"), x[1].as_u64()));
                if supported("MText", ver) {
                    out.push(w("MTEXT", "MText of attribute", None, None));
                }
            }
            if !a.is_empty() {
                out.push(w("SEQEND", "Seqend of Insert", None, spec["__seqend_handle"].as_u64()));
            }
        }
        "Polyline" => {
            for x in spec["__vertices_and_handles"].as_array().cloned().unwrap_or_default() {
                out.push(w("VERTEX", "Vertex of Polyline", None, x[1].as_u64()));
            }
            out.push(w("SEQEND", "Seqend of Polyline", None, spec["__seqend_handle"].as_u64()));
        }
        _ => {}
    }
}

fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let d = gen_drawing(s, idx as usize, ver, &FULL);
    c.desc = format!("{} {}", if binary { "binary" } else { "text" }, summary(&d));
    c.class(format!("version:{}", VERSIONS[ver]));
    let b = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    c.ident(&b);
    c.nontrivial = d.entities().count() + d.objects().count() + d.blocks().count() > 0;
    match lex(&b, binary, ver) {
        Ok(ps) => check(&d, &ps, ver, c),
        Err(e) => c.fail("malformed", e),
    }
}

fn check(d: &Drawing, ps: &[Pair], ver: usize, c: &mut Case) {
    // sections
    match ps.last() {
        Some(p) if p.is(0, "EOF") => {}
        p => c.fail("eof", format!("the file ends with {}", show(p))),
    }
    let body = &ps[..ps.len().saturating_sub(1)];
    let mut i = 0;
    let mut sections: Vec<(String, &[Pair])> = vec![];
    while i < body.len() {
        if !body[i].is(0, "SECTION") || body.get(i + 1).map(|p| p.c) != Some(2) {
            return c.fail("sections", format!("expected a section at pair {}: {}", i, show(body.get(i))));
        }
        let Some(e) = body[i..].iter().position(|p| p.is(0, "ENDSEC")) else {
            return c.fail("sections", format!("section {} is not ended", body[i + 1].s()));
        };
        let inner = &body[i + 2..i + e];
        // a SECTION entity starts with its handle, a section with its name
        if inner.iter().any(|p| p.is(0, "EOF")) || inner.windows(2).any(|x| x[0].is(0, "SECTION") && x[1].c == 2 && x[1].s().chars().all(|c| c.is_ascii_uppercase()) && x[1].s().len() > 5) {
            return c.fail("sections", format!("section {} holds another section", body[i + 1].s()));
        }
        sections.push((body[i + 1].s().to_string(), &body[i + 2..i + e]));
        i += e + 1;
    }
    let mut want = vec!["HEADER"];
    if !d.classes.is_empty() {
        want.push("CLASSES");
    }
    want.push("TABLES");
    if d.blocks().count() > 0 {
        want.push("BLOCKS");
    }
    want.push("ENTITIES");
    if ver >= R13 {
        want.push("OBJECTS");
    }
    if ver >= R2000 && d.thumbnail.is_some() {
        want.push("THUMBNAILIMAGE");
    }
    let have: Vec<&str> = sections.iter().map(|x| x.0.as_str()).collect();
    if have != want {
        return c.fail("section-list", format!("{:?}, expected {:?}", have, want));
    }
    let sec = |n: &str| sections.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(&[]);
    // header
    let h = sec("HEADER");
    if h.len() < 2 || !h[0].is(9, "$ACADVER") || !h[1].is(1, ACADVER[ver]) {
        c.fail("header", format!("the header starts with {} {}", show(h.first()), show(h.get(1))));
    }
    if h.iter().any(|p| p.c == 0) {
        c.fail("header", "a record in the header");
    }
    let handles = ver >= R13 || d.header.handles_enabled;
    tables(d, sec("TABLES"), ver, handles, c);
    for p in sec("CLASSES").iter().filter(|p| p.c == 0) {
        if ver >= R14 && p.s() != "CLASS" {
            c.fail("classes", show(Some(p)));
        }
    }
    if ver >= R14 && sec("CLASSES").iter().filter(|p| p.c == 0).count() != d.classes.len() {
        c.fail("classes", "number of class records");
    }
    // blocks
    let mut wb = vec![];
    for b in d.blocks() {
        let m = |x: &str| Some(if ver >= R13 { vec!["AcDbEntity".to_string(), x.to_string()] } else { vec![] });
        let bh = serde_json::to_value(b).unwrap()["handle"].as_u64();
        wb.push(w("BLOCK", "Block", m("AcDbBlockBegin"), if ver >= R13 { bh } else { None }));
        for e in &b.entities {
            want_entity(&serde_json::to_value(e).unwrap(), ver, &mut wb);
        }
        wb.push(w("ENDBLK", "EndBlk", m("AcDbBlockEnd"), None));
    }
    compare("BLOCKS", &wb, &recs(sec("BLOCKS")), handles, c);
    // entities
    let mut we = vec![];
    for e in entities_json(d) {
        want_entity(&e, ver, &mut we);
    }
    let er = recs(sec("ENTITIES"));
    compare("ENTITIES", &we, &er, handles, c);
    // objects
    let mut wo = vec![];
    for o in objects_json(d) {
        let n = kind(&o);
        let t = &model().objects[&n];
        if ver >= t.min && ver <= t.max {
            wo.push(w(&t.types[0], &n, markers(&segs().1, &n, ver), o["common"]["handle"].as_u64()));
        }
    }
    if ver >= R13 {
        compare("OBJECTS", &wo, &recs(sec("OBJECTS")), handles, c);
    }
    // thumbnail
    let t = sec("THUMBNAILIMAGE");
    if !t.is_empty() {
        let n: usize = t.iter().map(|p| if let Val::X(b) = &p.v { b.len() } else { 0 }).sum();
        if t[0] != int(90, n as i64) || t[1..].iter().any(|p| p.c != 310) {
            c.fail("thumbnail", format!("{} for {} bytes", show(t.first()), n));
        }
    }
}
pub fn recs(ps: &[Pair]) -> Vec<Rec> {
    let mut out: Vec<Rec> = vec![];
    for p in ps {
        if p.c == 0 {
            out.push(Rec { kind: p.s().to_string(), pairs: vec![] });
        } else if let Some(r) = out.last_mut() {
            r.pairs.push(p.clone());
        } else {
            out.push(Rec { kind: String::new(), pairs: vec![p.clone()] });
        }
    }
    out
}
fn compare(sec: &str, want: &[Want], have: &[Rec], handles: bool, c: &mut Case) {
    for i in 0..want.len().max(have.len()) {
        let (x, y) = (want.get(i), have.get(i));
        match (x, y) {
            (Some(x), Some(y)) if x.kind == y.kind => record(sec, x, y, handles, c),
            _ => {
                return c.fail(
                    format!("records:{}:{}", sec, x.map(|x| x.what.as_str()).unwrap_or("end")),
                    format!("record {}: {} written, {} expected", i, y.map(|y| y.kind.as_str()).unwrap_or("nothing"), x.map(|x| x.kind.as_str()).unwrap_or("nothing")),
                )
            }
        }
    }
}
fn record(sec: &str, x: &Want, r: &Rec, handles: bool, c: &mut Case) {
    // extension groups and extended data are closed
    let mut depth = 0i64;
    for p in r.pairs.iter().take_while(|p| p.c < 1000) {
        if p.c == 102 {
            depth += if p.s() == "}" { -1 } else { 1 };
        }
    }
    if depth != 0 && x.what != "XRecordObject" {
        c.fail(format!("groups:{}", x.what), "extension groups are not closed");
    }
    if let Some(k) = r.pairs.iter().position(|p| p.c >= 1000) {
        if r.pairs[k].c != 1001 || r.pairs[k..].iter().any(|p| p.c < 1000) {
            c.fail(format!("x-data:{}", x.what), format!("extended data starts with {}", show(r.pairs.get(k))));
        }
    }
    let ps = own(r);
    let h = ps.iter().filter(|p| p.c == 5).count();
    match x.handle {
        Some(v) if handles => {
            if !r.pairs.first().map(|p| p.is(5, &format!("{:X}", v))).unwrap_or(false) {
                c.fail(format!("handle:{}", x.what), format!("{}: expected handle {:X} first, found {}", sec, v, show(r.pairs.first())));
            }
        }
        Some(_) => {
            if h != 0 && r.pairs.first().map(|p| p.c == 5) == Some(true) {
                c.fail(format!("handle:{}", x.what), "a handle is written though the drawing has none");
            }
        }
        None => {}
    }
    if let Some(m) = &x.markers {
        let have: Vec<&str> = ps.iter().filter(|p| p.c == 100).map(|p| p.s()).collect();
        // the contents of an XRECORD may look like markers
        let same = if x.what == "XRecordObject" { have.first() == Some(&"AcDbXrecord") } else { have == *m };
        if !same {
            c.fail(format!("markers:{}{}", x.what, if have.is_empty() { ":none" } else { "" }), format!("{:?}, expected {:?}", have, m));
        }
    }
    counts(x, &ps, c);
}
fn counts(x: &Want, ps: &[Pair], c: &mut Case) {
    const T: &[(&str, i32, i32)] = &[
        ("LwPolyline", 90, 10),
        ("Leader", 76, 10),
        ("Image", 91, 14),
        ("Wipeout", 91, 14),
        ("Spline", 72, 40),
        ("Spline", 73, 10),
        ("Spline", 74, 11),
    ];
    for (k, a, b) in T {
        if x.what != *k {
            continue;
        }
        let n = ps.iter().filter(|p| p.c == *b).count() as i64;
        let Some(p) = ps.iter().find(|p| p.c == *a) else {
            if n > 0 {
                c.fail(format!("count:{}.{}", k, a), format!("no count for {} values", n));
            }
            continue;
        };
        if p.i() != n {
            c.fail(format!("count:{}.{}", k, a), format!("{} for {} values", show(Some(p)), n));
        }
    }
    if let Some(parts) = x.parts {
        let has = ps.iter().any(|p| *p == int(66, 1));
        if has != parts {
            c.fail("insert-flag", format!("attributes follow: {}, actually {}", has, parts));
        }
        c.class(if has { "insert-with-attributes" } else { "insert" });
    }
}

fn tables(d: &Drawing, ps: &[Pair], ver: usize, handles: bool, c: &mut Case) {
    let mut have = vec![];
    let mut i = 0;
    while i < ps.len() {
        if !ps[i].is(0, "TABLE") || ps.get(i + 1).map(|p| p.c) != Some(2) {
            return c.fail("tables", format!("expected a table: {}", show(ps.get(i))));
        }
        let Some(e) = ps[i..].iter().position(|p| p.is(0, "ENDTAB")) else {
            return c.fail("tables", format!("table {} is not ended", ps[i + 1].s()));
        };
        have.push((ps[i + 1].s().to_string(), recs(&ps[i + 1..i + e])));
        i += e + 1;
    }
    let mut names = vec![];
    for (n, rs) in &have {
        names.push(n.clone());
        let Some(t) = TABLES.iter().find(|t| crate::tables::table_model(t).types[0] == *n) else {
            c.fail("tables", format!("unknown table {}", n));
            continue;
        };
        let tm = crate::tables::table_model(t);
        if ver < tm.min || ver > tm.max {
            c.fail(format!("table:{}", n), format!("written at {}", VERSIONS[ver]));
        }
        let mem = crate::tables::records(d, t);
        let rs = &rs[1..];
        if rs.len() != mem.len() {
            c.fail(format!("table:{}", n), format!("{} records for {}", rs.len(), mem.len()));
            continue;
        }
        for (r, m) in rs.iter().zip(&mem) {
            if r.kind != *n {
                c.fail(format!("table:{}", n), format!("record {}", r.kind));
            }
            let hc = if n == "DIMSTYLE" { 105 } else { 5 };
            let hp = r.pairs.first().map(|p| p.c == hc).unwrap_or(false);
            let want = format!("{:X}", m["handle"].as_u64().unwrap_or(0));
            if handles && !r.pairs.first().map(|p| p.is(hc, &want)).unwrap_or(false) {
                c.fail(format!("handle:{}", n), format!("expected {}, found {}", want, show(r.pairs.first())));
            }
            if !handles && hp {
                c.fail(format!("handle:{}", n), "a handle is written though the drawing has none");
            }
            let o = own(r);
            if ver >= R13 {
                let ms: Vec<&str> = o.iter().filter(|p| p.c == 100).map(|p| p.s()).collect();
                let w2 = table_marker(n);
                if ms != ["AcDbSymbolTableRecord", w2] {
                    c.fail(format!("markers:{}", n), format!("{:?}", ms));
                }
            }
        }
    }
    let want: Vec<String> = ["APPID", "BLOCK_RECORD", "DIMSTYLE", "LTYPE", "LAYER", "STYLE", "UCS", "VIEW", "VPORT"]
        .iter()
        .filter(|n| **n != "BLOCK_RECORD" || ver >= R13)
        .map(|x| x.to_string())
        .collect();
    let mut sorted = names.clone();
    sorted.sort();
    let missing: Vec<&String> = want.iter().filter(|t| {
        let tn = TABLES.iter().find(|x| crate::tables::table_model(x).types[0] == **t).unwrap();
        !names.contains(t) && !crate::tables::records(d, tn).is_empty()
    }).collect();
    if !missing.is_empty() {
        c.fail("table-list", format!("tables {:?} are missing from {:?}", missing, names));
    }
    if sorted.windows(2).any(|x| x[0] == x[1]) {
        c.fail("table-list", format!("a table is written twice: {:?}", names));
    }
    // layers refer to line types
    if let (Some(a), Some(b)) = (names.iter().position(|x| x == "LTYPE"), names.iter().position(|x| x == "LAYER")) {
        if a > b {
            c.fail("table-list", format!("layers before the line types they name: {:?}", names));
        }
    }
}
fn table_marker(n: &str) -> &'static str {
    match n {
        "APPID" => "AcDbRegAppTableRecord",
        "BLOCK_RECORD" => "AcDbBlockTableRecord",
        "DIMSTYLE" => "AcDbDimStyleTableRecord",
        "LAYER" => "AcDbLayerTableRecord",
        "LTYPE" => "AcDbLinetypeTableRecord",
        "STYLE" => "AcDbTextStyleTableRecord",
        "UCS" => "AcDbUCSTableRecord",
        "VIEW" => "AcDbViewTableRecord",
        _ => "AcDbViewportTableRecord",
    }
}

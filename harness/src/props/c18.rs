//! C18: compound entities keep their parts together and in order
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::machine::{col, world, COLS};
use crate::model::*;
use crate::props::c07::{blocks_json, gen_block, to_block};
use crate::props::c10::lex;
use crate::reflect::*;
use crate::wire::*;
use dxf::entities::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a case builds runs of 0-6 entities in the drawing and in 0-2 blocks, most of them inserts with 0-5 (rarely hundreds of) attributes, polylines with vertices and attribute definitions with multi-line text, saves them as text or binary at a generated version and compares every part of what is loaded; then the pairs of the file are varied the way other programs write them (sequence-end markers left out, inserts announcing attributes but having none, polylines without the follow flag, attributes without multi-line text, parts without handles) and the outcome compared again; then parts of one loaded parent are edited through the API and everything else must stay; non-trivial: some parent has parts; distinct by file content",
        quick: 12_000,
        thorough: 200_000,
        run,
        assumptions: &["values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

const KINDS: &[&str] = &["Insert", "Polyline", "AttributeDefinition", "MText", "Line", "Text", "Insert", "Polyline", "LwPolyline", "Circle", "Insert", "Polyline"];

fn gen_run(s: &mut Src, ver: usize) -> Vec<(Value, Vec<Value>)> {
    let n = s.size(6);
    let mut o: Vec<(Value, Vec<Value>)> = vec![];
    for _ in 0..n {
        let mut name = *s.pick(KINDS);
        // an MTEXT after an ATTDEF is a recorded finding of C11
        if name == "MText" && o.last().map(|l| kind(&l.0) == "AttributeDefinition").unwrap_or(false) {
            name = "Line";
        }
        let cfg = ECfg { xdata: s.chance(1, 4), ext: s.chance(1, 4), children: true };
        let (mut v, mut kids) = gen_entity(s, name, &cfg);
        if !kids.is_empty() && s.chance(1, 60) {
            let m = s.us(600);
            for i in 0..m {
                let k = kids[i % kids.len()].clone();
                kids.push(k);
            }
        }
        mask_entity(&mut v, &mut kids, ver);
        o.push((v, kids));
    }
    o
}

/// entities of the drawing and of the blocks as the version keeps them
fn expected(d: &Drawing, ver: usize) -> Vec<Vec<Value>> {
    let keep = |es: &[Value]| -> Vec<Value> {
        es.iter().filter_map(|e| expect_entity(e, ver)).map(|mut e| { scrub_entity(&mut e); e }).collect()
    };
    let mut o = vec![keep(&entities_json(d))];
    for b in blocks_json(d) {
        o.push(keep(b["entities"].as_array().unwrap()));
    }
    o
}
fn loaded(d: &Drawing) -> Vec<Vec<Value>> {
    let keep = |es: Vec<Value>| -> Vec<Value> { es.into_iter().map(|mut e| { scrub_entity(&mut e); e }).collect() };
    let mut o = vec![keep(entities_json(d))];
    for b in blocks_json(d) {
        o.push(keep(b["entities"].as_array().unwrap().clone()));
    }
    o
}
fn parts(e: &Value) -> Option<(&'static str, usize)> {
    let k = kind(e);
    let v = &e["specific"][&k];
    for (key, n) in [("__attributes_and_handles", "attribute"), ("__vertices_and_handles", "vertex")] {
        if let Some(a) = v.get(key).and_then(|a| a.as_array()) {
            return Some((n, a.len()));
        }
    }
    None
}
fn compare(c: &mut Case, tag: &str, want: &[Vec<Value>], got: &[Vec<Value>], exact: bool) {
    let kinds = |v: &[Vec<Value>]| {
        v.iter().map(|r| r.iter().map(|e| match parts(e) {
            Some((n, k)) => format!("{}({} {})", kind(e), k, n),
            None => kind(e),
        }).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | ")
    };
    let (a, b) = (kinds(want), kinds(got));
    if a != b {
        return c.fail(format!("{}:structure", tag), format!("expected [{}], loaded [{}]", a, b));
    }
    for (w, g) in want.iter().flatten().zip(got.iter().flatten()) {
        let mut o = vec![];
        diff("", w, g, exact, &mut o);
        for (p, m) in o {
            c.fail(format!("{}:{}", tag, field_of(&p)), format!("{}: {}", p, m));
        }
    }
}

pub fn run(s: &mut Src, _idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    d.header.handles_enabled = s.chance(3, 4);
    for _ in 0..s.us(3) {
        let mut b = gen_block(s);
        b["layer"] = json!("0");
        let ents = gen_run(s, ver);
        let b = to_block(&mut d, &b, &ents);
        d.add_block(b);
    }
    for (v, kids) in gen_run(s, ver) {
        let e = build_entity(&mut d, &v, &kids);
        d.add_entity(e);
    }
    let want = expected(&d, ver);
    c.class(format!("version:{}", VERSIONS[ver]));
    for e in want.iter().flatten() {
        if let Some((n, k)) = parts(e) {
            c.class(format!("{}s:{}", n, match k { 0 => "0", 1 => "1", 2..=5 => "2-5", _ => "more" }));
            c.nontrivial |= k > 0;
        }
    }
    c.desc = format!("{} {}: {}", VERSIONS[ver], if binary { "binary" } else { "text" }, want.iter().map(|r| r.iter().map(|e| match parts(e) {
        Some((n, k)) => format!("{}({} {})", kind(e), k, n),
        None => kind(e),
    }).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | "));
    let bytes = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    c.ident(&bytes);
    let d2 = match load(&bytes) {
        Ok(x) => x,
        Err(e) => return c.fail("load-error", e),
    };
    let mut want = want;
    let mut got = loaded(&d2);
    if ver < R13 && !d.header.handles_enabled {
        for v in want.iter_mut().chain(got.iter_mut()).flatten() {
            forget_handles(v);
        }
    }
    compare(c, "cycle", &want, &got, binary);
    if !c.fails.is_empty() {
        return;
    }
    foreign(s, c, &bytes, binary, ver, &loaded(&d2));
    if c.fails.is_empty() {
        edit_parts(s, c, d2);
    }
}

/// the same drawing as another program would have put it
fn foreign(s: &mut Src, c: &mut Case, bytes: &[u8], binary: bool, ver: usize, plain: &[Vec<Value>]) {
    let ps = match lex(bytes, binary, ver) {
        Ok(p) => p,
        Err(e) => return c.fail("malformed", e),
    };
    let drop_seqend = s.chance(1, 2);
    let announce = s.chance(1, 2);
    let drop_mtext = s.chance(1, 3);
    let no_flag = s.chance(1, 2);
    let no_handles = s.chance(1, 3);
    // split into records
    let mut recs: Vec<Vec<Pair>> = vec![];
    for p in ps {
        if p.c == 0 || recs.is_empty() {
            recs.push(vec![]);
        }
        recs.last_mut().unwrap().push(p);
    }
    let mut out: Vec<Vec<Pair>> = vec![];
    let mut in_items = false;
    let mut i = 0;
    let kind_of = |r: &Vec<Pair>| if r[0].c == 0 { r[0].s().to_string() } else { String::new() };
    while i < recs.len() {
        let mut r = recs[i].clone();
        let k = kind_of(&r);
        if k == "SECTION" {
            in_items = matches!(r.get(1).map(|p| p.s()), Some("BLOCKS") | Some("ENTITIES")) && r.len() == 2;
        }
        let is_item = in_items && !matches!(k.as_str(), "SECTION" | "ENDSEC");
        if is_item {
            match k.as_str() {
                // (a text right behind an attribute would be taken as the attribute's)
                "SEQEND" if drop_seqend && recs.get(i + 1).map(kind_of).as_deref() != Some("MTEXT") && s.flip() => {
                    i += 1;
                    continue;
                }
                "MTEXT" if drop_mtext && recs.get(i + 1).map(kind_of).as_deref() != Some("MTEXT") && i > 0 && matches!(kind_of(&recs[i - 1]).as_str(), "ATTRIB" | "ATTDEF") => {
                    i += 1;
                    continue;
                }
                "POLYLINE" if no_flag => drop_own(&mut r, 66),
                "VERTEX" | "ATTRIB" | "SEQEND" if no_handles && s.flip() => {
                    drop_own(&mut r, 5);
                }
                "INSERT" if announce && recs.get(i + 1).map(kind_of).as_deref() != Some("ATTRIB") => {
                    drop_own(&mut r, 66);
                    // in the part of the record the flag belongs to
                    let own = own(&r);
                    let j = (0..r.len()).find(|&j| own[j] && r[j].c == 2).unwrap_or(1);
                    r.insert(j, int(66, 1));
                    out.push(r);
                    if s.flip() {
                        out.push(vec![st(0, "SEQEND"), st(8, "0")]);
                    }
                    i += 1;
                    continue;
                }
                _ => {}
            }
        }
        out.push(r);
        i += 1;
    }
    let ps: Vec<Pair> = out.into_iter().flatten().collect();
    let b = if binary { emit_binary(&ps, ver >= R13) } else { emit_text(&ps, ver >= R2007) };
    let d3 = match load(&b) {
        Ok(x) => x,
        Err(e) => return c.fail("foreign:load-error", e),
    };
    let mut want = plain.to_vec();
    let mut got = loaded(&d3);
    if drop_mtext {
        // dropped texts are default ones
        for v in want.iter_mut().flatten() {
            without_text(v, ver);
        }
        for v in got.iter_mut().flatten() {
            without_text(v, ver);
        }
    }
    for v in want.iter_mut().chain(got.iter_mut()).flatten() {
        forget_handles(v);
        if no_flag && kind(v) == "Polyline" {
            v["specific"]["Polyline"].as_object_mut().unwrap().remove("contains_vertices");
        }
    }
    compare(c, "foreign", &want, &got, binary);
}
fn without_text(e: &mut Value, ver: usize) {
    let k = kind(e);
    let dt = crate::defaults::default_entity("MText");
    let fix = |v: &mut Value| {
        if v.get("m_text").is_some() && ver >= R13 {
            v["m_text"] = dt.clone();
            v.as_object_mut().unwrap().remove("m_text_flag");
        }
    };
    let v = &mut e["specific"][&k];
    fix(v);
    if let Some(Value::Array(a)) = v.get_mut("__attributes_and_handles") {
        for p in a {
            fix(&mut p[0]);
        }
    }
}
/// which pairs of a record are outside of extension groups and extended data
fn own(r: &[Pair]) -> Vec<bool> {
    let mut depth = 0;
    let mut xdata = false;
    r.iter().map(|p| {
        if p.c == 102 {
            if p.s() == "}" { depth -= 1 } else { depth += 1 }
            return false;
        }
        xdata |= p.c >= 1000;
        depth == 0 && !xdata
    }).collect()
}
fn drop_own(r: &mut Vec<Pair>, code: i32) {
    let mut own = own(r).into_iter();
    r.retain(|p| !(own.next().unwrap() && p.c == code));
}
fn forget_handles(e: &mut Value) {
    forget_part_handles(e);
    e["common"]["handle"] = json!(0);
    e["common"]["__owner_handle"] = json!(0);
}
fn forget_part_handles(e: &mut Value) {
    let k = kind(e);
    let v = &mut e["specific"][&k];
    for key in ["__attributes_and_handles", "__vertices_and_handles"] {
        if let Some(Value::Array(a)) = v.get_mut(key) {
            for p in a {
                p[1] = json!(0);
            }
        }
    }
    if k == "Insert" {
        v.as_object_mut().unwrap().remove("__has_attributes");
    }
}

/// edit the parts of one parent; nothing else may change
fn edit_parts(s: &mut Src, c: &mut Case, mut d: Drawing) {
    let at: Vec<usize> = d.entities().enumerate().filter(|(_, e)| matches!(e.specific, EntityType::Insert(_) | EntityType::Polyline(_))).map(|x| x.0).collect();
    if at.is_empty() {
        return;
    }
    let i = *s.pick(&at);
    let mut want = world(&d);
    let sel = s.below(8) as usize;
    let mut seen = vec![];
    let key;
    let pick;
    match d.entities_mut().nth(i).unwrap().specific {
        EntityType::Insert(ref mut x) => {
            key = ("Insert", "__attributes_and_handles", "value");
            let shared: Vec<Value> = x.attributes().map(|a| serde_json::to_value(a).unwrap()).collect();
            for (k, a) in x.attributes_mut().enumerate() {
                seen.push(serde_json::to_value(&*a).unwrap());
                if k == sel {
                    a.value = "edited".into();
                }
            }
            pick = json!("edited");
            if shared != seen {
                c.fail("parts-iteration", "shared and mutable iteration over the attributes differ");
            }
        }
        EntityType::Polyline(ref mut x) => {
            key = ("Polyline", "__vertices_and_handles", "bulge");
            let shared: Vec<Value> = x.vertices().map(|a| serde_json::to_value(a).unwrap()).collect();
            for (k, a) in x.vertices_mut().enumerate() {
                seen.push(serde_json::to_value(&*a).unwrap());
                if k == sel {
                    a.bulge = 12.5;
                }
            }
            pick = json!(12.5);
            if shared != seen {
                c.fail("parts-iteration", "shared and mutable iteration over the vertices differ");
            }
        }
        _ => return,
    }
    let w = &mut want.get_mut("Entity").unwrap()[i]["specific"][key.0][key.1];
    let a = w.as_array_mut().unwrap();
    let mut stored: Vec<Value> = a.iter().map(|p| p[0].clone()).collect();
    let mut seen = Value::Array(seen);
    strip_offsets(&mut seen);
    stored.iter_mut().for_each(strip_offsets);
    if Value::Array(stored) != seen {
        c.fail("parts-iteration", "iteration does not visit the parts in order");
    }
    if sel < a.len() {
        a[sel][0][key.2] = pick;
    }
    for n in COLS {
        let mut g = Value::Array(col(&d, n));
        strip_offsets(&mut g);
        let mut o = vec![];
        diff("", &Value::Array(want[n].clone()), &g, true, &mut o);
        for (p, m) in o {
            c.fail(format!("edited:{}", n), format!("{}: {}", p, m));
        }
    }
}

//! C19: extended data and extension groups survive
use crate::drawing::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c10::lex;
use crate::reflect::*;
use crate::tables::*;
use crate::wire::*;
use dxf::Drawing;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "a case generates a drawing with carriers of every kind (entities in the drawing and in blocks, objects, blocks, records of all nine tables; kinds round-robin) and saves it twice, bare and after extended data (0-3 applications, all value kinds, lists nested to depth 12, strings to 3000 characters, binary data) and extension groups were attached to a generated subset; both are loaded: the attachments must equal what was attached (in versions that store them, else be absent) and everything else must equal the bare drawing; then independently encoded extended data and groups are spliced into the records of the bare file, parts and end markers included, and what is loaded is compared the same way; non-trivial: something was attached; distinct by file content",
        quick: 4_500,
        thorough: 150_000,
        run,
        assumptions: &["an extension group without contents is not stored", "binary files split extended binary data into pieces of at most 255 bytes", "values are compared through the crate's own JSON form", "extended data follows the other values of its record, and extension groups follow the handle, as the format demands"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

// ------------------------------------------------------------------ generation
fn gen_items(s: &mut Src, depth: usize) -> Vec<Value> {
    let n = s.size(8);
    (0..n)
        .map(|_| {
            let mut v = match s.below(14) {
                0 => {
                    let n = s.us(3000);
                    json!({"Str": format!("{}{}", gen_text(s), "0123456789 abcde".chars().cycle().take(n).collect::<String>())})
                }
                1 => json!({"Str": s.pick(&["}", "{", "", "{ACAD", "1001"])}),
                2 | 3 if depth > 0 => json!({"ControlGroup": gen_items(s, depth - 1)}),
                4 => json!({"BinaryData": gen_bytes(s, 1000)}),
                _ => gen_xdata_item(s, 0),
            };
            if v.get("LayerName").is_some() && s.flip() {
                v = json!({"LayerName": gen_text(s)});
            }
            v
        })
        .collect()
}
fn gen_x(s: &mut Src) -> Value {
    let n = 1 + s.us(3);
    let depth = if s.chance(1, 8) { 12 } else { 3 };
    Value::Array((0..n).map(|_| {
        let name = if s.chance(1, 4) { gen_text(s) } else { s.pick(&["ACAD", "APP", "ACAD", "B"]).to_string() };
        json!({"application_name": name, "items": gen_items(s, depth)})
    }).collect())
}
fn gen_g(s: &mut Src) -> Value {
    let n = 1 + s.us(3);
    Value::Array((0..n).map(|_| {
        let mut g = gen_ext_group(s, 3);
        match s.below(4) {
            0 => g["application_name"] = json!("ACAD_REACTORS"),
            1 => g["application_name"] = json!("ACAD_XDICTIONARY"),
            2 => g["application_name"] = json!(gen_text(s)),
            _ => {}
        }
        g
    }).collect())
}

// ------------------------------------------------------------------ carriers of a snapshot
/// path -> (x_data, groups); and the snapshot without them
fn split(v: &mut Value, path: String, out: &mut BTreeMap<String, (Value, Value)>) {
    match v {
        Value::Object(m) => {
            if m.contains_key("x_data") && m.contains_key("extension_data_groups") {
                let x = m.insert("x_data".into(), json!([])).unwrap();
                let g = m.insert("extension_data_groups".into(), json!([])).unwrap();
                out.insert(path.clone(), (x, g));
            }
            for (k, x) in m.iter_mut() {
                split(x, format!("{}.{}", path, k), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter_mut().enumerate() {
                split(x, format!("{}[{}]", path, i), out);
            }
        }
        _ => {}
    }
}
fn view(d: &Drawing) -> (Value, BTreeMap<String, (Value, Value)>) {
    let mut v = snapshot(d);
    let h = v["header"].as_object_mut().unwrap();
    // set anew by loading where the version does not store them
    for k in ["update_date", "update_date_universal", "creation_date", "creation_date_universal", "fingerprint_guid", "version_guid"] {
        h.remove(k);
    }
    let mut m = BTreeMap::new();
    split(&mut v, String::new(), &mut m);
    (v, m)
}
fn carrier(path: &str) -> String {
    let p = path.trim_start_matches('.');
    if p.starts_with("blocks") {
        return if p.contains("entities") { "block entity".into() } else { "block".into() };
    }
    p.split('[').next().unwrap().trim_start_matches("tables.").to_string()
}

/// binary files hold at most 255 bytes in a piece: join neighbouring pieces
fn join(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut o: Vec<Value> = vec![];
            for x in a {
                let x = join(x);
                if let (Some(Value::Array(n)), Some(Some(Value::Array(l)))) = (x.get("BinaryData"), o.last_mut().map(|l| l.get_mut("BinaryData"))) {
                    l.extend(n.clone());
                } else {
                    o.push(x);
                }
            }
            Value::Array(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), join(x))).collect()),
        x => x.clone(),
    }
}
fn check(c: &mut Case, tag: &str, exact: bool, bare: &Value, want: &BTreeMap<String, (Value, Value)>, d: &Drawing) {
    let (rest, got) = view(d);
    let mut o = vec![];
    diff("", bare, &rest, exact, &mut o);
    for (p, m) in o {
        c.fail(format!("{}:disturbed:{}", tag, part_of(&p, bare)), format!("{}: {}", p, m));
    }
    if !c.fails.is_empty() {
        return;
    }
    for (path, (x, g)) in want {
        let Some((gx, gg)) = got.get(path) else {
            c.fail(format!("{}:carrier-lost", tag), path.clone());
            continue;
        };
        for (n, a, b) in [("x_data", x, gx), ("groups", g, gg)] {
            let mut o = vec![];
            if exact {
                diff("", &join(a), &join(b), exact, &mut o);
            } else {
                diff("", a, b, exact, &mut o);
            }
            if let Some((p, m)) = o.first() {
                c.fail(format!("{}:{}:{}", tag, n, carrier(path)), format!("{}{}: {}", path, p, m));
            }
        }
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let mut d = gen_drawing(s, idx as usize, ver, &DCfg { xdata: false, thumbnail: false, ..SOUND });
    let bytes = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    let d0 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", e),
    };
    let (bare, empty) = view(&d0);
    c.class(format!("version:{}", VERSIONS[ver]));
    c.desc = format!("{} {}", if binary { "binary" } else { "text" }, summary(&d));
    if empty.values().any(|(x, g)| *x != json!([]) || *g != json!([])) {
        return c.fail("from-nowhere", "extended data appeared in a drawing without any");
    }
    spliced(s, c, &bytes, binary, ver, &bare, &empty);
    if !c.fails.is_empty() {
        return;
    }
    // attach through the API
    let (_, slots) = view(&d);
    let dense = s.chance(1, 3);
    let mut put: BTreeMap<String, (Value, Value)> = BTreeMap::new();
    for (path, _) in &slots {
        if !(dense || s.chance(1, 4)) {
            continue;
        }
        let x = if s.chance(3, 4) { gen_x(s) } else { json!([]) };
        let g = if s.flip() { gen_g(s) } else { json!([]) };
        attach(&mut d, path, &x, &g);
        c.class(format!("carrier:{}", carrier(path)));
        put.insert(path.clone(), (x, g));
    }
    // the saved order may leave items out: match attachments by carrier order within each list
    let bytes = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    c.ident(&bytes);
    let d1 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("attached:load-error", e),
    };
    // where each carrier of `d` is after loading: by handle, else the case only checks order
    let want = relocate(&d, &d0, &put, ver, &empty);
    let mut want = want;
    for (x, g) in want.values_mut() {
        if ver < R2000 {
            *x = json!([]);
        }
        if ver < R14 {
            *g = json!([]);
        }
        strip_offsets(g);
    }
    c.nontrivial |= want.values().any(|(x, g)| *x != json!([]) || *g != json!([]));
    check(c, "attached", binary, &bare, &want, &d1);
}

fn attach(d: &mut Drawing, path: &str, x: &Value, g: &Value) {
    let xs: Vec<dxf::XData> = serde_json::from_value(x.clone()).unwrap();
    let gs: Vec<dxf::ExtensionGroup> = serde_json::from_value(g.clone()).unwrap();
    let num = |k: usize| -> usize { path.split('[').nth(k).unwrap().split(']').next().unwrap().parse().unwrap() };
    let head = path.trim_start_matches('.').split('[').next().unwrap();
    match head {
        "entities" => {
            let e = d.entities_mut().nth(num(1)).unwrap();
            e.common.x_data = xs;
            e.common.extension_data_groups = gs;
        }
        "objects" => {
            let e = d.objects_mut().nth(num(1)).unwrap();
            e.common.x_data = xs;
            e.common.extension_data_groups = gs;
        }
        "blocks" => {
            let b = d.blocks_mut().nth(num(1)).unwrap();
            if path.contains("entities") {
                let e = &mut b.entities[num(2)];
                e.common.x_data = xs;
                e.common.extension_data_groups = gs;
            } else {
                b.x_data = xs;
                b.extension_data_groups = gs;
            }
        }
        t => carry_record(d, t.trim_start_matches("tables."), num(1), xs, gs),
    }
}

/// paths in the drawing that was saved -> paths in the loaded one (items the version cannot hold are left out of it)
fn relocate(d: &Drawing, loaded: &Drawing, put: &BTreeMap<String, (Value, Value)>, ver: usize, empty: &BTreeMap<String, (Value, Value)>) -> BTreeMap<String, (Value, Value)> {
    let mut out = empty.clone();
    let kept_list = |es: &[Value], f: fn(&Value, usize) -> Option<Value>| -> Vec<usize> {
        es.iter().enumerate().filter(|(_, e)| f(e, ver).is_some()).map(|x| x.0).collect()
    };
    let ents = kept_list(&entities_json(d), expect_entity);
    let objs = kept_list(&objects_json(d), expect_object);
    let blocks = crate::props::c07::blocks_json(d);
    for (p, v) in put {
        let num = |k: usize| -> usize { p.split('[').nth(k).unwrap().split(']').next().unwrap().parse().unwrap() };
        let head = p.trim_start_matches('.').split('[').next().unwrap();
        let q = match head {
            "entities" => ents.iter().position(|i| *i == num(1)).map(|j| format!(".entities[{}].common", j)),
            "objects" => objs.iter().position(|i| *i == num(1)).map(|j| format!(".objects[{}].common", j)),
            "blocks" if p.contains("entities") => {
                let b = &blocks[num(1)];
                let keep = kept_list(b["entities"].as_array().unwrap(), expect_entity);
                keep.iter().position(|i| *i == num(2)).map(|j| format!(".blocks[{}].entities[{}].common", num(1), j))
            }
            "blocks" => Some(p.clone()),
            t => {
                // tables: records are kept in order, but the version may not store the table at all
                let t = t.trim_start_matches("tables.");
                let (a, b) = (records(d, t), records(loaded, t));
                let i = num(1);
                let h = a[i]["handle"].clone();
                match b.iter().position(|r| r["handle"] == h && h != 0) {
                    Some(j) => Some(format!(".tables.{}[{}]", t, j)),
                    None if a.len() <= b.len() && b[i]["name"] == a[i]["name"] => Some(p.clone()),
                    None => None,
                }
            }
        };
        if let Some(q) = q {
            out.insert(q, v.clone());
        }
    }
    out
}

// ------------------------------------------------------------------ other programs' files
fn xpairs(v: &Value, binary: bool, o: &mut Vec<Pair>) {
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    let f = |v: &Value| v.as_f64().unwrap();
    let p3 = |c: i32, v: &Value, o: &mut Vec<Pair>| {
        for (i, n) in ["x", "y", "z"].iter().enumerate() {
            o.push(dbl(c + 10 * i as i32, v[*n].as_f64().unwrap()));
        }
    };
    match k.as_str() {
        "Str" => o.push(st(1000, x.as_str().unwrap())),
        "ControlGroup" => {
            o.push(st(1002, "{"));
            x.as_array().unwrap().iter().for_each(|i| xpairs(i, binary, o));
            o.push(st(1002, "}"));
        }
        "LayerName" => o.push(st(1003, x.as_str().unwrap())),
        "BinaryData" => {
            let b: Vec<u8> = x.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
            if binary && b.len() > 255 {
                b.chunks(127).for_each(|b| o.push(bin(1004, b.to_vec())));
            } else {
                o.push(bin(1004, b));
            }
        }
        "Handle" => o.push(st(1005, format!("{:X}", x.as_u64().unwrap()))),
        "ThreeReals" => (0..3).for_each(|i| o.push(dbl(1010 + 10 * i, f(&x[i as usize])))),
        "WorldSpacePosition" => p3(1011, x, o),
        "WorldSpaceDisplacement" => p3(1012, x, o),
        "WorldDirection" => p3(1013, x, o),
        "Real" => o.push(dbl(1040, f(x))),
        "Distance" => o.push(dbl(1041, f(x))),
        "ScaleFactor" => o.push(dbl(1042, f(x))),
        "Integer" => o.push(int(1070, x.as_i64().unwrap())),
        "Long" => o.push(int(1071, x.as_i64().unwrap())),
        k => panic!("harness: {}", k),
    }
}
fn gpairs(g: &Value, o: &mut Vec<Pair>) {
    o.push(st(102, format!("{{{}", g["application_name"].as_str().unwrap())));
    for i in g["items"].as_array().unwrap() {
        if let Some(p) = i.get("CodePair") {
            let c = p["code"].as_i64().unwrap() as i32;
            let (k, v) = p["value"].as_object().unwrap().iter().next().unwrap();
            o.push(match k.as_str() {
                "Str" => st(c, v.as_str().unwrap()),
                "Double" => dbl(c, v.as_f64().unwrap()),
                "Binary" => bin(c, v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()),
                _ => int(c, v.as_i64().unwrap()),
            });
        } else {
            gpairs(&i["Group"], o);
        }
    }
    o.push(st(102, "}"));
}
fn handles(v: &Value, path: String, out: &mut BTreeMap<u64, Vec<String>>) {
    match v {
        Value::Object(m) => {
            if let (true, Some(h)) = (m.contains_key("x_data"), m.get("handle").and_then(|h| h.as_u64())) {
                out.entry(h).or_default().push(path.clone());
            }
            m.iter().for_each(|(k, x)| handles(x, format!("{}.{}", path, k), out));
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| handles(x, format!("{}[{}]", path, i), out)),
        _ => {}
    }
}

fn spliced(s: &mut Src, c: &mut Case, bytes: &[u8], binary: bool, ver: usize, bare: &Value, empty: &BTreeMap<String, (Value, Value)>) {
    let ps = match lex(bytes, binary, ver) {
        Ok(p) => p,
        Err(e) => return c.fail("malformed", e),
    };
    let mut where_ = BTreeMap::new();
    handles(bare, String::new(), &mut where_);
    let mut recs: Vec<Vec<Pair>> = vec![];
    for p in ps {
        if p.c == 0 || recs.is_empty() {
            recs.push(vec![]);
        }
        recs.last_mut().unwrap().push(p);
    }
    let mut want = empty.clone();
    let mut section = String::new();
    let mut count: BTreeMap<u64, usize> = BTreeMap::new();
    let own_handle = |r: &Vec<Pair>| -> Option<usize> { r.iter().take(3).position(|p| p.c == 5 || p.c == 105) };
    for r in &recs {
        if !r[0].is(0, "ENDBLK") {
            if let Some(j) = own_handle(r) {
                *count.entry(u64::from_str_radix(r[j].s(), 16).unwrap_or(0)).or_default() += 1;
            }
        }
    }
    let dense = s.chance(1, 3);
    let mut n = 0;
    for r in recs.iter_mut() {
        let k = r[0].s().to_string();
        if k == "SECTION" && r.len() > 1 && r[1].c == 2 {
            section = r[1].s().to_string();
            continue;
        }
        if r[0].c != 0 || !matches!(section.as_str(), "TABLES" | "BLOCKS" | "ENTITIES" | "OBJECTS") || matches!(k.as_str(), "ENDSEC" | "ENDTAB" | "TABLE" | "EOF") {
            continue;
        }
        if !(dense || s.chance(1, 4)) {
            continue;
        }
        let Some(j) = own_handle(r) else { continue };
        let h = u64::from_str_radix(r[j].s(), 16).unwrap_or(0);
        let at = where_.get(&h).cloned().unwrap_or_default();
        let part = matches!(k.as_str(), "VERTEX" | "ATTRIB" | "SEQEND");
        if !part && (h == 0 || at.len() != 1 || count.get(&h) != Some(&1) || k == "ENDBLK") {
            continue;
        }
        if part && section == "OBJECTS" {
            continue;
        }
        let x = if s.chance(3, 4) { gen_x(s) } else { json!([]) };
        let g = if s.flip() { gen_g(s) } else { json!([]) };
        let mut xp = vec![];
        for a in x.as_array().unwrap() {
            xp.push(st(1001, a["application_name"].as_str().unwrap()));
            a["items"].as_array().unwrap().iter().for_each(|i| xpairs(i, binary, &mut xp));
        }
        let mut gp = vec![];
        g.as_array().unwrap().iter().for_each(|g| gpairs(g, &mut gp));
        r.extend(xp);
        for (i, p) in gp.into_iter().enumerate() {
            r.insert(j + 1 + i, p);
        }
        if !part {
            c.class(format!("spliced:{}", carrier(&at[0])));
            n += 1;
            let mut g = g;
            strip_offsets(&mut g);
            want.insert(at[0].clone(), (x, g));
        }
    }
    c.nontrivial |= n > 0;
    let ps: Vec<Pair> = recs.into_iter().flatten().collect();
    let b = if binary { emit_binary(&ps, ver >= R13) } else { emit_text(&ps, ver >= R2007) };
    c.ident(&b);
    match load(&b) {
        Ok(d) => check(c, "spliced", binary, bare, &want, &d),
        Err(e) => c.fail("spliced:load-error", e),
    }
}

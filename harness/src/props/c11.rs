//! C11: files written by other programs are read at face value
use crate::defaults::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c03::standalone;
use crate::props::c07::{blocks_json, gen_block, gen_class};
use crate::props::c06::gen_header_value;
use crate::props::c10::{header_pairs, plain_field};
use crate::reflect::*;
use crate::tables::*;
use crate::wire::*;
use crate::wireval::*;
use serde_json::{json, Map, Value};
use std::sync::OnceLock;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "a case writes, with an independent writer and from the reference tables alone, a file with 1-4 records of an entity, object or table kind (kind round-robin), blocks, classes or a header; a random subset of the fields is present, pairs are shuffled within their subclass, numbers respelled, enumerations sometimes out of range; the loaded items must carry exactly these values and pinned defaults elsewhere; non-trivial: at least one field present; distinct by content hash",
        quick: 30_000,
        thorough: 400_000,
        run,
        assumptions: &["reference tables model/model.json, model/segments.json and model/defaults.json are the standard", "pairs of a point or of a list stay together; kinds whose layout is positional keep their order"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

pub fn pinned() -> &'static Value {
    static D: OnceLock<Value> = OnceLock::new();
    D.get_or_init(|| serde_json::from_str(include_str!("../../../model/defaults.json")).unwrap())
}
pub fn segments() -> &'static Value {
    static D: OnceLock<Value> = OnceLock::new();
    D.get_or_init(|| serde_json::from_str(include_str!("../../../model/segments.json")).unwrap())
}

/// (markers, segment of each field)
fn layout(group: &str, name: &str, ver: usize) -> Option<(Vec<String>, Map<String, Value>)> {
    for e in segments()[group][name].as_array()? {
        if ver >= ver_idx(e[0].as_str()?) && ver <= ver_idx(e[1].as_str()?) {
            let m = e[2]["markers"].as_array()?.iter().map(|x| x.as_str().unwrap().to_string()).collect();
            return Some((m, e[2]["fields"].as_object()?.clone()));
        }
    }
    None
}

/// a record being put together: per segment a list of units (pairs that stay together)
struct Parts {
    markers: Vec<String>,
    units: Vec<Vec<Vec<Pair>>>,
}
impl Parts {
    fn finish(mut self, s: &mut Src, shuffle: bool) -> Vec<Pair> {
        let mut out = vec![];
        for (i, u) in self.units.iter_mut().enumerate() {
            if i > 0 {
                out.push(st(100, self.markers[i - 1].clone()));
            }
            if shuffle {
                s.shuffle(u);
            }
            for x in u.drain(..) {
                out.extend(x);
            }
        }
        out
    }
}

/// a value of an enumeration that the standard does not define, and what it stands for
fn out_of_range(s: &mut Src, f: &Field) -> Option<(i64, String)> {
    if f.multi {
        return None;
    }
    let rest = f.rc.strip_prefix("enum_from_number!(")?;
    let mut it = rest.split(',').map(|x| x.trim());
    let (ty, def) = (it.next()?, it.next()?);
    let conv = it.next()?;
    if conv == "from_f64" {
        return None;
    }
    let known: Vec<i64> = model().enums.get(ty)?.iter().map(|x| x.1).collect();
    let n = match s.below(4) {
        0 => -1,
        1 => known.iter().max()? + 1,
        2 => gen_int(s, i16::MIN as i64, i16::MAX as i64),
        _ => s.range(0, 300),
    };
    if known.contains(&n) || (code_width(f.codes[0]) == 'b' && !(0..=255).contains(&n)) {
        return None;
    }
    Some((n, def.to_string()))
}

/// put a random subset of the fields into the record; returns false if nothing was put
fn put_fields(
    s: &mut Src, parts: &mut Parts, fields: &[(&str, &Field)], segs: Option<&Map<String, Value>>, owner: &str, ver: usize,
    target: &mut Value, dens: u64, c: &mut Case,
) -> Option<()> {
    let seg_of = |wh: &str, f: &Field| -> Option<usize> {
        match segs {
            None => Some(0),
            Some(m) => m.get(&format!("{}:{}", wh, f.name)).and_then(|x| x.as_u64()).map(|x| x as usize),
        }
    };
    let mut done: Vec<&str> = vec![];
    for (wh, f) in fields {
        if done.contains(&f.name.as_str()) || ver < f.min || ver > f.max || !plain_field(owner, f) || f.name == "handle" || f.suppress {
            continue;
        }
        let Some(seg) = seg_of(wh, f) else { continue };
        if seg >= parts.units.len() {
            continue;
        }
        // codes used by several fields of the same subclass are told apart by other means
        let shared = fields.iter().any(|(w2, g)| g.name != f.name && ver >= g.min && ver <= g.max && seg_of(w2, g).unwrap_or(seg) == seg && g.codes.iter().any(|x| f.codes.contains(x)));
        let positional = matches!((owner, f.name.as_str()), ("AttributeDefinition" | "Attribute", "is_locked_in_block" | "version") | ("TableStyle", "is_title_suppressed" | "version"));
        if shared || positional || !s.chance(dens, 10) {
            continue;
        }
        let t = match *wh {
            "s" => &mut target["s"],
            "d" => &mut target["s"]["dimension_base"],
            _ => &mut target["c"],
        };
        if t.get(&f.name).is_none() {
            continue;
        }
        done.push(&f.name);
        if s.chance(1, 8) {
            if let Some((n, def)) = out_of_range(s, f) {
                let p = match code_width(f.codes[0]) {
                    'd' => dbl(f.codes[0], n as f64),
                    't' => continue,
                    _ => int(f.codes[0], n),
                };
                parts.units[seg].push(vec![p]);
                t[&f.name] = json!(def);
                c.class("enumeration out of range");
                c.nontrivial = true;
                continue;
            }
        }
        let cur = t[&f.name].clone();
        let Some(v) = gen_field(s, f, &cur) else { continue };
        let vals: Vec<Value> = if f.multi { v.as_array().unwrap().clone() } else { vec![v.clone()] };
        let mut unit = vec![];
        let mut ok = true;
        for x in &vals {
            match pairs_of(f, x) {
                Some(p) => unit.extend(p),
                None => ok = false,
            }
        }
        if !ok {
            continue;
        }
        t[&f.name] = v;
        parts.units[seg].push(unit);
        c.nontrivial = true;
    }
    Some(())
}

/// lists of points: kind, field, group codes
const POINT_LISTS: &[(&str, &str, &[i32])] = &[
    ("Leader", "vertices", &[10, 20, 30]),
    ("Spline", "control_points", &[10, 20, 30]),
    ("Spline", "fit_points", &[11, 21, 31]),
    ("Image", "clipping_vertices", &[14, 24]),
    ("MLine", "vertices", &[11, 21, 31]),
    ("MLine", "segment_directions", &[12, 22, 32]),
    ("MLine", "miter_directions", &[13, 23, 33]),
    ("DgnUnderlay", "points", &[11, 21]),
    ("DwfUnderlay", "points", &[11, 21]),
    ("PdfUnderlay", "points", &[11, 21]),
    ("Section", "vertices", &[11, 21, 31]),
    ("Section", "back_line_vertices", &[12, 22, 32]),
];

fn compounds(s: &mut Src, name: &str, ver: usize, parts: &mut Parts, spec: &mut Value) {
    let last = parts.units.len() - 1;
    for (k, f, codes) in POINT_LISTS {
        if *k != name || s.flip() || spec.get(*f).is_none() {
            continue;
        }
        let n = s.size(12);
        let mut unit = vec![];
        let mut list = vec![];
        for _ in 0..n {
            let p = gen_point(s, codes.len(), 0.0);
            for (i, c) in codes.iter().enumerate() {
                unit.push(dbl(*c, p[["x", "y", "z"][i]].as_f64().unwrap()));
            }
            list.push(p);
        }
        if list.is_empty() {
            continue;
        }
        spec[*f] = json!(list);
        parts.units[last].push(unit);
    }
    match name {
        "LwPolyline" => {
            let n = s.size(12);
            let mut unit = vec![];
            let mut list = vec![];
            for _ in 0..n {
                let mut v = json!({"x": gen_f64(s), "y": gen_f64(s), "id": 0, "starting_width": 0.0, "ending_width": 0.0, "bulge": 0.0});
                unit.push(dbl(10, v["x"].as_f64().unwrap()));
                unit.push(dbl(20, v["y"].as_f64().unwrap()));
                let mut opt = vec![];
                for (c, k) in [(40, "starting_width"), (41, "ending_width"), (42, "bulge")] {
                    if s.flip() {
                        let x = gen_f64(s);
                        v[k] = json!(x);
                        opt.push(dbl(c, x));
                    }
                }
                if ver >= R2013 && s.flip() {
                    let i = gen_int(s, i32::MIN as i64, i32::MAX as i64);
                    v["id"] = json!(i);
                    opt.push(int(91, i));
                }
                s.shuffle(&mut opt);
                unit.extend(opt);
                list.push(v);
            }
            if s.flip() {
                parts.units[last].push(vec![int(90, n as i64)]);
            }
            spec["vertices"] = json!(list);
            parts.units[last].push(unit);
        }
        "Dictionary" | "DictionaryWithDefault" => {
            let n = s.size(6);
            let mut m = Map::new();
            let mut unit = vec![];
            for i in 0..n {
                let k = format!("{}{}", gen_name(s), i);
                let h = gen_handle(s);
                unit.push(st(3, k.clone()));
                unit.push(st(350, format!("{:X}", h)));
                m.insert(k, json!(h));
            }
            spec["value_handles"] = Value::Object(m);
            if spec.get("value_handles").is_none() {
                return;
            }
            parts.units[last].push(unit);
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ spelling
fn spell_int(s: &mut Src, i: i64) -> String {
    match s.below(6) {
        0 => format!("{:>6}", i),
        1 if i >= 0 => format!("+{}", i),
        2 if i >= 0 => format!("{:04}", i),
        3 => format!("{}  ", i),
        4 => format!("\t{}", i),
        _ => i.to_string(),
    }
}
fn spell_f64(s: &mut Src, d: f64) -> String {
    let t = match s.below(8) {
        0 => format!("{:e}", d),
        1 => format!("{:E}", d),
        2 => {
            // exponent with sign and two digits, as C programs print
            let t = format!("{:E}", d);
            let (m, e) = t.split_once('E').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{}E{}{:02}", m, if e < 0 { '-' } else { '+' }, e.abs())
        }
        3 => {
            let t = d.to_string();
            if t.contains('.') { format!("{}000", t) } else { format!("{}.", t) }
        }
        4 => {
            let t = d.to_string();
            if let Some(r) = t.strip_prefix("0.") { format!(".{}", r) } else { format!("{}.0", t.split('.').next().filter(|_| !t.contains('.')).unwrap_or(&t)).replace(".0", if t.contains('.') { "" } else { ".0" }) }
        }
        5 if d >= 0.0 => format!("+{}", d),
        _ => d.to_string(),
    };
    // only spellings that denote exactly this number
    let t = if t.parse::<f64>() == Ok(d) { t } else { d.to_string() };
    match s.below(5) {
        0 => format!("  {}", t),
        1 => format!("{} ", t),
        _ => t,
    }
}
/// text form with the spelling freedom of the format
pub fn emit_spelled(s: &mut Src, ps: &[Pair], utf8: bool) -> Vec<u8> {
    let crlf = s.flip();
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut o = vec![];
    for p in ps {
        o.extend(match s.below(3) {
            0 => format!("{:>3}", p.c),
            1 => format!("{:>6}", p.c),
            _ => p.c.to_string(),
        }.bytes());
        o.extend(nl.bytes());
        let v = match &p.v {
            Val::I(i) => {
                if code_width(p.c) == 's' && s.chance(1, 6) {
                    // shorts are sometimes written as doubles
                    if s.flip() {
                        format!("{}.0", i)
                    } else {
                        spell_f64(s, *i as f64)
                    }
                } else {
                    spell_int(s, *i)
                }
            }
            Val::D(d) => spell_f64(s, *d),
            _ => text_of(p, utf8),
        };
        o.extend(v.bytes());
        o.extend(nl.bytes());
    }
    o
}

fn wrap(s: &mut Src, ver: usize, section: &str, body: Vec<Pair>) -> Vec<Pair> {
    let mut ps = vec![];
    if ver != R12 || s.flip() {
        ps.extend([st(0, "SECTION"), st(2, "HEADER"), st(9, "$ACADVER"), st(1, ACADVER[ver]), st(0, "ENDSEC")]);
    }
    ps.extend([st(0, "SECTION"), st(2, section)]);
    ps.extend(body);
    ps.extend([st(0, "ENDSEC"), st(0, "EOF")]);
    ps
}
fn encode(s: &mut Src, ps: &[Pair], ver: usize, c: &mut Case) -> Vec<u8> {
    let binary = s.chance(1, 3);
    c.class(if binary { "binary" } else { "text" });
    let b = if binary { emit_binary(ps, ver >= R13) } else { emit_spelled(s, ps, ver >= R2007) };
    c.ident(&b);
    b
}

/// recorded finding: an MTEXT that follows an ATTDEF is taken for the text of the ATTDEF
fn probe(c: &mut Case) {
    let ps = [
        st(0, "SECTION"), st(2, "HEADER"), st(9, "$ACADVER"), st(1, ACADVER[R2000]), st(0, "ENDSEC"),
        st(0, "SECTION"), st(2, "ENTITIES"),
        st(0, "ATTDEF"), st(5, "100"), st(100, "AcDbEntity"), st(100, "AcDbText"), st(100, "AcDbAttributeDefinition"), st(2, "TAG"),
        st(0, "MTEXT"), st(5, "101"), st(100, "AcDbEntity"), st(100, "AcDbMText"), st(1, "text"),
        st(0, "ENDSEC"), st(0, "EOF"),
    ];
    c.desc = "recorded finding, MTEXT after ATTDEF".into();
    match load(&emit_text(&ps, false)) {
        Ok(d) if d.entities().count() == 2 => {}
        Ok(d) => c.fail("finding:ATTDEF,MTEXT", format!("{} entities", d.entities().count())),
        Err(e) => c.fail("finding:ATTDEF,MTEXT", e),
    }
}

fn run(s: &mut Src, idx: u64, c: &mut Case) {
    if idx == 0 {
        return probe(c);
    }
    let ver = gen_version(s);
    let ver = if ver == R11 { R12 } else { ver };
    c.class(format!("version:{}", VERSIONS[ver]));
    let n = (ENTITIES.len() + OBJECTS.len() + TABLES.len() + 18 + crate::special::FOREIGN.len()) as u64;
    let k = (idx % n) as usize;
    let dens = *s.pick(&[1, 4, 8, 10]);
    if k < ENTITIES.len() + OBJECTS.len() {
        let is_e = k < ENTITIES.len();
        let name = if is_e { ENTITIES[k] } else { OBJECTS[k - ENTITIES.len()] };
        items(s, is_e, name, ver, dens, c);
    } else if k < ENTITIES.len() + OBJECTS.len() + TABLES.len() {
        table(s, TABLES[k - ENTITIES.len() - OBJECTS.len()], ver, dens, c);
    } else if k < ENTITIES.len() + OBJECTS.len() + TABLES.len() + 4 {
        blocks(s, ver, c);
    } else if k < ENTITIES.len() + OBJECTS.len() + TABLES.len() + 6 {
        classes(s, ver, c);
    } else if k >= ENTITIES.len() + OBJECTS.len() + TABLES.len() + 18 {
        by_position(s, crate::special::FOREIGN[k - (ENTITIES.len() + OBJECTS.len() + TABLES.len() + 18)], ver, c);
    } else {
        header(s, ver, dens, c);
    }
}

/// objects whose pairs have a meaning by position
fn by_position(s: &mut Src, first: &str, ver: usize, c: &mut Case) {
    let mut body = vec![];
    let mut want = vec![];
    for i in 0..1 + s.below(3) {
        let name = if i == 0 { first } else { *s.pick(crate::special::FOREIGN) };
        let t = &model().objects[name];
        if ver < t.min || ver > t.max || ver < R13 {
            continue;
        }
        let mut v = gen_object(s, name, &ECfg { xdata: false, ext: false, children: false });
        v["common"] = pinned()["common"]["objects"].clone();
        mask_object(&mut v, ver);
        let Some(ps) = crate::special::foreign(s, name, &mut v["specific"][name]) else { continue };
        body.push(st(0, t.types[0].clone()));
        v["common"]["handle"] = json!(0x1000 + i);
        body.push(st(5, format!("{:X}", 0x1000 + i)));
        let Some(mut v) = expect_object(&v, ver) else { return };
        if s.flip() {
            v["common"]["__owner_handle"] = json!(0xABC);
            body.push(st(330, "ABC"));
        }
        body.extend(ps);
        c.class(format!("kind:{}", name));
        want.push(v);
    }
    if want.is_empty() {
        return;
    }
    c.nontrivial = true;
    let ps = wrap(s, ver, "OBJECTS", body);
    let bytes = encode(s, &ps, ver, c);
    c.desc = format!("{} {}", VERSIONS[ver], want.iter().map(kind).collect::<Vec<_>>().join(","));
    let d = match load(&bytes) {
        Ok(d) => d,
        Err(e) => return c.fail("load-error", e),
    };
    let mut got = objects_json(&d);
    got.iter_mut().for_each(scrub_object);
    want.iter_mut().for_each(scrub_object);
    let kinds = |v: &[Value]| v.iter().map(kind).collect::<Vec<_>>().join(",");
    if kinds(&want) != kinds(&got) {
        return c.fail("item-list", format!("the file has [{}], loaded [{}]", kinds(&want), kinds(&got)));
    }
    for (w, g) in want.iter().zip(&got) {
        let mut o = vec![];
        diff("", w, g, true, &mut o);
        for (p, m) in o {
            c.fail(format!("position:{}", field_of(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

fn blocks(s: &mut Src, ver: usize, c: &mut Case) {
    let mut body = vec![];
    let mut want = vec![];
    for i in 0..1 + s.below(3) {
        let v = gen_block(s);
        let mut w = json!({"handle": 0, "__owner_handle": 0, "layer": "0", "name": "", "flags": 0, "base_point": {"x": 0.0, "y": 0.0, "z": 0.0}, "xref_path_name": "", "description": "",
            "is_in_paperspace": false, "entities": [], "extension_data_groups": [], "x_data": []});
        let h = s.range(0x100, 0xffff) as u64 * 16 + i;
        let hs = match s.below(3) {
            0 => format!("{:X}", h),
            1 => format!("{:x}", h),
            _ => format!("{:08X}", h),
        };
        let t = |k: &str| v[k].as_str().unwrap().to_string();
        let mut units: Vec<(&str, Vec<Pair>)> = vec![
            ("name", vec![st(2, t("name"))]),
            ("layer", vec![st(8, t("layer"))]),
            ("flags", vec![int(70, v["flags"].as_i64().unwrap())]),
            ("base_point", vec![dbl(10, v["base_point"]["x"].as_f64().unwrap()), dbl(20, v["base_point"]["y"].as_f64().unwrap()), dbl(30, v["base_point"]["z"].as_f64().unwrap())]),
            ("xref_path_name", vec![st(1, t("xref_path_name"))]),
            ("description", vec![st(4, t("description"))]),
            ("is_in_paperspace", vec![int(67, (v["is_in_paperspace"] == true) as i64)]),
            ("", vec![st(3, t("name"))]),
        ];
        if ver >= R13 {
            units.push(("__owner_handle", vec![st(330, format!("{:X}", v["__owner_handle"].as_u64().unwrap()))]));
        }
        body.push(st(0, "BLOCK"));
        let with_handle = ver >= R13 || s.flip();
        if with_handle {
            body.push(st(5, hs.clone()));
        }
        w["handle"] = json!(if with_handle { h as i64 } else { -1 });
        s.shuffle(&mut units);
        let mut planar = false;
        for (f, mut ps) in units {
            if f == "name" || s.chance(2, 3) {
                if f == "base_point" && s.chance(1, 4) {
                    ps.pop();
                    planar = true;
                }
                body.extend(ps);
                if !f.is_empty() {
                    w[f] = v[f].clone();
                    c.nontrivial = true;
                }
            }
        }
        if planar {
            w["base_point"]["z"] = json!(0.0);
        }
        let n = s.below(3);
        for j in 0..n {
            body.extend([st(0, "POINT"), st(5, format!("{:X}", 0x20_0000 + i * 16 + j)), st(8, "in block"), dbl(10, j as f64), dbl(20, i as f64)]);
        }
        w["entities"] = json!(n);
        body.push(st(0, "ENDBLK"));
        if s.flip() {
            let other = format!("{:X}", 0x30_0000 + i);
            // closing a block says nothing about the block that was not said when it was opened
            if with_handle {
                body.push(st(5, other));
            }
            body.extend([st(330, "77"), st(100, "AcDbEntity"), st(8, "layer of the end"), st(100, "AcDbBlockEnd")]);
        }
        want.push(w);
    }
    let ps = wrap(s, ver, "BLOCKS", body);
    let bytes = encode(s, &ps, ver, c);
    c.class("kind:block");
    c.desc = format!("{} {} blocks {}", VERSIONS[ver], want.len(), short(&want[0]));
    let d = match load(&bytes) {
        Ok(d) => d,
        Err(e) => return c.fail("load-error:Block", e),
    };
    let mut got = blocks_json(&d);
    if got.len() != want.len() {
        return c.fail("Block.count", format!("{} blocks of {}", got.len(), want.len()));
    }
    for (w, g) in want.iter_mut().zip(&mut got) {
        if w["handle"] == json!(-1) {
            w["handle"] = g["handle"].clone();
        }
        let es = g["entities"].as_array().unwrap().clone();
        if es.iter().any(|e| kind(e) != "ModelPoint" || e["common"]["layer"] != "in block") {
            c.fail("Block.entities", "the entities of the block differ");
        }
        g["entities"] = json!(es.len());
        let mut o = vec![];
        diff("", w, g, true, &mut o);
        for (p, m) in o {
            c.fail(format!("Block.{}", root_field(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

fn classes(s: &mut Src, ver: usize, c: &mut Case) {
    let mut body = vec![];
    let mut want = vec![];
    for _ in 0..1 + s.below(4) {
        let v = gen_class(s);
        let mut w = json!({"record_name": "", "class_name": "", "application_name": "", "version_number": 0, "proxy_capability_flags": 0, "instance_count": 0, "was_class_loaded_with_file": true, "is_entity": false});
        let t = |k: &str| v[k].as_str().unwrap().to_string();
        let i = |k: &str| v[k].as_i64().unwrap();
        let mut units = if ver >= R14 {
            vec![("record_name", st(1, t("record_name"))), ("class_name", st(2, t("class_name"))), ("application_name", st(3, t("application_name"))), ("proxy_capability_flags", int(90, i("proxy_capability_flags")))]
        } else {
            vec![("class_name", st(1, t("class_name"))), ("application_name", st(2, t("application_name"))), ("version_number", int(90, i("version_number")))]
        };
        if ver >= R2004 {
            units.push(("instance_count", int(91, i("instance_count"))));
        }
        units.push(("was_class_loaded_with_file", int(280, (v["was_class_loaded_with_file"] == false) as i64)));
        units.push(("is_entity", int(281, (v["is_entity"] == true) as i64)));
        if ver >= R14 {
            body.push(st(0, "CLASS"));
        } else {
            body.push(st(0, t("record_name")));
            w["record_name"] = v["record_name"].clone();
        }
        s.shuffle(&mut units);
        for (f, p) in units {
            if s.chance(3, 4) {
                body.push(p);
                w[f] = v[f].clone();
                c.nontrivial = true;
            }
        }
        want.push(w);
    }
    let ps = wrap(s, ver, "CLASSES", body);
    let bytes = encode(s, &ps, ver, c);
    c.class("kind:class");
    c.desc = format!("{} {} classes {}", VERSIONS[ver], want.len(), short(&want[0]));
    let d = match load(&bytes) {
        Ok(d) => d,
        Err(e) => return c.fail("load-error:Class", e),
    };
    let got: Vec<Value> = d.classes.iter().map(|x| serde_json::to_value(x).unwrap()).collect();
    if got.len() != want.len() {
        return c.fail("Class.count", format!("{} classes of {}", got.len(), want.len()));
    }
    for (w, g) in want.iter().zip(&got) {
        let mut o = vec![];
        diff("", w, g, true, &mut o);
        for (p, m) in o {
            c.fail(format!("Class.{}", root_field(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

fn items(s: &mut Src, is_e: bool, first: &str, ver: usize, dens: u64, c: &mut Case) {
    let group = if is_e { "entities" } else { "objects" };
    let all = if is_e { ENTITIES } else { OBJECTS };
    let n = 1 + s.us(4);
    let mut body = vec![];
    let mut want: Vec<Value> = vec![];
    for i in 0..n {
        let name = if i == 0 { first } else { *s.pick(all) };
        if name == "MText" && want.last().map(kind).as_deref() == Some("AttributeDefinition") {
            continue;
        }
        if is_e && (!standalone(name) || name == "ProxyEntity") {
            continue;
        }
        if !is_e && (BY_POSITION.contains(&name) || ver < R13) {
            continue;
        }
        let t = if is_e { &model().entities[name] } else { &model().objects[name] };
        if ver < t.min || ver > t.max {
            continue;
        }
        let (markers, segs) = if ver < R13 { (vec![], None) } else {
            match layout(group, name, ver) {
                Some((m, f)) => (m, Some(f)),
                None => continue,
            }
        };
        let mut parts = Parts { units: vec![vec![]; markers.len() + 1], markers };
        let mut target = json!({"s": pinned()[group][name], "c": pinned()["common"][group]});
        let mut fields: Vec<(&str, &Field)> = t.fields.iter().map(|f| ("s", f)).collect();
        if is_e && !t.base.is_empty() {
            fields.extend(model().entities["DimensionBase"].fields.iter().map(|f| ("d", f)));
        }
        let com = if is_e { &model().entities["Entity"] } else { &model().objects["Object"] };
        fields.extend(com.fields.iter().map(|f| ("c", f)));
        put_fields(s, &mut parts, &fields, segs.as_ref(), name, ver, &mut target, dens, c);
        if is_e && !t.base.is_empty() {
            let at = if ver < R13 { 0 } else { 2 };
            let num = match name {
                "RotatedDimension" => *s.pick(&[0, 1]),
                "DiameterDimension" => 3,
                "RadialDimension" => 4,
                "AngularThreePointDimension" => 5,
                _ => 6,
            };
            let mut v = num;
            let b = &mut target["s"]["dimension_base"];
            b["dimension_type"] = json!(model().enums["DimensionType"].iter().find(|x| x.1 == num).unwrap().0);
            for (k, bit) in [("is_block_reference_referenced_by_this_block_only", 32), ("is_ordinate_x_type", 64), ("is_at_user_defined_location", 128)] {
                let x = s.flip();
                b[k] = json!(x);
                if x {
                    v |= bit;
                }
            }
            parts.units[at].push(vec![int(70, v)]);
        }
        compounds(s, name, ver, &mut parts, &mut target["s"]);
        // handle first, as every program writes it
        let h = s.range(0x100, 0xffff) as u64 * 16 + i as u64;
        let with_handle = ver >= R13 || s.flip();
        let rec_name = s.pick(&t.types).clone();
        body.push(st(0, rec_name));
        if with_handle {
            let t = match s.below(3) {
                0 => format!("{:X}", h),
                1 => format!("{:x}", h),
                _ => format!("{:08X}", h),
            };
            body.push(st(5, t));
            target["c"]["handle"] = json!(h);
        } else {
            target["c"]["handle"] = json!(-1);
        }
        body.extend(parts.finish(s, true));
        c.class(format!("kind:{}", name));
        want.push(json!({"common": target["c"], "specific": {name: target["s"]}}));
    }
    if want.is_empty() {
        c.nontrivial = false;
        return;
    }
    let ps = wrap(s, ver, if is_e { "ENTITIES" } else { "OBJECTS" }, body);
    let bytes = encode(s, &ps, ver, c);
    c.desc = format!("{} {}", VERSIONS[ver], want.iter().map(kind).collect::<Vec<_>>().join(","));
    let d = match load(&bytes) {
        Ok(d) => d,
        Err(e) => return c.fail("load-error", format!("{} (first pairs {})", e, ps.iter().skip(5).take(12).map(|p| show(Some(p))).collect::<Vec<_>>().join(" "))),
    };
    let mut got = if is_e { entities_json(&d) } else { objects_json(&d) };
    if is_e {
        got.iter_mut().for_each(scrub_entity);
        want.iter_mut().for_each(scrub_entity);
    } else {
        got.iter_mut().for_each(scrub_object);
        want.iter_mut().for_each(scrub_object);
    }
    let kinds = |v: &[Value]| v.iter().map(kind).collect::<Vec<_>>().join(",");
    if kinds(&want) != kinds(&got) {
        return c.fail("item-list", format!("the file has [{}], loaded [{}]", kinds(&want), kinds(&got)));
    }
    for (w, g) in want.iter_mut().zip(&mut got) {
        if w["common"]["handle"] == json!(-1) {
            w["common"]["handle"] = g["common"]["handle"].clone();
        }
        let mut o = vec![];
        diff("", w, g, true, &mut o);
        // the default is the current time
        o.retain(|(p, _)| !p.ends_with("LayerIndex.time_stamp") && !p.ends_with("SpatialIndex.timestamp"));
        for (p, m) in o {
            c.fail(field_of(&p), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

fn table(s: &mut Src, name: &str, ver: usize, dens: u64, c: &mut Case) {
    let t = table_model(name);
    if ver < t.min || ver > t.max {
        return;
    }
    let n = 1 + s.us(4);
    let mut body = vec![st(0, "TABLE"), st(2, t.types[0].clone())];
    if s.flip() {
        body.push(int(70, n as i64));
    }
    let mut want = vec![];
    for i in 0..n {
        let mut target = json!({"s": pinned()["tables"][name]});
        let mut parts = Parts { markers: vec![], units: vec![vec![]] };
        let fields: Vec<(&str, &Field)> = t.fields.iter().filter(|f| f.name != "is_layer_on" && !(name == "Layer" && f.name == "color")).map(|f| ("s", f)).collect();
        put_fields(s, &mut parts, &fields, None, name, ver, &mut target, dens, c);
        let v = &mut target["s"];
        let rn = format!("{}~{}", gen_name(s), i);
        v["name"] = json!(rn);
        parts.units[0].push(vec![st(2, rn)]);
        if name == "Layer" && s.flip() {
            let raw = s.range(1, 255);
            let on = s.flip();
            v["color"] = json!({"raw_value": raw});
            v["is_layer_on"] = json!(on);
            parts.units[0].push(vec![int(62, if on { raw } else { -raw })]);
        }
        let with_handle = ver >= R13 || s.flip();
        let h = s.range(0x100, 0xffff) * 16 + i as i64;
        if with_handle {
            parts.units[0].push(vec![st(if name == "DimStyle" { 105 } else { 5 }, format!("{:X}", h))]);
        }
        if name == "DimStyle" && ver < R13 && s.flip() {
            // the arrow block of old dimension styles
            let block = s.pick(&["", "ARROW", "_DOT", "ABC", "1"]).to_string();
            parts.units[0].push(vec![st(5, block)]);
        }
        v["handle"] = json!(if with_handle { h } else { -1 });
        if s.flip() {
            let o = gen_handle(s);
            parts.units[0].push(vec![st(330, format!("{:X}", o))]);
            v["__owner_handle"] = json!(o);
        }
        body.push(st(0, t.types[0].clone()));
        body.extend(parts.finish(s, true));
        want.push(target["s"].clone());
    }
    body.push(st(0, "ENDTAB"));
    let ps = wrap(s, ver, "TABLES", body);
    let bytes = encode(s, &ps, ver, c);
    c.class(format!("kind:{}", name));
    c.desc = format!("{} {} x{}", VERSIONS[ver], name, n);
    let d = match load(&bytes) {
        Ok(d) => d,
        Err(e) => return c.fail(format!("load-error:{}", name), e),
    };
    let got = records(&d, name);
    for w in &mut want {
        let hits: Vec<&Value> = got.iter().filter(|g| g["name"] == w["name"]).collect();
        if hits.len() != 1 {
            c.fail(format!("{}.count", name), format!("{} records named {}", hits.len(), w["name"]));
            continue;
        }
        if w["handle"] == json!(-1) {
            w["handle"] = hits[0]["handle"].clone();
        }
        let mut o = vec![];
        diff("", w, hits[0], true, &mut o);
        for (p, m) in o {
            c.fail(format!("{}.{}", name, root_field(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
        }
    }
}

fn header(s: &mut Src, ver: usize, dens: u64, c: &mut Case) {
    let mut want = pinned()["header"].clone();
    want["version"] = json!(VERSIONS[ver]);
    let mut vars: Vec<Vec<Pair>> = vec![];
    for f in &model().header {
        if ver < f.min || ver > f.max || f.name == "version" || f.suppress || !s.chance(dens.min(6), 10) {
            continue;
        }
        // two variables for one field: only one is present
        if vars.iter().any(|v| v[0].s() == f.var) || model().header.iter().any(|g| g.var != f.var && g.name == f.name) {
            continue;
        }
        if f.name == "next_available_handle" {
            continue;
        }
        let mut unit = vec![st(9, f.var.clone())];
        if s.chance(1, 8) {
            if let Some((n, def)) = out_of_range(s, f) {
                unit.push(int(f.codes[0], n));
                want[&f.name] = json!(def);
                vars.push(unit);
                c.class("enumeration out of range");
                continue;
            }
        }
        let Some(v) = gen_header_value(s, f, &want[&f.name].clone()) else { continue };
        let Some(p) = header_pairs(f, &v) else { continue };
        if f.var == "$XCLIPFRAME" && ver < R2010 {
            continue;
        }
        unit.extend(p);
        want[&f.name] = v;
        vars.push(unit);
        c.nontrivial = true;
    }
    s.shuffle(&mut vars);
    vars.insert(0, vec![st(9, "$ACADVER"), st(1, ACADVER[ver])]);
    let mut ps = vec![st(0, "SECTION"), st(2, "HEADER")];
    ps.extend(vars.into_iter().flatten());
    ps.extend([st(0, "ENDSEC"), st(0, "EOF")]);
    let bytes = encode(s, &ps, ver, c);
    c.class("kind:header");
    c.desc = format!("{} header, {} pairs", VERSIONS[ver], ps.len());
    let d = match load(&bytes) {
        Ok(d) => d,
        Err(e) => return c.fail("load-error:header", e),
    };
    let mut got = serde_json::to_value(&d.header).unwrap();
    for v in [&mut want, &mut got] {
        v["next_available_handle"] = json!(0);
    }
    // defaults that depend on the clock
    for k in ["creation_date", "creation_date_universal", "update_date", "update_date_universal", "fingerprint_guid", "version_guid"] {
        if !ps.iter().any(|p| p.c == 9 && model().header.iter().any(|f| f.name == k && f.var == p.s())) {
            want[k] = got[k].clone();
        }
    }
    let mut o = vec![];
    diff("", &want, &got, true, &mut o);
    for (p, m) in o {
        c.fail(format!("header.{}", root_field(&p)), format!("{} at {}: {}", p, VERSIONS[ver], m));
    }
}

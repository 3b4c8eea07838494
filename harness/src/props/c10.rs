//! C10: saved files put every value at its standard place
use crate::defaults::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c03::standalone;
use crate::props::c06::{gen_header, gen_header_value};
use crate::props::c07::{gen_block, gen_class, to_block};
use crate::reflect::*;
use crate::tables::*;
use crate::wire::*;
use crate::wireval::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a case saves one generated entity, object or table record (kind round-robin), block, class or header as text or binary at a generated version, splits the file into records with an independent reader, and compares the record with the reference table: record name, every non-default field's group code and encoded value, and no group code that the version does not define for the kind; non-trivial: at least one field was checked on the wire; distinct by content hash",
        quick: 60_000,
        thorough: 400_000,
        run,
        assumptions: &["reference table model/model.json (record names, group codes, enumeration numbers, version windows) is the standard"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

pub fn lex(b: &[u8], binary: bool, ver: usize) -> Result<Vec<Pair>, String> {
    if binary {
        lex_binary(b, ver >= R13)
    } else {
        lex_text(b, ver >= R2007)
    }
}

/// the recorded findings: a value that is written at another place, or not at all
fn findings() -> Vec<(usize, &'static str, &'static str, Value)> {
    let pts = json!([{"x": 1.0, "y": 2.0, "z": 0.0}]);
    vec![
        (R2007, "DgnUnderlay", "points", pts.clone()),
        (R2007, "DwfUnderlay", "points", pts.clone()),
        (R2007, "PdfUnderlay", "points", pts),
        (R2007, "Field", "__objects_handle", json!([0x77])),
        (R2018, "Material", "map_v_tile", json!(5)),
        (R2018, "Material", "specular_gloss_factor", json!(3.0)),
    ]
}

fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    if let Some((ver, name, field, v)) = findings().into_iter().nth(idx as usize) {
        if ENTITIES.contains(&name) {
            let mut spec = default_entity(name);
            spec[field] = v;
            entity(name, &json!({"common": default_entity_common(), "specific": {name: spec}}), ver, binary, c);
        } else {
            let mut spec = default_object(name);
            spec[field] = v;
            object(name, &json!({"common": default_object_common(), "specific": {name: spec}}), ver, binary, c);
        }
        for f in &mut c.fails {
            f.sig = format!("finding {}@{}:{}", field, VERSIONS[ver], f.sig);
        }
        return;
    }
    c.class(format!("version:{}", VERSIONS[ver]));
    let n = (ENTITIES.len() + OBJECTS.len() + TABLES.len() + 18 + crate::special::KINDS.len()) as u64;
    let k = (idx % n) as usize;
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    if k < ENTITIES.len() {
        let name = ENTITIES[k];
        if !standalone(name) {
            return;
        }
        let (mut v, mut kids) = gen_entity(
            s,
            name,
            &ECfg {
                xdata: false,
                ext: false,
                children: false,
            },
        );
        mask_entity(&mut v, &mut kids, ver);
        entity(name, &v, ver, binary, c);
    } else if k < ENTITIES.len() + OBJECTS.len() {
        let name = OBJECTS[k - ENTITIES.len()];
        let mut v = gen_object(
            s,
            name,
            &ECfg {
                xdata: false,
                ext: false,
                children: false,
            },
        );
        mask_object(&mut v, ver);
        object(name, &v, ver, binary, c);
    } else if k < ENTITIES.len() + OBJECTS.len() + TABLES.len() {
        let name = TABLES[k - ENTITIES.len() - OBJECTS.len()];
        let mut v = gen_record(s, name, ver);
        v["name"] = json!("THE RECORD");
        add_record(&mut d, name, &v);
        c.desc = format!("{} {} {} {}", VERSIONS[ver], binary, name, short(&v));
        let Some(ps) = written(&d, binary, ver, c) else { return };
        let t = table_model(name);
        let recs: Vec<Rec> = section(&ps, "TABLES").into_iter().filter(|r| own(r).iter().any(|p| p.is(2, "THE RECORD"))).collect();
        if ver < t.min || ver > t.max {
            if !recs.is_empty() {
                c.fail(format!("unsupported:{}", name), format!("{} is written at {}", name, VERSIONS[ver]));
            }
            return;
        }
        let Some(r) = recs.first() else { return c.fail(format!("missing:{}", name), "no record written") };
        check_name(name, t, r, c);
        let def = default_table(name);
        let mut fields: Vec<(&Field, Value, Value)> = vec![];
        add(&mut fields, &t.fields, &v, &def);
        let mut color = None;
        if name == "Layer" {
            let raw = v["color"]["raw_value"].as_i64().unwrap();
            color = Some(int(62, if v["is_layer_on"] == true { raw } else { -raw }));
            fields.retain(|f| f.0.name != "color");
        }
        let fields = fields.into_iter().filter(|(f, _, _)| !skip(name, f, ver) && cond_met(f, &v)).collect();
        check(name, r, fields, ver, c, extra(name));
        if let Some(p) = color {
            if !r.pairs.contains(&p) {
                c.fail("Layer.color", format!("expected {}", show(Some(&p))));
            }
        }
    } else if k < ENTITIES.len() + OBJECTS.len() + TABLES.len() + 4 {
        block(s, ver, binary, c);
    } else if k < ENTITIES.len() + OBJECTS.len() + TABLES.len() + 6 {
        class(s, ver, binary, c);
    } else if k >= ENTITIES.len() + OBJECTS.len() + TABLES.len() + 18 {
        let name = crate::special::KINDS[k - (ENTITIES.len() + OBJECTS.len() + TABLES.len() + 18)];
        let mut v = gen_object(s, name, &ECfg { xdata: false, ext: false, children: false });
        mask_object(&mut v, ver);
        object(name, &v, ver, binary, c);
    } else {
        let dens = *s.pick(&[1, 5, 10]);
        let mut v = gen_header(s, dens);
        let f = &model().header[s.us(model().header.len())];
        if let Some(x) = gen_header_value(s, f, &v[&f.name].clone()) {
            v[&f.name] = x;
        }
        v["version"] = json!(VERSIONS[ver]);
        v["next_available_handle"] = json!(d.header.next_available_handle);
        d.header = serde_json::from_value(v.clone()).unwrap();
        c.desc = format!("header {} {}", VERSIONS[ver], binary);
        let Some(ps) = written(&d, binary, ver, c) else { return };
        let recs = section(&ps, "HEADER");
        header(&v, &recs.first().map(|r| r.pairs.clone()).unwrap_or_default(), ver, c);
    }
}

fn entity(name: &str, v: &Value, ver: usize, binary: bool, c: &mut Case) {
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    let e = build_entity(&mut d, v, &[]);
    d.add_entity(e);
    c.desc = format!("{} {} {}", VERSIONS[ver], binary, short(&v["specific"]));
    let Some(ps) = written(&d, binary, ver, c) else { return };
    let recs = section(&ps, "ENTITIES");
    let t = &model().entities[name];
    if ver < t.min || ver > t.max {
        if !recs.is_empty() {
            c.fail(format!("unsupported:{}", name), format!("{} is written at {}", name, VERSIONS[ver]));
        }
        return;
    }
    let Some(r) = recs.first() else { return c.fail(format!("missing:{}", name), "no record written") };
    check_name(name, t, r, c);
    let mut fields: Vec<(&Field, Value, Value)> = vec![];
    let def = default_entity(name);
    add(&mut fields, &t.fields, &v["specific"][name], &def);
    if !t.base.is_empty() {
        add(&mut fields, &model().entities["DimensionBase"].fields, &v["specific"][name]["dimension_base"], &def["dimension_base"]);
    }
    add(&mut fields, &model().entities["Entity"].fields, &v["common"], &default_entity_common());
    let fields = fields.into_iter().filter(|(f, _, _)| !skip(name, f, ver)).collect();
    check(name, r, fields, ver, c, extra(name));
    dimension_flags(name, v, r, c);
}
fn object(name: &str, v: &Value, ver: usize, binary: bool, c: &mut Case) {
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    d.add_object(to_object(v));
    c.desc = format!("{} {} {}", VERSIONS[ver], binary, short(&v["specific"]));
    let Some(ps) = written(&d, binary, ver, c) else { return };
    let recs = section(&ps, "OBJECTS");
    let t = &model().objects[name];
    if ver < t.min || ver > t.max || ver < R13 {
        if recs.len() > base_objects(ver) {
            c.fail(format!("unsupported:{}", name), format!("{} is written at {}", name, VERSIONS[ver]));
        }
        return;
    }
    let Some(r) = recs.last() else { return c.fail(format!("missing:{}", name), "no record written") };
    check_name(name, t, r, c);
    let mut fields: Vec<(&Field, Value, Value)> = vec![];
    add(&mut fields, &t.fields, &v["specific"][name], &default_object(name));
    add(&mut fields, &model().objects["Object"].fields, &v["common"], &default_object_common());
    let fields = fields.into_iter().filter(|(f, _, _)| !skip(name, f, ver)).collect();
    check(name, r, fields, ver, c, extra(name));
    if let Some(mut w) = crate::special::pairs(name, &v["specific"][name]) {
        if name == "TableStyle" && ver < R2010 {
            w.remove(1); // the version
        }
        let ps = own(r);
        let at = ps.iter().position(|p| p.c == 100).unwrap_or(ps.len());
        let ps = &ps[at..];
        if let Some(k) = (0..w.len().max(ps.len())).find(|k| match (w.get(*k), ps.get(*k)) {
            (Some(a), Some(b)) => a.c != b.c || !same(&a.v, &b.v),
            _ => true,
        }) {
            c.fail(format!("sequence:{}", name), format!("pair {} of the subclass at {}: expected {}, written {}", k, VERSIONS[ver], show(w.get(k)), show(ps.get(k))));
        }
        c.class("by position");
    }
}

/// the pairs of a record, in any order
fn exactly(what: &str, ps: Vec<Pair>, want: Vec<Pair>, ver: usize, c: &mut Case) {
    let mut left = ps;
    for w in &want {
        match left.iter().position(|p| p.c == w.c && same(&p.v, &w.v)) {
            Some(i) => {
                left.remove(i);
            }
            None => {
                let have: Vec<String> = left.iter().filter(|p| p.c == w.c).map(|p| show(Some(p))).collect();
                c.fail(format!("{}.{}", what, w.c), format!("{} at {}: expected {}, the record has {:?}", what, VERSIONS[ver], show(Some(w)), have));
            }
        }
    }
    // a value without contents says the same as none
    left.retain(|p| !(p.c == 4 && p.s().is_empty()));
    if let Some(p) = left.first() {
        c.fail(format!("stray:{}.{}", what, p.c), format!("{} at {}: {}", what, VERSIONS[ver], show(Some(p))));
    }
    c.nontrivial = true;
}
fn block(s: &mut Src, ver: usize, binary: bool, c: &mut Case) {
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    d.header.handles_enabled = s.flip();
    let mut v = gen_block(s);
    v["name"] = json!("THE BLOCK");
    let with = s.flip();
    let b = to_block(&mut d, &v, &[]);
    let mut b = b;
    if with {
        b.entities.push(dxf::entities::Entity::new(dxf::entities::EntityType::Line(Default::default())));
    }
    let h = serde_json::to_value(d.add_block(b)).unwrap()["handle"].as_u64().unwrap();
    c.desc = format!("{} {} block {}", VERSIONS[ver], binary, short(&v));
    let Some(ps) = written(&d, binary, ver, c) else { return };
    let recs = section(&ps, "BLOCKS");
    let Some(at) = recs.iter().position(|r| r.kind == "BLOCK" && own(r).iter().any(|p| p.is(2, "THE BLOCK"))) else { return c.fail("missing:Block", "no record written") };
    let Some(end) = recs[at..].iter().find(|r| r.kind == "ENDBLK") else { return c.fail("missing:EndBlk", "no record written") };
    let mut want = vec![];
    let mut wend = vec![];
    let o = v["__owner_handle"].as_u64().unwrap();
    if ver >= R13 {
        want.push(st(5, format!("{:X}", h)));
        want.push(st(100, "AcDbEntity"));
        want.push(st(100, "AcDbBlockBegin"));
        wend.push(st(100, "AcDbEntity"));
        wend.push(st(100, "AcDbBlockEnd"));
        if o != 0 {
            want.push(st(330, format!("{:X}", o)));
        }
    }
    if ver >= R13 || d.header.handles_enabled {
        wend.push(st(5, format!("{:X}", h)));
    }
    if ver >= R2000 && o != 0 {
        wend.push(st(330, format!("{:X}", o)));
    }
    let layer = v["layer"].as_str().unwrap();
    for w in [&mut want, &mut wend] {
        if v["is_in_paperspace"] == true {
            w.push(int(67, 1));
        }
        w.push(st(8, layer));
    }
    want.push(st(2, "THE BLOCK"));
    if ver >= R12 {
        want.push(st(3, "THE BLOCK"));
    }
    want.push(int(70, v["flags"].as_i64().unwrap()));
    for (k, x) in [(10, "x"), (20, "y"), (30, "z")] {
        want.push(dbl(k, v["base_point"][x].as_f64().unwrap()));
    }
    want.push(st(1, v["xref_path_name"].as_str().unwrap()));
    if v["description"] != "" {
        want.push(st(4, v["description"].as_str().unwrap()));
    }
    exactly("Block", own(&recs[at]), want, ver, c);
    exactly("EndBlk", own(end), wend, ver, c);
}
fn class(s: &mut Src, ver: usize, binary: bool, c: &mut Case) {
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    let v = gen_class(s);
    d.classes.push(serde_json::from_value(v.clone()).unwrap());
    c.desc = format!("{} {} class {}", VERSIONS[ver], binary, short(&v));
    let Some(ps) = written(&d, binary, ver, c) else { return };
    let recs = section(&ps, "CLASSES");
    let Some(r) = recs.first() else { return c.fail("missing:Class", "no record written") };
    let t = |k: &str| v[k].as_str().unwrap().to_string();
    let i = |k: &str| v[k].as_i64().unwrap();
    let mut want = if ver >= R14 {
        let mut w = vec![st(1, t("record_name")), st(2, t("class_name")), st(3, t("application_name")), int(90, i("proxy_capability_flags"))];
        if ver >= R2004 {
            w.push(int(91, i("instance_count")));
        }
        w
    } else {
        vec![st(1, t("class_name")), st(2, t("application_name")), int(90, i("version_number"))]
    };
    want.push(int(280, (v["was_class_loaded_with_file"] == false) as i64));
    want.push(int(281, (v["is_entity"] == true) as i64));
    let name = if ver >= R14 { "CLASS".to_string() } else { t("record_name") };
    if r.kind != name {
        c.fail("record-name:Class", format!("{:?}, expected {:?}", r.kind, name));
    }
    exactly("Class", r.pairs.clone(), want, ver, c);
}

fn base_objects(ver: usize) -> usize {
    let mut d = Drawing::new();
    d.header.version = acad(ver);
    d.objects().count()
}

fn written(d: &Drawing, binary: bool, ver: usize, c: &mut Case) -> Option<Vec<Pair>> {
    let b = match save(d, binary) {
        Ok(b) => b,
        Err(e) => {
            c.fail("save-error", e);
            return None;
        }
    };
    c.ident(&b);
    match lex(&b, binary, ver) {
        Ok(p) => Some(p),
        Err(e) => {
            c.fail("malformed", e);
            None
        }
    }
}

fn add<'a>(out: &mut Vec<(&'a Field, Value, Value)>, fs: &'a [Field], v: &Value, def: &Value) {
    for f in fs {
        if let Some(x) = v.get(&f.name) {
            out.push((f, x.clone(), def[&f.name].clone()));
        }
    }
}

fn check_name(name: &str, t: &TypeM, r: &Rec, c: &mut Case) {
    if !t.types.contains(&r.kind) || (t.types.len() > 1 && r.kind != t.types[0]) {
        c.fail(format!("record-name:{}", name), format!("{} is written as {:?}, expected {:?}", name, r.kind, t.types));
    }
}

/// fields whose wire form is not a plain pair
fn skip(name: &str, f: &Field, _ver: usize) -> bool {
    match (name, f.name.as_str()) {
        // combined into one pair, checked by `dimension_flags`
        (_, "dimension_type" | "is_at_user_defined_location" | "is_block_reference_referenced_by_this_block_only" | "is_ordinate_x_type") => true,
        // written from the length of the list
        ("Image" | "Wipeout", "clipping_vertex_count") | ("Leader", "vertex_count") => true,
        // part of the colour
        ("Layer", "is_layer_on") => true,
        // the per-type values of section settings, see C04
        ("SectionSettings", "is_generation_option" | "destination_file_name" | "__source_objects_handle" | "__destination_object_handle") => true,
        _ => false,
    }
}
pub fn plain_field(name: &str, f: &Field) -> bool {
    !skip(name, f, 0)
}
/// group codes of a kind that the reference table does not give as fields
pub fn extra(name: &str) -> &'static [i32] {
    match name {
        "Layer" => &[2, 70, 62],
        "LineType" => &[2, 70, 73, 49, 74],
        "DimStyle" => &[2, 70, 105],
        "AppId" | "BlockRecord" | "Style" | "Ucs" | "View" | "ViewPort" => &[2, 70],
        "AcadProxyObject" => &[94],
        "DataTable" => &[10, 20, 30, 11, 21, 31, 3, 331, 40, 71, 92, 93, 90, 91, 340, 360, 350, 330, 2],
        "Dictionary" | "DictionaryWithDefault" => &[3, 350, 360],
        "LightList" | "OleFrame" | "Ole2Frame" => &[1],
        "LwPolyline" => &[10, 20, 38, 40, 41, 42, 90, 91],
        "RotatedDimension" | "RadialDimension" | "DiameterDimension" | "AngularThreePointDimension" | "OrdinateDimension" => &[70],
        "SectionSettings" => &[1, 2, 3, 370, 40, 41, 42, 43, 6, 63, 70, 71, 72, 8, 90, 91, 92, 93, 330, 331],
        "SpatialFilter" => &[10, 20, 30, 70],
        "SunStudy" => &[73, 91],
        "TableStyle" => &[140, 170, 274, 275, 276, 277, 278, 279, 283, 284, 285, 286, 287, 288, 289, 62, 63, 64, 65, 66, 67, 68, 69, 7, 90, 91],
        "VbaProject" => &[90],
        "Wipeout" | "Image" => &[24, 14, 91],
        "Leader" => &[76],
        "MText" => &[76],
        _ => &[],
    }
}
fn dimension_flags(name: &str, v: &Value, r: &Rec, c: &mut Case) {
    let b = &v["specific"][name]["dimension_base"];
    if b.is_null() {
        return;
    }
    let t = b["dimension_type"].as_str().unwrap_or("");
    let mut want = model().enums["DimensionType"].iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(0);
    for (k, bit) in [
        ("is_block_reference_referenced_by_this_block_only", 32),
        ("is_ordinate_x_type", 64),
        ("is_at_user_defined_location", 128),
    ] {
        if b[k] == true {
            want |= bit;
        }
    }
    let have: Vec<String> = own(r).iter().filter(|p| p.c == 70).map(|p| show(Some(p))).collect();
    if !own(r).iter().any(|p| *p == int(70, want)) {
        c.fail(format!("{}.dimension_type", name), format!("expected 70/{}, the record has {:?}", want, have));
    }
}

fn check(name: &str, r: &Rec, fields: Vec<(&Field, Value, Value)>, ver: usize, c: &mut Case, extra: &[i32]) {
    let ps = own(r);
    let hc = if name == "DimStyle" { 105 } else { 5 };
    if ver >= R13 && !matches!(ps.first(), Some(p) if p.c == hc && !p.s().is_empty() && p.s().chars().all(|x| x.is_ascii_digit() || ('A'..='F').contains(&x))) {
        c.fail(format!("handle:{}", name), format!("the first pair of {} is {}, expected the handle with code {}", name, show(ps.first()), hc));
    }
    let mut allowed: Vec<i32> = vec![5, 100, 330];
    allowed.extend(extra);
    for (f, v, def) in &fields {
        if ver < f.min || ver > f.max {
            continue;
        }
        allowed.extend(&f.codes);
        if v == def || f.name == "handle" {
            continue;
        }
        let vals: Vec<&Value> = if f.multi { v.as_array().map(|a| a.iter().collect()).unwrap_or_default() } else { vec![v] };
        // the values appear in order under their codes
        let mut at: std::collections::BTreeMap<i32, usize> = Default::default();
        for x in vals {
            let Some(want) = pairs_of(f, x) else { break };
            c.nontrivial = true;
            for w in want {
                let from = at.get(&w.c).copied().unwrap_or(0);
                match ps.iter().enumerate().skip(from).find(|(_, p)| p.c == w.c && same(&p.v, &w.v)) {
                    Some((i, _)) => {
                        at.insert(w.c, i + if f.multi { 1 } else { 0 });
                    }
                    None => {
                        let have: Vec<String> = ps.iter().filter(|p| p.c == w.c).map(|p| show(Some(p))).collect();
                        c.fail(
                            format!("{}.{}", name, f.name),
                            format!("{} at {}: expected {}, the record has {:?}", f.name, VERSIONS[ver], show(Some(&w)), have),
                        );
                    }
                }
            }
        }
    }
    for p in &ps {
        if !allowed.contains(&p.c) && name != "XRecordObject" {
            c.fail(format!("stray:{}.{}", name, p.c), format!("{} at {}: {}", name, VERSIONS[ver], show(Some(p))));
        }
    }
}

fn header(v: &Value, ps: &[Pair], ver: usize, c: &mut Case) {
    // split into variables
    let mut vars: Vec<(String, Vec<Pair>)> = vec![];
    for p in ps {
        if p.c == 9 {
            vars.push((p.s().to_string(), vec![]));
        } else if let Some(l) = vars.last_mut() {
            l.1.push(p.clone());
        }
    }
    match vars.iter().find(|x| x.0 == "$ACADVER") {
        Some((_, p)) if p.len() == 1 && p[0].is(1, ACADVER[ver]) => {}
        x => c.fail("header.$ACADVER", format!("{:?} at {}", x, VERSIONS[ver])),
    }
    for f in &model().header {
        let defined = ver >= f.min && ver <= f.max;
        let got: Vec<&(String, Vec<Pair>)> = vars.iter().filter(|x| x.0 == f.var).collect();
        let any_defined = model().header.iter().any(|g| g.var == f.var && ver >= g.min && ver <= g.max);
        if !any_defined {
            if !got.is_empty() {
                c.fail(format!("header-stray.{}", f.var), format!("{} is written at {}", f.var, VERSIONS[ver]));
            }
            continue;
        }
        if !defined || f.suppress || f.name == "version" || f.name == "next_available_handle" {
            continue;
        }
        if got.is_empty() {
            if !f.nodef {
                c.fail(format!("header.{}", f.var), format!("{} is not written at {}", f.var, VERSIONS[ver]));
            }
            continue;
        }
        if got.len() > 1 {
            c.fail(format!("header.{}", f.var), format!("{} is written {} times", f.var, got.len()));
        }
        let Some(mut want) = header_pairs(f, &v[&f.name]) else { continue };
        if f.var == "$XCLIPFRAME" && ver < R2010 {
            // a boolean up to R2007
            want = vec![int(290, (v[&f.name] != "NotDisplayedNotPlotted") as i64)];
        }
        c.nontrivial = true;
        let ok = got[0].1.len() == want.len() && got[0].1.iter().zip(&want).all(|(a, b)| a.c == b.c && same(&a.v, &b.v));
        if !ok {
            c.fail(format!("header.{}", f.var), format!("{} at {}: expected {:?}, written {:?}", f.var, VERSIONS[ver], want, got[0].1));
        }
    }
    for (n, _) in &vars {
        if !model().header.iter().any(|f| f.var == *n) {
            c.fail(format!("header-unknown.{}", n), format!("{} is written", n));
        }
    }
}

pub fn header_pairs(f: &Field, v: &Value) -> Option<Vec<Pair>> {
    match f.ty.as_str() {
        "DateTime<Local>" | "DateTime<Utc>" => {
            let t = chrono::DateTime::parse_from_rfc3339(v.as_str()?).ok()?.timestamp();
            // Julian day number
            Some(vec![dbl(f.codes[0], t as f64 / 86400.0 + 2440587.5 + 0.5)])
        }
        "Duration" => Some(vec![dbl(f.codes[0], v["secs"].as_f64()?)]),
        "Uuid" => Some(vec![st(f.codes[0], v.as_str()?)]),
        _ => pairs_of(f, v),
    }
}

use crate::defaults::*;
use crate::model::*;
use crate::reflect::*;
use dxf::entities::Entity;
use dxf::objects::Object;
use dxf::Drawing;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn nondefault(f: &Field, def: &Value) -> Option<Value> {
    let sc = |k: usize| -> Option<Value> {
        Some(match f.ty.as_str() {
            "f64" => json!(3.25 + k as f64),
            "bool" => json!(!(def.as_bool().unwrap_or(false))),
            "String" => json!(format!("TXT{}", k)),
            "i16" | "i32" | "i64" | "u32" => json!(5 + k),
            "Handle" => json!(0x77 + k),
            "Color" | "LineWeight" => json!({"raw_value": 3 + k}),
            "ViewMode" => json!({"flags": 3}),
            "Vec<u8>" => json!([1, 2, k]),
            "Point" | "Vector" => json!({"x": 7.5 + k as f64, "y": 8.5, "z": if f.codes.len() == 2 {def["z"].as_f64().unwrap_or(0.0)} else {9.5}}),
            "char" => json!("%"),
            t if is_enum(t) => {
                let e = &model().enums[t];
                let v = e.iter().rev().find(|x| json!(x.0) != *def)?;
                json!(v.0)
            }
            _ => return None,
        })
    };
    if f.multi {
        Some(json!([sc(0)?, sc(1)?]))
    } else {
        sc(0)
    }
}

pub fn trip(d: &Drawing) -> Result<Drawing, String> {
    let mut buf = vec![];
    d.save(&mut buf).map_err(|e| format!("save {:?}", e))?;
    Drawing::load(&mut std::io::Cursor::new(&buf)).map_err(|e| format!("load {:?}", e))
}

pub fn ver(v: usize) -> dxf::enums::AcadVersion {
    serde_json::from_value(json!(VERSIONS[v])).unwrap()
}

fn runs(vs: &[usize]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < vs.len() {
        let mut j = i;
        while j + 1 < vs.len() && vs[j + 1] == vs[j] + 1 {
            j += 1;
        }
        o += &format!("{}..{} ", VERSIONS[vs[i]], VERSIONS[vs[j]]);
        i = j + 1;
    }
    o
}

pub fn main() {
    crate::engine::install_hook();
    for name in ENTITIES {
        let t = &model().entities[*name];
        let base = &model().entities["DimensionBase"];
        let common = &model().entities["Entity"];
        let mut rep: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut all: Vec<(&str, &Field)> = t.fields.iter().map(|f| ("s", f)).collect();
        if !t.base.is_empty() {
            all.extend(base.fields.iter().map(|f| ("d", f)));
        }
        if *name == "Line" || *name == "RotatedDimension" || *name == "LwPolyline" || *name=="Text" || *name=="MText" || *name=="Attribute" {
            all.extend(common.fields.iter().map(|f| ("c", f)));
        }
        for v in R9..=R2018 {
            if v < t.min || v > t.max {
                continue;
            }
            for (wh, f) in std::iter::once(None).chain(all.iter().map(Some)).map(|x| match x {
                None => ("", None),
                Some((w, f)) => (*w, Some(*f)),
            }) {
                let mut spec = default_entity(name);
                let mut com = default_entity_common();
                if let Some(f) = f {
                    let tgt = match wh {
                        "s" => &mut spec,
                        "d" => &mut spec["dimension_base"],
                        _ => &mut com,
                    };
                    match nondefault(f, &tgt[&f.name]) {
                        Some(x) => tgt[&f.name] = x,
                        None => {
                            rep.entry(format!("{}:{} SKIP({})", wh, f.name, f.ty)).or_default().push(v);
                            continue;
                        }
                    }
                }
                let e: Entity = serde_json::from_value(json!({"common": com, "specific": {*name: spec}})).unwrap();
                let r = crate::engine::guard(|| {
                    let mut d = Drawing::new();
                    d.header.version = ver(v);
                    d.add_entity(e);
                    let before = serde_json::to_value(d.entities().next().unwrap()).unwrap();
                    let d2 = trip(&d)?;
                    let n = d2.entities().count();
                    if n != 1 {
                        return Err(format!("{} entities", n));
                    }
                    let after = serde_json::to_value(d2.entities().next().unwrap()).unwrap();
                    let mut o = vec![];
                    diff("", &before, &after, false, &mut o);
                    Ok::<_, String>(o)
                });
                let fname = f.map(|f| f.name.clone()).unwrap_or("DEFAULT".into());
                match r {
                    Err(p) => rep.entry(format!("{} PANIC {}", fname, p)).or_default().push(v),
                    Ok(Err(p)) => rep.entry(format!("{} ERR {}", fname, p)).or_default().push(v),
                    Ok(Ok(o)) => {
                        for (p, m) in o {
                            if let Some(f) = f {
                                if (v < f.min || v > f.max) && p.contains(&f.name) {
                                    continue;
                                }
                            }
                            rep.entry(format!("{}:{}[{:?}] => {} {}", wh, fname, f.map(|f| f.codes.clone()).unwrap_or_default(), p, m)).or_default().push(v);
                        }
                    }
                }
            }
        }
        println!("== {}", name);
        for (k, v) in rep {
            println!("   {}   @ {}", k, runs(&v));
        }
    }
    for name in OBJECTS {
        let t = &model().objects[*name];
        let common = &model().objects["Object"];
        let mut rep: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut all: Vec<(&str, &Field)> = t.fields.iter().map(|f| ("s", f)).collect();
        if *name == "PlaceHolder" || *name == "Dictionary" {
            all.extend(common.fields.iter().map(|f| ("c", f)));
        }
        for v in R13..=R2018 {
            if v < t.min || v > t.max {
                continue;
            }
            for (wh, f) in std::iter::once(None).chain(all.iter().map(Some)).map(|x| match x {
                None => ("", None),
                Some((w, f)) => (*w, Some(*f)),
            }) {
                let mut spec = default_object(name);
                let mut com = default_object_common();
                if let Some(f) = f {
                    let tgt = if wh == "s" { &mut spec } else { &mut com };
                    match nondefault(f, &tgt[&f.name]) {
                        Some(x) => tgt[&f.name] = x,
                        None => {
                            rep.entry(format!("{}:{} SKIP({})", wh, f.name, f.ty)).or_default().push(v);
                            continue;
                        }
                    }
                }
                let e: Object = serde_json::from_value(json!({"common": com, "specific": {*name: spec}})).unwrap();
                let r = crate::engine::guard(|| {
                    let mut d = Drawing::new();
                    d.header.version = ver(v);
                    d.add_object(e);
                    let before = serde_json::to_value(d.objects().next().unwrap()).unwrap();
                    let d2 = trip(&d)?;
                    let n = d2.objects().count();
                    if n != 1 {
                        return Err(format!("{} objects", n));
                    }
                    let after = serde_json::to_value(d2.objects().next().unwrap()).unwrap();
                    let mut o = vec![];
                    diff("", &before, &after, false, &mut o);
                    Ok::<_, String>(o)
                });
                let fname = f.map(|f| f.name.clone()).unwrap_or("DEFAULT".into());
                match r {
                    Err(p) => rep.entry(format!("{} PANIC {}", fname, p)).or_default().push(v),
                    Ok(Err(p)) => rep.entry(format!("{} ERR {}", fname, p)).or_default().push(v),
                    Ok(Ok(o)) => {
                        for (p, m) in o {
                            if let Some(f) = f {
                                if (v < f.min || v > f.max) && p.contains(&f.name) {
                                    continue;
                                }
                            }
                            rep.entry(format!("{}:{}[{:?}] => {} {}", wh, fname, f.map(|f| f.codes.clone()).unwrap_or_default(), p, m)).or_default().push(v);
                        }
                    }
                }
            }
        }
        println!("== {}", name);
        for (k, v) in rep {
            println!("   {}   @ {}", k, runs(&v));
        }
    }
}

/// The subclass structure of each kind's record: run once on the pinned tree to
/// produce model/segments.json (committed), never by a check.
pub fn segments() {
    use crate::gen::*;
    use crate::wire::*;
    use crate::wireval::*;
    let mut out = serde_json::Map::new();
    for (group, names) in [("entities", ENTITIES), ("objects", OBJECTS)] {
        let mut g = serde_json::Map::new();
        for name in names {
            let is_e = group == "entities";
            let t = if is_e { &model().entities[*name] } else { &model().objects[*name] };
            let mut all: Vec<(&str, &Field)> = t.fields.iter().map(|f| ("s", f)).collect();
            if is_e && !t.base.is_empty() {
                all.extend(model().entities["DimensionBase"].fields.iter().map(|f| ("d", f)));
            }
            let com = if is_e { &model().entities["Entity"] } else { &model().objects["Object"] };
            all.extend(com.fields.iter().map(|f| ("c", f)));
            let mut per: Vec<(usize, usize, Value)> = vec![];
            for v in R13..=R2018 {
                if v < t.min || v > t.max {
                    continue;
                }
                let dump = |spec: Value, com: Value| -> Vec<Pair> {
                    let mut d = Drawing::new();
                    d.header.version = ver(v);
                    let x = json!({"common": com, "specific": {*name: spec}});
                    if is_e {
                        d.add_entity(serde_json::from_value(x).unwrap());
                    } else {
                        d.add_object(serde_json::from_value(x).unwrap());
                    }
                    let b = save(&d, false).unwrap();
                    let ps = lex_text(&b, v >= R2007).unwrap();
                    let r = section(&ps, if is_e { "ENTITIES" } else { "OBJECTS" });
                    let r = if is_e { r.into_iter().next() } else { r.into_iter().last() };
                    r.map(|r| own(&r)).unwrap_or_default()
                };
                let (dspec, dcom) = if is_e { (default_entity(name), default_entity_common()) } else { (default_object(name), default_object_common()) };
                let markers: Vec<String> = dump(dspec.clone(), dcom.clone()).iter().filter(|p| p.c == 100).map(|p| p.s().to_string()).collect();
                let mut fm = serde_json::Map::new();
                for (wh, f) in &all {
                    if v < f.min || v > f.max {
                        continue;
                    }
                    let (mut spec, mut com) = (dspec.clone(), dcom.clone());
                    let tgt = match *wh {
                        "s" => &mut spec,
                        "d" => &mut spec["dimension_base"],
                        _ => &mut com,
                    };
                    if tgt.get(&f.name).is_none() {
                        continue;
                    }
                    let Some(x) = nondefault(f, &tgt[&f.name]) else { continue };
                    tgt[&f.name] = x.clone();
                    let one = if f.multi { x[0].clone() } else { x };
                    let Some(w) = pairs_of(f, &one) else { continue };
                    let mut seg = 0;
                    for p in dump(spec, com) {
                        if p.c == 100 {
                            seg += 1;
                        } else if p.c == w[0].c && same(&p.v, &w[0].v) {
                            fm.insert(format!("{}:{}", wh, f.name), json!(seg));
                            break;
                        }
                    }
                }
                let val = json!({"markers": markers, "fields": fm});
                match per.last_mut() {
                    Some(l) if l.2 == val => l.1 = v,
                    _ => per.push((v, v, val)),
                }
            }
            g.insert(name.to_string(), json!(per.iter().map(|(a, b, v)| json!([VERSIONS[*a], VERSIONS[*b], v])).collect::<Vec<_>>()));
        }
        out.insert(group.into(), Value::Object(g));
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}

/// the default of every kind: run once on the pinned tree to produce model/defaults.json (committed)
pub fn defaults() {
    use crate::tables::TABLES;
    let m = |v: Vec<(String, Value)>| Value::Object(v.into_iter().collect());
    let out = json!({
        "entities": m(ENTITIES.iter().map(|n| (n.to_string(), default_entity(n))).collect()),
        "objects": m(OBJECTS.iter().map(|n| (n.to_string(), default_object(n))).collect()),
        "tables": m(TABLES.iter().map(|n| (n.to_string(), default_table(n))).collect()),
        "common": {"entities": default_entity_common(), "objects": default_object_common()},
        "header": default_header(),
    });
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
}

/// what the library writes for one generated object
pub fn sample(name: &str, seed: u64) {
    use crate::engine::Src;
    let mut s = Src::new(seed);
    let mut v = crate::gen::gen_object(&mut s, name, &crate::gen::ECfg { xdata: false, ext: false, children: true });
    crate::gen::mask_object(&mut v, crate::model::R2018);
    let mut d = dxf::Drawing::new();
    d.header.version = dxf::enums::AcadVersion::R2018;
    d.add_object(crate::gen::to_object(&v));
    println!("{}", v["specific"]);
    let b = crate::gen::save(&d, false).unwrap();
    let ps = crate::props::c10::lex(&b, false, crate::model::R2018).unwrap();
    for r in crate::wireval::section(&ps, "OBJECTS") {
        println!("{}: {}", r.kind, r.pairs.iter().map(|p| crate::wire::show(Some(p))).collect::<Vec<_>>().join(" "));
    }
}

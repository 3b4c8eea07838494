//! Generation of items (as serde values) and prediction of what a file version keeps of them.
use crate::defaults::*;
use crate::engine::Src;
use crate::model::*;
use crate::reflect::*;
use dxf::entities::{Attribute, Entity, EntityType, Vertex};
use dxf::objects::Object;
use dxf::Drawing;
use serde_json::{json, Map, Value};

pub fn acad(v: usize) -> dxf::enums::AcadVersion {
    serde_json::from_value(json!(VERSIONS[v])).unwrap()
}

/// versions R10..R2018, the later ones a little more often
pub fn gen_version(s: &mut Src) -> usize {
    let vs = [R2018, R2000, R12, R14, R2004, R2007, R2010, R2013, R13, R10, R11];
    *s.pick(&vs)
}

/// how many of the fields of an item get non-default values
#[derive(Clone, Copy)]
pub struct Density(pub u64);
pub fn gen_density(s: &mut Src) -> Density {
    Density(*s.pick(&[1, 4, 10, 10, 7]))
}

// ------------------------------------------------------------------ compound values
pub fn gen_xdata_item(s: &mut Src, depth: usize) -> Value {
    match s.below(if depth > 0 { 14 } else { 13 }) {
        0 => json!({"Str": gen_text(s)}),
        1 => json!({"LayerName": gen_name(s)}),
        2 => json!({"BinaryData": gen_chunk(s)}),
        3 => json!({"Handle": gen_handle(s)}),
        4 => json!({"ThreeReals": [gen_f64(s), gen_f64(s), gen_f64(s)]}),
        5 => json!({"WorldSpacePosition": gen_point(s, 3, 0.0)}),
        6 => json!({"WorldSpaceDisplacement": gen_point(s, 3, 0.0)}),
        7 => json!({"WorldDirection": gen_point(s, 3, 0.0)}),
        8 => json!({"Real": gen_f64(s)}),
        9 => json!({"Distance": gen_f64(s)}),
        10 => json!({"ScaleFactor": gen_f64(s)}),
        11 => json!({"Integer": gen_int(s, i16::MIN as i64, i16::MAX as i64)}),
        12 => json!({"Long": gen_int(s, i32::MIN as i64, i32::MAX as i64)}),
        _ => {
            let n = s.size(6);
            let items: Vec<Value> = (0..n).map(|_| gen_xdata_item(s, depth - 1)).collect();
            json!({"ControlGroup": items})
        }
    }
}
pub fn gen_xdata(s: &mut Src) -> Value {
    let n = s.size(8);
    let mut items: Vec<Value> = (0..n).map(|_| gen_xdata_item(s, 4)).collect();
    if s.chance(1, 24) {
        // a deep nest, with something before and after each level
        for _ in 0..5 + s.us(60) {
            let mut next = if s.flip() { vec![gen_xdata_item(s, 0)] } else { vec![] };
            next.push(json!({"ControlGroup": items}));
            if s.flip() {
                next.push(gen_xdata_item(s, 0));
            }
            items = next;
        }
    }
    json!({"application_name": format!("APP_{}", gen_name(s)), "items": items})
}

/// a raw pair with a value of the kind its code demands; `ok` filters codes
pub fn gen_pair(s: &mut Src, ok: fn(i32) -> bool) -> Value {
    const CODES: &[i32] = &[
        1, 2, 3, 4, 6, 7, 8, 9, 10, 20, 30, 11, 40, 41, 50, 51, 60, 62, 66, 70, 71, 72, 79, 90, 91, 99, 110, 140, 147,
        160, 170, 175, 179, 210, 270, 280, 289, 290, 291, 300, 301, 309, 310, 311, 320, 330, 331, 340, 350, 360, 369, 370,
        380, 390, 400, 410, 420, 430, 440, 450, 460, 470, 480,
    ];
    loop {
        let c = *s.pick(CODES);
        let c = if ok(c) { c } else { 1 };
        let v = match code_width(c) {
            't' if is_handle_code(c) => json!({"Str": format!("{:X}", gen_handle(s))}),
            't' => json!({"Str": gen_text(s)}),
            'd' => json!({"Double": gen_f64(s)}),
            's' => json!({"Short": gen_int(s, i16::MIN as i64, i16::MAX as i64)}),
            'i' => json!({"Integer": gen_int(s, i32::MIN as i64, i32::MAX as i64)}),
            'l' => json!({"Long": gen_int(s, i64::MIN, i64::MAX)}),
            'b' => json!({"Boolean": s.below(2)}),
            'x' => json!({"Binary": gen_chunk(s)}),
            _ => continue,
        };
        return json!({"code": c, "value": v, "offset": 0});
    }
}
pub fn is_handle_code(c: i32) -> bool {
    matches!(c, 5 | 105 | 320..=369 | 390..=399 | 480 | 481 | 1005)
}
pub fn gen_ext_group(s: &mut Src, depth: usize) -> Value {
    let n = 1 + s.size(5);
    let items: Vec<Value> = (0..n)
        .map(|_| {
            if depth > 0 && s.chance(1, 4) {
                json!({"Group": gen_ext_group(s, depth - 1)})
            } else {
                json!({"CodePair": gen_pair(s, |c| c != 102 && c != 0 && c < 1000)})
            }
        })
        .collect();
    if depth > 1 && s.chance(1, 24) {
        let mut g = json!({"application_name": format!("EXT_{}", gen_name(s)), "items": items});
        for _ in 0..5 + s.us(60) {
            let mut next = vec![json!({"Group": g})];
            if s.flip() {
                next.push(json!({"CodePair": gen_pair(s, |c| c != 102 && c != 0 && c < 1000)}));
            }
            g = json!({"application_name": format!("EXT_{}", gen_name(s)), "items": next});
        }
        return g;
    }
    json!({"application_name": format!("EXT_{}", gen_name(s)), "items": items})
}

pub fn gen_date(s: &mut Src) -> Value {
    // whole seconds between 1900-01-02 and 2199
    let secs = s.range(-2208902400, 7258118400);
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp(secs, 0).unwrap();
    json!(dt.to_rfc3339_opts(chrono::SecondsFormat::Secs, true))
}

pub fn gen_matrix(s: &mut Src) -> Value {
    let mut m = Map::new();
    for i in 1..=4 {
        for j in 1..=4 {
            m.insert(format!("m{}{}", i, j), json!(gen_f64(s)));
        }
    }
    Value::Object(m)
}

/// random values for a struct shaped like `t` (leaf types taken from the template)
pub fn gen_shape(s: &mut Src, t: &Value) -> Value {
    match t {
        Value::Bool(_) => json!(s.flip()),
        Value::Number(n) if n.is_f64() => json!(gen_f64(s)),
        Value::Number(_) => json!(gen_int(s, 0, i16::MAX as i64)),
        Value::String(_) => json!(gen_text(s)),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), gen_shape(s, v))).collect()),
        x => x.clone(),
    }
}

fn many(s: &mut Src, max: usize, mut f: impl FnMut(&mut Src) -> Value) -> Value {
    let n = s.size(max);
    let mut a: Vec<Value> = vec![];
    let repeat = if s.chance(1, 4) { *s.pick(&[2, 6]) } else { 0 };
    for i in 0..n {
        if i > 0 && repeat > 0 && s.chance(repeat, 10) {
            let j = if s.flip() { i - 1 } else { s.us(i) };
            a.push(a[j].clone());
        } else {
            a.push(f(s));
        }
    }
    Value::Array(a)
}

/// value for a field of a compound type, by field type name
pub fn gen_compound(s: &mut Src, owner: &str, f: &Field, current: &Value) -> Option<Value> {
    Some(match f.ty.as_str() {
        "LwPolylineVertex" => many(s, 12, |s| {
            json!({"x": gen_f64(s), "y": gen_f64(s), "id": gen_int(s, i32::MIN as i64, i32::MAX as i64),
                "starting_width": if s.flip() {gen_f64(s)} else {0.0}, "ending_width": if s.flip() {gen_f64(s)} else {0.0}, "bulge": if s.flip() {gen_f64(s)} else {0.0}})
        }),
        "MText" => gen_spec_entity(s, "MText", Density(5)),
        "TransformationMatrix" => gen_matrix(s),
        "DateTime<Local>" if f.multi => many(s, 6, gen_date),
        "DateTime<Local>" => gen_date(s),
        "GeoMeshPoint" => many(s, 6, |s| {
            json!({"source": gen_point(s, 2, 0.0), "destination": gen_point(s, 2, 0.0)})
        }),
        "MLineStyleElement" => many(s, 6, |s| {
            json!({"offset": gen_f64(s), "color": {"raw_value": gen_int(s, i16::MIN as i64, i16::MAX as i64)}, "line_type": gen_text(s)})
        }),
        "SectionTypeSettings" => many(s, 4, |s| {
            let geo = many(s, 4, |s| {
                json!({"section_type": gen_int(s, i32::MIN as i64, i32::MAX as i64), "geometry_count": gen_int(s, i32::MIN as i64, i32::MAX as i64),
                    "bit_flags": gen_int(s, i32::MIN as i64, i32::MAX as i64), "color": {"raw_value": gen_int(s, i16::MIN as i64, i16::MAX as i64)},
                    "layer_name": gen_text(s), "line_type_name": gen_text(s), "line_type_scale": gen_f64(s), "plot_style_name": gen_text(s),
                    "line_weight": gen_int(s, i16::MIN as i64, i16::MAX as i64), "face_transparency": gen_int(s, i16::MIN as i64, i16::MAX as i64),
                    "edge_transparency": gen_int(s, i16::MIN as i64, i16::MAX as i64), "hatch_pattern_type": gen_int(s, i16::MIN as i64, i16::MAX as i64),
                    "hatch_pattern_name": gen_text(s), "hatch_angle": gen_f64(s), "hatch_scale": gen_f64(s), "hatch_spacing": gen_f64(s)})
            });
            let src = many(s, 4, |s| json!(1 + gen_handle(s) / 2));
            json!({"section_type": gen_int(s, i32::MIN as i64, i32::MAX as i64), "is_generation_option": s.flip(), "source_object_handles": src,
                "destination_object_handle": gen_handle(s), "destination_file_name": gen_text(s), "geometry_settings": geo})
        }),
        "TableCellStyle" => many(s, 4, |s| {
            let t = serde_json::to_value(dxf::TableCellStyle::default()).unwrap();
            gen_shape(s, &t)
        }),
        "HashMap<String, Handle>" => {
            let n = s.size(8);
            let mut m = Map::new();
            for i in 0..n {
                let k = if s.flip() { format!("K{}", i) } else { format!("{}{}", gen_name(s), i) };
                m.insert(k, json!(gen_handle(s)));
            }
            Value::Object(m)
        }
        "DictionaryDuplicateRecordHandling" => json!(s.pick(&model().enums["DictionaryDuplicateRecordHandling"]).0),
        "CodePair" => many(s, 12, |s| gen_pair(s, |c| c != 0 && c != 102 && c < 369 && c != 5 && c != 100)),
        "u8" => many(s, 400, |s| json!(s.below(256))),
        "XData" => many(s, 3, gen_xdata),
        "ExtensionGroup" => many(s, 3, |s| gen_ext_group(s, 2)),
        _ => {
            let _ = (owner, current);
            return None;
        }
    })
}

/// fields whose values are fixed by structure, or belong to the library's own bookkeeping
fn managed(owner: &str, f: &Field) -> bool {
    matches!(
        (owner, f.name.as_str()),
        ("Insert", "__attributes_and_handles") | ("Insert", "__has_attributes") | ("Polyline", "__vertices_and_handles")
    ) || f.name == "handle"
        || (f.name.starts_with("__") && !f.ptr && !ACCESSED.contains(&f.name.as_str()))
}
/// hidden fields that users set through functions
const ACCESSED: &[&str] = &["__flags", "__object_drawing_format"];

pub fn gen_struct(s: &mut Src, owner: &str, fields: &[Field], def: &Value, d: Density) -> Value {
    let mut out = def.clone();
    for f in fields {
        if managed(owner, f) || def.get(&f.name).is_none() {
            continue;
        }
        if !s.chance(d.0, 10) {
            continue;
        }
        let cur = def[&f.name].clone();
        let v = gen_compound(s, owner, f, &cur).or_else(|| gen_field(s, f, &cur));
        if let Some(v) = v {
            out[&f.name] = v;
        }
    }
    out
}

// ------------------------------------------------------------------ entities
pub fn gen_spec_entity(s: &mut Src, name: &str, d: Density) -> Value {
    let t = &model().entities[name];
    let mut v = gen_struct(s, name, &t.fields, &default_entity(name), d);
    if !t.base.is_empty() {
        let b = &model().entities["DimensionBase"];
        let db = v["dimension_base"].clone();
        let mut g = gen_struct(s, "DimensionBase", &b.fields, &db, d);
        for k in ["is_block_reference_referenced_by_this_block_only", "is_ordinate_x_type", "is_at_user_defined_location"] {
            if g.get(k).is_some() {
                g[k] = json!(s.flip());
            }
        }
        v["dimension_base"] = g;
    }
    v
}

pub fn gen_common(s: &mut Src, d: Density) -> Value {
    let mut c = gen_struct(s, "Entity", &model().entities["Entity"].fields, &default_entity_common(), d);
    if s.flip() {
        c["layer"] = json!(gen_name(s));
    }
    c
}

pub struct ECfg {
    pub xdata: bool,
    pub ext: bool,
    pub children: bool,
}

/// An entity as value {"common","specific"} plus the values of its parts
pub fn gen_entity(s: &mut Src, name: &str, cfg: &ECfg) -> (Value, Vec<Value>) {
    let d = gen_density(s);
    let spec = gen_spec_entity(s, name, d);
    let mut com = gen_common(s, d);
    if !cfg.xdata {
        com["x_data"] = json!([]);
    }
    if !cfg.ext {
        com["extension_data_groups"] = json!([]);
    }
    let mut kids = vec![];
    if cfg.children && (name == "Insert" || name == "Polyline") {
        let k = if name == "Insert" { "Attribute" } else { "Vertex" };
        let n = s.size(5);
        for _ in 0..n {
            kids.push(gen_spec_entity(s, k, d));
        }
    }
    (json!({"common": com, "specific": {name: spec}}), kids)
}

pub fn to_entity(v: &Value) -> Entity {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: entity {} from {}", e, short(v)))
}
pub fn to_object(v: &Value) -> Object {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness: object {} from {}", e, v))
}

/// make the entity with its parts through the public API
pub fn build_entity(d: &mut Drawing, v: &Value, kids: &[Value]) -> Entity {
    let mut e = to_entity(v);
    match e.specific {
        EntityType::Insert(ref mut i) => {
            for k in kids {
                let a: Attribute = serde_json::from_value(k.clone()).unwrap();
                i.add_attribute(d, a);
            }
        }
        EntityType::Polyline(ref mut p) => {
            for k in kids {
                let a: Vertex = serde_json::from_value(k.clone()).unwrap();
                p.add_vertex(d, a);
            }
        }
        _ => {}
    }
    e
}

fn keep(fields: &[Field], owner: &str, v: &Value, def: &Value, ver: usize) -> Value {
    let mut out = v.clone();
    for f in fields {
        if managed(owner, f) || v.get(&f.name).is_none() {
            continue;
        }
        if ver < f.min || ver > f.max {
            out[&f.name] = def[&f.name].clone();
        }
    }
    out
}

pub fn strip_offsets(v: &mut Value) {
    match v {
        Value::Object(m) => {
            if m.contains_key("code") && m.contains_key("offset") {
                m.insert("offset".into(), json!(0));
            }
            for (_, x) in m.iter_mut() {
                strip_offsets(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(strip_offsets),
        _ => {}
    }
}

pub fn kind(v: &Value) -> String {
    v["specific"].as_object().unwrap().keys().next().unwrap().clone()
}

/// what the given version keeps of a specific entity value (None: the kind is not supported)
pub fn expect_spec_entity(name: &str, v: &Value, ver: usize) -> Option<Value> {
    let t = &model().entities[name];
    if ver < t.min || ver > t.max {
        return None;
    }
    let def = default_entity(name);
    let mut o = keep(&t.fields, name, v, &def, ver);
    if !t.base.is_empty() {
        let b = &model().entities["DimensionBase"];
        o["dimension_base"] = keep(&b.fields, "DimensionBase", &v["dimension_base"], &def["dimension_base"], ver);
    }
    // counts that are written from the list they count
    for (kind, count, list) in [
        ("Image", "clipping_vertex_count", "clipping_vertices"),
        ("Wipeout", "clipping_vertex_count", "clipping_vertices"),
        ("Leader", "vertex_count", "vertices"),
    ] {
        if kind == name {
            o[count] = json!(o[list].as_array().unwrap().len());
        }
    }
    match name {
        "Attribute" | "AttributeDefinition" => {
            o["m_text"] = match expect_spec_entity("MText", &v["m_text"], ver) {
                Some(m) => m,
                None => def["m_text"].clone(),
            };
        }
        "LwPolyline" => {
            if ver < R2013 {
                for p in o["vertices"].as_array_mut().unwrap() {
                    p["id"] = json!(0);
                }
            }
        }
        "Vertex" if ver >= R12 => {
            for i in 1..=4 {
                let k = format!("polyface_mesh_vertex_index{}", i);
                o[&k] = v[&k].clone();
            }
        }
        "Polyline" => {
            let flags = v["flags"].as_i64().unwrap();
            let (is3d, mesh) = (flags & 8 != 0, flags & 16 != 0);
            if let Some(a) = o["__vertices_and_handles"].as_array_mut() {
                for p in a.iter_mut() {
                    let mut x = p[0].clone();
                    let mut fl = x["flags"].as_i64().unwrap();
                    fl = if is3d { fl | 32 } else { fl & !32 };
                    let idx0 = (1..=4).all(|i| x[format!("polyface_mesh_vertex_index{}", i)] == json!(0));
                    if idx0 {
                        fl = if mesh { fl | 64 } else { fl & !64 };
                    }
                    x["flags"] = json!(fl);
                    p[0] = expect_spec_entity("Vertex", &x, ver).unwrap();
                }
            }
        }
        "Insert" => {
            if let Some(a) = o["__attributes_and_handles"].as_array_mut() {
                for p in a.iter_mut() {
                    p[0] = expect_spec_entity("Attribute", &p[0].clone(), ver).unwrap();
                }
            }
        }
        _ => {}
    }
    Some(o)
}

pub fn expect_common(v: &Value, ver: usize) -> Value {
    let def = default_entity_common();
    let mut o = keep(&model().entities["Entity"].fields, "Entity", v, &def, ver);
    if ver < R2000 {
        o["x_data"] = json!([]);
    }
    if ver < R14 {
        o["extension_data_groups"] = json!([]);
    }
    o
}

pub fn expect_entity(v: &Value, ver: usize) -> Option<Value> {
    let name = kind(v);
    let spec = expect_spec_entity(&name, &v["specific"][&name], ver)?;
    let mut com = expect_common(&v["common"], ver);
    if name == "LwPolyline" {
        com["elevation"] = v["common"]["elevation"].clone();
    }
    Some(json!({"common": com, "specific": {&name: spec}}))
}

/// drop internal scratch members (names with leading underscores that are not references)
pub fn scrub_entity(v: &mut Value) {
    let name = kind(v);
    scrub_spec_entity(&name, &mut v["specific"][&name]);
    scrub_fields(&model().entities["Entity"].fields, &mut v["common"]);
    strip_offsets(v);
}
fn scrub_fields(fields: &[Field], v: &mut Value) {
    if let Value::Object(m) = v {
        m.retain(|k, _| {
            !k.starts_with("__") || ACCESSED.contains(&k.as_str()) || fields.iter().any(|f| f.name == *k && f.ptr) || k == "__attributes_and_handles" || k == "__vertices_and_handles"
        });
    }
}
pub fn scrub_spec_entity(name: &str, v: &mut Value) {
    scrub_fields(&model().entities[name].fields, v);
    if v.get("dimension_base").is_some() {
        scrub_fields(&model().entities["DimensionBase"].fields, &mut v["dimension_base"]);
    }
    if v.get("m_text").is_some() {
        scrub_fields(&model().entities["MText"].fields, &mut v["m_text"]);
    }
    for (key, kid) in [("__attributes_and_handles", "Attribute"), ("__vertices_and_handles", "Vertex")] {
        if let Some(Value::Array(a)) = v.get_mut(key) {
            for p in a.iter_mut() {
                scrub_spec_entity(kid, &mut p[0]);
            }
        }
    }
}

// ------------------------------------------------------------------ objects
pub fn gen_spec_object(s: &mut Src, name: &str, d: Density) -> Value {
    let t = &model().objects[name];
    let mut v = gen_struct(s, name, &t.fields, &default_object(name), d);
    match name {
        // the default is the current time
        "LayerIndex" => v["time_stamp"] = gen_date(s),
        "SpatialIndex" => v["timestamp"] = gen_date(s),
        "DataTable" => gen_table(s, &mut v),
        "GeoData" => {
            // indices: whole numbers
            v["face_indices"] = many(s, 6, |s| {
                let mut i = || gen_int(s, i32::MIN as i64, i32::MAX as i64) as f64;
                json!({"x": i(), "y": i(), "z": i()})
            });
        }
        "SunStudy" => v["hours"] = many(s, 6, |s| json!(s.below(25))),
        _ => {}
    }
    v
}
/// columns of one type each, every cell set
fn gen_table(s: &mut Src, v: &mut Value) {
    let (cols, rows) = (s.size(4), s.size(5));
    let (cols, rows) = if cols == 0 || rows == 0 { (0, 0) } else { (cols, rows) };
    let mut cells = vec![vec![Value::Null; cols]; rows];
    for c in 0..cols {
        let k = s.below(7);
        for r in cells.iter_mut() {
            r[c] = match k {
                0 => json!({"Boolean": s.flip()}),
                1 => json!({"Integer": gen_int(s, i32::MIN as i64, i32::MAX as i64)}),
                2 => json!({"Double": gen_f64(s)}),
                3 => json!({"Str": gen_text(s)}),
                4 => json!({"Point2D": gen_point(s, 3, 0.0)}),
                5 => json!({"Point3D": gen_point(s, 3, 0.0)}),
                _ => json!({"Handle": gen_handle(s)}),
            };
        }
    }
    v["column_count"] = json!(cols);
    v["row_count"] = json!(rows);
    v["column_names"] = Value::Array((0..cols).map(|_| json!(gen_text(s))).collect());
    v["values"] = json!(cells);
}
pub fn gen_object_common(s: &mut Src, d: Density) -> Value {
    gen_struct(s, "Object", &model().objects["Object"].fields, &default_object_common(), d)
}
pub fn gen_object(s: &mut Src, name: &str, cfg: &ECfg) -> Value {
    let d = gen_density(s);
    let spec = gen_spec_object(s, name, d);
    let mut com = gen_object_common(s, d);
    if !cfg.xdata {
        com["x_data"] = json!([]);
    }
    if !cfg.ext {
        com["extension_data_groups"] = json!([]);
    }
    json!({"common": com, "specific": {name: spec}})
}
pub fn expect_spec_object(name: &str, v: &Value, ver: usize) -> Option<Value> {
    let t = &model().objects[name];
    if ver < t.min || ver > t.max || ver < R13 {
        return None;
    }
    let mut o = keep(&t.fields, name, v, &default_object(name), ver);
    if name == "SpatialFilter" {
        // the file holds the first three rows
        for k in ["inverse_transformation_matrix", "transformation_matrix"] {
            for i in 1..=4 {
                o[k][format!("m4{}", i)] = json!(if i == 4 { 1.0 } else { 0.0 });
            }
        }
    }
    Some(o)
}
pub fn expect_object(v: &Value, ver: usize) -> Option<Value> {
    let name = kind(v);
    let spec = expect_spec_object(&name, &v["specific"][&name], ver)?;
    let mut com = keep(&model().objects["Object"].fields, "Object", &v["common"], &default_object_common(), ver);
    if ver < R2000 {
        com["x_data"] = json!([]);
    }
    if ver < R14 {
        com["extension_data_groups"] = json!([]);
    }
    Some(json!({"common": com, "specific": {&name: spec}}))
}
pub fn scrub_object(v: &mut Value) {
    let name = kind(v);
    scrub_fields(&model().objects[&name].fields, &mut v["specific"][&name]);
    scrub_fields(&model().objects["Object"].fields, &mut v["common"]);
    strip_offsets(v);
}

// ------------------------------------------------------------------ helpers
pub fn save(d: &Drawing, binary: bool) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    let r = if binary { d.save_binary(&mut b) } else { d.save(&mut b) };
    r.map_err(|e| format!("{:?}", e))?;
    Ok(b)
}
pub fn load(b: &[u8]) -> Result<Drawing, String> {
    Drawing::load(&mut std::io::Cursor::new(b)).map_err(|e| format!("{:?}", e))
}
pub fn entities_json(d: &Drawing) -> Vec<Value> {
    d.entities().map(|e| serde_json::to_value(e).unwrap()).collect()
}
pub fn objects_json(d: &Drawing) -> Vec<Value> {
    d.objects().map(|e| serde_json::to_value(e).unwrap()).collect()
}

// ------------------------------------------------------------------ recorded findings
/// Keep a generated entity out of the regions of the recorded findings (known_findings.json);
/// those are visited by dedicated probe cases instead.
pub fn mask_spec_entity(name: &str, v: &mut Value, ver: usize) {
    match name {
        "ProxyEntity" => v["entity_data_string"] = json!([]),
        "DgnUnderlay" | "DwfUnderlay" | "PdfUnderlay" => v["points"] = json!([]),
        "MLine" => {
            for k in ["vertices", "segment_directions", "miter_directions"] {
                v[k] = json!([]);
            }
        }
        "Wipeout" => v["clipping_vertices"] = json!([]),
        // before R13 the kind of a dimension is carried by its type number alone
        "RotatedDimension" if ver < R13 => {
            let t = v["dimension_base"]["dimension_type"].clone();
            if t != "Aligned" && t != "RotatedHorizontalOrVertical" {
                v["dimension_base"]["dimension_type"] = json!("RotatedHorizontalOrVertical");
            }
        }
        _ => {}
    }
}
pub fn mask_entity(v: &mut Value, kids: &mut [Value], ver: usize) {
    let name = kind(v);
    mask_spec_entity(&name, &mut v["specific"][&name], ver);
    let k = if name == "Insert" { "Attribute" } else { "Vertex" };
    for x in kids {
        mask_spec_entity(k, x, ver);
    }
}

/// path of a difference -> stable field name
/// "specific.Line.p1.x" -> "Line.p1"; "common.layer" -> "common.layer";
/// "specific.Insert.__attributes_and_handles[0][0].value" -> "Insert/Attribute.value"
pub fn field_of(p: &str) -> String {
    let q = p.strip_prefix("specific.").unwrap_or(p);
    let mut it = q.split(|c| c == '.' || c == '[' || c == ']').filter(|x| !x.is_empty());
    let a = it.next().unwrap_or("").to_string();
    let b = it.next().unwrap_or("").to_string();
    let rest: Vec<&str> = it.collect();
    let nested = match b.as_str() {
        "__attributes_and_handles" => "Attribute",
        "__vertices_and_handles" => "Vertex",
        _ => "",
    };
    if !nested.is_empty() {
        return match rest.get(1) {
            Some(&"0") => format!("{}/{}.{}", a, nested, rest.get(2).unwrap_or(&"")),
            Some(_) => format!("{}/{}.handle", a, nested),
            None => format!("{}/{}", a, nested),
        };
    }
    if b == "m_text" || b == "dimension_base" {
        return format!("{}.{}/{}", a, b, rest.first().unwrap_or(&""));
    }
    format!("{}.{}", a, b)
}

/// kinds whose file layout tells fields apart by position, which the reader does not follow (recorded finding)
pub const BY_POSITION: &[&str] = &[
    "NavisWorksModelDefinition", "RapidRTRenderEnvironment", "RapidRenderSettings", "MentalRayRenderSettings",
    "RenderEnvironment", "RenderGlobal",
];
/// remove the fields that share a group code with another field of such a kind
pub fn drop_by_position(v: &mut Value) {
    let name = kind(v);
    if !BY_POSITION.contains(&name.as_str()) {
        return;
    }
    let fs = &model().objects[&name].fields;
    for f in fs {
        if fs.iter().any(|g| g.name != f.name && g.codes.iter().any(|c| f.codes.contains(c))) {
            v["specific"][&name].as_object_mut().unwrap().remove(&f.name);
        }
    }
}
pub fn mask_object(v: &mut Value, ver: usize) {
    let name = kind(v);
    let fields: &[&str] = match name.as_str() {
        "SectionSettings" => &["is_generation_option", "destination_file_name", "__source_objects_handle", "__destination_object_handle"],
        "Field" if ver < R2010 => &["__objects_handle"],
        "Material" => &["map_v_tile", "specular_gloss_factor"],
        "VbaProject" => &["data"],
        _ => &[],
    };
    let d = default_object(&name);
    for k in fields {
        v["specific"][&name][*k] = d[*k].clone();
    }
}

//! Generation of whole drawings and comparison of whole drawings.
use crate::defaults::*;
use crate::engine::Src;
use crate::gen::*;
use crate::props::c03::standalone;
use crate::props::c06::gen_header;
use crate::props::c07::{blocks_json, gen_block, gen_class, to_block};
use crate::reflect::*;
use crate::tables::*;
use dxf::{Block, Class, Drawing};
use serde_json::{json, Value};

pub struct DCfg {
    pub xdata: bool,
    pub header: bool,
    pub thumbnail: bool,
    /// stay out of the regions of recorded findings
    pub mask: bool,
    /// include the object kinds whose fields are told apart by position (recorded finding)
    pub positional: bool,
    pub max_items: usize,
}
pub const FULL: DCfg = DCfg { xdata: true, header: true, thumbnail: true, mask: true, positional: true, max_items: 5 };
pub const SOUND: DCfg = DCfg { positional: false, ..FULL };

pub fn gen_image(s: &mut Src, max: u64) -> image::DynamicImage {
    let (w, h) = (1 + s.below(max) as u32, 1 + s.below(max) as u32);
    match s.below(3) {
        0 => {
            let mut m = image::RgbImage::new(w, h);
            for p in m.pixels_mut() {
                let v = s.any64();
                *p = image::Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8]);
            }
            image::DynamicImage::ImageRgb8(m)
        }
        1 => {
            let mut m = image::RgbaImage::new(w, h);
            for p in m.pixels_mut() {
                let v = s.any64();
                *p = image::Rgba([v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]);
            }
            image::DynamicImage::ImageRgba8(m)
        }
        _ => {
            let mut m = image::GrayImage::new(w, h);
            for p in m.pixels_mut() {
                *p = image::Luma([s.any64() as u8]);
            }
            image::DynamicImage::ImageLuma8(m)
        }
    }
}

pub fn gen_entity_value(s: &mut Src, k: usize, ver: usize, cfg: &DCfg) -> (Value, Vec<Value>) {
    let name = match s.below(4) {
        0 => *s.pick(&["Insert", "Polyline"]),
        1 => *s.pick(ENTITIES),
        _ => ENTITIES[k % ENTITIES.len()],
    };
    let name = if standalone(name) { name } else { "Line" };
    let (mut v, mut kids) = gen_entity(s, name, &ECfg { xdata: cfg.xdata, ext: cfg.xdata, children: true });
    if cfg.mask {
        mask_entity(&mut v, &mut kids, ver);
    }
    (v, kids)
}
pub fn gen_carried(s: &mut Src, v: &mut Value, cfg: &DCfg) {
    if cfg.xdata && s.chance(1, 3) {
        let n = s.size(3);
        v["x_data"] = Value::Array((0..n).map(|_| gen_xdata(s)).collect());
    }
    if cfg.xdata && s.chance(1, 3) {
        let n = s.size(3);
        v["extension_data_groups"] = Value::Array((0..n).map(|_| gen_ext_group(s, 2)).collect());
    }
}

/// a drawing of the given version with generated content of every kind; `k` steers the kinds
pub fn gen_drawing(s: &mut Src, k: usize, ver: usize, cfg: &DCfg) -> Drawing {
    let mut d = Drawing::new();
    if s.chance(1, 6) {
        d.clear();
    }
    if cfg.header && s.flip() {
        let mut v = gen_header(s, 3);
        v["next_available_handle"] = json!(d.header.next_available_handle);
        v["handles_enabled"] = json!(s.chance(3, 4));
        d.header = serde_json::from_value(v).unwrap();
    }
    d.header.version = acad(ver);
    for (i, t) in TABLES.iter().enumerate() {
        if s.chance(1, 3) {
            for _ in 0..s.size(3) {
                let mut r = gen_record(s, t, ver);
                gen_carried(s, &mut r, cfg);
                add_record(&mut d, TABLES[i], &r);
            }
        }
    }
    for _ in 0..s.size(2) {
        let v = gen_class(s);
        d.classes.push(serde_json::from_value::<Class>(v).unwrap());
    }
    for i in 0..s.size(3) {
        let mut b = gen_block(s);
        gen_carried(s, &mut b, cfg);
        let n = s.size(3);
        let ents: Vec<_> = (0..n).map(|j| gen_entity_value(s, k + 7 * i + j, ver, cfg)).collect();
        let b: Block = to_block(&mut d, &b, &ents);
        d.add_block(b);
    }
    for i in 0..s.size(cfg.max_items) {
        let (v, kids) = gen_entity_value(s, k + i, ver, cfg);
        let e = build_entity(&mut d, &v, &kids);
        d.add_entity(e);
    }
    for i in 0..s.size(cfg.max_items) {
        let name = if s.flip() { OBJECTS[(k + i) % OBJECTS.len()] } else { *s.pick(OBJECTS) };
        let name = if !cfg.positional && BY_POSITION.contains(&name) { "PlaceHolder" } else { name };
        let mut v = gen_object(s, name, &ECfg { xdata: cfg.xdata, ext: cfg.xdata, children: true });
        if cfg.mask {
            mask_object(&mut v, ver);
        }
        d.add_object(to_object(&v));
    }
    if cfg.thumbnail && s.chance(1, 4) {
        d.thumbnail = Some(gen_image(s, 9));
    }
    d
}

/// everything observable in a drawing, as JSON by part
pub fn snapshot(d: &Drawing) -> Value {
    let mut t = serde_json::Map::new();
    for n in TABLES {
        t.insert(n.to_string(), Value::Array(records(d, n)));
    }
    let mut v = json!({
        "header": serde_json::to_value(&d.header).unwrap(),
        "tables": t,
        "blocks": blocks_json(d),
        "entities": entities_json(d),
        "objects": objects_json(d),
        "classes": d.classes.iter().map(|c| serde_json::to_value(c).unwrap()).collect::<Vec<_>>(),
        "thumbnail": d.thumbnail.as_ref().map(|i| json!([i.width(), i.height(), i.to_rgba8().into_raw()])),
    });
    strip_offsets(&mut v);
    v
}
pub fn summary(d: &Drawing) -> String {
    let mut o = format!("{} header-handles={}", d.header.version, d.header.handles_enabled);
    for n in TABLES {
        o += &format!(" {}={}", n, records(d, n).len());
    }
    o += &format!(" classes={} blocks={} entities=[{}] objects=[{}]{}", d.classes.len(), d.blocks().count(),
        entities_json(d).iter().map(kind).collect::<Vec<_>>().join(","), objects_json(d).iter().map(kind).collect::<Vec<_>>().join(","),
        if d.thumbnail.is_some() { " thumbnail" } else { "" });
    o
}
/// "tables.Layer[3].color" -> "tables.Layer.color"; "entities[2].specific.Line.p1" -> "entity Line.p1"
pub fn part_of(p: &str, root: &Value) -> String {
    let _ = root;
    let head = root_field(p);
    let rest = p.splitn(2, "].").nth(1).unwrap_or("");
    match head.as_str() {
        "entities" | "objects" => format!("{} {}", head, field_of(rest)),
        "blocks" => {
            if rest.starts_with("entities[") {
                format!("block entity {}", field_of(rest.splitn(2, "].").nth(1).unwrap_or("")))
            } else {
                format!("block {}", root_field(rest))
            }
        }
        "tables" => {
            let q = p.trim_start_matches("tables.");
            format!("{} {}", root_field(q), root_field(rest))
        }
        _ => p.split('[').next().unwrap().split('.').take(2).collect::<Vec<_>>().join("."),
    }
}

//! C21: DXB files carry the supported geometry faithfully
use crate::defaults::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::props::c03::standalone;
use crate::props::c07::{gen_block, to_block};
use crate::reflect::*;
use dxf::entities::*;
use dxf::{Drawing, Point};
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "a case either builds a drawing of 0-10 entities (the kinds DXB holds, mixed with others; any layer, colour and coordinates; with or without blocks), saves it as DXB, decodes the bytes with an independent reader and loads them with the library, comparing both with the geometry that went in; or it generates a DXB file item by item (either number mode, scale factors, layers, colours, block base, extensions, bulges and widths in any order the format allows) together with the geometry it describes, and compares what is loaded; non-trivial: some geometry is stored; distinct by file content",
        quick: 100_000,
        thorough: 600_000,
        run,
        assumptions: &["a line item has three coordinates per point, as the repository's own tests define", "numbers are 32 bit floating point when saved; characters beyond Latin-1 in layer names are replaced by a question mark", "the first block stands for the drawing when the drawing has no entities of its own"],
        level: "exploration",
        mem_mb: 1024,
        cpu_s: 60,
        workers: 8,
    }
}

const KINDS: &[&str] = &["Line", "ModelPoint", "Circle", "Arc", "Trace", "Solid", "Face3D", "Polyline"];

/// what a DXB file can say
#[derive(Clone, Debug, PartialEq)]
enum G {
    Line([f64; 6]),
    Point([f64; 2]),
    Circle([f64; 3]),
    Arc([f64; 5]),
    Trace([f64; 8]),
    Solid([f64; 8]),
    Face([f64; 12]),
    /// closed, (x, y, bulge, starting width, ending width)
    Poly(bool, Vec<[f64; 5]>),
}
#[derive(Clone, Debug, PartialEq)]
struct Item {
    layer: String,
    color: i16,
    g: G,
}

fn geometry(e: &EntityType) -> Option<G> {
    let p2 = |ps: [&Point; 4]| {
        let mut o = [0.0; 8];
        for (i, p) in ps.iter().enumerate() {
            o[2 * i] = p.x;
            o[2 * i + 1] = p.y;
        }
        o
    };
    Some(match e {
        EntityType::Line(l) => G::Line([l.p1.x, l.p1.y, l.p1.z, l.p2.x, l.p2.y, l.p2.z]),
        EntityType::ModelPoint(p) => G::Point([p.location.x, p.location.y]),
        EntityType::Circle(c) => G::Circle([c.center.x, c.center.y, c.radius]),
        EntityType::Arc(c) => G::Arc([c.center.x, c.center.y, c.radius, c.start_angle, c.end_angle]),
        EntityType::Trace(t) => G::Trace(p2([&t.first_corner, &t.second_corner, &t.third_corner, &t.fourth_corner])),
        EntityType::Solid(t) => G::Solid(p2([&t.first_corner, &t.second_corner, &t.third_corner, &t.fourth_corner])),
        EntityType::Face3D(f) => {
            let mut o = [0.0; 12];
            for (i, p) in [&f.first_corner, &f.second_corner, &f.third_corner, &f.fourth_corner].iter().enumerate() {
                o[3 * i] = p.x;
                o[3 * i + 1] = p.y;
                o[3 * i + 2] = p.z;
            }
            G::Face(o)
        }
        EntityType::Polyline(p) => G::Poly(p.is_closed(), p.vertices().map(|v| [v.location.x, v.location.y, v.bulge, v.starting_width, v.ending_width]).collect()),
        _ => return None,
    })
}
fn item(e: &Entity) -> Option<Item> {
    Some(Item { layer: e.common.layer.clone(), color: serde_json::to_value(&e.common.color).unwrap()["raw_value"].as_i64().unwrap() as i16, g: geometry(&e.specific)? })
}
fn map(g: &mut G, f: impl Fn(f64) -> f64) {
    let all = |a: &mut [f64]| a.iter_mut().for_each(|x| *x = f(*x));
    match g {
        G::Line(a) => all(a),
        G::Point(a) => all(a),
        G::Circle(a) => all(a),
        G::Arc(a) => all(a),
        G::Trace(a) => all(a),
        G::Solid(a) => all(a),
        G::Face(a) => all(a),
        G::Poly(_, v) => v.iter_mut().for_each(|a| all(a)),
    }
}
fn numbers(g: &G) -> Vec<f64> {
    let mut o = std::cell::RefCell::new(vec![]);
    map(&mut g.clone(), |x| {
        o.borrow_mut().push(x);
        x
    });
    o.get_mut().clone()
}
fn kind_name(g: &G) -> &'static str {
    match g {
        G::Line(_) => "line",
        G::Point(_) => "point",
        G::Circle(_) => "circle",
        G::Arc(_) => "arc",
        G::Trace(_) => "trace",
        G::Solid(_) => "solid",
        G::Face(_) => "face",
        G::Poly(..) => "polyline",
    }
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}
fn compare(c: &mut Case, tag: &str, want: &[Item], got: &[Item]) {
    let kinds = |v: &[Item]| v.iter().map(|i| kind_name(&i.g)).collect::<Vec<_>>().join(",");
    if kinds(want) != kinds(got) {
        return c.fail(format!("{}:items", tag), format!("expected [{}], found [{}]", kinds(want), kinds(got)));
    }
    for (w, g) in want.iter().zip(got) {
        let k = kind_name(&w.g);
        if w.layer != g.layer {
            c.fail(format!("{}:{}:layer", tag, k), format!("{:?} instead of {:?}", g.layer, w.layer));
        }
        if w.color != g.color {
            c.fail(format!("{}:{}:color", tag, k), format!("{} instead of {}", g.color, w.color));
        }
        let (a, b) = (numbers(&w.g), numbers(&g.g));
        let closed = matches!((&w.g, &g.g), (G::Poly(x, _), G::Poly(y, _)) if x != y);
        if a.len() != b.len() || closed || a.iter().zip(&b).any(|(x, y)| !close(*x, *y)) {
            c.fail(format!("{}:{}:geometry", tag, k), format!("{:?} instead of {:?}", g.g, w.g));
        }
    }
}
/// everything but what DXB holds must be as in a new entity
fn plain(c: &mut Case, tag: &str, es: &[&Entity]) {
    for e in es {
        let mut v = serde_json::to_value(*e).unwrap();
        let k = kind(&v);
        let mut com = default_entity_common();
        for f in ["layer", "color", "handle"] {
            com[f] = v["common"][f].clone();
        }
        let mut o = vec![];
        diff("common", &com, &v["common"], true, &mut o);
        let sp = &mut v["specific"][&k];
        let mut def = default_entity(&k);
        let own: &[&str] = match k.as_str() {
            "Line" => &["p1", "p2"],
            "ModelPoint" => &["location"],
            "Circle" => &["center", "radius"],
            "Arc" => &["center", "radius", "start_angle", "end_angle"],
            "Polyline" => &["flags", "__vertices_and_handles", "__seqend_handle"],
            _ => &["first_corner", "second_corner", "third_corner", "fourth_corner"],
        };
        if k == "Polyline" && sp["flags"].as_i64().unwrap_or(0) & !1 != 0 {
            c.fail(format!("{}:flags", tag), format!("polyline flags {}", sp["flags"]));
        }
        for f in own {
            sp.as_object_mut().unwrap().remove(*f);
            def.as_object_mut().unwrap().remove(*f);
        }
        diff(&k, &def, sp, true, &mut o);
        for (p, m) in o {
            c.fail(format!("{}:{}", tag, p), m);
        }
    }
}
fn contents(d: &Drawing) -> Vec<&Entity> {
    d.entities().collect()
}

pub fn run(s: &mut Src, _idx: u64, c: &mut Case) {
    if s.flip() {
        foreign(s, c)
    } else {
        cycle(s, c)
    }
}

// ------------------------------------------------------------------ own files
fn gen_dxb_entity(s: &mut Src) -> (Value, Vec<Value>) {
    let name = if s.chance(1, 5) { *s.pick(ENTITIES) } else { *s.pick(KINDS) };
    let name = if standalone(name) && !matches!(name, "Seqend" | "Vertex") { name } else { "Text" };
    let (mut v, kids) = gen_entity(s, name, &ECfg { xdata: false, ext: false, children: true });
    if s.flip() {
        v["common"]["layer"] = json!(s.pick(&["0", "A", "B", "é ü", "long layer name 12345"]));
    }
    if s.flip() {
        v["common"]["color"] = json!({"raw_value": s.pick(&[0, 1, 256, 7, 255, -3, 32767])});
    }
    (v, kids)
}
fn cycle(s: &mut Src, c: &mut Case) {
    let mut d = Drawing::new();
    let n = s.size(10);
    let nb = if s.chance(1, 3) { 1 + s.us(2) } else { 0 };
    for _ in 0..nb {
        let b = gen_block(s);
        let ents: Vec<_> = (0..s.size(4)).map(|_| gen_dxb_entity(s)).collect();
        let b = to_block(&mut d, &b, &ents);
        d.add_block(b);
    }
    let n = if nb > 0 && s.flip() { 0 } else { n };
    for _ in 0..n {
        let (v, kids) = gen_dxb_entity(s);
        let e = build_entity(&mut d, &v, &kids);
        d.add_entity(e);
    }
    let block = if n == 0 { d.blocks().next() } else { None };
    let stored: Vec<&Entity> = match block {
        Some(b) => b.entities.iter().collect(),
        None => contents(&d),
    };
    let narrow = |x: f64| (x as f32) as f64;
    let want: Vec<Item> = stored.iter().filter_map(|e| item(e)).map(|mut i| {
        map(&mut i.g, narrow);
        i.layer = i.layer.chars().map(|c| if (1..=255).contains(&(c as u32)) { c } else { '?' }).collect();
        i
    }).collect();
    c.nontrivial = !want.is_empty();
    c.desc = format!("save: {} blocks, [{}]", nb, stored.iter().map(|e| kind(&serde_json::to_value(*e).unwrap())).collect::<Vec<_>>().join(","));
    c.class(if block.is_some() { "save:block" } else { "save:entities" });
    want.iter().for_each(|w| c.class(format!("save:{}", kind_name(&w.g))));
    let base = block.map(|b| [narrow(b.base_point.x), narrow(b.base_point.y)]);
    let mut bytes = vec![];
    if let Err(e) = d.save_dxb(&mut bytes) {
        return c.fail("save-error", format!("{:?}", e));
    }
    c.ident(&bytes);
    match decode(&bytes) {
        Ok((b, items)) => {
            compare(c, "file", &want, &items);
            if b != base {
                c.fail("file:base", format!("block base {:?} instead of {:?}", b, base));
            }
        }
        Err(e) => return c.fail("file:malformed", e),
    }
    loaded(c, "cycle", &bytes, &want, base);
}
fn loaded(c: &mut Case, tag: &str, bytes: &[u8], want: &[Item], base: Option<[f64; 2]>) {
    let d = match load(bytes) {
        Ok(d) => d,
        Err(e) => return c.fail(format!("{}:load-error", tag), e),
    };
    let es: Vec<&Entity> = match base {
        Some(b) => {
            if d.blocks().count() != 1 || d.entities().count() != 0 {
                return c.fail(format!("{}:block", tag), format!("{} blocks and {} entities instead of one block", d.blocks().count(), d.entities().count()));
            }
            let k = d.blocks().next().unwrap();
            if !close(k.base_point.x, b[0]) || !close(k.base_point.y, b[1]) || k.base_point.z != 0.0 {
                c.fail(format!("{}:base", tag), format!("block base {:?} instead of {:?}", k.base_point, b));
            }
            k.entities.iter().collect()
        }
        None => {
            if d.blocks().count() != 0 {
                return c.fail(format!("{}:block", tag), "a block from nowhere");
            }
            contents(&d)
        }
    };
    let odd: Vec<String> = es.iter().filter(|e| item(e).is_none()).map(|e| kind(&serde_json::to_value(*e).unwrap())).collect();
    if !odd.is_empty() {
        return c.fail(format!("{}:items", tag), format!("unexpected {:?}", odd));
    }
    let got: Vec<Item> = es.iter().filter_map(|e| item(e)).collect();
    compare(c, tag, want, &got);
    plain(c, tag, &es);
}

// ------------------------------------------------------------------ independent reader
struct R<'a> {
    b: &'a [u8],
    i: usize,
    float: bool,
    scale: f64,
}
impl R<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], String> {
        let r = self.b.get(self.i..self.i + n).ok_or("ends inside an item")?;
        self.i += n;
        Ok(r)
    }
    fn w(&mut self) -> Result<i16, String> {
        Ok(i16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn f32(&mut self) -> Result<f64, String> {
        Ok(f32::from_le_bytes(self.take(4)?.try_into().unwrap()) as f64)
    }
    fn i32(&mut self) -> Result<f64, String> {
        Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap()) as f64)
    }
    fn n(&mut self) -> Result<f64, String> {
        if self.float { self.f32() } else { Ok(self.w()? as f64 * self.scale) }
    }
    fn a(&mut self) -> Result<f64, String> {
        if self.float { self.f32() } else { Ok(self.i32()? / 1e6) }
    }
    fn u(&mut self) -> Result<f64, String> {
        if self.float { self.f32() } else { Ok(self.i32()? / 65536.0) }
    }
    fn ns<const N: usize>(&mut self) -> Result<[f64; N], String> {
        let mut o = [0.0; N];
        for x in o.iter_mut() {
            *x = self.n()?;
        }
        Ok(o)
    }
}
fn decode(b: &[u8]) -> Result<(Option<[f64; 2]>, Vec<Item>), String> {
    decode_at(b, &mut vec![])
}
/// also tells where the items start
fn decode_at(b: &[u8], starts: &mut Vec<usize>) -> Result<(Option<[f64; 2]>, Vec<Item>), String> {
    let head = b"AutoCAD DXB 1.0\r\n\x1a\0";
    if !b.starts_with(head) {
        return Err("no DXB header".into());
    }
    let mut r = R { b, i: head.len(), float: false, scale: 1.0 };
    let mut base = None;
    let (mut layer, mut color) = ("0".to_string(), 256i16);
    let mut o: Vec<Item> = vec![];
    let mut poly: Option<usize> = None;
    let mut last = [0.0; 3];
    let mut tr = [0.0; 4];
    loop {
        starts.push(r.i);
        let t = r.take(1)?[0];
        let g = match t {
            0 => break,
            1 | 21 => {
                let a = r.ns::<6>()?;
                last.copy_from_slice(&a[3..]);
                G::Line(a)
            }
            130 | 137 => {
                let to = if t == 130 {
                    let a = r.ns::<2>()?;
                    [a[0], a[1], 0.0]
                } else {
                    r.ns::<3>()?
                };
                let a = [last[0], last[1], last[2], to[0], to[1], to[2]];
                last = to;
                G::Line(a)
            }
            2 => G::Point(r.ns()?),
            3 => G::Circle(r.ns()?),
            8 => {
                let a = r.ns::<3>()?;
                G::Arc([a[0], a[1], a[2], r.a()?, r.a()?])
            }
            9 => {
                let a = r.ns::<8>()?;
                tr.copy_from_slice(&a[4..]);
                G::Trace(a)
            }
            131 => {
                let a = r.ns::<4>()?;
                let g = G::Trace([tr[0], tr[1], tr[2], tr[3], a[0], a[1], a[2], a[3]]);
                tr = a;
                g
            }
            11 => G::Solid(r.ns()?),
            22 => G::Face(r.ns()?),
            19 => {
                poly = Some(o.len());
                G::Poly(r.w()? != 0, vec![])
            }
            17 => {
                if poly.take().is_none() {
                    return Err("sequence end without a polyline".into());
                }
                continue;
            }
            20 | 133 | 134 => {
                let Some(G::Poly(_, vs)) = poly.map(|i| &mut o[i].g) else {
                    return Err("vertex outside a polyline".into());
                };
                match t {
                    20 => {
                        let a = r.ns::<2>()?;
                        vs.push([a[0], a[1], 0.0, 0.0, 0.0]);
                    }
                    133 => vs.last_mut().ok_or("bulge before a vertex")?[2] = r.u()?,
                    _ => {
                        let a = r.ns::<2>()?;
                        vs.last_mut().ok_or("width before a vertex")?[3..].copy_from_slice(&a);
                    }
                }
                continue;
            }
            128 => {
                r.scale = f64::from_le_bytes(r.take(8)?.try_into().unwrap());
                continue;
            }
            129 => {
                layer.clear();
                loop {
                    match r.take(1)?[0] {
                        0 => break,
                        b => layer.push(b as char),
                    }
                }
                continue;
            }
            132 => {
                if base.is_some() || !o.is_empty() {
                    return Err("block base is not the first item".into());
                }
                base = Some(r.ns::<2>()?);
                continue;
            }
            135 => {
                r.float = r.w()? != 0;
                continue;
            }
            136 => {
                color = r.w()?;
                continue;
            }
            t => return Err(format!("unknown item {}", t)),
        };
        if t != 19 && poly.is_some() {
            return Err("polyline without sequence end".into());
        }
        o.push(Item { layer: layer.clone(), color, g });
    }
    if r.i != b.len() {
        return Err("bytes after the end".into());
    }
    Ok((base, o))
}

// ------------------------------------------------------------------ other programs' files
fn foreign(s: &mut Src, c: &mut Case) {
    let (b, desc) = foreign_bytes(s);
    c.ident(&b);
    c.nontrivial = true;
    c.desc = format!("file: {}", desc.join(" "));
    desc.iter().for_each(|d| c.class(format!("file:{}", d)));
    let (base, want) = decode(&b).unwrap_or_else(|e| panic!("harness: {}", e));
    loaded(c, "foreign", &b, &want, base);
}
/// a file of another program and where its items start
pub fn foreign_file(s: &mut Src) -> (Vec<u8>, Vec<usize>) {
    let b = foreign_bytes(s).0;
    let mut starts = vec![];
    decode_at(&b, &mut starts).unwrap_or_else(|e| panic!("harness: {}", e));
    (b, starts)
}
fn foreign_bytes(s: &mut Src) -> (Vec<u8>, Vec<&'static str>) {
    let mut b: Vec<u8> = b"AutoCAD DXB 1.0\r\n\x1a\0".to_vec();
    let mut float = false;
    let n = 1 + s.size(14);
    let mut desc = vec![];
    let num = |s: &mut Src, float: bool, b: &mut Vec<u8>| {
        if float {
            b.extend((gen_f64(s) as f32).to_le_bytes())
        } else {
            b.extend((gen_int(s, i16::MIN as i64, i16::MAX as i64) as i16).to_le_bytes())
        }
    };
    let wide = |s: &mut Src, float: bool, b: &mut Vec<u8>| {
        if float {
            b.extend((gen_f64(s) as f32).to_le_bytes())
        } else {
            b.extend((gen_int(s, i32::MIN as i64, i32::MAX as i64) as i32).to_le_bytes())
        }
    };
    let setting = |s: &mut Src, b: &mut Vec<u8>, float: &mut bool| match s.below(4) {
        0 => {
            *float = s.flip();
            b.push(135);
            b.extend((if *float { *s.pick(&[1i16, 1, 1, -1, 2]) } else { 0 }).to_le_bytes());
            "mode"
        }
        1 => {
            b.push(128);
            b.extend(s.pick(&[1.0f64, 0.5, 0.001, 2.0, 1000.0, 0.1, 3.0, -1.0]).to_le_bytes());
            "scale"
        }
        2 => {
            b.push(129);
            let n = s.pick(&["0", "A", "WALLS", "B C", "\u{e9}x", ""]).to_string();
            b.extend(n.chars().map(|c| c as u8));
            b.push(0);
            "layer"
        }
        _ => {
            b.push(136);
            b.extend((*s.pick(&[1i16, 7, 256, 0, 255, 3, 100])).to_le_bytes());
            "color"
        }
    };
    let based = s.chance(1, 4);
    if based {
        for _ in 0..s.us(3) {
            desc.push(setting(s, &mut b, &mut float));
        }
        b.push(132);
        num(s, float, &mut b);
        num(s, float, &mut b);
        desc.push("base");
    }
    let (mut lines, mut traces) = (false, false);
    for _ in 0..n {
        let settings = s.chance(1, 2);
        if settings {
            desc.push(setting(s, &mut b, &mut float));
        }
        let t = *s.pick(&[1u8, 2, 3, 8, 9, 11, 19, 21, 22, 130, 131, 137, 19]);
        let t = if (!lines && matches!(t, 130 | 137)) || (!traces && t == 131) { 21 } else { t };
        b.push(t);
        let k = match t {
            1 | 21 => {
                lines = true;
                6
            }
            2 | 130 => 2,
            3 | 137 => 3,
            8 => {
                (0..3).for_each(|_| num(s, float, &mut b));
                (0..2).for_each(|_| wide(s, float, &mut b));
                0
            }
            9 | 11 => {
                traces |= t == 9;
                8
            }
            22 => 12,
            131 => 4,
            _ => {
                b.extend((*s.pick(&[0i16, 1, 1])).to_le_bytes());
                for _ in 0..s.size(6) {
                    if s.chance(1, 6) {
                        desc.push(setting(s, &mut b, &mut float));
                    }
                    b.push(20);
                    num(s, float, &mut b);
                    num(s, float, &mut b);
                    if s.chance(1, 3) {
                        b.push(133);
                        wide(s, float, &mut b);
                    }
                    if s.chance(1, 3) {
                        b.push(134);
                        num(s, float, &mut b);
                        num(s, float, &mut b);
                    }
                }
                b.push(17);
                0
            }
        };
        (0..k).for_each(|_| num(s, float, &mut b));
        desc.push(match t {
            1 => "line",
            21 => "line3d",
            130 => "line-ext",
            137 => "line-ext3d",
            131 => "trace-ext",
            2 => "point",
            3 => "circle",
            8 => "arc",
            9 => "trace",
            11 => "solid",
            22 => "face",
            _ => "polyline",
        });
    }
    b.push(0);
    (b, desc)
}

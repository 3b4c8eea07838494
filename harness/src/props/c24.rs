//! C24: flag, colour, line weight, version and point helpers obey their laws
use crate::defaults::*;
use crate::engine::{guard, Case, Prop, Src};
use crate::flags::{self, Flag};
use crate::gen::*;
use crate::props::c06::gen_header;
use crate::props::c07::{gen_block, gen_class};
use crate::reflect::*;
use dxf::entities::*;
use dxf::enums::*;
use dxf::objects::*;
use dxf::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "a case makes an item of one of the 23 kinds with flags, with generated values in all fields, applies 1-24 generated setter calls (flags; for a third of the cases random bits in the flag fields first) and compares the whole item and every getter with a model after each call; or does the same with colours, line weights, the version words of proxies, view modes of a drawing, or checks constructors, version names, points, vectors, handles and code pairs for generated values against their definitions; non-trivial: at least two setter calls, or a helper case; distinct by the sequence of calls",
        quick: 60_000,
        thorough: 1_000_000,
        run,
        assumptions: &["the bit of each flag is the one of the DXF reference, as listed in harness/src/flags.rs"],
        level: "exploration",
        mem_mb: 1024,
        cpu_s: 60,
        workers: 8,
    }
}

fn drive<T: Serialize + DeserializeOwned + Clone>(s: &mut Src, c: &mut Case, name: &str, mut v: Value, flags: &[Flag<T>]) {
    c.class(format!("flags of {}", name));
    c.desc = name.to_string();
    if s.chance(2, 3) {
        for f in flags {
            if s.chance(1, 3) {
                let bits = match s.below(4) {
                    0 => 0,
                    1 => 0x7FFF,
                    2 => 1 << s.below(15),
                    _ => s.below(0x8000) as i64,
                };
                v[f.0] = json!(bits);
            }
        }
    }
    let mut x: T = match serde_json::from_value(v) {
        Ok(x) => x,
        Err(e) => panic!("harness: {} {}", name, e),
    };
    let mut model = serde_json::to_value(&x).unwrap();
    let n = 1 + s.size(24);
    c.nontrivial = n > 1;
    let mut calls = vec![];
    for i in 0..=n {
        for f in flags {
            c.evals += 1;
            let want = model[f.0].as_i64().unwrap() & f.1 != 0;
            if (f.3)(&x) != want {
                return c.fail(format!("get:{}.{}", name, f.2), format!("{} is {} with {} = {} after {:?}", f.2, !want, f.0, model[f.0], calls));
            }
        }
        if i == n {
            break;
        }
        let f = s.pick(flags);
        let val = s.flip();
        calls.push(format!("{}={}", f.2, val));
        (f.4)(&mut x, val);
        let old = model[f.0].as_i64().unwrap();
        model[f.0] = json!(if val { old | f.1 } else { old & !f.1 });
        let got = serde_json::to_value(&x).unwrap();
        if got != model {
            let mut o = vec![];
            diff("", &model, &got, true, &mut o);
            return c.fail(format!("set:{}.{}", name, f.2), format!("after {:?}: {}", calls, o.into_iter().map(|(p, m)| format!("{}: {}", p, m)).collect::<Vec<_>>().join("; ")));
        }
    }
    c.ident(format!("{} {} {:?}", name, model, calls).as_bytes());
    c.desc = format!("{}: {:?}", name, calls.iter().take(8).collect::<Vec<_>>());
}
fn entity(s: &mut Src, name: &str) -> Value {
    let d = gen_density(s);
    gen_spec_entity(s, name, d)
}
fn object(s: &mut Src, name: &str) -> Value {
    let d = gen_density(s);
    gen_spec_object(s, name, d)
}

fn color(s: &mut Src, c: &mut Case) {
    c.class("colour");
    c.nontrivial = true;
    let raw = match s.below(4) {
        0 => *s.pick(&[0i64, 1, 255, 256, 257, 258, -1, -7, -255, -256, i16::MAX as i64, i16::MIN as i64]),
        1 => s.range(-300, 300),
        _ => s.range(i16::MIN as i64, i16::MAX as i64),
    };
    let mut x: Color = serde_json::from_value(json!({ "raw_value": raw })).unwrap();
    let mut m = raw;
    let mut calls = vec![format!("raw {}", raw)];
    for _ in 0..1 + s.size(6) {
        let want = (m == 256, m == 257, m == 0, m < 0, (1..=255).contains(&m), if (1..=255).contains(&m) { Some(m as u8) } else { None });
        let got = (x.is_by_layer(), x.is_by_entity(), x.is_by_block(), x.is_turned_off(), x.is_index(), x.index());
        c.evals += 1;
        if want != got || serde_json::to_value(&x).unwrap() != json!({ "raw_value": m }) {
            return c.fail("colour", format!("{:?}: {:?} instead of {:?}", calls, got, want));
        }
        let k = s.below(8);
        let i = if s.chance(1, 4) { *s.pick(&[0u8, 1, 127, 128, 254, 255]) } else { s.below(256) as u8 };
        let (t, v) = match k {
            0 => {
                x.set_by_layer();
                ("set_by_layer", 256)
            }
            1 => {
                x.set_by_block();
                ("set_by_block", 0)
            }
            2 => {
                x.set_by_entity();
                ("set_by_entity", 257)
            }
            3 => {
                x.turn_off();
                if !x.is_turned_off() {
                    return c.fail("colour", format!("{:?}: on after turn_off", calls));
                }
                // only that it is off is specified
                ("turn_off", serde_json::to_value(&x).unwrap()["raw_value"].as_i64().unwrap())
            }
            4 => {
                x = Color::by_layer();
                ("by_layer", 256)
            }
            5 => {
                x = Color::by_block();
                ("by_block", 0)
            }
            6 => {
                x = Color::by_entity();
                ("by_entity", 257)
            }
            _ => {
                x = Color::from_index(i);
                ("from_index", i as i64)
            }
        };
        m = v;
        calls.push(format!("{} {}", t, v));
    }
    c.ident(format!("{:?}", calls).as_bytes());
    c.desc = format!("{:?}", calls);
}

fn weight(s: &mut Src, c: &mut Case) {
    c.class("line weight");
    c.nontrivial = true;
    let raw = match s.below(3) {
        0 => s.range(-4, 4),
        _ => s.range(i16::MIN as i64, i16::MAX as i64),
    };
    c.ident(&raw.to_le_bytes());
    c.desc = format!("line weight {}", raw);
    let x: LineWeight = serde_json::from_value(json!({ "raw_value": raw })).unwrap();
    for (w, r) in [(x, raw), (LineWeight::by_block(), -1), (LineWeight::by_layer(), -2)] {
        c.evals += 1;
        if i64::from(w.raw_value()) != r || w.is_by_block() != (r == -1) || w.is_by_layer() != (r == -2) {
            c.fail("line-weight", format!("{:?} for {}", w, r));
        }
    }
}

fn proxy(s: &mut Src, c: &mut Case) {
    c.class("proxy");
    c.nontrivial = true;
    let mut v = serde_json::to_value(ProxyEntity::default()).unwrap();
    let (mut lo, mut hi) = (s.below(0x10000), s.below(0x10000));
    v["__object_drawing_format"] = json!(hi << 16 | lo);
    let mut x: ProxyEntity = serde_json::from_value(v).unwrap();
    let mut calls = vec![format!("{:X}{:04X}", hi, lo)];
    for _ in 0..1 + s.size(5) {
        let n = s.below(0x10000);
        if s.flip() {
            x.set_object_drawing_format_version(n as i32);
            lo = n;
            calls.push(format!("version {}", n));
        } else {
            x.set_object_mainenance_release_version(n as i32);
            hi = n;
            calls.push(format!("maintenance {}", n));
        }
        c.evals += 1;
        let got = (x.object_drawing_format_version() as i64, x.object_maintenance_release_version() as i64);
        if got != (lo as i64, hi as i64) {
            return c.fail("proxy-version", format!("{:?}: {:?} instead of {:?}", calls, got, (lo, hi)));
        }
    }
    c.ident(format!("{:?}", calls).as_bytes());
    c.desc = format!("{:?}", calls);
}

const NAMES: &[(&str, AcadVersion)] = &[
    ("MC0.0", AcadVersion::Version_1_0),
    ("AC1.2", AcadVersion::Version_1_2),
    ("AC1.40", AcadVersion::Version_1_40),
    ("AC1.50", AcadVersion::Version_2_05),
    ("AC2.10", AcadVersion::Version_2_10),
    ("AC2.21", AcadVersion::Version_2_21),
    ("AC2.22", AcadVersion::Version_2_22),
    ("AC1002", AcadVersion::Version_2_5),
    ("AC1003", AcadVersion::Version_2_6),
    ("AC1004", AcadVersion::R9),
    ("AC1006", AcadVersion::R10),
    ("AC1009", AcadVersion::R11),
    ("AC1009", AcadVersion::R12),
    ("AC1012", AcadVersion::R13),
    ("AC1014", AcadVersion::R14),
    ("AC1015", AcadVersion::R2000),
    ("AC1018", AcadVersion::R2004),
    ("AC1021", AcadVersion::R2007),
    ("AC1024", AcadVersion::R2010),
    ("AC1027", AcadVersion::R2013),
    ("AC1032", AcadVersion::R2018),
];
const OTHER: &[(&str, AcadVersion)] = &[
    ("AC1001", AcadVersion::Version_2_22),
    ("AC1011", AcadVersion::R13),
    ("14", AcadVersion::R14),
    ("14.01", AcadVersion::R14),
    ("15.0", AcadVersion::R2000),
    ("15.05", AcadVersion::R2000),
    ("15.06", AcadVersion::R2000),
    ("16.0", AcadVersion::R2004),
    ("16.1", AcadVersion::R2004),
    ("16.2", AcadVersion::R2004),
    ("17.0", AcadVersion::R2007),
    ("17.1", AcadVersion::R2007),
    ("17.2", AcadVersion::R2007),
    ("18.0", AcadVersion::R2010),
    ("18.1", AcadVersion::R2010),
    ("18.2", AcadVersion::R2010),
    ("19.0", AcadVersion::R2013),
    ("19.1", AcadVersion::R2013),
    ("19.2", AcadVersion::R2013),
    ("19.3", AcadVersion::R2013),
];
fn version(s: &mut Src, c: &mut Case) {
    c.class("version");
    c.nontrivial = true;
    let (i, j) = (s.below(NAMES.len() as u64) as usize, s.below(NAMES.len() as u64) as usize);
    let ((n, v), (_, w)) = (NAMES[i], NAMES[j]);
    c.evals += 4;
    if v.to_string() != n {
        c.fail("version-name", format!("{:?} is called {}", v, v));
    }
    let back = if v == AcadVersion::R11 { AcadVersion::R12 } else { v };
    match AcadVersion::from(n.to_string()) {
        Ok(x) if x == back => (),
        x => c.fail("version-from", format!("{} gives {:?}", n, x.ok())),
    }
    if (v < w, v <= w, v == w, v >= w, v > w) != (i < j, i <= j, i == j, i >= j, i > j) {
        c.fail("version-order", format!("{:?} {:?}", v, w));
    }
    let (n, v) = *s.pick(OTHER);
    match AcadVersion::from(n.to_string()) {
        Ok(x) if x == v => (),
        x => c.fail("version-from", format!("{} gives {:?}", n, x.ok())),
    }
    let t = match s.below(3) {
        0 => format!("AC10{:02}", s.below(100)),
        1 => format!("{}.{}", s.below(30), s.below(10)),
        _ => gen_text(s),
    };
    let known = NAMES.iter().chain(OTHER).any(|(n, _)| *n == t);
    if AcadVersion::from(t.clone()).is_ok() != known {
        c.fail("version-unknown", format!("{:?}", t));
    }
    c.ident(format!("{} {} {}", i, j, t).as_bytes());
    c.desc = format!("{:?} {:?} {} {:?}", NAMES[i].1, NAMES[j].1, n, t);
}

fn bits(p: &Point) -> [u64; 3] {
    [p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]
}
fn geometry(s: &mut Src, c: &mut Case) {
    c.class("geometry");
    c.nontrivial = true;
    let v: Vec<f64> = (0..12).map(|_| gen_f64(s)).collect();
    let p: Vec<Point> = v.chunks(3).map(|q| Point::new(q[0], q[1], q[2])).collect();
    let mut law = |what: &str, ok: bool| {
        c.evals += 1;
        if !ok {
            c.fail(format!("helper:{}", what), format!("{:?}", v));
        }
    };
    for (i, q) in p.iter().enumerate() {
        let t = q.tuple();
        law("Point::new", bits(q) == [v[3 * i].to_bits(), v[3 * i + 1].to_bits(), v[3 * i + 2].to_bits()]);
        law("Point::tuple", (t.0.to_bits(), t.1.to_bits(), t.2.to_bits()) == (q.x.to_bits(), q.y.to_bits(), q.z.to_bits()));
        law("point!", bits(&point!(q.x, q.y, q.z)) == bits(q) && bits(&point!(q.x, q.y)) == [q.x.to_bits(), q.y.to_bits(), 0] && bits(&point!(q.x)) == [q.x.to_bits(), 0, 0]);
        let w = Vector::new(q.x, q.y, q.z);
        law("Vector::new", [w.x.to_bits(), w.y.to_bits(), w.z.to_bits()] == bits(q));
    }
    law("Point::origin", bits(&Point::origin()) == [0, 0, 0]);
    let u = |x: Vector| (x.x, x.y, x.z);
    law("axes", u(Vector::zero()) == (0.0, 0.0, 0.0) && u(Vector::x_axis()) == (1.0, 0.0, 0.0) && u(Vector::y_axis()) == (0.0, 1.0, 0.0) && u(Vector::z_axis()) == (0.0, 0.0, 1.0));
    let m = serde_json::to_value(TransformationMatrix::identity()).unwrap();
    law("identity", (1..5).all(|i| (1..5).all(|j| m[format!("m{}{}", i, j)].as_f64() == Some(if i == j { 1.0 } else { 0.0 }))));
    // constructors set exactly their parameters
    let j = |v: Value, set: &[(&str, Value)]| {
        let mut v = v;
        for (k, x) in set {
            assert!(v.get(*k).is_some(), "harness: {}", k);
            v[*k] = x.clone();
        }
        v
    };
    let pj = |p: &Point| json!({"x": p.x, "y": p.y, "z": p.z});
    let q = |i: usize| p[i].clone();
    let e = |x: Value, name: &str, set: &[(&str, Value)]| x == j(default_entity(name), set);
    law("Arc::new", e(serde_json::to_value(Arc::new(q(0), v[3], v[4], v[5])).unwrap(), "Arc", &[("center", pj(&p[0])), ("radius", json!(v[3])), ("start_angle", json!(v[4])), ("end_angle", json!(v[5]))]));
    law("Circle::new", e(serde_json::to_value(Circle::new(q(0), v[3])).unwrap(), "Circle", &[("center", pj(&p[0])), ("radius", json!(v[3]))]));
    law("Line::new", e(serde_json::to_value(Line::new(q(0), q(1))).unwrap(), "Line", &[("p1", pj(&p[0])), ("p2", pj(&p[1]))]));
    law("ModelPoint::new", e(serde_json::to_value(ModelPoint::new(q(0))).unwrap(), "ModelPoint", &[("location", pj(&p[0]))]));
    law("Vertex::new", e(serde_json::to_value(Vertex::new(q(0))).unwrap(), "Vertex", &[("location", pj(&p[0]))]));
    let four = [("first_corner", pj(&p[0])), ("second_corner", pj(&p[1])), ("third_corner", pj(&p[2])), ("fourth_corner", pj(&p[3]))];
    law("Face3D::new", e(serde_json::to_value(Face3D::new(q(0), q(1), q(2), q(3))).unwrap(), "Face3D", &four));
    law("Solid::new", e(serde_json::to_value(Solid::new(q(0), q(1), q(2), q(3))).unwrap(), "Solid", &four));
    law("Trace::new", e(serde_json::to_value(Trace::new(q(0), q(1), q(2), q(3))).unwrap(), "Trace", &four));
    let g = GeoMeshPoint::new(q(0), q(1));
    law("GeoMeshPoint::new", bits(&g.source) == bits(&p[0]) && bits(&g.destination) == bits(&p[1]));
    let k = s.below(256) as u8;
    let t = gen_text(s);
    let x = MLineStyleElement::new(v[0], Color::from_index(k), t.clone());
    c.evals += 1;
    if x.offset.to_bits() != v[0].to_bits() || x.color != Color::from_index(k) || x.line_type != t {
        c.fail("helper:MLineStyleElement::new", format!("{:?}", x));
    }
    c.ident(format!("{:?} {}", v, t).as_bytes());
    c.desc = format!("{:?}", &v[..6]);
}

fn pairs(s: &mut Src, c: &mut Case) {
    c.class("code pairs and handles");
    c.nontrivial = true;
    let code = s.range(-5, 1071) as i32;
    let off = s.below(1 << 40) as usize;
    let k = s.below(6);
    let (a, b, d, t, by, fl) = (
        s.range(i16::MIN as i64, i16::MAX as i64) as i16,
        s.any64() as i64,
        gen_f64(s),
        gen_text(s),
        gen_bytes(s, 20),
        s.flip(),
    );
    let mut p = match k {
        0 => CodePair::new_bool(code, fl),
        1 => CodePair::new_i16(code, a),
        2 => CodePair::new_i32(code, b as i32),
        3 => CodePair::new_i64(code, b),
        4 => CodePair::new_f64(code, d),
        _ if fl => CodePair::new_binary(code, by.clone()),
        _ => CodePair::new_string(code, &t),
    };
    p.offset = off;
    c.ident(format!("{} {:?} {}", code, p.value, off).as_bytes());
    c.desc = format!("{} {:?}", code, p.value);
    c.evals += 7;
    // (kind of value, read as: bool i16 i32 i64 f64 string binary)
    let got = [
        p.assert_bool().map(|x| json!(x)),
        p.assert_i16().map(|x| json!(x)),
        p.assert_i32().map(|x| json!(x)),
        p.assert_i64().map(|x| json!(x)),
        p.assert_f64().map(|x| json!(x)),
        p.assert_string().map(|x| json!(x)),
        p.assert_binary().map(|x| json!(x)),
    ];
    let want: Vec<(usize, Value)> = match k {
        0 => vec![(0, json!(fl)), (1, json!(fl as i16))],
        1 => vec![(1, json!(a))],
        2 => vec![(2, json!(b as i32))],
        3 => vec![(3, json!(b))],
        4 => vec![(4, json!(d))],
        _ if fl => vec![(6, json!(by))],
        _ => vec![(5, json!(t))],
    };
    for (i, g) in got.into_iter().enumerate() {
        let w = want.iter().find(|(j, _)| *j == i).map(|(_, v)| v.clone());
        match (g, w) {
            (Ok(x), Some(y)) if x == y => (),
            (Err(DxfError::WrongValueType(o)), None) if o == off => (),
            (g, w) => c.fail(format!("pair:{}", i), format!("{:?} read as number {} gives {:?}, not {:?}", p.value, i, g.ok(), w)),
        }
    }
    if p.code != code {
        c.fail("pair:code", format!("{}", p.code));
    }
    // handles
    let h = if s.chance(1, 8) { *s.pick(&[0u64, 1, u64::MAX - 1]) } else { gen_handle(s) };
    let x = Handle(h);
    if x.is_empty() != (h == 0) || x.as_string() != format!("{:X}", h) || x.next_handle_value().0 != h.saturating_add(1) || Handle::empty().0 != 0 {
        c.fail("handle", format!("{:X}", h));
    }
}

fn view_mode(s: &mut Src, c: &mut Case) {
    let raw = if s.flip() { s.below(32) as i64 } else { s.range(i16::MIN as i64, i16::MAX as i64) };
    let x = ViewMode::from_i16(raw as i16);
    if i64::from(x.raw()) != raw {
        c.fail("view-mode-raw", format!("{} from {}", x.raw(), raw));
    }
    let v = serde_json::to_value(x).unwrap();
    drive(s, c, "ViewMode", v, flags::VIEW_MODE);
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    if let Err(e) = guard(|| one(s, idx, c)) {
        c.fail(format!("panic:{}", e), e);
    }
}
fn one(s: &mut Src, idx: u64, c: &mut Case) {
    macro_rules! ent {
        ($n:ident, $f:ident) => {{
            let v = entity(s, stringify!($n));
            drive(s, c, stringify!($n), v, flags::$f)
        }};
    }
    macro_rules! obj {
        ($n:ident, $f:ident) => {{
            let v = object(s, stringify!($n));
            drive(s, c, stringify!($n), v, flags::$f)
        }};
    }
    match idx % 32 {
        0 => ent!(Face3D, FACE3_D),
        1 => ent!(AttributeDefinition, ATTRIBUTE_DEFINITION),
        2 => ent!(Attribute, ATTRIBUTE),
        3 => ent!(Image, IMAGE),
        4 => ent!(LwPolyline, LW_POLYLINE),
        5 => ent!(MLine, MLINE),
        6 => ent!(Polyline, POLYLINE),
        7 => ent!(RText, RTEXT),
        8 => ent!(Spline, SPLINE),
        9 => ent!(Text, TEXT),
        10 => ent!(DgnUnderlay, DGN_UNDERLAY),
        11 => ent!(DwfUnderlay, DWF_UNDERLAY),
        12 => ent!(PdfUnderlay, PDF_UNDERLAY),
        13 => ent!(Vertex, VERTEX),
        14 => ent!(Wipeout, WIPEOUT),
        15 => obj!(DimensionAssoc, DIMENSION_ASSOC),
        16 => obj!(Layout, LAYOUT),
        17 => obj!(MLineStyle, MLINE_STYLE),
        18 => obj!(PlotSettings, PLOT_SETTINGS),
        19 => {
            let v = gen_header(s, 2);
            drive::<Header>(s, c, "Header", v, flags::HEADER)
        }
        20 => {
            let v = gen_block(s);
            drive::<Block>(s, c, "Block", v, flags::BLOCK)
        }
        21 => {
            let v = gen_class(s);
            drive::<Class>(s, c, "Class", v, flags::CLASS)
        }
        22 | 23 => view_mode(s, c),
        24 | 25 => color(s, c),
        26 => weight(s, c),
        27 => proxy(s, c),
        28 => version(s, c),
        29 => geometry(s, c),
        30 => geometry(s, c),
        _ => pairs(s, c),
    }
}

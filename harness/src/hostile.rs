//! Hostile files: generated files damaged at the level of pairs and of bytes, pair soup, DXB soup.
use crate::defaults::*;
use crate::drawing::*;
use crate::engine::Src;
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use crate::wire::*;

pub const NAMES: &[&str] = &[
    "SECTION", "ENDSEC", "EOF", "TABLE", "ENDTAB", "BLOCK", "ENDBLK", "CLASS", "SEQEND", "VERTEX", "ATTRIB", "ATTDEF", "MTEXT", "POLYLINE", "INSERT", "LINE", "DIMENSION", "LAYER", "LTYPE", "STYLE", "DIMSTYLE", "VIEW", "VPORT", "UCS", "APPID", "BLOCK_RECORD", "", "ACAD_PROXY_ENTITY", "DICTIONARY", "XRECORD",
];
pub const SECTIONS: &[&str] = &["HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS", "THUMBNAILIMAGE", "ACDSDATA", ""];
const CODES: &[i32] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 30, 31, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 105, 110, 120,
    130, 140, 141, 142, 145, 160, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 210, 220, 230, 270, 280, 281, 282, 283, 284, 290, 291, 292, 300, 301, 302, 303, 304, 310, 311, 320, 330, 331, 340, 341, 342, 343, 350, 360, 361, 370, 380, 390, 400, 410, 420, 421, 430, 440, 450, 460, 470, 480, 999,
    1000, 1001, 1002, 1003, 1004, 1005, 1010, 1011, 1020, 1030, 1040, 1041, 1042, 1070, 1071,
];
const INTS: &[i64] = &[-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 64, 127, 128, 255, 256, 257, 32767, -32768, -32767, 65535, 65536, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, -2, 1000, 100_000];
const REALS: &[f64] = &[0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2_451_544.9, 1e9, -1e9, 1e15, 9.3e18, 1e19, 1e20, 0.1, 360.0, 1e-17];
const STRINGS: &[&str] = &[
    "", "0", "-1", "*", "{", "}", "{ACAD_REACTORS", "{}", "ACAD", "AcDbEntity", "AcDbDictionary", "AC1009", "AC1032", "AC1006", "AC9999", "R2018", "^", "^J", "^ ", "^\u{e9}", "\\U+", "\\U+D800", "\\U+110000", "\\U+00", "FFFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFFF", "0x1", "é\u{1F600}", "{é}", "{}é",
    "{00000000-0000-0000-0000-000000000000}", "{é0000000-0000-0000-0000-00000000000}", "A very long name, longer than the two hundred and fifty five characters that symbol names of the format may have at most: lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor incididunt ut labore et dolore magna aliqua ut enim ad minim veniam quis nostrud exercitation", " ", "STANDARD", "CONTINUOUS", "BYLAYER", "MARGIN", "CELLSTYLE_BEGIN", "GRIDFORMAT_BEGIN", "CONTENTFORMAT_BEGIN", "TABLEFORMAT_BEGIN", "CELLMARGIN_BEGIN", "$ACADVER", "$HANDSEED", "$TDCREATE", "$CLAYER",
];

fn hostile_value(s: &mut Src, c: i32) -> Val {
    if s.chance(1, 40) {
        // of another type
        return match s.below(3) {
            0 => Val::S(s.pick(STRINGS).to_string()),
            1 => Val::I(*s.pick(INTS)),
            _ => Val::D(*s.pick(REALS)),
        };
    }
    match code_width(c) {
        't' => {
            if c == 0 && s.chance(9, 10) {
                Val::S(record_name(s))
            } else {
                Val::S(s.pick(STRINGS).to_string())
            }
        }
        'd' => Val::D(if s.chance(1, 8) { f64::from_bits(s.any64()) } else { *s.pick(REALS) }),
        'x' => {
            let n = *s.pick(&[0usize, 1, 4, 40, 127, 128, 254]);
            Val::X((0..n).map(|i| (i as u8).wrapping_mul(3)).collect())
        }
        's' => Val::I((*s.pick(INTS)).clamp(-32768, 32767)),
        'b' => Val::I(*s.pick(&[0i64, 1, 2, 255, -1])),
        'i' => Val::I((*s.pick(INTS)).clamp(i32::MIN as i64, i32::MAX as i64)),
        'l' => Val::I(*s.pick(INTS)),
        _ => Val::S(s.pick(STRINGS).to_string()),
    }
}
/// a record name of any section
pub fn record_name(s: &mut Src) -> String {
    match s.below(3) {
        0 => s.pick(NAMES).to_string(),
        1 => {
            let k = *s.pick(ENTITIES);
            type_name(s, &model().entities[k])
        }
        _ => {
            let k = *s.pick(OBJECTS);
            type_name(s, &model().objects[k])
        }
    }
}
fn type_name(s: &mut Src, t: &TypeM) -> String {
    s.pick(&t.types).clone()
}
fn any_code(s: &mut Src, near: i32) -> i32 {
    match s.below(4) {
        0 => near,
        1 => (near + s.range(-2, 2) as i32).clamp(0, 1071),
        _ => *s.pick(CODES),
    }
}

/// pairs of a valid generated file, without the file markers
pub fn base(s: &mut Src, k: usize) -> (Vec<Pair>, usize) {
    let ver = gen_version(s);
    let mut d = gen_drawing(s, k, ver, &DCfg { max_items: 3, header: true, ..FULL });
    d.header.version = acad(ver);
    let b = save(&d, false).expect("saving a generated drawing");
    (lex_text(&b, ver >= R2007).expect("reading a saved drawing"), ver)
}

/// one change of a list of pairs; positions favour the parts outside of the header
fn edit(s: &mut Src, ps: &mut Vec<Pair>, start: usize) {
    if ps.is_empty() {
        ps.push(st(0, "EOF"));
    }
    let n = ps.len();
    let lo = if s.chance(7, 8) { start.min(n - 1) } else { 0 };
    let i = lo + s.us(n - lo);
    match s.below(16) {
        0..=4 => {
            let c = ps[i].c;
            ps[i].v = hostile_value(s, c);
        }
        5 => {
            let c = any_code(s, ps[i].c);
            if code_width(c) == code_width(ps[i].c) || s.flip() {
                ps[i].c = c;
                if code_width(c) != code_width(ps[i].c) {
                    ps[i].v = hostile_value(s, c);
                }
            } else {
                ps[i] = Pair { c, v: hostile_value(s, c) };
            }
        }
        6 => {
            let m = 1 + s.size(4);
            ps.drain(i..(i + m).min(n));
        }
        7 => {
            let m = (1 + s.size(6)).min(n - i);
            let part: Vec<Pair> = ps[i..i + m].to_vec();
            let times = if s.chance(1, 12) { 200 } else { 1 + s.us(3) };
            for _ in 0..times {
                ps.splice(i..i, part.clone());
            }
        }
        8 => {
            let j = lo + s.us(n - lo);
            ps.swap(i, j);
        }
        9 => {
            // a part of the file somewhere else
            let m = (1 + s.size(20)).min(n - i);
            let part: Vec<Pair> = ps[i..i + m].to_vec();
            let j = lo + s.us(n - lo);
            ps.splice(j..j, part);
        }
        10 | 11 => {
            let near = ps[i].c;
            for _ in 0..1 + s.size(4) {
                let c = any_code(s, near);
                ps.insert(i, Pair { c, v: hostile_value(s, c) });
            }
        }
        12 => {
            // another record with the same pairs
            if let Some(j) = (0..=i).rev().find(|j| ps[*j].c == 0) {
                ps[j].v = Val::S(record_name(s));
            }
        }
        13 => {
            // groups in groups
            let (open, v) = if s.flip() { (1002, "{") } else { (102, "{G") };
            let depth = 1 + s.size(6);
            if open == 1002 && s.flip() {
                ps.insert(i, st(1001, "ACAD"));
            }
            for _ in 0..depth {
                ps.insert(i, st(open, v));
            }
        }
        14 => {
            ps.truncate(i);
        }
        _ => {
            // every number of a record
            let from = (0..=i).rev().find(|j| ps[*j].c == 0).unwrap_or(0);
            let to = (i + 1..n).find(|j| ps[*j].c == 0).unwrap_or(n);
            for j in from + 1..to {
                if s.flip() {
                    let c = ps[j].c;
                    ps[j].v = hostile_value(s, c);
                }
            }
        }
    }
}
/// records with arbitrary pairs
fn soup(s: &mut Src, ver: usize) -> Vec<Pair> {
    let mut o = vec![];
    if s.chance(4, 5) {
        o.extend([st(0, "SECTION"), st(2, "HEADER"), st(9, "$ACADVER"), st(1, acad_name(ver)), st(0, "ENDSEC")]);
    }
    for _ in 0..1 + s.size(2) {
        o.push(st(0, "SECTION"));
        let sec = *s.pick(SECTIONS);
        o.push(st(2, sec));
        for _ in 0..s.size(4) {
            let mut codes: Vec<i32> = vec![];
            match sec {
                "HEADER" => {
                    let h = s.pick(&model().header);
                    codes = h.codes.clone();
                    let v = format!("${}", h.name.trim_start_matches('$'));
                    o.push(st(9, v));
                    let c = if s.chance(4, 5) { *s.pick(&codes) } else { any_code(s, 70) };
                    o.push(Pair { c, v: hostile_value(s, c) });
                    if s.chance(4, 5) {
                        continue;
                    }
                    o.push(st(9, *s.pick(&["$ACADVER", "$HANDSEED", "$CLAYER", "$TDCREATE", "$TDINDWG", "$FINGERPRINTGUID", "$INSUNITS", "$CECOLOR", "$LWDEFAULT", "$EXTMIN", "$DWGCODEPAGE", "$UNKNOWN", "$CMLSTYLE", "$DIMSE1", "$PLINEGEN"])));
                }
                "TABLES" => {
                    let t = *s.pick(&["LAYER", "LTYPE", "STYLE", "DIMSTYLE", "VIEW", "VPORT", "UCS", "APPID", "BLOCK_RECORD", "OTHER"]);
                    o.extend([st(0, "TABLE"), st(2, t)]);
                    for _ in 0..s.size(2) {
                        let c = any_code(s, 70);
                        o.push(Pair { c, v: hostile_value(s, c) });
                    }
                    o.push(st(0, t));
                }
                "BLOCKS" => {
                    o.push(st(0, if s.chance(4, 5) { "BLOCK" } else { "ENDBLK" }));
                    if s.flip() {
                        o.push(st(2, *s.pick(STRINGS)));
                        o.push(st(0, record_name(s)));
                    }
                }
                "CLASSES" => o.push(st(0, "CLASS")),
                "OBJECTS" => {
                    let t = &model().objects[*s.pick(OBJECTS)];
                    codes = t.fields.iter().flat_map(|f| f.codes.clone()).collect();
                    o.push(st(0, type_name(s, t)));
                }
                "THUMBNAILIMAGE" => {
                    o.push(int(90, *s.pick(INTS)));
                    let mut b = vec![40u8, 0, 0, 0];
                    for _ in 0..9 {
                        b.extend((*s.pick(&[0i32, 1, 2, 3, 4, 8, 24, 32, 256, 65537, 2097153, -1, -3, i32::MAX, 20_000, 8_000, 0x180001, 0x80001, 0x40001, 0x10001, 0x200001, 0x100001])).to_le_bytes());
                    }
                    for _ in 0..s.size(60) {
                        b.push(s.below(256) as u8);
                    }
                    o.push(bin(310, b));
                }
                _ => {
                    let t = &model().entities[*s.pick(ENTITIES)];
                    codes = t.fields.iter().flat_map(|f| f.codes.clone()).collect();
                    o.push(st(0, type_name(s, t)));
                }
            }
            for _ in 0..s.size(12) {
                let c = if !codes.is_empty() && s.chance(3, 4) { *s.pick(&codes) } else { any_code(s, 70) };
                o.push(Pair { c, v: hostile_value(s, c) });
            }
            if sec == "BLOCKS" && s.chance(4, 5) {
                o.push(st(0, "ENDBLK"));
            }
            if sec == "TABLES" && s.chance(4, 5) {
                o.push(st(0, "ENDTAB"));
            }
        }
        if s.chance(9, 10) {
            o.push(st(0, "ENDSEC"));
        }
    }
    if s.chance(9, 10) {
        o.push(st(0, "EOF"));
    }
    o
}
pub fn acad_name(ver: usize) -> String {
    ACADVER[ver].to_string()
}
fn dxb(s: &mut Src) -> Vec<u8> {
    let mut b = b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec();
    for _ in 0..s.size(14) {
        let (t, n) = *s.pick(&[(1u8, 12usize), (2, 8), (3, 6), (8, 10), (9, 16), (11, 16), (12, 16), (13, 12), (14, 4), (17, 0), (19, 2), (20, 4), (21, 4), (22, 24), (23, 2), (24, 8), (129, 5), (130, 8), (131, 4), (132, 8), (133, 4), (134, 4), (135, 2), (136, 2), (137, 4), (200, 3), (0, 0)]);
        b.push(t);
        if t == 129 {
            b.extend(b"layer");
            if s.chance(5, 6) {
                b.push(0);
            }
            continue;
        }
        let n = if s.chance(1, 6) { s.us(40) } else if s.flip() { n } else { n * 2 };
        for _ in 0..n {
            let v = *s.pick(&[0u8, 1, 255, 127, 128, 64]);
            b.push(v);
        }
    }
    if s.chance(3, 4) {
        b.push(0);
    }
    b
}
fn edit_bytes(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let n = b.len();
    let i = s.us(n);
    match s.below(8) {
        0 => b[i] ^= 1 << s.below(8),
        1 => b[i] = *s.pick(&[0u8, 255, b'\n', b'\r', b'0', b'-', 26, 0xEF, 128, b' ']),
        2 => {
            let m = (1 + s.size(30)).min(n - i);
            b.drain(i..i + m);
        }
        3 => {
            let m = (1 + s.size(60)).min(n - i);
            let p = b[i..i + m].to_vec();
            let j = s.us(n);
            b.splice(j..j, p);
        }
        4 => b.truncate(i),
        5 => {
            let v = *s.pick(&[0u8, 255, b'\n', b'9', b'{', 0x80]);
            b.insert(i, v);
        }
        6 => {
            // numbers next to each other
            let m = 8.min(n - i);
            for x in &mut b[i..i + m] {
                *x = 255;
            }
        }
        _ => {
            // a line less
            let from = b[i..].iter().position(|x| *x == b'\n').map(|k| i + k + 1).unwrap_or(n);
            let to = b[from..].iter().position(|x| *x == b'\n').map(|k| from + k + 1).unwrap_or(n);
            b.drain(from..to);
        }
    }
}

/// groups nested tens of thousands deep
fn deep(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[300usize, 5_000, 40_000]);
    let ver = *s.pick(&[R2018, R2000, R14]);
    let mut o = vec![st(0, "SECTION"), st(2, "HEADER"), st(9, "$ACADVER"), st(1, acad_name(ver)), st(0, "ENDSEC"), st(0, "SECTION")];
    match s.below(4) {
        0 => o.extend([st(2, "TABLES"), st(0, "TABLE"), st(2, "LAYER"), st(0, "LAYER")]),
        1 => o.extend([st(2, "BLOCKS"), st(0, "BLOCK")]),
        2 => o.extend([st(2, "OBJECTS"), st(0, "XRECORD")]),
        _ => o.extend([st(2, "ENTITIES"), st(0, "LINE")]),
    }
    let (code, open) = if s.flip() {
        o.push(st(1001, "ACAD"));
        (1002, "{")
    } else {
        (102, "{A")
    };
    for _ in 0..n {
        o.push(st(code, open));
    }
    if s.chance(3, 4) {
        for _ in 0..n {
            o.push(st(code, "}"));
        }
        o.extend([st(0, "ENDSEC"), st(0, "EOF")]);
    }
    if s.flip() {
        emit_text(&o, ver >= R2007)
    } else {
        emit_binary(&o, true)
    }
}

/// the same small thing thousands of times
fn long(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[3_000usize, 10_000]);
    let ver = *s.pick(&[R2018, R12, R2000]);
    let mut o = vec![st(0, "SECTION"), st(2, "HEADER"), st(9, "$ACADVER"), st(1, acad_name(ver)), st(0, "ENDSEC"), st(0, "SECTION")];
    match s.below(8) {
        0 => {
            o.extend([st(2, "TABLES"), st(0, "TABLE"), st(2, "LAYER")]);
            for i in 0..n {
                o.extend([st(0, "LAYER"), st(2, format!("L{}", i))]);
            }
            o.push(st(0, "ENDTAB"));
        }
        1 => {
            o.push(st(2, "BLOCKS"));
            for i in 0..n {
                o.extend([st(0, "BLOCK"), st(2, format!("B{}", i)), st(0, "ENDBLK")]);
            }
        }
        2 => {
            o.push(st(2, "OBJECTS"));
            let name = record_name(s);
            for _ in 0..n {
                o.push(st(0, name.clone()));
            }
        }
        3 => {
            o.push(st(2, "ENTITIES"));
            o.push(st(0, "POLYLINE"));
            for _ in 0..n {
                o.push(st(0, "VERTEX"));
            }
        }
        4 => {
            o.extend([st(2, "ENTITIES"), st(0, "LINE"), st(8, "x".repeat(n * 20))]);
        }
        5 => {
            o.push(st(2, "ENTITIES"));
            for i in 0..n {
                o.extend([st(0, "TEXT"), st(8, format!("L{}", i)), st(7, format!("S{}", i))]);
            }
        }
        6 => {
            // pairs of one record
            let t = &model().entities[*s.pick(ENTITIES)];
            let codes: Vec<i32> = t.fields.iter().flat_map(|f| f.codes.clone()).filter(|c| *c > 0).collect();
            o.extend([st(2, "ENTITIES"), st(0, t.types[0].clone())]);
            if !codes.is_empty() {
                for _ in 0..n {
                    let c = *s.pick(&codes);
                    o.push(Pair { c, v: hostile_value(s, c) });
                }
            }
        }
        _ => {
            o.push(st(2, "ENTITIES"));
            let name = record_name(s);
            for _ in 0..n {
                o.push(st(0, name.clone()));
            }
        }
    }
    o.extend([st(0, "ENDSEC"), st(0, "EOF")]);
    if s.flip() {
        emit_text(&o, ver >= R2007)
    } else {
        emit_binary(&o, ver >= R13)
    }
}

/// (bytes, what they are)
pub fn gen(s: &mut Src, k: usize) -> (Vec<u8>, String) {
    if s.chance(1, 150) {
        return (deep(s), "deep nesting".into());
    }
    if s.chance(1, 1000) {
        return (long(s), "long".into());
    }
    let family = s.below(12);
    if family == 11 {
        let mut b = dxb(s);
        if s.chance(1, 3) {
            edit_bytes(s, &mut b);
        }
        return (b, "dxb soup".into());
    }
    let (mut ps, ver, what) = if family < 4 {
        let ver = gen_version(s);
        (soup(s, ver), ver, "soup")
    } else {
        let (mut ps, ver) = base(s, k);
        let start = ps.iter().position(|p| p.is(0, "ENDSEC")).map(|i| i + 1).unwrap_or(0);
        if s.chance(1, 2) {
            // only a part of the tables, which are long
            if let (Some(a), Some(b)) = (ps.iter().position(|p| p.is(2, "TABLES")), ps.iter().position(|p| p.is(2, "BLOCKS") || p.is(2, "ENTITIES"))) {
                if a > 0 && b > a {
                    ps.drain(a - 1..b - 1);
                }
            }
        }
        for _ in 0..1 + s.size(8) {
            edit(s, &mut ps, start);
        }
        (ps, ver, "edited file")
    };
    if s.chance(1, 30) {
        ps.insert(0, st(999, "a comment"));
    }
    let mut form = "text";
    let mut b = if s.chance(2, 3) {
        let mut t = emit_text(&ps, ver >= R2007);
        if s.chance(1, 40) {
            t.splice(0..0, [0xEF, 0xBB, 0xBF]);
        }
        t
    } else {
        form = "binary";
        emit_binary(&ps, if s.chance(1, 30) { ver < R13 } else { ver >= R13 })
    };
    let mut bytes = "";
    if s.chance(1, 5) {
        bytes = ", bytes edited";
        for _ in 0..1 + s.size(3) {
            edit_bytes(s, &mut b);
        }
    }
    (b, format!("{} as {}{}", what, form, bytes))
}

//! Reflective generation and comparison of public item values through their serde form.
use crate::engine::Src;
use crate::model::{model, Field};
use serde_json::{json, Value};

pub fn is_enum(ty: &str) -> bool {
    model().enums.contains_key(ty)
}

/// integer domain of a field, from its declared type and the width of its group code value
pub fn int_domain(f: &Field) -> (i64, i64) {
    let code = f.codes[0];
    let wire = code_width(code);
    let (a, b) = match f.ty.as_str() {
        "i16" => (i16::MIN as i64, i16::MAX as i64),
        "i32" => (i32::MIN as i64, i32::MAX as i64),
        "i64" => (i64::MIN, i64::MAX),
        "u32" => (0, u32::MAX as i64),
        "usize" => (0, i32::MAX as i64),
        _ => (i16::MIN as i64, i16::MAX as i64),
    };
    let (c, d) = match wire {
        'b' => (0, 1),
        's' => (i16::MIN as i64, i16::MAX as i64),
        'i' if f.ty == "u32" => (0, u32::MAX as i64),
        'i' => (i32::MIN as i64, i32::MAX as i64),
        'l' => (i64::MIN, i64::MAX),
        _ => (i32::MIN as i64, i32::MAX as i64),
    };
    (a.max(c), b.min(d))
}

/// value kind of a group code: s i16, i i32, l i64, d f64, t text, b bool, x binary (independent table)
pub fn code_width(c: i32) -> char {
    match c {
        0..=9 => 't',
        10..=39 => 'd',
        40..=59 => 'd',
        60..=79 => 's',
        90..=99 => 'i',
        100..=102 => 't',
        105 => 't',
        110..=149 => 'd',
        160..=169 => 'l',
        170..=179 => 's',
        210..=239 => 'd',
        270..=289 => 's',
        290..=299 => 'b',
        300..=309 => 't',
        310..=319 => 'x',
        320..=369 => 't',
        370..=389 => 's',
        390..=399 => 't',
        400..=409 => 's',
        410..=419 => 't',
        420..=429 => 'i',
        430..=439 => 't',
        440..=449 => 'i',
        450..=459 => 'i',
        460..=469 => 'd',
        470..=479 => 't',
        480..=481 => 't',
        999 => 't',
        1000..=1003 => 't',
        1004 => 'x',
        1005..=1009 => 't',
        1010..=1059 => 'd',
        1060..=1070 => 's',
        1071 => 'i',
        _ => '?',
    }
}

pub fn gen_int(s: &mut Src, a: i64, b: i64) -> i64 {
    match s.below(8) {
        0 | 1 => s.range(0.max(a), 8.min(b)),
        2 => *s.pick(&[a, b, 0.max(a), 1.min(b), (-1).max(a), 255.min(b), 256.min(b), 127.min(b), 128.min(b)]),
        3 => s.range((-300).max(a), 300.min(b)),
        4 => (1i64.wrapping_shl(s.below(63) as u32)).clamp(a, b),
        _ => s.range(a, b),
    }
}

/// finite floating point values; the text form keeps 12 decimals so the generator mixes
/// values that survive exactly with ones that only survive approximately
pub fn gen_f64(s: &mut Src) -> f64 {
    match s.below(10) {
        0 | 1 => s.range(0, 20) as f64,
        2 => s.range(-1000, 1000) as f64 / 8.0,
        3 => *s.pick(&[0.0, 1.0, -1.0, 0.5, 90.0, 360.0, 2.5, 1e6, -1e6, 0.1, 1.0 / 3.0, 12.0, 50.0]),
        4 => *s.pick(&[1e15, -1e15, 123456789.125, 1e-6, 1e-9, 4294967296.0, 2147483648.0, 65536.0, -32769.0, 1e18, 9007199254740993.0, 1e100, -0.0, 123456789012.345678]),
        5 => s.range(-1_000_000_000, 1_000_000_000) as f64 / 1024.0,
        6 => s.range(-1_000_000_000_000, 1_000_000_000_000) as f64 / 1e6,
        7 => {
            // arbitrary mantissa, moderate exponent
            let m = s.any64();
            let e = s.range(-20, 40);
            let v = (m >> 11) as f64 / (1u64 << 53) as f64;
            (if m & 1 == 1 { -v } else { v }) * 2f64.powi(e as i32)
        }
        8 => s.range(-360, 360) as f64,
        _ => s.range(-100000, 100000) as f64 / 1000.0,
    }
}

const WORDS: &[&str] = &[
    "", "a", "0", "STANDARD", "Layer One", "my-layer", "x y  z", "CONTINUOUS", "some value", "*MODEL_SPACE", "DASHED",
    "{}", "%%d", "#1", "100", "-5", "1.5", "ENDSEC", "EOF", "LINE", "SECTION", "A$B", "ByLayer", "bylayer", "Z:/q/r.dwg",
    "  lead", "trail  ", "tab\tinside", "quote\"s", "AcDbEntity", "end",
];

thread_local! {
    /// 0: mostly plain text; 1: mostly hostile text (escapes, control characters, all of Unicode)
    pub static TEXT_MODE: std::cell::Cell<u8> = std::cell::Cell::new(0);
}

const NASTY: &[&str] = &[
    "^", "^ ", "^^", "^J", "^M", "^@", "^é", "a^", "\\", "\\\\", "\\U+", "\\U+00", "\\U+0041", "\\U+00e8", "\\U+D83D\\U+DE00", "\\U+ZZZZ",
    "\\u+0041", "\\P", "\\fArial|b0;x", "{\\C1;x}", "%%c", "%%d", "%%%", "%%u", "\\M+1A0A0", "é", "ÿ", "þÿx", "\u{feff}x", "日本語", "Ж", "😀", "\u{10ffff}",
    "\u{80}", "\u{85}", "\u{a0}", "\u{2028}", "\u{7f}", "\u{1}", "\u{1a}", "\u{1c}U+0041", "\u{1f}", "\t", " ", "  ", "\u{0}", "a\u{0}b", "ï»¿", "\u{fffd}", "\u{d7ff}", "\u{e000}",
    "\n", "\r", "\r\n", "}", "{", "{APP", "*U1", "0", "999",
];
/// text made of fragments that are special somewhere in the format
pub fn gen_nasty(s: &mut Src) -> String {
    let n = 1 + s.us(5);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(4) {
            0 | 1 => o.push_str(s.pick(NASTY)),
            2 => o.push(plain_char(s)),
            _ => {
                let c = match s.below(4) {
                    0 => s.below(0x100),
                    1 => s.below(0x800),
                    2 => s.below(0x10000),
                    _ => s.below(0x110000),
                };
                o.push(char::from_u32(c as u32).unwrap_or('?'));
            }
        }
    }
    if s.chance(1, 20) {
        o = o.repeat(60);
    }
    o
}

pub fn gen_text(s: &mut Src) -> String {
    let hostile = TEXT_MODE.with(|m| m.get());
    if s.chance(if hostile == 1 { 9 } else { 1 }, 10) {
        return gen_nasty(s);
    }
    gen_plain(s)
}
/// plain text: any printable ASCII without the escape characters `^` and `\`
pub fn gen_plain(s: &mut Src) -> String {
    match s.below(5) {
        0 | 1 => s.pick(WORDS).to_string(),
        2 => {
            let n = s.size(60);
            (0..n).map(|_| plain_char(s)).collect()
        }
        3 => {
            let n = s.range(0, 6) as usize;
            (0..n).map(|_| plain_char(s)).collect()
        }
        _ => {
            if s.chance(1, 12) {
                let n = s.range(240, 600) as usize;
                let c = plain_char(s);
                let mut t: String = std::iter::repeat(c).take(n).collect();
                t.push('!');
                t
            } else {
                format!("N{}", s.range(0, 9999))
            }
        }
    }
}

fn plain_char(s: &mut Src) -> char {
    loop {
        let c = (32 + s.below(95)) as u8 as char;
        if c != '^' && c != '\\' {
            return c;
        }
        return '_';
    }
}

pub fn gen_name(s: &mut Src) -> String {
    if TEXT_MODE.with(|m| m.get()) == 1 && s.flip() {
        return gen_nasty(s);
    }
    match s.below(4) {
        0 => s.pick(&["A", "B", "walls", "Layer One", "X-1", "dim_a", "café0", "0", "MyStyle"]).to_string().replace('é', "e"),
        1 => format!("n{}", s.range(0, 20)),
        _ => {
            let n = 1 + s.us(8);
            (0..n).map(|_| *s.pick(&['a', 'b', 'Z', 'Q', '0', '7', '_', '-', '$', ' ', 'x'])).collect::<String>().trim().to_string() + "k"
        }
    }
}

pub fn gen_handle(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => 0,
        1 => s.range(1, 400) as u64,
        2 => *s.pick(&[1, 0xFF, 0x100, 0xFFFF_FFFF, 0x1_0000_0000, 0xDEADBEEF, 0x7FFF_FFFF_FFFF_FFFF, 0xABCDEF0123456789]),
        _ => s.any64() & 0x7FFF_FFFF_FFFF,
    }
}

pub fn gen_bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.size(max);
    (0..n).map(|_| s.below(256) as u8).collect()
}
/// a chunk of binary data: most within the 127 bytes of a text line, some up to the 255 of the binary form
pub fn gen_chunk(s: &mut Src) -> Vec<u8> {
    match s.below(12) {
        0 => gen_bytes(s, 255),
        1 => {
            let n = *s.pick(&[127usize, 128, 200, 254, 255, 255]);
            let b = s.below(256) as u8;
            (0..n).map(|i| b.wrapping_add(i as u8)).collect()
        }
        _ => gen_bytes(s, 127),
    }
}

pub fn gen_point(s: &mut Src, n: usize, z: f64) -> Value {
    let x = gen_f64(s);
    let y = gen_f64(s);
    let z = if n >= 3 { gen_f64(s) } else { z };
    json!({"x": x, "y": y, "z": z})
}

/// length of a list: mostly short, now and then far beyond any usual chunk or buffer
pub fn gen_len(s: &mut Src, max: usize) -> usize {
    if s.chance(1, 150) {
        s.us(700)
    } else {
        s.size(max)
    }
}

pub fn gen_scalar(s: &mut Src, f: &Field) -> Option<Value> {
    Some(match f.ty.as_str() {
        "f64" => json!(gen_f64(s)),
        "bool" => json!(s.flip()),
        "String" => json!(gen_text(s)),
        "i16" | "i32" | "i64" | "u32" => {
            let (a, b) = int_domain(f);
            json!(gen_int(s, a, b))
        }
        "Handle" => json!(gen_handle(s)),
        "Color" => json!({"raw_value": gen_int(s, i16::MIN as i64, i16::MAX as i64)}),
        "LineWeight" => json!({"raw_value": gen_int(s, i16::MIN as i64, i16::MAX as i64)}),
        "ViewMode" => json!({"flags": gen_int(s, i16::MIN as i64, i16::MAX as i64)}),
        "Vec<u8>" => json!(gen_chunk(s)),
        "Point" | "Vector" => gen_point(s, f.codes.len(), 0.0),
        "char" => json!(((33 + s.below(94)) as u8 as char).to_string()),
        t if is_enum(t) => json!(s.pick(&model().enums[t]).0),
        _ => return None,
    })
}

pub fn gen_field(s: &mut Src, f: &Field, current: &Value) -> Option<Value> {
    if f.multi {
        let n = gen_len(s, 20);
        let mut a: Vec<Value> = vec![];
        // lists with runs of equal and with recurring elements
        let repeat = if s.chance(1, 3) { *s.pick(&[2, 5, 10]) } else { 0 };
        for i in 0..n {
            if i > 0 && repeat > 0 && s.chance(repeat, 10) {
                let j = if s.flip() { i - 1 } else { s.us(i) };
                a.push(a[j].clone());
            } else {
                a.push(gen_scalar(s, f)?);
            }
        }
        return Some(Value::Array(a));
    }
    let mut v = gen_scalar(s, f)?;
    if (f.ty == "Point" || f.ty == "Vector") && f.codes.len() == 2 {
        v["z"] = current["z"].clone();
    }
    Some(v)
}

/// f64 comparison for values that went through the 12-decimal text form
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 0.6e-12 || (a - b).abs() <= a.abs().max(b.abs()) * 3e-16
}

/// all differing leaf paths
pub fn diff(path: &str, a: &Value, b: &Value, exact: bool, out: &mut Vec<(String, String)>) {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x.is_f64() || y.is_f64() {
                let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                let ok = if exact { x == y } else { close(x, y) };
                if !ok {
                    out.push((path.into(), format!("{} -> {}", x, y)));
                }
            } else if x != y {
                out.push((path.into(), format!("{} -> {}", x, y)));
            }
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => diff(&join(path, k), v, w, exact, out),
                    None => out.push((join(path, k), format!("{} -> absent", short(v)))),
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    out.push((join(path, k), format!("absent -> {}", short(&y[k]))));
                }
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                out.push((path.into(), format!("{} items -> {} items ({} -> {})", x.len(), y.len(), short(a), short(b))));
            } else {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    diff(&format!("{}[{}]", path, i), p, q, exact, out);
                }
            }
        }
        _ => {
            if a != b {
                out.push((path.into(), format!("{} -> {}", short(a), short(b))));
            }
        }
    }
}

pub fn join(p: &str, k: &str) -> String {
    if p.is_empty() {
        k.into()
    } else {
        format!("{}.{}", p, k)
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 160 {
        let mut k = 160;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    } else {
        s
    }
}

/// first path segment without indices: the field a difference belongs to
pub fn root_field(p: &str) -> String {
    p.split(|c| c == '.' || c == '[').next().unwrap_or("").to_string()
}

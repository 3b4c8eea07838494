//! An independent reader and writer of the two DXF file forms (group code / value pairs).
use crate::reflect::code_width;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(String),
    D(f64),
    I(i64),
    X(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub c: i32,
    pub v: Val,
}
pub fn st(c: i32, s: impl Into<String>) -> Pair {
    Pair { c, v: Val::S(s.into()) }
}
pub fn dbl(c: i32, d: f64) -> Pair {
    Pair { c, v: Val::D(d) }
}
pub fn int(c: i32, i: i64) -> Pair {
    Pair { c, v: Val::I(i) }
}
pub fn bin(c: i32, b: Vec<u8>) -> Pair {
    Pair { c, v: Val::X(b) }
}
impl Pair {
    pub fn is(&self, c: i32, s: &str) -> bool {
        self.c == c && matches!(&self.v, Val::S(t) if t == s)
    }
    pub fn s(&self) -> &str {
        match &self.v {
            Val::S(s) => s,
            _ => "",
        }
    }
    pub fn i(&self) -> i64 {
        match self.v {
            Val::I(i) => i,
            Val::D(d) => d as i64,
            _ => i64::MIN,
        }
    }
}

// ---------------------------------------------------------------- text escapes
/// control characters and carets
pub fn caret_escape(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch as u32 {
            c @ 0..=31 => {
                o.push('^');
                o.push((c as u8 + 64) as char);
            }
            0x5e => o.push_str("^ "),
            _ => o.push(ch),
        }
    }
    o
}
pub fn caret_unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '^' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some(' ') => o.push('^'),
            Some(x) if ('@'..='_').contains(&x) => o.push((x as u8 - 64) as char),
            x => return Err(format!("bad caret sequence before {:?} in {:?}", x, s)),
        }
    }
    Ok(o)
}
fn esc_at(s: &str) -> Option<u16> {
    let r = s.strip_prefix("\\U+")?;
    let h = r.get(..4)?;
    if h.bytes().all(|b| b.is_ascii_hexdigit()) {
        u16::from_str_radix(h, 16).ok()
    } else {
        None
    }
}
pub fn unicode_escape(s: &str) -> String {
    let mut o = String::new();
    for (i, ch) in s.char_indices() {
        if ch as u32 >= 128 || (ch == '\\' && esc_at(&s[i..]).is_some()) {
            let mut b = [0u16; 2];
            for u in ch.encode_utf16(&mut b) {
                o.push_str(&format!("\\U+{:04X}", u));
            }
        } else {
            o.push(ch);
        }
    }
    o
}
pub fn unicode_unescape(s: &str) -> String {
    let mut o = String::new();
    let mut pend: Vec<u16> = vec![];
    let mut i = 0;
    let flush = |pend: &mut Vec<u16>, o: &mut String| {
        o.push_str(&String::from_utf16_lossy(pend));
        pend.clear();
    };
    while i < s.len() {
        if let Some(u) = esc_at(&s[i..]) {
            pend.push(u);
            i += 7;
        } else {
            flush(&mut pend, &mut o);
            let c = s[i..].chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    flush(&mut pend, &mut o);
    o
}

// ---------------------------------------------------------------- reading
pub fn lex_text(b: &[u8], utf8: bool) -> Result<Vec<Pair>, String> {
    let mut out = vec![];
    let mut lines: Vec<&[u8]> = b.split(|x| *x == b'\n').collect();
    if lines.last().map(|l| l.is_empty()) == Some(true) {
        lines.pop();
    } else {
        return Err("the last line is not ended".into());
    }
    if lines.len() % 2 != 0 {
        return Err("odd number of lines".into());
    }
    for p in lines.chunks(2) {
        let strip = |l: &[u8]| -> Vec<u8> {
            let mut l = l.to_vec();
            if l.last() == Some(&b'\r') {
                l.pop();
            }
            l
        };
        let (a, v) = (strip(p[0]), strip(p[1]));
        let a = String::from_utf8(a).map_err(|e| e.to_string())?;
        let c: i32 = a.trim().parse().map_err(|e| format!("code {:?}: {}", a, e))?;
        if !utf8 && v.iter().any(|x| *x >= 128) {
            return Err(format!("non-ASCII bytes in an old text file: {:?}", String::from_utf8_lossy(&v)));
        }
        let v = String::from_utf8(v).map_err(|e| e.to_string())?;
        out.push(Pair { c, v: text_val(c, &v, utf8)? });
    }
    Ok(out)
}
fn text_val(c: i32, v: &str, utf8: bool) -> Result<Val, String> {
    let bad = |e: String| format!("code {} value {:?}: {}", c, v, e);
    Ok(match code_width(c) {
        't' => {
            let u = if utf8 { v.to_string() } else { unicode_unescape(v) };
            Val::S(caret_unescape(&u).map_err(bad)?)
        }
        'd' => Val::D(v.trim().parse::<f64>().map_err(|e| bad(e.to_string()))?),
        'x' => {
            if v.len() % 2 != 0 || !v.is_ascii() {
                return Err(bad("odd hex".into()));
            }
            let mut o = vec![];
            for i in (0..v.len()).step_by(2) {
                o.push(u8::from_str_radix(&v[i..i + 2], 16).map_err(|e| bad(e.to_string()))?);
            }
            Val::X(o)
        }
        '?' => return Err(bad("unknown code".into())),
        w => {
            let i = v.trim().parse::<i64>().map_err(|e| bad(e.to_string()))?;
            let (lo, hi) = match w {
                's' | 'b' => (i16::MIN as i64, i16::MAX as i64),
                'i' => (i32::MIN as i64, i32::MAX as i64),
                _ => (i64::MIN, i64::MAX),
            };
            if i < lo || i > hi {
                return Err(bad("out of range".into()));
            }
            Val::I(i)
        }
    })
}

pub const SENTINEL: &[u8] = b"AutoCAD Binary DXF\r\n\x1a\x00";

pub fn lex_binary(b: &[u8], two: bool) -> Result<Vec<Pair>, String> {
    let b = b.strip_prefix(SENTINEL).ok_or("no binary sentinel")?;
    let mut i = 0usize;
    let mut out = vec![];
    fn take<'a>(b: &'a [u8], i: &mut usize, n: usize) -> Result<&'a [u8], String> {
        let r = b.get(*i..*i + n).ok_or(format!("file ends inside a pair at {}", i))?;
        *i += n;
        Ok(r)
    }
    while i < b.len() {
        let c = if two {
            let x = take(b, &mut i, 2)?;
            i16::from_le_bytes([x[0], x[1]]) as i32
        } else {
            let x = take(b, &mut i, 1)?[0];
            if x == 255 {
                let x = take(b, &mut i, 2)?;
                i16::from_le_bytes([x[0], x[1]]) as i32
            } else {
                x as i32
            }
        };
        let v = match code_width(c) {
            't' => {
                let e = b[i..].iter().position(|x| *x == 0).ok_or("unterminated string")?;
                let raw = take(b, &mut i, e)?.to_vec();
                i += 1;
                let s = String::from_utf8(raw).map_err(|e| e.to_string())?;
                Val::S(caret_unescape(&s)?)
            }
            'd' => Val::D(f64::from_le_bytes(take(b, &mut i, 8)?.try_into().unwrap())),
            's' => Val::I(i16::from_le_bytes(take(b, &mut i, 2)?.try_into().unwrap()) as i64),
            'i' => Val::I(i32::from_le_bytes(take(b, &mut i, 4)?.try_into().unwrap()) as i64),
            'l' => Val::I(i64::from_le_bytes(take(b, &mut i, 8)?.try_into().unwrap())),
            'b' if two => Val::I(take(b, &mut i, 1)?[0] as i64),
            'b' => Val::I(i16::from_le_bytes(take(b, &mut i, 2)?.try_into().unwrap()) as i64),
            'x' => {
                let n = take(b, &mut i, 1)?[0] as usize;
                Val::X(take(b, &mut i, n)?.to_vec())
            }
            _ => return Err(format!("unknown code {} at {}", c, i)),
        };
        out.push(Pair { c, v });
    }
    Ok(out)
}

// ---------------------------------------------------------------- writing
/// shortest decimal spelling that reads back as the same value
pub fn num(d: f64) -> String {
    let s = format!("{:?}", d);
    if s.contains('.') || s.contains('e') {
        s
    } else {
        s + ".0"
    }
}
pub fn text_of(p: &Pair, utf8: bool) -> String {
    match &p.v {
        Val::S(s) => {
            let s = caret_escape(s);
            if utf8 {
                s
            } else {
                unicode_escape(&s)
            }
        }
        Val::D(d) => num(*d),
        Val::I(i) => i.to_string(),
        Val::X(b) => b.iter().map(|x| format!("{:02X}", x)).collect(),
    }
}
pub fn emit_text(ps: &[Pair], utf8: bool) -> Vec<u8> {
    let mut o = String::new();
    for p in ps {
        o.push_str(&format!("{}\r\n{}\r\n", p.c, text_of(p, utf8)));
    }
    o.into_bytes()
}
pub fn emit_binary(ps: &[Pair], two: bool) -> Vec<u8> {
    let mut o = SENTINEL.to_vec();
    for p in ps {
        if two {
            o.extend((p.c as i16).to_le_bytes());
        } else if p.c >= 255 {
            o.push(255);
            o.extend((p.c as i16).to_le_bytes());
        } else {
            o.push(p.c as u8);
        }
        match (&p.v, code_width(p.c)) {
            (Val::S(s), _) => {
                o.extend(caret_escape(s).bytes());
                o.push(0);
            }
            (Val::D(d), _) => o.extend(d.to_le_bytes()),
            (Val::X(b), _) => {
                o.push(b.len() as u8);
                o.extend(b);
            }
            (Val::I(i), 'b') if two => o.push(*i as u8),
            (Val::I(i), 's') | (Val::I(i), 'b') => o.extend((*i as i16).to_le_bytes()),
            (Val::I(i), 'i') => o.extend((*i as i32).to_le_bytes()),
            (Val::I(i), _) => o.extend(i.to_le_bytes()),
        }
    }
    o
}

/// equality of values, numbers to the 12 decimals text keeps
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::D(x), Val::D(y)) => crate::reflect::close(*x, *y),
        _ => a == b,
    }
}
pub fn show(p: Option<&Pair>) -> String {
    match p {
        None => "end of file".into(),
        Some(p) => {
            let s = format!("{}/{:?}", p.c, p.v);
            s.chars().take(120).collect()
        }
    }
}
/// first difference of two pair lists
pub fn first_diff(a: &[Pair], b: &[Pair]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        let eq = match (x, y) {
            (Some(x), Some(y)) => x.c == y.c && same(&x.v, &y.v),
            _ => false,
        };
        if !eq {
            let ctx = a[..i].iter().rev().find(|p| p.c == 0 || p.c == 9).map(|p| p.s().to_string()).unwrap_or_default();
            return Some(format!("pair {} (in {}): {} vs {}", i, ctx, show(x), show(y)));
        }
    }
    None
}

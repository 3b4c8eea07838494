//! C23: damaged files are rejected rather than silently losing data
use crate::drawing::*;
use crate::engine::{guard, Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use crate::wire::*;
use dxf::{Drawing, DxfError};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "a case saves a generated drawing (any version, every section) as text and binary, puts foreign records and sections in, and damages one pair at 14 generated positions per form: a value that is not of its code's type, a code that is no number or no known code, bytes that are no UTF-8, an empty code line, a handle that is no number, the end of the file at a generated byte; every damage must be an error whose position lies in the damaged pair; DXB files are cut at generated bytes; non-trivial: every case; distinct by file content",
        quick: 4_000,
        thorough: 60_000,
        run,
        assumptions: &["a file that ends between two sections, without an end marker, may be accepted (the repository's own tests load such files)", "data with an odd number of digits has a leading zero left out", "a short written as a real number or beyond 16 bits may be accepted (the repository's own tests load such files)"],
        level: "exploration",
        mem_mb: 1024,
        cpu_s: 60,
        workers: 8,
    }
}

/// codes no DXF version knows
fn unknown_code(s: &mut Src, text: bool) -> i32 {
    let r: &[(i64, i64)] = &[(80, 89), (103, 104), (106, 109), (150, 159), (180, 209), (240, 254), (255, 269), (482, 998), (1072, 32767)];
    let (a, b) = *s.pick(r);
    if text && s.chance(1, 5) {
        return *s.pick(&[-100, -6, 32768, 65536, 65546, i32::MAX, i32::MIN]);
    }
    s.range(a, b) as i32
}
fn position(e: &DxfError) -> Option<usize> {
    match e {
        DxfError::ParseFloatError(_, o) | DxfError::ParseIntError(_, o) | DxfError::ParseError(o) | DxfError::UnexpectedCode(_, o) | DxfError::UnexpectedByte(_, o) | DxfError::UnexpectedEnumValue(o) | DxfError::ExpectedTableType(o) | DxfError::WrongValueType(o) => Some(*o),
        DxfError::UnexpectedCodePair(p, _) => Some(p.offset),
        _ => None,
    }
}

struct Text {
    lines: Vec<Vec<u8>>,
}
impl Text {
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for l in &self.lines {
            o.extend(l);
            o.extend(b"\r\n");
        }
        o
    }
    fn pairs(&self) -> usize {
        self.lines.len() / 2
    }
    fn code(&self, i: usize) -> i32 {
        std::str::from_utf8(&self.lines[2 * i]).unwrap().trim().parse().unwrap()
    }
    fn is(&self, i: usize, c: i32, v: &str) -> bool {
        self.code(i) == c && self.lines[2 * i + 1] == v.as_bytes()
    }
}

/// per pair: (section name, or "" outside; index in section)
fn sections(n: usize, code: &dyn Fn(usize) -> i32, val: &dyn Fn(usize) -> String) -> Vec<String> {
    let mut cur = String::new();
    let mut out = vec![];
    for i in 0..n {
        if cur.is_empty() && code(i) == 0 && val(i) == "SECTION" {
            cur = if i + 1 < n { val(i + 1) } else { "?".into() };
        }
        out.push(cur.clone());
        if code(i) == 0 && val(i) == "ENDSEC" {
            cur.clear();
        }
    }
    out
}

/// foreign records and sections with a pair of every type, none of which can be taken for a known record
fn foreign(s: &mut Src, t: &mut Text) {
    let body: &[(&str, &str)] = &[("5", "FFFFF0"), ("10", "1.5"), ("62", "3"), ("90", "4"), ("160", "5"), ("290", "1"), ("310", "0A0B"), ("1", "text"), ("1040", "2.5"), ("1071", "7"), ("1004", "FF")];
    let n = t.pairs();
    let sec = sections(n, &|i| t.code(i), &|i| String::from_utf8_lossy(&t.lines[2 * i + 1]).to_string());
    let mut at = vec![];
    for i in 0..n {
        if t.is(i, 0, "ENDSEC") && (sec[i] == "ENTITIES" || sec[i] == "OBJECTS" || sec[i] == "TABLES") {
            at.push((i, if sec[i] == "TABLES" { 2 } else { 1 }));
            at.push((i + 1, 0));
        }
    }
    if at.is_empty() {
        return;
    }
    let (i, what) = *s.pick(&at);
    let mut add: Vec<(&str, &str)> = match what {
        0 => vec![("0", "SECTION"), ("2", "FOREIGNSECTION")],
        1 => vec![("0", "FOREIGNRECORD")],
        _ => vec![("0", "TABLE"), ("2", "FOREIGNTABLE"), ("0", "FOREIGNRECORD")],
    };
    add.extend(body);
    match what {
        0 => add.push(("0", "ENDSEC")),
        2 => add.push(("0", "ENDTAB")),
        _ => {}
    }
    let v: Vec<Vec<u8>> = add.iter().flat_map(|(a, b)| [a.as_bytes().to_vec(), b.as_bytes().to_vec()]).collect();
    t.lines.splice(2 * i..2 * i, v);
}

fn judge(c: &mut Case, form: &str, what: &str, sec: &str, desc: String, bytes: &[u8], span: Option<(usize, usize)>) {
    c.evals += 1;
    c.class(format!("{} {} {}", form, what, sec));
    match guard(|| Drawing::load(&mut &bytes[..])) {
        Err(m) => c.fail(format!("{}:{}:{}:panic", form, what, sec), format!("{}: {}", desc, m)),
        Ok(Ok(_)) => c.fail(format!("{}:{}:{}:accepted", form, what, sec), format!("{}: loading succeeds", desc)),
        Ok(Err(e)) => {
            if let (Some((a, b)), Some(o)) = (span, position(&e)) {
                if o < a || o > b {
                    c.fail(format!("{}:{}:{}:position", form, what, sec), format!("{}: {:?} reports {}, the pair is at {}..{}", desc, e, o, a, b));
                }
            }
        }
    }
}

fn text_damage(s: &mut Src, c: &mut Case, t: &Text, utf8: bool) {
    let n = t.pairs();
    let sec = sections(n, &|i| t.code(i), &|i| String::from_utf8_lossy(&t.lines[2 * i + 1]).to_string());
    let header_end = (0..n).find(|i| t.is(*i, 0, "ENDSEC")).unwrap_or(n);
    let distinct: Vec<&String> = {
        let mut v: Vec<&String> = sec.iter().collect();
        v.sort();
        v.dedup();
        v
    };
    for _ in 0..14 {
        // a pair of a generated section, so that the long ones do not take all
        let want = (*s.pick(&distinct)).clone();
        let idx: Vec<usize> = (0..n).filter(|i| sec[*i] == want).collect();
        let i = *s.pick(&idx);
        let code = t.code(i);
        let label = if want.is_empty() { "between" } else { want.as_str() };
        let span = Some((2 * i + 1, 2 * i + 2));
        let mut d = Text { lines: t.lines.clone() };
        let old = String::from_utf8_lossy(&t.lines[2 * i + 1]).to_string();
        let what = match s.below(7) {
            0 => {
                d.lines[2 * i] = unknown_code(s, true).to_string().into_bytes();
                "unknown-code"
            }
            1 => {
                d.lines[2 * i] = s.pick(&["x", "1 0", "0x1", "--1", "99999999999", "\u{7f}", "SECTION", "1.5.1", "+-1"]).as_bytes().to_vec();
                "code-not-a-number"
            }
            2 => {
                if i == 0 {
                    continue;
                }
                d.lines[2 * i] = s.pick(&["", " ", "\t  "]).as_bytes().to_vec();
                "empty-code"
            }
            3 if utf8 && i > header_end && code_width(code) == 't' => {
                let l = &mut d.lines[2 * i + 1];
                let at = if l.is_ascii() { s.us(l.len() + 1) } else { l.len() };
                let bad: &[u8] = *s.pick(&[&[0xff][..], &[0xc3, 0x28], &[0xe2, 0x82], &[0x80], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80]]);
                l.splice(at..at, bad.iter().copied());
                "no-utf8"
            }
            4 if code == 5 && i > 0 && t.code(i - 1) == 0 && ["ENTITIES", "OBJECTS"].contains(&label) && old != "FFFFF0" => {
                d.lines[2 * i + 1] = s.pick(&["XYZ", "1G", "-", "1 2", "0x1"]).as_bytes().to_vec();
                "handle-not-a-number"
            }
            5 => {
                cut_text(s, c, t, i, label);
                continue;
            }
            _ => {
                // the closest pair with a number
                let k = (i..n).chain((0..i).rev()).find(|k| sec[*k] == want && code_width(t.code(*k)) != 't');
                let k = match k {
                    Some(k) => k,
                    None => continue,
                };
                let w = code_width(t.code(k));
                let junk: &[&str] = match w {
                    'd' => &["", "abc", "1.2.3", "1,5", "--1", "0x1F", "1e", "1 2", "."],
                    's' | 'b' => &["", "abc", "1 2", "--1", "0x1F", "1,5"],
                    'i' => &["", "abc", "1 2", "--1", "0x1F", "2147483648", "-2147483649", "1-"],
                    'l' => &["", "abc", "1 2", "--1", "0x1F", "9223372036854775808", "-9223372036854775809"],
                    _ => &["0G", "XYZ", "1234-", "-1", "\u{7f}0"],
                };
                d.lines[2 * k + 1] = s.pick(junk).as_bytes().to_vec();
                let desc = format!("code {} with value {:?} (was {:?})", t.code(k), String::from_utf8_lossy(&d.lines[2 * k + 1]), String::from_utf8_lossy(&t.lines[2 * k + 1]));
                judge(c, "text", &format!("not-{}", w), label, desc, &d.bytes(), Some((2 * k + 1, 2 * k + 2)));
                continue;
            }
        };
        let desc = format!("pair {} of {}: {:?} / {:?} (was {} / {:?})", i, n, String::from_utf8_lossy(&d.lines[2 * i]), String::from_utf8_lossy(&d.lines[2 * i + 1]), code, old);
        judge(c, "text", what, label, desc, &d.bytes(), span);
    }
}
/// the file ends inside pair i, or directly before it
fn cut_text(s: &mut Src, c: &mut Case, t: &Text, i: usize, label: &str) {
    let head = Text { lines: t.lines[..2 * i].to_vec() }.bytes();
    let pair = Text { lines: t.lines[2 * i..2 * i + 2].to_vec() }.bytes();
    let k = s.us(pair.len());
    let part = &pair[..k];
    // what of the pair is left, as a reader that splits lines sees it
    let text = String::from_utf8_lossy(part).to_string();
    let whole = String::from_utf8_lossy(&pair).to_string();
    let complete = text.trim_end() == whole.trim_end();
    let outside = label == "between";
    let open_before = !outside && !t.is(i, 0, "SECTION");
    let may = if open_before {
        // only the end of the section makes the rest whole
        t.is(i, 0, "ENDSEC") && complete
    } else if outside {
        // the end marker
        text.trim().is_empty() || complete
    } else {
        // the start of a section
        text.trim().is_empty()
    };
    if may {
        return;
    }
    let mut b = head;
    b.extend(part);
    judge(c, "text", "cut", label, format!("the file ends with {:?} of pair {:?} ({} of {})", text, whole, i, t.pairs()), &b, None);
}

/// (start, end, code, value as text) of every pair
fn spans(b: &[u8], two: bool) -> Vec<(usize, usize, i32, String)> {
    let mut i = SENTINEL.len();
    let mut o = vec![];
    while i < b.len() {
        let start = i;
        let c = if two {
            i += 2;
            i16::from_le_bytes([b[i - 2], b[i - 1]]) as i32
        } else if b[i] == 255 {
            i += 3;
            i16::from_le_bytes([b[i - 2], b[i - 1]]) as i32
        } else {
            i += 1;
            b[i - 1] as i32
        };
        let mut v = String::new();
        i += match code_width(c) {
            't' => {
                let n = b[i..].iter().position(|x| *x == 0).unwrap();
                v = String::from_utf8_lossy(&b[i..i + n]).to_string();
                n + 1
            }
            'd' | 'l' => 8,
            'i' => 4,
            'b' if two => 1,
            's' | 'b' => 2,
            _ => 1 + b[i] as usize,
        };
        o.push((start, i, c, v));
    }
    o
}
fn binary_damage(s: &mut Src, c: &mut Case, b: &[u8], two: bool) {
    let sp = spans(b, two);
    let n = sp.len();
    let sec = sections(n, &|i| sp[i].2, &|i| sp[i].3.clone());
    let distinct: Vec<String> = {
        let mut v = sec.clone();
        v.sort();
        v.dedup();
        v
    };
    for _ in 0..14 {
        let want = s.pick(&distinct).clone();
        let idx: Vec<usize> = (0..n).filter(|i| sec[*i] == want).collect();
        let i = *s.pick(&idx);
        let label = if want.is_empty() { "between" } else { want.as_str() };
        let (start, end, code, ref val) = sp[i];
        if s.flip() {
            let k = if s.chance(1, 3) { start } else { start + s.us(end - start) };
            if k == start && (label == "between" || (code == 0 && val == "SECTION")) {
                continue;
            }
            judge(c, "binary", "cut", label, format!("the file ends at byte {}, pair {} at {}..{}, code {} {:?}", k, i, start, end, code, val), &b[..k], None);
        } else {
            if i == 0 {
                // tells the width of the codes
                continue;
            }
            let u = unknown_code(s, false);
            let mut d = b[..start].to_vec();
            let old = if two { 2 } else if b[start] == 255 { 3 } else { 1 };
            let new = if two {
                d.extend((u as i16).to_le_bytes());
                2
            } else if u >= 255 {
                d.push(255);
                d.extend((u as i16).to_le_bytes());
                3
            } else {
                d.push(u as u8);
                1
            };
            d.extend(&b[start + old..]);
            judge(c, "binary", "unknown-code", label, format!("pair {} at {}: code {} instead of {}", i, start, u, code), &d, Some((start, end - old + new)));
        }
    }
    let k = 1 + s.us(SENTINEL.len() - 1);
    judge(c, "binary", "cut", "sentinel", format!("{} bytes", k), &b[..k], None);
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let mut d = gen_drawing(s, idx as usize, ver, &DCfg { max_items: 4, ..FULL });
    d.header.version = acad(ver);
    c.desc = summary(&d);
    c.nontrivial = true;
    let b = match save(&d, false) {
        Ok(b) => b,
        Err(e) => return c.fail("text:save-error", e),
    };
    c.ident(&b);
    let mut t = Text { lines: b.split(|x| *x == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l).to_vec()).collect() };
    t.lines.pop();
    if s.flip() {
        foreign(s, &mut t);
    }
    if let Err(e) = load(&t.bytes()) {
        return c.fail("text:undamaged", e);
    }
    text_damage(s, c, &t, ver >= R2007);
    match save(&d, true) {
        Ok(b) => binary_damage(s, c, &b, ver >= R13),
        Err(e) => return c.fail("binary:save-error", e),
    }
    if s.chance(1, 3) {
        let (b, starts) = super::c21::foreign_file(s);
        if let Err(e) = load(&b) {
            return c.fail("dxb:undamaged", e);
        }
        for _ in 0..8 {
            if s.flip() {
                let k = 1 + s.us(b.len() - 1);
                judge(c, "dxb", "cut", "foreign", format!("{} of {} bytes", k, b.len()), &b[..k], None);
            } else {
                let k = *s.pick(&starts);
                let mut d = b.clone();
                d[k] = *s.pick(&[250u8, 99, 70, 255, 4, 5, 6, 7, 10, 12, 16, 18, 23, 64, 127, 138, 139, 200]);
                judge(c, "dxb", "unknown-item", "foreign", format!("item type {} at byte {} of {}", d[k], k, d.len()), &d, Some((k, k)));
            }
        }
        for (k, want) in [(17, 0x1a), (18, 0)] {
            let mut d = b.clone();
            d[k] = s.range(1, 255) as u8;
            if d[k] != want {
                judge(c, "dxb", "sentinel", "", format!("byte {} is {}", k, d[k]), &d, Some((k, k)));
            }
        }
    }
    if s.chance(1, 4) {
        let mut b = vec![];
        if let Err(e) = d.save_dxb(&mut b) {
            return c.fail("dxb:save-error", format!("{:?}", e));
        }
        for _ in 0..6 {
            let k = 1 + s.us(b.len() - 1);
            judge(c, "dxb", "cut", "", format!("{} of {} bytes", k, b.len()), &b[..k], None);
        }
        let n = b.len();
        b[n - 1] = *s.pick(&[250u8, 99, 70, 255]);
        judge(c, "dxb", "unknown-item", "", format!("item type {} at the end", b[n - 1]), &b, Some((n - 1, n)));
    }
}

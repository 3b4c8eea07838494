//! C09: text values survive in every version and encoding
use crate::drawing::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use crate::wire::*;
use dxf::entities::{Entity, EntityType};
use dxf::Drawing;
use encoding_rs::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a case fills the text fields of generated entities, objects, table records, headers, blocks and classes, or whole drawings, with hostile text (control characters, carets, backslashes, text that looks like an escape, characters of every plane, byte order marks, blanks), saves, checks the bytes (ASCII up to R2004, UTF-8 later) with an independent reader and compares the reloaded values; one case in seven instead writes a file in one of 20 named encodings and loads it with that encoding; non-trivial: at least one text with a special character; distinct by content hash",
        quick: 20_000,
        thorough: 250_000,
        run,
        assumptions: &["encodings are those of the encoding_rs crate", "values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

fn run(s: &mut Src, idx: u64, c: &mut Case) {
    TEXT_MODE.with(|m| m.set(1));
    let k = 1000 + idx / 7;
    match idx % 7 {
        0 => crate::props::c03::run(s, k, c),
        1 => crate::props::c04::run(s, k, c),
        2 => crate::props::c05::run(s, k, c),
        3 => crate::props::c06::run(s, k, c),
        4 => crate::props::c07::run(s, k, c),
        5 => whole(s, k, c),
        _ if k % 3 == 0 => escapes(s, c),
        _ => encodings(s, c),
    }
    c.class(["entities", "objects", "tables", "header", "blocks", "drawing", "encoding"][(idx % 7) as usize]);
}

fn whole(s: &mut Src, k: u64, c: &mut Case) {
    let ver = gen_version(s);
    let d = gen_drawing(s, k as usize, ver, &SOUND);
    c.desc = summary(&d);
    c.nontrivial = true;
    let t = match save(&d, false) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    c.ident(&t);
    if ver <= R2004 && !t.is_ascii() {
        c.fail("not-ascii", "a text file up to R2004 has bytes beyond ASCII");
    }
    if t.iter().any(|b| *b < 32 && *b != 10 && *b != 13) {
        c.fail("raw-control", "a text file has raw control characters");
    }
    // every text of the file, decoded independently, is one of those the library reads back
    let tp = match lex_text(&t, ver >= R2007) {
        Ok(p) => p,
        Err(e) => return c.fail("text-malformed", e),
    };
    let again = match load(&t).and_then(|mut d| {
        d.header.version = acad(ver);
        save(&d, false)
    }) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", e),
    };
    let ap = match lex_text(&again, ver >= R2007) {
        Ok(p) => p,
        Err(e) => return c.fail("text-malformed", e),
    };
    let texts = |p: &[Pair]| {
        let mut v: Vec<String> = p.iter().filter(|p| p.c < 1000 && matches!(p.c, 1..=4 | 6..=9 | 300..=309 | 410..=419 | 430..=439 | 470..=479)).map(|p| p.s().to_string()).collect();
        v.sort();
        v.dedup();
        v
    };
    let (a, b) = (texts(&tp), texts(&ap));
    // loading may add standard records but never loses or changes a text
    for x in &a {
        if b.binary_search(x).is_err() {
            c.fail("text-lost", format!("{:?} is in the file but not in the file saved after loading it", x));
        }
    }
}

/// text as another program writes it, with escapes for characters that need none
fn escapes(s: &mut Src, c: &mut Case) {
    let ver = *s.pick(&[R10, R12, R13, R14, R2000, R2004, R2007, R2010, R2018]);
    let mut texts: Vec<(String, String)> = vec![];
    for _ in 0..1 + s.us(4) {
        let (mut raw, mut want) = (String::new(), String::new());
        for _ in 0..s.us(7) {
            match s.below(7) {
                0 => {
                    let k = s.below(32) as u8;
                    raw.push('^');
                    raw.push((64 + k) as char);
                    want.push(k as char);
                    if k == 28 {
                        // that was a backslash, which must not begin something else
                        raw.push('|');
                        want.push('|');
                    }
                }
                1 => {
                    raw.push_str("^ ");
                    want.push('^');
                }
                2 if ver <= R2004 => {
                    let ch = loop {
                        let m = if s.flip() { 0x110000 } else { 0x10000 };
                        match char::from_u32(s.below(m) as u32) {
                            Some(x) => break x,
                            None => continue,
                        }
                    };
                    // an escaped unit that is itself a caret or a line end is read in a second step
                    let ch = if (ch as u32) < 128 && !ch.is_ascii_alphanumeric() { 'é' } else { ch };
                    for u in ch.encode_utf16(&mut [0; 2]) {
                        raw.push_str(&if s.flip() { format!("\\U+{:04X}", u) } else { format!("\\U+{:04x}", u) });
                    }
                    want.push(ch);
                }
                3 => {
                    let x = *s.pick(&["\\U+", "\\U+12", "\\U+12G4", "\\", "\\U", "\\P", "%%c", "\\u+0041", "U+0041", "\\M+18140"]);
                    // followed by something that cannot complete an escape
                    raw.push_str(x);
                    raw.push('|');
                    want.push_str(x);
                    want.push('|');
                }
                _ => {
                    let ch = (32 + s.below(95)) as u8 as char;
                    if ch != '^' && ch != '\\' {
                        raw.push(ch);
                        want.push(ch);
                    }
                }
            }
        }
        if s.chance(1, 5) {
            // a caret with nothing behind it is just a caret
            raw.push('^');
            want.push('^');
        }
        texts.push((raw, want));
    }
    let mut f = format!("0\nSECTION\n2\nHEADER\n9\n$ACADVER\n1\n{}\n0\nENDSEC\n0\nSECTION\n2\nENTITIES\n", ACADVER[ver]);
    for (raw, _) in &texts {
        f.push_str(&format!("0\nTEXT\n8\n{}\n1\n{}\n", raw, raw));
    }
    f.push_str("0\nENDSEC\n0\nEOF\n");
    c.ident(f.as_bytes());
    c.nontrivial = texts.iter().any(|t| t.0 != t.1);
    c.desc = format!("{} {:?}", ACADVER[ver], texts);
    let d = match load(f.as_bytes()) {
        Ok(d) => d,
        Err(e) => return c.fail("escape-load", e),
    };
    let got: Vec<(String, String)> = d
        .entities()
        .map(|e| match &e.specific {
            EntityType::Text(v) => (v.value.clone(), e.common.layer.clone()),
            _ => ("not a text".into(), String::new()),
        })
        .collect();
    if got.len() != texts.len() {
        return c.fail("escape-count", format!("{} texts in the file, {} loaded", texts.len(), got.len()));
    }
    for ((raw, want), (v, l)) in texts.iter().zip(got) {
        if v != *want || l != *want {
            c.fail("escape-text", format!("{:?} stands for {:?}, loaded as {:?} on layer {:?}", raw, want, v, l));
        }
    }
}

fn encodings(s: &mut Src, c: &mut Case) {
    let encs: [&'static Encoding; 20] = [
        WINDOWS_1252, WINDOWS_1250, WINDOWS_1251, WINDOWS_1253, WINDOWS_1254, WINDOWS_1255, WINDOWS_1256, WINDOWS_1257, WINDOWS_1258,
        KOI8_R, KOI8_U, IBM866, MACINTOSH, GBK, GB18030, SHIFT_JIS, EUC_KR, EUC_JP, BIG5, UTF_8,
    ];
    let e = *s.pick(&encs);
    let ver = *s.pick(&[R12, R13, R14, R2000, R2004, R10]);
    // characters of the encoding, by decoding random bytes
    let mut texts = vec![];
    for _ in 0..1 + s.us(4) {
        let n = 1 + s.us(12);
        let mut t = String::new();
        for _ in 0..n {
            let raw: Vec<u8> = match s.below(4) {
                0 => vec![32 + s.below(95) as u8],
                1 => vec![128 + s.below(128) as u8],
                2 => vec![0x81 + s.below(126) as u8, 0x40 + s.below(190) as u8],
                _ => {
                    let ch = char::from_u32(s.below(0x10000) as u32).unwrap_or('x');
                    ch.to_string().into_bytes()
                }
            };
            let (u, bad) = e.decode_without_bom_handling(&raw);
            if !bad {
                t.push_str(&u);
            }
        }
        let t: String = t.chars().filter(|c| *c as u32 >= 32 && *c != '^' && *c != '\\').collect();
        let (b, _, bad) = e.encode(&t);
        let (u, bad2) = e.decode_without_bom_handling(&b);
        if bad || bad2 || *u != *t || b.contains(&b'\n') || b.contains(&b'\r') {
            continue;
        }
        texts.push(t);
    }
    let mut f: Vec<u8> = vec![];
    let mut put = |c: i32, t: &str| {
        f.extend(format!("{}\r\n", c).bytes());
        f.extend(e.encode(t).0.iter());
        f.extend(b"\r\n");
    };
    for (k, v) in [(0, "SECTION"), (2, "HEADER"), (9, "$ACADVER"), (1, ACADVER[ver])] {
        put(k, v);
    }
    if s.flip() {
        put(9, "$DWGCODEPAGE");
        put(3, "ANSI_1252");
    }
    for (k, v) in [(0, "ENDSEC"), (0, "SECTION"), (2, "ENTITIES")] {
        put(k, v);
    }
    for t in &texts {
        put(0, "TEXT");
        put(8, t);
        put(1, t);
    }
    put(0, "ENDSEC");
    put(0, "EOF");
    c.ident(&f);
    c.nontrivial = texts.iter().any(|t| !t.is_ascii());
    c.class(format!("encoding:{}", e.name()));
    c.desc = format!("{} {} {:?}", e.name(), ACADVER[ver], texts);
    let d = match Drawing::load_with_encoding(&mut std::io::Cursor::new(&f), e) {
        Ok(d) => d,
        Err(x) => return c.fail("encoding-load", format!("{} file does not load: {:?}", e.name(), x)),
    };
    let es: Vec<&Entity> = d.entities().collect();
    if es.len() != texts.len() {
        return c.fail("encoding-count", format!("{} texts in the file, {} loaded", texts.len(), es.len()));
    }
    for (t, x) in texts.iter().zip(es) {
        match &x.specific {
            EntityType::Text(v) if v.value == *t && x.common.layer == *t => {}
            EntityType::Text(v) => c.fail("encoding-text", format!("{} text {:?} loaded as {:?} on layer {:?}", e.name(), t, v.value, x.common.layer)),
            _ => c.fail("encoding-kind", "a text loaded as something else"),
        }
    }
    if e == WINDOWS_1252 {
        // and the default
        match load(&f) {
            Ok(d2) if entities_json(&d2) == entities_json(&d) => {}
            _ => c.fail("encoding-default", "loading without an encoding differs from naming windows-1252"),
        }
    }
}

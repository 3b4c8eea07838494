//! C13: loading ignores presentation differences and foreign content
use crate::drawing::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c08::volatile;
use crate::props::c10::{extra, lex};
use crate::reflect::*;
use crate::tables::{table_model, TABLES};
use crate::wire::*;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a case saves a generated drawing, splits the file into pairs, applies generated edits that the format allows (comments, line ends, blanks, byte order mark, missing end marker or last line end, unknown sections, tables, entities, objects, header variables and group codes at generated positions), loads the plain and the edited file and compares everything in the two drawings; non-trivial: at least one edit was applied; distinct by edited file content",
        quick: 9_000,
        thorough: 200_000,
        run,
        assumptions: &["group codes counted as unknown to a kind are those that model/model.json gives to no field of the kind in any version", "unknown entities are not put between a parent and its parts, where the format allows none"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    /// before a header variable
    Var,
    /// between sections
    Section,
    /// between tables
    Table,
    /// after the name of a table
    TableHead,
    /// between entities
    Entity,
    /// between objects
    Object,
}
/// the pair after the one at i, comments aside
pub fn next(ps: &[Pair], i: usize) -> usize {
    (i + 1..ps.len()).find(|j| ps[*j].c != 999).unwrap_or(i)
}
/// the places of a file where content of a given kind may be put
pub fn places(ps: &[Pair]) -> Vec<(usize, At)> {
    let mut out = vec![];
    let mut sec = String::new();
    let mut in_block = false;
    let mut seen = false;
    let mut prev = String::new();
    for i in 0..ps.len() {
        let p = &ps[i];
        if p.c == 9 && sec == "HEADER" && p.s() != "$ACADVER" {
            out.push((i, At::Var));
        }
        if p.c != 0 {
            continue;
        }
        let k = p.s().to_string();
        if sec.is_empty() {
            if k == "EOF" || (k == "SECTION" && seen) {
                out.push((i, At::Section));
            }
            if k == "SECTION" {
                seen = true;
                sec = ps[next(ps, i)].s().to_string();
                in_block = false;
                prev.clear();
            }
            continue;
        }
        let part = matches!(k.as_str(), "VERTEX" | "ATTRIB" | "SEQEND") || (k == "MTEXT" && (prev == "ATTRIB" || prev == "ATTDEF"));
        match sec.as_str() {
            "TABLES" => {
                if k == "TABLE" || k == "ENDSEC" {
                    out.push((i, At::Table));
                }
                if k == "TABLE" {
                    out.push((next(ps, i) + 1, At::TableHead));
                }
            }
            "BLOCKS" if in_block && !part => out.push((i, At::Entity)),
            "ENTITIES" if !part => out.push((i, At::Entity)),
            "OBJECTS" => out.push((i, At::Object)),
            _ => {}
        }
        match k.as_str() {
            "BLOCK" => in_block = true,
            "ENDBLK" => in_block = false,
            "ENDSEC" => sec.clear(),
            _ => {}
        }
        prev = k;
    }
    out
}

fn unknown_pairs(s: &mut Src, n: usize) -> Vec<Pair> {
    let mut o = vec![];
    for _ in 0..n {
        o.push(match s.below(9) {
            0 => st(*s.pick(&[1, 2, 3, 6, 7, 8, 300, 410]), gen_text(s)),
            1 => dbl(*s.pick(&[10, 20, 30, 40, 210]), gen_f64(s)),
            2 => int(*s.pick(&[60, 62, 66, 70, 71]), s.range(-300, 300)),
            3 => int(*s.pick(&[90, 91, 420]), s.range(-3000000, 300000)),
            4 => st(100, "AcDbUnknown"),
            5 => st(*s.pick(&[330, 340, 360]), format!("{:X}", gen_handle(s))),
            6 => bin(310, gen_bytes(s, 60)),
            7 => int(290, s.below(2) as i64),
            _ => dbl(49, 1.5),
        });
    }
    o
}
fn unknown_record(s: &mut Src) -> Vec<Pair> {
    let mut o = vec![st(0, *s.pick(&["FOOBAR", "ACAD_UNKNOWN", "MYCOMPANY_THING", "ACDBPLACEHOLDER2", "LINE2", "line", "SECTIONX", "EOFX"]))];
    if s.flip() {
        o.push(st(5, format!("{:X}", 0xF000_0000u64 + s.below(1000))));
    }
    if s.chance(1, 4) {
        o.push(st(102, "{ACAD_REACTORS"));
        o.push(st(330, "1F"));
        o.push(st(102, "}"));
    }
    let n = s.size(6);
    o.extend(unknown_pairs(s, n));
    if s.chance(1, 4) {
        o.push(st(1001, "ACAD"));
        o.push(st(1000, gen_text(s)));
        o.push(st(1002, "{"));
        o.push(int(1070, 7));
        o.push(st(1002, "}"));
    }
    o
}

/// codes that may be put into a record of a kind without meaning anything to it
pub fn spare_code(s: &mut Src, sec: &str, kind: &str) -> Option<i32> {
    let mut known: Vec<i32> = vec![0, 5, 100, 102, 105, 330, 360, 999];
    let mut found = false;
    let take = |known: &mut Vec<i32>, t: &TypeM, n: &str| {
        known.extend(t.fields.iter().flat_map(|f| f.codes.clone()));
        known.extend(extra(n));
    };
    match sec {
        "BLOCKS" if kind == "BLOCK" => {
            known.extend([1, 2, 3, 4, 8, 10, 20, 30, 67, 70, 71]);
            found = true;
        }
        "BLOCKS" if kind == "ENDBLK" => found = true,
        "ENTITIES" | "BLOCKS" if kind == "SEQEND" => found = true,
        "CLASSES" if kind == "CLASS" => {
            known.extend([1, 2, 3, 9, 90, 91, 280, 281]);
            found = true;
        }
        "ENTITIES" | "BLOCKS" => {
            for (n, t) in &model().entities {
                if t.types.iter().any(|x| x == kind) {
                    take(&mut known, t, n);
                    found = true;
                }
            }
            take(&mut known, &model().entities["Entity"], "");
            if kind == "DIMENSION" {
                take(&mut known, &model().entities["DimensionBase"], "");
                known.push(70);
            }
            if kind == "VERTEX" {
                take(&mut known, &model().entities["Vertex"], "");
            }
            if kind == "ATTRIB" || kind == "ATTDEF" {
                known.extend([11, 21, 31]);
            }
        }
        "OBJECTS" => {
            for (n, t) in &model().objects {
                if t.types.iter().any(|x| x == kind) {
                    take(&mut known, t, n);
                    found = true;
                }
            }
            take(&mut known, &model().objects["Object"], "");
        }
        "TABLES" => {
            for t in TABLES {
                let m = table_model(t);
                if m.types.iter().any(|x| x == kind) {
                    take(&mut known, m, t);
                    found = true;
                }
            }
        }
        _ => return None,
    }
    // recorded findings: nested records end at the first code they do not know
    if !found || matches!(kind, "XRECORD" | "TABLESTYLE" | "SECTIONSETTINGS") {
        return None;
    }
    for _ in 0..20 {
        let c = *s.pick(&[
            1i32, 2, 3, 4, 6, 7, 9, 12, 22, 32, 15, 25, 35, 18, 28, 38, 39, 43, 44, 45, 46, 47, 49, 50, 52, 57, 61, 63, 64, 69, 73, 76, 78, 79, 93, 96, 99, 110, 120, 130, 141, 144, 149, 161, 169, 171, 175, 179, 212, 222, 232, 271, 275, 279, 281, 289,
            293, 299, 301, 305, 309, 311, 319, 321, 329, 332, 341, 345, 349, 351, 361, 371, 379, 381, 389, 391, 399, 401, 409, 411, 419, 421, 429, 431, 439, 441, 449, 451, 459, 461, 469, 471, 479, 481,
        ]);
        if !known.contains(&c) {
            return Some(c);
        }
    }
    None
}
fn value_for(s: &mut Src, c: i32) -> Pair {
    match code_width(c) {
        't' if is_handle_code(c) => st(c, format!("{:X}", gen_handle(s))),
        't' => st(c, gen_text(s)),
        'd' => dbl(c, gen_f64(s)),
        'x' => bin(c, gen_bytes(s, 30)),
        'b' => int(c, s.below(2) as i64),
        _ => int(c, s.range(-3000, 3000)),
    }
}

/// the recorded findings
fn finding(kind: &str, c: &mut Case) {
    let mut ps = vec![
        st(0, "SECTION"), st(2, "HEADER"), st(9, "$ACADVER"), st(1, "AC1024"), st(0, "ENDSEC"),
        st(0, "SECTION"), st(2, "OBJECTS"), st(0, kind), st(5, "FF"),
    ];
    let at;
    if kind == "TABLESTYLE" {
        ps.extend([st(100, "AcDbTableStyle"), int(280, 0), st(3, "d"), st(7, "A"), int(90, 1)]);
        at = ps.len();
        ps.extend([int(274, 5), st(7, "B"), dbl(140, 2.0)]);
    } else {
        ps.extend([st(100, "AcDbSectionSettings"), int(90, 1), int(91, 1), st(1, "SectionTypeSettings"), int(90, 1), int(91, 0), int(92, 0)]);
        at = ps.len();
        ps.extend([st(331, "1F"), st(1, "file"), int(93, 0), st(3, "SectionTypeSettingsEnd")]);
    }
    ps.extend([st(0, "ENDSEC"), st(0, "EOF")]);
    let mut q = ps.clone();
    q.insert(at, st(301, "foreign"));
    c.desc = format!("unknown code in a nested record of {}", kind);
    match (load(&emit_text(&ps, true)), load(&emit_text(&q, true))) {
        (Ok(a), Ok(b)) if objects_json(&a) == objects_json(&b) => {}
        _ => c.fail(format!("finding:{}", kind), "an unknown group code in a nested record changes what is loaded"),
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    if idx < 2 {
        return finding(["TABLESTYLE", "SECTIONSETTINGS"][idx as usize], c);
    }
    let ver = gen_version(s);
    let binary = s.chance(1, 5);
    let d = gen_drawing(s, idx as usize, ver, &FULL);
    let b = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    let ps = match lex(&b, binary, ver) {
        Ok(p) => p,
        Err(e) => return c.fail("malformed", e),
    };
    let utf8 = ver >= R2007;
    let plain = if binary { emit_binary(&ps, ver >= R13) } else { emit_text(&ps, utf8) };
    let base = match load(&plain) {
        Ok(d) => snapshot(&d),
        Err(e) => return c.fail("load-error:plain", e),
    };
    let mut what: Vec<String> = vec![];
    let mut q = ps.clone();
    for _ in 0..1 + s.size(4) {
        content_edit(s, &mut q, ver, binary, &mut what);
    }
    let bytes = if binary { emit_binary(&q, ver >= R13) } else { presentation(s, &q, utf8, &mut what) };
    c.ident(&bytes);
    c.class(format!("version:{}", VERSIONS[ver]));
    for w in &what {
        c.class(format!("edit:{}", w.split('@').next().unwrap()));
    }
    c.desc = format!("{} edits {:?}: {}", if binary { "binary" } else { "text" }, what, summary(&d));
    c.nontrivial = !what.is_empty();
    let sig = {
        let mut k: Vec<String> = what.iter().map(|w| w.split('@').next().unwrap().to_string()).collect();
        k.sort();
        k.dedup();
        k.join("+")
    };
    match load(&bytes) {
        Err(e) => c.fail(format!("load-error:{}", sig), e),
        Ok(d) => {
            let x = snapshot(&d);
            let mut o = vec![];
            diff("", &base, &x, true, &mut o);
            for (p, m) in o.into_iter().filter(|(p, _)| !volatile(p)).take(5) {
                c.fail(format!("{}:{}", sig, part_of(&p, &base)), format!("plain vs edited {}: {}", p, m));
            }
        }
    }
}

fn content_edit(s: &mut Src, q: &mut Vec<Pair>, ver: usize, binary: bool, what: &mut Vec<String>) {
    let pl = places(q);
    let at = |s: &mut Src, k: At| -> Option<usize> {
        let v: Vec<usize> = pl.iter().filter(|x| x.1 == k).map(|x| x.0).collect();
        if v.is_empty() {
            None
        } else {
            Some(*s.pick(&v))
        }
    };
    let (i, ins, name): (usize, Vec<Pair>, &str) = match s.below(10) {
        0 | 1 => {
            // a comment anywhere
            // the width of the codes of a binary file is recognised by its first pair
            let i = if binary { 1 + s.us(q.len() - 1) } else { s.us(q.len()) };
            let n = 1 + s.us(3);
            (i, (0..n).map(|_| st(999, if s.flip() { gen_text(s) } else { s.pick(&["EOF", "0", "", "ENDSEC", "  0", "SECTION"]).to_string() })).collect(), "comment")
        }
        2 => {
            let Some(i) = at(s, At::Section) else { return };
            let mut v = vec![st(0, "SECTION"), st(2, *s.pick(&["ACDSDATA", "FOO", "OBJECTS2", "THUMBNAIL", "entities", ""]))];
            for _ in 0..s.size(4) {
                v.extend(unknown_record(s));
            }
            v.push(st(0, "ENDSEC"));
            (i, v, "unknown-section")
        }
        3 => {
            let Some(i) = at(s, At::Table) else { return };
            let mut v = vec![st(0, "TABLE"), st(2, "FOOTAB"), int(70, s.range(0, 3))];
            if s.flip() {
                v.insert(2, st(5, "FFFF1"));
                v.insert(3, st(100, "AcDbSymbolTable"));
            }
            for _ in 0..s.size(3) {
                v.push(st(0, "FOOTAB"));
                let n = s.size(4);
                v.extend(unknown_pairs(s, n));
            }
            v.push(st(0, "ENDTAB"));
            (i, v, "unknown-table")
        }
        4 => {
            let Some(i) = at(s, At::TableHead) else { return };
            let v = match s.below(4) {
                0 => vec![st(5, "FFFF2"), st(330, "0"), st(100, "AcDbSymbolTable")],
                1 => vec![st(102, "{ACAD_XDICTIONARY"), st(360, "FFFF3"), st(102, "}")],
                2 => vec![int(71, 3), st(340, "FFFF4")],
                _ => vec![st(100, "AcDbDimStyleTable")],
            };
            (i, v, "table-head")
        }
        5 | 6 => {
            let k = if s.flip() { At::Entity } else { At::Object };
            let Some(i) = at(s, k) else { return };
            (i, unknown_record(s), "unknown-record")
        }
        7 => {
            let Some(i) = at(s, At::Var) else { return };
            let mut v = vec![st(9, *s.pick(&["$FOOBAR", "$ACADVERX", "$UNKNOWNVAR", "$", "$CLAYER2", "clayer"]))];
            match s.below(4) {
                0 => v.extend([dbl(10, 1.0), dbl(20, 2.0), dbl(30, 3.0)]),
                1 => v.push(int(70, 5)),
                2 => v.push(st(2, gen_text(s))),
                _ => v.push(st(5, "FF")),
            }
            (i, v, "unknown-variable")
        }
        _ => {
            // unknown group codes within a record
            let mut sec = String::new();
            let mut cand: Vec<(usize, String, String)> = vec![];
            let (mut depth, mut k, mut xd) = (0i64, String::new(), false);
            for i in 0..q.len() {
                let p = &q[i];
                if p.c == 0 {
                    if !sec.is_empty() && depth == 0 && !xd && !k.is_empty() {
                        cand.push((i, sec.clone(), k.clone()));
                    }
                    depth = 0;
                    xd = false;
                    k = p.s().to_string();
                    match k.as_str() {
                        "SECTION" if sec.is_empty() => {
                            sec = q[next(q, i)].s().to_string();
                            k.clear();
                        }
                        "ENDSEC" => {
                            sec.clear();
                            k.clear();
                        }
                        _ => {}
                    }
                    continue;
                }
                if p.c == 999 {
                    continue;
                }
                if depth == 0 && !xd && !k.is_empty() {
                    cand.push((i, sec.clone(), k.clone()));
                }
                if p.c >= 1000 {
                    xd = true;
                }
                if p.c == 102 && k != "XRECORD" {
                    depth += if p.s() == "}" { -1 } else { 1 };
                }
            }
            if cand.is_empty() {
                return;
            }
            let (i, sec, k) = s.pick(&cand).clone();
            let Some(code) = spare_code(s, &sec, &k) else { return };
            let v = value_for(s, code);
            what.push(format!("unknown-code:{}@{}", k, code));
            q.insert(i, v);
            return;
        }
    };
    let _ = (ver, binary);
    what.push(format!("{}@{}", name, i));
    for (j, p) in ins.into_iter().enumerate() {
        q.insert(i + j, p);
    }
}

fn presentation(s: &mut Src, q: &[Pair], utf8: bool, what: &mut Vec<String>) -> Vec<u8> {
    let ends = s.below(4);
    let blanks = s.chance(1, 3);
    let mut q = q.to_vec();
    if s.chance(1, 6) && q.last().map(|p| p.is(0, "EOF")) == Some(true) {
        q.pop();
        what.push("no-eof".into());
    }
    if ends > 0 {
        what.push(["", "lf", "mixed-ends", "crlf"][ends as usize].into());
    }
    if blanks {
        what.push("blanks".into());
    }
    let mut o: Vec<u8> = vec![];
    if s.chance(1, 6) {
        o.extend([0xEF, 0xBB, 0xBF]);
        what.push("bom".into());
    }
    for p in &q {
        let nl = |s: &mut Src| match ends {
            1 => "\n",
            2 if s.flip() => "\n",
            _ => "\r\n",
        };
        let mut pad = |s: &mut Src, t: String| {
            if blanks && s.chance(1, 8) {
                let b = [" ", "  ", "\t", "      "];
                let l = if s.flip() { *s.pick(&b) } else { "" };
                let r = if s.flip() { *s.pick(&b) } else { "" };
                format!("{}{}{}", l, t, r)
            } else {
                t
            }
        };
        let t = pad(s, p.c.to_string());
        o.extend(t.bytes());
        o.extend(nl(s).bytes());
        let v = text_of(p, utf8);
        let v = if matches!(p.v, Val::D(_) | Val::I(_)) { pad(s, v) } else { v };
        o.extend(v.bytes());
        o.extend(nl(s).bytes());
    }
    if s.chance(1, 6) {
        let last = q.last().map(|p| matches!(p.v, Val::S(_))).unwrap_or(false);
        if last {
            while matches!(o.last(), Some(b'\r') | Some(b'\n')) {
                o.pop();
            }
            what.push("no-last-line-end".into());
        }
    } else if s.chance(1, 8) && q.last().map(|p| p.is(0, "EOF")) == Some(true) {
        let t: &[u8] = *s.pick(&[b"\r\n".as_slice(), b"\n\n\n", b"\x1a", b"  \r\n"]);
        o.extend(t);
        what.push("trailing".into());
    }
    o
}

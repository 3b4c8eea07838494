//! C25: JSON serialisation of a drawing is lossless
use crate::drawing::*;
use crate::engine::{guard, Case, Prop, Src};
use crate::gen::*;
use crate::hostile;
use crate::model::*;

use dxf::entities::{Entity, EntityType, Line};
use dxf::objects::{Object, ObjectType, PlaceHolder};
use dxf::Drawing;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "a case makes a drawing (generated in memory; or loaded from its own saved file; or loaded from a hostile file as for C01), turns it into JSON (compact text, indented text, bytes or a value tree) and back, and compares the two by their debug form (which shows every public and private field), by what they save for three versions and forms, and by the handles of items added afterwards; non-trivial: the drawing holds an item; distinct by JSON text",
        quick: 10_000,
        thorough: 200_000,
        run,
        assumptions: &["numbers are finite (JSON has no other)", "JSON is parsed with exact floating point numbers (serde_json feature float_roundtrip)", "the thumbnail is not serialised"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

/// the nesting limit of the JSON reader is no limit of the library
fn unlimited<'a, R: serde_json::de::Read<'a>>(r: &mut serde_json::Deserializer<R>) -> Result<Drawing, serde_json::Error> {
    r.disable_recursion_limit();
    let d = serde::Deserialize::deserialize(&mut *r)?;
    r.end()?;
    Ok(d)
}
fn round(d: &Drawing, how: u64) -> Result<(String, Drawing), String> {
    let e = |x: serde_json::Error| x.to_string();
    Ok(match how {
        0 => {
            let t = serde_json::to_string(d).map_err(e)?;
            let b = unlimited(&mut serde_json::Deserializer::from_str(&t)).map_err(e)?;
            (t, b)
        }
        1 => {
            let t = serde_json::to_string_pretty(d).map_err(e)?;
            let b = unlimited(&mut serde_json::Deserializer::from_str(&t)).map_err(e)?;
            (t, b)
        }
        2 => {
            let t = serde_json::to_vec(d).map_err(e)?;
            let b = unlimited(&mut serde_json::Deserializer::from_reader(&t[..])).map_err(e)?;
            (String::from_utf8(t).unwrap(), b)
        }
        _ => {
            let t = serde_json::to_value(d).map_err(e)?;
            let b = serde_json::from_value(t.clone()).map_err(e)?;
            (t.to_string(), b)
        }
    })
}
fn debug(d: &Drawing) -> String {
    let mut d = d.clone();
    d.thumbnail = None;
    sort_maps(&format!("{:?}", d))
}
/// hash maps (of dictionaries) have no order
fn sort_maps(t: &str) -> String {
    const MARK: &str = "value_handles: {\"";
    let mut o = String::new();
    let mut rest = t;
    // the mark cannot occur inside of a text, where quotes are escaped
    while let Some(i) = rest.find(MARK) {
        let at = i + MARK.len() - 1;
        o += &rest[..at];
        rest = &rest[at..];
        let mut entries: Vec<&str> = vec![];
        let (mut start, mut quoted, mut escaped) = (0, false, false);
        for (k, ch) in rest.char_indices() {
            if escaped {
                escaped = false;
            } else if quoted && ch == '\\' {
                escaped = true;
            } else if ch == '"' {
                quoted = !quoted;
            } else if !quoted && (ch == ',' || ch == '}') {
                entries.push(rest[start..k].trim());
                start = k + 1;
                if ch == '}' {
                    break;
                }
            }
        }
        entries.sort();
        o += &entries.join(", ");
        o += "}";
        rest = &rest[start..];
    }
    o + rest
}
/// the part of the debug form around the first difference, and the field it is in
fn where_differs(a: &str, b: &str) -> (String, String) {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |t: &str, from: usize, to: usize| String::from_utf8_lossy(&t.as_bytes()[from.min(t.len())..to.min(t.len())]).to_string();
    let before = cut(a, n.saturating_sub(200), n);
    let field = before.split(|c: char| !c.is_alphanumeric() && c != '_' && c != ':').filter(|w| w.ends_with(':') && w.len() > 2).last().unwrap_or("").trim_end_matches(':').to_string();
    (field, format!("{} | {}", cut(a, n.saturating_sub(60), n + 80), cut(b, n.saturating_sub(60), n + 80)))
}

fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let mode = s.below(4);
    let mut d = match mode {
        0 | 1 => {
            let ver = gen_version(s);
            let d = gen_drawing(s, idx as usize, ver, &FULL);
            if mode == 0 {
                c.class("generated");
                d
            } else {
                c.class("saved and loaded");
                let binary = s.flip();
                match guard(|| save(&d, binary).and_then(|b| load(&b))) {
                    Ok(Ok(d)) => d,
                    _ => return,
                }
            }
        }
        _ => {
            let (b, what) = hostile::gen(s, idx as usize);
            match guard(|| Drawing::load(&mut &b[..])) {
                Ok(Ok(d)) => {
                    c.class(what);
                    d
                }
                _ => {
                    c.class("not loadable");
                    return;
                }
            }
        }
    };
    let shown = debug(&d);
    if shown.contains("NaN") || shown.contains("inf") {
        // (also drops the few drawings in which a text holds these letters)
        c.class("with infinite numbers");
        return;
    }
    c.desc = summary(&d).chars().take(300).collect();
    c.nontrivial = d.entities().count() + d.objects().count() + d.blocks().count() + d.layers().count() > 0;
    let how = s.below(4);
    let (t, mut back) = match guard(|| round(&d, how)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return c.fail(format!("json-error:{}", e.split(" at line").next().unwrap_or("")), e),
        Err(e) => return c.fail(format!("json-panic:{}", e), ""),
    };
    c.ident(t.as_bytes());
    if back.thumbnail.is_some() {
        c.fail("thumbnail", "a thumbnail from nowhere");
    }
    let got = debug(&back);
    c.evals += 1;
    if got != shown {
        let (f, m) = where_differs(&shown, &got);
        return c.fail(format!("differs:{}", f), m);
    }
    d.thumbnail = None;
    for _ in 0..3 {
        let ver = gen_version(s);
        let binary = s.flip();
        d.header.version = acad(ver);
        back.header.version = acad(ver);
        c.evals += 1;
        let (x, y) = (guard(|| save(&d, binary)), guard(|| save(&back, binary)));
        if x != y {
            let m = match (&x, &y) {
                (Ok(Ok(a)), Ok(Ok(b))) => crate::props::c14::context(ver, binary, a, b).1,
                _ => "one of the two cannot be saved".into(),
            };
            return c.fail("saved-differs", format!("{}: {}", VERSIONS[ver], m));
        }
    }
    if d.header.next_available_handle.0 < 1 << 60 {
        let add = |d: &mut Drawing| {
            let a = d.add_entity(Entity::new(EntityType::Line(Line::default()))).common.handle.0;
            let b = d.add_object(Object::new(ObjectType::PlaceHolder(PlaceHolder::default()))).common.handle.0;
            (a, b, d.header.next_available_handle.0)
        };
        let (x, y) = (add(&mut d), add(&mut back));
        if x != y {
            c.fail("handles", format!("{:?} {:?}", x, y));
        }
    }
    
}

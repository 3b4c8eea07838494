//! What a field looks like on the wire, according to the reference table.
use crate::model::*;
use crate::reflect::*;
use crate::wire::*;
use serde_json::Value;

fn scalar(code: i32, f: &Field, v: &Value) -> Option<Pair> {
    let num = |i: i64| match code_width(code) {
        'd' => dbl(code, i as f64),
        't' => st(code, i.to_string()),
        _ => int(code, i),
    };
    Some(match f.ty.as_str() {
        "f64" => match code_width(code) {
            'd' => dbl(code, v.as_f64()?),
            _ => int(code, v.as_f64()? as i64),
        },
        "bool" => {
            let b = v.as_bool()?;
            let b = if f.wc.contains('!') { !b } else { b };
            num(b as i64)
        }
        "String" => st(code, v.as_str()?),
        "i16" | "i32" | "i64" | "u32" | "usize" => match v.as_i64() {
            Some(i) if f.ty == "u32" => num(i as u32 as i32 as i64),
            Some(i) => num(i),
            None => return None,
        },
        "Handle" => st(code, format!("{:X}", v.as_u64()?)),
        "Color" | "LineWeight" => num(v["raw_value"].as_i64()?),
        "ViewMode" => num(v["flags"].as_i64()?),
        "Vec<u8>" => bin(code, v.as_array()?.iter().map(|x| x.as_u64().unwrap() as u8).collect()),
        "char" => {
            let c = v.as_str()?.chars().next()?;
            match code_width(code) {
                't' => st(code, c.to_string()),
                _ => num(c as i64),
            }
        }
        t if is_enum(t) => num(model().enums[t].iter().find(|(n, _)| *n == v.as_str().unwrap_or(""))?.1),
        _ => return None,
    })
}

/// the pairs of one value (a point gives two or three)
pub fn pairs_of(f: &Field, v: &Value) -> Option<Vec<Pair>> {
    if f.ty == "Point" || f.ty == "Vector" {
        let k = ["x", "y", "z"];
        let codes: Vec<i32> = if f.codes.len() == 1 { return None } else { f.codes.clone() };
        return codes.iter().enumerate().map(|(i, c)| Some(dbl(*c, v[k[i]].as_f64()?))).collect();
    }
    Some(vec![scalar(f.codes[0], f, v)?])
}

#[derive(Debug, Clone)]
pub struct Rec {
    pub kind: String,
    pub pairs: Vec<Pair>,
}
/// the records of a section: [(type, pairs)]
pub fn section(ps: &[Pair], name: &str) -> Vec<Rec> {
    let mut out: Vec<Rec> = vec![];
    let mut i = 0;
    while i < ps.len() {
        if ps[i].is(0, "SECTION") && ps.get(i + 1).map(|p| p.is(2, name)) == Some(true) {
            i += 2;
            while i < ps.len() && !ps[i].is(0, "ENDSEC") {
                if ps[i].c == 0 {
                    out.push(Rec { kind: ps[i].s().to_string(), pairs: vec![] });
                } else if let Some(r) = out.last_mut() {
                    r.pairs.push(ps[i].clone());
                } else {
                    out.push(Rec { kind: String::new(), pairs: vec![ps[i].clone()] });
                }
                i += 1;
            }
            return out;
        }
        i += 1;
    }
    out
}
/// a record's own pairs: without extension groups and extended data
pub fn own(r: &Rec) -> Vec<Pair> {
    let mut out = vec![];
    let mut depth = 0;
    for p in &r.pairs {
        if p.c >= 1000 {
            break;
        }
        if p.c == 102 {
            depth += if p.s() == "}" { -1 } else { 1 };
            continue;
        }
        if depth == 0 {
            out.push(p.clone());
        }
    }
    out
}

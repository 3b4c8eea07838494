//! C02: a drawing that loaded can be saved, and what is saved loads again
use crate::engine::{guard, Case, Prop, Src};
use crate::gen::*;
use crate::hostile;
use crate::model::*;
use crate::reflect::*;
use crate::tables::*;
use crate::wire::*;
use dxf::Drawing;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "a case loads a hostile file (as for C01) and, if it is a drawing, saves it for three generated versions as text or binary: saving must succeed, the result must load, hold as many items of every kind that the version can hold (table records that items refer to may be added), and saving that once more must give the same records; non-trivial: the file loaded; distinct by bytes",
        quick: 20_000,
        thorough: 600_000,
        run,
        assumptions: &["a class named ENDSEC is not saved for R13 and before, where the name of a class is the name of its record"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

/// number of items by kind that a file of the version can hold
fn census(d: &Drawing, ver: usize) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    let mut add = |k: String| *m.entry(k).or_insert(0) += 1;
    let ents = |es: Vec<&dxf::entities::Entity>, pre: &str, add: &mut dyn FnMut(String)| {
        for e in es {
            let v = serde_json::to_value(e).unwrap();
            let k = kind(&v);
            let t = &model().entities[&k];
            if ver >= t.min && ver <= t.max {
                add(format!("{}{}", pre, k));
            }
        }
    };
    ents(d.entities().collect(), "", &mut add);
    for b in d.blocks() {
        add("block".into());
        ents(b.entities.iter().collect(), "block ", &mut add);
    }
    if ver >= R13 {
        for o in d.objects() {
            let v = serde_json::to_value(o).unwrap();
            let k = kind(&v);
            let t = &model().objects[&k];
            if ver >= t.min && ver <= t.max {
                add(k);
            }
        }
    }
    for t in TABLES {
        if *t == "BlockRecord" && ver < R13 {
            continue;
        }
        for _ in records(d, t) {
            add(t.to_string());
        }
    }
    for _ in &d.classes {
        add("class".into());
    }
    m
}

fn record_names(ps: &[Pair]) -> Vec<String> {
    // loading adds the table records that items and the header refer to
    const TABLE: &[&str] = &["LAYER", "LTYPE", "STYLE", "DIMSTYLE", "UCS", "APPID", "VIEW", "VPORT", "BLOCK_RECORD"];
    ps.iter().filter(|p| p.c == 0).map(|p| p.s().to_string()).filter(|n| !TABLE.contains(&n.as_str())).collect()
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let (b, what) = hostile::gen(s, idx as usize);
    c.ident(&b);
    if let Ok(p) = std::env::var("VERIF_DUMP") {
        std::fs::write(p, &b).unwrap();
    }
    let mut d = match guard(|| Drawing::load(&mut &b[..])) {
        Ok(Ok(d)) => d,
        _ => {
            c.class("not loadable");
            return;
        }
    };
    c.nontrivial = true;
    c.class(what.clone());
    c.desc = format!("{}: {}", what, crate::drawing::summary(&d).chars().take(300).collect::<String>());
    for _ in 0..3 {
        let ver = gen_version(s);
        let binary = s.flip();
        d.header.version = acad(ver);
        // R13 writes the name of a class as the name of its record
        if ver < R14 && d.classes.iter().any(|c| c.record_name == "ENDSEC") {
            continue;
        }
        let form = if binary { "binary" } else { "text" };
        c.evals += 1;
        let out = match guard(|| save(&d, binary)) {
            Err(m) => {
                c.fail(format!("save-panic:{}", m), format!("saving as {} {}", VERSIONS[ver], form));
                continue;
            }
            Ok(Err(e)) => {
                c.fail(format!("save-error:{}", e), format!("saving as {} {}", VERSIONS[ver], form));
                continue;
            }
            Ok(Ok(b)) => b,
        };
        let e = match guard(|| load(&out)) {
            Err(m) => {
                c.fail(format!("reload-panic:{}", m), format!("{} {}", VERSIONS[ver], form));
                continue;
            }
            Ok(Err(e)) => {
                if let Ok(p) = std::env::var("VERIF_DUMP") {
                    std::fs::write(p + ".out", &out).unwrap();
                }
                let short: String = e.chars().filter(|x| !x.is_ascii_digit()).collect();
                c.fail(format!("reload-error:{}", short), format!("{} {}: {}", VERSIONS[ver], form, e));
                continue;
            }
            Ok(Ok(e)) => e,
        };
        let (x, y) = (census(&d, ver), census(&e, ver));
        for (k, n) in &x {
            let m = y.get(k).copied().unwrap_or(0);
            // loading adds the table records that items refer to
            if m != *n && !(TABLES.contains(&k.as_str()) && m > *n) {
                c.fail(format!("count:{}", k), format!("{} {}: {} {} loaded, {} after saving and loading", VERSIONS[ver], form, n, k, m));
            }
        }
        for k in y.keys() {
            if !x.contains_key(k) && !TABLES.contains(&k.as_str()) {
                c.fail(format!("count:{}", k), format!("{} {}: no {} loaded, {} after saving and loading", VERSIONS[ver], form, k, y[k]));
            }
        }
        let again = match guard(|| save(&e, binary)) {
            Ok(Ok(b)) => b,
            r => {
                c.fail("resave", format!("{} {}: {:?}", VERSIONS[ver], form, r.map(|x| x.map(|_| ()))));
                continue;
            }
        };
        let lex = |b: &[u8]| if binary { lex_binary(b, ver >= R13) } else { lex_text(b, ver >= R2007) };
        match (lex(&out), lex(&again)) {
            (Ok(p), Ok(q)) => {
                let (p, q) = (record_names(&p), record_names(&q));
                if p != q {
                    let i = p.iter().zip(&q).take_while(|(a, b)| a == b).count();
                    c.fail(format!("records:{:?}", p.get(i)), format!("{} {}: record {}: {:?} then {:?}", VERSIONS[ver], form, i, p.get(i), q.get(i)));
                }
            }
            (p, q) => c.fail("malformed", format!("{} {}: {:?} {:?}", VERSIONS[ver], form, p.err(), q.err())),
        }
    }
}

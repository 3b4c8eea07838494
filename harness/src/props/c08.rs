//! C08: text and binary forms of a drawing are equivalent
use crate::drawing::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use crate::wire::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "a case builds a whole generated drawing (header, tables, classes, blocks, entities, objects, extended data, thumbnail), saves it as text and as binary, splits both files into pairs with an independent reader, and loads both; oracle: equal pair sequences, equal loaded drawings; further cases put generated raw pairs of every value type into an extension record written by the harness itself in both forms; non-trivial: the drawing holds at least one item beyond a new drawing's; distinct by file content",
        quick: 6_000,
        thorough: 120_000,
        run,
        assumptions: &["numbers compare to the 12 decimals of the text form", "binary chunks hold at most 255 bytes, the limit of the binary form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let d = gen_drawing(s, idx as usize, ver, &FULL);
    c.desc = summary(&d);
    c.class(format!("version:{}", VERSIONS[ver]));
    c.nontrivial = true;
    let (t, b) = match (save(&d, false), save(&d, true)) {
        (Ok(t), Ok(b)) => (t, b),
        (a, b) => return c.fail("save-error", format!("text {:?} binary {:?}", a.err(), b.err())),
    };
    c.ident(&b);
    let tp = match lex_text(&t, ver >= R2007) {
        Ok(p) => p,
        Err(e) => return c.fail("text-malformed", e),
    };
    let bp = match lex_binary(&b, ver >= R13) {
        Ok(p) => p,
        Err(e) => return c.fail("binary-malformed", e),
    };
    if let Some(m) = first_diff(&tp, &bp) {
        return c.fail("pairs-differ", format!("text vs binary: {}", m));
    }
    both_load(&t, &b, c);
    // foreign spelling of the same content: written by the harness in both forms
    both_load(&emit_text(&tp, ver >= R2007), &emit_binary(&tp, ver >= R13), c);
}

fn both_load(t: &[u8], b: &[u8], c: &mut Case) {
    match (load(t), load(b)) {
        (Ok(x), Ok(y)) => {
            let (x, y) = (snapshot(&x), snapshot(&y));
            let mut o = vec![];
            diff("", &x, &y, false, &mut o);
            for (p, m) in o.into_iter().filter(|(p, _)| !volatile(p)) {
                c.fail(format!("loaded:{}", part_of(&p, &x)), format!("text vs binary {}: {}", p, m));
            }
        }
        (x, y) => c.fail("load-error", format!("text: {:?}; binary: {:?}", x.err(), y.err())),
    }
}
/// defaults that are the current time or a random number where the file does not give them
pub fn volatile(p: &str) -> bool {
    p.strip_prefix("header.").map(|h| crate::props::c06::VOLATILE.contains(&h)).unwrap_or(false)
}

//! C14: saving is repeatable, pure and reaches a fixed point
use crate::drawing::*;
use crate::engine::{Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c06::VOLATILE;
use crate::props::c08::volatile;
use crate::props::c10::lex;
use crate::reflect::*;
use crate::wire::*;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a case builds a generated drawing (a third of the cases normalise it), saves it twice as text and twice as binary and compares bytes and the drawing itself before and after; builds the same drawing again from the same choices and compares what is saved; loads the saved bytes twice and compares what the two save; then cycles save and load and compares the files of the second, third and fourth cycle; non-trivial: the drawing holds an entity, object or block; distinct by file content",
        quick: 4_000,
        thorough: 80_000,
        run,
        assumptions: &["header variables that a new drawing takes from the clock or at random are left out when two separately built drawings are compared"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}

fn build(s: &mut Src, idx: u64, ver: usize) -> dxf::Drawing {
    let mut d = gen_drawing(s, idx as usize, ver, &SOUND);
    if s.chance(1, 3) {
        d.normalize();
    }
    d
}
/// pairs without the header variables that differ between new drawings
fn stable(ps: Vec<Pair>) -> Vec<Pair> {
    let vars: Vec<&str> = model().header.iter().filter(|f| VOLATILE.contains(&f.name.as_str())).map(|f| f.var.as_str()).collect();
    let mut skip = false;
    ps.into_iter()
        .filter(|p| {
            if p.c == 9 {
                skip = vars.contains(&p.s());
            } else if p.c == 0 {
                skip = false;
            }
            !skip
        })
        .collect()
}
pub fn context(ver: usize, binary: bool, a: &[u8], b: &[u8]) -> (String, String) {
    match (lex(a, binary, ver), lex(b, binary, ver)) {
        (Ok(x), Ok(y)) => {
            let m = first_diff(&x, &y).unwrap_or("same pairs, different spelling".into());
            let i = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)).unwrap_or(0);
            let k = x[..i.min(x.len())].iter().rev().find(|p| p.c == 0 || p.c == 9).map(|p| p.s().to_string()).unwrap_or_default();
            let code = x.get(i).map(|p| p.c).unwrap_or(-1);
            (format!("{}.{}", k, code), m)
        }
        (x, y) => ("malformed".into(), format!("{:?} {:?}", x.err(), y.err())),
    }
}

fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let start = s.rec.len();
    let d = build(s, idx, ver);
    let rec = s.rec[start..].to_vec();
    c.class(format!("version:{}", VERSIONS[ver]));
    c.desc = format!("{} {}", if binary { "binary" } else { "text" }, summary(&d));
    c.nontrivial = d.entities().count() + d.objects().count() + d.blocks().count() > 0;
    let before = snapshot(&d);
    let mut last: [Option<Vec<u8>>; 2] = [None, None];
    for round in 0..2 {
        for bin in [false, true] {
            let b = match save(&d, bin) {
                Ok(b) => b,
                Err(e) => return c.fail("save-error", e),
            };
            if let Some(a) = &last[bin as usize] {
                if *a != b {
                    let (k, m) = context(ver, bin, a, &b);
                    c.fail(format!("saved-twice:{}", k), format!("round {}: {}", round, m));
                }
            }
            last[bin as usize] = Some(b);
        }
    }
    let after = snapshot(&d);
    if before != after {
        let mut o = vec![];
        diff("", &before, &after, true, &mut o);
        for (p, m) in o {
            c.fail(format!("changed-by-saving:{}", part_of(&p, &before)), m);
        }
    }
    let b0 = last[binary as usize].take().unwrap();
    c.ident(&b0);
    // the same operations again
    let again = build(&mut Src::replaying(rec), idx, ver);
    match save(&again, binary) {
        Ok(b) => match (lex(&b0, binary, ver), lex(&b, binary, ver)) {
            (Ok(x), Ok(y)) => {
                if let Some(m) = first_diff(&stable(x), &stable(y)) {
                    c.fail("built-twice", m);
                }
            }
            (x, y) => c.fail("malformed", format!("{:?} {:?}", x.err(), y.err())),
        },
        Err(e) => c.fail("save-error", e),
    }
    // loaded twice
    let (l1, l2) = match (load(&b0), load(&b0)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return c.fail("load-error", format!("{:?} {:?}", a.err(), b.err())),
    };
    let mut o = vec![];
    diff("", &snapshot(&l1), &snapshot(&l2), true, &mut o);
    for (p, m) in o.into_iter().filter(|(p, _)| !volatile(p)) {
        c.fail("loaded-twice", format!("{}: {}", p, m));
    }
    let (b1, b1b) = match (save(&l1, binary), save(&l2, binary)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return c.fail("save-error:loaded", format!("{:?} {:?}", a.err(), b.err())),
    };
    if b1 != b1b {
        let (k, m) = context(ver, binary, &b1, &b1b);
        c.fail(format!("loaded-twice:{}", k), m);
    }
    // cycles
    let mut cur = b1;
    for n in 2..=4 {
        let next = match load(&cur).and_then(|d| save(&d, binary)) {
            Ok(b) => b,
            Err(e) => return c.fail("cycle-error", format!("cycle {}: {}", n, e)),
        };
        if next != cur {
            let (k, m) = context(ver, binary, &cur, &next);
            if ver >= R13 || !only_seed(ver, binary, &cur, &next) {
                return c.fail(format!("drift:{}", k), format!("cycle {}: {}", n, m));
            }
        }
        cur = next;
    }
}
/// before R13 block records are not stored, so that each loading hands out new handles
fn only_seed(ver: usize, binary: bool, a: &[u8], b: &[u8]) -> bool {
    let f = |x: &[u8]| -> Option<Vec<Pair>> {
        let mut p = lex(x, binary, ver).ok()?;
        let i = p.iter().position(|p| p.is(9, "$HANDSEED"))?;
        p.remove(i + 1);
        Some(p)
    };
    f(a).is_some() && f(a) == f(b)
}

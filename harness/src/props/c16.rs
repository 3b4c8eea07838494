//! C16: see machine.rs
use crate::engine::{Case, Prop, Src};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a case is a generated history of 1-25 steps as for C15 on a model of plain lists, one per collection; each step's effect on every collection is compared with the model's (value added, value returned, positions, what mutable iteration visits, out-of-range removal, clearing, header unchanged, extra records only for names the item refers to, each once and with default values); non-trivial: more than one step, at least one add; distinct by history",
        quick: 10_000,
        thorough: 60_000,
        run,
        assumptions: &["values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}
fn run(s: &mut Src, idx: u64, c: &mut Case) {
    crate::machine::run(s, idx, c, "C16");
}

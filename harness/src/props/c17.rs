//! C17: see machine.rs
use crate::engine::{Case, Prop, Src};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "a case is a generated history of 1-25 steps as for C15 with names drawn from a small pool (so that they collide or are missing) and with invalid settings; after every add and load all names the items refer to must have a record; after normalising the standard records and those the header names exist, everything present before is still there with only the documented repairs, tables are sorted, and normalising again changes nothing; non-trivial: more than one step, at least one add; distinct by history",
        quick: 10_000,
        thorough: 60_000,
        run,
        assumptions: &["values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}
fn run(s: &mut Src, idx: u64, c: &mut Case) {
    crate::machine::run(s, idx, c, "C17");
}

//! C15: see machine.rs
use crate::engine::{Case, Prop, Src};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is a generated history of 1-25 steps (add any kind of item with generated values and stale handles, remove, put back, grow a compound entity, edit, set references through the API, normalise, clear, let the handles go on from a larger value, save and load at any version as text or binary, load after the next-handle variable or handles of records were lowered or dropped); after every step all handles incl. those of parts and block contents are collected and must be non-zero, unique and below the next available one, new ones at or above the previous next one, loads must keep them, every item must be found by its handle, and every reference must lead to the item it was set to; non-trivial: more than one step, at least one add; distinct by history",
        quick: 10_000,
        thorough: 60_000,
        run,
        assumptions: &["values are compared through the crate's own JSON form", "files in which two records claim the same handle, and the handle FFFFFFFFFFFFFFFF, are left out"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 60,
        workers: 8,
    }
}
fn run(s: &mut Src, idx: u64, c: &mut Case) {
    crate::machine::run(s, idx, c, "C15");
}

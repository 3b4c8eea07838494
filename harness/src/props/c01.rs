//! C01: loading any byte stream ends with a drawing or an error
use crate::engine::{guard, Case, Prop, Src, LIVE, PEAK};
use crate::hostile;
use dxf::Drawing;
use std::sync::atomic::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "a case is a hostile file: a generated file (any version, every section) with 1-8 edits of pairs (extreme, foreign or mistyped values, codes and record names; pairs left out, repeated, moved, swapped; groups opened; the rest cut off), or records of arbitrary pairs in every section, or DXB items, written as text or binary, one in five with edited bytes; one in 150 nests groups up to 40000 deep, one in 1000 repeats a record up to 10000 times; loaded with the default or one of ten other encodings in a worker process with limits on CPU time and live memory (2000 bytes per byte of input + 32 MiB); non-trivial: every case; distinct by bytes",
        quick: 50_000,
        thorough: 2_000_000,
        run,
        assumptions: &["a worker process runs with 8 MiB of stack; 30 s of CPU time for one file count as a loop"],
        level: "exploration",
        mem_mb: 2048,
        cpu_s: 30,
        workers: 8,
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let (b, what) = hostile::gen(s, idx as usize);
    c.class(what.clone());
    c.ident(&b);
    c.desc = format!("{}: {:?}", what, String::from_utf8_lossy(&b[..b.len().min(300)]));
    if let Ok(p) = std::env::var("VERIF_DUMP") {
        std::fs::write(p, &b).unwrap();
    }
    let enc = if s.chance(1, 6) { Some(*s.pick(&[encoding_rs::UTF_8, encoding_rs::GBK, encoding_rs::SHIFT_JIS, encoding_rs::UTF_16LE, encoding_rs::ISO_2022_JP, encoding_rs::GB18030, encoding_rs::REPLACEMENT, encoding_rs::X_USER_DEFINED, encoding_rs::BIG5, encoding_rs::KOI8_R])) } else { None };
    let before = LIVE.load(Ordering::Relaxed);
    PEAK.store(before, Ordering::Relaxed);
    let r = guard(|| match enc {
        None => Drawing::load(&mut &b[..]),
        Some(e) => Drawing::load_with_encoding(&mut &b[..], e),
    });
    let used = PEAK.load(Ordering::Relaxed) - before;
    let allowed = 2000 * b.len() + (32 << 20);
    if used > allowed {
        c.fail("memory", format!("{} bytes of memory for {} bytes of input", used, b.len()));
    }
    match r {
        Err(m) => c.fail(format!("panic:{}", m), "loading panics"),
        Ok(Ok(_)) => {
            c.class("drawing");
            c.nontrivial = true;
        }
        Ok(Err(e)) => {
            let t = format!("{:?}", e);
            let t = t.split(|x: char| !x.is_alphanumeric()).next().unwrap().to_string();
            c.class(format!("error {}", t));
            c.nontrivial = true;
        }
    }
}

//! Choice-sequence property engine: every random decision of a case is drawn from `Src`,
//! recorded, and can be replayed or shrunk.  Cases are run in worker processes so that an
//! abort, stack overflow or runaway allocation of the code under test is observed, not suffered.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

// ---------------------------------------------------------------- allocation accounting
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// hard limit on live bytes in a worker process
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub const EXIT_MEM: i32 = 77;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        if n > PEAK.load(Ordering::Relaxed) {
            PEAK.store(n, Ordering::Relaxed);
            if n > LIMIT.load(Ordering::Relaxed) {
                libc::_exit(EXIT_MEM);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}

// ---------------------------------------------------------------- choices
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Src {
    pub fn new(seed: u64) -> Src {
        Src { state: mix(seed), replay: None, pos: 0, rec: vec![] }
    }
    pub fn replaying(v: Vec<u64>) -> Src {
        Src { state: 0, replay: Some(v), pos: 0, rec: vec![] }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.replay.is_some() {
            let r = self.replay.as_ref().unwrap();
            let v = if self.pos < r.len() { r[self.pos] } else { 0 };
            self.pos += 1;
            v % n
        } else {
            self.raw() % n
        };
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a.wrapping_add(self.below((b.wrapping_sub(a) as u64).wrapping_add(1)) as i64)
    }
    pub fn any64(&mut self) -> u64 {
        let v = if self.replay.is_some() {
            let r = self.replay.as_ref().unwrap();
            let v = if self.pos < r.len() { r[self.pos] } else { 0 };
            self.pos += 1;
            v
        } else {
            self.raw()
        };
        self.rec.push(v);
        v
    }
    /// true with probability num/den; 0-choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// a size: mostly small, occasionally up to `max`
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(8) {
            0..=4 => self.us(max.min(4) + 1),
            5 | 6 => self.us(max.min(12) + 1),
            _ => self.us(max + 1),
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            let j = i - self.us(i + 1);
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- outcomes
#[derive(Clone, Debug)]
pub struct Fail {
    /// stable, behaviour-level signature (used for known findings)
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Case {
    pub fails: Vec<Fail>,
    pub nontrivial: bool,
    /// identity of the generated case for distinctness
    pub id: u64,
    pub classes: Vec<String>,
    pub desc: String,
    pub evals: u64,
}

impl Case {
    pub fn new() -> Case {
        Case { evals: 1, ..Default::default() }
    }
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        if self.fails.len() < 400 {
            self.fails.push(Fail { sig: sig.into(), msg: msg.into() });
        }
    }
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn ident(&mut self, b: &[u8]) {
        if let Ok(f) = std::env::var("VERIF_DUMP") {
            let _ = std::fs::write(f, b);
        }
        self.id = mix(self.id ^ hash_bytes(b));
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, u64, &mut Case),
    /// number of leading case indices that are enumerated exhaustively (index passed to `run`)
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    /// memory limit in MiB of live allocations in a worker for one case
    pub mem_mb: usize,
    /// CPU seconds one case may use before the run is declared stuck
    pub cpu_s: u64,
    pub workers: usize,
}

thread_local! {
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

/// run `f`, turning a panic of the code under test into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_case(p: &Prop, src: &mut Src, idx: u64) -> Case {
    let mut c = Case::new();
    let r = guard(|| (p.run)(src, idx, &mut c));
    if let Err(m) = r {
        c.fail("panic", format!("panic: {}", m));
    }
    c
}

fn case_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    mix(mix(seed.wrapping_mul(0x1000193)) ^ hash_bytes(p.id.as_bytes()) ^ mix(idx.wrapping_add(17)))
}

#[derive(Default, Clone)]
pub struct Known {
    pub entries: Vec<(String, String)>, // (sig, what)
}
impl Known {
    pub fn load(path: &Path, prop: &str) -> Known {
        let mut k = Known::default();
        if let Ok(t) = fs::read_to_string(path) {
            let v: Value = serde_json::from_str(&t).expect("known findings file is not JSON");
            for e in v["known"].as_array().unwrap_or(&vec![]) {
                if e["property"] == prop {
                    k.entries.push((e["sig"].as_str().unwrap().into(), e["what"].as_str().unwrap_or("").into()));
                }
            }
        }
        k
    }
    pub fn covers(&self, sig: &str) -> bool {
        self.entries.iter().any(|(s, _)| s == sig)
    }
}

fn unlisted<'a>(c: &'a Case, known: &Known) -> Option<&'a Fail> {
    c.fails.iter().find(|f| !known.covers(&f.sig))
}

// ---------------------------------------------------------------- shrinking
fn shrink(p: &Prop, idx: u64, first: Vec<u64>, known: &Known, budget: Duration) -> (Vec<u64>, Case) {
    let start = Instant::now();
    let mut best = first;
    let mut best_case = {
        let mut s = Src::replaying(best.clone());
        run_case(p, &mut s, idx)
    };
    let mut tries = 0u32;
    let mut attempt = |cand: &Vec<u64>, best: &mut Vec<u64>, best_case: &mut Case| -> bool {
        tries += 1;
        if tries > 20000 || start.elapsed() > budget {
            return false;
        }
        let mut s = Src::replaying(cand.clone());
        let c = run_case(p, &mut s, idx);
        if unlisted(&c, known).is_some() {
            let rec = s.rec;
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                *best = rec;
                *best_case = c;
                return true;
            }
        }
        false
    };
    if unlisted(&best_case, known).is_none() {
        return (best, best_case);
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let e = (i + size).min(cand.len());
                cand.drain(i..e);
                if !attempt(&cand, &mut best, &mut best_case) {
                    i += size;
                }
                if start.elapsed() > budget {
                    return (best, best_case);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(&cand, &mut best, &mut best_case) && i < best.len() {
                    let mut v = best[i];
                    while v > 1 {
                        v /= 2;
                        let mut cand = best.clone();
                        if i >= cand.len() {
                            break;
                        }
                        cand[i] = v;
                        if !attempt(&cand, &mut best, &mut best_case) {
                            break;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        attempt(&cand, &mut best, &mut best_case);
                    }
                }
            }
            i += 1;
            if start.elapsed() > budget {
                return (best, best_case);
            }
        }
        if best == before {
            break;
        }
    }
    (best, best_case)
}

// ---------------------------------------------------------------- worker
pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub root: PathBuf,
    pub cases: Option<u64>,
}

pub fn worker(p: &Prop, o: &Opts, from: u64, to: u64, step: u64, out: &Path) -> i32 {
    install_hook();
    let known = Known::load(&o.root.join("known_findings.json"), p.id);
    LIMIT.store(p.mem_mb << 20, Ordering::Relaxed);
    let progress = out.with_extension("progress");
    use std::os::unix::fs::FileExt;
    let pf = fs::File::create(&progress).unwrap();
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation = Value::Null;
    let mut nontrivial = 0u64;
    let mut i = from;
    let mut max_peak = 0usize;
    while i < to {
        pf.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
        // CPU limit for this case
        unsafe {
            let mut ru: libc::rusage = std::mem::zeroed();
            libc::getrusage(libc::RUSAGE_SELF, &mut ru);
            let used = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64;
            let lim = libc::rlimit { rlim_cur: used + p.cpu_s + 1, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
        }
        PEAK.store(LIVE.load(Ordering::Relaxed), Ordering::Relaxed);
        let mut s = Src::new(case_seed(p, o.seed, i));
        let c = run_case(p, &mut s, i);
        max_peak = max_peak.max(PEAK.load(Ordering::Relaxed));
        evals += c.evals;
        if c.nontrivial {
            nontrivial += 1;
            let id = if c.id != 0 { c.id } else { mix(i) };
            distinct.insert(id);
            if samples.len() < 3 && !c.desc.is_empty() {
                let mut d = c.desc.clone();
                if d.len() > 600 {
                    let mut k = 600;
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    d.truncate(k);
                    d.push('…');
                }
                samples.push(d);
            }
        }
        for k in &c.classes {
            *classes.entry(k.clone()).or_insert(0) += 1;
        }
        let mut seen = HashSet::new();
        for f in &c.fails {
            if known.covers(&f.sig) && seen.insert(f.sig.clone()) {
                *known_hits.entry(f.sig.clone()).or_insert(0) += 1;
            }
        }
        if unlisted(&c, &known).is_some() {
            let rec = s.rec.clone();
            unsafe {
                let lim = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
            }
            let orig: Vec<Value> = c.fails.iter().filter(|f| !known.covers(&f.sig)).take(10)
                .map(|f| json!({"sig": f.sig, "msg": f.msg})).collect();
            let (small, sc) = shrink(p, i, rec.clone(), &known, shrink_time());
            let fl = unlisted(&sc, &known).cloned().unwrap_or_else(|| unlisted(&c, &known).unwrap().clone());
            violation = json!({"index": i, "choices": small, "sig": fl.sig, "msg": fl.msg, "case": sc.desc,
                "original": orig, "original_choices": rec.len()});
            break;
        }
        i += step;
    }
    let d: Vec<u64> = distinct.into_iter().collect();
    let v = json!({"evals": evals, "distinct": d, "nontrivial": nontrivial, "classes": classes, "samples": samples,
        "known": known_hits, "violation": violation, "peak": max_peak});
    fs::write(out, v.to_string()).unwrap();
    0
}

// ---------------------------------------------------------------- parent
pub fn run(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick });
    let known = Known::load(&o.root.join("known_findings.json"), p.id);
    let scratch = o.root.join("harness").join("run").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let w = p.workers as u64;
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<Value> = None;
    let mut error: Option<String> = None;
    let mut children = vec![];
    for k in 0..w {
        let out = scratch.join(format!("w{}.json", k));
        let ch = Command::new(&exe)
            .args(["worker", p.id, &o.seed.to_string(), &k.to_string(), &total.to_string(), &w.to_string()])
            .arg(&out)
            .arg(&o.root)
            .stdout(Stdio::null())
            .stderr(fs::File::create(scratch.join(format!("w{}.err", k))).unwrap())
            .spawn()
            .unwrap();
        children.push((k, ch, out));
    }
    let mut peak = 0u64;
    for (k, mut ch, out) in children {
        let st = ch.wait().unwrap();
        if st.code() == Some(0) && out.exists() {
            let v: Value = serde_json::from_str(&fs::read_to_string(&out).unwrap()).unwrap();
            evals += v["evals"].as_u64().unwrap();
            nontrivial += v["nontrivial"].as_u64().unwrap();
            peak = peak.max(v["peak"].as_u64().unwrap_or(0));
            for d in v["distinct"].as_array().unwrap() {
                distinct.insert(d.as_u64().unwrap());
            }
            for (c, n) in v["classes"].as_object().unwrap() {
                *classes.entry(c.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for (c, n) in v["known"].as_object().unwrap() {
                *known_hits.entry(c.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for s in v["samples"].as_array().unwrap() {
                if samples.len() < 6 && (k as usize) < 6 {
                    samples.push(s.as_str().unwrap().to_string());
                    break;
                }
            }
            if !v["violation"].is_null() {
                let better = match &violation {
                    None => true,
                    Some(b) => v["violation"]["choices"].as_array().unwrap().len() < b["choices"].as_array().map(|a| a.len()).unwrap_or(usize::MAX),
                };
                if better {
                    violation = Some(v["violation"].clone());
                }
            }
        } else {
            // the worker died: find the case and confirm in a fresh process
            let mut b = [0u8; 8];
            let idx = match fs::read(out.with_extension("progress")) {
                Ok(d) if d.len() >= 8 => {
                    b.copy_from_slice(&d[..8]);
                    u64::from_le_bytes(b)
                }
                _ => 0,
            };
            if idx == 0 {
                error = Some(format!("worker {} failed to start: {:?}", k, st));
                continue;
            }
            let idx = idx - 1;
            let (kind, again) = (death(&st), confirm(&exe, p, o, idx, &scratch));
            if again.is_none() {
                error = Some(format!("worker {} died ({}) on case {} but the case alone does not reproduce it", k, kind, idx));
                continue;
            }
            let kind = again.unwrap();
            if kind == "SIGKILL" {
                error = Some(format!("case {} exceeded a resource limit ({})", idx, kind));
                continue;
            }
            let sig = format!("crash:{}", kind);
            if known.covers(&sig) {
                *known_hits.entry(sig).or_insert(0) += 1;
                error = Some(format!("known crash {} ended worker {}", kind, k));
                continue;
            }
            if violation.is_none() {
                violation = Some(json!({"index": idx, "seed_case": true, "choices": [], "sig": sig,
                    "msg": format!("the process under test died: {}", kind), "case": ""}));
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": p.level,
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples,
            "nontrivial_cases": nontrivial, "cases": total, "classes": classes, "known_finding_hits": known_hits, "peak_live_bytes": peak},
        "wall_s": wall, "violations": if violation.is_some() {1} else {0},
        "assumptions": p.assumptions,
    });
    let evd = o.root.join("evidence");
    fs::create_dir_all(&evd).ok();
    fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if let Some(v) = violation {
        let rd = o.root.join("replays");
        fs::create_dir_all(&rd).ok();
        let path = rd.join(format!("{}.json", p.id));
        let mut v = v;
        v["property"] = json!(p.id);
        v["seed"] = json!(o.seed);
        v["replay_cmd"] = json!(format!("bash /verif/check.sh {} replay {}", p.id, path.display()));
        fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("signature: {}", v["sig"].as_str().unwrap_or(""));
        println!("message: {}", v["msg"].as_str().unwrap_or(""));
        println!("case: {}", v["case"].as_str().unwrap_or("").chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR: {}", e);
        return 3;
    }
    for (sig, what) in &known.entries {
        println!("KNOWN-FINDING: property={} {} [{}; hit by {} cases of this run]", p.id, what, sig, known_hits.get(sig).unwrap_or(&0));
    }
    println!("OK property={} tier={} seed={} cases={} evaluations={} distinct_nontrivial={} wall={:.1}s", p.id, o.tier, o.seed, total, evals, distinct.len(), wall);
    std::io::stdout().flush().ok();
    0
}

fn death(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(EXIT_MEM) {
        return "memory-limit".into();
    }
    match st.signal() {
        Some(libc::SIGXCPU) => "cpu-limit".into(),
        Some(libc::SIGKILL) => "SIGKILL".into(),
        Some(libc::SIGSEGV) => "SIGSEGV (stack overflow)".into(),
        Some(libc::SIGABRT) => "SIGABRT".into(),
        Some(s) => format!("signal {}", s),
        None => format!("exit {:?}", st.code()),
    }
}

fn confirm(exe: &Path, p: &Prop, o: &Opts, idx: u64, scratch: &Path) -> Option<String> {
    let out = scratch.join("confirm.json");
    let st = Command::new(exe)
        .args(["worker", p.id, &o.seed.to_string(), &idx.to_string(), &(idx + 1).to_string(), "1"])
        .arg(&out)
        .arg(&o.root)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    if st.code() == Some(0) {
        None
    } else {
        Some(death(&st))
    }
}

pub fn replay(p: &Prop, o: &Opts, path: &Path) -> i32 {
    install_hook();
    let v: Value = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
    let known = Known::load(&o.root.join("known_findings.json"), p.id);
    let idx = v["index"].as_u64().unwrap();
    let mut s = if v["seed_case"] == true {
        Src::new(case_seed(p, v["seed"].as_u64().unwrap(), idx))
    } else {
        Src::replaying(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())
    };
    let c = run_case(p, &mut s, idx);
    println!("case: {}", c.desc);
    for f in &c.fails {
        println!("{}{}: {}", if known.covers(&f.sig) { "(known) " } else { "" }, f.sig, f.msg);
    }
    if unlisted(&c, &known).is_some() {
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    } else {
        println!("no violation");
        0
    }
}

/// development aid: run cases in this process and tabulate every failure signature
pub fn survey(p: &Prop, seed: u64, n: u64, root: &Path) {
    install_hook();
    let known = Known::load(&root.join("known_findings.json"), p.id);
    let mut t: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
    let mut nt = 0;
    for i in 0..n {
        let mut s = Src::new(case_seed(p, seed, i));
        let c = run_case(p, &mut s, i);
        if c.nontrivial {
            nt += 1;
        }
        for f in c.fails {
            let e = t.entry(f.sig.clone()).or_insert((0, format!("{} || {}", f.msg, c.desc), i));
            e.0 += 1;
        }
    }
    println!("{} cases, {} nontrivial", n, nt);
    for (k, (n, m, i)) in t {
        println!("{}{} x{} (case {}): {}", if known.covers(&k) { "(known) " } else { "" }, k, n, i, m.chars().take(420).collect::<String>());
    }
}

/// run a single case and print what it reports; VERIF_DUMP=file also stores the bytes a case identifies itself by
pub fn one(p: &Prop, seed: u64, idx: u64) {
    install_hook();
    let mut s = Src::new(case_seed(p, seed, idx));
    let c = run_case(p, &mut s, idx);
    println!("{}", c.desc);
    for f in &c.fails {
        println!("{}: {}", f.sig, f.msg);
    }
}

/// how long a failing case may be made smaller
fn shrink_time() -> Duration {
    Duration::from_secs(std::env::var("VERIF_SHRINK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(40))
}

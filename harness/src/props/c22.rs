//! C22: I/O failures are reported, and success means complete output
use crate::drawing::*;
use crate::engine::{guard, Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use dxf::entities::*;
use dxf::Drawing;
use serde_json::Value;
use std::io::{self, ErrorKind, Read, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "a case saves a generated drawing as text, binary and DXB to memory, then injects faults: readers and writers that fail at 12 generated byte positions (first, last, around buffer sizes, random) with generated error kinds, once or for good; readers and writers that move 1-n bytes at a time with interruptions; files on a full device, files that may not grow beyond a generated size, missing directories, existing longer files; every failure must be reported, every success must equal the plain result; non-trivial: at least one fault was injected before the end of the data; distinct by file content",
        quick: 1_000,
        thorough: 20_000,
        run,
        assumptions: &["values are compared through the crate's own JSON form"],
        level: "exploration",
        mem_mb: 1024,
        cpu_s: 60,
        workers: 8,
    }
}

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero];

/// hands out data in small pieces, is interrupted, and fails at a position
struct FaultyReader<'a> {
    b: &'a [u8],
    i: usize,
    step: usize,
    /// interrupt every n-th call
    interrupt: usize,
    calls: usize,
    fail_at: Option<usize>,
    kind: ErrorKind,
    /// the data goes on after the failure
    once: bool,
    failed: bool,
}
impl Read for FaultyReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.step).min(self.b.len() - self.i);
        if let Some(f) = self.fail_at {
            if self.i >= f && !(self.failed && self.once) {
                self.failed = true;
                return Err(self.kind.into());
            }
            if self.i < f {
                n = n.min(f - self.i);
            }
        }
        buf[..n].copy_from_slice(&self.b[self.i..self.i + n]);
        self.i += n;
        Ok(n)
    }
}
struct FaultyWriter {
    o: Vec<u8>,
    step: usize,
    interrupt: usize,
    calls: usize,
    fail_at: Option<usize>,
    kind: ErrorKind,
    once: bool,
    /// take nothing instead of failing
    zero: bool,
    failed: bool,
}
impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.step);
        if let Some(f) = self.fail_at {
            if self.o.len() >= f && !(self.failed && self.once) && !buf.is_empty() {
                self.failed = true;
                return if self.zero { Ok(0) } else { Err(self.kind.into()) };
            }
            if self.o.len() < f {
                n = n.min(f - self.o.len());
            }
        }
        self.o.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn state(d: &Drawing) -> Value {
    let mut v = snapshot(d);
    let h = v["header"].as_object_mut().unwrap();
    // set anew by loading where the version does not store them
    for k in ["update_date", "update_date_universal", "creation_date", "creation_date_universal", "fingerprint_guid", "version_guid"] {
        h.remove(k);
    }
    v
}
fn same(c: &mut Case, sig: &str, a: &Value, r: Result<dxf::DxfResult<Drawing>, String>) {
    match r {
        Err(m) => c.fail(format!("{}:panic", sig), m),
        Ok(Err(e)) => c.fail(format!("{}:error", sig), format!("{:?}", e)),
        Ok(Ok(d)) => {
            let mut o = vec![];
            diff("", a, &state(&d), true, &mut o);
            if let Some((p, m)) = o.first() {
                c.fail(format!("{}:different", sig), format!("{}: {}", p, m));
            }
        }
    }
}
fn positions(s: &mut Src, len: usize) -> Vec<usize> {
    let mut v = vec![0, len - 1];
    for _ in 0..7 {
        v.push(s.us(len));
    }
    for k in [8191, 8192, 8193] {
        v.push((k * (1 + s.us(3))).min(len - 1));
    }
    v.push(len.saturating_sub(1 + s.us(20)).min(len - 1));
    v.sort();
    v.dedup();
    v
}
#[derive(Clone, Copy)]
enum Form {
    Text,
    Binary,
    Dxb,
}
fn save_to(d: &Drawing, f: Form, w: &mut dyn Write) -> dxf::DxfResult<()> {
    match f {
        Form::Text => d.save(w),
        Form::Binary => d.save_binary(w),
        Form::Dxb => d.save_dxb(w),
    }
}
fn save_file(d: &Drawing, f: Form, p: &std::path::Path) -> dxf::DxfResult<()> {
    match f {
        Form::Text => d.save_file(p),
        Form::Binary => d.save_file_binary(p),
        Form::Dxb => d.save_file_dxb(p),
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let mut d = if s.chance(2, 3) { gen_drawing(s, idx as usize, ver, &DCfg { max_items: 3, ..FULL }) } else { Drawing::new() };
    d.header.version = acad(ver);
    let most = if s.chance(1, 4) { 800 } else { 4 };
    for i in 0..s.us(most) {
        d.add_entity(Entity::new(EntityType::Line(Line::new(dxf::Point::new(i as f64, 1.0, 2.0), dxf::Point::origin()))));
    }
    c.desc = summary(&d);
    c.nontrivial = true;
    let dir = std::env::temp_dir().join(format!("vharness-c22-{}-{}", std::process::id(), idx));
    for (form, name) in [(Form::Text, "text"), (Form::Binary, "binary"), (Form::Dxb, "dxb")] {
        let mut bytes = vec![];
        if let Err(e) = save_to(&d, form, &mut bytes) {
            return c.fail(format!("{}:save-error", name), format!("{:?}", e));
        }
        c.ident(&bytes);
        let base = match load(&bytes) {
            Ok(x) => state(&x),
            Err(e) => return c.fail(format!("{}:load-error", name), e),
        };
        let step = |s: &mut Src| *s.pick(&[1usize, 7, 2, 100, 3, usize::MAX]);
        // reading in pieces
        let mut r = FaultyReader { b: &bytes, i: 0, step: step(s), interrupt: *s.pick(&[0usize, 2, 3, 5, 17]), calls: 0, fail_at: None, kind: ErrorKind::Other, once: false, failed: false };
        same(c, &format!("{}:read-pieces", name), &base, guard(|| Drawing::load(&mut r)));
        // failing readers
        for k in positions(s, bytes.len()) {
            let mut r = FaultyReader { b: &bytes, i: 0, step: step(s), interrupt: *s.pick(&[0usize, 0, 7]), calls: 0, fail_at: Some(k), kind: *s.pick(KINDS), once: s.flip(), failed: false };
            c.evals += 1;
            match guard(|| Drawing::load(&mut r)) {
                Err(m) => c.fail(format!("{}:read-fault:panic", name), m),
                Ok(Ok(_)) => c.fail(format!("{}:read-fault:success", name), format!("reader failed ({:?}, {}) at byte {} of {} and loading succeeded", r.kind, if r.once { "once" } else { "for good" }, k, bytes.len())),
                Ok(Err(_)) => {}
            }
        }
        // writing in pieces
        let mut w = FaultyWriter { o: vec![], step: step(s), interrupt: *s.pick(&[0usize, 2, 3, 5, 17]), calls: 0, fail_at: None, kind: ErrorKind::Other, once: false, zero: false, failed: false };
        match guard(|| save_to(&d, form, &mut w)) {
            Ok(Ok(())) if w.o == bytes => {}
            Ok(Ok(())) => c.fail(format!("{}:write-pieces:different", name), format!("{} bytes instead of {}", w.o.len(), bytes.len())),
            Ok(Err(e)) => c.fail(format!("{}:write-pieces:error", name), format!("{:?}", e)),
            Err(m) => c.fail(format!("{}:write-pieces:panic", name), m),
        }
        // failing writers
        for k in positions(s, bytes.len()) {
            let mut w = FaultyWriter { o: vec![], step: step(s), interrupt: *s.pick(&[0usize, 0, 7]), calls: 0, fail_at: Some(k), kind: *s.pick(KINDS), once: s.flip(), zero: s.chance(1, 4), failed: false };
            c.evals += 1;
            match guard(|| save_to(&d, form, &mut w)) {
                Err(m) => c.fail(format!("{}:write-fault:panic", name), m),
                Ok(Ok(())) => c.fail(format!("{}:write-fault:success", name), format!("writer failed at byte {} of {} and saving succeeded", k, bytes.len())),
                Ok(Err(_)) => {
                    if w.o.len() < k || bytes[..k] != w.o[..k] {
                        c.fail(format!("{}:write-fault:bytes", name), format!("bytes before the failure at {} differ", k));
                    }
                }
            }
        }
        // files
        if !c.fails.is_empty() {
            break;
        }
        let r = guard(|| files(s, c, &d, form, name, &bytes, &base, &dir));
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(m) = r {
            c.fail(format!("{}:file:panic", name), m);
        }
    }
}

fn files(s: &mut Src, c: &mut Case, d: &Drawing, form: Form, name: &str, bytes: &[u8], base: &Value, dir: &std::path::Path) {
    std::fs::create_dir_all(dir).unwrap();
    let p = dir.join("a file.dxf");
    if s.flip() {
        // something longer was there before
        std::fs::write(&p, vec![b'x'; bytes.len() + 1 + s.us(9000)]).unwrap();
    }
    match save_file(d, form, &p) {
        Ok(()) if std::fs::read(&p).unwrap() == bytes => {}
        Ok(()) => c.fail(format!("{}:file:different", name), format!("the file has {} bytes instead of {}", std::fs::read(&p).unwrap().len(), bytes.len())),
        Err(e) => c.fail(format!("{}:file:error", name), format!("{:?}", e)),
    }
    same(c, &format!("{}:file:load", name), base, guard(|| Drawing::load_file(&p)));
    let enc: &'static encoding_rs::Encoding = *s.pick(&[encoding_rs::WINDOWS_1252, encoding_rs::UTF_8, encoding_rs::GBK, encoding_rs::SHIFT_JIS]);
    let a = guard(|| Drawing::load_with_encoding(&mut &bytes[..], enc));
    if let Ok(Ok(a)) = a {
        same(c, &format!("{}:file:load-encoding", name), &state(&a), guard(|| Drawing::load_file_with_encoding(&p, enc)));
    } else if let Ok(Ok(_)) = guard(|| Drawing::load_file_with_encoding(&p, enc)) {
        c.fail(format!("{}:file:load-encoding", name), "loading the file succeeds, loading its bytes fails");
    }
    if save_file(d, form, &dir.join("no").join("such")).is_ok() {
        c.fail(format!("{}:file:missing-directory", name), "success");
    }
    if Drawing::load_file(dir.join("nothing")).is_ok() {
        c.fail(format!("{}:file:missing", name), "loading a missing file succeeds");
    }
    if save_file(d, form, std::path::Path::new("/dev/full")).is_ok() {
        c.fail(format!("{}:file:full", name), "saving to a full device succeeds");
    }
    // the file may not grow beyond k bytes
    let k = s.us(bytes.len());
    let r = unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let lim = libc::rlimit { rlim_cur: k as u64, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
        let r = guard(|| save_file(d, form, &p));
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    };
    c.evals += 7;
    match r {
        Ok(Ok(())) => c.fail(format!("{}:file:limit", name), format!("saving {} bytes to a file limited to {} succeeds", bytes.len(), k)),
        Ok(Err(_)) => {}
        Err(m) => c.fail(format!("{}:file:limit-panic", name), m),
    }
    let _ = VERSIONS;
}

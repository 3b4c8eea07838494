//! C20: the thumbnail image survives pixel for pixel
use crate::drawing::*;
use crate::engine::{guard, Case, Prop, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c10::lex;
use crate::reflect::*;
use crate::wire::*;
use dxf::Drawing;
use image::DynamicImage;
use serde_json::Value;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "a case sets a generated image (1x1 to 400 pixels a side, rarely without any, grey, grey+alpha, RGB or RGBA, 8 bit, flat or random pixels) on a generated drawing, saves it as text or binary at a generated version and loads it: same pixels and size from R2000 on, no image before, and everything else as without it; then an independently built uncompressed bitmap (40, 52, 56, 108 or 124 byte header; 1, 4, 8, 16, 24 or 32 bits; palette counted or implied; bit masks; bottom-up or top-down; 310 pieces of any length) is put into the file and must load with the pixels it describes; then the bitmap is damaged (cut, bytes changed, header fields set to extremes) and loading must give an error or the rest of the drawing unharmed; non-trivial: the version stores the image; distinct by file content",
        quick: 12_000,
        thorough: 150_000,
        run,
        assumptions: &["pixels are compared as 8 bit RGBA", "bitmaps with the 12 byte OS/2 header or run length compression are outside the claim"],
        level: "exploration",
        mem_mb: 1024,
        cpu_s: 60,
        workers: 8,
    }
}

fn gen_thumb(s: &mut Src) -> DynamicImage {
    let side = |s: &mut Src| match s.below(6) {
        0 => 1,
        1..=3 => 1 + s.below(12) as u32,
        4 => 1 + s.below(70) as u32,
        _ => {
            let m = if s.chance(1, 20) { 400 } else { 130 };
            1 + s.below(m) as u32
        }
    };
    let (mut w, h) = (side(s), side(s));
    if s.chance(1, 100) {
        w = 0;
    }
    let mut st = s.any64();
    let flat = s.chance(1, 5);
    let mut px = || {
        if !flat {
            st = crate::engine::mix(st);
        }
        st
    };
    macro_rules! fill {
        ($t:ty, $p:ident, $n:expr, $v:ident) => {{
            let mut m = <$t>::new(w, h);
            for p in m.pixels_mut() {
                let v = px().to_le_bytes();
                p.0.copy_from_slice(&v[..$n]);
            }
            DynamicImage::$v(m)
        }};
    }
    match s.below(4) {
        0 => fill!(image::RgbImage, Rgb, 3, ImageRgb8),
        1 => fill!(image::RgbaImage, Rgba, 4, ImageRgba8),
        2 => fill!(image::GrayImage, Luma, 1, ImageLuma8),
        _ => fill!(image::GrayAlphaImage, LumaA, 2, ImageLumaA8),
    }
}

/// the drawing without its thumbnail
fn rest(d: &Drawing) -> Value {
    let mut v = snapshot(d);
    v.as_object_mut().unwrap().remove("thumbnail");
    let h = v["header"].as_object_mut().unwrap();
    for k in ["update_date", "update_date_universal", "creation_date", "creation_date_universal", "fingerprint_guid", "version_guid"] {
        h.remove(k);
    }
    v
}
fn undisturbed(c: &mut Case, tag: &str, a: &Value, d: &Drawing) {
    let mut o = vec![];
    diff("", a, &rest(d), true, &mut o);
    for (p, m) in o {
        c.fail(format!("{}:disturbed:{}", tag, part_of(&p, a)), format!("{}: {}", p, m));
    }
}
fn same(c: &mut Case, tag: &str, want: &image::RgbaImage, got: Option<&DynamicImage>, what: &str) {
    match got {
        None => c.fail(format!("{}:lost", tag), format!("no thumbnail loaded ({})", what)),
        Some(g) => {
            let g = g.to_rgba8();
            if g.dimensions() != want.dimensions() {
                return c.fail(format!("{}:size", tag), format!("{:?} instead of {:?} ({})", g.dimensions(), want.dimensions(), what));
            }
            if let Some((x, y, p)) = want.enumerate_pixels().find(|(x, y, p)| g.get_pixel(*x, *y) != *p) {
                c.fail(format!("{}:pixel", tag), format!("pixel {},{} is {:?} instead of {:?} ({}, {}x{})", x, y, g.get_pixel(x, y), p, what, want.width(), want.height()));
            }
        }
    }
}

pub fn run(s: &mut Src, idx: u64, c: &mut Case) {
    let ver = gen_version(s);
    let binary = s.flip();
    let mut d = if s.chance(1, 3) {
        gen_drawing(s, idx as usize, ver, &DCfg { thumbnail: false, max_items: 3, ..SOUND })
    } else {
        let mut d = Drawing::new();
        d.header.version = acad(ver);
        d.add_entity(dxf::entities::Entity::new(dxf::entities::EntityType::Line(Default::default())));
        d
    };
    let bare = match save(&d, binary).and_then(|b| load(&b).map(|d| (b, d))) {
        Ok(x) => x,
        Err(e) => return c.fail("bare-error", e),
    };
    let before = rest(&bare.1);
    if bare.1.thumbnail.is_some() {
        c.fail("from-nowhere", "a drawing without thumbnail loads with one");
    }
    let img = gen_thumb(s);
    c.desc = format!("{} {} {}x{} {:?}", VERSIONS[ver], if binary { "binary" } else { "text" }, img.width(), img.height(), img.color());
    c.class(format!("version:{}", VERSIONS[ver]));
    c.class(format!("image:{:?}", img.color()));
    d.thumbnail = Some(img.clone());
    let bytes = match save(&d, binary) {
        Ok(b) => b,
        Err(e) => return c.fail("save-error", e),
    };
    c.ident(&bytes);
    let d2 = match load(&bytes) {
        Ok(b) => b,
        Err(e) => return c.fail("load-error", e),
    };
    undisturbed(c, "kept", &before, &d2);
    c.nontrivial = ver >= R2000;
    if img.width() == 0 {
        // there is nothing to keep
        if d2.thumbnail.is_some() {
            c.fail("kept:size", "an image without pixels came back as another");
        }
        return;
    }
    if ver >= R2000 {
        same(c, "kept", &img.to_rgba8(), d2.thumbnail.as_ref(), "own");
    } else if d2.thumbnail.is_some() {
        c.fail("too-early", "thumbnail in a version without");
    }
    if d.thumbnail.as_ref().map(|i| i.as_bytes() != img.as_bytes()).unwrap_or(true) {
        c.fail("saved-changed", "saving changed the image");
    }
    if !c.fails.is_empty() {
        return;
    }
    // a second cycle must not wear the image
    if ver >= R2000 && s.chance(1, 4) {
        match save(&d2, !binary).and_then(|b| load(&b)) {
            Ok(d3) => same(c, "kept-twice", &img.to_rgba8(), d3.thumbnail.as_ref(), "second cycle"),
            Err(e) => c.fail("second-cycle-error", e),
        }
    }
    // another program's bitmap
    let ps = match lex(&bare.0, binary, ver) {
        Ok(p) => p,
        Err(e) => return c.fail("malformed", e),
    };
    let (dib, want, what) = gen_dib(s);
    c.class(format!("bitmap:{}", what.split(',').next().unwrap()));
    let d3 = match load(&with_dib(s, &ps, &dib, binary, ver)) {
        Ok(b) => b,
        Err(e) => return c.fail("foreign:load-error", format!("{} ({})", e, what)),
    };
    undisturbed(c, "foreign", &before, &d3);
    same(c, "foreign", &want, d3.thumbnail.as_ref(), &what);
    // damaged
    for _ in 0..3 {
        let b = damage(s, &dib);
        let b = with_dib(s, &ps, &b, binary, ver);
        match guard(|| load(&b)) {
            Ok(Ok(d4)) => undisturbed(c, "damaged", &before, &d4),
            Ok(Err(_)) => {}
            Err(m) => c.fail("damaged:panic", m),
        }
    }
}

fn with_dib(s: &mut Src, ps: &[Pair], dib: &[u8], binary: bool, ver: usize) -> Vec<u8> {
    let mut o: Vec<Pair> = ps.iter().filter(|p| !p.is(0, "EOF")).cloned().collect();
    let mut t = vec![st(0, "SECTION"), st(2, "THUMBNAILIMAGE"), int(90, dib.len() as i64)];
    let step = *s.pick(&[127, 1, 128, 255, 3, 64]);
    let step = if dib.len() / step > 3000 { 127 } else { step };
    dib.chunks(step).for_each(|b| t.push(bin(310, b.to_vec())));
    t.push(st(0, "ENDSEC"));
    // usually last, but sections may come in any order
    if s.chance(1, 4) {
        let ends: Vec<usize> = o.iter().enumerate().filter(|(_, p)| p.is(0, "ENDSEC")).map(|x| x.0).collect();
        let at = *s.pick(&ends) + 1;
        o.splice(at..at, t);
    } else {
        o.extend(t);
    }
    o.push(st(0, "EOF"));
    if binary { emit_binary(&o, ver >= R13) } else { emit_text(&o, ver >= R2007) }
}

/// an uncompressed bitmap without its file header, its pixels, and a description
fn gen_dib(s: &mut Src) -> (Vec<u8>, image::RgbaImage, String) {
    let header = *s.pick(&[40usize, 40, 40, 108, 124, 52, 56]);
    let (w, h) = (1 + s.size(40) as u32, 1 + s.size(40) as u32);
    let top_down = s.chance(1, 3);
    let bpp = *s.pick(&[8usize, 24, 32, 4, 1, 16]);
    let masks = header == 40 && matches!(bpp, 16 | 32) && s.flip() || header > 40 && matches!(bpp, 16 | 32) && s.flip();
    let colors = if bpp <= 8 { 1usize << bpp } else { 0 };
    let listed = if bpp <= 8 && s.flip() { 1 + s.us(colors) } else { 0 };
    let n = if listed > 0 { listed } else { colors };
    let mut st = s.any64();
    let mut rnd = || {
        st = crate::engine::mix(st);
        st
    };
    let mut b: Vec<u8> = vec![];
    let le4 = |b: &mut Vec<u8>, v: u32| b.extend(v.to_le_bytes());
    le4(&mut b, header as u32);
    le4(&mut b, w);
    le4(&mut b, if top_down { (-(h as i32)) as u32 } else { h });
    b.extend(1u16.to_le_bytes());
    b.extend((bpp as u16).to_le_bytes());
    le4(&mut b, if masks { 3 } else { 0 });
    let stride = ((w as usize * bpp + 31) / 32) * 4;
    le4(&mut b, if s.flip() { (stride * h as usize) as u32 } else { 0 });
    le4(&mut b, 2835);
    le4(&mut b, 2835);
    le4(&mut b, listed as u32);
    le4(&mut b, 0);
    // red, green, blue, alpha masks
    let m: [u32; 4] = match (bpp, s.below(2)) {
        (16, 0) => [0xf800, 0x07e0, 0x001f, 0],
        (16, _) => [0x7c00, 0x03e0, 0x001f, 0],
        (_, 0) => [0xff0000, 0xff00, 0xff, 0],
        _ => [0xff, 0xff00, 0xff0000, 0],
    };
    let def: [u32; 4] = if bpp == 16 { [0x7c00, 0x03e0, 0x001f, 0] } else { [0xff0000, 0xff00, 0xff, 0] };
    let m = if masks { m } else { def };
    if header > 40 {
        for i in 0..4 {
            if b.len() < header {
                le4(&mut b, if masks { m[i] } else { 0 });
            }
        }
        b.resize(header, 0);
        if header >= 108 {
            b[56..60].copy_from_slice(b"BGRs");
        }
    } else if masks {
        for i in 0..3 {
            le4(&mut b, m[i]);
        }
    }
    let mut palette = vec![];
    for _ in 0..n {
        let v = rnd().to_le_bytes();
        palette.push([v[0], v[1], v[2], 255]);
        b.extend([v[2], v[1], v[0], 0]);
    }
    let mut img = image::RgbaImage::new(w, h);
    for y in 0..h {
        let row = if top_down { y } else { h - 1 - y };
        let mut line = vec![0u8; stride];
        for x in 0..w {
            let v = rnd();
            let px = match bpp {
                1 | 4 | 8 => {
                    let i = (v % n as u64) as usize;
                    let bit = x as usize * bpp;
                    line[bit / 8] |= (i << (8 - bpp - bit % 8)) as u8;
                    palette[i]
                }
                24 => {
                    let v = v.to_le_bytes();
                    let o = x as usize * 3;
                    line[o..o + 3].copy_from_slice(&[v[2], v[1], v[0]]);
                    [v[0], v[1], v[2], 255]
                }
                16 => {
                    // full or empty channels: the same in every expansion to 8 bits
                    let bits: u32 = (0..3).map(|k| if v >> k & 1 == 1 { m[k as usize] } else { 0 }).sum();
                    let o = x as usize * 2;
                    line[o..o + 2].copy_from_slice(&(bits as u16).to_le_bytes());
                    let f = |k: u32| if v >> k & 1 == 1 { 255 } else { 0 };
                    [f(0), f(1), f(2), 255]
                }
                _ => {
                    let v8 = v.to_le_bytes();
                    let bits: u32 = (0..3).map(|k| (v8[k] as u32) << m[k].trailing_zeros()).sum();
                    let o = x as usize * 4;
                    line[o..o + 4].copy_from_slice(&bits.to_le_bytes());
                    [v8[0], v8[1], v8[2], 255]
                }
            };
            img.put_pixel(x, row, image::Rgba(px));
        }
        b.extend(line);
    }
    let what = format!("{} bit {} byte header{}, {} listed colours, {}x{}{}", bpp, header, if masks { " masks" } else { "" }, listed, w, h, if top_down { " top-down" } else { "" });
    (b, img, what)
}

fn damage(s: &mut Src, dib: &[u8]) -> Vec<u8> {
    let mut b = dib.to_vec();
    match s.below(4) {
        0 => b.truncate(s.us(dib.len().min(80))),
        1 => b.truncate(s.us(dib.len())),
        2 => {
            for _ in 0..1 + s.us(4) {
                let i = s.us(b.len().min(80));
                b[i] = s.below(256) as u8;
            }
        }
        _ => {
            let at = *s.pick(&[0usize, 4, 8, 12, 16, 20, 32, 36]);
            let v = *s.pick(&[0u32, 1, 12, 16, 35, 36, 39, 41, 0x7fff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0x20000]);
            if b.len() >= at + 4 {
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
        }
    }
    b
}

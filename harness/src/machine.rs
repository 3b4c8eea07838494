//! Histories of edits of a drawing, run against a list model (C15, C16, C17).
use crate::drawing::*;
use crate::engine::{Case, Src};
use crate::gen::*;
use crate::model::*;
use crate::props::c07::{blocks_json, gen_block, to_block};
use crate::props::c10::lex;
use crate::reflect::*;
use crate::refs::*;
use crate::tables::*;
use crate::wire::*;
use dxf::entities::*;
use dxf::{Block, Drawing, Handle};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const COLS: &[&str] = &["Layer", "LineType", "Style", "DimStyle", "View", "ViewPort", "Ucs", "AppId", "BlockRecord", "Block", "Entity", "Object"];
pub type World = BTreeMap<&'static str, Vec<Value>>;

pub fn col(d: &Drawing, n: &str) -> Vec<Value> {
    match n {
        "Block" => blocks_json(d),
        "Entity" => entities_json(d),
        "Object" => objects_json(d),
        t => records(d, t),
    }
}
pub fn world(d: &Drawing) -> World {
    COLS.iter()
        .map(|n| {
            let mut v = Value::Array(col(d, n));
            strip_offsets(&mut v);
            (*n, match v { Value::Array(a) => a, _ => unreachable!() })
        })
        .collect()
}
pub fn header(d: &Drawing) -> Value {
    serde_json::to_value(&d.header).unwrap()
}
fn without_seed(mut h: Value) -> Value {
    h["next_available_handle"] = json!(0);
    h
}
pub fn handle_of(n: &str, v: &Value) -> u64 {
    let h = match n {
        "Entity" | "Object" => &v["common"]["handle"],
        _ => &v["handle"],
    };
    h.as_u64().unwrap_or(0)
}
pub fn name_of(v: &Value) -> &str {
    v["name"].as_str().unwrap_or("")
}
const KIDS: [&str; 2] = ["__attributes_and_handles", "__vertices_and_handles"];
/// handles of the parts of an entity
pub fn kid_handles(e: &Value) -> Vec<u64> {
    let v = &e["specific"][kind(e)];
    let mut o = vec![];
    for k in KIDS {
        if let Some(a) = v.get(k).and_then(|a| a.as_array()) {
            o.extend(a.iter().map(|p| p[1].as_u64().unwrap()));
            let se = v["__seqend_handle"].as_u64().unwrap();
            if k == "__vertices_and_handles" || !a.is_empty() || se != 0 {
                o.push(se);
            }
        }
    }
    o
}
/// every handle in use, with where it is
pub fn all_handles(w: &World) -> Vec<(u64, String)> {
    let mut o = vec![];
    let ent = |e: &Value, at: String, o: &mut Vec<(u64, String)>| {
        o.push((handle_of("Entity", e), at.clone()));
        for h in kid_handles(e) {
            o.push((h, format!("part of {}", at)));
        }
    };
    for n in COLS {
        for (i, v) in w[n].iter().enumerate() {
            match *n {
                "Entity" => ent(v, format!("Entity {} [{}]", kind(v), i), &mut o),
                _ => o.push((handle_of(n, v), format!("{} [{}]", n, i))),
            }
            if *n == "Block" {
                for (j, e) in v["entities"].as_array().unwrap().iter().enumerate() {
                    ent(e, format!("Block entity {} [{}][{}]", kind(e), i, j), &mut o);
                }
            }
        }
    }
    o
}
/// the item without the handles an add function assigns
pub fn dehandle(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if k == "handle" || k == "__seqend_handle" {
                    *x = json!(0);
                } else if KIDS.contains(&k.as_str()) {
                    for p in x.as_array_mut().unwrap() {
                        p[1] = json!(0);
                        dehandle(&mut p[0]);
                    }
                } else if k == "common" || k == "entities" || k == "specific" || x.get("common").is_some() {
                    dehandle(x);
                } else if x.get("__seqend_handle").is_some() || KIDS.iter().any(|k| x.get(*k).is_some()) {
                    dehandle(x);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(dehandle),
        _ => {}
    }
}
fn bare(v: &Value) -> Value {
    let mut v = v.clone();
    strip_offsets(&mut v);
    dehandle(&mut v);
    v
}

type Names = BTreeSet<(&'static str, String)>;
fn text(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
/// names an entity refers to
fn entity_names(e: &Value, o: &mut Names) {
    let k = kind(e);
    let v = &e["specific"][&k];
    o.insert(("Layer", text(&e["common"]["layer"])));
    o.insert(("LineType", text(&e["common"]["line_type_name"])));
    if let Some(b) = v.get("dimension_base") {
        o.insert(("DimStyle", text(&b["dimension_style_name"])));
    }
    match k.as_str() {
        "Leader" | "Tolerance" => {
            o.insert(("DimStyle", text(&v["dimension_style_name"])));
        }
        "ArcAlignedText" | "AttributeDefinition" | "Attribute" | "MText" | "Text" => {
            o.insert(("Style", text(&v["text_style_name"])));
        }
        "RText" => {
            o.insert(("Style", text(&v["text_style"])));
        }
        "Insert" => {
            for p in v[KIDS[0]].as_array().unwrap() {
                o.insert(("Style", text(&p[0]["text_style_name"])));
            }
        }
        "MLine" => {
            o.insert(("MLineStyle", text(&v["style_name"])));
        }
        _ => {}
    }
}
pub fn names(n: &str, v: &Value) -> Names {
    let mut o = Names::new();
    match n {
        "Entity" => entity_names(v, &mut o),
        "Layer" => {
            o.insert(("LineType", text(&v["line_type_name"])));
        }
        "Block" => {
            o.insert(("Layer", text(&v["layer"])));
            o.insert(("BlockRecord", text(&v["name"])));
            for e in v["entities"].as_array().unwrap() {
                entity_names(e, &mut o);
            }
        }
        "Object" => {
            let k = kind(v);
            let x = &v["specific"][&k];
            match k.as_str() {
                "LayerFilter" | "LayerIndex" => {
                    for l in x["layer_names"].as_array().unwrap() {
                        o.insert(("Layer", text(l)));
                    }
                }
                "PlotSettings" => {
                    o.insert(("View", text(&x["plot_view_name"])));
                }
                "MLineStyle" => {
                    o.insert(("LineType", text(&x["style_name"])));
                    o.insert(("Style", text(&x["style_name"])));
                }
                _ => {}
            }
        }
        _ => {}
    }
    o
}
/// records that exist because of records added for a name
fn closure(o: &Names) -> Names {
    let mut r = o.clone();
    for (t, n) in o {
        match *t {
            "Layer" => {
                r.insert(("LineType", "CONTINUOUS".into()));
            }
            "MLineStyle" => {
                r.insert(("LineType", n.clone()));
                r.insert(("Style", n.clone()));
            }
            _ => {}
        }
    }
    r
}
fn has(w: &World, t: &str, n: &str) -> bool {
    if t == "MLineStyle" {
        w["Object"].iter().any(|o| o["specific"].get("MLineStyle").map(|m| m["style_name"] == n).unwrap_or(false))
    } else {
        w[t].iter().any(|r| name_of(r) == n)
    }
}
fn default_of(t: &str) -> Value {
    crate::defaults::default_table(t)
}

pub struct Machine<'a> {
    pub d: Drawing,
    pub w: World,
    pub h: Value,
    pub log: Vec<String>,
    c: &'a mut Case,
    /// signatures with this prefix are reported
    focus: &'static str,
    pool: Vec<(&'static str, Value)>,
    links: Vec<Link>,
    max_seen: u64,
}
struct Link {
    r: usize,
    carrier: u64,
    targets: Vec<(String, u64)>,
    /// handles the carrier came with that led nowhere: a later item may take one
    stale: BTreeSet<u64>,
}
fn numbers(v: &Value, o: &mut BTreeSet<u64>) {
    match v {
        Value::Number(n) => o.extend(n.as_u64()),
        Value::Array(a) => a.iter().for_each(|x| numbers(x, o)),
        Value::Object(m) => m.values().for_each(|x| numbers(x, o)),
        _ => (),
    }
}

impl<'a> Machine<'a> {
    pub fn new(c: &'a mut Case, focus: &'static str) -> Machine<'a> {
        let d = Drawing::new();
        let w = world(&d);
        let h = header(&d);
        Machine { d, w, h, log: vec![], c, focus, pool: vec![], links: vec![], max_seen: 0 }
    }
    fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let sig: String = sig.into();
        if let Some(s) = sig.strip_prefix(self.focus) {
            let m = format!("{} (step {}: {})", msg.into(), self.log.len(), self.log.last().cloned().unwrap_or_default());
            self.c.fail(s.trim_start_matches(':'), m);
        }
    }
    fn same(&mut self, sig: &str, what: &str, a: &Value, b: &Value) {
        if a != b {
            let mut o = vec![];
            diff("", a, b, true, &mut o);
            let m = o.into_iter().take(3).map(|(p, m)| format!("{}: {}", p, m)).collect::<Vec<_>>().join("; ");
            if !m.is_empty() {
                self.fail(sig, format!("{}: {}", what, m));
            }
        }
    }
    /// compare a collection with what it should hold
    fn same_col(&mut self, sig: &str, n: &str, want: &[Value], got: &[Value]) {
        if want.len() != got.len() {
            self.fail(format!("{}:{}", sig, n), format!("expected {} items, found {}", want.len(), got.len()));
        } else {
            for (i, (a, b)) in want.iter().zip(got).enumerate() {
                self.same(&format!("{}:{}", sig, n), &format!("{} [{}]", n, i), a, b);
            }
        }
    }

    /// one record, entity, block or object through the add function; returns what the function handed back
    fn add_value(&mut self, n: &str, v: &Value) -> Value {
        match n {
            "Entity" => serde_json::to_value(self.d.add_entity(to_entity(v))).unwrap(),
            "Object" => serde_json::to_value(self.d.add_object(to_object(v))).unwrap(),
            "Block" => {
                let b: Block = serde_json::from_value(v.clone()).unwrap();
                serde_json::to_value(self.d.add_block(b)).unwrap()
            }
            t => add_record(&mut self.d, t, v),
        }
    }
    pub fn add(&mut self, n: &'static str, v: &Value) {
        self.log.push(format!("add {} {}", n, short(v)));
        // adding parts uses handles already
        let seed = self.d.header.next_available_handle.0;
        let ret = self.add_value(n, v);
        let after = world(&self.d);
        let before = std::mem::take(&mut self.w);
        let mut ret = ret;
        strip_offsets(&mut ret);
        let req = names(n, v);
        let allowed = closure(&req);
        let given = bare(v);
        match after[n].last() {
            None => self.fail(format!("C16:added:{}", n), "the item was not added"),
            Some(last) => {
                let l = bare(last);
                self.same(&format!("C16:added-value:{}", n), "the added item", &given, &l);
                let last = last.clone();
                self.same(&format!("C16:returned-value:{}", n), "the item returned by the add function", &last, &ret);
            }
        }
        for t in COLS {
            let (b, a) = (&before[t], &after[t]);
            let a: Vec<Value> = if *t == n { a[..a.len().saturating_sub(1)].to_vec() } else { a.clone() };
            if a.len() < b.len() {
                self.fail(format!("C16:lost:{}", t), format!("adding {} left {} of {} in {}", n, a.len(), b.len(), t));
                continue;
            }
            for (i, x) in b.iter().enumerate() {
                self.same(&format!("C16:changed:{}", t), &format!("adding {} changed {} [{}]", n, t, i), x, &a[i]);
            }
            let mut fresh: BTreeSet<String> = BTreeSet::new();
            for x in &a[b.len()..] {
                let (tt, nm): (&'static str, String) = if *t == "Object" {
                    ("MLineStyle", text(&x["specific"]["MLineStyle"]["style_name"]))
                } else {
                    (t, name_of(x).to_string())
                };
                if !allowed.contains(&(tt, nm.clone())) {
                    self.fail(format!("C16:extra:{}", t), format!("adding {} {} also added {} {:?}, which it does not name", n, short(&given), t, nm));
                } else if !fresh.insert(nm.clone()) || has(&before, tt, &nm) {
                    self.fail(format!("C16:duplicate:{}", t), format!("adding {} added a second {} {:?}", n, t, nm));
                } else if *t != "Object" {
                    let mut want = default_of(t);
                    want["name"] = json!(nm);
                    self.same(&format!("C16:extra-value:{}", t), "the record added for a name", &bare(&want), &bare(x));
                }
            }
        }
        for (t, nm) in &req {
            if !has(&after, t, nm) {
                self.fail(format!("C17:missing:{}:{}", n, t), format!("{} {:?} named by the added {} {} does not exist", t, nm, n, short(v)));
            }
        }
        let h = header(&self.d);
        let (a, b) = (without_seed(self.h.clone()), without_seed(h.clone()));
        self.same("C16:header-changed", "adding changed the header", &a, &b);
        // fresh handles
        let old: HashMap<u64, String> = all_handles(&before).into_iter().collect();
        let own: BTreeSet<u64> = match n {
            "Entity" => kid_handles(v).into_iter().collect(),
            "Block" => v["entities"].as_array().unwrap().iter().flat_map(kid_handles).collect(),
            _ => BTreeSet::new(),
        };
        for (x, at) in all_handles(&after) {
            if !old.contains_key(&x) && !own.contains(&x) && x < seed {
                self.fail("C15:reused-handle", format!("{} got handle {:X}, the next available one was {:X}", at, x, seed));
            }
        }
        self.w = after;
        self.h = h;
        self.check_handles();
    }
    pub fn remove(&mut self, n: &'static str, i: usize) {
        self.log.push(format!("remove {} [{}] of {}", n, i, self.w[n].len()));
        let r = match n {
            "Entity" => self.d.remove_entity(i).map(|x| serde_json::to_value(x).unwrap()),
            "Object" => self.d.remove_object(i).map(|x| serde_json::to_value(x).unwrap()),
            "Block" => self.d.remove_block(i).map(|x| serde_json::to_value(x).unwrap()),
            t => remove_record(&mut self.d, t, i),
        };
        let mut want = self.w.clone();
        if i < self.w[n].len() {
            let x = want.get_mut(n).unwrap().remove(i);
            match r {
                Some(mut r) => {
                    strip_offsets(&mut r);
                    self.same(&format!("C16:removed-value:{}", n), "the removed item", &x, &r)
                }
                None => self.fail(format!("C16:removed-none:{}", n), "removing an existing item returned nothing"),
            }
            let hs = handle_of(n, &x);
            if let Some(k) = self.d.item_by_handle(Handle(hs)) {
                let k = describe(&k);
                self.fail("C15:removed-found", format!("handle {:X} of the removed {} leads to {:?}", hs, n, k));
            }
            self.pool.push((n, x));
        } else if let Some(r) = r {
            self.fail(format!("C16:removed-some:{}", n), format!("removing position {} of {} returned {}", i, self.w[n].len(), short(&r)));
        }
        self.expect(want, "removing");
        self.check_handles();
    }
    /// the world is exactly `want` and the header did not change
    fn expect(&mut self, want: World, what: &str) {
        let got = world(&self.d);
        for t in COLS {
            self.same_col(&format!("C16:after-{}", what), t, &want[t], &got[t]);
        }
        let h = header(&self.d);
        let old = self.h.clone();
        self.same("C16:header-changed", &format!("{} changed the header", what), &old, &h);
        self.w = got;
        self.h = h;
    }
    pub fn edit(&mut self, s: &mut Src, n: &'static str) {
        let len = self.w[n].len();
        let i = if len == 0 { 0 } else { s.us(len) };
        let nn = gen_name(s);
        self.log.push(format!("edit {} [{}] of {} to {:?}", n, i, len, nn));
        let mut want = self.w.clone();
        let mut seen = vec![];
        match n {
            "Entity" => {
                for (k, e) in self.d.entities_mut().enumerate() {
                    seen.push(serde_json::to_value(&*e).unwrap());
                    if k == i {
                        e.common.layer = nn.clone();
                        want.get_mut(n).unwrap()[i]["common"]["layer"] = json!(nn);
                    }
                }
            }
            "Block" => {
                for (k, e) in self.d.blocks_mut().enumerate() {
                    seen.push(serde_json::to_value(&*e).unwrap());
                    if k == i {
                        e.description = nn.clone();
                        want.get_mut(n).unwrap()[i]["description"] = json!(nn);
                    }
                }
            }
            "Object" => {
                for (k, e) in self.d.objects_mut().enumerate() {
                    seen.push(serde_json::to_value(&*e).unwrap());
                    if k == i {
                        e.common.extension_data_groups.clear();
                        want.get_mut(n).unwrap()[i]["common"]["extension_data_groups"] = json!([]);
                    }
                }
            }
            t => {
                seen = touch_record(&mut self.d, t, i, &nn);
                if len > 0 {
                    want.get_mut(n).unwrap()[i]["name"] = json!(nn);
                }
            }
        }
        let mut seen = Value::Array(seen);
        strip_offsets(&mut seen);
        let old = self.w[n].clone();
        self.same_col("C16:mutable-iteration", n, &old, seen.as_array().unwrap());
        self.expect(want, "editing");
    }
    pub fn clear(&mut self, s: &mut Src) {
        if s.flip() {
            self.d.classes.push(Default::default());
            self.d.thumbnail = Some(image::DynamicImage::new_rgb8(1 + s.below(3) as u32, 1));
            self.log.push("set a class and a thumbnail".into());
        }
        self.log.push("clear".into());
        self.d.clear();
        let got = world(&self.d);
        for t in COLS {
            if !got[t].is_empty() {
                self.fail(format!("C16:clear:{}", t), format!("{} items left", got[t].len()));
            }
        }
        if !self.d.classes.is_empty() || self.d.thumbnail.is_some() {
            self.fail("C16:clear:rest", "classes or thumbnail left");
        }
        let h = header(&self.d);
        let (a, b) = (without_seed(self.h.clone()), without_seed(h.clone()));
        self.same("C16:header-changed", "clearing changed the header", &a, &b);
        self.w = got;
        self.h = h;
        self.pool.clear();
        self.links.clear();
        self.max_seen = 0;
        self.check_handles();
    }

    // ------------------------------------------------------------ normalising
    pub fn normalize(&mut self) {
        self.log.push("normalize".into());
        let before = self.w.clone();
        let seed = self.d.header.next_available_handle.0;
        self.d.normalize();
        let after = world(&self.d);
        let h = header(&self.d);
        let wh = norm_header(&self.h);
        let (a, b) = (without_seed(wh), without_seed(h.clone()));
        self.same("C17:normalize-header", "header", &a, &b);
        let mut need = Names::new();
        for (t, l) in STANDARD {
            for n in *l {
                need.insert((t, n.to_string()));
            }
        }
        let hd = &self.d.header;
        for (t, n) in [("Layer", &hd.current_layer), ("LineType", &hd.current_entity_line_type), ("Style", &hd.text_style), ("DimStyle", &hd.dimension_style_name)] {
            need.insert((t, n.clone()));
        }
        for n in [&hd.ucs_definition_name, &hd.ucs_name, &hd.ortho_ucs_reference, &hd.paperspace_ucs_definition_name, &hd.paperspace_ucs_name, &hd.paperspace_ortho_ucs_reference] {
            if !n.is_empty() {
                need.insert(("Ucs", n.clone()));
            }
        }
        let need = closure(&need);
        for (t, n) in &need {
            if !has(&after, t, n) {
                self.fail(format!("C17:normalize-missing:{}", t), format!("{} {:?} does not exist after normalising", t, n));
            }
        }
        for t in COLS {
            let want: Vec<Value> = before[t].iter().map(|v| norm(t, v)).collect();
            if !TABLES.contains(t) {
                self.same_col("C17:normalize-changed", t, &want, &after[t]);
                continue;
            }
            if let Some(i) = (1..after[t].len()).find(|i| name_of(&after[t][i - 1]) > name_of(&after[t][*i])) {
                self.fail(format!("C17:normalize-order:{}", t), format!("{:?} comes before {:?}", name_of(&after[t][i - 1]), name_of(&after[t][i])));
            }
            let mut left: Vec<&Value> = after[t].iter().collect();
            for v in &want {
                match left.iter().position(|x| *x == v) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => {
                        let h = handle_of(t, v);
                        match after[t].iter().find(|x| handle_of(t, x) == h).cloned() {
                            Some(x) => self.same(&format!("C17:normalize-changed:{}", t), &format!("{} {:?}", t, name_of(v)), v, &x),
                            None => self.fail(format!("C17:normalize-lost:{}", t), format!("{} {:?} is gone", t, name_of(v))),
                        }
                    }
                }
            }
            if after[t].len() >= want.len() {
                let left: Vec<Value> = left.into_iter().cloned().collect();
                let mut fresh = BTreeSet::new();
                for x in &left {
                    let n = name_of(x).to_string();
                    if !need.contains(&(t, n.clone())) || has(&before, t, &n) || !fresh.insert(n.clone()) {
                        if after[t].len() > want.len() {
                            self.fail(format!("C17:normalize-extra:{}", t), format!("{} {:?} was added", t, n));
                        }
                    }
                    if handle_of(t, x) < seed {
                        self.fail("C15:reused-handle", format!("{} {:?} got handle {:X}, the next available one was {:X}", t, n, handle_of(t, x), seed));
                    }
                }
            } else {
                self.fail(format!("C17:normalize-lost:{}", t), format!("{} records became {}", want.len(), after[t].len()));
            }
        }
        self.d.normalize();
        let again = world(&self.d);
        for t in COLS {
            self.same_col("C17:normalize-twice", t, &after[t], &again[t]);
        }
        self.same("C17:normalize-twice-header", "header", &h, &header(&self.d));
        self.w = world(&self.d);
        self.h = header(&self.d);
        self.check_handles();
    }

    // ------------------------------------------------------------ handles
    /// let the handles go on from a larger value
    fn raise(&mut self, s: &mut Src) {
        let seed = self.d.header.next_available_handle.0;
        let to = match s.below(4) {
            0 => seed + s.range(0, 300) as u64,
            1 => *s.pick(&[0xFE, 0xFFFE, 0x7FFF_FFFE, 0xFFFF_FFFC, 0xFFFF_FFFF_FFFC, 0x7FFF_FFFF_FFFF_FFFD]),
            _ => s.any64() >> s.range(2, 40),
        };
        if to < seed {
            return;
        }
        self.log.push(format!("handles go on from {:X}", to));
        self.d.header.next_available_handle = Handle(to);
        self.h = header(&self.d);
        self.check_handles();
    }
    fn check_handles(&mut self) {
        if self.focus != "C15" {
            return;
        }
        let next = self.d.header.next_available_handle.0;
        let mut seen: HashMap<u64, String> = HashMap::new();
        for (h, at) in all_handles(&self.w) {
            if h == 0 {
                self.fail("C15:no-handle", format!("{} has no handle", at));
            } else if let Some(o) = seen.insert(h, at.clone()) {
                self.fail("C15:shared-handle", format!("{} and {} share handle {:X}", o, at, h));
            }
            if h >= next {
                self.fail("C15:seed-too-low", format!("{} has handle {:X}, the next available one is {:X}", at, h, next));
            }
        }
    }
    /// every item is found by its handle, and nothing else is
    pub fn lookups(&mut self, s: &mut Src) {
        self.log.push("look up all handles".into());
        let mut used: BTreeSet<u64> = BTreeSet::new();
        for n in COLS {
            for i in 0..self.w[n].len() {
                let v = self.w[n][i].clone();
                let h = handle_of(n, &v);
                used.insert(h);
                let got = self.d.item_by_handle(Handle(h)).map(|x| (describe(&x), item_json(&x)));
                self.found("lookup", n, h, &v, got);
                let got = self.d.item_by_handle_mut(Handle(h)).map(|x| {
                    let y = x.to_drawing_item();
                    let mut r = (describe(&y), item_json(&y));
                    r.0 .1 = x.handle().0;
                    r
                });
                self.found("lookup-mut", n, h, &v, got);
            }
        }
        let parts: BTreeSet<u64> = all_handles(&self.w).into_iter().map(|x| x.0).filter(|h| !used.contains(h)).collect();
        for _ in 0..4 {
            let h = match s.below(3) {
                0 => 0,
                1 => self.d.header.next_available_handle.0,
                _ => gen_handle(s),
            };
            if !used.contains(&h) && !parts.contains(&h) {
                if let Some(x) = self.d.item_by_handle(Handle(h)) {
                    let k = describe(&x);
                    self.fail("C15:lookup-ghost", format!("handle {:X} is in no use but leads to {:?}", h, k));
                }
                if self.d.item_by_handle_mut(Handle(h)).is_some() {
                    self.fail("C15:lookup-ghost", format!("handle {:X} is in no use but leads to a mutable item", h));
                }
            }
        }
        for h in parts {
            if let Some(x) = self.d.item_by_handle(Handle(h)) {
                if x.handle().0 != h {
                    self.fail("C15:lookup-part", format!("handle {:X} of a part leads to an item with handle {:X}", h, x.handle().0));
                }
            }
        }
        // change one item through its handle
        let n = *s.pick(COLS);
        if self.w[n].is_empty() {
            return;
        }
        let i = s.us(self.w[n].len());
        let h = handle_of(n, &self.w[n][i]);
        let nn = gen_name(s);
        let mut want = self.w.clone();
        if let Some(mut x) = self.d.item_by_handle_mut(Handle(h)) {
            if set_some_text(&mut x, &nn) {
                let w = &mut want.get_mut(n).unwrap()[i];
                match n {
                    "Entity" => w["common"]["layer"] = json!(nn),
                    "Block" => w["description"] = json!(nn),
                    "Object" => {}
                    _ => w["name"] = json!(nn),
                }
            }
        }
        self.log.push(format!("change {} [{}] through its handle", n, i));
        let got = world(&self.d);
        for t in COLS {
            self.same_col("C15:changed-through-handle", t, &want[t], &got[t]);
        }
        self.w = got;
    }
    fn found(&mut self, sig: &str, n: &str, h: u64, v: &Value, got: Option<((String, u64), Value)>) {
        match got {
            None => self.fail(format!("C15:{}-none:{}", sig, n), format!("handle {:X} leads nowhere", h)),
            Some(((k, h2), mut j)) => {
                strip_offsets(&mut j);
                if k != n || h2 != h {
                    self.fail(format!("C15:{}-wrong:{}", sig, n), format!("handle {:X} of a {} leads to a {} with handle {:X}", h, n, k, h2));
                } else {
                    self.same(&format!("C15:{}-value:{}", sig, n), "the item found", v, &j);
                }
            }
        }
    }
    /// set a reference through the API
    pub fn link(&mut self, s: &mut Src) {
        let rs = refs();
        let usable: Vec<usize> = (0..rs.len()).filter(|r| self.w[rs[*r].col].iter().any(|v| (rs[*r].fits)(v))).collect();
        if !usable.is_empty() {
            let r = *s.pick(&usable);
            self.link_by(s, r);
        }
    }
    /// an item that can carry the reference, items it can lead to, and the link
    pub fn link_one(&mut self, s: &mut Src, r: usize) {
        let rf = &refs()[r];
        for k in [rf.owner, rf.only, *s.pick(&["Line", "Dictionary", "Light", "Material", "Field"])] {
            if crate::defaults::ENTITIES.contains(&k) {
                let (mut v, kids) = gen_entity(s, k, &ECfg { xdata: false, ext: true, children: true });
                mask_entity(&mut v, &mut kids.clone(), R2018);
                let e = build_entity(&mut self.d, &v, &[]);
                self.h = header(&self.d);
                self.add("Entity", &serde_json::to_value(&e).unwrap());
            } else if crate::defaults::OBJECTS.contains(&k) {
                let mut v = gen_object(s, k, &ECfg { xdata: false, ext: true, children: true });
                mask_object(&mut v, R2018);
                self.add("Object", &v);
            } else if COLS[..9].contains(&k) {
                let k = *COLS.iter().find(|c| **c == k).unwrap();
                let v = gen_record(s, k, R2018);
                self.add(k, &v);
            }
        }
        if !self.w[rf.col].iter().any(|v| (rf.fits)(v)) {
            self.gen_add(s, r);
        }
        for _ in 0..if rf.multi { 1 + s.us(4) } else { 1 } {
            if self.w[rf.col].iter().any(|v| (rf.fits)(v)) {
                self.link_by(s, r);
            }
        }
    }
    fn link_by(&mut self, s: &mut Src, r: usize) {
        let rf = &refs()[r];
        let at: Vec<usize> = (0..self.w[rf.col].len()).filter(|i| (rf.fits)(&self.w[rf.col][*i])).collect();
        let mut i = *s.pick(&at);
        if rf.multi && s.chance(2, 3) {
            // several in one list
            if let Some(l) = self.links.iter().rev().find(|l| l.r == r) {
                i = *at.iter().find(|i| handle_of(rf.col, &self.w[rf.col][**i]) == l.carrier).unwrap_or(&i);
            }
        }
        let tcols: Vec<&&str> = COLS.iter().filter(|n| !self.w[**n].is_empty() && (rf.target == "any" || rf.target == **n)).collect();
        if tcols.is_empty() {
            return;
        }
        let tn = **s.pick(&tcols);
        let fit: Vec<usize> = (0..self.w[tn].len()).filter(|i| !rf.only.is_empty() && kind(&self.w[tn][*i]) == rf.only).collect();
        let ti = if fit.is_empty() || s.chance(1, 4) { s.us(self.w[tn].len()) } else { *s.pick(&fit) };
        let th = handle_of(tn, &self.w[tn][ti]);
        let carrier = handle_of(rf.col, &self.w[rf.col][i]);
        self.log.push(format!("link {} of {} [{}] to {} [{}] (handle {:X})", rf.name, rf.col, i, tn, ti, th));
        let ok_kind = rf.only.is_empty() || kind(&self.w[tn][ti]) == rf.only;
        let before = (rf.get)(&self.d, i);
        let mut item = Item::of(&self.d, tn, ti);
        // an item that is not part of the drawing and has no handle yet is given one
        let detached = rf.name == "owner" && !["Entity", "Object"].contains(&rf.col) && s.chance(1, 3);
        let seed = self.d.header.next_available_handle.0;
        if detached {
            *item.handle() = Handle(0);
            self.log.push("(a copy without a handle)".into());
        }
        let r_ok = (rf.set)(&mut self.d, i, &mut item);
        let given = item.handle().0;
        if detached && r_ok {
            if given < seed {
                self.fail(format!("C15:link-new-handle:{}", tn), format!("a {} without a handle was given {:X}, the next available one was {:X}", tn, given, seed));
            }
            if self.d.header.next_available_handle.0 <= given {
                self.fail("C15:link-seed", format!("handle {:X} was given out and the next available one is {:X}", given, self.d.header.next_available_handle.0));
            }
        } else if given != if detached { 0 } else { th } && !(detached && !r_ok) {
            self.fail(format!("C15:link-changed-handle:{}", tn), format!("the handle of the {} changed from {:X} to {:X}", tn, th, given));
        }
        self.h = header(&self.d);
        let after = (rf.get)(&self.d, i);
        if r_ok != ok_kind {
            self.fail(format!("C15:link-accept:{}", rf.name), format!("setting it to a {} {}", tn, if r_ok { "succeeded" } else { "failed" }));
        }
        let mut want = if rf.multi { before.clone() } else { vec![] };
        if r_ok && detached {
            // leads to nothing in the drawing
        } else if r_ok {
            want.push((tn.to_string(), th));
        } else {
            want = before.clone();
        }
        if after != want {
            self.fail(format!("C15:link-get:{}", rf.name), format!("after setting it to {} {:X} it reads {:?}, expected {:?}", tn, th, after, want));
        }
        let got = world(&self.d);
        // nothing else changes
        for t in COLS {
            for (k, (a, b)) in self.w[t].clone().iter().zip(&got[t]).enumerate() {
                if a != b && !(*t == rf.col && k == i) {
                    self.same(&format!("C15:link-elsewhere:{}", rf.name), &format!("{} [{}]", t, k), a, b);
                }
            }
        }
        let mut o = vec![];
        diff("", &self.w[rf.col][i], &got[rf.col][i], true, &mut o);
        if o.len() > 1 || o.iter().any(|(p, _)| !p.contains("handle")) {
            self.fail(format!("C15:link-other-field:{}", rf.name), format!("changed {:?}", o));
        }
        if r_ok && !got[rf.col][i].to_string().contains(&given.to_string()) {
            self.fail(format!("C15:link-stored:{}", rf.name), format!("handle {:X} is not stored", given));
        }
        let mut stale = BTreeSet::new();
        if rf.multi {
            numbers(&self.w[rf.col][i], &mut stale);
            want.iter().for_each(|(_, h)| drop(stale.remove(h)));
        }
        self.w = got;
        self.links.retain(|l| !(l.carrier == carrier && l.r == r));
        // a link to an item outside the drawing dangles: a later item may take its handle
        if !(detached && r_ok) {
            self.links.push(Link { r, carrier, targets: want, stale });
        }
        self.check_links();
    }
    /// links set before still lead where they were set to, as long as both ends exist
    fn check_links(&mut self) {
        let rs = refs();
        for k in 0..self.links.len() {
            let l = &self.links[k];
            let rf = &rs[l.r];
            let Some(i) = self.w[rf.col].iter().position(|v| handle_of(rf.col, v) == l.carrier && (rf.fits)(v)) else { continue };
            let want: Vec<(String, u64)> = l.targets.iter().filter(|(n, h)| self.w[n.as_str()].iter().any(|v| handle_of(n, v) == *h)).cloned().collect();
            let got: Vec<(String, u64)> = (rf.get)(&self.d, i).into_iter().filter(|(_, h)| !l.stale.contains(h)).collect();
            if want != got {
                self.fail(format!("C15:link-lost:{}", rf.name), format!("the {} of handle {:X} should lead to {:?}, leads to {:?}", rf.name, self.links[k].carrier, want, got));
            }
        }
    }
    /// save and load; `edit` alters the handles of the file in between
    pub fn reload(&mut self, s: &mut Src) {
        let ver = if s.chance(3, 4) { *s.pick(&[R2018, R2013, R2010, R2007, R2004, R2000, R14, R13]) } else { gen_version(s) };
        let binary = s.chance(1, 3);
        let foreign = !binary && s.chance(1, 3);
        self.d.header.version = acad(ver);
        self.log.push(format!("save {} {}{} and load", VERSIONS[ver], if binary { "binary" } else { "text" }, if foreign { ", edit handles" } else { "" }));
        let b = match save(&self.d, binary) {
            Ok(b) => b,
            Err(e) => return self.fail("C15:save-error", e),
        };
        let mut stripped = false;
        let b = if foreign {
            match lex(&b, false, ver) {
                Ok(mut ps) => {
                    stripped = edit_handles(s, &mut ps, &mut self.log);
                    emit_text(&ps, ver >= R2007)
                }
                Err(e) => return self.fail("C15:malformed", e),
            }
        } else {
            b
        };
        let d2 = match load(&b) {
            Ok(d) => d,
            Err(e) => return self.fail("C15:load-error", e),
        };
        let old = std::mem::take(&mut self.w);
        self.d = d2;
        self.w = world(&self.d);
        self.h = header(&self.d);
        self.pool.clear();
        if ver >= R13 && !stripped {
            for t in COLS {
                let hs = |w: &World| -> Vec<u64> {
                    let mut o = vec![];
                    for v in &w[t] {
                        match *t {
                            "Entity" if expect_entity(v, ver).is_none() => continue,
                            "Object" if expect_object(v, ver).is_none() => continue,
                            _ => {}
                        }
                        o.push(handle_of(t, v));
                        let ents: Vec<&Value> = match *t {
                            "Entity" => vec![v],
                            "Block" => v["entities"].as_array().unwrap().iter().filter(|e| expect_entity(e, ver).is_some()).collect(),
                            _ => vec![],
                        };
                        for e in ents {
                            if *t == "Block" {
                                o.push(handle_of("Entity", e));
                            }
                            let kids = &e["specific"][kind(e)];
                            for k in KIDS {
                                if let Some(a) = kids.get(k).and_then(|a| a.as_array()) {
                                    o.extend(a.iter().map(|p| p[1].as_u64().unwrap()));
                                    if !a.is_empty() {
                                        o.push(kids["__seqend_handle"].as_u64().unwrap());
                                    }
                                }
                            }
                        }
                    }
                    o
                };
                let (a, b) = (hs(&old), hs(&self.w));
                if b.len() < a.len() || b[..a.len()] != a[..] {
                    let i = (0..a.len()).find(|i| b.get(*i) != Some(&a[*i])).unwrap();
                    self.fail(format!("C15:unstable-handle:{}", t), format!("handle {:X} (number {}) became {:X?}", a[i], i, b.get(i)));
                }
            }
        }
        if ver < R2000 || stripped {
            // not every reference is stored
            self.links.clear();
        } else {
            let rs = refs();
            self.links.retain(|l| {
                let rf = &rs[l.r];
                // the objects of a FIELD and the links of a SECTIONSETTINGS itself are recorded findings of C04
                rf.owner != "Field" && rf.owner != "SectionSettings" && !old["Object"].iter().any(|v| handle_of("Object", v) == l.carrier && kind(v) == "Field") && ver >= rf.min(&old, l.carrier) && l.targets.iter().all(|(n, h)| match n.as_str() {
                    "Entity" | "Object" => old[n.as_str()].iter().any(|v| handle_of(n, v) == *h && if n == "Entity" { expect_entity(v, ver).is_some() } else { expect_object(v, ver).is_some() }),
                    _ => true,
                })
            });
        }
        self.check_handles();
        self.check_links();
        // every name has its record
        for t in COLS {
            for v in self.w[t].clone() {
                for (tt, n) in names(t, &v) {
                    if !has(&self.w, tt, &n) {
                        self.fail(format!("C17:missing-after-load:{}:{}", t, tt), format!("{} {:?} named by a loaded {} does not exist", tt, n, t));
                    }
                }
            }
        }
    }
    /// put a removed item back
    pub fn readd(&mut self, s: &mut Src) {
        if self.pool.is_empty() {
            return;
        }
        let i = s.us(self.pool.len());
        let (n, v) = self.pool.remove(i);
        self.add(n, &v);
    }
    /// add a copy of an item that is in the drawing (one without parts: see `clones`)
    pub fn copy(&mut self, s: &mut Src) {
        let n = *s.pick(&["Entity", "Entity", "Object", "Block", "Layer", "Style", "ViewPort"]);
        let plain = |e: &Value| KIDS.iter().all(|k| e["specific"][kind(e)].get(*k).map_or(true, |a| a.as_array().unwrap().is_empty()));
        let ok = |v: &Value| match n {
            "Entity" => plain(v),
            "Block" => v["entities"].as_array().unwrap().iter().all(|e| !["Insert", "Polyline"].contains(&kind(e).as_str())),
            _ => true,
        };
        let mut at: Vec<usize> = (0..self.w[n].len()).filter(|i| ok(&self.w[n][*i])).collect();
        if n == "Entity" && at.iter().any(|i| ["Insert", "Polyline"].contains(&kind(&self.w[n][*i]).as_str())) && s.flip() {
            at.retain(|i| ["Insert", "Polyline"].contains(&kind(&self.w[n][*i]).as_str()));
        }
        if !at.is_empty() {
            let i = *s.pick(&at);
            self.log.push(format!("copy {} [{}]", n, i));
            let v = self.w[n][i].clone();
            self.add(n, &v);
        }
    }
    /// take an entity out, give it another part and put it back
    pub fn grow(&mut self, s: &mut Src) {
        let at: Vec<usize> = (0..self.w["Entity"].len()).filter(|i| ["Insert", "Polyline"].contains(&kind(&self.w["Entity"][*i]).as_str())).collect();
        if at.is_empty() {
            return;
        }
        let i = *s.pick(&at);
        self.remove("Entity", i);
        let Some((_, v)) = self.pool.pop() else { return };
        let mut e = to_entity(&v);
        match e.specific {
            EntityType::Insert(ref mut x) => x.add_attribute(&mut self.d, Attribute::default()),
            EntityType::Polyline(ref mut x) => x.add_vertex(&mut self.d, Vertex::default()),
            _ => {}
        }
        let v2 = serde_json::to_value(&e).unwrap();
        let k = kind(&v2);
        let key = if k == "Insert" { KIDS[0] } else { KIDS[1] };
        let (a, b) = (v["specific"][&k][key].as_array().unwrap().len(), v2["specific"][&k][key].as_array().unwrap().len());
        if b != a + 1 {
            self.fail("C15:grow", format!("{} parts became {}", a, b));
        }
        self.h = header(&self.d);
        self.add("Entity", &v2);
    }

    pub fn gen_add(&mut self, s: &mut Src, k: usize) {
        let n = match s.below(10) {
            0..=2 => "Entity",
            3 | 4 => "Object",
            5 => "Block",
            _ => *s.pick(&COLS[..9]),
        };
        let cfg = DCfg { xdata: false, ..SOUND };
        match n {
            "Entity" => {
                let (mut v, kids) = gen_entity_value(s, k, R2018, &cfg);
                pool_names(s, &mut v);
                let e = build_entity(&mut self.d, &v, &kids);
                self.h = header(&self.d);
                let v = serde_json::to_value(&e).unwrap();
                self.add(n, &v);
            }
            "Object" => {
                let name = if s.flip() { crate::defaults::OBJECTS[k % crate::defaults::OBJECTS.len()] } else { *s.pick(crate::defaults::OBJECTS) };
                let name = match s.below(4) {
                    0 => *s.pick(&["LayerFilter", "LayerIndex", "PlotSettings", "MLineStyle"]),
                    _ if BY_POSITION.contains(&name) => "PlaceHolder",
                    _ => name,
                };
                let mut v = gen_object(s, name, &ECfg { xdata: false, ext: true, children: true });
                mask_object(&mut v, R2018);
                pool_names(s, &mut v);
                self.add(n, &v);
            }
            "Block" => {
                let mut b = gen_block(s);
                pool_names(s, &mut b);
                let m = s.size(3);
                let ents: Vec<_> = (0..m)
                    .map(|j| {
                        let (mut v, kids) = gen_entity_value(s, k + j, R2018, &cfg);
                        pool_names(s, &mut v);
                        (v, kids)
                    })
                    .collect();
                let b = to_block(&mut self.d, &b, &ents);
                self.h = header(&self.d);
                let v = serde_json::to_value(&b).unwrap();
                self.add(n, &v);
            }
            t => {
                let mut v = gen_record(s, t, R2018);
                pool_names(s, &mut v);
                if s.chance(1, 2) {
                    v["handle"] = json!(gen_handle(s));
                }
                self.add(n, &v);
            }
        }
    }
    /// recorded finding: references that a file does not hold
    fn unstored(mut self, idx: u64) {
        use dxf::objects::*;
        let (kind, ver) = [("SectionSettings", R2018), ("Field", R2007)][idx as usize - 4];
        let target = self.d.add_object(Object::new(ObjectType::Dictionary(Dictionary::default()))).clone();
        let mut o = match idx {
            4 => ObjectType::SectionSettings(SectionSettings::default()),
            _ => ObjectType::Field(Field::default()),
        };
        match o {
            ObjectType::SectionSettings(ref mut x) => x.add_source_objects(&target),
            ObjectType::Field(ref mut x) => x.add_objects(&target),
            _ => {}
        }
        let h = self.d.add_object(Object::new(o)).common.handle;
        self.d.header.version = acad(ver);
        self.log.push(format!("add a {} that refers to a Dictionary, save {} and load", kind, VERSIONS[ver]));
        let d2 = match save(&self.d, false).and_then(|b| load(&b)) {
            Ok(d) => d,
            Err(e) => return self.fail("C15:unstored-error", e),
        };
        let n = d2
            .objects()
            .find(|o| o.common.handle == h)
            .map(|o| match o.specific {
                ObjectType::SectionSettings(ref x) => x.source_objects(&d2).len(),
                ObjectType::Field(ref x) => x.objects(&d2).len(),
                _ => 99,
            });
        if n != Some(1) {
            self.fail(format!("C15:finding-unstored:{}", kind), format!("the reference leads to {:?} items", n));
        }
        self.c.desc = self.log.join("; ");
    }
    /// recorded finding: an entity with parts that is added twice
    fn clones(mut self, idx: u64) {
        let mut e = match idx {
            0 => Entity::new(EntityType::Insert(Insert::default())),
            _ => Entity::new(EntityType::Polyline(Polyline::default())),
        };
        match e.specific {
            EntityType::Insert(ref mut x) => x.add_attribute(&mut self.d, Attribute::default()),
            EntityType::Polyline(ref mut x) => x.add_vertex(&mut self.d, Vertex::default()),
            _ => {}
        }
        if idx == 2 {
            let b = Block { name: "b".into(), entities: vec![e], ..Default::default() };
            self.d.add_block(b.clone());
            self.d.add_block(Block { name: "c".into(), ..b });
        } else {
            self.d.add_entity(e.clone());
            self.d.add_entity(e);
        }
        self.log.push(format!("add {} with one part and its clone", ["an insert", "a polyline", "a block with a polyline"][idx as usize]));
        let mut seen = HashMap::new();
        for (h, at) in all_handles(&world(&self.d)) {
            if let Some(o) = seen.insert(h, at.clone()) {
                let what = if at.starts_with("part of") { "part" } else { "item" };
                self.fail(format!("C15:finding-clone:{}:{}", ["insert", "polyline", "block"][idx as usize], what), format!("{} and {} share handle {:X}", o, at, h));
            }
        }
        self.c.desc = self.log.join("; ");
    }
    /// drop records and blank out values, then normalise
    pub fn unsettle(&mut self, s: &mut Src, k: usize) {
        for n in &COLS[..9] {
            let p = s.below(3);
            for i in (0..self.w[*n].len()).rev() {
                if s.below(3) < p {
                    self.remove(n, i);
                }
            }
        }
        for _ in 0..s.below(6) {
            self.edit_header(s);
        }
        for j in 0..s.below(4) {
            self.gen_add(s, k + j as usize);
        }
        let blank = |s: &mut Src, x: f64| if s.chance(1, 2) { x } else { *s.pick(&[0.0, -0.0, -1.5, 2.5]) };
        if s.flip() {
            for v in self.d.view_ports_mut() {
                v.snap_spacing.x = blank(s, v.snap_spacing.x);
                v.snap_spacing.y = blank(s, v.snap_spacing.y);
                v.grid_spacing.x = blank(s, v.grid_spacing.x);
                v.grid_spacing.y = blank(s, v.grid_spacing.y);
                v.view_height = blank(s, v.view_height);
                v.view_port_aspect_ratio = blank(s, v.view_port_aspect_ratio);
                v.lens_length = blank(s, v.lens_length);
                if s.flip() {
                    v.ucs_icon = *s.pick(&[0, -1, 1, 3]);
                    v.circle_sides = *s.pick(&[0, -1, 1, 3]);
                }
            }
            for v in self.d.views_mut() {
                v.view_height = blank(s, v.view_height);
                v.view_width = blank(s, v.view_width);
                v.lens_length = blank(s, v.lens_length);
            }
            for v in self.d.styles_mut() {
                v.text_height = blank(s, v.text_height);
                v.width_factor = blank(s, v.width_factor);
            }
            for v in self.d.layers_mut() {
                if s.flip() {
                    v.line_type_name.clear();
                }
                if s.flip() {
                    v.color = dxf::Color::from_index(7);
                    match s.below(3) {
                        0 => v.color.set_by_block(),
                        1 => v.color.set_by_layer(),
                        _ => {}
                    }
                }
            }
            for b in self.d.blocks_mut() {
                if s.flip() {
                    b.layer.clear();
                }
                for e in b.entities.iter_mut() {
                    if s.flip() {
                        e.common.layer.clear();
                    }
                }
            }
            for e in self.d.entities_mut() {
                if s.flip() {
                    e.common.layer.clear();
                }
            }
            self.log.push("blank out values".into());
            self.w = world(&self.d);
        }
        self.normalize();
    }
    pub fn edit_header(&mut self, s: &mut Src) {
        let n = *s.pick(&["", "STANDARD", "zz", "p1", "p2", "0", "BYLAYER", "a name"]);
        let k = s.below(14);
        self.log.push(format!("header name {} = {:?}", k, n));
        let h = &mut self.d.header;
        let n = n.to_string();
        match k {
            0 => h.current_layer = n,
            1 => h.text_style = n,
            2 => h.dimension_style_name = n,
            3 => h.current_entity_line_type = n,
            4 => h.ucs_definition_name = n,
            5 => h.ucs_name = n,
            6 => h.ortho_ucs_reference = n,
            7 => h.paperspace_ucs_definition_name = n,
            8 => h.paperspace_ucs_name = n,
            9 => h.paperspace_ortho_ucs_reference = n,
            10 => h.file_name = n,
            11 => h.default_text_height = gen_f64(s),
            12 => h.trace_width = gen_f64(s),
            _ => {
                h.default_text_height = -0.0;
                h.trace_width = -1.0
            }
        }
        self.h = header(&self.d);
    }
}

/// names and other values the machine wants to collide or to be repaired
fn pool_names(s: &mut Src, v: &mut Value) {
    const P: [&str; 7] = ["p1", "p2", "p3", "P1", "STANDARD", "0", ""];
    fn walk(s: &mut Src, v: &mut Value) {
        match v {
            Value::Object(m) => {
                for (k, x) in m.iter_mut() {
                    if k.starts_with("__") && k.contains("_handle") && !KIDS.contains(&k.as_str()) {
                        *x = if x.is_array() { json!([]) } else { json!(0) }; // references are set through the API
                    } else if x.is_string() {
                        if (k == "layer" || k == "name" || k == "plot_view_name" || k == "text_style" || k.ends_with("style_name") || k == "line_type_name") && s.chance(2, 3) {
                            *x = json!(*s.pick(&P));
                        }
                    } else if k == "layer_names" {
                        for y in x.as_array_mut().unwrap() {
                            if s.chance(2, 3) {
                                *y = json!(*s.pick(&P));
                            }
                        }
                    } else {
                        walk(s, x);
                    }
                }
                if m.contains_key("is_layer_on") && s.chance(1, 3) {
                    m.insert("color".into(), json!({"raw_value": *s.pick(&[0, 256, 257, 7, -3])}));
                }
            }
            Value::Array(a) => {
                if a.len() < 20 {
                    a.iter_mut().for_each(|x| walk(s, x))
                }
            }
            _ => {}
        }
    }
    walk(s, v)
}

const STANDARD: &[(&str, &[&str])] = &[
    ("AppId", &["ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER"]),
    ("BlockRecord", &["*MODEL_SPACE", "*PAPER_SPACE"]),
    ("DimStyle", &["STANDARD", "ANNOTATIVE"]),
    ("Layer", &["0"]),
    ("LineType", &["BYLAYER", "BYBLOCK", "CONTINUOUS"]),
    ("Style", &["STANDARD", "ANNOTATIVE"]),
    ("ViewPort", &["*ACTIVE"]),
];

fn pos(v: &mut Value, def: f64) {
    if v.as_f64().map(|x| x <= 0.0).unwrap_or(false) {
        *v = json!(def);
    }
}
fn pos_i(v: &mut Value, def: i64) {
    if v.as_i64().map(|x| x <= 0).unwrap_or(false) {
        *v = json!(def);
    }
}
fn filled(v: &mut Value, def: &str) {
    if v == "" {
        *v = json!(def);
    }
}
fn norm_header(h: &Value) -> Value {
    let mut h = h.clone();
    pos(&mut h["default_text_height"], 0.2);
    pos(&mut h["trace_width"], 0.05);
    filled(&mut h["text_style"], "STANDARD");
    filled(&mut h["current_layer"], "0");
    filled(&mut h["current_entity_line_type"], "BYLAYER");
    filled(&mut h["dimension_style_name"], "STANDARD");
    filled(&mut h["file_name"], ".");
    h
}
fn norm(t: &str, v: &Value) -> Value {
    let mut v = v.clone();
    match t {
        "Layer" => {
            filled(&mut v["line_type_name"], "CONTINUOUS");
            let c = &mut v["color"]["raw_value"];
            if *c == 0 || *c == 256 {
                *c = json!(7);
            }
        }
        "Style" => {
            pos(&mut v["text_height"], 0.0);
            pos(&mut v["width_factor"], 1.0);
        }
        "View" => {
            for f in ["view_height", "view_width", "lens_length"] {
                pos(&mut v[f], 1.0);
            }
        }
        "ViewPort" => {
            for f in ["snap_spacing", "grid_spacing"] {
                for k in ["x", "y"] {
                    pos(&mut v[f][k], 1.0);
                }
            }
            pos(&mut v["view_height"], 1.0);
            pos(&mut v["view_port_aspect_ratio"], 1.0);
            pos(&mut v["lens_length"], 50.0);
            pos_i(&mut v["ucs_icon"], 3);
            pos_i(&mut v["circle_sides"], 1000);
        }
        "Entity" => filled(&mut v["common"]["layer"], "0"),
        "Block" => filled(&mut v["layer"], "0"),
        _ => {}
    }
    v
}

/// lower or drop the seed, or drop the handles of some records
fn edit_handles(s: &mut Src, ps: &mut Vec<Pair>, log: &mut Vec<String>) -> bool {
    let mut stripped = false;
    let what = s.below(4);
    if what != 3 {
        if let Some(i) = ps.iter().position(|p| p.c == 9 && p.s() == "$HANDSEED") {
            let v = *s.pick(&["0", "1", "2", "10", "A0"]);
            if s.chance(1, 3) {
                ps.drain(i..i + 2);
                log.push("dropped the seed".into());
            } else {
                ps[i + 1] = st(5, v);
                log.push(format!("seed {}", v));
            }
        }
    }
    if what >= 1 {
        let mut rec = String::new();
        let mut fresh = false;
        let mut in_items = false;
        let mut drop = vec![];
        for (i, p) in ps.iter().enumerate() {
            if p.c == 0 {
                rec = p.s().to_string();
                fresh = true;
                if rec == "SECTION" {
                    in_items = matches!(ps.get(i + 1).map(|p| p.s()), Some("TABLES") | Some("BLOCKS") | Some("ENTITIES") | Some("OBJECTS"));
                }
            } else if in_items && fresh && p.c == if rec == "DIMSTYLE" { 105 } else { 5 } {
                fresh = false;
                if rec != "TABLE" && rec != "SECTION" && s.chance(1, 4) {
                    drop.push(i);
                }
            } else {
                fresh = fresh && p.c == 330;
            }
        }
        for i in drop.into_iter().rev() {
            ps.remove(i);
            stripped = true;
        }
        if stripped {
            log.push("dropped handles".into());
        }
    }
    stripped
}

/// a generated history
pub fn run(s: &mut Src, idx: u64, c: &mut Case, focus: &'static str) {
    let steps = 1 + s.size(24);
    let mut m = Machine::new(c, focus);
    if focus == "C15" && idx < 3 {
        return m.clones(idx);
    }
    if focus == "C15" && (idx == 4 || idx == 5) {
        return m.unstored(idx);
    }
    if s.chance(1, 3) {
        m.clear(s);
    }
    if focus == "C15" && s.chance(1, 6) {
        m.raise(s);
    }
    if focus == "C17" && idx % 3 == 1 {
        m.unsettle(s, idx as usize);
    }
    let mut ops: BTreeMap<&'static str, u64> = BTreeMap::new();
    if focus == "C15" && idx % 4 == 3 {
        m.link_one(s, idx as usize / 4 % refs().len());
        *ops.entry("link-one").or_insert(0) += 1;
        if m.c.fails.is_empty() && s.chance(3, 4) {
            m.reload(s);
        }
    }
    let steps = if m.c.fails.is_empty() { steps } else { 0 };
    for i in 0..steps {
        let op = match s.below(20) {
            0..=7 => "add",
            8 | 9 => "remove",
            10 => "edit",
            11 => if s.chance(1, 3) { "copy" } else { "readd" },
            12 => if s.chance(1, 3) { "copy" } else { "grow" },
            13 => match focus {
                "C17" => "header",
                _ => "link",
            },
            14 => if s.chance(1, 3) { "clear" } else { "edit" },
            15 => "normalize",
            16 => if focus == "C15" && s.chance(1, 3) { "raise" } else { "header" },
            17 => "reload",
            18 => "lookups",
            _ => "link",
        };
        *ops.entry(op).or_insert(0) += 1;
        match op {
            "add" => m.gen_add(s, idx as usize + 3 * i),
            "remove" => {
                let n = *s.pick(COLS);
                let l = m.w[n].len();
                let at = match s.below(6) {
                    0 => l,
                    1 => *s.pick(&[usize::MAX, l + 1, l + 1000, usize::MAX / 2]),
                    2 if l > 0 => l - 1,
                    _ if l > 0 => s.us(l),
                    _ => 0,
                };
                m.remove(n, at)
            }
            "edit" => {
                let n = *s.pick(COLS);
                m.edit(s, n)
            }
            "readd" => m.readd(s),
            "copy" => m.copy(s),
            "grow" => m.grow(s),
            "link" => m.link(s),
            "clear" => m.clear(s),
            "normalize" => m.normalize(),
            "header" => m.edit_header(s),
            "raise" => m.raise(s),
            "reload" => m.reload(s),
            _ => m.lookups(s),
        }
        if !m.c.fails.is_empty() {
            break;
        }
    }
    let log = m.log.join("; ");
    let _ = m.max_seen;
    for (k, n) in ops {
        c.class(format!("op:{}", k));
        c.evals += n;
    }
    c.evals = c.evals.saturating_sub(1);
    c.nontrivial = log.matches("add ").count() > 0 && steps > 1;
    c.ident(log.as_bytes());
    c.desc = log;
}

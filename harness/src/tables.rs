//! Table records as serde values: generation, prediction, access.
use crate::defaults::*;
use crate::engine::Src;
use crate::gen::*;
use crate::model::*;
use crate::reflect::*;
use dxf::Drawing;
use serde_json::{json, Value};

pub const TABLES: &[&str] = &["Layer", "LineType", "Style", "DimStyle", "View", "ViewPort", "Ucs", "AppId", "BlockRecord"];

pub fn table_model(name: &str) -> &'static TypeM {
    model().tables.iter().find(|t| t.name == name).unwrap()
}

macro_rules! per_table {
    ($name:expr, $m:ident, $($a:expr),*) => {
        match $name {
            "Layer" => $m!(Layer, layers, layers_mut, add_layer, remove_layer, $($a),*),
            "LineType" => $m!(LineType, line_types, line_types_mut, add_line_type, remove_line_type, $($a),*),
            "Style" => $m!(Style, styles, styles_mut, add_style, remove_style, $($a),*),
            "DimStyle" => $m!(DimStyle, dim_styles, dim_styles_mut, add_dim_style, remove_dim_style, $($a),*),
            "View" => $m!(View, views, views_mut, add_view, remove_view, $($a),*),
            "ViewPort" => $m!(ViewPort, view_ports, view_ports_mut, add_view_port, remove_view_port, $($a),*),
            "Ucs" => $m!(Ucs, ucss, ucss_mut, add_ucs, remove_ucs, $($a),*),
            "AppId" => $m!(AppId, app_ids, app_ids_mut, add_app_id, remove_app_id, $($a),*),
            "BlockRecord" => $m!(BlockRecord, block_records, block_records_mut, add_block_record, remove_block_record, $($a),*),
            x => panic!("unknown table {}", x),
        }
    };
}

pub fn records(d: &Drawing, name: &str) -> Vec<Value> {
    macro_rules! m {
        ($t:ident, $it:ident, $itm:ident, $add:ident, $rm:ident, $d:expr) => {
            $d.$it().map(|x| serde_json::to_value(x).unwrap()).collect()
        };
    }
    per_table!(name, m, d)
}
/// the value handed back by the add function
pub fn add_record(d: &mut Drawing, name: &str, v: &Value) -> Value {
    macro_rules! m {
        ($t:ident, $it:ident, $itm:ident, $add:ident, $rm:ident, $d:expr, $v:expr) => {{
            let x: dxf::tables::$t = serde_json::from_value($v.clone()).unwrap_or_else(|e| panic!("harness: {} {}", e, $v));
            serde_json::to_value($d.$add(x)).unwrap()
        }};
    }
    per_table!(name, m, d, v)
}
pub fn remove_record(d: &mut Drawing, name: &str, i: usize) -> Option<Value> {
    macro_rules! m {
        ($t:ident, $it:ident, $itm:ident, $add:ident, $rm:ident, $d:expr, $i:expr) => {
            $d.$rm($i).map(|x| serde_json::to_value(x).unwrap())
        };
    }
    per_table!(name, m, d, i)
}
/// rename through the mutable iterator; returns what the iterator visited before the change
pub fn touch_record(d: &mut Drawing, name: &str, i: usize, new_name: &str) -> Vec<Value> {
    macro_rules! m {
        ($t:ident, $it:ident, $itm:ident, $add:ident, $rm:ident, $d:expr, $i:expr, $n:expr) => {{
            let mut out = vec![];
            for (k, x) in $d.$itm().enumerate() {
                out.push(serde_json::to_value(&*x).unwrap());
                if k == $i {
                    x.name = $n.to_string();
                }
            }
            out
        }};
    }
    per_table!(name, m, d, i, new_name)
}

pub fn gen_record(s: &mut Src, name: &str, _ver: usize) -> Value {
    let dens = gen_density(s);
    let def = default_table(name);
    let mut v = gen_struct(s, name, &table_model(name).fields, &def, dens);
    v["name"] = json!(match s.below(5) {
        0 => gen_text(s),
        _ => gen_name(s),
    });
    if s.chance(1, 3) {
        v["__owner_handle"] = json!(gen_handle(s));
    }
    match name {
        "Layer" => {
            v["color"] = json!({"raw_value": if s.flip() { s.range(1, 255) } else { s.range(1, 32767) }});
            v["is_layer_on"] = json!(s.chance(2, 3));
        }
        "DimStyle" => {
            // 278 holds the character's number
            v["dimension_decilam_separator_char"] = json!((s.below(255) as u8 as char).to_string());
        }
        "ViewPort" => {
            v["view_mode"] = json!({"flags": s.below(32)});
        }
        _ => {}
    }
    v
}

/// is the condition under which a field is written met by this record?
pub fn cond_met(f: &Field, v: &Value) -> bool {
    match f.wcond.as_str() {
        "" => true,
        "item.is_associated_ucs_present" => v["is_associated_ucs_present"] == true,
        "item.has_own_ucs" => v["has_own_ucs"] == true,
        _ => true,
    }
}

pub fn expect_record(name: &str, v: &Value, ver: usize, handles: bool) -> Value {
    let def = default_table(name);
    let t = table_model(name);
    let mut o = v.clone();
    for f in &t.fields {
        let kept = t.fields.iter().any(|g| g.name == f.name && ver >= g.min && ver <= g.max && cond_met(g, v));
        if !kept {
            o[&f.name] = def[&f.name].clone();
        }
    }
    if !handles {
        o["__owner_handle"] = json!(0);
    }
    if ver < R2000 {
        o["x_data"] = json!([]);
    }
    if ver < R14 {
        o["extension_data_groups"] = json!([]);
    }
    strip_offsets(&mut o);
    o
}

/// set the extended data and extension groups of a record
pub fn carry_record(d: &mut Drawing, name: &str, i: usize, x: Vec<dxf::XData>, g: Vec<dxf::ExtensionGroup>) {
    macro_rules! m {
        ($t:ident, $it:ident, $itm:ident, $add:ident, $rm:ident, $d:expr) => {{
            let r = $d.$itm().nth(i).unwrap();
            r.x_data = x;
            r.extension_data_groups = g;
        }};
    }
    per_table!(name, m, d)
}

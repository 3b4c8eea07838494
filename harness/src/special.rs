//! Layouts of the kinds whose pairs have a meaning by position, written down independently of the library.
use crate::engine::Src;
use crate::wire::*;
use serde_json::{json, Value};

fn t(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or(0)
}
fn f(v: &Value) -> f64 {
    v.as_f64().unwrap_or(0.0)
}
fn h(v: &Value) -> String {
    format!("{:X}", v.as_u64().unwrap_or(0))
}
fn b(v: &Value) -> i64 {
    (v == &json!(true)) as i64
}
fn a(v: &Value) -> &[Value] {
    v.as_array().map(|x| x.as_slice()).unwrap_or(&[])
}
fn pt(c: i32, v: &Value) -> Vec<Pair> {
    vec![dbl(c, f(&v["x"])), dbl(c + 10, f(&v["y"])), dbl(c + 20, f(&v["z"]))]
}

pub const KINDS: &[&str] = &["DataTable", "LightList", "SectionSettings", "SunStudy", "SortentsTable", "TableStyle", "MLineStyle"];

/// the pairs of the object from its subclass marker on, in the order of the format
pub fn pairs(name: &str, v: &Value) -> Option<Vec<Pair>> {
    let mut o = vec![];
    match name {
        "DataTable" => {
            o.extend([st(100, "AcDbDataTable"), int(70, i(&v["field"])), int(90, i(&v["column_count"])), int(91, i(&v["row_count"])), st(1, t(&v["name"]))]);
            for c in 0..i(&v["column_count"]) as usize {
                let cells: Vec<&Value> = a(&v["values"]).iter().map(|r| &r[c]).collect();
                let key = |x: &Value| x.as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_default();
                let code = match cells.first().map(|x| key(x)).unwrap_or_default().as_str() {
                    "Boolean" => 71,
                    "Integer" => 93,
                    "Double" => 40,
                    "Str" => 3,
                    "Point2D" => 10,
                    "Point3D" => 11,
                    "Handle" => 331,
                    _ => 0,
                };
                o.push(int(92, code));
                if let Some(n) = v["column_names"].get(c) {
                    o.push(st(2, t(n)));
                }
                for x in cells {
                    let k = key(x);
                    let y = &x[&k];
                    match k.as_str() {
                        "Boolean" => o.push(int(71, b(y))),
                        "Integer" => o.push(int(93, i(y))),
                        "Double" => o.push(dbl(40, f(y))),
                        "Str" => o.push(st(3, t(y))),
                        "Point2D" => o.extend(pt(10, y)),
                        "Point3D" => o.extend(pt(11, y)),
                        _ => o.push(st(331, h(y))),
                    }
                }
            }
        }
        "LightList" => {
            let l = a(&v["__lights_handle"]);
            o.extend([st(100, "AcDbLightList"), int(90, i(&v["version"])), int(90, l.len() as i64)]);
            for x in l {
                o.extend([st(5, h(x)), st(1, "")]);
            }
        }
        "SectionSettings" => {
            let l = a(&v["geometry_settings"]);
            o.extend([st(100, "AcDbSectionSettings"), int(90, i(&v["section_type"])), int(91, l.len() as i64)]);
            for x in l {
                let so = a(&x["source_object_handles"]);
                o.extend([st(1, "SectionTypeSettings"), int(90, i(&x["section_type"])), int(91, b(&x["is_generation_option"])), int(92, so.len() as i64)]);
                o.extend(so.iter().map(|y| st(330, h(y))));
                let g = a(&x["geometry_settings"]);
                o.extend([st(331, h(&x["destination_object_handle"])), st(1, t(&x["destination_file_name"])), int(93, g.len() as i64), st(2, "SectionGeometrySettings")]);
                for y in g {
                    o.extend([
                        int(90, i(&y["section_type"])), int(91, i(&y["geometry_count"])), int(92, i(&y["bit_flags"])), int(63, i(&y["color"]["raw_value"])),
                        st(8, t(&y["layer_name"])), st(6, t(&y["line_type_name"])), dbl(40, f(&y["line_type_scale"])), st(1, t(&y["plot_style_name"])),
                        int(370, i(&y["line_weight"])), int(70, i(&y["face_transparency"])), int(71, i(&y["edge_transparency"])), int(72, i(&y["hatch_pattern_type"])),
                        st(2, t(&y["hatch_pattern_name"])), dbl(41, f(&y["hatch_angle"])), dbl(42, f(&y["hatch_scale"])), dbl(43, f(&y["hatch_spacing"])),
                        st(3, "SectionGeometrySettingsEnd"),
                    ]);
                }
                o.push(st(3, "SectionTypeSettingsEnd"));
            }
        }
        "SunStudy" => {
            o.extend([
                st(100, "AcDbSunStudy"), int(90, i(&v["version"])), st(1, t(&v["sun_setup_name"])), st(2, t(&v["description"])), int(70, i(&v["output_type"])),
                st(3, t(&v["sheet_set_name"])), int(290, b(&v["use_subset"])), st(4, t(&v["sheet_subset_name"])), int(291, b(&v["select_dates_from_calendar"])),
                int(91, a(&v["dates"]).len() as i64),
            ]);
            for d in a(&v["dates"]) {
                use chrono::{Datelike, Timelike};
                let d = chrono::DateTime::parse_from_rfc3339(d.as_str()?).ok()?;
                // Julian day of the date, seconds past midnight
                o.extend([int(90, d.num_days_from_ce() as i64 + 1721425), int(90, d.num_seconds_from_midnight() as i64)]);
            }
            o.extend([
                int(292, b(&v["select_range_of_dates"])), int(93, i(&v["start_time_seconds_past_midnight"])), int(94, i(&v["end_time_seconds_past_midnight"])),
                int(95, i(&v["interval_in_seconds"])), int(73, a(&v["hours"]).len() as i64),
            ]);
            o.extend(a(&v["hours"]).iter().map(|x| int(290, i(x))));
            o.extend([
                st(340, h(&v["__page_setup_wizard_handle"])), st(341, h(&v["__view_handle"])), st(342, h(&v["__visual_style_handle"])), int(74, i(&v["shade_plot_type"])),
                int(75, i(&v["viewports_per_page"])), int(76, i(&v["viewport_distribution_row_count"])), int(77, i(&v["viewport_distribution_column_count"])),
                dbl(40, f(&v["spacing"])), int(293, b(&v["lock_viewports"])), int(294, b(&v["label_viewports"])), st(343, h(&v["__text_style_handle"])),
            ]);
        }
        "SortentsTable" => {
            o.push(st(100, "AcDbSortentsTable"));
            o.extend(a(&v["__entities_handle"]).iter().map(|x| st(331, h(x))));
            o.extend(a(&v["__sort_items_handle"]).iter().map(|x| st(5, h(x))));
        }
        "TableStyle" => {
            let ver = if v["version"] == "R2010" { 0 } else { return None };
            o.extend([
                st(100, "AcDbTableStyle"), int(280, ver), st(3, t(&v["description"])), int(70, (v["flow_direction"] == "Up") as i64), int(71, i(&v["flags"])),
                dbl(40, f(&v["horizontal_cell_margin"])), dbl(41, f(&v["vertical_cell_margin"])), int(280, b(&v["is_title_suppressed"])), int(281, b(&v["is_column_heading_suppressed"])),
            ]);
            for x in a(&v["cell_styles"]) {
                let col = |k: &str| i(&x[k]["raw_value"]);
                o.extend([
                    st(7, t(&x["name"])), dbl(140, f(&x["text_height"])), int(170, i(&x["cell_alignment"])), int(62, col("text_color")), int(63, col("cell_fill_color")),
                    int(283, b(&x["is_background_color_enabled"])), int(90, i(&x["cell_data_type"])), int(91, i(&x["cell_unit_type"])),
                ]);
                o.extend((1..=6).map(|n| int(273 + n, i(&x[format!("border_lineweight_{}", n)]))));
                o.extend((1..=6).map(|n| int(283 + n, b(&x[format!("is_border_{}_visible", n)]))));
                o.extend((1..=6).map(|n| int(63 + n, col(&format!("border_{}_color", n)))));
            }
        }
        "MLineStyle" => {
            let l = a(&v["elements"]);
            o.extend([
                st(100, "AcDbMlineStyle"), st(2, t(&v["style_name"])), int(70, i(&v["__flags"])), st(3, t(&v["description"])), int(62, i(&v["fill_color"]["raw_value"])),
                dbl(51, f(&v["start_angle"])), dbl(52, f(&v["end_angle"])), int(71, l.len() as i64),
            ]);
            for x in l {
                o.extend([dbl(49, f(&x["offset"])), int(62, i(&x["color"]["raw_value"])), st(6, t(&x["line_type"]))]);
            }
        }
        _ => return None,
    }
    Some(o)
}

/// the same with the freedom other programs take; `v` is changed to what remains of it
pub fn foreign(s: &mut Src, name: &str, v: &mut Value) -> Option<Vec<Pair>> {
    let mut o = vec![];
    match name {
        "AcadProxyObject" => {
            v["object_ids"] = json!([]);
            o.extend([st(100, "AcDbProxyObject"), int(90, i(&v["proxy_object_class_id"])), int(91, i(&v["application_object_class_id"]))]);
            v["binary_object_data"] = json!([]);
            let mut ids = vec![];
            for c in [330, 340, 350, 360] {
                for _ in 0..s.size(3) {
                    let x = format!("{:X}", s.below(100_000));
                    o.push(st(c, x.clone()));
                    ids.push(x);
                }
            }
            v["object_ids"] = json!(ids);
            v["size_in_bits"] = json!(0);
            v["__object_drawing_format"] = json!(0);
            o.push(int(70, b(&v["is_original_object_format"])));
        }
        "VbaProject" => {
            let n = s.size(40);
            let bytes: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            o.extend([st(100, "AcDbVbaProject"), int(90, n as i64)]);
            let k = 1 + s.us(20);
            o.extend(bytes.chunks(k).map(|x| Pair { c: 310, v: Val::X(x.to_vec()) }));
            v["data"] = json!(bytes);
        }
        "XRecordObject" => {
            let marker = s.flip();
            let handling = s.flip();
            if marker {
                o.push(st(100, "AcDbXrecord"));
            }
            if handling {
                o.push(int(280, 1));
                v["duplicate_record_handling"] = json!("KeepExisting");
            } else {
                v["duplicate_record_handling"] = json!("NotApplicable");
            }
            let mut l = vec![];
            for k in 0..1 + s.below(5) {
                // what follows the first pair can be anything; the first one must not look like a pair of the object itself
                let (p, x) = match s.below(if k == 0 { 4 } else { 8 }) {
                    0 => (st(1, "text"), json!({"Str": "text"})),
                    1 => (dbl(40, 1.5), json!({"Double": 1.5})),
                    2 => (int(90, 70_000), json!({"Integer": 70_000})),
                    3 => (int(70, 7), json!({"Short": 7})),
                    4 => (st(330, "1F"), json!({"Str": "1F"})),
                    5 => (st(100, "AcDbXrecord"), json!({"Str": "AcDbXrecord"})),
                    6 => (int(280, 3), json!({"Short": 3})),
                    _ => (st(5, "2A"), json!({"Str": "2A"})),
                };
                l.push(json!({"code": p.c, "value": x, "offset": 0}));
                o.push(p);
            }
            v["data_pairs"] = json!(l);
        }
        "LightList" => {
            o = pairs(name, v)?;
            for p in o.iter_mut().filter(|p| p.c == 1) {
                *p = st(1, "name of a light");
            }
        }
        "SortentsTable" => {
            // pairs of an entity and its place
            let n = s.size(5) as u64;
            let l: Vec<(u64, u64)> = (0..n).map(|k| (1 + s.below(1000) + 2000 * k, 1 + s.below(1000))).collect();
            o.push(st(100, "AcDbSortentsTable"));
            for (x, y) in &l {
                o.extend([st(331, format!("{:X}", x)), st(5, format!("{:X}", y))]);
            }
            v["__entities_handle"] = json!(l.iter().map(|x| x.0).collect::<Vec<_>>());
            v["__sort_items_handle"] = json!(l.iter().map(|x| x.1).collect::<Vec<_>>());
        }
        "TableStyle" => {
            v["version"] = json!("R2010");
            o = pairs(name, v)?;
            if s.flip() {
                // files before R2010 have no version
                o.remove(1);
            }
        }
        "DataTable" => {
            o = pairs(name, v)?;
            for p in o.iter_mut().filter(|p| p.c == 331) {
                p.c = *s.pick(&[330, 331, 340, 350, 360]);
            }
        }
        "SectionSettings" => {
            o = pairs(name, v)?;
            if s.flip() {
                // some values are left out
                let drop = *s.pick(&[63, 8, 6, 40, 370, 70, 71, 72, 41, 42, 43]);
                o.retain(|p| p.c != drop);
                for x in v["geometry_settings"].as_array_mut()? {
                    for y in x["geometry_settings"].as_array_mut()? {
                        match drop {
                            63 => y["color"] = json!({"raw_value": 0}),
                            8 => y["layer_name"] = json!(""),
                            6 => y["line_type_name"] = json!(""),
                            40 => y["line_type_scale"] = json!(1.0),
                            370 => y["line_weight"] = json!(0),
                            70 => y["face_transparency"] = json!(0),
                            71 => y["edge_transparency"] = json!(0),
                            72 => y["hatch_pattern_type"] = json!(0),
                            41 => y["hatch_angle"] = json!(0.0),
                            42 => y["hatch_scale"] = json!(1.0),
                            _ => y["hatch_spacing"] = json!(0.0),
                        }
                    }
                }
            }
        }
        _ => o = pairs(name, v)?,
    }
    Some(o)
}
pub const FOREIGN: &[&str] = &["DataTable", "LightList", "SectionSettings", "SunStudy", "SortentsTable", "TableStyle", "MLineStyle", "AcadProxyObject", "VbaProject", "XRecordObject"];

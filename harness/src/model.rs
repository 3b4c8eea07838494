//! The committed reference table: types, fields, group codes, version windows, enum numbers.
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub codes: Vec<i32>,
    pub multi: bool,
    pub ptr: bool,
    pub min: usize,
    pub max: usize,
    pub nodef: bool,
    pub rc: String,
    pub wc: String,
    pub wcond: String,
    pub r: bool,
    pub w: bool,
    pub flags: Vec<(String, i64)>,
    pub var: String,
    pub suppress: bool,
    pub ptype: String,
    pub psub: String,
    pub default: String,
}

#[derive(Clone, Debug)]
pub struct TypeM {
    pub name: String,
    pub types: Vec<String>,
    pub min: usize,
    pub max: usize,
    pub base: String,
    pub fields: Vec<Field>,
    pub collection: String,
}

impl TypeM {
    pub fn field(&self, n: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.name == n)
    }
}

pub struct Model {
    pub entities: BTreeMap<String, TypeM>,
    pub objects: BTreeMap<String, TypeM>,
    pub tables: Vec<TypeM>,
    pub header: Vec<Field>,
    pub enums: BTreeMap<String, Vec<(String, i64)>>,
}

pub const VERSIONS: [&str; 21] = [
    "Version_1_0", "Version_1_2", "Version_1_40", "Version_2_05", "Version_2_10", "Version_2_21", "Version_2_22",
    "Version_2_5", "Version_2_6", "R9", "R10", "R11", "R12", "R13", "R14", "R2000", "R2004", "R2007", "R2010",
    "R2013", "R2018",
];
pub const R9: usize = 9;
pub const R10: usize = 10;
pub const R11: usize = 11;
pub const R12: usize = 12;
pub const R13: usize = 13;
pub const R14: usize = 14;
pub const R2000: usize = 15;
pub const R2004: usize = 16;
pub const R2007: usize = 17;
pub const R2010: usize = 18;
pub const R2013: usize = 19;
pub const R2018: usize = 20;

/// text written for $ACADVER
pub const ACADVER: [&str; 21] = [
    "MC0.0", "AC1.2", "AC1.40", "AC1.50", "AC2.10", "AC2.21", "AC2.22", "AC1002", "AC1003", "AC1004", "AC1006",
    "AC1009", "AC1009", "AC1012", "AC1014", "AC1015", "AC1018", "AC1021", "AC1024", "AC1027", "AC1032",
];

pub fn ver_idx(s: &str) -> usize {
    VERSIONS.iter().position(|v| *v == s).unwrap_or_else(|| panic!("version {}", s))
}

fn s(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}

fn field(v: &Value) -> Field {
    let codes = if v["codes"].is_array() {
        v["codes"].as_array().unwrap().iter().map(|c| c.as_i64().unwrap() as i32).collect()
    } else {
        let c = v["code"].as_i64().unwrap() as i32;
        match c {
            -1 => vec![10],
            -2 => vec![10, 20],
            -3 => vec![10, 20, 30],
            c => vec![c],
        }
    };
    let mn = s(v, "min");
    let mx = s(v, "max");
    Field {
        name: s(v, "name"),
        ty: s(v, "type"),
        codes,
        multi: v["multi"] == true,
        ptr: v["ptr"] == true,
        min: if mn.is_empty() { 0 } else { ver_idx(&mn) },
        max: if mx.is_empty() { 20 } else { ver_idx(&mx) },
        nodef: v["nodef"] == true,
        rc: s(v, "rc"),
        wc: s(v, "wc"),
        wcond: s(v, "wcond"),
        r: v["r"] != false,
        w: v["w"] != false,
        flags: v["flags"].as_object().map(|o| o.iter().map(|(k, m)| (k.clone(), m.as_i64().unwrap())).collect()).unwrap_or_default(),
        var: s(v, "var"),
        suppress: v["suppress"] == true,
        ptype: s(v, "ptype"),
        psub: s(v, "psub"),
        default: s(v, "default"),
    }
}

fn typ(v: &Value) -> TypeM {
    let mn = s(v, "min");
    let mx = s(v, "max");
    TypeM {
        name: s(v, "name"),
        types: if v["types"].is_array() {
            v["types"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
        } else {
            vec![s(v, "type")]
        },
        min: if mn.is_empty() { 0 } else { ver_idx(&mn) },
        max: if mx.is_empty() { 20 } else { ver_idx(&mx) },
        base: s(v, "base"),
        fields: v["fields"].as_array().unwrap().iter().map(field).collect(),
        collection: s(v, "collection"),
    }
}

pub fn model() -> &'static Model {
    static M: OnceLock<Model> = OnceLock::new();
    M.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../model/model.json")).unwrap();
        let map = |k: &str| v[k].as_array().unwrap().iter().map(typ).map(|t| (t.name.clone(), t)).collect();
        Model {
            entities: map("entities"),
            objects: map("objects"),
            tables: v["tables"].as_array().unwrap().iter().map(typ).collect(),
            header: v["header"].as_array().unwrap().iter().map(field).collect(),
            enums: v["enums"].as_object().unwrap().iter()
                .map(|(k, x)| (k.clone(), x.as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), e[1].as_i64().unwrap())).collect()))
                .collect(),
        }
    })
}

//! References between items as the public API sets and reads them.
use crate::gen::kind;
use crate::machine::{handle_of, World};
use crate::model::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::{Block, Drawing, DrawingItem, DrawingItemMut};
use serde_json::Value;

pub enum Item {
    AppId(AppId),
    Block(Block),
    BlockRecord(BlockRecord),
    DimStyle(DimStyle),
    Entity(Entity),
    Layer(Layer),
    LineType(LineType),
    Object(Object),
    Style(Style),
    Ucs(Ucs),
    View(View),
    ViewPort(ViewPort),
}
impl Item {
    pub fn of(d: &Drawing, n: &str, i: usize) -> Item {
        match n {
            "AppId" => Item::AppId(d.app_ids().nth(i).unwrap().clone()),
            "Block" => Item::Block(d.blocks().nth(i).unwrap().clone()),
            "BlockRecord" => Item::BlockRecord(d.block_records().nth(i).unwrap().clone()),
            "DimStyle" => Item::DimStyle(d.dim_styles().nth(i).unwrap().clone()),
            "Entity" => Item::Entity(d.entities().nth(i).unwrap().clone()),
            "Layer" => Item::Layer(d.layers().nth(i).unwrap().clone()),
            "LineType" => Item::LineType(d.line_types().nth(i).unwrap().clone()),
            "Object" => Item::Object(d.objects().nth(i).unwrap().clone()),
            "Style" => Item::Style(d.styles().nth(i).unwrap().clone()),
            "Ucs" => Item::Ucs(d.ucss().nth(i).unwrap().clone()),
            "View" => Item::View(d.views().nth(i).unwrap().clone()),
            "ViewPort" => Item::ViewPort(d.view_ports().nth(i).unwrap().clone()),
            x => panic!("{}", x),
        }
    }
    pub fn handle(&mut self) -> &mut dxf::Handle {
        match self {
            Item::AppId(x) => &mut x.handle,
            Item::Block(x) => &mut x.handle,
            Item::BlockRecord(x) => &mut x.handle,
            Item::DimStyle(x) => &mut x.handle,
            Item::Entity(x) => &mut x.common.handle,
            Item::Layer(x) => &mut x.handle,
            Item::LineType(x) => &mut x.handle,
            Item::Object(x) => &mut x.common.handle,
            Item::Style(x) => &mut x.handle,
            Item::Ucs(x) => &mut x.handle,
            Item::View(x) => &mut x.handle,
            Item::ViewPort(x) => &mut x.handle,
        }
    }
    pub fn any(&mut self) -> DrawingItemMut<'_> {
        match self {
            Item::AppId(x) => DrawingItemMut::AppId(x),
            Item::Block(x) => DrawingItemMut::Block(x),
            Item::BlockRecord(x) => DrawingItemMut::BlockRecord(x),
            Item::DimStyle(x) => DrawingItemMut::DimStyle(x),
            Item::Entity(x) => DrawingItemMut::Entity(x),
            Item::Layer(x) => DrawingItemMut::Layer(x),
            Item::LineType(x) => DrawingItemMut::LineType(x),
            Item::Object(x) => DrawingItemMut::Object(x),
            Item::Style(x) => DrawingItemMut::Style(x),
            Item::Ucs(x) => DrawingItemMut::Ucs(x),
            Item::View(x) => DrawingItemMut::View(x),
            Item::ViewPort(x) => DrawingItemMut::ViewPort(x),
        }
    }
}
pub fn describe(x: &DrawingItem) -> (String, u64) {
    let k = match x {
        DrawingItem::AppId(_) => "AppId",
        DrawingItem::Block(_) => "Block",
        DrawingItem::BlockRecord(_) => "BlockRecord",
        DrawingItem::DimStyle(_) => "DimStyle",
        DrawingItem::Entity(_) => "Entity",
        DrawingItem::Layer(_) => "Layer",
        DrawingItem::LineType(_) => "LineType",
        DrawingItem::Object(_) => "Object",
        DrawingItem::Style(_) => "Style",
        DrawingItem::Ucs(_) => "Ucs",
        DrawingItem::View(_) => "View",
        DrawingItem::ViewPort(_) => "ViewPort",
    };
    (k.to_string(), x.handle().0)
}
pub fn item_json(x: &DrawingItem) -> Value {
    match x {
        DrawingItem::AppId(v) => serde_json::to_value(v),
        DrawingItem::Block(v) => serde_json::to_value(v),
        DrawingItem::BlockRecord(v) => serde_json::to_value(v),
        DrawingItem::DimStyle(v) => serde_json::to_value(v),
        DrawingItem::Entity(v) => serde_json::to_value(v),
        DrawingItem::Layer(v) => serde_json::to_value(v),
        DrawingItem::LineType(v) => serde_json::to_value(v),
        DrawingItem::Object(v) => serde_json::to_value(v),
        DrawingItem::Style(v) => serde_json::to_value(v),
        DrawingItem::Ucs(v) => serde_json::to_value(v),
        DrawingItem::View(v) => serde_json::to_value(v),
        DrawingItem::ViewPort(v) => serde_json::to_value(v),
    }
    .unwrap()
}
/// change one text of the item; false if the kind has none to change
pub fn set_some_text(x: &mut DrawingItemMut, n: &str) -> bool {
    match x {
        DrawingItemMut::AppId(v) => v.name = n.into(),
        DrawingItemMut::Block(v) => v.description = n.into(),
        DrawingItemMut::BlockRecord(v) => v.name = n.into(),
        DrawingItemMut::DimStyle(v) => v.name = n.into(),
        DrawingItemMut::Entity(v) => v.common.layer = n.into(),
        DrawingItemMut::Layer(v) => v.name = n.into(),
        DrawingItemMut::LineType(v) => v.name = n.into(),
        DrawingItemMut::Object(_) => return false,
        DrawingItemMut::Style(v) => v.name = n.into(),
        DrawingItemMut::Ucs(v) => v.name = n.into(),
        DrawingItemMut::View(v) => v.name = n.into(),
        DrawingItemMut::ViewPort(v) => v.name = n.into(),
    }
    true
}

/// what a getter hands out, as (kind, handle)
pub trait Seen {
    fn seen(self) -> Vec<(String, u64)>;
}
impl Seen for Option<DrawingItem<'_>> {
    fn seen(self) -> Vec<(String, u64)> {
        self.iter().map(describe).collect()
    }
}
impl Seen for Vec<DrawingItem<'_>> {
    fn seen(self) -> Vec<(String, u64)> {
        self.iter().map(describe).collect()
    }
}
macro_rules! seen {
    ($($t:ident),*) => { $(
        impl Seen for Option<&$t> {
            fn seen(self) -> Vec<(String, u64)> {
                self.into_iter().map(|x| describe(&DrawingItem::$t(x))).collect()
            }
        }
        impl Seen for Vec<&$t> {
            fn seen(self) -> Vec<(String, u64)> {
                self.into_iter().map(|x| describe(&DrawingItem::$t(x))).collect()
            }
        }
    )* };
}
seen!(Entity, Object, Style, View, ViewPort);

pub trait Accepted {
    fn accepted(self) -> bool;
}
impl Accepted for () {
    fn accepted(self) -> bool {
        true
    }
}
impl Accepted for dxf::DxfResult<()> {
    fn accepted(self) -> bool {
        self.is_ok()
    }
}

pub struct Ref {
    pub name: &'static str,
    pub col: &'static str,
    /// kind of the target: "any" or a collection
    pub target: &'static str,
    /// the only accepted variant, or ""
    pub only: &'static str,
    pub multi: bool,
    pub owner: &'static str,
    pub fits: fn(&Value) -> bool,
    pub set: fn(&mut Drawing, usize, &mut Item) -> bool,
    pub get: fn(&Drawing, usize) -> Vec<(String, u64)>,
}
impl Ref {
    /// first version that stores the reference
    pub fn min(&self, w: &World, carrier: u64) -> usize {
        let kind_min = w[self.col].iter().find(|v| handle_of(self.col, v) == carrier).map(|v| match self.col {
            "Entity" => model().entities[&kind(v)].min,
            "Object" => model().objects[&kind(v)].min,
            _ => 0,
        }).unwrap_or(99);
        let fname = format!("__{}_handle", self.name);
        let field_min = match self.col {
            "Entity" => model().entities[self.owner].fields.iter().filter(|f| f.name.starts_with(&fname)).map(|f| f.min).min(),
            "Object" => model().objects[self.owner].fields.iter().filter(|f| f.name.starts_with(&fname)).map(|f| f.min).min(),
            _ => Some(0),
        };
        kind_min.max(field_min.unwrap_or(99))
    }
}

macro_rules! put {
    (any, $x:expr, $set:ident, $item:expr) => {
        $x.$set(&$item.any()).accepted()
    };
    ($t:ident, $x:expr, $set:ident, $item:expr) => {
        match $item {
            Item::$t(y) => $x.$set(y).accepted(),
            _ => unreachable!(),
        }
    };
}
macro_rules! eref {
    ($v:ident, $get:ident, $set:ident, $t:ident, $only:expr, $multi:expr) => {
        Ref {
            name: stringify!($get),
            col: "Entity",
            target: stringify!($t),
            only: $only,
            multi: $multi,
            owner: stringify!($v),
            fits: |v| kind(v) == stringify!($v),
            set: |d, i, item| match d.entities_mut().nth(i).unwrap().specific {
                EntityType::$v(ref mut x) => put!($t, x, $set, item),
                _ => unreachable!(),
            },
            get: |d, i| match d.entities().nth(i).unwrap().specific {
                EntityType::$v(ref x) => x.$get(d).seen(),
                _ => unreachable!(),
            },
        }
    };
}
macro_rules! oref {
    ($v:ident, $get:ident, $set:ident, $t:ident, $only:expr, $multi:expr) => {
        Ref {
            name: stringify!($get),
            col: "Object",
            target: stringify!($t),
            only: $only,
            multi: $multi,
            owner: stringify!($v),
            fits: |v| kind(v) == stringify!($v),
            set: |d, i, item| match d.objects_mut().nth(i).unwrap().specific {
                ObjectType::$v(ref mut x) => put!($t, x, $set, item),
                _ => unreachable!(),
            },
            get: |d, i| match d.objects().nth(i).unwrap().specific {
                ObjectType::$v(ref x) => x.$get(d).seen(),
                _ => unreachable!(),
            },
        }
    };
}
macro_rules! tref {
    ($col:expr, $it:ident, $itm:ident) => {
        Ref {
            name: "owner",
            col: $col,
            target: "any",
            only: "",
            multi: false,
            owner: $col,
            fits: |_| true,
            set: |d, i, item| {
                let mut x = d.$it().nth(i).unwrap().clone();
                x.set_owner(&mut item.any(), d);
                *d.$itm().nth(i).unwrap() = x;
                true
            },
            get: |d, i| d.$it().nth(i).unwrap().owner(d).seen(),
        }
    };
}
macro_rules! cref {
    ($col:expr, $owner:expr, $it:ident, $itm:ident, $get:ident, $set:ident, $t:ident, $only:expr) => {
        Ref {
            name: stringify!($get),
            col: $col,
            target: stringify!($t),
            only: $only,
            multi: false,
            owner: $owner,
            fits: |_| true,
            set: |d, i, item| {
                let x = &mut d.$itm().nth(i).unwrap().common;
                put!($t, x, $set, item)
            },
            get: |d, i| d.$it().nth(i).unwrap().common.$get(d).seen(),
        }
    };
}

pub fn refs() -> &'static Vec<Ref> {
    static R: std::sync::OnceLock<Vec<Ref>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        vec![
            cref!("Entity", "Entity", entities, entities_mut, owner, set_owner, any, ""),
            cref!("Entity", "Entity", entities, entities_mut, material, set_material, Object, "Material"),
            cref!("Entity", "Entity", entities, entities_mut, plot_style, set_plot_style, any, ""),
            cref!("Object", "Object", objects, objects_mut, owner, set_owner, any, ""),
            tref!("AppId", app_ids, app_ids_mut),
            tref!("Block", blocks, blocks_mut),
            tref!("BlockRecord", block_records, block_records_mut),
            tref!("DimStyle", dim_styles, dim_styles_mut),
            tref!("Layer", layers, layers_mut),
            tref!("LineType", line_types, line_types_mut),
            tref!("Style", styles, styles_mut),
            tref!("Ucs", ucss, ucss_mut),
            tref!("View", views, views_mut),
            tref!("ViewPort", view_ports, view_ports_mut),
            eref!(Solid3D, history_object, set_history_object, any, "", false),
            eref!(AttributeDefinition, secondary_attributes, add_secondary_attributes, any, "", true),
            eref!(MLine, style, set_style, Style, "", false),
            eref!(Section, geometry_settings, set_geometry_settings, any, "", false),
            eref!(DgnUnderlay, object, set_object, Object, "", false),
            eref!(DwfUnderlay, object, set_object, Object, "", false),
            eref!(PdfUnderlay, object, set_object, Object, "", false),
            oref!(DimensionAssoc, dimension, set_dimension, Entity, "", false),
            oref!(DimensionAssoc, main_object, set_main_object, any, "", false),
            oref!(DimensionAssoc, main_object_xref, set_main_object_xref, any, "", false),
            oref!(DimensionAssoc, intersection_object, set_intersection_object, any, "", false),
            oref!(DimensionAssoc, insertion_object_xref, set_insertion_object_xref, any, "", false),
            oref!(Field, child_fields, add_child_fields, Object, "Field", true),
            oref!(Field, objects, add_objects, Object, "", true),
            oref!(Group, entities, add_entities, Entity, "", true),
            oref!(IdBuffer, entities, add_entities, Entity, "", true),
            oref!(LayerIndex, id_buffers, add_id_buffers, any, "", true),
            oref!(Layout, viewport, set_viewport, ViewPort, "", false),
            oref!(Layout, table_record, set_table_record, any, "", false),
            oref!(Layout, table_record_base, set_table_record_base, any, "", false),
            oref!(LightList, lights, add_lights, Entity, "Light", true),
            oref!(MLeaderStyle, line_leader_type, set_line_leader_type, any, "", false),
            oref!(MLeaderStyle, arrowhead, set_arrowhead, any, "", false),
            oref!(MLeaderStyle, m_text_style, set_m_text_style, any, "", false),
            oref!(MLeaderStyle, block_content, set_block_content, any, "", false),
            oref!(PlotSettings, shade_plot_object, set_shade_plot_object, any, "", false),
            oref!(RapidRTRenderEnvironment, custom_background, set_custom_background, any, "", false),
            oref!(SectionManager, section_entities, add_section_entities, Entity, "", true),
            oref!(SectionSettings, source_objects, add_source_objects, Object, "", true),
            oref!(SectionSettings, destination_object, set_destination_object, Object, "", false),
            oref!(SortentsTable, entities, add_entities, Entity, "", true),
            oref!(SortentsTable, sort_items, add_sort_items, any, "", true),
            oref!(SunStudy, page_setup_wizard, set_page_setup_wizard, any, "", false),
            oref!(SunStudy, view, set_view, View, "", false),
            oref!(SunStudy, visual_style, set_visual_style, any, "", false),
            oref!(SunStudy, text_style, set_text_style, any, "", false),
        ]
    })
}

//! Default instances of every public item type, as JSON (external tagging of the enum).
use dxf::entities::EntityType;
use dxf::objects::ObjectType;
use serde_json::{json, Value};

pub const ENTITIES: &[&str] = &[
    "Face3D",
    "Solid3D",
    "ProxyEntity",
    "Arc",
    "ArcAlignedText",
    "AttributeDefinition",
    "Attribute",
    "Body",
    "Circle",
    "RotatedDimension",
    "RadialDimension",
    "DiameterDimension",
    "AngularThreePointDimension",
    "OrdinateDimension",
    "Ellipse",
    "Helix",
    "Image",
    "Insert",
    "Leader",
    "Light",
    "Line",
    "LwPolyline",
    "MLine",
    "MText",
    "OleFrame",
    "Ole2Frame",
    "ModelPoint",
    "Polyline",
    "Ray",
    "Region",
    "RText",
    "Section",
    "Seqend",
    "Shape",
    "Solid",
    "Spline",
    "Text",
    "Tolerance",
    "Trace",
    "DgnUnderlay",
    "DwfUnderlay",
    "PdfUnderlay",
    "Vertex",
    "Wipeout",
    "XLine",
];

pub const OBJECTS: &[&str] = &[
    "AcadProxyObject",
    "DictionaryWithDefault",
    "PlaceHolder",
    "NavisWorksModelDefinition",
    "DataTable",
    "Dictionary",
    "DictionaryVariable",
    "DimensionAssoc",
    "Field",
    "GeoData",
    "Group",
    "IdBuffer",
    "ImageDefinition",
    "ImageDefinitionReactor",
    "LayerFilter",
    "LayerIndex",
    "Layout",
    "LightList",
    "Material",
    "MLeaderStyle",
    "MLineStyle",
    "ObjectPointer",
    "PlotSettings",
    "RapidRTRenderEnvironment",
    "RapidRenderSettings",
    "RasterVariables",
    "MentalRayRenderSettings",
    "RenderEnvironment",
    "RenderGlobal",
    "SectionManager",
    "SectionSettings",
    "SortentsTable",
    "SpatialFilter",
    "SpatialIndex",
    "SunStudy",
    "TableStyle",
    "UnderlayDefinition",
    "VbaProject",
    "VisualStyle",
    "WipeoutVariables",
    "XRecordObject",
];

pub fn default_entity(n: &str) -> Value {
    let e = match n {
        "Face3D" => EntityType::Face3D(Default::default()),
        "Solid3D" => EntityType::Solid3D(Default::default()),
        "ProxyEntity" => EntityType::ProxyEntity(Default::default()),
        "Arc" => EntityType::Arc(Default::default()),
        "ArcAlignedText" => EntityType::ArcAlignedText(Default::default()),
        "AttributeDefinition" => EntityType::AttributeDefinition(Default::default()),
        "Attribute" => EntityType::Attribute(Default::default()),
        "Body" => EntityType::Body(Default::default()),
        "Circle" => EntityType::Circle(Default::default()),
        "RotatedDimension" => EntityType::RotatedDimension(Default::default()),
        "RadialDimension" => EntityType::RadialDimension(Default::default()),
        "DiameterDimension" => EntityType::DiameterDimension(Default::default()),
        "AngularThreePointDimension" => EntityType::AngularThreePointDimension(Default::default()),
        "OrdinateDimension" => EntityType::OrdinateDimension(Default::default()),
        "Ellipse" => EntityType::Ellipse(Default::default()),
        "Helix" => EntityType::Helix(Default::default()),
        "Image" => EntityType::Image(Default::default()),
        "Insert" => EntityType::Insert(Default::default()),
        "Leader" => EntityType::Leader(Default::default()),
        "Light" => EntityType::Light(Default::default()),
        "Line" => EntityType::Line(Default::default()),
        "LwPolyline" => EntityType::LwPolyline(Default::default()),
        "MLine" => EntityType::MLine(Default::default()),
        "MText" => EntityType::MText(Default::default()),
        "OleFrame" => EntityType::OleFrame(Default::default()),
        "Ole2Frame" => EntityType::Ole2Frame(Default::default()),
        "ModelPoint" => EntityType::ModelPoint(Default::default()),
        "Polyline" => EntityType::Polyline(Default::default()),
        "Ray" => EntityType::Ray(Default::default()),
        "Region" => EntityType::Region(Default::default()),
        "RText" => EntityType::RText(Default::default()),
        "Section" => EntityType::Section(Default::default()),
        "Seqend" => EntityType::Seqend(Default::default()),
        "Shape" => EntityType::Shape(Default::default()),
        "Solid" => EntityType::Solid(Default::default()),
        "Spline" => EntityType::Spline(Default::default()),
        "Text" => EntityType::Text(Default::default()),
        "Tolerance" => EntityType::Tolerance(Default::default()),
        "Trace" => EntityType::Trace(Default::default()),
        "DgnUnderlay" => EntityType::DgnUnderlay(Default::default()),
        "DwfUnderlay" => EntityType::DwfUnderlay(Default::default()),
        "PdfUnderlay" => EntityType::PdfUnderlay(Default::default()),
        "Vertex" => EntityType::Vertex(Default::default()),
        "Wipeout" => EntityType::Wipeout(Default::default()),
        "XLine" => EntityType::XLine(Default::default()),
        _ => panic!("unknown entity {}", n),
    };
    serde_json::to_value(&e).unwrap()[n].clone()
}

pub fn default_object(n: &str) -> Value {
    let e = match n {
        "AcadProxyObject" => ObjectType::AcadProxyObject(Default::default()),
        "DictionaryWithDefault" => ObjectType::DictionaryWithDefault(Default::default()),
        "PlaceHolder" => ObjectType::PlaceHolder(Default::default()),
        "NavisWorksModelDefinition" => ObjectType::NavisWorksModelDefinition(Default::default()),
        "DataTable" => ObjectType::DataTable(Default::default()),
        "Dictionary" => ObjectType::Dictionary(Default::default()),
        "DictionaryVariable" => ObjectType::DictionaryVariable(Default::default()),
        "DimensionAssoc" => ObjectType::DimensionAssoc(Default::default()),
        "Field" => ObjectType::Field(Default::default()),
        "GeoData" => ObjectType::GeoData(Default::default()),
        "Group" => ObjectType::Group(Default::default()),
        "IdBuffer" => ObjectType::IdBuffer(Default::default()),
        "ImageDefinition" => ObjectType::ImageDefinition(Default::default()),
        "ImageDefinitionReactor" => ObjectType::ImageDefinitionReactor(Default::default()),
        "LayerFilter" => ObjectType::LayerFilter(Default::default()),
        "LayerIndex" => ObjectType::LayerIndex(Default::default()),
        "Layout" => ObjectType::Layout(Default::default()),
        "LightList" => ObjectType::LightList(Default::default()),
        "Material" => ObjectType::Material(Default::default()),
        "MLeaderStyle" => ObjectType::MLeaderStyle(Default::default()),
        "MLineStyle" => ObjectType::MLineStyle(Default::default()),
        "ObjectPointer" => ObjectType::ObjectPointer(Default::default()),
        "PlotSettings" => ObjectType::PlotSettings(Default::default()),
        "RapidRTRenderEnvironment" => ObjectType::RapidRTRenderEnvironment(Default::default()),
        "RapidRenderSettings" => ObjectType::RapidRenderSettings(Default::default()),
        "RasterVariables" => ObjectType::RasterVariables(Default::default()),
        "MentalRayRenderSettings" => ObjectType::MentalRayRenderSettings(Default::default()),
        "RenderEnvironment" => ObjectType::RenderEnvironment(Default::default()),
        "RenderGlobal" => ObjectType::RenderGlobal(Default::default()),
        "SectionManager" => ObjectType::SectionManager(Default::default()),
        "SectionSettings" => ObjectType::SectionSettings(Default::default()),
        "SortentsTable" => ObjectType::SortentsTable(Default::default()),
        "SpatialFilter" => ObjectType::SpatialFilter(Default::default()),
        "SpatialIndex" => ObjectType::SpatialIndex(Default::default()),
        "SunStudy" => ObjectType::SunStudy(Default::default()),
        "TableStyle" => ObjectType::TableStyle(Default::default()),
        "UnderlayDefinition" => ObjectType::UnderlayDefinition(Default::default()),
        "VbaProject" => ObjectType::VbaProject(Default::default()),
        "VisualStyle" => ObjectType::VisualStyle(Default::default()),
        "WipeoutVariables" => ObjectType::WipeoutVariables(Default::default()),
        "XRecordObject" => ObjectType::XRecordObject(Default::default()),
        _ => panic!("unknown object {}", n),
    };
    serde_json::to_value(&e).unwrap()[n].clone()
}

pub fn default_table(n: &str) -> Value {
    match n {
        "AppId" => serde_json::to_value(dxf::tables::AppId::default()).unwrap(),
        "BlockRecord" => serde_json::to_value(dxf::tables::BlockRecord::default()).unwrap(),
        "DimStyle" => serde_json::to_value(dxf::tables::DimStyle::default()).unwrap(),
        "LineType" => serde_json::to_value(dxf::tables::LineType::default()).unwrap(),
        "Layer" => serde_json::to_value(dxf::tables::Layer::default()).unwrap(),
        "Style" => serde_json::to_value(dxf::tables::Style::default()).unwrap(),
        "Ucs" => serde_json::to_value(dxf::tables::Ucs::default()).unwrap(),
        "View" => serde_json::to_value(dxf::tables::View::default()).unwrap(),
        "ViewPort" => serde_json::to_value(dxf::tables::ViewPort::default()).unwrap(),
        _ => panic!("unknown table {}", n),
    }
}

pub fn default_entity_common() -> Value {
    serde_json::to_value(dxf::entities::EntityCommon::default()).unwrap()
}
pub fn default_object_common() -> Value {
    serde_json::to_value(dxf::objects::ObjectCommon::default()).unwrap()
}
pub fn default_header() -> Value {
    serde_json::to_value(dxf::Header::default()).unwrap()
}
#[allow(dead_code)]
pub fn null() -> Value {
    json!(null)
}

//! Written by tools/mkflags.py: (field, bit, name, getter, setter) of every flag of every type.
use dxf::entities::*;
use dxf::enums::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;

pub struct Flag<T>(pub &'static str, pub i64, pub &'static str, pub fn(&T) -> bool, pub fn(&mut T, bool));

pub const FACE3_D: &[Flag<Face3D>] = &[
    Flag("edge_flags", 1, "is_first_edge_invisible", Face3D::is_first_edge_invisible, Face3D::set_is_first_edge_invisible),
    Flag("edge_flags", 2, "is_second_edge_invisible", Face3D::is_second_edge_invisible, Face3D::set_is_second_edge_invisible),
    Flag("edge_flags", 4, "is_third_edge_invisible", Face3D::is_third_edge_invisible, Face3D::set_is_third_edge_invisible),
    Flag("edge_flags", 8, "is_fourth_edge_invisible", Face3D::is_fourth_edge_invisible, Face3D::set_is_fourth_edge_invisible),
];
pub const ATTRIBUTE_DEFINITION: &[Flag<AttributeDefinition>] = &[
    Flag("text_generation_flags", 2, "is_text_backwards", AttributeDefinition::is_text_backwards, AttributeDefinition::set_is_text_backwards),
    Flag("text_generation_flags", 4, "is_text_upside_down", AttributeDefinition::is_text_upside_down, AttributeDefinition::set_is_text_upside_down),
    Flag("flags", 1, "is_invisible", AttributeDefinition::is_invisible, AttributeDefinition::set_is_invisible),
    Flag("flags", 2, "is_constant", AttributeDefinition::is_constant, AttributeDefinition::set_is_constant),
    Flag("flags", 4, "is_input_verification_required", AttributeDefinition::is_input_verification_required, AttributeDefinition::set_is_input_verification_required),
    Flag("flags", 8, "is_attribute_present", AttributeDefinition::is_attribute_present, AttributeDefinition::set_is_attribute_present),
];
pub const ATTRIBUTE: &[Flag<Attribute>] = &[
    Flag("flags", 1, "is_invisible", Attribute::is_invisible, Attribute::set_is_invisible),
    Flag("flags", 2, "is_constant", Attribute::is_constant, Attribute::set_is_constant),
    Flag("flags", 4, "is_input_verification_required", Attribute::is_input_verification_required, Attribute::set_is_input_verification_required),
    Flag("flags", 8, "is_attribute_present", Attribute::is_attribute_present, Attribute::set_is_attribute_present),
    Flag("text_generation_flags", 2, "is_text_backwards", Attribute::is_text_backwards, Attribute::set_is_text_backwards),
    Flag("text_generation_flags", 4, "is_text_upside_down", Attribute::is_text_upside_down, Attribute::set_is_text_upside_down),
];
pub const IMAGE: &[Flag<Image>] = &[
    Flag("display_options_flags", 1, "show_image", Image::show_image, Image::set_show_image),
    Flag("display_options_flags", 2, "show_image_when_not_alligned", Image::show_image_when_not_alligned, Image::set_show_image_when_not_alligned),
    Flag("display_options_flags", 4, "use_clipping_boundary", Image::use_clipping_boundary, Image::set_use_clipping_boundary),
    Flag("display_options_flags", 8, "use_transparency", Image::use_transparency, Image::set_use_transparency),
];
pub const LW_POLYLINE: &[Flag<LwPolyline>] = &[
    Flag("flags", 1, "is_closed", LwPolyline::is_closed, LwPolyline::set_is_closed),
    Flag("flags", 128, "is_pline_gen", LwPolyline::is_pline_gen, LwPolyline::set_is_pline_gen),
];
pub const MLINE: &[Flag<MLine>] = &[
    Flag("flags", 1, "has_at_least_one_vertex", MLine::has_at_least_one_vertex, MLine::set_has_at_least_one_vertex),
    Flag("flags", 2, "is_closed", MLine::is_closed, MLine::set_is_closed),
    Flag("flags", 4, "suppress_start_caps", MLine::suppress_start_caps, MLine::set_suppress_start_caps),
    Flag("flags", 8, "suppress_end_caps", MLine::suppress_end_caps, MLine::set_suppress_end_caps),
];
pub const POLYLINE: &[Flag<Polyline>] = &[
    Flag("flags", 1, "is_closed", Polyline::is_closed, Polyline::set_is_closed),
    Flag("flags", 2, "curve_fit_vertices_added", Polyline::curve_fit_vertices_added, Polyline::set_curve_fit_vertices_added),
    Flag("flags", 4, "spline_fit_vertices_added", Polyline::spline_fit_vertices_added, Polyline::set_spline_fit_vertices_added),
    Flag("flags", 8, "is_3d_polyline", Polyline::is_3d_polyline, Polyline::set_is_3d_polyline),
    Flag("flags", 16, "is_3d_polygon_mesh", Polyline::is_3d_polygon_mesh, Polyline::set_is_3d_polygon_mesh),
    Flag("flags", 32, "is_polygon_mesh_closed_in_n_direction", Polyline::is_polygon_mesh_closed_in_n_direction, Polyline::set_is_polygon_mesh_closed_in_n_direction),
    Flag("flags", 64, "is_polyface_mesh", Polyline::is_polyface_mesh, Polyline::set_is_polyface_mesh),
    Flag("flags", 128, "is_line_type_pattern_generated_continuously", Polyline::is_line_type_pattern_generated_continuously, Polyline::set_is_line_type_pattern_generated_continuously),
];
pub const RTEXT: &[Flag<RText>] = &[
    Flag("type_flags", 1, "is_expression", RText::is_expression, RText::set_is_expression),
    Flag("type_flags", 2, "is_inline_mtext_sequences_enabled", RText::is_inline_mtext_sequences_enabled, RText::set_is_inline_mtext_sequences_enabled),
];
pub const SPLINE: &[Flag<Spline>] = &[
    Flag("flags", 1, "is_closed", Spline::is_closed, Spline::set_is_closed),
    Flag("flags", 2, "is_periodic", Spline::is_periodic, Spline::set_is_periodic),
    Flag("flags", 4, "is_rational", Spline::is_rational, Spline::set_is_rational),
    Flag("flags", 8, "is_planar", Spline::is_planar, Spline::set_is_planar),
    Flag("flags", 16, "is_linear", Spline::is_linear, Spline::set_is_linear),
];
pub const TEXT: &[Flag<Text>] = &[
    Flag("text_generation_flags", 2, "is_text_backwards", Text::is_text_backwards, Text::set_is_text_backwards),
    Flag("text_generation_flags", 4, "is_text_upside_down", Text::is_text_upside_down, Text::set_is_text_upside_down),
];
pub const DGN_UNDERLAY: &[Flag<DgnUnderlay>] = &[
    Flag("flags", 1, "is_clipping_on", DgnUnderlay::is_clipping_on, DgnUnderlay::set_is_clipping_on),
    Flag("flags", 2, "is_underlay_on", DgnUnderlay::is_underlay_on, DgnUnderlay::set_is_underlay_on),
    Flag("flags", 4, "is_monochrome", DgnUnderlay::is_monochrome, DgnUnderlay::set_is_monochrome),
    Flag("flags", 8, "adjust_for_background", DgnUnderlay::adjust_for_background, DgnUnderlay::set_adjust_for_background),
    Flag("flags", 16, "is_clip_inside_mode", DgnUnderlay::is_clip_inside_mode, DgnUnderlay::set_is_clip_inside_mode),
];
pub const DWF_UNDERLAY: &[Flag<DwfUnderlay>] = &[
    Flag("flags", 1, "is_clipping_on", DwfUnderlay::is_clipping_on, DwfUnderlay::set_is_clipping_on),
    Flag("flags", 2, "is_underlay_on", DwfUnderlay::is_underlay_on, DwfUnderlay::set_is_underlay_on),
    Flag("flags", 4, "is_monochrome", DwfUnderlay::is_monochrome, DwfUnderlay::set_is_monochrome),
    Flag("flags", 8, "adjust_for_background", DwfUnderlay::adjust_for_background, DwfUnderlay::set_adjust_for_background),
    Flag("flags", 16, "is_clip_inside_mode", DwfUnderlay::is_clip_inside_mode, DwfUnderlay::set_is_clip_inside_mode),
];
pub const PDF_UNDERLAY: &[Flag<PdfUnderlay>] = &[
    Flag("flags", 1, "is_clipping_on", PdfUnderlay::is_clipping_on, PdfUnderlay::set_is_clipping_on),
    Flag("flags", 2, "is_underlay_on", PdfUnderlay::is_underlay_on, PdfUnderlay::set_is_underlay_on),
    Flag("flags", 4, "is_monochrome", PdfUnderlay::is_monochrome, PdfUnderlay::set_is_monochrome),
    Flag("flags", 8, "adjust_for_background", PdfUnderlay::adjust_for_background, PdfUnderlay::set_adjust_for_background),
    Flag("flags", 16, "is_clip_inside_mode", PdfUnderlay::is_clip_inside_mode, PdfUnderlay::set_is_clip_inside_mode),
];
pub const VERTEX: &[Flag<Vertex>] = &[
    Flag("flags", 1, "is_extra_created_by_curve_fit", Vertex::is_extra_created_by_curve_fit, Vertex::set_is_extra_created_by_curve_fit),
    Flag("flags", 2, "is_curve_fit_tangent_defined", Vertex::is_curve_fit_tangent_defined, Vertex::set_is_curve_fit_tangent_defined),
    Flag("flags", 8, "is_spline_vertex_created_by_spline_fitting", Vertex::is_spline_vertex_created_by_spline_fitting, Vertex::set_is_spline_vertex_created_by_spline_fitting),
    Flag("flags", 16, "is_spline_frame_control_point", Vertex::is_spline_frame_control_point, Vertex::set_is_spline_frame_control_point),
    Flag("flags", 32, "is_3d_polyline_vertex", Vertex::is_3d_polyline_vertex, Vertex::set_is_3d_polyline_vertex),
    Flag("flags", 64, "is_3d_polygon_mesh", Vertex::is_3d_polygon_mesh, Vertex::set_is_3d_polygon_mesh),
    Flag("flags", 128, "is_polyface_mesh_vertex", Vertex::is_polyface_mesh_vertex, Vertex::set_is_polyface_mesh_vertex),
];
pub const WIPEOUT: &[Flag<Wipeout>] = &[
    Flag("display_options_flags", 1, "show_image", Wipeout::show_image, Wipeout::set_show_image),
    Flag("display_options_flags", 2, "show_image_when_not_alligned", Wipeout::show_image_when_not_alligned, Wipeout::set_show_image_when_not_alligned),
    Flag("display_options_flags", 4, "use_clipping_boundary", Wipeout::use_clipping_boundary, Wipeout::set_use_clipping_boundary),
    Flag("display_options_flags", 8, "use_transparency", Wipeout::use_transparency, Wipeout::set_use_transparency),
];
pub const DIMENSION_ASSOC: &[Flag<DimensionAssoc>] = &[
    Flag("associativity_flags", 1, "is_first_point_reference", DimensionAssoc::is_first_point_reference, DimensionAssoc::set_is_first_point_reference),
    Flag("associativity_flags", 2, "is_second_point_reference", DimensionAssoc::is_second_point_reference, DimensionAssoc::set_is_second_point_reference),
    Flag("associativity_flags", 4, "is_third_point_reference", DimensionAssoc::is_third_point_reference, DimensionAssoc::set_is_third_point_reference),
    Flag("associativity_flags", 8, "is_fourth_point_reference", DimensionAssoc::is_fourth_point_reference, DimensionAssoc::set_is_fourth_point_reference),
];
pub const LAYOUT: &[Flag<Layout>] = &[
    Flag("layout_flags", 1, "is_ps_lt_scale", Layout::is_ps_lt_scale, Layout::set_is_ps_lt_scale),
    Flag("layout_flags", 2, "is_lim_check", Layout::is_lim_check, Layout::set_is_lim_check),
];
pub const MLINE_STYLE: &[Flag<MLineStyle>] = &[
    Flag("__flags", 1, "fill_on", MLineStyle::fill_on, MLineStyle::set_fill_on),
    Flag("__flags", 2, "display_miters", MLineStyle::display_miters, MLineStyle::set_display_miters),
    Flag("__flags", 16, "start_square_end_cap", MLineStyle::start_square_end_cap, MLineStyle::set_start_square_end_cap),
    Flag("__flags", 32, "start_inner_arcs_cap", MLineStyle::start_inner_arcs_cap, MLineStyle::set_start_inner_arcs_cap),
    Flag("__flags", 64, "start_round_cap", MLineStyle::start_round_cap, MLineStyle::set_start_round_cap),
    Flag("__flags", 256, "end_square_cap", MLineStyle::end_square_cap, MLineStyle::set_end_square_cap),
    Flag("__flags", 512, "end_inner_arcs_cap", MLineStyle::end_inner_arcs_cap, MLineStyle::set_end_inner_arcs_cap),
    Flag("__flags", 1024, "end_round_cap", MLineStyle::end_round_cap, MLineStyle::set_end_round_cap),
];
pub const PLOT_SETTINGS: &[Flag<PlotSettings>] = &[
    Flag("plot_layout_flags", 1, "plot_viewport_borders", PlotSettings::plot_viewport_borders, PlotSettings::set_plot_viewport_borders),
    Flag("plot_layout_flags", 2, "show_plot_styles", PlotSettings::show_plot_styles, PlotSettings::set_show_plot_styles),
    Flag("plot_layout_flags", 4, "plot_centered", PlotSettings::plot_centered, PlotSettings::set_plot_centered),
    Flag("plot_layout_flags", 8, "plot_hidden", PlotSettings::plot_hidden, PlotSettings::set_plot_hidden),
    Flag("plot_layout_flags", 16, "use_standard_scale", PlotSettings::use_standard_scale, PlotSettings::set_use_standard_scale),
    Flag("plot_layout_flags", 32, "plot_plot_styles", PlotSettings::plot_plot_styles, PlotSettings::set_plot_plot_styles),
    Flag("plot_layout_flags", 64, "scale_line_weights", PlotSettings::scale_line_weights, PlotSettings::set_scale_line_weights),
    Flag("plot_layout_flags", 128, "print_line_weights", PlotSettings::print_line_weights, PlotSettings::set_print_line_weights),
    Flag("plot_layout_flags", 512, "draw_viewports_first", PlotSettings::draw_viewports_first, PlotSettings::set_draw_viewports_first),
    Flag("plot_layout_flags", 1024, "model_type", PlotSettings::model_type, PlotSettings::set_model_type),
    Flag("plot_layout_flags", 2048, "update_paper", PlotSettings::update_paper, PlotSettings::set_update_paper),
    Flag("plot_layout_flags", 4096, "zoom_to_paper_on_update", PlotSettings::zoom_to_paper_on_update, PlotSettings::set_zoom_to_paper_on_update),
    Flag("plot_layout_flags", 8192, "initializing", PlotSettings::initializing, PlotSettings::set_initializing),
    Flag("plot_layout_flags", 16384, "prev_plot_init", PlotSettings::prev_plot_init, PlotSettings::set_prev_plot_init),
];
pub const HEADER: &[Flag<Header>] = &[
    Flag("object_snap_flags", 1, "end_point_snap", Header::end_point_snap, Header::set_end_point_snap),
    Flag("object_snap_flags", 2, "mid_point_snap", Header::mid_point_snap, Header::set_mid_point_snap),
    Flag("object_snap_flags", 4, "center_snap", Header::center_snap, Header::set_center_snap),
    Flag("object_snap_flags", 8, "node_snap", Header::node_snap, Header::set_node_snap),
    Flag("object_snap_flags", 16, "quadrant_snap", Header::quadrant_snap, Header::set_quadrant_snap),
    Flag("object_snap_flags", 32, "intersection_snap", Header::intersection_snap, Header::set_intersection_snap),
    Flag("object_snap_flags", 64, "insertion_snap", Header::insertion_snap, Header::set_insertion_snap),
    Flag("object_snap_flags", 128, "perpendicular_snap", Header::perpendicular_snap, Header::set_perpendicular_snap),
    Flag("object_snap_flags", 256, "tangent_snap", Header::tangent_snap, Header::set_tangent_snap),
    Flag("object_snap_flags", 512, "nearest_snap", Header::nearest_snap, Header::set_nearest_snap),
    Flag("object_snap_flags", 2048, "apparent_intersection_snap", Header::apparent_intersection_snap, Header::set_apparent_intersection_snap),
    Flag("object_snap_flags", 4096, "extension_snap", Header::extension_snap, Header::set_extension_snap),
    Flag("object_snap_flags", 8192, "parallel_snap", Header::parallel_snap, Header::set_parallel_snap),
    Flag("object_sorting_methods_flags", 1, "sort_objects_for_object_selection", Header::sort_objects_for_object_selection, Header::set_sort_objects_for_object_selection),
    Flag("object_sorting_methods_flags", 2, "sort_objects_for_object_snap", Header::sort_objects_for_object_snap, Header::set_sort_objects_for_object_snap),
    Flag("object_sorting_methods_flags", 4, "sort_objects_for_redraw", Header::sort_objects_for_redraw, Header::set_sort_objects_for_redraw),
    Flag("object_sorting_methods_flags", 8, "sort_objects_for_mslide", Header::sort_objects_for_mslide, Header::set_sort_objects_for_mslide),
    Flag("object_sorting_methods_flags", 16, "sort_objects_for_regen", Header::sort_objects_for_regen, Header::set_sort_objects_for_regen),
    Flag("object_sorting_methods_flags", 32, "sort_objects_for_plotting", Header::sort_objects_for_plotting, Header::set_sort_objects_for_plotting),
    Flag("object_sorting_methods_flags", 64, "sort_objects_for_post_script_output", Header::sort_objects_for_post_script_output, Header::set_sort_objects_for_post_script_output),
    Flag("loft_flags", 1, "no_twist", Header::no_twist, Header::set_no_twist),
    Flag("loft_flags", 2, "align_direction", Header::align_direction, Header::set_align_direction),
    Flag("loft_flags", 4, "simplify", Header::simplify, Header::set_simplify),
    Flag("loft_flags", 8, "close", Header::close, Header::set_close),
];
pub const BLOCK: &[Flag<Block>] = &[
    Flag("flags", 1, "is_anonymous", Block::is_anonymous, Block::set_is_anonymous),
    Flag("flags", 2, "has_non_consistent_attribute_definitions", Block::has_non_consistent_attribute_definitions, Block::set_has_non_consistent_attribute_definitions),
    Flag("flags", 4, "is_xref", Block::is_xref, Block::set_is_xref),
    Flag("flags", 8, "is_xref_overlay", Block::is_xref_overlay, Block::set_is_xref_overlay),
    Flag("flags", 16, "is_externally_dependent", Block::is_externally_dependent, Block::set_is_externally_dependent),
    Flag("flags", 32, "is_referenced_external_reference", Block::is_referenced_external_reference, Block::set_is_referenced_external_reference),
    Flag("flags", 64, "is_resolved_external_reference", Block::is_resolved_external_reference, Block::set_is_resolved_external_reference),
];
pub const CLASS: &[Flag<Class>] = &[
    Flag("proxy_capability_flags", 1, "is_erase_allowed", Class::is_erase_allowed, Class::set_is_erase_allowed),
    Flag("proxy_capability_flags", 2, "is_transform_allowed", Class::is_transform_allowed, Class::set_is_transform_allowed),
    Flag("proxy_capability_flags", 4, "is_color_change_allowed", Class::is_color_change_allowed, Class::set_is_color_change_allowed),
    Flag("proxy_capability_flags", 8, "is_layer_change_allowed", Class::is_layer_change_allowed, Class::set_is_layer_change_allowed),
    Flag("proxy_capability_flags", 16, "is_line_type_change_allowed", Class::is_line_type_change_allowed, Class::set_is_line_type_change_allowed),
    Flag("proxy_capability_flags", 32, "is_line_type_scale_change_allowed", Class::is_line_type_scale_change_allowed, Class::set_is_line_type_scale_change_allowed),
    Flag("proxy_capability_flags", 64, "is_visibility_change_allowed", Class::is_visibility_change_allowed, Class::set_is_visibility_change_allowed),
    Flag("proxy_capability_flags", 128, "is_clone_allowed", Class::is_clone_allowed, Class::set_is_clone_allowed),
    Flag("proxy_capability_flags", 256, "is_lineweight_change_allowed", Class::is_lineweight_change_allowed, Class::set_is_lineweight_change_allowed),
    Flag("proxy_capability_flags", 512, "is_plot_style_name_change_allowed", Class::is_plot_style_name_change_allowed, Class::set_is_plot_style_name_change_allowed),
    Flag("proxy_capability_flags", 32768, "is_R13_format_proxy", Class::is_R13_format_proxy, Class::set_is_R13_format_proxy),
];
pub const VIEW_MODE: &[Flag<ViewMode>] = &[
    Flag("flags", 1, "is_perspective_view_active", |x| x.is_perspective_view_active(), ViewMode::set_is_perspective_view_active),
    Flag("flags", 2, "is_front_clipping_on", |x| x.is_front_clipping_on(), ViewMode::set_is_front_clipping_on),
    Flag("flags", 4, "is_back_clipping_on", |x| x.is_back_clipping_on(), ViewMode::set_is_back_clipping_on),
    Flag("flags", 8, "is_ucs_follow_mode_on", |x| x.is_ucs_follow_mode_on(), ViewMode::set_is_ucs_follow_mode_on),
    Flag("flags", 16, "is_front_clipping_at_eye", |x| x.is_front_clipping_at_eye(), ViewMode::set_is_front_clipping_at_eye),
];

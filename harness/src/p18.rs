//! Typed dictionary writers: every method adds exactly the documented entry.
//! (The cases are in typed/.)
use crate::typed::*;

crate::harnesses! {
    fn p18_catalog() { structure::catalog(); }
    fn p18_developer_extension() { structure::developer_extension(); }
    fn p18_viewer_preferences() { structure::viewer_preferences(); }
    fn p18_struct_tree_root() { structure::struct_tree_root(); }
    fn p18_struct_element() { structure::struct_element(); }
    fn p18_marked_ref() { structure::marked_ref(); }
    fn p18_object_ref() { structure::object_ref(); }
    fn p18_class_map() { structure::class_map(); }
    fn p18_role_map() { structure::role_map(); }
    fn p18_namespace() { structure::namespace(); }
    fn p18_standard_namespaces() { structure::standard_namespaces(); }
    fn p18_namespace_role_map() { structure::namespace_role_map(); }
    fn p18_mark_info() { structure::mark_info(); }
    fn p18_page_label() { structure::page_label(); }
    fn p18_document_info() { structure::document_info(); }
    fn p18_pages() { structure::pages(); }
    fn p18_page() { structure::page(); }
    fn p18_outline() { structure::outline(); }
    fn p18_destination() { structure::destination(); }
    fn p18_destinations() { structure::destinations(); }
    fn p18_outline_item() { structure::outline_item(); }
    fn p18_names() { structure::names(); }
    fn p18_metadata() { structure::metadata(); }
    fn p18_trees() { structure::trees(); }
    fn p18_annotation() { annotations::annotation(); }
    fn p18_appearance_characteristics() { annotations::appearance_characteristics(); }
    fn p18_icon_fit() { annotations::icon_fit(); }
    fn p18_appearance() { annotations::appearance(); }
    fn p18_border_style() { annotations::border_style(); }
    fn p18_action() { annotations::action(); }
    fn p18_additional_actions() { annotations::additional_actions(); }
    fn p18_rendition() { annotations::rendition(); }
    fn p18_media_clip() { annotations::media_clip(); }
    fn p18_media_play_params() { annotations::media_play_params(); }
    fn p18_media_permissions() { annotations::media_permissions(); }
    fn p18_transition() { annotations::transition(); }
    fn p18_file_spec() { annotations::file_spec(); }
    fn p18_embedding_params() { annotations::embedding_params(); }
    fn p18_embedded_file() { annotations::embedded_file(); }
    fn p18_form() { forms::form(); }
    fn p18_field() { forms::field(); }
    fn p18_field_annotation() { forms::field_annotation(); }
    fn p18_signature_field_lock() { forms::signature_field_lock(); }
    fn p18_signature_seed_value() { forms::signature_seed_value(); }
    fn p18_certificate_seed_value() { forms::certificate_seed_value(); }
    fn p18_signature_time_stamp() { forms::signature_time_stamp(); }
    fn p18_modification_detection() { forms::modification_detection(); }
    fn p18_attributes() { graphics::attributes(); }
    fn p18_attribute_owners() { graphics::attribute_owners(); }
    fn p18_user_property() { graphics::user_property(); }
    fn p18_layout_attributes() { graphics::layout_attributes(); }
    fn p18_list_attributes() { graphics::list_attributes(); }
    fn p18_field_attributes() { graphics::field_attributes(); }
    fn p18_table_attributes() { graphics::table_attributes(); }
    fn p18_artifact_attributes() { graphics::artifact_attributes(); }
    fn p18_note_attributes() { graphics::note_attributes(); }
    fn p18_image() { graphics::image(); }
    fn p18_form_xobject() { graphics::form_xobject(); }
    fn p18_group() { graphics::group(); }
    fn p18_reference() { graphics::reference(); }
    fn p18_type1_font() { graphics::type1_font(); }
    fn p18_type3_font() { graphics::type3_font(); }
    fn p18_encoding() { graphics::encoding(); }
    fn p18_type0_font() { graphics::type0_font(); }
    fn p18_cid_font() { graphics::cid_font(); }
    fn p18_font_descriptor() { graphics::font_descriptor(); }
    fn p18_font_descriptor_override() { graphics::font_descriptor_override(); }
    fn p18_cmap() { graphics::cmap(); }
    fn p18_sampled_function() { graphics::sampled_function(); }
    fn p18_exponential_function() { graphics::exponential_function(); }
    fn p18_stitching_function() { graphics::stitching_function(); }
    fn p18_post_script_function() { graphics::post_script_function(); }
    fn p18_resources() { graphics::resources(); }
    fn p18_ext_graphics_state() { graphics::ext_graphics_state(); }
    fn p18_soft_mask() { graphics::soft_mask(); }
    fn p18_output_intent() { color::output_intent(); }
    fn p18_separation_info() { color::separation_info(); }
    fn p18_icc_profile() { color::icc_profile(); }
    fn p18_tiling_pattern() { color::tiling_pattern(); }
    fn p18_shading_pattern() { color::shading_pattern(); }
    fn p18_function_shading() { color::function_shading(); }
    fn p18_stream_shading() { color::stream_shading(); }
    fn p18_start_dicts() { starts::dicts(); }
    fn p18_start_others() { starts::others(); }
    fn p18_start_streams() { starts::streams(); }
    fn p18_decode_parms() { starts::decode_parms(); }
    fn p18_quad_points() { starts::quad_points(); }
}

"""Entries, bounds and assumptions per property."""
PROPS = {
    "P01": {
        "entries": ["p01_any_0", "p01_any_1", "p01_any_2", "p01_any_3", ("p01_any_4", {"shards": 8}), "p01_paren_6", "p01_long", "p01_huge"],
        "bounds": "all byte strings of length 0..4 (literal and hexadecimal form as the crate chooses) and all strings of 6 bytes over the alphabet of parentheses, backslash, CR, LF and a letter; runs of 20 to 257 parentheses, carriage returns, spaces or other bytes with an arbitrary byte at an end or in the middle; strings around 2^15 and 2^16 bytes",
    },
    "P02": {
        "entries": ["p02_text_0", "p02_text_1", "p02_text_2", "p02_text_3", "p02_ascii_4", "p02_long", "p02_longer", "p02_mixed", "p02_lang_none", "p02_lang_plain", "p02_lang_region", "p02_lang_two", "p02_lang_three", "p02_lang_many", "p02_lang_empty", "p02_from_lang", "p02_from_lang_unicode"],
        "bounds": "all Unicode texts of up to 3 scalar values and ASCII texts of 4; texts of 10 to 256 and of 1000 characters of four kinds with an arbitrary one among them; language-marked texts of up to three parts with all ASCII language and region codes and of 4 to 130 parts; all ASCII strings of up to 3 bytes and any single non-ASCII character given to the language parser",
    },
    "P03": {
        "entries": ["p03_any_0", "p03_any_1", "p03_any_2", "p03_any_3", "p03_any_4", "p03_key_pretty", "p03_key_compact", "p03_distinct", "p03_long", "p03_longer"],
        "bounds": "all names of length 0..4; as keys of length 0..2 before each of five kinds of value in both modes; all pairs of names of length 2 and 0..2 for distinctness; names of 30 to 65536 bytes with an arbitrary byte among them",
    },
    "P05": {
        "entries": ["p05_prefix", "p05_gaps"],
        "bounds": "none on the fields: all u16 years, u8 fields and i8 offsets, with every prefix of fields set and every single gap",
    },
    "P06": {
        "entries": ["p06_arr1_pretty", "p06_arr1_compact", "p06_arr2_pretty", "p06_arr2_compact", ("p06_arr3_compact", {"shards": 4}),
         "p06_dict1_pretty", "p06_dict1_compact", ("p06_dict2_compact", {"shards": 2}), ("p06_dict2_any", {"tier": "thorough", "shards": 8}),
         "p06_objects_pretty", "p06_objects_compact", "p06_typed_pretty", "p06_typed_compact", "p06_many"],
        "bounds": "sequences of up to 3 values (14 kinds, symbolic contents of at most one byte or two digits) in arrays, up to 2 pairs in dictionaries, 2 indirect objects; arrays and dictionaries of 17, 64 and 256 values with one of any kind among them; both modes",
    },
    "P07": {
        "entries": ["p07_tree2_pretty", "p07_tree2_compact", ("p07_tree3_pretty", {"shards":3}), ("p07_tree3_compact", {"shards":3}), "p07_deep_pretty", "p07_deep_compact",
         "p07_deep_saturated", "p07_endings_pretty", "p07_endings_compact", "p07_typed_pretty", "p07_typed_compact", "p07_counts", "p07_bulk", ("p07_wide", {"shards": 2})],
        "bounds": "all trees of depth 3 with up to two children per node (arrays and dictionaries), chains of 10..13 and 126..131 containers, four ways of ending, three levels of typed writers with up to two items, all histories of three single, nested and bulk insertions of up to three values on five kinds of writer, containers of 127..65536 children; both modes",
    },
    "P08": {
        "entries": ["p08_plain", "p08_entries", "p08_hostile", "p08_sized", "p08_kinds", "p08_filter", "p08_predictor"],
        "bounds": "stream data of 0..5 arbitrary bytes, framing look-alikes of 20 bytes, lengths at the 9/10/11, 99/100/101 and 255/256/257 boundaries and up to 2^24, one extra entry of each of 14 kinds; all filters and predictors, all ten kinds of typed stream",
    },
    "P04": {
        "entries": ["p04_float", "p04_int"],
        "bounds": "none on the value: all 2^32 integers and all finite 32-bit floats, each as a single primitive",
    },
    "P09": {
        "entries": ["p09_none", "p09_one", "p09_one_far", "p09_two", "p09_three", "p09_three_far", "p09_four", "p09_five", "p09_sizes", "p09_sizes_big", "p09_wide", "p09_wider", "p09_huge", "p09_gaps", "p09_runs", "p09_runs_long", "p09_content", "p09_duplicate"],
        "bounds": "all sets and orders of up to 3 identifiers up to 16 and of up to 5 identifiers up to 7, six ways of writing an object for up to two of them, runs of up to 130 used and free identifiers in three orders of writing, single identifiers up to 40 and around 100, 255, 1000 and 65535, three identifiers with gaps of 1, 2, 127..128, 255..257, 300 and 999 between them; offsets across the 2/3, 3/4, 4/5, 5/6, 6/7 and 7/8 digit boundaries; both modes; all sequences of up to 4 identifiers with repetitions",
        "outside": "identifiers above 65536 and, except for 65534..65536 beside one small identifier, above 1355; files above 17 MB",
    },
    "P10": {
        "entries": ["p10_none", "p10_one", "p10_two", "p10_three", "p10_four", "p10_sizes", "p10_sizes_two", "p10_sizes_three", "p10_wide", "p10_huge", "p10_mixed", "p10_mixed_far", "p10_filters", "p10_filter_lists", "p10_content"],
        "bounds": "all sets and orders of up to 2 objects up to identifier 8 and 4 objects up to 6 with the stream's own identifier anywhere among them; file sizes across the one/two, two/three and three/four byte boundaries of the offset field; identifiers across the one/two byte boundary alone and among others in all rotations, and across the two/three byte boundary beside one small identifier; four forms of filter with a symbolic transformation, all lists of up to two filters and those of up to four over two filters; both modes",
        "outside": "offsets that need five or more bytes and identifiers that need four or more",
    },
    "P11": {
        "entries": ["p11_version", "p11_trailer", "p11_ids", "p11_long_ids", "p11_body"],
        "bounds": "none on version and marker (all u8 pairs, all 4-byte markers), repeated settings, all orders of starting catalog and information dictionaries up to twice, file identifiers of up to 3 arbitrary bytes each and of 15..300 bytes, equal or not; both ways to finish",
    },
    "P12": {
        "entries": ["p12_assemble2_pretty", "p12_assemble2_compact", "p12_assemble3", "p12_pdf2_pretty", "p12_pdf2_compact", "p12_pdf3_compact", "p12_refs", "p12_degenerate", "p12_many", "p12_large"],
        "bounds": "all ways of distributing up to 3 objects of symbolic kind and content over chunks, nested and with chosen capacities, both modes, into a chunk and into a file finished either way; 300 objects in chunks of 1, 7, 100 and 299; chunks around 2^16 and of 140000 bytes",
    },
    "P13": {
        "entries": ["p13_strings2_pretty", "p13_strings3_compact", "p13_strings4", ("p13_strings6", {"shards": 2}), "p13_any_string", "p13_any_name", "p13_any_string3", "p13_any_name3", "p13_stream_tail", "p13_lookalikes_pretty", "p13_lookalikes_compact",
         "p13_neighbours_pretty", "p13_neighbours_compact", "p13_streams_pretty", "p13_streams_compact", "p13_mappings", "p13_bare", "p13_sizes", "p13_into", "p13_twice", "p13_long_pretty", "p13_long_compact", "p13_large", "p13_many", "p13_wide"],
        "bounds": "strings of 6 bytes over the alphabet of reference and escape characters, all strings and names of up to 3 bytes, eleven framing look-alikes with a symbolic byte before or after in strings, names, keys and stream data, all pairs of 14 kinds of neighbours of a reference, mappings to all positive 32-bit identifiers for three identifiers; references to all identifiers below 100000 and twelve up to 2^31-1, mapped to each of the twelve; strings, names and streams of 126..5000 bytes of six kinds and of 30000..70000 bytes of three with another one among them, also into a file; 300 objects, up to 300 references in one, nesting up to 40",
    },
    "P14": {
        "entries": ["p14_kinds", "p14_ints", "p14_reals", "p14_many_reals", "p14_lengths", "p14_text", "p14_date", "p14_content", "p14_combine", "p14_large"],
        "bounds": "all 32-bit integers and finite floats in sequences of up to 3, all lengths of names, strings, arrays and dictionaries up to 4 in symbolic combination, text strings of up to 2 characters, combinations of up to 3 chunks and content streams; sizes around 2^7, 2^8, 2^12, 2^13, 2^15 and 2^16 of each kind",
    },
    "P15": {
        "entries": ["p15_single_a", "p15_single_b", "p15_single_c", "p15_reals_a", "p15_reals_b", "p15_reals_c", "p15_pair_pretty_a", "p15_pair_pretty_b", "p15_pair_compact_a", "p15_pair_compact_b", "p15_triple_pretty", "p15_triple_compact", "p15_chained", "p15_large", "p15_real", "p15_int"],
        "bounds": "every operator method alone with symbolic names and strings of up to one byte, lists of up to 3 operands and all enumeration operands; with all real operands the same special number, with each independently any of 0, 1 and 0.5, and with each in turn any finite real; all pairs of a method and one of sixteen representatives, all triples of eight forms; 17..300 operands of list operators and 300 operations; both modes; all integers as operands of a representative operator (numbers as such are P04)",
    },
    "P16": {
        "entries": ["p16_one", "p16_one_text", "p16_one_long", "p16_long", "p16_two", "p16_three", "p16_byte", "p16_blocks", "p16_name", "p16_registry", "p16_ordering", "p16_supplement", "p16_embedded"],
        "bounds": "all one- and two-byte glyph identifiers, all texts of up to 3 scalar values and of 10..300 with an arbitrary one among them, up to 3 symbolic pairs; 0..301 pairs around every multiple of one hundred with a symbolic one among them; header names and strings of up to 2 arbitrary bytes, all supplements, both writing modes",
    },
    "P17": {
        "entries": ["p17_single", "p17_pair", "p17_conditional", "p17_nested", "p17_number", "p17_long", "p17_embedded"],
        "bounds": "every operator alone and next to six representatives, all 32-bit integers and finite floats, conditionals over all lists of up to 2 items, nesting of conditionals up to depth 4; programs and branches of 100..300 operators",
    },
    "P18": {
        "entries": ["p18_catalog", "p18_developer_extension", "p18_viewer_preferences", "p18_struct_tree_root", "p18_struct_element", "p18_marked_ref", "p18_object_ref", "p18_class_map",
         "p18_role_map", "p18_namespace", "p18_standard_namespaces", "p18_namespace_role_map", "p18_mark_info", "p18_page_label", "p18_document_info", "p18_pages",
         "p18_page", "p18_outline", "p18_destination", "p18_destinations", "p18_outline_item", "p18_names", "p18_metadata", "p18_trees", "p18_annotation", "p18_appearance_characteristics",
         "p18_icon_fit", "p18_appearance", "p18_border_style", "p18_action", "p18_additional_actions", "p18_rendition", "p18_media_clip", "p18_media_play_params",
         "p18_media_permissions", "p18_transition", "p18_file_spec", "p18_embedding_params", "p18_embedded_file", "p18_form", "p18_field", "p18_field_annotation",
         "p18_signature_field_lock", "p18_signature_seed_value", "p18_certificate_seed_value", "p18_signature_time_stamp", "p18_modification_detection", "p18_attributes",
         "p18_attribute_owners", "p18_user_property", "p18_layout_attributes", "p18_list_attributes", "p18_field_attributes", "p18_table_attributes", "p18_artifact_attributes",
         "p18_note_attributes", "p18_image", "p18_form_xobject", "p18_group", "p18_reference", "p18_type1_font", "p18_type3_font", "p18_encoding", "p18_type0_font",
         "p18_cid_font", "p18_font_descriptor", "p18_font_descriptor_override", "p18_cmap", "p18_sampled_function", "p18_exponential_function", "p18_stitching_function",
         "p18_post_script_function", "p18_resources", "p18_ext_graphics_state", "p18_soft_mask", "p18_output_intent", "p18_separation_info", "p18_icc_profile",
         "p18_tiling_pattern", "p18_shading_pattern", "p18_function_shading", "p18_stream_shading", "p18_start_dicts", "p18_start_others", "p18_start_streams",
         "p18_decode_parms", "p18_quad_points"],
        "bounds": "every method of every typed writer, alone with symbolic arguments (all 32-bit integers, strings and names of up to one arbitrary byte, texts of one arbitrary printable character or beyond ASCII, object numbers, all values of enumerations and flags, lists of up to three items (all alike or not), of twenty and of 300, nine kinds of reals and all finite ones, lists of reals that are all different, ascending or descending, all equal, any of 0 and 1, or with any one of them any finite real) and in all ordered pairs with fixed arguments; all starting methods of chunks with all object numbers up to 8388607; both modes",
    },
    "P19": {
        "entries": ["p19_structure", "p19_roles", "p19_roles2", "p19_role_names", "p19_headings", "p19_annotations", "p19_forms", "p19_attributes", "p19_fonts", "p19_color", "p19_streams", "p19_content"],
        "bounds": "none: every value of every public enumeration, with all 16-bit heading levels; each is written through the public writer that takes it and read back",
    },
    "P20": {
        "entries": ["p20_annotation", "p20_action", "p20_font", "p20_sig", "p20_field", "p20_seed", "p20_certificate", "p20_outline", "p20_pairs", "p20_key_usage"],
        "bounds": "none on combinations of flags: every flag is an independent symbolic choice; set operations on all pairs of flags; all key usage masks",
    },
    "P21": {
        "entries": ["p21_line_width", "p21_flatness", "p21_outline", "p21_item_count", "p21_icc", "p21_steps", "p21_page_mode", "p21_parms", "p21_reference", "p21_next", "p21_separation", "p21_device_n", "p21_duplicates", "p21_nested_duplicates", "p21_far_duplicates", "p21_chunk_duplicates", "p21_stream_len", "p21_total_primitives", "p21_total_dates", "p21_total_degenerate"],
        "bounds": "all 32-bit integers and all floats but NaN as guarded arguments, all histories of up to 4 calls on separations and 5 on DeviceN colour spaces, all sequences of up to 4 identifiers up to 5 with and without a cross-reference stream and nested chunks, stream lengths around 2^31 and 2^32; for the absence of panics all primitives, dates, and degenerate arguments of representative writers (all other harnesses report any panic as well)",
    },
    "P22": {
        "entries": ["p22_upgrade", "p22_downgrade", "p22_downgrade_heading", "p22_options", "p22_types_1", "p22_types_2", "p22_role_map"],
        "bounds": "none: all roles of both vocabularies, all 16-bit heading levels, all combinations of options",
    },
    "P23": {
        "entries": ["p23_identity", "p23_next", "p23_bump", "p23_long", "p23_order", "p23_sort", "p23_hash", "p23_sets", "p23_written", "p23_allocated"],
        "bounds": "all 32-bit identifiers (in files: up to seven digits and the largest), all pairs, three references in sorting; all histories of up to 6 allocations, copies and looks ahead from any start; 300 allocations from any start",
    },
    "P24": {
        "entries": ["p24_plain", "p24_large", "p24_cie", "p24_cie_matrix", "p24_cie_any", "p24_preset_rgb", "p24_preset_gray", "p24_separation", "p24_device_n", "p24_attrs", "p24_places", "p24_shading", "p24_mesh", "p24_tiling",
         "p24_tiling_entries", "p24_shading_pattern_entries", "p24_function_shading_entries", "p24_stream_shading_entries"],
        "bounds": "all constructors and all subsets of their optional parameters, each parameter in turn any finite real or all equal, names and strings of up to one arbitrary byte, all 32-bit integers, all combinations of alternates and tint transforms with one of them varied, all subsets of DeviceN attributes in three orders, all seven places for a colour space; 8..300 colourants, table entries and bytes of a name; presets to within a thousandth; both modes",
    },
    "P25": {
        "entries": ["p25_depth4", "p25_depth5", "p25_saves", "p25_deep", "p25_deeper", "p25_finish", "p25_embedded"],
        "bounds": "all sequences of up to 5 operations over save, restore and two others, all sequences of 12 saves and restores, 127..300 and 32768..70000 saves with 1..300, 65536 or 70000 restores behind them, up to 2 operations with one operand of each of 14 kinds before finishing, four capacities, both modes",
    },
}

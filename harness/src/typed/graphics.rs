//! attributes.rs, xobject.rs, font.rs, functions.rs, content.rs (dictionaries)
use super::kit::*;
use crate::{c, typed, typed_stream};

typed!(attributes, Attributes, [];
    |w| { let i = choose(OWNER.len()); w.owner(OWNER[i].0, false); one("O", nm(OWNER[i].1)) };
    |w| { let i = choose(OWNER_2020.len()); w.owner(OWNER_2020[i].0, true); one("O", nm(OWNER_2020[i].1)) };
    |w| {
        let v = any_bool();
        let mut n = w.user();
        n.push().name(TextStr("a")).hidden(v);
        n.push().name(TextStr("b"));
        drop(n);
        let a = |s: &str| one("N", V::Str(s.as_bytes().to_vec()));
        join(one("O", nm("UserProperties")), one("P", V::Arr(vec![V::Dict(join(a("a"), one("H", V::Bool(v)))), V::Dict(a("b"))])))
    };
);
/// Turning an attributes object into that of a particular owner keeps what was
/// there and states the owner.
pub fn attribute_owners() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let v = id();
    let mut a = c.indirect(Ref::new(1)).start::<Attributes>();
    a.pair(Name(b"Aa"), Ref::new(v));
    let mut want = one("Aa", V::Ref(v));
    let o = match choose(7) {
        0 => {
            a.layout().width(F[0]);
            want.extend(one("Width", V::Real(F[0])));
            "Layout"
        }
        1 => {
            a.list().continued_list(true);
            want.extend(one("ContinuedList", V::Bool(true)));
            "List"
        }
        2 => {
            a.field().role(FieldRole::Button);
            want.extend(one("Role", nm("pb")));
            "PrintField"
        }
        3 => {
            a.table().row_span(3);
            want.extend(one("RowSpan", V::Int(3)));
            "Table"
        }
        4 => {
            a.artifact().artifact_type(ArtifactType::Page);
            want.extend(one("Type", nm("Page")));
            "Artifact"
        }
        5 => {
            a.note().note_type(NoteType::Endnote);
            want.extend(one("NoteType", nm("Endnote")));
            "FENote"
        }
        _ => {
            let n = id();
            a.namespace(Ref::new(n)).pair(Name(b"Zz"), 1);
            want.extend(one("NS", V::Ref(n)));
            want.extend(one("Zz", V::Int(1)));
            "NSO"
        }
    };
    want.extend(one("O", nm(o)));
    verify(&c, V::Dict(want), "attributes");
}
typed!(user_property, UserProperty, [];
    c!(name: T "N");
    |w| { let v = of_kind(choose(KINDS)); put(w.value(), &v); one("V", v) };
    c!(format: T "F");
    c!(hidden: B "H");
);
/// Four sides, equal or differing in one place.
fn sides<T: Clone>(a: T, b: T) -> ([T; 4], Option<usize>) {
    let mut v = [a.clone(), a.clone(), a.clone(), a];
    match choose(6) {
        0 => (v, None),
        5 => {
            v[0] = b.clone();
            v[2] = b;
            (v, Some(0))
        }
        k => {
            v[k - 1] = b;
            (v, Some(k - 1))
        }
    }
}
fn borders() -> (V, Sides<LayoutBorderStyle>) {
    let (v, d) = sides(choose(10), 2);
    let [b, a, s, e] = v;
    let x = Sides::new(LAYOUT_BORDER[b].0, LAYOUT_BORDER[a].0, LAYOUT_BORDER[s].0, LAYOUT_BORDER[e].0);
    // the same value everywhere
    let u = d.is_none() || v[0] == 2 && v[1] == 2;
    (if u { nm(LAYOUT_BORDER[b].1) } else { V::Arr(v.iter().map(|i| nm(LAYOUT_BORDER[*i].1)).collect()) }, x)
}
macro_rules! sides {
    ($m:ident $k:literal $a:expr, $b:expr, $to:expr) => { |w| {
        let (v, d) = sides($a, $b);
        let [b, a, s, e] = v.clone();
        match choose(3) {
            0 => w.$m(Sides::new(b, a, s, e)),
            1 => w.$m(Sides::from_array(v.clone())),
            _ => w.$m(Sides { before: b, after: a, start: s, end: e }),
        };
        let to = $to;
        one($k, if d.is_none() { to(&v[0]) } else { V::Arr(v.iter().map(to).collect()) })
    } };
}
typed!(layout_attributes, LayoutAttributes, ["O" nm("Layout")];
    c!(placement: E "Placement" PLACEMENT);
    c!(writing_mode: E "WritingMode" WRITING);
    c!(background_color: FA[3] "BackgroundColor");
    sides!(border_color "BorderColor" [0.25f32, 0.5, 1.0], [0.25f32, 0.5, 0.0], |f: &[f32; 3]| reals(f));
    |w| { let (v, s) = borders(); w.border_style(s); one("BorderStyle", v) };
    sides!(border_thickness "BorderThickness" 0.5f32, -2.0f32, |f: &f32| V::Real(*f));
    sides!(padding "Padding" 0.0f32, 1.0f32, |f: &f32| V::Real(*f));
    |w| { let v = num(); w.padding(Sides::uniform(v)); one("Padding", V::Real(v)) };
    c!(color: FA[3] "Color");
    c!(space_before: F "SpaceBefore");
    c!(space_after: F "SpaceAfter");
    c!(start_indent: F "StartIndent");
    c!(end_indent: F "EndIndent");
    c!(text_indent: F "TextIndent");
    c!(text_align: E "TextAlign" TEXT_ALIGN);
    c!(width: F "Width");
    c!(height: F "Height");
    c!(bbox: RECT "BBox");
    c!(block_align: E "BlockAlign" BLOCK_ALIGN);
    c!(inline_align: E "InlineAlign" INLINE_ALIGN);
    |w| { let (v, s) = borders(); w.table_border_style(s); one("TBorderStyle", v) };
    sides!(table_padding "TPadding" 0.5f32, -2.0f32, |f: &f32| V::Real(*f));
    c!(column_count: I "ColumnCount");
    |w| { let v = num(); w.column_widths().uniform(v); one("ColumnWidths", V::Real(v)) };
    |w| { let v = flist(); w.column_widths().individual().items(v.iter().copied()); one("ColumnWidths", reals(&v)) };
    |w| { let v = num(); w.column_gap().uniform(v); one("ColumnGap", V::Real(v)) };
    |w| { let v = flist(); w.column_gap().individual().items(v.iter().copied()); one("ColumnGap", reals(&v)) };
    |w| { w.line_height(LineHeight::Normal); one("LineHeight", nm("Normal")) };
    |w| { w.line_height(LineHeight::Auto); one("LineHeight", nm("Auto")) };
    |w| { let v = num(); w.line_height(LineHeight::Custom(v)); one("LineHeight", V::Real(v)) };
    c!(baseline_shift: F "BaselineShift");
    c!(text_position: E "TextPosition" LAYOUT_POSITION);
    c!(text_decoration_type: E "TextDecorationType" DECORATION);
    c!(text_decoration_color: FA[3] "TextDecorationColor");
    c!(text_decoration_thickness: F "TextDecorationThickness");
    |w| { w.glyph_orientation_vertical(GlyphOrientationVertical::Auto); one("GlyphOrientationVertical", nm("Auto")) };
    |w| { let v = int(); w.glyph_orientation_vertical(GlyphOrientationVertical::Angle(v)); one("GlyphOrientationVertical", V::Int(v)) };
    c!(ruby_align: E "RubyAlign" RUBY_ALIGN);
    c!(ruby_position: E "RubyPosition" RUBY_POSITION);
);
typed!(list_attributes, ListAttributes, ["O" nm("List")];
    c!(list_numbering: E "ListNumbering" LIST);
    c!(continued_list: B "ContinuedList");
    c!(continued_from: S "ContinuedFrom");
);
typed!(field_attributes, FieldAttributes, ["O" nm("PrintField")];
    c!(role: E "Role" FIELD_ROLE);
    |w| { let i = choose(3); w.checked(FIELD_STATE[i].0, true); one("Checked", nm(FIELD_STATE[i].1)) };
    |w| { let i = choose(3); w.checked(FIELD_STATE[i].0, false); one("checked", nm(FIELD_STATE[i].1)) };
    c!(description: T "Desc");
);
typed!(table_attributes, TableAttributes, ["O" nm("Table")];
    c!(row_span: I "RowSpan");
    c!(col_span: I "ColSpan");
    |w| { let v = bytes(); w.headers().items([Str(&v), Str(b"x")]); one("Headers", V::Arr(vec![V::Str(v), V::Str(b"x".to_vec())])) };
    c!(scope: E "Scope" SCOPE);
    c!(summary: T "Summary");
    c!(short: T "Short");
);
pub const ARTIFACT_SUB: (usize, fn(usize) -> (ArtifactSubtype<'static>, &'static str)) = (7, |i| match i {
    0 => (ArtifactSubtype::Header, "Header"),
    1 => (ArtifactSubtype::Footer, "Footer"),
    2 => (ArtifactSubtype::Watermark, "Watermark"),
    3 => (ArtifactSubtype::PageNumber, "PageNum"),
    4 => (ArtifactSubtype::Bates, "Bates"),
    5 => (ArtifactSubtype::LineNumber, "LineNum"),
    _ => (ArtifactSubtype::Redaction, "Redaction"),
});
typed!(artifact_attributes, ArtifactAttributes, ["O" nm("Artifact")];
    c!(artifact_type: E "Type" ARTIFACT);
    c!(bbox: RECT "BBox");
    c!(subtype: EF "Subtype" ARTIFACT_SUB);
    |w| { let v = bytes(); w.subtype(ArtifactSubtype::Custom(Name(&v))); one("Subtype", V::Name(v)) };
);
typed!(note_attributes, FENoteAttributes, ["O" nm("FENote")];
    c!(note_type: E "NoteType" NOTE);
);

typed_stream!(image, ImageXObject, image_xobject, ["Type" nm("XObject"), "Subtype" nm("Image")];
    c!(width: I "Width");
    c!(height: I "Height");
    |w| { let v = id(); w.color_space().icc_based(Ref::new(v)); one("ColorSpace", V::Arr(vec![nm("ICCBased"), V::Ref(v)])) };
    |w| { w.color_space().device_cmyk(); one("ColorSpace", nm("DeviceCMYK")) };
    c!(color_space_name: N "ColorSpace");
    c!(bits_per_component: I "BitsPerComponent");
    c!(intent: E "Intent" RENDERING);
    c!(image_mask: B "ImageMask");
    c!(color_mask: IL "Mask");
    c!(stencil_mask: R "Mask");
    c!(decode: FL "Decode");
    c!(interpolate: B "Interpolate");
    c!(alternates: RL "Alternates");
    c!(s_mask: R "SMask");
    c!(s_mask_in_data: EI "SMaskInData" SMASK);
    c!(struct_parent: I "StructParent");
    c!(matte: FL "Matte");
    c!(metadata: R "Metadata");
    c!(associated_files: AD "AF" FileSpec);
);
typed_stream!(form_xobject, FormXObject, form_xobject, ["Type" nm("XObject"), "Subtype" nm("Form")];
    c!(bbox: RECT "BBox");
    c!(matrix: FA[6] "Matrix");
    c!(resources: D "Resources" Resources);
    c!(group: D "Group" Group);
    c!(struct_parent: I "StructParent");
    c!(struct_parents: I "StructParents");
    c!(reference: D "Ref" Reference);
    c!(metadata: R "Metadata");
    c!(last_modified: DATE "LastModified");
    c!(associated_files: AD "AF" FileSpec);
);
typed!(group, Group, ["Type" nm("Group")];
    c!(transparency: CONST "S" nm("Transparency"));
    |w| { let v = id(); w.color_space().icc_based(Ref::new(v)); one("CS", V::Arr(vec![nm("ICCBased"), V::Ref(v)])) };
    c!(isolated: B "I");
    c!(knockout: B "K");
);
typed!(reference, Reference, [];
    c!(file_spec: D "F" FileSpec);
    c!(page_number: I "Page");
    c!(page_label: T "Page");
    |w| { let k = choose(2); let (a, b) = (bytes_if(k == 0), bytes_if(k == 1)); w.id([Str(&a), Str(&b)]); one("ID", V::Arr(vec![V::Str(a), V::Str(b)])) };
);

typed!(type1_font, Type1Font, ["Type" nm("Font"), "Subtype" nm("Type1")];
    c!(name: N "Name");
    c!(base_font: N "BaseFont");
    c!(first_char: U8 "FirstChar");
    c!(last_char: U8 "LastChar");
    c!(widths: FL "Widths");
    c!(font_descriptor: R "FontDescriptor");
    c!(encoding_predefined: N "Encoding");
    c!(encoding_custom: D "Encoding" Encoding);
    c!(to_unicode: R "ToUnicode");
);
typed!(type3_font, Type3Font, ["Type" nm("Font"), "Subtype" nm("Type3")];
    c!(name: N "Name");
    c!(bbox: RECT "FontBBox");
    c!(matrix: FA[6] "FontMatrix");
    c!(char_procs: DR "CharProcs");
    c!(encoding_predefined: N "Encoding");
    c!(encoding_custom: D "Encoding" Encoding);
    c!(first_char: U8 "FirstChar");
    c!(last_char: U8 "LastChar");
    c!(widths: FL "Widths");
    c!(font_descriptor: R "FontDescriptor");
    c!(resources: D "Resources" Resources);
    c!(to_unicode: R "ToUnicode");
);
typed!(encoding, Encoding, ["Type" nm("Encoding")];
    c!(base_encoding: N "BaseEncoding");
    |w| {
        let k = choose(3);
        let (a, b) = (u8_if(k == 0), u8_if(k == 1));
        let n = choose(3);
        let x = bytes_if(k == 2);
        let names = [x.clone(), b"yy".to_vec()];
        let mut d = w.differences();
        d.consecutive(a, names[..n].iter().map(|n| Name(n)));
        let mut v = vec![V::Int(a as i32)];
        v.extend(names[..n].iter().map(|n| V::Name(n.clone())));
        if choose(2) == 0 {
            d.consecutive(b, [Name(b"z")]);
            v.extend([V::Int(b as i32), nm("z")]);
        }
        drop(d);
        one("Differences", V::Arr(v))
    };
);
typed!(type0_font, Type0Font, ["Type" nm("Font"), "Subtype" nm("Type0")];
    c!(base_font: N "BaseFont");
    c!(encoding_predefined: N "Encoding");
    c!(encoding_cmap: R "Encoding");
    |w| { let v = id(); w.descendant_font(Ref::new(v)); one("DescendantFonts", V::Arr(vec![V::Ref(v)])) };
    c!(to_unicode: R "ToUnicode");
);
fn info(r: &[u8], o: &[u8], s: i32) -> V {
    V::Dict(join(one("Registry", V::Str(r.to_vec())), join(one("Ordering", V::Str(o.to_vec())), one("Supplement", V::Int(s)))))
}
typed!(cid_font, CidFont, ["Type" nm("Font")];
    c!(subtype: E "Subtype" CID_FONT);
    c!(base_font: N "BaseFont");
    |w| {
        let k = choose(3);
        let (r, o, s) = (bytes_if(k == 0), bytes_if(k == 1), int_if(k == 2));
        w.system_info(SystemInfo { registry: Str(&r), ordering: Str(&o), supplement: s });
        one("CIDSystemInfo", info(&r, &o, s))
    };
    c!(font_descriptor: R "FontDescriptor");
    c!(default_width: F "DW");
    |w| {
        let mut n = w.widths();
        let mut v = vec![];
        for i in 0..choose(3) {
            let a = u16_if(i == 0);
            if choose(2) == 0 {
                let l = if i == 0 { flist() } else { vec![F[2]] };
                n.consecutive(a, l.iter().copied());
                v.extend([V::Int(a as i32), reals(&l)]);
            } else {
                let b = if i == 0 { 7 } else { any_u16() };
                n.same(a, b, F[0]);
                v.extend([V::Int(a as i32), V::Int(b as i32), V::Real(F[0])]);
            }
        }
        drop(n);
        one("W", V::Arr(v))
    };
    c!(cid_to_gid_map_predefined: N "CIDToGIDMap");
    c!(cid_to_gid_map_stream: R "CIDToGIDMap");
);
pub const FONT_FLAGS: &[(FontFlags, u32)] = &[
    (FontFlags::FIXED_PITCH, 1),
    (FontFlags::SERIF, 2),
    (FontFlags::SYMBOLIC, 3),
    (FontFlags::SCRIPT, 4),
    (FontFlags::NON_SYMBOLIC, 6),
    (FontFlags::ITALIC, 7),
    (FontFlags::ALL_CAP, 17),
    (FontFlags::SMALL_CAP, 18),
    (FontFlags::FORCE_BOLD, 19),
];
typed!(font_descriptor, FontDescriptor, ["Type" nm("FontDescriptor")];
    c!(name: N "FontName");
    c!(family: S "FontFamily");
    c!(stretch: E "FontStretch" STRETCH);
    c!(weight: U16 "FontWeight");
    |w| { let i = choose(FONT_FLAGS.len()); w.flags(FontFlags::from_bits_retain(FONT_FLAGS[i].0.bits())); one("Flags", V::Int(1 << (FONT_FLAGS[i].1 - 1))) };
    c!(bbox: RECT "FontBBox");
    c!(italic_angle: F "ItalicAngle");
    c!(ascent: F "Ascent");
    c!(descent: F "Descent");
    c!(leading: F "Leading");
    c!(cap_height: F "CapHeight");
    c!(x_height: F "XHeight");
    c!(stem_v: F "StemV");
    c!(stem_h: F "StemH");
    c!(avg_width: F "AvgWidth");
    c!(max_width: F "MaxWidth");
    c!(missing_width: F "MissingWidth");
    c!(font_file: R "FontFile");
    c!(font_file2: R "FontFile2");
    c!(font_file3: R "FontFile3");
    c!(char_set: S "CharSet");
    |w| {
        let mut p = [0u8, 2, 255, 128, 10, 13, 92, 40, 41, 7];
        p[choose(10)] = any_u8();
        let (a, b) = (5u8, any_u8());
        w.style(a, b, p);
        let mut v = vec![a, b];
        v.extend_from_slice(&p);
        one("Style", V::Dict(one("Panose", V::Str(v))))
    };
    |w| { let v = id(); w.descriptor_override().custom_class_ref(Name(b"Qq"), Ref::new(v)); one("FD", V::Dict(one("Qq", V::Ref(v)))) };
    c!(cid_set: R "CIDSet");
);
typed!(font_descriptor_override, FontDescriptorOverride, [];
    |w| { let v = id(); w.custom_class(Name(b"Qq")).font_file(Ref::new(v)); one("Qq", V::Dict(join(FontDescriptor::mand(), one("FontFile", V::Ref(v))))) };
    |w| { let v = id(); w.custom_class_ref(Name(b"Qq"), Ref::new(v)); one("Qq", V::Ref(v)) };
    |w| { let i = choose(CJK.len()); w.cjk_class(CJK[i].0).weight(4); one(CJK[i].1, V::Dict(join(FontDescriptor::mand(), one("FontWeight", V::Int(4))))) };
    |w| { let i = choose(CJK.len()); let v = id(); w.cjk_class_ref(CJK[i].0, Ref::new(v)); one(CJK[i].1, V::Ref(v)) };
);
typed_stream!(cmap, Cmap, cmap, ["Type" nm("CMap")];
    c!(name: N "CMapName");
    |w| {
        let k = choose(3);
        let (r, o, s) = (bytes_if(k == 0), bytes_if(k == 1), int_if(k == 2));
        w.system_info(SystemInfo { registry: Str(&r), ordering: Str(&o), supplement: s });
        one("CIDSystemInfo", info(&r, &o, s))
    };
    |w| { let i = choose(2); w.writing_mode([WMode::Horizontal, WMode::Vertical][i]); one("WMode", V::Int(i as i32)) };
    c!(use_cmap_stream: R "UseCMap");
    c!(use_cmap_predefined: N "UseCMap");
);

typed_stream!(sampled_function, SampledFunction, sampled_function, ["FunctionType" V::Int(0)];
    c!(domain: FL "Domain");
    c!(range: FL "Range");
    c!(size: IL "Size");
    c!(bits_per_sample: I "BitsPerSample");
    c!(order: EI "Order" INTERPOLATION);
    c!(encode: FL "Encode");
    c!(decode: FL "Decode");
);
typed!(exponential_function, ExponentialFunction, ["FunctionType" V::Int(2)];
    c!(domain: FL "Domain");
    c!(range: FL "Range");
    c!(c0: FL "C0");
    c!(c1: FL "C1");
    c!(n: F "N");
);
typed!(stitching_function, StitchingFunction, ["FunctionType" V::Int(3)];
    c!(domain: FL "Domain");
    c!(range: FL "Range");
    c!(functions: RL "Functions");
    c!(bounds: FL "Bounds");
    c!(encode: FL "Encode");
);
typed_stream!(post_script_function, PostScriptFunction, post_script_function, ["FunctionType" V::Int(4)];
    c!(domain: FL "Domain");
    c!(range: FL "Range");
);

typed!(resources, Resources, [];
    c!(x_objects: DR "XObject");
    c!(fonts: DR "Font");
    c!(color_spaces: DR "ColorSpace");
    c!(patterns: DR "Pattern");
    c!(shadings: DR "Shading");
    c!(ext_g_states: DR "ExtGState");
    |w| {
        let (i, n) = (choose(5), choose(3));
        let v: Vec<usize> = (0..n).map(|k| (i + 2 * k) % 5).collect();
        w.proc_sets(v.iter().map(|k| PROC_SET[*k].0));
        one("ProcSet", V::Arr(v.iter().map(|k| nm(PROC_SET[*k].1)).collect()))
    };
    |w| { w.proc_sets_all(); one("ProcSet", V::Arr(PROC_SET.iter().map(|k| nm(k.1)).collect())) };
    |w| {
        let (a, b) = (int(), id());
        let mut n = w.properties();
        n.insert(Name(b"Q1")).identify(a);
        n.insert(Name(b"Q2")).pair(Name(b"Qq"), Ref::new(b));
        drop(n);
        one("Properties", V::Dict(join(one("Q1", V::Dict(one("MCID", V::Int(a)))), one("Q2", V::Dict(one("Qq", V::Ref(b)))))))
    };
);
typed!(ext_graphics_state, ExtGraphicsState, ["Type" nm("ExtGState")];
    c!(line_width: F "LW");
    c!(line_cap: EI "LC" LINE_CAP);
    c!(line_join: EI "LJ" LINE_JOIN);
    c!(miter_limit: F "ML");
    |w| { let (l, p) = (flist(), num()); w.dash_pattern(l.iter().copied(), p); one("D", V::Arr(vec![reals(&l), V::Real(p)])) };
    c!(rendering_intent: E "RI" RENDERING);
    c!(overprint: B "OP");
    c!(overprint_fill: B "op");
    c!(overprint_mode: EI "OPM" OVERPRINT);
    |w| { let (r, f) = (id(), num()); w.font(Indirect::to(r), f); one("Font", V::Arr(vec![V::Ref(r), V::Real(f)])) };
    c!(black_generation: R "BG");
    c!(black_generation_default: CONST "BG2" nm("Default"));
    c!(undercolor_removal: R "UCR");
    c!(undercolor_removal_default: CONST "UCR2" nm("Default"));
    c!(transfer: R "TR");
    c!(transfer_default: CONST "TR2" nm("Default"));
    c!(halftone: R "HT");
    c!(halftone_default: CONST "HT" nm("Default"));
    c!(flatness: F "FL");
    c!(smoothness: F "SM");
    c!(stroke_adjustment: B "SA");
    c!(blend_mode: E "BM" BLEND);
    c!(soft_mask: D "SMask" SoftMask);
    c!(soft_mask_name: N "SMask");
    c!(stroking_alpha: F "CA");
    c!(non_stroking_alpha: F "ca");
    c!(alpha_source: B "AIS");
    c!(text_knockout: B "TK");
);
typed!(soft_mask, SoftMask, ["Type" nm("Mask")];
    c!(subtype: E "S" MASK);
    c!(group: R "G");
    c!(backdrop: FL "BC");
    c!(transfer_function: R "TR");
);

//! annotations.rs, actions.rs, renditions.rs, transitions.rs, files.rs
use super::kit::*;
use super::structure::dest;
use crate::{c, typed, typed_stream};

typed!(annotation, Annotation, ["Type" nm("Annot")];
    c!(subtype: E "Subtype" ANNOTATION);
    c!(rect: RECT "Rect");
    c!(contents: T "Contents");
    c!(page: R "P");
    c!(name: T "NM");
    c!(modified: DATE "M");
    |w| { let b = any_u16() as u32 & 0x3ff; w.flags(AnnotationFlags::from_bits_truncate(b)); one("F", V::Int(b as i32)) };
    c!(appearance: D "AP" Appearance);
    c!(appearance_state: N "AS");
    |w| { let v = fs::<3>(); w.border(v[0], v[1], v[2], None); one("Border", reals(&v)) };
    |w| {
        let v = flist();
        w.border(F[0], F[1], F[2], Some(&v));
        one("Border", V::Arr(vec![V::Real(F[0]), V::Real(F[1]), V::Real(F[2]), reals(&v)]))
    };
    c!(border_style: D "BS" BorderStyle);
    c!(color_transparent: F0 "C");
    c!(color_gray: F1 "C");
    c!(color_rgb: F3 "C");
    c!(color_cmyk: F4 "C");
    c!(struct_parent: I "StructParent");
    c!(action: D "A" Action);
    c!(additional_actions: D "AA" AdditionalActions);
    c!(highlight: E "H" HIGHLIGHT);
    c!(author: T "T");
    c!(subject: T "Subj");
    c!(quad_points: FL "QuadPoints");
    c!(line_to: F4 "L");
    c!(file_spec: D "FS" FileSpec);
    c!(icon: E "Name" ICON);
    |w| { let v = bytes(); w.icon(AnnotationIcon::Custom(Name(&v))); one("Name", V::Name(v)) };
    c!(appearance_characteristics: D "MK" AppearanceCharacteristics);
    c!(parent: R "Parent");
    c!(associated_files: AD "AF" FileSpec);
);
typed!(appearance_characteristics, AppearanceCharacteristics, [];
    c!(rotate: I "R");
    c!(border_color_transparent: F0 "BC");
    c!(border_color_gray: F1 "BC");
    c!(border_color_rgb: F3 "BC");
    // arguments are cyan, yellow, magenta, black
    |w| { let v = fs::<4>(); w.border_color_cymk(v[0], v[2], v[1], v[3]); one("BC", reals(&v)) };
    c!(background_color_transparent: F0 "BG");
    c!(background_color_gray: F1 "BG");
    c!(background_color_rgb: F3 "BG");
    |w| { let v = fs::<4>(); w.background_color_cymk(v[0], v[2], v[1], v[3]); one("BG", reals(&v)) };
    c!(normal_caption: T "CA");
    c!(rollover_caption: T "RC");
    c!(alternate_caption: T "AC");
    c!(normal_icon: R "I");
    c!(rollover_icon: R "RI");
    c!(alternate_icon: R "IX");
    c!(icon_fit: D "IF" IconFit);
    |w| { let i = choose(TEXT_POSITION.len()); w.text_position(TEXT_POSITION[i].0); one("TP", V::Int(TEXT_POSITION[i].1)) };
);
typed!(icon_fit, IconFit, [];
    c!(scale: E "SW" ICON_SCALE);
    c!(scale_type: E "S" ICON_SCALE_TYPE);
    c!(leftover_space: F2 "A");
    c!(fit_bounds: B "FB");
);
fn entry(w: AppearanceEntry) -> V {
    if choose(2) == 0 {
        let v = id();
        w.stream(Ref::new(v));
        V::Ref(v)
    } else {
        let (a, b) = (id(), id());
        let mut n = w.streams();
        n.pair(Name(b"On"), Ref::new(a));
        n.pair(Name(b"Off"), Ref::new(b));
        V::Dict(join(one("On", V::Ref(a)), one("Off", V::Ref(b))))
    }
}
typed!(appearance, Appearance, [];
    |w| { let v = entry(w.normal()); one("N", v) };
    |w| { let v = entry(w.rollover()); one("R", v) };
    |w| { let v = entry(w.alternate()); one("D", v) };
);
typed!(border_style, BorderStyle, ["Type" nm("Border")];
    c!(width: F "W");
    c!(style: E "S" BORDER);
    c!(dashes: FL "D");
);

typed!(action, Action, ["Type" nm("Action")];
    c!(action_type: E "S" ACTION);
    |w| { let v = dest(w.destination()); one("D", v) };
    c!(destination_named: N "D");
    c!(file_spec: D "F" FileSpec);
    c!(new_window: B "NewWindow");
    c!(uri: S "URI");
    c!(is_map: B "IsMap");
    c!(js_string: T "JS");
    c!(js_stream: R "JS");
    |w| {
        let mut n = w.fields();
        let mut v = vec![];
        for i in 0..choose(3) {
            match choose(4) {
                0 => {
                    let a = if i == 0 { id() } else { 4 };
                    n.id(Ref::new(a));
                    v.push(V::Ref(a));
                }
                1 => {
                    n.ids([Ref::new(3), Ref::new(2)]);
                    v.extend([V::Ref(3), V::Ref(2)]);
                }
                2 => {
                    let (s, t) = txt_if(i == 0);
                    n.name(TextStr(&s));
                    v.push(t);
                }
                _ => {
                    n.names([TextStr("a"), TextStr("b")]);
                    v.extend([V::Str(b"a".to_vec()), V::Str(b"b".to_vec())]);
                }
            }
        }
        drop(n);
        one("Fields", V::Arr(v))
    };
    |w| { let b = any_u16() as u32 & 0x7ff; w.form_flags(FormActionFlags::from_bits_truncate(b)); one("Flags", V::Int(b as i32)) };
    c!(operation: EI "OP" OPERATION);
    c!(annotation: R "AN");
    c!(rendition: D "R" Rendition);
);
typed!(additional_actions, AdditionalActions, [];
    c!(annot_curser_enter: D "E" Action);
    c!(annot_cursor_exit: D "X" Action);
    c!(annot_mouse_press: D "D" Action);
    c!(annot_mouse_release: D "U" Action);
    c!(annot_page_open: D "PO" Action);
    c!(annot_page_close: D "PC" Action);
    c!(annot_page_visible: D "PV" Action);
    c!(annot_page_invisible: D "PI" Action);
    c!(widget_focus: D "Fo" Action);
    c!(widget_focus_loss: D "Bl" Action);
    c!(page_open: D "O" Action);
    c!(page_close: D "C" Action);
    c!(form_calculate_partial: D "K" Action);
    c!(form_format: D "F" Action);
    c!(form_validate: D "V" Action);
    c!(form_calculate: D "C" Action);
    c!(cat_before_close: D "WC" Action);
    c!(cat_before_save: D "WS" Action);
    c!(cat_after_save: D "DS" Action);
    c!(cat_before_print: D "WP" Action);
    c!(cat_after_print: D "DP" Action);
);

typed!(rendition, Rendition, ["Type" nm("Rendition")];
    c!(subtype: E "S" RENDITION);
    c!(name: T "N");
    c!(media_clip: D "C" MediaClip);
    c!(media_play_params: D "P" MediaPlayParams);
);
typed!(media_clip, MediaClip, ["Type" nm("MediaClip")];
    c!(subtype: E "S" CLIP);
    c!(name: T "N");
    c!(data: D "D" FileSpec);
    c!(data_type: S "CT");
    c!(permissions: D "P" MediaPermissions);
    c!(alt_texts: TL "Alt");
);
typed!(media_play_params, MediaPlayParams, ["Type" nm("MediaPlayParams")];
    |w| { let v = any_bool(); w.controls(v); one("BE", V::Dict(one("C", V::Bool(v)))) };
);
pub const TEMP: &[(TempFileType, &str)] = &[
    (TempFileType::Never, "TEMPNEVER"),
    (TempFileType::Extract, "TEMPEXTRACT"),
    (TempFileType::Access, "TEMPACCESS"),
    (TempFileType::Always, "TEMPALWAYS"),
];
typed!(media_permissions, MediaPermissions, ["Type" nm("MediaPermissions")];
    |w| { let i = choose(4); w.temp_file(TEMP[i].0); one("TF", V::Str(TEMP[i].1.as_bytes().to_vec())) };
);

typed!(transition, Transition, ["Type" nm("Trans")];
    c!(style: E "S" TRANSITION);
    c!(duration: F "D");
    |w| { let i = choose(2); w.dimension(i == 0); one("Dm", nm(["V", "H"][i])) };
    |w| { let i = choose(2); w.direction(i == 0); one("M", nm(["O", "I"][i])) };
    |w| {
        use TransitionAngle::*;
        let i = choose(6);
        w.angle([LeftToRight, BottomToTop, RightToLeft, TopToBottom, TopLeftToBottomRight, None][i]);
        one("Di", if i == 5 { nm("None") } else { V::Int([0, 90, 180, 270, 315][i]) })
    };
    c!(scale: F "SS");
    |w| { let v = any_bool(); w.opaque(Flag::flag(v)); one("B", V::Bool(v)) };
);

typed!(file_spec, FileSpec, ["Type" nm("Filespec")];
    c!(file_system: N "FS");
    c!(path: S "F");
    c!(unic_file: T "UF");
    c!(volatile: B "V");
    c!(description: T "Desc");
    |w| { let v = id(); w.embedded_file(Ref::new(v)); one("EF", V::Dict(one("F", V::Ref(v)))) };
    |w| { let v = id(); w.embedded_file_with_unicode(Ref::new(v)); one("EF", V::Dict(join(one("F", V::Ref(v)), one("UF", V::Ref(v))))) };
    c!(association_kind: E "AFRelationship" ASSOCIATION);
);
typed!(embedding_params, EmbeddingParams, [];
    c!(size: I "Size");
    c!(creation_date: DATE "CreationDate");
    c!(modification_date: DATE "ModDate");
    c!(checksum: S "CheckSum");
);
typed_stream!(embedded_file, EmbeddedFile, embedded_file, ["Type" nm("EmbeddedFile")];
    c!(subtype: N "Subtype");
    c!(params: D "Params" EmbeddingParams);
);

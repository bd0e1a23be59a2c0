//! Enumerations: the spelling of each value, and that no two are the same.
use crate::ops;
use crate::typed::graphics::ARTIFACT_SUB;
use crate::typed::kit::*;
use std::num::NonZeroU16;

/// What writing a value gave: the bytes written and whether they read back as
/// the spelling of the standard.
type W = (Vec<u8>, bool);

/// Any two values of an enumeration: each has its spelling, and they have the
/// same only if they are the same.
fn spell(n: usize, w: impl Fn(usize) -> W) {
    let (i, j) = (choose(n), choose(n));
    let (a, b) = (w(i), w(j));
    cover("spelled");
    check(a.1, "the value has its standard spelling");
    check(same(&a.0, &b.0) == (i == j), "different values have different spellings");
}
fn read(c: Chunk, k: &str, v: V) -> W {
    let ok = match one_indirect(c.as_bytes(), 1) {
        Some(o) => o.get(k.as_bytes()).map_or(false, |o| agrees(o, &v)),
        None => false,
    };
    (c.as_bytes().to_vec(), ok)
}
macro_rules! s {
    ($t:ident, $w:ident.$m:ident, $k:literal) => {
        || {
            spell($t.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<$w>().$m($t[i].0);
                read(c, $k, nm($t[i].1))
            })
        }
    };
    ($t:ident, int $w:ident.$m:ident, $k:literal) => {
        || {
            spell($t.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<$w>().$m($t[i].0);
                read(c, $k, V::Int($t[i].1))
            })
        }
    };
    ($t:ident, fun $w:ident.$m:ident, $k:literal) => {
        || {
            spell($t.0, |i| {
                let mut c = Chunk::new();
                let (v, s) = $t.1(i);
                c.indirect(Ref::new(1)).start::<$w>().$m(v);
                read(c, $k, nm(s))
            })
        }
    };
    ($t:ident, stream $w:ident.$m:ident, $k:literal, $f:expr) => {
        || {
            spell($t.len(), |i| {
                let mut c = Chunk::new();
                c.$w(Ref::new(1), b"hi").$m($t[i].0);
                let ok = match tops(c.as_bytes()) {
                    Some(t) if t.len() == 1 => t[0].ob.get($k).map_or(false, |o| agrees(o, &$f($t[i].1))),
                    _ => false,
                };
                (c.as_bytes().to_vec(), ok)
            })
        }
    };
}
fn any_of(f: &[fn()]) {
    f[choose(f.len())]();
}
fn sides(v: LayoutBorderStyle) -> Sides<LayoutBorderStyle> {
    Sides::uniform(v)
}
fn structure() {
    any_of(&[
        s!(PAGE_LAYOUT, Catalog.page_layout, "PageLayout"),
        s!(PAGE_MODE, Catalog.page_mode, "PageMode"),
        s!(NFS_PAGE_MODE, ViewerPreferences.non_full_screen_page_mode, "NonFullScreenPageMode"),
        s!(DIRECTION, ViewerPreferences.direction, "Direction"),
        s!(NUMBERING, PageLabel.style, "S"),
        s!(TRAPPED, DocumentInfo.trapped, "Trapped"),
        s!(TABS, Page.tab_order, "Tabs"),
        s!(PHONETIC, StructElement.phonetic_alphabet, "PhoneticAlphabet"),
    ]);
}
fn roles() {
    s!(ROLES, StructElement.kind, "S")();
}
fn roles2() {
    spell(ROLES2.len(), |i| {
        let mut c = Chunk::new();
        c.struct_element(Ref::new(1)).kind_2(ROLES2[i].0, Ref::new(9));
        read(c, "S", nm(ROLES2[i].1))
    });
}
/// The name a role converts to is the one that is written.
fn role_names() {
    let mut buf = [0; 6];
    if choose(2) == 0 {
        let i = choose(ROLES.len());
        cover("name");
        check(same(ROLES[i].0.to_name().0, ROLES[i].1.as_bytes()), "name of a role");
    } else {
        let i = choose(ROLES2.len());
        cover("name");
        check(same(ROLES2[i].0.to_name(&mut buf).0, ROLES2[i].1.as_bytes()), "name of a role");
    }
}
fn digits(n: u16, k: usize) -> Vec<u8> {
    let mut v = vec![b'H'];
    for i in (0..k).rev() {
        v.push(b'0' + (n / 10u16.pow(i as u32) % 10) as u8);
    }
    v
}
/// Headings of all levels: the letter H and the level.
fn headings() {
    let n = any_u16();
    assume(n > 0);
    let k = 1 + choose(5);
    assume(k == 1 || n >= 10u16.pow(k as u32 - 1));
    assume(k == 5 || n < 10u16.pow(k as u32));
    let mut buf = [0; 6];
    let r = StructRole2::Heading(NonZeroU16::new(n).unwrap());
    cover("heading");
    check(same(r.to_name(&mut buf).0, &digits(n, k)), "name of a heading role");
    let mut c = Chunk::new();
    c.struct_element(Ref::new(1)).kind_2(r, Ref::new(9));
    check(read(c, "S", V::Name(digits(n, k))).1, "heading role in a structure element");
}
fn annotations() {
    any_of(&[
        s!(ANNOTATION, Annotation.subtype, "Subtype"),
        s!(ICON, Annotation.icon, "Name"),
        s!(TEXT_POSITION, int AppearanceCharacteristics.text_position, "TP"),
        s!(ICON_SCALE, IconFit.scale, "SW"),
        s!(ICON_SCALE_TYPE, IconFit.scale_type, "S"),
        s!(HIGHLIGHT, Annotation.highlight, "H"),
        s!(BORDER, BorderStyle.style, "S"),
        s!(ACTION, Action.action_type, "S"),
        s!(OPERATION, int Action.operation, "OP"),
        s!(RENDITION, Rendition.subtype, "S"),
        s!(CLIP, MediaClip.subtype, "S"),
        s!(TRANSITION, Transition.style, "S"),
        s!(ASSOCIATION, FileSpec.association_kind, "AFRelationship"),
        || {
            use crate::typed::annotations::TEMP;
            spell(TEMP.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<MediaPermissions>().temp_file(TEMP[i].0);
                read(c, "TF", V::Str(TEMP[i].1.as_bytes().to_vec()))
            })
        },
        || {
            use TransitionAngle::*;
            spell(6, |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1))
                    .start::<pdf_writer::writers::Transition>()
                    .angle([LeftToRight, BottomToTop, RightToLeft, TopToBottom, TopLeftToBottomRight, None][i]);
                read(c, "Di", if i == 5 { nm("None") } else { V::Int([0, 90, 180, 270, 315][i]) })
            })
        },
    ]);
}
fn forms() {
    any_of(&[
        s!(FIELD, Field.field_type, "FT"),
        s!(CHECK_BOX, fun Field.checkbox_value, "V"),
        s!(QUADDING, int Field.vartext_quadding, "Q"),
        s!(QUADDING, int Form.quadding, "Q"),
        s!(LOCK, SignatureFieldLock.action, "Action"),
        s!(PERMISSIONS, int SignatureFieldLock.access_permissions, "P"),
        s!(SEED_VERSION, int SignatureSeedValue.version, "V"),
        s!(INTENT, SignatureSeedValue.lock_document, "LockDocument"),
        s!(URL, CertificateSeedValue.url_type, "URLType"),
        || {
            spell(DIGEST.len(), |i| {
                let mut c = Chunk::new();
                c.signature_seed_value(Ref::new(1)).digest_method([DIGEST[i].0]);
                read(c, "DigestMethod", V::Arr(vec![nm(DIGEST[i].1)]))
            })
        },
        || {
            spell(4, |i| {
                let mut c = Chunk::new();
                let t = if i == 0 { MdpSignatureType::ApprovalSignature } else { MdpSignatureType::CertificationSignature(PERMISSIONS[i - 1].0) };
                c.indirect(Ref::new(1)).start::<SignatureModificationDetectionPrevention>().signature_type(t);
                read(c, "P", V::Int(i as i32))
            })
        },
    ]);
}
fn attributes() {
    any_of(&[
        s!(PLACEMENT, LayoutAttributes.placement, "Placement"),
        s!(WRITING, LayoutAttributes.writing_mode, "WritingMode"),
        s!(TEXT_ALIGN, LayoutAttributes.text_align, "TextAlign"),
        s!(BLOCK_ALIGN, LayoutAttributes.block_align, "BlockAlign"),
        s!(INLINE_ALIGN, LayoutAttributes.inline_align, "InlineAlign"),
        s!(LAYOUT_POSITION, LayoutAttributes.text_position, "TextPosition"),
        s!(DECORATION, LayoutAttributes.text_decoration_type, "TextDecorationType"),
        s!(RUBY_ALIGN, LayoutAttributes.ruby_align, "RubyAlign"),
        s!(RUBY_POSITION, LayoutAttributes.ruby_position, "RubyPosition"),
        s!(LIST, ListAttributes.list_numbering, "ListNumbering"),
        s!(FIELD_ROLE, FieldAttributes.role, "Role"),
        s!(SCOPE, TableAttributes.scope, "Scope"),
        s!(NOTE, FENoteAttributes.note_type, "NoteType"),
        s!(ARTIFACT, ArtifactAttributes.artifact_type, "Type"),
        s!(ARTIFACT_SUB, fun ArtifactAttributes.subtype, "Subtype"),
        || {
            spell(LAYOUT_BORDER.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<LayoutAttributes>().border_style(sides(LAYOUT_BORDER[i].0));
                read(c, "BorderStyle", nm(LAYOUT_BORDER[i].1))
            })
        },
        || {
            spell(FIELD_STATE.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<FieldAttributes>().checked(FIELD_STATE[i].0, true);
                read(c, "Checked", nm(FIELD_STATE[i].1))
            })
        },
        || {
            let recent = any_bool();
            let t = if split(recent as usize) == 1 { OWNER_2020 } else { OWNER };
            spell(t.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<Attributes>().owner(t[i].0, recent);
                read(c, "O", nm(t[i].1))
            })
        },
    ]);
}
fn fonts() {
    any_of(&[
        s!(CID_FONT, CidFont.subtype, "Subtype"),
        s!(STRETCH, FontDescriptor.stretch, "FontStretch"),
        s!(WMODE, stream cmap.writing_mode, b"WMode", V::Int),
        || {
            spell(CJK.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<FontDescriptorOverride>().cjk_class_ref(CJK[i].0, Ref::new(5));
                read(c, CJK[i].1, V::Ref(5))
            })
        },
    ]);
}
fn color() {
    any_of(&[
        || {
            spell(2, |i| {
                let mut c = Chunk::new();
                let d = if i == 0 { DeviceNSubtype::DeviceN } else { DeviceNSubtype::NChannel };
                c.indirect(Ref::new(1)).start::<DeviceNAttrs>().subtype(d);
                read(c, "Subtype", nm(["DeviceN", "NChannel"][i]))
            })
        },
        s!(OUTPUT_INTENT, OutputIntent.subtype, "S"),
        s!(PAINT, stream tiling_pattern.paint_type, b"PaintType", V::Int),
        s!(TILING, stream tiling_pattern.tiling_type, b"TilingType", V::Int),
        s!(SHADING, int FunctionShading.shading_type, "ShadingType"),
        || {
            use crate::typed::kit::STREAM_SHADING;
            s!(STREAM_SHADING, stream stream_shading.shading_type, b"ShadingType", V::Int)()
        },
        || {
            spell(3, |i| {
                let mut c = Chunk::new();
                let d = [DeviceColorSpace::Rgb, DeviceColorSpace::Cmyk, DeviceColorSpace::Gray][i];
                c.color_space(Ref::new(1)).separation(Name(b"S")).alternate_device(d).tint_ref(Ref::new(5));
                let v = V::Arr(vec![nm("Separation"), nm("S"), nm(["DeviceRGB", "DeviceCMYK", "DeviceGray"][i]), V::Ref(5)]);
                let ok = one_indirect(c.as_bytes(), 1).map_or(false, |o| agrees(&o, &v));
                (c.as_bytes().to_vec(), ok)
            })
        },
    ]);
}
fn streams() {
    use crate::typed::starts::PREDICTOR;
    const FILTERS: &[(Filter, &str)] = &[
        (Filter::AsciiHexDecode, "ASCIIHexDecode"),
        (Filter::Ascii85Decode, "ASCII85Decode"),
        (Filter::LzwDecode, "LZWDecode"),
        (Filter::FlateDecode, "FlateDecode"),
        (Filter::RunLengthDecode, "RunLengthDecode"),
        (Filter::CcittFaxDecode, "CCITTFaxDecode"),
        (Filter::Jbig2Decode, "JBIG2Decode"),
        (Filter::DctDecode, "DCTDecode"),
        (Filter::JpxDecode, "JPXDecode"),
        (Filter::Crypt, "Crypt"),
    ];
    any_of(&[
        s!(FILTERS, stream stream.filter, b"Filter", nm),
        s!(PREDICTOR, int DecodeParms.predictor, "Predictor"),
        s!(SMASK, stream image_xobject.s_mask_in_data, b"SMaskInData", V::Int),
        s!(RENDERING, stream image_xobject.intent, b"Intent", nm),
        s!(INTERPOLATION, stream sampled_function.order, b"Order", V::Int),
    ]);
}
macro_rules! o {
    ($m:ident $op:literal, $($t:ident::$v:ident $s:expr),*) => {
        || {
            let t = [$(($t::$v, $s)),*];
            let (i, j) = (choose(t.len()), choose(t.len()));
            let w = |i: usize| {
                let mut c = Content::new();
                c.$m(t[i].0);
                c.finish().as_slice().to_vec()
            };
            let (a, b) = (w(i), w(j));
            ops::verify(&a, &[ops::Op { op: $op, args: vec![t[i].1.clone()] }]);
            check(same(&a, &b) == (i == j), "different values have different spellings");
        }
    };
}
fn content() {
    any_of(&[
        o!(set_line_cap b"J", LineCapStyle::ButtCap V::Int(0), LineCapStyle::RoundCap V::Int(1), LineCapStyle::ProjectingSquareCap V::Int(2)),
        o!(set_line_join b"j", LineJoinStyle::MiterJoin V::Int(0), LineJoinStyle::RoundJoin V::Int(1), LineJoinStyle::BevelJoin V::Int(2)),
        o!(set_rendering_intent b"ri", RenderingIntent::AbsoluteColorimetric nm("AbsoluteColorimetric"),
            RenderingIntent::RelativeColorimetric nm("RelativeColorimetric"), RenderingIntent::Saturation nm("Saturation"),
            RenderingIntent::Perceptual nm("Perceptual")),
        o!(set_text_rendering_mode b"Tr", TextRenderingMode::Fill V::Int(0), TextRenderingMode::Stroke V::Int(1),
            TextRenderingMode::FillStroke V::Int(2), TextRenderingMode::Invisible V::Int(3), TextRenderingMode::FillClip V::Int(4),
            TextRenderingMode::StrokeClip V::Int(5), TextRenderingMode::FillStrokeClip V::Int(6), TextRenderingMode::Clip V::Int(7)),
        o!(set_fill_color_space b"cs", ColorSpaceOperand::DeviceGray nm("DeviceGray"), ColorSpaceOperand::DeviceRgb nm("DeviceRGB"),
            ColorSpaceOperand::DeviceCmyk nm("DeviceCMYK"), ColorSpaceOperand::Pattern nm("Pattern")),
        o!(set_stroke_color_space b"CS", ColorSpaceOperand::DeviceGray nm("DeviceGray"), ColorSpaceOperand::DeviceRgb nm("DeviceRGB"),
            ColorSpaceOperand::DeviceCmyk nm("DeviceCMYK"), ColorSpaceOperand::Pattern nm("Pattern")),
        s!(BLEND, ExtGraphicsState.blend_mode, "BM"),
        s!(LINE_CAP, int ExtGraphicsState.line_cap, "LC"),
        s!(LINE_JOIN, int ExtGraphicsState.line_join, "LJ"),
        s!(RENDERING, ExtGraphicsState.rendering_intent, "RI"),
        s!(OVERPRINT, int ExtGraphicsState.overprint_mode, "OPM"),
        s!(MASK, SoftMask.subtype, "S"),
        || {
            spell(PROC_SET.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<Resources>().proc_sets([PROC_SET[i].0]);
                read(c, "ProcSet", V::Arr(vec![nm(PROC_SET[i].1)]))
            })
        },
        || {
            use ArtifactAttachment::*;
            spell(4, |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<Artifact>().attached([[Left, Top, Right, Bottom][i]]);
                read(c, "Attached", V::Arr(vec![nm(["Left", "Top", "Right", "Bottom"][i])]))
            })
        },
        || {
            spell(ARTIFACT.len(), |i| {
                let mut c = Chunk::new();
                c.indirect(Ref::new(1)).start::<Artifact>().kind(ARTIFACT[i].0);
                read(c, "Type", nm(ARTIFACT[i].1))
            })
        },
        s!(ARTIFACT_SUB, fun Artifact.subtype, "Subtype"),
    ]);
}
crate::harnesses! {
    fn p19_structure() { structure() }
    fn p19_roles() { roles() }
    fn p19_roles2() { roles2() }
    fn p19_role_names() { role_names() }
    fn p19_headings() { headings() }
    fn p19_annotations() { annotations() }
    fn p19_forms() { forms() }
    fn p19_attributes() { attributes() }
    fn p19_fonts() { fonts() }
    fn p19_color() { color() }
    fn p19_streams() { streams() }
    fn p19_content() { content() }
}

//! Structure roles: conversions between the vocabularies of PDF 1.7 and 2.0,
//! and the classification of roles.
use crate::common::{any_u8, any_u16, choose};
use crate::typed::kit::*;
use std::num::NonZeroU16;

/// Any heading level.
fn level() -> NonZeroU16 {
    let n = any_u16();
    assume(n > 0);
    NonZeroU16::new(n).unwrap()
}
fn heading(n: u16) -> StructRole2 {
    StructRole2::Heading(NonZeroU16::new(n).unwrap())
}
fn heading_1(n: usize) -> StructRole {
    use StructRole::*;
    [H1, H2, H3, H4, H5, H6][n - 1]
}
fn role2(name: &str) -> Option<StructRole2> {
    let mut r = None;
    for (v, n) in ROLES2 {
        if *n == name {
            r = Some(*v);
        }
    }
    r
}
fn role1(name: &str) -> Option<StructRole> {
    let mut r = None;
    for (v, n) in ROLES {
        if *n == name {
            r = Some(*v);
        }
    }
    r
}
/// Any options.
fn opts() -> (RoleMapOpts, bool, bool, bool) {
    let b = any_u8();
    assume(b < 8);
    (RoleMapOpts::from_bits_retain(b), b & 1 != 0, b & 2 != 0, b & 4 != 0)
}

/// PDF 1.7 to 2.0.
fn upgrade() {
    let (r, name) = ROLES[choose(ROLES.len())];
    let want = match name {
        "H1" => Some(heading(1)),
        "H2" => Some(heading(2)),
        "H3" => Some(heading(3)),
        "H4" => Some(heading(4)),
        "H5" => Some(heading(5)),
        "H6" => Some(heading(6)),
        // What the crate takes as the counterparts of roles that were renamed.
        "Quote" => Some(StructRole2::Em),
        "Note" => Some(StructRole2::FENote),
        "Reference" => Some(StructRole2::Link),
        "Code" => Some(StructRole2::Strong),
        // Of the same name, if there is one.
        n => role2(n),
    };
    let got = r.into_pdf_2_0();
    cover("converted");
    check(got == want, "the role of the same meaning in PDF 2.0, if there is one");
    check(StructRole2::try_from(r) == want.ok_or(()), "conversion by trait agrees");
}
fn compat(r: StructRole2, o: RoleMapOpts, want: StructRole, exact: bool) {
    let got = r.compatibility_1_7(o);
    cover("converted");
    check(got.role() == want, "the role in PDF 1.7");
    check((got.into_pdf_1_7() == Some(want)) == exact, "an exact match is reported as one");
    check((got.into_pdf_1_7() == None) == !exact, "nothing else is reported as exact");
    check((got.role_mapped_1_7() == Some(want)) == !exact, "a role that needs a mapping is reported as one");
    check((got.role_mapped_1_7() == None) == exact, "no other role needs a mapping");
    let c = match got {
        StructRole2Compat::Compatible(r) => (r, true),
        StructRole2Compat::RoleMapping(r) => (r, false),
    };
    check(c == (want, exact), "the result says whether it is exact");
}
/// PDF 2.0 to 1.7.
fn downgrade() {
    let (r, name) = ROLES2[choose(ROLES2.len())];
    let (o, _, title, sub) = opts();
    let (want, exact) = match name {
        "Title" => (if title { StructRole::H1 } else { StructRole::P }, false),
        "Sub" => (if sub { StructRole::Span } else { StructRole::Div }, false),
        "DocumentFragment" | "Aside" => (StructRole::Div, false),
        "FENote" => (StructRole::Note, false),
        "Em" | "Strong" => (StructRole::Span, false),
        "Artifact" => (StructRole::Private, false),
        n => match role1(n) {
            Some(r) => (r, true),
            None => return check(false, "known role"),
        },
    };
    compat(r, o, want, exact);
    // The same spelling exactly if the match is exact.
    let mut buf = [0; 6];
    check(same(r.to_name(&mut buf).0, want.to_name().0) == exact, "exact matches have the same name");
    let by_trait = StructRole::try_from(r);
    check(by_trait == if exact { Ok(want) } else { Err(()) }, "conversion by trait gives exact matches");
    check(want.into_pdf_2_0() == Some(r) || !exact, "an exact match converts back");
}
fn downgrade_heading() {
    let n = level();
    let (o, hn, ..) = opts();
    let r = StructRole2::Heading(n);
    if n.get() <= 6 {
        let l = split(n.get() as usize);
        compat(r, o, heading_1(l), true);
        check(StructRole::try_from(r) == Ok(heading_1(l)), "conversion by trait");
        check(heading_1(l).into_pdf_2_0() == Some(r), "heading levels are preserved");
    } else {
        compat(r, o, if hn { StructRole::H6 } else { StructRole::P }, false);
        check(StructRole::try_from(r) == Err(()), "conversion by trait");
    }
}
fn options() {
    cover("default");
    check(RoleMapOpts::default().bits() == 0, "no options by default");
    let all = RoleMapOpts::MAP_HN_TO_H6 | RoleMapOpts::MAP_TITLE_TO_H1 | RoleMapOpts::MAP_SUB_TO_SPAN;
    check(RoleMapOpts::all().bits() == all.bits(), "these are all options");
    // Each option has its own effect only.
    let n = level();
    assume(n.get() > 6);
    let f = |o: RoleMapOpts| {
        (
            StructRole2::Heading(n).compatibility_1_7(RoleMapOpts::from_bits_retain(o.bits())).role() == StructRole::H6,
            StructRole2::Title.compatibility_1_7(RoleMapOpts::from_bits_retain(o.bits())).role() == StructRole::H1,
            StructRole2::Sub.compatibility_1_7(o).role() == StructRole::Span,
        )
    };
    check(f(RoleMapOpts::MAP_HN_TO_H6) == (true, false, false), "option for deep headings");
    check(f(RoleMapOpts::MAP_TITLE_TO_H1) == (false, true, false), "option for titles");
    check(f(RoleMapOpts::MAP_SUB_TO_SPAN) == (false, false, true), "option for subdivisions");
    check(f(RoleMapOpts::all()) == (true, true, true), "all options");
    check(f(RoleMapOpts::default()) == (false, false, false), "no options");
}
fn types_1() {
    use StructRoleType::*;
    let (r, name) = ROLES[choose(ROLES.len())];
    let got = r.role_type();
    cover("classified");
    let want = match name {
        "Document" | "Part" | "Art" | "Sect" | "Div" | "BlockQuote" | "Caption" | "TOC" | "TOCI" | "Index" | "NonStruct"
        | "Private" => Grouping,
        "P" | "H" | "H1" | "H2" | "H3" | "H4" | "H5" | "H6" => BlockLevel(BlockLevelRoleSubtype::ParagraphLike),
        "L" | "LI" | "Lbl" | "LBody" => BlockLevel(BlockLevelRoleSubtype::List),
        "Table" => BlockLevel(BlockLevelRoleSubtype::Table),
        "TR" | "TH" | "TD" | "THead" | "TBody" | "TFoot" => Table,
        "Span" | "Quote" | "Note" | "Reference" | "BibEntry" | "Code" => InlineLevel(InlineLevelRoleSubtype::Generic),
        "Link" => InlineLevel(InlineLevelRoleSubtype::Link),
        "Annot" => InlineLevel(InlineLevelRoleSubtype::Annotation),
        "Ruby" | "Warichu" => {
            // The container of a ruby is an inline element; which kind is open.
            check(matches!(got, InlineLevel(InlineLevelRoleSubtype::Generic | InlineLevelRoleSubtype::RubyWarichu)), "type of the role");
            return;
        }
        "RB" | "RT" | "RP" | "WT" | "WP" => InlineLevel(InlineLevelRoleSubtype::RubyWarichu),
        _ => Illustration,
    };
    check(got == want, "type of the role");
}
fn types_2() {
    use StructRoleType2::*;
    let k = choose(ROLES2.len() + 1);
    let (r, name) = if k < ROLES2.len() { ROLES2[k] } else { (StructRole2::Heading(level()), "Hn") };
    let want = match name {
        "Document" | "DocumentFragment" => Document,
        "Part" | "Sect" | "Div" | "Aside" | "NonStruct" => Grouping,
        "P" | "H" | "Hn" | "Title" | "FENote" => BlockLevel,
        "Sub" => SubBlockLevel,
        "Lbl" | "Span" | "Em" | "Strong" | "Link" | "Annot" | "Form" => InlineLevel(InlineLevelRoleSubtype2::Generic),
        "Ruby" | "RB" | "RT" | "RP" | "Warichu" | "WT" | "WP" => InlineLevel(InlineLevelRoleSubtype2::RubyWarichu),
        "L" | "LI" | "LBody" => List,
        "Table" | "TR" | "TH" | "TD" | "THead" | "TBody" | "TFoot" => Table,
        "Caption" => Caption,
        "Figure" => Figure,
        "Formula" => Formula,
        _ => Artifact,
    };
    cover("classified");
    check(r.role_type() == want, "type of the role");
}
/// The role maps written from a conversion.
fn role_map() {
    let k = choose(ROLES2.len() + 1);
    let (r, name) = if k < ROLES2.len() { ROLES2[k] } else { (StructRole2::Heading(level()), "Hn") };
    let (o, ..) = opts();
    let got = r.compatibility_1_7(o);
    let mut c = Chunk::new();
    let mut m = c.indirect(Ref::new(1)).start::<RoleMap>();
    let mut buf = [0; 6];
    let from = if name == "Hn" { Name(b"Hn") } else { r.to_name(&mut buf) };
    m.insert(from, got.role());
    drop(m);
    cover("written");
    let want = V::Name(got.role().to_name().0.to_vec());
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => check(o.get(from.0).map_or(false, |o| agrees(o, &want)), "the role map has the role"),
        None => check(false, "the role map is well-formed"),
    }
}

crate::harnesses! {
    fn p22_upgrade() { upgrade() }
    fn p22_downgrade() { downgrade() }
    fn p22_downgrade_heading() { downgrade_heading() }
    fn p22_options() { options() }
    fn p22_types_1() { types_1() }
    fn p22_types_2() { types_2() }
    fn p22_role_map() { role_map() }
}

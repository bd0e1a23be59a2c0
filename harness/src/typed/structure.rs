//! structure.rs
use super::kit::*;
use crate::{c, typed};

typed!(catalog, Catalog, ["Type" nm("Catalog")];
    c!(pages: R "Pages");
    c!(page_layout: E "PageLayout" PAGE_LAYOUT);
    c!(page_labels: NT "PageLabels");
    c!(page_mode: E "PageMode" PAGE_MODE);
    c!(viewer_preferences: D "ViewerPreferences" ViewerPreferences);
    c!(names: D "Names" Names);
    c!(destinations: R "Dests");
    c!(outlines: R "Outlines");
    c!(struct_tree_root: D "StructTreeRoot" StructTreeRoot);
    c!(mark_info: D "MarkInfo" MarkInfo);
    c!(lang: T "Lang");
    |w| { let (a, b) = (any_u8() % 10, any_u8() % 10); w.version(a, b); one("Version", V::Name(vec![b'0' + a, b'.', b'0' + b])) };
    c!(additional_actions: D "AA" AdditionalActions);
    c!(form: D "AcroForm" Form);
    c!(metadata: R "Metadata");
    |w| {
        let v = id();
        let mut n = w.extensions();
        n.insert(Name(b"ADBE")).pair(Name(b"Qq"), Ref::new(v));
        drop(n);
        one("Extensions", V::Dict(one("ADBE", V::Dict(join(DeveloperExtension::mand(), one("Qq", V::Ref(v)))))))
    };
    |w| {
        let v = bytes();
        w.separation_info().device_colorant(Name(&v));
        one("SeparationInfo", V::Dict(one("DeviceColorant", V::Name(v))))
    };
    |w| {
        let (a, b) = (id(), id());
        let mut n = w.output_intents();
        n.push().dest_output_profile(Ref::new(a));
        n.push().dest_output_profile(Ref::new(b));
        drop(n);
        let i = |v| V::Dict(join(OutputIntent::mand(), one("DestOutputProfile", V::Ref(v))));
        one("OutputIntents", V::Arr(vec![i(a), i(b)]))
    };
    c!(associated_files: AD "AF" FileSpec);
);
typed!(developer_extension, DeveloperExtension, ["Type" nm("DeveloperExtensions")];
    |w| { let (a, b) = (any_u8() % 10, any_u8() % 10); w.base_version(a, b); one("BaseVersion", V::Name(vec![b'0' + a, b'.', b'0' + b])) };
    c!(extension_level: I "ExtensionLevel");
);
typed!(viewer_preferences, ViewerPreferences, [];
    c!(hide_toolbar: B "HideToolbar");
    c!(hide_menubar: B "HideMenubar");
    c!(fit_window: B "FitWindow");
    c!(center_window: B "CenterWindow");
    c!(display_doc_title: B "DisplayDocTitle");
    c!(non_full_screen_page_mode: E "NonFullScreenPageMode" NFS_PAGE_MODE);
    c!(direction: E "Direction" DIRECTION);
);
typed!(struct_tree_root, StructTreeRoot, ["Type" nm("StructTreeRoot")];
    c!(child: R "K");
    c!(children: AR "K");
    c!(id_tree: NT "IDTree");
    c!(parent_tree: NT "ParentTree");
    c!(parent_tree_next_key: I "ParentTreeNextKey");
    |w| { w.role_map().insert(Name(b"Qq"), StructRole::H1); one("RoleMap", V::Dict(one("Qq", nm("H1")))) };
    |w| { w.class_map().single(Name(b"Qq")).pair(Name(b"O"), 3); one("ClassMap", V::Dict(one("Qq", V::Dict(one("O", V::Int(3)))))) };
    c!(namespaces: AR "Namespaces");
    c!(pronunciation_lexicon: AR "PronunciationLexicon");
    c!(associated_files: AD "AF" FileSpec);
);
fn level(n: u16) -> V {
    let mut v = b"H".to_vec();
    let mut d = vec![];
    let mut x = n;
    loop {
        d.push(b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    d.reverse();
    v.extend(d);
    V::Name(v)
}
/// Any heading level of one or two digits, and the edges.
fn heading() -> (StructRole2, V) {
    let n = match choose(3) {
        0 => {
            let v = any_u8() as u16;
            assume(v > 0 && v < 100);
            v
        }
        1 => 100,
        _ => 65535,
    };
    (StructRole2::Heading(std::num::NonZeroU16::new(n).unwrap()), level(n))
}
typed!(struct_element, StructElement, ["Type" nm("StructElem")];
    c!(kind: E "S" ROLES);
    |w| {
        let i = choose(ROLES2.len());
        let v = id();
        w.kind_2(ROLES2[i].0, Ref::new(v));
        join(one("S", nm(ROLES2[i].1)), one("NS", V::Ref(v)))
    };
    |w| { let (h, n) = heading(); let v = id(); w.kind_2(h, Ref::new(v)); join(one("S", n), one("NS", V::Ref(v))) };
    c!(custom_kind: N "S");
    c!(parent: R "P");
    c!(id: S "ID");
    c!(refs: RL "Ref");
    c!(page: R "Pg");
    c!(child: R "K");
    c!(marked_content_child: D "K" MarkedRef);
    c!(object_child: D "K" ObjectRef);
    |w| {
        let (a, b) = (id(), int());
        let mut n = w.children();
        n.struct_element(Ref::new(a));
        n.marked_content_id(b);
        n.marked_content_ref().marked_content_id(4);
        n.object_ref().object(Ref::new(9));
        n.struct_element(Ref::new(3));
        drop(n);
        one("K", V::Arr(vec![V::Ref(a), V::Int(b), V::Dict(join(MarkedRef::mand(), one("MCID", V::Int(4)))), V::Dict(join(ObjectRef::mand(), one("Obj", V::Ref(9)))), V::Ref(3)]))
    };
    c!(attributes: AD "A" Attributes);
    |w| {
        let a = bytes();
        w.attribute_class().items([Name(&a), Name(b"x")]);
        one("C", V::Arr(vec![V::Name(a), nm("x")]))
    };
    c!(revision: I "R");
    c!(title: T "T");
    c!(lang: T "Lang");
    c!(alt: T "Alt");
    c!(expanded: T "E");
    c!(actual_text: T "ActualText");
    c!(associated_files: AD "AF" FileSpec);
    c!(namespace: R "NS");
    c!(phonetic_alphabet: E "PhoneticAlphabet" PHONETIC);
    |w| { let v = bytes(); w.phonetic_alphabet(PhoneticAlphabet::Custom(Name(&v))); one("PhoneticAlphabet", V::Name(v)) };
    c!(phoneme: T "Phoneme");
);
typed!(marked_ref, MarkedRef, ["Type" nm("MCR")];
    c!(page: R "Pg");
    c!(stream: R "Stm");
    c!(stream_owner: R "StmOwn");
    c!(marked_content_id: I "MCID");
);
typed!(object_ref, ObjectRef, ["Type" nm("OBJR")];
    c!(page: R "Pg");
    c!(object: R "Obj");
);
typed!(class_map, ClassMap, [];
    |w| { w.single(Name(b"Qq")).pair(Name(b"O"), 3); one("Qq", V::Dict(one("O", V::Int(3)))) };
    |w| {
        let mut n = w.multiple(Name(b"Qq"));
        n.push().pair(Name(b"O"), 3);
        n.push().pair(Name(b"O"), 4);
        drop(n);
        one("Qq", V::Arr(vec![V::Dict(one("O", V::Int(3))), V::Dict(one("O", V::Int(4)))]))
    };
);
pub fn role_map() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let mut want = vec![];
    {
        let mut w = c.indirect(Ref::new(1)).start::<RoleMap>();
        for i in 0..choose(3) {
            let k = if i == 0 { choose(ROLES.len()) } else { 7 };
            let key = if i == 0 { any_bytes(1) } else { b"xy".to_vec() };
            w.insert(Name(&key), ROLES[k].0);
            want.push((key, nm(ROLES[k].1)));
        }
    }
    // the key is symbolic: compare in order
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("role map");
            check(agrees(&o, &V::Dict(want)), "role map entries");
        }
        None => check(false, "the object is well-formed"),
    }
}
typed!(namespace, Namespace, ["Type" nm("Namespace")];
    c!(ns: T "NS");
    c!(schema: D "Schema" FileSpec);
    |w| { w.role_map_ns().to_pdf_1_7(Name(b"Qq"), StructRole::Sect); one("RoleMapNS", V::Dict(one("Qq", nm("Sect")))) };
);
pub fn standard_namespaces() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let w = c.namespace(Ref::new(1));
    let u = match choose(3) {
        0 => {
            w.pdf_2_ns();
            "http://iso.org/pdf2/ssn"
        }
        1 => {
            w.pdf_1_7_ns();
            "http://iso.org/pdf/ssn"
        }
        _ => {
            w.mathml_3_0_ns();
            "http://www.w3.org/1998/Math/MathML"
        }
    };
    verify(&c, V::Dict(join(Namespace::mand(), one("NS", V::Str(u.as_bytes().to_vec())))), "namespace");
}
typed!(namespace_role_map, NamespaceRoleMap, [];
    |w| { let i = choose(ROLES.len()); w.to_pdf_1_7(Name(b"Qq"), ROLES[i].0); one("Qq", nm(ROLES[i].1)) };
    |w| { let (a, b) = (bytes(), id()); w.to_namespace(Name(b"Qq"), Name(&a), Ref::new(b)); one("Qq", V::Arr(vec![V::Name(a), V::Ref(b)])) };
    |w| { let i = choose(ROLES2.len()); let b = id(); w.to_pdf_2_0(Name(b"Qq"), ROLES2[i].0, Ref::new(b)); one("Qq", V::Arr(vec![nm(ROLES2[i].1), V::Ref(b)])) };
    |w| { let (h, n) = heading(); let b = id(); w.to_pdf_2_0(Name(b"Qq"), h, Ref::new(b)); one("Qq", V::Arr(vec![n, V::Ref(b)])) };
);
typed!(mark_info, MarkInfo, [];
    c!(marked: B "Marked");
    c!(user_properties: B "UserProperties");
    c!(suspects: B "Suspects");
);
typed!(page_label, PageLabel, ["Type" nm("PageLabel")];
    c!(style: E "S" NUMBERING);
    c!(prefix: T "P");
    c!(offset: I "St");
);
typed!(document_info, DocumentInfo, [];
    c!(title: T "Title");
    c!(author: T "Author");
    c!(subject: T "Subject");
    c!(keywords: T "Keywords");
    c!(creator: T "Creator");
    c!(producer: T "Producer");
    c!(creation_date: DATE "CreationDate");
    c!(modified_date: DATE "ModDate");
    c!(trapped: E "Trapped" TRAPPED);
);
typed!(pages, Pages, ["Type" nm("Pages")];
    c!(parent: R "Parent");
    c!(kids: RL "Kids");
    c!(count: I "Count");
    c!(media_box: RECT "MediaBox");
    c!(resources: D "Resources" Resources);
);
typed!(page, Page, ["Type" nm("Page")];
    c!(parent: R "Parent");
    c!(last_modified: DATE "LastModified");
    c!(media_box: RECT "MediaBox");
    c!(crop_box: RECT "CropBox");
    c!(bleed_box: RECT "BleedBox");
    c!(trim_box: RECT "TrimBox");
    c!(art_box: RECT "ArtBox");
    c!(resources: D "Resources" Resources);
    c!(contents: R "Contents");
    c!(contents_array: RL "Contents");
    c!(rotate: I "Rotate");
    c!(group: D "Group" Group);
    c!(thumbnail: R "Thumb");
    c!(duration: F "Dur");
    c!(transition: D "Trans" Transition);
    c!(annotations: RL "Annots");
    c!(struct_parents: I "StructParents");
    c!(tab_order: E "Tabs" TABS);
    c!(user_unit: F "UserUnit");
    c!(additional_actions: D "AA" AdditionalActions);
    c!(metadata: R "Metadata");
    c!(associated_files: AD "AF" FileSpec);
);
typed!(outline, Outline, ["Type" nm("Outlines")];
    c!(first: R "First");
    c!(last: R "Last");
    |w| { let v = int(); assume(v >= 0); w.count(v); one("Count", V::Int(v)) };
);
pub fn dest(d: Destination) -> V {
    let v = id();
    let d = d.page(Ref::new(v));
    let mut a = vec![V::Ref(v)];
    let f = num();
    let v = fs::<4>();
    let mut tail = |n: &str, x: &[f32]| {
        a.push(nm(n));
        for f in x {
            a.push(V::Real(*f));
        }
    };
    match choose(9) {
        0 => {
            d.xyz(v[0], v[1], None);
            tail("XYZ", &[v[0], v[1], 0.0]);
        }
        1 => {
            d.xyz(v[0], v[1], Some(v[2]));
            tail("XYZ", &v[..3]);
        }
        2 => {
            d.fit();
            tail("Fit", &[]);
        }
        3 => {
            d.fit_horizontal(f);
            tail("FitH", &[f]);
        }
        4 => {
            d.fit_vertical(f);
            tail("FitV", &[f]);
        }
        5 => {
            d.fit_rect(Rect::new(v[0], v[1], v[2], v[3]));
            tail("FitR", &v);
        }
        6 => {
            d.fit_bounding_box();
            tail("FitB", &[]);
        }
        7 => {
            d.fit_bounding_box_horizontal(f);
            tail("FitBH", &[f]);
        }
        _ => {
            d.fit_bounding_box_vertical(f);
            tail("FitBV", &[f]);
        }
    }
    V::Arr(a)
}
pub fn destination() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let v = dest(c.destination(Ref::new(1)));
    verify(&c, v, "destination");
}
pub fn destinations() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let mut w = c.destinations(Ref::new(1));
    w.insert(Name(b"a")).page(Ref::new(3)).fit();
    let v = dest(w.insert(Name(b"b")));
    drop(w);
    verify(&c, V::Dict(join(one("a", V::Arr(vec![V::Ref(3), nm("Fit")])), one("b", v))), "destinations");
}
typed!(outline_item, OutlineItem, [];
    c!(title: T "Title");
    c!(parent: R "Parent");
    c!(prev: R "Prev");
    c!(next: R "Next");
    c!(first: R "First");
    c!(last: R "Last");
    c!(count: I "Count");
    |w| { let v = dest(w.dest()); one("Dest", v) };
    c!(dest_name: N "Dest");
    c!(color_rgb: F3 "C");
    |w| { let b = any_u8() as u32 & 3; w.flags(OutlineItemFlags::from_bits_truncate(b)); one("F", V::Int(b as i32)) };
);
typed!(names, Names, [];
    c!(destinations: NT "Dests");
    c!(appearances: NT "AP");
    c!(javascript: NT "JavaScript");
    c!(pages: NT "Pages");
    c!(templates: NT "Templates");
    c!(capture_ids: NT "IDS");
    c!(capture_urls: NT "URLS");
    c!(embedded_files: NT "EmbeddedFiles");
    c!(alternate_presentations: NT "AlternatePresentations");
    c!(renditions: NT "Renditions");
);
crate::typed_stream!(metadata, Metadata, metadata, ["Type" nm("Metadata"), "Subtype" nm("XML")];);

/// Name and number trees.
pub fn trees() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let r = Ref::new(1);
    let want = match choose(7) {
        0 => {
            let (a, b) = (id(), id());
            c.name_tree::<Ref>(r).kids().item(Ref::new(a)).item(Ref::new(b));
            one("Kids", V::Arr(vec![V::Ref(a), V::Ref(b)]))
        }
        1 => {
            let k = choose(2);
            let (a, b) = (bytes_if(k == 0), bytes_if(k == 1));
            c.name_tree::<Ref>(r).limits(Name(&a), Name(&b));
            one("Limits", V::Arr(vec![V::Str(a), V::Str(b)]))
        }
        2 => {
            let (a, b) = (bytes(), id());
            let mut t = c.name_tree::<Ref>(r);
            let mut n = t.names();
            n.insert(Str(&a), Ref::new(b)).insert(Str(b"x"), Ref::new(3));
            drop(n);
            drop(t);
            one("Names", V::Arr(vec![V::Str(a), V::Ref(b), V::Str(b"x".to_vec()), V::Ref(3)]))
        }
        3 => {
            let (a, b) = (id(), id());
            c.number_tree::<Ref>(r).kids().item(Ref::new(a)).item(Ref::new(b));
            one("Kids", V::Arr(vec![V::Ref(a), V::Ref(b)]))
        }
        4 => {
            let a = int();
            c.number_tree::<Ref>(r).limits(a, -7);
            one("Limits", V::Arr(vec![V::Int(a), V::Int(-7)]))
        }
        5 => {
            let k = choose(2);
            let (a, b) = (int_if(k == 0), bytes_if(k == 1));
            let mut t = c.number_tree::<Name>(r);
            let mut n = t.nums();
            n.insert(a, Name(&b)).insert(8, Name(b"z"));
            drop(n);
            drop(t);
            one("Nums", V::Arr(vec![V::Int(a), V::Name(b), V::Int(8), nm("z")]))
        }
        _ => {
            let a = id();
            c.number_tree::<Ref>(r).limits(-1, 4).kids().item(Ref::new(a));
            join(one("Limits", ints(&[-1, 4])), one("Kids", V::Arr(vec![V::Ref(a)])))
        }
    };
    verify(&c, V::Dict(want), "tree");
}

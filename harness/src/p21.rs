//! Documented preconditions: a call panics exactly if its precondition does
//! not hold, and nothing else panics.
use crate::typed::kit::*;
use crate::common::{any_u16, any_u8, choose};

/// The call panics exactly if `bad`.
fn guarded(bad: bool, call: impl FnOnce()) {
    panic_ok(bad);
    call();
    panic_ok(false);
    cover("returned");
    check(!bad, "a call whose documented precondition is violated panics");
}
fn chunk() -> Chunk {
    Chunk::with_settings(Settings { pretty: choose(2) == 0 })
}
/// Any float but NaN, told by its bits: (value, negative, zero).
fn real() -> (f32, bool, bool) {
    let b = any_u32();
    assume(b & 0x7fff_ffff <= 0x7f80_0000);
    let zero = b & 0x7fff_ffff == 0;
    (f32::from_bits(b), b >> 31 == 1 && !zero, zero)
}

fn line_width() {
    let (w, neg, _) = real();
    let mut c = Content::with_settings(Settings { pretty: choose(2) == 0 });
    if choose(2) == 0 {
        c.save_state();
    }
    guarded(neg, || {
        c.set_line_width(w);
    });
}
fn flatness() {
    let v = any_i32();
    let mut c = Content::with_settings(Settings { pretty: choose(2) == 0 });
    if choose(2) == 0 {
        c.set_flatness(100);
    }
    guarded(v < 0 || v > 100, || {
        c.set_flatness(v);
    });
}
fn outline() {
    let v = any_i32();
    let mut c = chunk();
    let mut o = c.outline(Ref::new(1));
    if choose(2) == 0 {
        o.count(0);
    }
    guarded(v < 0, || {
        o.count(v);
    });
}
fn item_count() {
    // Other counts may be negative.
    let v = any_i32();
    let mut c = chunk();
    match choose(2) {
        0 => drop(c.outline_item(Ref::new(1)).count(v)),
        _ => drop(c.pages(Ref::new(1)).count(v)),
    }
    check(c.as_bytes().len() > 0, "the count is written");
}
fn icc() {
    let v = any_i32();
    let mut c = chunk();
    let mut p = c.icc_profile(Ref::new(1), b"x");
    guarded(!(v == 1 || v == 3 || v == 4), || {
        p.n(v);
    });
}
fn steps() {
    let (x, _, zero) = real();
    let mut c = chunk();
    let mut p = c.tiling_pattern(Ref::new(1), b"x");
    let y = choose(2) == 0;
    if choose(2) == 0 {
        p.x_step(1.0).y_step(-1.0);
    }
    guarded(zero, || {
        if y {
            p.y_step(x);
        } else {
            p.x_step(x);
        }
    });
}
fn page_mode() {
    const MODES: [PageMode; 6] = [
        PageMode::UseNone,
        PageMode::UseOutlines,
        PageMode::UseThumbs,
        PageMode::FullScreen,
        PageMode::UseOC,
        PageMode::UseAttachments,
    ];
    let k = choose(6);
    let mut c = chunk();
    if choose(2) == 0 {
        let mut v = c.indirect(Ref::new(1)).start::<ViewerPreferences>();
        guarded(k == 3, || {
            v.non_full_screen_page_mode(MODES[k]);
        });
    } else {
        let mut v = c.indirect(Ref::new(1)).start::<Catalog>();
        guarded(false, || {
            v.page_mode(MODES[k]);
        });
    }
}
fn parms() {
    let v = any_i32();
    let mut c = chunk();
    let mut p = c.indirect(Ref::new(1)).start::<DecodeParms>();
    if choose(2) == 0 {
        p.predictor(Predictor::PngSub).colors(1).bits_per_component(16);
    }
    match choose(4) {
        0 => guarded(v <= 0, || {
            p.colors(v);
        }),
        1 => guarded(!(v == 1 || v == 2 || v == 4 || v == 8 || v == 16), || {
            p.bits_per_component(v);
        }),
        2 => guarded(false, || {
            p.columns(v);
        }),
        _ => guarded(false, || {
            p.k(v).rows(v);
        }),
    }
}
fn reference() {
    let v = any_i32();
    guarded(v <= 0, || {
        Ref::new(v);
    });
}
fn next() {
    let v = any_i32();
    assume(v > 0);
    let mut r = Ref::new(v);
    if choose(2) == 0 {
        guarded(v == i32::MAX, || {
            r.next();
        });
    } else {
        guarded(v == i32::MAX, || {
            r.bump();
        });
    }
}

/// One step towards the alternate space.
macro_rules! alternate {
    ($s:ident, $k:expr) => {
        match $k {
            0 => drop($s.alternate_device(DeviceColorSpace::Cmyk)),
            1 => $s.alternate_color_space().srgb(),
            _ => drop($s.alternate_color_space_ref(Ref::new(7))),
        }
    };
}
macro_rules! tint {
    ($s:ident, $k:expr) => {
        match $k {
            0 => drop($s.tint_exponential().domain([0.0, 1.0]).n(1.0)),
            1 => drop($s.tint_stitching().domain([0.0, 1.0])),
            _ => drop($s.tint_ref(Ref::new(8))),
        }
    };
}
/// All histories of calls on a separation writer.
fn separation(n: usize) {
    let mut c = chunk();
    let mut s = c.color_space(Ref::new(1)).separation(Name(b"Spot"));
    let mut alt = false;
    let mut tint = false;
    for _ in 0..n {
        let k = choose(6);
        if k < 3 {
            guarded(alt, || alternate!(s, k));
            alt = true;
        } else {
            if tint {
                // That there is one transform is left to the caller.
                return;
            }
            guarded(!alt, || tint!(s, k - 3));
            tint = true;
        }
    }
}
/// All histories of calls on a DeviceN writer.
fn device_n(n: usize) {
    let mut c = chunk();
    let mut s = c.color_space(Ref::new(1)).device_n([Name(b"A"), Name(b"B")]);
    let mut alt = false;
    let mut tint = false;
    for _ in 0..n {
        let k = choose(7);
        if k < 3 {
            guarded(alt, || alternate!(s, k));
            alt = true;
        } else if k < 6 {
            guarded(!alt || tint, || tint!(s, k - 3));
            tint = true;
        } else {
            guarded(!tint, || {
                s.attrs().subtype(DeviceNSubtype::NChannel);
            });
            if choose(2) == 0 {
                return;
            }
        }
    }
}

/// Writing identifiers more than once.
fn duplicates(n: usize, nested: bool) {
    let mut v: Vec<i32> = vec![];
    let mut dup = false;
    let max = 5;
    let stream = choose(2) == 0;
    let x = if stream { 1 + choose(max) as i32 } else { 0 };
    for _ in 0..n {
        let i = 1 + choose(max) as i32;
        for &j in &v {
            dup |= i == j;
        }
        dup |= i == x;
        v.push(i);
    }
    let mut pdf = Pdf::new();
    for (k, &i) in v.iter().enumerate() {
        if nested && k % 2 == 1 {
            let mut d = Chunk::new();
            d.stream(Ref::new(i), b"hi");
            pdf.extend(&d);
        } else {
            pdf.indirect(Ref::new(i)).primitive(1);
        }
    }
    guarded(dup, || {
        let out = if stream { pdf.finish_with_xref_stream(Ref::new(x)) } else { pdf.finish() };
        check(out.len() > 0, "a file is written");
    });
}
/// Far apart and close ones.
fn far_duplicates() {
    let mut pdf = Pdf::new();
    let (i, j) = (any_i32(), any_i32());
    assume(i > 0 && i <= 40 && j > 0 && j <= 40);
    let (i, j) = (split(i as usize) as i32, split(j as usize) as i32);
    let k = [1, 17, 40][choose(3)];
    for x in [i, k, j] {
        pdf.indirect(Ref::new(x)).primitive(1);
    }
    let stream = choose(2) == 0;
    let dup = i == j || i == k || j == k;
    guarded(dup, || {
        if stream {
            pdf.finish_with_xref_stream(Ref::new(41));
        } else {
            pdf.finish();
        }
    });
}
/// Parts of a chunk may have the same number until they get into a file.
fn chunk_duplicates() {
    let (i, j) = (any_i32(), any_i32());
    assume(i > 0 && i <= 100 && j > 0 && j <= 100);
    let mut a = chunk();
    a.indirect(Ref::new(i)).primitive(1);
    let mut b = Chunk::new();
    b.indirect(Ref::new(j)).primitive(2);
    a.extend(&b);
    a.indirect(Ref::new(j)).primitive(2);
    let r = a.renumber(|r| r);
    cover("returned");
    check(r.refs().count() == 3, "all objects are there");
}

/// The length of a stream must be a positive 32-bit integer.
fn stream_len() {
    let len = [(1usize << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) + 5][choose(4)];
    let data = vec![0u8; len];
    let bad = len > i32::MAX as usize;
    let mut c = Chunk::new();
    panic_ok(bad);
    let s = c.stream(Ref::new(1), &data);
    panic_ok(false);
    // Do not copy all the data.
    core::mem::forget(s);
    cover("returned");
    check(!bad, "a stream that is too long is rejected");
}

/// Nothing else panics: primitives.
fn total_primitives() {
    let mut c = chunk();
    let o = c.indirect(Ref::new(1));
    match choose(12) {
        0 => o.primitive(any_i32()),
        1 => o.primitive(f32::from_bits(any_u32())),
        2 => o.primitive(Str(&crate::common::any_bytes(choose(3)))),
        3 => o.primitive(Name(&crate::common::any_bytes(choose(3)))),
        4 => {
            let t: String = (0..choose(3)).map(|_| any_char()).collect();
            o.primitive(TextStr(&t))
        }
        5 => o.primitive(Null),
        6 => o.primitive(Rect::new(f32::NAN, f32::INFINITY, -0.0, f32::MIN)),
        7 => o.primitive(any_u8() as i32),
        8 => o.primitive(any_u16() as f32),
        9 => {
            let (a, b) = ([any_u8(), any_u8()], [any_u8(), any_u8()]);
            let region = choose(2) == 0;
            let (l, r) = (lang(&a), lang(&b));
            let (l, r) = match (l, r) {
                (Some(l), Some(r)) => (l, r),
                _ => return,
            };
            if let Some(id) = LanguageIdentifier::from_lang_region(&l, if region { &r } else { "DE" }) {
                o.primitive(TextStrWithLang(&[(id, "x")]))
            }
        }
        10 => {
            let a = lang(&[any_u8(), any_u8()]);
            if let Some(l) = a {
                if let Some(id) = LanguageIdentifier::from_lang(&l) {
                    o.primitive(TextStrWithLang(&[(id, ""), (id, "")]))
                }
            }
        }
        _ => {
            let i = any_i32();
            assume(i > 0);
            o.primitive(Ref::new(i))
        }
    }
    cover("returned");
    check(c.as_bytes().len() > 0, "the object is written");
}
fn lang(b: &[u8]) -> Option<String> {
    if b[0] < 128 && b[1] < 128 {
        Some(text(b))
    } else {
        None
    }
}
fn total_dates() {
    let mut d = Date::new(any_u16());
    let k = choose(9);
    if k & 1 == 0 {
        d = d.month(any_u8()).day(any_u8());
    }
    if k & 2 == 0 {
        d = d.hour(any_u8()).minute(any_u8());
    }
    if k != 5 {
        d = d.second(any_u8());
    }
    if k & 4 == 0 {
        d = d.utc_offset_hour(any_u8() as i8);
    }
    if k != 8 {
        d = d.utc_offset_minute(any_u8());
    }
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(d);
    cover("returned");
    check(c.as_bytes().len() > 0, "the object is written");
}
/// Degenerate but permitted calls.
fn total_degenerate() {
    let mut c = chunk();
    match choose(14) {
        0 => {
            let mut x = Content::new();
            let n = choose(4);
            for _ in 0..n {
                x.restore_state();
            }
            x.set_dash_pattern([], any_i32() as i64 as f32 * 0.0);
            x.finish();
        }
        1 => {
            let mut x = Content::with_capacity(0);
            x.set_font(Name(b""), 0.0).show(Str(b"")).show_positioned();
            x.begin_marked_content_with_properties(Name(b""));
            x.set_fill_color([]).set_fill_pattern([], Name(b""));
            drop(x.finish().to_vec());
        }
        2 => {
            let mut m = UnicodeCmap::<u8>::new(Name(b""), SystemInfo { registry: Str(b""), ordering: Str(b""), supplement: any_i32() });
            m.pair_with_multiple(any_u8(), []);
            m.pair(any_u8(), any_char());
            m.finish();
        }
        3 => {
            let mut m = UnicodeCmap::<u16>::new(Name(b""), SystemInfo { registry: Str(b""), ordering: Str(b""), supplement: 0 });
            m.pair_with_multiple(any_u16(), [any_char(), any_char()]);
            m.finish();
        }
        4 => {
            PostScriptOp::encode(&[]);
            PostScriptOp::encode(&[PostScriptOp::If(&[]), PostScriptOp::IfElse(&[], &[])]);
        }
        5 => {
            c.color_space(Ref::new(1)).device_n([]);
        }
        6 => {
            c.color_space(Ref::new(1)).indexed(Name(b""), any_i32(), b"");
        }
        7 => {
            drop(c.color_space(Ref::new(1)).separation(Name(b"")));
        }
        8 => {
            let r = c.renumber(|_| -> Ref { panic!("nothing to renumber") });
            check(r.as_bytes().len() == 0, "an empty chunk stays empty");
        }
        9 => {
            drop(Pdf::new().finish());
            let i = any_i32();
            assume(i > 0 && i < 5);
            drop(Pdf::with_capacity(0).finish_with_xref_stream(Ref::new(split(i as usize) as i32)));
        }
        10 => {
            let mut p = Pdf::new();
            p.set_version(any_u8(), any_u8());
            p.set_binary_marker(&[any_u8(), any_u8(), any_u8(), any_u8()]);
            p.set_file_id((vec![], vec![]));
            drop(p.finish());
        }
        11 => {
            let mut n = c.indirect(Ref::new(1)).start::<NameTree<Ref>>();
            n.limits(Name(b""), Name(b""));
            n.names();
            n.kids();
        }
        12 => {
            let mut n = c.indirect(Ref::new(1)).start::<NumberTree<Ref>>();
            n.limits(any_i32(), any_i32());
            n.nums();
        }
        _ => {
            let i = any_u16();
            let r = match core::num::NonZeroU16::new(i) {
                Some(n) => StructRole2::Heading(n),
                None => StructRole2::Title,
            };
            c.struct_element(Ref::new(1)).custom_kind(Name(b"")).namespace(Ref::new(2)).kind_2(r, Ref::new(2));
        }
    }
    cover("returned");
}

crate::harnesses! {
    fn p21_line_width() { line_width() }
    fn p21_flatness() { flatness() }
    fn p21_outline() { outline() }
    fn p21_item_count() { item_count() }
    fn p21_icc() { icc() }
    fn p21_steps() { steps() }
    fn p21_page_mode() { page_mode() }
    fn p21_parms() { parms() }
    fn p21_reference() { reference() }
    fn p21_next() { next() }
    fn p21_separation() { separation(4) }
    fn p21_device_n() { device_n(5) }
    fn p21_duplicates() { duplicates(1 + choose(4), false) }
    fn p21_nested_duplicates() { duplicates(1 + choose(4), true) }
    fn p21_far_duplicates() { far_duplicates() }
    fn p21_chunk_duplicates() { chunk_duplicates() }
    fn p21_stream_len() { stream_len() }
    fn p21_total_primitives() { total_primitives() }
    fn p21_total_dates() { total_dates() }
    fn p21_total_degenerate() { total_degenerate() }
}

//! Content-stream operations: written through the crate, and what the standard
//! (ISO 32000-1 Annex A) says a reader must find.
use crate::common::*;
use crate::values::*;
use pdf_writer::types::*;
use pdf_writer::*;

/// One operation as a reader sees it.
pub struct Op {
    pub args: Vec<V>,
    pub op: &'static [u8],
}

/// Source of operand values: different concrete reals in turn, symbolic strings
/// and names of up to one byte (`any`: an arbitrary one).
pub struct G {
    pub n: usize,
    pub any: bool,
    /// When given: each real operand is any one of these.
    pub reals: Vec<f32>,
    /// The real operand, counted from here, that is any finite one.
    pub wild: usize,
}

const REALS: [f32; 8] = [0.25, -1.5, 7.0, 1e-7, -3e20, 0.0, -2.0, 1000000.0];

impl G {
    pub fn f(&mut self) -> f32 {
        self.n += 1;
        if self.wild == 0 {
            self.wild = usize::MAX;
            return any_finite();
        }
        self.wild -= 1;
        if self.reals.is_empty() {
            REALS[self.n % 8]
        } else {
            self.reals[choose(self.reals.len())]
        }
    }
    pub fn pos(&mut self) -> f32 {
        let f = self.f();
        if f < 0.0 {
            -f
        } else {
            f
        }
    }
    fn pick(&mut self, n: usize) -> usize {
        if self.any {
            choose(n)
        } else {
            // the last two
            n - 1 - choose(if n < 2 { n } else { 2 })
        }
    }
    pub fn s(&mut self) -> Vec<u8> {
        let n = choose(2);
        if self.any {
            any_bytes(n)
        } else {
            any_from(b"a\xe4", n)
        }
    }
}

pub fn rs(v: &[f32]) -> Vec<V> {
    v.iter().map(|f| V::Real(*f)).collect()
}

fn key(k: &[u8]) -> Vec<u8> {
    k.to_vec()
}

fn name(k: &[u8]) -> V {
    V::Name(k.to_vec())
}

pub const OPS: usize = 81;

/// Write the `k`-th operation and say what it is.
pub fn write(c: &mut Content, k: usize, g: &mut G) -> Op {
    let op = |op: &'static [u8], args: Vec<V>| Op { args, op };
    match k {
        0 => {
            let f = g.pos();
            c.set_line_width(f);
            op(b"w", rs(&[f]))
        }
        1 => {
            let i = g.pick(3);
            c.set_line_cap([LineCapStyle::ButtCap, LineCapStyle::RoundCap, LineCapStyle::ProjectingSquareCap][i]);
            op(b"J", vec![V::Int(i as i32)])
        }
        2 => {
            let i = g.pick(3);
            c.set_line_join([LineJoinStyle::MiterJoin, LineJoinStyle::RoundJoin, LineJoinStyle::BevelJoin][i]);
            op(b"j", vec![V::Int(i as i32)])
        }
        3 => {
            let f = g.f();
            c.set_miter_limit(f);
            op(b"M", rs(&[f]))
        }
        4 => {
            let n = g.pick(4);
            let v: Vec<f32> = (0..n).map(|_| g.f()).collect();
            let p = g.f();
            c.set_dash_pattern(v.iter().copied(), p);
            op(b"d", vec![V::Arr(rs(&v)), V::Real(p)])
        }
        5 => {
            let i = g.pick(4);
            c.set_rendering_intent(
                [
                    RenderingIntent::AbsoluteColorimetric,
                    RenderingIntent::RelativeColorimetric,
                    RenderingIntent::Saturation,
                    RenderingIntent::Perceptual,
                ][i],
            );
            let n = [&b"AbsoluteColorimetric"[..], b"RelativeColorimetric", b"Saturation", b"Perceptual"][i];
            op(b"ri", vec![name(n)])
        }
        6 => {
            let i = any_u8() as i32;
            assume(i <= 100);
            c.set_flatness(i);
            op(b"i", vec![V::Int(i)])
        }
        7 => {
            let s = g.s();
            c.set_parameters(Name(&s));
            op(b"gs", vec![V::Name(s)])
        }
        8 => {
            c.save_state();
            op(b"q", vec![])
        }
        9 => {
            c.restore_state();
            op(b"Q", vec![])
        }
        10 | 11 => {
            let m = [g.f(), g.f(), g.f(), g.f(), g.f(), g.f()];
            if k == 10 {
                c.transform(m);
                op(b"cm", rs(&m))
            } else {
                c.set_text_matrix(m);
                op(b"Tm", rs(&m))
            }
        }
        12..=15 => {
            let (x, y) = (g.f(), g.f());
            match k {
                12 => c.move_to(x, y),
                13 => c.line_to(x, y),
                14 => c.next_line(x, y),
                _ => c.next_line_and_set_leading(x, y),
            };
            op([&b"m"[..], b"l", b"Td", b"TD"][k - 12], rs(&[x, y]))
        }
        16 => {
            let m = [g.f(), g.f(), g.f(), g.f(), g.f(), g.f()];
            c.cubic_to(m[0], m[1], m[2], m[3], m[4], m[5]);
            op(b"c", rs(&m))
        }
        17..=21 => {
            let m = [g.f(), g.f(), g.f(), g.f()];
            match k {
                17 => c.cubic_to_initial(m[0], m[1], m[2], m[3]),
                18 => c.cubic_to_final(m[0], m[1], m[2], m[3]),
                19 => c.rect(m[0], m[1], m[2], m[3]),
                20 => c.set_stroke_cmyk(m[0], m[1], m[2], m[3]),
                _ => c.set_fill_cmyk(m[0], m[1], m[2], m[3]),
            };
            op([&b"v"[..], b"y", b"re", b"K", b"k"][k - 17], rs(&m))
        }
        22..=38 => {
            match k {
                22 => c.close_path(),
                23 => c.stroke(),
                24 => c.close_and_stroke(),
                25 => c.fill_nonzero(),
                26 => c.fill_even_odd(),
                27 => c.fill_nonzero_and_stroke(),
                28 => c.fill_even_odd_and_stroke(),
                29 => c.close_fill_nonzero_and_stroke(),
                30 => c.close_fill_even_odd_and_stroke(),
                31 => c.end_path(),
                32 => c.clip_nonzero(),
                33 => c.clip_even_odd(),
                34 => c.begin_text(),
                35 => c.end_text(),
                36 => c.next_line_using_leading(),
                37 => c.begin_compat(),
                _ => c.end_compat(),
            };
            let n = [
                &b"h"[..], b"S", b"s", b"f", b"f*", b"B", b"B*", b"b", b"b*", b"n", b"W", b"W*", b"BT", b"ET", b"T*", b"BX",
                b"EX",
            ];
            op(n[k - 22], vec![])
        }
        39..=46 => {
            let f = g.f();
            match k {
                39 => c.set_char_spacing(f),
                40 => c.set_word_spacing(f),
                41 => c.set_horizontal_scaling(f),
                42 => c.set_leading(f),
                43 => c.set_rise(f),
                44 => c.set_stroke_gray(f),
                45 => c.set_fill_gray(f),
                _ => c.start_color_glyph(f),
            };
            let n = [&b"Tc"[..], b"Tw", b"Tz", b"TL", b"Ts", b"G", b"g", b"d0"][k - 39];
            op(n, if k == 46 { rs(&[f, 0.0]) } else { rs(&[f]) })
        }
        47 => {
            let (s, f) = (g.s(), g.f());
            c.set_font(Name(&s), f);
            op(b"Tf", vec![V::Name(s), V::Real(f)])
        }
        48 => {
            let i = g.pick(8);
            c.set_text_rendering_mode(
                [
                    TextRenderingMode::Fill,
                    TextRenderingMode::Stroke,
                    TextRenderingMode::FillStroke,
                    TextRenderingMode::Invisible,
                    TextRenderingMode::FillClip,
                    TextRenderingMode::StrokeClip,
                    TextRenderingMode::FillStrokeClip,
                    TextRenderingMode::Clip,
                ][i],
            );
            op(b"Tr", vec![V::Int(i as i32)])
        }
        49 | 50 => {
            let s = g.s();
            if k == 49 {
                c.show(Str(&s));
            } else {
                c.next_line_show(Str(&s));
            }
            op([&b"Tj"[..], b"'"][k - 49], vec![V::Str(s)])
        }
        51 => {
            let (a, b, s) = (g.f(), g.f(), g.s());
            c.next_line_show_and_set_word_and_char_spacing(a, b, Str(&s));
            op(b"\"", vec![V::Real(a), V::Real(b), V::Str(s)])
        }
        52 => {
            // any sequence of strings and adjustments, in one or two goes
            let n = g.pick(4);
            let mut v = vec![];
            {
                let mut p = c.show_positioned();
                let mut items = p.items();
                for _ in 0..n {
                    if g.pick(2) == 0 {
                        let s = g.s();
                        items.show(Str(&s));
                        v.push(V::Str(s));
                    } else {
                        let f = g.f();
                        items.adjust(f);
                        v.push(V::Real(f));
                    }
                }
                if g.pick(2) == 0 {
                    items.finish();
                    p.finish();
                }
            }
            op(b"TJ", vec![V::Arr(v)])
        }
        53 => {
            let v = [g.f(), g.f(), g.f(), g.f(), g.f()];
            c.start_shape_glyph(v[0], v[1], v[2], v[3], v[4]);
            op(b"d1", rs(&[v[0], 0.0, v[1], v[2], v[3], v[4]]))
        }
        54 | 55 => {
            let i = g.pick(6);
            let s = g.s();
            let sp = match i {
                0 => ColorSpaceOperand::DeviceGray,
                1 => ColorSpaceOperand::DeviceRgb,
                2 => ColorSpaceOperand::DeviceCmyk,
                3 => ColorSpaceOperand::Pattern,
                4 => ColorSpaceOperand::Named(Name(&s)),
                _ => Name(&s).into(),
            };
            let n = match i {
                0 => name(b"DeviceGray"),
                1 => name(b"DeviceRGB"),
                2 => name(b"DeviceCMYK"),
                3 => name(b"Pattern"),
                _ => V::Name(s.clone()),
            };
            if k == 54 {
                c.set_stroke_color_space(sp);
            } else {
                c.set_fill_color_space(sp);
            }
            op([&b"CS"[..], b"cs"][k - 54], vec![n])
        }
        56 | 57 => {
            let n = g.pick(4);
            let v: Vec<f32> = (0..n).map(|_| g.f()).collect();
            if k == 56 {
                c.set_stroke_color(v.iter().copied());
            } else {
                c.set_fill_color(v.clone());
            }
            op([&b"SCN"[..], b"scn"][k - 56], rs(&v))
        }
        58 | 59 => {
            let n = g.pick(3);
            let v: Vec<f32> = (0..n).map(|_| g.f()).collect();
            let s = g.s();
            if k == 58 {
                c.set_stroke_pattern(v.iter().copied(), Name(&s));
            } else {
                c.set_fill_pattern(v.clone(), Name(&s));
            }
            let mut a = rs(&v);
            a.push(V::Name(s));
            op([&b"SCN"[..], b"scn"][k - 58], a)
        }
        60 | 61 => {
            let m = [g.f(), g.f(), g.f()];
            if k == 60 {
                c.set_stroke_rgb(m[0], m[1], m[2]);
            } else {
                c.set_fill_rgb(m[0], m[1], m[2]);
            }
            op([&b"RG"[..], b"rg"][k - 60], rs(&m))
        }
        62..=65 => {
            let s = g.s();
            match k {
                62 => c.shading(Name(&s)),
                63 => c.x_object(Name(&s)),
                64 => c.marked_content_point(Name(&s)),
                _ => c.begin_marked_content(Name(&s)),
            };
            op([&b"sh"[..], b"Do", b"MP", b"BMC"][k - 62], vec![V::Name(s)])
        }
        66 => {
            c.end_marked_content();
            op(b"EMC", vec![])
        }
        67 | 68 => {
            // properties by name
            let (s, t) = (g.s(), g.s());
            let m = if k == 67 {
                c.marked_content_point_with_properties(Name(&s))
            } else {
                c.begin_marked_content_with_properties(Name(&s))
            };
            m.properties_named(Name(&t));
            op([&b"DP"[..], b"BDC"][k - 67], vec![V::Name(s), V::Name(t)])
        }
        69..=74 => {
            // properties in place
            let s = if g.any { b"Sp".to_vec() } else { g.s() };
            let mut d = vec![];
            {
                let point = k % 2 == 1;
                let mut m = if point {
                    c.marked_content_point_with_properties(Name(&s))
                } else {
                    c.begin_marked_content_with_properties(Name(&s))
                };
                let mut p = m.properties();
                match (k - 69) / 2 {
                    0 => {
                        if g.pick(2) == 0 {
                            let i = if g.any { any_u8() as i8 as i32 } else { -7 };
                            p.identify(i);
                            d.push((key(b"MCID"), V::Int(i)));
                        }
                        if g.pick(2) == 0 {
                            let b = if g.any { any_u8() } else { b'x' };
                            assume(b >= 32 && b < 127);
                            p.actual_text(TextStr(&text(&[b])));
                            d.push((key(b"ActualText"), V::Text(vec![b])));
                        }
                        if g.pick(2) == 0 {
                            // as a generic dictionary
                            let x = if g.any { of_kind(choose(KINDS)) } else { V::Ref(7) };
                            put(p.insert(Name(b"X")), &x);
                            d.push((key(b"X"), x));
                        }
                        if g.pick(2) == 0 {
                            p.finish();
                            m.finish();
                        }
                    }
                    1 => {
                        let i = g.pick(5);
                        p.identify(4);
                        d.push((key(b"MCID"), V::Int(4)));
                        let mut a = p.artifact();
                        a.kind(
                            [
                                ArtifactType::Pagination,
                                ArtifactType::Layout,
                                ArtifactType::Page,
                                ArtifactType::Background,
                                ArtifactType::Inline,
                            ][i],
                        );
                        let n = [&b"Pagination"[..], b"Layout", b"Page", b"Background", b"Inline"][i];
                        d.push((key(b"Type"), name(n)));
                        let r = [g.f(), g.f(), g.f(), g.f()];
                        a.bounding_box(Rect::new(r[0], r[1], r[2], r[3]));
                        d.push((key(b"BBox"), V::Rect(r[0], r[1], r[2], r[3])));
                    }
                    _ => {
                        let i = g.pick(8);
                        let t = g.s();
                        let mut a = p.artifact();
                        a.subtype(match i {
                            0 => ArtifactSubtype::Header,
                            1 => ArtifactSubtype::Footer,
                            2 => ArtifactSubtype::Watermark,
                            3 => ArtifactSubtype::PageNumber,
                            4 => ArtifactSubtype::Bates,
                            5 => ArtifactSubtype::LineNumber,
                            6 => ArtifactSubtype::Redaction,
                            _ => ArtifactSubtype::Custom(Name(&t)),
                        });
                        let n = match i {
                            0 => name(b"Header"),
                            1 => name(b"Footer"),
                            2 => name(b"Watermark"),
                            3 => name(b"PageNum"),
                            4 => name(b"Bates"),
                            5 => name(b"LineNum"),
                            6 => name(b"Redaction"),
                            _ => V::Name(t),
                        };
                        d.push((key(b"Subtype"), n));
                        let all = [
                            ArtifactAttachment::Left,
                            ArtifactAttachment::Top,
                            ArtifactAttachment::Right,
                            ArtifactAttachment::Bottom,
                        ];
                        let names = [&b"Left"[..], b"Top", b"Right", b"Bottom"];
                        let (n, st) = (g.pick(3), g.pick(4));
                        a.attached((0..n).map(|j| all[(st + j) % 4]));
                        d.push((key(b"Attached"), V::Arr((0..n).map(|j| name(names[(st + j) % 4])).collect())));
                    }
                }
            }
            op(if k % 2 == 1 { b"DP" } else { b"BDC" }, vec![V::Name(s), V::Dict(d)])
        }
        75 => {
            // an operation of one's own, any operands
            let (a, b) = if g.any {
                (of_kind(choose(KINDS)), of_kind(choose(KINDS)))
            } else {
                (V::Int(-3), V::Name(g.s()))
            };
            {
                let mut o = c.op("XY");
                put(o.obj(), &a);
                put(o.obj(), &b);
            }
            op(b"XY", vec![a, b])
        }
        76 => {
            let v = [g.f(), g.f()];
            c.op("Z*").operand(7).operands(v).operand(true).finish();
            op(b"Z*", vec![V::Int(7), V::Real(v[0]), V::Real(v[1]), V::Bool(true)])
        }
        77 => {
            let i = any_u8() as i8 as i32;
            c.op("I").operand(i).operand(Null);
            op(b"I", vec![V::Int(i), V::Null])
        }
        78 => {
            let s = g.s();
            c.op("N").operand(Name(&s)).operand(Str(&s)).operand(Rect::new(1.0, 2.0, 3.0, 4.5));
            op(b"N", vec![V::Name(s.clone()), V::Str(s), V::Rect(1.0, 2.0, 3.0, 4.5)])
        }
        79 => {
            c.op("E").operands([0i32; 0]);
            op(b"E", vec![])
        }
        _ => {
            // a dictionary and an array as operands
            let x = if g.any { of_kind(choose(KINDS)) } else { V::Str(g.s()) };
            {
                let mut o = c.op("DA");
                let mut d = o.obj().dict();
                put(d.insert(Name(b"K")), &x);
                d.finish();
                let mut a = o.obj().array();
                put(a.push(), &x);
                a.finish();
            }
            op(b"DA", vec![V::Dict(vec![(key(b"K"), x.clone())]), V::Arr(vec![x])])
        }
    }
}

/// Do these bytes read as exactly these operations?
pub fn verify(b: &[u8], want: &[Op]) {
    let mut r = Rd::new(b);
    for w in want {
        let mut args = vec![];
        let op = loop {
            r.ws();
            match r.obj() {
                Some(Ob::Op(k)) => break k,
                Some(o) => args.push(o),
                None => return check(false, "the content stream is a sequence of well-formed operations"),
            }
        };
        check(same(&op, w.op), "the operator keyword is the standard one");
        check(args.len() == w.args.len(), "the operator has the standard number of operands");
        if args.len() == w.args.len() {
            cover("operation");
            let mut ok = true;
            for i in 0..args.len() {
                ok &= agrees_unordered(&args[i], &w.args[i]);
            }
            check(ok, "the operands are those given, in the standard order");
        }
    }
    r.ws();
    check(r.at_end(), "nothing is written besides the operations");
}

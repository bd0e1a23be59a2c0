//! Content operators.
use crate::common::*;
use crate::ops::*;
use crate::values::V;
use pdf_writer::*;

fn content(pretty: bool) -> Content {
    Content::with_settings(Settings { pretty })
}

/// Each operation on its own, all operand values.
fn single(from: usize, to: usize) {
    let k = from + choose(to - from);
    let mut c = content(choose(2) == 0);
    let mut g = G { n: [0, 3][choose(2)], any: true, reals: vec![], wild: usize::MAX };
    let w = write(&mut c, k, &mut g);
    verify(&c.finish(), &[w]);
}

/// Each operation with all real operands the same special number, and with
/// each any of 0, 1 and 0.5; and with each in turn any finite number.
fn real_operands(from: usize, to: usize) {
    let k = from + choose(to - from);
    let mut c = content(false);
    let special = [0.0, -0.0, 1.0, -1.0, 0.5, 100.0, f32::MAX, f32::MIN_POSITIVE];
    let i = choose(special.len() + 2);
    let wild = if i > special.len() { choose(9) } else { usize::MAX };
    let reals = if i < special.len() {
        vec![special[i]]
    } else if i == special.len() {
        vec![0.0, 1.0, 0.5]
    } else {
        vec![]
    };
    let mut g = G { n: 0, any: false, reals, wild };
    let w = write(&mut c, k, &mut g);
    verify(&c.finish(), &[w]);
}

/// Any two operations in sequence.
fn pair(pretty: bool, from: usize, to: usize) {
    let mut c = content(pretty);
    let mut g = G { n: 0, any: false, reals: vec![], wild: usize::MAX };
    let a = write(&mut c, from + choose(to - from), &mut g);
    // one of each form for what follows
    let b = write(&mut c, [0, 4, 7, 8, 20, 25, 47, 49, 50, 52, 58, 66, 67, 69, 76, 79][choose(16)], &mut g);
    verify(&c.finish(), &[a, b]);
}

/// The forms that differ in how they begin or end, in any order.
fn triple(pretty: bool) {
    let mut c = content(pretty);
    let mut g = G { n: 1, any: false, reals: vec![], wild: usize::MAX };
    let forms = [4, 8, 12, 49, 50, 63, 67, 72];
    let mut want = vec![];
    for _ in 0..3 {
        want.push(write(&mut c, forms[choose(forms.len())], &mut g));
    }
    verify(&c.finish(), &want);
}

/// Chained calls are the same as calls one by one.
fn chained() {
    let pretty = choose(2) == 0;
    let s = any_bytes(1);
    let mut c = content(pretty);
    c.save_state()
        .transform([1.0, 0.0, 0.0, 1.0, 2.5, -3.0])
        .set_fill_rgb(0.5, 0.0, 1.0)
        .rect(1.0, 2.0, 3.0, 4.0)
        .fill_even_odd()
        .begin_text()
        .set_font(Name(&s), 11.0)
        .show(Str(&s))
        .end_text()
        .x_object(Name(&s))
        .restore_state();
    let r = |v: &[f32]| v.iter().map(|f| V::Real(*f)).collect::<Vec<_>>();
    let want = [
        Op { op: b"q", args: vec![] },
        Op { op: b"cm", args: r(&[1.0, 0.0, 0.0, 1.0, 2.5, -3.0]) },
        Op { op: b"rg", args: r(&[0.5, 0.0, 1.0]) },
        Op { op: b"re", args: r(&[1.0, 2.0, 3.0, 4.0]) },
        Op { op: b"f*", args: vec![] },
        Op { op: b"BT", args: vec![] },
        Op { op: b"Tf", args: vec![V::Name(s.clone()), V::Real(11.0)] },
        Op { op: b"Tj", args: vec![V::Str(s.clone())] },
        Op { op: b"ET", args: vec![] },
        Op { op: b"Do", args: vec![V::Name(s)] },
        Op { op: b"Q", args: vec![] },
    ];
    verify(&c.finish(), &want);
}

/// Any real operand.
fn real() {
    let f = any_finite();
    let mut c = content(false);
    let op: &[u8] = match choose(3) {
        0 => {
            c.set_leading(f);
            b"TL"
        }
        1 => {
            c.set_fill_gray(f);
            b"g"
        }
        _ => {
            c.set_miter_limit(f);
            b"M"
        }
    };
    let b = c.finish();
    let mut r = Rd::new(&b);
    let (x, y) = (r.obj(), r.obj());
    cover("real");
    check(matches!(x, Some(x) if x.is_num(f)), "the operand is the number given");
    check(matches!(y, Some(Ob::Op(k)) if same(&k, op)), "the keyword follows the number");
    r.ws();
    check(r.at_end(), "nothing follows");
}

/// Any integer operand.
fn int() {
    let i = any_i32();
    let mut c = content(false);
    c.op("K").operand(i).operand(Name(b"A"));
    let b = c.finish();
    let mut r = Rd::new(&b);
    let (x, y, z) = (r.obj(), r.obj(), r.obj());
    cover("integer");
    check(matches!(x, Some(x) if x.is_int(i as i64)), "the operand is the number given");
    check(matches!(y, Some(x) if x.is_name(b"A")), "the name follows the number");
    check(matches!(z, Some(Ob::Op(k)) if same(&k, b"K")), "the keyword follows the name");
}

/// Many operands and many operations.
fn large() {
    let n = [17, 32, 33, 127, 128, 255, 256, 300][choose(8)];
    let mut c = content(choose(2) == 0);
    let b = any_u8();
    let f: Vec<f32> = (0..n).map(|i| i as f32 + 0.5).collect();
    let r = rs(&f);
    let mut want = vec![];
    match choose(6) {
        0 => {
            c.set_dash_pattern(f.iter().copied(), 0.5);
            want.push(Op { op: b"d", args: vec![V::Arr(r), V::Real(0.5)] });
        }
        1 => {
            c.set_fill_color(f.iter().copied());
            want.push(Op { op: b"scn", args: r });
        }
        2 => {
            c.set_stroke_pattern(f.iter().copied(), Name(&[b]));
            let mut a = r;
            a.push(V::Name(vec![b]));
            want.push(Op { op: b"SCN", args: a });
        }
        3 => {
            let mut a = vec![];
            let mut p = c.show_positioned();
            let mut items = p.items();
            for i in 0..n {
                if i % 2 == 0 {
                    items.show(Str(&[b, b'x']));
                    a.push(V::Str(vec![b, b'x']));
                } else {
                    items.adjust(f[i]);
                    a.push(V::Real(f[i]));
                }
            }
            drop(items);
            drop(p);
            want.push(Op { op: b"TJ", args: vec![V::Arr(a)] });
        }
        4 => {
            let s = vec![b; n];
            c.show(Str(&s));
            want.push(Op { op: b"Tj", args: vec![V::Str(s)] });
        }
        _ => {
            for i in 0..n {
                c.line_to(f[i], 1.0);
                want.push(Op { op: b"l", args: vec![V::Real(f[i]), V::Real(1.0)] });
            }
            c.show(Str(&[b]));
            want.push(Op { op: b"Tj", args: vec![V::Str(vec![b])] });
        }
    }
    verify(&c.finish(), &want);
}

crate::harnesses! {
    fn p15_large() { large() }
    fn p15_single_a() { single(0, 40) }
    fn p15_single_b() { single(40, 67) }
    fn p15_single_c() { single(67, OPS) }
    fn p15_reals_a() { real_operands(0, 20) }
    fn p15_reals_b() { real_operands(20, 50) }
    fn p15_reals_c() { real_operands(50, OPS) }
    fn p15_pair_pretty_a() { pair(true, 0, 52) }
    fn p15_pair_pretty_b() { pair(true, 52, OPS) }
    fn p15_pair_compact_a() { pair(false, 0, 52) }
    fn p15_pair_compact_b() { pair(false, 52, OPS) }
    fn p15_triple_pretty() { triple(true) }
    fn p15_triple_compact() { triple(false) }
    fn p15_chained() { chained() }
    fn p15_real() { real() }
    fn p15_int() { int() }
}

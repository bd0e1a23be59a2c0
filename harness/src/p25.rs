//! Content streams as a history: nesting, appending, finishing.
use crate::common::*;
use crate::ops::*;
use crate::values::*;
use pdf_writer::*;

/// Any sequence of saves, restores and other operations.
fn depth(n: usize) {
    let mut c = Content::with_settings(Settings { pretty: choose(2) == 0 });
    let mut g = G { n: 0, any: false, reals: vec![], wild: usize::MAX };
    let mut d = 0usize;
    let mut want = vec![];
    check(c.state_nesting_depth() == 0, "a fresh content stream has no nesting");
    for _ in 0..n {
        let k = [8, 9, 25, 50][choose(4)];
        let before = c.as_bytes().to_vec();
        want.push(write(&mut c, k, &mut g));
        if k == 8 {
            d += 1;
        }
        if k == 9 && d > 0 {
            d -= 1;
        }
        cover("step");
        check(c.state_nesting_depth() == d, "the nesting depth is the number of open saves");
        let b = c.as_bytes();
        check(b.len() > before.len() && same(&b[..before.len()], &before), "an operation only appends");
        check(c.len() == b.len(), "the length is that of the bytes");
    }
    verify(c.as_bytes(), &want);
    verify(&c.finish(), &want);
}

/// Only saves and restores, longer.
fn saves(n: usize) {
    let mut c = Content::new();
    let mut d = 0usize;
    for _ in 0..n {
        if choose(2) == 0 {
            c.save_state();
            d += 1;
        } else {
            c.restore_state();
            d = d.saturating_sub(1);
        }
        cover("step");
        check(c.state_nesting_depth() == d, "the nesting depth is the number of open saves");
    }
    let b = c.finish();
    check(b.len() == if n == 0 { 0 } else { 2 * n - 1 }, "every save and restore is written");
}

/// Finishing hands over exactly what was written and its limits; the capacity
/// makes no difference.
fn finish() {
    let pretty = choose(2) == 0;
    let cap = [0, 1, 64, 5000][choose(4)];
    let s = Settings { pretty };
    let mut c = match choose(2) {
        0 => Content::with_settings_and_capacity(s, cap),
        _ => Content::with_settings(s),
    };
    let mut a = Content::with_settings(s);
    let n = choose(3);
    let v = of_kind(choose(KINDS));
    for i in 0..n {
        for x in [&mut c, &mut a] {
            if i == 0 {
                x.set_font(Name(b"ABC"), 12.5);
            }
            put(x.op("XY").obj(), &v);
        }
        c.reserve(i * 100);
    }
    cover("finished");
    check(same(c.as_bytes(), a.as_bytes()), "capacity and reserving do not change the bytes");
    check(n > 0 || c.as_bytes().len() == 0, "nothing is written on its own");
    let keep = c.as_bytes().to_vec();
    let b = c.finish();
    let d = a.finish();
    check(same(&b, b.as_slice()), "the buffer holds its bytes");
    check(b.limits() == d.limits(), "capacity does not change the limits");
    check(n == 0 || b.limits().name_len() >= 3, "the limits are handed over");
    check(n == 0 || b.limits().real() >= 12.5, "the limits are handed over");
    check(same(&b, &keep), "finishing returns what was written");
    check(same(&b.into_vec(), &keep), "the vector is what was written");
}

/// A content stream in a file, and in a form, arrives unchanged.
fn embedded() {
    let pretty = choose(2) == 0;
    let mut c = Content::with_settings(Settings { pretty });
    let mut g = G { n: 2, any: false, reals: vec![], wild: usize::MAX };
    let mut want = vec![];
    for _ in 0..2 {
        want.push(write(&mut c, [4, 8, 49, 63, 66][choose(5)], &mut g));
    }
    let b = c.finish();
    let mut k = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    if choose(2) == 0 {
        k.stream(Ref::new(3), &b);
    } else {
        k.form_xobject(Ref::new(3), &b).bbox(Rect::new(0.0, 0.0, 1.0, 1.0));
    }
    match tops(k.as_bytes()) {
        Some(t) if t.len() == 1 => match &t[0].data {
            Some(d) => {
                cover("embedded");
                verify(d, &want)
            }
            None => check(false, "the content is a stream"),
        },
        _ => check(false, "one stream is written"),
    }
}

/// Deep nesting.
fn deep(ns: &[usize], ms: &[usize]) {
    let n = ns[choose(ns.len())];
    let m = ms[choose(ms.len())];
    let mut c = Content::new();
    for i in 0..n {
        c.save_state();
        check(c.state_nesting_depth() == i + 1, "the nesting depth is the number of open saves");
    }
    for i in 0..m {
        c.restore_state();
        check(c.state_nesting_depth() == n.saturating_sub(i + 1), "the nesting depth is the number of open saves");
    }
    c.save_state();
    cover("deep");
    check(c.state_nesting_depth() == n.saturating_sub(m) + 1, "the nesting depth is the number of open saves");
    let b = c.finish();
    check(b.len() == 2 * (n + m + 1) - 1, "every save and restore is written");
}

crate::harnesses! {
    fn p25_deep() { deep(&[127, 128, 255, 256, 257, 300], &[1, 128, 256, 299, 300]) }
    fn p25_deeper() { deep(&[32768, 65535, 65536, 70000], &[1, 65536, 70000]) }
    fn p25_depth4() { depth(4) }
    fn p25_depth5() { depth(5) }
    fn p25_saves() { saves(12) }
    fn p25_finish() { finish() }
    fn p25_embedded() { embedded() }
}

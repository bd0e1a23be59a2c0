//! Reported limits are the maxima over everything written.
use crate::common::*;
use crate::values::*;
use pdf_writer::*;

/// Expected limits, from what was written.
#[derive(Clone, Copy)]
struct Lim {
    int: i64,
    /// with object identifiers and reference numbers, which may be counted too
    int_refs: i64,
    real: f32,
    name: usize,
    str: usize,
    arr: usize,
    dict: usize,
}

fn zero() -> Lim {
    Lim { int: 0, int_refs: 0, real: 0.0, name: 0, str: 0, arr: 0, dict: 0 }
}

/// Branch-free maximum.
fn max(a: i64, b: i64) -> i64 {
    let m = ((a < b) as i64).wrapping_neg();
    (a & !m) | (b & m)
}
fn maxu(a: usize, b: usize) -> usize {
    if a < b {
        b
    } else {
        a
    }
}
fn abs(a: i64) -> i64 {
    let m = ((a < 0) as i64).wrapping_neg();
    (a ^ m) - m
}

impl Lim {
    fn int(&mut self, v: i64) {
        self.int = max(self.int, abs(v));
        self.int_refs = max(self.int_refs, abs(v));
    }
    fn id(&mut self, v: i64) {
        self.int_refs = max(self.int_refs, v);
    }
    fn num(&mut self, f: f32) {
        // concrete values only
        if f == f.trunc() && f >= -2147483648.0 && f < 2147483648.0 {
            self.int(f as i64);
        } else if f.abs() > self.real {
            self.real = f.abs();
        }
    }
    fn val(&mut self, v: &V) {
        match v {
            V::Null | V::Bool(_) => {}
            V::Int(i) => self.int(*i as i64),
            V::Real(f) => self.num(*f),
            V::Str(s) | V::Text(s) => self.str = maxu(self.str, s.len()),
            V::Name(s) => self.name = maxu(self.name, s.len()),
            V::Ref(i) => self.id(*i as i64),
            V::Rect(a, b, c, d) => {
                for f in [a, b, c, d] {
                    self.num(*f);
                }
                self.arr = maxu(self.arr, 4);
            }
            V::Arr(a) => {
                for x in a {
                    self.val(x);
                }
                self.arr = maxu(self.arr, a.len());
            }
            V::Dict(d) => {
                for (k, x) in d {
                    self.name = maxu(self.name, k.len());
                    self.val(x);
                }
                self.dict = maxu(self.dict, d.len());
            }
        }
    }
    fn merge(&mut self, o: &Lim) {
        self.int = max(self.int, o.int);
        self.int_refs = max(self.int_refs, o.int_refs);
        if o.real > self.real {
            self.real = o.real;
        }
        self.name = maxu(self.name, o.name);
        self.str = maxu(self.str, o.str);
        self.arr = maxu(self.arr, o.arr);
        self.dict = maxu(self.dict, o.dict);
    }
}

/// i32::MIN has no absolute value in the type of the limit.
fn clip(v: i64) -> i64 {
    let m = ((v > i32::MAX as i64) as i64).wrapping_neg();
    (v & !m) | (i32::MAX as i64 & m)
}

fn verify(l: &Limits, e: &Lim) {
    cover("limits");
    let i = l.int() as i64;
    check((i >= clip(e.int)) & (i <= clip(e.int_refs)), "integer limit is the largest magnitude written");
    check(l.real().to_bits() == e.real.to_bits(), "real limit is the largest magnitude written");
    check(l.name_len() == e.name, "name limit is the longest name written");
    check(l.str_len() == e.str, "string limit is the longest string written");
    check(l.array_len() == e.arr, "array limit is the longest array written");
    check(l.dict_entries() == e.dict, "dictionary limit is the largest dictionary written");
}

fn chunk() -> Chunk {
    Chunk::with_settings(Settings { pretty: choose(2) == 0 })
}

/// Values of any two kinds, nested.
fn kinds() {
    let (a, b) = (of_kind(choose(KINDS)), of_kind(choose(KINDS)));
    let v = match choose(3) {
        0 => V::Arr(vec![a, b]),
        1 => V::Dict(vec![(b"Key".to_vec(), a), (b"K".to_vec(), b)]),
        _ => V::Dict(vec![(b"K".to_vec(), V::Arr(vec![V::Arr(vec![a]), b]))]),
    };
    let mut c = chunk();
    put(c.indirect(Ref::new(3)), &v);
    let mut e = zero();
    e.id(3);
    e.val(&v);
    verify(c.limits(), &e);
}

fn ints() {
    let (x, y) = (any_i32(), any_u8() as i32 - 128);
    let mut c = Chunk::new();
    let v = V::Arr(if choose(2) == 0 { vec![V::Int(x), V::Int(y)] } else { vec![V::Int(y), V::Int(x)] });
    put(c.indirect(Ref::new(1)), &v);
    let mut e = zero();
    e.id(1);
    e.val(&v);
    verify(c.limits(), &e);
}

fn reals() {
    let x = any_finite();
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(x);
    let l = c.limits();
    // the magnitude is covered by one of the two number limits
    if l.real() == 0.0 {
        // covered by the integer limit: see many_reals
        cover("integral");
    } else {
        cover("real");
        check(l.real().to_bits() == x.to_bits() & 0x7fff_ffff, "magnitude of a real is covered exactly");
        check(l.int() == 1, "a real does not count as an integer");
    }
}

/// Order of several reals.
fn many_reals() {
    let n = 1 + choose(3);
    let mut v = vec![];
    for _ in 0..n {
        v.push(V::Real([0.25, -1.5, 1e-7, -3e20, 7.0, -2147483648.0, 2147483648.0, 0.0][choose(8)]));
    }
    let v = V::Arr(v);
    let mut c = Chunk::new();
    put(c.indirect(Ref::new(1)), &v);
    let mut e = zero();
    e.id(1);
    e.val(&v);
    verify(c.limits(), &e);
}

/// Lengths of names, strings, arrays and dictionaries.
fn lengths() {
    let n = choose(6);
    let b = any_from(b"ab(\\\x80\n", 1);
    let long = vec![b[0]; n * n * n * n];
    let v = match choose(5) {
        0 => V::Str(long),
        1 => V::Name(long),
        2 => V::Arr((0..n).map(|_| V::Null).collect()),
        3 => V::Dict((0..n).map(|_| (b"K".to_vec(), V::Null)).collect()),
        _ => V::Dict(vec![(long, V::Arr(vec![V::Str(b"xyz".to_vec()), V::Arr(vec![])]))]),
    };
    let mut c = chunk();
    let mut e = zero();
    if choose(2) == 0 {
        put(c.indirect(Ref::new(1)), &v);
        e.val(&v);
    } else {
        // in a stream dictionary
        let d = any_bytes(3);
        put(c.stream(Ref::new(1), &d).insert(Name(b"Q")), &v);
        e.val(&V::Dict(vec![(b"Length".to_vec(), V::Int(3)), (b"Q".to_vec(), v)]));
    }
    e.id(1);
    verify(c.limits(), &e);
}

/// Length of the string that is found in the output.
fn found(c: &Chunk) -> Option<usize> {
    match one_indirect(c.as_bytes(), 1) {
        Some(Ob::Str(s)) => Some(s.len()),
        _ => None,
    }
}

/// Text strings count as long as they are in the file.
fn text(k: usize) {
    let mut s = String::new();
    for _ in 0..k {
        s.push(any_char());
    }
    let mut c = Chunk::new();
    if choose(2) == 0 {
        c.indirect(Ref::new(1)).primitive(TextStr(&s));
    } else {
        let id = if choose(2) == 0 { LanguageIdentifier::new(*b"de", Some(*b"AT")) } else { LanguageIdentifier::new(*b"en", None) };
        let parts = [(id, &s[..]), (LanguageIdentifier::new(*b"fr", None), "x")];
        c.indirect(Ref::new(1)).primitive(TextStrWithLang(&parts[..choose(3)]));
    }
    match found(&c) {
        Some(n) => {
            cover("text");
            check(c.limits().str_len() == n, "string limit is the length of the text string as written");
        }
        None => check(false, "a string is written"),
    }
}

fn date() {
    let mut d = Date::new(any_u16());
    let n = choose(8);
    if n > 0 {
        d = d.month(any_u8());
    }
    if n > 1 {
        d = d.day(3);
    }
    if n > 2 {
        d = d.hour(3);
    }
    if n > 3 {
        d = d.minute(3);
    }
    if n > 4 {
        d = d.second(3);
    }
    if n > 5 {
        d = d.utc_offset_hour(choose(3) as i8 - 1);
    }
    if n > 6 {
        d = d.utc_offset_minute(9);
    }
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(d);
    match found(&c) {
        Some(n) => {
            cover("date");
            check(c.limits().str_len() == n, "string limit is the length of the date string");
        }
        None => check(false, "a string is written"),
    }
}

/// Content streams, and their limits merged into a chunk.
fn content() {
    let (a, b) = (of_kind(choose(KINDS)), of_kind(2));
    let mut t = Content::with_settings(Settings { pretty: choose(2) == 0 });
    let mut e = zero();
    {
        let mut o = t.op("xx");
        put(o.obj(), &a);
        put(o.obj(), &b);
    }
    e.val(&a);
    e.val(&b);
    if choose(2) == 0 {
        t.set_dash_pattern([1.0, 300.5, 2.0], 5.0);
        e.val(&V::Arr(vec![V::Int(1), V::Real(300.5), V::Int(2)]));
        e.int(5);
    }
    if choose(2) == 0 {
        let mut p = t.show_positioned();
        p.items().show(Str(b"abcdef")).adjust(-70.5).show(Str(b"x"));
        p.finish();
        e.val(&V::Arr(vec![V::Str(b"abcdef".to_vec()), V::Real(-70.5), V::Str(b"x".to_vec())]));
    }
    let buf = t.finish();
    verify(buf.limits(), &e);
    let mut c = Chunk::new();
    let x = of_kind(choose(3));
    put(c.indirect(Ref::new(1)), &x);
    c.merge_limits(buf.limits());
    e.id(1);
    e.val(&x);
    verify(c.limits(), &e);
}

/// Extending, cloning, renumbering.
fn combine() {
    let (a, b) = (of_kind(choose(KINDS)), of_kind(choose(KINDS)));
    let (mut x, mut y) = (Chunk::new(), chunk());
    put(x.indirect(Ref::new(1)), &a);
    put(y.indirect(Ref::new(2)), &V::Arr(vec![b.clone(), V::Name(b"ab".to_vec())]));
    let (mut e, mut f) = (zero(), zero());
    e.id(1);
    e.val(&a);
    f.id(2);
    f.val(&V::Arr(vec![b, V::Name(b"ab".to_vec())]));
    let mut g = e;
    g.merge(&f);
    match choose(4) {
        0 => {
            x.extend(&y);
            verify(x.limits(), &g);
        }
        1 => {
            let mut z = x.clone();
            z.merge_limits(y.limits());
            verify(z.limits(), &g);
            verify(x.limits(), &e);
        }
        2 => {
            y.renumber_into(&mut x, |r| Ref::new(r.get() + 5));
            // identifiers may have grown
            g.id(30);
            verify(x.limits(), &g);
        }
        _ => {
            let mut l = Limits::new();
            check(l == Limits::default(), "fresh limits are zero");
            l.merge(x.limits());
            l.merge(y.limits());
            verify(&l, &g);
        }
    }
}

/// Sizes beyond 8- and 16-bit lengths and the limits of Annex C.
fn large() {
    let n = [126, 127, 128, 255, 256, 257, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536][choose(14)];
    let b = any_from(b"a\x80", 1)[0];
    let mut c = Chunk::new();
    let mut e = zero();
    e.id(1);
    match choose(6) {
        0 => {
            c.indirect(Ref::new(1)).primitive(Str(&vec![b; n]));
            e.str = n;
        }
        1 => {
            c.indirect(Ref::new(1)).primitive(Name(&vec![b; n]));
            e.name = n;
        }
        2 => {
            c.indirect(Ref::new(1)).array().items((0..n).map(|_| true));
            e.arr = n;
        }
        3 => {
            c.indirect(Ref::new(1)).dict().pairs((0..n).map(|_| (Name(b"K"), b == b'a')));
            e.dict = n;
            e.name = 1;
        }
        4 => {
            let mut t = Content::new();
            t.show(Str(&vec![b; n]));
            c.merge_limits(t.finish().limits());
            e.str = n;
            e.int_refs = 0;
        }
        _ => {
            c.indirect(Ref::new(1)).primitive(TextStr(&"x".repeat(n)));
            e.str = n;
        }
    }
    verify(c.limits(), &e);
}

crate::harnesses! {
    fn p14_large() { large() }
    fn p14_kinds() { kinds() }
    fn p14_ints() { ints() }
    fn p14_reals() { reals() }
    fn p14_many_reals() { many_reals() }
    fn p14_lengths() { lengths() }
    fn p14_text() { text(choose(3)) }
    fn p14_date() { date() }
    fn p14_content() { content() }
    fn p14_combine() { combine() }
}

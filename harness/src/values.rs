//! Generated object values: written through the crate, compared with what the
//! reader finds.
use crate::common::*;
use pdf_writer::*;

#[derive(Clone)]
pub enum V {
    Null,
    Bool(bool),
    Int(i32),
    Real(f32),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Ref(i32),
    Rect(f32, f32, f32, f32),
    Text(Vec<u8>),
    Arr(Vec<V>),
    Dict(Vec<(Vec<u8>, V)>),
}

pub fn text(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len());
    for &c in b {
        s.push(c as char);
    }
    s
}

pub fn put(o: Obj, v: &V) {
    match v {
        V::Null => o.primitive(Null),
        V::Bool(b) => o.primitive(*b),
        V::Int(i) => o.primitive(*i),
        V::Real(f) => o.primitive(*f),
        V::Str(s) => o.primitive(Str(s)),
        V::Name(s) => o.primitive(Name(s)),
        V::Ref(i) => o.primitive(Ref::new(*i)),
        V::Rect(a, b, c, d) => o.primitive(Rect::new(*a, *b, *c, *d)),
        V::Text(s) => o.primitive(TextStr(&text(s))),
        V::Arr(a) => {
            let mut w = o.array();
            for x in a {
                put(w.push(), x);
            }
        }
        V::Dict(d) => {
            let mut w = o.dict();
            for (k, x) in d {
                put(w.insert(Name(k)), x);
            }
        }
    }
}

/// Straight-line comparison (no early exit on symbolic data).
pub fn agrees(o: &Ob, v: &V) -> bool {
    match v {
        V::Null => o.is_null(),
        V::Bool(b) => o.is_bool(*b),
        V::Int(i) => o.is_int(*i as i64),
        V::Real(f) => o.is_num(*f),
        V::Str(s) | V::Text(s) => o.is_str(s),
        V::Name(s) => o.is_name(s),
        V::Ref(i) => o.is_ref(*i as i64),
        V::Rect(a, b, c, d) => match o.arr() {
            Some(x) if x.len() == 4 => x[0].is_num(*a) & x[1].is_num(*b) & x[2].is_num(*c) & x[3].is_num(*d),
            _ => false,
        },
        V::Arr(a) => match o.arr() {
            Some(x) if x.len() == a.len() => {
                let mut ok = true;
                for i in 0..a.len() {
                    ok &= agrees(&x[i], &a[i]);
                }
                ok
            }
            _ => false,
        },
        V::Dict(d) => match o.dict() {
            Some(x) if x.len() == d.len() => {
                let mut ok = true;
                for i in 0..d.len() {
                    ok &= same(&x[i].0, &d[i].0);
                    ok &= agrees(&x[i].1, &d[i].1);
                }
                ok
            }
            _ => false,
        },
    }
}

pub const KINDS: usize = 14;

/// A value of the given kind with symbolic content: integers of up to two
/// digits and either sign, reals of either sign and notation, strings and names
/// of zero or one arbitrary byte.
pub fn of_kind(k: usize) -> V {
    match k {
        0 => V::Null,
        1 => V::Bool(any_bool()),
        2 => {
            let v = any_u8() as i8 as i32;
            assume(v > -100 && v < 100);
            V::Int(v)
        }
        3 => V::Real(real()),
        4 => V::Str(any_bytes(1)),
        5 => V::Str(vec![]),
        6 => V::Name(any_bytes(1)),
        7 => V::Name(vec![]),
        8 => V::Ref(small_id()),
        9 => V::Rect(1.0, real(), 2.5, -3.0),
        10 => {
            let b = any_u8();
            assume(b >= 32 && b < 127);
            V::Text(vec![b])
        }
        11 => V::Arr(vec![]),
        12 => V::Dict(vec![]),
        _ => V::Text(vec![]),
    }
}

pub fn small_id() -> i32 {
    let v = any_u8() as i32;
    assume(v > 0 && v < 20);
    v
}

/// A float of each spelling: plain, negative, very small, very large
/// (numbers themselves are P04).
pub fn real() -> f32 {
    match choose(4) {
        0 => 0.25,
        1 => -1.5,
        2 => 1e-7,
        _ => -3e20,
    }
}

/// As `agrees`, but dictionary entries may come in any order at any level (the
/// keys of the expected value are concrete).
pub fn agrees_unordered(o: &Ob, v: &V) -> bool {
    match v {
        V::Arr(a) => match o.arr() {
            Some(x) if x.len() == a.len() => {
                let mut ok = true;
                for i in 0..a.len() {
                    ok &= agrees_unordered(&x[i], &a[i]);
                }
                ok
            }
            _ => false,
        },
        V::Dict(d) => match o.dict() {
            Some(x) if x.len() == d.len() => {
                // duplicates: the i-th occurrence matches the i-th occurrence
                let mut used = vec![false; x.len()];
                let mut ok = true;
                for i in 0..d.len() {
                    let mut hit = false;
                    for j in 0..x.len() {
                        if !used[j] && same(&x[j].0, &d[i].0) {
                            used[j] = true;
                            ok &= agrees_unordered(&x[j].1, &d[i].1);
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        return false;
                    }
                }
                ok
            }
            _ => false,
        },
        _ => agrees(o, v),
    }
}

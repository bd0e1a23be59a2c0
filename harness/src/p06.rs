//! Neighbouring tokens stay separate, in pretty and in compact mode.
use crate::common::*;
use crate::values::*;
use pdf_writer::*;

fn chunk(pretty: bool) -> Chunk {
    Chunk::with_settings(Settings { pretty })
}

fn verify(c: &Chunk, v: &V) {
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("parsed");
            check(agrees(&o, v), "the bytes read back as exactly the objects that were written")
        }
        None => check(false, "output is well-formed PDF syntax"),
    }
}

fn array(n: usize, pretty: bool) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(of_kind(choose(KINDS)));
    }
    let v = V::Arr(v);
    let mut c = chunk(pretty);
    put(c.indirect(Ref::new(1)), &v);
    verify(&c, &v);
}

/// `any_key`: keys are empty or one arbitrary byte, else empty or one letter.
fn dict(n: usize, pretty: bool, any_key: bool) {
    let mut v = vec![];
    for _ in 0..n {
        let klen = choose(2);
        let key = any_bytes(klen);
        assume(any_key || klen == 0 || (key[0] >= b'A' && key[0] <= b'Z'));
        v.push((key, of_kind(choose(KINDS))));
    }
    let v = V::Dict(v);
    let mut c = chunk(pretty);
    put(c.indirect(Ref::new(1)), &v);
    verify(&c, &v);
}

/// Several indirect objects after one another.
fn objects(pretty: bool) {
    let a = of_kind(choose(KINDS));
    let b = of_kind(choose(KINDS));
    let (i, j) = (any_i32(), small_id());
    assume(i > 0 && i < 1000);
    let mut c = chunk(pretty);
    put(c.indirect(Ref::new(i)), &a);
    put(c.indirect(Ref::new(j)), &b);
    let mut r = Rd::new(c.as_bytes());
    let x = indirect(&mut r);
    let y = indirect(&mut r);
    r.ws();
    match (x, y) {
        (Some((n, x)), Some((m, y))) => {
            check(r.at_end(), "nothing follows the objects that were written");
            check((n == i as i64) & (m == j as i64), "objects carry their identifiers");
            check(agrees(&x, &a) & agrees(&y, &b), "objects have the values that were written");
        }
        _ => check(false, "a sequence of indirect objects is well-formed"),
    }
}

/// The same calls in both modes denote the same object.
fn typed(pretty: bool) {
    let n = choose(4);
    let mut ints = vec![];
    for _ in 0..n {
        let v = any_u8() as i8 as i32;
        assume(v > -100);
        ints.push(v);
    }
    let (k, f) = (any_bytes(1), real());
    let mut c = chunk(pretty);
    let mut d = c.indirect(Ref::new(1)).dict();
    d.insert(Name(b"A")).array().typed::<i32>().items(ints.iter().copied());
    d.insert(Name(b"B")).array().items([Name(&k), Name(b"x")]);
    d.insert(Name(b"C")).dict().typed::<f32>().pair(Name(&k), f).pairs([(Name(b"q"), 2.0), (Name(b""), 3.0)]);
    d.insert(Name(b"D")).dict().pairs([(Name(b"q"), true), (Name(b"r"), false)]);
    check(d.len() == 4 && !d.is_empty(), "dictionary writers count their pairs");
    d.finish();
    let mut iv = vec![];
    for i in &ints {
        iv.push(V::Int(*i));
    }
    let v = V::Dict(vec![
        (b"A".to_vec(), V::Arr(iv)),
        (b"B".to_vec(), V::Arr(vec![V::Name(k.clone()), V::Name(b"x".to_vec())])),
        (
            b"C".to_vec(),
            V::Dict(vec![(k, V::Real(f)), (b"q".to_vec(), V::Int(2)), (vec![], V::Int(3))]),
        ),
        (
            b"D".to_vec(),
            V::Dict(vec![(b"q".to_vec(), V::Bool(true)), (b"r".to_vec(), V::Bool(false))]),
        ),
    ]);
    verify(&c, &v);
}

/// Many values next to each other, one of any kind anywhere among them.
fn many() {
    let n = [17, 64, 256][choose(3)];
    let x = of_kind(choose(KINDS));
    let fill = match choose(3) {
        0 => V::Int(12345),
        1 => V::Name(b"Name".to_vec()),
        _ => V::Ref(77),
    };
    let at = [0, n / 2, n - 1][choose(3)];
    let one = |i: usize| if i == at { x.clone() } else { fill.clone() };
    let v = if choose(2) == 0 {
        V::Arr((0..n).map(one).collect())
    } else {
        V::Dict((0..n).map(|i| (b"Key".to_vec(), one(i))).collect())
    };
    let mut c = chunk(choose(2) == 0);
    put(c.indirect(Ref::new(1)), &v);
    verify(&c, &v);
}

crate::harnesses! {
    fn p06_many() { many() }
    fn p06_arr1_pretty() { array(1, true) }
    fn p06_arr1_compact() { array(1, false) }
    fn p06_arr2_pretty() { array(2, true) }
    fn p06_arr2_compact() { array(2, false) }
    fn p06_arr3_compact() { array(3, false) }
    fn p06_dict1_pretty() { dict(1, true, true) }
    fn p06_dict1_compact() { dict(1, false, true) }
    fn p06_dict2_compact() { dict(2, false, false) }
    fn p06_dict2_any() { dict(2, choose(2) == 0, true) }
    fn p06_objects_pretty() { objects(true) }
    fn p06_objects_compact() { objects(false) }
    fn p06_typed_pretty() { typed(true) }
    fn p06_typed_compact() { typed(false) }
}

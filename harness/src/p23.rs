//! References: identity, order, allocation.
use crate::common::*;
use crate::values::*;
use pdf_writer::*;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

fn any_id() -> i32 {
    let v = any_i32();
    assume(v > 0);
    v
}
fn identity() {
    let v = any_i32();
    panic_ok(v <= 0);
    let r = Ref::new(v);
    panic_ok(false);
    cover("made");
    check(v > 0, "identifiers that are not positive are rejected");
    check(r.get() == v, "a reference keeps its identifier");
    let copy = r;
    check(copy.get() == v && r == copy, "copies are the same");
    check(Some(r).is_some(), "an optional reference is there");
    check(Some(r) != None, "no identifier stands for none");
}
fn next() {
    let v = any_id();
    let r = Ref::new(v);
    panic_ok(v == i32::MAX);
    let n = r.next();
    panic_ok(false);
    cover("next");
    check(v != i32::MAX, "no reference after the last");
    check(n.get() as i64 == v as i64 + 1, "the next consecutive identifier");
    check(r.get() == v, "the reference itself stays");
    check(n > r && n != r, "the next one is greater");
}
/// `n` allocations of any kind.
fn bump(n: usize) {
    let v = any_id();
    let mut r = Ref::new(v);
    let mut want = v as i64;
    let mut last: Option<Ref> = None;
    let mut seen: Vec<Ref> = vec![];
    for _ in 0..n {
        match choose(3) {
            0 => {
                panic_ok(want == i32::MAX as i64);
                let got = r.bump();
                panic_ok(false);
                cover("allocated");
                check(want < i32::MAX as i64, "allocation fails rather than repeats");
                check(got.get() as i64 == want, "allocation is consecutive");
                check(r.get() as i64 == want + 1, "the allocator stands at the next one");
                check(last.map_or(true, |l| l < got), "allocation is strictly increasing");
                for s in &seen {
                    check(*s != got, "no identifier is allocated twice");
                }
                seen.push(got);
                last = Some(got);
                want += 1;
            }
            1 => {
                // A copy is an allocator of its own.
                let mut c = r;
                panic_ok(want == i32::MAX as i64);
                c.bump();
                panic_ok(false);
                check(r.get() as i64 == want, "copies do not affect each other");
            }
            _ => {
                panic_ok(want == i32::MAX as i64);
                let p = r.next();
                panic_ok(false);
                check(r.get() as i64 == want && p.get() as i64 == want + 1, "looking ahead allocates nothing");
            }
        }
    }
}
fn order() {
    let (a, b) = (any_id(), any_id());
    let (x, y) = (Ref::new(a), Ref::new(b));
    cover("compared");
    check((x == y) == (a == b), "equal exactly if the identifiers are");
    check((x != y) == (a != b), "unequal exactly if the identifiers are");
    check((x < y) == (a < b) && (x <= y) == (a <= b), "ordered by identifier");
    check((x > y) == (a > b) && (x >= y) == (a >= b), "ordered by identifier");
    check(x.cmp(&y) == a.cmp(&b), "ordered by identifier");
    check(x.partial_cmp(&y) == a.partial_cmp(&b), "ordered by identifier");
    check(x.max(y).get() == if a > b { a } else { b }, "ordered by identifier");
    check(x.min(y).get() == if a < b { a } else { b }, "ordered by identifier");
}
fn sort() {
    let v = [any_id(), any_id(), any_id()];
    let mut r = [Ref::new(v[0]), Ref::new(v[1]), Ref::new(v[2])];
    r.sort();
    cover("sorted");
    check(r[0].get() <= r[1].get() && r[1].get() <= r[2].get(), "references sort by identifier");
    let sum = |a: i32, b: i32, c: i32| a as i64 + b as i64 + c as i64;
    check(sum(r[0].get(), r[1].get(), r[2].get()) == sum(v[0], v[1], v[2]), "sorting keeps the references");
}
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hash() {
    let (a, b) = (any_id(), any_id());
    let (mut x, mut y) = (Rec(vec![]), Rec(vec![]));
    Ref::new(a).hash(&mut x);
    Ref::new(b).hash(&mut y);
    cover("hashed");
    check(same(&x.0, &y.0) == (a == b), "a hash depends on the identifier and nothing else");
    check(x.0.len() > 0, "a hash depends on the identifier");
}
fn sets() {
    let (a, b) = (any_id(), any_id());
    let mut s = BTreeSet::new();
    check(s.insert(Ref::new(a)), "a new member");
    cover("set");
    check(s.insert(Ref::new(b)) == (a != b), "a new member exactly if the identifier is new");
    check(s.contains(&Ref::new(a)) && s.contains(&Ref::new(b)), "members are found");
    check(s.iter().next().unwrap().get() == if a < b { a } else { b }, "members are in order");
}
/// A reference appears in a file as the identifier it was made with.
fn written() {
    let (a, b) = (any_id(), any_id());
    assume(a <= 8388607 || a == i32::MAX);
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let mut arr = c.indirect(Ref::new(a)).array();
    arr.item(Ref::new(b)).item(7).item(Ref::new(a));
    drop(arr);
    match one_indirect(c.as_bytes(), a as i64) {
        Some(o) => {
            cover("read back");
            check(agrees(&o, &V::Arr(vec![V::Ref(b), V::Int(7), V::Ref(a)])), "references read back as their identifiers, generation zero");
        }
        None => check(false, "the object has the identifier"),
    }
    let mut n = 0;
    for r in c.refs() {
        n += 1;
        check(r == Ref::new(a), "the chunk reports the identifier");
    }
    check(n == 1, "the chunk reports one object");
}
/// Identifiers from an allocator are the objects of the file.
fn allocated() {
    let v = any_i32();
    assume(v > 0 && v < 6);
    let mut r = Ref::new(split(v as usize) as i32);
    let first = r.get();
    let n = 1 + choose(4);
    let mut pdf = Pdf::new();
    let ids: Vec<Ref> = (0..n).map(|_| r.bump()).collect();
    for i in &ids {
        pdf.indirect(*i).primitive(i.next());
    }
    cover("written");
    let mut k = 0;
    for i in pdf.refs() {
        check(i.get() == first + k, "objects are consecutive");
        k += 1;
    }
    check(k as usize == n, "as many as allocated");
    // No duplicates: the file can be finished.
    check(pdf.finish().len() > 0, "a file is written");
}

/// A long history of allocations.
fn long() {
    let v = any_i32();
    assume(v > 0 && v < i32::MAX - 400);
    let mut r = Ref::new(v);
    let mut ok = true;
    for i in 0..300 {
        ok &= r.bump().get() == v + i;
    }
    cover("long");
    check(ok, "allocation is consecutive");
    check(r.get() == v + 300, "the next allocation follows");
}

crate::harnesses! {
    fn p23_long() { long() }
    fn p23_identity() { identity() }
    fn p23_next() { next() }
    fn p23_bump() { bump(1 + choose(6)) }
    fn p23_order() { order() }
    fn p23_sort() { sort() }
    fn p23_hash() { hash() }
    fn p23_sets() { sets() }
    fn p23_written() { written() }
    fn p23_allocated() { allocated() }
}

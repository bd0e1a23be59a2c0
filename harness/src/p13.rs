//! Renumbering.
use crate::common::*;
use crate::file;
use crate::values::*;
use pdf_writer::*;

fn chunk(pretty: bool) -> Chunk {
    Chunk::with_settings(Settings { pretty })
}

fn mapped(v: &V, f: &dyn Fn(i32) -> i32) -> V {
    match v {
        V::Ref(i) => V::Ref(f(*i)),
        V::Arr(a) => V::Arr(a.iter().map(|x| mapped(x, f)).collect()),
        V::Dict(d) => V::Dict(d.iter().map(|(k, x)| (k.clone(), mapped(x, f))).collect()),
        _ => v.clone(),
    }
}

enum Item {
    Val(i32, V),
    /// identifier, extra dictionary entries, data
    Stream(i32, Vec<(Vec<u8>, V)>, Vec<u8>),
}

fn write(c: &mut Chunk, it: &Item) {
    match it {
        Item::Val(i, v) => put(c.indirect(Ref::new(*i)), v),
        Item::Stream(i, d, data) => {
            let mut s = c.stream(Ref::new(*i), data);
            for (k, v) in d {
                put(s.insert(Name(k)), v);
            }
        }
    }
}

/// Does the chunk hold these items under the mapping?
fn verify(c: &Chunk, items: &[Item], f: &dyn Fn(i32) -> i32) {
    let Some(t) = tops(c.as_bytes()) else {
        return check(false, "the renumbered chunk is a sequence of well-formed objects");
    };
    check(t.len() == items.len(), "renumbering keeps all objects");
    if t.len() != items.len() {
        return;
    }
    let refs: Vec<Ref> = c.refs().collect();
    check(refs.len() == items.len(), "the renumbered chunk lists all objects");
    for (k, it) in items.iter().enumerate() {
        match it {
            Item::Val(i, v) => {
                cover("value");
                check((t[k].id == f(*i) as i64) & (refs[k].get() == f(*i)), "identifiers are mapped");
                check(t[k].data.is_none(), "no stream appears");
                check(agrees(&t[k].ob, &mapped(v, f)), "references are mapped and nothing else is changed");
            }
            Item::Stream(i, d, data) => {
                cover("stream");
                check((t[k].id == f(*i) as i64) & (refs[k].get() == f(*i)), "stream identifiers are mapped");
                let mut e = vec![(b"Length".to_vec(), V::Int(data.len() as i32))];
                e.extend(d.iter().map(|(n, v)| (n.clone(), mapped(v, f))));
                check(agrees(&t[k].ob, &V::Dict(e)), "references in stream dictionaries are mapped");
                check(
                    match &t[k].data {
                        Some(x) => same(x, data),
                        None => false,
                    },
                    "stream data is untouched",
                );
            }
        }
    }
}

fn run(items: &[Item], pretty: bool, f: &dyn Fn(i32) -> i32) -> Chunk {
    let mut c = chunk(pretty);
    for it in items {
        write(&mut c, it);
    }
    let r = c.renumber(|old| Ref::new(f(old.get())));
    verify(&r, items, f);
    r
}

fn plus(i: i32) -> i32 {
    i + 30
}

/// A value between two references.
fn between(v: V, pretty: bool) {
    let items = [
        Item::Val(2, V::Arr(vec![V::Ref(2), v.clone(), V::Ref(3)])),
        Item::Val(3, V::Dict(vec![(b"K".to_vec(), v), (b"L".to_vec(), V::Ref(11))])),
    ];
    run(&items, pretty, &plus);
}

/// Look-alikes in strings.
fn strings(n: usize, pretty: bool) {
    let s = any_from(b"R 0(1)\\\n%", n);
    between(V::Str(s), pretty);
}

fn lookalikes(pretty: bool) {
    let b = any_from(b"R( )\\", 1);
    let mut s = [
        &b"1 0 R"[..],
        b"1 0 obj",
        b"endobj",
        b">>stream\n",
        b"endstream endobj",
        b"(1 0 R",
        b")1 0 R",
        b"%1 0 R",
        b"\\1 0 R",
        b"1 0 R\r\n",
        b"obj",
    ][choose(11)]
    .to_vec();
    if choose(2) == 0 {
        s.extend(b);
    } else {
        s.splice(0..0, b);
    }
    match choose(3) {
        0 => between(V::Str(s), pretty),
        1 => between(V::Name(s), pretty),
        _ => {
            let items = [
                Item::Stream(4, vec![(s.clone(), V::Ref(5))], s.clone()),
                Item::Val(5, V::Ref(4)),
                Item::Val(6, V::Dict(vec![(s, V::Ref(4))])),
            ];
            run(&items, pretty, &plus);
        }
    }
}

/// Neighbours that could be mistaken for part of a reference.
fn neighbours(pretty: bool) {
    let a = of_kind(choose(KINDS));
    let b = of_kind(choose(KINDS));
    let items = [Item::Val(2, V::Arr(vec![a, V::Ref(7), V::Ref(12), b]))];
    run(&items, pretty, &plus);
}

/// Streams with arbitrary data.
fn streams(n: usize, pretty: bool) {
    let data = any_bytes(n);
    let items = [
        Item::Stream(1, vec![(b"P".to_vec(), V::Ref(1)), (b"stream".to_vec(), V::Ref(2))], data),
        Item::Val(2, V::Ref(1)),
    ];
    run(&items, pretty, &plus);
}

/// Any mapping of up to four identifiers.
fn mappings(pretty: bool) {
    let mut t = vec![];
    for k in 0..3 {
        let i = any_i32();
        assume(i > 0 && (i < 50 || k == 0));
        t.push(i);
    }
    let f = |i: i32| match i {
        1 => t[0],
        5 => t[1],
        99 => t[2],
        _ => i,
    };
    let items = [
        Item::Val(5, V::Dict(vec![(b"A".to_vec(), V::Ref(1)), (b"B".to_vec(), V::Ref(99))])),
        Item::Stream(1, vec![(b"A".to_vec(), V::Arr(vec![V::Ref(5), V::Int(5), V::Ref(40)]))], b"5 0 R".to_vec()),
    ];
    run(&items, pretty, &f);
}

/// Objects that end in or consist of a reference.
fn bare(pretty: bool) {
    let i = any_i32();
    assume(i > 0 && i < 100000);
    let items = [Item::Val(3, V::Ref(i)), Item::Val(4, V::Null), Item::Val(9, V::Ref(3))];
    run(&items, pretty, &|x| if x < 10 { x + 1 } else { x });
}

/// Identifiers of any size, before and after.
fn sizes() {
    const N: [i32; 12] =
        [1, 9, 10, 255, 256, 65_535, 65_536, 8_388_607, 8_388_608, 16_777_217, 1_000_000_000, i32::MAX];
    let (a, b) = (N[choose(N.len())], N[choose(N.len())]);
    let k = any_u8() as i32;
    let items = [
        Item::Val(a, V::Arr(vec![V::Int(k), V::Ref(a), V::Ref(a), V::Int(k)])),
        Item::Stream(3, vec![(b"K".to_vec(), V::Ref(a)), (b"L".to_vec(), V::Ref(3))], b"1 0 R".to_vec()),
    ];
    run(&items, choose(2) == 0, &|x| if x == a { b } else { 1_000_000 + x });
}
/// Into a chunk or file that already has objects, whatever the modes.
fn into() {
    let (p, q) = (choose(2) == 0, choose(2) == 0);
    let s = any_from(b"ab", 1);
    let items = [
        Item::Val(3, V::Arr(vec![V::Ref(4), V::Str(s.clone())])),
        Item::Stream(4, vec![(b"Q".to_vec(), V::Ref(3))], s.clone()),
    ];
    let mut c = chunk(p);
    for it in &items {
        write(&mut c, it);
    }
    if choose(2) == 0 {
        // as part of a file
        let mut pdf = Pdf::with_settings(Settings { pretty: p });
        pdf.extend(&c);
        let r = pdf.renumber(|x| Ref::new(plus(x.get())));
        verify(&r, &items, &plus);
    }
    let before = Item::Val(1, V::Ref(3));
    let after = Item::Val(2, V::Str(s));
    let mut t = Pdf::with_settings(Settings { pretty: q });
    write(&mut t, &before);
    let n = t.len();
    let keep = t.as_bytes().to_vec();
    c.renumber_into(&mut t, |x| Ref::new(x.get() + 2));
    check(same(&t.as_bytes()[..n], &keep), "what was there before stays");
    write(&mut t, &after);
    let out = t.finish();
    match file::table(&out) {
        Some(f) => {
            cover("file");
            file::verify(&out, &f, &[1, 5, 6, 2]);
            let at = |k: usize| match &f.entries[k] {
                file::Entry::Used(o, _) => top(&mut Rd { b: &out, i: *o as usize }),
                _ => None,
            };
            match (at(1), at(5), at(6)) {
                (Some(a), Some(b), Some(d)) => {
                    check(a.ob.is_ref(3), "earlier objects are not renumbered");
                    check(b.ob.arr().map_or(false, |a| a[0].is_ref(6)), "references follow");
                    check(d.ob.get(b"Q").map_or(false, |a| a.is_ref(5)), "references in streams follow");
                }
                _ => check(false, "objects are where the table says"),
            }
        }
        None => check(false, "a file of renumbered objects is readable"),
    }
}

/// Renumbering to the same identifiers and back.
fn twice(pretty: bool) {
    let v = of_kind(choose(KINDS));
    let items = [
        Item::Val(2, V::Arr(vec![V::Ref(2), v.clone(), V::Ref(8)])),
        Item::Stream(8, vec![(b"V".to_vec(), v)], b"2 0 R".to_vec()),
    ];
    let a = run(&items, pretty, &|x| 500 - x);
    let b = a.renumber(|x| Ref::new(500 - x.get()));
    verify(&b, &items, &|x| x);
}

/// Long tokens between references, and many objects.
fn long(pretty: bool) {
    let n = [126, 127, 128, 255, 256, 257, 300, 5000][choose(8)];
    let fill = [b'a', b'(', b'\\', b'R', b' ', 0xe9][choose(6)];
    let mut s = vec![fill; n];
    s[[0, n / 2, n - 1][choose(3)]] = any_from(b"()\\R\n", 1)[0];
    match choose(3) {
        0 => between(V::Str(s), pretty),
        1 => between(V::Name(s), pretty),
        _ => {
            let items = [
                Item::Stream(4, vec![(b"K".to_vec(), V::Ref(5))], s),
                Item::Val(5, V::Ref(4)),
            ];
            let r = run(&items, pretty, &plus);
            located(&r, &items);
        }
    }
}
fn many() {
    let n = 300;
    let at = [0, 254, 255, 256, 299][choose(5)];
    let b = any_u8();
    let items: Vec<Item> = (0..n)
        .map(|i| {
            let v = if i == at { V::Str(vec![b, b'R']) } else { V::Int(i) };
            Item::Val(1 + (i * 7) % n, V::Arr(vec![V::Ref(1 + (i * 11) % n), v]))
        })
        .collect();
    run(&items, choose(2) == 0, &|i| 1000 - 3 * i);
}
/// Beyond 64 kB, in one object or before it, and into a file.
fn large() {
    let n = [30_000, 65_440, 65_530, 65_536, 70_000][choose(5)];
    let fill = [b'a', b'\\', 0xe9][choose(3)];
    let mut s = vec![fill; n];
    s[[0, n / 2, n - 1][choose(3)]] = any_from(b"()R", 1)[0];
    let mut items = vec![match choose(2) {
        0 => Item::Val(4, V::Arr(vec![V::Ref(5), V::Str(s.clone()), V::Ref(4)])),
        _ => Item::Stream(4, vec![(b"K".to_vec(), V::Ref(5))], s),
    }];
    items.push(Item::Val(5, V::Arr(vec![V::Ref(4), V::Int(1)])));
    items.push(Item::Val(2, V::Ref(5)));
    let r = run(&items, choose(2) == 0, &plus);
    located(&r, &items);
}

/// Are the offsets of a renumbered chunk right?
fn located(r: &Chunk, items: &[Item]) {
    let mut pdf = Pdf::new();
    pdf.extend(r);
    let out = pdf.finish();
    let ids: Vec<i64> = items
        .iter()
        .map(|it| match it {
            Item::Val(i, _) | Item::Stream(i, _, _) => plus(*i) as i64,
        })
        .collect();
    match file::table(&out) {
        Some(f) => file::verify(&out, &f, &ids),
        None => check(false, "a file of renumbered objects is readable"),
    }
}

/// Many references in one object, and deep nesting.
fn wide() {
    let mut v = V::Ref(7);
    if choose(2) == 0 {
        let n = [100, 255, 256, 300][choose(4)];
        v = V::Arr((0..n).map(|i| if i % 3 == 0 { V::Int(i) } else { V::Ref(i) }).collect());
    } else {
        for i in 0..[10, 20, 31, 32, 40][choose(5)] {
            v = if i % 2 == 0 { V::Arr(vec![V::Ref(8), v]) } else { V::Dict(vec![(b"R".to_vec(), v), (b"S".to_vec(), V::Ref(9))]) };
        }
    }
    run(&[Item::Val(7, v), Item::Val(8, V::Ref(7))], choose(2) == 0, &plus);
}

crate::harnesses! {
    fn p13_long_pretty() { long(true) }
    fn p13_long_compact() { long(false) }
    fn p13_large() { large() }
    fn p13_many() { many() }
    fn p13_wide() { wide() }
    fn p13_strings2_pretty() { strings(2, true) }
    fn p13_strings3_compact() { strings(3, false) }
    fn p13_strings4() { strings(4, choose(2) == 0) }
    fn p13_strings6() { strings(6, choose(2) == 0) }
    fn p13_any_string3() { between(V::Str(any_bytes(3)), choose(2) == 0) }
    fn p13_any_name3() { between(V::Name(any_bytes(3)), choose(2) == 0) }
    fn p13_stream_tail() {
        let mut d = b"\nendstream\nendobj".to_vec();
        d.extend(any_from(b"\r\n 1R", 2));
        let items = [Item::Stream(1, vec![(b"P".to_vec(), V::Ref(1))], d), Item::Val(2, V::Ref(1))];
        run(&items, choose(2) == 0, &plus);
    }
    fn p13_any_string() { between(V::Str(any_bytes(2)), choose(2) == 0) }
    fn p13_any_name() { between(V::Name(any_bytes(2)), choose(2) == 0) }
    fn p13_lookalikes_pretty() { lookalikes(true) }
    fn p13_lookalikes_compact() { lookalikes(false) }
    fn p13_neighbours_pretty() { neighbours(true) }
    fn p13_neighbours_compact() { neighbours(false) }
    fn p13_streams_pretty() { streams(choose(3), true) }
    fn p13_streams_compact() { streams(choose(3), false) }
    fn p13_mappings() { mappings(choose(2) == 0) }
    fn p13_sizes() { sizes() }
    fn p13_bare() { bare(choose(2) == 0) }
    fn p13_into() { into() }
    fn p13_twice() { twice(choose(2) == 0) }
}

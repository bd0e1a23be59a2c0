//! Containers nest and close as they were opened, however writers are ended.
use crate::common::*;
use crate::values::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn chunk(pretty: bool) -> Chunk {
    Chunk::with_settings(Settings { pretty })
}

/// An arbitrary tree of arrays and dictionaries with at most two children per
/// node.
fn tree(depth: usize) -> V {
    if depth == 0 {
        return V::Int(choose_leaf());
    }
    match choose(7) {
        0 => V::Int(choose_leaf()),
        1 => V::Arr(vec![]),
        2 => V::Arr(vec![tree(depth - 1)]),
        3 => {
            let a = tree(depth - 1);
            V::Arr(vec![a, tree(depth - 1)])
        }
        4 => V::Dict(vec![]),
        5 => V::Dict(vec![(b"K".to_vec(), tree(depth - 1))]),
        _ => {
            let a = tree(depth - 1);
            V::Dict(vec![(b"A".to_vec(), a), (b"B".to_vec(), tree(depth - 1))])
        }
    }
}

fn choose_leaf() -> i32 {
    let v = any_u8() as i32;
    assume(v < 10);
    v
}

fn verify(c: &Chunk, v: &V) {
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("tree");
            check(agrees(&o, v), "containers hold exactly what was written into them")
        }
        None => check(false, "containers are closed in order"),
    }
}

fn trees(depth: usize, pretty: bool) {
    let v = tree(depth);
    let mut c = chunk(pretty);
    put(c.indirect(Ref::new(1)), &v);
    verify(&c, &v);
}

/// A chain of `n` containers, kinds chosen by the bits of a symbolic mask.
fn deep(n: usize, pretty: bool, mask: usize) {
    fn build(o: Obj, n: usize, mask: usize, leaf: i32) {
        if n == 0 {
            o.primitive(leaf);
        } else if mask >> (n % 2) & 1 == 0 {
            let mut a = o.array();
            build(a.push(), n - 1, mask, leaf);
        } else {
            let mut d = o.dict();
            build(d.insert(Name(b"K")), n - 1, mask, leaf);
        }
    }
    fn model(n: usize, mask: usize, leaf: i32) -> V {
        if n == 0 {
            V::Int(leaf)
        } else if mask >> (n % 2) & 1 == 0 {
            V::Arr(vec![model(n - 1, mask, leaf)])
        } else {
            V::Dict(vec![(b"K".to_vec(), model(n - 1, mask, leaf))])
        }
    }
    let leaf = any_i32();
    let mut c = chunk(pretty);
    build(c.indirect(Ref::new(1)), n, mask, leaf);
    verify(&c, &model(n, mask, leaf));
}

/// Ways to end a writer are equivalent.
fn endings(pretty: bool) {
    let mut c = chunk(pretty);
    let (x, y) = (any_i32(), choose_leaf());
    let how = choose(4);
    {
        let mut d = c.indirect(Ref::new(1)).dict();
        match how {
            0 => d.insert(Name(b"A")).array().item(x).finish(),
            1 => {
                d.insert(Name(b"A")).array().item(x);
            }
            2 => {
                let mut a = d.insert(Name(b"A")).array();
                a.item(x);
                a.finish();
            }
            _ => {
                let mut a = d.insert(Name(b"A")).array();
                a.push().primitive(x);
                drop(a);
            }
        }
        d.pair(Name(b"B"), y);
        if choose(2) == 0 {
            d.finish();
        }
    }
    let v = V::Dict(vec![
        (b"A".to_vec(), V::Arr(vec![V::Int(x)])),
        (b"B".to_vec(), V::Int(y)),
    ]);
    verify(&c, &v);
}

/// Typed writers that wrap containers in containers.
fn typed(pretty: bool) {
    let n = choose(3);
    let m = choose(3);
    let (f, g) = (choose(2) == 1, choose(2) == 1);
    let k = any_bytes(1);
    let x = any_i32();
    assume(x >= 0 && x < 1000);
    let mut c = chunk(pretty);
    let mut page = c.page(Ref::new(1));
    page.parent(Ref::new(2));
    {
        let mut res = page.resources();
        if f {
            let mut fonts = res.fonts();
            for i in 0..n {
                fonts.insert(Name(b"F")).start::<Type1Font>().base_font(Name(if i == 0 { b"a" } else { b"b" }));
            }
        }
        if g {
            let mut cs = res.color_spaces();
            for _ in 0..m {
                cs.insert(Name(&k)).start::<ColorSpace>().indexed(Name(b"DeviceRGB"), x, b"xyz");
            }
        }
        let mut props = res.properties();
        props.insert(Name(b"P")).identify(x);
    }
    page.annotations([Ref::new(5), Ref::new(6)]);
    page.finish();
    let mut exp = vec![
        (b"Type".to_vec(), V::Name(b"Page".to_vec())),
        (b"Parent".to_vec(), V::Ref(2)),
    ];
    let mut res = vec![];
    if f {
        let mut fonts = vec![];
        for i in 0..n {
            fonts.push((
                b"F".to_vec(),
                V::Dict(vec![
                    (b"Type".to_vec(), V::Name(b"Font".to_vec())),
                    (b"Subtype".to_vec(), V::Name(b"Type1".to_vec())),
                    (b"BaseFont".to_vec(), V::Name(if i == 0 { b"a".to_vec() } else { b"b".to_vec() })),
                ]),
            ));
        }
        res.push((b"Font".to_vec(), V::Dict(fonts)));
    }
    if g {
        let mut cs = vec![];
        for _ in 0..m {
            cs.push((
                k.clone(),
                V::Arr(vec![
                    V::Name(b"Indexed".to_vec()),
                    V::Name(b"DeviceRGB".to_vec()),
                    V::Int(x),
                    V::Str(b"xyz".to_vec()),
                ]),
            ));
        }
        res.push((b"ColorSpace".to_vec(), V::Dict(cs)));
    }
    res.push((
        b"Properties".to_vec(),
        V::Dict(vec![(b"P".to_vec(), V::Dict(vec![(b"MCID".to_vec(), V::Int(x))]))]),
    ));
    exp.push((b"Resources".to_vec(), V::Dict(res)));
    exp.push((b"Annots".to_vec(), V::Arr(vec![V::Ref(5), V::Ref(6)])));
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("typed");
            check(agrees_unordered(&o, &V::Dict(exp)), "typed writers nest as they were opened")
        }
        None => check(false, "typed writers are closed in order"),
    }
}

/// Container writers count their direct children.
fn counts() {
    let n = choose(4);
    let mut c = chunk(choose(2) == 0);
    {
        let mut a = c.indirect(Ref::new(1)).array();
        check(a.is_empty() & (a.len() == 0), "a fresh array is empty");
        for i in 0..n {
            if i % 2 == 0 {
                a.item(1);
            } else {
                a.push().array().items([1, 2, 3]);
            }
        }
        check((a.len() == n as i32) & (a.is_empty() == (n == 0)), "array length is the number of items");
    }
    {
        let mut d = c.indirect(Ref::new(2)).dict();
        for i in 0..n {
            if i % 2 == 0 {
                d.pair(Name(b"A"), 1);
            } else {
                d.insert(Name(b"B")).dict().pair(Name(b"C"), 2).pair(Name(b"D"), 2);
            }
        }
        cover("counts");
        check((d.len() == n as i32) & (d.is_empty() == (n == 0)), "dictionary length is the number of pairs");
    }
    {
        let mut t = c.indirect(Ref::new(3)).array().typed::<Name>();
        for _ in 0..n {
            t.item(Name(b"x"));
        }
        check((t.len() == n as i32) & (t.is_empty() == (n == 0)), "typed array length");
    }
    {
        let mut t = c.indirect(Ref::new(4)).dict().typed::<i32>();
        for _ in 0..n {
            t.pair(Name(b"x"), 3);
        }
        check((t.len() == n as i32) & (t.is_empty() == (n == 0)), "typed dictionary length");
    }
}

/// A history of single and bulk insertions of any number of values: the length
/// after each call, and the container in the end.
fn bulk(steps: usize) {
    let mut c = chunk(choose(2) == 0);
    let kind = choose(5);
    let mut n = 0;
    // what is still open sees the lengths; then the writer ends
    macro_rules! run {
        ($w:expr, $one:expr, $many:expr, $nested:expr, $len:expr, $empty:expr) => {{
            let mut w = $w;
            check($empty(&w) & ($len(&w) == 0), "a fresh container is empty");
            for _ in 0..steps {
                match choose(6) {
                    0 => {
                        $one(&mut w);
                        n += 1;
                    }
                    1 => {
                        $nested(&mut w);
                        n += 1;
                    }
                    k => {
                        $many(&mut w, k - 2);
                        n += k - 2;
                    }
                }
                check(
                    ($len(&w) == n as i32) & ($empty(&w) == (n == 0)),
                    "the length is the number of direct children",
                );
            }
            drop(w);
        }};
    }
    let key = Name(b"K");
    match kind {
        0 => run!(
            c.indirect(Ref::new(1)).array(),
            |w: &mut Array| drop(w.item(7)),
            |w: &mut Array, k| drop(w.items((0..k).map(|_| 7))),
            |w: &mut Array| drop(w.push().array().items([1, 2])),
            |w: &Array| w.len(),
            |w: &Array| w.is_empty()
        ),
        1 => run!(
            c.indirect(Ref::new(1)).dict(),
            |w: &mut Dict| drop(w.pair(key, 7)),
            |w: &mut Dict, k| drop(w.pairs((0..k).map(|_| (key, 7)))),
            |w: &mut Dict| drop(w.insert(key).dict().pairs([(key, 1), (key, 2)])),
            |w: &Dict| w.len(),
            |w: &Dict| w.is_empty()
        ),
        2 => run!(
            c.indirect(Ref::new(1)).array().typed::<i32>(),
            |w: &mut TypedArray<i32>| drop(w.item(7)),
            |w: &mut TypedArray<i32>, k| drop(w.items((0..k).map(|_| 7))),
            |w: &mut TypedArray<i32>| drop(w.items([7])),
            |w: &TypedArray<i32>| w.len(),
            |w: &TypedArray<i32>| w.is_empty()
        ),
        3 => run!(
            c.indirect(Ref::new(1)).dict().typed::<i32>(),
            |w: &mut TypedDict<i32>| drop(w.pair(key, 7)),
            |w: &mut TypedDict<i32>, k| drop(w.pairs((0..k).map(|_| (key, 7)))),
            |w: &mut TypedDict<i32>| drop(w.pairs([(key, 7)])),
            |w: &TypedDict<i32>| w.len(),
            |w: &TypedDict<i32>| w.is_empty()
        ),
        // A stream has its length as an entry from the start.
        _ => run!(
            c.stream(Ref::new(1), b"x"),
            |w: &mut Stream| drop(w.pair(key, 7)),
            |w: &mut Stream, k| drop(w.pairs((0..k).map(|_| (key, 7)))),
            |w: &mut Stream| drop(w.insert(key).array().items([1, 2])),
            |w: &Stream| w.len() - 1,
            |w: &Stream| w.len() == 1
        ),
    }
    let mut r = Rd::new(c.as_bytes());
    let got = top(&mut r).and_then(|t| match (t.ob, t.data) {
        (Ob::Arr(a), None) => Some(a.len()),
        (Ob::Dict(d), None) => Some(d.len()),
        (Ob::Dict(d), Some(_)) => Some(d.len() - 1),
        _ => None,
    });
    cover("bulk");
    check(got == Some(n), "the container holds as many children as were written");
}

/// Many children.
fn wide() {
    let n = [127, 128, 255, 256, 257, 300, 32768, 65536][choose(8)];
    let mut c = chunk(choose(2) == 0);
    let b = any_u8();
    let (len, more) = match choose(4) {
        0 => {
            let mut a = c.indirect(Ref::new(1)).array();
            a.items((0..n).map(|_| true));
            let l = a.len();
            a.item(b as i32);
            (l, a.len())
        }
        1 => {
            let mut d = c.indirect(Ref::new(1)).dict();
            for _ in 0..n {
                d.pair(Name(b"K"), true);
            }
            let l = d.len();
            d.pair(Name(b"B"), b as i32);
            (l, d.len())
        }
        2 => {
            let mut a = c.indirect(Ref::new(1)).array().typed::<bool>();
            a.items((0..n).map(|_| true));
            let l = a.len();
            a.item(b < 100);
            (l, a.len())
        }
        _ => {
            let mut d = c.indirect(Ref::new(1)).dict().typed::<bool>();
            d.pairs((0..n).map(|_| (Name(b"K"), true)));
            let l = d.len();
            d.pair(Name(b"B"), b < 100);
            (l, d.len())
        }
    };
    let got = match one_indirect(c.as_bytes(), 1) {
        Some(Ob::Arr(a)) => a.len(),
        Some(Ob::Dict(d)) => d.len(),
        _ => 0,
    };
    cover("wide");
    check((len == n as i32) & (more == n as i32 + 1), "the length is the number of direct children");
    check(got == n + 1, "the container holds as many children as were written");
}

crate::harnesses! {
    fn p07_wide() { wide() }
    fn p07_bulk() { bulk(3) }
    fn p07_tree2_pretty() { trees(2, true) }
    fn p07_tree2_compact() { trees(2, false) }
    fn p07_tree3_pretty() { trees(3, true) }
    fn p07_tree3_compact() { trees(3, false) }
    fn p07_deep_pretty() { deep(10 + choose(4), true, choose(4)) }
    fn p07_deep_compact() { deep(10 + choose(4), false, choose(4)) }
    fn p07_deep_saturated() {
        // beyond the point where the indentation counter saturates
        deep(126 + choose(6), true, choose(4))
    }
    fn p07_endings_pretty() { endings(true) }
    fn p07_endings_compact() { endings(false) }
    fn p07_typed_pretty() { typed(true) }
    fn p07_typed_compact() { typed(false) }
    fn p07_counts() { counts() }
}

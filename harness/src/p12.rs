//! Assembling chunks.
use crate::common::*;
use crate::file;
use pdf_writer::*;

struct Op {
    id: i32,
    kind: usize,
    s: Vec<u8>,
    v: i32,
}

fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for k in 0..n {
        let x = any_u8() as i32;
        assume(x < 10);
        v.push(Op { id: 1 + (k as i32 * 5) % 7, kind: choose(4), s: any_from(b"abcXYZ", k % 2 + 1), v: x });
    }
    v
}

fn write(c: &mut Chunk, o: &Op) {
    let id = Ref::new(o.id);
    match o.kind {
        0 => {
            c.indirect(id).dict().pair(Name(&o.s), o.v);
        }
        1 => {
            c.stream(id, &o.s).pair(Name(b"K"), o.v);
        }
        2 => {
            c.indirect(id).array().items([o.v, 1, -2]);
        }
        _ => c.indirect(id).primitive(2.5),
    }
}

fn settings(pretty: bool) -> Settings {
    Settings { pretty }
}

fn equal(a: &Chunk, b: &Chunk) {
    check(a.len() == b.len() && same(a.as_bytes(), b.as_bytes()), "assembled chunks have the bytes of one chunk");
    check(a.len() == a.as_bytes().len(), "a chunk's length is the number of its bytes");
    let (x, y): (Vec<Ref>, Vec<Ref>) = (a.refs().collect(), b.refs().collect());
    check(x.len() == y.len() && a.refs().len() == x.len(), "assembled chunks have the same number of objects");
    let mut ok = true;
    for i in 0..x.len() {
        ok &= x[i] == y[i];
    }
    check(ok, "assembled chunks list the same objects in order");
    let (l, m) = (a.limits(), b.limits());
    check(
        (l.int() == m.int())
            & (l.real().to_bits() == m.real().to_bits())
            & (l.name_len() == m.name_len())
            & (l.str_len() == m.str_len())
            & (l.array_len() == m.array_len())
            & (l.dict_entries() == m.dict_entries()),
        "assembled chunks have the same limits",
    );
}

/// Each object goes into the target directly, through a chunk of its own, or
/// through a chunk that is collected with its neighbours.
fn assemble(n: usize, pretty: bool) {
    let ops = ops(n);
    let mut one = Chunk::with_settings(settings(pretty));
    for o in &ops {
        write(&mut one, o);
    }
    let mut t = Chunk::with_settings_and_capacity(settings(pretty), choose(3) * 20);
    let mut side: Option<Chunk> = None;
    for o in &ops {
        match choose(4) {
            0 => {
                if let Some(s) = side.take() {
                    t.extend(&s);
                }
                write(&mut t, o);
            }
            1 => {
                if let Some(s) = side.take() {
                    t.extend(&s);
                }
                let mut d = Chunk::with_settings(settings(pretty));
                write(&mut d, o);
                t.extend(&d);
                check(d.refs().len() == 1, "extending leaves the source alone");
            }
            2 => {
                // nested: a chunk extended by a chunk
                let mut d = Chunk::with_settings(settings(pretty));
                write(&mut d, o);
                let mut e = side.take().unwrap_or_else(|| Chunk::with_settings(settings(pretty)));
                e.extend(&d);
                side = Some(e);
            }
            _ => {
                let mut e = side.take().unwrap_or_else(|| Chunk::with_settings(settings(pretty)));
                e.reserve(choose(2) * 50);
                write(&mut e, o);
                side = Some(e.clone());
            }
        }
    }
    if let Some(s) = side.take() {
        t.extend(&s);
    }
    cover("assembled");
    equal(&t, &one);
}

/// The same into a file: the finished bytes agree.
fn into_pdf(n: usize, pretty: bool) {
    let ops = ops(n);
    let cut = choose(n + 1);
    let mut a = Pdf::with_settings(settings(pretty));
    let mut b = Pdf::with_settings_and_capacity(settings(pretty), choose(2) * 3);
    let mut c = Chunk::with_settings(settings(pretty));
    for (i, o) in ops.iter().enumerate() {
        write(&mut a, o);
        if i < cut {
            write(&mut b, o);
        } else {
            write(&mut c, o);
        }
    }
    b.extend(&c);
    equal(&b, &a);
    let stream = choose(2) == 0;
    let (x, y) = if stream {
        (a.finish_with_xref_stream(Ref::new(20)), b.finish_with_xref_stream(Ref::new(20)))
    } else {
        (a.finish(), b.finish())
    };
    check(same(&x, &y), "the finished files agree");
    let f = if stream { file::stream(&y, &|d| d) } else { file::table(&y) };
    let mut ids: Vec<i64> = ops.iter().map(|o| o.id as i64).collect();
    if stream {
        ids.push(20);
    }
    match f {
        Some(f) => {
            cover("file");
            file::verify(&y, &f, &ids)
        }
        None => check(false, "the file is readable"),
    }
}

/// References are listed in writing order, whatever their numbers.
fn refs() {
    let mut c = Chunk::with_settings(settings(choose(2) == 0));
    let n = choose(4);
    let mut ids = vec![];
    for _ in 0..n {
        let i = any_i32();
        assume(i > 0);
        ids.push(i);
        match choose(2) {
            0 => c.indirect(Ref::new(i)).primitive(1),
            _ => {
                let mut d = Chunk::new();
                d.indirect(Ref::new(i)).primitive(Null);
                c.extend(&d);
            }
        }
    }
    let r: Vec<Ref> = c.refs().collect();
    check(r.len() == n, "one reference per object");
    let mut ok = true;
    for i in 0..n {
        ok &= r[i].get() == ids[i];
    }
    cover("refs");
    check(ok, "references are listed in writing order");
}

/// A chunk of objects, an empty one, and itself.
fn degenerate() {
    let o = ops(1);
    let pretty = choose(2) == 0;
    let mut a = Chunk::with_settings(settings(pretty));
    let e = Chunk::with_settings(settings(choose(2) == 0));
    check(e.len() == 0 && e.refs().len() == 0 && e.as_bytes().is_empty(), "a new chunk is empty");
    a.extend(&e);
    check(a.len() == 0, "nothing plus nothing");
    write(&mut a, &o[0]);
    let b = a.clone();
    equal(&b, &a);
    let mut d = a.clone();
    d.extend(&e);
    equal(&d, &a);
    let mut f = e.clone();
    f.extend(&a);
    equal(&f, &a);
    f.extend(&a);
    check(f.len() == 2 * a.len(), "twice the same chunk");
    let n = a.len();
    check(same(&f.as_bytes()[..n], a.as_bytes()) & same(&f.as_bytes()[n..], a.as_bytes()), "twice the same bytes");
}

/// Many objects in many chunks.
fn many() {
    let n = 300;
    let step = [1, 7, 100, 299][choose(4)];
    let v = any_u8();
    let pretty = choose(2) == 0;
    let at = [0, 128, 255, 256, 299][choose(5)];
    let (mut one, mut t) = (Chunk::with_settings(settings(pretty)), Chunk::with_settings(settings(pretty)));
    let mut part = Chunk::with_settings(settings(pretty));
    for i in 0..n {
        let id = Ref::new(1 + (i * 7) % 300);
        let mut put = |c: &mut Chunk| {
            if i == at {
                c.indirect(id).primitive(Str(&[v, b'x']));
            } else {
                c.indirect(id).primitive(true);
            }
        };
        put(&mut one);
        put(&mut part);
        if i % step == 0 {
            t.extend(&part);
            part = Chunk::with_settings(settings(pretty));
        }
    }
    t.extend(&part);
    cover("many");
    equal(&t, &one);
}

/// Chunks around and beyond 64 kB, into a chunk and a file.
fn large() {
    let pretty = choose(2) == 0;
    let n = [65_400, 65_490, 65_500, 65_510, 65_536, 140_000][choose(6)];
    let v = any_u8();
    let mut data = vec![b'x'; n];
    data[n - 1] = v;
    let fill = |c: &mut Chunk, k: i32| {
        if k == 0 {
            c.stream(Ref::new(9), &data);
        } else {
            c.indirect(Ref::new(k)).primitive(k);
        }
    };
    let order = [[1, 0, 2, 3], [0, 1, 2, 3], [1, 2, 3, 0]][choose(3)];
    let cut = choose(4);
    let (mut one, mut t) = (Pdf::with_settings(settings(pretty)), Pdf::with_settings(settings(pretty)));
    let mut part = Chunk::with_settings(settings(pretty));
    for (i, &k) in order.iter().enumerate() {
        fill(&mut one, k);
        fill(if i < cut { &mut t } else { &mut part }, k);
    }
    t.extend(&part);
    equal(&t, &one);
    let out = t.finish();
    match file::table(&out) {
        Some(f) => {
            cover("large");
            file::verify(&out, &f, &[9, 1, 2, 3])
        }
        None => check(false, "the file is readable"),
    }
}

crate::harnesses! {
    fn p12_large() { large() }
    fn p12_many() { many() }
    fn p12_assemble2_pretty() { assemble(2, true) }
    fn p12_assemble2_compact() { assemble(2, false) }
    fn p12_assemble3() { assemble(3, choose(2) == 0) }
    fn p12_pdf2_pretty() { into_pdf(2, true) }
    fn p12_pdf2_compact() { into_pdf(2, false) }
    fn p12_pdf3_compact() { into_pdf(3, false) }
    fn p12_refs() { refs() }
    fn p12_degenerate() { degenerate() }
}

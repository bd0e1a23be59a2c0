//! The cross-reference table.
use crate::common::*;
use crate::file;
use crate::values::*;
use pdf_writer::*;

/// Different identifiers up to `max`; beyond one, one path per choice.
fn ids(n: usize, max: i32) -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    for _ in 0..n {
        let x = any_i32();
        assume(x > 0 && x <= max);
        for &y in &v {
            assume(x != y);
        }
        v.push(if n > 1 { split(x as usize) as i32 } else { x });
    }
    v
}

/// Write one object of a chosen kind with this identifier.
pub fn object(c: &mut Chunk, id: i32, kind: usize) {
    let id = Ref::new(id);
    match kind {
        0 => c.indirect(id).primitive(7),
        1 => {
            c.stream(id, b"1 0 obj 4 endobj xref trailer startxref");
        }
        2 => {
            c.indirect(id).dict().pair(Name(b"A"), Ref::new(1));
        }
        3 => c.indirect(id).array().finish(),
        4 => c.page(id).parent(Ref::new(2)).finish(),
        _ => {
            // through another chunk
            let mut d = Chunk::new();
            d.indirect(id).primitive(Str(b"xref"));
            c.extend(&d);
        }
    }
}

fn read(out: &[u8], ids: &[i32]) {
    let w: Vec<i64> = ids.iter().map(|&i| i as i64).collect();
    match file::table(out) {
        Some(f) => {
            cover("table");
            file::verify(out, &f, &w)
        }
        None => check(false, "the file ends with a well-formed cross-reference table and trailer"),
    }
}

/// Any `n` different identifiers in any order.
fn plain(n: usize, max: i32, kinds: usize) {
    let ids = ids(n, max);
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    for &i in &ids {
        object(&mut pdf, i, choose(kinds));
    }
    read(&pdf.finish(), &ids);
}

/// Offsets of any number of digits: a large object in front.
fn sizes(list: &[usize]) {
    let n = list[choose(list.len())];
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    let data = vec![b'x'; n];
    let (i, j) = (small_id(), small_id());
    assume(i != j && i < 5 && j < 5);
    pdf.stream(Ref::new(i), &data);
    pdf.indirect(Ref::new(j)).primitive(7);
    read(&pdf.finish(), &[i, j]);
}

/// Identifiers with many digits' worth of free entries.
fn wide(bases: &[i32]) {
    let i = any_i32();
    let base = bases[choose(bases.len())];
    assume(i >= base && i <= base + 3);
    let i = split(i as usize) as i32;
    let j = 1 + choose(3) as i32;
    let mut pdf = Pdf::new();
    pdf.indirect(Ref::new(i)).primitive(1);
    pdf.indirect(Ref::new(j)).primitive(2);
    read(&pdf.finish(), &[i, j]);
}

/// Long runs of used and free identifiers, in ascending, descending or mixed order.
fn runs(long: bool) {
    let lens: &[i32] = if long { &[31, 33, 64, 65, 130] } else { &[1, 2, 8, 9, 16, 17, 33] };
    let mut v = vec![];
    let mut at = 1 + choose(2) as i32;
    for k in 0..3 {
        let n = if k == 2 { 1 } else { lens[choose(lens.len())] };
        for i in 0..n {
            v.push(at + i);
        }
        at += n + 1 + if k == 0 { [0, 1, 9][choose(3)] } else { choose(2) as i32 };
    }
    match choose(3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            let m = v.len() / 2;
            v.rotate_left(m)
        }
    }
    let mut pdf = Pdf::new();
    for &i in &v {
        pdf.indirect(Ref::new(i)).primitive(i);
    }
    read(&pdf.finish(), &v);
}

/// Objects of arbitrary content.
fn content() {
    let (a, b) = (of_kind(choose(KINDS)), any_bytes(choose(4)));
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    put(pdf.indirect(Ref::new(3)), &a);
    pdf.stream(Ref::new(1), &b);
    put(pdf.indirect(Ref::new(2)), &a);
    read(&pdf.finish(), &[3, 1, 2]);
}

/// The same identifier twice is an error.
fn duplicate(n: usize) {
    let mut v: Vec<i32> = vec![];
    let mut dup = false;
    for _ in 0..n {
        let x = any_i32();
        assume(x > 0 && x <= 4);
        for &y in &v {
            dup |= x == y;
        }
        v.push(x);
    }
    let mut pdf = Pdf::new();
    for &i in &v {
        pdf.indirect(Ref::new(i)).primitive(1);
    }
    panic_ok(dup);
    let how = choose(2);
    let out = if how == 0 { pdf.finish() } else { pdf.finish_with_xref_stream(Ref::new(9)) };
    panic_ok(false);
    cover("no duplicate");
    check(!dup, "using an identifier twice is rejected");
    check(out.len() > 0, "a file is written");
}

/// Few objects among many free identifiers.
fn gaps() {
    let a = [1, 100][choose(2)];
    let b = a + [1, 2, 127, 128, 255, 256, 257, 300, 999][choose(9)];
    let c = b + [1, 256][choose(2)];
    let mut v = vec![a, b, c];
    v.rotate_left(choose(3));
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    let x = any_u8();
    for &i in &v {
        pdf.indirect(Ref::new(i)).primitive(x as i32);
    }
    read(&pdf.finish(), &v);
}

/// Tens of thousands of free identifiers.
fn huge(list: &[i32]) {
    let i = list[choose(list.len())];
    let j = 1 + choose(2) as i32;
    let mut pdf = Pdf::new();
    pdf.indirect(Ref::new(j)).primitive(any_u8() as i32);
    pdf.indirect(Ref::new(i)).primitive(1);
    read(&pdf.finish(), &[i, j]);
}

crate::harnesses! {
    fn p09_huge() { huge(&[65534, 65535, 65536]) }
    fn p09_gaps() { gaps() }
    fn p09_none() { plain(0, 1, 1) }
    fn p09_one() { plain(1, 12, 6) }
    fn p09_one_far() { plain(1, 40, 1) }
    fn p09_two() { plain(2, 12, 6) }
    fn p09_three() { plain(3, 7, 3) }
    fn p09_three_far() { plain(3, 16, 1) }
    fn p09_four() { plain(4, 7, 1) }
    fn p09_five() { plain(5, 7, 1) }
    fn p09_sizes() { sizes(&[0, 60, 61, 62, 63, 64, 65, 900, 960, 970, 9940, 99950]) }
    fn p09_sizes_big() { sizes(&[65450, 999_930, 999_950, 9_999_950, 16_777_160]) }
    fn p09_wide() { wide(&[9, 98]) }
    fn p09_wider() { wide(&[255, 998]) }
    fn p09_runs() { runs(false) }
    fn p09_runs_long() { runs(true) }
    fn p09_content() { content() }
    fn p09_duplicate() { duplicate(2 + choose(3)) }
}

//! Reader for a finished file: header, cross-reference section, trailer.
use crate::common::*;

pub enum Entry {
    /// next free object, generation
    Free(u64, u64),
    /// offset, generation
    Used(u64, u64),
    /// anything else
    Odd,
}

pub struct File {
    pub xref_at: usize,
    pub entries: Vec<Entry>,
    pub trailer: Ob,
    /// for a cross-reference stream: its identifier and field widths
    pub stream: Option<(i64, Vec<i64>)>,
}

fn digits(b: &[u8]) -> Option<u64> {
    let mut v = 0u64;
    let mut ok = true;
    for &c in b {
        let d = c.wrapping_sub(b'0');
        ok &= d < 10;
        v = v.wrapping_mul(10).wrapping_add(d as u64);
    }
    if ok {
        Some(v)
    } else {
        None
    }
}

/// The offset given at the end of the file (7.5.5): `startxref` on a line of its
/// own, the offset, `%%EOF`.
pub fn startxref(b: &[u8]) -> Option<usize> {
    let mut e = b.len();
    if e > 0 && b[e - 1] == b'\n' {
        e -= 1;
    }
    if e < 6 || !same(&b[e - 5..e], b"%%EOF") || b[e - 6] != b'\n' {
        return None;
    }
    e -= 6;
    let mut s = e;
    while s > 0 && b[s - 1] != b'\n' {
        s -= 1;
    }
    if s == e || e - s > 10 {
        return None;
    }
    let v = digits(&b[s..e])?;
    if s < 11 || !same(&b[s - 10..s], b"startxref\n") || !(b[s - 11] == b'\n' || b[s - 11] == b'\r') {
        return None;
    }
    Some(split(v as usize))
}

/// A file with one cross-reference table.
pub fn table(b: &[u8]) -> Option<File> {
    let at = startxref(b)?;
    if at >= b.len() {
        return None;
    }
    let mut r = Rd { b, i: at };
    if !r.lit(b"xref\n") || !r.lit(b"0 ") {
        return None;
    }
    let s = r.i;
    while r.i < b.len() && b[r.i] != b'\n' {
        r.i += 1;
    }
    let n = split(digits(&b[s..r.i])? as usize);
    r.i += 1;
    let mut entries = vec![];
    for _ in 0..n {
        if r.i + 20 > b.len() {
            return None;
        }
        let e = &b[r.i..r.i + 20];
        r.i += 20;
        let v = digits(&e[..10])?;
        let g = digits(&e[11..16])?;
        let eol = (e[18] == b' ' && (e[19] == 13 || e[19] == 10)) || (e[18] == 13 && e[19] == 10);
        if e[10] != b' ' || e[16] != b' ' || !eol {
            return None;
        }
        entries.push(match e[17] {
            b'f' => Entry::Free(v, g),
            b'n' => Entry::Used(v, g),
            _ => return None,
        });
    }
    if !r.lit(b"trailer") {
        return None;
    }
    let trailer = r.obj()?;
    trailer.dict()?;
    r.ws();
    if !r.lit(b"startxref") {
        return None;
    }
    Some(File { xref_at: at, entries, trailer, stream: None })
}

/// A file with one cross-reference stream; `unfilter` undoes the filters.
pub fn stream(b: &[u8], unfilter: &dyn Fn(Vec<u8>) -> Vec<u8>) -> Option<File> {
    let at = startxref(b)?;
    if at >= b.len() || is_ws(b[at]) {
        return None;
    }
    let mut r = Rd { b, i: at };
    let t = top(&mut r)?;
    r.ws();
    if !r.lit(b"startxref") {
        return None;
    }
    let data = unfilter(t.data?);
    if !t.ob.get(b"Type")?.is_name(b"XRef") {
        return None;
    }
    let mut w = vec![];
    for x in t.ob.get(b"W")?.arr()? {
        match x {
            Ob::Int(i) => w.push(split(*i as usize) as i64),
            _ => return None,
        }
    }
    if w.len() != 3 {
        return None;
    }
    // without /Index the section covers 0..Size
    if t.ob.get(b"Index").is_some() {
        return None;
    }
    let rec = (w[0] + w[1] + w[2]) as usize;
    if rec == 0 || data.len() % rec != 0 {
        return None;
    }
    let mut entries = vec![];
    let mut i = 0;
    while i < data.len() {
        let mut f = [0u64; 3];
        for k in 0..3 {
            if k == 0 && w[0] == 0 {
                f[0] = 1;
            }
            for _ in 0..w[k] {
                f[k] = f[k] << 8 | data[i] as u64;
                i += 1;
            }
        }
        entries.push(match f[0] {
            0 => Entry::Free(f[1], f[2]),
            1 => Entry::Used(f[1], f[2]),
            _ => Entry::Odd,
        });
    }
    Some(File { xref_at: at, entries, trailer: t.ob, stream: Some((t.id, w)) })
}

/// Are the entries exactly those for these objects (identifier → where it must
/// start, if known)? `b` is the whole file.
pub fn verify(b: &[u8], f: &File, ids: &[i64]) {
    let mut max = 0;
    for &i in ids {
        if i > max {
            max = i;
        }
    }
    check(f.entries.len() as i64 == max + 1, "one entry per identifier from zero to the highest");
    check(
        match f.trailer.get(b"Size") {
            Some(s) => s.is_int(max + 1),
            None => false,
        },
        "Size is one more than the highest identifier",
    );
    let mut free = vec![];
    for (k, e) in f.entries.iter().enumerate() {
        let mut used = false;
        for &i in ids {
            used |= i == k as i64;
        }
        match e {
            Entry::Used(off, gen) => {
                check(used, "only written objects are in use");
                check(*gen == 0, "objects have generation zero");
                let o = split(*off as usize);
                if o >= b.len() || is_ws(b[o]) {
                    check(false, "the entry points at the first byte of an object");
                    return;
                }
                match top(&mut Rd { b, i: o }) {
                    Some(t) => check(t.id == k as i64, "the entry points at the object with its identifier"),
                    None => check(false, "the entry points at an object"),
                }
            }
            Entry::Free(next, gen) => {
                cover("free entry");
                check(!used, "written objects are in use");
                check(if k == 0 { *gen == 65535 } else { true }, "the head of the free list has generation 65535");
                free.push((k as u64, *next));
            }
            Entry::Odd => check(false, "entries are free or in use"),
        }
    }
    check(free.len() > 0 && free[0].0 == 0, "entry zero is free");
    let mut ok = true;
    for (j, (_, next)) in free.iter().enumerate() {
        let want = if j + 1 < free.len() { free[j + 1].0 } else { 0 };
        ok &= *next == want;
    }
    check(ok, "free entries form one ascending list back to zero");
}

//! The file frame: header, version, marker, trailer entries, end of file.
use crate::common::*;
use crate::file;
use pdf_writer::*;

fn finish(pdf: Pdf, stream: bool) -> Option<(Vec<u8>, Ob)> {
    let out = if stream { pdf.finish_with_xref_stream(Ref::new(30)) } else { pdf.finish() };
    let f = if stream { file::stream(&out, &|d| d) } else { file::table(&out) };
    match f {
        Some(f) => Some((out, f.trailer)),
        None => {
            check(false, "the file has a readable trailer");
            None
        }
    }
}

/// `%PDF-M.N`, a comment with the marker.
fn header(out: &[u8], major: u8, minor: u8, marker: &[u8]) {
    check(out.len() > 16, "the file has a header");
    check(same(&out[..5], b"%PDF-") & (out[6] == b'.') & (out[8] == b'\n'), "the file starts with the header line");
    check((out[5] == b'0' + major) & (out[7] == b'0' + minor), "the header line has the version that was set");
    check((out[9] == b'%') & same(&out[10..14], marker) & (out[14] == b'\n'), "the second line is the binary marker");
}

fn version() {
    let pretty = choose(2) == 0;
    let how = choose(3);
    let mut pdf = match how {
        0 => Pdf::with_settings(Settings { pretty }),
        1 => Pdf::with_settings_and_capacity(Settings { pretty }, choose(3)),
        _ => Pdf::with_capacity(choose(20)),
    };
    let (mut a, mut b) = (1, 7);
    let mut m = vec![0x80; 4];
    let order = choose(2);
    let (set_v, set_m) = (choose(3), choose(2) == 0);
    let mut marker = |pdf: &mut Pdf| {
        if set_m {
            let x = any_bytes(4);
            // an end-of-line character would end the comment early
            assume(x[0] != 10 && x[0] != 13);
            pdf.set_binary_marker(&[x[0], x[1], x[2], x[3]]);
            m = x;
        }
    };
    if order == 0 {
        marker(&mut pdf);
    }
    for _ in 0..set_v {
        let (x, y) = (any_u8(), any_u8());
        pdf.set_version(x, y);
        // versions with more digits do not exist; they change nothing
        if x < 10 {
            a = x;
        }
        if y < 10 {
            b = y;
        }
    }
    if choose(2) == 0 {
        pdf.indirect(Ref::new(1)).primitive(1);
    }
    if order == 1 {
        marker(&mut pdf);
    }
    if let Some((out, _)) = finish(pdf, choose(2) == 0) {
        cover("header");
        header(&out, a, b, &m);
    }
}

/// Trailer entries in any combination and order.
fn trailer() {
    let pretty = choose(2) == 0;
    let mut pdf = Pdf::with_settings(Settings { pretty });
    let (mut root, mut info, mut id): (Option<i32>, Option<i32>, Option<(Vec<u8>, Vec<u8>)>) = (None, None, None);
    let n = choose(4);
    for k in 0..n {
        let r = 9 - 3 * k as i32;
        match choose(4) {
            0 => {
                pdf.catalog(Ref::new(r));
                root = Some(r);
            }
            1 => {
                pdf.document_info(Ref::new(r));
                info = Some(r);
            }
            2 => {
                let i = (any_from(b"a)", 1), any_bytes(k % 2));
                pdf.set_file_id(i.clone());
                id = Some(i);
            }
            _ => {
                pdf.indirect(Ref::new(r)).primitive(Null);
            }
        }
    }
    let Some((_, t)) = finish(pdf, choose(2) == 0) else { return };
    match (t.get(b"Root"), root) {
        (None, None) => {}
        (Some(o), Some(r)) => {
            cover("root");
            check(o.is_ref(r as i64), "Root is the catalog that was started last")
        }
        _ => check(false, "Root is present exactly if a catalog was started"),
    }
    match (t.get(b"Info"), info) {
        (None, None) => {}
        (Some(o), Some(r)) => {
            cover("info");
            check(o.is_ref(r as i64), "Info is the information dictionary that was started last")
        }
        _ => check(false, "Info is present exactly if document information was started"),
    }
    match (t.get(b"ID"), &id) {
        (None, None) => {}
        (Some(Ob::Arr(a)), Some((x, y))) if a.len() == 2 => {
            cover("id");
            check(a[0].is_str(x) & a[1].is_str(y), "ID is the pair of byte strings that was set")
        }
        _ => check(false, "ID is a pair, present exactly if it was set"),
    }
    let Some(d) = t.dict() else { return };
    let std = |k: &[u8]| {
        [&b"Size"[..], b"Root", b"Info", b"ID", b"Type", b"W", b"Length"].iter().any(|s| same(s, k))
    };
    check(d.iter().all(|(k, _)| std(k)), "the trailer has standard entries only");
    for (i, (k, _)) in d.iter().enumerate() {
        for (l, _) in &d[..i] {
            check(!same(k, l), "no trailer entry appears twice");
        }
    }
}

/// File identifiers of any bytes.
fn ids(n: usize) {
    let (a, b) = (any_bytes(n), any_bytes(choose(2)));
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    pdf.set_file_id((a.clone(), b.clone()));
    let Some((_, t)) = finish(pdf, false) else { return };
    match t.get(b"ID") {
        Some(Ob::Arr(v)) if v.len() == 2 => {
            check(v[0].is_str(&a) & v[1].is_str(&b), "file identifier strings are kept")
        }
        _ => check(false, "ID is a pair"),
    }
}

/// What the frame encloses is exactly what was written.
fn body() {
    let pretty = choose(2) == 0;
    let mut pdf = Pdf::with_settings(Settings { pretty });
    let mut c = Chunk::with_settings(Settings { pretty });
    let d = any_bytes(1);
    let n = choose(3);
    for i in 0..n {
        for p in [&mut *pdf, &mut c] {
            p.stream(Ref::new(1 + i as i32), &d);
        }
    }
    let stream = choose(2) == 0;
    check(pdf.len() == 16 + c.len(), "the file so far is the header and the objects");
    let out = if stream { pdf.finish_with_xref_stream(Ref::new(30)) } else { pdf.finish() };
    check(out.len() > 16 + c.len(), "the file is complete");
    check(same(&out[16..16 + c.len()], c.as_bytes()), "the body of the file is the objects as written");
    match file::startxref(&out) {
        Some(x) => {
            cover("startxref");
            check(x == 16 + c.len(), "the cross-reference section follows the objects")
        }
        None => check(false, "the file ends with startxref and the end-of-file marker"),
    }
}

/// Long file identifiers.
fn long_ids() {
    let n = [15, 16, 17, 32, 64, 255, 256, 300][choose(8)];
    let (x, y) = (any_u8(), any_u8());
    let (mut a, mut b) = (vec![x; n], vec![b'b'; n]);
    a[0] = b'a';
    b[n - 1] = y;
    if choose(2) == 0 {
        b = a.clone();
    }
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    pdf.set_file_id((a.clone(), b.clone()));
    let Some((_, t)) = finish(pdf, choose(2) == 0) else { return };
    match t.get(b"ID") {
        Some(Ob::Arr(v)) if v.len() == 2 => {
            cover("long identifier");
            check(v[0].is_str(&a) & v[1].is_str(&b), "file identifier strings are kept")
        }
        _ => check(false, "ID is a pair"),
    }
}

crate::harnesses! {
    fn p11_long_ids() { long_ids() }
    fn p11_version() { version() }
    fn p11_trailer() { trailer() }
    fn p11_ids() { ids(choose(4)) }
    fn p11_body() { body() }
}

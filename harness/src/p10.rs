//! The cross-reference stream.
use crate::common::*;
use crate::file;
use crate::values::*;
use pdf_writer::*;

/// Different identifiers up to `max`; beyond one, one path per choice.
fn ids(n: usize, max: i32) -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    for _ in 0..n {
        let x = any_i32();
        assume(x > 0 && x <= max);
        for &y in &v {
            assume(x != y);
        }
        v.push(if n > 1 { split(x as usize) as i32 } else { x });
    }
    v
}

fn read(out: &[u8], ids: &[i32], unfilter: &dyn Fn(Vec<u8>) -> Vec<u8>) -> Option<file::File> {
    let w: Vec<i64> = ids.iter().map(|&i| i as i64).collect();
    match file::stream(out, unfilter) {
        Some(f) => {
            cover("stream");
            file::verify(out, &f, &w);
            if let Some((id, _)) = &f.stream {
                check(*id == ids[0] as i64, "the cross-reference stream has the given identifier");
            }
            Some(f)
        }
        None => {
            check(false, "the file ends with a well-formed cross-reference stream");
            None
        }
    }
}

/// `ids[0]` is the stream's own identifier.
fn plain(n: usize, max: i32) {
    let ids = ids(n + 1, max);
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    for &i in &ids[1..] {
        pdf.indirect(Ref::new(i)).primitive(7);
    }
    let out = pdf.finish_with_xref_stream(Ref::new(ids[0]));
    if let Some(f) = read(&out, &ids, &|d| d) {
        check(f.trailer.get(b"Filter").is_none(), "no filter unless one was applied");
    }
}

/// File sizes across field-width boundaries.
fn sizes(list: &[usize]) {
    let n = list[choose(list.len())];
    let data = vec![b'x'; n];
    let (i, x) = (small_id(), small_id());
    assume(i != x && i < 4 && x < 4);
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    pdf.stream(Ref::new(i), &data);
    let out = pdf.finish_with_xref_stream(Ref::new(x));
    read(&out, &[x, i], &|d| d);
}

/// Identifiers that need wider fields than the offsets do.
fn wide(list: &[i32]) {
    let i = list[choose(list.len())];
    let x = 1 + choose(3) as i32;
    let mut pdf = Pdf::new();
    pdf.indirect(Ref::new(i)).primitive(1);
    let out = pdf.finish_with_xref_stream(Ref::new(x));
    read(&out, &[x, i], &|d| d);
}

/// Several identifiers, some of which need wider fields than the offsets do,
/// in any order of writing, the stream's own among them.
fn mixed(list: &[i32]) {
    let big = list[choose(list.len())];
    let other = [2, big - 1, big + 2][choose(3)];
    let mut v = vec![1, big, other];
    if choose(2) == 0 {
        v.push(5);
    }
    let k = choose(v.len());
    v.rotate_left(k);
    if choose(2) == 0 {
        v.reverse();
    }
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    for &i in &v[1..] {
        pdf.indirect(Ref::new(i)).primitive(1);
    }
    let out = pdf.finish_with_xref_stream(Ref::new(v[0]));
    read(&out, &v, &|d| d);
}

/// Filters: the data is what the closure returned, and the filters are named in
/// decoding order.
fn filters() {
    let pretty = choose(2) == 0;
    let k = any_u8();
    let how = choose(4);
    let mut pdf = Pdf::with_settings(Settings { pretty });
    pdf.catalog(Ref::new(2)).pages(Ref::new(4));
    let out = pdf.finish_with_xref_stream_and_filter(Ref::new(5), |d| {
        let mut v: Vec<u8> = d.iter().map(|b| b ^ k).collect();
        v.push(k);
        (
            v,
            match how {
                0 => XRefFilter::Single(Filter::FlateDecode),
                1 => XRefFilter::Multiple(vec![]),
                2 => XRefFilter::Multiple(vec![Filter::LzwDecode]),
                _ => XRefFilter::Multiple(vec![Filter::AsciiHexDecode, Filter::FlateDecode]),
            },
        )
    });
    let f = read(&out, &[5, 2], &|mut d| {
        let l = d.pop();
        check(l == Some(k), "the stream holds what the filter returned");
        d.iter().map(|b| b ^ k).collect()
    });
    if let Some(f) = f {
        cover("filter");
        check(
            match (f.trailer.get(b"Filter"), how) {
                (Some(o), 0) => o.is_name(b"FlateDecode"),
                (Some(Ob::Arr(a)), 1) => a.len() == 0,
                (Some(Ob::Arr(a)), 2) => a.len() == 1 && a[0].is_name(b"LZWDecode"),
                (Some(Ob::Arr(a)), 3) => {
                    a.len() == 2 && a[0].is_name(b"ASCIIHexDecode") && a[1].is_name(b"FlateDecode")
                }
                _ => false,
            },
            "the filters are those the closure returned, in order",
        );
        check(f.trailer.get(b"Root").map_or(false, |o| o.is_ref(2)), "trailer entries are in the stream dictionary");
    }
}

/// Any list of filters, also with repetitions.
fn filter_lists(n: usize) {
    use Filter::*;
    const ALL: [(Filter, &[u8]); 10] = [
        (AsciiHexDecode, b"ASCIIHexDecode"),
        (Ascii85Decode, b"ASCII85Decode"),
        (LzwDecode, b"LZWDecode"),
        (FlateDecode, b"FlateDecode"),
        (RunLengthDecode, b"RunLengthDecode"),
        (CcittFaxDecode, b"CCITTFaxDecode"),
        (Jbig2Decode, b"JBIG2Decode"),
        (DctDecode, b"DCTDecode"),
        (JpxDecode, b"JPXDecode"),
        (Crypt, b"Crypt"),
    ];
    let mut pdf = Pdf::with_settings(Settings { pretty: n % 2 == 0 });
    pdf.catalog(Ref::new(2)).pages(Ref::new(4));
    // beyond two, a filter is one of the first two
    let mut l: Vec<usize> = vec![];
    for i in 0..n {
        l.push(if i < 2 { choose(10) } else { l[choose(2)] });
    }
    let single = n == 1 && choose(2) == 0;
    let out = pdf.finish_with_xref_stream_and_filter(Ref::new(5), |d| {
        let f = if single {
            XRefFilter::Single(ALL[l[0]].0)
        } else {
            XRefFilter::Multiple(l.iter().map(|&i| ALL[i].0).collect())
        };
        (d.to_vec(), f)
    });
    if let Some(f) = read(&out, &[5, 2], &|d| d) {
        cover("filters");
        let ok = match f.trailer.get(b"Filter") {
            Some(Ob::Arr(a)) if !single => {
                a.len() == n && (0..n).all(|i| a[i].is_name(ALL[l[i]].1))
            }
            Some(o) if single => o.is_name(ALL[l[0]].1),
            _ => false,
        };
        check(ok, "the filters are those the closure returned, in order");
    }
}

fn content() {
    let a = of_kind(choose(KINDS));
    let mut pdf = Pdf::with_settings(Settings { pretty: choose(2) == 0 });
    put(pdf.indirect(Ref::new(3)), &a);
    let id = (any_from(b"a(\\", choose(3)), any_bytes(0));
    if choose(2) == 0 {
        pdf.set_file_id(id.clone());
    }
    put(pdf.indirect(Ref::new(2)), &a);
    let out = pdf.finish_with_xref_stream(Ref::new(6));
    read(&out, &[6, 3, 2], &|d| d);
}

crate::harnesses! {
    fn p10_none() { plain(0, 40) }
    fn p10_one() { plain(1, 12) }
    fn p10_two() { plain(2, 8) }
    fn p10_three() { plain(3, 6) }
    fn p10_four() { plain(4, 6) }
    fn p10_sizes() { sizes(&[0, 160, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 300]) }
    fn p10_sizes_two() { sizes(&[65400, 65440, 65450, 65460, 65465, 65470, 65475, 65480, 65600]) }
    fn p10_sizes_three() { sizes(&[16777120, 16777130, 16777140, 16777145, 16777150, 16777155, 16777160, 16777300]) }
    fn p10_wide() { wide(&[254, 255, 256, 257, 258, 300]) }
    fn p10_huge() { wide(&[65534, 65535, 65536]) }
    fn p10_mixed() { mixed(&[8, 255, 256, 257]) }
    fn p10_mixed_far() { mixed(&[400, 511, 513]) }
    fn p10_filters() { filters() }
    fn p10_filter_lists() { filter_lists(choose(5)) }
    fn p10_content() { content() }
}

//! Streams carry exactly the given bytes and say how many there are.
use crate::common::*;
use crate::values::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn chunk(pretty: bool) -> Chunk {
    Chunk::with_settings(Settings { pretty })
}

/// Exactly one stream object with this identifier and data; its dictionary.
fn one(c: &Chunk, id: i64, data: &[u8]) -> Option<Ob> {
    let t = match tops(c.as_bytes()) {
        Some(t) if t.len() == 1 => t,
        _ => {
            check(false, "stream object is well-formed");
            return None;
        }
    };
    let Some(t) = t.into_iter().next() else { return None };
    check(t.id == id, "stream carries its identifier");
    match &t.data {
        Some(d) => {
            cover("stream");
            check(same(d, data), "stream data is exactly the bytes that were given");
        }
        None => check(false, "a stream object holds a stream"),
    }
    Some(t.ob)
}

fn plain(n: usize) {
    let data = any_bytes(n);
    let mut c = chunk(choose(2) == 0);
    c.stream(Ref::new(3), &data);
    if let Some(d) = one(&c, 3, &data) {
        check(
            agrees(&d, &V::Dict(vec![(b"Length".to_vec(), V::Int(n as i32))])),
            "stream dictionary declares the length only",
        );
    }
}

fn with_entries() {
    let data = any_bytes(choose(3));
    let k = of_kind(choose(KINDS));
    let mut c = chunk(choose(2) == 0);
    {
        let mut s = c.stream(Ref::new(9), &data);
        put(s.insert(Name(b"K")), &k);
        s.filter(Filter::FlateDecode);
        s.decode_parms().columns(5);
    }
    if let Some(d) = one(&c, 9, &data) {
        check(
            agrees_unordered(
                &d,
                &V::Dict(vec![
                    (b"Length".to_vec(), V::Int(data.len() as i32)),
                    (b"K".to_vec(), k),
                    (b"Filter".to_vec(), V::Name(b"FlateDecode".to_vec())),
                    (b"DecodeParms".to_vec(), V::Dict(vec![(b"Columns".to_vec(), V::Int(5))])),
                ]),
            ),
            "stream dictionary has exactly the entries that were written",
        );
    }
}

/// Data that imitates the framing.
fn hostile() {
    let mut data = any_from(b"\r\n >e", 2);
    data.extend_from_slice(b"endstream\nendobj\n");
    data.extend(any_from(b"\r\n >e", 1));
    let mut c = chunk(choose(2) == 0);
    c.stream(Ref::new(1), &data);
    let after = c.len();
    c.indirect(Ref::new(2)).primitive(7);
    match tops(c.as_bytes()) {
        Some(t) if t.len() == 2 => {
            check(t[1].at >= after || t[1].at + 2 >= after, "object after the stream");
            match &t[0].data {
                Some(d) => {
                    cover("hostile");
                    check(same(d, &data), "data that looks like framing is kept verbatim")
                }
                None => check(false, "stream is read back"),
            }
            check(t[1].ob.is_int(7) & (t[1].id == 2), "the object after the stream is intact");
        }
        _ => check(false, "framing is recoverable from the declared length"),
    }
}

/// Lengths around digit boundaries (concrete sizes, symbolic contents of the
/// first and last bytes).
fn sized() {
    let n = [9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 4096, 9999, 10000, 65535, 65536, 100000, 999_999, 1_000_000, 16_777_216][choose(20)];
    let mut data = vec![b'x'; n];
    data[0] = any_u8();
    data[n - 1] = any_u8();
    let mut c = chunk(choose(2) == 0);
    c.stream(Ref::new(1), &data);
    if let Some(d) = one(&c, 1, &data) {
        match d.get(b"Length") {
            Some(l) => check(l.is_int(n as i64), "declared length"),
            None => check(false, "length is declared"),
        }
    }
}

/// Every kind of stream object the crate can start.
fn kinds(k: usize) {
    let data = any_bytes(2);
    let mut c = chunk(choose(2) == 0);
    let id = Ref::new(4);
    match k {
        0 => c.embedded_file(id, &data).finish(),
        1 => c.metadata(id, &data).finish(),
        2 => c.image_xobject(id, &data).finish(),
        3 => c.form_xobject(id, &data).finish(),
        4 => c.cmap(id, &data).finish(),
        5 => c.stream_shading(id, &data).finish(),
        6 => c.tiling_pattern(id, &data).finish(),
        7 => c.icc_profile(id, &data).finish(),
        8 => c.sampled_function(id, &data).finish(),
        _ => c.post_script_function(id, &data).finish(),
    }
    if let Some(d) = one(&c, 4, &data) {
        let t = |k: &[u8], v: &[u8]| match d.get(k) {
            Some(o) => o.is_name(v),
            None => false,
        };
        let f = |v: i64| match d.get(b"FunctionType") {
            Some(o) => o.is_int(v),
            None => false,
        };
        cover("typed stream");
        check(
            match k {
                0 => t(b"Type", b"EmbeddedFile"),
                1 => t(b"Type", b"Metadata") && t(b"Subtype", b"XML"),
                2 => t(b"Type", b"XObject") && t(b"Subtype", b"Image"),
                3 => t(b"Type", b"XObject") && t(b"Subtype", b"Form"),
                4 => t(b"Type", b"CMap"),
                5 => true,
                6 => t(b"Type", b"Pattern") && d.get(b"PatternType").map_or(false, |o| o.is_int(1)),
                7 => true,
                8 => f(0),
                _ => f(4),
            },
            "typed stream identifies itself",
        );
    }
}

/// Filters and decode parameters.
fn params() {
    let mut c = chunk(choose(2) == 0);
    let (f, n): (Filter, &[u8]) = [
        (Filter::AsciiHexDecode, &b"ASCIIHexDecode"[..]),
        (Filter::Ascii85Decode, b"ASCII85Decode"),
        (Filter::LzwDecode, b"LZWDecode"),
        (Filter::FlateDecode, b"FlateDecode"),
        (Filter::RunLengthDecode, b"RunLengthDecode"),
        (Filter::CcittFaxDecode, b"CCITTFaxDecode"),
        (Filter::Jbig2Decode, b"JBIG2Decode"),
        (Filter::DctDecode, b"DCTDecode"),
        (Filter::JpxDecode, b"JPXDecode"),
        (Filter::Crypt, b"Crypt"),
    ][choose(10)];
    let data = any_bytes(1);
    c.stream(Ref::new(1), &data).filter(f);
    if let Some(d) = one(&c, 1, &data) {
        cover("filter");
        check(d.get(b"Filter").map_or(false, |o| o.is_name(n)), "filter has its standard name");
    }
}

fn predictor() {
    let (p, n) = [
        (Predictor::None, 1),
        (Predictor::Tiff, 2),
        (Predictor::PngNone, 10),
        (Predictor::PngSub, 11),
        (Predictor::PngUp, 12),
        (Predictor::PngAverage, 13),
        (Predictor::PngPaeth, 14),
        (Predictor::PngOptimum, 15),
    ][choose(8)];
    let mut c = chunk(choose(2) == 0);
    let b = any_bool();
    let i = any_i32();
    assume(i > 0 && i < 100);
    {
        let mut s = c.stream(Ref::new(1), b"");
        let mut d = s.decode_parms();
        d.predictor(p).colors(i).early_change(b).end_of_block(b);
    }
    if let Some(d) = one(&c, 1, b"") {
        cover("predictor");
        check(
            match d.get(b"DecodeParms") {
                Some(o) => agrees_unordered(
                    o,
                    &V::Dict(vec![
                        (b"Predictor".to_vec(), V::Int(n)),
                        (b"Colors".to_vec(), V::Int(i)),
                        (b"EarlyChange".to_vec(), V::Int(b as i32)),
                        (b"EndOfBlock".to_vec(), V::Bool(b)),
                    ]),
                ),
                None => false,
            },
            "decode parameters have their standard keys and values",
        );
    }
}

crate::harnesses! {
    fn p08_plain() { plain(choose(6)) }
    fn p08_entries() { with_entries() }
    fn p08_hostile() { hostile() }
    fn p08_sized() { sized() }
    fn p08_kinds() { kinds(choose(10)) }
    fn p08_filter() { params() }
    fn p08_predictor() { predictor() }
}

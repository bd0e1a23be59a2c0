//! Methods of chunks that start a typed object, and filter parameters.
use super::kit::*;
use crate::{c, typed};

fn dict_start<T: Mand>(k: &mut E, w: &mut Dict<'_>) {
    *k = T::mand();
    w.pair(Name(b"Qq"), 7);
    k.push((b"Qq".to_vec(), V::Int(7)));
}
macro_rules! d {
    ($c:ident, $id:ident; $($m:ident $t:ident),*) => {
        &[$(|$c, $id| { let mut e = vec![]; dict_start::<$t>(&mut e, &mut $c.$m($id)); e }),*]
    };
}
/// Each method starts an object of its type with the given number.
pub fn dicts() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let v = int_id();
    let starts: &[fn(&mut Chunk, Ref) -> E] = d!(c, id;
        pages Pages, page Page, outline Outline, outline_item OutlineItem, file_spec FileSpec, struct_element StructElement,
        namespace Namespace, ext_graphics ExtGraphicsState, type1_font Type1Font, type3_font Type3Font,
        type0_font Type0Font, cid_font CidFont, font_descriptor FontDescriptor, function_shading FunctionShading,
        shading_pattern ShadingPattern, exponential_function ExponentialFunction, stitching_function StitchingFunction,
        annotation Annotation, form_field Field, signature_field_lock SignatureFieldLock,
        signature_seed_value SignatureSeedValue);
    let k = choose(starts.len());
    let e = starts[k](&mut c, Ref::new(v));
    finish(&c, v, V::Dict(e));
}
fn int_id() -> i32 {
    let v = any_i32();
    assume(v > 0 && v <= 8388607);
    v
}
fn finish(c: &Chunk, v: i32, want: V) {
    match one_indirect(c.as_bytes(), v as i64) {
        Some(o) => {
            cover("read back");
            check(agrees_unordered(&o, &want), "the object has the entries of its type");
        }
        None => check(false, "one object with the given number"),
    }
    let mut n = 0;
    for r in c.refs() {
        check(r.get() == v, "the chunk reports the object");
        n += 1;
    }
    check(n == 1, "the chunk reports one object");
}
pub fn others() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let v = int_id();
    let id = Ref::new(v);
    let want = match choose(4) {
        0 => {
            c.destination(id).page(Ref::new(4)).fit();
            V::Arr(vec![V::Ref(4), nm("Fit")])
        }
        1 => {
            let mut d = c.destinations(id);
            d.insert(Name(b"Qq")).page(Ref::new(4)).fit();
            drop(d);
            V::Dict(one("Qq", V::Arr(vec![V::Ref(4), nm("Fit")])))
        }
        2 => {
            c.color_space(id).device_gray();
            nm("DeviceGray")
        }
        _ => {
            let mut a = c.indirect(id).array();
            a.item(4);
            drop(a);
            ints(&[4])
        }
    };
    finish(&c, v, want);
}
macro_rules! s {
    ($c:ident, $id:ident, $b:ident; $($m:ident $e:expr),*) => {
        &[$((|$c, $id, $b| { $c.$m($id, $b).pair(Name(b"Qq"), 7); }, $e)),*]
    };
}
/// Each method starts a stream with the given number and data.
pub fn streams() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let v = int_id();
    let n = choose(4);
    let data = any_bytes(n);
    let starts: &[(fn(&mut Chunk, Ref, &[u8]), &[(&str, &str)])] = s!(c, id, b;
        stream &[],
        embedded_file &[("Type", "EmbeddedFile")],
        metadata &[("Type", "Metadata"), ("Subtype", "XML")],
        image_xobject &[("Type", "XObject"), ("Subtype", "Image")],
        form_xobject &[("Type", "XObject"), ("Subtype", "Form")],
        cmap &[("Type", "CMap")],
        stream_shading &[],
        tiling_pattern &[("Type", "Pattern"), ("PatternType", "1")],
        icc_profile &[],
        sampled_function &[("FunctionType", "0")],
        post_script_function &[("FunctionType", "4")]);
    let k = choose(starts.len());
    (starts[k].0)(&mut c, Ref::new(v), &data);
    let mut e = one("Length", V::Int(n as i32));
    for (k, x) in starts[k].1 {
        e.extend(one(k, if x.len() == 1 { V::Int((x.as_bytes()[0] - b'0') as i32) } else { nm(x) }));
    }
    e.extend(one("Qq", V::Int(7)));
    match tops(c.as_bytes()) {
        Some(t) if t.len() == 1 => match &t[0].data {
            Some(d) => {
                cover("read back");
                check(t[0].id == v as i64, "number of the stream");
                check(same(d, &data), "the stream has its data");
                check(agrees_unordered(&t[0].ob, &V::Dict(e)), "the stream dictionary has the entries of its type");
            }
            None => check(false, "the object is a stream"),
        },
        _ => check(false, "the object is well-formed"),
    }
}

pub const PREDICTOR: &[(Predictor, i32)] = &[
    (Predictor::None, 1),
    (Predictor::Tiff, 2),
    (Predictor::PngNone, 10),
    (Predictor::PngSub, 11),
    (Predictor::PngUp, 12),
    (Predictor::PngAverage, 13),
    (Predictor::PngPaeth, 14),
    (Predictor::PngOptimum, 15),
];
typed!(decode_parms, DecodeParms, [];
    c!(predictor: EI "Predictor" PREDICTOR);
    |w| { let v = int(); assume(v > 0); w.colors(v); one("Colors", V::Int(v)) };
    |w| { let v = [1, 2, 4, 8, 16][choose(5)]; w.bits_per_component(v); one("BitsPerComponent", V::Int(v)) };
    c!(columns: I "Columns");
    |w| { let v = any_bool(); w.early_change(v); one("EarlyChange", V::Int(v as i32)) };
    c!(k: I "K");
    c!(end_of_line: B "EndOfLine");
    c!(encoded_byte_align: B "EncodedByteAlign");
    c!(rows: I "Rows");
    c!(end_of_block: B "EndOfBlock");
    c!(black_is_1: B "BlackIs1");
    c!(damaged_rows_before_error: I "DamagedRowsBeforeError");
    c!(jbig2_globals: R "JBIG2Globals");
    |w| { let v = any_bool(); w.color_transform(v); one("ColorTransform", V::Int(v as i32)) };
    c!(crypt_type: CONST "Type" nm("CryptFilterDecodeParms"));
    c!(name: N "Name");
);
/// The corners of a rectangle, counterclockwise from the first.
pub fn quad_points() {
    let b = [any_u32(), any_u32(), any_u32(), any_u32()];
    let f = |i: usize| f32::from_bits(b[i]);
    let q = Rect::new(f(0), f(1), f(2), f(3)).to_quad_points();
    let want = [b[0], b[1], b[2], b[1], b[2], b[3], b[0], b[3]];
    let mut ok = true;
    for i in 0..8 {
        ok &= q[i].to_bits() == want[i];
    }
    cover("quad points");
    check(ok, "the corners of the rectangle in counterclockwise order");
}

//! color.rs (dictionaries; the colour spaces themselves are P24)
use super::kit::*;
use crate::{c, typed, typed_stream};

impl Mand for OutputIntent<'_> {
    fn mand() -> E {
        one("Type", nm("OutputIntent"))
    }
}
pub fn output_intent() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let mut want = OutputIntent::mand();
    {
        let mut w = c.indirect(Ref::new(1)).start::<OutputIntent>();
        let cases: &[fn(&mut OutputIntent<'_>) -> E] = &[
            c!(subtype: E "S" OUTPUT_INTENT),
            |w| { let v = bytes(); w.subtype(OutputIntentSubtype::Custom(Name(&v))); one("S", V::Name(v)) },
            c!(output_condition: T "OutputCondition"),
            c!(output_condition_identifier: T "OutputConditionIdentifier"),
            c!(registry_name: T "RegistryName"),
            c!(info: T "Info"),
            c!(dest_output_profile: R "DestOutputProfile"),
        ];
        let k = choose(8);
        if k < 7 {
            want.extend(cases[k](&mut w));
        }
        if k < 6 && choose(2) == 0 {
            w.dest_output_profile(Ref::new(8));
            want.extend(one("DestOutputProfile", V::Ref(8)));
        }
    }
    verify(&c, V::Dict(want), "output intent");
}
fn space(w: ColorSpace) -> V {
    match choose(4) {
        0 => {
            w.device_rgb();
            nm("DeviceRGB")
        }
        1 => {
            let v = id();
            w.icc_based(Ref::new(v));
            V::Arr(vec![nm("ICCBased"), V::Ref(v)])
        }
        2 => {
            let k = choose(2);
            let (h, b) = (int_if(k == 0), bytes_if(k == 1));
            w.indexed(Name(b"DeviceGray"), h, &b);
            V::Arr(vec![nm("Indexed"), nm("DeviceGray"), V::Int(h), V::Str(b)])
        }
        _ => {
            let n = bytes();
            w.pattern(Name(&n));
            V::Arr(vec![nm("Pattern"), V::Name(n)])
        }
    }
}
pub fn separation_info() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let mut want = vec![];
    {
        let mut w = c.indirect(Ref::new(1)).start::<SeparationInfo>();
        for k in [choose(5), if choose(2) == 0 { 3 } else { 9 }] {
            let cases: &[fn(&mut SeparationInfo<'_>) -> E] = &[
                c!(pages: RL "Pages"),
                c!(device_colorant: N "DeviceColorant"),
                |w| { let (s, v) = txt(); w.device_colorant_str(&s); one("DeviceColorant", v) },
                |w| { let v = space(w.color_space()); one("ColorSpace", v) },
            ];
            if k < 4 && !want.iter().any(|(n, _): &(Vec<u8>, V)| n == b"ColorSpace") {
                want.extend(cases[k](&mut w));
            }
        }
    }
    verify(&c, V::Dict(want), "separation info");
}
typed_stream!(icc_profile, IccProfile, icc_profile, [];
    |w| { let v = int(); assume((v == 1) | (v == 3) | (v == 4)); w.n(v); one("N", V::Int(v)) };
    |w| { let v = space(w.alternate()); one("Alternate", v) };
    c!(alternate_name: N "Alternate");
    c!(range: FL "Range");
    c!(metadata: R "Metadata");
);
typed_stream!(tiling_pattern, TilingPattern, tiling_pattern, ["Type" nm("Pattern"), "PatternType" V::Int(1)];
    c!(paint_type: EI "PaintType" PAINT);
    c!(tiling_type: EI "TilingType" TILING);
    c!(bbox: RECT "BBox");
    |w| { let v = num(); assume(v != 0.0); w.x_step(v); one("XStep", V::Real(v)) };
    |w| { let v = num(); assume(v != 0.0); w.y_step(v); one("YStep", V::Real(v)) };
    c!(resources: D "Resources" Resources);
    c!(matrix: FA[6] "Matrix");
);
typed!(shading_pattern, ShadingPattern, ["Type" nm("Pattern"), "PatternType" V::Int(2)];
    c!(function_shading: D "Shading" FunctionShading);
    c!(shading_ref: R "Shading");
    c!(matrix: FA[6] "Matrix");
    c!(ext_graphics: D "ExtGState" ExtGraphicsState);
);
typed!(function_shading, FunctionShading, [];
    c!(shading_type: EI "ShadingType" SHADING);
    |w| { let v = space(w.color_space()); one("ColorSpace", v) };
    c!(background: FL "Background");
    c!(bbox: RECT "BBox");
    c!(anti_alias: B "AntiAlias");
    c!(domain: FA[4] "Domain");
    c!(matrix: FA[6] "Matrix");
    c!(function: R "Function");
    c!(coords: FL "Coords");
    |w| { let (a, b) = (any_bool(), any_bool()); w.extend([a, b]); one("Extend", V::Arr(vec![V::Bool(a), V::Bool(b)])) };
);
typed_stream!(stream_shading, StreamShading, stream_shading, [];
    |w| { let i = choose(4); use crate::typed::kit::STREAM_SHADING; w.shading_type(STREAM_SHADING[i].0); one("ShadingType", V::Int(STREAM_SHADING[i].1)) };
    |w| { let v = space(w.color_space()); one("ColorSpace", v) };
    c!(background: FL "Background");
    c!(bbox: RECT "BBox");
    c!(anti_alias: B "AntiAlias");
    c!(function: R "Function");
    c!(bits_per_coordinate: I "BitsPerCoordinate");
    c!(bits_per_component: I "BitsPerComponent");
    c!(bits_per_flag: I "BitsPerFlag");
    c!(decode: FL "Decode");
    c!(vertices_per_row: I "VerticesPerRow");
);

//! Colour spaces, shadings and patterns in their standard form.
use crate::typed;
use crate::typed::kit::*;

/// Pairwise different reals, one of them of any kind.
fn numbers<const N: usize>() -> [f32; N] {
    let mut v = [0.0; N];
    for i in 0..N {
        v[i] = i as f32 + 0.25;
    }
    v
}
fn varied<const N: usize>() -> [f32; N] {
    let mut v = numbers::<N>();
    let i = choose(N + 2);
    if i < N {
        v[i] = some_num();
    } else {
        // all the same
        v = [(i - N) as f32; N];
    }
    v
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if choose(2) == 0 {
        None
    } else {
        Some(f())
    }
}
fn add(e: &mut E, k: &str, v: &Option<V>) {
    if let Some(v) = v {
        e.extend(one(k, v.clone()));
    }
}
const PRESETS: usize = 7;

/// Any colour space that takes no further steps, and what it is.
fn simple(k: usize, w: ColorSpace<'_>) -> V {
    match k {
        0 => {
            w.device_rgb();
            nm("DeviceRGB")
        }
        1 => {
            w.device_cmyk();
            nm("DeviceCMYK")
        }
        2 => {
            w.device_gray();
            nm("DeviceGray")
        }
        3 => {
            let v = id();
            w.icc_based(Ref::new(v));
            V::Arr(vec![nm("ICCBased"), V::Ref(v)])
        }
        4 => {
            let (b, h, l) = (bytes(), any_i32(), bytes());
            w.indexed(Name(&b), h, &l);
            V::Arr(vec![nm("Indexed"), V::Name(b), V::Int(h), V::Str(l)])
        }
        5 => {
            let b = bytes();
            w.pattern(Name(&b));
            V::Arr(vec![nm("Pattern"), V::Name(b)])
        }
        6 => cal_rgb(w, numbers(), opt(|| [F[3], F[4], F[5]]), opt(|| [F[6], F[7], F[8]]), opt(numbers)),
        7 => cal_gray(w, numbers(), opt(|| [F[3], F[4], F[5]]), opt(|| F[6])),
        _ => lab(w, numbers(), opt(|| [F[3], F[4], F[5]]), opt(|| [F[5], F[6], F[7], F[8]])),
    }
}
const SIMPLE: usize = 9;

fn cal_rgb(w: ColorSpace<'_>, white: [f32; 3], black: Option<[f32; 3]>, gamma: Option<[f32; 3]>, matrix: Option<[f32; 9]>) -> V {
    w.cal_rgb(white, black, gamma, matrix);
    let mut e = one("WhitePoint", reals(&white));
    add(&mut e, "BlackPoint", &black.map(|v| reals(&v)));
    add(&mut e, "Gamma", &gamma.map(|v| reals(&v)));
    add(&mut e, "Matrix", &matrix.map(|v| reals(&v)));
    V::Arr(vec![nm("CalRGB"), V::Dict(e)])
}
fn cal_gray(w: ColorSpace<'_>, white: [f32; 3], black: Option<[f32; 3]>, gamma: Option<f32>) -> V {
    w.cal_gray(white, black, gamma);
    let mut e = one("WhitePoint", reals(&white));
    add(&mut e, "BlackPoint", &black.map(|v| reals(&v)));
    add(&mut e, "Gamma", &gamma.map(V::Real));
    V::Arr(vec![nm("CalGray"), V::Dict(e)])
}
fn lab(w: ColorSpace<'_>, white: [f32; 3], black: Option<[f32; 3]>, range: Option<[f32; 4]>) -> V {
    w.lab(white, black, range);
    let mut e = one("WhitePoint", reals(&white));
    add(&mut e, "BlackPoint", &black.map(|v| reals(&v)));
    add(&mut e, "Range", &range.map(|v| reals(&v)));
    V::Arr(vec![nm("Lab"), V::Dict(e)])
}
fn chunk() -> Chunk {
    Chunk::with_settings(Settings { pretty: choose(2) == 0 })
}

/// Each constructor as an object of its own.
fn plain() {
    let mut c = chunk();
    let want = simple(choose(SIMPLE), c.color_space(Ref::new(1)));
    verify(&c, want, "colour space");
}
/// All parameters of the CIE-based spaces, each varied in turn.
fn cie() {
    let mut c = chunk();
    let w = c.color_space(Ref::new(1));
    let want = match choose(3) {
        0 => cal_rgb(w, varied(), Some(varied()), Some(numbers()), Some(numbers())),
        1 => cal_gray(w, varied(), opt(varied), opt(some_num)),
        _ => lab(w, varied(), opt(varied), opt(numbers)),
    };
    verify(&c, want, "CIE-based colour space");
}
fn cie_matrix() {
    let mut c = chunk();
    let w = c.color_space(Ref::new(1));
    let want = match choose(2) {
        0 => cal_rgb(w, numbers(), opt(numbers), Some(varied()), Some(varied())),
        _ => lab(w, numbers(), opt(numbers), Some(varied())),
    };
    verify(&c, want, "CIE-based colour space");
}
/// Any finite real in any one place.
fn cie_any() {
    fn wild<const N: usize>(yes: bool) -> [f32; N] {
        let mut v = numbers::<N>();
        if yes {
            v[choose(N)] = any_finite();
        }
        v
    }
    let mut c = Chunk::new();
    let w = c.color_space(Ref::new(1));
    let k = choose(4);
    let want = match choose(3) {
        0 => cal_rgb(w, wild(k == 0), Some(wild(k == 1)), Some(wild(k == 2)), Some(wild(k == 3))),
        1 => cal_gray(w, wild(k == 0), Some(wild(k == 1)), Some(wild::<1>(k >= 2)[0])),
        _ => lab(w, wild(k == 0), Some(wild(k == 1)), Some(wild(k >= 2))),
    };
    verify(&c, want, "CIE-based colour space");
}

// ---- presets

/// The numbers of an array, exact to six decimals.
fn micro(o: &Ob) -> Option<Vec<i64>> {
    let one = |o: &Ob| match o {
        Ob::Int(i) => Some(*i * 1_000_000),
        Ob::Real(r) => real_value(r).map(|v| (v * 1e6 + 0.5) as i64),
        _ => None,
    };
    match o {
        Ob::Arr(a) => a.iter().map(one).collect(),
        o => Some(vec![one(o)?]),
    }
}
fn near(a: &[i64], b: &[i64], eps: i64) -> bool {
    let mut ok = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        ok &= (a[i] - b[i]).abs() <= eps;
    }
    ok
}
/// Chromaticities of the primaries in ten-thousandths, white point and gamma
/// in millionths.
struct Space {
    xy: [[i64; 2]; 3],
    white: [i64; 3],
    gamma: i64,
}
const D65: [i64; 3] = [950470, 1_000_000, 1_088830];
const D50: [i64; 3] = [964220, 1_000_000, 825210];
const ILL_C: [i64; 3] = [980740, 1_000_000, 1_182320];
const ILL_E: [i64; 3] = [1_000_000, 1_000_000, 1_000_000];
/// The matrix from linear RGB to XYZ that these primaries and white give, by
/// Cramer's rule: columns (x, y, z)/y scaled so that they add up to the white.
fn matrix(s: &Space) -> Vec<i64> {
    let col = |p: [i64; 2]| [p[0] as f64, p[1] as f64, (10000 - p[0] - p[1]) as f64];
    let m = [col(s.xy[0]), col(s.xy[1]), col(s.xy[2])];
    let w = [s.white[0] as f64, s.white[1] as f64, s.white[2] as f64];
    let det = |a: &[f64; 3], b: &[f64; 3], c: &[f64; 3]| {
        a[0] * (b[1] * c[2] - b[2] * c[1]) - b[0] * (a[1] * c[2] - a[2] * c[1]) + c[0] * (a[1] * b[2] - a[2] * b[1])
    };
    let d = det(&m[0], &m[1], &m[2]);
    let scale = [det(&w, &m[1], &m[2]), det(&m[0], &w, &m[2]), det(&m[0], &m[1], &w)];
    let mut out = vec![];
    for c in 0..3 {
        for r in 0..3 {
            out.push((scale[c] * m[c][r] / d) as i64);
        }
    }
    out
}
const REC709: [[i64; 2]; 3] = [[6400, 3300], [3000, 6000], [1500, 600]];
fn preset_rgb() {
    let k = choose(PRESETS);
    let s = match k {
        0 => Space { xy: REC709, white: D65, gamma: 2_200000 },
        1 => Space { xy: [[6400, 3300], [2100, 7100], [1500, 600]], white: D65, gamma: 2_199219 },
        2 => Space { xy: [[6800, 3200], [2650, 6900], [1500, 600]], white: D65, gamma: 2_200000 },
        3 => Space { xy: [[7347, 2653], [1596, 8404], [366, 1]], white: D50, gamma: 1_800000 },
        4 => Space { xy: [[6700, 3300], [2100, 7100], [1400, 800]], white: D50, gamma: 1_800000 },
        5 => Space { xy: [[6700, 3300], [2100, 7100], [1400, 800]], white: ILL_C, gamma: 2_200000 },
        _ => Space { xy: [[6400, 3300], [2900, 6000], [1500, 600]], white: D65, gamma: 2_200000 },
    };
    let mut c = chunk();
    let w = c.color_space(Ref::new(1));
    match k {
        0 => w.srgb(),
        1 => w.adobe_rgb(),
        2 => w.display_p3(),
        3 => w.pro_photo(),
        4 => w.eci_rgb(),
        5 => w.ntsc(),
        _ => w.pal(),
    }
    let d = preset(&c, b"CalRGB", &s.white);
    if let Some(d) = d {
        check(d.len() == 3, "white point, gamma and matrix");
        let get = |k: &[u8]| d.iter().find(|e| same(&e.0, k)).and_then(|e| micro(&e.1));
        check(get(b"Gamma").map_or(false, |g| near(&g, &[s.gamma; 3], 1000)), "the gamma of the named space");
        check(get(b"Matrix").map_or(false, |m| near(&m, &matrix(&s), 1000)), "the primaries of the named space");
    }
}
/// The dictionary of a calibrated space with this white point.
fn preset(c: &Chunk, family: &[u8], white: &[i64; 3]) -> Option<Vec<(Vec<u8>, Ob)>> {
    let o = one_indirect(c.as_bytes(), 1);
    let d = match &o {
        Some(Ob::Arr(a)) if a.len() == 2 && a[0].is_name(family) => a[1].dict().map(|d| d.to_vec()),
        _ => None,
    };
    cover("preset");
    check(d.is_some(), "an array of the family and its dictionary");
    let d = d?;
    let w = d.iter().find(|e| same(&e.0, b"WhitePoint")).and_then(|e| micro(&e.1));
    check(w.map_or(false, |w| near(&w, white, 1000)), "the white point of the named illuminant");
    Some(d)
}
fn preset_gray() {
    let k = choose(4);
    let g = opt(num);
    let (white, gamma) = match k {
        0 => (D65, Some(2.2)),
        1 => (D50, g),
        2 => (ILL_C, Some(2.2)),
        _ => (ILL_E, g),
    };
    let mut c = chunk();
    let w = c.color_space(Ref::new(1));
    match k {
        0 => w.d65_gray(),
        1 => w.d50_gray(g),
        2 => w.c_gray(),
        _ => w.e_gray(g),
    }
    if let Some(d) = preset(&c, b"CalGray", &white) {
        let got = d.iter().find(|e| same(&e.0, b"Gamma"));
        check(d.len() == 1 + gamma.is_some() as usize, "white point and gamma if given");
        check(
            match (gamma, got) {
                (None, None) => true,
                (Some(g), Some(e)) => agrees(&e.1, &V::Real(g)),
                _ => false,
            },
            "the given gamma",
        );
    }
}

// ---- special spaces

macro_rules! alternate {
    ($s:ident) => {
        match choose(3) {
            0 => {
                let k = choose(3);
                $s.alternate_device([DeviceColorSpace::Rgb, DeviceColorSpace::Cmyk, DeviceColorSpace::Gray][k]);
                nm(["DeviceRGB", "DeviceCMYK", "DeviceGray"][k])
            }
            1 => {
                let k = [0, 3, 7][choose(3)];
                simple(k, $s.alternate_color_space())
            }
            _ => {
                let v = id();
                $s.alternate_color_space_ref(Ref::new(v));
                V::Ref(v)
            }
        }
    };
}
macro_rules! tint {
    ($s:ident) => {
        match choose(3) {
            0 => {
                let n = num();
                $s.tint_exponential().domain([0.0, 1.0]).c0([0.25]).c1([0.5, 0.75]).n(n);
                let mut e = one("FunctionType", V::Int(2));
                e.extend(one("Domain", reals(&[0.0, 1.0])));
                e.extend(one("C0", reals(&[0.25])));
                e.extend(one("C1", reals(&[0.5, 0.75])));
                e.extend(one("N", V::Real(n)));
                V::Dict(e)
            }
            1 => {
                let v = id();
                $s.tint_stitching().functions([Ref::new(v), Ref::new(3)]).bounds([0.5]).encode([0.0, 1.0]);
                let mut e = one("FunctionType", V::Int(3));
                e.extend(one("Functions", V::Arr(vec![V::Ref(v), V::Ref(3)])));
                e.extend(one("Bounds", reals(&[0.5])));
                e.extend(one("Encode", reals(&[0.0, 1.0])));
                V::Dict(e)
            }
            _ => {
                let v = id();
                $s.tint_ref(Ref::new(v));
                V::Ref(v)
            }
        }
    };
}
fn separation() {
    let mut c = chunk();
    let vary = choose(3);
    set_plain(vary != 0);
    let n = bytes();
    let mut s = c.color_space(Ref::new(1)).separation(Name(&n));
    set_plain(vary != 1);
    let a = alternate!(s);
    set_plain(vary != 2);
    let t = tint!(s);
    drop(s);
    verify(&c, V::Arr(vec![nm("Separation"), V::Name(n), a, t]), "separation");
}
fn names(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| if i == 0 { bytes() } else { vec![b'b'.wrapping_add(i as u8)] }).collect()
}
fn name_arr(v: &[Vec<u8>]) -> V {
    V::Arr(v.iter().map(|n| V::Name(n.clone())).collect())
}
fn device_n() {
    let mut c = chunk();
    let vary = choose(3);
    set_plain(vary != 0);
    let n = names(choose(4));
    let mut s = c.color_space(Ref::new(1)).device_n(n.iter().map(|n| Name(n)));
    set_plain(vary != 1);
    let a = alternate!(s);
    set_plain(vary != 2);
    let t = tint!(s);
    set_plain(false);
    let mut want = vec![nm("DeviceN"), name_arr(&n), a, t];
    if choose(2) == 0 {
        let v = choose(2) == 0;
        s.attrs().subtype(if v { DeviceNSubtype::DeviceN } else { DeviceNSubtype::NChannel });
        want.push(V::Dict(one("Subtype", nm(if v { "DeviceN" } else { "NChannel" }))));
    }
    drop(s);
    verify(&c, V::Arr(want), "DeviceN");
}
/// The attributes of a DeviceN space: any of the parts, in any order.
fn attrs() {
    let mut c = chunk();
    let mut s = c.color_space(Ref::new(1)).device_n([Name(b"Orange"), Name(b"Cyan")]);
    s.alternate_device(DeviceColorSpace::Cmyk).tint_ref(Ref::new(2));
    let mut want: E = vec![];
    {
        let mut w = s.attrs();
        let vary = choose(5);
        let order = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]][if vary == 4 { choose(3) } else { 0 }];
        for k in order {
            set_plain(false);
            // Any subset with plain contents, or all with one varied.
            if vary == 4 && choose(2) == 0 {
                continue;
            }
            set_plain(k != vary);
            want.extend(attr(&mut w, k, k == vary));
        }
    }
    drop(s);
    let head = vec![nm("DeviceN"), V::Arr(vec![nm("Orange"), nm("Cyan")]), nm("DeviceCMYK"), V::Ref(2), V::Dict(want)];
    verify(&c, V::Arr(head), "DeviceN with attributes");
}
/// What the values of the Colorants dictionary are started with.
trait Colorant {
    fn colorant(self, name: &[u8], tint: Ref);
}
impl Colorant for ColorSpace<'_> {
    fn colorant(self, name: &[u8], tint: Ref) {
        self.separation(Name(name)).alternate_device(DeviceColorSpace::Cmyk).tint_ref(tint);
    }
}
impl Colorant for Dict<'_> {
    /// A dictionary cannot hold a colour space.
    fn colorant(mut self, _: &[u8], tint: Ref) {
        self.pair(Name(b"K"), tint);
    }
}
fn attr(w: &mut DeviceNAttrs<'_>, k: usize, vary: bool) -> E {
    let pick = |n: usize| if vary { choose(n) } else { n - 1 };
    match k {
        0 => {
            w.subtype(DeviceNSubtype::NChannel);
            one("Subtype", nm("NChannel"))
        }
        1 => {
            let n = pick(3);
            let mut d = w.colorants();
            let mut e = vec![];
            for i in 0..n {
                let key = if i == 0 { bytes_if(vary) } else { b"Other".to_vec() };
                let r = Ref::new(4 + i as i32);
                let k = nm(if i == 0 { "Spot" } else { "Other" });
                d.insert(Name(&key)).colorant(if i == 0 { b"Spot" } else { b"Other" }, r);
                let v = vec![nm("Separation"), k, nm("DeviceCMYK"), V::Ref(r.get())];
                e.push((key, V::Arr(v)));
            }
            drop(d);
            one("Colorants", V::Dict(e))
        }
        2 => {
            let mut p = w.process();
            let mut e = match pick(3) {
                0 => {
                    let n = bytes_if(vary);
                    p.color_space(Name(&n));
                    one("ColorSpace", V::Name(n))
                }
                1 => one("ColorSpace", simple([0, 1, 3][pick(3)], p.color_space_array())),
                _ => vec![],
            };
            let n = names(pick(3));
            p.components(n.iter().map(|n| Name(n)));
            e.extend(one("Components", name_arr(&n)));
            drop(p);
            one("Process", V::Dict(e))
        }
        _ => {
            let mut m = w.mixing_hints();
            let mut e = vec![];
            let which = pick(4);
            if which != 1 {
                let a = if which == 2 { num() } else { some_num() };
                let b = bytes_if(vary);
                m.solidities().pair(Name(&b), a).pair(Name(b"Default"), 0.5);
                let mut i = vec![(b, V::Real(a))];
                i.extend(one("Default", V::Real(0.5)));
                e.extend(one("Solidities", V::Dict(i)));
            }
            if which != 2 {
                let n = names(2);
                m.printing_order(n.iter().map(|n| Name(n)));
                e.extend(one("PrintingOrder", name_arr(&n)));
            }
            if which != 0 {
                let a = if which == 1 { num() } else { some_num() };
                m.dot_gain().pair(Name(b"Cyan"), a);
                e.extend(one("DotGain", V::Dict(one("Cyan", V::Real(a)))));
            }
            drop(m);
            one("MixingHints", V::Dict(e))
        }
    }
}

/// Every place that takes a colour space.
fn places() {
    let mut c = chunk();
    let place = choose(7);
    let k = choose(SIMPLE);
    set_plain(k < 3 || k == 4);
    match place {
        0 => {
            let mut w = c.icc_profile(Ref::new(1), b"x");
            w.n(3);
            let v = simple(k, w.alternate());
            w.pair(Name(b"Z"), 1);
            drop(w);
            let mut e = one("Length", V::Int(1));
            e.extend(one("N", V::Int(3)));
            e.extend(one("Alternate", v));
            e.extend(one("Z", V::Int(1)));
            verify_stream(&c, V::Dict(e), b"x");
        }
        1 => {
            let mut w = c.image_xobject(Ref::new(1), b"x");
            let v = simple(k, w.color_space());
            w.width(3);
            drop(w);
            let mut e = one("Length", V::Int(1));
            e.extend(one("Type", nm("XObject")));
            e.extend(one("Subtype", nm("Image")));
            e.extend(one("ColorSpace", v));
            e.extend(one("Width", V::Int(3)));
            verify_stream(&c, V::Dict(e), b"x");
        }
        2 => {
            let mut w = c.stream_shading(Ref::new(1), b"x");
            let v = simple(k, w.color_space());
            w.bits_per_flag(2);
            drop(w);
            let mut e = one("Length", V::Int(1));
            e.extend(one("ColorSpace", v));
            e.extend(one("BitsPerFlag", V::Int(2)));
            verify_stream(&c, V::Dict(e), b"x");
        }
        3 => {
            let mut w = c.function_shading(Ref::new(1));
            let v = simple(k, w.color_space());
            w.anti_alias(true);
            drop(w);
            let mut e = one("ColorSpace", v);
            e.extend(one("AntiAlias", V::Bool(true)));
            verify(&c, V::Dict(e), "shading");
        }
        4 => {
            let mut w = c.indirect(Ref::new(1)).start::<Group>();
            let v = simple(k, w.color_space());
            w.isolated(true);
            drop(w);
            let mut e = one("Type", nm("Group"));
            e.extend(one("ColorSpace", v));
            let o = one_indirect(c.as_bytes(), 1);
            cover("group");
            // The key in a group is CS.
            let want = match &e[1].1 {
                v => {
                    let mut w = one("Type", nm("Group"));
                    w.extend(one("CS", v.clone()));
                    w.extend(one("I", V::Bool(true)));
                    V::Dict(w)
                }
            };
            check(o.map_or(false, |o| agrees_unordered(&o, &want)), "the group has its colour space");
        }
        5 => {
            let n = bytes();
            let mut w = c.indirect(Ref::new(1)).start::<Resources>();
            let mut d = w.color_spaces();
            let v = simple(k, d.insert(Name(&n)).start());
            d.insert(Name(b"Zz")).start::<ColorSpace>().device_gray();
            drop(d);
            drop(w);
            let mut e = vec![(n, v)];
            e.extend(one("Zz", nm("DeviceGray")));
            verify(&c, V::Dict(one("ColorSpace", V::Dict(e))), "resources");
        }
        _ => {
            let mut a = c.indirect(Ref::new(1)).array();
            let v = simple(k, a.push().start());
            let w = simple(1, a.push().start());
            a.item(7);
            drop(a);
            verify(&c, V::Arr(vec![v, w, V::Int(7)]), "array of colour spaces");
        }
    }
}

/// Complete patterns and shadings.
fn shading() {
    let mut c = chunk();
    let (v, i) = (id(), choose(3));
    let pattern = choose(2) == 0;
    let mut e = vec![];
    {
        let mut p = None;
        let mut w = if pattern { p.insert(c.shading_pattern(Ref::new(1))).function_shading() } else { c.function_shading(Ref::new(1)) };
        w.shading_type([FunctionShadingType::Function, FunctionShadingType::Axial, FunctionShadingType::Radial][i]);
        e.extend(one("ShadingType", V::Int(i as i32 + 1)));
        let k = choose(SIMPLE);
        e.extend(one("ColorSpace", simple(if k == 4 { 0 } else { k }, w.color_space())));
        match i {
            0 => {
                w.domain(numbers()).matrix(numbers());
                e.extend(one("Domain", reals(&numbers::<4>())));
                e.extend(one("Matrix", reals(&numbers::<6>())));
            }
            1 => {
                w.coords(numbers::<4>()).extend([true, false]);
                e.extend(one("Coords", reals(&numbers::<4>())));
                e.extend(one("Extend", V::Arr(vec![V::Bool(true), V::Bool(false)])));
            }
            _ => {
                w.coords(numbers::<6>()).extend([false, true]);
                e.extend(one("Coords", reals(&numbers::<6>())));
                e.extend(one("Extend", V::Arr(vec![V::Bool(false), V::Bool(true)])));
            }
        }
        w.function(Ref::new(v)).background([1.0, 0.5]).anti_alias(false);
        e.extend(one("Function", V::Ref(v)));
        e.extend(one("Background", reals(&[1.0, 0.5])));
        e.extend(one("AntiAlias", V::Bool(false)));
    }
    let want = if pattern {
        let mut p = one("Type", nm("Pattern"));
        p.extend(one("PatternType", V::Int(2)));
        p.extend(one("Shading", V::Dict(e)));
        V::Dict(p)
    } else {
        V::Dict(e)
    };
    verify(&c, want, "shading");
}
fn mesh() {
    let mut c = chunk();
    let (i, bits) = (choose(4), any_i32());
    let data = crate::common::any_bytes(choose(4));
    let mut e = one("Length", V::Int(data.len() as i32));
    {
        let mut w = c.stream_shading(Ref::new(1), &data);
        w.shading_type(STREAM_SHADING[i].0);
        e.extend(one("ShadingType", V::Int(i as i32 + 4)));
        e.extend(one("ColorSpace", simple(choose(3), w.color_space())));
        w.bits_per_coordinate(bits).bits_per_component(8).bits_per_flag(2).decode(numbers::<6>());
        e.extend(one("BitsPerCoordinate", V::Int(bits)));
        e.extend(one("BitsPerComponent", V::Int(8)));
        e.extend(one("BitsPerFlag", V::Int(2)));
        e.extend(one("Decode", reals(&numbers::<6>())));
        if i == 1 {
            w.vertices_per_row(5);
            e.extend(one("VerticesPerRow", V::Int(5)));
        }
    }
    verify_stream(&c, V::Dict(e), &data);
}
fn tiling() {
    let mut c = chunk();
    let data = crate::common::any_bytes(choose(4));
    let (i, j) = (choose(2), choose(3));
    let (x, y) = (num(), [1.5, -8.0][choose(2)]);
    assume(x != 0.0);
    let mut e = one("Length", V::Int(data.len() as i32));
    {
        let mut w = c.tiling_pattern(Ref::new(1), &data);
        w.paint_type(PAINT[i].0).tiling_type(TILING[j].0).bbox(Rect::new(F[0], F[1], F[2], F[3]));
        w.x_step(x).y_step(y);
        w.resources().color_spaces().insert(Name(b"C")).start::<ColorSpace>().device_cmyk();
        w.matrix(numbers());
    }
    e.extend(one("Type", nm("Pattern")));
    e.extend(one("PatternType", V::Int(1)));
    e.extend(one("PaintType", V::Int(i as i32 + 1)));
    e.extend(one("TilingType", V::Int(j as i32 + 1)));
    e.extend(one("BBox", V::Rect(F[0], F[1], F[2], F[3])));
    e.extend(one("XStep", V::Real(x)));
    e.extend(one("YStep", V::Real(y)));
    e.extend(one("Resources", V::Dict(one("ColorSpace", V::Dict(one("C", nm("DeviceCMYK")))))));
    e.extend(one("Matrix", reals(&numbers::<6>())));
    verify_stream(&c, V::Dict(e), &data);
}

/// Many colourants, long tables.
fn large() {
    let mut c = chunk();
    let n = [8, 9, 31, 32, 33, 255, 256, 300][choose(8)];
    let b = any_u8();
    let want = match choose(4) {
        0 => {
            let v = names(n);
            let mut s = c.color_space(Ref::new(1)).device_n(v.iter().map(|n| Name(n)));
            s.alternate_color_space().device_cmyk();
            s.tint_ref(Ref::new(9));
            drop(s);
            V::Arr(vec![nm("DeviceN"), name_arr(&v), nm("DeviceCMYK"), V::Ref(9)])
        }
        1 => {
            let mut t = vec![b; 3 * n];
            t[n] = b'(';
            c.color_space(Ref::new(1)).indexed(Name(b"DeviceRGB"), n as i32 - 1, &t);
            V::Arr(vec![nm("Indexed"), nm("DeviceRGB"), V::Int(n as i32 - 1), V::Str(t)])
        }
        2 => {
            let t = vec![b; n];
            let mut s = c.color_space(Ref::new(1)).separation(Name(&t));
            s.alternate_color_space().device_gray();
            s.tint_ref(Ref::new(9));
            drop(s);
            V::Arr(vec![nm("Separation"), V::Name(t), nm("DeviceGray"), V::Ref(9)])
        }
        _ => {
            c.color_space(Ref::new(1)).icc_based(Ref::new(70000 + b as i32));
            V::Arr(vec![nm("ICCBased"), V::Ref(70000 + b as i32)])
        }
    };
    verify(&c, want, "large");
}

crate::harnesses! {
    fn p24_large() { large() }
    fn p24_plain() { plain() }
    fn p24_cie() { cie() }
    fn p24_cie_matrix() { cie_matrix() }
    fn p24_cie_any() { cie_any() }
    fn p24_preset_rgb() { preset_rgb() }
    fn p24_preset_gray() { preset_gray() }
    fn p24_separation() { separation() }
    fn p24_device_n() { device_n() }
    fn p24_attrs() { attrs() }
    fn p24_places() { places() }
    fn p24_shading() { shading() }
    fn p24_mesh() { mesh() }
    fn p24_tiling() { tiling() }
    fn p24_tiling_entries() { typed::color::tiling_pattern() }
    fn p24_shading_pattern_entries() { typed::color::shading_pattern() }
    fn p24_function_shading_entries() { typed::color::function_shading() }
    fn p24_stream_shading_entries() { typed::color::stream_shading() }
}

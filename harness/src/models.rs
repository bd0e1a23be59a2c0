//! Models of `core`'s float formatting for the symbolic build (the executor
//! redirects the real implementations here). The text is an injective spelling
//! of the bit pattern in octal digits, shaped like what the real one prints.
use core::fmt::{Formatter, Result};

/// `lead` + octal digits of the magnitude; `.` after the lead unless integral.
fn put(f: &mut Formatter, neg: bool, bits: u64, digits: usize, lead: u8, point: bool, exp: bool) -> Result {
    let mut b = [0u8; 40];
    let mut n = 0;
    if neg {
        b[n] = b'-';
        n += 1;
    }
    b[n] = lead;
    n += 1;
    if point {
        b[n] = b'.';
        n += 1;
    }
    let mut k = digits;
    while k > 0 {
        k -= 1;
        b[n] = b'0' + ((bits >> (3 * k)) & 7) as u8;
        n += 1;
    }
    if exp {
        b[n] = b'e';
        b[n + 1] = b'9';
        n += 2;
    }
    f.write_str(unsafe { core::str::from_utf8_unchecked(&b[..n]) })
}

fn half_ulp(p: usize) -> f64 {
    let mut h = 0.5f64;
    let mut i = 0;
    while i < p && i < 400 {
        h /= 10.0;
        i += 1;
    }
    h
}

fn general(f: &mut Formatter, v: f64, neg: bool, bits: u64, digits: usize, integral: bool, lead: u8, exp: bool) -> Result {
    let a = v.abs();
    if v.is_nan() {
        return f.write_str("NaN");
    }
    if a == f64::INFINITY {
        return f.write_str(if neg { "-inf" } else { "inf" });
    }
    if a == 0.0 {
        return f.write_str(if neg { "-0" } else { "0" });
    }
    if let Some(p) = f.precision() {
        // rounded output: values that round to zero are printed as zero, the
        // rest is (optimistically) taken to be printed exactly
        if a < half_ulp(p) {
            return f.write_str(if neg { "-0.0" } else { "0.0" });
        }
        return put(f, neg, bits, digits, lead, p > 0, exp);
    }
    put(f, neg, bits, digits, if integral { b'9' - (lead - b'2') } else { lead }, !integral, exp)
}

#[no_mangle]
pub extern "C" fn model_f32_display(v: &f32, f: &mut Formatter) -> bool {
    let bits = v.to_bits();
    let a = f32::from_bits(bits & 0x7fff_ffff);
    let integral = a >= 8388608.0 || (a as i32) as f32 == a;
    general(f, *v as f64, bits >> 31 == 1, (bits & 0x7fff_ffff) as u64, 11, integral, b'2', false).is_err()
}
#[no_mangle]
pub extern "C" fn model_f32_exp(v: &f32, f: &mut Formatter) -> bool {
    let bits = v.to_bits();
    general(f, *v as f64, bits >> 31 == 1, (bits & 0x7fff_ffff) as u64, 11, false, b'2', true).is_err()
}
#[no_mangle]
pub extern "C" fn model_f32_debug(v: &f32, f: &mut Formatter) -> bool {
    let bits = v.to_bits();
    let a = f32::from_bits(bits & 0x7fff_ffff);
    let exp = a >= 1e16 || (a != 0.0 && a < 1e-4);
    general(f, *v as f64, bits >> 31 == 1, (bits & 0x7fff_ffff) as u64, 11, false, b'2', exp).is_err()
}
#[no_mangle]
pub extern "C" fn model_f64_display(v: &f64, f: &mut Formatter) -> bool {
    let bits = v.to_bits();
    let m = bits & !(1 << 63);
    let a = f64::from_bits(m);
    let integral = a >= 4503599627370496.0 || (a as i64) as f64 == a;
    general(f, *v, bits >> 63 == 1, m, 21, integral, b'3', false).is_err()
}

#[used]
pub static KEEP_F32: [extern "C" fn(&f32, &mut Formatter) -> bool; 3] = [model_f32_display, model_f32_exp, model_f32_debug];
#[used]
pub static KEEP_F64: [extern "C" fn(&f64, &mut Formatter) -> bool; 1] = [model_f64_display];

extern "C" {
    fn sym_aux_u8() -> u8;
    fn sym_is_const(v: u64) -> bool;
    fn sym_assume(b: bool);
}

/// Canonical decimal digits, as in the `itoa` model.
fn digits(v: u64, max: u64, out: &mut [u8; 24]) -> usize {
    unsafe {
        let known = sym_is_const(v);
        let mut n = 1;
        let mut lim = 10u64;
        while lim <= max && v >= lim {
            n += 1;
            if n == 20 {
                break;
            }
            lim *= 10;
        }
        if known {
            let mut x = v;
            let mut k = n;
            while k > 0 {
                k -= 1;
                out[k] = b'0' + (x % 10) as u8;
                x /= 10;
            }
            return n;
        }
        let mut h = 0u64;
        let mut k = 0;
        while k < n {
            let c = sym_aux_u8();
            sym_assume(c >= b'0' && c <= b'9');
            out[k] = c;
            h = h.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64);
            k += 1;
        }
        sym_assume(n == 1 || out[0] != b'0');
        sym_assume(h == v);
        n
    }
}

macro_rules! ints {
    ($($name:ident $keep:ident $t:ty;)*) => {$(
        #[no_mangle]
        #[allow(unused_comparisons)]
        pub extern "C" fn $name(v: &$t, f: &mut Formatter) -> bool {
            let neg = *v < 0;
            let m = if neg { (*v as i64 as u64).wrapping_neg() } else { *v as u64 };
            let max = if <$t>::MIN == 0 { <$t>::MAX as u64 } else { (<$t>::MAX as u64) + 1 };
            let mut b = [0u8; 24];
            let n = digits(m, max, &mut b);
            f.pad_integral(!neg, "", unsafe { core::str::from_utf8_unchecked(&b[..n]) }).is_err()
        }
        #[used]
        pub static $keep: extern "C" fn(&$t, &mut Formatter) -> bool = $name;
    )*};
}
// u64 and i64 share the models of usize and isize
ints! {
    model_int_h K0 u8;
    model_int_t K1 u16;
    model_int_m K2 u32;
    model_int_j K4 usize;
    model_int_a K5 i8;
    model_int_s K6 i16;
    model_int_l K7 i32;
    model_int_i K9 isize;
}

/// What `to_string` of the integers uses: the digits end where the buffer ends.
#[repr(C)]
pub struct Text(*const u8, usize);
macro_rules! decimals {
    ($($name:ident $keep:ident $t:ty;)*) => {$(
        #[no_mangle]
        pub extern "C" fn $name(v: $t, buf: *mut u8, len: usize) -> Text {
            let mut b = [0u8; 24];
            let n = digits(v as u64, <$t>::MAX as u64, &mut b);
            unsafe {
                let p = buf.add(len - n);
                let mut i = 0;
                while i < n {
                    *p.add(i) = b[i];
                    i += 1;
                }
                Text(p, n)
            }
        }
        #[used]
        pub static $keep: extern "C" fn($t, *mut u8, usize) -> Text = $name;
    )*};
}
decimals! {
    model_dec_h D0 u8;
    model_dec_t D1 u16;
    model_dec_m D2 u32;
    model_dec_y D3 u64;
    model_dec_j D4 usize;
}

/// The hash of std's maps and sets: which one it is must not matter, and with
/// a constant one lookups compare keys.
#[no_mangle]
pub extern "C" fn model_hash() -> u64 {
    0
}
#[used]
pub static KEEP_HASH: extern "C" fn() -> u64 = model_hash;

//! Model of `itoa` for the symbolic build: its contract (the canonical decimal
//! spelling) is stated with fresh digits `d_i` constrained by
//! `sum d_i * 10^i == v`, `0 <= d_i <= 9`, no leading zero. The digits exist
//! and are unique, so this is a definition, not a restriction of the value.
extern "C" {
    fn sym_aux_u8() -> u8;
    fn sym_is_const(v: u64) -> bool;
    fn sym_assume(b: bool);
}

pub struct Buffer {
    b: [u8; 24],
}

pub trait Integer: Copy {
    fn split(self) -> (bool, u64);
}
macro_rules! imp {
    ($($t:ty)*) => {$(
        impl Integer for $t {
            #[allow(unused_comparisons)]
            fn split(self) -> (bool, u64) {
                if self < 0 { (true, (self as i64 as u64).wrapping_neg()) } else { (false, self as u64) }
            }
        }
    )*};
}
imp!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);

/// Decimal digits of `v`, most significant first; returns how many.
pub fn digits(v: u64, out: &mut [u8]) -> usize {
    unsafe {
        if sym_is_const(v) {
            let mut n = 1;
            let mut lim = 10u64;
            while n < 20 && v >= lim {
                n += 1;
                lim = lim.wrapping_mul(10);
                if n == 20 {
                    break;
                }
            }
            let mut x = v;
            let mut k = n;
            while k > 0 {
                k -= 1;
                out[k] = b'0' + (x % 10) as u8;
                x /= 10;
            }
            return n;
        }
        let mut n = 1;
        let mut lim = 10u64;
        while n < 19 && v >= lim {
            n += 1;
            lim *= 10;
        }
        sym_assume(n < 19 || v < lim);
        let mut h = 0u64;
        let mut k = 0;
        while k < n {
            let c = sym_aux_u8();
            sym_assume(c >= b'0' && c <= b'9');
            out[k] = c;
            h = h.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64);
            k += 1;
        }
        sym_assume(n == 1 || out[0] != b'0');
        sym_assume(h == v);
        n
    }
}

impl Buffer {
    pub fn new() -> Self {
        Buffer { b: [0; 24] }
    }
    pub fn format<I: Integer>(&mut self, i: I) -> &str {
        let (neg, v) = i.split();
        let mut n = 0;
        if neg {
            self.b[0] = b'-';
            n = 1;
        }
        let k = digits(v, &mut self.b[n..]);
        unsafe { std::str::from_utf8_unchecked(&self.b[..n + k]) }
    }
}
impl Default for Buffer {
    fn default() -> Self {
        Self::new()
    }
}
impl Copy for Buffer {}
impl Clone for Buffer {
    fn clone(&self) -> Self {
        *self
    }
}

//! Model of `ryu` for the symbolic build: the text is an injective spelling of
//! the bit pattern, shaped like the shortest form ryu prints: a decimal point is
//! always present, and an exponent appears exactly outside [1e-6, 1e13).
pub struct Buffer {
    b: [u8; 32],
}

pub trait Float: Copy {
    fn write(self, b: &mut [u8; 32]) -> usize;
    fn nonfinite(self) -> Option<&'static str>;
}

fn spell(neg: bool, zero: bool, exp: bool, bits: u64, digits: usize, b: &mut [u8; 32]) -> usize {
    let mut n = 0;
    if neg {
        b[n] = b'-';
        n += 1;
    }
    if zero {
        b[n] = b'0';
        b[n + 1] = b'.';
        b[n + 2] = b'0';
        return n + 3;
    }
    b[n] = b'1';
    b[n + 1] = b'.';
    n += 2;
    let mut k = digits;
    while k > 0 {
        k -= 1;
        b[n] = b'0' + ((bits >> (3 * k)) & 7) as u8;
        n += 1;
    }
    if exp {
        b[n] = b'e';
        b[n + 1] = b'9';
        n += 2;
    }
    n
}

impl Float for f32 {
    fn write(self, b: &mut [u8; 32]) -> usize {
        let bits = self.to_bits();
        let a = f32::from_bits(bits & 0x7fff_ffff);
        spell(bits >> 31 == 1, a == 0.0, !(a >= 1e-6 && a < 1e13), (bits & 0x7fff_ffff) as u64, 11, b)
    }
    fn nonfinite(self) -> Option<&'static str> {
        if self.is_nan() {
            Some("NaN")
        } else if self == f32::INFINITY {
            Some("inf")
        } else if self == f32::NEG_INFINITY {
            Some("-inf")
        } else {
            None
        }
    }
}
impl Float for f64 {
    fn write(self, b: &mut [u8; 32]) -> usize {
        let bits = self.to_bits();
        let a = f64::from_bits(bits & !(1 << 63));
        spell(bits >> 63 == 1, a == 0.0, !(a >= 1e-5 && a < 1e16), bits & !(1 << 63), 21, b)
    }
    fn nonfinite(self) -> Option<&'static str> {
        if self.is_nan() {
            Some("NaN")
        } else if self == f64::INFINITY {
            Some("inf")
        } else if self == f64::NEG_INFINITY {
            Some("-inf")
        } else {
            None
        }
    }
}

impl Buffer {
    pub fn new() -> Self {
        Buffer { b: [0; 32] }
    }
    pub fn format<F: Float>(&mut self, f: F) -> &str {
        match f.nonfinite() {
            Some(s) => s,
            None => self.format_finite(f),
        }
    }
    pub fn format_finite<F: Float>(&mut self, f: F) -> &str {
        let n = f.write(&mut self.b);
        unsafe { std::str::from_utf8_unchecked(&self.b[..n]) }
    }
}
impl Default for Buffer {
    fn default() -> Self {
        Self::new()
    }
}
impl Copy for Buffer {}
impl Clone for Buffer {
    fn clone(&self) -> Self {
        *self
    }
}

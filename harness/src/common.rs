//! Symbolic-input API, and an independent reader for the PDF object syntax of
//! ISO 32000-1 clause 7.2/7.3 used as the oracle.
#![allow(dead_code)]

// ------------------------------------------------------------------ inputs

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_panic_ok(b: bool);
        pub fn sym_concrete(v: u64) -> u64;
        pub fn sym_debug(p: *const u8, n: usize);
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::cell::RefCell;
    thread_local!(pub static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0)));
    thread_local!(pub static PANIC_OK: RefCell<bool> = RefCell::new(false));
    fn take() -> u64 {
        IN.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.1;
            c.1 += 1;
            match c.0.get(i) {
                Some(v) => *v,
                None => 0,
            }
        })
    }
    pub unsafe fn sym_u8() -> u8 {
        take() as u8
    }
    pub unsafe fn sym_u16() -> u16 {
        take() as u16
    }
    pub unsafe fn sym_u32() -> u32 {
        take() as u32
    }
    pub unsafe fn sym_u64() -> u64 {
        take()
    }
    pub unsafe fn sym_assume(b: bool) {
        if !b {
            println!("REPLAY assumption-failed");
            std::process::exit(4);
        }
    }
    pub unsafe fn sym_assert(b: bool, p: *const u8, n: usize) {
        if !b {
            let m = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap();
            println!("REPLAY violated: {m}");
            std::process::exit(1);
        }
    }
    pub unsafe fn sym_cover(_: *const u8, _: usize) {}
    pub unsafe fn sym_panic_ok(b: bool) {
        PANIC_OK.with(|c| *c.borrow_mut() = b);
    }
    pub unsafe fn sym_concrete(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_debug(p: *const u8, n: usize) {
        eprintln!("debug: {:?}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    }
}

#[cfg(not(feature = "sym"))]
pub fn set_inputs(v: Vec<u64>) {
    imp::IN.with(|c| *c.borrow_mut() = (v, 0));
}
#[cfg(not(feature = "sym"))]
pub fn panic_allowed() -> bool {
    imp::PANIC_OK.with(|c| *c.borrow())
}

pub fn any_u8() -> u8 {
    unsafe { imp::sym_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { imp::sym_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { imp::sym_u32() }
}
pub fn any_i32() -> i32 {
    unsafe { imp::sym_u32() as i32 }
}
pub fn any_u64() -> u64 {
    unsafe { imp::sym_u64() }
}
pub fn any_f32() -> f32 {
    f32::from_bits(any_u32())
}
/// An arbitrary finite `f32`.
pub fn any_finite() -> f32 {
    let b = any_u32();
    assume((b >> 23) & 0xff != 0xff);
    f32::from_bits(b)
}
pub fn any_bool() -> bool {
    let b = any_u8();
    assume(b < 2);
    b == 1
}
pub fn assume(b: bool) {
    unsafe { imp::sym_assume(b) }
}
pub fn check(b: bool, msg: &'static str) {
    unsafe { imp::sym_assert(b, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &'static str) {
    unsafe { imp::sym_cover(msg.as_ptr(), msg.len()) }
}
/// From here on a panic is acceptable exactly if `b`.
pub fn panic_ok(b: bool) {
    unsafe { imp::sym_panic_ok(b) }
}
/// One path per feasible value.
pub fn split(v: usize) -> usize {
    unsafe { imp::sym_concrete(v as u64) as usize }
}
/// An arbitrary number below `n`, one path per value.
pub fn choose(n: usize) -> usize {
    let v = any_u8();
    assume((v as usize) < n);
    split(v as usize)
}
pub fn debug(b: &[u8]) {
    unsafe { imp::sym_debug(b.as_ptr(), b.len()) }
}
pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any_u8());
    }
    v
}
/// `n` bytes, each drawn from `alphabet` (symbolically, not by forking).
pub fn any_from(alphabet: &[u8], n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = any_u8();
        let mut ok = false;
        for &a in alphabet {
            ok |= b == a;
        }
        assume(ok);
        v.push(b);
    }
    v
}
pub fn any_char() -> char {
    let c = any_u32();
    assume(c < 0xD800 || (c > 0xDFFF && c < 0x110000));
    match char::from_u32(c) {
        Some(c) => c,
        None => 'x',
    }
}

/// Byte equality without early exit: one solver query, no fork per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

// ------------------------------------------------------------------ reader

#[derive(Clone, Debug)]
pub enum Ob {
    Null,
    Bool(bool),
    Int(i64),
    /// number token with a decimal point (or too long for an integer)
    Real(Vec<u8>),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Arr(Vec<Ob>),
    Dict(Vec<(Vec<u8>, Ob)>),
    Ref(i64, i64),
    /// bare keyword (content stream operator)
    Op(Vec<u8>),
}

impl Ob {
    pub fn is_int(&self, v: i64) -> bool {
        match self {
            Ob::Int(x) => *x == v,
            _ => false,
        }
    }
    pub fn is_str(&self, s: &[u8]) -> bool {
        match self {
            Ob::Str(x) => same(x, s),
            _ => false,
        }
    }
    pub fn is_name(&self, s: &[u8]) -> bool {
        match self {
            Ob::Name(x) => same(x, s),
            _ => false,
        }
    }
    pub fn is_bool(&self, v: bool) -> bool {
        match self {
            Ob::Bool(x) => *x == v,
            _ => false,
        }
    }
    pub fn is_ref(&self, v: i64) -> bool {
        match self {
            Ob::Ref(x, g) => (*x == v) & (*g == 0),
            _ => false,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Ob::Null)
    }
    /// A number object denoting exactly `v`.
    pub fn is_num(&self, v: f32) -> bool {
        match self {
            Ob::Int(x) => {
                if *x >= i32::MIN as i64 && *x <= i32::MAX as i64 {
                    // exact: x to the nearest f32 is v, and v without its
                    // fraction is x (below 2^24 the first is exact, and from
                    // there on v has no fraction; i32::MAX is not an f32)
                    (*x as f32 == v) & (v as i32 as i64 == *x) & (v < 2147483648.0)
                } else {
                    // exact: at most 11 digits fit an f64
                    (*x as f64) == (v as f64)
                }
            }
            Ob::Real(t) => real_is(t, v),
            _ => false,
        }
    }
    pub fn arr(&self) -> Option<&Vec<Ob>> {
        match self {
            Ob::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn dict(&self) -> Option<&Vec<(Vec<u8>, Ob)>> {
        match self {
            Ob::Dict(v) => Some(v),
            _ => None,
        }
    }
    pub fn get(&self, k: &[u8]) -> Option<&Ob> {
        match self {
            Ob::Dict(v) => {
                for (n, o) in v {
                    if same(n, k) {
                        return Some(o);
                    }
                }
                None
            }
            _ => None,
        }
    }
}

/// Does the real token denote exactly this value?
///
/// In the symbolic build, `ryu` (and `Display for f32`) are replaced by models
/// that spell the bit pattern in octal digits; natively the token is read with
/// the standard library's correctly rounded parser.
#[cfg(feature = "sym")]
fn real_bits(tok: &[u8]) -> Option<(u64, bool, bool)> {
    let mut i = 0;
    let mut neg = false;
    if tok.len() > 0 && tok[0] == b'-' {
        neg = true;
        i = 1;
    }
    // marker: `1.` + 11 octal digits (shortest form), `2.` + 11 digits or
    // `9` + 11 digits (positional form)
    let body = &tok[i..];
    let n = body.len();
    let (digits, wide): (&[u8], bool) = if n == 13 && (body[0] == b'1' || body[0] == b'2') && body[1] == b'.' {
        (&body[2..], false)
    } else if n == 12 && body[0] == b'9' {
        (&body[1..], false)
    } else if n == 23 && body[0] == b'3' && body[1] == b'.' {
        (&body[2..], true)
    } else if n == 22 && body[0] == b'8' {
        (&body[1..], true)
    } else {
        return None;
    };
    let mut x = 0u64;
    let mut ok = true;
    for &d in digits {
        ok &= d >= b'0' && d <= b'7';
        x = (x << 3) | (d & 7) as u64;
    }
    if wide {
        Some((x | if neg { 1 << 63 } else { 0 }, true, ok))
    } else {
        Some(((x as u32 | if neg { 1 << 31 } else { 0 }) as u64, false, ok))
    }
}
#[cfg(feature = "sym")]
fn is_zero_tok(tok: &[u8]) -> bool {
    let t = if tok.len() == 4 && tok[0] == b'-' { &tok[1..] } else { tok };
    t.len() == 3 && t[0] == b'0' && t[1] == b'.' && t[2] == b'0'
}
#[cfg(feature = "sym")]
pub fn real_is(tok: &[u8], v: f32) -> bool {
    if is_zero_tok(tok) {
        return v == 0.0;
    }
    match real_bits(tok) {
        Some((b, true, ok)) => ok & (f64::from_bits(b) == v as f64),
        Some((b, false, ok)) => ok & (b as u32 == v.to_bits()),
        None => false,
    }
}
/// The value of a number with a decimal point (for concrete numbers).
#[cfg(feature = "sym")]
pub fn real_value(tok: &[u8]) -> Option<f64> {
    if is_zero_tok(tok) {
        return Some(0.0);
    }
    match real_bits(tok) {
        Some((b, true, true)) => Some(f64::from_bits(b)),
        Some((b, false, true)) => Some(f32::from_bits(b as u32) as f64),
        _ => None,
    }
}
#[cfg(not(feature = "sym"))]
pub fn real_is(tok: &[u8], v: f32) -> bool {
    let s = std::str::from_utf8(tok).unwrap_or("x");
    match s.parse::<f32>() {
        Ok(x) => x.to_bits() == v.to_bits() || (x == 0.0 && v == 0.0),
        Err(_) => false,
    }
}
#[cfg(not(feature = "sym"))]
pub fn real_value(tok: &[u8]) -> Option<f64> {
    std::str::from_utf8(tok).ok()?.parse::<f64>().ok()
}

pub fn is_ws(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
pub fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
pub fn is_regular(b: u8) -> bool {
    !is_ws(b) && !is_delim(b)
}
/// Value of a hexadecimal digit and whether it is one (straight-line code, so
/// that the executor does not fork here).
pub fn hexval(b: u8) -> (u8, bool) {
    let d = b.wrapping_sub(b'0');
    let u = (b & 0xDF).wrapping_sub(b'A');
    let is_d = d < 10;
    let is_u = u < 6;
    let m = (is_d as u8).wrapping_neg();
    ((d & m) | (u.wrapping_add(10) & !m), is_d | is_u)
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn peek(&self) -> Option<u8> {
        if self.i < self.b.len() {
            Some(self.b[self.i])
        } else {
            None
        }
    }
    pub fn at_end(&self) -> bool {
        self.i >= self.b.len()
    }
    pub fn ws(&mut self) {
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if is_ws(c) {
                self.i += 1;
            } else if c == b'%' {
                while self.i < self.b.len() && self.b[self.i] != 10 && self.b[self.i] != 13 {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    /// Consume exactly these bytes.
    pub fn lit(&mut self, s: &[u8]) -> bool {
        if self.b.len() - self.i >= s.len() && same(&self.b[self.i..self.i + s.len()], s) {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    fn regular_run(&mut self) -> &'a [u8] {
        let st = self.i;
        while self.i < self.b.len() && is_regular(self.b[self.i]) {
            self.i += 1;
        }
        &self.b[st..self.i]
    }
    /// One object (or operator keyword) after optional white space.
    pub fn obj(&mut self) -> Option<Ob> {
        self.ws();
        let c = self.peek()?;
        match c {
            b'(' => self.literal().map(Ob::Str),
            b'<' => {
                if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'<' {
                    self.i += 2;
                    let mut v = Vec::new();
                    loop {
                        self.ws();
                        match self.peek()? {
                            b'>' => {
                                if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'>' {
                                    self.i += 2;
                                    return Some(Ob::Dict(v));
                                }
                                return None;
                            }
                            b'/' => {
                                let k = self.name()?;
                                let o = self.obj()?;
                                if let Ob::Op(_) = o {
                                    return None;
                                }
                                v.push((k, o));
                            }
                            _ => return None,
                        }
                    }
                }
                self.hex().map(Ob::Str)
            }
            b'/' => self.name().map(Ob::Name),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    if self.peek()? == b']' {
                        self.i += 1;
                        return Some(Ob::Arr(v));
                    }
                    let o = self.obj()?;
                    if let Ob::Op(_) = o {
                        return None;
                    }
                    v.push(o);
                }
            }
            b'0'..=b'9' | b'+' | b'-' | b'.' => self.number_or_ref(),
            _ if is_delim(c) => None,
            _ => {
                let w = self.regular_run();
                Some(if w == b"true" {
                    Ob::Bool(true)
                } else if w == b"false" {
                    Ob::Bool(false)
                } else if w == b"null" {
                    Ob::Null
                } else {
                    Ob::Op(w.to_vec())
                })
            }
        }
    }

    fn literal(&mut self) -> Option<Vec<u8>> {
        self.i += 1;
        let mut depth = 0;
        let mut out = Vec::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'(' => {
                    depth += 1;
                    out.push(c);
                }
                b')' => {
                    if depth == 0 {
                        return Some(out);
                    }
                    depth -= 1;
                    out.push(c);
                }
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            let mut k = 1;
                            while k < 3 {
                                match self.peek() {
                                    Some(d) if d >= b'0' && d <= b'7' => {
                                        v = v * 8 + (d - b'0') as u32;
                                        self.i += 1;
                                        k += 1;
                                    }
                                    _ => break,
                                }
                            }
                            out.push(v as u8);
                        }
                        13 => {
                            if self.peek() == Some(10) {
                                self.i += 1;
                            }
                        }
                        10 => {}
                        _ => out.push(e),
                    }
                }
                13 => {
                    // an end-of-line marker within a literal string is read as LF
                    if self.peek() == Some(10) {
                        self.i += 1;
                    }
                    out.push(10);
                }
                _ => out.push(c),
            }
        }
    }

    fn hex(&mut self) -> Option<Vec<u8>> {
        self.i += 1;
        let mut out = Vec::with_capacity(32);
        let mut hi = 0;
        let mut half = false;
        let mut good = true;
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == b'>' {
                if half {
                    out.push(hi << 4);
                }
                return if good { Some(out) } else { None };
            }
            if is_ws(c) {
                continue;
            }
            let (v, ok) = hexval(c);
            good &= ok;
            if half {
                out.push(hi << 4 | v);
            } else {
                hi = v;
            }
            half = !half;
        }
    }

    pub fn name(&mut self) -> Option<Vec<u8>> {
        if self.peek()? != b'/' {
            return None;
        }
        self.i += 1;
        let mut out = Vec::with_capacity(16);
        let mut good = true;
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if !is_regular(c) {
                break;
            }
            // 7.3.5: anything outside the printable range must be escaped
            good &= (c >= b'!') & (c <= b'~');
            self.i += 1;
            if c == b'#' {
                if self.i + 2 > self.b.len() {
                    return None;
                }
                let (a, ok1) = hexval(self.b[self.i]);
                let (b, ok2) = hexval(self.b[self.i + 1]);
                good &= ok1 & ok2;
                self.i += 2;
                out.push(a << 4 | b);
            } else {
                out.push(c);
            }
        }
        if good {
            Some(out)
        } else {
            None
        }
    }

    pub fn int_tok(w: &[u8]) -> Option<i64> {
        let mut i = 0;
        let mut neg = false;
        if w.len() > 0 && (w[0] == b'-' || w[0] == b'+') {
            neg = w[0] == b'-';
            i = 1;
        }
        if i == w.len() || w.len() - i > 11 {
            return None;
        }
        let mut v: i64 = 0;
        let mut ok = true;
        while i < w.len() {
            let d = w[i].wrapping_sub(b'0');
            ok &= d < 10;
            v = v.wrapping_mul(10).wrapping_add(d as i64);
            i += 1;
        }
        if !ok {
            return None;
        }
        Some(if neg { v.wrapping_neg() } else { v })
    }

    fn number_or_ref(&mut self) -> Option<Ob> {
        let w = self.regular_run();
        if let Some(n) = Self::int_tok(w) {
            // `n g R`
            let save = self.i;
            if w[0] != b'-' && w[0] != b'+' && self.peek() == Some(b' ') {
                let mut j = self.i + 1;
                let st = j;
                while j < self.b.len() && self.b[j] >= b'0' && self.b[j] <= b'9' {
                    j += 1;
                }
                if j > st && j + 1 < self.b.len() && self.b[j] == b' ' && self.b[j + 1] == b'R' {
                    let fin = j + 2;
                    if fin >= self.b.len() || !is_regular(self.b[fin]) {
                        if let Some(g) = Self::int_tok(&self.b[st..j]) {
                            self.i = fin;
                            return Some(Ob::Ref(n, g));
                        }
                    }
                }
            }
            self.i = save;
            return Some(Ob::Int(n));
        }
        // real: [+-]? digits? . digits?   (no exponent in PDF)
        let mut dots = 0;
        let mut digits = 0;
        for (k, &c) in w.iter().enumerate() {
            if c >= b'0' && c <= b'9' {
                digits += 1;
            } else if c == b'.' {
                dots += 1;
            } else if !(k == 0 && (c == b'-' || c == b'+')) {
                return None;
            }
        }
        if dots > 1 || digits == 0 {
            return None;
        }
        Some(Ob::Real(w.to_vec()))
    }
}

/// Parse a whole buffer as a single object with only white space around it.
pub fn parse_one(b: &[u8]) -> Option<Ob> {
    let mut r = Rd::new(b);
    let o = r.obj()?;
    r.ws();
    if r.at_end() {
        Some(o)
    } else {
        None
    }
}

/// `N 0 obj\n … \nendobj` with the object in between; returns (id, body).
pub fn indirect(r: &mut Rd) -> Option<(i64, Ob)> {
    r.ws();
    let id = Rd::int_tok(r.regular_run())?;
    if !r.lit(b" 0 obj") {
        return None;
    }
    if r.at_end() || is_regular(r.b[r.i]) {
        return None;
    }
    let o = r.obj()?;
    r.ws();
    if !r.lit(b"endobj") {
        return None;
    }
    if !r.at_end() && is_regular(r.b[r.i]) {
        return None;
    }
    Some((id, o))
}

/// The value written as an indirect object into an otherwise empty chunk.
pub fn one_indirect(b: &[u8], id: i64) -> Option<Ob> {
    let mut r = Rd::new(b);
    let (n, o) = indirect(&mut r)?;
    r.ws();
    if n == id && r.at_end() {
        Some(o)
    } else {
        None
    }
}

/// An indirect object, with the data if it is a stream.
pub struct Top {
    pub at: usize,
    pub id: i64,
    pub ob: Ob,
    pub data: Option<Vec<u8>>,
}

/// The next indirect object (7.3.8, 7.3.10).
pub fn top(r: &mut Rd) -> Option<Top> {
    r.ws();
    let at = r.i;
    let id = Rd::int_tok(r.regular_run())?;
    if !r.lit(b" 0 obj") {
        return None;
    }
    if r.at_end() || is_regular(r.b[r.i]) {
        return None;
    }
    let ob = r.obj()?;
    if let Ob::Op(_) = ob {
        return None;
    }
    r.ws();
    let mut data = None;
    if r.lit(b"stream") {
        if !r.lit(b"\r\n") && !r.lit(b"\n") {
            return None;
        }
        let mut len = None;
        for (k, v) in ob.dict()? {
            if same(k, b"Length") {
                if len.is_some() {
                    return None;
                }
                if let Ob::Int(x) = v {
                    len = Some(*x);
                }
            }
        }
        let n = split(len? as usize);
        if n > r.b.len() || r.i + n > r.b.len() {
            return None;
        }
        data = Some(r.b[r.i..r.i + n].to_vec());
        r.i += n;
        if !r.lit(b"\r\n") && !r.lit(b"\n") && !r.lit(b"\r") {
            return None;
        }
        if !r.lit(b"endstream") {
            return None;
        }
        if r.at_end() || is_regular(r.b[r.i]) {
            return None;
        }
        r.ws();
    }
    if !r.lit(b"endobj") {
        return None;
    }
    if !r.at_end() && is_regular(r.b[r.i]) {
        return None;
    }
    Some(Top { at, id, ob, data })
}

/// A whole chunk as a sequence of indirect objects.
pub fn tops(b: &[u8]) -> Option<Vec<Top>> {
    let mut r = Rd::new(b);
    let mut v = Vec::new();
    loop {
        r.ws();
        if r.at_end() {
            return Some(v);
        }
        v.push(top(&mut r)?);
    }
}

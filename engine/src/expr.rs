//! Hash-consed bit-vector expressions with a light simplifier and a concrete
//! evaluator. An `E` is an index into the thread-local arena.

use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Concat,
    // floating point over bit patterns (32 or 64 bit operands)
    FEq,
    FLt,
    FLe,
    FAdd,
    FSub,
    FMul,
    FDiv,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Un {
    ZExt,
    SExt,
    Extract(u16),
    SiToFp,
    UiToFp,
    FpToSiSat,
    FpToUiSat,
    FpExt,
    FpTrunc,
    /// to an integral value: 0 toward zero, 1 down, 2 up, 3 nearest even, 4 nearest away
    FpRound(u8),
    FIsNan,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Un(Un, E),
    Ite(E, E, E),
    Select(u32, E),
}

pub struct Arena {
    pub nodes: Vec<(Node, u16)>,
    vars: Vec<Rc<[u32]>>,
    cons: FxMap<(Node, u16), E>,
    pub tables: Vec<Rc<Vec<u8>>>,
    table_ids: HashMap<Rc<Vec<u8>>, u32>,
    pub var_w: Vec<u16>,
    bitset: FxMap<E, [u64; 4]>,
    empty: Rc<[u32]>,
}

thread_local!(static AR: UnsafeCell<Arena> = UnsafeCell::new(Arena {
    nodes: vec![], vars: vec![], cons: FxMap::default(), tables: vec![], table_ids: HashMap::new(),
    var_w: vec![], bitset: FxMap::default(), empty: Rc::from(Vec::<u32>::new()),
}));

#[inline]
pub fn ar() -> &'static mut Arena {
    // Single-threaded tool; the arena lives for the whole process.
    AR.with(|a| unsafe { &mut *a.get() })
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn intern(n: Node, w: u16) -> E {
    let a = ar();
    if let Some(&e) = a.cons.get(&(n, w)) {
        return e;
    }
    let id = a.nodes.len() as u32;
    let vs = match n {
        Node::Const(_) => a.empty.clone(),
        Node::Var(v) => Rc::from(vec![v]),
        Node::Un(_, x) | Node::Select(_, x) => a.vars[x as usize].clone(),
        Node::Bin(_, x, y) => union(&a.vars[x as usize], &a.vars[y as usize]),
        Node::Ite(x, y, z) => {
            let t = union(&a.vars[x as usize], &a.vars[y as usize]);
            union(&t, &a.vars[z as usize])
        }
    };
    a.nodes.push((n, w));
    a.vars.push(vs);
    a.cons.insert((n, w), id);
    id
}

fn union(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.len() == 0 || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.len() == 0 {
        return a.clone();
    }
    let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
    v.sort_unstable();
    v.dedup();
    if v.len() == a.len() {
        return a.clone();
    }
    if v.len() == b.len() {
        return b.clone();
    }
    Rc::from(v)
}

#[inline]
pub fn node(e: E) -> Node {
    ar().nodes[e as usize].0
}
#[inline]
pub fn width(e: E) -> u16 {
    ar().nodes[e as usize].1
}
pub fn vars(e: E) -> &'static Rc<[u32]> {
    &ar().vars[e as usize]
}
pub fn as_const(e: E) -> Option<u128> {
    match node(e) {
        Node::Const(c) => Some(c),
        _ => None,
    }
}
pub fn table(bytes: Rc<Vec<u8>>) -> u32 {
    let a = ar();
    if let Some(&i) = a.table_ids.get(&bytes) {
        return i;
    }
    let i = a.tables.len() as u32;
    a.tables.push(bytes.clone());
    a.table_ids.insert(bytes, i);
    i
}

pub fn cst(v: u128, w: u16) -> E {
    intern(Node::Const(v & mask(w)), w)
}
pub fn tru() -> E {
    cst(1, 1)
}
pub fn fls() -> E {
    cst(0, 1)
}
pub fn boolc(b: bool) -> E {
    cst(b as u128, 1)
}
/// The `i`-th symbolic input of a path, `w` bits wide.
pub fn var(i: u32, w: u16) -> E {
    // identity is (order, width): encode the width in the id
    let id = i * 8 + match w { 8 => 0, 16 => 1, 32 => 2, 64 => 3, 1 => 4, _ => panic!("var width {w}") };
    let a = ar();
    while a.var_w.len() <= id as usize {
        let k = a.var_w.len() % 8;
        a.var_w.push([8, 16, 32, 64, 1, 0, 0, 0][k]);
    }
    intern(Node::Var(id), w)
}
pub fn var_width(id: u32) -> u16 {
    ar().var_w[id as usize]
}

fn f_bin(op: Op, a: u128, b: u128, w: u16) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op {
            Op::FEq => (x == y) as u128,
            Op::FLt => (x < y) as u128,
            Op::FLe => (x <= y) as u128,
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            _ => unreachable!(),
        }
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op {
            Op::FEq => (x == y) as u128,
            Op::FLt => (x < y) as u128,
            Op::FLe => (x <= y) as u128,
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            _ => unreachable!(),
        }
    }
}

/// Concrete semantics of a binary operator (`w`: operand width; for `Concat`
/// `wb` is the width of the low part).
pub fn c_bin(op: Op, a: u128, b: u128, w: u16, wb: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            (if b >= w as u128 { if s < 0 { -1 } else { 0 } } else { s >> b }) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Concat => (a << wb) | b,
        _ => f_bin(op, a, b, w),
    }
}

pub fn c_un(u: Un, a: u128, wa: u16, w: u16) -> u128 {
    match u {
        Un::ZExt => a,
        Un::SExt => sext(a, wa) as u128 & mask(w),
        Un::Extract(lo) => (a >> lo) & mask(w),
        Un::SiToFp => {
            let s = sext(a, wa);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        Un::UiToFp => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Un::FpToSiSat => {
            let f = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            let hi = mask(w - 1) as i128;
            let lo = -hi - 1;
            let v = if f.is_nan() { 0 } else { (f as i128).clamp(lo, hi) };
            v as u128 & mask(w)
        }
        Un::FpToUiSat => {
            let f = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            let v = if f.is_nan() { 0 } else { (f as u128).min(mask(w)) };
            v & mask(w)
        }
        Un::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Un::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Un::FpRound(m) if wa == 32 => {
            let f = f32::from_bits(a as u32);
            let r = match m {
                0 => f.trunc(),
                1 => f.floor(),
                2 => f.ceil(),
                3 => f.round_ties_even(),
                _ => f.round(),
            };
            r.to_bits() as u128
        }
        Un::FpRound(m) => {
            let f = f64::from_bits(a as u64);
            let r = match m {
                0 => f.trunc(),
                1 => f.floor(),
                2 => f.ceil(),
                3 => f.round_ties_even(),
                _ => f.round(),
            };
            r.to_bits() as u128
        }
        Un::FIsNan => {
            if wa == 32 {
                f32::from_bits(a as u32).is_nan() as u128
            } else {
                f64::from_bits(a as u64).is_nan() as u128
            }
        }
    }
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe)
}

pub fn not(e: E) -> E {
    bin(Op::Xor, e, tru())
}
pub fn and1(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or1(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    bin(Op::Eq, a, b)
}
pub fn add(a: E, b: E) -> E {
    bin(Op::Add, a, b)
}

/// Largest value the expression can take as far as its shape shows.
pub fn umax(e: E) -> u128 {
    umax_d(e, 6)
}

fn umax_d(e: E, d: u32) -> u128 {
    let w = width(e);
    let m = mask(w);
    match node(e) {
        Node::Const(c) => c,
        _ if d == 0 => m,
        Node::Un(Un::ZExt, x) => umax_d(x, d - 1),
        Node::Bin(Op::And, a, b) => umax_d(a, d - 1).min(umax_d(b, d - 1)),
        Node::Bin(Op::URem, a, b) => match as_const(b) {
            Some(c) if c > 0 => (c - 1).min(umax_d(a, d - 1)),
            _ => m,
        },
        Node::Bin(Op::UDiv, a, b) => match as_const(b) {
            Some(c) if c > 0 => umax_d(a, d - 1) / c,
            _ => m,
        },
        Node::Bin(Op::Add, a, b) => {
            match umax_d(a, d - 1).checked_add(umax_d(b, d - 1)) {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        Node::Bin(Op::Mul, a, b) => {
            match umax_d(a, d - 1).checked_mul(umax_d(b, d - 1)) {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        Node::Bin(Op::Concat, a, b) => (umax_d(a, d - 1) << width(b)) | mask(width(b)),
        Node::Ite(_, a, b) => umax_d(a, d - 1).max(umax_d(b, d - 1)),
        _ => m,
    }
}

pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    let w = width(a);
    debug_assert!(op == Op::Concat || w == width(b), "{op:?} {w} {}", width(b));
    let rw = if is_cmp(op) {
        1
    } else if op == Op::Concat {
        w + width(b)
    } else {
        w
    };
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(c_bin(op, x, y, w, width(b)), rw);
    }
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let ca = as_const(a);
    let cb = as_const(b);
    let m = mask(w);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let (Some(c), Node::Bin(Op::Add, x, y)) = (cb, node(a)) {
                if let Some(d) = as_const(y) {
                    return bin(Op::Add, x, cst(c.wrapping_add(d), w));
                }
            }
        }
        Op::Sub => {
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                return bin(Op::Add, a, cst(0u128.wrapping_sub(c), w));
            }
            if let (Node::Bin(Op::Add, x, y), _) = (node(a), b) {
                // (x + y) - x  =>  y ;  pointer differences
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::Shl, a, cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::LShr, a, cst(c.trailing_zeros() as u128, w));
                }
                // narrow division of zero-extended values
                if let Node::Un(Un::ZExt, x) = node(a) {
                    let wx = width(x);
                    if c <= mask(wx) {
                        return zext(bin(Op::UDiv, x, cst(c, wx)), w);
                    }
                    return cst(0, w);
                }
            }
        }
        Op::URem => {
            if cb == Some(1) {
                return cst(0, w);
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::And, a, cst(c - 1, w));
                }
                if let Node::Un(Un::ZExt, x) = node(a) {
                    let wx = width(x);
                    if c <= mask(wx) {
                        return zext(bin(Op::URem, x, cst(c, wx)), w);
                    }
                    return a;
                }
            }
        }
        Op::Shl => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return cst(0, w);
                }
                let c = c as u16;
                return concat(extract(a, 0, w - c), cst(0, c));
            }
        }
        Op::LShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return cst(0, w);
                }
                let c = c as u16;
                return zext(extract(a, c, w - c), w);
            }
        }
        Op::AShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                let c = c.min(w as u128 - 1) as u16;
                return sextend(extract(a, c, w - c), w);
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                if (c + 1).is_power_of_two() {
                    let k = c.trailing_ones() as u16;
                    return zext(extract(a, 0, k), w);
                }
                if let Node::Bin(Op::And, x, y) = node(a) {
                    if let Some(d) = as_const(y) {
                        return bin(Op::And, x, cst(c & d, w));
                    }
                }
                if let Node::Un(Un::ZExt, x) = node(a) {
                    let wx = width(x);
                    return zext(bin(Op::And, x, cst(c, wx)), w);
                }
            }
            if w == 1 && (a == not_if(b) || b == not_if(a)) {
                return fls();
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c == m {
                    return b;
                }
                if let Node::Un(Un::ZExt, x) = node(a) {
                    let wx = width(x);
                    // high const bits, low expr bits
                    return concat(cst(c >> wx, w - wx), bin(Op::Or, x, cst(c, wx)));
                }
                if let Node::Bin(Op::Concat, x, y) = node(a) {
                    let wy = width(y);
                    return concat(
                        bin(Op::Or, x, cst(c >> wy, width(x))),
                        bin(Op::Or, y, cst(c, wy)),
                    );
                }
            }
            // disjoint combination of byte-wise pieces
            for (x, y) in [(a, b), (b, a)] {
                if let (Node::Bin(Op::Concat, h, l), Node::Un(Un::ZExt, z)) = (node(x), node(y)) {
                    if as_const(l) == Some(0) && width(z) <= width(l) {
                        return concat(h, zext(z, width(l)));
                    }
                }
                if let (Node::Un(Un::ZExt, p), Node::Un(Un::ZExt, q)) = (node(x), node(y)) {
                    if width(q) <= width(p) {
                        return zext(bin(Op::Or, p, zext(q, width(p))), w);
                    }
                }
            }
            if w == 1 && (a == not_if(b) || b == not_if(a)) {
                return tru();
            }
        }
        Op::Xor => {
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if let Node::Bin(Op::Xor, x, y) = node(a) {
                    if let Some(d) = as_const(y) {
                        return bin(Op::Xor, x, cst(c ^ d, w));
                    }
                }
                if w == 1 {
                    // !(a ^ b) stays; !(x ? c1 : c2)
                    if let Node::Ite(i, t, e) = node(a) {
                        if as_const(t).is_some() || as_const(e).is_some() {
                            return ite(i, not(t), not(e));
                        }
                    }
                }
            }
        }
        Op::Eq => {
            if a == b {
                return tru();
            }
            if let Some(c) = cb {
                if w == 1 {
                    return if c == 1 { a } else { not(a) };
                }
                match node(a) {
                    Node::Un(Un::ZExt, x) => {
                        let wx = width(x);
                        if c > mask(wx) {
                            return fls();
                        }
                        return eq(x, cst(c, wx));
                    }
                    Node::Un(Un::SExt, x) => {
                        let wx = width(x);
                        if sext(c & mask(wx), wx) as u128 & m != c {
                            return fls();
                        }
                        return eq(x, cst(c, wx));
                    }
                    Node::Bin(Op::Concat, x, y) => {
                        let wy = width(y);
                        return and1(eq(x, cst(c >> wy, width(x))), eq(y, cst(c, wy)));
                    }
                    Node::Bin(Op::Add, x, y) => {
                        if let Some(d) = as_const(y) {
                            return eq(x, cst(c.wrapping_sub(d), w));
                        }
                    }
                    Node::Bin(Op::Xor, x, y) => {
                        if let Some(d) = as_const(y) {
                            return eq(x, cst(c ^ d, w));
                        }
                        if c == 0 {
                            return eq(x, y);
                        }
                    }
                    Node::Bin(Op::Or, x, y) if c == 0 => {
                        return and1(eq(x, cst(0, w)), eq(y, cst(0, w)));
                    }
                    Node::Ite(i, t, e) => {
                        let (ct, ce) = (as_const(t), as_const(e));
                        if ct.is_some() || ce.is_some() {
                            return ite(i, eq(t, b), eq(e, b));
                        }
                    }
                    _ => {}
                }
                if c > umax(a) {
                    return fls();
                }
            } else {
                if let (Node::Un(Un::ZExt, x), Node::Un(Un::ZExt, y)) = (node(a), node(b)) {
                    let k = width(x).max(width(y));
                    if k < w {
                        return eq(zext(x, k), zext(y, k));
                    }
                }
                if let (Node::Bin(Op::Concat, x, y), Node::Bin(Op::Concat, p, q)) =
                    (node(a), node(b))
                {
                    if width(y) == width(q) {
                        return and1(eq(x, p), eq(y, q));
                    }
                }
            }
        }
        Op::Ult => {
            if a == b {
                return fls();
            }
            if let Some(c) = cb {
                if c == 0 {
                    return fls();
                }
                if c == 1 {
                    return eq(a, cst(0, w));
                }
                if umax(a) < c {
                    return tru();
                }
                match node(a) {
                    Node::Un(Un::ZExt, x) => {
                        let wx = width(x);
                        if c > mask(wx) {
                            return tru();
                        }
                        return bin(Op::Ult, x, cst(c, wx));
                    }
                    Node::Ite(i, t, e) => {
                        if as_const(t).is_some() || as_const(e).is_some() {
                            return ite(i, bin(Op::Ult, t, b), bin(Op::Ult, e, b));
                        }
                    }
                    _ => {}
                }
            }
            if let Some(c) = ca {
                if c == m {
                    return fls();
                }
                if umax(b) <= c {
                    return fls();
                }
                if c == 0 {
                    return not(eq(b, cst(0, w)));
                }
                match node(b) {
                    Node::Un(Un::ZExt, x) => {
                        let wx = width(x);
                        return bin(Op::Ult, cst(c, wx), x);
                    }
                    Node::Ite(i, t, e) => {
                        if as_const(t).is_some() || as_const(e).is_some() {
                            return ite(i, bin(Op::Ult, a, t), bin(Op::Ult, a, e));
                        }
                    }
                    _ => {}
                }
            }
            if let (Node::Un(Un::ZExt, x), Node::Un(Un::ZExt, y)) = (node(a), node(b)) {
                let k = width(x).max(width(y));
                if k < w {
                    return bin(Op::Ult, zext(x, k), zext(y, k));
                }
            }
        }
        Op::Slt => {
            if a == b {
                return fls();
            }
            // non-negative on both sides: unsigned comparison
            let half = 1u128 << (w - 1);
            if umax(a) < half && umax(b) < half {
                return bin(Op::Ult, a, b);
            }
            if umax(a) < half {
                if let Some(c) = cb {
                    if c >= half {
                        return fls();
                    }
                }
            }
            if umax(b) < half {
                if let Some(c) = ca {
                    if c >= half {
                        return tru();
                    }
                }
            }
            if cb == Some(0) {
                match node(a) {
                    Node::Bin(Op::Or, x, y) => {
                        return or1(bin(Op::Slt, x, b), bin(Op::Slt, y, b));
                    }
                    Node::Bin(Op::Concat, x, _) => {
                        return bin(Op::Slt, x, cst(0, width(x)));
                    }
                    _ => {}
                }
                if w == 1 {
                    return a;
                }
            }
            if ca == Some(m) {
                // -1 < b
                return not(bin(Op::Slt, b, cst(0, w)));
            }
        }
        Op::Concat => {
            if ca == Some(0) {
                return zext(b, rw);
            }
            if let Node::Bin(Op::Concat, x, y) = node(a) {
                return concat(x, concat(y, b));
            }
            if let (Node::Un(Un::Extract(l1), x), Node::Un(Un::Extract(l2), y)) = (node(a), node(b)) {
                if x == y && l1 == l2 + width(b) {
                    return extract(x, l2, rw);
                }
            }
            if let Node::Bin(Op::Concat, x, y) = node(b) {
                // try to merge the head
                if let (Node::Un(Un::Extract(l1), p), Node::Un(Un::Extract(l2), q)) = (node(a), node(x)) {
                    if p == q && l1 == l2 + width(x) {
                        return concat(extract(p, l2, w + width(x)), y);
                    }
                }
                if let (Some(c), Some(d)) = (ca, as_const(x)) {
                    return concat(cst((c << width(x)) | d, w + width(x)), y);
                }
            }
        }
        _ => {}
    }
    intern(Node::Bin(op, a, b), rw)
}

fn not_if(e: E) -> E {
    match node(e) {
        Node::Bin(Op::Xor, x, y) if as_const(y) == Some(1) => x,
        _ => u32::MAX,
    }
}

pub fn concat(a: E, b: E) -> E {
    bin(Op::Concat, a, b)
}

pub fn zext(e: E, w: u16) -> E {
    if width(e) == w {
        return e;
    }
    match node(e) {
        Node::Const(c) => cst(c, w),
        Node::Un(Un::ZExt, x) => zext(x, w),
        _ => intern(Node::Un(Un::ZExt, e), w),
    }
}

pub fn sextend(e: E, w: u16) -> E {
    let we = width(e);
    if we == w {
        return e;
    }
    match node(e) {
        Node::Const(c) => cst(sext(c, we) as u128, w),
        Node::Un(Un::ZExt, _) => zext(e, w),
        Node::Un(Un::SExt, x) => sextend(x, w),
        _ if we == 1 => ite(e, cst(mask(w), w), cst(0, w)),
        _ => intern(Node::Un(Un::SExt, e), w),
    }
}

pub fn extract(e: E, lo: u16, w: u16) -> E {
    let we = width(e);
    debug_assert!(lo + w <= we);
    if we == w {
        return e;
    }
    match node(e) {
        Node::Const(c) => return cst(c >> lo, w),
        Node::Un(Un::Extract(l), x) => return extract(x, l + lo, w),
        Node::Un(Un::ZExt, x) => {
            let wx = width(x);
            if lo >= wx {
                return cst(0, w);
            }
            if lo + w <= wx {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, wx - lo), w);
        }
        Node::Un(Un::SExt, x) => {
            let wx = width(x);
            if lo + w <= wx {
                return extract(x, lo, w);
            }
            if lo < wx {
                return sextend(extract(x, lo, wx - lo), w);
            }
        }
        Node::Bin(Op::Concat, x, y) => {
            let wy = width(y);
            if lo >= wy {
                return extract(x, lo - wy, w);
            }
            if lo + w <= wy {
                return extract(y, lo, w);
            }
            return concat(extract(x, 0, lo + w - wy), extract(y, lo, wy - lo));
        }
        Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
            return bin(op, extract(x, lo, w), extract(y, lo, w));
        }
        Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
            return bin(op, extract(x, 0, w), extract(y, 0, w));
        }
        Node::Ite(c, x, y) => {
            return ite(c, extract(x, lo, w), extract(y, lo, w));
        }
        _ => {}
    }
    if umax(e) >> lo == 0 {
        return cst(0, w);
    }
    intern(Node::Un(Un::Extract(lo), e), w)
}

/// `extract` without rewriting through arithmetic, so that the pieces of a
/// stored word join up again when it is loaded.
pub fn extract_raw(e: E, lo: u16, w: u16) -> E {
    let we = width(e);
    if we == w {
        return e;
    }
    match node(e) {
        Node::Bin(Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor, ..) | Node::Ite(..) if umax(e) >> lo != 0 => {
            intern(Node::Un(Un::Extract(lo), e), w)
        }
        _ => extract(e, lo, w),
    }
}

/// Replace equals by equals.
pub fn subst(e: E, map: &[(E, E)], memo: &mut FxMap<E, E>) -> E {
    for (a, b) in map {
        if *a == e {
            return *b;
        }
    }
    if vars(e).is_empty() {
        return e;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let w = width(e);
    let r = match node(e) {
        Node::Const(_) | Node::Var(_) => e,
        Node::Bin(op, a, b) => {
            let (x, y) = (subst(a, map, memo), subst(b, map, memo));
            if (x, y) == (a, b) { e } else { bin(op, x, y) }
        }
        Node::Un(u, a) => {
            let x = subst(a, map, memo);
            if x == a { e } else { un(u, x, w) }
        }
        Node::Ite(c, a, b) => {
            let (z, x, y) = (subst(c, map, memo), subst(a, map, memo), subst(b, map, memo));
            if (z, x, y) == (c, a, b) { e } else { ite(z, x, y) }
        }
        Node::Select(t, a) => {
            let x = subst(a, map, memo);
            if x == a { e } else { select(t, x) }
        }
    };
    memo.insert(e, r);
    r
}

/// `subst` with a large map.
pub fn subst_all(e: E, map: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
    if let Some(b) = map.get(&e) {
        return *b;
    }
    if vars(e).is_empty() {
        return e;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let w = width(e);
    let r = match node(e) {
        Node::Const(_) | Node::Var(_) => e,
        Node::Bin(op, a, b) => {
            let (x, y) = (subst_all(a, map, memo), subst_all(b, map, memo));
            if (x, y) == (a, b) { e } else { bin(op, x, y) }
        }
        Node::Un(u, a) => {
            let x = subst_all(a, map, memo);
            if x == a { e } else { un(u, x, w) }
        }
        Node::Ite(c, a, b) => {
            let (z, x, y) = (subst_all(c, map, memo), subst_all(a, map, memo), subst_all(b, map, memo));
            if (z, x, y) == (c, a, b) { e } else { ite(z, x, y) }
        }
        Node::Select(t, a) => {
            let x = subst_all(a, map, memo);
            if x == a { e } else { select(t, x) }
        }
    };
    memo.insert(e, r);
    r
}

/// The variables that floating-point operations in `e` depend on.
pub fn fp_vars(e: E, memo: &mut FxMap<E, bool>, out: &mut Vec<u32>) {
    if !has_fp(e, memo) || vars(e).iter().all(|v| out.contains(v)) {
        return;
    }
    match node(e) {
        Node::Const(_) | Node::Var(_) => {}
        Node::Bin(op, a, b) => {
            if matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
                out.extend(vars(e).iter());
            } else {
                fp_vars(a, memo, out);
                fp_vars(b, memo, out);
            }
        }
        Node::Un(u, a) => {
            if matches!(u, Un::ZExt | Un::SExt | Un::Extract(_)) {
                fp_vars(a, memo, out);
            } else {
                out.extend(vars(e).iter());
            }
        }
        Node::Ite(c, a, b) => {
            fp_vars(c, memo, out);
            fp_vars(a, memo, out);
            fp_vars(b, memo, out);
        }
        Node::Select(_, a) => fp_vars(a, memo, out),
    }
}

/// Does `e` contain floating-point operations?
pub fn has_fp(e: E, memo: &mut FxMap<E, bool>) -> bool {
    if vars(e).is_empty() {
        return false;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let r = match node(e) {
        Node::Const(_) | Node::Var(_) => false,
        Node::Bin(op, a, b) => {
            matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv)
                || has_fp(a, memo)
                || has_fp(b, memo)
        }
        Node::Un(u, a) => !matches!(u, Un::ZExt | Un::SExt | Un::Extract(_)) || has_fp(a, memo),
        Node::Ite(c, a, b) => has_fp(c, memo) || has_fp(a, memo) || has_fp(b, memo),
        Node::Select(_, a) => has_fp(a, memo),
    };
    memo.insert(e, r);
    r
}

/// Undo `extract_raw`.
pub fn cook(e: E) -> E {
    match node(e) {
        Node::Un(Un::Extract(lo), x) => extract(x, lo, width(e)),
        _ => e,
    }
}

pub fn un(u: Un, e: E, w: u16) -> E {
    match u {
        Un::ZExt => zext(e, w),
        Un::SExt => sextend(e, w),
        Un::Extract(lo) => extract(e, lo, w),
        _ => {
            // the value converted does not depend on the width it has
            if u == Un::SiToFp {
                if let Node::Un(Un::SExt, x) = node(e) {
                    return un(u, x, w);
                }
            }
            if let Some(c) = as_const(e) {
                return cst(c_un(u, c, width(e), w), w);
            }
            intern(Node::Un(u, e), w)
        }
    }
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    // canonical polarity
    if let Node::Bin(Op::Xor, x, y) = node(c) {
        if as_const(y) == Some(1) {
            return ite(x, b, a);
        }
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or1(c, b),
            (Some(0), None) => return and1(not(c), b),
            (None, Some(0)) => return and1(c, a),
            (None, Some(1)) => return or1(not(c), a),
            _ => {}
        }
    } else if as_const(a) == Some(1) && as_const(b) == Some(0) {
        return zext(c, w);
    } else if as_const(a) == Some(0) && as_const(b) == Some(1) {
        return zext(not(c), w);
    }
    if let Node::Ite(c2, x, y) = node(a) {
        if c2 == c {
            return ite(c, x, b);
        }
        if y == b {
            return ite(and1(c, c2), x, b);
        }
    }
    if let Node::Ite(c2, x, y) = node(b) {
        if c2 == c {
            return ite(c, a, y);
        }
        if x == a {
            return ite(or1(c, c2), a, y);
        }
    }
    intern(Node::Ite(c, a, b), w)
}

pub fn select(t: u32, idx: E) -> E {
    if let Some(i) = as_const(idx) {
        let tb = &ar().tables[t as usize];
        return cst(tb.get(i as usize).copied().unwrap_or(0) as u128, 8);
    }
    intern(Node::Select(t, idx), 8)
}

/// Evaluate under an assignment of variable ids to values.
pub fn eval(e: E, m: &dyn Fn(u32) -> u128) -> u128 {
    fn go(e: E, m: &dyn Fn(u32) -> u128, memo: &mut FxMap<E, u128>) -> u128 {
        match node(e) {
            Node::Const(c) => return c,
            Node::Var(v) => return m(v),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let r = step(e, |x| go(x, m, memo));
        memo.insert(e, r);
        r
    }
    let mut memo = FxMap::default();
    go(e, m, &mut memo)
}

#[inline]
fn step(e: E, mut go: impl FnMut(E) -> u128) -> u128 {
    let (n, w) = ar().nodes[e as usize];
    match n {
        Node::Const(_) | Node::Var(_) => unreachable!(),
        Node::Bin(op, a, b) => {
            let (x, y) = (go(a), go(b));
            c_bin(op, x, y, width(a), width(b))
        }
        Node::Un(u, a) => c_un(u, go(a), width(a), w),
        Node::Ite(c, a, b) => {
            if go(c) == 1 {
                go(a)
            } else {
                go(b)
            }
        }
        Node::Select(t, i) => {
            let i = go(i) as usize;
            ar().tables[t as usize].get(i).copied().unwrap_or(0) as u128
        }
    }
}

/// For a Boolean expression over exactly one 8-bit variable: the set of values
/// that make it true.
pub fn truth_set(e: E) -> [u64; 4] {
    if let Some(s) = ar().bitset.get(&e) {
        return *s;
    }
    let mut r = [0u64; 4];
    // Boolean structure re-uses cached sets.
    match node(e) {
        Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) if width(e) == 1 => {
            let f = |x: E| match as_const(x) {
                Some(1) => [u64::MAX; 4],
                Some(_) => [0; 4],
                None => truth_set(x),
            };
            let (p, q) = (f(a), f(b));
            for i in 0..4 {
                r[i] = match op {
                    Op::And => p[i] & q[i],
                    Op::Or => p[i] | q[i],
                    _ => p[i] ^ q[i],
                };
            }
        }
        _ => {
            for v in 0..256u32 {
                if eval(e, &|_| v as u128) == 1 {
                    r[(v >> 6) as usize] |= 1 << (v & 63);
                }
            }
        }
    }
    ar().bitset.insert(e, r);
    r
}

pub fn show(e: E) -> String {
    fn go(e: E, d: u32, out: &mut String) {
        use std::fmt::Write;
        if d > 12 {
            out.push('~');
            return;
        }
        match node(e) {
            Node::Const(c) => write!(out, "{c}:{}", width(e)).unwrap(),
            Node::Var(v) => write!(out, "v{}", v / 8).unwrap(),
            Node::Bin(op, a, b) => {
                write!(out, "({op:?} ").unwrap();
                go(a, d + 1, out);
                out.push(' ');
                go(b, d + 1, out);
                out.push(')');
            }
            Node::Un(u, a) => {
                write!(out, "({u:?}{} ", width(e)).unwrap();
                go(a, d + 1, out);
                out.push(')');
            }
            Node::Ite(a, b, c) => {
                out.push_str("(ite ");
                go(a, d + 1, out);
                out.push(' ');
                go(b, d + 1, out);
                out.push(' ');
                go(c, d + 1, out);
                out.push(')');
            }
            Node::Select(t, i) => {
                write!(out, "(tab{t} ").unwrap();
                go(i, d + 1, out);
                out.push(')');
            }
        }
    }
    let mut s = String::new();
    go(e, 0, &mut s);
    s
}

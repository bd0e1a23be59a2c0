//! PostScript calculator functions.
use crate::common::*;
use crate::values::real;
use pdf_writer::types::PostScriptOp;
use pdf_writer::*;
use PostScriptOp as P;

/// A program as a reader sees it.
#[derive(Clone)]
enum T {
    Real(f32),
    Int(i32),
    Op(&'static [u8]),
    Block(Vec<T>),
}

/// What was read.
enum R {
    Num(Ob),
    Op(Vec<u8>),
    Block(Vec<R>),
}

/// The items up to the closing brace (the opening one has been consumed).
fn block(r: &mut Rd) -> Option<Vec<R>> {
    let mut v = vec![];
    loop {
        r.ws();
        match r.peek()? {
            b'{' => {
                r.i += 1;
                v.push(R::Block(block(r)?));
            }
            b'}' => {
                r.i += 1;
                return Some(v);
            }
            _ => v.push(match r.obj()? {
                Ob::Op(k) => R::Op(k),
                Ob::Bool(true) => R::Op(b"true".to_vec()),
                Ob::Bool(false) => R::Op(b"false".to_vec()),
                o @ (Ob::Int(_) | Ob::Real(_)) => R::Num(o),
                _ => return None,
            }),
        }
    }
}

fn program(b: &[u8]) -> Option<Vec<R>> {
    let mut r = Rd::new(b);
    r.ws();
    if r.peek()? != b'{' {
        return None;
    }
    r.i += 1;
    let v = block(&mut r)?;
    r.ws();
    if r.at_end() {
        Some(v)
    } else {
        None
    }
}

/// A real: a token with a point, or beyond the range of integers.
fn is_real(o: &Ob, f: f32) -> bool {
    match o {
        Ob::Real(_) => o.is_num(f),
        Ob::Int(i) => ((*i > i32::MAX as i64) | (*i < i32::MIN as i64)) & o.is_num(f),
        _ => false,
    }
}

fn equal(a: &[R], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok &= match (x, y) {
            (R::Num(o), T::Real(f)) => is_real(o, *f),
            (R::Num(o), T::Int(i)) => o.is_int(*i as i64),
            (R::Op(k), T::Op(n)) => same(k, n),
            (R::Block(a), T::Block(b)) => equal(a, b),
            _ => false,
        };
    }
    ok
}

fn verify(ops: &[P], want: &[T]) {
    let b = P::encode(ops);
    match program(&b) {
        Some(p) => {
            cover("program");
            check(equal(&p, want), "the program reads back as exactly the operators that were given");
        }
        None => check(false, "the program is braced and well-formed"),
    }
}

const PLAIN: &[(P<'static>, &[u8])] = &[
    (P::Abs, b"abs"),
    (P::Add, b"add"),
    (P::Atan, b"atan"),
    (P::Ceiling, b"ceiling"),
    (P::Cos, b"cos"),
    (P::Cvi, b"cvi"),
    (P::Cvr, b"cvr"),
    (P::Div, b"div"),
    (P::Exp, b"exp"),
    (P::Floor, b"floor"),
    (P::Idiv, b"idiv"),
    (P::Ln, b"ln"),
    (P::Log, b"log"),
    (P::Mod, b"mod"),
    (P::Mul, b"mul"),
    (P::Neg, b"neg"),
    (P::Round, b"round"),
    (P::Sin, b"sin"),
    (P::Sqrt, b"sqrt"),
    (P::Sub, b"sub"),
    (P::Truncate, b"truncate"),
    (P::And, b"and"),
    (P::Bitshift, b"bitshift"),
    (P::Eq, b"eq"),
    (P::False, b"false"),
    (P::Ge, b"ge"),
    (P::Gt, b"gt"),
    (P::Le, b"le"),
    (P::Lt, b"lt"),
    (P::Ne, b"ne"),
    (P::Not, b"not"),
    (P::Or, b"or"),
    (P::True, b"true"),
    (P::Xor, b"xor"),
    (P::Copy, b"copy"),
    (P::Dup, b"dup"),
    (P::Exch, b"exch"),
    (P::Index, b"index"),
    (P::Pop, b"pop"),
    (P::Roll, b"roll"),
];

fn leaf(k: usize) -> (P<'static>, T) {
    match k {
        0 => {
            let f = real();
            (P::Real(f), T::Real(f))
        }
        1 => {
            let i = any_u8() as i8 as i32;
            (P::Integer(i), T::Int(i))
        }
        2 => (P::Real(3.0), T::Real(3.0)),
        3 => (P::Real(-0.0), T::Real(0.0)),
        k => {
            let (p, n) = PLAIN[k - 4];
            (p, T::Op(n))
        }
    }
}

const LEAVES: usize = 44;

fn single() {
    let (p, t) = leaf(choose(LEAVES));
    verify(&[p], &[t]);
}

fn pair() {
    let (p, t) = leaf(choose(LEAVES));
    let (q, u) = leaf([0, 1, 2, 4, 28, 40][choose(6)]);
    verify(&[p, q], &[t.clone(), u.clone()]);
    verify(&[q, p, q], &[u.clone(), t, u]);
}

/// Up to `n` leaves.
fn list(n: usize) -> (Vec<P<'static>>, Vec<T>) {
    let (mut p, mut t) = (vec![], vec![]);
    for _ in 0..choose(n + 1) {
        let (a, b) = match choose(3) {
            0 => (P::Real(-2.0), T::Real(-2.0)),
            1 => (P::Integer(-7), T::Int(-7)),
            _ => (P::Abs, T::Op(b"abs")),
        };
        p.push(a);
        t.push(b);
    }
    (p, t)
}

fn conditional() {
    let (p, t) = list(2);
    let (q, u) = list(2);
    let (x, y) = leaf([0, 1, 4][choose(3)]);
    let i = P::If(&p);
    let e = P::IfElse(&p, &q);
    match choose(6) {
        0 => verify(&[i], &[T::Block(t), T::Op(b"if")]),
        1 => verify(&[e], &[T::Block(t), T::Block(u), T::Op(b"ifelse")]),
        2 => verify(&[i, x], &[T::Block(t), T::Op(b"if"), y]),
        3 => verify(&[x, e], &[y, T::Block(t), T::Block(u), T::Op(b"ifelse")]),
        4 => verify(&[e, i], &[T::Block(t.clone()), T::Block(u), T::Op(b"ifelse"), T::Block(t), T::Op(b"if")]),
        _ => verify(&[], &[]),
    }
}

fn nested() {
    let (p, t) = list(1);
    let (q, u) = list(1);
    let b0 = T::Block(t.clone());
    let b1 = T::Block(u.clone());
    let inner = [P::IfElse(&p, &q)];
    let t1 = vec![b0.clone(), b1.clone(), T::Op(b"ifelse")];
    let two = [P::If(&p), P::If(&q)];
    let t2 = vec![b0.clone(), T::Op(b"if"), b1.clone(), T::Op(b"if")];
    let deep = [P::If(&inner)];
    let t3 = vec![T::Block(t1.clone()), T::Op(b"if")];
    let deeper = [P::If(&deep)];
    let t4 = vec![T::Block(t3.clone()), T::Op(b"if")];
    match choose(6) {
        0 => verify(&deep, &t3),
        1 => verify(&[P::IfElse(&inner, &two)], &[T::Block(t1), T::Block(t2), T::Op(b"ifelse")]),
        2 => verify(&[P::IfElse(&two, &p), P::Add], &[T::Block(t2), b0, T::Op(b"ifelse"), T::Op(b"add")]),
        3 => verify(&[P::If(&deeper), P::Exch], &[T::Block(t4), T::Op(b"if"), T::Op(b"exch")]),
        4 => verify(&[P::Dup, P::IfElse(&q, &deeper)], &[T::Op(b"dup"), b1, T::Block(t4), T::Op(b"ifelse")]),
        _ => verify(&[P::If(&two), P::If(&inner)], &[T::Block(t2), T::Op(b"if"), T::Block(t1), T::Op(b"if")]),
    }
}

fn number() {
    match choose(2) {
        0 => {
            let f = any_finite();
            verify(&[P::Real(f)], &[T::Real(f)]);
        }
        _ => {
            let i = any_i32();
            verify(&[P::Integer(i), P::Abs], &[T::Int(i), T::Op(b"abs")]);
        }
    }
}

/// In a function stream, and in the limits.
fn embedded() {
    let (p, t) = list(3);
    let b = P::encode(&p);
    let (n, m) = (any_bool(), choose(3));
    let mut c = Chunk::with_settings(Settings { pretty: n });
    {
        let mut f = c.post_script_function(Ref::new(2), &b);
        f.domain([0.0, 1.0]);
        f.range((0..2 * m).map(|i| i as f32));
    }
    match tops(c.as_bytes()) {
        Some(v) if v.len() == 1 && v[0].data.is_some() => {
            match program(v[0].data.as_ref().unwrap()) {
                Some(r) => {
                    cover("program");
                    check(equal(&r, &t), "the program arrives unchanged")
                }
                None => check(false, "the program is braced and well-formed"),
            }
            check(v[0].ob.get(b"FunctionType").map_or(false, |o| o.is_int(4)), "the function is of type 4");
        }
        _ => check(false, "one stream is written"),
    }
    let mut max = 0;
    for x in &t {
        if let T::Int(i) = x {
            max = max.max(i.abs());
        }
    }
    check(b.limits().int() >= max, "integers are within the limits");
}

/// Long programs, and long branches.
fn long() {
    let n = [100, 127, 128, 255, 256, 300][choose(6)];
    let i = any_i32();
    let mut ops: Vec<P> = vec![];
    let mut want = vec![];
    for k in 0..n {
        if k == n / 2 {
            ops.push(P::Integer(i));
            want.push(T::Int(i));
        } else {
            ops.push(P::Dup);
            want.push(T::Op(b"dup"));
        }
    }
    match choose(3) {
        0 => verify(&ops, &want),
        1 => verify(&[P::If(&ops), P::Pop], &[T::Block(want), T::Op(b"if"), T::Op(b"pop")]),
        _ => verify(&[P::IfElse(&ops[..n / 2 + 1], &ops)], &[T::Block(want[..n / 2 + 1].to_vec()), T::Block(want), T::Op(b"ifelse")]),
    }
}

crate::harnesses! {
    fn p17_long() { long() }
    fn p17_single() { single() }
    fn p17_pair() { pair() }
    fn p17_conditional() { conditional() }
    fn p17_nested() { nested() }
    fn p17_number() { number() }
    fn p17_embedded() { embedded() }
}

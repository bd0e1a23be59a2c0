//! The symbolic interpreter.

use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}
use Val::{A, C, S};

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: BTreeMap<u32, E>,
    pub live: bool,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    regs: Vec<Val>,
    block: u32,
    ip: usize,
    allocas: Vec<u64>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Rc<BTreeMap<u64, Rc<Obj>>>,
    next_addr: u64,
    pc: Vec<E>,
    /// single-byte domains; `None`: unconstrained
    fd: Vec<[u64; 4]>,
    /// variables that occur in a constraint with another variable
    multi: Vec<bool>,
    model: Rc<HashMap<u32, u128>>,
    inputs: Vec<(u16, u32)>,
    /// equations `digits = value` assumed by models
    eqs: Vec<(E, E)>,
    panic_ok: Option<E>,
    steps: u64,
    depth: u32,
    hash: u64,
    shard: Option<u64>,
    log: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u16, u64)>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub panics_allowed: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_solver: u64,
    pub assumes: u64,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub funcs: BTreeSet<Rc<str>>,
    pub samples: Vec<String>,
    pub max_pc: usize,
    pub sharded_out: u64,
    pub timed_out: bool,
}

pub struct Cfg {
    pub shard: Option<(u64, u64)>,
    pub shard_depth: u32,
    pub max_time: f64,
    pub max_violations: usize,
    pub max_steps: u64,
    pub use_fd: bool,
    pub redirect: Vec<(String, String)>,
    pub stop_panic: Vec<String>,
    pub trace: bool,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub solver: Solver,
    pub cfg: Cfg,
    pub rep: Report,
    work: Vec<State>,
    gcache: Vec<Option<Rc<Obj>>>,
    redirects: HashMap<Rc<str>, Option<Rc<str>>>,
    kinds: HashMap<Rc<str>, Kind>,
    t0: Instant,
    seen_viol: HashSet<String>,
}

#[derive(Clone, PartialEq)]
enum Kind {
    Normal,
    Panic,
    Builtin,
}

/// Why the current path stops.
enum Stop {
    Done,
    /// re-run the same instruction later (the state was pushed back)
    Requeued,
    Error(String),
}
type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

const STACK_GAP: u64 = 32;

impl State {
    fn frame(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
    fn ev(&self, e: E) -> u128 {
        let m = &self.model;
        eval(e, &|v| m.get(&v).copied().unwrap_or(0))
    }
    fn is_aux(&self, v: u32) -> bool {
        self.inputs.iter().any(|x| x.1 == v && x.0 & AUX != 0)
    }
    fn domain(&self, v: u32) -> [u64; 4] {
        self.fd.get(v as usize).copied().unwrap_or([u64::MAX; 4])
    }
    fn is_multi(&self, v: u32) -> bool {
        self.multi.get(v as usize).copied().unwrap_or(false)
    }
    fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let a = self.next_addr;
        self.next_addr += (size + STACK_GAP + 15) / 16 * 16;
        Rc::make_mut(&mut self.mem).insert(
            a,
            Rc::new(Obj { bytes: vec![0; size as usize], sym: BTreeMap::new(), live: true, heap }),
        );
        a
    }
}

/// Marks an input that the replayer does not consume.
const AUX: u16 = 0x8000;

fn to_e(v: &Val, w: u16) -> E {
    match v {
        C(c) => cst(*c, w),
        S(e) => *e,
        A(_) => panic!("aggregate where scalar expected"),
    }
}
fn from_e(e: E) -> Val {
    match as_const(e) {
        Some(c) => C(c),
        None => S(e),
    }
}

fn from_cv(c: &Cv) -> Val {
    match c {
        Cv::I(v) => C(*v),
        Cv::A(v) => A(Rc::new(v.iter().map(from_cv).collect())),
    }
}

fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Array(n, e) => A(Rc::new(vec![zero_val(e); *n as usize])),
        Ty::Vector(n, e) => A(Rc::new(vec![zero_val(e); *n as usize])),
        Ty::Struct(ts, _) => A(Rc::new(ts.iter().map(zero_val).collect())),
        _ => C(0),
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, solver: Solver, cfg: Cfg) -> Self {
        let n = m.globals.len();
        Exec {
            m,
            solver,
            cfg,
            rep: Report::default(),
            work: vec![],
            gcache: vec![None; n],
            redirects: HashMap::new(),
            kinds: HashMap::new(),
            t0: Instant::now(),
            seen_viol: HashSet::new(),
        }
    }

    pub fn run(&mut self, entry: &str) {
        let f = match self.m.func(entry) {
            Some(f) => f,
            None => {
                self.rep.errors.push(format!("no such harness: {entry}"));
                return;
            }
        };
        let st = State {
            frames: vec![Frame {
                regs: vec![C(0); f.nregs as usize],
                func: f,
                block: 0,
                ip: 0,
                allocas: vec![],
                dst: None,
                normal: None,
            }],
            mem: Rc::new(BTreeMap::new()),
            next_addr: 0x10_0000_0000,
            pc: vec![],
            fd: vec![],
            multi: vec![],
            model: Rc::new(HashMap::new()),
            inputs: vec![],
            eqs: vec![],
            panic_ok: None,
            steps: 0,
            depth: 0,
            hash: 0x9E3779B97F4A7C15,
            shard: None,
            log: vec![],
        };
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.rep.errors.len() >= 5 || self.rep.violations.len() >= self.cfg.max_violations {
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.rep.timed_out = true;
                break;
            }
            self.run_state(st);
        }
    }

    fn run_state(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(true) => {
                    if st.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                        self.rep.timed_out = true;
                        return;
                    }
                    if st.steps > self.cfg.max_steps {
                        let s = self.stack(&st);
                        self.rep.errors.push(format!("step limit exceeded at {s:?}"));
                        return;
                    }
                }
                Ok(false) | Err(Stop::Done) => {
                    self.end_path(&st);
                    return;
                }
                Err(Stop::Requeued) => {
                    return;
                }
                Err(Stop::Error(e)) => {
                    let s = self.stack(&st);
                    let s: Vec<_> = s.into_iter().take(6).collect();
                    let inp = self.inputs_of(&st, None);
                    self.rep.errors.push(format!("{e} at {s:?} inputs {inp:?}"));
                    return;
                }
            }
        }
    }

    fn mine(&self, st: &State) -> bool {
        match (self.cfg.shard, st.shard) {
            (Some((k, _)), None) => k == 0,
            (Some((k, n)), Some(h)) => h % n == k,
            _ => true,
        }
    }

    fn end_path(&mut self, st: &State) {
        if !self.mine(st) {
            return;
        }
        self.rep.paths += 1;
        self.rep.max_pc = self.rep.max_pc.max(st.pc.len());
        if self.rep.samples.len() < 6 && (self.rep.paths & (self.rep.paths - 1)) == 0 {
            let inp = self.inputs_of(st, None);
            self.rep.samples.push(
                inp.iter().map(|(w, v)| format!("u{w}:{v:#x}")).collect::<Vec<_>>().join(" "),
            );
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.func.name.to_string()).collect()
    }

    fn inputs_of(&self, st: &State, model: Option<&HashMap<u32, u128>>) -> Vec<(u16, u64)> {
        st.inputs
            .iter()
            .filter(|x| x.0 & AUX == 0)
            .copied()
            .collect::<Vec<_>>()
            .iter()
            .map(|(w, id)| {
                let v = model.and_then(|m| m.get(id)).or_else(|| st.model.get(id)).copied().unwrap_or(0);
                (*w, v as u64)
            })
            .collect()
    }

    // ---------------------------------------------------------------- solver

    /// Is `pc ∧ cond` satisfiable? Returns a full model if so.
    fn sat(&mut self, st: &State, cond: E) -> R<Option<Rc<HashMap<u32, u128>>>> {
        if let Some(c) = as_const(cond) {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        if st.ev(cond) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let vs = vars(cond);
        if self.cfg.use_fd && vs.len() == 1 && var_width(vs[0]) == 8 {
            let v = vs[0];
            let d = st.domain(v);
            let t = truth_set(cond);
            let x = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if x == [0; 4] {
                self.solver.stats.fd += 1;
                return Ok(None);
            }
            if !st.is_multi(v) {
                self.solver.stats.fd += 1;
                let i = (0..4).find(|&i| x[i] != 0).unwrap();
                let val = (i as u32 * 64 + x[i].trailing_zeros()) as u128;
                let mut m = (*st.model).clone();
                m.insert(v, val);
                return Ok(Some(Rc::new(m)));
            }
        }
        // Definitions of model-introduced variables are total: try without
        // them (dropping constraints keeps `unsat` sound), then complete.
        let mut full = cond;
        if !st.eqs.is_empty() && !vs.iter().any(|v| st.is_aux(*v)) {
            let pc: Vec<E> = st.pc.iter().copied().filter(|c| !vars(*c).iter().any(|v| st.is_aux(*v))).collect();
            if pc.len() < st.pc.len() {
                match self.solver.check(&pc, cond, &st.model) {
                    Res::Unsat => return Ok(None),
                    Res::Sat(m) => {
                        for (k, v) in &m {
                            full = bin(Op::And, full, bin(Op::Eq, var(*k / 8, var_width(*k)), cst(*v, var_width(*k))));
                        }
                        if let Res::Sat(m) = self.solver.check(&st.pc, full, &st.model) {
                            let mut mm = (*st.model).clone();
                            for (k, v) in m {
                                mm.insert(k, v);
                            }
                            return Ok(Some(Rc::new(mm)));
                        }
                    }
                    _ => {}
                }
            }
        }
        match self.solver.check(&st.pc, cond, &st.model) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut mm = (*st.model).clone();
                for (k, v) in m {
                    mm.insert(k, v);
                }
                Ok(Some(Rc::new(mm)))
            }
            Res::Unknown(e) => err(format!("solver inconclusive ({e}) on {}", show(cond))),
        }
    }

    /// Add a constraint known to be satisfiable with `model`.
    fn constrain(&mut self, st: &mut State, cond: E, model: Rc<HashMap<u32, u128>>) {
        st.model = model;
        self.add_pc(st, cond);
    }

    fn add_pc(&mut self, st: &mut State, cond: E) {
        if as_const(cond).is_some() {
            return;
        }
        // conjunctions are stored as separate constraints
        if let Node::Bin(Op::And, a, b) = node(cond) {
            self.add_pc(st, a);
            self.add_pc(st, b);
            return;
        }
        if let Node::Bin(Op::Xor, x, y) = node(cond) {
            if as_const(y) == Some(1) {
                if let Node::Bin(Op::Or, a, b) = node(x) {
                    self.add_pc(st, not(a));
                    self.add_pc(st, not(b));
                    return;
                }
            }
        }
        let vs = vars(cond).clone();
        if vs.len() == 1 && var_width(vs[0]) == 8 {
            let v = vs[0] as usize;
            if st.fd.len() <= v {
                st.fd.resize(v + 1, [u64::MAX; 4]);
            }
            let t = truth_set(cond);
            for i in 0..4 {
                st.fd[v][i] &= t[i];
            }
        } else {
            for &v in vs.iter() {
                if st.multi.len() <= v as usize {
                    st.multi.resize(v as usize + 1, false);
                }
                st.multi[v as usize] = true;
            }
        }
        if !st.pc.contains(&cond) {
            st.pc.push(cond);
        }
    }

    /// Decide a branch. Returns the direction the current state takes; the
    /// other direction is queued as a state that re-executes the instruction.
    /// Use the equations of the models.
    fn rewrite(&self, st: &State, e: E) -> E {
        if st.eqs.is_empty() || !vars(e).iter().any(|v| st.is_aux(*v)) {
            return e;
        }
        subst(e, &st.eqs, &mut Default::default())
    }

    fn branch(&mut self, st: &mut State, cond: E) -> R<bool> {
        let cond = self.rewrite(st, cond);
        if let Some(c) = as_const(cond) {
            return Ok(c == 1);
        }
        let cur = st.ev(cond) == 1;
        let (mine, other) = if cur { (cond, not(cond)) } else { (not(cond), cond) };
        match self.sat(st, other)? {
            None => {
                // implied: no constraint needed
                Ok(cur)
            }
            Some(m) => {
                self.rep.forks += 1;
                let mut o = st.clone();
                self.constrain(&mut o, other, m);
                o.depth += 1;
                o.hash = (o.hash.rotate_left(7) ^ 0xabcd).wrapping_mul(0x2545F4914F6CDD1D);
                let keep_other = self.shard_ok(&mut o);
                let m = st.model.clone();
                self.constrain(st, mine, m);
                st.depth += 1;
                st.hash = (st.hash.rotate_left(7) ^ 0x1234).wrapping_mul(0x2545F4914F6CDD1D);
                let keep_mine = self.shard_ok(st);
                if keep_other {
                    self.work.push(o);
                }
                if !keep_mine {
                    self.rep.sharded_out += 1;
                    return Err(Stop::Requeued);
                }
                Ok(cur)
            }
        }
    }

    fn shard_ok(&self, st: &mut State) -> bool {
        let Some((k, n)) = self.cfg.shard else { return true };
        if st.shard.is_none() && st.depth >= self.cfg.shard_depth {
            st.shard = Some((st.hash ^ (st.hash >> 29)) >> 7);
        }
        match st.shard {
            Some(h) => h % n == k,
            None => true,
        }
    }

    /// Force an expression to one concrete value on this path; all other
    /// feasible values are queued.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> R<u128> {
        match v {
            C(c) => Ok(*c),
            S(e) => {
                let _ = w;
                let val = st.ev(*e);
                let c = eq(*e, cst(val, width(*e)));
                let r = self.branch(st, c)?;
                debug_assert!(r);
                Ok(val)
            }
            A(_) => err("concretize aggregate"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn find(&mut self, st: &State, addr: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((&b, o)) = st.mem.range(..=addr).next_back() {
            if addr - b <= o.bytes.len() as u64 {
                return Some((b, o.clone()));
            }
        }
        let gs = &self.m.globals;
        if gs.is_empty() || addr < gs[0].addr {
            return None;
        }
        let i = gs.partition_point(|g| g.addr <= addr) - 1;
        let g = &gs[i];
        if addr - g.addr > g.size {
            return None;
        }
        if self.gcache[i].is_none() {
            let b = self.m.global_bytes(i);
            self.gcache[i] = Some(Rc::new(Obj { bytes: b, sym: BTreeMap::new(), live: true, heap: false }));
        }
        Some((g.addr, self.gcache[i].clone().unwrap()))
    }

    fn check_range(&mut self, st: &State, addr: u64, n: u64) -> R<(u64, Rc<Obj>)> {
        match self.find(st, addr) {
            Some((b, o)) => {
                if !o.live {
                    return err(format!("use after free at {addr:#x}"));
                }
                if addr - b + n > o.bytes.len() as u64 {
                    return err(format!("out of bounds access at {addr:#x} size {n} (object {b:#x}+{})", o.bytes.len()));
                }
                Ok((b, o))
            }
            None => err(format!("invalid pointer {addr:#x}")),
        }
    }

    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.check_range(st, addr, n)?;
        let off = (addr - b) as usize;
        Ok((off..off + n as usize)
            .map(|i| match o.sym.get(&(i as u32)) {
                Some(e) => S(*e),
                None => C(o.bytes[i] as u128),
            })
            .collect())
    }

    fn write_obj(&mut self, st: &mut State, addr: u64, n: u64) -> R<(usize, u64)> {
        let (b, o) = self.check_range(st, addr, n)?;
        if !st.mem.contains_key(&b) {
            // first write to a global: copy it into the state
            let gi = self.m.globals.partition_point(|g| g.addr <= b) - 1;
            if self.m.globals[gi].constant {
                return err(format!("write to constant global {}", self.m.globals[gi].name));
            }
            Rc::make_mut(&mut st.mem).insert(b, o);
        }
        Ok(((addr - b) as usize, b))
    }

    fn write_bytes(&mut self, st: &mut State, addr: u64, vs: &[Val]) -> R<()> {
        if vs.is_empty() {
            return Ok(());
        }
        let (off, b) = self.write_obj(st, addr, vs.len() as u64)?;
        let mem = Rc::make_mut(&mut st.mem);
        let o = Rc::make_mut(mem.get_mut(&b).unwrap());
        for (i, v) in vs.iter().enumerate() {
            let k = off + i;
            match v {
                C(c) => {
                    o.bytes[k] = *c as u8;
                    if !o.sym.is_empty() {
                        o.sym.remove(&(k as u32));
                    }
                }
                S(e) => {
                    o.sym.insert(k as u32, *e);
                }
                A(_) => return err("aggregate byte"),
            }
        }
        Ok(())
    }

    fn load_scalar(&mut self, st: &State, addr: u64, bits: u16) -> R<Val> {
        let n = (bits as u64 + 7) / 8;
        let (b, o) = self.check_range(st, addr, n)?;
        let off = (addr - b) as usize;
        if o.sym.is_empty() || o.sym.range(off as u32..(off as u32 + n as u32)).next().is_none() {
            let mut x = [0u8; 16];
            x[..n as usize].copy_from_slice(&o.bytes[off..off + n as usize]);
            return Ok(C(u128::from_le_bytes(x) & mask(bits)));
        }
        let mut e: Option<E> = None;
        for i in (off..off + n as usize).rev() {
            let x = match o.sym.get(&(i as u32)) {
                Some(x) => *x,
                None => cst(o.bytes[i] as u128, 8),
            };
            e = Some(match e {
                None => x,
                Some(h) => concat(h, x),
            });
        }
        let mut e = cook(e.unwrap());
        if width(e) > bits {
            e = extract(e, 0, bits);
        }
        Ok(from_e(e))
    }

    fn store_scalar(&mut self, st: &mut State, addr: u64, v: &Val, bits: u16) -> R<()> {
        let n = (bits as u64 + 7) / 8;
        match v {
            C(c) => {
                let (off, b) = self.write_obj(st, addr, n)?;
                let mem = Rc::make_mut(&mut st.mem);
                let o = Rc::make_mut(mem.get_mut(&b).unwrap());
                o.bytes[off..off + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                if !o.sym.is_empty() {
                    for k in off..off + n as usize {
                        o.sym.remove(&(k as u32));
                    }
                }
                Ok(())
            }
            S(e) => {
                let e = zext(*e, (n * 8) as u16);
                let vs: Vec<Val> = (0..n).map(|i| from_e(extract_raw(e, (i * 8) as u16, 8))).collect();
                self.write_bytes(st, addr, &vs)
            }
            A(_) => err("store aggregate as scalar"),
        }
    }

    fn load(&mut self, st: &State, t: &Ty, addr: u64) -> R<Val> {
        match t {
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for (i, f) in ts.iter().enumerate() {
                    v.push(self.load(st, f, addr + t.field_offset(i))?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Array(n, e) => {
                let s = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, e, addr + i * s)?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let b = e.bits();
                if b % 8 == 0 {
                    let s = b as u64 / 8;
                    let mut v = vec![];
                    for i in 0..*n as u64 {
                        v.push(self.load_scalar(st, addr + i * s, b)?);
                    }
                    Ok(A(Rc::new(v)))
                } else {
                    let tot = b * *n as u16;
                    let x = to_e(&self.load_scalar(st, addr, tot)?, tot);
                    Ok(A(Rc::new((0..*n as u16).map(|i| from_e(extract(x, i * b, b))).collect())))
                }
            }
            _ => self.load_scalar(st, addr, t.bits()),
        }
    }

    fn store(&mut self, st: &mut State, t: &Ty, addr: u64, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Struct(ts, _), A(vs)) => {
                for (i, f) in ts.iter().enumerate() {
                    self.store(st, f, addr + t.field_offset(i), &vs[i])?;
                }
                Ok(())
            }
            (Ty::Array(_, e), A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, e, addr + i as u64 * e.size(), x)?;
                }
                Ok(())
            }
            (Ty::Vector(n, e), A(vs)) => {
                let b = e.bits();
                if b % 8 == 0 {
                    for (i, x) in vs.iter().enumerate() {
                        self.store_scalar(st, addr + i as u64 * (b as u64 / 8), x, b)?;
                    }
                    Ok(())
                } else {
                    let mut x = to_e(&vs[0], b);
                    for v in &vs[1..] {
                        x = concat(to_e(v, b), x);
                    }
                    self.store_scalar(st, addr, &from_e(x), b * *n as u16)
                }
            }
            _ => self.store_scalar(st, addr, v, t.bits()),
        }
    }

    /// Resolve a pointer for reading `n` bytes. Constant pointers are plain;
    /// symbolic ones inside a single object become table look-ups.
    fn load_ptr(&mut self, st: &mut State, t: &Ty, p: &Val) -> R<Val> {
        let e = match p {
            C(a) => return self.load(st, t, *a as u64),
            S(e) => *e,
            A(_) => return err("aggregate pointer"),
        };
        if t.is_agg() {
            let a = self.concretize(st, p, 64)? as u64;
            return self.load(st, t, a);
        }
        let n = (t.bits() as u64 + 7) / 8;
        let a = st.ev(e) as u64;
        let Some((b, o)) = self.find(st, a) else {
            return err(format!("symbolic pointer may be invalid: {a:#x}"));
        };
        let len = o.bytes.len() as u64;
        if len < n || len > 4096 {
            let a = self.concretize(st, p, 64)? as u64;
            return self.load(st, t, a);
        }
        // in bounds of this object?
        let off = bin(Op::Sub, e, cst(b as u128, 64));
        let inb = bin(Op::Ult, off, cst((len - n + 1) as u128, 64));
        if !self.branch(st, inb)? {
            // this state now excludes the object: retry
            return self.load_ptr(st, t, p);
        }
        if !o.sym.is_empty() {
            let a = self.concretize(st, p, 64)? as u64;
            return self.load(st, t, a);
        }
        let tab = table(Rc::new(o.bytes.clone()));
        let ix = extract(off, 0, 32);
        let mut r: Option<E> = None;
        for i in (0..n).rev() {
            let x = select(tab, add(ix, cst(i as u128, 32)));
            r = Some(match r {
                None => x,
                Some(h) => concat(h, x),
            });
        }
        let mut r = r.unwrap();
        if width(r) > t.bits() {
            r = extract(r, 0, t.bits());
        }
        Ok(from_e(r))
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(i) => st.frames.last().unwrap().regs[*i as usize].clone(),
            Opd::C(Cv::I(v)) => C(*v),
            Opd::C(c) => from_cv(c),
        }
    }

    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.frame().regs[d as usize] = v;
    }

    fn scalar_bin(&self, op: BinOp, a: &Val, b: &Val, w: u16) -> R<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => match (a, b) {
                (C(x), C(y)) if w == 32 => {
                    return Ok(C((f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u128));
                }
                (C(x), C(y)) => {
                    return Ok(C((f64::from_bits(*x as u64) % f64::from_bits(*y as u64)).to_bits() as u128));
                }
                // x % 1 is x - trunc(x) with the sign of x
                (_, C(y)) if *y == if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 } => {
                    let x = to_e(a, w);
                    let d = bin(Op::FSub, x, un(Un::FpRound(0), x, w));
                    let r = bin(Op::And, d, cst(mask(w - 1), w));
                    return Ok(from_e(bin(Op::Or, r, bin(Op::And, x, cst(1u128 << (w - 1), w)))));
                }
                _ => return err("symbolic frem"),
            },
        };
        Ok(match (a, b) {
            (C(x), C(y)) => C(c_bin(o, *x, *y, w, w)),
            _ => from_e(bin(o, to_e(a, w), to_e(b, w))),
        })
    }

    fn scalar_icmp(&self, p: Pred, a: &Val, b: &Val, w: u16) -> Val {
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u128);
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        from_e(match p {
            Pred::Eq => eq(x, y),
            Pred::Ne => not(eq(x, y)),
            Pred::Ugt => bin(Op::Ult, y, x),
            Pred::Uge => not(bin(Op::Ult, x, y)),
            Pred::Ult => bin(Op::Ult, x, y),
            Pred::Ule => not(bin(Op::Ult, y, x)),
            Pred::Sgt => bin(Op::Slt, y, x),
            Pred::Sge => not(bin(Op::Slt, x, y)),
            Pred::Slt => bin(Op::Slt, x, y),
            Pred::Sle => not(bin(Op::Slt, y, x)),
        })
    }

    fn scalar_fcmp(&self, p: FPred, a: &Val, b: &Val, w: u16) -> Val {
        let (x, y) = (to_e(a, w), to_e(b, w));
        let uno = || or1(un(Un::FIsNan, x, 1), un(Un::FIsNan, y, 1));
        let feq = || bin(Op::FEq, x, y);
        let flt = || bin(Op::FLt, x, y);
        let fle = || bin(Op::FLe, x, y);
        let fgt = || bin(Op::FLt, y, x);
        let fge = || bin(Op::FLe, y, x);
        from_e(match p {
            FPred::False => fls(),
            FPred::True => tru(),
            FPred::Oeq => feq(),
            FPred::Ogt => fgt(),
            FPred::Oge => fge(),
            FPred::Olt => flt(),
            FPred::Ole => fle(),
            FPred::One => or1(flt(), fgt()),
            FPred::Ord => not(uno()),
            FPred::Uno => uno(),
            FPred::Ueq => not(or1(flt(), fgt())),
            FPred::Ugt => not(fle()),
            FPred::Uge => not(flt()),
            FPred::Ult => not(fge()),
            FPred::Ule => not(fgt()),
            FPred::Une => not(feq()),
        })
    }

    fn scalar_cast(&self, c: CastOp, a: &Val, ws: u16, wd: u16) -> R<Val> {
        let e = to_e(a, ws);
        Ok(match c {
            CastOp::Trunc => match a {
                C(v) => C(v & mask(wd)),
                _ => from_e(extract(e, 0, wd)),
            },
            CastOp::ZExt => match a {
                C(v) => C(*v),
                _ => from_e(zext(e, wd)),
            },
            CastOp::SExt => from_e(sextend(e, wd)),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if wd < ws {
                    from_e(extract(e, 0, wd))
                } else {
                    from_e(zext(e, wd))
                }
            }
            CastOp::BitCast => a.clone(),
            CastOp::FpToSi => from_e(un(Un::FpToSiSat, e, wd)),
            CastOp::FpToUi => from_e(un(Un::FpToUiSat, e, wd)),
            CastOp::SiToFp => from_e(un(Un::SiToFp, e, wd)),
            CastOp::UiToFp => from_e(un(Un::UiToFp, e, wd)),
            CastOp::FpExt => from_e(un(Un::FpExt, e, wd)),
            CastOp::FpTrunc => from_e(un(Un::FpTrunc, e, wd)),
        })
    }

    fn ewise1(&self, t: &Ty, a: &Val, f: &mut dyn FnMut(&Val) -> R<Val>) -> R<Val> {
        match (t, a) {
            (Ty::Vector(..), A(v)) => {
                let mut o = Vec::with_capacity(v.len());
                for x in v.iter() {
                    o.push(f(x)?);
                }
                Ok(A(Rc::new(o)))
            }
            _ => f(a),
        }
    }
    fn ewise2(&self, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&Val, &Val) -> R<Val>) -> R<Val> {
        match (t, a, b) {
            (Ty::Vector(..), A(v), A(u)) => {
                let mut o = Vec::with_capacity(v.len());
                for (x, y) in v.iter().zip(u.iter()) {
                    o.push(f(x, y)?);
                }
                Ok(A(Rc::new(o)))
            }
            _ => f(a, b),
        }
    }
    fn ebits(t: &Ty) -> u16 {
        match t {
            Ty::Vector(_, e) => e.bits(),
            _ => t.bits(),
        }
    }

    fn ite_val(&self, c: E, a: &Val, b: &Val, t: &Ty) -> Val {
        match (a, b) {
            (A(x), A(y)) => A(Rc::new(
                (0..x.len()).map(|i| self.ite_val(c, &x[i], &y[i], &t.elem_at(i))).collect(),
            )),
            _ => {
                let w = t.bits();
                from_e(ite(c, to_e(a, w), to_e(b, w)))
            }
        }
    }

    // ---------------------------------------------------------------- step

    fn goto(&mut self, st: &mut State, b: u32) {
        let f = st.frames.last_mut().unwrap();
        let prev = f.block;
        let func = f.func.clone();
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, ins) in &blk.phis {
                let (_, o) = ins.iter().find(|(l, _)| *l == prev).expect("phi predecessor");
                let v = match o {
                    Opd::R(i) => f.regs[*i as usize].clone(),
                    Opd::C(c) => from_cv(c),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.block = b;
        f.ip = 0;
    }

    /// Execute one instruction. `Ok(false)`: the path ended.
    fn step(&mut self, st: &mut State) -> R<bool> {
        st.steps += 1;
        self.rep.steps += 1;
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let inst = &func.blocks[f.block as usize].insts[f.ip];
        match inst {
            Inst::Bin(d, op, t, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let w = Self::ebits(t);
                let v = self.ewise2(t, &x, &y, &mut |p, q| self.scalar_bin(*op, p, q, w))?;
                self.set(st, *d, v);
            }
            Inst::ICmp(d, p, t, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let w = Self::ebits(t);
                let v = self.ewise2(t, &x, &y, &mut |q, r| Ok(self.scalar_icmp(*p, q, r, w)))?;
                self.set(st, *d, v);
            }
            Inst::FCmp(d, p, t, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let w = Self::ebits(t);
                let v = self.ewise2(t, &x, &y, &mut |q, r| Ok(self.scalar_fcmp(*p, q, r, w)))?;
                self.set(st, *d, v);
            }
            Inst::FNeg(d, t, a) => {
                let x = self.opd(st, a);
                let w = Self::ebits(t);
                let v = self.ewise1(t, &x, &mut |p| self.scalar_bin(BinOp::Xor, p, &C(1u128 << (w - 1)), w))?;
                self.set(st, *d, v);
            }
            Inst::Cast(d, c, t, a, t2) => {
                let x = self.opd(st, a);
                let v = if *c == CastOp::BitCast && (t.is_agg() || t2.is_agg()) {
                    self.bitcast(&x, t, t2)?
                } else {
                    let (ws, wd) = (Self::ebits(t), Self::ebits(t2));
                    self.ewise1(t, &x, &mut |p| self.scalar_cast(*c, p, ws, wd))?
                };
                self.set(st, *d, v);
            }
            Inst::Load(d, t, p) => {
                let p = self.opd(st, p);
                let v = self.load_ptr(st, t, &p)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.opd(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let v = self.opd(st, v);
                self.store(st, t, a, &v)?;
            }
            Inst::Gep(d, base, off, dy) => {
                let b = self.opd(st, base);
                let mut v = self.scalar_bin(BinOp::Add, &b, &C(*off as i128 as u128 & mask(64)), 64)?;
                for (t, o, scale) in dy {
                    let x = self.opd(st, o);
                    let x = match &x {
                        C(c) => C(sext(*c, t.bits()) as u128 & mask(64)),
                        S(e) => from_e(sextend(*e, 64)),
                        A(_) => return err("vector gep"),
                    };
                    let y = self.scalar_bin(BinOp::Mul, &x, &C(*scale as i128 as u128 & mask(64)), 64)?;
                    v = self.scalar_bin(BinOp::Add, &v, &y, 64)?;
                }
                self.set(st, *d, v);
            }
            Inst::Select(d, ct, c, t, a, b) => {
                let (c, x, y) = (self.opd(st, c), self.opd(st, a), self.opd(st, b));
                let v = match (&c, ct) {
                    (A(cs), Ty::Vector(..)) => {
                        let (A(xs), A(ys)) = (&x, &y) else { return err("vector select") };
                        let et = t.elem().clone();
                        A(Rc::new(
                            (0..cs.len())
                                .map(|i| match &cs[i] {
                                    C(1) => xs[i].clone(),
                                    C(_) => ys[i].clone(),
                                    S(e) => self.ite_val(*e, &xs[i], &ys[i], &et),
                                    A(_) => unreachable!(),
                                })
                                .collect(),
                        ))
                    }
                    (C(1), _) => x,
                    (C(_), _) => y,
                    (S(e), _) => self.ite_val(*e, &x, &y, t),
                    _ => return err("select"),
                };
                self.set(st, *d, v);
            }
            Inst::Alloca(d, size, n, _al) => {
                let mut s = *size;
                if let Some((t, o)) = n {
                    let v = self.opd(st, o);
                    s *= self.concretize(st, &v, t.bits())? as u64;
                }
                let a = st.alloc(s, false);
                st.frame().allocas.push(a);
                self.set(st, *d, C(a as u128));
            }
            Inst::Call(c) => {
                let c = c.clone();
                return self.call(st, &c);
            }
            Inst::ExtractValue(d, v, ix) => {
                let mut v = self.opd(st, v);
                for i in ix {
                    v = match &v {
                        A(vs) => vs[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(d, v, x, ix) => {
                let v = self.opd(st, v);
                let x = self.opd(st, x);
                fn ins(v: &Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        A(vs) => {
                            let mut n = (**vs).clone();
                            n[ix[0] as usize] = ins(&vs[ix[0] as usize], x, &ix[1..]);
                            A(Rc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&v, x, ix);
                self.set(st, *d, r);
            }
            Inst::ExtractElement(d, v, t, i) => {
                let v = self.opd(st, v);
                let i = self.opd(st, i);
                let i = self.concretize(st, &i, t.bits())? as usize;
                let A(vs) = v else { return err("extractelement") };
                self.set(st, *d, vs[i].clone());
            }
            Inst::InsertElement(d, v, x, t, i) => {
                let v = self.opd(st, v);
                let x = self.opd(st, x);
                let i = self.opd(st, i);
                let i = self.concretize(st, &i, t.bits())? as usize;
                let A(vs) = v else { return err("insertelement") };
                let mut n = (*vs).clone();
                n[i] = x;
                self.set(st, *d, A(Rc::new(n)));
            }
            Inst::Shuffle(d, a, b, m, n) => {
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let (A(x), A(y)) = (a, b) else { return err("shuffle") };
                let v = m
                    .iter()
                    .map(|i| if (*i as usize) < *n { x[*i as usize].clone() } else { y[*i as usize - n].clone() })
                    .collect();
                self.set(st, *d, A(Rc::new(v)));
            }
            Inst::Freeze(d, v) => {
                let v = self.opd(st, v);
                self.set(st, *d, v);
            }
            Inst::Rmw(d, op, t, p, v) => {
                let p = self.opd(st, p);
                let a = self.concretize(st, &p, 64)? as u64;
                let old = self.load(st, t, a)?;
                let v = self.opd(st, v);
                let w = t.bits();
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.scalar_bin(BinOp::Add, &old, &v, w)?,
                    "sub" => self.scalar_bin(BinOp::Sub, &old, &v, w)?,
                    "or" => self.scalar_bin(BinOp::Or, &old, &v, w)?,
                    "and" => self.scalar_bin(BinOp::And, &old, &v, w)?,
                    "xor" => self.scalar_bin(BinOp::Xor, &old, &v, w)?,
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.store(st, t, a, &n)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, t, p, a, b) => {
                let p = self.opd(st, p);
                let ad = self.concretize(st, &p, 64)? as u64;
                let old = self.load(st, t, ad)?;
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let c = self.scalar_icmp(Pred::Eq, &old, &x, t.bits());
                let c = self.concretize(st, &c, 1)?;
                if c == 1 {
                    self.store(st, t, ad, &y)?;
                }
                self.set(st, *d, A(Rc::new(vec![old, C(c)])));
            }
            Inst::Fence => {}
            Inst::Br(b) => {
                self.goto(st, *b);
                return Ok(true);
            }
            Inst::CondBr(c, a, b) => {
                let v = self.opd(st, c);
                let t = match v {
                    C(c) => c == 1,
                    S(e) => self.branch(st, e)?,
                    A(_) => return err("condbr"),
                };
                self.goto(st, if t { *a } else { *b });
                return Ok(true);
            }
            Inst::Switch(t, c, dl, cs) => {
                let v = self.opd(st, c);
                let k = match v {
                    C(c) => c,
                    S(e) => {
                        // does the current model select a case?
                        let x = st.ev(e);
                        let w = t.bits();
                        if cs.iter().any(|(k, _)| *k == x) {
                            self.branch(st, eq(e, cst(x, w)))?;
                            x
                        } else {
                            // default: all cases with a feasible value fork off
                            let mut any = fls();
                            for (k, _) in cs {
                                any = or1(any, eq(e, cst(*k, w)));
                            }
                            self.branch(st, any)?;
                            self.goto(st, *dl);
                            return Ok(true);
                        }
                    }
                    A(_) => return err("switch"),
                };
                let b = cs.iter().find(|(x, _)| *x == k).map(|(_, l)| *l).unwrap_or(*dl);
                self.goto(st, b);
                return Ok(true);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.opd(st, o));
                let f = st.frames.pop().unwrap();
                if !f.allocas.is_empty() {
                    let mem = Rc::make_mut(&mut st.mem);
                    for a in f.allocas {
                        mem.remove(&a);
                    }
                }
                if st.frames.is_empty() {
                    return Ok(false);
                }
                return self.after_call(st, f.dst, f.normal, v);
            }
            Inst::Unreachable => return err("reached `unreachable`"),
            Inst::Unsupported(s) => return err(format!("unsupported instruction {s}")),
        }
        st.frame().ip += 1;
        Ok(true)
    }

    fn after_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) -> R<bool> {
        if let (Some(d), Some(v)) = (dst, v) {
            self.set(st, d, v);
        }
        match normal {
            Some(b) => self.goto(st, b),
            None => st.frame().ip += 1,
        }
        Ok(true)
    }

    fn bitcast(&self, v: &Val, t: &Ty, t2: &Ty) -> R<Val> {
        // flatten to one wide integer, then split
        let flat = match (v, t) {
            (A(vs), Ty::Vector(_, e)) => {
                let b = e.bits();
                let mut x = to_e(&vs[0], b);
                for v in &vs[1..] {
                    x = concat(to_e(v, b), x);
                }
                x
            }
            _ => to_e(v, t.bits()),
        };
        Ok(match t2 {
            Ty::Vector(n, e) => {
                let b = e.bits();
                A(Rc::new((0..*n as u16).map(|i| from_e(extract(flat, i * b, b))).collect()))
            }
            _ => from_e(flat),
        })
    }

    // ---------------------------------------------------------------- calls

    fn kind(&mut self, n: &Rc<str>) -> Kind {
        if let Some(k) = self.kinds.get(n) {
            return k.clone();
        }
        let panic = ["4core9panicking", "17rust_begin_unwind", "3std9panicking", "18handle_alloc_error", "7raw_vec12handle_error", "rust_eh_personality", "_Unwind_", "17___rust_start_panic", "3std7process5abort"]
            .iter()
            .any(|p| n.contains(p))
            || self.cfg.stop_panic.iter().any(|p| n.contains(p.as_str()));
        let k = if panic && !n.contains("panic_count") {
            Kind::Panic
        } else if n.starts_with("llvm.") || n.starts_with("sym_") || !self.m.func_text.contains_key(n) {
            Kind::Builtin
        } else {
            Kind::Normal
        };
        self.kinds.insert(n.clone(), k.clone());
        k
    }

    fn redirect(&mut self, n: &Rc<str>) -> Rc<str> {
        if self.cfg.redirect.is_empty() {
            return n.clone();
        }
        if let Some(r) = self.redirects.get(n) {
            return r.clone().unwrap_or_else(|| n.clone());
        }
        let r = self.cfg.redirect.iter().find(|(p, _)| p.split("&").all(|q| n.contains(q))).map(|(_, t)| Rc::from(t.as_str()));
        self.redirects.insert(n.clone(), r.clone());
        r.unwrap_or_else(|| n.clone())
    }

    fn call(&mut self, st: &mut State, c: &Rc<Call>) -> R<bool> {
        let name: Rc<str> = match &c.callee {
            Callee::Direct(n) => n.clone(),
            Callee::Indirect(o) => {
                let v = self.opd(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                match self.m.fname.get(&a) {
                    Some(n) => n.clone(),
                    None => return err(format!("indirect call to {a:#x}")),
                }
            }
            Callee::Asm => {
                // empty asm blocks are compiler barriers
                return err("inline asm");
            }
        };
        let name = self.redirect(&name);
        match self.kind(&name) {
            Kind::Panic => self.panic(st, &name, c),
            Kind::Builtin => {
                let args: Vec<Val> = c.args.iter().map(|(_, o)| self.opd(st, o)).collect();
                let v = self.builtin(st, &name, c, args)?;
                self.after_call(st, c.dst, c.normal, v)
            }
            Kind::Normal => {
                let f = self.m.func(&name).unwrap();
                if !self.rep.funcs.contains(&f.name) {
                    self.rep.funcs.insert(f.name.clone());
                }
                if st.frames.len() > 400 {
                    return err("call depth");
                }
                let mut regs = vec![C(0); f.nregs as usize];
                for (i, (_, o)) in c.args.iter().enumerate() {
                    if i < f.params.len() {
                        regs[f.params[i] as usize] = self.opd(st, o);
                    }
                }
                st.frames.push(Frame { func: f, regs, block: 0, ip: 0, allocas: vec![], dst: c.dst, normal: c.normal });
                Ok(true)
            }
        }
    }

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.read_bytes(st, p, n) {
            Ok(v) => v.iter().map(|b| match b { C(c) => *c as u8 as char, _ => '?' }).collect(),
            Err(_) => "?".into(),
        }
    }

    fn panic(&mut self, st: &mut State, name: &str, c: &Rc<Call>) -> R<bool> {
        if !self.mine(st) {
            return Ok(false);
        }
        // the location is usually the last pointer argument
        let mut loc = String::new();
        for (t, o) in c.args.iter().rev() {
            if *t == Ty::Ptr {
                if let C(a) = self.opd(st, o) {
                    let a = a as u64;
                    let f = self.load_scalar(st, a, 64);
                    let l = self.load_scalar(st, a + 8, 64);
                    let n = self.load_scalar(st, a + 16, 32);
                    if let (Ok(C(f)), Ok(C(l)), Ok(C(n))) = (f, l, n) {
                        if l > 0 && l < 300 {
                            let s = self.read_str(st, f as u64, l as u64);
                            if s.contains(".rs") {
                                loc = format!("{s}:{n}").replace('\0', "");
                                break;
                            }
                        }
                    }
                }
            }
        }
        let ok = st.panic_ok.unwrap_or_else(fls);
        self.rep.asserts += 1;
        match self.sat(st, not(ok))? {
            None => {
                self.rep.panics_allowed += 1;
                self.end_path(st);
                self.rep.covers.entry("panic".into()).and_modify(|x| *x += 1).or_insert(1);
                Err(Stop::Requeued)
            }
            Some(m) => {
                self.violation(st, "panic", &format!("unexpected panic in {name} {loc}"), &m);
                Err(Stop::Requeued)
            }
        }
    }

    fn violation(&mut self, st: &State, kind: &str, msg: &str, m: &HashMap<u32, u128>) {
        let key = format!("{kind}:{msg}");
        // keep a few distinct inputs per message
        if !self.seen_viol.insert(key.clone()) && self.rep.violations.iter().filter(|v| v.msg == msg).count() >= 3 {
            return;
        }
        let stack = self.stack(st).into_iter().take(8).collect();
        let inputs = self.inputs_of(st, Some(m));
        self.rep.violations.push(Violation { kind: kind.into(), msg: msg.into(), inputs, stack });
    }

    fn new_input(&mut self, st: &mut State, w: u16) -> E {
        let i = st.inputs.len() as u32;
        let e = var(i, w);
        let id = vars(e)[0];
        st.inputs.push((w, id));
        e
    }

    /// A model for `value = number spelled by aux characters` in which the
    /// value stays as it is and the characters are its decimal digits; found
    /// by evaluation, so that no query is needed.
    fn guess_digits(&self, st: &State, e: E) -> Option<Rc<HashMap<u32, u128>>> {
        let Node::Bin(Op::Eq, a, b) = node(e) else { return None };
        let aux = |x: E| as_const(x).is_none() && !vars(x).is_empty() && vars(x).iter().all(|v| st.is_aux(*v));
        let (t, v) = if aux(a) && !aux(b) {
            (a, b)
        } else if aux(b) && !aux(a) {
            (b, a)
        } else {
            return None;
        };
        let mut m = (*st.model).clone();
        let mut n = st.ev(v);
        for &x in vars(t).iter().rev() {
            m.insert(x, b'0' as u128 + n % 10);
            n /= 10;
        }
        if n != 0 {
            return None;
        }
        let val = |v: u32| m.get(&v).copied().unwrap_or(0);
        let ok = |c: E| eval(c, &val) == 1;
        let touched = |c: E| vars(c).iter().any(|x| vars(t).contains(x));
        if ok(e) && st.pc.iter().all(|&c| !touched(c) || ok(c)) {
            Some(Rc::new(m))
        } else {
            None
        }
    }

    fn builtin(&mut self, st: &mut State, name: &str, c: &Rc<Call>, args: Vec<Val>) -> R<Option<Val>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, c, args);
        }
        let mut conc = |me: &mut Self, st: &mut State, i: usize| -> R<u64> {
            let w = c.args[i].0.bits();
            Ok(me.concretize(st, &args[i], w)? as u64)
        };
        Ok(match name {
            "sym_u8" => Some(from_e(self.new_input(st, 8))),
            "sym_u16" => Some(from_e(self.new_input(st, 16))),
            "sym_u32" => Some(from_e(self.new_input(st, 32))),
            "sym_u64" => Some(from_e(self.new_input(st, 64))),
            "sym_is_symbolic" => Some(C(1)),
            // fresh value that is not an input (existentially defined by a model)
            "sym_aux_u8" => {
                let e = self.new_input(st, 8);
                st.inputs.last_mut().unwrap().0 |= AUX;
                Some(from_e(e))
            }
            "sym_is_const" => {
                let e = to_e(&args[0], 64);
                Some(C(as_const(e).is_some() as u128))
            }
            "sym_concrete" => {
                let v = conc(self, st, 0)?;
                Some(C(v as u128))
            }
            "sym_assume" => {
                self.rep.assumes += 1;
                let e = to_e(&args[0], 1);
                let m = match self.guess_digits(st, e) {
                    Some(m) => Some(m),
                    None => self.sat(st, e)?,
                };
                match m {
                    None => return Err(Stop::Requeued),
                    Some(m) => {
                        self.constrain(st, e, m);
                        if let Node::Bin(Op::Eq, a, b) = node(e) {
                            let aux = |x: E| as_const(x).is_none() && !vars(x).is_empty() && vars(x).iter().all(|v| st.is_aux(*v));
                            if aux(a) && !aux(b) {
                                st.eqs.push((a, b));
                            } else if aux(b) && !aux(a) {
                                st.eqs.push((b, a));
                            }
                        }
                        None
                    }
                }
            }
            "sym_panic_ok" => {
                st.panic_ok = Some(to_e(&args[0], 1));
                None
            }
            "sym_assert" => {
                let p = conc(self, st, 1)?;
                let n = conc(self, st, 2)?;
                let msg = self.read_str(st, p, n);
                let e = self.rewrite(st, to_e(&args[0], 1));
                if self.mine(st) {
                    self.rep.asserts += 1;
                    *self.rep.checks.entry(msg.clone()).or_insert(0) += 1;
                    if as_const(e).is_some() {
                        self.rep.asserts_const += 1;
                    } else {
                        self.rep.asserts_solver += 1;
                    }
                }
                if let Some(m) = self.sat(st, not(e))? {
                    if self.mine(st) {
                        self.violation(st, "assert", &msg, &m);
                    }
                    // continue on the part where it holds, if any
                    match self.sat(st, e)? {
                        None => return Err(Stop::Requeued),
                        Some(m) => self.constrain(st, e, m),
                    }
                }
                None
            }
            "sym_cover" => {
                let p = conc(self, st, 0)?;
                let n = conc(self, st, 1)?;
                if self.mine(st) {
                    let msg = self.read_str(st, p, n);
                    *self.rep.covers.entry(msg).or_insert(0) += 1;
                }
                None
            }
            "sym_debug" => {
                let p = conc(self, st, 0)?;
                let n = conc(self, st, 1)?;
                let v = self.read_bytes(st, p, n)?;
                let s: String = v
                    .iter()
                    .map(|b| match b {
                        C(c) => (*c as u8 as char).escape_default().to_string(),
                        S(e) => format!("«{}»", show(*e)),
                        _ => "?".into(),
                    })
                    .collect();
                eprintln!("debug: {s}");
                None
            }
            "malloc" => {
                let n = conc(self, st, 0)?;
                Some(C(self.heap_alloc(st, n)? as u128))
            }
            "calloc" => {
                let a = conc(self, st, 0)?;
                let b = conc(self, st, 1)?;
                let n = a.checked_mul(b).unwrap_or(u64::MAX);
                Some(C(self.heap_alloc(st, n)? as u128))
            }
            "posix_memalign" => {
                let p = conc(self, st, 0)?;
                let n = conc(self, st, 2)?;
                let a = self.heap_alloc(st, n)?;
                self.store_scalar(st, p, &C(a as u128), 64)?;
                Some(C(0))
            }
            "realloc" => {
                let p = conc(self, st, 0)?;
                let n = conc(self, st, 1)?;
                let a = self.heap_alloc(st, n)?;
                if p != 0 {
                    let old = match st.mem.get(&p) {
                        Some(o) => o.clone(),
                        None => return err("realloc of a non-heap pointer"),
                    };
                    let k = (old.bytes.len() as u64).min(n);
                    let v = self.read_bytes(st, p, k)?;
                    self.write_bytes(st, a, &v)?;
                    self.free(st, p)?;
                }
                Some(C(a as u128))
            }
            "free" => {
                let p = conc(self, st, 0)?;
                if p != 0 {
                    self.free(st, p)?;
                }
                None
            }
            "memcmp" | "bcmp" => {
                let p = conc(self, st, 0)?;
                let q = conc(self, st, 1)?;
                let n = conc(self, st, 2)?;
                let a = self.read_bytes(st, p, n)?;
                let b = self.read_bytes(st, q, n)?;
                let mut r = cst(0, 32);
                for i in (0..n as usize).rev() {
                    let (x, y) = (to_e(&a[i], 8), to_e(&b[i], 8));
                    let ne = not(eq(x, y));
                    let d = if name == "bcmp" {
                        cst(1, 32)
                    } else {
                        ite(bin(Op::Ult, x, y), cst(u32::MAX as u128, 32), cst(1, 32))
                    };
                    r = ite(ne, d, r);
                }
                Some(from_e(r))
            }
            "memchr" => {
                let p = conc(self, st, 0)?;
                let n = conc(self, st, 2)?;
                let ch = extract(to_e(&args[1], 32), 0, 8);
                let a = self.read_bytes(st, p, n)?;
                let mut r = cst(0, 64);
                for i in (0..n as usize).rev() {
                    r = ite(eq(to_e(&a[i], 8), ch), cst(p as u128 + i as u128, 64), r);
                }
                Some(from_e(r))
            }
            "strlen" => {
                let p = conc(self, st, 0)?;
                let mut i = 0;
                loop {
                    let b = self.load_scalar(st, p + i, 8)?;
                    if self.concretize(st, &b, 8)? == 0 {
                        break;
                    }
                    i += 1;
                }
                Some(C(i as u128))
            }
            "write" => {
                let n = conc(self, st, 2)?;
                Some(C(n as u128))
            }
            // the keys of hash maps: any value serves, and none may matter
            "getrandom" => {
                let (p, n) = (conc(self, st, 0)?, conc(self, st, 1)?);
                for i in 0..n {
                    self.store_scalar(st, p + i, &C(0), 8)?;
                }
                Some(C(n as u128))
            }
            "getenv" => Some(C(0)),
            "syscall" => Some(C(u64::MAX as u128)),
            "__errno_location" => {
                let a = st.alloc(8, false);
                Some(C(a as u128))
            }
            "abort" => return err("abort"),
            _ => return err(format!("call to unknown external {name}")),
        })
    }

    /// Large ones are no problem as long as nobody writes to them.
    fn heap_alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 33 {
            return err(format!("allocation of {n} bytes"));
        }
        Ok(st.alloc(n, true))
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        match st.mem.get(&p) {
            Some(o) if o.heap => {
                Rc::make_mut(&mut st.mem).remove(&p);
                Ok(())
            }
            _ => err(format!("invalid free {p:#x}")),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, c: &Rc<Call>, args: Vec<Val>) -> R<Option<Val>> {
        let base = n;
        if base.starts_with("lifetime") || base.starts_with("assume") || base.starts_with("experimental.noalias") || base.starts_with("dbg") || base.starts_with("donothing") || base.starts_with("x86.sse2.pause") || base.starts_with("prefetch") || base.starts_with("invariant") {
            if base.starts_with("invariant.start") {
                return Ok(Some(C(0)));
            }
            return Ok(None);
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let n = self.concretize(st, &args[2], 64)? as u64;
            if n == 0 {
                return Ok(None);
            }
            let d = self.concretize(st, &args[0], 64)? as u64;
            let s = self.concretize(st, &args[1], 64)? as u64;
            let v = self.read_bytes(st, s, n)?;
            self.write_bytes(st, d, &v)?;
            return Ok(None);
        }
        if base.starts_with("memset") {
            let n = self.concretize(st, &args[2], 64)? as u64;
            if n == 0 {
                return Ok(None);
            }
            let d = self.concretize(st, &args[0], 64)? as u64;
            let v = vec![args[1].clone(); n as usize];
            self.write_bytes(st, d, &v)?;
            return Ok(None);
        }
        if base.starts_with("threadlocal.address") || base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip.invariant") || base.starts_with("ssa.copy") {
            return Ok(Some(args[0].clone()));
        }
        if base.starts_with("is.constant") {
            return Ok(Some(C(0)));
        }
        if base.starts_with("load.relative") {
            let p = self.concretize(st, &args[0], 64)? as u64;
            let off = args[1].clone();
            let a = self.scalar_bin(BinOp::Add, &C(p as u128), &off, 64)?;
            let v = self.load_ptr(st, &Ty::Int(32), &a)?;
            let v = self.scalar_cast(CastOp::SExt, &v, 32, 64)?;
            return Ok(Some(self.scalar_bin(BinOp::Add, &C(p as u128), &v, 64)?));
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            return err("llvm.trap");
        }
        if base.starts_with("vector.reduce.") {
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            let A(vs) = &args[0] else { return err("reduce") };
            let w = c.ret.bits();
            let mut r = vs[0].clone();
            for v in &vs[1..] {
                r = match op {
                    "add" => self.scalar_bin(BinOp::Add, &r, v, w)?,
                    "mul" => self.scalar_bin(BinOp::Mul, &r, v, w)?,
                    "and" => self.scalar_bin(BinOp::And, &r, v, w)?,
                    "or" => self.scalar_bin(BinOp::Or, &r, v, w)?,
                    "xor" => self.scalar_bin(BinOp::Xor, &r, v, w)?,
                    "umax" | "umin" | "smax" | "smin" => self.minmax(op, &r, v, w),
                    _ => return err(format!("intrinsic {n}")),
                };
            }
            return Ok(Some(r));
        }
        // element-wise intrinsics
        let t = c.ret.clone();
        if let Ty::Vector(k, et) = &t {
            let mut out = vec![];
            for i in 0..*k as usize {
                let a: Vec<Val> = args
                    .iter()
                    .map(|x| match x {
                        A(v) => v[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let sw = match &c.args[0].0 {
                    Ty::Vector(_, e) => e.bits(),
                    t => t.bits(),
                };
                match self.scalar_intrinsic(n, &a, et, sw)? {
                    Some(v) => out.push(v),
                    None => return err(format!("intrinsic {n}")),
                }
            }
            return Ok(Some(A(Rc::new(out))));
        }
        let sw = c.args.first().map(|(t, _)| t.bits()).unwrap_or(0);
        match self.scalar_intrinsic(n, &args, &t, sw)? {
            Some(v) => Ok(Some(v)),
            None => err(format!("intrinsic {n}")),
        }
    }

    fn minmax(&self, op: &str, a: &Val, b: &Val, w: u16) -> Val {
        let p = match op {
            "umax" => Pred::Ugt,
            "umin" => Pred::Ult,
            "smax" => Pred::Sgt,
            _ => Pred::Slt,
        };
        match self.scalar_icmp(p, a, b, w) {
            C(1) => a.clone(),
            C(_) => b.clone(),
            S(e) => from_e(ite(e, to_e(a, w), to_e(b, w))),
            A(_) => unreachable!(),
        }
    }

    fn scalar_intrinsic(&self, n: &str, args: &[Val], t: &Ty, sw: u16) -> R<Option<Val>> {
        let w = t.bits();
        let b = |op: BinOp, x: &Val, y: &Val, w: u16| self.scalar_bin(op, x, y, w);
        let head: Vec<&str> = n.split('.').collect();
        let h2 = if head.len() > 1 { format!("{}.{}", head[0], head[1]) } else { head[0].to_string() };
        let ite_v = |c: &Val, x: &Val, y: &Val, w: u16| match c {
            C(1) => x.clone(),
            C(_) => y.clone(),
            S(e) => from_e(ite(*e, to_e(x, w), to_e(y, w))),
            A(_) => unreachable!(),
        };
        Ok(Some(match head[0] {
            "umax" | "umin" | "smax" | "smin" => self.minmax(head[0], &args[0], &args[1], w),
            "abs" => {
                let neg = self.scalar_icmp(Pred::Slt, &args[0], &C(0), w);
                let m = b(BinOp::Sub, &C(0), &args[0], w)?;
                ite_v(&neg, &m, &args[0], w)
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let op = match &head[0][1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let signed = head[0].starts_with('s');
                // compute in double width and compare
                let x = to_e(&args[0], sw);
                let y = to_e(&args[1], sw);
                let dw = sw * 2;
                if dw > 128 && (as_const(x).is_none() || as_const(y).is_none() || sw > 64) {
                    return err("wide overflow arithmetic");
                }
                let ext = |e: E| if signed { sextend(e, dw) } else { zext(e, dw) };
                let o = match op {
                    BinOp::Add => Op::Add,
                    BinOp::Sub => Op::Sub,
                    _ => Op::Mul,
                };
                let wide = bin(o, ext(x), ext(y));
                let low = bin(o, x, y);
                let ovf = match (op, signed) {
                    (BinOp::Sub, false) => bin(Op::Ult, x, y),
                    (BinOp::Add, false) => bin(Op::Ult, low, x),
                    (BinOp::Mul, false) => not(eq(extract(wide, sw, sw), cst(0, sw))),
                    (BinOp::Add, true) => {
                        let (sx, sy, sr) = (extract(x, sw - 1, 1), extract(y, sw - 1, 1), extract(low, sw - 1, 1));
                        and1(eq(sx, sy), not(eq(sx, sr)))
                    }
                    (BinOp::Sub, true) => {
                        let (sx, sy, sr) = (extract(x, sw - 1, 1), extract(y, sw - 1, 1), extract(low, sw - 1, 1));
                        and1(not(eq(sx, sy)), not(eq(sx, sr)))
                    }
                    _ => not(eq(wide, sextend(low, dw))),
                };
                if head[1] == "with" {
                    A(Rc::new(vec![from_e(low), from_e(ovf)]))
                } else {
                    // saturating
                    let sat = if !signed {
                        if op == BinOp::Sub {
                            cst(0, sw)
                        } else {
                            cst(mask(sw), sw)
                        }
                    } else {
                        let neg = bin(Op::Slt, x, cst(0, sw));
                        ite(neg, cst(1u128 << (sw - 1), sw), cst(mask(sw - 1), sw))
                    };
                    from_e(ite(ovf, sat, low))
                }
            }
            "ctlz" | "cttz" => {
                let lz = head[0] == "ctlz";
                match &args[0] {
                    C(v) => C(if *v == 0 {
                        w as u128
                    } else if lz {
                        (v.leading_zeros() as u128) - (128 - w as u128)
                    } else {
                        v.trailing_zeros() as u128
                    }),
                    S(e) => {
                        let mut r = cst(w as u128, w);
                        for i in 0..w {
                            // last write wins: iterate towards the decisive bit
                            let k = if lz { i } else { w - 1 - i };
                            let bit = extract(*e, k, 1);
                            let val = if lz { w - 1 - k } else { k };
                            r = ite(bit, cst(val as u128, w), r);
                        }
                        from_e(r)
                    }
                    A(_) => return Ok(None),
                }
            }
            "ctpop" => match &args[0] {
                C(v) => C(v.count_ones() as u128),
                S(e) => {
                    let mut r = cst(0, w);
                    for i in 0..w {
                        r = add(r, zext(extract(*e, i, 1), w));
                    }
                    from_e(r)
                }
                A(_) => return Ok(None),
            },
            "bswap" => {
                let e = to_e(&args[0], w);
                let mut r = extract(e, 0, 8);
                for i in 1..w / 8 {
                    r = concat(r, extract(e, i * 8, 8));
                }
                from_e(r)
            }
            "bitreverse" => {
                let e = to_e(&args[0], w);
                let mut r = extract(e, 0, 1);
                for i in 1..w {
                    r = concat(r, extract(e, i, 1));
                }
                from_e(r)
            }
            "fshl" | "fshr" => {
                let s = b(BinOp::URem, &args[2], &C(w as u128), w)?;
                let (hi, lo) = (to_e(&args[0], w), to_e(&args[1], w));
                let cat = concat(hi, lo);
                let dw = w * 2;
                if dw > 128 {
                    let C(s) = s else { return err("wide funnel shift") };
                    let s = s as u16;
                    if s == 0 {
                        return Ok(Some(if head[0] == "fshl" { args[0].clone() } else { args[1].clone() }));
                    }
                    let k = if head[0] == "fshl" { w - s } else { s };
                    return Ok(Some(from_e(extract(cat, k, w))));
                }
                let se = zext(to_e(&s, w), dw);
                let r = if head[0] == "fshl" {
                    extract(bin(Op::Shl, cat, se), w, w)
                } else {
                    extract(bin(Op::LShr, cat, se), 0, w)
                };
                from_e(r)
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if head[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.scalar_icmp(lt, &args[0], &args[1], sw);
                let g = self.scalar_icmp(gt, &args[0], &args[1], sw);
                let x = ite_v(&g, &C(1), &C(0), w);
                ite_v(&l, &C(mask(w)), &x, w)
            }
            "fptosi" => from_e(un(Un::FpToSiSat, to_e(&args[0], sw), w)),
            "fptoui" => from_e(un(Un::FpToUiSat, to_e(&args[0], sw), w)),
            "fabs" => b(BinOp::And, &args[0], &C(mask(w - 1)), w)?,
            "copysign" => {
                let m = b(BinOp::And, &args[0], &C(mask(w - 1)), w)?;
                let s = b(BinOp::And, &args[1], &C(1u128 << (w - 1)), w)?;
                b(BinOp::Or, &m, &s, w)?
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "minimum" | "maximum" => {
                let lt = self.scalar_fcmp(FPred::Olt, &args[0], &args[1], w);
                let nan0 = self.scalar_fcmp(FPred::Uno, &args[0], &args[0], w);
                let nan1 = self.scalar_fcmp(FPred::Uno, &args[1], &args[1], w);
                let r = if head[0].starts_with("min") {
                    ite_v(&lt, &args[0], &args[1], w)
                } else {
                    ite_v(&lt, &args[1], &args[0], w)
                };
                let r = ite_v(&nan1, &args[0], &r, w);
                ite_v(&nan0, &args[1], &r, w)
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "sqrt" | "roundeven" => {
                let C(v) = &args[0] else {
                    let m = match head[0] {
                        "trunc" => 0,
                        "floor" => 1,
                        "ceil" => 2,
                        "round" => 4,
                        "sqrt" => return err(format!("symbolic {n}")),
                        _ => 3,
                    };
                    return Ok(Some(from_e(un(Un::FpRound(m), to_e(&args[0], w), w))));
                };
                if w == 32 {
                    let f = f32::from_bits(*v as u32);
                    let r = match head[0] {
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "round" => f.round(),
                        "sqrt" => f.sqrt(),
                        _ => f.round_ties_even(),
                    };
                    C(r.to_bits() as u128)
                } else {
                    let f = f64::from_bits(*v as u64);
                    let r = match head[0] {
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "round" => f.round(),
                        "sqrt" => f.sqrt(),
                        _ => f.round_ties_even(),
                    };
                    C(r.to_bits() as u128)
                }
            }
            "is" if h2 == "is.fpclass" => {
                let k = match &args[1] {
                    C(k) => *k as u32,
                    _ => return Ok(None),
                };
                let e = to_e(&args[0], sw);
                let (ew, mw) = if sw == 32 { (8u16, 23u16) } else { (11, 52) };
                let sign = extract(e, sw - 1, 1);
                let ex = extract(e, mw, ew);
                let ma = extract(e, 0, mw);
                let exmax = eq(ex, cst(mask(ew), ew));
                let ex0 = eq(ex, cst(0, ew));
                let m0 = eq(ma, cst(0, mw));
                let q = extract(ma, mw - 1, 1);
                let nan = and1(exmax, not(m0));
                let fin = and1(not(exmax), not(ex0));
                let sub = and1(ex0, not(m0));
                let zero = and1(ex0, m0);
                let inf = and1(exmax, m0);
                let cl = [
                    and1(nan, not(q)),
                    and1(nan, q),
                    and1(inf, sign),
                    and1(fin, sign),
                    and1(sub, sign),
                    and1(zero, sign),
                    and1(zero, not(sign)),
                    and1(sub, not(sign)),
                    and1(fin, not(sign)),
                    and1(inf, not(sign)),
                ];
                let mut r = fls();
                for (i, c) in cl.iter().enumerate() {
                    if k >> i & 1 == 1 {
                        r = or1(r, *c);
                    }
                }
                from_e(r)
            }
            "ptrmask" => b(BinOp::And, &args[0], &args[1], 64)?,
            _ => return Ok(None),
        }))
    }
}

#[allow(dead_code)]
fn _unused(t: &Ty) -> Val {
    zero_val(t)
}

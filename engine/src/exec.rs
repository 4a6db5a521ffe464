//! Symbolic executor over the parsed IR.

use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    S(T),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub bytes: Vec<u8>,
    pub sym: BTreeMap<u32, (T, u32)>,
    pub alive: bool,
    pub writable: bool,
    pub kind: u8, // b'h' heap, b's' stack, b'g' global
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub ret_dst: Option<u32>,
    pub ret_to: Option<u32>, // invoke: normal destination
    pub allocas: Vec<u32>,
}

#[derive(Clone, Default)]
pub struct Region {
    pub task: u32,
    // byte address -> (last task, writer task or MAX, read by several)
    pub log: FxMap<u64, (u32, bool, bool)>,
    pub first_obj: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub globals: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    pub eqs: FxMap<T, u64>,
    pub model: Rc<Vec<u128>>,
    pub inputs: Vec<(Inp, u32)>,
    pub observes: Vec<Val>,
    pub steps: u64,
    pub allow_panic: bool,
    pub regions: Vec<Rc<Region>>,
    pub depth_forks: u32,
    pub exp: Option<(u32, u32)>,
}
#[derive(Clone, PartialEq)]
pub enum Inp {
    C(u64),
    V(T),
}

pub enum Stop {
    Panic(String),
    Mem(String),
    Fuel,
    Unsup(String),
    Infeasible,
    Done,
}

pub enum Flow {
    Next,
    Jumped,
    Fork(Box<State>, Option<(usize, u32)>),
}

#[derive(Clone, Copy, PartialEq)]
pub struct MergePt {
    depth: usize,
    blk: u32, // u32::MAX: return to depth-1
}

pub struct Violation {
    pub kind: String,
    pub id: i64,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<u64>,
    pub widths: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    NotYet,
    None,
    Panic,
    Alloc,
    AllocZ,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    FormatInner,
    AllocFail,
    SymU,
    SymI,
    SymBytes,
    Assume,
    Check,
    Choose,
    Param,
    Reach,
    Observe,
    AllowPanic,
    Conc,
    IsSym,
    ParBegin,
    ParTask,
    ParEnd,
    Intr,
    Ignore,
    Clock,
    Libm,
    Random,
    Written,
    CxaGuard,
    OpNew,
}

pub struct Exec<'a> {
    pub m: &'a Module,
    pub pool: Pool,
    pub solver: Solver,
    pub params: Vec<i64>,
    pub concrete: Option<Vec<u64>>,
    pub builtins: Vec<B>,
    pub globs: FxMap<u32, Rc<Obj>>,
    pub vars_by_key: FxMap<(u32, u32, i128, i128, bool), T>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub reached: BTreeMap<i64, u64>,
    pub check_counts: BTreeMap<i64, (u64, u64)>, // id -> (evaluations, needing the solver)
    pub paths: u64,
    pub panics_allowed: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub sym_ops: u64,
    pub cover: FxMap<u32, Vec<bool>>,
    pub pending: Vec<State>,
    pub fuel: u64,
    pub deadline: Instant,
    pub timed_out: bool,
    pub max_viol: usize,
    pub max_paths: u64,
    pub ifconv: u64,
    pub domain_unsat: u64,
    pub domain_sat: u64,
    pub prof: bool,
    pub profile: BTreeMap<String, (u64, f64)>,
    regions: HashMap<(u32, u32), Option<Rc<Vec<u32>>>>,
    pub merge_level: u32,
    pub merge_budget: u64,
    pub live: FxMap<u32, Rc<Vec<Vec<u64>>>>,
    pub path_observes: Vec<Vec<u64>>,
    pub max_alloc: u64,
    pub infeasible: u64,
    pub split0: usize,
    pub conc_limit: u32,
    pub traces: Vec<(Vec<u64>, Vec<u64>)>,
    pub split: Option<(u32, u32)>, // (index, count): explore only a share of the forks
}

fn bits_of(v: &[u64]) -> Vec<usize> {
    let mut o = vec![];
    for (i, &w) in v.iter().enumerate() {
        let mut w = w;
        while w != 0 {
            o.push(i * 64 + w.trailing_zeros() as usize);
            w &= w - 1;
        }
    }
    o
}

const DYN: u32 = 0x1000_0000;

fn cbits(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v << s) as i64) >> s
    }
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module) -> Exec<'a> {
        Exec {
            m,
            pool: Pool::new(),
            solver: Solver::new(),
            params: vec![],
            concrete: None,
            builtins: vec![B::NotYet; m.fns.len()],
            globs: Default::default(),
            vars_by_key: Default::default(),
            violations: vec![],
            errors: vec![],
            reached: Default::default(),
            check_counts: Default::default(),
            paths: 0,
            panics_allowed: 0,
            forks: 0,
            merges: 0,
            steps: 0,
            sym_ops: 0,
            cover: Default::default(),
            pending: vec![],
            fuel: 200_000_000,
            deadline: Instant::now() + Duration::from_secs(600),
            timed_out: false,
            max_viol: 1,
            max_paths: 10_000_000,
            ifconv: 0,
            domain_unsat: 0,
            domain_sat: 0,
            prof: std::env::var("SYMEX_PROF").is_ok(),
            profile: BTreeMap::new(),
            regions: HashMap::new(),
            merge_level: 0,
            merge_budget: 5000,
            live: Default::default(),
            path_observes: vec![],
            max_alloc: 1 << 26,
            infeasible: 0,
            split0: usize::MAX,
            conc_limit: 4096,
            traces: vec![],
            split: None,
        }
    }

    // ---------- values ----------
    fn t(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.pool.cst(*c as u128, w),
            Val::S(t) => {
                debug_assert_eq!(self.pool.w(*t), w);
                *t
            }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, t: T) -> Val {
        let n = self.pool.n(t);
        if n.op == Op::Const && n.w <= 64 {
            Val::C(n.k as u64)
        } else {
            Val::S(t)
        }
    }
    fn zero(&mut self, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) if *w > 64 => {
                let t = self.pool.cst(0, *w);
                Val::S(t)
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(t);
                Val::Agg(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(ts, _) => {
                let v = ts.iter().map(|t| self.zero(t)).collect();
                Val::Agg(Rc::new(v))
            }
            Ty::Float(128) => {
                let t = self.pool.cst(0, 128);
                Val::S(t)
            }
            _ => Val::C(0),
        }
    }
    fn cst_val(&mut self, c: &Cst) -> Val {
        match c {
            Cst::Int(v, w) => {
                if *w <= 64 {
                    Val::C(*v as u64)
                } else {
                    let t = self.pool.cst(*v, *w);
                    Val::S(t)
                }
            }
            Cst::Zero(t) | Cst::Undef(t) => self.zero(t),
            Cst::Agg(v) => {
                let r = v.iter().map(|(x, _)| self.cst_val(x)).collect();
                Val::Agg(Rc::new(r))
            }
            Cst::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|&x| Val::C(x as u64)).collect())),
        }
    }
    #[inline]
    fn op(&mut self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::C(c) => Val::C(*c),
            Opnd::Reg(r) => unsafe { st.frames.last().unwrap_unchecked() }.regs[*r as usize].clone(),
            Opnd::Cst(c) => self.cst_val(c),
        }
    }

    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Result<Val, Stop> {
        match (a, b) {
            (Val::C(x), Val::C(y)) if w <= 64 => {
                let (x, y) = (*x, *y);
                let m = cbits(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::UDiv => {
                        if y == 0 {
                            return Err(Stop::Panic("division by zero (machine)".into()));
                        }
                        x / y
                    }
                    BinOp::URem => {
                        if y == 0 {
                            return Err(Stop::Panic("division by zero (machine)".into()));
                        }
                        x % y
                    }
                    BinOp::SDiv => {
                        if y == 0 {
                            return Err(Stop::Panic("division by zero (machine)".into()));
                        }
                        sx(x, w).wrapping_div(sx(y, w)) as u64
                    }
                    BinOp::SRem => {
                        if y == 0 {
                            return Err(Stop::Panic("division by zero (machine)".into()));
                        }
                        sx(x, w).wrapping_rem(sx(y, w)) as u64
                    }
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                };
                Ok(Val::C(r & m))
            }
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.bin(op, w, p, q)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                self.sym_ops += 1;
                let x = self.t(a, w);
                let y = self.t(b, w);
                let p = &mut self.pool;
                let r = match op {
                    BinOp::Add => p.add(x, y),
                    BinOp::Sub => p.sub(x, y),
                    BinOp::Mul => p.mul(x, y),
                    BinOp::UDiv => p.udiv(x, y),
                    BinOp::URem => p.urem(x, y),
                    BinOp::SDiv => p.sdiv(x, y),
                    BinOp::SRem => p.srem(x, y),
                    BinOp::Shl => p.shl(x, y),
                    BinOp::LShr => p.lshr(x, y),
                    BinOp::AShr => p.ashr(x, y),
                    BinOp::And => p.and(x, y),
                    BinOp::Or => p.or(x, y),
                    BinOp::Xor => p.xor(x, y),
                };
                Ok(self.val(r))
            }
        }
    }
    fn icmp(&mut self, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => {
                let (x, y) = (*x, *y);
                let (i, j) = (sx(x, w), sx(y, w));
                let r = match pr {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => i < j,
                    Pred::Sle => i <= j,
                    Pred::Sgt => i > j,
                    Pred::Sge => i >= j,
                };
                Val::C(r as u64)
            }
            (Val::Agg(x), Val::Agg(y)) => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.icmp(pr, w, p, q)).collect();
                Val::Agg(Rc::new(v))
            }
            _ => {
                self.sym_ops += 1;
                let x = self.t(a, w);
                let y = self.t(b, w);
                let p = &mut self.pool;
                let r = match pr {
                    Pred::Eq => p.eq(x, y),
                    Pred::Ne => {
                        let e = p.eq(x, y);
                        p.not(e)
                    }
                    Pred::Ult => p.ult(x, y),
                    Pred::Ugt => p.ult(y, x),
                    Pred::Ule => {
                        let e = p.ult(y, x);
                        p.not(e)
                    }
                    Pred::Uge => {
                        let e = p.ult(x, y);
                        p.not(e)
                    }
                    Pred::Slt => p.slt(x, y),
                    Pred::Sgt => p.slt(y, x),
                    Pred::Sle => {
                        let e = p.slt(y, x);
                        p.not(e)
                    }
                    Pred::Sge => {
                        let e = p.slt(x, y);
                        p.not(e)
                    }
                };
                self.val(r)
            }
        }
    }
    fn cast(&mut self, op: CastOp, wa: u32, wb: u32, a: &Val) -> Val {
        match a {
            Val::Agg(x) => {
                let v = x.iter().map(|p| self.cast(op, wa, wb, p)).collect();
                Val::Agg(Rc::new(v))
            }
            Val::C(c) if wb <= 64 => match op {
                CastOp::ZExt | CastOp::Same => Val::C(*c),
                CastOp::SExt => Val::C(sx(*c, wa) as u64 & cbits(wb)),
                CastOp::Trunc => Val::C(*c & cbits(wb)),
            },
            _ => {
                let t = self.t(a, wa);
                let p = &mut self.pool;
                let r = match op {
                    CastOp::ZExt => p.zext(t, wb),
                    CastOp::SExt => p.sext_t(t, wb),
                    CastOp::Trunc => p.extract(t, 0, wb),
                    CastOp::Same => t,
                };
                self.val(r)
            }
        }
    }
    fn ite(&mut self, c: T, a: &Val, b: &Val, ty: &Ty) -> Option<Val> {
        if a == b {
            return Some(a.clone());
        }
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    let et = match ty {
                        Ty::Struct(ts, _) => ts[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => Ty::Other,
                    };
                    v.push(self.ite(c, p, q, &et)?);
                }
                Some(Val::Agg(Rc::new(v)))
            }
            (Val::Agg(_), _) | (_, Val::Agg(_)) => None,
            _ => {
                let w = match (a, b) {
                    (Val::S(t), _) | (_, Val::S(t)) => self.pool.w(*t),
                    _ => {
                        let w = ty.lane_w();
                        if w == 0 {
                            return None;
                        }
                        w
                    }
                };
                let x = self.t(a, w);
                let y = self.t(b, w);
                let r = self.pool.ite(c, x, y);
                Some(self.val(r))
            }
        }
    }

    // ---------- path condition ----------
    fn add_pc(&mut self, st: &mut State, c: T) {
        let mut todo = vec![c];
        let mut rounds = 0;
        while let Some(c) = todo.pop() {
            if c == Pool::TRUE {
                continue;
            }
            let n = self.pool.n(c).clone();
            if n.op == Op::And && n.w == 1 {
                todo.push(n.b);
                todo.push(n.a);
                continue;
            }
            if st.pc.contains(&c) {
                continue;
            }
            let mut learned = vec![];
            rounds += 1;
            if rounds < 64 {
                self.pool.learn(c, &mut learned);
            }
            if !learned.is_empty() {
                let mut roots: FxMap<T, T> = FxMap::default();
                for &(a, b) in &learned {
                    roots.entry(a).or_insert(b);
                    if let Some(k) = self.pool.as_const(b) {
                        if self.pool.w(a) <= 64 {
                            st.eqs.insert(a, k as u64);
                        }
                    }
                }
                let vs = (*self.pool.varset(c)).clone();
                let mut memo = FxMap::default();
                // the rest of the path condition
                let old = std::mem::take(&mut st.pc);
                for p in old {
                    let q = self.pool.subst(p, &roots, &vs, &mut memo);
                    if q == p {
                        st.pc.push(p);
                    } else if q == Pool::FALSE {
                        st.pc.push(q);
                    } else {
                        todo.push(q);
                    }
                }
                self.subst_state(st, &roots, &vs, &mut memo);
            }
            st.pc.push(c);
            // a variable left with one value becomes that value
            let vs = self.pool.varset(c);
            let b = bits_of(&vs);
            if b.len() == 1 && self.pool.var_count(b[0]) <= tab_limit() && self.pool.var_count(b[0]) > 2 && self.pool.as_const(c).is_none() {
                let v = b[0];
                let vt = self.pool.vars[v].t;
                if c != vt && self.pool.n(c).a != vt || self.pool.n(c).op != Op::Eq {
                    let mut dom: Option<Vec<bool>> = None;
                    for i in 0..st.pc.len() {
                        let p = st.pc[i];
                        if *self.pool.varset(p) != *vs {
                            continue;
                        }
                        if let Some(t) = self.pool.table(p, v) {
                            let d = dom.get_or_insert_with(|| vec![true; t.len()]);
                            for (d, x) in d.iter_mut().zip(t.iter()) {
                                *d &= *x == 1;
                            }
                        }
                    }
                    if let Some(d) = dom {
                        let hits: Vec<usize> = (0..d.len()).filter(|&i| d[i]).collect();
                        if hits.len() == 1 {
                            let i = &self.pool.vars[v];
                            let (k, w) = ((i.lo + hits[0] as i128) as u128 & mask(i.w), i.w);
                            let k = self.pool.cst(k, w);
                            let e = self.pool.eq(vt, k);
                            if !st.pc.contains(&e) {
                                todo.push(e);
                            }
                        }
                    }
                }
            }
        }
    }
    fn subst_val(&mut self, v: &mut Val, roots: &FxMap<T, T>, vs: &[u64], memo: &mut FxMap<T, T>) {
        match v {
            Val::C(_) => {}
            Val::S(t) => {
                let r = self.pool.subst(*t, roots, vs, memo);
                if r != *t {
                    *v = self.val(r);
                }
            }
            Val::Agg(x) => {
                if x.iter().any(|y| !matches!(y, Val::C(_))) {
                    let mut n = (**x).clone();
                    for y in n.iter_mut() {
                        self.subst_val(y, roots, vs, memo);
                    }
                    if n != **x {
                        *v = Val::Agg(Rc::new(n));
                    }
                }
            }
        }
    }
    fn subst_obj(&mut self, o: &mut Rc<Obj>, roots: &FxMap<T, T>, vs: &[u64], memo: &mut FxMap<T, T>) {
        if o.sym.is_empty() || !o.alive {
            return;
        }
        let mut ch: Vec<(u32, T, u32)> = vec![];
        for (&k, &(t, n)) in &o.sym {
            let r = self.pool.subst(t, roots, vs, memo);
            if r != t {
                ch.push((k, r, n));
            }
        }
        if !ch.is_empty() {
            let m = Rc::make_mut(o);
            for (k, r, n) in ch {
                m.sym.remove(&k);
                Self::put_sym(&self.pool, m, k, r, n);
            }
        }
    }
    fn subst_state(&mut self, st: &mut State, roots: &FxMap<T, T>, vs: &[u64], memo: &mut FxMap<T, T>) {
        for fr in st.frames.iter_mut() {
            for v in fr.regs.iter_mut() {
                if !matches!(v, Val::C(_)) {
                    self.subst_val(v, roots, vs, memo);
                }
            }
        }
        for o in st.objs.iter_mut().flatten() {
            self.subst_obj(o, roots, vs, memo);
        }
        for (_, o) in st.globals.iter_mut() {
            self.subst_obj(o, roots, vs, memo);
        }
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vs: Vec<u64> = (*self.pool.varset(c)).clone();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        let sets: Vec<Rc<Vec<u64>>> = st.pc.iter().map(|&p| self.pool.varset(p)).collect();
        loop {
            let mut ch = false;
            for i in 0..st.pc.len() {
                if used[i] {
                    continue;
                }
                let s = &sets[i];
                if s.iter().zip(vs.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    ch = true;
                    out.push(st.pc[i]);
                    if s.len() > vs.len() {
                        vs.resize(s.len(), 0);
                    }
                    for (k, v) in s.iter().enumerate() {
                        vs[k] |= v;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// is pc /\ c satisfiable? Returns an updated model
    fn sat(&mut self, st: &State, c: T) -> Result<Option<Rc<Vec<u128>>>, Stop> {
        self.sat_by(st, c, true)
    }
    /// `quick`: branch feasibility may be decided by domain propagation; assertions always go to the SMT solver
    fn sat_by(&mut self, st: &State, c: T, quick: bool) -> Result<Option<Rc<Vec<u128>>>, Stop> {
        if c == Pool::FALSE {
            return Ok(None);
        }
        if c == Pool::TRUE || self.eval_model(st, c) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let nc = self.pool.not(c);
        if st.pc.contains(&nc) {
            return Ok(None);
        }
        match if quick { self.quick(st, c) } else { None } {
            Some(None) => {
                self.domain_unsat += 1;
                return Ok(None);
            }
            Some(Some(m)) => {
                self.domain_sat += 1;
                return Ok(Some(m));
            }
            None => {}
        }
        let sl = self.slice(st, c);
        let sl = self.compress(sl, c);
        let t0 = if self.prof { Some(Instant::now()) } else { None };
        let res = self.solver.check(&self.pool, &sl);
        if let Some(t) = t0 {
            let d = t.elapsed().as_secs_f64();
            let w: Vec<String> = self.where_(st).into_iter().take(3).collect();
            let k = format!("{} {}", if matches!(res, Res::Unsat) { "unsat" } else { "sat" }, w.join(" < "));
            let e = self.profile.entry(k).or_insert((0, 0.0));
            e.0 += 1;
            e.1 += d;
        }
        match res {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut v = (*st.model).clone();
                if v.len() < self.pool.vars.len() {
                    v.resize(self.pool.vars.len(), 0);
                }
                for (i, x) in m {
                    v[i] = x;
                }
                Ok(Some(Rc::new(v)))
            }
            Res::Unknown(s) => {
                self.errors.push(format!("solver unknown: {} at {}", s, self.where_(st).join(" < ")));
                Err(Stop::Unsup("solver unknown".into()))
            }
        }
    }
    /// Replace the single-variable constraints on a small-range variable by the set of values they allow
    /// (an equivalent constraint, written as a union of intervals).
    fn compress(&mut self, sl: Vec<T>, keep: T) -> Vec<T> {
        let mut out = vec![];
        let mut doms: std::collections::BTreeMap<usize, Vec<bool>> = Default::default();
        for (i, t) in sl.into_iter().enumerate() {
            let _ = i;
            let vs = self.pool.varset(t);
            let b = bits_of(&vs);
            if t != keep && b.len() == 1 && self.pool.var_count(b[0]) <= tab_limit() {
                if let Some(tab) = self.pool.table(t, b[0]) {
                    let d = doms.entry(b[0]).or_insert_with(|| vec![true; tab.len()]);
                    for (d, x) in d.iter_mut().zip(tab.iter()) {
                        *d &= *x == 1;
                    }
                    continue;
                }
            }
            out.push(t);
        }
        // comparisons inside the remaining terms that are constant on these sets
        if !doms.is_empty() {
            let mut vr: FxMap<usize, (i128, i128)> = FxMap::default();
            let mut vs: Vec<u64> = vec![];
            for (&v, d) in &doms {
                if let (Some(lo), Some(hi)) = (d.iter().position(|&b| b), d.iter().rposition(|&b| b)) {
                    let base = self.pool.vars[v].lo;
                    vr.insert(v, (base + lo as i128, base + hi as i128));
                }
                if vs.len() <= v / 64 {
                    vs.resize(v / 64 + 1, 0);
                }
                vs[v / 64] |= 1 << (v % 64);
            }
            let mut roots: FxMap<T, T> = FxMap::default();
            let mut seen: FxSet<T> = Default::default();
            // only the conditions of if-then-else terms are folded: the assertion itself is left to the solver
            let mut stack: Vec<(T, bool)> = out.iter().map(|&t| (t, false)).collect();
            while let Some((x, cond)) = stack.pop() {
                if !cond && !seen.insert(x) {
                    continue;
                }
                if cond {
                    let b = bits_of(&self.pool.varset(x));
                    if b.len() == 1 && doms.contains_key(&b[0]) {
                        if let Some(t) = self.pool.table(x, b[0]) {
                            let d = &doms[&b[0]];
                            let mut it = d.iter().zip(t.iter()).filter(|p| *p.0).map(|p| *p.1);
                            if let Some(f) = it.next() {
                                if it.all(|y| y == f) {
                                    roots.insert(x, f as T);
                                    continue;
                                }
                            }
                        }
                    } else if b.len() > 1 && b.len() < 9 && b.iter().any(|v| vr.contains_key(v)) {
                        let (u, _) = self.pool.ranges_under(x, &vr);
                        if u.0 == u.1 {
                            roots.insert(x, u.0 as T);
                            continue;
                        }
                    }
                }
                if cond {
                    stack.push((x, false));
                    continue;
                }
                let ite = if self.pool.n(x).op == Op::Ite { self.pool.n(x).a } else { 0 };
                self.pool.children(x, |c| stack.push((c, c == ite && ite != 0)));
            }
            if !roots.is_empty() {
                // FALSE and TRUE are the terms 0 and 1
                let mut memo = FxMap::default();
                let old = std::mem::take(&mut out);
                for t in old {
                    let r = self.pool.subst(t, &roots, &vs, &mut memo);
                    out.push(r);
                }
            }
        }
        for (v, d) in doms {
            let (base, w, t) = {
                let i = &self.pool.vars[v];
                (i.lo, i.w, i.t)
            };
            let mut acc = Pool::FALSE;
            let mut i = 0;
            while i < d.len() {
                if !d[i] {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j + 1 < d.len() && d[j + 1] {
                    j += 1;
                }
                // base+i <= v <= base+j, as an unsigned distance
                let lo = self.pool.cst((base + i as i128) as u128 & mask(w), w);
                let r = if i == j {
                    self.pool.eq(t, lo)
                } else {
                    let off = self.pool.sub(t, lo);
                    let n = self.pool.cst((j - i) as u128, w);
                    let gt = self.pool.ult(n, off);
                    self.pool.not(gt)
                };
                acc = self.pool.or(acc, r);
                i = j + 1;
            }
            if acc != Pool::TRUE {
                out.push(acc);
            }
        }
        out
    }
    /// Finite-domain and interval propagation for branch feasibility: `Some(None)` infeasible,
    /// `Some(Some(model))` feasible with this model, `None` undecided.
    fn quick(&mut self, st: &State, c: T) -> Option<Option<Rc<Vec<u128>>>> {
        let vs = self.pool.varset(c);
        let cv: Vec<usize> = bits_of(&vs);
        if cv.is_empty() || cv.len() > 64 {
            return None;
        }
        let psets: Vec<Rc<Vec<u64>>> = st.pc.iter().map(|&p| self.pool.varset(p)).collect();
        let mut vr: FxMap<usize, (i128, i128)> = FxMap::default();
        let mut single: Option<(usize, Vec<bool>, bool)> = None;
        for &v in &cv {
            let n = self.pool.var_count(v);
            if n > tab_limit() {
                continue;
            }
            let mut dom = vec![true; n as usize];
            let mut alone = true;
            for (i, ps) in psets.iter().enumerate() {
                if ps.get(v / 64).map_or(true, |b| b >> (v % 64) & 1 == 0) {
                    continue;
                }
                if bits_of(ps).len() == 1 {
                    match self.pool.table(st.pc[i], v) {
                        Some(t) => {
                            for (d, x) in dom.iter_mut().zip(t.iter()) {
                                *d &= *x == 1;
                            }
                        }
                        None => alone = false,
                    }
                } else {
                    alone = false;
                }
            }
            let lo = dom.iter().position(|&b| b);
            let hi = dom.iter().rposition(|&b| b);
            if let (Some(lo), Some(hi)) = (lo, hi) {
                let base = self.pool.vars[v].lo;
                vr.insert(v, (base + lo as i128, base + hi as i128));
            }
            if cv.len() == 1 {
                single = Some((v, dom, alone));
            }
        }
        if let Some((v, dom, alone)) = single {
            let t = self.pool.table(c, v)?;
            let base = self.pool.vars[v].lo;
            let w = self.pool.vars[v].w;
            let hits: Vec<usize> = (0..dom.len()).filter(|&i| dom[i] && t[i] == 1).collect();
            if hits.is_empty() {
                return Some(None);
            }
            let mk = |k: usize| -> Vec<u128> {
                let mut m = (*st.model).clone();
                if m.len() <= v {
                    m.resize(v + 1, 0);
                }
                m[v] = (base + k as i128) as u128 & mask(w);
                m
            };
            if alone {
                return Some(Some(Rc::new(mk(hits[hits.len() / 2]))));
            }
            // other constraints tie this variable to others: try some candidate values
            let step = (hits.len() / 8).max(1);
            for k in hits.iter().step_by(step) {
                let m = mk(*k);
                let mut memo = FxMap::default();
                if st.pc.iter().all(|&p| self.pool.eval(p, &m, &mut memo) == 1) {
                    return Some(Some(Rc::new(m)));
                }
            }
            return None;
        }
        if !vr.is_empty() {
            let (u, _) = self.pool.ranges_under(c, &vr);
            if u.1 == 0 {
                return Some(None);
            }
        }
        None
    }
    fn eval_model(&self, st: &State, c: T) -> u128 {
        let mut memo = FxMap::default();
        self.pool.eval(c, &st.model, &mut memo)
    }
    /// pick a concrete value for a term; siblings for the other values are queued
    fn concretize(&mut self, st: &mut State, v: &Val) -> Result<u64, Stop> {
        let t = match v {
            Val::C(c) => return Ok(*c),
            Val::S(t) => *t,
            Val::Agg(_) => return Err(Stop::Unsup("concretize aggregate".into())),
        };
        if let Some(&k) = st.eqs.get(&t) {
            return Ok(k);
        }
        let w = self.pool.w(t);
        let v = self.eval_model(st, t);
        let k = self.pool.cst(v, w);
        let e = self.pool.eq(t, k);
        let ne = self.pool.not(e);
        if let Some(m) = self.sat(st, ne)? {
            let mut o = st.clone();
            self.add_pc(&mut o, ne);
            o.model = m;
            o.depth_forks += 1;
            if o.depth_forks > self.conc_limit {
                return Err(Stop::Unsup("too many values for a concretised term".into()));
            }
            self.forks += 1;
            self.pending.push(o);
        }
        self.add_pc(st, e);
        if w <= 64 {
            st.eqs.insert(t, v as u64);
        }
        Ok(v as u64)
    }

    // ---------- memory ----------
    fn new_obj(&mut self, st: &mut State, size: u64, kind: u8, fill: u8) -> u64 {
        let id = st.objs.len() as u32;
        st.objs.push(Some(Rc::new(Obj {
            size,
            bytes: vec![fill; size as usize],
            sym: BTreeMap::new(),
            alive: true,
            writable: true,
            kind,
        })));
        ((DYN + id) as u64) << 32
    }
    fn get(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        if id >= DYN {
            if id as u64 >= FN_BASE {
                return None;
            }
            return st.objs.get((id - DYN) as usize).and_then(|o| o.clone());
        }
        if id == 0 {
            return None;
        }
        if let Some(o) = st.globals.get(&id) {
            return Some(o.clone());
        }
        if let Some(o) = self.globs.get(&id) {
            return Some(o.clone());
        }
        if id as usize > self.m.globs.len() {
            return None;
        }
        let gi = self.m.glob_init(id - 1);
        let o = Rc::new(Obj {
            size: gi.bytes.len() as u64,
            bytes: gi.bytes.clone(),
            sym: BTreeMap::new(),
            alive: true,
            writable: !gi.constant,
            kind: b'g',
        });
        self.globs.insert(id, o.clone());
        Some(o)
    }
    fn region_log(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> Result<(), Stop> {
        for k in 0..st.regions.len() {
            let fo = st.regions[k].first_obj;
            let id = (addr >> 32) as u32;
            if id >= DYN && id - DYN >= fo {
                continue; // allocated inside the region
            }
            let r = Rc::make_mut(&mut st.regions[k]);
            if r.task == 0 {
                continue;
            }
            for a in addr..addr + n {
                let e = r.log.entry(a).or_insert((r.task, write, false));
                if e.0 != r.task {
                    if write || e.1 {
                        return Err(Stop::Mem(format!(
                            "data race: parallel tasks {} and {} access the same byte (offset {}), at least one writes",
                            e.0,
                            r.task,
                            a & 0xffff_ffff
                        )));
                    }
                    e.2 = true;
                } else if write {
                    if e.2 {
                        return Err(Stop::Mem("data race: byte read by several tasks is written".into()));
                    }
                    e.1 = true;
                }
            }
        }
        Ok(())
    }
    fn check_access(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> Result<(u32, usize, Rc<Obj>), Stop> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let what = if write { "write" } else { "read" };
        let o = match self.get(st, id) {
            Some(o) => o,
            None => {
                return Err(Stop::Mem(format!(
                    "invalid pointer {} ({:#x}, {} bytes)",
                    what, addr, n
                )))
            }
        };
        if !o.alive {
            return Err(Stop::Mem(format!("{} of {} bytes in a freed object", what, n)));
        }
        if off + n > o.size {
            return Err(Stop::Mem(format!(
                "out-of-bounds {} of {} bytes at offset {} of a {}-byte {} object",
                what,
                n,
                off,
                o.size,
                match o.kind {
                    b'h' => "heap",
                    b's' => "stack",
                    _ => "static",
                }
            )));
        }
        if write && !o.writable {
            return Err(Stop::Mem("write to constant memory".into()));
        }
        if !st.regions.is_empty() {
            self.region_log(st, addr, n, write)?;
        }
        Ok((id, off as usize, o))
    }
    fn obj_mut<'b>(&mut self, st: &'b mut State, id: u32) -> &'b mut Obj {
        if id >= DYN {
            Rc::make_mut(st.objs[(id - DYN) as usize].as_mut().unwrap())
        } else {
            if !st.globals.contains_key(&id) {
                let o = self.globs.get(&id).unwrap().clone();
                st.globals.insert(id, o);
            }
            Rc::make_mut(st.globals.get_mut(&id).unwrap())
        }
    }
    /// remove symbolic overlay in [off, off+n), keeping the outside pieces
    fn clear_sym(pool: &mut Pool, o: &mut Obj, off: usize, n: usize) {
        if o.sym.is_empty() || n == 0 {
            return;
        }
        let (s, e) = (off as u32, (off + n) as u32);
        let mut hit: Vec<(u32, (T, u32))> = vec![];
        // an entry starting before s may overlap
        if let Some((&k, &v)) = o.sym.range(..s).next_back() {
            if k + v.1 > s {
                hit.push((k, v));
            }
        }
        for (&k, &v) in o.sym.range(s..e) {
            hit.push((k, v));
        }
        for (k, (t, len)) in hit {
            o.sym.remove(&k);
            if k < s {
                let x = pool.extract(t, 0, (s - k) * 8);
                Self::put_sym(pool, o, k, x, s - k);
            }
            if k + len > e {
                let x = pool.extract(t, (e - k) * 8, (k + len - e) * 8);
                Self::put_sym(pool, o, e, x, k + len - e);
            }
        }
    }
    fn put_sym(pool: &Pool, o: &mut Obj, off: u32, t: T, n: u32) {
        if let Some(c) = pool.as_const(t) {
            let by = c.to_le_bytes();
            for i in 0..n as usize {
                o.bytes[off as usize + i] = if i < 16 { by[i] } else { 0 };
            }
        } else {
            o.sym.insert(off, (t, n));
        }
    }
    fn write_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> Result<(), Stop> {
        let n = ((w + 7) / 8) as u64;
        let (id, off, o) = self.check_access(st, addr, n, true)?;
        drop(o);
        match v {
            Val::C(c) => {
                let has = {
                    let o = self.obj_mut(st, id);
                    let by = c.to_le_bytes();
                    let k = (n as usize).min(8);
                    o.bytes[off..off + k].copy_from_slice(&by[..k]);
                    !o.sym.is_empty()
                };
                if has {
                    let mut pool = std::mem::replace(&mut self.pool, Pool::empty());
                    let o = self.obj_mut(st, id);
                    Self::clear_sym(&mut pool, o, off, n as usize);
                    self.pool = pool;
                }
            }
            Val::S(t) => {
                let t = self.pool.zext(*t, n as u32 * 8);
                let mut pool = std::mem::replace(&mut self.pool, Pool::empty());
                let o = self.obj_mut(st, id);
                Self::clear_sym(&mut pool, o, off, n as usize);
                Self::put_sym(&pool, o, off as u32, t, n as u32);
                self.pool = pool;
            }
            Val::Agg(_) => return Err(Stop::Unsup("scalar store of aggregate".into())),
        }
        Ok(())
    }
    fn read_obj(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        // raw n bytes
        if o.sym.is_empty() {
            return self.read_conc(o, off, n);
        }
        let (s, e) = (off as u32, (off + n) as u32);
        let mut hit: Vec<(u32, (T, u32))> = vec![];
        if let Some((&k, &v)) = o.sym.range(..=s).next_back() {
            if k + v.1 > s {
                if k == s && v.1 == n as u32 {
                    return Val::S(v.0);
                }
                hit.push((k, v));
            }
        }
        for (&k, &v) in o.sym.range(s + 1..e) {
            hit.push((k, v));
        }
        if hit.is_empty() {
            return self.read_conc(o, off, n);
        }
        // compose little-endian
        let mut acc: Option<T> = None;
        let mut pos = s;
        let push = |pool: &mut Pool, acc: &mut Option<T>, t: T| {
            *acc = Some(match *acc {
                None => t,
                Some(a) => pool.concat(t, a),
            });
        };
        for (k, (t, len)) in hit {
            if k > pos {
                let c = self.conc_bits(o, pos as usize, (k - pos) as usize);
                push(&mut self.pool, &mut acc, c);
                pos = k;
            }
            let lo = pos - k;
            let hi = (k + len).min(e) - k;
            let x = self.pool.extract(t, lo * 8, (hi - lo) * 8);
            push(&mut self.pool, &mut acc, x);
            pos = k + hi;
        }
        if pos < e {
            let c = self.conc_bits(o, pos as usize, (e - pos) as usize);
            push(&mut self.pool, &mut acc, c);
        }
        self.val(acc.unwrap())
    }
    fn conc_bits(&mut self, o: &Obj, off: usize, n: usize) -> T {
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = (v << 8) | o.bytes[off + i] as u128;
        }
        self.pool.cst(v, n as u32 * 8)
    }
    fn read_conc(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            Val::C(u64::from_le_bytes(b))
        } else {
            let t = self.conc_bits(o, off, n);
            Val::S(t)
        }
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> Result<Val, Stop> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits() as u32;
                let n = ((w + 7) / 8) as u64;
                let (_, off, o) = self.check_access(st, addr, n, false)?;
                let v = self.read_obj(&o, off, n as usize);
                if w as u64 == n * 8 {
                    Ok(v)
                } else {
                    Ok(self.cast(CastOp::Trunc, n as u32 * 8, w, &v))
                }
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut v = vec![];
                let s = t.size();
                for i in 0..*n {
                    v.push(self.load(st, addr + i * s, t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let (o, ft) = ty.field(i as u64);
                    v.push(self.load(st, addr + o, &ft)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> Result<(), Stop> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.write_scalar(st, addr, ty.bits() as u32, v),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                if let Val::Agg(x) = v {
                    let s = t.size();
                    for i in 0..*n {
                        self.store(st, addr + i * s, t, &x[i as usize])?;
                    }
                }
                Ok(())
            }
            Ty::Struct(ts, _) => {
                if let Val::Agg(x) = v {
                    for i in 0..ts.len() {
                        let (o, ft) = ty.field(i as u64);
                        self.store(st, addr + o, &ft, &x[i])?;
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Unsup("store type".into())),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), Stop> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (_, so, src) = self.check_access(st, s, n, false)?;
        let (id, doff, dobj) = self.check_access(st, d, n, true)?;
        drop(dobj);
        let bytes = src.bytes[so..so + n as usize].to_vec();
        let mut syms: Vec<(u32, T, u32)> = vec![];
        if !src.sym.is_empty() {
            let (a, e) = (so as u32, (so + n as usize) as u32);
            let mut hit: Vec<(u32, (T, u32))> = vec![];
            if let Some((&k, &v)) = src.sym.range(..a).next_back() {
                if k + v.1 > a {
                    hit.push((k, v));
                }
            }
            for (&k, &v) in src.sym.range(a..e) {
                hit.push((k, v));
            }
            for (k, (t, len)) in hit {
                let lo = k.max(a);
                let hi = (k + len).min(e);
                let x = self.pool.extract(t, (lo - k) * 8, (hi - lo) * 8);
                syms.push((lo - a, x, hi - lo));
            }
        }
        let mut pool = std::mem::replace(&mut self.pool, Pool::empty());
        let o = self.obj_mut(st, id);
        Self::clear_sym(&mut pool, o, doff, n as usize);
        o.bytes[doff..doff + n as usize].copy_from_slice(&bytes);
        for (k, t, len) in syms {
            Self::put_sym(&pool, o, doff as u32 + k, t, len);
        }
        self.pool = pool;
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> Result<(), Stop> {
        if n == 0 {
            return Ok(());
        }
        let (id, off, o) = self.check_access(st, d, n, true)?;
        drop(o);
        let mut pool = std::mem::replace(&mut self.pool, Pool::empty());
        let o = self.obj_mut(st, id);
        Self::clear_sym(&mut pool, o, off, n as usize);
        match v {
            Val::C(c) => {
                for b in &mut o.bytes[off..off + n as usize] {
                    *b = *c as u8
                }
            }
            Val::S(t) => {
                for i in 0..n as usize {
                    o.sym.insert((off + i) as u32, (*t, 1));
                }
            }
            _ => {}
        }
        self.pool = pool;
        Ok(())
    }

    // ---------- control ----------
    fn enter(&mut self, st: &mut State, fid: u32, args: Vec<Val>, ret_dst: Option<u32>, ret_to: Option<u32>) -> Result<(), Stop> {
        if st.frames.len() > 400 {
            return Err(Stop::Mem("stack overflow (call depth > 400)".into()));
        }
        let f = self.m.func(fid);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, (r, _)) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*r as usize] = args[i].clone();
            }
        }
        let nb = f.blocks.len();
        let c = self.cover.entry(fid).or_insert_with(|| vec![false; nb]);
        c[0] = true;
        st.frames.push(Frame { f, regs, blk: 0, ip: 0, ret_dst, ret_to, allocas: vec![] });
        Ok(())
    }
    /// The loop-free region of side-effect-free blocks between a branch and its immediate post-dominator,
    /// in topological order; None when there is no such region.
    fn pure_region(&mut self, f: &Rc<Func>, blk: u32) -> Option<Rc<Vec<u32>>> {
        if let Some(r) = self.regions.get(&(f.id, blk)) {
            return r.clone();
        }
        let r = self.find_region(f, blk).map(Rc::new);
        self.regions.insert((f.id, blk), r.clone());
        r
    }
    fn find_region(&self, f: &Rc<Func>, blk: u32) -> Option<Vec<u32>> {
        let end = f.ipdom[blk as usize];
        if end == u32::MAX || end == blk {
            return None;
        }
        let succs = |b: u32| -> Option<Vec<u32>> {
            match &f.blocks[b as usize].ins.last()?.0 {
                I::Br(x) => Some(vec![*x]),
                I::CondBr(_, x, y) => Some(vec![*x, *y]),
                _ => None,
            }
        };
        // depth-first, refusing cycles
        let mut order = vec![];
        let mut state: HashMap<u32, u8> = HashMap::new();
        let mut stack: Vec<(u32, Vec<u32>)> = vec![(blk, succs(blk)?)];
        while let Some((b, ss)) = stack.last_mut() {
            if let Some(s) = ss.pop() {
                if s == end {
                    continue;
                }
                if s == blk {
                    return None;
                }
                match state.get(&s) {
                    Some(1) => return None,
                    Some(_) => continue,
                    None => {}
                }
                if state.len() >= 16 {
                    return None;
                }
                let n = f.blocks[s as usize].ins.len();
                for (i, _) in &f.blocks[s as usize].ins[..n - 1] {
                    let ok = match i {
                        I::Bin(op, _, _, _, y) => match op {
                            BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => matches!(y, Opnd::C(k) if *k != 0),
                            _ => true,
                        },
                        I::Icmp(..) | I::Select(..) | I::Cast(..) | I::Nop | I::Copy(..) | I::Gep(..) => true,
                        I::ExtractValue(..) | I::InsertValue(..) => true,
                        I::Call(_, Callee::Fn(id), _, _, None) => {
                            let n = &self.m.fns[*id as usize].name;
                            ["llvm.smax.", "llvm.smin.", "llvm.umax.", "llvm.umin.", "llvm.abs.", "llvm.fsh", "llvm.ctpop.", "llvm.bswap."]
                                .iter()
                                .any(|p| n.starts_with(p))
                        }
                        _ => false,
                    };
                    if !ok {
                        return None;
                    }
                }
                state.insert(s, 1);
                stack.push((s, succs(s)?));
            } else {
                let b = *b;
                stack.pop();
                if b != blk {
                    state.insert(b, 2);
                    order.push(b);
                }
            }
        }
        order.reverse();
        Some(order)
    }
    /// Execute both sides of a branch over a side-effect-free region, joining the values with ite terms.
    fn if_convert(&mut self, st: &mut State, c: T, ta: u32, tb: u32) -> Result<bool, Stop> {
        let fr = st.frames.last().unwrap();
        let (f, blk, ip) = (fr.f.clone(), fr.blk, fr.ip);
        let region = match self.pure_region(&f, blk) {
            Some(r) => r,
            None => return Ok(false),
        };
        let end = f.ipdom[blk as usize];
        let mut edges: Vec<(u32, u32, T)> = vec![];
        let nc = self.pool.not(c);
        edges.push((blk, ta, c));
        edges.push((blk, tb, nc));
        let mut newregs: Vec<(u32, Val)> = vec![];
        for k in 0..=region.len() {
            let b = if k < region.len() { region[k] } else { end };
            let inc: Vec<(u32, T)> = edges.iter().filter(|e| e.1 == b && e.2 != Pool::FALSE).map(|e| (e.0, e.2)).collect();
            if inc.is_empty() {
                if b == end {
                    return Ok(false);
                }
                continue;
            }
            let bl = &f.blocks[b as usize];
            let mut vals = vec![];
            for (pi, (d, ins)) in bl.phis.iter().enumerate() {
                let mut acc: Option<Val> = None;
                for (from, g) in inc.iter().rev() {
                    let o = &ins.iter().find(|x| x.0 == *from).unwrap().1;
                    let v = self.op(st, o);
                    acc = Some(match acc {
                        None => v,
                        Some(a) => {
                            let w = bl.phiw[pi];
                            let r = match (&v, &a) {
                                (x, y) if x == y => Some(v.clone()),
                                (Val::Agg(_), _) | (_, Val::Agg(_)) => None,
                                _ if w == 0 => None,
                                _ => {
                                    let x = self.t(&v, w);
                                    let y = self.t(&a, w);
                                    let t = self.pool.ite(*g, x, y);
                                    Some(self.val(t))
                                }
                            };
                            match r {
                                Some(r) => r,
                                None => return Ok(false),
                            }
                        }
                    });
                }
                // a pointer that depends on the condition is better forked on
                let v = acc.unwrap();
                if b == end && bl.phiw[pi] == 64 && matches!(v, Val::S(_)) && self.merge_level < 2 {
                    return Ok(false);
                }
                vals.push((*d, v));
            }
            if b == end {
                newregs = vals;
                break;
            }
            for (d, v) in vals {
                st.frames.last_mut().unwrap().regs[d as usize] = v;
            }
            let mut g = Pool::FALSE;
            for (_, x) in &inc {
                g = self.pool.or(g, *x);
            }
            let n = bl.ins.len();
            for (i, _) in &bl.ins[..n - 1] {
                match self.exec(st, i)? {
                    Flow::Next => {}
                    _ => unreachable!(),
                }
            }
            st.steps += n as u64;
            match &bl.ins[n - 1].0 {
                I::Br(x) => edges.push((b, *x, g)),
                I::CondBr(cc, x, y) => {
                    let v = self.op(st, cc);
                    let t = self.t(&v, 1);
                    let nt = self.pool.not(t);
                    let gx = self.pool.and(g, t);
                    let gy = self.pool.and(g, nt);
                    edges.push((b, *x, gx));
                    edges.push((b, *y, gy));
                }
                _ => unreachable!(),
            }
            if let Some(c) = self.cover.get_mut(&f.id) {
                c[b as usize] = true;
            }
        }
        debug_assert!(st.frames.last().unwrap().ip == ip);
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in newregs {
            fr.regs[d as usize] = v;
        }
        fr.blk = end;
        fr.ip = 0;
        if let Some(c) = self.cover.get_mut(&f.id) {
            c[end as usize] = true;
        }
        self.ifconv += 1;
        Ok(true)
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc
                    .iter()
                    .find(|(l, _)| *l == from)
                    .unwrap_or_else(|| panic!("phi without predecessor in {}", f.name));
                let v = self.op(st, &o.1);
                vals.push((*d, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        let fid = f.id;
        if let Some(c) = self.cover.get_mut(&fid) {
            c[to as usize] = true;
        }
    }
    pub fn where_(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.blk as usize];
            let dbg = b.ins.get(fr.ip as usize).map(|x| x.1).unwrap_or(0);
            if dbg != 0 && self.m.fns[fr.f.id as usize].hdr.0 < self.split0 {
                for (n, f, l) in self.m.locs(dbg) {
                    if f.contains("/rustc/") || f.contains("rustlib") {
                        continue;
                    }
                    out.push(format!("{} ({}:{})", short_name(&n), f, l));
                }
            } else {
                out.push(short_name(&fr.f.name));
            }
            if out.len() > 14 {
                break;
            }
        }
        out
    }
    fn input_values(&self, st: &State) -> (Vec<u64>, Vec<u32>) {
        let mut memo = FxMap::default();
        (
            st.inputs
                .iter()
                .map(|(i, _)| match i {
                    Inp::C(c) => *c,
                    Inp::V(t) => self.pool.eval(*t, &st.model, &mut memo) as u64,
                })
                .collect(),
            st.inputs.iter().map(|x| x.1).collect(),
        )
    }
    fn record(&mut self, st: &State, kind: &str, id: i64, msg: String) {
        let stack = self.where_(st);
        // one report per (kind, id, innermost location)
        let key = (kind.to_string(), id, stack.first().cloned().unwrap_or_default());
        if self.violations.iter().any(|v| (v.kind.clone(), v.id, v.stack.first().cloned().unwrap_or_default()) == key) {
            return;
        }
        let (inputs, widths) = self.input_values(st);
        self.violations.push(Violation { kind: kind.into(), id, msg, stack, inputs, widths });
    }

    fn exec(&mut self, st: &mut State, ins: &I) -> Result<Flow, Stop> {
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.frames.last_mut().unwrap().regs[$d as usize] = v;
            }};
        }
        match ins {
            I::Bin(op, w, d, a, b) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                // symbolic shift amounts / divisors
                match op {
                    BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                        if let (Val::S(_), false) = (&y, matches!(x, Val::Agg(_))) {
                            let k = self.concretize(st, &y)?;
                            let r = self.bin(*op, *w, &x, &Val::C(k))?;
                            set!(*d, r);
                            return Ok(Flow::Next);
                        }
                    }
                    BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => {
                        if let Val::S(t) = &y {
                            // division by zero is undefined behaviour at this level: a path of its own
                            let z = self.pool.cst(0, *w);
                            let e = self.pool.eq(*t, z);
                            if let Some(m) = self.sat(st, e)? {
                                let mut o = st.clone();
                                o.model = m;
                                self.record(&o, "panic", -1, "division by zero".into());
                            }
                            let ne = self.pool.not(e);
                            match self.sat(st, ne)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    st.model = m;
                                    self.add_pc(st, ne);
                                }
                            }
                        }
                    }
                    _ => {}
                }
                let r = self.bin(*op, *w, &x, &y)?;
                set!(*d, r);
            }
            I::Icmp(p, w, d, a, b) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = self.icmp(*p, *w, &x, &y);
                set!(*d, r);
            }
            I::Select(d, c, a, b, ty) => {
                let c = self.op(st, c);
                match c {
                    Val::C(k) => {
                        let r = if k == 1 { self.op(st, a) } else { self.op(st, b) };
                        set!(*d, r);
                    }
                    Val::S(t) => {
                        let x = self.op(st, a);
                        let y = self.op(st, b);
                        // pointers are kept concrete: fork on the condition
                        if matches!(ty, Ty::Ptr) && x != y {
                            let k = self.concretize(st, &Val::S(t))?;
                            set!(*d, if k == 1 { x } else { y });
                        } else {
                            match self.ite(t, &x, &y, ty) {
                                Some(r) => set!(*d, r),
                                None => return Err(Stop::Unsup("select".into())),
                            }
                        }
                    }
                    Val::Agg(cs) => {
                        let x = self.op(st, a);
                        let y = self.op(st, b);
                        if let (Val::Agg(x), Val::Agg(y)) = (x, y) {
                            let mut v = vec![];
                            let et = match ty {
                                Ty::Vec(_, t) => (**t).clone(),
                                _ => Ty::Other,
                            };
                            for i in 0..cs.len() {
                                let r = match &cs[i] {
                                    Val::C(1) => x[i].clone(),
                                    Val::C(_) => y[i].clone(),
                                    Val::S(t) => self.ite(*t, &x[i], &y[i], &et).unwrap(),
                                    _ => unreachable!(),
                                };
                                v.push(r);
                            }
                            set!(*d, Val::Agg(Rc::new(v)));
                        }
                    }
                }
            }
            I::Cast(op, d, wa, wb, a) => {
                let x = self.op(st, a);
                let r = self.cast(*op, *wa, *wb, &x);
                set!(*d, r);
            }
            I::Load(d, ty, a) => {
                let p = self.op(st, a);
                let p = self.concretize(st, &p)?;
                let v = self.load(st, p, ty)?;
                set!(*d, v);
            }
            I::Store(ty, v, a) => {
                let p = self.op(st, a);
                let p = self.concretize(st, &p)?;
                let v = self.op(st, v);
                self.store(st, p, ty, &v)?;
            }
            I::Gep(d, base, off, terms) => {
                let b = self.op(st, base);
                match b {
                    Val::C(b) => {
                        let mut acc = b.wrapping_add(*off as u64);
                        let mut symacc: Option<T> = None;
                        for (o, w, sc) in terms {
                            match self.op(st, o) {
                                Val::C(k) => acc = acc.wrapping_add((sx(k, *w) as u64).wrapping_mul(*sc)),
                                Val::S(t) => {
                                    let t = if *w < 64 { self.pool.sext_t(t, 64) } else { t };
                                    let m = self.pool.mulc(t, *sc as u128);
                                    symacc = Some(match symacc {
                                        None => m,
                                        Some(s) => self.pool.add(s, m),
                                    });
                                }
                                _ => return Err(Stop::Unsup("gep vector".into())),
                            }
                        }
                        match symacc {
                            None => set!(*d, Val::C(acc)),
                            Some(s) => {
                                let c = self.pool.cst(acc as u128, 64);
                                let r = self.pool.add(c, s);
                                let r = self.val(r);
                                set!(*d, r)
                            }
                        }
                    }
                    Val::S(b) => {
                        let c = self.pool.cst(*off as u64 as u128, 64);
                        let mut acc = self.pool.add(b, c);
                        for (o, w, sc) in terms {
                            let v = self.op(st, o);
                            let t = self.t(&v, *w);
                            let t = if *w < 64 { self.pool.sext_t(t, 64) } else { t };
                            let m = self.pool.mulc(t, *sc as u128);
                            acc = self.pool.add(acc, m);
                        }
                        let r = self.val(acc);
                        set!(*d, r);
                    }
                    _ => return Err(Stop::Unsup("gep vector".into())),
                }
            }
            I::Alloca(d, size, n) => {
                let n = self.op(st, n);
                let n = self.concretize(st, &n)?;
                let a = self.new_obj(st, size * n, b's', 0xAA);
                let id = (a >> 32) as u32 - DYN;
                st.frames.last_mut().unwrap().allocas.push(id);
                set!(*d, Val::C(a));
            }
            I::Br(l) => {
                self.jump(st, *l);
                return Ok(Flow::Jumped);
            }
            I::CondBr(c, a, b) => {
                let c = self.op(st, c);
                let t = match c {
                    Val::C(k) => {
                        self.jump(st, if k == 1 { *a } else { *b });
                        return Ok(Flow::Jumped);
                    }
                    Val::S(t) => t,
                    _ => return Err(Stop::Unsup("br".into())),
                };
                if a == b {
                    self.jump(st, *a);
                    return Ok(Flow::Jumped);
                }
                let nt = self.pool.not(t);
                if st.pc.contains(&t) {
                    self.jump(st, *a);
                    return Ok(Flow::Jumped);
                }
                if st.pc.contains(&nt) {
                    self.jump(st, *b);
                    return Ok(Flow::Jumped);
                }
                if self.merge_level > 0 && self.if_convert(st, t, *a, *b)? {
                    return Ok(Flow::Jumped);
                }
                let mv = self.eval_model(st, t) == 1;
                let (cur, other, curl, otherl) = if mv { (t, nt, *a, *b) } else { (nt, t, *b, *a) };
                match self.sat(st, other)? {
                    None => {
                        self.jump(st, curl);
                        Ok::<(), Stop>(())?;
                        return Ok(Flow::Jumped);
                    }
                    Some(m) => {
                        let fr = st.frames.last().unwrap();
                        let mp = fr.f.ipdom[fr.blk as usize];
                        let depth = st.frames.len();
                        let mut o = st.clone();
                        o.model = m;
                        self.add_pc(&mut o, other);
                        self.jump(&mut o, otherl);
                        self.add_pc(st, cur);
                        self.jump(st, curl);
                        self.forks += 1;
                        return Ok(Flow::Fork(Box::new(o), Some((depth, mp))));
                    }
                }
            }
            I::Switch(v, w, def, cases) => {
                let x = self.op(st, v);
                let t = match x {
                    Val::C(k) => {
                        let l = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, l);
                        return Ok(Flow::Jumped);
                    }
                    Val::S(t) => t,
                    _ => return Err(Stop::Unsup("switch".into())),
                };
                // fork on each case in turn (re-executing the switch)
                for (c, l) in cases {
                    let k = self.pool.cst(*c as u128, *w);
                    let e = self.pool.eq(t, k);
                    if e == Pool::FALSE {
                        continue;
                    }
                    let ne = self.pool.not(e);
                    if st.pc.contains(&ne) {
                        continue;
                    }
                    let s_e = self.sat(st, e)?;
                    if s_e.is_none() {
                        continue;
                    }
                    let s_n = self.sat(st, ne)?;
                    if let Some(m) = s_n {
                        let mut o = st.clone();
                        o.model = m;
                        self.add_pc(&mut o, ne);
                        self.forks += 1;
                        self.pending.push(o);
                    }
                    st.model = s_e.unwrap();
                    self.add_pc(st, e);
                    self.jump(st, *l);
                    return Ok(Flow::Jumped);
                }
                self.jump(st, *def);
                return Ok(Flow::Jumped);
            }
            I::Ret(v) => {
                let r = match v {
                    None => None,
                    Some((_, o)) => Some(self.op(st, o)),
                };
                let fr = st.frames.pop().unwrap();
                for id in fr.allocas {
                    st.objs[id as usize] = None;
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let top = st.frames.last_mut().unwrap();
                if let (Some(d), Some(v)) = (fr.ret_dst, r) {
                    top.regs[d as usize] = v;
                }
                match fr.ret_to {
                    None => top.ip += 1,
                    Some(l) => self.jump(st, l),
                }
                return Ok(Flow::Jumped);
            }
            I::Unreachable => return Err(Stop::Mem("unreachable code executed (undefined behaviour)".into())),
            I::Call(d, callee, args, rt, normal) => {
                let fid = match callee {
                    Callee::Fn(k) => *k,
                    Callee::Ind(o) => {
                        let p = self.op(st, o);
                        let p = self.concretize(st, &p)?;
                        if p < FN_BASE << 32 || (p >> 32) - FN_BASE >= self.m.fns.len() as u64 || p & 0xffff_ffff != 0 {
                            return Err(Stop::Mem(format!("call of invalid function pointer {:#x}", p)));
                        }
                        ((p >> 32) - FN_BASE) as u32
                    }
                };
                let b = self.builtin(fid);
                if b == B::None {
                    if !self.m.fns[fid as usize].defined {
                        return Err(Stop::Unsup(format!("external function {}", self.m.fns[fid as usize].name)));
                    }
                    let mut av = Vec::with_capacity(args.len());
                    for a in args {
                        let mut v = self.op(st, &a.v);
                        if a.byval > 0 {
                            let p = self.concretize(st, &v)?;
                            let q = self.new_obj(st, a.byval, b's', 0xAA);
                            self.memcpy(st, q, p, a.byval)?;
                            v = Val::C(q);
                        }
                        av.push(v);
                    }
                    self.enter(st, fid, av, *d, *normal)?;
                    return Ok(Flow::Jumped);
                }
                let r = self.call_builtin(st, b, fid, args, rt, *d)?;
                match r {
                    BR::Val(v) => {
                        if let (Some(d), Some(v)) = (d, v) {
                            set!(*d, v);
                        }
                    }
                    BR::Fork(vs) => {
                        // one state per value
                        let d = d.unwrap();
                        let n = vs.len();
                        for (i, v) in vs.into_iter().enumerate().rev() {
                            if i == 0 {
                                let fr = st.frames.last_mut().unwrap();
                                fr.regs[d as usize] = Val::C(v);
                                st.inputs.push((Inp::C(v), 64));
                            } else {
                                let mut o = st.clone();
                                let fr = o.frames.last_mut().unwrap();
                                fr.regs[d as usize] = Val::C(v);
                                match normal {
                                    None => fr.ip += 1,
                                    Some(l) => self.jump(&mut o, *l),
                                }
                                o.inputs.push((Inp::C(v), 64));
                                self.pending.push(o);
                            }
                        }
                        self.forks += n as u64 - 1;
                    }
                }
                if let Some(l) = normal {
                    self.jump(st, *l);
                    return Ok(Flow::Jumped);
                }
            }
            I::ExtractValue(d, a, idx) => {
                let mut v = self.op(st, a);
                for i in idx {
                    v = match v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Unsup("extractvalue".into())),
                    };
                }
                set!(*d, v);
            }
            I::InsertValue(d, a, v, idx, _) => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                fn ins(x: Val, y: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() {
                        return y;
                    }
                    if let Val::Agg(mut a) = x {
                        let v = Rc::make_mut(&mut a);
                        let old = v[idx[0] as usize].clone();
                        v[idx[0] as usize] = ins(old, y, &idx[1..]);
                        Val::Agg(a)
                    } else {
                        panic!("insertvalue")
                    }
                }
                set!(*d, ins(x, y, idx));
            }
            I::ExtractElement(d, a, i) => {
                let x = self.op(st, a);
                let k = self.op(st, i);
                let k = self.concretize(st, &k)?;
                if let Val::Agg(x) = x {
                    set!(*d, x[k as usize].clone());
                }
            }
            I::InsertElement(d, a, v, i, _) => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                let k = self.op(st, i);
                let k = self.concretize(st, &k)?;
                if let Val::Agg(mut x) = x {
                    Rc::make_mut(&mut x)[k as usize] = y;
                    set!(*d, Val::Agg(x));
                }
            }
            I::Shuffle(d, a, b, mask, n1) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                if let (Val::Agg(x), Val::Agg(y)) = (x, y) {
                    let v = mask
                        .iter()
                        .map(|&m| {
                            if m < 0 {
                                Val::C(0)
                            } else if (m as u64) < *n1 {
                                x[m as usize].clone()
                            } else {
                                y[m as usize - *n1 as usize].clone()
                            }
                        })
                        .collect();
                    set!(*d, Val::Agg(Rc::new(v)));
                }
            }
            I::AtomicRmw(op, d, a, ty, v) => {
                let p = self.op(st, a);
                let p = self.concretize(st, &p)?;
                let regs = std::mem::take(&mut st.regions);
                let old = self.load(st, p, ty)?;
                let v = self.op(st, v);
                let w = ty.bits() as u32;
                let n = match op.as_str() {
                    "add" => self.bin(BinOp::Add, w, &old, &v)?,
                    "sub" => self.bin(BinOp::Sub, w, &old, &v)?,
                    "or" => self.bin(BinOp::Or, w, &old, &v)?,
                    "and" => self.bin(BinOp::And, w, &old, &v)?,
                    "xor" => self.bin(BinOp::Xor, w, &old, &v)?,
                    "xchg" => v,
                    "max" | "min" | "umax" | "umin" => {
                        let p = match op.as_str() {
                            "max" => Pred::Sgt,
                            "min" => Pred::Slt,
                            "umax" => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(p, w, &old, &v);
                        if self.concretize(st, &c)? == 1 {
                            old.clone()
                        } else {
                            v
                        }
                    }
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, p, ty, &n)?;
                st.regions = regs;
                set!(*d, old);
            }
            I::CmpXchg(d, a, ty, e, n) => {
                let p = self.op(st, a);
                let p = self.concretize(st, &p)?;
                let regs = std::mem::take(&mut st.regions);
                let old = self.load(st, p, ty)?;
                let e = self.op(st, e);
                let n = self.op(st, n);
                let w = ty.bits() as u32;
                let c = self.icmp(Pred::Eq, w, &old, &e);
                let k = self.concretize(st, &c)?;
                if k == 1 {
                    self.store(st, p, ty, &n)?;
                }
                st.regions = regs;
                set!(*d, Val::Agg(Rc::new(vec![old, Val::C(k)])));
            }
            I::Fp(op, wa, wb, d, a, b) => {
                let a = self.op(st, a);
                let a = self.concretize(st, &a)?;
                let b = self.op(st, b);
                let b = self.concretize(st, &b)?;
                let r = fp(op, *wa, *wb, a, b).ok_or_else(|| Stop::Unsup(format!("floating point {}", op)))?;
                set!(*d, Val::C(r));
            }
            I::VCast(d, n1, w1, n2, w2, a) => {
                let a = self.op(st, a);
                let lanes: Vec<Val> = match (&a, n1) {
                    (_, 0) => vec![a.clone()],
                    (Val::Agg(v), _) => v.to_vec(),
                    _ => return Err(Stop::Unsup("vector bitcast".into())),
                };
                let mut all: Option<T> = None;
                for l in &lanes {
                    let t = self.t(l, *w1);
                    all = Some(match all {
                        None => t,
                        Some(x) => self.pool.concat(t, x),
                    });
                }
                let all = all.unwrap();
                if *n2 == 0 {
                    let r = self.val(all);
                    set!(*d, r);
                } else {
                    let mut v = vec![];
                    for k in 0..*n2 {
                        let t = self.pool.extract(all, k as u32 * w2, *w2);
                        v.push(self.val(t));
                    }
                    set!(*d, Val::Agg(Rc::new(v)));
                }
            }
            I::Nop => {}
            I::Copy(d, a) => {
                let v = self.op(st, a);
                set!(*d, v);
            }
            I::Unsupported(s) => return Err(Stop::Unsup(s.clone())),
        }
        Ok(Flow::Next)
    }

    fn builtin(&mut self, fid: u32) -> B {
        let b = self.builtins[fid as usize];
        if b != B::NotYet {
            return b;
        }
        let fi = &self.m.fns[fid as usize];
        let n: &str = &fi.name;
        let b = match n {
            "malloc" => B::Alloc,
            "_Znwm" | "_Znam" => B::OpNew,
            "calloc" => B::AllocZ,
            "realloc" => B::Realloc,
            "free" | "_ZdlPv" | "_ZdaPv" | "_ZdlPvm" => B::Free,
            "posix_memalign" => B::Memalign,
            "bcmp" => B::Bcmp,
            "memcmp" => B::Memcmp,
            "abort" => B::Panic,
            "__sym_u" => B::SymU,
            "__sym_i" => B::SymI,
            "__sym_bytes" => B::SymBytes,
            "__sym_assume" => B::Assume,
            "__sym_check" => B::Check,
            "__sym_choose" => B::Choose,
            "__sym_param" => B::Param,
            "__sym_reach" => B::Reach,
            "__sym_observe" => B::Observe,
            "__sym_allow_panic" => B::AllowPanic,
            "__sym_concretize" => B::Conc,
            "__sym_is_symbolic" => B::IsSym,
            "__sym_par_begin" => B::ParBegin,
            "__sym_par_task" => B::ParTask,
            "__sym_par_end" => B::ParEnd,
            "__cxa_guard_acquire" => B::CxaGuard,
            "__cxa_guard_release" | "__cxa_atexit" => B::Ignore,
            // no environment variables, a clock that stands still, fixed "random" hash keys; text output goes nowhere
            "sqrt" | "floor" | "ceil" | "trunc" | "round" | "log2" | "log10" | "log" | "exp" | "exp2" | "pow" | "fmod" => B::Libm,
            "getenv" => B::Ignore,
            "clock_gettime" => B::Clock,
            "getrandom" => B::Random,
            "write" => B::Written,
            // destructors of thread-locals run after everything that is observed
            "__cxa_thread_atexit_impl" => B::Ignore,
            _ if n.starts_with("llvm.") => B::Intr,
            _ if n.contains("5alloc3fmt6format12format_inner") => B::FormatInner,
            _ if n.contains("9panicking") || n.contains("std16begin_panic") || n.contains("rust_begin_unwind") => B::Panic,
            _ if n.starts_with("_ZSt") && n.contains("__throw") => B::Panic,
            _ if n.contains("handle_alloc_error") => B::AllocFail,
            _ if n.contains("__rust_no_alloc_shim_is_unstable") => B::Ignore,
            _ => B::None,
        };
        self.builtins[fid as usize] = b;
        b
    }

    fn fresh(&mut self, st: &mut State, w: u32, lo: i128, hi: i128, signed: bool) -> T {
        let k = st.inputs.len() as u32;
        let key = (k, w, lo, hi, signed);
        let t = match self.vars_by_key.get(&key) {
            Some(&t) => t,
            None => {
                let t = self.pool.var(format!("in{}", k), w, lo, hi, signed);
                self.vars_by_key.insert(key, t);
                t
            }
        };
        let idx = self.pool.n(t).k as usize;
        let m = Rc::make_mut(&mut st.model);
        if m.len() <= idx {
            m.resize(idx + 1, 0);
        }
        let def = if lo <= 0 && hi >= 0 { 0 } else { lo };
        m[idx] = def as u128 & mask(w);
        st.inputs.push((Inp::V(t), w));
        t
    }

    fn call_builtin(&mut self, st: &mut State, b: B, fid: u32, args: &[CallArg], rt: &Ty, dst: Option<u32>) -> Result<BR, Stop> {
        let mut a: Vec<Val> = Vec::with_capacity(args.len());
        for x in args {
            a.push(self.op(st, &x.v));
        }
        let _ = dst;
        macro_rules! conc {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.concretize(st, &v)?
            }};
        }
        let none = Ok(BR::Val(None));
        match b {
            B::Panic => Err(Stop::Panic(short_name(&self.m.fns[fid as usize].name))),
            B::AllocFail => Err(Stop::Panic("allocation failure".into())),
            B::Alloc | B::OpNew => {
                let n = conc!(0);
                if n > self.max_alloc {
                    return Err(Stop::Panic(format!("allocation of {} bytes", n)));
                }
                Ok(BR::Val(Some(Val::C(self.new_obj(st, n, b'h', 0xAA)))))
            }
            B::AllocZ => {
                let n = conc!(0).wrapping_mul(conc!(1));
                if n > self.max_alloc {
                    return Err(Stop::Panic(format!("allocation of {} bytes", n)));
                }
                Ok(BR::Val(Some(Val::C(self.new_obj(st, n, b'h', 0)))))
            }
            B::Realloc => {
                let p = conc!(0);
                let n = conc!(1);
                if n > self.max_alloc {
                    return Err(Stop::Panic(format!("allocation of {} bytes", n)));
                }
                let q = self.new_obj(st, n, b'h', 0xAA);
                if p != 0 {
                    let old = match self.get(st, (p >> 32) as u32) {
                        Some(o) if o.alive => o.size,
                        _ => return Err(Stop::Mem("realloc of invalid pointer".into())),
                    };
                    self.memcpy(st, q, p, old.min(n))?;
                    st.objs[((p >> 32) as u32 - DYN) as usize] = None;
                }
                Ok(BR::Val(Some(Val::C(q))))
            }
            B::Free => {
                let p = conc!(0);
                if p != 0 {
                    let id = (p >> 32) as u32;
                    match self.get(st, id) {
                        Some(o) if o.alive && o.kind == b'h' && p & 0xffff_ffff == 0 => {}
                        _ => return Err(Stop::Mem("invalid or double free".into())),
                    }
                    st.objs[(id - DYN) as usize] = None;
                }
                none
            }
            B::Memalign => {
                let pp = conc!(0);
                let n = conc!(2);
                if n > self.max_alloc {
                    return Err(Stop::Panic(format!("allocation of {} bytes", n)));
                }
                let q = self.new_obj(st, n, b'h', 0xAA);
                self.write_scalar(st, pp, 64, &Val::C(q))?;
                Ok(BR::Val(Some(Val::C(0))))
            }
            B::Bcmp | B::Memcmp => {
                let (p, q, n) = (conc!(0), conc!(1), conc!(2));
                if n == 0 {
                    return Ok(BR::Val(Some(Val::C(0))));
                }
                let (_, o1, x) = self.check_access(st, p, n, false)?;
                let (_, o2, y) = self.check_access(st, q, n, false)?;
                let mut res = self.pool.cst(0, 32);
                for i in (0..n as usize).rev() {
                    let u = self.read_obj(&x, o1 + i, 1);
                    let v = self.read_obj(&y, o2 + i, 1);
                    let ut = self.t(&u, 8);
                    let vt = self.t(&v, 8);
                    let e = self.pool.eq(ut, vt);
                    let d = if b == B::Bcmp {
                        self.pool.cst(1, 32)
                    } else {
                        let a = self.pool.zext(ut, 32);
                        let c = self.pool.zext(vt, 32);
                        self.pool.sub(a, c)
                    };
                    res = self.pool.ite(e, res, d);
                }
                Ok(BR::Val(Some(self.val(res))))
            }
            B::FormatInner => {
                let p = conc!(0);
                self.write_scalar(st, p, 64, &Val::C(0))?;
                self.write_scalar(st, p + 8, 64, &Val::C(1))?;
                self.write_scalar(st, p + 16, 64, &Val::C(0))?;
                none
            }
            B::Libm => {
                let x = conc!(0);
                let y = if a.len() > 1 { conc!(1) } else { 0 };
                let n = match &*self.m.fns[fid as usize].name {
                    "fmod" => "frem".to_string(),
                    n => n.to_string(),
                };
                let r = fp(&n, 64, 64, x, y).ok_or_else(|| Stop::Unsup(n))?;
                Ok(BR::Val(Some(Val::C(r))))
            }
            B::Clock => {
                let p = conc!(1);
                self.write_scalar(st, p, 64, &Val::C(1000))?;
                self.write_scalar(st, p + 8, 64, &Val::C(0))?;
                Ok(BR::Val(Some(Val::C(0))))
            }
            B::Random => {
                let (p, n) = (conc!(0), conc!(1));
                for i in 0..n {
                    self.write_scalar(st, p + i, 8, &Val::C(0x5d ^ i))?;
                }
                Ok(BR::Val(Some(Val::C(n))))
            }
            B::Written => {
                let (p, n) = (conc!(1), conc!(2));
                if n > 0 {
                    self.check_access(st, p, n, false)?;
                }
                Ok(BR::Val(Some(Val::C(n))))
            }
            B::Ignore => Ok(BR::Val(Some(Val::C(0)))),
            B::CxaGuard => Ok(BR::Val(Some(Val::C(1)))),
            B::SymU | B::SymI => {
                let w = conc!(0) as u32;
                let lo = conc!(1);
                let hi = conc!(2);
                if let Some(c) = &self.concrete {
                    let v = *c.get(st.inputs.len()).ok_or_else(|| Stop::Unsup("not enough concrete inputs".into()))?;
                    st.inputs.push((Inp::C(v), w));
                    let r = if b == B::SymU { v & cbits(w) } else { sx(v, w) as u64 };
                    return Ok(BR::Val(Some(Val::C(r))));
                }
                if b == B::SymU {
                    if lo == hi {
                        st.inputs.push((Inp::C(lo), w));
                        return Ok(BR::Val(Some(Val::C(lo))));
                    }
                    let t = self.fresh(st, w, lo as i128, hi as i128, false);
                    let z = self.pool.zext(t, 64);
                    Ok(BR::Val(Some(self.val(z))))
                } else {
                    if lo == hi {
                        st.inputs.push((Inp::C(lo & cbits(w)), w));
                        return Ok(BR::Val(Some(Val::C(lo))));
                    }
                    let t = self.fresh(st, w, lo as i64 as i128, hi as i64 as i128, true);
                    let z = self.pool.sext_t(t, 64);
                    Ok(BR::Val(Some(self.val(z))))
                }
            }
            B::SymBytes => {
                let p = conc!(0);
                let n = conc!(1);
                for i in 0..n {
                    if let Some(c) = &self.concrete {
                        let v = *c.get(st.inputs.len()).ok_or_else(|| Stop::Unsup("not enough concrete inputs".into()))?;
                        st.inputs.push((Inp::C(v), 8));
                        self.write_scalar(st, p + i, 8, &Val::C(v & 255))?;
                    } else {
                        let t = self.fresh(st, 8, 0, 255, false);
                        self.write_scalar(st, p + i, 8, &Val::S(t))?;
                    }
                }
                none
            }
            B::Assume => {
                match a[0].clone() {
                    Val::C(1) => {}
                    Val::C(_) => {
                        self.infeasible += 1;
                        return Err(Stop::Infeasible);
                    }
                    Val::S(t) => {
                        let t = if self.pool.w(t) != 1 { self.pool.extract(t, 0, 1) } else { t };
                        match self.sat(st, t)? {
                            None => {
                                self.infeasible += 1;
                                return Err(Stop::Infeasible);
                            }
                            Some(m) => {
                                st.model = m;
                                self.add_pc(st, t);
                            }
                        }
                    }
                    _ => {}
                }
                none
            }
            B::Check => {
                let id = sx(conc!(1), 32);
                let e = self.check_counts.entry(id).or_insert((0, 0));
                e.0 += 1;
                match a[0].clone() {
                    Val::C(1) => {}
                    Val::C(_) => {
                        self.record(st, "check", id, format!("check {} is false", id));
                        return Err(Stop::Infeasible);
                    }
                    Val::S(t) => {
                        e.1 += 1;
                        let t = if self.pool.w(t) != 1 { self.pool.extract(t, 0, 1) } else { t };
                        let nt = self.pool.not(t);
                        if let Some(m) = self.sat_by(st, nt, false)? {
                            let mut o = st.clone();
                            o.model = m;
                            self.record(&o, "check", id, format!("check {} can be false", id));
                            match self.sat(st, t)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    st.model = m;
                                    self.add_pc(st, t);
                                }
                            }
                        }
                    }
                    _ => {}
                }
                none
            }
            B::Choose => {
                let n = conc!(0);
                if let Some(c) = &self.concrete {
                    let v = *c.get(st.inputs.len()).ok_or_else(|| Stop::Unsup("not enough concrete inputs".into()))?;
                    st.inputs.push((Inp::C(v), 64));
                    return Ok(BR::Val(Some(Val::C(v))));
                }
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                Ok(BR::Fork((0..n).collect()))
            }
            B::Param => {
                let i = conc!(0);
                let v = self.params.get(i as usize).copied().unwrap_or(0);
                Ok(BR::Val(Some(Val::C(v as u64))))
            }
            B::Reach => {
                let i = sx(conc!(0), 32);
                *self.reached.entry(i).or_insert(0) += 1;
                none
            }
            B::Observe => {
                st.observes.push(a[0].clone());
                none
            }
            B::AllowPanic => {
                st.allow_panic = conc!(0) & 1 == 1;
                none
            }
            B::Conc => {
                let v = conc!(0);
                Ok(BR::Val(Some(Val::C(v))))
            }
            B::IsSym => Ok(BR::Val(Some(Val::C(1)))),
            B::ParBegin => {
                let r = Region { task: 0, log: Default::default(), first_obj: st.objs.len() as u32 };
                st.regions.push(Rc::new(r));
                none
            }
            B::ParTask => {
                let t = conc!(0) as u32;
                if let Some(r) = st.regions.last_mut() {
                    Rc::make_mut(r).task = t;
                }
                none
            }
            B::ParEnd => {
                st.regions.pop();
                none
            }
            B::Intr => self.intrinsic(st, fid, args, &a, rt),
            B::None | B::NotYet => unreachable!(),
        }
    }

    fn lanes1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> Result<Val, Stop>) -> Result<Val, Stop> {
        match a {
            Val::Agg(x) => {
                let mut v = vec![];
                for p in x.iter() {
                    v.push(f(self, p)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => f(self, a),
        }
    }
    fn lanes2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> Result<Val, Stop>) -> Result<Val, Stop> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(f(self, p, q)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => f(self, a, b),
        }
    }

    fn intrinsic(&mut self, st: &mut State, fid: u32, args: &[CallArg], a: &[Val], rt: &Ty) -> Result<BR, Stop> {
        let m = self.m;
        let name: &str = &m.fns[fid as usize].name[5..];
        let mut parts = name.split('.');
        let p0 = parts.next().unwrap_or("");
        let p1 = parts.next().unwrap_or("");
        let w = args.get(0).map(|x| x.ty.lane_w()).unwrap_or(0);
        let none = Ok(BR::Val(None));
        let one = |v: Val| Ok(BR::Val(Some(v)));
        if let (true, Ty::Float(_)) = (args.len() <= 2, args.get(0).map(|x| x.ty.clone()).unwrap_or(Ty::Void)) {
            if matches!(w, 32 | 64) {
                let x = self.concretize(st, &a[0])?;
                let y = if a.len() > 1 { self.concretize(st, &a[1])? } else { 0 };
                let op = if matches!(p0, "fptosi" | "fptoui") { format!("{}.sat", p0) } else { p0.to_string() };
                let r = fp(&op, w, rt.lane_w(), x, y).ok_or_else(|| Stop::Unsup(format!("intrinsic {}", name)))?;
                return Ok(BR::Val(Some(Val::C(r))));
            }
        }
        match (p0, p1) {
            ("memcpy", _) | ("memmove", _) => {
                let d = self.concretize(st, &a[0])?;
                let s = self.concretize(st, &a[1])?;
                let n = self.concretize(st, &a[2])?;
                self.memcpy(st, d, s, n)?;
                none
            }
            ("memset", _) => {
                let d = self.concretize(st, &a[0])?;
                let n = self.concretize(st, &a[2])?;
                self.memset(st, d, &a[1], n)?;
                none
            }
            ("umin", _) | ("umax", _) | ("smin", _) | ("smax", _) => {
                let pr = match p0 {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let r = self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                    let c = s.icmp(pr, w, x, y);
                    Ok(match c {
                        Val::C(1) => x.clone(),
                        Val::C(_) => y.clone(),
                        Val::S(t) => s.ite(t, x, y, &Ty::Int(w)).unwrap(),
                        _ => unreachable!(),
                    })
                })?;
                one(r)
            }
            ("abs", _) => {
                let r = self.lanes1(&a[0], &mut |s, x| {
                    let z = s.wide_c(0, w);
                    let n = s.bin(BinOp::Sub, w, &z, x)?;
                    let c = s.icmp(Pred::Slt, w, x, &z);
                    Ok(match c {
                        Val::C(1) => n,
                        Val::C(_) => x.clone(),
                        Val::S(t) => s.ite(t, &n, x, &Ty::Int(w)).unwrap(),
                        _ => unreachable!(),
                    })
                })?;
                one(r)
            }
            ("ctlz", _) | ("cttz", _) | ("ctpop", _) | ("bitreverse", _) | ("bswap", _) => {
                let r = self.lanes1(&a[0], &mut |s, x| {
                    let t = s.t(x, w);
                    let r = match p0 {
                        "ctpop" => {
                            let mut acc = s.pool.cst(0, w);
                            for i in 0..w {
                                let b = s.pool.extract(t, i, 1);
                                let z = s.pool.zext(b, w);
                                acc = s.pool.add(acc, z);
                            }
                            acc
                        }
                        "bswap" => {
                            let n = w / 8;
                            let mut acc = s.pool.extract(t, 0, 8);
                            for i in 1..n {
                                let b = s.pool.extract(t, i * 8, 8);
                                acc = s.pool.concat(acc, b);
                            }
                            acc
                        }
                        "bitreverse" => {
                            let mut acc = s.pool.extract(t, 0, 1);
                            for i in 1..w {
                                let b = s.pool.extract(t, i, 1);
                                acc = s.pool.concat(acc, b);
                            }
                            acc
                        }
                        _ => {
                            // ite chain from the far end
                            let mut acc = s.pool.cst(w as u128, w);
                            for k in (0..w).rev() {
                                let bit = if p0 == "ctlz" { w - 1 - k } else { k };
                                let b = s.pool.extract(t, bit, 1);
                                let c = s.pool.cst(k as u128, w);
                                acc = s.pool.ite(b, c, acc);
                            }
                            acc
                        }
                    };
                    Ok(s.val(r))
                })?;
                one(r)
            }
            ("fshl", _) | ("fshr", _) => {
                let sh = self.concretize(st, &a[2])? % w as u64;
                let x = self.t(&a[0], w);
                let y = self.t(&a[1], w);
                let c = self.pool.concat(x, y);
                let lo = if p0 == "fshl" { w - sh as u32 } else { sh as u32 };
                let r = if p0 == "fshl" && sh == 0 { x } else { self.pool.extract(c, lo, w) };
                one(self.val(r))
            }
            ("uadd", "sat") | ("usub", "sat") | ("sadd", "sat") | ("ssub", "sat") => {
                let r = self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                    let sg = p0.starts_with('s');
                    let add = p0.ends_with("add");
                    let ext = if sg { CastOp::SExt } else { CastOp::ZExt };
                    let (p, q) = (s.castt(ext, w, w + 2, x), s.castt(ext, w, w + 2, y));
                    let r = if add { s.pool.add(p, q) } else { s.pool.sub(p, q) };
                    let (lo, hi) = if sg { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
                    let lo = s.pool.cst(lo as u128, w + 2);
                    let hi = s.pool.cst(hi as u128, w + 2);
                    let c1 = s.pool.slt(r, lo);
                    let c2 = s.pool.slt(hi, r);
                    let r = s.pool.ite(c1, lo, r);
                    let r = s.pool.ite(c2, hi, r);
                    let r = s.pool.extract(r, 0, w);
                    Ok(s.val(r))
                })?;
                one(r)
            }
            ("uadd", "with") | ("usub", "with") | ("umul", "with") | ("sadd", "with") | ("ssub", "with") | ("smul", "with") => {
                let sg = p0.starts_with('s');
                let ext = if sg { CastOp::SExt } else { CastOp::ZExt };
                let w2 = if p0.ends_with("mul") { 2 * w } else { w + 2 };
                let (x, y) = (self.castt(ext, w, w2, &a[0]), self.castt(ext, w, w2, &a[1]));
                let r = match &p0[1..] {
                    "add" => self.pool.add(x, y),
                    "sub" => self.pool.sub(x, y),
                    _ => self.pool.mul(x, y),
                };
                let lo = self.pool.extract(r, 0, w);
                let back = if sg { self.pool.sext_t(lo, w2) } else { self.pool.zext(lo, w2) };
                let e = self.pool.eq(r, back);
                let o = self.pool.not(e);
                // recompute the narrow result so that it keeps its own normal form
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let lo = match &p0[1..] {
                    "add" => self.pool.add(x, y),
                    "sub" => self.pool.sub(x, y),
                    _ => self.pool.mul(x, y),
                };
                let v = vec![self.val(lo), self.val(o)];
                one(Val::Agg(Rc::new(v)))
            }
            ("ucmp", _) | ("scmp", _) => {
                let lt = if p0 == "ucmp" { Pred::Ult } else { Pred::Slt };
                let l = self.icmp(lt, w, &a[0], &a[1]);
                let g = self.icmp(lt, w, &a[1], &a[0]);
                let rw = rt.lane_w();
                let (l, g) = (self.t(&l, 1), self.t(&g, 1));
                let (l, g) = (self.pool.zext(l, rw), self.pool.zext(g, rw));
                let r = self.pool.sub(g, l);
                one(self.val(r))
            }
            ("is", "constant") => one(Val::C(0)),
            ("expect", _) | ("threadlocal", _) | ("launder", _) | ("strip", _) | ("ssa", _) => one(a[0].clone()),
            ("objectsize", _) => one(Val::C(u64::MAX)),
            ("trap", _) | ("ubsantrap", _) | ("debugtrap", _) => Err(Stop::Panic("trap".into())),
            ("vector", "reduce") => {
                let op = parts.next().unwrap_or("");
                let lw = args[0].ty.lane_w();
                if let Val::Agg(x) = &a[0] {
                    let mut acc = x[0].clone();
                    for y in x.iter().skip(1) {
                        acc = match op {
                            "add" => self.bin(BinOp::Add, lw, &acc, y)?,
                            "or" => self.bin(BinOp::Or, lw, &acc, y)?,
                            "and" => self.bin(BinOp::And, lw, &acc, y)?,
                            "xor" => self.bin(BinOp::Xor, lw, &acc, y)?,
                            "mul" => self.bin(BinOp::Mul, lw, &acc, y)?,
                            "smax" | "smin" | "umax" | "umin" => {
                                let pr = match op {
                                    "smax" => Pred::Sgt,
                                    "smin" => Pred::Slt,
                                    "umax" => Pred::Ugt,
                                    _ => Pred::Ult,
                                };
                                let c = self.icmp(pr, lw, &acc, y);
                                let c = self.t(&c, 1);
                                self.ite(c, &acc, y, &Ty::Int(lw)).unwrap()
                            }
                            _ => return Err(Stop::Unsup(format!("llvm.{}", name))),
                        };
                    }
                    return one(acc);
                }
                Err(Stop::Unsup(format!("llvm.{}", name)))
            }
            ("load", "relative") => {
                let b = self.concretize(st, &a[0])?;
                let o = self.concretize(st, &a[1])?;
                let v = self.load(st, b.wrapping_add(o), &Ty::Int(32))?;
                let v = self.concretize(st, &v)?;
                one(Val::C(b.wrapping_add(sx(v, 32) as u64)))
            }
            ("lifetime", _) | ("assume", _) | ("experimental", _) | ("dbg", _) | ("prefetch", _) | ("invariant", _)
            | ("donothing", _) | ("sideeffect", _) | ("var", _) => none,
            ("x86", _) if name.contains("pause") => none,
            _ => Err(Stop::Unsup(format!("llvm.{}", name))),
        }
    }
    fn wide_c(&mut self, v: u64, w: u32) -> Val {
        if w <= 64 {
            Val::C(v)
        } else {
            Val::S(self.pool.cst(v as u128, w))
        }
    }
    fn castt(&mut self, op: CastOp, wa: u32, wb: u32, a: &Val) -> T {
        let t = self.t(a, wa);
        match op {
            CastOp::SExt => self.pool.sext_t(t, wb),
            _ => self.pool.zext(t, wb),
        }
    }

    // ---------- driver ----------
    fn at_merge(st: &State, mp: MergePt) -> bool {
        if mp.blk == u32::MAX {
            st.frames.len() < mp.depth
        } else {
            st.frames.len() < mp.depth
                || (st.frames.len() == mp.depth && {
                    let f = st.frames.last().unwrap();
                    f.blk == mp.blk && f.ip == 0
                })
        }
    }

    /// run until all descendants are finished or reach the merge point; returns the latter
    pub fn explore(&mut self, init: State, stop: Option<MergePt>, budget: u64) -> Vec<State> {
        let mut work = vec![init];
        let mut out = vec![];
        let base = self.pending.len();
        while let Some(mut st) = work.pop() {
            let start = st.steps;
            loop {
                if let Some(mp) = stop {
                    if Self::at_merge(&st, mp) || st.steps - start > budget {
                        out.push(st);
                        break;
                    }
                }
                if self.timed_out || self.violations.len() >= self.max_viol {
                    break;
                }
                st.steps += 1;
                self.steps += 1;
                if st.steps & 0xfff == 0 && Instant::now() > self.deadline {
                    self.timed_out = true;
                    break;
                }
                if st.steps > self.fuel {
                    self.finish(&st, Stop::Fuel);
                    break;
                }
                let fr = st.frames.last().unwrap();
                let f = fr.f.clone();
                let ins = match f.blocks[fr.blk as usize].ins.get(fr.ip as usize) {
                    Some(i) => &i.0,
                    None => {
                        self.errors.push(format!("fell off block in {}", f.name));
                        break;
                    }
                };
                let r = self.exec(&mut st, ins);
                // siblings queued by concretisation
                while self.pending.len() > base {
                    let p = self.pending.pop().unwrap();
                    work.push(p);
                }
                match r {
                    Ok(Flow::Next) => st.frames.last_mut().unwrap().ip += 1,
                    Ok(Flow::Jumped) => {}
                    Ok(Flow::Fork(o, mp)) => {
                        if Instant::now() > self.deadline {
                            self.timed_out = true;
                            break;
                        }
                        if self.merge_level > 0 {
                            if let Some((depth, blk)) = mp {
                                let m = MergePt { depth, blk };
                                let before = self.paths;
                                let mut rs = self.explore(*o, Some(m), self.merge_budget);
                                rs.extend(self.explore(st, Some(m), self.merge_budget));
                                let _ = before;
                                let merged = self.merge_all(rs, m);
                                work.extend(merged);
                                break;
                            }
                        }
                        work.push(*o);
                    }
                    Err(s) => {
                        self.finish(&st, s);
                        break;
                    }
                }
            }
            if self.timed_out || self.violations.len() >= self.max_viol || self.paths >= self.max_paths {
                if self.paths >= self.max_paths && !work.is_empty() {
                    self.timed_out = true;
                }
                return out;
            }
        }
        out
    }

    fn finish(&mut self, st: &State, s: Stop) {
        match s {
            Stop::Done => {
                self.paths += 1;
                // some paths are written out with their inputs and the values the executor predicts
                if self.traces.len() < 4 || (self.paths.is_power_of_two() && self.traces.len() < 12) {
                    let (v, _) = self.input_values(st);
                    let obs = st
                        .observes
                        .iter()
                        .map(|o| match o {
                            Val::C(c) => *c,
                            Val::S(t) => self.eval_model(st, *t) as u64,
                            _ => 0,
                        })
                        .collect();
                    self.traces.push((v, obs));
                }
                if self.concrete.is_some() {
                    let v = st
                        .observes
                        .iter()
                        .map(|o| match o {
                            Val::C(c) => *c,
                            Val::S(t) => self.eval_model(st, *t) as u64,
                            _ => 0,
                        })
                        .collect();
                    self.path_observes.push(v);
                }
            }
            Stop::Panic(m) => {
                self.paths += 1;
                if st.allow_panic {
                    self.panics_allowed += 1;
                } else {
                    self.record(st, "panic", -1, m);
                }
            }
            Stop::Mem(m) => {
                self.paths += 1;
                self.record(st, "memory", -2, m);
            }
            Stop::Fuel => {
                self.paths += 1;
                self.record(st, "hang", -3, format!("more than {} instructions on one path", self.fuel));
            }
            Stop::Unsup(m) => {
                self.paths += 1;
                let w = self.where_(st).join(" < ");
                self.errors.push(format!("{} at {}", m, w));
            }
            Stop::Infeasible => {}
        }
    }

    // ---------- merging ----------
    fn liveness(&mut self, f: &Rc<Func>) -> Rc<Vec<Vec<u64>>> {
        if let Some(l) = self.live.get(&f.id) {
            return l.clone();
        }
        let nw = (f.nregs as usize + 63) / 64;
        let nb = f.blocks.len();
        let mut gen = vec![vec![0u64; nw]; nb]; // upward exposed uses
        let mut kill = vec![vec![0u64; nw]; nb];
        let mut succ: Vec<Vec<u32>> = vec![vec![]; nb];
        // phi uses count as live-out of the predecessor
        let mut phiout = vec![vec![0u64; nw]; nb];
        let setb = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] |= 1 << (r % 64);
        let isb = |v: &Vec<u64>, r: u32| v[r as usize / 64] >> (r % 64) & 1 == 1;
        for (b, bl) in f.blocks.iter().enumerate() {
            for (d, inc) in &bl.phis {
                setb(&mut kill[b], *d);
                for (l, o) in inc {
                    if let Opnd::Reg(r) = o {
                        setb(&mut phiout[*l as usize], *r);
                    }
                }
            }
            for (i, _) in &bl.ins {
                let (uses, def) = uses_def(i);
                for u in uses {
                    if !isb(&kill[b], u) {
                        setb(&mut gen[b], u);
                    }
                }
                if let Some(d) = def {
                    setb(&mut kill[b], d);
                }
                match i {
                    I::Br(l) => succ[b].push(*l),
                    I::CondBr(_, x, y) => {
                        succ[b].push(*x);
                        succ[b].push(*y);
                    }
                    I::Switch(_, _, d, cs) => {
                        succ[b].push(*d);
                        succ[b].extend(cs.iter().map(|c| c.1));
                    }
                    I::Call(_, _, _, _, Some(l)) => succ[b].push(*l),
                    _ => {}
                }
            }
        }
        // live-in excluding phi destinations of the block itself
        let mut live = gen.clone();
        loop {
            let mut ch = false;
            for b in (0..nb).rev() {
                let mut o = phiout[b].clone();
                for &s in &succ[b] {
                    for k in 0..nw {
                        o[k] |= live[s as usize][k];
                    }
                }
                for k in 0..nw {
                    let v = gen[b][k] | (o[k] & !kill[b][k]);
                    if v != live[b][k] {
                        live[b][k] |= v;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // after the phis have been evaluated their destinations are live too (if used); be conservative
        for (b, bl) in f.blocks.iter().enumerate() {
            for (d, _) in &bl.phis {
                setb(&mut live[b], *d);
            }
        }
        let r = Rc::new(live);
        self.live.insert(f.id, r.clone());
        r
    }

    fn merge_all(&mut self, mut v: Vec<State>, mp: MergePt) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        while let Some(s) = v.pop() {
            if !Self::at_merge(&s, mp) {
                out.push(s);
                continue;
            }
            let mut cur = Some(s);
            for k in 0..out.len() {
                if !Self::at_merge(&out[k], mp) {
                    continue;
                }
                if let Some(m) = self.try_merge(&out[k], cur.as_ref().unwrap()) {
                    out[k] = m;
                    self.merges += 1;
                    cur = None;
                    break;
                }
            }
            if let Some(c) = cur {
                out.push(c);
            }
        }
        out
    }

    fn try_merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.inputs != b.inputs || a.observes != b.observes || a.allow_panic != b.allow_panic {
            return None;
        }
        if !a.regions.is_empty() || !b.regions.is_empty() {
            return None;
        }
        let d = a.frames.len() - 1;
        let (fa, fb) = (&a.frames[d], &b.frames[d]);
        if fa.f.id != fb.f.id || fa.blk != fb.blk || fa.ip != fb.ip || fa.allocas != fb.allocas {
            return None;
        }
        // path conditions
        let mut pre = 0;
        while pre < a.pc.len() && pre < b.pc.len() && a.pc[pre] == b.pc[pre] {
            pre += 1;
        }
        let mut ca = Pool::TRUE;
        for &c in &a.pc[pre..] {
            ca = self.pool.and(ca, c);
        }
        let mut cb = Pool::TRUE;
        for &c in &b.pc[pre..] {
            cb = self.pool.and(cb, c);
        }
        let live = self.liveness(&fa.f.clone());
        // ip > 0 only when merging after a return: every register assigned so far may be needed
        let lv = &live[fa.blk as usize];
        let mid = fa.ip != 0;
        let mut regs = fa.regs.clone();
        for r in 0..regs.len() {
            if fa.regs[r] == fb.regs[r] {
                continue;
            }
            if !mid && lv[r / 64] >> (r % 64) & 1 == 0 {
                continue;
            }
            let ok = match (&fa.regs[r], &fb.regs[r]) {
                (Val::C(x), Val::C(y)) => {
                    // the width is unknown here: merge only through the register's type
                    let w = reg_width(&fa.f, r as u32);
                    if w == 0 || (w >= 64 && self.merge_level < 2) {
                        None
                    } else {
                        let (x, y) = (self.pool.cst(*x as u128, w), self.pool.cst(*y as u128, w));
                        let t = self.pool.ite(ca, x, y);
                        Some(self.val(t))
                    }
                }
                (x, y) => self.ite(ca, x, y, &Ty::Other),
            };
            match ok {
                Some(v) => regs[r] = v,
                None => return None,
            }
        }
        // memory
        let n = a.objs.len().max(b.objs.len());
        let mut objs: Vec<Option<Rc<Obj>>> = Vec::with_capacity(n);
        for i in 0..n {
            let x = a.objs.get(i).cloned().flatten();
            let y = b.objs.get(i).cloned().flatten();
            match (x, y) {
                (None, None) => objs.push(None),
                (Some(x), Some(y)) => objs.push(Some(self.merge_obj(ca, x, y)?)),
                _ => return None,
            }
        }
        let mut globals = a.globals.clone();
        for (k, y) in &b.globals {
            let x = match globals.get(k) {
                Some(x) => x.clone(),
                None => self.globs.get(k).cloned()?,
            };
            let m = self.merge_obj(ca, x, y.clone())?;
            globals.insert(*k, m);
        }
        for (k, x) in &a.globals {
            if !b.globals.contains_key(k) {
                let y = self.globs.get(k).cloned()?;
                let m = self.merge_obj(ca, x.clone(), y)?;
                globals.insert(*k, m);
            }
        }
        let mut s = a.clone();
        s.objs = objs;
        s.globals = globals;
        s.frames[d].regs = regs;
        s.pc.truncate(pre);
        s.eqs.retain(|k, v| b.eqs.get(k) == Some(v));
        let o = self.pool.or(ca, cb);
        self.add_pc(&mut s, o);
        s.steps = a.steps.max(b.steps);
        Some(s)
    }
    fn merge_obj(&mut self, c: T, x: Rc<Obj>, y: Rc<Obj>) -> Option<Rc<Obj>> {
        if Rc::ptr_eq(&x, &y) {
            return Some(x);
        }
        if x.size != y.size {
            return None;
        }
        if x.bytes == y.bytes && x.sym == y.sym {
            return Some(x);
        }
        // segments
        let mut cuts: Vec<u32> = vec![];
        for o in [&x, &y] {
            for (&k, &(_, n)) in &o.sym {
                cuts.push(k);
                cuts.push(k + n);
            }
        }
        let sz = x.size as usize;
        // concrete runs that differ, aligned to 8 bytes at most
        let symmask = |o: &Obj| -> Vec<bool> {
            let mut m = vec![false; sz];
            for (&k, &(_, n)) in &o.sym {
                for i in k..k + n {
                    m[i as usize] = true;
                }
            }
            m
        };
        let (mx, my) = (symmask(&x), symmask(&y));
        let mut i = 0;
        let mut segs: Vec<(u32, u32)> = vec![];
        cuts.sort_unstable();
        cuts.dedup();
        while i < sz {
            if !mx[i] && !my[i] {
                if x.bytes[i] != y.bytes[i] {
                    if self.merge_level < 2 {
                        return None;
                    }
                    segs.push((i as u32, 1));
                }
                i += 1;
            } else {
                // maximal segment up to the next cut
                let e = cuts.iter().find(|&&c| c as usize > i).map(|&c| c as usize).unwrap_or(sz);
                segs.push((i as u32, (e - i) as u32));
                i = e;
            }
        }
        let mut o = (*x).clone();
        for (off, n) in segs {
            let a = self.read_obj(&x, off as usize, n as usize);
            let b = self.read_obj(&y, off as usize, n as usize);
            if a == b {
                continue;
            }
            let (a, b) = (self.t(&a, n * 8), self.t(&b, n * 8));
            let t = self.pool.ite(c, a, b);
            let mut pool = std::mem::replace(&mut self.pool, Pool::empty());
            Self::clear_sym(&mut pool, &mut o, off as usize, n as usize);
            Self::put_sym(&pool, &mut o, off, t, n);
            self.pool = pool;
        }
        Some(Rc::new(o))
    }

    pub fn start(&mut self, harness: &str) -> Option<State> {
        let (k, id) = self.m.lookup(harness)?;
        if k != SymKind::Func {
            return None;
        }
        let mut st = State {
            frames: vec![],
            objs: vec![],
            globals: Default::default(),
            pc: vec![],
            eqs: Default::default(),
            model: Rc::new(vec![]),
            inputs: vec![],
            observes: vec![],
            steps: 0,
            allow_panic: false,
            regions: vec![],
            depth_forks: 0,
            exp: None,
        };
        self.enter(&mut st, id, vec![], None, None).ok()?;
        Some(st)
    }
}

pub enum BR {
    Val(Option<Val>),
    Fork(Vec<u64>),
}

fn reg_width(f: &Func, r: u32) -> u32 {
    for b in &f.blocks {
        for (i, _) in &b.ins {
            let (w, d) = match i {
                I::Bin(_, w, d, ..) => (*w, *d),
                I::Icmp(_, _, d, ..) => (1, *d),
                I::Select(d, _, _, _, t) => (t.lane_w(), *d),
                I::Cast(_, d, _, wb, _) => (*wb, *d),
                I::Load(d, t, _) => (t.lane_w(), *d),
                I::Call(Some(d), _, _, t, _) => (t.lane_w(), *d),
                _ => continue,
            };
            if d == r {
                return w;
            }
        }
        for (k, (d, _)) in b.phis.iter().enumerate() {
            if *d == r {
                return b.phiw[k];
            }
        }
    }
    0
}

/// Floating-point arithmetic on concrete values (a symbolic operand is split into its values first).
fn fp(op: &str, wa: u32, wb: u32, a: u64, b: u64) -> Option<u64> {
    let int = |v: u64| sx(v, wa) as i64;
    let out = |v: f64| if wb == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let clip = |v: u64| v & cbits(wb);
    if wa == 32 && !matches!(op, "sitofp" | "uitofp") {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            "fadd" => Some(x + y),
            "fsub" => Some(x - y),
            "fmul" => Some(x * y),
            "fdiv" => Some(x / y),
            "frem" => Some(x % y),
            "fneg" => Some(-x),
            "sqrt" => Some(x.sqrt()),
            "fma" | "fmuladd" => return None,
            _ => None,
        };
        if let Some(r) = r {
            return Some(r.to_bits() as u64);
        }
    }
    let get = |v: u64| if wa == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    Some(match op {
        "sitofp" => {
            if wb == 32 {
                (int(a) as f32).to_bits() as u64
            } else {
                (int(a) as f64).to_bits()
            }
        }
        "uitofp" => {
            if wb == 32 {
                (a as f32).to_bits() as u64
            } else {
                (a as f64).to_bits()
            }
        }
        "fptosi" | "fptosi.sat" => {
            let v = get(a);
            let hi = (1i128 << (wb - 1)) - 1;
            let v = if v.is_nan() { 0 } else { v.trunc().max(-(hi as f64) - 1.0).min(hi as f64) as i128 };
            clip(v.max(-hi - 1).min(hi) as u64)
        }
        "fptoui" | "fptoui.sat" => {
            let v = get(a);
            let hi = (1u128 << wb) - 1;
            let v = if v.is_nan() { 0 } else { v.trunc().max(0.0) as u128 };
            clip(v.min(hi) as u64)
        }
        "fpext" | "fptrunc" => out(get(a)),
        "fadd" => out(get(a) + get(b)),
        "fsub" => out(get(a) - get(b)),
        "fmul" => out(get(a) * get(b)),
        "fdiv" => out(get(a) / get(b)),
        "frem" => out(get(a) % get(b)),
        "fneg" => out(-get(a)),
        "sqrt" => out(get(a).sqrt()),
        "floor" => out(get(a).floor()),
        "ceil" => out(get(a).ceil()),
        "trunc" => out(get(a).trunc()),
        "round" => out(get(a).round()),
        "rint" | "nearbyint" | "roundeven" => out(get(a).round_ties_even()),
        "fabs" => out(get(a).abs()),
        "minnum" | "minimumnum" => out(get(a).min(get(b))),
        "maxnum" | "maximumnum" => out(get(a).max(get(b))),
        "copysign" => out(get(a).copysign(get(b))),
        // the platform's library is the one the native code uses
        "log2" => out(get(a).log2()),
        "log10" => out(get(a).log10()),
        "log" => out(get(a).ln()),
        "exp2" => out(get(a).exp2()),
        "exp" => out(get(a).exp()),
        "pow" => out(get(a).powf(get(b))),
        "powi" => out(get(a).powi(b as u32 as i32)),
        "true" => 1,
        "false" => 0,
        "ord" => (!get(a).is_nan() && !get(b).is_nan()) as u64,
        "uno" => (get(a).is_nan() || get(b).is_nan()) as u64,
        "oeq" => (get(a) == get(b)) as u64,
        "one" => (get(a) < get(b) || get(a) > get(b)) as u64,
        "olt" => (get(a) < get(b)) as u64,
        "ole" => (get(a) <= get(b)) as u64,
        "ogt" => (get(a) > get(b)) as u64,
        "oge" => (get(a) >= get(b)) as u64,
        "ueq" => !(get(a) < get(b) || get(a) > get(b)) as u64,
        "une" => (get(a) != get(b)) as u64,
        "ult" => !(get(a) >= get(b)) as u64,
        "ule" => !(get(a) > get(b)) as u64,
        "ugt" => !(get(a) <= get(b)) as u64,
        "uge" => !(get(a) < get(b)) as u64,
        _ => return None,
    })
}

fn uses_def(i: &I) -> (Vec<u32>, Option<u32>) {
    let mut u = vec![];
    let mut add = |o: &Opnd| {
        if let Opnd::Reg(r) = o {
            u.push(*r)
        }
    };
    let d = match i {
        I::Bin(_, _, d, a, b) => {
            add(a);
            add(b);
            Some(*d)
        }
        I::Icmp(_, _, d, a, b) => {
            add(a);
            add(b);
            Some(*d)
        }
        I::Select(d, c, a, b, _) => {
            add(c);
            add(a);
            add(b);
            Some(*d)
        }
        I::Cast(_, d, _, _, a) | I::VCast(d, _, _, _, _, a) => {
            add(a);
            Some(*d)
        }
        I::Fp(_, _, _, d, a, b) => {
            add(a);
            add(b);
            Some(*d)
        }
        I::Load(d, _, a) => {
            add(a);
            Some(*d)
        }
        I::Store(_, v, a) => {
            add(v);
            add(a);
            None
        }
        I::Gep(d, b, _, ts) => {
            add(b);
            for t in ts {
                add(&t.0)
            }
            Some(*d)
        }
        I::Alloca(d, _, n) => {
            add(n);
            Some(*d)
        }
        I::Br(_) => None,
        I::CondBr(c, _, _) => {
            add(c);
            None
        }
        I::Switch(v, ..) => {
            add(v);
            None
        }
        I::Ret(v) => {
            if let Some((_, o)) = v {
                add(o)
            }
            None
        }
        I::Unreachable | I::Nop | I::Unsupported(_) => None,
        I::Call(d, c, args, _, _) => {
            if let Callee::Ind(o) = c {
                add(o)
            }
            for a in args {
                add(&a.v)
            }
            *d
        }
        I::ExtractValue(d, a, _) => {
            add(a);
            Some(*d)
        }
        I::InsertValue(d, a, b, _, _) => {
            add(a);
            add(b);
            Some(*d)
        }
        I::ExtractElement(d, a, b) => {
            add(a);
            add(b);
            Some(*d)
        }
        I::InsertElement(d, a, b, c, _) => {
            add(a);
            add(b);
            add(c);
            Some(*d)
        }
        I::Shuffle(d, a, b, _, _) => {
            add(a);
            add(b);
            Some(*d)
        }
        I::AtomicRmw(_, d, a, _, v) => {
            add(a);
            add(v);
            Some(*d)
        }
        I::CmpXchg(d, a, _, e, n) => {
            add(a);
            add(e);
            add(n);
            Some(*d)
        }
        I::Copy(d, a) => {
            add(a);
            Some(*d)
        }
    };
    (u, d)
}

/// readable path out of a v0 / legacy mangled name (crate and identifiers only)
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        // crate disambiguator
        if b[i] == b's' {
            let mut k = i + 1;
            while k < b.len() && b[k].is_ascii_alphanumeric() {
                k += 1;
            }
            if k < b.len() && b[k] == b'_' && k - i < 16 && k + 1 < b.len() && b[k + 1].is_ascii_digit() {
                i = k + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut k = i;
            let mut len = 0usize;
            while k < b.len() && b[k].is_ascii_digit() {
                len = len * 10 + (b[k] - b'0') as usize;
                k += 1;
            }
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if len > 0 && k + len <= b.len() {
                let id = &n[k..k + len];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(id.to_string());
                }
                i = k + len;
                continue;
            }
        }
        i += 1;
        if out.len() > 6 {
            break;
        }
    }
    out.join("::")
}

//! Hash-consed bit-vector terms with a simplifier.
//!
//! Width-1 terms are treated as booleans.  Sums are kept in a linear normal form
//! (`Op::Lin`: constant + sum of coefficient*atom, modulo 2^w), bit-packing is kept in
//! concatenation form.  Every rule is an equality over bit-vectors (modular arithmetic).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Lin,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat, // a = high, b = low
    Extract, // k = low bit, w = width
    ZExt,
    SExt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
    pub lin: Option<Rc<[(T, u128)]>>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub lo: i128,
    pub hi: i128,
    pub signed: bool,
    pub t: T,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    ur: Vec<(u128, u128)>,
    sr: Vec<(i128, i128)>,
    pub vars: Vec<VarInfo>,
    varsets: FxMap<T, Rc<Vec<u64>>>,
    tables: FxMap<T, Option<Rc<Vec<u64>>>>,
    table_words: usize,
}

/// variables with at most this many values get value tables
/// `--raw`: sums and bitwise operations stay as the code wrote them, so that assertions the rewriting would settle go to the solver.
pub static RAW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn raw() -> bool {
    RAW.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn tab_limit() -> i128 {
    TAB.load(std::sync::atomic::Ordering::Relaxed) as i128
}
pub static TAB: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(512);

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn smin(w: u32) -> i128 {
    if w >= 128 {
        i128::MIN
    } else {
        -(1i128 << (w - 1))
    }
}
fn smax(w: u32) -> i128 {
    if w >= 128 {
        i128::MAX
    } else {
        (1i128 << (w - 1)) - 1
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            map: FxMap::default(),
            ur: vec![],
            sr: vec![],
            vars: vec![],
            varsets: FxMap::default(),
            tables: FxMap::default(),
            table_words: 0,
        };
        p.cst(0, 1);
        p.cst(1, 1);
        p
    }
    /// placeholder used while the pool is moved out temporarily
    pub fn empty() -> Pool {
        Pool {
            nodes: vec![],
            map: FxMap::default(),
            ur: vec![],
            sr: vec![],
            vars: vec![],
            varsets: FxMap::default(),
            tables: FxMap::default(),
            table_words: 0,
        }
    }
    pub const FALSE: T = 0;
    pub const TRUE: T = 1;

    #[inline]
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    #[inline]
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn ur(&self, t: T) -> (u128, u128) {
        self.ur[t as usize]
    }
    pub fn sr(&self, t: T) -> (i128, i128) {
        self.sr[t as usize]
    }

    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        let (u, s) = self.ranges(&n);
        self.map.insert(n.clone(), t);
        self.nodes.push(n);
        self.ur.push(u);
        self.sr.push(s);
        t
    }
    fn node(op: Op, w: u32, a: T, b: T, c: T, k: u128) -> Node {
        Node { op, w: w as u16, a, b, c, k, lin: None }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> T {
        self.intern(Self::node(Op::Const, w, 0, 0, 0, v & mask(w)))
    }
    pub fn bool_t(b: bool) -> T {
        b as T
    }
    pub fn var(&mut self, name: String, w: u32, lo: i128, hi: i128, signed: bool) -> T {
        let idx = self.vars.len() as u128;
        self.vars.push(VarInfo { name, w, lo, hi, signed, t: 0 });
        let t = self.intern(Self::node(Op::Var, w, 0, 0, 0, idx));
        self.vars[idx as usize].t = t;
        t
    }

    // ---- ranges -------------------------------------------------------------------------
    fn ranges(&self, n: &Node) -> ((u128, u128), (i128, i128)) {
        self.ranges_with(n, &|t: T| self.ur[t as usize], &|t: T| self.sr[t as usize])
    }
    /// Ranges of `t` when the variables are restricted further than their declared ranges
    /// (`vr`: variable index -> (lo, hi) in the signedness of its declaration).
    pub fn ranges_under(&self, t: T, vr: &FxMap<usize, (i128, i128)>) -> ((u128, u128), (i128, i128)) {
        let mut memo: FxMap<T, ((u128, u128), (i128, i128))> = FxMap::default();
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Const {
                continue;
            }
            if n.op == Op::Var {
                let v = &self.vars[n.k as usize];
                let mut u = self.ur(x);
                let mut s = self.sr(x);
                if let Some(&(lo, hi)) = vr.get(&(n.k as usize)) {
                    if v.signed {
                        s = (lo, hi);
                        if lo >= 0 {
                            u = (lo as u128, hi as u128)
                        }
                    } else {
                        u = (lo as u128, hi as u128);
                        if hi <= smax(v.w) {
                            s = (lo, hi)
                        }
                    }
                }
                memo.insert(x, (u, s));
                continue;
            }
            if !done {
                stack.push((x, true));
                self.children(x, |c| {
                    if !memo.contains_key(&c) {
                        stack.push((c, false))
                    }
                });
                continue;
            }
            let (u, s) = self.ranges_with(
                n,
                &|c: T| memo.get(&c).map(|r| r.0).unwrap_or(self.ur[c as usize]),
                &|c: T| memo.get(&c).map(|r| r.1).unwrap_or(self.sr[c as usize]),
            );
            let (mut u, mut s) = (u, s);
            let (gu, gs) = (self.ur(x), self.sr(x));
            if u.0.max(gu.0) <= u.1.min(gu.1) {
                u = (u.0.max(gu.0), u.1.min(gu.1))
            }
            if s.0.max(gs.0) <= s.1.min(gs.1) {
                s = (s.0.max(gs.0), s.1.min(gs.1))
            }
            // comparisons
            match n.op {
                Op::Ult | Op::Slt | Op::Eq => {
                    let g = |c: T| memo.get(&c).copied().unwrap_or((self.ur[c as usize], self.sr[c as usize]));
                    let (a, b) = (g(n.a), g(n.b));
                    let (no, yes) = match n.op {
                        Op::Ult => (a.0 .0 >= b.0 .1, a.0 .1 < b.0 .0),
                        Op::Slt => (a.1 .0 >= b.1 .1, a.1 .1 < b.1 .0),
                        _ => (
                            a.0 .1 < b.0 .0 || b.0 .1 < a.0 .0 || a.1 .1 < b.1 .0 || b.1 .1 < a.1 .0,
                            a.0 .0 == a.0 .1 && a.0 == b.0,
                        ),
                    };
                    if no {
                        u = (0, 0)
                    } else if yes {
                        u = (1, 1)
                    } else {
                        u = (0, 1)
                    }
                    s = (-1, 0);
                    if no {
                        s = (0, 0)
                    } else if yes {
                        s = (-1, -1)
                    }
                }
                Op::Not => {
                    let a = memo.get(&n.a).map(|r| r.0).unwrap_or(self.ur[n.a as usize]);
                    u = (1 - a.1.min(1), 1 - a.0.min(1));
                    s = (-(u.1 as i128), -(u.0 as i128));
                }
                _ => {}
            }
            memo.insert(x, (u, s));
        }
        memo.get(&t).copied().unwrap_or((self.ur(t), self.sr(t)))
    }
    pub fn var_count(&self, v: usize) -> i128 {
        let i = &self.vars[v];
        i.hi.saturating_sub(i.lo).saturating_add(1)
    }
    /// values of `t` (whose only variable is `v`) for v = lo, lo+1, ..
    pub fn table(&mut self, t: T, v: usize) -> Option<Rc<Vec<u64>>> {
        if let Some(r) = self.tables.get(&t) {
            return r.clone();
        }
        let n_vals = self.var_count(v);
        if n_vals > tab_limit() || n_vals <= 0 {
            return None;
        }
        let n_vals = n_vals as usize;
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.n(x).op == Op::Const || self.tables.contains_key(&x) {
                continue;
            }
            if !done {
                stack.push((x, true));
                let tabs = &self.tables;
                self.children(x, |c| {
                    if !tabs.contains_key(&c) {
                        stack.push((c, false))
                    }
                });
                continue;
            }
            let n = self.n(x).clone();
            let w = n.w as u32;
            if w > 64 {
                self.tables.insert(x, None);
                continue;
            }
            if n.op == Op::Var {
                let lo = self.vars[v].lo;
                let r: Vec<u64> = (0..n_vals).map(|i| (lo + i as i128) as u128 as u64 & mask(w) as u64).collect();
                self.tables.insert(x, Some(Rc::new(r)));
                continue;
            }
            let mut kids: Vec<(T, Option<Rc<Vec<u64>>>, u128)> = vec![];
            let mut bad = false;
            self.children(x, |c| {
                if let Some(k) = self.as_const(c) {
                    kids.push((c, None, k));
                } else {
                    match &self.tables[&c] {
                        Some(r) => kids.push((c, Some(r.clone()), 0)),
                        None => bad = true,
                    }
                }
            });
            if bad {
                self.tables.insert(x, None);
                continue;
            }
            let m = mask(w);
            let mut r = Vec::with_capacity(n_vals);
            for i in 0..n_vals {
                let g = |k: usize| -> u128 {
                    match &kids[k].1 {
                        Some(t) => t[i] as u128,
                        None => kids[k].2,
                    }
                };
                let val = match n.op {
                    Op::Lin => {
                        let mut s = n.k;
                        for (k, &(_, c)) in n.lin.as_ref().unwrap().iter().enumerate() {
                            s = s.wrapping_add(g(k).wrapping_mul(c));
                        }
                        s & m
                    }
                    Op::Not => g(0) ^ 1,
                    Op::Eq => (g(0) == g(1)) as u128,
                    Op::Ult => (g(0) < g(1)) as u128,
                    Op::Slt => {
                        let wa = self.w(n.a);
                        (sext(g(0), wa) < sext(g(1), wa)) as u128
                    }
                    Op::Ite => {
                        if g(0) == 1 {
                            g(1)
                        } else {
                            g(2)
                        }
                    }
                    Op::Concat => (g(0) << self.w(n.b)) | g(1),
                    Op::Extract => (g(0) >> n.k) & m,
                    Op::ZExt => g(0),
                    Op::SExt => sext(g(0), self.w(n.a)) as u128 & m,
                    _ => conc_bin(n.op, g(0), g(1), w),
                };
                r.push(val as u64);
            }
            self.tables.insert(x, Some(Rc::new(r)));
            self.table_words += n_vals;
        }
        let r = self.tables.get(&t).cloned().flatten();
        if self.table_words > 120_000_000 {
            // bounded memory: recomputed on demand
            self.tables.clear();
            self.table_words = 0;
        }
        r
    }
    fn ranges_with(
        &self,
        n: &Node,
        ura: &dyn Fn(T) -> (u128, u128),
        sra: &dyn Fn(T) -> (i128, i128),
    ) -> ((u128, u128), (i128, i128)) {
        let w = n.w as u32;
        let fu = (0u128, mask(w));
        let fs = (smin(w), smax(w));
        let mut u = fu;
        let mut s = fs;
        match n.op {
            Op::Const => {
                u = (n.k, n.k);
                let x = sext(n.k, w);
                s = (x, x);
            }
            Op::Var => {
                let v = &self.vars[n.k as usize];
                if v.signed {
                    s = (v.lo, v.hi)
                } else {
                    u = (v.lo as u128, v.hi as u128)
                }
            }
            Op::Lin => {
                // signed interpretation
                let mut lo = Some(sext(n.k, w));
                let mut hi = lo;
                for &(t, c) in n.lin.as_ref().unwrap().iter() {
                    let c = sext(c, w);
                    let (a, b) = sra(t);
                    let (x, y) = if c >= 0 {
                        (a.checked_mul(c), b.checked_mul(c))
                    } else {
                        (b.checked_mul(c), a.checked_mul(c))
                    };
                    lo = lo.and_then(|l| x.and_then(|x| l.checked_add(x)));
                    hi = hi.and_then(|l| y.and_then(|y| l.checked_add(y)));
                }
                if let (Some(l), Some(h)) = (lo, hi) {
                    if l >= fs.0 && h <= fs.1 {
                        s = (l, h)
                    }
                }
                if w <= 64 {
                    // unsigned atoms, signed coefficients and constant
                    let mut lo = Some(sext(n.k, w));
                    let mut hi = lo;
                    for &(t, c) in n.lin.as_ref().unwrap().iter() {
                        let c = sext(c, w);
                        let (a, b) = ura(t);
                        let (a, b) = (a as i128, b as i128);
                        let (x, y) = if c >= 0 {
                            (a.checked_mul(c), b.checked_mul(c))
                        } else {
                            (b.checked_mul(c), a.checked_mul(c))
                        };
                        lo = lo.and_then(|l| x.and_then(|x| l.checked_add(x)));
                        hi = hi.and_then(|l| y.and_then(|y| l.checked_add(y)));
                    }
                    if let (Some(l), Some(h)) = (lo, hi) {
                        if l >= 0 && h <= fu.1 as i128 {
                            u = (l as u128, h as u128)
                        } else if l >= fs.0 && h <= fs.1 {
                            s = (s.0.max(l), s.1.min(h));
                        }
                    }
                }
            }
            Op::Mul => {
                let (a0, a1) = sra(n.a);
                let (b0, b1) = sra(n.b);
                let c = [
                    a0.checked_mul(b0),
                    a0.checked_mul(b1),
                    a1.checked_mul(b0),
                    a1.checked_mul(b1),
                ];
                if c.iter().all(|x| x.is_some()) {
                    let l = c.iter().map(|x| x.unwrap()).min().unwrap();
                    let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                    if l >= fs.0 && h <= fs.1 {
                        s = (l, h);
                        if n.a == n.b {
                            s.0 = s.0.max(0);
                        }
                    }
                }
                let (a0, a1) = ura(n.a);
                let (b0, b1) = ura(n.b);
                if let (Some(l), Some(h)) = (a0.checked_mul(b0), a1.checked_mul(b1)) {
                    if h <= fu.1 {
                        u = (l, h);
                    }
                }
            }
            Op::UDiv => {
                if let Some(c) = self.as_const(n.b) {
                    if c != 0 {
                        let (a, b) = ura(n.a);
                        u = (a / c, b / c);
                    }
                } else {
                    let (b0, _) = ura(n.b);
                    if b0 != 0 {
                        u = (0, ura(n.a).1 / b0);
                    }
                }
            }
            Op::SDiv => {
                if let Some(c) = self.as_const(n.b) {
                    let c = sext(c, w);
                    if c > 0 {
                        let (a, b) = sra(n.a);
                        s = (a / c, b / c);
                    }
                }
            }
            Op::URem => {
                if let Some(c) = self.as_const(n.b) {
                    if c != 0 {
                        u = (0, (c - 1).min(ura(n.a).1));
                    }
                }
            }
            Op::SRem => {
                if let Some(c) = self.as_const(n.b) {
                    let c = sext(c, w);
                    if c > 0 {
                        let (a, b) = sra(n.a);
                        s = (if a < 0 { (-(c - 1)).max(a) } else { 0 }, if b > 0 { (c - 1).min(b) } else { 0 });
                    }
                }
            }
            Op::And => {
                u = (0, ura(n.a).1.min(ura(n.b).1));
                // two sign-extended small values keep their sign range
                let (a0, a1) = sra(n.a);
                let (b0, b1) = sra(n.b);
                if a0 >= 0 || b0 >= 0 {
                } else {
                    let m = a1.max(b1).max(0);
                    let p = (-(a0.min(b0))) as u128;
                    let bits = 128 - (p.max(1) - 1).leading_zeros().min(127);
                    if bits + 1 < w {
                        s = (-(1i128 << bits), m.max((1i128 << bits) - 1));
                    }
                }
            }
            Op::Or | Op::Xor => {
                let h = ura(n.a).1 | ura(n.b).1;
                let bits = 128 - h.leading_zeros();
                u = (
                    if n.op == Op::Or { ura(n.a).0.max(ura(n.b).0) } else { 0 },
                    mask(bits) & fu.1,
                );
                if bits == 0 {
                    u = (0, 0);
                }
                let (a0, a1) = sra(n.a);
                let (b0, b1) = sra(n.b);
                let fits = |lo: i128, hi: i128| -> u32 {
                    let m = (if lo < 0 { !(lo as u128) } else { lo as u128 })
                        .max(if hi < 0 { !(hi as u128) } else { hi as u128 });
                    128 - m.leading_zeros()
                };
                let b = fits(a0, a1).max(fits(b0, b1));
                if b + 1 < w {
                    s = (-(1i128 << b), (1i128 << b) - 1);
                }
            }
            Op::Not | Op::Eq | Op::Ult | Op::Slt => {}
            Op::Shl => {}
            Op::LShr => {
                u = (0, ura(n.a).1);
            }
            Op::AShr => {
                let (a, b) = sra(n.a);
                s = (a.min(0), b.max(0));
                if a >= 0 {
                    s = (0, b)
                }
            }
            Op::Ite => {
                let (a0, a1) = ura(n.b);
                let (b0, b1) = ura(n.c);
                u = (a0.min(b0), a1.max(b1));
                let (a0, a1) = sra(n.b);
                let (b0, b1) = sra(n.c);
                s = (a0.min(b0), a1.max(b1));
                let cn = self.n(n.a);
                if cn.op == Op::Slt {
                    if cn.a == n.b && cn.b == n.c {
                        s = (a0.min(b0), a1.min(b1));
                    } else if cn.a == n.c && cn.b == n.b {
                        s = (a0.max(b0), a1.max(b1));
                    } else {
                        // refine by comparison with a constant: x < k ? f(x) : g(x), f,g in {x+c, -x+c, other}
                        let (x, k) = if let Some(k) = self.as_const(cn.b) {
                            (cn.a, Some((sext(k, self.w(cn.b)), true)))
                        } else if let Some(k) = self.as_const(cn.a) {
                            (cn.b, Some((sext(k, self.w(cn.a)), false)))
                        } else {
                            (0, None)
                        };
                        if let Some((k, lt)) = k {
                            if self.w(x) == w {
                                let (xl, xh) = sra(x);
                                let (tr, er) = if lt {
                                    ((xl, xh.min(k - 1)), (xl.max(k), xh))
                                } else {
                                    ((xl.max(k + 1), xh), (xl, xh.min(k)))
                                };
                                let f = |t: T, r: (i128, i128)| -> (i128, i128) {
                                    if r.0 > r.1 {
                                        return sra(t);
                                    }
                                    if t == x {
                                        return r;
                                    }
                                    let tn = self.n(t);
                                    let xn = self.n(x);
                                    if tn.op == Op::Lin {
                                        let l = tn.lin.as_ref().unwrap();
                                        // t = c*x + k0, for x an atom
                                        if l.len() == 1 && l[0].0 == x {
                                            let c = sext(l[0].1, w);
                                            let k0 = sext(tn.k, w);
                                            if c.abs() <= 1 << 40 {
                                                let (p, q) = (c * r.0 + k0, c * r.1 + k0);
                                                let (p, q) = (p.min(q), p.max(q));
                                                if p >= fs.0 && q <= fs.1 {
                                                    return (p, q);
                                                }
                                            }
                                        }
                                        // x = Lin, t = -x + k0
                                        if xn.op == Op::Lin {
                                            let m = xn.lin.as_ref().unwrap();
                                            if m.len() == l.len()
                                                && m.iter().zip(l.iter()).all(|(p, q)| {
                                                    p.0 == q.0
                                                        && p.1.wrapping_add(q.1) & mask(w) == 0
                                                })
                                            {
                                                let k0 = sext(
                                                    tn.k.wrapping_add(xn.k) & mask(w),
                                                    w,
                                                );
                                                let (p, q) = (-r.1 + k0, -r.0 + k0);
                                                if p >= fs.0 && q <= fs.1 {
                                                    return (p, q);
                                                }
                                            }
                                        }
                                    }
                                    sra(t)
                                };
                                let (a0, a1) = f(n.b, tr);
                                let (b0, b1) = f(n.c, er);
                                s = (s.0.max(a0.min(b0)), s.1.min(a1.max(b1)));
                            }
                        }
                    }
                } else if cn.op == Op::Ult {
                    let (a0, a1) = ura(n.b);
                    let (b0, b1) = ura(n.c);
                    if cn.a == n.b && cn.b == n.c {
                        u = (a0.min(b0), a1.min(b1));
                    } else if cn.a == n.c && cn.b == n.b {
                        u = (a0.max(b0), a1.max(b1));
                    }
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let (a0, a1) = ura(n.a);
                let (b0, b1) = ura(n.b);
                u = ((a0 << lw) | b0, (a1 << lw) | b1);
                let (a0, a1) = sra(n.a);
                if w < 120 {
                    s = ((a0 << lw) + b0 as i128, (a1 << lw) + b1 as i128);
                }
            }
            Op::Extract => {
                let (a0, a1) = ura(n.a);
                if n.k == 0 {
                    if a1 <= fu.1 {
                        u = (a0, a1);
                    }
                    let (p, q) = sra(n.a);
                    if p >= fs.0 && q <= fs.1 {
                        s = (p, q)
                    }
                } else {
                    let (x, y) = (a0 >> n.k, a1 >> n.k);
                    if y <= fu.1 {
                        u = (x, y)
                    }
                    if n.k as u32 + w == self.w(n.a) {
                        let (p, q) = sra(n.a);
                        s = (p >> n.k, q >> n.k);
                    }
                }
            }
            Op::ZExt => {
                u = ura(n.a);
            }
            Op::SExt => {
                s = sra(n.a);
            }
        }
        // cross refinement
        if w < 128 {
            let half = 1u128 << (w - 1);
            if u.1 < half {
                s = (s.0.max(u.0 as i128), s.1.min(u.1 as i128));
            } else if u.0 >= half {
                let full = 1i128 << w.min(126);
                if w < 126 {
                    s = (s.0.max(u.0 as i128 - full), s.1.min(u.1 as i128 - full));
                }
            }
            if s.0 >= 0 {
                u = (u.0.max(s.0 as u128), u.1.min(s.1 as u128));
            } else if s.1 < 0 && w < 126 {
                let full = 1i128 << w;
                u = (u.0.max((s.0 + full) as u128), u.1.min((s.1 + full) as u128));
            }
        }
        if u.0 > u.1 {
            u = fu
        }
        if s.0 > s.1 {
            s = fs
        }
        (u, s)
    }

    // ---- linear normal form ---------------------------------------------------------------
    fn lin_parts(&mut self, t: T, coef: u128, acc: &mut Vec<(T, u128)>, k: &mut u128, w: u32) {
        let m = mask(w);
        let n = self.n(t);
        match n.op {
            Op::Const => *k = k.wrapping_add(n.k.wrapping_mul(coef)) & m,
            Op::Lin if !raw() || coef != 1 => {
                *k = k.wrapping_add(n.k.wrapping_mul(coef)) & m;
                for &(a, c) in n.lin.as_ref().unwrap().iter() {
                    acc.push((a, c.wrapping_mul(coef) & m));
                }
            }
            Op::Concat if self.n(n.b).op == Op::Const && self.n(n.b).k == 0 => {
                // (h ++ 0_k)  ==  h' * 2^k for any h' of the full width whose low bits are h
                let kk = self.w(n.b);
                let ha = n.a;
                let h = self.n(ha);
                let (hop, hk, hx) = (h.op, h.k as u32, h.a);
                let full = match hop {
                    Op::Extract if hk + w <= self.w(hx) => Some(self.extract(hx, hk, w)),
                    Op::ZExt => Some(self.zext(hx, w)),
                    Op::SExt => Some(self.sext_t(hx, w)),
                    _ => None,
                };
                match full {
                    Some(x) => {
                        let c = coef.wrapping_mul(1u128 << kk) & m;
                        if x == t {
                            acc.push((t, coef & m));
                        } else {
                            self.lin_parts(x, c, acc, k, w);
                        }
                    }
                    None => acc.push((t, coef & m)),
                }
            }
            _ => acc.push((t, coef & m)),
        }
    }
    fn mk_lin(&mut self, mut acc: Vec<(T, u128)>, k: u128, w: u32) -> T {
        let m = mask(w);
        acc.sort_by_key(|x| x.0);
        let mut out: Vec<(T, u128)> = Vec::with_capacity(acc.len());
        for (t, c) in acc {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(c) & m;
                    continue;
                }
            }
            out.push((t, c & m));
        }
        out.retain(|x| x.1 != 0);
        let k = k & m;
        if out.is_empty() {
            return self.cst(k, w);
        }
        if k == 0 && out.len() == 1 {
            let (t, c) = out[0];
            if c == 1 {
                return t;
            }
            if c.is_power_of_two() {
                let s = c.trailing_zeros();
                let hi = self.extract(t, 0, w - s);
                let z = self.cst(0, s);
                return self.concat(hi, z);
            }
        }
        let n = Node {
            op: Op::Lin,
            w: w as u16,
            a: 0,
            b: 0,
            c: 0,
            k,
            lin: Some(out.into()),
        };
        self.intern(n)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let mut acc = vec![];
        let mut k = 0;
        self.lin_parts(a, 1, &mut acc, &mut k, w);
        self.lin_parts(b, 1, &mut acc, &mut k, w);
        self.mk_lin(acc, k, w)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let mut acc = vec![];
        let mut k = 0;
        self.lin_parts(a, 1, &mut acc, &mut k, w);
        self.lin_parts(b, mask(w), &mut acc, &mut k, w);
        self.mk_lin(acc, k, w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let z = self.cst(0, self.w(a));
        self.sub(z, a)
    }
    pub fn mulc(&mut self, a: T, c: u128) -> T {
        let w = self.w(a);
        let mut acc = vec![];
        let mut k = 0;
        self.lin_parts(a, c & mask(w), &mut acc, &mut k, w);
        self.mk_lin(acc, k, w)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(c) = self.as_const(a) {
            return self.mulc(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.mulc(a, c);
        }
        // distribute over linear forms, so that equal polynomials are equal terms
        let (mut pa, mut ka) = (vec![], 0u128);
        self.lin_parts(a, 1, &mut pa, &mut ka, w);
        let (mut pb, mut kb) = (vec![], 0u128);
        self.lin_parts(b, 1, &mut pb, &mut kb, w);
        if (pa.len() + 1) * (pb.len() + 1) > 20 {
            return self.mul_raw(a, b);
        }
        let m = mask(w);
        let mut acc: Vec<(T, u128)> = vec![];
        for &(t, c) in &pa {
            for &(u, d) in &pb {
                let p = self.mul_raw(t, u);
                acc.push((p, c.wrapping_mul(d) & m));
            }
            if kb != 0 {
                acc.push((t, c.wrapping_mul(kb) & m));
            }
        }
        if ka != 0 {
            for &(u, d) in &pb {
                acc.push((u, d.wrapping_mul(ka) & m));
            }
        }
        self.mk_lin(acc, ka.wrapping_mul(kb) & m, w)
    }
    fn factors(&self, t: T, out: &mut Vec<T>) {
        let n = self.n(t);
        if n.op == Op::Mul && out.len() < 8 {
            self.factors(n.a, out);
            self.factors(n.b, out);
        } else {
            out.push(t);
        }
    }
    fn mul_raw(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let mut f = vec![];
        self.factors(a, &mut f);
        self.factors(b, &mut f);
        f.sort();
        let mut r = f[0];
        for &x in &f[1..] {
            r = self.intern(Self::node(Op::Mul, w, r, x, 0, 0));
        }
        r
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(if c == 0 { mask(w) } else { x / c }, w);
            }
            if c == 1 {
                return a;
            }
            if c != 0 && c.is_power_of_two() {
                return self.lshrc(a, c.trailing_zeros());
            }
            let (lo, hi) = self.ur(a);
            if c != 0 && lo / c == hi / c {
                return self.cst(lo / c, w);
            }
        }
        self.intern(Self::node(Op::UDiv, w, a, b, 0, 0))
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(if c == 0 { x } else { x % c }, w);
            }
            if c == 1 {
                return self.cst(0, w);
            }
            if c != 0 && c.is_power_of_two() {
                let l = self.extract(a, 0, c.trailing_zeros());
                return self.zext(l, w);
            }
            if c != 0 && self.ur(a).1 < c {
                return a;
            }
        }
        self.intern(Self::node(Op::URem, w, a, b, 0, 0))
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            let cs = sext(c, w);
            if let Some(x) = self.as_const(a) {
                if c != 0 {
                    let r = sext(x, w).wrapping_div(cs);
                    return self.cst(r as u128, w);
                }
            } else if cs == 1 {
                return a;
            } else if cs == -1 {
                return self.neg(a);
            } else if cs < 0 && cs != smin(w) {
                let p = self.cst((-cs) as u128, w);
                let d = self.sdiv(a, p);
                return self.neg(d);
            } else if cs > 1 {
                if self.sr(a).0 >= 0 {
                    return self.udiv(a, b);
                }
                // canonical sign: sdiv(-x, c) = -sdiv(x, c) unless -x wraps (x = min)
                if self.n(a).op == Op::Lin && self.sr(a).0 > smin(w) {
                    let n = self.n(a);
                    let first = n.lin.as_ref().unwrap()[0].1;
                    if sext(first, w) < 0 && first != 1u128 << (w - 1) {
                        let na = self.neg(a);
                        if self.sr(na).0 > smin(w) {
                            let d = self.sdiv(na, b);
                            return self.neg(d);
                        }
                    }
                }
            }
        }
        self.intern(Self::node(Op::SDiv, w, a, b, 0, 0))
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(c)) = (self.as_const(a), self.as_const(b)) {
            if c != 0 {
                let r = sext(x, w).wrapping_rem(sext(c, w));
                return self.cst(r as u128, w);
            }
        }
        if self.sr(a).0 >= 0 && self.sr(b).0 >= 0 {
            return self.urem(a, b);
        }
        self.intern(Self::node(Op::SRem, w, a, b, 0, 0))
    }

    // ---- segments / bitwise -----------------------------------------------------------------
    fn structured(&self, t: T) -> bool {
        matches!(self.n(t).op, Op::Const | Op::Concat | Op::ZExt)
    }
    /// pieces from low to high: (width, term)
    fn segs(&mut self, t: T, out: &mut Vec<(u32, T)>) {
        let n = self.n(t).clone();
        match n.op {
            Op::Concat => {
                self.segs(n.b, out);
                self.segs(n.a, out);
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                self.segs(n.a, out);
                let z = self.cst(0, n.w as u32 - wa);
                out.push((n.w as u32 - wa, z));
            }
            _ => out.push((n.w as u32, t)),
        }
    }
    fn cuts(s: &[(u32, T)], cuts: &mut Vec<u32>) {
        let mut p = 0;
        for x in s {
            p += x.0;
            cuts.push(p);
        }
    }
    /// runs of equal bits of a constant -> cut points
    fn const_cuts(k: u128, w: u32, cuts: &mut Vec<u32>) {
        for i in 1..w {
            if (k >> i) & 1 != (k >> (i - 1)) & 1 {
                cuts.push(i);
            }
        }
        cuts.push(w);
    }
    fn bitwise_segs(&mut self, op: Op, a: T, b: T) -> Option<T> {
        if raw() || !(self.structured(a) || self.structured(b)) {
            return None;
        }
        let w = self.w(a);
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        let mut cuts = vec![];
        let mut p = 0;
        for s in [&sa, &sb] {
            p = 0;
            for &(sw, t) in s.iter() {
                if let Some(k) = self.as_const(t) {
                    let mut c = vec![];
                    Self::const_cuts(k, sw, &mut c);
                    cuts.extend(c.iter().map(|x| x + p));
                }
                p += sw;
                cuts.push(p);
            }
        }
        let _ = p;
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 24 {
            return None;
        }
        // every piece must have a constant side
        let mut lo = 0;
        let mut pieces = vec![];
        for &hi in &cuts {
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            let pw = hi - lo;
            let r = match (self.as_const(x), self.as_const(y)) {
                (Some(p), Some(q)) => {
                    let v = match op {
                        Op::And => p & q,
                        Op::Or => p | q,
                        _ => p ^ q,
                    };
                    self.cst(v, pw)
                }
                (Some(p), None) | (None, Some(p)) => {
                    let o = if self.as_const(x).is_some() { y } else { x };
                    let ones = p == mask(pw);
                    if !ones && p != 0 {
                        return None;
                    }
                    match (op, ones) {
                        (Op::And, true) | (Op::Or, false) | (Op::Xor, false) => o,
                        (Op::And, false) => self.cst(0, pw),
                        (Op::Or, true) => self.cst(mask(pw), pw),
                        _ => return None,
                    }
                }
                _ => {
                    if x == y && op != Op::Xor {
                        x
                    } else if x == y {
                        self.cst(0, pw)
                    } else {
                        return None;
                    }
                }
            };
            pieces.push(r);
            lo = hi;
        }
        debug_assert_eq!(lo, w);
        let mut r = pieces[0];
        for &p in &pieces[1..] {
            r = self.concat(p, r);
        }
        Some(r)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return b;
            }
            if c == mask(w) {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                return self.cst(x & c, w);
            }
        }
        if w == 1 {
            if self.not(a) == b {
                return Self::FALSE;
            }
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
        } else if let Some(r) = self.bitwise_segs(Op::And, a, b) {
            return r;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(Self::node(Op::And, w, a, b, 0, 0))
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
            if let Some(x) = self.as_const(a) {
                return self.cst(x | c, w);
            }
        }
        if w == 1 {
            if self.not(a) == b {
                return Self::TRUE;
            }
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
        } else if let Some(r) = self.bitwise_segs(Op::Or, a, b) {
            return r;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(Self::node(Op::Or, w, a, b, 0, 0))
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                return self.cst(x ^ c, w);
            }
            if w == 1 {
                return self.not(a);
            }
            if c == mask(w) {
                // ~x = -x - 1
                let n = self.neg(a);
                let m = self.cst(mask(w), w);
                return self.add(n, m);
            }
        }
        if w != 1 {
            if let Some(r) = self.bitwise_segs(Op::Xor, a, b) {
                return r;
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(Self::node(Op::Xor, w, a, b, 0, 0))
    }
    pub fn not(&mut self, a: T) -> T {
        debug_assert_eq!(self.w(a), 1);
        let n = self.n(a);
        match n.op {
            Op::Const => (n.k ^ 1) as T,
            Op::Not => n.a,
            _ => self.intern(Self::node(Op::Not, 1, a, 0, 0, 0)),
        }
    }

    // ---- shifts ------------------------------------------------------------------------------
    pub fn shlc(&mut self, a: T, s: u32) -> T {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.cst(0, w);
        }
        let hi = self.extract(a, 0, w - s);
        let z = self.cst(0, s);
        self.concat(hi, z)
    }
    pub fn lshrc(&mut self, a: T, s: u32) -> T {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.cst(0, w);
        }
        let x = self.extract(a, s, w - s);
        self.zext(x, w)
    }
    pub fn ashrc(&mut self, a: T, s: u32) -> T {
        let w = self.w(a);
        let s = s.min(w - 1);
        if s == 0 {
            return a;
        }
        let x = self.extract(a, s, w - s);
        self.sext_t(x, w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(b) {
            return self.shlc(a, c.min(200) as u32);
        }
        let w = self.w(a);
        self.intern(Self::node(Op::Shl, w, a, b, 0, 0))
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(b) {
            return self.lshrc(a, c.min(200) as u32);
        }
        let w = self.w(a);
        self.intern(Self::node(Op::LShr, w, a, b, 0, 0))
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(b) {
            return self.ashrc(a, c.min(200) as u32);
        }
        let w = self.w(a);
        self.intern(Self::node(Op::AShr, w, a, b, 0, 0))
    }

    // ---- structure ----------------------------------------------------------------------------
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        debug_assert!(w <= 128);
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Const {
            if nb.op == Op::Const {
                return self.cst((na.k << wb) | nb.k, w);
            }
            if na.k == 0 {
                return self.zext(b, w);
            }
        }
        // concat(concat(x, y), b) -> concat(x, concat(y, b))  (right-nested)
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // adjacent extracts
        let ext_of = |p: &Pool, t: T| -> Option<(T, u32, u32)> {
            let n = p.n(t);
            if n.op == Op::Extract {
                Some((n.a, n.k as u32, n.w as u32))
            } else {
                None
            }
        };
        if let Some((x, lo, _)) = ext_of(self, a) {
            if let Some((y, lo2, w2)) = ext_of(self, b) {
                if x == y && lo2 + w2 == lo {
                    return self.extract(x, lo2, w);
                }
            }
            if nb.op == Op::Concat {
                if let Some((y, lo2, w2)) = ext_of(self, nb.a) {
                    if x == y && lo2 + w2 == lo {
                        let m = self.extract(x, lo2, wa + w2);
                        return self.concat(m, nb.b);
                    }
                }
            }
            // low part may be the full low term: extract(x, lo..) ++ x'  where b == x truncated and x has width lo
        }
        if na.op == Op::Const && nb.op == Op::Concat {
            if let Some(k2) = self.as_const(nb.a) {
                let w2 = self.w(nb.a);
                let m = self.cst((na.k << w2) | k2, wa + w2);
                return self.concat(m, nb.b);
            }
        }
        // zext inside the low part: a ++ zext(y): split to a ++ (0 ++ y)
        if nb.op == Op::ZExt {
            let wy = self.w(nb.a);
            let z = self.cst(0, wb - wy);
            let hi = self.concat(a, z);
            if self.n(nb.a).op != Op::ZExt {
                return self.concat_raw(hi, nb.a);
            }
            return self.concat(hi, nb.a);
        }
        self.concat_raw(a, b)
    }
    fn concat_raw(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b));
        let na = self.n(a).clone();
        if na.op == Op::Concat {
            let r = self.concat_raw(na.b, b);
            return self.concat_raw(na.a, r);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, wa + wb);
        }
        self.intern(Self::node(Op::Concat, wa + wb, a, b, 0, 0))
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Extract if n.k == 0 => {
                let y = n.a;
                if self.ur(y).1 <= mask(wa) {
                    if self.w(y) == w {
                        return y;
                    }
                    if self.w(y) < w {
                        return self.zext(y, w);
                    }
                }
            }
            _ => {}
        }
        self.intern(Self::node(Op::ZExt, w, a, 0, 0, 0))
    }
    pub fn sext_t(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n(a).clone();
        if wa > 1 && self.sr(a).0 >= 0 {
            return self.zext(a, w);
        }
        match n.op {
            Op::Const => return self.cst(sext(n.k, wa) as u128, w),
            Op::SExt => return self.sext_t(n.a, w),
            Op::Extract if n.k == 0 => {
                let y = n.a;
                let (p, q) = self.sr(y);
                if p >= smin(wa) && q <= smax(wa) {
                    if self.w(y) == w {
                        return y;
                    }
                    if self.w(y) < w {
                        return self.sext_t(y, w);
                    }
                }
            }
            _ => {}
        }
        self.intern(Self::node(Op::SExt, w, a, 0, 0, 0))
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if w == wa {
            return a;
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wb = self.w(n.a);
                if lo >= wb {
                    return self.cst(0, w);
                }
                if lo + w <= wb {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, wb - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wb = self.w(n.a);
                if lo + w <= wb {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext_t(n.a, w);
                }
                if lo < wb {
                    let l = self.extract(n.a, lo, wb - lo);
                    return self.sext_t(l, w);
                }
                let sb = self.extract(n.a, wb - 1, 1);
                return self.sext_t(sb, w);
            }
            Op::Lin if lo == 0 && w > 1 => {
                let mut acc = vec![];
                let mut k = n.k & mask(w);
                for &(t, c) in n.lin.as_ref().unwrap().iter() {
                    let x = self.extract(t, 0, w);
                    self.lin_parts(x, c & mask(w), &mut acc, &mut k, w);
                }
                return self.mk_lin(acc, k, w);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor if w > 0 => {
                if self.as_const(n.a).is_some() || self.as_const(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return match n.op {
                        Op::And => self.and(x, y),
                        Op::Or => self.or(x, y),
                        _ => self.xor(x, y),
                    };
                }
            }
            _ => {}
        }
        // bits above the known unsigned range are zero
        let hi = self.ur(a).1;
        if hi != mask(wa) {
            let used = 128 - hi.leading_zeros();
            if lo >= used {
                return self.cst(0, w);
            }
            if lo > 0 && lo + w > used && used > lo {
                let x = self.intern(Self::node(Op::Extract, used - lo, a, 0, 0, lo as u128));
                return self.zext(x, w);
            }
        }
        self.intern(Self::node(Op::Extract, w, a, 0, 0, lo as u128))
    }

    // ---- predicates ----------------------------------------------------------------------------
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return Self::TRUE;
        }
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        let (u1, u2) = (self.ur(a), self.ur(b));
        if u1.1 < u2.0 || u2.1 < u1.0 {
            return Self::FALSE;
        }
        let (s1, s2) = (self.sr(a), self.sr(b));
        if w > 1 && (s1.1 < s2.0 || s2.1 < s1.0) {
            return Self::FALSE;
        }
        if w == 1 {
            if let Some(k) = self.as_const(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if let Some(k) = self.as_const(b) {
            if na.op == Op::Const {
                return Self::bool_t(na.k == k);
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if k > mask(wi) {
                        return Self::FALSE;
                    }
                    let c = self.cst(k, wi);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    if sext(k & mask(wi), wi) as u128 & mask(w) != k {
                        return Self::FALSE;
                    }
                    let c = self.cst(k, wi);
                    return self.eq(na.a, c);
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let c1 = self.cst(k >> wb, self.w(na.a));
                    let c2 = self.cst(k, wb);
                    let e1 = self.eq(na.a, c1);
                    let e2 = self.eq(na.b, c2);
                    return self.and(e1, e2);
                }
                Op::Ite => {
                    if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Lin => {
                    let l = na.lin.as_ref().unwrap();
                    if l.len() == 1 {
                        let (t, c) = l[0];
                        if c & 1 == 1 {
                            // invert odd coefficient modulo 2^w
                            let mut inv = 1u128;
                            for _ in 0..7 {
                                inv = inv
                                    .wrapping_mul(2u128.wrapping_sub(c.wrapping_mul(inv)));
                            }
                            let v = k.wrapping_sub(na.k).wrapping_mul(inv) & mask(w);
                            let v = self.cst(v, w);
                            return self.eq(t, v);
                        }
                    } else if na.k != 0 {
                        let x = self.mk_lin(l.to_vec(), 0, w);
                        let v = self.cst(k.wrapping_sub(na.k), w);
                        return self.eq(x, v);
                    } else {
                        // canonical sign
                        let first = l[0].1;
                        if sext(first, w) < 0 && first != 1u128 << (w - 1) {
                            let x = self.neg(a);
                            let v = self.cst(k.wrapping_neg(), w);
                            return self.eq(x, v);
                        }
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Lin || nb.op == Op::Lin {
                let d = self.sub(a, b);
                let z = self.cst(0, w);
                let dn = self.n(d);
                if dn.op == Op::Const {
                    return Self::bool_t(dn.k == 0);
                }
                if dn.op == Op::Lin && dn.lin.as_ref().unwrap().len() <= 2 && dn.k == 0 {
                    // x - y == 0 stays as x == y
                    let l = dn.lin.clone().unwrap();
                    if l.len() == 2 && l[0].1 == 1 && l[1].1 == mask(w) {
                        let (p, q) = (l[0].0, l[1].0);
                        return self.intern(Self::node(Op::Eq, 1, p, q, 0, 0));
                    }
                }
                return self.eq(d, z);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(Self::node(Op::Eq, 1, a, b, 0, 0))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return Self::FALSE;
        }
        let w = self.w(a);
        let (u1, u2) = (self.ur(a), self.ur(b));
        if u1.1 < u2.0 {
            return Self::TRUE;
        }
        if u1.0 >= u2.1 {
            return Self::FALSE;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if let Some(k) = self.as_const(b) {
            if k == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let wi = self.w(na.a);
                if k <= mask(wi) {
                    let c = self.cst(k, wi);
                    return self.ult(na.a, c);
                }
            }
            if na.op == Op::Concat {
                let wb = self.w(na.b);
                if k & mask(wb) == 0 {
                    let c = self.cst(k >> wb, self.w(na.a));
                    return self.ult(na.a, c);
                }
            }
        }
        if let Some(k) = self.as_const(a) {
            if nb.op == Op::ZExt {
                let wi = self.w(nb.a);
                if k <= mask(wi) {
                    let c = self.cst(k, wi);
                    return self.ult(c, nb.a);
                }
            }
            if k == 0 {
                let z = self.cst(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, m);
            let y = self.zext(nb.a, m);
            return self.ult(x, y);
        }
        self.intern(Self::node(Op::Ult, 1, a, b, 0, 0))
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return Self::FALSE;
        }
        let w = self.w(a);
        let (s1, s2) = (self.sr(a), self.sr(b));
        if s1.1 < s2.0 {
            return Self::TRUE;
        }
        if s1.0 >= s2.1 {
            return Self::FALSE;
        }
        if s1.0 >= 0 && s2.0 >= 0 && w > 1 {
            return self.ult(a, b);
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        // the sign of a concatenation is its first bit
        if na.op == Op::Concat && self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if nb.op == Op::Concat && self.as_const(a) == Some(mask(w)) {
            let top = self.extract(b, w - 1, 1);
            return self.not(top);
        }
        if na.op == Op::SExt {
            if let Some(k) = self.as_const(b) {
                let wi = self.w(na.a);
                let k = sext(k, w);
                if k >= smin(wi) && k <= smax(wi) && wi > 1 {
                    let c = self.cst(k as u128, wi);
                    return self.slt(na.a, c);
                }
            }
        }
        if nb.op == Op::SExt {
            if let Some(k) = self.as_const(a) {
                let wi = self.w(nb.a);
                let k = sext(k, w);
                if k >= smin(wi) && k <= smax(wi) && wi > 1 {
                    let c = self.cst(k as u128, wi);
                    return self.slt(c, nb.a);
                }
            }
        }
        self.intern(Self::node(Op::Slt, 1, a, b, 0, 0))
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == Self::TRUE || a == b {
            return a;
        }
        if c == Self::FALSE {
            return b;
        }
        let w = self.w(a);
        let cn = self.n(c).clone();
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            if a == Self::TRUE {
                return self.or(c, b);
            }
            if a == Self::FALSE {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == Self::TRUE {
                let nc = self.not(c);
                return self.or(nc, a);
            }
            if b == Self::FALSE {
                return self.and(c, a);
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // x == k ? k : x  -> x
        if cn.op == Op::Eq && ((cn.a == a && cn.b == b) || (cn.a == b && cn.b == a)) {
            return b;
        }
        self.intern(Self::node(Op::Ite, w, c, a, b, 0))
    }

    // ---- substitution of a known-true/false condition (cheap, one level) ------------------------
    // (not needed: path constraints are handled by the solver)

    // ---- evaluation ------------------------------------------------------------------------------
    pub fn eval(&self, t: T, vals: &[u128], memo: &mut FxMap<T, u128>) -> u128 {
        if let Some(k) = self.as_const(t) {
            return k;
        }
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        // iterative post-order to avoid deep recursion
        let mut stack: Vec<(T, bool)> = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.n(x).op == Op::Const || memo.contains_key(&x) {
                continue;
            }
            if !done {
                stack.push((x, true));
                self.children(x, |c| {
                    if !memo.contains_key(&c) {
                        stack.push((c, false))
                    }
                });
                continue;
            }
            let n = self.n(x);
            let g = |c: T| -> u128 {
                let cn = self.n(c);
                if cn.op == Op::Const {
                    cn.k
                } else {
                    memo[&c]
                }
            };
            let w = n.w as u32;
            let m = mask(w);
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => vals.get(n.k as usize).copied().unwrap_or(0) & m,
                Op::Lin => {
                    let mut s = n.k;
                    for &(t, c) in n.lin.as_ref().unwrap().iter() {
                        s = s.wrapping_add(g(t).wrapping_mul(c));
                    }
                    s & m
                }
                Op::Not => g(n.a) ^ 1,
                Op::Eq => (g(n.a) == g(n.b)) as u128,
                Op::Ult => (g(n.a) < g(n.b)) as u128,
                Op::Slt => {
                    let wa = self.w(n.a);
                    (sext(g(n.a), wa) < sext(g(n.b), wa)) as u128
                }
                Op::Ite => {
                    if g(n.a) == 1 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                Op::Extract => (g(n.a) >> n.k) & m,
                Op::ZExt => g(n.a),
                Op::SExt => sext(g(n.a), self.w(n.a)) as u128 & m,
                _ => conc_bin(n.op, g(n.a), g(n.b), w),
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
    pub fn children(&self, t: T, mut f: impl FnMut(T)) {
        let n = self.n(t);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Lin => {
                for &(t, _) in n.lin.as_ref().unwrap().iter() {
                    f(t)
                }
            }
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => f(n.a),
            Op::Ite => {
                f(n.a);
                f(n.b);
                f(n.c)
            }
            _ => {
                f(n.a);
                f(n.b)
            }
        }
    }
    fn touches(&mut self, t: T, vs: &[u64]) -> bool {
        if let Some(v) = self.varsets.get(&t) {
            return v.iter().zip(vs).any(|(a, b)| a & b != 0);
        }
        self.varset(t).iter().zip(vs).any(|(a, b)| a & b != 0)
    }
    /// Rebuild `t` with some subterms replaced (`roots`); `vs` is the set of variables of the replaced terms.
    pub fn subst(&mut self, t: T, roots: &FxMap<T, T>, vs: &[u64], memo: &mut FxMap<T, T>) -> T {
        if self.n(t).op == Op::Const || !self.touches(t, vs) {
            return t;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        if let Some(&r) = roots.get(&t) {
            memo.insert(t, r);
            return r;
        }
        let n = self.n(t).clone();
        let r = match n.op {
            Op::Const | Op::Var => t,
            Op::Lin => {
                let mut acc = vec![];
                let mut k = n.k;
                let mut ch = false;
                for &(x, c) in n.lin.as_ref().unwrap().iter() {
                    let y = self.subst(x, roots, vs, memo);
                    ch |= x != y;
                    self.lin_parts(y, c, &mut acc, &mut k, n.w as u32);
                }
                if ch {
                    self.mk_lin(acc, k, n.w as u32)
                } else {
                    t
                }
            }
            _ => {
                let a = self.subst(n.a, roots, vs, memo);
                let two = !matches!(n.op, Op::Not | Op::Extract | Op::ZExt | Op::SExt);
                let b = if two { self.subst(n.b, roots, vs, memo) } else { 0 };
                let c = if n.op == Op::Ite { self.subst(n.c, roots, vs, memo) } else { 0 };
                if a == n.a && (!two || b == n.b) && (n.op != Op::Ite || c == n.c) {
                    t
                } else {
                    match n.op {
                        Op::Mul => self.mul(a, b),
                        Op::UDiv => self.udiv(a, b),
                        Op::SDiv => self.sdiv(a, b),
                        Op::URem => self.urem(a, b),
                        Op::SRem => self.srem(a, b),
                        Op::And => self.and(a, b),
                        Op::Or => self.or(a, b),
                        Op::Xor => self.xor(a, b),
                        Op::Not => self.not(a),
                        Op::Shl => self.shl(a, b),
                        Op::LShr => self.lshr(a, b),
                        Op::AShr => self.ashr(a, b),
                        Op::Eq => self.eq(a, b),
                        Op::Ult => self.ult(a, b),
                        Op::Slt => self.slt(a, b),
                        Op::Ite => self.ite(a, b, c),
                        Op::Concat => self.concat(a, b),
                        Op::Extract => self.extract(a, n.k as u32, n.w as u32),
                        Op::ZExt => self.zext(a, n.w as u32),
                        Op::SExt => self.sext_t(a, n.w as u32),
                        Op::Const | Op::Var | Op::Lin => unreachable!(),
                    }
                }
            }
        };
        let r = if r != t { roots.get(&r).copied().unwrap_or(r) } else { r };
        memo.insert(t, r);
        r
    }
    /// What `c` being true says about its subterms: (term, its value), most specific first.
    pub fn learn(&mut self, c: T, out: &mut Vec<(T, T)>) {
        let n = self.n(c).clone();
        match n.op {
            Op::Not => {
                out.push((n.a, Self::FALSE));
                let m = self.n(n.a).clone();
                if m.op == Op::Extract {
                    self.learn_val(n.a, 0, out);
                }
                if m.op == Op::Eq && self.w(m.a) == 1 {
                    // not (a = const) of width 1
                    if let Some(k) = self.as_const(m.b) {
                        self.learn_val(m.a, k ^ 1, out);
                    }
                }
            }
            Op::Eq => {
                out.push((c, Self::TRUE));
                if let Some(k) = self.as_const(n.b) {
                    self.learn_val(n.a, k, out);
                } else if let Some(k) = self.as_const(n.a) {
                    self.learn_val(n.b, k, out);
                }
            }
            Op::Const => {}
            Op::Extract => self.learn_val(c, 1, out),
            _ => out.push((c, Self::TRUE)),
        }
    }
    fn learn_val(&mut self, t: T, k: u128, out: &mut Vec<(T, T)>) {
        let n = self.n(t).clone();
        let w = n.w as u32;
        if n.op == Op::Const {
            return;
        }
        let kt = self.cst(k, w);
        out.push((t, kt));
        match n.op {
            Op::ZExt | Op::SExt => {
                let wa = self.w(n.a);
                self.learn_val(n.a, k & mask(wa), out)
            }
            Op::Concat => {
                let wb = self.w(n.b);
                self.learn_val(n.a, k >> wb, out);
                self.learn_val(n.b, k & mask(wb), out);
            }
            Op::Extract => {
                let lo = n.k as u32;
                let wa = self.w(n.a);
                let mut r = kt;
                if lo > 0 {
                    let l = self.extract(n.a, 0, lo);
                    r = self.concat(r, l);
                }
                if lo + w < wa {
                    let h = self.extract(n.a, lo + w, wa - lo - w);
                    r = self.concat(h, r);
                }
                out.push((n.a, r));
            }
            Op::Lin => {
                let l = n.lin.as_ref().unwrap();
                if l.len() == 1 && l[0].1 & 1 == 1 {
                    let c = l[0].1;
                    // inverse of an odd coefficient modulo 2^w
                    let mut inv: u128 = 1;
                    for _ in 0..7 {
                        inv = inv.wrapping_mul(2u128.wrapping_sub(c.wrapping_mul(inv)));
                    }
                    let v = k.wrapping_sub(n.k).wrapping_mul(inv) & mask(w);
                    self.learn_val(l[0].0, v, out);
                }
            }
            _ => {}
        }
    }
    pub fn varset(&mut self, t: T) -> Rc<Vec<u64>> {
        if let Some(v) = self.varsets.get(&t) {
            return v.clone();
        }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.varsets.contains_key(&x) {
                continue;
            }
            if !done {
                stack.push((x, true));
                let mut cs = vec![];
                self.children(x, |c| cs.push(c));
                for c in cs {
                    if !self.varsets.contains_key(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            let n = self.n(x).clone();
            let mut out: Vec<u64> = vec![];
            if n.op == Op::Var {
                let i = n.k as usize;
                out.resize(i / 64 + 1, 0);
                out[i / 64] |= 1 << (i % 64);
                self.varsets.insert(x, Rc::new(out));
                continue;
            }
            let mut cs = vec![];
            self.children(x, |c| cs.push(c));
            let mut best: Option<Rc<Vec<u64>>> = None;
            for c in cs {
                let s = self.varsets[&c].clone();
                if s.is_empty() {
                    continue;
                }
                match &best {
                    None if out.is_empty() => {
                        best = Some(s.clone());
                    }
                    _ => {
                        if let Some(b) = best.take() {
                            if Rc::ptr_eq(&b, &s) {
                                best = Some(b);
                                continue;
                            }
                            out = (*b).clone();
                        }
                        if s.len() > out.len() {
                            out.resize(s.len(), 0);
                        }
                        for (i, v) in s.iter().enumerate() {
                            out[i] |= v;
                        }
                    }
                }
            }
            let r = match best {
                Some(b) => b,
                None => Rc::new(out),
            };
            self.varsets.insert(x, r);
        }
        self.varsets[&t].clone()
    }
}

pub fn conc_bin(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sext(a, w) >= 0 {
                    m
                } else {
                    1
                }
            } else {
                sext(a, w).wrapping_div(sext(b, w)) as u128 & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                sext(a, w).wrapping_rem(sext(b, w)) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let b = b.min(w as u128 - 1);
            (s >> b) as u128 & m
        }
        _ => unreachable!(),
    }
}

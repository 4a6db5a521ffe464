//! SMT back end: prints term slices as SMT-LIB (QF_BV), talks to z3 / cvc5 processes.

use crate::term::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unsat,
    Sat(Vec<(usize, u128)>), // variable index -> value
    Unknown(String),
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct Solver {
    z3: Option<Proc>,
    cache: FxMap<Vec<T>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max_time: Duration,
    pub timeout_ms: u64,
    pub hard_timeout_ms: u64,
    pub dump: Option<String>,
    pub z3_path: String,
    pub fallback_used: u64,
    since_reset: u32,
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            z3: None,
            cache: Default::default(),
            queries: 0,
            cache_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: Duration::ZERO,
            max_time: Duration::ZERO,
            timeout_ms: 20_000,
            hard_timeout_ms: 120_000,
            dump: None,
            z3_path: "z3-new".into(),
            fallback_used: 0,
            since_reset: 0,
        }
    }
    fn start(&mut self) {
        if self.z3.is_some() {
            return;
        }
        let mut child = Command::new(&self.z3_path)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.z3 = Some(Proc { child, inp, out });
    }

    /// satisfiability of the conjunction (already sliced)
    pub fn check(&mut self, pool: &Pool, conj: &[T]) -> Res {
        let mut key: Vec<T> = conj.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let (script, vars) = print_script(pool, &key);
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("{}(check-sat)\n", script));
        }
        self.queries += 1;
        let mut r = self.ask_z3(pool, &script, &vars, self.timeout_ms);
        if let Res::Unknown(_) = r {
            self.fallback_used += 1;
            r = self.portfolio(pool, &script, &vars);
        }
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                // every model is checked by evaluation against the queried terms
                let mut vals = vec![0u128; pool.vars.len()];
                for &(i, v) in m {
                    vals[i] = v;
                }
                let mut memo = FxMap::default();
                for &t in &key {
                    if pool.eval(t, &vals, &mut memo) != 1 {
                        r = Res::Unknown("solver model does not satisfy the query".into());
                        break;
                    }
                }
            }
            Res::Unsat => self.unsat += 1,
            Res::Unknown(_) => {}
        }
        if let Res::Unknown(_) = r {
            self.unknown += 1;
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn ask_z3(&mut self, pool: &Pool, script: &str, vars: &[usize], tmo: u64) -> Res {
        self.start();
        let p = self.z3.as_mut().unwrap();
        let mut s = String::with_capacity(script.len() + 256);
        // a fresh solver state now and then keeps the process small
        if self.since_reset == 0 {
            s.push_str("(reset)\n(set-option :print-success false)\n");
            let _ = writeln!(s, "(set-option :timeout {})", tmo);
            s.push_str("(set-logic QF_BV)\n");
        }
        self.since_reset = (self.since_reset + 1) % 200;
        s.push_str("(push)\n");
        s.push_str(script);
        s.push_str("(check-sat)\n(echo \"EOC\")\n");
        if p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).is_err() {
            self.kill();
            return Res::Unknown("z3 write".into());
        }
        let lines = match read_until_marker(&mut p.out, "EOC") {
            Some(l) => l,
            None => {
                self.kill();
                return Res::Unknown("z3 died".into());
            }
        };
        if lines.iter().any(|l| l.contains("(error")) {
            self.since_reset = 0;
            return Res::Unknown(format!("z3: {}", lines.join(" ")));
        }
        match lines.first().map(|s| s.as_str()) {
            Some("unsat") => {
                let _ = p.inp.write_all(b"(pop)\n");
                Res::Unsat
            }
            Some("sat") => {
                if vars.is_empty() {
                    let _ = p.inp.write_all(b"(pop)\n");
                    return Res::Sat(vec![]);
                }
                let mut q = String::from("(get-value (");
                for v in vars {
                    let _ = write!(q, "v{} ", v);
                }
                q.push_str("))\n(echo \"EOC\")\n(pop)\n");
                if p.inp.write_all(q.as_bytes()).and_then(|_| p.inp.flush()).is_err() {
                    self.kill();
                    return Res::Unknown("z3 write".into());
                }
                match read_until_marker(&mut p.out, "EOC") {
                    Some(l) => parse_model(pool, &l.join(" ")),
                    None => {
                        self.kill();
                        Res::Unknown("z3 died".into())
                    }
                }
            }
            x => {
                self.since_reset = 0;
                Res::Unknown(format!("z3: {:?}", x))
            }
        }
    }
    fn kill(&mut self) {
        self.since_reset = 0;
        if let Some(mut p) = self.z3.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }

    /// several solvers in parallel on one hard query
    fn portfolio(&mut self, pool: &Pool, script: &str, vars: &[usize]) -> Res {
        let mut full = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        full.push_str(script);
        full.push_str("(check-sat)\n");
        let mut fullm = full.clone();
        if !vars.is_empty() {
            fullm.push_str("(get-value (");
            for v in vars {
                let _ = write!(fullm, "v{} ", v);
            }
            fullm.push_str("))\n");
        }
        let secs = self.hard_timeout_ms / 1000;
        let dir = std::env::temp_dir().join(format!("symex-{}-{}", std::process::id(), self.queries));
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join("q.smt2");
        let _ = std::fs::write(&file, &fullm);
        let cmds: Vec<Vec<String>> = vec![
            vec!["cvc5".into(), "--produce-models".into(), "--bv-solver=bitblast".into(), format!("--tlimit={}", self.hard_timeout_ms), file.display().to_string()],
            vec!["cvc5".into(), "--produce-models".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={}", self.hard_timeout_ms), file.display().to_string()],
            vec!["z3".into(), format!("-T:{}", secs), file.display().to_string()],
        ];
        let mut kids: Vec<Option<Child>> = vec![];
        for (k, c) in cmds.iter().enumerate() {
            let o = std::fs::File::create(dir.join(format!("o{}", k))).unwrap();
            kids.push(Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(o).stderr(Stdio::null()).spawn().ok());
        }
        let t0 = Instant::now();
        let mut res = Res::Unknown("all solvers timed out".into());
        'w: while t0.elapsed().as_millis() < (self.hard_timeout_ms + 2000) as u128 {
            let mut alive = false;
            for k in 0..kids.len() {
                let done = match kids[k].as_mut() {
                    Some(c) => match c.try_wait() {
                        Ok(Some(_)) => true,
                        Ok(None) => {
                            alive = true;
                            false
                        }
                        Err(_) => true,
                    },
                    None => continue,
                };
                if done {
                    kids[k] = None;
                    let o = std::fs::read_to_string(dir.join(format!("o{}", k))).unwrap_or_default();
                    let first = o.lines().next().unwrap_or("");
                    if first == "unsat" {
                        res = Res::Unsat;
                        break 'w;
                    }
                    if first == "sat" {
                        let m: String = o.lines().skip(1).collect::<Vec<_>>().join(" ");
                        res = parse_model(pool, &m);
                        break 'w;
                    }
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        for k in kids.iter_mut() {
            if let Some(c) = k {
                let _ = c.kill();
                let _ = c.wait();
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        res
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill()
    }
}

fn read_until_marker(o: &mut BufReader<ChildStdout>, m: &str) -> Option<Vec<String>> {
    let mut v = vec![];
    loop {
        let mut l = String::new();
        match o.read_line(&mut l) {
            Ok(0) | Err(_) => return None,
            _ => {}
        }
        let t = l.trim();
        if t == m || t == format!("\"{}\"", m) {
            return Some(v);
        }
        if !t.is_empty() {
            v.push(t.to_string());
        }
    }
}

fn parse_model(_pool: &Pool, s: &str) -> Res {
    // ((v1 #x00) (v2 #b0) (v3 (_ bv3 8)))
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'v' && i > 0 && b[i - 1] == b'(' {
            let mut k = i + 1;
            let mut n = 0usize;
            while k < b.len() && b[k].is_ascii_digit() {
                n = n * 10 + (b[k] - b'0') as usize;
                k += 1;
            }
            while k < b.len() && b[k] == b' ' {
                k += 1;
            }
            let rest = &s[k..];
            let v = if let Some(h) = rest.strip_prefix("#x") {
                let e = h.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(h.len());
                u128::from_str_radix(&h[..e], 16).ok()
            } else if let Some(h) = rest.strip_prefix("#b") {
                let e = h.find(|c: char| c != '0' && c != '1').unwrap_or(h.len());
                u128::from_str_radix(&h[..e], 2).ok()
            } else if let Some(h) = rest.strip_prefix("(_ bv") {
                let e = h.find(|c: char| !c.is_ascii_digit()).unwrap_or(h.len());
                h[..e].parse().ok()
            } else if rest.starts_with("true") {
                Some(1)
            } else if rest.starts_with("false") {
                Some(0)
            } else {
                None
            };
            match v {
                Some(v) => out.push((n, v)),
                None => return Res::Unknown(format!("model parse: {}", &s[i..(i + 40).min(s.len())])),
            }
            i = k;
        }
        i += 1;
    }
    Res::Sat(out)
}

fn is_boolop(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::Not)
}

/// returns declarations + definitions + assertions, and the list of variables
pub fn print_script(pool: &Pool, conj: &[T]) -> (String, Vec<usize>) {
    // order
    let mut order: Vec<T> = vec![];
    let mut seen: FxSet<T> = Default::default();
    let mut st: Vec<(T, bool)> = conj.iter().rev().map(|&t| (t, false)).collect();
    let mut vars = vec![];
    while let Some((x, done)) = st.pop() {
        if done {
            order.push(x);
            continue;
        }
        if !seen.insert(x) {
            continue;
        }
        let n = pool.n(x);
        if n.op == Op::Const {
            continue;
        }
        if n.op == Op::Var {
            vars.push(n.k as usize);
            continue;
        }
        st.push((x, true));
        pool.children(x, |c| {
            if !seen.contains(&c) {
                st.push((c, false))
            }
        });
    }
    vars.sort_unstable();
    let mut s = String::new();
    for &v in &vars {
        let vi = &pool.vars[v];
        let _ = writeln!(s, "(declare-const v{} (_ BitVec {}))", v, vi.w);
    }
    for &v in &vars {
        let vi = &pool.vars[v];
        let w = vi.w;
        if vi.signed {
            let full_lo = if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) };
            let full_hi = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
            if vi.lo != full_lo {
                let _ = writeln!(s, "(assert (bvsge v{} (_ bv{} {})))", v, vi.lo as u128 & mask(w), w);
            }
            if vi.hi != full_hi {
                let _ = writeln!(s, "(assert (bvsle v{} (_ bv{} {})))", v, vi.hi as u128 & mask(w), w);
            }
        } else {
            if vi.lo != 0 {
                let _ = writeln!(s, "(assert (bvuge v{} (_ bv{} {})))", v, vi.lo, w);
            }
            if vi.hi as u128 != mask(w) {
                let _ = writeln!(s, "(assert (bvule v{} (_ bv{} {})))", v, vi.hi, w);
            }
        }
    }
    // every node gets a definition: bool ops are defined as Bool b<i>, others as bit-vectors t<i>
    fn bv(pool: &Pool, t: T, o: &mut String) {
        let n = pool.n(t);
        match n.op {
            Op::Const => {
                let _ = write!(o, "(_ bv{} {})", n.k, n.w);
            }
            Op::Var => {
                let _ = write!(o, "v{}", n.k);
            }
            _ => {
                if is_bool(pool, t) {
                    let _ = write!(o, "(ite b{} #b1 #b0)", t);
                } else {
                    let _ = write!(o, "t{}", t);
                }
            }
        }
    }
    fn is_bool(pool: &Pool, t: T) -> bool {
        let n = pool.n(t);
        n.w == 1 && (is_boolop(n.op) || matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite))
    }
    fn bo(pool: &Pool, t: T, o: &mut String) {
        let n = pool.n(t);
        match n.op {
            Op::Const => o.push_str(if n.k == 1 { "true" } else { "false" }),
            _ => {
                if is_bool(pool, t) {
                    let _ = write!(o, "b{}", t);
                } else {
                    o.push_str("(= ");
                    bv(pool, t, o);
                    o.push_str(" #b1)");
                }
            }
        }
    }
    for &x in &order {
        let n = pool.n(x);
        let w = n.w as u32;
        if is_bool(pool, x) {
            let _ = write!(s, "(define-fun b{} () Bool ", x);
            match n.op {
                Op::Not => {
                    s.push_str("(not ");
                    bo(pool, n.a, &mut s);
                    s.push(')');
                }
                Op::And | Op::Or | Op::Xor => {
                    s.push_str(match n.op {
                        Op::And => "(and ",
                        Op::Or => "(or ",
                        _ => "(xor ",
                    });
                    bo(pool, n.a, &mut s);
                    s.push(' ');
                    bo(pool, n.b, &mut s);
                    s.push(')');
                }
                Op::Ite => {
                    s.push_str("(ite ");
                    bo(pool, n.a, &mut s);
                    s.push(' ');
                    bo(pool, n.b, &mut s);
                    s.push(' ');
                    bo(pool, n.c, &mut s);
                    s.push(')');
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    s.push_str(match n.op {
                        Op::Eq => "(= ",
                        Op::Ult => "(bvult ",
                        _ => "(bvslt ",
                    });
                    bv(pool, n.a, &mut s);
                    s.push(' ');
                    bv(pool, n.b, &mut s);
                    s.push(')');
                }
                _ => unreachable!(),
            }
            s.push_str(")\n");
            continue;
        }
        let _ = write!(s, "(define-fun t{} () (_ BitVec {}) ", x, w);
        match n.op {
            Op::Lin => {
                let l = n.lin.as_ref().unwrap();
                // sum of positive-coefficient parts minus the others
                let mut acc = String::new();
                let mut first = true;
                if n.k != 0 {
                    let _ = write!(acc, "(_ bv{} {})", n.k, w);
                    first = false;
                }
                for &(t, c) in l.iter() {
                    let cs = sext(c, w);
                    let neg = cs < 0;
                    let ca = if neg { (cs.unsigned_abs()) & mask(w) } else { c };
                    let mut term = String::new();
                    if ca == 1 {
                        bv(pool, t, &mut term);
                    } else if ca.is_power_of_two() {
                        term.push_str("(bvshl ");
                        bv(pool, t, &mut term);
                        let _ = write!(term, " (_ bv{} {}))", ca.trailing_zeros(), w);
                    } else {
                        term.push_str("(bvmul ");
                        let _ = write!(term, "(_ bv{} {}) ", ca, w);
                        bv(pool, t, &mut term);
                        term.push(')');
                    }
                    if first {
                        if neg {
                            acc = format!("(bvneg {})", term);
                        } else {
                            acc = term;
                        }
                        first = false;
                    } else {
                        acc = format!("({} {} {})", if neg { "bvsub" } else { "bvadd" }, acc, term);
                    }
                }
                s.push_str(&acc);
            }
            Op::Ite => {
                s.push_str("(ite ");
                bo(pool, n.a, &mut s);
                s.push(' ');
                bv(pool, n.b, &mut s);
                s.push(' ');
                bv(pool, n.c, &mut s);
                s.push(')');
            }
            Op::Extract => {
                let _ = write!(s, "((_ extract {} {}) ", n.k as u32 + w - 1, n.k);
                bv(pool, n.a, &mut s);
                s.push(')');
            }
            Op::ZExt => {
                let _ = write!(s, "((_ zero_extend {}) ", w - pool.w(n.a));
                bv(pool, n.a, &mut s);
                s.push(')');
            }
            Op::SExt => {
                let _ = write!(s, "((_ sign_extend {}) ", w - pool.w(n.a));
                bv(pool, n.a, &mut s);
                s.push(')');
            }
            _ => {
                s.push_str(match n.op {
                    Op::Mul => "(bvmul ",
                    Op::UDiv => "(bvudiv ",
                    Op::SDiv => "(bvsdiv ",
                    Op::URem => "(bvurem ",
                    Op::SRem => "(bvsrem ",
                    Op::And => "(bvand ",
                    Op::Or => "(bvor ",
                    Op::Xor => "(bvxor ",
                    Op::Shl => "(bvshl ",
                    Op::LShr => "(bvlshr ",
                    Op::AShr => "(bvashr ",
                    Op::Concat => "(concat ",
                    _ => panic!("print {:?}", n),
                });
                bv(pool, n.a, &mut s);
                s.push(' ');
                bv(pool, n.b, &mut s);
                s.push(')');
            }
        }
        s.push_str(")\n");
    }
    for &t in conj {
        s.push_str("(assert ");
        bo(pool, t, &mut s);
        s.push_str(")\n");
    }
    (s, vars)
}

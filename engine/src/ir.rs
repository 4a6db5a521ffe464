//! Textual LLVM IR reader (module index + lazily parsed function bodies).

use crate::term::FxMap;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => match *w {
                1..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                w => ((w as u64 + 127) / 128) * 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let s = n * t.bits();
                (s + 7) / 8
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            _ => self.size() * 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.size().min(16).max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {:?}", self),
        }
    }
    /// element width in bits for scalars / vector lanes
    pub fn lane_w(&self) -> u32 {
        match self {
            Ty::Vec(_, t) => t.lane_w(),
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}
pub fn align_up(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

/// Constant values
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128, u32),
    Agg(Vec<(Cst, Ty)>),
    Bytes(Vec<u8>),
    Zero(Ty),
    Undef(Ty),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Cst(Rc<Cst>),
    C(u64), // scalar of width <= 64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Same,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
}

#[derive(Clone, Debug)]
pub struct CallArg {
    pub v: Opnd,
    pub ty: Ty,
    pub byval: u64,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, u32, Opnd, Opnd),
    Icmp(Pred, u32, u32, Opnd, Opnd),
    Select(u32, Opnd, Opnd, Opnd, Ty),
    Cast(CastOp, u32, u32, u32, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, u64)>),
    Alloca(u32, u64, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Call(Option<u32>, Callee, Vec<CallArg>, Ty, Option<u32>), // last: normal destination of an invoke
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Opnd, Opnd, Vec<u32>, Ty),
    ExtractElement(u32, Opnd, Opnd),
    InsertElement(u32, Opnd, Opnd, Opnd, Ty),
    Shuffle(u32, Opnd, Opnd, Vec<i64>, u64),
    AtomicRmw(String, u32, Opnd, Ty, Opnd),
    CmpXchg(u32, Opnd, Ty, Opnd, Opnd),
    /// floating point: operation, width of the operands, width of the result, destination, operands
    Fp(String, u32, u32, u32, Opnd, Opnd),
    /// vector bitcast: destination, lanes and width before, lanes and width after (0 lanes: scalar)
    VCast(u32, u64, u32, u64, u32, Opnd),
    Nop,
    Copy(u32, Opnd),
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub phiw: Vec<u32>,
    pub ins: Vec<(I, u32)>,
}
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nregs: u32,
    pub params: Vec<(u32, Ty)>,
    pub blocks: Vec<Block>,
    /// immediate post-dominator block index (u32::MAX = none)
    pub ipdom: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SymKind {
    Func,
    Decl,
    Global,
}

pub struct FnInfo {
    pub name: Rc<str>,
    pub defined: bool,
    pub hdr: (usize, usize),
    pub body: (usize, usize),
    pub parsed: RefCell<Option<Rc<Func>>>,
}
pub struct GlobInfo {
    pub name: Rc<str>,
    pub line: (usize, usize), // text after '='
    pub init: RefCell<Option<Rc<GlobInit>>>,
}
pub struct GlobInit {
    pub bytes: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub types: RefCell<FxMap<String, Ty>>,
    pub type_src: FxMap<String, (usize, usize)>,
    pub fns: Vec<FnInfo>,
    pub globs: Vec<GlobInfo>,
    pub syms: FxMap<String, (SymKind, u32)>,
    pub aliases: FxMap<String, String>,
    pub md: FxMap<u32, (usize, usize)>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub fn fn_addr(id: u32) -> u64 {
    (FN_BASE + id as u64) << 32
}
pub fn glob_addr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1
                }
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        let save = self.i;
        self.ws();
        let c = *self.s.get(self.i).unwrap_or(&0);
        if c == b'\n' || self.s[save..self.i.min(self.s.len())].contains(&b'\n') {
            self.i = save;
        }
        c
    }
    fn eat(&mut self, t: &str) -> bool {
        let save = self.i;
        let r = self.eat_(t);
        if !r {
            self.i = save;
        }
        r
    }
    fn eat_(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() {
                if let Some(&c) = self.s.get(self.i + t.len()) {
                    if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let e = (self.i + 120).min(self.s.len());
            panic!("expected `{}` at `{}`", t, String::from_utf8_lossy(&self.s[self.i..e]));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' {
                self.i += 1
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    /// name after a sigil (already consumed)
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                    self.i += 1
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        self.ws();
        if self.s.get(self.i) != Some(&b'(') {
            return;
        }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
            return true;
        }
        let w = self.peek_word();
        if w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "fp128" || w == "x86_fp80" {
            return true;
        }
        w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())
    }
    /// skip attribute words until a type or one of the stop characters
    fn skip_attrs_to_type(&mut self) {
        while !self.at_type() {
            let c = self.peek();
            if c == b'"' {
                self.name();
                if self.peek() == b'=' {
                    self.i += 1;
                    self.name();
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                let e = (self.i + 80).min(self.s.len());
                panic!("skip_attrs at `{}`", String::from_utf8_lossy(&self.s[self.i..e]));
            }
            self.skip_parens();
        }
    }
    fn line_rest(&mut self) -> &'a str {
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
}

impl Module {
    pub fn load(paths: &[String]) -> Module {
        let mut text = String::new();
        let mut m = Module {
            text: String::new(),
            types: Default::default(),
            type_src: Default::default(),
            fns: vec![],
            globs: vec![],
            syms: Default::default(),
            aliases: Default::default(),
            md: Default::default(),
        };
        for (k, p) in paths.iter().enumerate() {
            if k > 0 {
                text.push('\n');
            }
            let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p, e));
            if k == 0 {
                text = t;
            } else {
                // second module: rename metadata, types, attributes by suffix to keep them apart
                text.push_str(&t);
            }
        }
        let nmods_split: Vec<usize> = {
            let mut v = vec![];
            let mut off = 0;
            for (k, p) in paths.iter().enumerate() {
                if k > 0 {
                    off += 1;
                }
                off += std::fs::metadata(p).unwrap().len() as usize;
                v.push(off);
            }
            v
        };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = memchr_nl(b, i);
            match b[i] {
                b'd' if b[i..e].starts_with(b"define ") => {
                    // body up to "\n}\n"
                    let mut q = e + 1;
                    loop {
                        let e2 = memchr_nl(b, q);
                        if b[q] == b'}' {
                            break;
                        }
                        q = e2 + 1;
                    }
                    let name = fn_name(&text[i..e]);
                    m.add_fn(name, true, (i, e), (e + 1, q));
                    i = memchr_nl(b, q) + 1;
                    continue;
                }
                b'd' if b[i..e].starts_with(b"declare ") => {
                    let name = fn_name(&text[i..e]);
                    m.add_fn(name, false, (i, e), (0, 0));
                }
                b'@' => {
                    let mut p = P { s: b, i: i + 1 };
                    let name = p.name();
                    p.expect("=");
                    let st = p.i;
                    let line = &text[st..e];
                    if line.contains(" alias ") && !line.contains('"') {
                        if let Some(k) = line.rfind('@') {
                            let mut q = P::new(&line[k + 1..]);
                            let tgt = q.name();
                            m.aliases.insert(name, tgt);
                        }
                    } else {
                        let rc: Rc<str> = Rc::from(name.as_str());
                        if !m.syms.contains_key(&name) {
                            m.syms.insert(name, (SymKind::Global, m.globs.len() as u32));
                            m.globs.push(GlobInfo { name: rc, line: (st, e), init: RefCell::new(None) });
                        } else if !line.trim_start().starts_with("external") && false {
                        } else {
                            // same private name in the second module: keep apart is not supported
                            let k = m.syms[&name].1 as usize;
                            let old = &text[m.globs[k].line.0..m.globs[k].line.1];
                            if old.trim_start().starts_with("external") {
                                m.globs[k].line = (st, e);
                            } else if !line.trim_start().starts_with("external") && strip_md(old) != strip_md(line) {
                                panic!("conflicting definitions of global {}", name);
                            }
                        }
                    }
                }
                b'%' => {
                    let mut p = P { s: b, i: i + 1 };
                    let name = p.name();
                    p.expect("=");
                    p.expect("type");
                    m.type_src.insert(name, (p.i, e));
                }
                b'!' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => {
                    if i < nmods_split[0] {
                        let mut k = i + 1;
                        let mut n = 0u32;
                        while b[k].is_ascii_digit() {
                            n = n * 10 + (b[k] - b'0') as u32;
                            k += 1;
                        }
                        m.md.insert(n, (k, e));
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        m.text = text;
        m
    }
    fn add_fn(&mut self, name: String, defined: bool, hdr: (usize, usize), body: (usize, usize)) {
        if let Some(&(SymKind::Func, k)) = self.syms.get(&name) {
            let f = &mut self.fns[k as usize];
            if defined && !f.defined {
                f.defined = true;
                f.hdr = hdr;
                f.body = body;
            }
            return;
        }
        let rc: Rc<str> = Rc::from(name.as_str());
        self.syms.insert(name, (SymKind::Func, self.fns.len() as u32));
        self.fns.push(FnInfo { name: rc, defined, hdr, body, parsed: RefCell::new(None) });
    }
    pub fn lookup(&self, n: &str) -> Option<(SymKind, u32)> {
        if let Some(x) = self.syms.get(n) {
            return Some(*x);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.lookup(a);
        }
        None
    }
    fn sym_addr(&self, n: &str) -> u64 {
        match self.lookup(n) {
            Some((SymKind::Global, k)) => glob_addr(k),
            Some((_, k)) => fn_addr(k),
            None => panic!("unknown symbol @{}", n),
        }
    }
    pub fn ty(&self, p: &mut P) -> Ty {
        let c = p.peek();
        let mut t = match c {
            b'{' => {
                p.i += 1;
                let mut v = vec![];
                while !p.eat("}") {
                    v.push(self.ty(p));
                    p.eat(",");
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'[' => {
                p.i += 1;
                let n: u64 = p.word().parse().unwrap();
                p.expect("x");
                let t = self.ty(p);
                p.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let mut v = vec![];
                    while !p.eat("}") {
                        v.push(self.ty(p));
                        p.eat(",");
                    }
                    p.expect(">");
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u64 = p.word().parse().unwrap();
                    p.expect("x");
                    let t = self.ty(p);
                    p.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                if let Some(t) = self.types.borrow().get(&n) {
                    return t.clone();
                }
                let (a, b) = *self.type_src.get(&n).unwrap_or_else(|| panic!("type {}", n));
                let src = &self.text[a..b];
                let t = if src.trim() == "opaque" {
                    Ty::Other
                } else {
                    self.ty(&mut P::new(src))
                };
                self.types.borrow_mut().insert(n, t.clone());
                t
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if p.peek_word() == "addrspace" {
                            p.word();
                            p.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "x86_fp80" | "fp128" => Ty::Float(128),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w.as_bytes()[0] == b'i' {
                            Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w)))
                        } else {
                            let e = (p.i + 60).min(p.s.len());
                            panic!("type `{}` near {}", w, String::from_utf8_lossy(&p.s[p.i..e]))
                        }
                    }
                }
            }
        };
        // function type in calls: ret (args...)
        if p.peek() == b'(' && !matches!(t, Ty::Other) {
            p.skip_parens();
            t = t;
        }
        t
    }

    /// constant of the given type
    pub fn cst(&self, p: &mut P, ty: &Ty) -> Cst {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                return Cst::Int(self.sym_addr(&n) as u128, 64);
            }
            b'{' | b'[' => {
                p.i += 1;
                let close = if c == b'{' { "}" } else { "]" };
                let mut v = vec![];
                while !p.eat(close) {
                    let t = self.ty(p);
                    let x = self.cst(p, &t);
                    v.push((x, t));
                    p.eat(",");
                }
                return Cst::Agg(v);
            }
            b'<' => {
                p.i += 1;
                let packed = p.eat("{");
                let mut v = vec![];
                loop {
                    if packed {
                        if p.eat("}") {
                            p.expect(">");
                            break;
                        }
                    } else if p.eat(">") {
                        break;
                    }
                    let t = self.ty(p);
                    let x = self.cst(p, &t);
                    v.push((x, t));
                    p.eat(",");
                }
                return Cst::Agg(v);
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut out = vec![];
                loop {
                    let c = p.s[p.i];
                    if c == b'"' {
                        p.i += 1;
                        break;
                    }
                    if c == b'\\' {
                        let h = |x: u8| (x as char).to_digit(16).unwrap() as u8;
                        if p.s[p.i + 1] == b'\\' {
                            out.push(b'\\');
                            p.i += 2;
                        } else {
                            out.push(h(p.s[p.i + 1]) * 16 + h(p.s[p.i + 2]));
                            p.i += 3;
                        }
                    } else {
                        out.push(c);
                        p.i += 1;
                    }
                }
                return Cst::Bytes(out);
            }
            _ => {}
        }
        let w = p.word();
        let lw = ty.lane_w();
        match w {
            "true" => Cst::Int(1, 1),
            "false" => Cst::Int(0, 1),
            "null" => Cst::Int(0, 64),
            "none" => Cst::Int(0, 64),
            "zeroinitializer" => Cst::Zero(ty.clone()),
            "undef" | "poison" => Cst::Undef(ty.clone()),
            "splat" => {
                p.expect("(");
                let t = self.ty(p);
                let x = self.cst(p, &t);
                p.expect(")");
                if let Ty::Vec(n, _) = ty {
                    Cst::Agg((0..*n).map(|_| (x.clone(), t.clone())).collect())
                } else {
                    panic!("splat")
                }
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.peek() == b'(' {
                        // inrange(...)
                        let save = p.i;
                        p.skip_parens();
                        if p.peek() != b'(' {
                            p.i = save;
                            break;
                        }
                    }
                }
                p.expect("(");
                let t = self.ty(p);
                p.expect(",");
                let bt = self.ty(p);
                let base = self.cst(p, &bt);
                let mut a = base.int() as i128;
                let mut cur = t.clone();
                let mut first = true;
                while p.eat(",") {
                    p.eat("inrange");
                    let it = self.ty(p);
                    let iv = self.cst(p, &it);
                    let k = crate::term::sext(iv.int(), it.lane_w());
                    if first {
                        a += k * cur.size() as i128;
                        first = false;
                    } else {
                        let (o, ft) = match &cur {
                            Ty::Arr(_, e) => (k * e.size() as i128, (**e).clone()),
                            _ => {
                                let (o, f) = cur.field(k as u64);
                                (o as i128, f)
                            }
                        };
                        a += o;
                        cur = ft;
                    }
                }
                p.expect(")");
                Cst::Int(a as u64 as u128, 64)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                p.expect("(");
                let t = self.ty(p);
                let x = self.cst(p, &t);
                p.expect("to");
                let t2 = self.ty(p);
                p.expect(")");
                let v = x.int();
                let v = if w == "sext" { crate::term::sext(v, t.lane_w()) as u128 } else { v };
                Cst::Int(v & crate::term::mask(t2.lane_w()), t2.lane_w())
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect("(");
                let t = self.ty(p);
                let x = self.cst(p, &t).int();
                p.expect(",");
                let t2 = self.ty(p);
                let y = self.cst(p, &t2).int();
                p.expect(")");
                let v = match w {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    _ => x >> y,
                };
                Cst::Int(v & crate::term::mask(t.lane_w()), t.lane_w())
            }
            _ => {
                // integer or float literal
                if matches!(ty, Ty::Float(_)) {
                    let bits = if let Some(h) = w.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap_or(0)
                    } else {
                        w.parse::<f64>().unwrap_or(0.0).to_bits()
                    };
                    // a constant of either width is written as a double
                    let bits = if lw == 32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits };
                    return Cst::Int(bits as u128, lw);
                }
                let v = if let Some(x) = w.strip_prefix('-') {
                    (x.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w))).wrapping_neg()
                } else {
                    w.parse::<u128>().unwrap_or_else(|_| {
                        let e = (p.i + 60).min(p.s.len());
                        panic!("constant `{}` {:?} near {}", w, ty, String::from_utf8_lossy(&p.s[p.i..e]))
                    })
                };
                Cst::Int(v & crate::term::mask(lw), lw)
            }
        }
    }

    pub fn glob_init(&self, k: u32) -> Rc<GlobInit> {
        let g = &self.globs[k as usize];
        if let Some(x) = g.init.borrow().as_ref() {
            return x.clone();
        }
        let line = &self.text[g.line.0..g.line.1];
        let mut p = P::new(line);
        let mut external = false;
        let constant;
        loop {
            let c = p.peek();
            if c == b'"' {
                p.name();
                continue;
            }
            let w = p.word();
            match w {
                "external" | "extern_weak" | "available_externally" => external = w != "available_externally",
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => {
                    constant = false;
                    break;
                }
                "" => panic!("global line {}", line),
                _ => p.skip_parens(),
            }
        }
        let ty = self.ty(&mut p);
        let mut bytes = vec![0u8; ty.size() as usize];
        if !external {
            let c = self.cst(&mut p, &ty);
            write_cst(&c, &ty, &mut bytes);
        }
        let r = Rc::new(GlobInit { bytes, constant });
        *g.init.borrow_mut() = Some(r.clone());
        r
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        let fi = &self.fns[id as usize];
        if let Some(f) = fi.parsed.borrow().as_ref() {
            return f.clone();
        }
        assert!(fi.defined, "function {} has no body", fi.name);
        let f = Rc::new(self.parse_fn(id));
        *fi.parsed.borrow_mut() = Some(f.clone());
        f
    }

    fn parse_fn(&self, id: u32) -> Func {
        let fi = &self.fns[id as usize];
        let hdr = &self.text[fi.hdr.0..fi.hdr.1];
        let mut regs: FxMap<String, u32> = FxMap::default();
        let mut nregs = 0u32;
        let mut params = vec![];
        let mut unnamed = 0usize;
        {
            let mut p = P::new(hdr);
            // find @name( at depth 0
            let at = find_fn_at(hdr);
            p.i = at + 1;
            p.name();
            p.expect("(");
            while !p.eat(")") {
                if p.eat("...") {
                    continue;
                }
                let t = self.ty(&mut p);
                // attributes until , or ) at depth 0, capturing %name
                let mut nm = None;
                loop {
                    let c = p.peek();
                    if c == b',' || c == b')' {
                        break;
                    }
                    if c == b'%' {
                        p.i += 1;
                        nm = Some(p.name());
                        continue;
                    }
                    if c == b'"' {
                        p.name();
                        if p.peek() == b'=' {
                            p.i += 1;
                            p.name();
                        }
                        continue;
                    }
                    let w = p.word();
                    assert!(!w.is_empty(), "param attrs: {}", hdr);
                    p.skip_parens();
                }
                let nm = match nm {
                    Some(n) => {
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        n
                    }
                    None => {
                        unnamed += 1;
                        format!("{}", unnamed - 1)
                    }
                };
                regs.insert(nm, nregs);
                params.push((nregs, t));
                nregs += 1;
                p.eat(",");
            }
        }
        let body = &self.text[fi.body.0..fi.body.1];
        // labels
        let mut labels: FxMap<String, u32> = FxMap::default();
        let mut nb = 0u32;
        {
            let b = body.as_bytes();
            let mut i = 0;
            let mut first = true;
            let mut entry_implicit = false;
            while i < b.len() {
                let e = memchr_nl(b, i);
                if e > i {
                    if let Some(l) = label_of(&body[i..e]) {
                        labels.insert(l, nb);
                        nb += 1;
                    } else if first && b[i] == b' ' {
                        entry_implicit = true;
                        // number of the implicit entry block: next unnamed value
                        let k = unnamed;
                        labels.insert(format!("{}", k), nb);
                        nb += 1;
                    }
                    if b[i] != b';' {
                        first = false;
                    }
                }
                i = e + 1;
            }
            let _ = entry_implicit;
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], phiw: vec![], ins: vec![] }).collect();
        let mut cur = 0usize;
        let mut started = false;
        let mut p = P::new(body);
        let getreg = |regs: &mut FxMap<String, u32>, nregs: &mut u32, n: &str| -> u32 {
            if let Some(&r) = regs.get(n) {
                return r;
            }
            let r = *nregs;
            *nregs += 1;
            regs.insert(n.to_string(), r);
            r
        };
        loop {
            // at line start
            while p.i < p.s.len() && p.s[p.i] == b'\n' {
                p.i += 1;
            }
            if p.i >= p.s.len() {
                break;
            }
            let e = memchr_nl(p.s, p.i);
            let line = &body[p.i..e];
            let tl = line.trim_start();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with('#') {
                p.i = e + 1;
                continue;
            }
            if let Some(l) = label_of(line) {
                cur = labels[&l] as usize;
                started = true;
                p.i = e + 1;
                continue;
            }
            if !started {
                started = true;
                cur = 0;
            }
            // instruction
            let start = p.i;
            let mut dst: Option<u32> = None;
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                p.expect("=");
                dst = Some(getreg(&mut regs, &mut nregs, &n));
            }
            let mut ctx = Ctx { m: self, regs: &mut regs, nregs: &mut nregs, labels: &labels };
            let r = ctx.instr(&mut p, dst);
            // rest of the line: !dbg
            let rest = p.line_rest();
            let dbg = match rest.find("!dbg !") {
                Some(k) => {
                    let mut n = 0u32;
                    for c in rest[k + 6..].bytes() {
                        if c.is_ascii_digit() {
                            n = n * 10 + (c - b'0') as u32
                        } else {
                            break;
                        }
                    }
                    n
                }
                None => 0,
            };
            match r {
                PR::Phi(v, w) => {
                    blocks[cur].phis.push((dst.unwrap(), v));
                    blocks[cur].phiw.push(w);
                }
                PR::Ins(i) => {
                    if let I::Unsupported(ref s) = i {
                        let _ = (start, s);
                    }
                    blocks[cur].ins.push((i, dbg))
                }
                PR::Skip => {}
            }
        }
        let ipdom = post_dominators(&blocks);
        Func { id, name: fi.name.clone(), nregs, params, blocks, ipdom }
    }

    // ---- debug info -------------------------------------------------------------------------
    pub fn md_text(&self, n: u32) -> &str {
        match self.md.get(&n) {
            Some(&(a, b)) => &self.text[a..b],
            None => "",
        }
    }
    pub fn md_ref(&self, t: &str, key: &str) -> u32 {
        let pat = format!("{}: !", key);
        if let Some(k) = t.find(&pat) {
            let mut n = 0;
            for c in t[k + pat.len()..].bytes() {
                if c.is_ascii_digit() {
                    n = n * 10 + (c - b'0') as u32
                } else {
                    break;
                }
            }
            n
        } else {
            0
        }
    }
    pub fn md_num(t: &str, key: &str) -> u32 {
        let pat = format!("{}: ", key);
        if let Some(k) = t.find(&pat) {
            let mut n = 0;
            for c in t[k + pat.len()..].bytes() {
                if c.is_ascii_digit() {
                    n = n * 10 + (c - b'0') as u32
                } else {
                    break;
                }
            }
            n
        } else {
            0
        }
    }
    pub fn md_str(t: &str, key: &str) -> String {
        let pat = format!("{}: \"", key);
        if let Some(k) = t.find(&pat) {
            let r = &t[k + pat.len()..];
            r[..r.find('"').unwrap_or(0)].to_string()
        } else {
            String::new()
        }
    }
    /// inline stack of a DILocation: (function linkage/name, file, line), innermost first
    pub fn locs(&self, mut n: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        while n != 0 {
            let t = self.md_text(n);
            if !t.contains("DILocation(") {
                break;
            }
            let line = Self::md_num(t, "line");
            let mut sc = self.md_ref(t, "scope");
            let ia = self.md_ref(t, "inlinedAt");
            let mut file = String::new();
            let mut name = String::new();
            for _ in 0..64 {
                let st = self.md_text(sc);
                if file.is_empty() {
                    let f = self.md_ref(st, "file");
                    if f != 0 {
                        file = Self::md_str(self.md_text(f), "filename");
                    }
                }
                if st.contains("DISubprogram(") {
                    name = Self::md_str(st, "linkageName");
                    if name.is_empty() {
                        name = Self::md_str(st, "name");
                    }
                    break;
                }
                sc = self.md_ref(st, "scope");
                if sc == 0 {
                    break;
                }
            }
            out.push((name, file, line));
            n = ia;
        }
        out
    }
}

impl Cst {
    pub fn int(&self) -> u128 {
        match self {
            Cst::Int(v, _) => *v,
            Cst::Zero(_) | Cst::Undef(_) => 0,
            _ => panic!("constant is not an integer: {:?}", self),
        }
    }
}

fn write_cst(c: &Cst, ty: &Ty, out: &mut [u8]) {
    match c {
        Cst::Zero(_) | Cst::Undef(_) => {}
        Cst::Bytes(b) => out[..b.len()].copy_from_slice(b),
        Cst::Int(v, _) => {
            let n = ty.size() as usize;
            let by = v.to_le_bytes();
            out[..n.min(16)].copy_from_slice(&by[..n.min(16)]);
        }
        Cst::Agg(v) => {
            for (k, (x, t)) in v.iter().enumerate() {
                let (o, _) = match ty {
                    Ty::Struct(..) => ty.field(k as u64),
                    _ => (k as u64 * t.size(), Ty::Void),
                };
                write_cst(x, t, &mut out[o as usize..]);
            }
        }
    }
}

fn strip_md(s: &str) -> String {
    // drop trailing metadata / attribute references
    match s.find(", !") {
        Some(k) => s[..k].trim().to_string(),
        None => s.trim().to_string(),
    }
}

pub fn memchr_nl(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i] != b'\n' {
        i += 1;
    }
    i
}
fn find_fn_at(h: &str) -> usize {
    // first '@' outside quotes that is followed by name and '('
    let b = h.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' && (i == 0 || b[i - 1] != b'@') {
            i += 1;
            while b[i] != b'"' {
                i += 1
            }
        } else if b[i] == b'@' {
            let mut p = P { s: b, i: i + 1 };
            p.name();
            if p.s.get(p.i) == Some(&b'(') {
                return i;
            }
        }
        i += 1;
    }
    panic!("function header: {}", h)
}
fn fn_name(h: &str) -> String {
    let at = find_fn_at(h);
    let mut p = P { s: h.as_bytes(), i: at + 1 };
    p.name()
}
fn label_of(line: &str) -> Option<String> {
    let b = line.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b';' || b[0] == b'\t' {
        return None;
    }
    if b[0] == b'"' {
        let e = line[1..].find('"')? + 1;
        if b.get(e + 1) == Some(&b':') {
            return Some(line[1..e].to_string());
        }
        return None;
    }
    let e = line.find(':')?;
    if line[..e].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-') {
        Some(line[..e].to_string())
    } else {
        None
    }
}

enum PR {
    Phi(Vec<(u32, Opnd)>, u32),
    Ins(I),
    Skip,
}

struct Ctx<'a> {
    m: &'a Module,
    regs: &'a mut FxMap<String, u32>,
    nregs: &'a mut u32,
    labels: &'a FxMap<String, u32>,
}

impl<'a> Ctx<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = *self.nregs;
        *self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, p: &mut P, ty: &Ty) -> Opnd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opnd::Reg(self.reg(&n));
        }
        let c = self.m.cst(p, ty);
        match &c {
            Cst::Int(v, w) if *w <= 64 => Opnd::C(*v as u64),
            Cst::Zero(t) | Cst::Undef(t) if matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) && t.bits() <= 64 => Opnd::C(0),
            _ => Opnd::Cst(Rc::new(c)),
        }
    }
    fn tyop(&mut self, p: &mut P) -> (Ty, Opnd) {
        let t = self.m.ty(p);
        let o = self.opnd(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        p.expect("label");
        p.expect("%");
        let n = p.name();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn unsup(&mut self, p: &mut P, w: &str) -> PR {
        // skip until end of line (multi-line forms with trailing continuation are handled separately)
        let st = p.i;
        let mut e = p.i;
        while e < p.s.len() && p.s[e] != b'\n' {
            e += 1;
        }
        let s = format!("{} {}", w, String::from_utf8_lossy(&p.s[st..e]));
        PR::Ins(I::Unsupported(s))
    }
    fn instr(&mut self, p: &mut P, dst: Option<u32>) -> PR {
        let w = p.word();
        let d = dst.unwrap_or(u32::MAX);
        let bin = |o: BinOp| Some(o);
        let b = match w {
            "add" => bin(BinOp::Add),
            "sub" => bin(BinOp::Sub),
            "mul" => bin(BinOp::Mul),
            "udiv" => bin(BinOp::UDiv),
            "sdiv" => bin(BinOp::SDiv),
            "urem" => bin(BinOp::URem),
            "srem" => bin(BinOp::SRem),
            "shl" => bin(BinOp::Shl),
            "lshr" => bin(BinOp::LShr),
            "ashr" => bin(BinOp::AShr),
            "and" => bin(BinOp::And),
            "or" => bin(BinOp::Or),
            "xor" => bin(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = b {
            while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                p.word();
            }
            let t = self.m.ty(p);
            let a = self.opnd(p, &t);
            p.expect(",");
            let b = self.opnd(p, &t);
            return PR::Ins(I::Bin(op, t.lane_w(), d, a, b));
        }
        match w {
            "icmp" => {
                p.eat("samesign");
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                };
                let t = self.m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(",");
                let b = self.opnd(p, &t);
                PR::Ins(I::Icmp(pr, t.lane_w(), d, a, b))
            }
            "select" => {
                let (_, c) = self.tyop(p);
                p.expect(",");
                let (t, a) = self.tyop(p);
                p.expect(",");
                let (_, b) = self.tyop(p);
                PR::Ins(I::Select(d, c, a, b, t))
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while matches!(p.peek_word(), "nneg" | "nuw" | "nsw") {
                    p.word();
                }
                let (t, a) = self.tyop(p);
                p.expect("to");
                let t2 = self.m.ty(p);
                if w == "bitcast" && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                    let n = |t: &Ty| if let Ty::Vec(n, _) = t { *n } else { 0 };
                    return PR::Ins(I::VCast(d, n(&t), t.lane_w(), n(&t2), t2.lane_w(), a));
                }
                let (wa, wb) = (t.lane_w(), t2.lane_w());
                let op = match w {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    _ => {
                        if wa == wb {
                            CastOp::Same
                        } else if wa < wb {
                            CastOp::ZExt
                        } else {
                            CastOp::Trunc
                        }
                    }
                };
                PR::Ins(I::Cast(op, d, wa, wb, a))
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" | "fneg" => {
                while matches!(p.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    p.word();
                }
                let op = if w == "fcmp" { p.word().to_string() } else { w.to_string() };
                let t = self.m.ty(p);
                let a = self.opnd(p, &t);
                let b = if w == "fneg" {
                    Opnd::C(0)
                } else {
                    p.expect(",");
                    self.opnd(p, &t)
                };
                if !matches!(t, Ty::Float(32) | Ty::Float(64)) {
                    return PR::Ins(I::Unsupported(format!("{} of {:?}", w, t)));
                }
                let tw = t.lane_w();
                PR::Ins(I::Fp(op, tw, if w == "fcmp" { 1 } else { tw }, d, a, b))
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                while matches!(p.peek_word(), "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    p.word();
                }
                let (t, a) = self.tyop(p);
                p.expect("to");
                let t2 = self.m.ty(p);
                let ok = |t: &Ty| matches!(t, Ty::Float(32) | Ty::Float(64)) || matches!(t, Ty::Int(w) if *w <= 64);
                if !ok(&t) || !ok(&t2) {
                    return PR::Ins(I::Unsupported(format!("{} of {:?}", w, t)));
                }
                PR::Ins(I::Fp(w.to_string(), t.lane_w(), t2.lane_w(), d, a, Opnd::C(0)))
            }
            "load" => {
                p.eat("atomic");
                p.eat("volatile");
                let t = self.m.ty(p);
                p.expect(",");
                let (_, a) = self.tyop(p);
                PR::Ins(I::Load(d, t, a))
            }
            "store" => {
                p.eat("atomic");
                p.eat("volatile");
                let (t, v) = self.tyop(p);
                p.expect(",");
                let (_, a) = self.tyop(p);
                PR::Ins(I::Store(t, v, a))
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") {
                    p.word();
                }
                let t = self.m.ty(p);
                p.expect(",");
                let (bt, base) = self.tyop(p);
                if matches!(bt, Ty::Vec(..)) {
                    return self.unsup(p, "vector gep");
                }
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                loop {
                    let save = p.i;
                    if !p.eat(",") {
                        break;
                    }
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    let (it, iv) = self.tyop(p);
                    let iw = it.lane_w();
                    if first {
                        let sz = cur.size();
                        match iv {
                            Opnd::C(k) => off = off.wrapping_add((crate::term::sext(k as u128, iw) as i64).wrapping_mul(sz as i64)),
                            o => terms.push((o, iw, sz)),
                        }
                        first = false;
                    } else {
                        match (&cur.clone(), iv) {
                            (Ty::Arr(_, e), Opnd::C(k)) | (Ty::Vec(_, e), Opnd::C(k)) => {
                                off = off.wrapping_add((crate::term::sext(k as u128, iw) as i64).wrapping_mul(e.size() as i64));
                                cur = (**e).clone();
                            }
                            (Ty::Arr(_, e), o) | (Ty::Vec(_, e), o) => {
                                terms.push((o, iw, e.size()));
                                cur = (**e).clone();
                            }
                            (Ty::Struct(..), Opnd::C(k)) => {
                                let (o, ft) = cur.field(k);
                                off += o as i64;
                                cur = ft;
                            }
                            x => panic!("gep {:?}", x),
                        }
                    }
                }
                PR::Ins(I::Gep(d, base, off, terms))
            }
            "alloca" => {
                p.eat("inalloca");
                let t = self.m.ty(p);
                let mut n = Opnd::C(1);
                let save = p.i;
                if p.eat(",") {
                    if p.at_type() {
                        let (_, o) = self.tyop(p);
                        n = o;
                    } else {
                        p.i = save;
                    }
                }
                PR::Ins(I::Alloca(d, t.size(), n))
            }
            "br" => {
                if p.peek_word() == "label" {
                    let l = self.label(p);
                    PR::Ins(I::Br(l))
                } else {
                    let (_, c) = self.tyop(p);
                    p.expect(",");
                    let a = self.label(p);
                    p.expect(",");
                    let b = self.label(p);
                    PR::Ins(I::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (t, v) = self.tyop(p);
                p.expect(",");
                let def = self.label(p);
                p.expect("[");
                let mut cs = vec![];
                while !p.eat("]") {
                    let ct = self.m.ty(p);
                    let c = self.m.cst(p, &ct).int() as u64;
                    p.expect(",");
                    let l = self.label(p);
                    cs.push((c, l));
                }
                PR::Ins(I::Switch(v, t.lane_w(), def, cs))
            }
            "ret" => {
                if p.eat("void") {
                    PR::Ins(I::Ret(None))
                } else {
                    let (t, v) = self.tyop(p);
                    PR::Ins(I::Ret(Some((t, v))))
                }
            }
            "unreachable" => PR::Ins(I::Unreachable),
            "resume" => PR::Ins(I::Unreachable),
            "phi" => {
                let t = self.m.ty(p);
                let mut v = vec![];
                loop {
                    p.expect("[");
                    let o = self.opnd(p, &t);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    let l = *self.labels.get(&n).unwrap_or_else(|| panic!("phi label {}", n));
                    p.expect("]");
                    v.push((l, o));
                    let save = p.i;
                    if !p.eat(",") {
                        break;
                    }
                    if p.peek() != b'[' {
                        p.i = save;
                        break;
                    }
                }
                PR::Phi(v, t.lane_w())
            }
            "tail" | "musttail" | "notail" => {
                p.expect("call");
                self.call(p, dst, false)
            }
            "call" => self.call(p, dst, false),
            "invoke" => self.call(p, dst, true),
            "extractvalue" => {
                let (_, a) = self.tyop(p);
                let mut idx = vec![];
                loop {
                    let save = p.i;
                    if !p.eat(",") {
                        break;
                    }
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    idx.push(p.word().parse().unwrap());
                }
                PR::Ins(I::ExtractValue(d, a, idx))
            }
            "insertvalue" => {
                let (t, a) = self.tyop(p);
                p.expect(",");
                let (_, v) = self.tyop(p);
                let mut idx = vec![];
                loop {
                    let save = p.i;
                    if !p.eat(",") {
                        break;
                    }
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    idx.push(p.word().parse().unwrap());
                }
                PR::Ins(I::InsertValue(d, a, v, idx, t))
            }
            "extractelement" => {
                let (_, a) = self.tyop(p);
                p.expect(",");
                let (_, i) = self.tyop(p);
                PR::Ins(I::ExtractElement(d, a, i))
            }
            "insertelement" => {
                let (t, a) = self.tyop(p);
                p.expect(",");
                let (_, v) = self.tyop(p);
                p.expect(",");
                let (_, i) = self.tyop(p);
                PR::Ins(I::InsertElement(d, a, v, i, t))
            }
            "shufflevector" => {
                let (t, a) = self.tyop(p);
                p.expect(",");
                let (_, b) = self.tyop(p);
                p.expect(",");
                let mt = self.m.ty(p);
                let n = match &mt {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let mk = self.m.cst(p, &mt);
                let mask: Vec<i64> = match mk {
                    Cst::Agg(v) => v.iter().map(|(c, _)| if let Cst::Undef(_) = c { -1 } else { c.int() as i64 }).collect(),
                    Cst::Undef(_) => vec![-1; n as usize],
                    _ => vec![0; n as usize],
                };
                let n1 = match &t {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                PR::Ins(I::Shuffle(d, a, b, mask, n1))
            }
            "atomicrmw" => {
                p.eat("volatile");
                let op = p.word().to_string();
                let (_, a) = self.tyop(p);
                p.expect(",");
                let (t, v) = self.tyop(p);
                PR::Ins(I::AtomicRmw(op, d, a, t, v))
            }
            "cmpxchg" => {
                p.eat("weak");
                p.eat("volatile");
                let (_, a) = self.tyop(p);
                p.expect(",");
                let (t, e) = self.tyop(p);
                p.expect(",");
                let (_, n) = self.tyop(p);
                PR::Ins(I::CmpXchg(d, a, t, e, n))
            }
            "fence" => PR::Ins(I::Nop),
            "freeze" => {
                let (_, a) = self.tyop(p);
                PR::Ins(I::Copy(d, a))
            }
            "landingpad" | "cleanuppad" => {
                // skip clause lines
                loop {
                    let e = memchr_nl(p.s, p.i);
                    p.i = e;
                    let mut q = e + 1;
                    while q < p.s.len() && (p.s[q] == b' ') {
                        q += 1;
                    }
                    let rest = &p.s[q.min(p.s.len())..];
                    if rest.starts_with(b"cleanup") || rest.starts_with(b"catch") || rest.starts_with(b"filter") {
                        p.i = q;
                        continue;
                    }
                    break;
                }
                PR::Ins(I::Unsupported("landingpad".into()))
            }
            _ => {
                if w.is_empty() {
                    return PR::Skip;
                }
                self.unsup(p, w)
            }
        }
    }
    fn call(&mut self, p: &mut P, dst: Option<u32>, invoke: bool) -> PR {
        p.skip_attrs_to_type();
        let rt = self.m.ty(p);
        // callee
        let callee = match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                match self.m.lookup(&n) {
                    Some((SymKind::Global, _)) => panic!("call of global {}", n),
                    Some((_, k)) => Callee::Fn(k),
                    None => panic!("call of unknown {}", n),
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                Callee::Ind(Opnd::Reg(self.reg(&n)))
            }
            _ => {
                let w = p.peek_word();
                if w == "asm" {
                    let s = p.line_rest().to_string();
                    p.i -= 0;
                    // keep line_rest semantics: position is at end of line
                    return PR::Ins(I::Unsupported(format!("asm {}", s)));
                }
                let o = self.opnd(p, &Ty::Ptr);
                Callee::Ind(o)
            }
        };
        p.expect("(");
        let mut args = vec![];
        let mut is_md = false;
        while !p.eat(")") {
            if p.peek_word() == "metadata" {
                // skip to matching comma/paren
                is_md = true;
                p.word();
                if p.peek() == b'!' || p.at_type() {
                    let mut depth = 0;
                    loop {
                        let c = p.s[p.i];
                        if c == b'"' {
                            p.i += 1;
                            while p.s[p.i] != b'"' {
                                p.i += 1;
                            }
                        }
                        if c == b'(' || c == b'{' {
                            depth += 1
                        }
                        if (c == b')' || c == b'}') && depth > 0 {
                            depth -= 1
                        } else if depth == 0 && (c == b',' || c == b')') {
                            break;
                        }
                        p.i += 1;
                    }
                }
                p.eat(",");
                continue;
            }
            let t = self.m.ty(p);
            let mut byval = 0;
            // attributes then operand
            loop {
                let c = p.peek();
                if c == b'%' || c == b'@' || c == b'<' || c == b'{' || c == b'[' {
                    break;
                }
                if c == b'"' {
                    p.name();
                    if p.peek() == b'=' {
                        p.i += 1;
                        p.name();
                    }
                    continue;
                }
                let w = p.peek_word();
                match w {
                    "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "signext"
                    | "zeroext" | "inreg" | "immarg" | "returned" | "nofree" | "nest" | "swiftself" | "allocptr"
                    | "dead_on_unwind" | "writable" | "allocalign" | "dead_on_return" | "noext" => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                    "align" => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens()
                        } else {
                            p.word();
                        }
                    }
                    "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "initializes"
                    | "elementtype" | "nofpclass" | "preallocated" | "byref" => {
                        p.word();
                        p.skip_parens();
                    }
                    "byval" => {
                        p.word();
                        p.expect("(");
                        let bt = self.m.ty(p);
                        byval = bt.size();
                        p.expect(")");
                    }
                    _ => break,
                }
            }
            let o = self.opnd(p, &t);
            args.push(CallArg { v: o, ty: t, byval });
            p.eat(",");
        }
        let mut normal = None;
        if invoke {
            // attrs, then "to label %x unwind label %y"
            loop {
                if p.eat("to") {
                    break;
                }
                let c = p.peek();
                if c == b'#' {
                    p.i += 1;
                    p.word();
                } else if c == b'"' {
                    p.name();
                    if p.peek() == b'=' {
                        p.i += 1;
                        p.name();
                    }
                } else {
                    let w = p.word();
                    assert!(!w.is_empty());
                    p.skip_parens();
                }
            }
            normal = Some(self.label(p));
            p.expect("unwind");
            self.label(p);
        }
        if is_md && !invoke {
            return PR::Skip;
        }
        let dst = if rt == Ty::Void { None } else { dst };
        PR::Ins(I::Call(dst, callee, args, rt, normal))
    }
}

fn succs(b: &Block) -> Vec<u32> {
    for (i, _) in &b.ins {
        match i {
            I::Br(l) => return vec![*l],
            I::CondBr(_, a, c) => return vec![*a, *c],
            I::Switch(_, _, d, cs) => {
                let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect();
                v.push(*d);
                return v;
            }
            I::Ret(_) | I::Unreachable => return vec![],
            I::Call(_, _, _, _, Some(n)) => return vec![*n],
            _ => {}
        }
    }
    vec![]
}

fn post_dominators(blocks: &[Block]) -> Vec<u32> {
    // blocks that end in `unreachable` (panics) are not counted as exits: the merge point is where
    // the surviving paths meet.
    let n = blocks.len();
    let sc: Vec<Vec<u32>> = blocks.iter().map(succs).collect();
    let is_ret: Vec<bool> = blocks.iter().map(|b| b.ins.iter().any(|(i, _)| matches!(i, I::Ret(_)))).collect();
    // which blocks can reach a return
    let mut reach = is_ret.clone();
    loop {
        let mut ch = false;
        for b in 0..n {
            if !reach[b] && sc[b].iter().any(|&s| reach[s as usize]) {
                reach[b] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // virtual exit = n
    let ex = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1]; // reverse graph successors
    let mut rs: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for b in 0..n {
        if is_ret[b] {
            rs[b].push(ex);
            preds[ex].push(b);
        }
        for &s in &sc[b] {
            if reach[s as usize] {
                rs[b].push(s as usize);
                preds[s as usize].push(b);
            }
        }
    }
    // reverse post order from exit on the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(ex, 0usize)];
    seen[ex] = true;
    while let Some((x, k)) = st.pop() {
        if k < preds[x].len() {
            st.push((x, k + 1));
            let y = preds[x][k];
            if !seen[y] {
                seen[y] = true;
                st.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[ex] = ex;
    loop {
        let mut ch = false;
        for &b in order.iter().skip(1) {
            let mut ni = usize::MAX;
            for &s in &rs[b] {
                if idom[s] == usize::MAX {
                    continue;
                }
                if ni == usize::MAX {
                    ni = s;
                } else {
                    let (mut a, mut c) = (ni, s);
                    while a != c {
                        while num[a] > num[c] {
                            a = idom[a];
                        }
                        while num[c] > num[a] {
                            c = idom[c];
                        }
                    }
                    ni = a;
                }
            }
            if ni != usize::MAX && idom[b] != ni {
                idom[b] = ni;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    (0..n).map(|b| if idom[b] == usize::MAX || idom[b] == ex { u32::MAX } else { idom[b] as u32 }).collect()
}

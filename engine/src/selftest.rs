//! Randomised differential test of the simplifier, interval analysis and SMT printer:
//! the same random expression is built through the simplifying constructors and evaluated
//! directly with concrete operators.

use crate::term::*;

struct R(u64);
impl R {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 8
    }
    fn k(&mut self, m: u64) -> u64 {
        self.n() % m
    }
}

pub fn run(seed: u64) -> i32 {
    let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut bad = 0;
    let mut total = 0u64;
    for round in 0..4000 {
        let mut p = Pool::new();
        // variables
        let ws = [1u32, 3, 8, 8, 16, 16, 32, 32, 64];
        let mut terms: Vec<(T, Vec<u128>)> = vec![]; // term, value under each assignment
        const NA: usize = 24;
        let mut vals: Vec<Vec<u128>> = vec![vec![]; NA];
        for _ in 0..4 {
            let w = ws[r.k(ws.len() as u64) as usize];
            let (lo, hi, sg) = match r.k(4) {
                0 => (0i128, mask(w) as i128, false),
                1 => {
                    let a = r.n() as u128 & mask(w);
                    let b = r.n() as u128 & mask(w);
                    (a.min(b) as i128, a.max(b) as i128, false)
                }
                2 => (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1, true),
                _ => {
                    let a = sext(r.n() as u128 & mask(w), w);
                    let b = sext(r.n() as u128 & mask(w), w);
                    (a.min(b), a.max(b), true)
                }
            };
            let t = p.var("x".into(), w, lo, hi, sg);
            let mut vs = vec![];
            for a in 0..NA {
                let span = (hi - lo + 1) as u128;
                let x = match r.k(4) {
                    0 => lo,
                    1 => hi,
                    _ => lo + (r.n() as u128 % span) as i128,
                };
                let x = x as u128 & mask(w);
                vals[a].push(x);
                vs.push(x);
            }
            terms.push((t, vs));
        }
        for _ in 0..40 {
            let pick = |r: &mut R, terms: &Vec<(T, Vec<u128>)>| r.k(terms.len() as u64) as usize;
            let i = pick(&mut r, &terms);
            let (a, av) = terms[i].clone();
            let w = p.w(a);
            // second operand of the same width
            let mut same: Vec<usize> = (0..terms.len()).filter(|&k| p.w(terms[k].0) == w).collect();
            let (b, bv) = if r.k(3) == 0 || same.is_empty() {
                let c = match r.k(5) {
                    0 => 0,
                    1 => 1,
                    2 => mask(w),
                    3 => 1u128 << r.k(w as u64),
                    _ => r.n() as u128,
                } & mask(w);
                (p.cst(c, w), vec![c; NA])
            } else {
                let k = same.swap_remove(r.k(same.len() as u64) as usize);
                terms[k].clone()
            };
            let op = r.k(24);
            let map = |f: &dyn Fn(u128, u128) -> u128| -> Vec<u128> { (0..NA).map(|k| f(av[k], bv[k])).collect() };
            let m = mask(w);
            let (t, v) = match op {
                0 => (p.add(a, b), map(&|x, y| x.wrapping_add(y) & m)),
                1 => (p.sub(a, b), map(&|x, y| x.wrapping_sub(y) & m)),
                2 => (p.mul(a, b), map(&|x, y| x.wrapping_mul(y) & m)),
                3 => (p.udiv(a, b), map(&|x, y| conc_bin(Op::UDiv, x, y, w))),
                4 => (p.urem(a, b), map(&|x, y| conc_bin(Op::URem, x, y, w))),
                5 => (p.sdiv(a, b), map(&|x, y| conc_bin(Op::SDiv, x, y, w))),
                6 => (p.srem(a, b), map(&|x, y| conc_bin(Op::SRem, x, y, w))),
                7 => (p.and(a, b), map(&|x, y| x & y)),
                8 => (p.or(a, b), map(&|x, y| x | y)),
                9 => (p.xor(a, b), map(&|x, y| x ^ y)),
                10 => (p.shl(a, b), map(&|x, y| conc_bin(Op::Shl, x, y, w))),
                11 => (p.lshr(a, b), map(&|x, y| conc_bin(Op::LShr, x, y, w))),
                12 => (p.ashr(a, b), map(&|x, y| conc_bin(Op::AShr, x, y, w))),
                13 => (p.eq(a, b), map(&|x, y| (x == y) as u128)),
                14 => (p.ult(a, b), map(&|x, y| (x < y) as u128)),
                15 => (p.slt(a, b), map(&|x, y| (sext(x, w) < sext(y, w)) as u128)),
                16 => {
                    let c: Vec<usize> = (0..terms.len()).filter(|&k| p.w(terms[k].0) == 1).collect();
                    if c.is_empty() {
                        continue;
                    }
                    let (ct, cv) = terms[c[r.k(c.len() as u64) as usize]].clone();
                    (p.ite(ct, a, b), (0..NA).map(|k| if cv[k] == 1 { av[k] } else { bv[k] }).collect())
                }
                17 => {
                    let k = pick(&mut r, &terms);
                    let (c, cv) = terms[k].clone();
                    let wc = p.w(c);
                    if w + wc > 64 {
                        continue;
                    }
                    (p.concat(a, c), (0..NA).map(|k| av[k] << wc | cv[k]).collect())
                }
                18 => {
                    let lo = r.k(w as u64) as u32;
                    let ww = 1 + r.k((w - lo) as u64) as u32;
                    (p.extract(a, lo, ww), av.iter().map(|x| x >> lo & mask(ww)).collect())
                }
                19 => {
                    let w2 = [8, 16, 32, 64, 128][r.k(5) as usize];
                    if w2 < w {
                        continue;
                    }
                    (p.zext(a, w2), av.clone())
                }
                20 => {
                    let w2 = [8, 16, 32, 64, 128][r.k(5) as usize];
                    if w2 < w {
                        continue;
                    }
                    (p.sext_t(a, w2), av.iter().map(|&x| sext(x, w) as u128 & mask(w2)).collect())
                }
                21 => (p.neg(a), av.iter().map(|x| x.wrapping_neg() & m).collect()),
                22 => {
                    if w == 1 {
                        (p.not(a), av.iter().map(|x| x ^ 1).collect())
                    } else {
                        let s = r.k(w as u64) as u32;
                        match r.k(3) {
                            0 => (p.shlc(a, s), av.iter().map(|x| x << s & m).collect()),
                            1 => (p.lshrc(a, s), av.iter().map(|x| x >> s).collect()),
                            _ => (p.ashrc(a, s), av.iter().map(|&x| (sext(x, w) >> s) as u128 & m).collect()),
                        }
                    }
                }
                _ => {
                    let c = match r.k(3) {
                        0 => 1u128 << r.k(w as u64),
                        1 => r.k(20) as u128,
                        _ => (r.k(20) as u128).wrapping_neg(),
                    };
                    (p.mulc(a, c & m), av.iter().map(|x| x.wrapping_mul(c) & m).collect())
                }
            };
            let wt = p.w(t);
            for k in 0..NA {
                total += 1;
                let mut memo = FxMap::default();
                let e = p.eval(t, &vals[k], &mut memo);
                let (u, s) = (p.ur(t), p.sr(t));
                let ok = e == v[k] && v[k] >= u.0 && v[k] <= u.1 && sext(v[k], wt) >= s.0 && sext(v[k], wt) <= s.1;
                if !ok {
                    bad += 1;
                    if bad < 10 {
                        println!(
                            "round {} op {} w {} a={:?} b={:?} av={:#x} bv={:#x} expect {:#x} got {:#x} node {:?} ur {:?} sr {:?}",
                            round, op, w, p.n(a), p.n(b), av[k], bv[k], v[k], e, p.n(t), u, s
                        );
                    }
                    break;
                }
            }
            terms.push((t, v));
        }
    }
    println!("selftest: {} evaluations, {} mismatches", total, bad);
    if bad > 0 {
        1
    } else {
        0
    }
}

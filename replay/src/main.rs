//! Runs a harness natively on given inputs: replays the executor's counterexamples and validates its traces.
//!
//!   replay run HARNESS PARAMS INPUTS           one run; prints its outcome
//!   replay random HARNESS PARAMS SEED          random inputs
//!   replay batch FILE                          lines "HARNESS PARAMS INPUTS" (commas inside; "-" when empty),
//!                                              one process per line, outcomes on stdout
//!
//! Outcome line: `OUTCOME <kind> <detail> | observes | inputs`, kind one of ok, check, panic, assume, inputs.
#![allow(clippy::all, dead_code)]
include!(concat!(env!("OUT_DIR"), "/gen.rs"));

use std::cell::RefCell;

struct Run {
    params: Vec<i64>,
    inputs: Vec<u64>,
    used: Vec<u64>,
    pos: usize,
    random: Option<u64>,
    observes: Vec<u64>,
    allow_panic: bool,
}
thread_local! {
    static RUN: RefCell<Run> = const { RefCell::new(Run { params: vec![], inputs: vec![], used: vec![], pos: 0, random: None, observes: vec![], allow_panic: false }) };
}

fn end(kind: &str, detail: &str) -> ! {
    let (o, i) = RUN.with(|r| {
        let r = r.borrow();
        (r.observes.clone(), r.used.clone())
    });
    let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    println!("OUTCOME {} {} | {} | {}", kind, detail.replace(['\n', '|'], " "), j(&o), j(&i));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

fn next(w: u32, gen: impl Fn(u64) -> u64) -> u64 {
    let v = RUN.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(s) = r.random {
            let mut x = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            r.random = Some(x);
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            x ^= x >> 31;
            let v = gen(x);
            r.used.push(v & mask(w));
            return Some(v);
        }
        let v = r.inputs.get(r.pos).copied();
        r.pos += 1;
        if let Some(v) = v {
            r.used.push(v);
        }
        v
    });
    match v {
        Some(v) => v,
        None => end("inputs", "exhausted"),
    }
}
fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1 << w) - 1
    }
}

#[no_mangle]
pub extern "C" fn __sym_u(bits: u32, lo: u64, hi: u64) -> u64 {
    next(bits, |x| {
        if hi - lo == u64::MAX {
            x
        } else {
            // small and extreme values more often
            match x % 4 {
                0 => lo + (x >> 8) % (hi - lo + 1).min(4),
                1 => hi - (x >> 8) % (hi - lo + 1).min(4),
                _ => lo + (x >> 8) % (hi - lo + 1),
            }
        }
    }) & mask(bits)
}
#[no_mangle]
pub extern "C" fn __sym_i(bits: u32, lo: i64, hi: i64) -> i64 {
    let v = next(bits, |x| {
        let n = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((x as u128) % n) as i128) as i64 as u64
    });
    let s = 64 - bits.min(64);
    ((v << s) as i64) >> s
}
#[no_mangle]
pub unsafe extern "C" fn __sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next(8, |x| match x & 3 {
            0 => 0,
            1 => 0xff,
            _ => x >> 13 & 255,
        }) as u8;
    }
}
#[no_mangle]
pub extern "C" fn __sym_assume(c: bool) {
    if !c {
        end("assume", "")
    }
}
#[no_mangle]
pub extern "C" fn __sym_check(c: bool, id: u32) {
    if !c {
        end("check", &id.to_string())
    }
}
#[no_mangle]
pub extern "C" fn __sym_choose(n: u64) -> u64 {
    next(64, |x| x % n)
}
#[no_mangle]
pub extern "C" fn __sym_param(i: u32) -> i64 {
    RUN.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn __sym_reach(_id: u32) {}
#[no_mangle]
pub extern "C" fn __sym_observe(v: u64) {
    RUN.with(|r| r.borrow_mut().observes.push(v))
}
#[no_mangle]
pub extern "C" fn __sym_allow_panic(b: bool) {
    RUN.with(|r| r.borrow_mut().allow_panic = b)
}
#[no_mangle]
pub extern "C" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn __sym_par_begin() {}
#[no_mangle]
pub extern "C" fn __sym_par_task(_t: u64) {}
#[no_mangle]
pub extern "C" fn __sym_par_end() {}

fn list<N: std::str::FromStr>(s: &str) -> Vec<N> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

fn one(h: &str, params: &str, inputs: &str, random: Option<u64>) -> ! {
    let f = match table(h) {
        Some(f) => f,
        None => end("unknown-harness", h),
    };
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.params = list(params);
        r.inputs = list(inputs);
        r.random = random;
    });
    std::panic::set_hook(Box::new(|info| {
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let allowed = RUN.with(|r| r.try_borrow().map(|r| r.allow_panic).unwrap_or(false));
        end(if allowed { "allowed-panic" } else { "panic" }, &format!("{} {}", l, m))
    }));
    f();
    end("ok", "")
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["run", h, p, i] => one(h, p, i, None),
        ["random", h, p, s] => one(h, p, "", Some(s.parse::<u64>().unwrap().wrapping_mul(0x9e37_79b9_7f4a_7c15))),
        ["batch", f] => {
            let me = std::env::current_exe().unwrap();
            for l in std::fs::read_to_string(f).unwrap().lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                let o = std::process::Command::new(&me).args(["run", w[0], w[1], w[2]]).output().unwrap();
                let s = String::from_utf8_lossy(&o.stdout);
                match s.lines().find(|l| l.starts_with("OUTCOME")) {
                    Some(l) => println!("{}", l),
                    None => println!("OUTCOME died {:?} | | ", o.status),
                }
            }
        }
        _ => {
            eprintln!("usage: replay run|random|batch ...");
            std::process::exit(2)
        }
    }
}

mod exec;
mod ir;
mod solver;
mod term;
mod selftest;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn main() {
    // deep recursion in the simplifier is possible: run on a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "selftest" {
        return selftest::run(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    }
    let mut irs = vec![];
    let mut harness = String::new();
    let mut out = None;
    let mut params = vec![];
    let mut concrete = None;
    let mut time = 600u64;
    let mut fuel = 200_000_000u64;
    let mut merge = 0;
    let mut merge_budget = 5000;
    let mut max_viol = 1;
    let mut max_paths = 10_000_000;
    let mut qt = 20_000u64;
    let mut ht = 120_000u64;
    let mut dump = None;
    let mut list = false;
    let mut max_alloc = 1u64 << 26;
    let mut i = 1;
    while i < args.len() {
        let cur = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match cur.as_str() {
            "--ir" => irs.push(nx()),
            "--harness" => harness = nx(),
            "--out" => out = Some(nx()),
            "--params" => params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<i64>().unwrap()).collect(),
            "--concrete" => concrete = Some(nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap()).collect::<Vec<u64>>()),
            "--concrete-file" => {
                let t = std::fs::read_to_string(nx()).unwrap();
                concrete = Some(t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap()).collect())
            }
            "--time" => time = nx().parse().unwrap(),
            "--fuel" => fuel = nx().parse().unwrap(),
            "--merge" => merge = nx().parse().unwrap(),
            "--merge-budget" => merge_budget = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            "--max-paths" => max_paths = nx().parse().unwrap(),
            "--query-ms" => qt = nx().parse().unwrap(),
            "--hard-ms" => ht = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            "--max-alloc" => max_alloc = nx().parse().unwrap(),
            "--tab" => term::TAB.store(nx().parse().unwrap(), std::sync::atomic::Ordering::Relaxed),
            "--raw" => term::RAW.store(true, std::sync::atomic::Ordering::Relaxed),
            "--list" => list = true,
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&irs);
    if list {
        for f in &m.fns {
            if f.defined {
                println!("{}", f.name);
            }
        }
        return 0;
    }
    let mut ex = exec::Exec::new(&m);
    ex.split0 = std::fs::metadata(&irs[0]).unwrap().len() as usize;
    ex.params = params;
    ex.concrete = concrete;
    ex.deadline = Instant::now() + Duration::from_secs(time);
    ex.fuel = fuel;
    ex.merge_level = merge;
    ex.merge_budget = merge_budget;
    ex.max_viol = max_viol;
    ex.max_paths = max_paths;
    ex.solver.timeout_ms = qt;
    ex.solver.hard_timeout_ms = ht;
    ex.solver.dump = dump;
    ex.max_alloc = max_alloc;
    let st = match ex.start(&harness) {
        Some(s) => s,
        None => {
            eprintln!("no harness {}", harness);
            return 2;
        }
    };
    let rest = ex.explore(st, None, u64::MAX);
    assert!(rest.is_empty());

    if ex.prof {
        let mut v: Vec<_> = ex.profile.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (k, (n, t)) in v.iter().take(25) {
            eprintln!("{:6} {:8.3}s {}", n, t, k);
        }
    }
    // functions executed, by source location
    let mut fnset: std::collections::BTreeSet<String> = Default::default();
    let mut nblocks = 0;
    let mut lines: std::collections::BTreeSet<(String, u32)> = Default::default();
    for (fid, bl) in &ex.cover {
        let fi = &m.fns[*fid as usize];
        let f = m.func(*fid);
        for (k, c) in bl.iter().enumerate() {
            if !*c {
                continue;
            }
            nblocks += 1;
            if fi.hdr.0 >= ex.split0 {
                fnset.insert(format!("{} (reference)", exec::short_name(&fi.name)));
                continue;
            }
            for (_, dbg) in &f.blocks[k].ins {
                if *dbg == 0 {
                    continue;
                }
                for (n, file, line) in m.locs(*dbg) {
                    if file.contains("/rustc/") || file.contains("rustlib") || file.contains(".cargo/registry") {
                        continue;
                    }
                    lines.insert((file.clone(), line));
                    fnset.insert(format!("{} ({})", exec::short_name(&n), file));
                }
            }
        }
    }
    let status = if !ex.errors.is_empty() {
        "error"
    } else if ex.timed_out {
        "incomplete"
    } else {
        "complete"
    };
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"harness\":\"{}\",\"params\":{:?},\"status\":\"{}\",\"paths\":{},\"forks\":{},\"merges\":{},\"ifconv\":{},\"domain_unsat\":{},\"domain_sat\":{},\"infeasible\":{},\"panics_allowed\":{},\"steps\":{},\"sym_ops\":{},\"blocks\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"vars\":{},\"terms\":{}",
        esc(&harness),
        ex.params,
        status,
        ex.paths,
        ex.forks,
        ex.merges, ex.ifconv, ex.domain_unsat, ex.domain_sat,
        ex.infeasible,
        ex.panics_allowed,
        ex.steps,
        ex.sym_ops,
        nblocks,
        ex.solver.queries,
        ex.solver.cache_hits,
        ex.solver.sat,
        ex.solver.unsat,
        ex.solver.unknown,
        ex.solver.fallback_used,
        ex.solver.time.as_secs_f64(),
        ex.solver.max_time.as_secs_f64(),
        t0.elapsed().as_secs_f64(),
        ex.pool.vars.len(),
        ex.pool.nodes.len(),
    );
    j.push_str(",\"reached\":{");
    for (k, (id, n)) in ex.reached.iter().enumerate() {
        let _ = write!(j, "{}\"{}\":{}", if k > 0 { "," } else { "" }, id, n);
    }
    j.push_str("},\"checks\":{");
    for (k, (id, n)) in ex.check_counts.iter().enumerate() {
        let _ = write!(j, "{}\"{}\":[{},{}]", if k > 0 { "," } else { "" }, id, n.0, n.1);
    }
    j.push_str("},\"violations\":[");
    for (k, v) in ex.violations.iter().enumerate() {
        let st: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let _ = write!(
            j,
            "{}{{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"stack\":[{}],\"inputs\":{:?},\"widths\":{:?}}}",
            if k > 0 { "," } else { "" },
            v.kind,
            v.id,
            esc(&v.msg),
            st.join(","),
            v.inputs,
            v.widths
        );
    }
    j.push_str("],\"errors\":[");
    for (k, e) in ex.errors.iter().take(20).enumerate() {
        let _ = write!(j, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(e));
    }
    j.push_str("],\"functions\":[");
    for (k, e) in fnset.iter().enumerate() {
        let _ = write!(j, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(e));
    }
    j.push_str("],\"lines\":[");
    for (k, e) in lines.iter().enumerate() {
        let _ = write!(j, "{}\"{}:{}\"", if k > 0 { "," } else { "" }, esc(&e.0), e.1);
    }
    let _ = write!(j, "],\"observes\":{:?},\"traces\":[", ex.path_observes);
    for (k, e) in ex.traces.iter().enumerate() {
        let _ = write!(j, "{}[{:?},{:?}]", if k > 0 { "," } else { "" }, e.0, e.1);
    }
    j.push_str("]}");
    match out {
        Some(p) => std::fs::write(p, j).unwrap(),
        None => println!("{}", j),
    }
    0
}

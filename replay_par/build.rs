//! Collects the harness functions of ../harness_par/src into a dispatch table and links the single-threaded build.
use std::fmt::Write;
fn main() {
    let here = std::path::PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let mut mods = String::new();
    let mut table = String::from("pub fn table(n: &str) -> Option<fn()> {\n    Some(match n {\n");
    for (name, rel) in [("sym", "../harness/src/sym.rs"), ("cfg", "../harness/src/cfg.rs"), ("program", "../harness/src/program.rs"), ("par", "../harness_par/src/par.rs"), ("history", "../harness_par/src/history.rs"),
        ("e2e", "../harness/src/e2e.rs"), ("robust", "../harness/src/robust.rs"), ("lift", "../harness/src/lift.rs"), ("quant", "../harness/src/quant.rs")] {
        let f = here.join(rel).canonicalize().unwrap();
        println!("cargo:rerun-if-changed={}", f.display());
        let _ = writeln!(mods, "#[path = {:?}]\npub mod {};", f, name);
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub fn h_") {
                let h = format!("h_{}", &r[..r.find('(').unwrap()]);
                let _ = writeln!(table, "        {:?} => crate::{}::{},", h, name, h);
            }
        }
    }
    table.push_str("        _ => return None,\n    })\n}\n");
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("gen.rs"), format!("{}{}", mods, table)).unwrap();
    let lib = std::env::var("SERIAL_LIB").unwrap();
    println!("cargo:rerun-if-env-changed=SERIAL_LIB");
    println!("cargo:rustc-link-search=native={}", lib);
    println!("cargo:rustc-link-lib=dylib=gfwx_serial");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
}

//! Collects the harness functions of ../harness_ref/src into a dispatch table and links the single-threaded build.
use std::fmt::Write;
fn main() {
    let here = std::path::PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let mut mods = String::new();
    let mut table = String::from("pub fn table(n: &str) -> Option<fn()> {\n    Some(match n {\n");
    for (name, rel) in [("sym", "../harness/src/sym.rs"), ("cfg", "../harness/src/cfg.rs"), ("program", "../harness/src/program.rs"), ("refs", "../harness_ref/src/refs.rs")] {
        let f = here.join(rel).canonicalize().unwrap();
        println!("cargo:rerun-if-changed={}", f.display());
        let _ = writeln!(mods, "#[path = {:?}]\npub mod {};", f, name);
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub fn h_") {
                let h = format!("h_{}", &r[..r.find('(').unwrap()]);
                let _ = writeln!(table, "        {:?} => crate::{}::{},", h, name, h);
            }
        }
    }
    table.push_str("        _ => return None,\n    })\n}\n");
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("gen.rs"), format!("{}{}", mods, table)).unwrap();
    let lib = std::env::var("REF_LIB").unwrap();
    println!("cargo:rerun-if-env-changed=REF_LIB");
    println!("cargo:rustc-link-search=native={}", lib);
    println!("cargo:rustc-link-lib=dylib=ref");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
}

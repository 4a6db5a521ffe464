//! Collects the harness functions of ../harness/src into a dispatch table.
use std::fmt::Write;
fn main() {
    let dir = std::path::Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("../harness/src");
    println!("cargo:rerun-if-changed={}", dir.display());
    let mut mods = String::new();
    let mut table = String::from("pub fn table(n: &str) -> Option<fn()> {\n    Some(match n {\n");
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let name = f.file_stem().unwrap().to_str().unwrap().to_string();
        if name == "lib" || f.extension().map_or(true, |e| e != "rs") {
            continue;
        }
        println!("cargo:rerun-if-changed={}", f.display());
        let _ = writeln!(mods, "#[path = {:?}]\npub mod {};", f.canonicalize().unwrap(), name);
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub fn h_") {
                let h = format!("h_{}", &r[..r.find('(').unwrap()]);
                let _ = writeln!(table, "        {:?} => crate::{}::{},", h, name, h);
            }
        }
    }
    table.push_str("        _ => return None,\n    })\n}\n");
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("gen.rs"), format!("{}{}", mods, table)).unwrap();
}

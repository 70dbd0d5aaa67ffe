// Generates the module list of the code under test from its own main.rs, so that the harness always compiles the
// current tree (and follows it when a module is added), by path, without copying anything.
use std::path::Path;
use std::{env, fs};

fn main() {
    let repo = env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rerun-if-changed={repo}/src");
    println!("cargo:rustc-cfg=md_recover_verif");
    println!(
        "cargo:rustc-env=VERIF_SRC_HASH={}",
        env::var("VERIF_SRC_HASH").unwrap_or_default()
    );
    println!("cargo:rustc-env=VERIF_REPO_DIR={repo}");
    let main = fs::read_to_string(format!("{repo}/src/main.rs")).unwrap();
    let mut out = String::new();
    let mut macro_use = false;
    for line in main.lines() {
        let l = line.trim_end();
        if l == "#[macro_use]" {
            macro_use = true;
            continue;
        }
        if l.starts_with("extern crate ") {
            if macro_use {
                out.push_str("#[macro_use]\n");
            }
            out.push_str(l);
            out.push('\n');
        }
        macro_use = false;
        let decl = l
            .strip_prefix("pub(crate) mod ")
            .or_else(|| l.strip_prefix("pub mod "))
            .or_else(|| l.strip_prefix("mod "));
        if let Some(name) = decl.and_then(|d| d.strip_suffix(';')) {
            let a = format!("{repo}/src/{name}/mod.rs");
            let b = format!("{repo}/src/{name}.rs");
            let path = if Path::new(&a).exists() { a } else { b };
            out.push_str(&format!("#[path = {path:?}]\npub mod {name};\n"));
        }
    }
    fs::write(format!("{}/repo_mods.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
}

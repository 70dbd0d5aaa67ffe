//! Coverage-guided search: libFuzzer chooses the bytes from which a property's case draws its choices, and keeps those
//! that reach new code or get closer to a comparison in the code under test. The oracle is the property itself.
#![allow(warnings)]
#![no_main]

include!(concat!(env!("OUT_DIR"), "/repo_mods.rs"));

#[path = "../../harness/src/engine.rs"]
#[macro_use]
mod engine;
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/dev.rs"]
mod dev;
#[path = "../../harness/src/ext4img.rs"]
mod ext4img;
#[path = "../../harness/src/mdimg.rs"]
mod mdimg;
#[path = "../../harness/src/names.rs"]
mod names;
#[path = "../../harness/src/props/mod.rs"]
mod props;

use engine::*;
use std::io::Write;
use std::sync::OnceLock;

#[global_allocator]
static ALLOC: alloc::Guarded = alloc::Guarded;

static PROP: OnceLock<&'static Prop> = OnceLock::new();

libfuzzer_sys::fuzz_target!(init: {
    // libFuzzer's own hook would end the process at a panic the oracle wants to see
    std::panic::set_hook(Box::new(|_| {}));
    engine::install_hook();
    let id = std::env::var("VERIF_PROP").expect("VERIF_PROP");
    let p = props::all().into_iter().find(|p| p.id == id).expect("property");
    let _ = PROP.set(p);
}, |data: &[u8]| {
    let p = PROP.get().unwrap();
    let mut g = G::from_bytes(data.to_vec());
    g.thorough = true;
    if let Err(Fail(m)) = run_case(|| (p.run)(&mut g)) {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let o = Options { seed: 0, thorough: true, verif_dir: dir, slots: None, cases: None, from: 0, threads: 1 };
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(30);
        let best = shrink((g.choices, m, None), 1500, deadline, |c| {
            let mut g = G::replay(c, true);
            g.want_desc = true;
            match run_case(|| (p.run)(&mut g)) {
                Ok(()) => None,
                Err(Fail(m)) => Some((g.choices, m, g.desc)),
            }
        });
        let path = write_replay(&o, p, "choices", &best.0, &best.1, best.2.as_deref());
        println!("guided search: {}{}", best.1, best.2.map(|d| format!(" [{d}]")).unwrap_or_default());
        println!("VIOLATION property={} replay={path}", p.id);
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
});

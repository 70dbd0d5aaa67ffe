#![allow(warnings)]

include!(concat!(env!("OUT_DIR"), "/repo_mods.rs"));

#[macro_use]
mod engine;
mod alloc;
mod dev;
mod ext4img;
mod mdimg;
mod names;
mod props;
mod supervise;

#[global_allocator]
static ALLOC: alloc::Guarded = alloc::Guarded;

fn main() {
    engine::install_hook();
    std::process::exit(supervise::main());
}

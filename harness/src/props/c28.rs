use super::tree::*;
use crate::block_device::{BlockDevice, BlockDeviceReader};
use crate::engine::*;
use crate::ext4::Ext4Fs;
use crate::ext4img::Knobs as FsKnobs;
use crate::mdimg::*;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C28",
    quick: 20_000,
    thorough: 2_000_000,
    rule: "a tree with at least one file of several blocks or one directory below the root was walked through an array of at least two stripes; distinct by the full choice sequence",
    assumptions: &[
        "images and arrays come from the harness's own builders (no mke2fs or mdadm here)",
        "arrays mid-reshape and filesystems with sparse or hash-indexed files are outside the generator",
    ],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    let fk = FsKnobs { big: g.chance(1, 10), max_groups: 6, ..Default::default() };
    let Some(t) = gen_tree(g, &fk, 40) else { return Ok(()) };
    let sectors = t.img.store.len.div_ceil(512);
    let k = Knobs {
        max_n: if g.thorough { 40 } else { 16 },
        max_chunk: 1024,
        any_chunk: true,
        max_chunks: Some(20),
        reshape_done: true,
        min_sectors: sectors,
        layout: Some(RAID6_LAYOUTS[g.strat(14) as usize]),
        ..Default::default()
    };
    let mut a = gen_array(g, &k);
    if a.geo.sectors() < sectors {
        g.class("array too small for the filesystem");
        return Ok(());
    }
    a.content = Content::Image(t.img.store.clone());
    a.fill_lazily();
    let b = a.finish();
    g.describe(|| format!("{}; {}", b.describe(), t.describe()));
    if b.geo.per_dev / b.geo.chunk >= 2 && (t.depth > 0 || t.objs.iter().any(|o| o.spec.exts.len() > 1)) {
        g.nontrivial();
    }
    if t.depth > 1 {
        g.class("directories below directories");
    }
    if t.links {
        g.class("hard links");
    }
    if t.img.cfg.blocks >> 32 != 0 {
        g.class("block numbers beyond 32 bits");
    }
    if b.geo.chunk * 512 < t.img.cfg.bs() {
        g.class("filesystem blocks span members");
    }
    if t.img.cfg.csum() {
        g.class("metadata checksums");
    }
    let order = b.order(g);
    let mut arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?;
    if g.chance(1, 5) {
        arr = arr.try_clone().map_err(|e| Fail(format!("clone: {e}")))?;
    }
    let diag = format!("{:?}", arr.diagnose());
    let mut fs =
        Ext4Fs::open(BlockDeviceReader::new(arr)).map_err(|e| Fail(format!("opening the filesystem: {e} ({diag})")))?;
    ensure_eq!(fs.block_size() as u64, t.img.cfg.bs(), "block size of the filesystem");
    if g.chance(1, 4) {
        fs = fs.try_clone().map_err(|e| Fail(format!("clone: {e}")))?;
    }
    let n = walk(&mut fs, &t)?;
    ensure_eq!(n, t.objs.len(), "inodes reached");
    Ok(())
}

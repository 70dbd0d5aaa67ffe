use crate::engine::*;
use crate::ext4::verif::{ExtentTree, Inode, InodeNumber, Superblock};
use crate::ext4img::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub static PROP: Prop = Prop {
    id: "C30",
    quick: 3_000_000,
    thorough: 60_000_000,
    rule: "a node of an extent tree (of an inode or a block, mostly with the magic number) was judged valid or not by the reference and decoded entry by entry if valid; distinct by the full choice sequence",
    assumptions: &[
        "the reference decoder is a table of offsets from the kernel's ext4_extent_header, ext4_extent and ext4_extent_idx",
        "blocks have at least the size of a header; what an invalid node decodes to is not judged",
    ],
    run,
    pinned: &[("every-length", every_length)],
};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Everything a valid node says.
fn compare<S: AsRef<[u8]> + PartialEq>(tree: &ExtentTree<S>, raw: &[u8], probe: &[usize]) -> R {
    let entries = get16(raw, 2) as usize;
    ensure_eq!(tree.depth(), get16(raw, 6), "depth");
    ensure_eq!(tree.entry_count(), entries, "number of entries");
    let max = get16(raw, 4) as usize;
    let generation = get32(raw, 8);
    let some = probe.iter().map(|p| p % (entries + 3)).chain([0, entries.wrapping_sub(1), entries, entries + 1]).chain(0..entries.min(5));
    match tree {
        ExtentTree::Leaf(leaf) => {
            ensure_eq!(get16(raw, 6), 0, "depth of a leaf");
            ensure!(leaf.valid(), "the leaf of a valid tree is not valid");
            ensure_eq!(leaf.extent_count(), entries, "number of extents");
            ensure_eq!(leaf.max_extents(), max, "maximum number of extents");
            ensure_eq!(leaf.generation(), generation, "generation");
            for i in some {
                let e = leaf.extent_at(i);
                ensure_eq!(e.is_some(), i < entries, "extent {i} of {entries}");
                let Some(e) = e else { continue };
                let at = 12 + 12 * i;
                let len = get16(raw, at + 4);
                let unwritten = len > 32768;
                let block = get32(raw, at + 8) as u64 | (get16(raw, at + 6) as u64) << 32;
                for e in [e, leaf.extent_at(i).unwrap()] {
                    ensure_eq!(u32::from(e.first_file_block_number()), get32(raw, at), "first block of extent {i}");
                    ensure_eq!(u16::from(e.length()), if unwritten { len - 32768 } else { len }, "length of extent {i}");
                    ensure_eq!(e.initialized(), !unwritten, "whether extent {i} is initialized");
                    ensure_eq!(u64::from(e.first_fs_block_number()), block, "where extent {i} is");
                    let o = e.into_owned();
                    ensure_eq!(u32::from(o.first_file_block_number()), get32(raw, at), "first block of extent {i}, owned");
                    ensure_eq!(u16::from(o.length()), if unwritten { len - 32768 } else { len }, "length of extent {i}, owned");
                    ensure_eq!(o.initialized(), !unwritten, "whether extent {i} is initialized, owned");
                    ensure_eq!(u64::from(o.first_fs_block_number()), block, "where extent {i} is, owned");
                }
            }
        }
        ExtentTree::Branch(branch) => {
            ensure!(get16(raw, 6) != 0, "a branch of depth 0");
            ensure!(branch.valid(), "the branch of a valid tree is not valid");
            ensure_eq!(branch.depth(), get16(raw, 6), "depth");
            ensure_eq!(branch.subtree_count(), entries, "number of subtrees");
            ensure_eq!(branch.max_subtrees(), max, "maximum number of subtrees");
            ensure_eq!(branch.generation(), generation, "generation");
            for i in some {
                let e = branch.subtree_index_at(i);
                ensure_eq!(e.is_some(), i < entries, "index {i} of {entries}");
                let Some(e) = e else { continue };
                let at = 12 + 12 * i;
                ensure_eq!(u32::from(e.block()), get32(raw, at), "first block of index {i}");
                ensure_eq!(u64::from(e.leaf()), get32(raw, at + 4) as u64 | (get16(raw, at + 8) as u64) << 32, "where index {i} is");
            }
        }
    }
    Ok(())
}

fn judge<S: AsRef<[u8]> + PartialEq + Clone + Hash>(tree: ExtentTree<S>, raw: &[u8], valid: bool, probe: &[usize]) -> R {
    ensure_eq!(tree.valid(), valid, "validity");
    ensure_eq!(tree.to_owned().valid(), valid, "validity of an owned copy");
    ensure_eq!(tree.clone().valid(), valid, "validity of a clone");
    if !valid {
        return Ok(());
    }
    compare(&tree, raw, probe)?;
    let owned = tree.to_owned();
    ensure!(owned.valid(), "an owned copy is not valid");
    compare(&owned, raw, probe)?;
    let copy = tree.clone();
    ensure!(copy == tree, "a clone differs");
    ensure_eq!(h(&copy), h(&tree), "hash of a clone");
    ensure!(owned == tree.to_owned(), "two owned copies differ");
    Ok(())
}

fn header(g: &mut G, raw: &mut [u8]) {
    let room = (raw.len() - 12) / 12;
    let m = g.strat(40);
    put16(raw, 0, if m == 0 { g.draw(0xffff) as u16 } else if m == 1 { 0xf30a ^ 1 << g.draw(15) } else { 0xf30a });
    let max = match g.draw(9) {
        0 => g.draw(0xffff) as u16,
        1 => room as u16 + g.draw(2) as u16,
        2 => g.us(0, room) as u16,
        3 => room.saturating_sub(1) as u16,
        _ => ((raw.len() - 12 - if raw.len() > 60 { 4 } else { 0 }) / 12) as u16,
    };
    put16(raw, 4, max);
    let entries = match g.draw(9) {
        0 => g.draw(0xffff) as u16,
        1 => max.saturating_add(1),
        2 => max,
        _ => g.us(0, max.min(room as u16) as usize) as u16,
    };
    put16(raw, 2, entries);
    put16(raw, 6, match g.draw(9) {
        0 => g.draw(0xffff) as u16,
        1..=4 => 1 + g.draw(5) as u16,
        _ => 0,
    });
    put32(raw, 8, g.u32b());
    // extents with lengths and places at the boundaries
    for _ in 0..g.draw(4) {
        let i = g.us(0, room.saturating_sub(1));
        if 24 + 12 * i > raw.len() {
            continue;
        }
        let v = g.u32b();
        put32(raw, 12 + 12 * i, v);
        let len = match g.draw(3) {
            0 => 32768,
            1 => 32769,
            2 => g.pick(&[0u16, 1, 32767, 65535]),
            _ => g.draw(0xffff) as u16,
        };
        put16(raw, 16 + 12 * i, len);
        let v = g.u32b();
        put32(raw, 20 + 12 * i, v);
    }
}

fn run(g: &mut G) -> R {
    let csum = g.chance(1, 2);
    let sb_noise = g.draw(u32::MAX as u64);
    let mut sb = blob(sb_noise, 1024);
    let ro = get32(&sb, 0x64) & !R_CSUM | if csum { R_CSUM } else { 0 };
    put32(&mut sb, 0x64, ro);
    let stored_seed = get32(&sb, 0x60) & 0x2000 != 0;
    let fs_seed = if stored_seed { get32(&sb, 0x270) } else { crc32c(!0, &sb[0x68..0x78]) };
    let sb = Superblock::new(sb);
    let ino = 1 + g.draw(u32::MAX as u64 - 1) as u32;
    let size = if g.chance(1, 4) { 128 } else { 256 };
    let mut raw = g.blob(size);
    let flags = (get32(&raw, 32) & !0x1008_0000) | if g.chance(9, 10) { 0x8_0000 } else { 0 } | if g.chance(1, 10) { 0x1000_0000 } else { 0 };
    put32(&mut raw, 32, flags);
    header(g, &mut raw[40..100]);
    let inode = Inode::new(&sb, InodeNumber(ino), &raw);
    let probe: Vec<usize> = (0..3).map(|_| g.draw(70_000) as usize).collect();
    if get16(&raw, 40) == 0xf30a {
        g.nontrivial();
    }

    let root = ExtentTree::from_inode(&inode);
    ensure_eq!(root.is_some(), flags & 0x1008_0000 == 0x8_0000, "whether an inode with flags {flags:#x} has extents");
    if let Some(root) = root {
        let b = &raw[40..100];
        let (entries, max) = (get16(b, 2) as usize, get16(b, 4) as usize);
        let valid = get16(b, 0) == 0xf30a && entries <= max && 12 + 12 * max <= 60;
        g.class(if valid { "valid root" } else { "invalid root" });
        g.describe(|| format!("root {:02x?} flags {flags:#x}", &b[..12]));
        judge(root, b, valid, &probe)?;
    }

    // a block of the tree
    let len = match g.draw(9) {
        0 => 4096,
        1 => 65536,
        2 => 2048,
        3 => 12 + g.us(0, 80),
        _ => 1024,
    };
    let mut block = g.blob(len);
    header(g, &mut block);
    let (entries, max) = (get16(&block, 2) as usize, get16(&block, 4) as usize);
    let end = 12 + 12 * max;
    let mut valid = get16(&block, 0) == 0xf30a && entries <= max && end + if csum { 4 } else { 0 } <= len;
    if csum && valid {
        let s = crc32c(crc32c(fs_seed, &ino.to_le_bytes()), &raw[100..104]);
        let c = crc32c(s, &block[..end]);
        put32(&mut block, end, c);
        match g.strat(6) {
            0 => {
                let (at, bit) = (g.us(0, end + 3), g.draw(7));
                if at >= 8 {
                    block[at] ^= 1 << bit;
                    valid = false;
                    g.class("a bit altered");
                }
            }
            1 if end + 4 < len => {
                // not covered
                let at = g.us(end + 4, len - 1);
                block[at] ^= 0xff;
                g.class("altered after the checksum");
            }
            2 => {
                let v = g.pick(&[0, !0, !c, c.swap_bytes()]);
                valid = v == c;
                put32(&mut block, end, v);
                g.class("another checksum");
            }
            _ => {}
        }
    }
    if get16(&block, 0) == 0xf30a {
        g.nontrivial();
    }
    g.class(match (valid, csum) {
        (true, true) => "valid block with checksum",
        (true, false) => "valid block without checksum",
        _ => "invalid block",
    });
    g.describe(|| format!("inode {ino} checksums {csum} block of {len} bytes {:02x?} valid {valid}", &block[..12]));
    if g.chance(1, 2) {
        judge(ExtentTree::from_block(&inode, &block[..]), &block, valid, &probe)
    } else {
        judge(ExtentTree::from_block(&inode, block.clone()), &block, valid, &probe)
    }
}

/// Every length of an extent, and every depth.
fn every_length() -> R {
    let sb = Superblock::new(vec![0u8; 1024]);
    let mut raw = vec![0u8; 256];
    put32(&mut raw, 32, 0x8_0000);
    put16(&mut raw, 40, 0xf30a);
    put16(&mut raw, 42, 1);
    put16(&mut raw, 44, 4);
    for v in 0..=0xffffu16 {
        put16(&mut raw, 46, 0);
        put16(&mut raw, 56, v);
        put16(&mut raw, 58, !v);
        let inode = Inode::new(&sb, InodeNumber(12), &raw);
        let Some(t) = ExtentTree::from_inode(&inode) else { return Err(Fail("no extents".into())) };
        judge(t, &raw[40..100], true, &[])?;
        put16(&mut raw, 46, v);
        let inode = Inode::new(&sb, InodeNumber(12), &raw);
        let Some(t) = ExtentTree::from_inode(&inode) else { return Err(Fail("no extents".into())) };
        judge(t, &raw[40..100], true, &[])?;
    }
    Ok(())
}

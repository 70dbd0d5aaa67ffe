use crate::engine::*;
use crate::ext4::verif::{Inode, InodeNumber};
use crate::ext4img::*;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C22",
    quick: 300_000,
    thorough: 40_000_000,
    rule: "the mutated or random image was accepted by open, and at least one mutated byte belongs to metadata of what was then read, or the image was random; distinct by the full choice sequence",
    assumptions: &[
        "no progress: a single call performs more than 50000 device operations plus 16 per block of the image (opening: more than 1000 plus 4 per byte of descriptors the image can hold)",
        "out of proportion: more than 64 MB plus 200 times the image of memory",
        "each file and directory is read for at most 400 calls",
    ],
    run,
    pinned: &[],
};

struct Spot {
    pos: u64,
    len: u64,
    kind: SpotKind,
}

#[derive(Clone, Copy)]
enum SpotKind {
    Super,
    Desc,
    Inode,
    Extent(u32, u32),
    Dir(u32, u32),
}

fn value(g: &mut G, width: usize) -> Vec<u8> {
    let v = match g.draw(6) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - g.draw(16),
        3 => g.draw(16),
        4 => 1 << g.draw(63),
        5 => g.draw(70_000),
        _ => g.draw(u64::MAX),
    };
    v.to_le_bytes()[..width].to_vec()
}

fn mutate(g: &mut G, img: &mut Img, s: &Spot, seal: bool) {
    let n = img.store.len.saturating_sub(s.pos).min(s.len) as usize;
    if n < 16 {
        return;
    }
    let mut b = img.store.get(s.pos, n);
    for _ in 0..1 + g.draw(2) {
        let (at, width) = match s.kind {
            SpotKind::Super => g.pick(&[
                (0usize, 4usize),
                (4, 4),
                (0x14, 4),
                (0x18, 4),
                (0x1c, 4),
                (0x20, 4),
                (0x24, 4),
                (0x28, 4),
                (0x58, 2),
                (0x60, 4),
                (0x60, 1),
                (0x64, 4),
                (0x64, 2),
                (0xfe, 2),
                (0x104, 4),
                (0x150, 4),
                (0x174, 1),
                (0x175, 1),
                (0x4c, 4),
            ]),
            SpotKind::Desc => g.pick(&[(8usize, 4usize), (40, 4), (8, 2), (8, 1), (0, 4), (30, 2)]),
            SpotKind::Inode => match g.draw(3) {
                0 => g.pick(&[(0usize, 2usize), (4, 4), (0x6c, 4), (0x20, 4), (0x22, 1), (0x80, 2), (0x64, 4), (0x6c, 1)]),
                1 => g.pick(&[(0x28usize, 2usize), (0x2a, 2), (0x2c, 2), (0x2e, 2)]),
                2 => (0x34 + 2 * g.us(0, 23), g.pick(&[1, 2, 4])),
                _ => (g.us(0, n.min(160) - 1), g.pick(&[1, 2, 4, 8])),
            },
            SpotKind::Extent(..) => match g.draw(3) {
                0 => g.pick(&[(0usize, 2usize), (2, 2), (4, 2), (6, 2)]),
                1 => (12 + 12 * g.us(0, 3) + g.pick(&[0, 4, 6, 8]), g.pick(&[1, 2, 4])),
                2 => (12 + 12 * g.us(0, (n - 24) / 12) + g.pick(&[0, 4, 6, 8]), g.pick(&[1, 2, 4])),
                _ => (g.us(0, n - 1), g.pick(&[1, 2, 4, 8])),
            },
            SpotKind::Dir(..) => match g.draw(2) {
                0 => {
                    // the length or name length of some record
                    let mut at = 0;
                    let hops = g.draw(20);
                    for _ in 0..hops {
                        let l = get16(&b, at + 4) as usize;
                        if l < 8 || at + l + 8 > n {
                            break;
                        }
                        at += l;
                    }
                    g.pick(&[(at + 4, 2), (at + 4, 1), (at + 6, 1), (at, 4)])
                }
                1 => (n - 12 + g.us(0, 11), g.pick(&[1, 2, 4])),
                _ => (g.us(0, n - 1), g.pick(&[1, 2, 4, 8])),
            },
        };
        if at + width <= n {
            let v = value(g, width);
            if g.chance(1, 4) {
                for (x, y) in b[at..].iter_mut().zip(v) {
                    *x ^= y;
                }
            } else {
                b[at..at + width].copy_from_slice(&v);
            }
        }
    }
    if let (SpotKind::Super, true) = (s.kind, g.chance(1, 4)) {
        // changes that pass each other's checks
        match g.draw(2) {
            0 => {
                let l = if g.chance(1, 2) { g.draw(8) as u32 } else { g.draw(64) as u32 };
                put32(&mut b, 0x18, l);
                put32(&mut b, 0x1c, l);
                let v = get32(&b, 0x20);
                put32(&mut b, 0x24, v);
            }
            1 => {
                let v = u32::from_le_bytes(value(g, 4).try_into().unwrap());
                put32(&mut b, 0x20, v);
                put32(&mut b, 0x24, v);
            }
            _ => {
                let i = get32(&b, 0x60) ^ I_64BIT;
                put32(&mut b, 0x60, i);
                put16(&mut b, 0xfe, g.pick(&[0, 32, 64, 128, 1, 63, 65, 0x8000, 0xffff]));
            }
        }
    }
    if seal {
        match s.kind {
            SpotKind::Super => seal_superblock(&mut b),
            SpotKind::Extent(i, gen) => img.seal_extent_block(&mut b, i, gen),
            SpotKind::Dir(i, gen) if n as u64 == img.cfg.bs() => {
                if img.cfg.csum() {
                    b.truncate(n - 12);
                }
                img.seal_dir_block(&mut b, i, gen)
            }
            _ => {}
        }
    }
    img.store.write(s.pos, &b);
}

/// A tree of many nodes which map nothing: every entry of every node leads to the same node below, and the leaf has no
/// extents, or extents of no blocks.
fn fan(g: &mut G, img: &mut Img) -> Option<FileSpec> {
    let bs = img.cfg.bs();
    let ino = img.ino(g);
    let size = 1 + g.draw(100_000);
    let mode = g.pick(&[0x81a4, 0x81a4, 0x41ed]);
    let mut f = img.put_file(g, ino, mode, size, vec![], 0)?;
    let depth = if g.chance(1, 2) { 5 } else { 1 + g.draw(4) as u16 };
    let cap = img.cfg.extents_per_block();
    let keys = g.draw(3);
    let mut below = 0u64;
    for d in 0..=depth {
        let max = if d == depth { 4 } else { cap };
        let n = if g.chance(3, 4) { max } else { g.us(0, max) };
        let n = if d == 0 && g.chance(1, 2) { 0 } else { n };
        let mut b = if d == depth { f.iblock.to_vec() } else { vec![0; bs as usize] };
        put16(&mut b, 0, 0xf30a);
        put16(&mut b, 2, n as u16);
        put16(&mut b, 4, max as u16);
        put16(&mut b, 6, d);
        put32(&mut b, 8, 0);
        for i in 0..n {
            let o = 12 + 12 * i;
            b[o..o + 12].fill(0);
            if d == 0 {
                put32(&mut b, o + 8, below as u32);
                if g.chance(1, 50) {
                    put16(&mut b, o + 4, 0x8000);
                }
            } else {
                put32(&mut b, o, if keys == 3 { i as u32 } else { 0 });
                put32(&mut b, o + 4, below as u32);
                put16(&mut b, o + 8, (below >> 32) as u16);
            }
        }
        if d == depth {
            f.iblock.copy_from_slice(&b);
            img.write_inode(g, &f)?;
        } else {
            below = img.alloc(g, 1)?;
            img.seal_extent_block(&mut b, ino, f.generation);
            img.store.write(below * bs, &b);
        }
    }
    Some(f)
}

fn run(g: &mut G) -> R {
    let mut k = Knobs { small: true, big: false, max_groups: 4, min_blocks: 60, ..Default::default() };
    if g.chance(3, 4) {
        k.max_log_bs = 2;
    }
    if g.chance(1, 2) {
        k.csum = Some(false);
    }
    let mut img = Img::gen(g, &k);
    let bs = img.cfg.bs();
    let mut inos = vec![];
    let mut fanned = false;
    let mut spots = vec![Spot { pos: 1024, len: 1024, kind: SpotKind::Super }];
    let n = 1 + g.draw(2);
    for i in 0..n {
        let ino = if i == 0 && g.chance(1, 2) { 2 } else { img.ino(g) };
        let f = if ino == 2 || g.chance(1, 2) {
            let ops = g.us(0, 40);
            let d = gen_dir(g, &img.cfg, ino, 2, ops);
            let Some(f) = img.put_dir(g, ino, &d) else { break };
            for e in f.exts.iter().take(20) {
                spots.push(Spot { pos: e.phys * bs, len: bs, kind: SpotKind::Dir(ino, f.generation) });
            }
            f
        } else {
            let blocks = g.draw(30);
            let Some(f) = img.gen_file_at(g, ino, blocks) else { break };
            f
        };
        inos.push(ino);
        let ext: Vec<u64> = img.nodes.iter().filter(|n| n.ino == ino).map(|n| n.block).take(20).collect();
        for b in ext {
            spots.push(Spot { pos: b * bs, len: bs, kind: SpotKind::Extent(ino, f.generation) });
        }
        let pos = img.inode_pos(g, ino).unwrap();
        for _ in 0..3 {
            spots.push(Spot { pos, len: img.cfg.inode_size as u64, kind: SpotKind::Inode });
        }
        let group = (ino as u64 - 1) / img.cfg.ipg as u64;
        spots.push(Spot {
            pos: img.cfg.gdt_block() * bs + group * img.cfg.desc_size,
            len: img.cfg.desc_size,
            kind: SpotKind::Desc,
        });
    }
    if g.chance(1, 25) {
        if let Some(f) = fan(g, &mut img) {
            inos.push(f.ino);
            for b in img.nodes.iter().filter(|n| n.ino == f.ino) {
                spots.push(Spot { pos: b.block * bs, len: bs, kind: SpotKind::Extent(f.ino, f.generation) });
            }
            fanned = true;
        }
    }
    // the budget below grows with the image
    img.store.len = img.store.len.min(16 << 20);
    let raw = g.chance(1, 40);
    let muts = if fanned && g.chance(3, 4) { 0 } else { g.draw(5) };
    let mut meta = fanned;
    if raw {
        let len = g.draw(100_000);
        let mut s = crate::dev::Storage::new(len, g.draw(u32::MAX as u64));
        if len >= 2048 {
            let mut b = s.get(1024, 1024);
            put16(&mut b, 0x38, 0xef53);
            if g.chance(1, 2) {
                put32(&mut b, 0x18, g.draw(6) as u32);
                let l = get32(&b, 0x18);
                put32(&mut b, 0x1c, l);
                let c = get32(&b, 0x20);
                put32(&mut b, 0x24, c);
                put16(&mut b, 0x3c, 1);
                put32(&mut b, 0x48, 0);
                let i = get32(&b, 0x60) & 0x1f7df | 0x40;
                put32(&mut b, 0x60, i);
                b[0x174] &= 31;
                b[0x175] = 1;
                put32(&mut b, 0x150, g.draw(2) as u32);
                seal_superblock(&mut b);
            }
            s.write(1024, &b);
        }
        img.store = s;
    } else {
        for _ in 0..muts {
            let i = if g.chance(1, 6) { 0 } else { g.us(0, spots.len() - 1) };
            let seal = g.chance(7, 8);
            mutate(g, &mut img, &spots[i], seal);
            meta = true;
        }
        if g.chance(1, 12) {
            // a block of metadata copied over another
            let (a, b) = (g.us(0, spots.len() - 1), g.us(0, spots.len() - 1));
            let n = spots[a].len.min(spots[b].len);
            if spots[a].pos + n <= img.store.len && spots[b].pos + n <= img.store.len {
                let v = img.store.get(spots[a].pos, n as usize);
                img.store.write(spots[b].pos, &v);
                meta = true;
            }
        }
        if g.chance(1, 12) {
            let len = img.store.len;
            img.store.len = if g.chance(1, 4) { g.draw(len) } else { len - g.draw(len / 2) };
            meta = true;
        }
    }
    if g.chance(1, 3) {
        inos.push(2);
    }
    for _ in 0..g.draw(2) {
        inos.push(g.u32b());
    }
    for _ in 0..g.draw(3) {
        inos.push(1 + g.draw(60) as u32);
    }
    let len = img.store.len;
    let img = img.finish();
    g.describe(|| format!("{} image of {len} bytes, {muts} mutations, inodes {inos:?}", img.cfg.describe()));
    let ctl = Rc::clone(&img.ctl);
    let call = 50_000 + 16 * (len / 1024);
    let mut opened = false;
    let mut calls = 0u64;
    let mut files = 0;
    let mut dirs = 0;
    let mut ends = 0;
    let r: R = crate::alloc::guarded((64 << 20) + 200 * len as usize, || {
        ctl.set_fuel(1000 + 4 * len);
        let Ok(mut fs) = img.open() else { return Ok(()) };
        opened = true;
        let bs = fs.block_size();
        let mut buf = vec![0; bs];
        ctl.set_fuel(call);
        let _ = fs.read_root_inode();
        for i in &inos {
            ctl.set_fuel(call);
            match open_ino(&mut fs, *i) {
                Ok(Opened::File(mut f)) => {
                    files += 1;
                    let _ = f.file_size_bytes();
                    let mut errs = 0;
                    for _ in 0..400 {
                        ctl.set_fuel(call);
                        calls += 1;
                        match f.read_next_block(&mut buf) {
                            Ok(0) => {
                                ends += 1;
                                break;
                            }
                            Ok(n) => ensure!(n <= bs, "{n} bytes of a block of {bs}"),
                            Err(_) => errs += 1,
                        }
                        if errs > 5 {
                            break;
                        }
                    }
                }
                Ok(Opened::Dir(mut d)) => {
                    dirs += 1;
                    let mut errs = 0;
                    for _ in 0..400 {
                        ctl.set_fuel(call);
                        calls += 1;
                        match next_entry(&mut d) {
                            Ok(None) => {
                                ends += 1;
                                break;
                            }
                            Ok(Some(e)) => ensure!(e.name.len() < 256, "a name of {} bytes", e.name.len()),
                            Err(_) => errs += 1,
                        }
                        if errs > 5 {
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    });
    r?;
    // attributes of whatever lies where an inode is
    if !raw {
        let sb = crate::ext4::verif::Superblock::new(img.store.get(1024, 1024.min(len.saturating_sub(1024) as usize)));
        if len >= 2048 {
            let n = g.us(128, 300);
            let b = g.blob(n);
            let i = Inode::new(&sb, InodeNumber(g.u32b()), &b[..]);
            let _ = (i.access_time(), i.creation_time(), i.modified_time(), i.change_time(), i.delete_time());
            let _ = (i.file_type(), i.permissions(), i.flags(), i.file_size_bytes(), i.block_count(), i.checksum());
        }
    }
    if opened && (meta || raw) {
        g.nontrivial();
    }
    g.class(if opened { "opened" } else { "refused" });
    if raw {
        g.class("random image");
    }
    if files > 0 {
        g.class("some inode opened as a file");
    }
    if dirs > 0 {
        g.class("some inode opened as a directory");
    }
    if ends > 0 {
        g.class("something was read to its end");
    }
    Ok(())
}

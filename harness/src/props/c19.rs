use crate::engine::*;
use crate::ext4img::*;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C19",
    quick: 750_000,
    thorough: 20_000_000,
    rule: "a generated filesystem was opened and read; then, with one condition for refusal established (or an irrelevant field altered) and the checksum refreshed, opening was judged again; distinct by the full choice sequence",
    assumptions: &[
        "well-formed: what the image builder makes, whose root directory and one file must then read back",
        "values between well-formed and listed as refused (31..62 for the flex group size, descriptor sizes other than powers of two from 64) are not judged",
    ],
    run,
    pinned: &[],
};

const KNOWN_INCOMPAT: u32 = 0x1f7df;

fn patch_sb(img: &mut Img, seal: bool, f: impl FnOnce(&mut Vec<u8>)) {
    let mut b = img.store.get(1024, 1024);
    f(&mut b);
    if seal {
        seal_superblock(&mut b);
    }
    img.store.write(1024, &b);
}

/// Establishes a condition for refusal; returns its name.
fn spoil(g: &mut G, img: &mut Img) -> Option<&'static str> {
    let cfg = img.cfg.clone();
    let bigalloc = cfg.rocompat & R_BIGALLOC != 0;
    let at32 = |img: &mut Img, at: usize, v: u32| patch_sb(img, true, |b| put32(b, at, v));
    Some(match g.strat(22) {
        0 => {
            let v = match g.draw(2) {
                0 => 0xef53 ^ (1 << g.draw(15)),
                1 => 0x53ef,
                _ => g.draw(0xffff) as u16,
            };
            if v == 0xef53 {
                return None;
            }
            patch_sb(img, true, |b| put16(b, 0x38, v));
            "magic"
        }
        1 => {
            let v = match g.draw(2) {
                0 => 7 + g.draw(60) as u32,
                1 => u32::MAX - g.draw(12) as u32,
                _ => 7 + g.draw(u32::MAX as u64 - 7) as u32,
            };
            let same = g.chance(1, 2);
            patch_sb(img, true, |b| {
                put32(b, 0x18, v);
                if same {
                    put32(b, 0x1c, v)
                }
            });
            "block size"
        }
        2 => {
            let v = if bigalloc { 53 + g.draw(60) as u32 } else { g.draw(80) as u32 };
            let v = if g.chance(1, 4) { u32::MAX - g.draw(12) as u32 } else { v };
            if !bigalloc && v == cfg.log_bs {
                return None;
            }
            at32(img, 0x1c, v);
            "cluster size"
        }
        3 => {
            if bigalloc {
                // the same geometry without the feature
                if cfg.log_cluster == cfg.log_bs {
                    return None;
                }
                at32(img, 0x64, cfg.rocompat & !R_BIGALLOC);
                "clusters without bigalloc"
            } else {
                let v = cfg.cpg ^ 1 << g.draw(31);
                at32(img, 0x24, v);
                "clusters per group"
            }
        }
        4 => {
            let v = g.pick(&[0u16, 4, 5, 0x100, 0x101, 0x8001, 0xffff]);
            patch_sb(img, true, |b| put16(b, 0x3c, v));
            "error policy"
        }
        5 => {
            let v = 63 + g.draw(192) as u8;
            patch_sb(img, true, |b| b[0x174] = v);
            "flex group size"
        }
        6 => {
            let bit = g.draw(31);
            if cfg.csum_type != 1 {
                return None;
            }
            patch_sb(img, false, |b| {
                let c = get32(b, 1020) ^ 1 << bit;
                put32(b, 1020, c)
            });
            "checksum"
        }
        7 => {
            // any covered byte altered, checksum left
            let at = g.us(0, 1019);
            let m = 1u8 << g.draw(7);
            if cfg.csum_type != 1 || at == 0x175 {
                return None;
            }
            patch_sb(img, false, |b| b[at] ^= m);
            "covered byte"
        }
        8 => {
            let v = 2 + g.draw(253) as u8;
            let noise = g.draw(1) as u32 * 0x1234;
            patch_sb(img, true, |b| {
                b[0x175] = v;
                let r = get32(b, 0x64) | R_CSUM;
                put32(b, 0x64, r);
                // what a checksum of the known type would be
                let c = crc32c(!0, &b[..1020]);
                put32(b, 1020, c ^ noise);
            });
            "checksum type"
        }
        9 => {
            patch_sb(img, true, |b| {
                b[0x175] = 0;
                let r = get32(b, 0x64) | R_CSUM;
                put32(b, 0x64, r);
            });
            "metadata checksums without a checksum type"
        }
        10 => {
            let v = 1 + if g.chance(1, 2) { g.draw(4) } else { g.draw(u32::MAX as u64 - 1) } as u32;
            at32(img, 0x48, v);
            "creator"
        }
        11 => {
            at32(img, 0x60, cfg.incompat & !I_EXTENTS);
            "no extents"
        }
        12 => {
            let mut v = 0;
            while v == 0 {
                let b = 1u32 << g.draw(31);
                let b = if g.chance(1, 4) { g.pick(&[0x20u32, 0x800, 0x20000]) } else { b };
                v = b & !KNOWN_INCOMPAT;
                if v == 0 {
                    v = 0x20000;
                }
            }
            at32(img, 0x60, cfg.incompat | v);
            "unknown incompatible feature"
        }
        13 => {
            let both = g.chance(1, 2) || !bigalloc;
            patch_sb(img, true, |b| {
                put32(b, 0x20, 0);
                if both {
                    put32(b, 0x24, 0)
                }
            });
            "no blocks per group"
        }
        14 => {
            at32(img, 0x28, 0);
            "no inodes per group"
        }
        15 => {
            patch_sb(img, true, |b| {
                put16(b, 0xfe, 0);
                let i = get32(b, 0x60) | I_64BIT;
                put32(b, 0x60, i);
            });
            "no descriptor size"
        }
        16 => {
            let v = g.pick(&[0u16, 1, 64, 127, 100]);
            patch_sb(img, true, |b| put16(b, 0x58, v));
            "inode size"
        }
        17 => {
            // descriptors in use that are stored in meta block groups
            let need = (cfg.groups * cfg.desc_size).div_ceil(cfg.bs());
            let v = if g.chance(1, 2) { need - 1 } else { g.draw(need - 1) } as u32;
            patch_sb(img, true, |b| {
                put32(b, 0x60, cfg.incompat | I_META_BG);
                put32(b, 0x104, v);
            });
            "meta block groups"
        }
        18 => {
            // cut off within the group descriptors; the kernel's count leaves out block 0 when it precedes the first group
            let groups = (cfg.blocks - cfg.first_data_block as u64).div_ceil(cfg.bpg as u64);
            let end = cfg.gdt_block() * cfg.bs() + groups * cfg.desc_size;
            img.store.len = match g.draw(2) {
                0 => end - 1 - g.draw(cfg.desc_size - 1),
                1 => g.draw(end - 1),
                _ => g.draw(cfg.gdt_block() * cfg.bs()),
            };
            "device ends within the descriptors"
        }
        19 => {
            img.store.len = if g.chance(1, 4) { 2047 } else { g.draw(2047) };
            "device ends within the superblock"
        }
        20 => {
            // more groups than descriptors can be on the device
            img.store.len = cfg.gdt_block() * cfg.bs() + g.draw(100_000);
            let top = img.store.len / 32 + 2;
            if cfg.incompat & I_META_BG != 0 {
                return None;
            }
            let v = top.saturating_mul(cfg.bpg as u64).saturating_add(g.draw(u32::MAX as u64));
            let v = if g.chance(1, 3) { u64::MAX - g.draw(1000) } else { v };
            patch_sb(img, true, |b| {
                put32(b, 4, v as u32);
                put32(b, 0x150, (v >> 32) as u32);
            });
            "more blocks than can be described"
        }
        _ => {
            let v = g.draw(255) as u8;
            let n = g.us(0, 1023);
            patch_sb(img, false, |b| b[..n].fill(v));
            if n < 0x3a {
                return None;
            }
            "overwritten from its start"
        }
    })
}

/// Alters what must not matter.
fn vary(g: &mut G, img: &mut Img) -> &'static str {
    let cfg = img.cfg.clone();
    match g.strat(7) {
        0 => {
            let v = g.draw(u32::MAX as u64) as u32;
            patch_sb(img, true, |b| put32(b, 0x5c, v));
            "compatible features"
        }
        1 => {
            let v = g.draw(u32::MAX as u64) as u32 & !(R_BIGALLOC | R_CSUM | 0x10);
            patch_sb(img, true, |b| put32(b, 0x64, cfg.rocompat | v));
            "read-only compatible features"
        }
        2 => {
            let v = 1 + g.draw(2) as u16;
            patch_sb(img, true, |b| put16(b, 0x3c, v));
            "error policy"
        }
        3 => {
            let v = g.draw(30) as u8;
            patch_sb(img, true, |b| b[0x174] = v);
            "flex group size"
        }
        4 => {
            // state, mount counts, times, names, error records
            for _ in 0..1 + g.draw(8) {
                let at = g.pick(&[0x0cusize, 0x10, 0x2c, 0x30, 0x34, 0x40, 0x44, 0x50, 0x78, 0x88, 0xe0, 0xe8, 0x108])
                    + if g.chance(1, 2) { 0x74 * (1 + g.us(0, 1)) } else { 0 };
                let at = if matches!(at & !3, 0x104 | 0x150 | 0x174 | 0x48 | 0x4c | 0x58 | 0x5c | 0x60 | 0x64 | 0xfc) {
                    0x10
                } else {
                    at
                };
                let v = g.u32b();
                if !(0x68..0x78).contains(&at) {
                    patch_sb(img, true, |b| put32(b, at, v));
                }
            }
            "informational fields"
        }
        5 => {
            // the device is as large as the filesystem, or larger
            img.store.len = cfg.blocks * cfg.bs() + g.pick(&[0u64, 1, 511, 4096, 1 << 30]);
            "device size"
        }
        _ => {
            if cfg.csum() {
                patch_sb(img, true, |_| {});
            } else {
                let v = g.draw(1) as u8;
                patch_sb(img, true, |b| b[0x175] = v);
            }
            "superblock checksum without metadata checksums"
        }
    }
}

fn run(g: &mut G) -> R {
    let big = g.chance(1, 20);
    let mut img = Img::gen(g, &Knobs { min_blocks: 40, big, ..Default::default() });
    let ops = g.us(0, 6);
    let d = gen_dir(g, &img.cfg, 2, 2, ops);
    if img.put_dir(g, 2, &d).is_none() {
        return Ok(());
    }
    let Some(f) = img.gen_file(g, 3) else { return Ok(()) };
    let want: Vec<Entry> = d.live().iter().map(Entry::from).collect();
    let good = g.chance(1, 3);
    let what = if good { Some(vary(g, &mut img)) } else { None };
    let base = Done { cfg: img.cfg.clone(), store: Rc::new(img.store.clone()), nodes: vec![], ctl: Default::default() };
    let mut fs = base
        .open()
        .map_err(|e| Fail(format!("a well-formed filesystem ({}) is refused: {e}; {}", what.unwrap_or("plain"), base.cfg.describe())))?;
    ensure_eq!(fs.block_size() as u64, base.cfg.bs(), "block size");
    check_listing(&mut open_dir(&mut fs, 2)?, &want)?;
    let mut x = open_regular(&mut fs, &f)?;
    let mut buf = vec![0; base.cfg.bs() as usize];
    for i in 0..=f.blocks(base.cfg.bs()) {
        check_block(&mut x, &base, &f, i, &mut buf)?;
    }
    if let Some(w) = what {
        g.class(w);
        g.nontrivial();
        g.describe(|| format!("{} accepted, with {w} varied", base.cfg.describe()));
        return Ok(());
    }
    let Some(w) = spoil(g, &mut img) else { return Ok(()) };
    g.class(w);
    g.nontrivial();
    let img = img.finish();
    g.describe(|| format!("{} refused for {w}", img.cfg.describe()));
    img.ctl.set_fuel(100_000 + 4 * img.cfg.groups);
    ensure!(img.open().is_err(), "opened in spite of: {w} ({})", img.cfg.describe());
    Ok(())
}

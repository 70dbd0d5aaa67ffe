use crate::engine::*;
use crate::ext4img::*;

pub static PROP: Prop = Prop {
    id: "C17",
    quick: 720_000,
    thorough: 6_000_000,
    rule: "at least two inodes of different groups, or inodes at the edges of their group, were opened by number and identified by type, size and contents; distinct by the full choice sequence",
    assumptions: &["images come from the harness's own builder; every inode has its own size and contents"],
    run,
    pinned: &[],
};

enum Kind {
    File(FileSpec),
    Dir(FileSpec, Vec<Entry>),
    Other(u32, u8),
}

fn run(g: &mut G) -> R {
    let mut k = Knobs::default();
    if g.chance(1, 3) {
        k.max_groups = 200;
        k.log_bs = Some(0);
    }
    let mut img = Img::gen(g, &k);
    let mut all = vec![];
    let n = 1 + g.draw(7);
    for i in 0..n {
        let ino = if i == 0 && g.chance(1, 2) { 2 } else { img.ino(g) };
        match if ino == 2 { 1 } else { g.draw(2) } {
            0 => {
                let blocks = 1 + g.draw(3);
                let Some(f) = img.gen_file_at(g, ino, blocks) else { break };
                all.push(Kind::File(f));
            }
            1 => {
                let ops = g.us(0, 4);
                let d = gen_dir(g, &img.cfg, ino, 2, ops);
                let Some(f) = img.put_dir(g, ino, &d) else { break };
                all.push(Kind::Dir(f, d.live().iter().map(Entry::from).collect()));
            }
            _ => {
                let t = g.pick(&[0u8, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15]);
                let mode = (t as u16) << 12 | g.draw(0xfff) as u16;
                let flags = g.draw(u32::MAX as u64) as u32;
                let size = g.draw(u32::MAX as u64);
                let mut iblock = [0u8; 60];
                iblock.copy_from_slice(&g.blob(60));
                let f = FileSpec { ino, size, exts: vec![], depth: 0, generation: 1, mode, flags, iblock };
                if img.write_inode(g, &f).is_none() {
                    break;
                }
                all.push(Kind::Other(ino, t));
            }
        }
    }
    let img = img.finish();
    let cfg = &img.cfg;
    let inos: Vec<u32> = all
        .iter()
        .map(|k| match k {
            Kind::File(f) | Kind::Dir(f, _) => f.ino,
            Kind::Other(i, _) => *i,
        })
        .collect();
    g.describe(|| format!("{} inodes {inos:?} of {}", cfg.describe(), cfg.inodes));
    let group = |i: u32| (i - 1) / cfg.ipg;
    if inos.iter().any(|i| group(*i) != group(inos[0])) || inos.iter().any(|i| i % cfg.ipg < 2 && *i > 2) {
        g.nontrivial();
    }
    if inos.iter().any(|i| i % cfg.ipg == 0) {
        g.class("last inode of a group");
    }
    if inos.iter().any(|i| i % cfg.ipg == 1 && *i > 1) {
        g.class("first inode of a later group");
    }
    if inos.contains(&cfg.inodes) {
        g.class("last inode of the filesystem");
    }
    if cfg.desc_size == 32 {
        g.class("32-byte descriptors");
    }
    if cfg.log_bs == 0 && cfg.log_cluster > 0 {
        g.class("1 KiB blocks starting at block 0");
    }
    let mut fs = img.must_open()?;
    if g.chance(1, 2) {
        g.shuffle(&mut all);
    }
    for k in &all {
        match k {
            Kind::File(f) => {
                let mut x = open_regular(&mut fs, f)?;
                ensure_eq!(x.file_size_bytes(), f.size, "size of inode {}", f.ino);
                let mut buf = vec![0; cfg.bs() as usize];
                for i in 0..f.blocks(cfg.bs()) + 1 {
                    check_block(&mut x, &img, f, i, &mut buf)?;
                }
            }
            Kind::Dir(f, want) => {
                let mut x = open_dir(&mut fs, f.ino)?;
                check_listing(&mut x, want)?;
            }
            Kind::Other(i, t) => match open_ino(&mut fs, *i) {
                Ok(Opened::Other(u)) => ensure_eq!(u, *t, "type of inode {i}"),
                Ok(_) => return Err(Fail(format!("inode {i} of type {t} opened as a file or directory"))),
                Err(e) => return Err(Fail(format!("inode {i} of type {t}: {e}"))),
            },
        }
    }
    let bad = [
        0,
        cfg.inodes.saturating_add(1),
        cfg.inodes.saturating_add(1 + g.draw(1000) as u32),
        u32::MAX,
    ];
    for b in bad {
        if b == 0 || b > cfg.inodes {
            ensure!(open_ino(&mut fs, b).is_err(), "inode number {b} of {} was accepted", cfg.inodes);
        }
    }
    Ok(())
}

use crate::engine::*;
use crate::ext4img::*;

pub static PROP: Prop = Prop {
    id: "C14",
    quick: 120_000,
    thorough: 4_000_000,
    rule: "a file of at least two extents, or with an unwritten range, or with a tree below the inode, was read to its end and every block compared with the builder's content; distinct by the full choice sequence",
    assumptions: &[
        "images come from the harness's own builder (no mke2fs here), written from the kernel's ext4 documentation",
        "files have no holes and no written blocks past their end, which the tool reports as errors (C21)",
        "encrypted, compressed, verity and inline files are outside the generator",
    ],
    run,
    pinned: &[("extent-of-32768-blocks", longest), ("block-numbers-beyond-32-bits", beyond32), ("file-beyond-4-gib", beyond_4_gib), ("top-of-48-bits", top_of_48_bits)],
};

/// Number of blocks of a test file, within a byte budget.
pub fn file_blocks(g: &mut G, bs: u64, budget: u64) -> u64 {
    let max = (budget / bs).max(2);
    match g.draw(7) {
        0 => g.draw(3),
        1..=4 => 1 + g.draw(max.min(24)),
        5 | 6 => 1 + g.draw(max.min(200)),
        _ => 1 + g.draw(max),
    }
}

pub fn check_whole(g: &mut G, img: &Done, spec: &FileSpec) -> R {
    let mut fs = img.must_open()?;
    ensure_eq!(fs.block_size() as u64, img.cfg.bs(), "block size");
    let mut f = open_regular(&mut fs, spec)?;
    ensure_eq!(f.file_size_bytes(), spec.size, "file size");
    let bs = img.cfg.bs() as usize;
    let extra = if g.chance(1, 3) { g.us(0, 2 * bs) } else { 0 };
    let mut buf = vec![0x5au8; bs + extra];
    let n = spec.blocks(img.cfg.bs());
    let refuse = if g.chance(1, 4) { g.draw(n) } else { u64::MAX };
    for i in 0..n + 2 {
        if i == refuse {
            let k = g.us(0, bs - 1);
            ensure!(f.read_next_block(&mut vec![0; k]).is_err(), "a buffer of {k} bytes was accepted");
        }
        check_block(&mut f, img, spec, i, &mut buf)?;
        ensure!(buf[bs..].iter().all(|b| *b == 0x5a), "file block {i}: wrote past the first block of the buffer");
    }
    Ok(())
}

/// A file of so many bytes in extents of up to the greatest length, on a filesystem that is large enough.
fn huge_file(g: &mut G, log_bs: u32, size: u64, unwritten_to: u64) -> Option<(Done, FileSpec)> {
    let bs = 1024u64 << log_bs;
    let blocks = size.div_ceil(bs);
    let k = Knobs { log_bs: Some(log_bs), big: false, min_blocks: blocks + blocks / 2 + 400_000, ..Default::default() };
    let mut img = Img::gen(g, &k);
    let mut exts = vec![];
    let mut at = 0;
    while at < blocks {
        let unwritten = at < unwritten_to || g.chance(1, 4);
        let left = if at < unwritten_to { unwritten_to - at } else { blocks - at };
        let len = left.min(if unwritten { 32767 } else { 32768 });
        let phys = img.alloc(g, len)?;
        exts.push(Ext { file: at, len, phys, unwritten });
        at += len;
    }
    let ino = img.ino(g);
    let spec = img.put_file(g, ino, 0x81a4, size, exts, 0)?;
    Some((img.finish(), spec))
}

/// The first blocks of a file so large that its size in bytes, or what is left of it, does not fit in 32 bits.
fn huge(g: &mut G) -> R {
    let log_bs = g.range(4, 6) as u32;
    let bs = 1024u64 << log_bs;
    let at = g.pick(&[1u64 << 32, 1 << 32, 1 << 33, 1 << 31, 3 << 32, 1 << 36]);
    let size = match g.draw(3) {
        0 => at + g.draw(4) * bs,
        1 => at + g.draw(4) * bs + 1 + g.draw(bs - 1),
        2 => at + g.draw(9) - 4,
        _ => at + g.draw(at),
    };
    let Some((img, spec)) = huge_file(g, log_bs, size, 0) else { return Ok(()) };
    g.describe(|| format!("{} {}", img.cfg.describe(), spec.describe()));
    g.class("file of 2 GiB or more, its first blocks");
    g.nontrivial();
    let mut fs = img.must_open()?;
    let mut f = open_regular(&mut fs, &spec)?;
    ensure_eq!(f.file_size_bytes(), spec.size, "file size");
    let mut buf = vec![0; bs as usize];
    for i in 0..6 {
        check_block(&mut f, &img, &spec, i, &mut buf)?;
    }
    Ok(())
}

/// A file of over 4 GiB read to its end.
fn beyond_4_gib() -> R {
    let mut g = G::random(0x46b, 1, false);
    let bs = 65536;
    let size = (1u64 << 32) + 5 * bs + 100;
    let (img, spec) = huge_file(&mut g, 6, size, 65536 - 3).expect("harness: space");
    let mut fs = img.must_open()?;
    let mut f = open_regular(&mut fs, &spec)?;
    let mut buf = vec![1; bs as usize];
    let zero = vec![0; bs as usize];
    for i in 0..65536 - 3 {
        let r = f.read_next_block(&mut buf);
        ensure!(matches!(r, Ok(65536)) && buf == zero, "unwritten block {i} of a file of {size} bytes: {r:?}");
        buf[i % 65536] = 1;
    }
    for i in 65536 - 3..spec.blocks(bs) + 2 {
        check_block(&mut f, &img, &spec, i, &mut buf)?;
    }
    Ok(())
}

fn run(g: &mut G) -> R {
    if g.chance(1, 50) {
        return huge(g);
    }
    let large = g.chance(1, if g.thorough { 60 } else { 400 });
    let k = Knobs { log_bs: if large { Some(0) } else { None }, ..Default::default() };
    let mut img = Img::gen(g, &k);
    let bs = img.cfg.bs();
    let blocks = if large { 20_000 + g.draw(80_000) } else { file_blocks(g, bs, 2 << 20) };
    let Some(spec) = img.gen_file(g, blocks) else { return Ok(()) };
    if g.chance(1, 3) {
        // neighbours
        let b = g.draw(20);
        let _ = img.gen_file(g, b);
    }
    let img = img.finish();
    g.describe(|| format!("{} {}", img.cfg.describe(), spec.describe()));
    if spec.exts.len() > 1 || spec.depth > 0 || spec.exts.iter().any(|e| e.unwritten) {
        g.nontrivial();
    }
    if large {
        g.class("tens of thousands of blocks");
    }
    if spec.depth > 0 {
        g.class("tree below the inode");
    }
    if spec.depth > 2 {
        g.class("tree of three levels or more");
    }
    if spec.exts.iter().any(|e| e.unwritten) {
        g.class("unwritten range");
    }
    if spec.exts.iter().any(|e| e.file >= spec.blocks(bs)) {
        g.class("preallocated beyond the end");
    }
    if spec.exts.iter().any(|e| e.phys > u32::MAX as u64) {
        g.class("block number beyond 32 bits");
    }
    if spec.size == 0 {
        g.class("empty file");
    }
    if img.cfg.csum() {
        g.class("metadata checksums");
    }
    if g.chance(1, 4) {
        img.ctl.short.set(g.us(1, 3000));
    }
    check_whole(g, &img, &spec)
}

/// Extents of the greatest lengths, written (32768) and unwritten (32767), one after the other.
fn longest() -> R {
    for i in 0..4 {
        let mut g = G::random(0x10e6, i, false);
        let k = Knobs { log_bs: Some(0), min_blocks: 600_000, csum: Some(i & 1 == 0), ..Default::default() };
        let mut img = Img::gen(&mut g, &k);
        let mut exts = vec![];
        let mut at = 0;
        for (len, unwritten) in [(32768, false), (32767, true), (32767, false), (1, true), (3, false)] {
            let phys = img.alloc(&mut g, len).expect("harness: space");
            exts.push(Ext { file: at, len, phys, unwritten });
            at += len;
        }
        let ino = img.ino(&mut g);
        let spec = img.put_file(&mut g, ino, 0x81a4, at * 1024 - 7, exts, (i / 2) as u16).expect("harness: space");
        check_whole(&mut g, &img.finish(), &spec)?;
    }
    Ok(())
}

/// Data and extent tree blocks at the highest block numbers there are (48 bits).
fn top_of_48_bits() -> R {
    for i in 0..3 {
        let mut g = G::random(0x48b, i, false);
        let mut cfg = gen_cfg(&mut g, &Knobs { log_bs: Some(2), big: false, ..Default::default() });
        cfg.incompat |= I_64BIT;
        cfg.incompat &= !I_META_BG;
        cfg.rocompat |= R_BIGALLOC;
        cfg.log_cluster = 18;
        cfg.stored_desc_size = 64;
        cfg.desc_size = 64;
        cfg.cpg = 1 << 15;
        cfg.bpg = 1 << 31;
        cfg.groups = 1 << 17;
        cfg.blocks = 1 << 48;
        cfg.ipg = 64;
        cfg.inodes = 64 << 17;
        let mut img = Img::new(&mut g, cfg);
        let mut exts = vec![];
        for (k, phys) in [(1u64 << 48) - 1, 1 << 47, (1 << 47) - 1, 1 << 40, (0xffff << 32) | 5, 0x8000_0000].into_iter().enumerate() {
            img.used.insert(phys, 1);
            exts.push(Ext { file: k as u64, len: 1, phys, unwritten: false });
        }
        // the tree's blocks at the top as well
        img.used.insert(1 << 20, (1 << 48) - (1 << 20) - 30);
        for e in &exts[1..] {
            img.used.remove(&e.phys);
        }
        let ino = 1 + g.draw(15) as u32 + 64 * ((1 << 17) - 1);
        let spec = img.put_file(&mut g, ino, 0x8000, 5 * 4096 + 100, exts, i as u16).expect("harness: space");
        check_whole(&mut g, &img.finish(), &spec)?;
    }
    Ok(())
}

fn beyond32() -> R {
    for i in 0..6 {
        let mut g = G::random(0x3200, i, false);
        let mut cfg = gen_cfg(&mut g, &Knobs { log_bs: Some(6), big: false, ..Default::default() });
        cfg.incompat |= I_64BIT;
        cfg.incompat &= !I_META_BG;
        cfg.rocompat &= !R_BIGALLOC;
        cfg.log_cluster = cfg.log_bs;
        cfg.stored_desc_size = 64;
        cfg.desc_size = 64;
        cfg.bpg = 8 * 65536;
        cfg.cpg = cfg.bpg;
        cfg.groups = (1 << 32) / cfg.bpg as u64 + 40;
        cfg.blocks = cfg.groups * cfg.bpg as u64;
        cfg.ipg = 64;
        cfg.inodes = (cfg.ipg as u64 * cfg.groups) as u32;
        let mut img = Img::new(&mut g, cfg);
        let mut exts = vec![];
        // across the boundary block by block, or in one extent
        let len = if i % 2 == 0 { 1 } else { 6 };
        for k in (0..6).step_by(len as usize) {
            let phys = (1u64 << 32) - 3 + k;
            img.used.insert(phys, len);
            exts.push(Ext { file: k, len, phys, unwritten: false });
        }
        let top = img.cfg.blocks - 1 - i;
        img.used.insert(top, 1);
        exts.push(Ext { file: 6, len: 1, phys: top, unwritten: false });
        let ino = img.ino(&mut g);
        let spec = img.put_file(&mut g, ino, 0x8000, 6 * 65536 + 100, exts, (i % 3) as u16).expect("harness: space");
        check_whole(&mut g, &img.finish(), &spec)?;
    }
    Ok(())
}

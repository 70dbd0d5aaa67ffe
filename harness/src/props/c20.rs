use crate::engine::*;
use crate::ext4img::*;

pub static PROP: Prop = Prop {
    id: "C20",
    quick: 400_000,
    thorough: 8_000_000,
    rule: "a well-formed superblock, directory block or extent block was first accepted, then between 1 and 32 contiguous bits of it were altered and it was read again; distinct by the full choice sequence",
    assumptions: &[
        "an alteration of the field that says how many entries an extent block has room for moves the checksum; that it then matches by accident has a chance of 2^-32",
        "bytes of a block that its checksum does not cover (none, or the last four of an extent block) are not altered",
        "inodes and group descriptors also carry checksums, which the tool does not verify; they are not part of the property",
    ],
    run,
    pinned: &[],
};

/// Alters contiguous bits of b, beginning and ending with a changed one.
fn burst(g: &mut G, b: &mut [u8]) -> String {
    let bits = b.len() as u64 * 8;
    let n = match g.draw(3) {
        0 => 1,
        1 => 32,
        _ => 1 + g.draw(31),
    }
    .min(bits);
    let at = match g.draw(7) {
        0 => g.draw((bits - n).min(12 * 8)),
        1 => bits - n - g.draw((bits - n).min(12 * 8)),
        _ => g.draw(bits - n),
    };
    let mut mask = g.draw(u32::MAX as u64) | 1 | 1 << (n - 1);
    if g.chance(1, 4) {
        mask = u64::MAX;
    }
    if n < 32 {
        mask &= (1 << n) - 1;
    } else {
        mask &= u32::MAX as u64;
    }
    for i in 0..n {
        if mask >> i & 1 == 1 {
            let p = at + i;
            b[(p / 8) as usize] ^= 1 << (p % 8);
        }
    }
    format!("bits {at}..{} xor {mask:#x}", at + n)
}

/// One aligned field of 1, 2 or 4 bytes overwritten with a likely value.
fn field(g: &mut G, b: &mut [u8]) -> Option<String> {
    let w = g.pick(&[4, 4, 2, 1]);
    let slots = b.len() / w;
    let i = match g.draw(3) {
        0 => slots - 1 - g.us(0, (slots - 1).min(3)),
        1 => g.us(0, (slots - 1).min(12)),
        _ => g.us(0, slots - 1),
    };
    let new: Vec<u8> = match g.draw(4) {
        0 | 1 => vec![0; w],
        2 => vec![0xff; w],
        3 => (g.draw(20) as u32).to_le_bytes()[..w].to_vec(),
        _ => {
            let j = g.us(0, slots - 1);
            b[j * w..][..w].to_vec()
        }
    };
    if b[i * w..][..w] == new[..] {
        return None;
    }
    b[i * w..][..w].copy_from_slice(&new);
    g.class("a field overwritten");
    Some(format!("bytes {}..{} set to {new:x?}", i * w, i * w + w))
}

fn alter(g: &mut G, img: &mut Img, pos: u64, len: usize) -> String {
    let mut b = img.store.get(pos, len);
    let s = if g.chance(1, 3) { field(g, &mut b) } else { None };
    let s = s.unwrap_or_else(|| burst(g, &mut b));
    img.store.write(pos, &b);
    s
}

fn run(g: &mut G) -> R {
    match g.strat(3) {
        0 => superblock(g),
        1 => directory(g),
        _ => extents(g),
    }
}

fn superblock(g: &mut G) -> R {
    let mut img = Img::gen(g, &Knobs { csum: Some(true), big: false, ..Default::default() });
    let whole = Done { cfg: img.cfg.clone(), store: img.store.clone().into(), nodes: vec![], ctl: Default::default() };
    whole.must_open()?;
    let s = alter(g, &mut img, 1024, 1024);
    g.nontrivial();
    g.class("superblock");
    let img = img.finish();
    g.describe(|| format!("superblock of {}: {s}", img.cfg.describe()));
    img.ctl.set_fuel(100_000);
    ensure!(img.open().is_err(), "a filesystem with an altered superblock was opened: {s}");
    Ok(())
}

fn directory(g: &mut G) -> R {
    let k = Knobs { csum: Some(true), big: false, ..Default::default() };
    let mut img = Img::gen(g, &k);
    let ino = if g.chance(1, 3) { 2 } else { img.ino(g) };
    let ops = if g.chance(1, 3) { g.us(0, 120) } else { g.us(0, 20) };
    let d = gen_dir(g, &img.cfg, ino, 2, ops);
    let Some(f) = img.put_dir(g, ino, &d) else { return Ok(()) };
    let bs = img.cfg.bs();
    let lists: Vec<Vec<Entry>> = d.blocks.iter().map(|b| b.live().map(Entry::from).collect()).collect();
    let all: Vec<Entry> = lists.concat();
    {
        let whole = Done { cfg: img.cfg.clone(), store: img.store.clone().into(), nodes: vec![], ctl: Default::default() };
        let mut fs = whole.must_open()?;
        check_listing(&mut open_dir(&mut fs, ino)?, &all)?;
    }
    let k = g.us(0, lists.len() - 1);
    let e = f.exts.iter().rev().find(|e| e.file <= k as u64).unwrap();
    let s = alter(g, &mut img, (e.phys + k as u64 - e.file) * bs, bs as usize);
    g.nontrivial();
    g.class("directory block");
    if k > 0 {
        g.class("later directory block");
    }
    let img = img.finish();
    g.describe(|| format!("block {k} of {} of a directory of {} entries: {s}", lists.len(), all.len()));
    let mut fs = img.must_open()?;
    let mut dir = open_dir(&mut fs, ino)?;
    let before: Vec<&Entry> = lists[..k].iter().flatten().collect();
    for (i, w) in before.iter().enumerate() {
        match next_entry(&mut dir) {
            Ok(Some(x)) => ensure!(x == **w, "entry {i}, in a block that was not altered, is wrong"),
            Ok(None) => return Err(Fail(format!("listing ends before the altered block: {s}"))),
            Err(x) => return Err(Fail(format!("listing fails before the altered block: {x}"))),
        }
    }
    let r = next_entry(&mut dir);
    ensure!(r.is_err(), "listing went on into the altered block {k} ({s}): {r:?}");
    // what may still come is from other blocks
    let rest: Vec<&Entry> = lists[k + 1..].iter().flatten().collect();
    for _ in 0..rest.len() + 2 {
        match next_entry(&mut dir) {
            Ok(Some(x)) => ensure!(rest.contains(&&x), "an entry that is in no intact block: {x:?}"),
            Ok(None) => break,
            Err(_) => {}
        }
    }
    Ok(())
}

/// Alters part of an extent block.
fn alter_node(g: &mut G, img: &mut Img, node: &Node) -> String {
    let at = node.block * img.cfg.bs();
    let covered = 12 + 12 * img.cfg.extents_per_block() + 4;
    match g.draw(3) {
        0 => {
            // within what is in use
            let used = 12 + 12 * get16(&img.store.get(at, 12), 2) as usize;
            alter(g, img, at, used.min(covered))
        }
        _ => alter(g, img, at, covered),
    }
}

/// An extent block of a directory.
fn directory_extents(g: &mut G, img: &mut Img) -> R {
    let ino = if g.chance(1, 3) { 2 } else { img.ino(g) };
    let ops = g.us(0, 120);
    let d = gen_dir(g, &img.cfg, ino, 2, ops);
    let Some(f) = img.put_dir(g, ino, &d) else { return Ok(()) };
    let nodes: Vec<Node> = img.nodes.iter().filter(|n| n.ino == ino).cloned().collect();
    if nodes.is_empty() {
        return Ok(());
    }
    let node = nodes[g.us(0, nodes.len() - 1)].clone();
    let s = alter_node(g, img, &node);
    g.nontrivial();
    g.class("extent block of a directory");
    let img = Done { cfg: img.cfg.clone(), store: img.store.clone().into(), nodes: vec![], ctl: Default::default() };
    g.describe(|| format!("{}: block of depth {} for {}..{}: {s}", f.describe(), node.depth, node.from, node.to));
    let mut fs = img.must_open()?;
    let mut dir = open_dir(&mut fs, ino)?;
    let before: Vec<Entry> = d.blocks[..node.from as usize].iter().flat_map(|b| b.live().map(Entry::from)).collect();
    for (i, w) in before.iter().enumerate() {
        match next_entry(&mut dir) {
            Ok(Some(x)) => ensure!(x == *w, "entry {i}, mapped by nothing that was altered, is wrong"),
            Ok(None) => return Err(Fail(format!("listing ends before the altered extent block: {s}"))),
            Err(x) => return Err(Fail(format!("listing fails before the altered extent block: {x}"))),
        }
    }
    for _ in 0..3 {
        let r = next_entry(&mut dir);
        ensure!(r.is_err(), "listing went through the altered extent block for {}..{} ({s}): {r:?}", node.from, node.to);
    }
    Ok(())
}

fn extents(g: &mut G) -> R {
    let k = Knobs { csum: Some(true), big: false, ..Default::default() };
    let mut img = Img::gen(g, &k);
    if g.chance(1, 4) {
        return directory_extents(g, &mut img);
    }
    let bs = img.cfg.bs();
    let ino = img.ino(g);
    let n = match g.draw(5) {
        0 => 1,
        5 => 100 + g.draw(400),
        _ => 1 + g.draw(30),
    };
    let frag = 1 + g.draw(2);
    let uw = g.chance(1, 3);
    let exts = img.gen_extents(g, n, frag, uw);
    let Some(last) = exts.last() else { return Ok(()) };
    let size = (last.file + last.len) * bs - g.draw(bs - 1);
    let depth = 1 + g.draw(2) as u16;
    let mode = 0x8000 | g.draw(0xfff) as u16;
    let Some(f) = img.put_file(g, ino, mode, size, exts, depth) else { return Ok(()) };
    let nodes: Vec<Node> = img.nodes.iter().filter(|n| n.ino == ino).cloned().collect();
    {
        let whole = Done { cfg: img.cfg.clone(), store: img.store.clone().into(), nodes: vec![], ctl: Default::default() };
        super_read(&whole, &f, f.blocks(bs))?;
    }
    let node = nodes[g.us(0, nodes.len() - 1)].clone();
    let s = alter_node(g, &mut img, &node);
    g.nontrivial();
    g.class(if node.depth == 0 { "extent leaf block" } else { "extent index block" });
    let img = img.finish();
    g.describe(|| format!("{}: block of depth {} for {}..{}: {s}", f.describe(), node.depth, node.from, node.to));
    let mut fs = img.must_open()?;
    let mut x = open_regular(&mut fs, &f)?;
    let mut buf = vec![0; bs as usize];
    for i in 0..node.from {
        check_block(&mut x, &img, &f, i, &mut buf)?;
    }
    for _ in 0..3 {
        let r = x.read_next_block(&mut buf);
        ensure!(r.is_err(), "reading went through the altered extent block for {}..{} ({s}): {r:?}", node.from, node.to);
    }
    Ok(())
}

fn super_read(img: &Done, f: &FileSpec, n: u64) -> R {
    let mut fs = img.must_open()?;
    let mut x = open_regular(&mut fs, f)?;
    let mut buf = vec![0; img.cfg.bs() as usize];
    for i in 0..=n {
        check_block(&mut x, img, f, i, &mut buf)?;
    }
    Ok(())
}

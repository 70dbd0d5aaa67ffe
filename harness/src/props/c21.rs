use crate::engine::*;
use crate::ext4img::*;

pub static PROP: Prop = Prop {
    id: "C21",
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "a file or directory whose mapping (or directory records) was malformed in one known place, or which uses something unsupported, was read until two calls after the first error or end; distinct by the full choice sequence",
    assumptions: &[
        "every malformation is one the format rules out and that shows without the inode's checksum, which the tool does not verify (an index root relabelled as a leaf does not)",
        "where two extents claim a block, the content of either is accepted up to the point at which they overlap no more",
        "metadata checksums are refreshed after each malformation, so that the checks behind them are reached",
    ],
    run,
    pinned: &[],
};

/// What reading may give.
struct Want {
    /// The mapping as far as it is right.
    good: FileSpec,
    /// The mapping as it is stored.
    stored: Vec<Ext>,
    /// File blocks that may be returned.
    prefix: u64,
    /// Whether an error has to come before the end of file.
    must_err: bool,
}

/// One entry of an index node.
#[derive(Clone, Debug)]
struct Idx {
    /// Byte position on the device, or in the inode's block area when `root`.
    pos: u64,
    root: bool,
    key: u32,
    block: u64,
    node: Option<u64>,
}

fn indices(img: &Img, f: &FileSpec) -> Vec<Idx> {
    let bs = img.cfg.bs();
    let mut v = vec![];
    let mut todo = vec![];
    let mut add = |b: &[u8], base: u64, root: bool, node: Option<u64>, todo: &mut Vec<u64>| {
        if get16(b, 6) == 0 {
            return;
        }
        for i in 0..get16(b, 2) as usize {
            let o = 12 + 12 * i;
            let block = get32(b, o + 4) as u64 | (get16(b, o + 8) as u64) << 32;
            v.push(Idx { pos: base + o as u64, root, key: get32(b, o), block, node });
            todo.push(block);
        }
    };
    add(&f.iblock, 0, true, None, &mut todo);
    while let Some(b) = todo.pop() {
        let bytes = img.store.get(b * bs, bs as usize);
        add(&bytes, b * bs, false, Some(b), &mut todo);
    }
    v
}

/// Changes bytes of a node and refreshes its checksum; block None: the inode.
fn edit(g: &mut G, img: &mut Img, f: &mut FileSpec, block: Option<u64>, e: impl FnOnce(&mut [u8])) {
    match block {
        None => {
            e(&mut f.iblock);
            img.write_inode(g, f);
        }
        Some(b) => {
            let bs = img.cfg.bs();
            let mut c = img.store.get(b * bs, bs as usize);
            e(&mut c);
            img.seal_extent_block(&mut c, f.ino, f.generation);
            img.store.write(b * bs, &c);
        }
    }
}

/// Block numbers at which no node or data of the filesystem lies, within the device.
fn elsewhere(g: &mut G, img: &mut Img) -> u64 {
    img.alloc(g, 1).unwrap_or(img.cfg.blocks - 1)
}

struct Made {
    want: Want,
    what: &'static str,
}

/// Puts a file or directory with n blocks whose mapping is malformed.
fn malform(g: &mut G, img: &mut Img, ino: u32, mode: u16, n: u64, size: u64, dir: Option<&DirB>) -> Option<Made> {
    let bs = img.cfg.bs();
    let kind = g.strat(32);
    let frag = if (3..7).contains(&kind) { 1 + g.draw(1) } else { g.draw(3) };
    let uw = dir.is_none() && g.chance(1, 3);
    let exts = img.gen_extents(g, n, frag, uw);
    if exts.last().map(|e| e.file + e.len).unwrap_or(0) < n {
        return None;
    }
    let mut depth = if g.chance(1, 2) { 0 } else { g.draw(3) as u16 };
    if kind >= 17 && kind < 29 {
        depth = depth.max(1);
    }
    let dev_blocks = img.store.len / bs;
    let j = g.us(0, exts.len() - 1);
    let mut m = exts.clone();
    let mut good = exts.clone();
    let mut sz = size;
    let mut prefix = n;
    let mut must = true;
    let last = exts.len() - 1;
    let what = match kind {
        0 | 1 => {
            m.remove(j);
            prefix = exts[j].file;
            if j == last { "mapping ends early" } else { "extent missing" }
        }
        2 => {
            let d = 1 + g.sized(1 << 20);
            for e in &mut m[j..] {
                e.file += d;
            }
            prefix = exts[j].file;
            "hole"
        }
        3 => {
            if j == 0 {
                return None;
            }
            m[j].file -= 1 + g.draw(exts[j].file - 1);
            prefix = exts[j].file;
            "extent overlaps the one before"
        }
        4 => {
            if j == last {
                return None;
            }
            m.swap(j, j + 1);
            prefix = exts[j].file;
            "extents swapped"
        }
        5 => {
            m.insert(j + 1, exts[j]);
            prefix = exts[j].file + exts[j].len;
            "extent repeated"
        }
        6 => {
            // only the file block numbers of two extents exchanged
            if j == last {
                return None;
            }
            let t = m[j].file;
            m[j].file = m[j + 1].file;
            m[j + 1].file = t;
            prefix = exts[j].file;
            "extents out of order"
        }
        7 => {
            let cap = if exts[j].unwritten { 32767 } else { 32768 };
            let room = dev_blocks.saturating_sub(exts[j].phys + exts[j].len).min(cap - exts[j].len);
            // what a directory block beyond the extent holds is not known
            if room == 0 || dir.is_some() && j != last {
                return None;
            }
            let d = 1 + g.draw(room.min(30) - 1);
            m[j].len += d;
            good[j].len += d;
            let end = good[j].file + good[j].len;
            good.retain(|e| e.file <= exts[j].file || e.file >= end);
            let jj = good.iter().position(|e| e.file == exts[j].file).unwrap();
            prefix = (good[jj].file + good[jj].len).min(n);
            // preallocated blocks may lie beyond the end
            must = j != last || !exts[j].unwritten;
            if j == last { "mapping longer than the file" } else { "extent overlaps the next" }
        }
        8 => {
            let d = 1 + g.draw(exts[j].len - 1);
            if d == exts[j].len {
                return None;
            }
            m[j].len -= d;
            prefix = m[j].file + m[j].len;
            if j == last { "mapping ends early" } else { "extent too short" }
        }
        9 | 10 => {
            // blocks outside the device
            if exts[j].unwritten {
                return None;
            }
            let inside = if dir.is_some() { 0 } else { g.draw(exts[j].len - 1) };
            let phys = if g.chance(1, 2) {
                dev_blocks - inside
            } else {
                match g.draw(2) {
                    0 => (1u64 << 48) - exts[j].len,
                    1 => dev_blocks + g.draw(100),
                    _ => (1u64 << (10 + g.draw(37))).max(dev_blocks),
                }
            };
            if phys >= 1 << 48 {
                return None;
            }
            m[j].phys = phys;
            good[j].phys = phys;
            prefix = exts[j].file + if phys < dev_blocks { inside } else { 0 };
            "block outside the device"
        }
        11 => {
            let z = Ext { len: 0, unwritten: false, ..exts[j] };
            m.insert(j, z);
            must = false;
            "extent of no blocks"
        }
        12 => {
            sz = match g.draw(3) {
                0 => n * bs + 1,
                1 => n * bs + 1 + g.draw(5 * bs),
                2 => u64::MAX - g.draw(3),
                _ => (n * bs + 1).max(g.u64b()),
            };
            "file larger than its mapping"
        }
        13 => {
            sz = g.draw((n - 1) * bs);
            prefix = sz.div_ceil(bs);
            must = exts.iter().any(|e| !e.unwritten && e.file + e.len > prefix);
            "file smaller than its mapping"
        }
        14 => {
            // several at once
            let mut ord: Vec<usize> = (0..m.len()).collect();
            g.shuffle(&mut ord);
            let q = ord.iter().enumerate().find(|(i, o)| *i != **o)?.0;
            m = ord.iter().map(|i| exts[*i]).collect();
            prefix = exts[q].file;
            "extents shuffled"
        }
        _ => "",
    };
    if dir.is_some() && kind == 12 {
        // a directory's size is a multiple of the block size
        sz = (sz.min(u64::MAX - bs)).next_multiple_of(bs);
    }
    if dir.is_some() && kind == 13 {
        sz -= sz % bs;
        prefix = sz / bs;
        must = true;
    }
    let mut f = img.put_file(g, ino, mode, sz, m, depth)?;
    if let Some(d) = dir {
        for (i, b) in d.blocks.iter().enumerate() {
            let e = exts.iter().rev().find(|e| e.file <= i as u64).unwrap();
            let mut bytes = b.bytes();
            img.seal_dir_block(&mut bytes, ino, f.generation);
            img.store.write((e.phys + i as u64 - e.file) * bs, &bytes);
        }
    }
    let f_exts = f.exts.clone();
    let mut spec = f.clone();
    spec.exts = good;
    let done = |prefix: u64, must_err: bool, what: &'static str| {
        Some(Made { want: Want { good: spec.clone(), stored: f_exts.clone(), prefix, must_err }, what })
    };
    if kind < 15 {
        return done(prefix, must, what);
    }
    let nodes: Vec<Node> = img.nodes.iter().filter(|x| x.ino == ino).cloned().collect();
    let idx = indices(img, &f);
    let node = (!nodes.is_empty()).then(|| nodes[g.us(0, nodes.len() - 1)].clone());
    let ix = (!idx.is_empty()).then(|| idx[g.us(0, idx.len() - 1)].clone());
    let set_index = |g: &mut G, img: &mut Img, f: &mut FileSpec, ix: &Idx, key: u32, block: u64| {
        let base = ix.node.map(|b| b * bs).unwrap_or(0);
        let o = (ix.pos - base) as usize;
        edit(g, img, f, ix.node, |b| {
            put32(b, o, key);
            put32(b, o + 4, block as u32);
            put16(b, o + 8, (block >> 32) as u16);
        });
        let _ = ix.root;
    };
    match kind {
        15 => {
            let v = if g.chance(1, 2) { 0xf30a ^ 1 << g.draw(15) } else { g.pick(&[0u16, 0x0af3, 0xffff]) };
            edit(g, img, &mut f, None, |b| put16(b, 0, v));
            done(0, true, "root magic")
        }
        16 => {
            let v = match g.draw(2) {
                0 => 5 + g.draw(3) as u16,
                1 => 0xffff - g.draw(3) as u16,
                _ => 5 + g.draw(500) as u16,
            };
            let both = g.chance(1, 2);
            edit(g, img, &mut f, None, |b| {
                put16(b, 2, v);
                if both {
                    put16(b, 4, v)
                }
            });
            done(0, true, "root entry count")
        }
        17 => {
            let d = get16(&f.iblock, 6);
            let v = if g.chance(1, 2) { d + 1 + g.draw(3) as u16 } else { 1 + g.draw(0xfffe) as u16 };
            if v == d {
                return None;
            }
            edit(g, img, &mut f, None, |b| put16(b, 6, v));
            done(0, true, "root depth")
        }
        18 => {
            let n = node?;
            let v = if g.chance(1, 2) { 0xf30a ^ 1 << g.draw(15) } else { g.pick(&[0u16, 0x0af3, 0xffff]) };
            edit(g, img, &mut f, Some(n.block), |b| put16(b, 0, v));
            done(n.from, true, "node magic")
        }
        19 => {
            let n = node?;
            let max = img.cfg.extents_per_block() as u16;
            let v = if g.chance(1, 2) { max + 1 + g.draw(2) as u16 } else { 0xffff - g.draw(60) as u16 };
            let both = g.chance(1, 2) && !img.cfg.csum();
            edit(g, img, &mut f, Some(n.block), |b| {
                put16(b, 2, v);
                if both {
                    put16(b, 4, v)
                }
            });
            done(n.from, true, "node entry count")
        }
        20 => {
            let n = node?;
            let v = if g.chance(2, 3) { n.depth + 1 + g.draw(2) as u16 } else { g.draw(0xffff) as u16 };
            let v = if g.chance(1, 4) { 0 } else { v };
            if v == n.depth {
                return None;
            }
            edit(g, img, &mut f, Some(n.block), |b| put16(b, 6, v));
            done(n.from, true, "node depth")
        }
        21 => {
            let ix = ix?;
            let v = dev_blocks + if g.chance(1, 2) { g.draw(10) } else { g.draw(1 << 40) };
            let v = v.min((1 << 48) - 1);
            set_index(g, img, &mut f, &ix, ix.key, v);
            done(ix.key as u64, true, "index outside the device")
        }
        22 => {
            let ix = ix?;
            let v = if g.chance(1, 3) { 0 } else { elsewhere(g, img) };
            set_index(g, img, &mut f, &ix, ix.key, v);
            done(ix.key as u64, true, "index to something else")
        }
        23 | 24 => {
            // another node of the file: an ancestor, itself, a sibling, ..
            let ix = ix?;
            let o = &nodes[g.us(0, nodes.len() - 1)];
            if o.block == ix.block {
                return None;
            }
            set_index(g, img, &mut f, &ix, ix.key, o.block);
            // a node that maps the same first block at another depth does not help: depths are checked too
            done(ix.key as u64, true, "index to another node of the file")
        }
        25 => {
            let ix = ix?;
            let v = match g.draw(2) {
                0 => ix.key.wrapping_add(1 + g.draw(2) as u32),
                1 => ix.key.wrapping_sub(1 + g.draw(2) as u32),
                _ => g.u32b(),
            };
            if v == ix.key {
                return None;
            }
            set_index(g, img, &mut f, &ix, v, ix.block);
            done(ix.key as u64, true, "index key")
        }
        26 => {
            // an index entry replaced by its predecessor or successor
            let ix = ix?;
            let sib: Vec<&Idx> = idx.iter().filter(|x| x.node == ix.node && x.pos != ix.pos).collect();
            if sib.is_empty() {
                return None;
            }
            let o = sib[g.us(0, sib.len() - 1)].clone();
            set_index(g, img, &mut f, &ix, o.key, o.block);
            done(ix.key.min(o.key).max(if o.key < ix.key { ix.key } else { 0 }) as u64, true, "index entry repeated")
        }
        27 => {
            let ix = ix?;
            let sib: Vec<&Idx> = idx.iter().filter(|x| x.node == ix.node && x.pos != ix.pos).collect();
            if sib.is_empty() {
                return None;
            }
            let o = sib[g.us(0, sib.len() - 1)].clone();
            set_index(g, img, &mut f, &ix, o.key, o.block);
            set_index(g, img, &mut f, &o, ix.key, ix.block);
            done(ix.key.min(o.key) as u64, true, "index entries swapped")
        }
        28 => {
            // a node loses its last entry
            let n = node?;
            let e = get16(&img.store.get(n.block * bs, 12), 2);
            edit(g, img, &mut f, Some(n.block), |b| put16(b, 2, e - 1));
            let at = n.block * bs + 12 + 12 * (e as u64 - 1);
            let key = get32(&img.store.get(at, 4), 0);
            done(key as u64, true, "node short of an entry")
        }
        29 => {
            f.flags &= !F_EXTENTS;
            img.write_inode(g, &f);
            done(0, true, "block map instead of extents")
        }
        30 => {
            f.flags |= F_INLINE;
            img.write_inode(g, &f);
            done(0, true, "inline data")
        }
        _ => {
            if dir.is_some() {
                f.flags |= F_INDEX;
                img.write_inode(g, &f);
                done(0, true, "hash-indexed directory")
            } else {
                // the root loses its last entry
                let e = get16(&f.iblock, 2);
                let key = get32(&f.iblock, 12 * e as usize);
                edit(g, img, &mut f, None, |b| put16(b, 2, e - 1));
                done(key as u64, true, "root short of an entry")
            }
        }
    }
}

fn run(g: &mut G) -> R {
    match g.draw(6) {
        0..=2 => file(g),
        3 | 4 => directory(g),
        5 => records(g),
        _ => partial(g),
    }
}

fn file(g: &mut G) -> R {
    let mut img = Img::gen(g, &Knobs { big: false, ..Default::default() });
    let bs = img.cfg.bs();
    let n = if g.chance(1, 3) { 1 + g.draw(60) } else { 1 + g.draw(8) };
    let size = if g.chance(1, 2) { n * bs } else { (n - 1) * bs + 1 + g.draw(bs - 1) };
    let ino = img.ino(g);
    let Some(m) = malform(g, &mut img, ino, 0x81a4, n, size, None) else { return Ok(()) };
    let img = img.finish();
    let w = &m.want;
    g.nontrivial();
    g.class(m.what);
    g.describe(|| format!("{}: file {} (bs {bs}), {} blocks may come", m.what, w.good.describe(), w.prefix));
    img.ctl.set_fuel(100_000);
    let mut fs = img.must_open()?;
    let mut x = match open_ino(&mut fs, ino) {
        Ok(Opened::File(x)) => x,
        Ok(_) => return Err(Fail("not a regular file".into())),
        Err(_) => {
            ensure!(w.must_err, "{}: not even opened", m.what);
            return Ok(());
        }
    };
    let mut buf = vec![0; bs as usize];
    let mut got = 0;
    let mut errs = 0;
    let mut ends = 0;
    loop {
        match x.read_next_block(&mut buf) {
            Ok(0) => {
                ensure!(got * bs >= w.good.size, "{}: end of file after {got} blocks (size {})", m.what, w.good.size);
                ends += 1;
            }
            Ok(k) => {
                if errs > 0 {
                    // a block may still come if some extent maps it so
                    let one = |e: &Ext| {
                        let f = FileSpec { exts: vec![*e], ..w.good.clone() };
                        e.file <= got
                            && got < e.file + e.len
                            && (e.unwritten || e.phys + (got - e.file) < img.store.len / bs)
                            && got < f.blocks(bs)
                            && buf[..k] == img.expect(&f, got)[..]
                    };
                    ensure!(
                        w.good.exts.iter().chain(&w.stored).any(one),
                        "{}: wrong bytes for block {got} after an error",
                        m.what
                    );
                    got += 1;
                    continue;
                }
                ensure!(got < w.prefix, "{}: block {got} returned, though only {} are mapped", m.what, w.prefix);
                let want = img.expect(&w.good, got);
                ensure_eq!(k, want.len(), "{}: length of block {got}", m.what);
                ensure!(buf[..k] == want[..], "{}: wrong bytes for block {got}", m.what);
                got += 1;
            }
            Err(_) => errs += 1,
        }
        if errs + ends > 3 {
            break;
        }
    }
    ensure!(errs > 0 || !w.must_err, "{}: read to the end without an error", m.what);
    ensure!(errs > 0 || got * bs >= w.good.size, "{}: ends early", m.what);
    Ok(())
}

fn directory(g: &mut G) -> R {
    let mut img = Img::gen(g, &Knobs { big: false, ..Default::default() });
    let bs = img.cfg.bs();
    let ino = if g.chance(1, 3) { 2 } else { img.ino(g) };
    let ops = if g.chance(1, 3) { g.us(0, 150) } else { g.us(0, 25) };
    let d = gen_dir(g, &img.cfg, ino, 2, ops);
    let n = d.blocks.len() as u64;
    let Some(m) = malform(g, &mut img, ino, 0x41ed, n, n * bs, Some(&d)) else { return Ok(()) };
    let img = img.finish();
    let w = &m.want;
    g.nontrivial();
    g.class("directory");
    g.class(m.what);
    g.describe(|| format!("{}: directory {} (bs {bs}), {} blocks may come", m.what, w.good.describe(), w.prefix));
    // blocks up to the end of the good mapping that are not the directory's own fail by themselves
    let lists: Vec<Vec<Entry>> = d.blocks.iter().map(|b| b.live().map(Entry::from).collect()).collect();
    let own = |i: u64| {
        let k = w.good.exts.partition_point(|e| e.file <= i);
        (i as usize) < lists.len() && k > 0
    };
    let may: Vec<&Entry> = (0..w.prefix).filter(|i| own(*i)).flat_map(|i| &lists[i as usize]).collect();
    let all: Vec<Entry> = lists.concat();
    img.ctl.set_fuel(100_000);
    let mut fs = img.must_open()?;
    let mut x = match open_ino(&mut fs, ino) {
        Ok(Opened::Dir(x)) => x,
        Ok(_) => return Err(Fail("not a directory".into())),
        Err(_) => {
            ensure!(w.must_err, "{}: not even opened", m.what);
            return Ok(());
        }
    };
    let mut got = 0;
    let mut errs = 0;
    let mut ends = 0;
    loop {
        match next_entry(&mut x) {
            Ok(None) => {
                ensure!(errs > 0 || !w.must_err, "{}: the listing ends after {got} entries without an error", m.what);
                ensure!(errs > 0 || got == may.len(), "{}: the listing ends after {got} of {} entries", m.what, may.len());
                ends += 1;
            }
            Ok(Some(e)) => {
                if errs > 0 {
                    ensure!(all.contains(&e), "{}: an entry the directory does not hold: {e:?}", m.what);
                    continue;
                }
                ensure!(got < may.len(), "{}: entry {got} returned, though only {} are mapped", m.what, may.len());
                ensure!(e == *may[got], "{}: wrong entry {got}: {e:?} instead of {:?}", m.what, may[got]);
                got += 1;
            }
            Err(_) => errs += 1,
        }
        if errs + ends > 3 {
            break;
        }
    }
    Ok(())
}

/// A directory whose size ends within its last block, so that no records fill that part exactly.
fn partial(g: &mut G) -> R {
    let mut img = Img::gen(g, &Knobs { big: false, ..Default::default() });
    let bs = img.cfg.bs();
    let ino = if g.chance(1, 3) { 2 } else { img.ino(g) };
    let ops = if g.chance(1, 3) { g.us(0, 150) } else { g.us(0, 25) };
    let d = gen_dir(g, &img.cfg, ino, 2, ops);
    let short = match g.draw(2) {
        0 => g.range(1, 12.min(bs - 1)),
        1 => bs - g.range(1, 12.min(bs - 1)),
        _ => g.range(1, bs - 1),
    };
    let n = d.blocks.len();
    let Some(_) = img.put_dir_sized(g, ino, &d, n as u64 * bs - short) else { return Ok(()) };
    let img = img.finish();
    let all: Vec<Entry> = d.blocks.iter().flat_map(|b| b.live().map(Entry::from).collect::<Vec<_>>()).collect();
    g.nontrivial();
    g.class("directory that ends within a block");
    g.describe(|| format!("directory of {n} blocks of {bs}, {short} bytes short of them"));
    let mut fs = img.must_open()?;
    let Ok(mut x) = open_dir(&mut fs, ino) else { return Ok(()) };
    for i in 0..all.len() + 3 {
        match next_entry(&mut x) {
            Ok(Some(e)) => ensure!(all.get(i) == Some(&e), "wrong entry {i}: {e:?}"),
            Ok(None) => return Err(Fail(format!("the listing ends after {i} entries without an error"))),
            Err(_) => return Ok(()),
        }
    }
    Err(Fail("no error".into()))
}

/// Directory records that do not fill their block exactly.
fn records(g: &mut G) -> R {
    let mut img = Img::gen(g, &Knobs { big: false, ..Default::default() });
    let bs = img.cfg.bs();
    let ino = if g.chance(1, 3) { 2 } else { img.ino(g) };
    let ops = if g.chance(1, 3) { g.us(0, 150) } else { g.us(0, 25) };
    let d = gen_dir(g, &img.cfg, ino, 2, ops);
    let Some(f) = img.put_dir(g, ino, &d) else { return Ok(()) };
    let bi = g.us(0, d.blocks.len() - 1);
    let b = &d.blocks[bi];
    let ri = g.us(0, b.recs.len() - 1);
    let r = b.recs[ri].clone();
    let rest = d.cap - r.off;
    let mut bytes = b.bytes();
    // the last record of a 64 KiB block may be written as 0 or 65535 only if it fills the block
    let v = match g.draw(4) {
        0 => g.draw(7),
        1 => rest as u64 + 1 + g.draw(20),
        2 => 65535 - g.draw(70),
        3 => r.name.len().max(if r.ino == 0 { bytes[r.off + 6] as usize } else { 0 }) as u64 + g.draw(7),
        _ => {
            if rest < 8 {
                return Ok(());
            }
            // leaves a remainder no record fits in
            rest as u64 - 1 - g.draw(6)
        }
    };
    let nl = bytes[r.off + 6] as u64;
    let whole = rest == 65536 && (v == 0 || v == 65535);
    if v > 65535 || whole || v as usize == r.len {
        return Ok(());
    }
    let fits = v >= 8 + nl && v as usize <= rest;
    if fits && (rest == v as usize || rest - v as usize >= 8) {
        return Ok(());
    }
    put16(&mut bytes, r.off + 4, v as u16);
    let e = f.exts.iter().rev().find(|e| e.file <= bi as u64).unwrap();
    img.seal_dir_block(&mut bytes, ino, f.generation);
    img.store.write((e.phys + bi as u64 - e.file) * bs, &bytes);
    let img = img.finish();
    let mut may: Vec<Entry> = d.blocks[..bi].iter().flat_map(|b| b.live().map(Entry::from).collect::<Vec<_>>()).collect();
    may.extend(b.recs[..ri].iter().filter(|r| r.ino != 0).map(Entry::from));
    if fits && r.ino != 0 {
        may.push(Entry::from(&r));
    }
    g.nontrivial();
    g.class(if fits { "records end short of the block" } else { "record length" });
    g.describe(|| format!("record {ri} (at {}, name of {nl}) of block {bi}: length {v} instead of {}", r.off, r.len));
    let mut fs = img.must_open()?;
    let mut x = open_dir(&mut fs, ino)?;
    let mut got = 0;
    for _ in 0..may.len() + 3 {
        match next_entry(&mut x) {
            Ok(Some(e)) => {
                ensure!(got < may.len(), "went on past the malformed record {ri} of block {bi} (length {v}): {e:?}");
                ensure!(e == may[got], "wrong entry {got}: {e:?}");
                got += 1;
            }
            Ok(None) => return Err(Fail(format!("the listing ends without an error, though record {ri} of block {bi} has length {v} of {rest}"))),
            Err(_) => return Ok(()),
        }
    }
    Err(Fail("no error".into()))
}

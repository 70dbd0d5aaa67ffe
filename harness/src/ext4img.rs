//! Builder of ext4 images, written from the on-disk format documentation of the Linux kernel. It never uses the code
//! under test; the images it makes carry stale bytes wherever the format leaves bytes unused.
use crate::block_device::BlockDevice;
use crate::dev::{Ctl, Dev, Storage};
use crate::engine::*;
use crate::ext4::{Ext4Directory, Ext4File, Ext4Fs, Ext4RegularFile};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Seek};
use std::rc::Rc;

// ---- CRC-32C ---------------------------------------------------------------------------------------------------
pub fn crc32c_bitwise(mut crc: u32, data: &[u8]) -> u32 {
    for b in data {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { crc >> 1 ^ 0x82f63b78 } else { crc >> 1 };
        }
    }
    crc
}

const fn table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 == 1 { c >> 1 ^ 0x82f63b78 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static TABLE: [u32; 256] = table();

pub fn crc32c(mut crc: u32, data: &[u8]) -> u32 {
    for b in data {
        crc = crc >> 8 ^ TABLE[((crc ^ *b as u32) & 0xff) as usize];
    }
    crc
}

pub fn put16(b: &mut [u8], at: usize, v: u16) {
    b[at..at + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn put32(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn get16(b: &[u8], at: usize) -> u16 {
    u16::from_le_bytes(b[at..at + 2].try_into().unwrap())
}
pub fn get32(b: &[u8], at: usize) -> u32 {
    u32::from_le_bytes(b[at..at + 4].try_into().unwrap())
}

// ---- feature bits ----------------------------------------------------------------------------------------------
pub const I_FILETYPE: u32 = 0x2;
pub const I_META_BG: u32 = 0x10;
pub const I_EXTENTS: u32 = 0x40;
pub const I_64BIT: u32 = 0x80;
pub const I_CSUM_SEED: u32 = 0x2000;
pub const R_BIGALLOC: u32 = 0x200;
pub const R_CSUM: u32 = 0x400;
pub const F_EXTENTS: u32 = 0x80000;
pub const F_INDEX: u32 = 0x1000;
pub const F_INLINE: u32 = 0x1000_0000;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub log_bs: u32,
    pub incompat: u32,
    pub rocompat: u32,
    pub uuid: [u8; 16],
    pub stored_seed: u32,
    pub csum_type: u8,
    pub stored_desc_size: u16,
    pub desc_size: u64,
    pub ipg: u32,
    pub bpg: u32,
    pub cpg: u32,
    pub log_cluster: u32,
    pub groups: u64,
    pub blocks: u64,
    pub inodes: u32,
    pub inode_size: u16,
    pub first_data_block: u32,
    pub first_meta_bg: u32,
}

impl Cfg {
    pub fn bs(&self) -> u64 {
        1024 << self.log_bs
    }
    pub fn csum(&self) -> bool {
        self.rocompat & R_CSUM != 0
    }
    pub fn fs_seed(&self) -> Option<u32> {
        if !self.csum() {
            None
        } else if self.incompat & I_CSUM_SEED != 0 {
            Some(self.stored_seed)
        } else {
            Some(crc32c(!0, &self.uuid))
        }
    }
    pub fn inode_seed(&self, ino: u32, generation: u32) -> Option<u32> {
        self.fs_seed().map(|s| crc32c(crc32c(s, &ino.to_le_bytes()), &generation.to_le_bytes()))
    }
    /// Entries an extent block holds.
    pub fn extents_per_block(&self) -> usize {
        (self.bs() as usize - 12) / 12
    }
    /// Bytes of a directory block that hold records.
    pub fn dir_cap(&self) -> usize {
        self.bs() as usize - if self.csum() { 12 } else { 0 }
    }
    pub fn gdt_block(&self) -> u64 {
        1024 / self.bs() + 1
    }
    pub fn describe(&self) -> String {
        format!(
            "bs {} incompat {:#x} rocompat {:#x} groups {} blocks {} bpg {} ipg {} inode size {} desc {}({})",
            self.bs(),
            self.incompat,
            self.rocompat,
            self.groups,
            self.blocks,
            self.bpg,
            self.ipg,
            self.inode_size,
            self.desc_size,
            self.stored_desc_size
        )
    }
}

#[derive(Clone, Copy)]
pub struct Knobs {
    pub log_bs: Option<u32>,
    pub max_log_bs: u32,
    pub csum: Option<bool>,
    /// Allow filesystems with block numbers beyond 32 bits.
    pub big: bool,
    pub min_blocks: u64,
    pub max_groups: u64,
    /// Keep the whole image at or below this many bytes (best effort; 0: no limit).
    pub small: bool,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs { log_bs: None, max_log_bs: 6, csum: None, big: true, min_blocks: 400, max_groups: 12, small: false }
    }
}

pub fn gen_cfg(g: &mut G, k: &Knobs) -> Cfg {
    let log_bs = k.log_bs.unwrap_or_else(|| match g.draw(9) {
        0..=3 => 0,
        4 => 1,
        5 | 6 => 2,
        7 => g.draw(6) as u32,
        8 => 3,
        _ => 6,
    });
    let log_bs = log_bs.min(k.max_log_bs);
    let bs = 1024u64 << log_bs;
    let csum = k.csum.unwrap_or_else(|| g.chance(1, 2));
    let big = k.big && g.chance(1, 60) && log_bs >= 2;
    let is64 = big || g.chance(1, 2);
    // RECOVER, MMP, FLEX_BG, EA_INODE, LARGEDIR, INLINE_DATA, ENCRYPT do not change how plain files are stored
    let noise_i = [0x4u32, 0x100, 0x200, 0x400, 0x4000, 0x8000, 0x10000];
    let noise_r = [0x1u32, 0x2, 0x8, 0x10, 0x20, 0x40, 0x100, 0x1000, 0x2000, 0x8000, 0x10000];
    let mut incompat = I_EXTENTS;
    let mut rocompat = 0;
    for n in noise_i {
        if g.chance(1, 3) {
            incompat |= n;
        }
    }
    for n in noise_r {
        if g.chance(1, 2) {
            rocompat |= n;
        }
    }
    if !g.chance(1, 6) {
        incompat |= I_FILETYPE;
    }
    if is64 {
        incompat |= I_64BIT;
    }
    if csum {
        rocompat |= R_CSUM;
        rocompat &= !0x10; // metadata_csum and uninit_bg exclude each other
        if g.chance(1, 3) {
            incompat |= I_CSUM_SEED;
        }
    }
    // with clusters so large that a group holds 2^31 blocks, block numbers get well beyond 32 bits
    let vast = big && g.chance(1, 2);
    let bigalloc = vast || g.chance(1, 8);
    let log_cluster = if vast {
        18
    } else if bigalloc {
        log_bs + g.draw(4) as u32
    } else {
        log_bs
    };
    if bigalloc {
        rocompat |= R_BIGALLOC;
    }
    let first_data_block = (log_bs == 0 && log_cluster == 0) as u32;
    let (stored_desc_size, desc_size) = if is64 {
        let d = if g.chance(1, 4) { 64u64 << g.draw(4) } else { 64 };
        (d as u16, d)
    } else {
        (g.pick(&[0u16, 0, 32]), 32)
    };
    let max_cpg = 8 * bs;
    let shift = log_cluster - log_bs;
    let cpg = if big {
        max_cpg
    } else if k.small {
        256 + 8 * g.draw(32)
    } else {
        match g.draw(3) {
            0 => max_cpg,
            1 => 256 + 8 * g.draw(32),
            _ => 256 + 8 * g.draw((max_cpg - 256) / 8),
        }
    };
    let bpg = cpg << shift;
    let mut groups = if vast {
        let n = 1 << g.draw(13);
        3 + g.draw(n)
    } else if big {
        (1u64 << 32).div_ceil(bpg) + 1 + g.draw(200)
    } else {
        1 + g.draw(k.max_groups - 1)
    };
    if !is64 {
        groups = groups.min(((u32::MAX as u64 - 1) / bpg).max(1));
    }
    groups = groups.max((k.min_blocks + 300).div_ceil(bpg) + 1).max(1);
    let last = if g.chance(1, 2) { bpg } else { 50.min(bpg) + g.draw(bpg - 50.min(bpg)) };
    let blocks = first_data_block as u64 + (groups - 1) * bpg + last;
    let inode_size = match g.draw(5) {
        0 => 128,
        1 | 2 => 256,
        3 => 512,
        _ => {
            let n = g.draw((bs.min(32768) / 128).ilog2() as u64);
            128 << n
        }
    }
    .min(bs.min(32768)) as u16;
    let per_block = (bs / inode_size as u64).max(1);
    let max_ipg = (8 * bs).min((u32::MAX as u64 / groups).max(1)).min(if k.small { 64 } else { u64::MAX });
    let mut ipg = match g.draw(3) {
        0 => max_ipg,
        1 => 8 + 8 * g.draw(7),
        _ => 16 + g.draw(200),
    };
    if !g.chance(1, 6) {
        ipg = ipg.next_multiple_of(per_block.max(8));
    }
    // the inode tables of the groups in use have to fit
    while ipg > 16 && (ipg * inode_size as u64).div_ceil(bs) * groups.min(40) > blocks / 2 {
        ipg /= 2;
    }
    let ipg = ipg.min(max_ipg).max(if groups == 1 { 16 } else { 8 });
    let inodes = (ipg * groups).min(u32::MAX as u64) as u32;
    let mut uuid = [0u8; 16];
    uuid.copy_from_slice(&g.blob(16));
    let mut first_meta_bg = 0;
    if g.chance(1, 12) && !big {
        // meta_bg whose first meta block group lies beyond the descriptors in use
        incompat |= I_META_BG;
        first_meta_bg = ((groups + 2) * desc_size).div_ceil(bs) as u32 + g.draw(3) as u32;
    }
    Cfg {
        log_bs,
        incompat,
        rocompat,
        uuid,
        stored_seed: if g.chance(1, 8) { g.pick(&[0, u32::MAX]) } else { g.draw(u32::MAX as u64) as u32 },
        csum_type: (csum || g.chance(1, 4)) as u8,
        stored_desc_size,
        desc_size,
        ipg: ipg as u32,
        bpg: bpg as u32,
        cpg: cpg as u32,
        log_cluster,
        groups,
        blocks,
        inodes,
        inode_size,
        first_data_block,
        first_meta_bg,
    }
}

/// A superblock for cfg; bytes that do not matter are random.
pub fn superblock(cfg: &Cfg, noise: u64) -> Vec<u8> {
    let mut b = blob(noise, 1024);
    let mut n = noise;
    put32(&mut b, 0, cfg.inodes);
    put32(&mut b, 4, cfg.blocks as u32);
    put32(&mut b, 0x14, cfg.first_data_block);
    put32(&mut b, 0x18, cfg.log_bs);
    put32(&mut b, 0x1c, cfg.log_cluster);
    put32(&mut b, 0x20, cfg.bpg);
    put32(&mut b, 0x24, cfg.cpg);
    put32(&mut b, 0x28, cfg.ipg);
    put16(&mut b, 0x38, 0xef53);
    put16(&mut b, 0x3c, 1 + (splitmix(&mut n) % 3) as u16);
    put32(&mut b, 0x48, 0);
    put32(&mut b, 0x4c, 1);
    put32(&mut b, 0x54, 11);
    put16(&mut b, 0x58, cfg.inode_size);
    put32(&mut b, 0x60, cfg.incompat);
    put32(&mut b, 0x64, cfg.rocompat);
    b[0x68..0x78].copy_from_slice(&cfg.uuid);
    put16(&mut b, 0xfe, cfg.stored_desc_size);
    put32(&mut b, 0x104, cfg.first_meta_bg);
    put32(&mut b, 0x150, (cfg.blocks >> 32) as u32);
    b[0x174] = (splitmix(&mut n) % 31) as u8;
    b[0x175] = cfg.csum_type;
    put32(&mut b, 0x270, cfg.stored_seed);
    seal_superblock(&mut b);
    b
}

pub fn seal_superblock(b: &mut [u8]) {
    if b[0x175] == 1 {
        let c = crc32c(!0, &b[..1020]);
        put32(b, 1020, c);
    }
}

// ---- image -----------------------------------------------------------------------------------------------------
pub struct Img {
    pub cfg: Cfg,
    pub store: Storage,
    pub used: BTreeMap<u64, u64>,
    pub tables: HashMap<u64, u64>,
    pub inos: BTreeSet<u32>,
    /// Extent blocks by file: (block, position of checksum, covered entries).
    pub nodes: Vec<Node>,
    pub sb_noise: u64,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub ino: u32,
    pub block: u64,
    pub depth: u16,
    /// First file block mapped through this node, and the file block after the last.
    pub from: u64,
    pub to: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ext {
    pub file: u64,
    pub len: u64,
    pub phys: u64,
    pub unwritten: bool,
}

#[derive(Clone, Debug)]
pub struct FileSpec {
    pub ino: u32,
    pub size: u64,
    pub exts: Vec<Ext>,
    pub depth: u16,
    pub generation: u32,
    pub mode: u16,
    pub flags: u32,
    pub iblock: [u8; 60],
}

impl FileSpec {
    pub fn blocks(&self, bs: u64) -> u64 {
        self.size.div_ceil(bs)
    }
    pub fn describe(&self) -> String {
        let e: Vec<String> = self
            .exts
            .iter()
            .take(6)
            .map(|e| format!("{}+{}@{}{}", e.file, e.len, e.phys, if e.unwritten { "u" } else { "" }))
            .collect();
        format!(
            "inode {} size {} depth {} extents {} [{}{}]",
            self.ino,
            self.size,
            self.depth,
            self.exts.len(),
            e.join(" "),
            if self.exts.len() > 6 { " .." } else { "" }
        )
    }
}

impl Img {
    pub fn gen(g: &mut G, k: &Knobs) -> Img {
        let cfg = gen_cfg(g, k);
        Img::new(g, cfg)
    }

    pub fn new(g: &mut G, cfg: Cfg) -> Img {
        let extra = if g.chance(1, 4) { g.draw(3 * cfg.bs()) } else { 0 };
        let store = Storage::new(cfg.blocks * cfg.bs() + extra, g.draw(u32::MAX as u64));
        let mut used = BTreeMap::new();
        let gdt = cfg.gdt_block();
        let gdt_blocks = ((cfg.groups + 1) * cfg.desc_size).div_ceil(cfg.bs());
        used.insert(0, gdt + gdt_blocks);
        let sb_noise = g.draw(u32::MAX as u64);
        let mut img =
            Img { cfg, store, used, tables: HashMap::new(), inos: BTreeSet::from([1]), nodes: vec![], sb_noise };
        let sb = superblock(&img.cfg, sb_noise);
        img.store.write(1024, &sb);
        img
    }

    fn free_at(&self, at: u64, len: u64) -> bool {
        let end = at + len;
        if end > self.cfg.blocks {
            return false;
        }
        match self.used.range(..end).next_back() {
            Some((s, l)) => s + l <= at,
            None => true,
        }
    }

    /// Takes a free range of len blocks.
    pub fn alloc(&mut self, g: &mut G, len: u64) -> Option<u64> {
        assert!(len > 0);
        let mode = g.draw(3);
        if mode == 0 {
            // directly after something already in use
            let i = g.draw(self.used.len() as u64 - 1) as usize;
            let at = self.used.iter().nth(i).map(|(s, l)| s + l).unwrap();
            if self.free_at(at, len) {
                self.used.insert(at, len);
                return Some(at);
            }
        }
        if self.cfg.blocks >= len {
            for _ in 0..6 {
                let top = self.cfg.blocks - len;
                let at = if mode == 1 { top - g.draw(top.min(20)) } else { g.draw(top) };
                if self.free_at(at, len) {
                    self.used.insert(at, len);
                    return Some(at);
                }
            }
        }
        let mut at = 0;
        for (s, l) in &self.used {
            if s - at >= len {
                break;
            }
            at = s + l;
        }
        if at + len <= self.cfg.blocks {
            self.used.insert(at, len);
            Some(at)
        } else {
            None
        }
    }

    pub fn table(&mut self, g: &mut G, group: u64) -> Option<u64> {
        if let Some(t) = self.tables.get(&group) {
            return Some(*t);
        }
        let len = (self.cfg.ipg as u64 * self.cfg.inode_size as u64).div_ceil(self.cfg.bs()).max(1);
        let t = self.alloc(g, len)?;
        self.tables.insert(group, t);
        let mut d = g.blob(self.cfg.desc_size as usize);
        put32(&mut d, 8, t as u32);
        if self.cfg.desc_size >= 64 {
            put32(&mut d, 40, (t >> 32) as u32);
        }
        if let Some(seed) = self.cfg.fs_seed() {
            put16(&mut d, 30, 0);
            let c = crc32c(crc32c(seed, &(group as u32).to_le_bytes()), &d) as u16;
            put16(&mut d, 30, c);
        }
        self.store.write(self.cfg.gdt_block() * self.cfg.bs() + group * self.cfg.desc_size, &d);
        Some(t)
    }

    pub fn inode_pos(&mut self, g: &mut G, ino: u32) -> Option<u64> {
        let group = (ino as u64 - 1) / self.cfg.ipg as u64;
        let index = (ino as u64 - 1) % self.cfg.ipg as u64;
        let t = self.table(g, group)?;
        Some(t * self.cfg.bs() + index * self.cfg.inode_size as u64)
    }

    /// An unused inode number.
    pub fn ino(&mut self, g: &mut G) -> u32 {
        let n = self.cfg.inodes;
        for _ in 0..8 {
            let i = match g.draw(4) {
                0 => n - g.draw((n as u64 - 1).min(2)) as u32,
                1 => {
                    // around a group boundary
                    let b = g.draw(self.cfg.groups - 1) * self.cfg.ipg as u64;
                    (b + g.draw(1)).clamp(1, n as u64) as u32
                }
                2 => (11 + g.draw(30)).min(n as u64) as u32,
                _ => 1 + g.draw(n as u64 - 1) as u32,
            };
            if i != 2 && self.inos.insert(i) {
                return i;
            }
        }
        let i = (3..=n).find(|i| !self.inos.contains(i)).expect("harness: out of inodes");
        self.inos.insert(i);
        i
    }

    /// Writes the bytes of an inode; what is not given is random.
    pub fn write_inode(&mut self, g: &mut G, f: &FileSpec) -> Option<()> {
        let pos = self.inode_pos(g, f.ino)?;
        let n = self.cfg.inode_size as usize;
        let mut b = g.blob(n);
        put16(&mut b, 0, f.mode);
        put32(&mut b, 4, f.size as u32);
        put32(&mut b, 0x6c, (f.size >> 32) as u32);
        put32(&mut b, 0x20, f.flags);
        put32(&mut b, 0x64, f.generation);
        b[0x28..0x64].copy_from_slice(&f.iblock);
        if n > 128 {
            let extra = 4 * g.draw(((n - 128) / 4).min(40) as u64) as u16;
            put16(&mut b, 128, extra);
        }
        self.seal_inode(&mut b, f.ino);
        self.store.write(pos, &b);
        Some(())
    }

    pub fn seal_inode(&self, b: &mut [u8], ino: u32) {
        let Some(seed) = self.cfg.inode_seed(ino, get32(b, 0x64)) else { return };
        let hi = b.len() > 128 && get16(b, 128) >= 4;
        put16(b, 0x7c, 0);
        if hi {
            put16(b, 0x82, 0);
        }
        let c = crc32c(seed, b);
        put16(b, 0x7c, c as u16);
        if hi {
            put16(b, 0x82, (c >> 16) as u16);
        }
    }

    /// Random extents covering `blocks` file blocks without holes; fewer when the device runs out of space.
    pub fn gen_extents(&mut self, g: &mut G, blocks: u64, frag: u64, unwritten: bool) -> Vec<Ext> {
        let mut v: Vec<Ext> = vec![];
        let mut at = 0;
        while at < blocks {
            let left = blocks - at;
            let mut len = match frag {
                0 => left,
                1 => 1 + g.draw(left.min(4) - 1),
                2 => 1,
                _ => {
                    let m = 1 << g.draw(9);
                    1 + g.draw(left.min(m) - 1)
                }
            };
            let uw = unwritten && g.chance(1, 3);
            len = len.min(if uw { 32767 } else { 32768 });
            let follow = v.last().map(|e| e.phys + e.len).filter(|p| g.chance(1, 3) && self.free_at(*p, len));
            let phys = match follow {
                Some(p) => {
                    self.used.insert(p, len);
                    p
                }
                None => match self.alloc(g, len) {
                    Some(p) => p,
                    None if len > 1 => {
                        len = 1;
                        match self.alloc(g, 1) {
                            Some(p) => p,
                            None => break,
                        }
                    }
                    None => break,
                },
            };
            v.push(Ext { file: at, len, phys, unwritten: uw });
            at += len;
        }
        v
    }

    fn header(g: &mut G, b: &mut [u8], entries: usize, max: usize, depth: u16) {
        put16(b, 0, 0xf30a);
        put16(b, 2, entries as u16);
        put16(b, 4, max as u16);
        put16(b, 6, depth);
        put32(b, 8, g.draw(u32::MAX as u64) as u32);
    }

    fn put_ext(b: &mut [u8], i: usize, e: &Ext) {
        let o = 12 + 12 * i;
        put32(b, o, e.file as u32);
        put16(b, o + 4, if e.unwritten { e.len as u16 + 0x8000 } else { e.len as u16 });
        put16(b, o + 6, (e.phys >> 32) as u16);
        put32(b, o + 8, e.phys as u32);
    }

    /// Splits n into k non-empty parts.
    fn split(g: &mut G, n: usize, k: usize) -> Vec<usize> {
        let mut cuts = BTreeSet::new();
        while cuts.len() < k - 1 {
            let c = 1 + g.draw(n as u64 - 2) as usize;
            if !cuts.insert(c) {
                // fill up in order when draws collide
                let f = (1..n).find(|x| !cuts.contains(x)).unwrap();
                cuts.insert(f);
            }
        }
        cuts.insert(n);
        let mut prev = 0;
        cuts.into_iter().map(|c| { let l = c - prev; prev = c; l }).collect()
    }

    /// Fills b (a tree node with room for cap entries) for the given extents.
    fn node(&mut self, g: &mut G, b: &mut [u8], cap: usize, exts: &[Ext], depth: u16, ino: u32, gen: u32) -> Option<()> {
        if depth == 0 {
            assert!(exts.len() <= cap);
            Self::header(g, b, exts.len(), cap, 0);
            for (i, e) in exts.iter().enumerate() {
                Self::put_ext(b, i, e);
            }
            return Some(());
        }
        let below = self.cfg.extents_per_block();
        // least number of children, so that each can hold its share
        let mut reach = below;
        for _ in 1..depth {
            reach = reach.saturating_mul(below);
        }
        let min = exts.len().div_ceil(reach).max(1);
        let max = exts.len().min(cap).max(min);
        let k = if min >= max {
            min
        } else if g.chance(1, 6) {
            max
        } else {
            min + g.draw((max - min).min(4) as u64) as usize
        };
        let parts = if exts.len().div_ceil(k) * 2 > reach {
            // little slack: even parts
            let mut left = exts.len();
            (0..k).map(|i| { let n = left.div_ceil(k - i); left -= n; n }).collect()
        } else {
            let p = Self::split(g, exts.len(), k);
            if p.iter().any(|n| *n > reach) {
                let mut left = exts.len();
                (0..k).map(|i| { let n = left.div_ceil(k - i); left -= n; n }).collect()
            } else {
                p
            }
        };
        Self::header(g, b, k, cap, depth);
        let mut at = 0;
        for (i, n) in parts.into_iter().enumerate() {
            let sub = &exts[at..at + n];
            at += n;
            let block = self.alloc(g, 1)?;
            let mut c = g.blob(self.cfg.bs() as usize);
            let cap2 = below;
            self.node(g, &mut c, cap2, sub, depth - 1, ino, gen)?;
            self.nodes.push(Node {
                ino,
                block,
                depth: depth - 1,
                from: sub[0].file,
                to: sub.last().map(|e| e.file + e.len).unwrap(),
            });
            self.seal_extent_block(&mut c, ino, gen);
            self.store.write(block * self.cfg.bs(), &c);
            let o = 12 + 12 * i;
            put32(b, o, sub[0].file as u32);
            put32(b, o + 4, block as u32);
            put16(b, o + 8, (block >> 32) as u16);
        }
        Some(())
    }

    pub fn seal_extent_block(&self, c: &mut [u8], ino: u32, gen: u32) {
        if let Some(seed) = self.cfg.inode_seed(ino, gen) {
            let max = get16(c, 4) as usize;
            let end = 12 + 12 * max;
            if end + 4 <= c.len() {
                let s = crc32c(seed, &c[..end]);
                put32(c, end, s);
            }
        }
    }

    /// Makes the tree for exts and writes the inode.
    pub fn put_file(&mut self, g: &mut G, ino: u32, mode: u16, size: u64, exts: Vec<Ext>, depth: u16) -> Option<FileSpec> {
        // mke2fs gives its inodes generation zero
        let generation = if g.chance(1, 4) { g.pick(&[0, 0, 1, u32::MAX]) } else { g.draw(u32::MAX as u64) as u32 };
        let mut depth = if exts.is_empty() { 0 } else { depth };
        let mut reach = 4usize;
        let mut need = 0;
        while reach < exts.len() {
            reach = reach.saturating_mul(self.cfg.extents_per_block());
            need += 1;
        }
        depth = depth.max(need);
        let mut ib = [0u8; 60];
        ib.copy_from_slice(&g.blob(60));
        self.node(g, &mut ib, 4, &exts, depth, ino, generation)?;
        // flags without meaning for how the data is stored
        let mut flags = F_EXTENTS;
        for f in [0x1u32, 0x2, 0x8, 0x10, 0x20, 0x40, 0x80, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x20000000] {
            if g.chance(1, 5) {
                flags |= f;
            }
        }
        let spec = FileSpec { ino, size, exts, depth, generation, mode, flags, iblock: ib };
        self.write_inode(g, &spec)?;
        Some(spec)
    }

    /// A regular file of about `blocks` blocks.
    pub fn gen_file(&mut self, g: &mut G, blocks: u64) -> Option<FileSpec> {
        let ino = self.ino(g);
        self.gen_file_at(g, ino, blocks)
    }

    pub fn gen_file_at(&mut self, g: &mut G, ino: u32, blocks: u64) -> Option<FileSpec> {
        let frag = g.draw(3);
        let unwritten = g.chance(1, 2);
        let mut exts = self.gen_extents(g, blocks, frag, unwritten);
        let have = exts.last().map(|e| e.file + e.len).unwrap_or(0);
        let bs = self.cfg.bs();
        let tail = exts.last().copied().filter(|e| e.unwritten);
        if g.chance(1, 6) {
            // blocks preallocated beyond the end of the file, next to it or further on
            let mut at = have;
            for _ in 0..1 + g.draw(3) {
                at += if g.chance(1, 2) { 0 } else { 1 + g.sized(1 << 31) };
                let len = 1 + g.sized(300);
                if at + len >= u32::MAX as u64 {
                    break;
                }
                let Some(phys) = self.alloc(g, len) else { break };
                exts.push(Ext { file: at, len, phys, unwritten: true });
                at += len;
            }
        }
        let size = if have == 0 {
            0
        } else if let Some(e) = tail.filter(|_| g.chance(1, 3)) {
            // the file ends within its last, preallocated, range
            e.file * bs + 1 + g.draw(e.len * bs - 1)
        } else {
            match g.draw(3) {
                0 => have * bs,
                1 => (have - 1) * bs + 1 + g.draw(bs - 1),
                2 => (have - 1) * bs + 1,
                _ => have * bs - 1,
            }
        };
        let depth = match g.draw(5) {
            0..=2 => 0,
            3 => 1,
            4 => 2,
            _ => g.draw(5) as u16,
        };
        let mode = 0x8000 | g.draw(0xfff) as u16;
        self.put_file(g, ino, mode, size, exts, depth)
    }

    /// Bytes of one file block (the part within the size).
    pub fn expect(&self, f: &FileSpec, i: u64) -> Vec<u8> {
        expect(&self.store, self.cfg.bs(), f, i)
    }

    // ---- directories -------------------------------------------------------------------------------------------
    /// Writes a directory whose blocks are given (without their checksum tails).
    pub fn put_dir(&mut self, g: &mut G, ino: u32, d: &DirB) -> Option<FileSpec> {
        self.put_dir_sized(g, ino, d, d.blocks.len() as u64 * self.cfg.bs())
    }

    pub fn put_dir_sized(&mut self, g: &mut G, ino: u32, d: &DirB, size: u64) -> Option<FileSpec> {
        let bs = self.cfg.bs();
        let n = d.blocks.len() as u64;
        let frag = g.draw(3);
        let exts = self.gen_extents(g, n, frag, false);
        if exts.last().map(|e| e.file + e.len).unwrap_or(0) < n {
            return None;
        }
        let depth = match g.draw(5) {
            0..=3 => 0,
            4 => 1,
            _ => g.draw(4) as u16,
        };
        let mode = 0x4000 | g.draw(0xfff) as u16;
        let f = self.put_file(g, ino, mode, size, exts, depth)?;
        for (i, b) in d.blocks.iter().enumerate() {
            let e = f.exts.iter().rev().find(|e| e.file <= i as u64).unwrap();
            let phys = e.phys + (i as u64 - e.file);
            let mut bytes = b.bytes();
            self.seal_dir_block(&mut bytes, ino, f.generation);
            self.store.write(phys * bs, &bytes);
        }
        Some(f)
    }

    /// Appends or refreshes the checksum tail.
    pub fn seal_dir_block(&self, b: &mut Vec<u8>, ino: u32, gen: u32) {
        let bs = self.cfg.bs() as usize;
        match self.cfg.inode_seed(ino, gen) {
            Some(seed) => {
                b.resize(bs - 12, 0);
                let c = crc32c(seed, b);
                b.extend_from_slice(&[0, 0, 0, 0, 12, 0, 0, 0xde]);
                b.extend_from_slice(&c.to_le_bytes());
            }
            None => assert_eq!(b.len(), bs),
        }
    }

    pub fn finish(self) -> Done {
        Done { cfg: self.cfg, store: Rc::new(self.store), nodes: self.nodes, ctl: Rc::new(Ctl::default()) }
    }
}

pub fn expect(store: &Storage, bs: u64, f: &FileSpec, i: u64) -> Vec<u8> {
    let n = (f.size - i * bs).min(bs) as usize;
    let k = f.exts.partition_point(|e| e.file <= i);
    let e = &f.exts[k - 1];
    assert!(i < e.file + e.len);
    if e.unwritten {
        vec![0; n]
    } else {
        store.get((e.phys + i - e.file) * bs, n)
    }
}

pub struct Done {
    pub cfg: Cfg,
    pub store: Rc<Storage>,
    pub nodes: Vec<Node>,
    pub ctl: Rc<Ctl>,
}

impl Done {
    pub fn dev(&self) -> Dev {
        Dev::with_ctl(self.store.clone(), 512, self.ctl.clone())
    }
    pub fn open(&self) -> std::io::Result<Ext4Fs<Dev>> {
        Ext4Fs::open(self.dev())
    }
    pub fn must_open(&self) -> Result<Ext4Fs<Dev>, Fail> {
        self.open().map_err(|e| Fail(format!("opening a well-formed filesystem failed: {e} ({})", self.cfg.describe())))
    }
    pub fn expect(&self, f: &FileSpec, i: u64) -> Vec<u8> {
        expect(&self.store, self.cfg.bs(), f, i)
    }
}

// ---- directory content -----------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub off: usize,
    pub len: usize,
    pub ino: u32,
    pub name: Vec<u8>,
    pub typ: u8,
}

#[derive(Clone)]
pub struct DirBlock {
    pub recs: Vec<Rec>,
    pub raw: Vec<u8>,
}

pub fn need(name: &[u8]) -> usize {
    (8 + name.len()).next_multiple_of(4)
}

impl DirBlock {
    pub fn empty(cap: usize, garbage: Vec<u8>) -> Self {
        DirBlock { recs: vec![Rec { off: 0, len: cap, ino: 0, name: vec![], typ: 0 }], raw: garbage }
    }
    fn put(&mut self, i: usize) {
        let r = &self.recs[i];
        put32(&mut self.raw, r.off, r.ino);
        // a record spanning a whole 64 KiB block is stored as 65535 (or 0)
        let l = if r.len == 65536 { 0xffff } else { r.len as u16 };
        put16(&mut self.raw, r.off + 4, l);
        self.raw[r.off + 6] = r.name.len() as u8;
        self.raw[r.off + 7] = r.typ;
        let o = r.off + 8;
        self.raw[o..o + r.name.len()].copy_from_slice(&r.name);
    }
    /// As ext4 does it: take an unused record that is large enough, or the slack of a used one.
    pub fn insert(&mut self, name: &[u8], ino: u32, typ: u8) -> bool {
        let n = need(name);
        for i in 0..self.recs.len() {
            let r = self.recs[i].clone();
            if r.ino == 0 && r.len >= n {
                self.recs[i] = Rec { name: name.to_vec(), ino, typ, ..r };
                self.put(i);
                return true;
            }
            if r.ino != 0 && r.len >= need(&r.name) + n {
                let keep = need(&r.name);
                self.recs[i].len = keep;
                self.recs.insert(i + 1, Rec { off: r.off + keep, len: r.len - keep, ino, name: name.to_vec(), typ });
                self.put(i);
                self.put(i + 1);
                return true;
            }
        }
        false
    }
    /// As ext4 does it: the record before swallows the deleted one; the first of a block becomes unused.
    pub fn delete(&mut self, i: usize) {
        if i > 0 {
            let l = self.recs[i].len;
            self.recs.remove(i);
            self.recs[i - 1].len += l;
            self.put(i - 1);
        } else {
            self.recs[0].ino = 0;
            put32(&mut self.raw, 0, 0);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.clone();
        for i in 0..b.recs.len() {
            if b.recs[i].ino != 0 {
                b.put(i);
            } else {
                let r = &b.recs[i];
                put32(&mut b.raw, r.off, 0);
                let l = if r.len == 65536 { 0xffff } else { r.len as u16 };
                put16(&mut b.raw, r.off + 4, l);
                // an unused record keeps its old name length, which lies within it
                let nl = (b.raw[r.off + 6] as usize).min(r.len - 8) as u8;
                b.raw[r.off + 6] = nl;
            }
        }
        b.raw
    }
    pub fn live(&self) -> impl Iterator<Item = &Rec> {
        self.recs.iter().filter(|r| r.ino != 0)
    }
}

#[derive(Clone, Default)]
pub struct DirB {
    pub blocks: Vec<DirBlock>,
    pub cap: usize,
    names: BTreeSet<Vec<u8>>,
}

impl DirB {
    pub fn new(cap: usize) -> Self {
        DirB { blocks: vec![], cap, names: BTreeSet::new() }
    }
    pub fn insert(&mut self, g: &mut G, name: &[u8], ino: u32, typ: u8) -> bool {
        if !self.names.insert(name.to_vec()) {
            return false;
        }
        for b in &mut self.blocks {
            if b.insert(name, ino, typ) {
                return true;
            }
        }
        let garbage = g.blob(self.cap);
        let mut b = DirBlock::empty(self.cap, garbage);
        assert!(b.insert(name, ino, typ));
        self.blocks.push(b);
        true
    }
    /// Appends a block holding no entry.
    pub fn push_empty(&mut self, g: &mut G) {
        let garbage = g.blob(self.cap);
        self.blocks.push(DirBlock::empty(self.cap, garbage));
    }
    pub fn live(&self) -> Vec<Rec> {
        self.blocks.iter().flat_map(|b| b.live().cloned()).collect()
    }
    pub fn delete_name(&mut self, name: &[u8]) {
        for b in &mut self.blocks {
            if let Some(i) = b.recs.iter().position(|r| r.ino != 0 && r.name == name) {
                b.delete(i);
                break;
            }
        }
        self.names.remove(name);
    }
    pub fn delete_random(&mut self, g: &mut G, keep_dots: bool) -> bool {
        let all: Vec<(usize, usize)> = self
            .blocks
            .iter()
            .enumerate()
            .flat_map(|(b, x)| x.recs.iter().enumerate().filter(|(_, r)| r.ino != 0).map(move |(i, _)| (b, i)))
            .filter(|(b, i)| !(keep_dots && *b == 0 && *i < 2))
            .collect();
        if all.is_empty() {
            return false;
        }
        let (b, i) = all[g.draw(all.len() as u64 - 1) as usize];
        let name = self.blocks[b].recs[i].name.clone();
        self.names.remove(&name);
        self.blocks[b].delete(i);
        true
    }
}

pub fn gen_name(g: &mut G) -> Vec<u8> {
    let n = match g.draw(5) {
        0 => 1,
        1 => 255 - g.draw(3) as usize,
        2 => g.us(1, 255),
        _ => g.us(1, 20),
    };
    let mut v = g.blob(n);
    let text = g.chance(1, 2);
    for c in &mut v {
        if text {
            *c = b'a' + *c % 26;
        } else if *c == 0 || *c == b'/' {
            *c = 0xc3;
        }
    }
    if v == b"." || v == b".." {
        v = b"_".to_vec();
    }
    v
}

/// A directory with a random history. Returns it with "." and ".." in place if `dots`.
pub fn gen_dir(g: &mut G, cfg: &Cfg, self_ino: u32, parent: u32, ops: usize) -> DirB {
    let mut d = DirB::new(cfg.dir_cap());
    let ft = cfg.incompat & I_FILETYPE != 0;
    let t = |x: u8| if ft { x } else { 0 };
    d.insert(g, b".", self_ino, t(2));
    d.insert(g, b"..", parent, t(2));
    for _ in 0..ops {
        match g.draw(9) {
            0..=6 => {
                let name = gen_name(g);
                let ino = match g.draw(3) {
                    0 => 1 + g.draw(30) as u32,
                    1 => u32::MAX - g.draw(3) as u32,
                    _ => 1 + g.draw(u32::MAX as u64 - 1) as u32,
                };
                // values no version of ext4 writes are passed on as they are
                let typ = t(if g.chance(1, 40) { g.draw(255) } else { 1 + g.draw(6) } as u8);
                d.insert(g, &name, ino, typ);
            }
            7 | 8 => {
                d.delete_random(g, true);
            }
            _ => {
                if g.chance(1, 4) {
                    d.push_empty(g);
                }
            }
        }
    }
    d
}

// ---- reading through the code under test -----------------------------------------------------------------------
pub trait Bytes: BlockDevice + Read + Seek {}
impl<T: BlockDevice + Read + Seek> Bytes for T {}

pub enum Opened<D: Bytes> {
    File(Ext4RegularFile<D>),
    Dir(Ext4Directory<D>),
    Other(u8),
}

pub fn open_ino<D: Bytes>(fs: &mut Ext4Fs<D>, ino: u32) -> std::io::Result<Opened<D>> {
    Ok(match fs.open_file(crate::ext4::verif::InodeNumber(ino))? {
        Ext4File::RegularFile(f) => Opened::File(f),
        Ext4File::Directory(d) => Opened::Dir(d),
        Ext4File::Unsupported(t) => Opened::Other(u8::from(t)),
    })
}

pub fn open_regular<D: Bytes>(fs: &mut Ext4Fs<D>, f: &FileSpec) -> Result<Ext4RegularFile<D>, Fail> {
    match open_ino(fs, f.ino) {
        Ok(Opened::File(x)) => Ok(x),
        Ok(_) => Err(Fail(format!("inode {} opened as something else than a regular file", f.ino))),
        Err(e) => Err(Fail(format!("opening regular file {}: {e}", f.describe()))),
    }
}

pub fn open_dir<D: Bytes>(fs: &mut Ext4Fs<D>, ino: u32) -> Result<Ext4Directory<D>, Fail> {
    match open_ino(fs, ino) {
        Ok(Opened::Dir(x)) => Ok(x),
        Ok(_) => Err(Fail(format!("inode {ino} opened as something else than a directory"))),
        Err(e) => Err(Fail(format!("opening directory {ino}: {e}"))),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub name: Vec<u8>,
    pub ino: u32,
    pub typ: u8,
}

impl From<&Rec> for Entry {
    fn from(r: &Rec) -> Self {
        Entry { name: r.name.clone(), ino: r.ino, typ: r.typ }
    }
}

pub fn next_entry<D: Bytes>(d: &mut Ext4Directory<D>) -> std::io::Result<Option<Entry>> {
    let Some(e) = d.read_next_entry()? else { return Ok(None) };
    let name: Vec<u8> = <&[u8]>::from(&e.name()).to_vec();
    let typ = u8::from(e.file_type());
    crate::names::value("entry type", e.file_type(), typ as u64, crate::names::ENTRY_TYPE)
        .map_err(|e| std::io::Error::other(e.0))?;
    Ok(Some(Entry { name, ino: u32::from(e.inode()), typ }))
}

/// Reads a whole listing and compares it.
pub fn check_listing<D: Bytes>(d: &mut Ext4Directory<D>, want: &[Entry]) -> R {
    for (i, w) in want.iter().enumerate() {
        match next_entry(d) {
            Ok(Some(e)) => ensure!(
                e == *w,
                "entry {i} of {}: got {:?} inode {} type {}, expected {:?} inode {} type {}",
                want.len(),
                String::from_utf8_lossy(&e.name),
                e.ino,
                e.typ,
                String::from_utf8_lossy(&w.name),
                w.ino,
                w.typ
            ),
            Ok(None) => return Err(Fail(format!("listing ends after {i} of {} entries", want.len()))),
            Err(e) => return Err(Fail(format!("listing fails after {i} of {} entries: {e}", want.len()))),
        }
    }
    for _ in 0..2 {
        match next_entry(d) {
            Ok(None) => {}
            Ok(Some(e)) => {
                return Err(Fail(format!("listing goes on after all entries: {:?} inode {}", e.name, e.ino)))
            }
            Err(e) => return Err(Fail(format!("listing ends with an error: {e}"))),
        }
    }
    Ok(())
}

/// Reads the next block of a file and compares it with block i; at the end of the file expects 0.
pub fn check_block<D: Bytes>(f: &mut Ext4RegularFile<D>, img: &Done, spec: &FileSpec, i: u64, buf: &mut [u8]) -> R {
    let bs = img.cfg.bs();
    let r = f.read_next_block(buf);
    if i >= spec.blocks(bs) {
        ensure!(matches!(r, Ok(0)), "at the end of the file (block {i}): {r:?} instead of 0");
        return Ok(());
    }
    let want = img.expect(spec, i);
    match r {
        Ok(n) => {
            ensure_eq!(n, want.len(), "bytes read of file block {i} (size {})", spec.size);
            ensure!(buf[..n] == want[..], "file block {i} of {}: wrong bytes", spec.blocks(bs));
        }
        Err(e) => return Err(Fail(format!("reading file block {i} of {}: {e}", spec.blocks(bs)))),
    }
    Ok(())
}

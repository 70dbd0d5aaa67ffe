// Small writers of md members and ext4 filesystems, for the demonstrations.
#![allow(dead_code, unused_imports)]
use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom};

/// A device that stores only the 4 KiB pages that were written.
#[derive(Clone)]
pub struct Sparse {
    pub len: u64,
    pub pages: HashMap<u64, Vec<u8>>,
    pub pos: u64,
    pub block_size: u32,
}

impl Sparse {
    pub fn new(len: u64, block_size: u32) -> Self {
        Self { len, pages: HashMap::new(), pos: 0, block_size }
    }
    pub fn put(&mut self, at: u64, data: &[u8]) {
        for (i, b) in data.iter().enumerate() {
            let p = at + i as u64;
            assert!(p < self.len);
            self.pages.entry(p / 4096).or_insert_with(|| vec![0; 4096])[(p % 4096) as usize] = *b;
        }
    }
    pub fn get(&self, at: u64, n: usize) -> Vec<u8> {
        (0..n as u64)
            .map(|i| {
                let p = at + i;
                self.pages.get(&(p / 4096)).map_or(0, |page| page[(p % 4096) as usize])
            })
            .collect()
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        let data = self.get(self.pos, n);
        buf[..n].copy_from_slice(&data);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let p = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(o) => self.len.checked_add_signed(o),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        self.pos = p.ok_or(io::ErrorKind::InvalidInput)?;
        Ok(self.pos)
    }
}

impl BlockDevice for Sparse {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(self.block_size))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.len / u64::from(self.block_size)))
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        let bs = u64::from(self.block_size);
        if n.0 >= self.len / bs {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        let data = self.get(n.0 * bs, bs as usize);
        buf[..bs as usize].copy_from_slice(&data);
        Ok(bs as usize)
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}

pub fn put16(b: &mut [u8], at: usize, v: u16) {
    b[at..at + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn put32(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn put64(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
}

pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

/// A version-1 superblock.
#[derive(Clone)]
pub struct Sb {
    pub uuid: [u8; 16],
    pub level: u32,
    pub layout: u32,
    pub per_dev: u64,
    pub chunk: u32,
    pub raid_disks: u32,
    pub features: u32,
    pub reshape: (u32, u64, u32, u32, u32, u32),
    pub data_offset: u64,
    pub role_index: u32,
    pub events: u64,
    pub roles: Vec<u16>,
}

impl Sb {
    pub fn new(n: u32, layout: u32, chunk: u32, per_dev: u64, data_offset: u64) -> Self {
        Self {
            uuid: [7; 16],
            level: 6,
            layout,
            per_dev,
            chunk,
            raid_disks: n,
            features: 0,
            reshape: (0, 0, 0, 0, 0, 0),
            data_offset,
            role_index: 0,
            events: 100,
            roles: (0..n as u16).collect(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0; 4096];
        put32(&mut b, 0, 0xa92b_4efc);
        put32(&mut b, 4, 1);
        put32(&mut b, 8, self.features);
        b[16..32].copy_from_slice(&self.uuid);
        b[32..36].copy_from_slice(b"demo");
        put32(&mut b, 72, self.level);
        put32(&mut b, 76, self.layout);
        put64(&mut b, 80, self.per_dev);
        put32(&mut b, 88, self.chunk);
        put32(&mut b, 92, self.raid_disks);
        let (level, pos, delta, layout, chunk, offset) = self.reshape;
        put32(&mut b, 100, level);
        put64(&mut b, 104, pos);
        put32(&mut b, 112, delta);
        put32(&mut b, 116, layout);
        put32(&mut b, 120, chunk);
        put32(&mut b, 124, offset);
        put64(&mut b, 128, self.data_offset);
        put32(&mut b, 160, self.role_index);
        put64(&mut b, 200, self.events);
        put32(&mut b, 220, self.roles.len() as u32);
        for (i, r) in self.roles.iter().enumerate() {
            put16(&mut b, 256 + 2 * i, *r);
        }
        b
    }
}

/// P of a left-symmetric RAID-6 row and the members of its data blocks.
pub fn left_symmetric_6(n: u64, stripe: u64) -> (u64, u64, Vec<u64>) {
    let p = n - 1 - stripe % n;
    (p, (p + 1) % n, (0..n - 2).map(|k| (p + 2 + k) % n).collect())
}

/// A left-symmetric RAID-6 array of members with version 1.2 superblocks. data(l) is its sector l.
pub fn raid6(n: u32, chunk: u32, chunks: u64, data: impl Fn(u64) -> Vec<u8>) -> Vec<Sparse> {
    let off = 64;
    let per_dev = chunks * u64::from(chunk);
    let sb = Sb::new(n, 2, chunk, per_dev, off);
    let mut devs: Vec<Sparse> = (0..n).map(|_| Sparse::new((off + per_dev + 64) * 512, 512)).collect();
    for stripe in 0..chunks {
        let (p, _, ds) = left_symmetric_6(u64::from(n), stripe);
        for o in 0..u64::from(chunk) {
            let at = (off + stripe * u64::from(chunk) + o) * 512;
            let mut xor = vec![0; 512];
            for (k, d) in ds.iter().enumerate() {
                let s = data((stripe * u64::from(n - 2) + k as u64) * u64::from(chunk) + o);
                for i in 0..512 {
                    xor[i] ^= s[i];
                }
                devs[*d as usize].put(at, &s);
            }
            devs[p as usize].put(at, &xor);
        }
    }
    for (i, d) in devs.iter_mut().enumerate() {
        let sb = Sb { role_index: i as u32, ..sb.clone() };
        d.put(4096, &sb.bytes());
    }
    devs
}

pub fn crc32c(mut crc: u32, data: &[u8]) -> u32 {
    for b in data {
        crc ^= u32::from(*b);
        for _ in 0..8 {
            crc = if crc & 1 != 0 { crc >> 1 ^ 0x82f6_3b78 } else { crc >> 1 };
        }
    }
    crc
}

pub const S_REG: u16 = 0x8000 | 0o644;
pub const S_DIR: u16 = 0x4000 | 0o755;

/// An ext4 filesystem with one block group.
pub struct Fs {
    pub dev: Sparse,
    pub log_bs: u32,
    pub csum: bool,
    pub inode_size: u16,
    pub uuid: [u8; 16],
    pub table: u64,
    pub sb: Vec<u8>,
    pub desc: Vec<u8>,
}

impl Fs {
    pub fn new(log_bs: u32, csum: bool, inode_size: u16, blocks: u64) -> Self {
        let bs = 1024u64 << log_bs;
        let uuid: [u8; 16] = noise(5, 16).try_into().unwrap();
        let mut sb = vec![0; 1024];
        put32(&mut sb, 0, 64);
        put32(&mut sb, 4, blocks as u32);
        put32(&mut sb, 0x150, (blocks >> 32) as u32);
        put32(&mut sb, 20, u32::from(log_bs == 0));
        put32(&mut sb, 24, log_bs);
        put32(&mut sb, 28, log_bs);
        put32(&mut sb, 32, 1 << 30);
        put32(&mut sb, 36, 1 << 30);
        put32(&mut sb, 40, 64);
        put16(&mut sb, 56, 0xef53);
        put16(&mut sb, 58, 1);
        put16(&mut sb, 60, 1);
        put32(&mut sb, 76, 1);
        put32(&mut sb, 84, 11);
        put16(&mut sb, 88, inode_size);
        put32(&mut sb, 96, 0x2 | 0x40 | 0x80);
        put32(&mut sb, 100, if csum { 0x400 } else { 0 });
        sb[104..120].copy_from_slice(&uuid);
        put16(&mut sb, 254, 64);
        if csum {
            sb[0x175] = 1;
        }
        let table = 8;
        let mut desc = vec![0; 64];
        put32(&mut desc, 8, table as u32);
        Self { dev: Sparse::new(blocks * bs, 512), log_bs, csum, inode_size, uuid, table, sb, desc }
    }
    pub fn bs(&self) -> u64 {
        1024 << self.log_bs
    }
    pub fn seed(&self, ino: u32, generation: u32) -> u32 {
        let s = crc32c(!0, &self.uuid);
        crc32c(crc32c(s, &ino.to_le_bytes()), &generation.to_le_bytes())
    }
    /// The i_block of an extent tree whose root has these entries.
    pub fn root(depth: u16, entries: &[[u8; 12]]) -> [u8; 60] {
        let mut b = [0; 60];
        put16(&mut b, 0, 0xf30a);
        put16(&mut b, 2, entries.len() as u16);
        put16(&mut b, 4, 4);
        put16(&mut b, 6, depth);
        for (i, e) in entries.iter().enumerate() {
            b[12 + 12 * i..24 + 12 * i].copy_from_slice(e);
        }
        b
    }
    pub fn extent(file: u32, len: u16, phys: u64) -> [u8; 12] {
        let mut e = [0; 12];
        put32(&mut e, 0, file);
        put16(&mut e, 4, len);
        put16(&mut e, 6, (phys >> 32) as u16);
        put32(&mut e, 8, phys as u32);
        e
    }
    pub fn index(file: u32, phys: u64) -> [u8; 12] {
        let mut e = [0; 12];
        put32(&mut e, 0, file);
        put32(&mut e, 4, phys as u32);
        put16(&mut e, 8, (phys >> 32) as u16);
        e
    }
    /// Writes a block of an extent tree.
    pub fn put_node(&mut self, ino: u32, at: u64, depth: u16, entries: &[[u8; 12]]) {
        let bs = self.bs() as usize;
        let mut b = vec![0; bs];
        let max = (bs - 16) / 12;
        put16(&mut b, 0, 0xf30a);
        put16(&mut b, 2, entries.len() as u16);
        put16(&mut b, 4, max as u16);
        put16(&mut b, 6, depth);
        for (i, e) in entries.iter().enumerate() {
            b[12 + 12 * i..24 + 12 * i].copy_from_slice(e);
        }
        if self.csum {
            let c = crc32c(self.seed(ino, 0), &b[..12 + 12 * max]);
            put32(&mut b, 12 + 12 * max, c);
        }
        self.dev.put(at * bs as u64, &b);
    }
    pub fn inode_pos(&self, ino: u32) -> u64 {
        self.table * self.bs() + u64::from(ino - 1) * u64::from(self.inode_size)
    }
    pub fn put_inode(&mut self, ino: u32, mode: u16, size: u64, iblock: &[u8; 60]) {
        let mut b = vec![0; usize::from(self.inode_size)];
        put16(&mut b, 0, mode);
        put32(&mut b, 4, size as u32);
        put32(&mut b, 0x6c, (size >> 32) as u32);
        put16(&mut b, 26, 1);
        put32(&mut b, 32, 0x80000);
        b[40..100].copy_from_slice(iblock);
        if b.len() > 128 {
            put16(&mut b, 128, 32);
        }
        let at = self.inode_pos(ino);
        self.dev.put(at, &b);
    }
    /// A directory block of these (inode, type, name) records, the last of which takes the rest.
    pub fn dir_block(&self, ino: u32, recs: &[(u32, u8, &[u8])]) -> Vec<u8> {
        let bs = self.bs() as usize;
        let cap = if self.csum { bs - 12 } else { bs };
        let mut b = vec![0; bs];
        let mut at = 0;
        for (i, (n, t, name)) in recs.iter().enumerate() {
            let len = if i + 1 == recs.len() { cap - at } else { (8 + name.len() + 3) & !3 };
            put32(&mut b, at, *n);
            put16(&mut b, at + 4, len as u16);
            b[at + 6] = name.len() as u8;
            b[at + 7] = *t;
            b[at + 8..at + 8 + name.len()].copy_from_slice(name);
            at += len;
        }
        if self.csum {
            put16(&mut b, cap + 4, 12);
            b[cap + 7] = 0xde;
            let c = crc32c(self.seed(ino, 0), &b[..cap]);
            put32(&mut b, cap + 8, c);
        }
        b
    }
    pub fn put_block(&mut self, at: u64, data: &[u8]) {
        let bs = self.bs();
        self.dev.put(at * bs, data);
    }
    /// The device, with superblock and group descriptor.
    pub fn finish(&mut self) -> Sparse {
        if self.csum {
            let c = crc32c(!0, &self.sb[..1020]);
            put32(&mut self.sb, 1020, c);
        }
        let sb = self.sb.clone();
        self.dev.put(1024, &sb);
        let gdt = (1024 / self.bs() + 1) * self.bs();
        let desc = self.desc.clone();
        self.dev.put(gdt, &desc);
        self.dev.clone()
    }
}

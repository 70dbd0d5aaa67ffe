//! Builder and reference model of Linux md members: superblocks of every version, and stripes laid out by the inverse
//! mapping of the kernel's raid5 driver (raid5_compute_blocknr), independent of the forward mapping under test.
use crate::dev::{Ctl, Dev, Storage};
use crate::engine::{blob, hash64, G};
use crate::md::{MdArray, MdDevice};
use std::ffi::OsStr;
use std::io;
use std::rc::Rc;

pub const RAID6_LAYOUTS: [u32; 14] = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20];
pub const RAID5_LAYOUTS: [u32; 6] = [0, 1, 2, 3, 4, 5];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    D(u64),
    P,
    Q,
}

/// What member i of n holds in stripe s, by the kernel's inverse mapping.
pub fn slot(level: u32, layout: u32, n: u64, s: u64, i: u64) -> Slot {
    let dd = n - if level == 6 { 2 } else { 1 };
    if level == 5 {
        let pd = match layout {
            0 | 2 => n - 1 - s % n,
            1 | 3 => s % n,
            4 => 0,
            5 => dd,
            _ => unreachable!(),
        };
        if i == pd {
            return Slot::P;
        }
        return Slot::D(match layout {
            0 | 1 => {
                if i > pd {
                    i - 1
                } else {
                    i
                }
            }
            2 | 3 => {
                if i < pd {
                    i + n - pd - 1
                } else {
                    i - pd - 1
                }
            }
            4 => i - 1,
            _ => i,
        });
    }
    let pd = match layout {
        0 | 2 | 10 => n - 1 - s % n,
        1 | 3 | 8 => s % n,
        4 | 20 => 0,
        5 => dd,
        9 => n - 1 - (s as u128 + 1) as u64 as u128 as u64 % n,
        16 | 18 => dd - s % (n - 1),
        17 | 19 => s % (n - 1),
        _ => unreachable!(),
    };
    let qd = match layout {
        0..=3 | 8 | 9 => (pd + 1) % n,
        4 => 1,
        5 => dd + 1,
        10 => (pd + n - 1) % n,
        _ => n - 1,
    };
    if i == pd {
        return Slot::P;
    }
    if i == qd {
        return Slot::Q;
    }
    Slot::D(match layout {
        0 | 1 | 8 | 9 => {
            if pd == n - 1 {
                i - 1
            } else if i > pd {
                i - 2
            } else {
                i
            }
        }
        2 | 3 => {
            if pd == n - 1 {
                i - 1
            } else {
                let i = if i < pd { i + n } else { i };
                i - (pd + 2)
            }
        }
        4 => i - 2,
        5 => i,
        10 => {
            if pd == 0 {
                i - 1
            } else {
                let i = if i < pd { i + n } else { i };
                i - (pd + 1)
            }
        }
        16 | 17 => {
            if i > pd {
                i - 1
            } else {
                i
            }
        }
        18 | 19 => {
            let i = if i < pd { i + dd + 1 } else { i };
            i - (pd + 1)
        }
        _ => i - 1,
    })
}

fn gmul2(b: u8) -> u8 {
    (b << 1) ^ if b & 0x80 != 0 { 0x1d } else { 0 }
}

/// P and Q of data blocks in data order.
pub fn parity(data: &[[u8; 512]]) -> ([u8; 512], [u8; 512]) {
    let (mut p, mut q) = ([0u8; 512], [0u8; 512]);
    for d in data.iter().rev() {
        for k in 0..512 {
            p[k] ^= d[k];
            q[k] = gmul2(q[k]) ^ d[k];
        }
    }
    (p, q)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ver {
    V12,
    V11,
    V10,
    V0Le,
    V0Be,
}
pub const VERS: [Ver; 5] = [Ver::V12, Ver::V11, Ver::V10, Ver::V0Le, Ver::V0Be];

impl Ver {
    pub fn is_v1(self) -> bool {
        !matches!(self, Ver::V0Le | Ver::V0Be)
    }
    /// Where Linux md puts the superblock on a device of this size.
    pub fn location(self, size: u64) -> Option<u64> {
        if size < 12288 {
            return None;
        }
        match self {
            Ver::V12 => Some(4096),
            Ver::V11 => Some(0),
            // calc_dev_sboffset: sectors, minus 8 KiB, rounded down to 4 KiB
            Ver::V10 => Some(((size / 512 - 16) / 8) * 8 * 512),
            // MD_NEW_SIZE_SECTORS: rounded down to 64 KiB, minus 64 KiB
            _ => {
                if size >= 65536 {
                    Some(size / 65536 * 65536 - 65536)
                } else {
                    None
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Reshape {
    pub level: u32,
    pub pos: u64,
    pub delta: u32,
    pub layout: u32,
    pub chunk: u32,
    pub offset: u32,
}

/// Version-independent content of a superblock; sizes in sectors.
#[derive(Clone, Debug, PartialEq)]
pub struct Sb {
    pub uuid: [u8; 16],
    pub name: [u8; 32],
    pub level: u32,
    pub layout: u32,
    pub per_dev: u64,
    pub chunk: u32,
    pub raid_disks: u32,
    pub features: u32,
    pub reshape: Option<Reshape>,
    pub data_offset: u64,
    pub role_index: u32,
    pub events: u64,
    pub roles: Vec<u32>,
    /// Content of all bytes the format does not define above.
    pub junk: u64,
    pub magic: u32,
    pub major: u32,
    pub minor0: u32,
}

pub const MAGIC: u32 = 0xa92b4efc;
pub const SPARE: u32 = 0xffff;
pub const FAULTY: u32 = 0xfffe;
pub const JOURNAL: u32 = 0xfffd;

fn put(b: &mut [u8], at: usize, v: &[u8]) {
    b[at..at + v.len()].copy_from_slice(v);
}

impl Sb {
    pub fn encode(&self, ver: Ver) -> Vec<u8> {
        let mut b = blob(self.junk, 4096);
        if ver.is_v1() {
            put(&mut b, 0, &self.magic.to_le_bytes());
            put(&mut b, 4, &self.major.to_le_bytes());
            let f = self.features & !4 | if self.reshape.is_some() { 4 } else { 0 };
            put(&mut b, 8, &f.to_le_bytes());
            put(&mut b, 16, &self.uuid);
            put(&mut b, 32, &self.name);
            put(&mut b, 72, &self.level.to_le_bytes());
            put(&mut b, 76, &self.layout.to_le_bytes());
            put(&mut b, 80, &self.per_dev.to_le_bytes());
            put(&mut b, 88, &self.chunk.to_le_bytes());
            put(&mut b, 92, &self.raid_disks.to_le_bytes());
            if let Some(r) = &self.reshape {
                put(&mut b, 100, &r.level.to_le_bytes());
                put(&mut b, 104, &r.pos.to_le_bytes());
                put(&mut b, 112, &r.delta.to_le_bytes());
                put(&mut b, 116, &r.layout.to_le_bytes());
                put(&mut b, 120, &r.chunk.to_le_bytes());
                put(&mut b, 124, &r.offset.to_le_bytes());
            }
            put(&mut b, 128, &self.data_offset.to_le_bytes());
            put(&mut b, 160, &self.role_index.to_le_bytes());
            put(&mut b, 200, &self.events.to_le_bytes());
            put(&mut b, 220, &(self.roles.len() as u32).to_le_bytes());
            for (i, r) in self.roles.iter().enumerate() {
                put(&mut b, 256 + 2 * i, &(*r as u16).to_le_bytes());
            }
        } else {
            let be = ver == Ver::V0Be;
            let mut w = |word: usize, v: u32| {
                put(&mut b, word * 4, &if be { v.to_be_bytes() } else { v.to_le_bytes() });
            };
            let u = |i: usize| u32::from_le_bytes(self.uuid[4 * i..4 * i + 4].try_into().unwrap());
            w(0, self.magic);
            w(1, self.major);
            w(2, self.minor0);
            w(5, u(0));
            w(7, self.level);
            w(8, (self.per_dev / 2) as u32);
            w(9, self.roles.len() as u32);
            w(10, self.raid_disks);
            w(13, u(1));
            w(14, u(2));
            w(15, u(3));
            // a 64-bit field: the kernel keeps the halves in host order
            let (hi, lo) = ((self.events >> 32) as u32, self.events as u32);
            w(39, if be { hi } else { lo });
            w(40, if be { lo } else { hi });
            if let Some(r) = &self.reshape {
                let (hi, lo) = ((r.pos >> 32) as u32, r.pos as u32);
                w(44, if be { hi } else { lo });
                w(45, if be { lo } else { hi });
                w(46, r.level);
                w(47, r.delta);
                w(48, r.layout);
                w(49, r.chunk * 512);
            }
            w(64, self.layout);
            w(65, self.chunk * 512);
            for i in 0..27 {
                let at = 128 + 32 * i;
                w(at, i as u32);
                if let Some(r) = self.roles.get(i) {
                    w(at + 3, *r);
                }
            }
            w(992, self.role_index);
            w(992 + 3, self.roles.get(self.role_index as usize).copied().unwrap_or(0));
        }
        b
    }

    pub fn write(&self, ver: Ver, s: &mut Storage) {
        let at = ver.location(s.len).expect("harness: device too small for superblock");
        s.write(at, &self.encode(ver));
    }

    /// A superblock that differs between members only in its role.
    pub fn member(&self, slot: u32) -> Sb {
        Sb { role_index: slot, ..self.clone() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Geo {
    pub level: u32,
    pub layout: u32,
    pub n: u64,
    pub chunk: u64,
    pub per_dev: u64,
}

impl Geo {
    pub fn dd(&self) -> u64 {
        self.n - if self.level == 6 { 2 } else { 1 }
    }
    pub fn sectors(&self) -> u64 {
        self.per_dev * self.dd()
    }
    /// (stripe, offset in chunk) of a logical sector.
    pub fn row_of(&self, l: u64) -> (u64, u64) {
        (l / self.chunk / self.dd(), l % self.chunk)
    }
    pub fn member_sector(&self, s: u64, o: u64) -> u64 {
        s * self.chunk + o
    }
    /// Logical sector of data slot k in row (s, o).
    pub fn logical(&self, s: u64, o: u64, k: u64) -> u64 {
        (s * self.dd() + k) * self.chunk + o
    }
    pub fn slots(&self, s: u64) -> Vec<Slot> {
        (0..self.n).map(|i| slot(self.level, self.layout, self.n, s, i)).collect()
    }
}

/// Content of the array's logical sectors.
pub enum Content {
    Random(u64),
    /// Sectors of zeros, ones, one repeated byte or one lone byte among random ones.
    Patterned(u64),
    Image(Rc<Storage>),
    Shared(Rc<Content>),
}

impl Content {
    pub fn sector(&self, l: u64) -> [u8; 512] {
        match self {
            Content::Random(seed) => blob(hash64(&[*seed, l]), 512).try_into().unwrap(),
            Content::Patterned(seed) => {
                let h = hash64(&[*seed, l]);
                match h % 6 {
                    0 | 1 => [0; 512],
                    2 => [0xff; 512],
                    3 => [(h >> 8) as u8; 512],
                    4 => {
                        let mut b = [0; 512];
                        b[(h >> 8) as usize % 512] = (h >> 20) as u8;
                        b
                    }
                    _ => blob(h, 512).try_into().unwrap(),
                }
            }
            Content::Shared(c) => c.sector(l),
            Content::Image(s) => {
                let mut b = [0u8; 512];
                s.read(l * 512, &mut b);
                b
            }
        }
    }
}

/// One member under construction.
pub struct Member {
    pub store: Storage,
    pub sb: Sb,
    pub ver: Ver,
    pub data_offset: u64,
    pub block_size: u32,
}

pub struct Array {
    pub geo: Geo,
    pub content: Content,
    pub members: Vec<Member>,
}

pub fn random_uuid(g: &mut G) -> [u8; 16] {
    g.bytes(16).try_into().unwrap()
}

impl Array {
    /// Writes row (s, o) to every member.
    pub fn fill_row(&mut self, s: u64, o: u64) {
        let geo = self.geo;
        let data: Vec<[u8; 512]> = (0..geo.dd()).map(|k| self.content.sector(geo.logical(s, o, k))).collect();
        let (p, q) = parity(&data);
        for (i, sl) in geo.slots(s).into_iter().enumerate() {
            let m = &mut self.members[i];
            let pos = (m.data_offset + geo.member_sector(s, o)) * 512;
            let d = match sl {
                Slot::D(k) => &data[k as usize],
                Slot::P => &p,
                Slot::Q => &q,
            };
            m.store.write(pos, d);
        }
    }
    pub fn fill_all(&mut self) {
        for s in 0..self.geo.per_dev / self.geo.chunk {
            for o in 0..self.geo.chunk {
                self.fill_row(s, o);
            }
        }
    }
    /// Gives every member its data without writing it: sectors are computed when they are read.
    pub fn fill_lazily(&mut self) {
        let geo = self.geo;
        let content = Rc::new(std::mem::replace(&mut self.content, Content::Random(0)));
        for (i, m) in self.members.iter_mut().enumerate() {
            let (c, off) = (content.clone(), m.data_offset);
            m.store.lazy = Some(Rc::new(move |page, out| {
                if page < off || page - off >= geo.per_dev {
                    return false;
                }
                let (s, o) = ((page - off) / geo.chunk, (page - off) % geo.chunk);
                *out = match slot(geo.level, geo.layout, geo.n, s, i as u64) {
                    Slot::D(k) => c.sector(geo.logical(s, o, k)),
                    x => {
                        let data: Vec<_> = (0..geo.dd()).map(|k| c.sector(geo.logical(s, o, k))).collect();
                        let (p, q) = parity(&data);
                        if x == Slot::P {
                            p
                        } else {
                            q
                        }
                    }
                };
                true
            }));
        }
        self.content = Content::Shared(content);
    }
    pub fn write_superblocks(&mut self) {
        for m in &mut self.members {
            m.sb.write(m.ver, &mut m.store);
        }
    }
}

/// Geometry knobs of a generated array.
pub struct Knobs {
    pub level: u32,
    pub layout: Option<u32>,
    pub max_n: u64,
    /// At most this many chunks per member (None: up to what a large disk holds).
    pub max_chunks: Option<u64>,
    pub max_chunk: u64,
    /// Chunk sizes that are no powers of two as well.
    pub any_chunk: bool,
    pub reshape_done: bool,
    /// The array holds at least this many sectors (unless the format cannot).
    pub min_sectors: u64,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs { level: 6, layout: None, max_n: 9, max_chunks: Some(24), max_chunk: 64, any_chunk: false, reshape_done: false, min_sectors: 0 }
    }
}

pub fn gen_ver(g: &mut G) -> Ver {
    g.pick(&VERS)
}

/// A healthy array with superblocks but no data written yet.
pub fn gen_array(g: &mut G, k: &Knobs) -> Array {
    let layouts: &[u32] = if k.level == 6 { &RAID6_LAYOUTS } else { &RAID5_LAYOUTS };
    let layout = match k.layout {
        Some(l) => l,
        None => g.pick(layouts),
    };
    let ver = gen_ver(g);
    let min_n = if k.level == 6 { 4 } else { 2 };
    let cap = if ver.is_v1() { k.max_n } else { k.max_n.min(26) };
    let n = if g.chance(1, 8) { g.range(min_n, cap) } else { g.range(min_n, cap.min(9)) };
    let maxlog = 63 - k.max_chunk.leading_zeros() as u64;
    let chunk = 1u64 << if g.chance(1, 2) { g.range(0, maxlog.min(4)) } else { g.range(0, maxlog) };
    let chunk = if k.any_chunk && g.chance(1, 6) {
        g.class("chunk size that is no power of two");
        chunk + g.draw(chunk)
    } else {
        chunk
    };
    // sizes of version 0.90 are whole KiB
    let chunk = if ver.is_v1() { chunk } else { chunk.next_multiple_of(2) };
    let max_sectors = if ver.is_v1() { 1u64 << 40 } else { 1u64 << 32 };
    let chunks = match k.max_chunks {
        Some(m) => g.range(1, m),
        None => {
            let m = max_sectors / chunk;
            match g.draw(3) {
                0 => g.range(1, 40),
                1 => g.range(1, m.min(1 << 16)),
                2 => m - g.draw(5),
                _ => g.range(1, m),
            }
        }
    };
    let dd = n - if k.level == 6 { 2 } else { 1 };
    let chunks = if k.min_sectors == 0 { chunks } else { k.min_sectors.div_ceil(dd * chunk) + chunks - 1 };
    let per_dev = (chunks * chunk).min(if ver.is_v1() { u64::MAX } else { ((1u64 << 32) - 64) * 2 });
    let per_dev = per_dev / chunk * chunk;
    let geo = Geo { level: k.level, layout, n, chunk, per_dev };
    // members may be larger than their whole chunks
    let tail = if chunk > 1 && g.chance(1, 3) {
        let t = 1 + g.draw(chunk - 2);
        g.class("partial chunk at the end of each member");
        if ver.is_v1() { t } else { (t & !1).min(((1u64 << 32) - 64) * 2 - per_dev) }
    } else {
        0
    };
    let n_roles = n as usize + if g.chance(1, 3) { g.us(0, if ver.is_v1() { 5 } else { 1 }) } else { 0 };
    // numbering of members in the role table need not follow their slots
    let mut index: Vec<usize> = (0..n_roles).collect();
    if ver.is_v1() && g.chance(1, 2) {
        g.shuffle(&mut index);
    }
    let mut roles = vec![0u32; n_roles];
    for (i, at) in index.iter().enumerate() {
        roles[*at] = if (i as u64) < n {
            i as u32
        } else if ver.is_v1() {
            g.pick(&[SPARE, SPARE, FAULTY, JOURNAL])
        } else {
            i as u32
        };
    }
    let reshape = if k.reshape_done && g.chance(1, 5) {
        g.class("reshape finished, flag still set");
        Some(Reshape { level: k.level, pos: geo.sectors(), delta: 0, layout, chunk: chunk as u32, offset: 0 })
    } else {
        None
    };
    let old_layout = if reshape.is_some() { g.pick(layouts) } else { layout };
    let sb = Sb {
        uuid: random_uuid(g),
        name: g.bytes(32).try_into().unwrap(),
        level: k.level,
        layout: old_layout,
        per_dev: per_dev + tail,
        chunk: chunk as u32,
        raid_disks: n as u32,
        features: if ver.is_v1() { g.u32b() & 0x1f9b & !0x10 } else { 0 },
        reshape,
        data_offset: 0,
        role_index: 0,
        events: g.draw(u64::MAX),
        roles,
        junk: g.draw(u32::MAX as u64),
        magic: MAGIC,
        major: if ver.is_v1() { 1 } else { 0 },
        minor0: if reshape.is_some() { 91 } else { 90 },
    };
    let same_offset = g.chance(1, 2);
    let base_off = gen_offset(g, ver);
    let same_size = g.chance(1, 2);
    let base_slack = g.sized(300);
    let seed = g.draw(u32::MAX as u64);
    let bs0 = g.pick(&[512u32, 4096, 512, 4096, 1024, 2048, 8192]);
    let members = (0..n)
        .map(|i| {
            let off = if same_offset { base_off } else { gen_offset(g, ver) };
            let slack = if same_size { base_slack } else { g.sized(300) };
            let bs = if same_size { bs0 } else { g.pick(&[512u32, 4096, 1024]) };
            let size = device_size(ver, off, per_dev + tail, slack, bs as u64);
            let mut sb = sb.member(index[i as usize] as u32);
            sb.data_offset = off;
            sb.junk ^= i;
            Member { store: Storage::new(size, hash64(&[seed, i])), sb, ver, data_offset: off, block_size: bs }
        })
        .collect();
    Array { geo, content: Content::Random(seed ^ 0x5eed), members }
}

fn gen_offset(g: &mut G, ver: Ver) -> u64 {
    let least = match ver {
        Ver::V12 => 16,
        Ver::V11 => 8,
        Ver::V10 if g.chance(1, 8) => 0,
        _ => return 0,
    };
    if g.chance(1, 6) {
        // about the values where arithmetic on sectors or bytes outgrows 32 bits
        let at = g.pick(&[1u64 << 32, 1 << 31, 1 << 23, 1 << 22, 1 << 40]);
        g.class("data offset about a power of two from 2^22 up");
        return at + g.draw(9) - 4;
    }
    least + g.sized(1 << 18)
}

/// Bytes of a device that holds `per_dev` sectors at `off` and a superblock of this version, rounded to whole blocks.
pub fn device_size(ver: Ver, off: u64, per_dev: u64, slack: u64, bs: u64) -> u64 {
    let data_end = (off + per_dev) * 512;
    let size = match ver {
        Ver::V12 | Ver::V11 => data_end + slack * 512,
        // the superblock must lie behind the data
        Ver::V10 => data_end.div_ceil(4096) * 4096 + 8192 + slack * 512,
        _ => data_end.div_ceil(65536) * 65536 + 65536 + slack * 512,
    };
    let size = size.max(12288);
    size.div_ceil(bs) * bs
}

pub type DevMember = (Rc<Storage>, Rc<Ctl>, u32);

pub fn open_member(d: &DevMember) -> io::Result<MdDevice<Dev>> {
    MdDevice::from_block_device(Dev::with_ctl(d.0.clone(), d.2, d.1.clone()), None::<&OsStr>)
}

impl Array {
    pub fn finish(self) -> Built {
        let mut a = self;
        a.write_superblocks();
        let devs = a
            .members
            .iter_mut()
            .map(|m| {
                let s = std::mem::replace(&mut m.store, Storage::zeroed(0));
                (Rc::new(s), Rc::new(Ctl::default()), m.block_size)
            })
            .collect();
        Built { geo: a.geo, content: a.content, devs, sbs: a.members.iter().map(|m| (m.sb.clone(), m.ver)).collect() }
    }
}

pub struct Built {
    pub geo: Geo,
    pub content: Content,
    pub devs: Vec<DevMember>,
    pub sbs: Vec<(Sb, Ver)>,
}

impl Built {
    pub fn open(&self, order: &[usize]) -> io::Result<MdArray<Dev>> {
        let mut v = vec![];
        for i in order {
            v.push(open_member(&self.devs[*i])?);
        }
        Ok(MdArray::open(v))
    }
    pub fn order(&self, g: &mut G) -> Vec<usize> {
        let mut o: Vec<usize> = (0..self.devs.len()).collect();
        g.shuffle(&mut o);
        o
    }
    pub fn describe(&self) -> String {
        format!(
            "{:?} {:?} offsets {:?} sizes {:?} block sizes {:?} roles {:?}",
            self.geo,
            self.sbs[0].1,
            self.sbs.iter().map(|s| s.0.data_offset).collect::<Vec<_>>(),
            self.devs.iter().map(|d| d.0.len).collect::<Vec<_>>(),
            self.devs.iter().map(|d| d.2).collect::<Vec<_>>(),
            self.sbs[0].0.roles
        )
    }
}

//! Sets of devices as a user might supply them: members of an array together with duplicates, strangers, blank and tiny
//! devices and members whose superblocks disagree; and what should be concluded from them.
use crate::block_device::{BlockDevice, BlockNumber};
use crate::dev::{Ctl, Dev, Storage};
use crate::engine::{hash64, G};
use crate::md::{MdArray, MdDevice};
use crate::mdimg::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::rc::Rc;

pub struct SDev {
    pub name: String,
    pub sb: Option<(Sb, Ver)>,
    pub store: Storage,
    pub block_size: u32,
    pub data_offset: u64,
}

pub struct Set {
    pub geo: Geo,
    pub content: Content,
    pub devs: Vec<SDev>,
    /// Rows that hold consistent data.
    pub rows: Vec<(u64, u64)>,
    pub log: Vec<String>,
}

/// What a superblock says, in the terms of the diagnosis.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Seen {
    pub uuid: Vec<u8>,
    pub name: Option<Vec<u8>>,
    pub alg: (u32, u32),
    pub size: u64,
    pub chunk: u32,
    pub count: u32,
    pub reshape: Option<(u32, u32, u64, u32, u32, u32)>,
    pub events: u64,
    pub index: u32,
    pub roles: Vec<u32>,
}

pub fn seen(sb: &Sb, ver: Ver) -> Seen {
    let v1 = ver.is_v1();
    Seen {
        uuid: if v1 || sb.minor0 >= 90 { sb.uuid.to_vec() } else { sb.uuid[..4].to_vec() },
        name: v1.then(|| sb.name.to_vec()),
        alg: (sb.level, sb.layout),
        size: if v1 { sb.per_dev } else { sb.per_dev / 2 * 2 },
        chunk: sb.chunk,
        count: sb.raid_disks,
        reshape: sb
            .reshape
            .as_ref()
            .map(|r| (r.level, r.layout, r.pos, r.delta, r.chunk, if v1 { r.offset } else { 0 })),
        events: sb.events,
        index: sb.role_index,
        roles: sb.roles.iter().map(|r| if v1 { r & 0xffff } else { *r }).collect(),
    }
}

pub fn groups<K: Ord>(it: impl Iterator<Item = (String, K)>) -> BTreeSet<Vec<String>> {
    let mut m: BTreeMap<K, Vec<String>> = BTreeMap::new();
    for (n, k) in it {
        m.entry(k).or_default().push(n);
    }
    m.into_values()
        .map(|mut v| {
            v.sort();
            v
        })
        .collect()
}

impl SDev {
    pub fn too_small(&self) -> bool {
        self.store.len / self.block_size as u64 * (self.block_size as u64) < 12288
    }
    pub fn seen(&self) -> Option<Seen> {
        self.sb.as_ref().filter(|_| !self.too_small()).map(|(s, v)| seen(s, *v))
    }
}

fn tweak_role(g: &mut G, sb: &mut Sb, ver: Ver) -> String {
    if sb.roles.is_empty() {
        return "no roles".into();
    }
    let at = g.us(0, sb.roles.len() - 1);
    let n = sb.raid_disks as u64;
    sb.roles[at] = match g.draw(6) {
        0 | 1 if ver.is_v1() => FAULTY,
        2 if ver.is_v1() => SPARE,
        3 if ver.is_v1() => JOURNAL,
        4 if ver.is_v1() => 0xfefe + g.draw(0xfffd - 0xfefe) as u32,
        _ => g.draw(n + 1) as u32,
    };
    format!("role {at} := {:#x}", sb.roles[at])
}

pub fn tweak_sb(g: &mut G, sb: &mut Sb, ver: Ver) -> String {
    match g.draw(12) {
        0 => {
            let i = g.us(0, 15);
            sb.uuid[i] ^= 1 << g.draw(7);
            "uuid".into()
        }
        1 => {
            let i = g.us(0, 31);
            sb.name[i] ^= 1 << g.draw(7);
            "name".into()
        }
        2 => {
            sb.level = g.pick(&[6, 5, 4, 1, 0, u32::MAX]);
            format!("level {}", sb.level)
        }
        3 => {
            sb.layout = g.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 16, 20, 21]);
            format!("layout {}", sb.layout)
        }
        4 => {
            sb.per_dev = (sb.per_dev + 2).saturating_sub(4 * g.draw(1));
            format!("size {}", sb.per_dev)
        }
        5 => {
            sb.chunk = (sb.chunk * 2).max(1) >> (2 * g.draw(1));
            format!("chunk {}", sb.chunk)
        }
        6 => {
            sb.raid_disks = (sb.raid_disks + 1).saturating_sub(2 * g.draw(1) as u32);
            format!("count {}", sb.raid_disks)
        }
        7 | 8 => {
            sb.events = sb.events.wrapping_add(if g.chance(1, 2) { 1 } else { 1 << g.draw(63) });
            format!("events {}", sb.events)
        }
        9 => {
            let tall = [u32::MAX, u32::MAX - 1, 0x8000_0000, 0x1_0000, 0xffff, 0x100 ^ sb.role_index, 0x1_0000 ^ sb.role_index];
            sb.role_index =
                if g.chance(1, 2) { g.draw(sb.roles.len() as u64 + 1) as u32 } else { g.pick(&tall) };
            format!("index {}", sb.role_index)
        }
        10 => {
            if ver.is_v1() {
                sb.roles.truncate(g.us(0, sb.roles.len()));
                "roles truncated".into()
            } else {
                tweak_role(g, sb, ver)
            }
        }
        _ => tweak_role(g, sb, ver),
    }
}

pub struct SetKnobs {
    pub max_mutations: u64,
    pub reshape: bool,
    pub rows: u64,
}

pub fn gen_set(g: &mut G, k: &SetKnobs) -> Set {
    let mut a = gen_array(g, &Knobs { max_n: 7, max_chunks: Some(8), max_chunk: 16, ..Default::default() });
    let geo = a.geo;
    let total_rows = geo.per_dev;
    let mut rows = BTreeSet::new();
    for _ in 0..k.rows {
        let r = g.draw(total_rows - 1);
        rows.insert((r / geo.chunk, r % geo.chunk));
    }
    for (s, o) in &rows {
        a.fill_row(*s, *o);
    }
    let content = a.content;
    let mut devs: Vec<SDev> = a
        .members
        .into_iter()
        .map(|m| SDev {
            name: String::new(),
            sb: Some((m.sb, m.ver)),
            store: m.store,
            block_size: m.block_size,
            data_offset: m.data_offset,
        })
        .collect();
    let mut log = vec![];
    let muts = g.draw(k.max_mutations);
    if muts > 0 && g.chance(1, 20) {
        // two or three devices share an index nobody uses
        let index = g.pick(&[u32::MAX, u32::MAX - 1, 0x8000_0000, 0xffff, 0xfffe, 300]);
        for _ in 0..2 + g.draw(1) {
            let i = g.us(0, devs.len() - 1);
            if let Some((sb, _)) = &mut devs[i].sb {
                sb.role_index = index;
            }
        }
        log.push(format!("shared index {index:#x}"));
    }
    if muts > 0 && g.chance(1, 150) {
        // a crowd of devices that hold nothing, or all hold the same slot
        let n = g.range(20, 150);
        let like = if g.chance(1, 2) { Some(g.us(0, devs.len() - 1)) } else { None };
        for _ in 0..n {
            devs.push(match like {
                Some(i) => SDev {
                    name: String::new(),
                    sb: devs[i].sb.clone(),
                    store: devs[i].store.clone(),
                    block_size: devs[i].block_size,
                    data_offset: devs[i].data_offset,
                },
                None => SDev {
                    name: String::new(),
                    sb: None,
                    store: Storage::new(g.pick(&[512, 11776, 12288, 20480]), g.draw(1 << 30)),
                    block_size: 512,
                    data_offset: 0,
                },
            });
        }
        log.push(format!("crowd of {n}"));
    }
    for _ in 0..muts {
        let pickd = |g: &mut G, devs: &Vec<SDev>| g.us(0, devs.len() - 1);
        match g.draw(12) {
            0 if devs.len() > 1 => {
                let i = pickd(g, &devs);
                devs.remove(i);
                log.push(format!("drop {i}"));
            }
            1 | 2 => {
                let i = pickd(g, &devs);
                let stale = g.chance(1, 2);
                let mut d = SDev {
                    name: String::new(),
                    sb: devs[i].sb.clone(),
                    store: devs[i].store.clone(),
                    block_size: devs[i].block_size,
                    data_offset: devs[i].data_offset,
                };
                if stale {
                    if let Some((sb, _)) = &mut d.sb {
                        sb.events = sb.events.wrapping_sub(1);
                    }
                }
                devs.push(d);
                log.push(format!("duplicate {i}{}", if stale { " (stale)" } else { "" }));
            }
            3 => {
                let mut b = gen_array(g, &Knobs { max_n: 6, max_chunks: Some(6), max_chunk: 8, ..Default::default() });
                let m = b.members.swap_remove(0);
                devs.push(SDev {
                    name: String::new(),
                    sb: Some((m.sb, m.ver)),
                    store: m.store,
                    block_size: m.block_size,
                    data_offset: m.data_offset,
                });
                log.push("stranger".into());
            }
            4 => {
                let len = 12288 + g.draw(200) * 512;
                devs.push(SDev {
                    name: String::new(),
                    sb: None,
                    store: Storage::new(len, g.draw(1 << 30)),
                    block_size: 512,
                    data_offset: 0,
                });
                log.push("blank".into());
            }
            5 => {
                let len = g.draw(23) * 512;
                devs.push(SDev {
                    name: String::new(),
                    sb: None,
                    store: Storage::new(len, g.draw(1 << 30)),
                    block_size: 512,
                    data_offset: 0,
                });
                log.push("tiny".into());
            }
            6 => {
                // the same change on every superblock
                let idx: Vec<usize> = (0..devs.len()).filter(|i| devs[*i].sb.is_some()).collect();
                if let Some(first) = idx.first().copied() {
                    let (sb, ver) = devs[first].sb.clone().unwrap();
                    if !sb.roles.is_empty() {
                        let mut sb2 = sb.clone();
                        let what = tweak_role(g, &mut sb2, ver);
                        for i in idx {
                            if let Some((s, _)) = &mut devs[i].sb {
                                if s.roles.len() == sb2.roles.len() {
                                    s.roles = sb2.roles.clone();
                                }
                            }
                        }
                        log.push(format!("all: {what}"));
                    }
                }
            }
            7 if k.reshape => {
                let all = g.chance(1, 2);
                let one = pickd(g, &devs);
                let r = Reshape {
                    level: g.pick(&[6, 6, 5]),
                    pos: g.draw(geo.sectors()),
                    delta: g.pick(&[0, 0, 1, u32::MAX]),
                    layout: g.pick(&RAID6_LAYOUTS),
                    chunk: geo.chunk as u32 * g.pick(&[1, 1, 2]),
                    offset: 0,
                };
                for (i, d) in devs.iter_mut().enumerate() {
                    if let Some((s, _)) = &mut d.sb {
                        if all || i == one {
                            s.reshape = Some(r);
                            s.minor0 = 91;
                        }
                    }
                }
                log.push(format!("reshape {}", if all { "all".into() } else { format!("{one}") }));
            }
            8 => {
                let i = pickd(g, &devs);
                let vers: &[Ver] = match &devs[i].sb {
                    Some((_, v)) if v.is_v1() => &[Ver::V12, Ver::V11, Ver::V10],
                    _ => &[Ver::V0Le, Ver::V0Be],
                };
                let v = g.pick(vers);
                if let Some((_, ver)) = &mut devs[i].sb {
                    *ver = v;
                    log.push(format!("{i} becomes {v:?}"));
                }
            }
            9 => {
                // an extra device under a new index, described by every table
                let idx = devs.iter().find_map(|d| d.sb.clone());
                if let Some((sb, ver)) = idx {
                    let at = sb.roles.len();
                    if at < 26 {
                        let role = if ver.is_v1() {
                            g.pick(&[SPARE, FAULTY, JOURNAL, 0xff00, 0])
                        } else {
                            g.draw(geo.n) as u32
                        };
                        for d in devs.iter_mut() {
                            if let Some((s, _)) = &mut d.sb {
                                if s.roles.len() == at {
                                    s.roles.push(role);
                                }
                            }
                        }
                        let from = pickd(g, &devs);
                        let mut nsb = sb.clone();
                        nsb.roles.push(role);
                        nsb.role_index = at as u32;
                        nsb.data_offset = devs[from].data_offset;
                        devs.push(SDev {
                            name: String::new(),
                            sb: Some((nsb, ver)),
                            store: devs[from].store.clone(),
                            block_size: devs[from].block_size,
                            data_offset: devs[from].data_offset,
                        });
                        log.push(format!("extra device, role {role:#x}, data of {from}"));
                    }
                }
            }
            _ => {
                let i = pickd(g, &devs);
                if let Some((sb, ver)) = &mut devs[i].sb {
                    let v = *ver;
                    let what = tweak_sb(g, sb, v);
                    log.push(format!("{i}: {what}"));
                }
            }
        }
    }
    for (i, d) in devs.iter_mut().enumerate() {
        d.name = format!("dev{i}");
        if let Some((sb, ver)) = &mut d.sb {
            if let Some(at) = ver.location(d.store.len).filter(|at| at + 4096 <= d.store.len) {
                if !ver.is_v1() {
                    sb.roles.truncate(27);
                }
                // clear other places a superblock might be left over at
                for v in VERS {
                    if let Some(l) = v.location(d.store.len).filter(|l| l + 4096 <= d.store.len) {
                        if l < d.data_offset * 512 || l >= (d.data_offset + geo.per_dev) * 512 {
                            d.store.write(l, &[0; 8]);
                        }
                    }
                }
                d.store.write(at, &sb.encode(*ver));
                if !ver.is_v1() && sb.roles.iter().any(|r| (0xff00..0xfffd).contains(r)) {
                    // refused, as if there were none
                    d.sb = None;
                }
            } else {
                d.sb = None;
            }
        }
    }
    Set { geo, content, devs, rows: rows.into_iter().collect(), log }
}

pub type Opened = (MdArray<Dev>, BTreeMap<String, Rc<MdDevice<Dev>>>);

impl Set {
    /// Opens the devices under references that need not tell them apart.
    pub fn open_as(&self, order: &[usize], refs: &[Option<OsString>]) -> Result<MdArray<Dev>, String> {
        let mut v = vec![];
        for i in order {
            let d = &self.devs[*i];
            let dev = Dev::new(Rc::new(d.store.clone()), d.block_size);
            let m = MdDevice::from_block_device(dev, refs[*i].as_ref()).map_err(|e| format!("opening {} failed: {e}", d.name))?;
            v.push(Rc::new(m));
        }
        Ok(MdArray::open(v))
    }
    pub fn open(&self, order: &[usize]) -> Result<Opened, String> {
        let mut v = vec![];
        let mut by_name = BTreeMap::new();
        for i in order {
            let d = &self.devs[*i];
            let dev = Dev::new(Rc::new(d.store.clone()), d.block_size);
            let m = Rc::new(
                MdDevice::from_block_device(dev, Some(&d.name))
                    .map_err(|e| format!("opening {} failed: {e}", d.name))?,
            );
            by_name.insert(d.name.clone(), m.clone());
            v.push(m);
        }
        Ok((MdArray::open(v), by_name))
    }
    pub fn describe(&self) -> String {
        format!(
            "{:?}; {} devices; {}; superblocks {:?}",
            self.geo,
            self.devs.len(),
            self.log.join(", "),
            self.devs
                .iter()
                .map(|d| d.sb.as_ref().map(|(s, v)| format!("{v:?} idx {} roles {:x?}", s.role_index, s.roles)))
                .collect::<Vec<_>>()
        )
    }
    /// Which devices the diagnosis names for each problem, given the devices supplied (name, index; a device may be
    /// supplied twice).
    pub fn expected(&self, supplied: &[(String, usize)]) -> BTreeMap<&'static str, Option<BTreeSet<Vec<String>>>> {
        let mut m = BTreeMap::new();
        let list = |f: &dyn Fn(&SDev) -> bool| {
            let mut v: Vec<String> = supplied.iter().filter(|(_, i)| f(&self.devs[*i])).map(|(n, _)| n.clone()).collect();
            v.sort();
            if v.is_empty() {
                None
            } else {
                Some(BTreeSet::from([v]))
            }
        };
        m.insert("device_too_small_problem", list(&|d| d.too_small()));
        m.insert("missing_superblock_problem", list(&|d| !d.too_small() && d.sb.is_none()));
        let seen: Vec<(String, Seen)> =
            supplied.iter().filter_map(|(n, i)| self.devs[*i].seen().map(|s| (n.clone(), s))).collect();
        let it = || seen.iter().cloned();
        let mut put = |key: &'static str, grp: BTreeSet<Vec<String>>, min: usize| {
            m.insert(key, if grp.len() > min { Some(grp) } else { None });
        };
        put("array_uuid_problem", groups(it().map(|(n, s)| (n, s.uuid))), 1);
        put("array_name_problem", groups(it().filter_map(|(n, s)| s.name.map(|x| (n, x)))), 1);
        put("algorithm_problem", groups(it().map(|(n, s)| (n, s.alg))), 1);
        put("size_problem", groups(it().map(|(n, s)| (n, s.size))), 1);
        put("chunk_size_problem", groups(it().map(|(n, s)| (n, s.chunk))), 1);
        put("device_count_problem", groups(it().map(|(n, s)| (n, s.count))), 1);
        put("reshape_problem", groups(it().map(|(n, s)| (n, s.reshape))), 1);
        put("event_count_problem", groups(it().map(|(n, s)| (n, s.events))), 1);
        put("device_roles_problem", groups(it().map(|(n, s)| (n, s.roles))), 1);
        // a role index is a problem only where it is shared
        let shared = groups(it().map(|(n, s)| (n, s.index))).into_iter().filter(|v| v.len() > 1).collect();
        put("device_role_index_problem", shared, 0);
        m
    }
    /// The slot each device fills, by the rules of the role table: weak markings (spare, faulty, unassigned) give way to
    /// whatever another member says; two different strong ones void the table.
    pub fn fill(&self) -> Vec<Option<u32>> {
        let none = vec![None; self.devs.len()];
        let mut merged: Vec<Option<u32>> = vec![];
        let weak = |r: u32| r == SPARE || r == FAULTY || (r > 0xfeff && r < JOURNAL);
        for d in &self.devs {
            let Some(s) = d.seen() else { return none };
            for (i, r) in s.roles.iter().enumerate() {
                if merged.len() <= i {
                    merged.resize(i + 1, None);
                }
                if weak(*r) {
                    continue;
                }
                match merged[i] {
                    None => merged[i] = Some(*r),
                    Some(m) if m == *r => {}
                    _ => return none,
                }
            }
        }
        let claim: Vec<Option<u32>> = self
            .devs
            .iter()
            .map(|d| {
                let s = d.seen().unwrap();
                merged.get(s.index as usize).copied().flatten().filter(|r| *r <= 0xfeff)
            })
            .collect();
        claim.iter().map(|c| c.filter(|c| claim.iter().filter(|x| **x == Some(*c)).count() == 1)).collect()
    }
}

/// The diagnosis in a form that does not depend on the identity or order of devices.
pub type Norm = BTreeMap<&'static str, Option<BTreeSet<(String, Vec<String>)>>>;

#[macro_export]
macro_rules! norm_diagnosis {
    ($d:expr) => {{
        use std::collections::{BTreeMap, BTreeSet};
        let d = $d;
        let mut m: $crate::props::mdset::Norm = BTreeMap::new();
        macro_rules! set {
            ($f:ident) => {
                m.insert(
                    stringify!($f),
                    d.$f.as_ref().map(|s| {
                        let mut v: Vec<String> = s.iter().map(|i| i.to_string()).collect();
                        v.sort();
                        BTreeSet::from([(String::new(), v)])
                    }),
                );
            };
        }
        macro_rules! map {
            ($f:ident) => {
                m.insert(
                    stringify!($f),
                    d.$f.as_ref().map(|s| {
                        s.iter()
                            .map(|(k, v)| {
                                let mut v: Vec<String> = v.iter().map(|i| i.to_string()).collect();
                                v.sort();
                                (format!("{k:?}"), v)
                            })
                            .collect::<BTreeSet<_>>()
                    }),
                );
            };
        }
        set!(device_too_small_problem);
        set!(missing_superblock_problem);
        map!(array_uuid_problem);
        map!(array_name_problem);
        map!(algorithm_problem);
        map!(size_problem);
        map!(chunk_size_problem);
        map!(device_count_problem);
        map!(reshape_problem);
        map!(event_count_problem);
        map!(device_role_index_problem);
        map!(device_roles_problem);
        m
    }};
}

pub fn read(a: &mut MdArray<Dev>, l: u64) -> Result<[u8; 512], ()> {
    let mut buf = [0u8; 512];
    match a.read_block(BlockNumber(l), &mut buf) {
        Ok(512) => Ok(buf),
        _ => Err(()),
    }
}

use crate::engine::*;
use crate::ext4::verif::{Inode, InodeNumber, Superblock};
use crate::ext4img::*;
use chrono::{DateTime, Datelike, Timelike, Utc};
use std::time::{Duration, SystemTime};

pub static PROP: Prop = Prop {
    id: "C26",
    quick: 24_000_000,
    thorough: 200_000_000,
    rule: "at least one inode time outside 1970..2038 or with nanoseconds, or a superblock time past 2^32, was compared with an independent calendar; distinct by the full choice sequence",
    assumptions: &[
        "the reference is integer arithmetic over seconds and a civil-calendar conversion written for this check",
        "nanoseconds of 10^9 and more, which ext4 never stores, carry into the seconds",
    ],
    run,
    pinned: &[("every-epoch-and-boundary", boundaries)],
};

/// (year, month, day) of a day number from 1970-01-01.
fn civil(day: i64) -> (i64, u32, u32) {
    let mut y = 1970;
    let mut d = day;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = |y: i64| if leap(y) { 366 } else { 365 };
    // whole cycles of 400 years first
    let cycles = d.div_euclid(146097);
    d -= cycles * 146097;
    y += cycles * 400;
    while d >= len(y) {
        d -= len(y);
        y += 1;
    }
    let months = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= months[m] {
        d -= months[m];
        m += 1;
    }
    (y, m as u32 + 1, d as u32 + 1)
}

fn same(t: DateTime<Utc>, base: u32, extra: Option<u32>, signed: bool, what: &str) -> R {
    let mut s = if signed { base as i32 as i64 } else { base as i64 };
    let mut n = 0;
    if let Some(e) = extra {
        s += ((e & 3) as i64) * 4_294_967_296;
        n = (e >> 2) as i64;
    }
    s += n / 1_000_000_000;
    n %= 1_000_000_000;
    ensure_eq!((t.timestamp(), t.timestamp_subsec_nanos() as i64), (s, n), "{what} from {base:#x} and {extra:x?}");
    let (y, m, d) = civil(s.div_euclid(86400));
    let in_day = s.rem_euclid(86400);
    ensure_eq!((t.year() as i64, t.month(), t.day()), (y, m, d), "date of {what} from {base:#x} and {extra:x?}");
    ensure_eq!(t.num_seconds_from_midnight() as i64, in_day, "time of day of {what} from {base:#x} and {extra:x?}");
    ensure!((1901..=2446).contains(&y), "{what} is in {y}");
    Ok(())
}

/// access, change, modification, creation: offsets of the seconds and of the extra word.
const TIMES: [(usize, usize); 4] = [(8, 140), (12, 132), (16, 136), (144, 148)];

fn inode(size: usize, extra_size: u16, v: &[(u32, u32); 4], delete: u32) -> R {
    let mut raw = vec![0u8; size];
    for ((a, b), (s, e)) in TIMES.iter().zip(v) {
        for (at, val) in [(*a, *s), (*b, *e)] {
            if at + 4 <= size {
                put32(&mut raw, at, val);
            }
        }
    }
    put32(&mut raw, 20, delete);
    if size >= 132 {
        put16(&mut raw, 128, extra_size);
    }
    let sb = Superblock::new(vec![0u8; 1024]);
    let i = Inode::new(&sb, InodeNumber(12), &raw);
    let end = if size >= 132 { (128 + extra_size as usize).min(size) } else { 128 };
    let has = |at: usize| at + 4 <= end;
    let got = [i.access_time(), i.change_time(), i.modified_time(), i.creation_time()];
    let names = ["access time", "change time", "modification time", "creation time"];
    for k in 0..4 {
        let (a, b) = TIMES[k];
        let base = if has(a) { v[k].0 } else { 0 };
        let extra = if has(b) { v[k].1 } else { 0 };
        same(got[k], base, Some(extra), true, names[k])?;
    }
    same(i.delete_time(), delete, None, false, "deletion time")
}

/// Offsets of the low word and the high byte; whether zero means "never".
const SB: [(usize, usize, bool, &str); 6] = [
    (0x2c, 0x275, true, "mount time"),
    (0x30, 0x274, false, "write time"),
    (0x40, 0x277, false, "last check time"),
    (0x108, 0x276, true, "creation time"),
    (0x198, 0x278, true, "first error time"),
    (0x1cc, 0x279, true, "last error time"),
];

fn superblock(noise: Vec<u8>, v: &[u64; 6]) -> R {
    let mut raw = noise;
    for ((lo, hi, ..), t) in SB.iter().zip(v) {
        put32(&mut raw, *lo, *t as u32);
        raw[*hi] = (*t >> 32) as u8;
    }
    let s = Superblock::new(raw);
    let got = [
        s.mount_time(),
        Some(s.write_time()),
        Some(s.last_check_time()),
        s.creation_time(),
        s.first_error_time(),
        s.last_error_time(),
    ];
    for k in 0..6 {
        let want = SystemTime::UNIX_EPOCH + Duration::from_secs(v[k]);
        let want = if SB[k].2 && v[k] == 0 { None } else { Some(want) };
        ensure!(got[k] == want, "{} of {:#x} decoded as {:?}", SB[k].3, v[k], got[k]);
        if let Some(t) = got[k] {
            let d = t.duration_since(SystemTime::UNIX_EPOCH).map_err(|_| Fail(format!("{} is before 1970", SB[k].3)))?;
            ensure_eq!((d.as_secs(), d.subsec_nanos()), (v[k], 0), "{}", SB[k].3);
        }
    }
    Ok(())
}

fn secs(g: &mut G) -> u32 {
    match g.draw(4) {
        0 => g.u32b(),
        1 => g.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe]),
        2 => (g.draw(60) as u32).wrapping_sub(30).wrapping_add(g.pick(&[0, 0x8000_0000])),
        // near the start of a day
        3 => ((g.draw(49710) as u32).wrapping_mul(86400)).wrapping_add(g.draw(2) as u32).wrapping_sub(1),
        _ => g.draw(u32::MAX as u64) as u32,
    }
}

fn extra(g: &mut G) -> u32 {
    let epoch = g.draw(3) as u32;
    let n = match g.draw(4) {
        0 => 0,
        1 => g.pick(&[1, 999_999_999, 999_999_998, 1_000_000_000, (1 << 30) - 1, 500_000_000]),
        _ => g.draw(999_999_999) as u32,
    };
    n << 2 | epoch
}

fn run(g: &mut G) -> R {
    if g.chance(1, 4) {
        let noise = g.draw(u32::MAX as u64);
        let mut v = [0u64; 6];
        for t in &mut v {
            *t = match g.draw(3) {
                0 => secs(g) as u64,
                1 => g.draw(255) << 32 | secs(g) as u64,
                2 => g.pick(&[0, 1, 0xffff_ffff, 0x1_0000_0000, 0xff_ffff_ffff, 0xff_0000_0000]),
                _ => g.draw((1 << 40) - 1),
            };
        }
        if v.iter().any(|t| *t >> 32 != 0) {
            g.nontrivial();
            g.class("superblock time past 2^32");
        }
        g.describe(|| format!("superblock times {v:x?}"));
        return superblock(blob(noise, 1024), &v);
    }
    let mut v = [(0, 0); 4];
    for t in &mut v {
        *t = (secs(g), extra(g));
    }
    let delete = secs(g);
    let (size, es) = match g.draw(5) {
        0 => (128, 0),
        1 => (160, 32),
        // fields not there
        2 => (256, 4 * g.draw(8) as u16),
        _ => (256, 32),
    };
    if v.iter().any(|(s, e)| s >> 31 != 0 || *e != 0) {
        g.nontrivial();
    }
    if v.iter().any(|(s, e)| s >> 31 != 0 && e & 3 != 0) {
        g.class("negative seconds in a later epoch");
    }
    if es < 24 {
        g.class("some extra words not stored");
    }
    g.describe(|| format!("inode of {size}+{es}: times {v:x?}, deleted {delete:#x}"));
    inode(size, es, &v, delete)
}

fn boundaries() -> R {
    let mut bases = vec![];
    for b in [0u32, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xc000_0000, 0xffff_ffff] {
        for d in 0..40u32 {
            bases.push(b.wrapping_add(d).wrapping_sub(20));
        }
    }
    for bit in 0..32 {
        bases.push(1 << bit);
        bases.push(!(1 << bit));
    }
    for &b in &bases {
        for epoch in 0..4 {
            for n in [0u32, 1, 2, 3, 999_999_999, 536_870_912] {
                let e = n << 2 | epoch;
                inode(256, 32, &[(b, e), (b, e), (b, e), (b, e)], b)?;
            }
            // each field on its own
            for k in 0..4 {
                let mut v = [(0, 0); 4];
                v[k] = (b, 4 + epoch);
                inode(256, 32, &v, 0)?;
            }
        }
        for hi in [0u64, 1, 2, 0x7f, 0x80, 0xff] {
            let t = hi << 32 | b as u64;
            superblock(vec![0; 1024], &[t; 6])?;
            for k in 0..6 {
                let mut v = [0; 6];
                v[k] = t;
                superblock(vec![0; 1024], &v)?;
                let mut v = [0x55_5555_5555; 6];
                v[k] = t;
                superblock(vec![0xaa; 1024], &v)?;
            }
        }
    }
    Ok(())
}

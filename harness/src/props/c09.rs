use crate::engine::*;
use crate::md::superblock::{Superblock, SuperblockVersion1};
use crate::md::verif::*;
use std::os::unix::ffi::OsStrExt;

pub static PROP: Prop = Prop {
    id: "C09",
    quick: 8_000_000,
    thorough: 80_000_000,
    rule: "a superblock with random content was decoded and every attribute compared; distinct by choice sequence",
    assumptions: &["offsets are those of struct mdp_superblock_1"],
    run,
    pinned: &[("each-byte", each_byte)],
};

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    (0..n).rev().fold(0, |a, i| a << 8 | b[at + i] as u64)
}

fn check(b: &[u8], minor: u32) -> R {
    let u32_ = |at| le(b, at, 4) as u32;
    let u64_ = |at| le(b, at, 8);
    let valid = u32_(0) == 0xa92b4efc && u32_(4) == 1;
    match SuperblockVersion1::read(b, minor) {
        Ok(_) => ensure!(valid, "accepted with magic {:#x} major {}", u32_(0), u32_(4)),
        Err(e) => ensure!(!valid, "refused ({e}) with magic {:#x} major {}", u32_(0), u32_(4)),
    }
    let s = SuperblockVersion1::new(b.to_vec(), minor);
    ensure_eq!(s.valid(), valid, "valid");
    ensure_eq!(s.major_version(), u32_(4), "major version");
    ensure_eq!(s.minor_version(), minor, "minor version");
    ensure_eq!(format!("{:?}", s.array_uuid()), format!("Long({:?})", &b[16..32]), "array UUID");
    ensure_eq!(s.array_name().map(|n| n.as_bytes().to_vec()), Some(b[32..64].to_vec()), "array name");
    ensure!(
        s.algorithm() == MdAlgorithm::from_level_and_layout(u32_(72), u32_(76)),
        "algorithm {:?} for level {} layout {}",
        s.algorithm(),
        u32_(72),
        u32_(76)
    );
    if let MdAlgorithm::Unsupported { level, layout } = s.algorithm() {
        ensure_eq!((level, layout), (u32_(72), u32_(76)), "level and layout");
    }
    ensure_eq!(s.sectors_per_device().0, u64_(80), "sectors per device");
    ensure_eq!(s.chunk_size().0, u32_(88), "chunk size");
    ensure_eq!(s.raid_device_count().0, u32_(92), "member count");
    let f = u32_(8);
    match s.reshape_status() {
        None => ensure!(f & 4 == 0, "reshape status missing with features {f:#x}"),
        Some(r) => {
            ensure!(f & 4 != 0, "reshape status present with features {f:#x}");
            ensure!(
                r.new_algorithm == MdAlgorithm::from_level_and_layout(u32_(100), u32_(116)),
                "new algorithm {:?} for level {} layout {}",
                r.new_algorithm,
                u32_(100),
                u32_(116)
            );
            ensure_eq!(r.reshape_position.0, u64_(104), "reshape position");
            ensure_eq!(r.delta_devices.0, u32_(112), "delta devices");
            ensure_eq!(r.new_chunk_size.0, u32_(120), "new chunk size");
            ensure_eq!(r.new_offset, u32_(124), "new offset");
        }
    }
    ensure_eq!(s.data_offset().0, u64_(128), "data offset");
    ensure_eq!(s.device_role_index() as u64, u32_(160) as u64, "role index");
    ensure_eq!(s.event_count().0, u64_(200), "event count");
    ensure_eq!(s.bitmap_offset(), (f & 1 != 0).then(|| u32_(96)), "bitmap offset (features {f:#x})");
    let ppl = s.ppl_info().map(|p| (p.offset().read(), p.size().read()));
    ensure_eq!(ppl, (f & 1024 != 0).then(|| (le(b, 96, 2) as u16 as i16, le(b, 98, 2) as u16)), "PPL info (features {f:#x})");
    ensure_eq!(s.recovery_offset(), (f & 2 != 0).then(|| u64_(152)), "recovery offset (features {f:#x})");
    ensure_eq!(s.journal_tail(), (f & 512 != 0).then(|| u64_(152)), "journal tail (features {f:#x})");
    let roles = s.device_roles();
    let count = (u32_(220) as usize).min((b.len() - 256) / 2);
    ensure_eq!(roles.len(), count, "number of roles");
    for (i, r) in roles.iter().enumerate() {
        let v = le(b, 256 + 2 * i, 2) as u32;
        ensure_eq!(r.device_number().map(|d| d.0), (v <= 0xfeff).then_some(v), "slot of role {i} ({v:#x})");
        ensure_eq!(
            (r.is_spare(), r.is_faulty(), r.is_journal(), r.is_invalid(), r.is_valid()),
            (v == 0xffff, v == 0xfffe, v == 0xfffd, (0xff00..0xfffd).contains(&v), !(0xff00..0xfffd).contains(&v)),
            "kind of role {i} ({v:#x})"
        );
    }
    Ok(())
}

fn run(g: &mut G) -> R {
    let mut b = g.blob(4096);
    let put = |b: &mut Vec<u8>, at: usize, v: u64, n: usize| b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
    if !g.chance(1, 10) {
        put(&mut b, 0, 0xa92b4efc, 4);
    }
    if !g.chance(1, 10) {
        put(&mut b, 4, 1, 4);
    }
    // features: single bits, pairs, anything
    let f = match g.draw(3) {
        0 => 1 << g.draw(31),
        1 => 1 << g.draw(12) | 1 << g.draw(12),
        2 => 0,
        _ => g.draw(u32::MAX as u64),
    };
    put(&mut b, 8, f, 4);
    for at in [72usize, 76, 100, 116] {
        if g.chance(1, 2) {
            let v = g.draw(20);
            put(&mut b, at, v, 4);
        }
    }
    for (at, n) in [(80usize, 8usize), (88, 4), (92, 4), (104, 8), (112, 4), (120, 4), (124, 4), (128, 8), (152, 8), (160, 4), (200, 8)] {
        if g.chance(1, 3) {
            let v = g.u64b();
            put(&mut b, at, v, n);
        }
    }
    let max = match g.draw(3) {
        0 => g.draw(12),
        1 => 1915 + g.draw(10),
        2 => g.u32b() as u64,
        _ => g.draw(1920),
    };
    put(&mut b, 220, max, 4);
    for _ in 0..g.draw(6) {
        let i = g.us(0, (max.min(1920) as usize).max(1) - 1);
        let v = g.pick(&[0xfeffu64, 0xff00, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0, 1]);
        put(&mut b, 256 + 2 * i, v, 2);
    }
    let minor = g.draw(2) as u32;
    g.describe(|| format!("minor {minor} features {f:#x} max_devices {max} first bytes {:02x?}", &b[..100]));
    g.nontrivial();
    check(&b, minor)
}

/// Every byte in front of the roles on its own, over zeros and over ones.
fn each_byte() -> R {
    for base in [0u8, 0xff] {
        for i in 0..260 {
            for v in [1u8, 0x80, 0x5a, 0xff] {
                let mut b = vec![base; 4096];
                b[0..8].copy_from_slice(&[0xfc, 0x4e, 0x2b, 0xa9, 1, 0, 0, 0]);
                b[220..224].copy_from_slice(&[4, 0, 0, 0]);
                b[i] ^= v;
                check(&b, 2)?;
            }
        }
    }
    Ok(())
}

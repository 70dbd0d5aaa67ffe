use crate::engine::*;
use crate::md::superblock::{Superblock, SuperblockVersion0};
use crate::md::verif::*;

pub static PROP: Prop = Prop {
    id: "C10",
    quick: 9_000_000,
    thorough: 80_000_000,
    rule: "a superblock with random content was decoded in both byte orders and every attribute compared",
    assumptions: &[
        "word positions are those of struct mdp_superblock_s (md_p.h); 64-bit fields hold their halves in host order",
        "sizes are stored in KiB and chunks in bytes, as in the kernel",
    ],
    run,
    pinned: &[("each-word", each_word)],
};

/// 64-bit fields, whose halves are swapped between byte orders.
const PAIRS: [usize; 3] = [39, 41, 44];

fn encode(w: &[u32], be: bool) -> Vec<u8> {
    let mut x = w.to_vec();
    if be {
        for p in PAIRS {
            x.swap(p, p + 1);
        }
    }
    x.iter().flat_map(|v| if be { v.to_be_bytes() } else { v.to_le_bytes() }).collect()
}

fn check(w: &[u32]) -> R {
    let mut dec = vec![];
    for be in [false, true] {
        let order = if be { "big-endian" } else { "little-endian" };
        let total = (w[9] as usize).min(27);
        let roles: Vec<u32> = (0..total).map(|i| w[128 + 32 * i + 3]).collect();
        let valid = w[0] == 0xa92b4efc && w[1] == 0 && roles.iter().all(|r| !(*r > 0xfeff && *r < 0xfffd));
        let s = match SuperblockVersion0::read(&encode(w, be)[..]) {
            Ok(s) => {
                ensure!(valid, "{order}: accepted with magic {:#x} version {} roles {roles:x?}", w[0], w[1]);
                s
            }
            Err(e) => {
                ensure!(!valid, "{order}: refused ({e})");
                continue;
            }
        };
        ensure!(s.valid(), "{order}: read but not valid");
        ensure_eq!(s.major_version(), w[1], "{order}: major version");
        ensure_eq!(s.minor_version(), w[2], "{order}: minor version");
        let id: Vec<u8> =
            if w[2] < 90 { w[5].to_le_bytes().to_vec() } else { [5, 13, 14, 15].iter().flat_map(|i| w[*i].to_le_bytes()).collect() };
        let id = if id.len() == 4 { format!("Short({id:?})") } else { format!("Long({id:?})") };
        ensure_eq!(format!("{:?}", s.array_uuid()), id, "{order}: array UUID");
        ensure!(s.array_name().is_none(), "{order}: has a name");
        ensure!(
            s.algorithm() == MdAlgorithm::from_level_and_layout(w[7], w[64]),
            "{order}: algorithm {:?} for level {} layout {}",
            s.algorithm(),
            w[7],
            w[64]
        );
        ensure_eq!(s.sectors_per_device().0, w[8] as u64 * 2, "{order}: sectors per device");
        ensure_eq!(s.chunk_size().0, w[65] / 512, "{order}: chunk sectors");
        ensure_eq!(s.raid_device_count().0, w[10], "{order}: member count");
        ensure_eq!(s.data_offset().0, 0, "{order}: data offset");
        ensure_eq!(s.device_role_index() as u64, w[992] as u64, "{order}: role index");
        ensure_eq!(s.event_count().0, (w[40] as u64) << 32 | w[39] as u64, "{order}: event count");
        match s.reshape_status() {
            None => ensure!(w[2] < 91, "{order}: no reshape status at minor version {}", w[2]),
            Some(r) => {
                ensure!(w[2] >= 91, "{order}: reshape status at minor version {}", w[2]);
                ensure!(
                    r.new_algorithm == MdAlgorithm::from_level_and_layout(w[46], w[48]),
                    "{order}: new algorithm {:?} for level {} layout {}",
                    r.new_algorithm,
                    w[46],
                    w[48]
                );
                ensure_eq!(r.reshape_position.0, (w[45] as u64) << 32 | w[44] as u64, "{order}: reshape position");
                ensure_eq!(r.delta_devices.0, w[47], "{order}: delta devices");
                ensure_eq!(r.new_chunk_size.0, w[49] / 512, "{order}: new chunk sectors");
            }
        }
        let got = s.device_roles();
        ensure_eq!(got.len(), roles.len(), "{order}: number of roles");
        for (i, (r, v)) in got.iter().zip(&roles).enumerate() {
            let v = *v;
            ensure_eq!(r.device_number().map(|d| d.0), (v <= 0xfeff).then_some(v), "{order}: slot of role {i} ({v:#x})");
            ensure_eq!(
                (r.is_spare(), r.is_faulty(), r.is_journal()),
                (v == 0xffff, v == 0xfffe, v == 0xfffd),
                "{order}: kind of role {i} ({v:#x})"
            );
        }
        dec.push(s);
    }
    if let [a, b] = &dec[..] {
        macro_rules! same {
            ($($f:ident)*) => { $( ensure!(a.$f() == b.$f(), "{} differs between the byte orders", stringify!($f)); )* };
        }
        same!(valid major_version minor_version array_uuid array_name algorithm sectors_per_device chunk_size
              raid_device_count reshape_status data_offset device_role_index event_count device_roles);
    }
    Ok(())
}

fn random_words(g: &mut G) -> Vec<u32> {
    let b = g.blob(4096);
    let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    w[0] = 0xa92b4efc;
    w[1] = 0;
    w[2] = g.pick(&[90, 91, 90, 0, 1, 89, 92, u32::MAX]);
    w[9] = g.pick(&[0, 4, 5, 26, 27, 28, u32::MAX]);
    for i in 0..27 {
        w[128 + 32 * i + 3] = match g.draw(3) {
            0 => i as u32,
            1 => g.pick(&[0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, u32::MAX, 0]),
            _ => g.draw(30) as u32,
        };
    }
    w
}

fn run(g: &mut G) -> R {
    let mut w = random_words(g);
    if g.chance(1, 8) {
        match g.draw(3) {
            0 => w[0] ^= 1 << g.draw(31),
            1 => w[1] = g.range(1, 3) as u32,
            2 => w[0] = w[0].swap_bytes(),
            _ => {
                // an invalid role, inside or beyond the devices counted
                let i = g.us(0, 26);
                w[128 + 32 * i + 3] = 0xff00 + g.draw(0xfc) as u32;
            }
        }
    }
    if w[0] == 0xa92b4efcu32.swap_bytes() {
        // the other byte order's superblock: only its validity is defined by these words
        let y: Vec<u32> = encode(&w, false).chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        let total = (y[9] as usize).min(27);
        let valid = y[1] == 0 && (0..total).all(|i| !(0xff00..0xfffd).contains(&y[128 + 32 * i + 3]));
        ensure_eq!(SuperblockVersion0::read(&encode(&w, false)[..]).is_ok(), valid, "acceptance of a swapped magic");
        return Ok(());
    }
    for at in [7usize, 64, 46, 48] {
        if g.chance(1, 2) {
            w[at] = g.draw(20) as u32;
        }
    }
    for at in [8usize, 10, 39, 40, 44, 45, 47, 49, 65, 992] {
        if g.chance(1, 3) {
            w[at] = g.u32b();
        }
    }
    for at in [5usize, 13, 14, 15] {
        if g.chance(1, 6) {
            w[at] = g.u32b();
        }
    }
    g.describe(|| format!("minor {} total {} first words {:x?}", w[2], w[9], &w[..16]));
    g.nontrivial();
    if w[2] >= 91 {
        g.class("records a reshape");
    }
    check(&w)
}

fn each_word() -> R {
    for base in [0u32, 0x01020304] {
        for i in 0..1024 {
            for v in [1u32, 0x8000_0000, 0xa5a5_5a5a] {
                let mut w = vec![base; 1024];
                w[0] = 0xa92b4efc;
                w[1] = 0;
                w[2] = 91;
                w[9] = 4;
                w[i] ^= v;
                check(&w)?;
            }
        }
    }
    Ok(())
}

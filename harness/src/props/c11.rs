use super::mdset::*;
use crate::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use crate::dev::{Ctl, Dev, Storage};
use crate::engine::*;
use crate::md::{MdArray, MdDevice};
use crate::mdimg::*;
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C11",
    quick: 400_000,
    thorough: 30_000_000,
    rule: "at least one supplied device holds an accepted superblock whose bytes were mutated or random",
    assumptions: &[
        "no progress: more than 20000 device operations for opening and fewer than 40 calls",
        "out of proportion: more than 64 MB of memory for a case whose superblocks take a few KB",
        "devices report the block sizes Linux block devices do (512 bytes to 64 KiB)",
    ],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    let set = gen_set(g, &SetKnobs { max_mutations: 3, reshape: true, rows: 1 });
    let mut stores: Vec<(Storage, u32)> = set.devs.into_iter().map(|d| (d.store, d.block_size)).collect();
    let mut log = set.log;
    // mutate superblock bytes wherever a superblock may lie
    let muts = g.draw(12);
    for _ in 0..muts {
        let d = g.us(0, stores.len() - 1);
        let len = stores[d].0.len;
        if len < 12288 {
            continue;
        }
        let all = g.chance(1, 3);
        let ver = gen_ver(g);
        let Some(at) = ver.location(len) else { continue };
        let off = if ver.is_v1() {
            match g.draw(3) {
                0 => 256 + g.draw(64),
                1 => g.pick(&[8, 72, 76, 80, 88, 92, 100, 104, 112, 116, 120, 128, 160, 200, 220]),
                _ => 8 + g.draw(4087),
            }
        } else {
            4 * g.pick(&[2u64, 5, 7, 8, 9, 10, 39, 44, 46, 47, 48, 49, 64, 65, 992, 131, 163])
        };
        let width = g.pick(&[1usize, 2, 4, 8]).min(4096 - off as usize);
        let v = match g.draw(3) {
            0 => 0,
            1 => u64::MAX,
            2 => g.u64b(),
            _ => g.draw(16),
        };
        let bytes = &v.to_le_bytes()[..width];
        let n = stores.len();
        for i in 0..n {
            let s = &mut stores[i].0;
            if i == d || all {
                if let Some(at) = (s.len >= 12288).then(|| ver.location(s.len)).flatten() {
                    s.write(at + off, bytes);
                }
            }
        }
        log.push(format!("{}{ver:?}+{off} := {v:#x}/{width}", if all { "all " } else { "" }));
    }
    if g.chance(1, 6) {
        let d = g.us(0, stores.len() - 1);
        let len = stores[d].0.len;
        let cut = g.draw(len);
        stores[d].0.len = cut;
        log.push(format!("{d} cut to {cut}"));
    }
    if g.chance(1, 8) {
        let len = g.draw(100_000);
        let mut s = Storage::new(len, g.draw(1 << 20));
        for v in VERS {
            if len >= 12288 && g.chance(1, 2) {
                if let Some(at) = v.location(len) {
                    let (magic, major) = (MAGIC, v.is_v1() as u32);
                    let be = v == Ver::V0Be;
                    for (k, w) in [magic, major].iter().enumerate() {
                        s.write(at + 4 * k as u64, &if be { w.to_be_bytes() } else { w.to_le_bytes() });
                    }
                }
            }
        }
        stores.push((s, 512));
        log.push(format!("random device of {len} bytes with magic"));
    }
    if g.chance(1, 10) {
        stores.truncate(g.us(0, stores.len()));
    }
    let bs_mix = g.chance(1, 4);
    for s in stores.iter_mut() {
        if bs_mix {
            s.1 = g.pick(&[512, 1024, 4096, 65536]);
        }
    }
    g.describe(|| format!("{} devices: {}", stores.len(), log.join(", ")));
    let probes: Vec<u64> = (0..4).map(|_| g.u64b()).collect();
    let near: Vec<u64> = (0..2).map(|_| g.draw(400)).collect();
    let devs: Vec<(Rc<Storage>, u32)> = stores.into_iter().map(|(s, b)| (Rc::new(s), b)).collect();
    let mut accepted = 0;
    let ctls: Vec<Rc<Ctl>> = devs
        .iter()
        .map(|_| {
            let c = Rc::new(Ctl::default());
            c.set_fuel(20_000);
            c
        })
        .collect();
    let r: R = crate::alloc::guarded(64 << 20, || {
        let mut members = vec![];
        for (i, (s, bs)) in devs.iter().enumerate() {
            match MdDevice::from_block_device(Dev::with_ctl(s.clone(), *bs, ctls[i].clone()), Some(format!("d{i}"))) {
                Ok(m) => {
                    if m.superblock.as_option().is_some() {
                        accepted += 1;
                    }
                    members.push(m);
                }
                Err(_) => {}
            }
        }
        let mut arr = MdArray::open(members);
        let _ = arr.block_size();
        let size = arr.block_count().map(|c| c.0).ok();
        let mut buf = [0u8; 512];
        for l in probes.iter().chain(&near).copied().chain(size.into_iter().flat_map(|s| [s, s.wrapping_sub(1), s / 2])) {
            let r = arr.read_block(BlockNumber(l), &mut buf);
            ensure!(r.is_err() || matches!(r, Ok(512)), "sector {l}: {r:?}");
        }
        let d = arr.diagnose();
        let text = format!("{d:#?}");
        ensure!(!text.is_empty(), "empty diagnosis");
        let mut r = BlockDeviceReader::new(arr);
        let mut buf = vec![0; 2000];
        for p in [SeekFrom::Start(0), SeekFrom::End(-700), SeekFrom::Start(probes[0]), SeekFrom::End(i64::MIN)] {
            let _ = r.seek(p);
            let _ = r.read(&mut buf);
            let _ = r.read_exact(&mut buf);
        }
        Ok(())
    });
    r?;
    if accepted > 0 && muts > 0 {
        g.nontrivial();
    }
    g.class(if accepted == 0 { "no superblock accepted" } else { "superblock accepted" });
    Ok(())
}

use crate::block_device::BlockDevice;
use crate::dev::{Dev, Storage};
use crate::engine::*;
use crate::md::superblock::Superblock;
use crate::md::{MdDevice, MdDeviceSuperblock};
use crate::mdimg::*;
use std::ffi::OsStr;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C08",
    quick: 9_000_000,
    thorough: 90_000_000,
    rule: "at least one superblock, valid or spoiled, was stored on the device; distinct by choice sequence",
    assumptions: &["superblock checksums are not part of validity (the tool does not check them)"],
    run,
    pinned: &[("every-size-up-to-400-KiB", sizes)],
};

fn u32at(s: &Storage, at: u64, be: bool) -> u32 {
    let b: [u8; 4] = s.get(at, 4).try_into().unwrap();
    if be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
}

/// What the bytes of a device say, by the rules of the format.
fn expected(s: &Storage, size: u64) -> Option<(u32, u32, Ver, u64)> {
    for (minor, ver) in [(2, Ver::V12), (1, Ver::V11), (0, Ver::V10)] {
        let at = ver.location(size).unwrap();
        if at + 4096 <= s.len && u32at(s, at, false) == MAGIC && u32at(s, at + 4, false) == 1 {
            return Some((1, minor, ver, at));
        }
    }
    if let Some(at) = Ver::V0Le.location(size) {
        for be in [false, true] {
            let w = |i: u64| u32at(s, at + 4 * i, be);
            if w(0) == MAGIC && w(1) == 0 {
                let total = w(9).min(27) as u64;
                let ok = (0..total).all(|i| {
                    let r = w(128 + 32 * i + 3);
                    !(r > 0xfeff && r < 0xfffd)
                });
                if ok {
                    return Some((0, w(2), if be { Ver::V0Be } else { Ver::V0Le }, at));
                }
            }
        }
    }
    None
}

fn probe(s: Rc<Storage>, bs: u32) -> Result<Option<Option<(u32, u32, String)>>, Fail> {
    let d = MdDevice::from_block_device(Dev::new(s, bs), None::<&OsStr>).map_err(|e| Fail(format!("open: {e}")))?;
    Ok(match d.superblock.as_ref() {
        MdDeviceSuperblock::TooSmall => None,
        MdDeviceSuperblock::Missing => Some(None),
        MdDeviceSuperblock::Superblock(s) => {
            Some(Some((s.major_version(), s.minor_version(), format!("{:?}", s.array_uuid()))))
        }
    })
}

fn check(s: Rc<Storage>, bs: u32) -> Result<Option<(u32, u32, Ver, u64)>, Fail> {
    let size = s.len / bs as u64 * bs as u64;
    let got = probe(s.clone(), bs)?;
    if size < 12288 {
        ensure!(got.is_none(), "a device of {size} bytes is not reported as too small");
        return Ok(None);
    }
    let Some(got) = got else { return Err(Fail(format!("a device of {size} bytes is called too small"))) };
    let exp = expected(&s, size);
    ensure_eq!(got.as_ref().map(|g| (g.0, g.1)), exp.map(|e| (e.0, e.1)), "version found on a device of {size} bytes");
    if let (Some(g), Some(e)) = (&got, exp) {
        let be = e.2 == Ver::V0Be;
        let id: Vec<u8> = if e.2.is_v1() {
            s.get(e.3 + 16, 16)
        } else {
            let words: &[u64] = if e.1 < 90 { &[5] } else { &[5, 13, 14, 15] };
            words.iter().flat_map(|w| u32at(&s, e.3 + 4 * w, be).to_le_bytes()).collect()
        };
        let exp_dbg = if id.len() == 4 { format!("Short({id:?})") } else { format!("Long({id:?})") };
        ensure!(g.2 == exp_dbg, "superblock at {} of a device of {size} bytes: UUID {}, stored {exp_dbg}", e.3, g.2);
    }
    Ok(exp)
}

fn gen_sb(g: &mut G, ver: Ver) -> Sb {
    let n_roles = g.us(0, 6);
    let mut roles: Vec<u32> = (0..n_roles as u32).collect();
    if !roles.is_empty() && g.chance(1, 6) {
        let i = g.us(0, roles.len() - 1);
        roles[i] = g.pick(&[0xfeff, 0xff00, 0xfffc, SPARE, FAULTY, JOURNAL, u32::MAX]);
    }
    Sb {
        uuid: random_uuid(g),
        name: [7; 32],
        level: 6,
        layout: 2,
        per_dev: 64,
        chunk: 8,
        raid_disks: 4,
        features: 0,
        reshape: None,
        data_offset: 0,
        role_index: g.draw(4) as u32,
        events: 3,
        roles,
        junk: g.draw(1 << 20),
        magic: MAGIC,
        major: if ver.is_v1() { 1 } else { 0 },
        minor0: if ver.is_v1() { 0 } else { g.pick(&[90, 90, 91, 0, 89, u32::MAX]) },
    }
}

fn run(g: &mut G) -> R {
    let bs = g.pick(&[512u32, 4096, 512, 1024, 2048, 65536]);
    let len = match g.draw(5) {
        0 => g.draw(12288 + 4096),
        1 => 12288 + g.draw(130 * 1024),
        2 => g.draw(1 << 20),
        3 => (1u64 << g.range(14, 45)).wrapping_add(g.draw(131072)) - 65536 * g.draw(1).min(0),
        4 => (1u64 << g.range(17, 45)) - g.draw(131072),
        _ => g.draw(1 << 42),
    };
    let mut s = if g.chance(1, 2) { Storage::new(len, g.draw(1 << 30)) } else { Storage::zeroed(len) };
    let size = len / bs as u64 * bs as u64;
    let mut log = vec![];
    if size >= 12288 {
        let count = g.draw(4);
        for _ in 0..count {
            let ver = gen_ver(g);
            let mut sb = gen_sb(g, ver);
            let mut what = "valid";
            match g.draw(7) {
                0 => {
                    sb.magic ^= 1 << g.draw(31);
                    what = "wrong magic";
                }
                1 => {
                    sb.major = if g.chance(1, 2) { sb.major ^ 1 } else { g.u32b() };
                    what = "other major version";
                }
                2 if !ver.is_v1() => {
                    sb.magic = sb.magic.swap_bytes();
                    what = "other byte order";
                }
                _ => {}
            }
            let home = ver.location(size);
            let at = match g.draw(5) {
                0 => {
                    what = "misplaced";
                    let l = home.unwrap_or(0);
                    match g.draw(4) {
                        0 => l + 4096,
                        1 => l.saturating_sub(4096),
                        2 => l + 65536,
                        3 => l ^ (512 << g.draw(8)),
                        _ => g.draw(size),
                    }
                }
                1 => {
                    // in the place of another version
                    what = "in another version's place";
                    gen_ver(g).location(size).unwrap_or(0)
                }
                _ => match home {
                    Some(l) => l,
                    None => continue,
                },
            };
            if at + 4096 <= len {
                s.write(at, &sb.encode(ver));
                log.push(format!("{ver:?} {what} at {at}"));
                g.class(what);
            }
        }
    }
    g.describe(|| format!("{len} bytes, blocks of {bs}: {}", log.join(", ")));
    let e = check(Rc::new(s), bs)?;
    if !log.is_empty() {
        g.nontrivial();
    }
    if log.len() > 1 {
        g.class("several superblocks");
    }
    g.class(match e {
        None => "none accepted",
        Some((_, _, Ver::V12, _)) => "1.2 accepted",
        Some((_, _, Ver::V11, _)) => "1.1 accepted",
        Some((_, _, Ver::V10, _)) => "1.0 accepted",
        Some((_, _, Ver::V0Le, _)) => "0.90 little-endian accepted",
        Some((_, _, Ver::V0Be, _)) => "0.90 big-endian accepted",
    });
    Ok(())
}

/// Each version alone, on devices of every whole number of sectors up to 400 KiB.
fn sizes() -> R {
    for sectors in 0..800u64 {
        for ver in VERS {
            let mut g = G::random(0x512e, sectors, false);
            let len = sectors * 512;
            let mut s = Storage::zeroed(len);
            let Some(at) = (len >= 12288).then(|| ver.location(len)).flatten() else {
                check(Rc::new(s), 512)?;
                continue;
            };
            let sb = Sb { roles: vec![0, 1], ..gen_sb(&mut g, ver) };
            s.write(at, &sb.encode(ver));
            let e = check(Rc::new(s), 512)?;
            ensure!(e.is_some(), "harness oracle finds no {ver:?} on {len} bytes");
        }
    }
    Ok(())
}

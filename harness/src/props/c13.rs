use crate::block_device::{BlockDevice, BlockNumber, BlockSize, FileBlockDevice, InMemoryBlockDevice};
use crate::engine::*;
use std::fs;
use std::io::{Read, Seek, SeekFrom};
use std::os::unix::fs::FileExt;

pub static PROP: Prop = Prop {
    id: "C13",
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "at least one block or stream read returned data on both devices and was compared with the contents",
    assumptions: &[
        "errors are compared as errors, without their kind",
        "clones of a file device share its stream position, so clones are used for block reads only",
        "seeks stay within the data (a file may be positioned beyond its end, memory may not)",
    ],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    if g.chance(1, 60) {
        return far(g);
    }
    let mut bs = g.pick(&[512u32, 1, 3, 16, 1024, 4096]);
    if g.chance(1, 100) {
        bs = g.pick(&[65535u32, 65536, 131_072, 1 << 20]);
    }
    let len = match g.draw(3) {
        0 => g.draw(20),
        1 => g.draw(9) * bs as u64,
        _ => g.draw(6 * bs as u64 + 40),
    } as usize;
    let data = g.blob(len);
    let path = std::env::temp_dir()
        .join(format!("verif-c13-{}-{:?}", std::process::id(), std::thread::current().id()));
    let path = path.display().to_string();
    fs::write(&path, &data).expect("scratch file");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(g, bs, &data, &path)));
    let _ = fs::remove_file(&path);
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

/// A file of many GiB, almost all of it a hole: blocks at positions that need more than 32 bits.
fn far(g: &mut G) -> R {
    let path = std::env::temp_dir()
        .join(format!("verif-c13-{}-{:?}", std::process::id(), std::thread::current().id()));
    let path = path.display().to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| far_body(g, &path)));
    let _ = fs::remove_file(&path);
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn far_body(g: &mut G, path: &str) -> R {
    let bs = g.pick(&[512u64, 1, 1000, 4096, 65536, 1 << 20]);
    // of any length a scratch filesystem takes
    let log = g.range(20, 43);
    let len = g.range(0, 1 << log);
    let file = fs::File::create(path).expect("scratch file");
    if file.set_len(len).is_err() {
        return Ok(());
    }
    let blocks = len / bs;
    let mut pieces: Vec<(u64, Vec<u8>)> = vec![];
    for _ in 0..g.draw(4) {
        if blocks == 0 {
            break;
        }
        let b = match g.draw(3) {
            0 => blocks - 1,
            1 => ((1 << 32) / bs + g.draw(2)).min(blocks - 1),
            2 => ((1 << 31) / bs + g.draw(2)).min(blocks - 1),
            _ => g.draw(blocks - 1),
        };
        let at = b * bs + g.draw(bs - 1);
        let n = g.us(1, 40).min((len - at) as usize);
        let data = g.blob(n);
        file.write_all_at(&data, at).expect("scratch file");
        pieces.push((at, data));
    }
    let expect = |at: u64, n: usize| {
        let mut v = vec![0u8; n];
        for (p, d) in &pieces {
            for (i, c) in d.iter().enumerate() {
                let q = p + i as u64;
                if q >= at && q - at < n as u64 {
                    v[(q - at) as usize] = *c;
                }
            }
        }
        v
    };
    let mut f = FileBlockDevice::open_path(path, BlockSize(bs as u32)).map_err(|e| Fail(format!("open: {e}")))?;
    ensure_eq!(f.block_count().map(|c| c.0).ok(), Some(blocks), "file block count ({len} bytes, blocks of {bs})");
    for _ in 0..1 + g.draw(6) {
        let near = match pieces.len() {
            0 => 0,
            n => pieces[g.us(0, n - 1)].0,
        };
        if g.chance(1, 2) {
            let b = (near / bs + g.draw(2)).saturating_sub(1);
            let mut buf = vec![0xee; bs as usize];
            let r = f.read_block(BlockNumber(b), &mut buf);
            ensure_eq!(r.is_ok(), b < blocks, "file: block {b} of {blocks} ({bs} bytes): {r:?}");
            if b < blocks {
                ensure!(buf == expect(b * bs, bs as usize), "file: block {b} of {blocks} ({bs} bytes): wrong bytes");
                g.nontrivial();
            }
        } else {
            let at = near.saturating_sub(g.draw(20)).min(len);
            let n = g.us(0, 60);
            let s = if g.chance(1, 2) { SeekFrom::Start(at) } else { SeekFrom::End(at as i64 - len as i64) };
            let r = f.seek(s);
            ensure!(matches!(r, Ok(p) if p == at), "file: seek {s:?} gave {r:?}, expected {at}");
            let mut buf = vec![0xee; n];
            let r = f.read(&mut buf);
            let want = (n as u64).min(len - at) as usize;
            ensure!(matches!(r, Ok(k) if k == want), "file: read of {n} at {at} of {len}: {r:?}");
            ensure!(buf[..want] == expect(at, want), "file: read of {n} at {at}: wrong bytes");
            if want > 0 {
                g.nontrivial();
            }
        }
    }
    g.class("file of many GiB");
    g.describe(|| format!("{len} bytes, blocks of {bs}, data at {:?}", pieces.iter().map(|p| p.0).collect::<Vec<_>>()));
    Ok(())
}

fn body(g: &mut G, bs: u32, data: &[u8], path: &str) -> R {
    let mut f = FileBlockDevice::open_path(path, BlockSize(bs)).map_err(|e| Fail(format!("open: {e}")))?;
    let mut m = InMemoryBlockDevice::new(data.to_vec(), BlockSize(bs));
    let len = data.len();
    let blocks = len as u64 / bs as u64;
    let mut log = vec![];
    let mut pos: Option<usize> = Some(0);
    ensure_eq!(f.block_count().map(|c| c.0).ok(), Some(blocks), "file block count");
    ensure_eq!(m.block_count().map(|c| c.0).ok(), Some(blocks), "memory block count");
    ensure!(matches!(f.block_size(), Ok(s) if s.0 == bs) && matches!(m.block_size(), Ok(s) if s.0 == bs), "block size");
    for _ in 0..1 + g.draw(15) {
        match g.draw(5) {
            0 | 1 => {
                let b = match g.draw(4) {
                    0 => blocks + g.draw(2),
                    1 => g.u64b(),
                    _ => g.draw(blocks),
                };
                let n = match g.draw(4) {
                    0 => g.us(0, bs as usize - 1),
                    1 => bs as usize * g.us(1, 3) + g.us(0, 2),
                    _ => bs as usize,
                };
                log.push(format!("block {b} into {n}"));
                let (mut x, mut y) = (vec![0xee; n], vec![0xee; n]);
                let (rx, ry) = if g.chance(1, 4) {
                    let mut fc = f.try_clone().map_err(|e| Fail(format!("clone: {e}")))?;
                    let mut mc = m.try_clone().map_err(|e| Fail(format!("clone: {e}")))?;
                    (fc.read_block(BlockNumber(b), &mut x), mc.read_block(BlockNumber(b), &mut y))
                } else {
                    (f.read_block(BlockNumber(b), &mut x), m.read_block(BlockNumber(b), &mut y))
                };
                // a block read may move a file's stream position
                pos = None;
                let ok = b < blocks && n >= bs as usize;
                for (who, r, v) in [("file", rx, x), ("memory", ry, y)] {
                    match r {
                        Ok(k) => {
                            ensure!(ok, "{who}: block {b} of {blocks} into {n} bytes succeeded");
                            ensure_eq!(k, bs as usize, "{who}: bytes read for block {b}");
                            ensure!(v[..k] == data[b as usize * k..][..k], "{who}: block {b}: wrong bytes");
                            ensure!(v[k..].iter().all(|c| *c == 0xee), "{who}: block {b}: wrote past one block");
                            g.nontrivial();
                        }
                        Err(e) => {
                            ensure!(!ok, "{who}: block {b} of {blocks} into {n} bytes: {e}");
                            if n < bs as usize {
                                g.class("short buffer refused");
                            } else {
                                g.class("past the end refused");
                            }
                        }
                    }
                }
            }
            2 | 3 if pos.is_some() => {
                let n = g.us(0, len + 3);
                let p = pos.unwrap();
                log.push(format!("read {n} at {p}"));
                let (mut x, mut y) = (vec![0xee; n], vec![0xee; n]);
                let (rx, ry) = (f.read(&mut x), m.read(&mut y));
                let want = n.min(len - p);
                for (who, r, v) in [("file", &rx, &x), ("memory", &ry, &y)] {
                    ensure!(matches!(r, Ok(k) if *k == want), "{who}: read of {n} at {p} of {len}: {r:?}");
                    ensure!(v[..want] == data[p..][..want], "{who}: read of {n} at {p}: wrong bytes");
                }
                if want > 0 {
                    g.nontrivial();
                }
                pos = Some(p + want);
            }
            _ => {
                let t = g.us(0, len);
                let s = match (g.draw(2), pos) {
                    (0, Some(p)) => SeekFrom::Current(t as i64 - p as i64),
                    (1, _) => SeekFrom::End(t as i64 - len as i64),
                    _ => SeekFrom::Start(t as u64),
                };
                log.push(format!("seek {s:?}"));
                let (a, b) = (f.seek(s), m.seek(s));
                ensure!(matches!(a, Ok(p) if p == t as u64), "file: seek {s:?} gave {a:?}, expected {t}");
                ensure!(matches!(b, Ok(p) if p == t as u64), "memory: seek {s:?} gave {b:?}, expected {t}");
                pos = Some(t);
            }
        }
    }
    g.describe(|| format!("{len} bytes, blocks of {bs}: {}", log.join("; ")));
    Ok(())
}

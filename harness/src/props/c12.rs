use crate::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use crate::dev::{Ctl, Dev, Storage};
use crate::engine::*;
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C12",
    quick: 6_000_000,
    thorough: 60_000_000,
    rule: "the history holds at least one read that crosses a block boundary or follows a seek, on a device of more than one block",
    assumptions: &[
        "a read may return fewer bytes than asked for, as for any byte stream, but not zero before the end of the data",
        "positions beyond 2^63-1, which a file refuses, may be refused or accepted",
    ],
    run,
    pinned: &[],
};

struct Model {
    pos: u64,
}

fn run(g: &mut G) -> R {
    let mut bs = g.pick(&[512u32, 1, 3, 7, 16, 512, 1024, 4096, 100]);
    let mut blocks = g.sized(if bs > 512 { 12 } else { 40 });
    match g.strat(150) {
        0 => {
            bs = g.pick(&[8192u32, 65535, 65536, 65537, 131_072, 1 << 20]);
            blocks = blocks.min(3);
            g.class("large blocks");
        }
        1 if bs <= 16 => {
            blocks = 250 + g.draw(1000);
            g.class("many blocks");
        }
        _ => {}
    }
    let tail = if bs > 1 { g.draw(bs as u64 - 1) } else { 0 };
    let len = blocks * bs as u64;
    let store = Rc::new(Storage::new(len + tail, g.draw(1 << 30)));
    let flat = store.get(0, len as usize);
    let ctl = Rc::new(Ctl::default());
    let mut readers = vec![(BlockDeviceReader::new(Dev::with_ctl(store.clone(), bs, ctl.clone())), Model { pos: 0 })];
    let ops = 1 + g.draw(if g.thorough { 60 } else { 24 });
    let mut log = vec![];
    let mut err = None;
    for _ in 0..ops {
        let i = g.us(0, readers.len() - 1);
        let n_readers = readers.len();
        let (r, m) = &mut readers[i];
        let avail = len.saturating_sub(m.pos);
        match g.draw(11) {
            0..=3 => {
                let n = match g.draw(3) {
                    0 => g.draw(2 * bs as u64 + 2),
                    1 => g.draw(len + 4),
                    2 => bs as u64,
                    _ => g.draw(3),
                } as usize;
                log.push(format!("{i}: read {n} at {}", m.pos));
                let mut buf = vec![0x5a; n];
                match r.read(&mut buf) {
                    Err(e) => err = Some(format!("read of {n} at {}: {e}", m.pos)),
                    Ok(k) => {
                        if k > n || (k as u64) > avail || (k == 0 && n > 0 && avail > 0) {
                            err = Some(format!("read of {n} at {} of {len} returned {k}", m.pos));
                        } else if buf[..k] != flat[m.pos.min(len) as usize..][..k] {
                            err = Some(format!("read of {n} at {}: wrong bytes", m.pos));
                        } else if buf[k..].iter().any(|b| *b != 0x5a) {
                            err = Some(format!("read of {n} at {}: wrote past the {k} bytes it returned", m.pos));
                        }
                        m.pos += k as u64;
                        if blocks > 1 && n > 0 {
                            g.nontrivial();
                        }
                    }
                }
            }
            4 => {
                let n = g.draw(avail.min(5 * bs as u64)) as usize;
                log.push(format!("{i}: read_exact {n} at {}", m.pos));
                let mut buf = vec![0; n];
                match r.read_exact(&mut buf) {
                    Err(e) => err = Some(format!("read_exact of {n} at {}: {e}", m.pos)),
                    Ok(()) => {
                        if buf[..] != flat[m.pos.min(len) as usize..][..n] {
                            err = Some(format!("read_exact of {n} at {}: wrong bytes", m.pos));
                        }
                        m.pos += n as u64;
                    }
                }
            }
            5..=7 => {
                let small = |g: &mut G| g.draw(2 * len + 2 * bs as u64) as i64 - (len + bs as u64) as i64;
                let wild = g.chance(1, 8);
                let p = match g.draw(2) {
                    0 => SeekFrom::Start(if wild { g.u64b() } else { g.draw(len + 2 * bs as u64) }),
                    1 => SeekFrom::End(if wild { g.u64b() as i64 } else { small(g) }),
                    _ => SeekFrom::Current(if wild { g.u64b() as i64 } else { small(g) }),
                };
                log.push(format!("{i}: seek {p:?} from {}", m.pos));
                let exact: i128 = match p {
                    SeekFrom::Start(x) => x as i128,
                    SeekFrom::End(x) => len as i128 + x as i128,
                    SeekFrom::Current(x) => m.pos as i128 + x as i128,
                };
                match r.seek(p) {
                    Ok(x) => {
                        if x as i128 != exact {
                            err = Some(format!("seek {p:?} from {} went to {x}, not {exact}", m.pos));
                        }
                        m.pos = x;
                    }
                    Err(e) => {
                        if exact >= 0 && exact <= i64::MAX as i128 {
                            err = Some(format!("seek {p:?} from {} (to {exact}): {e}", m.pos));
                        }
                    }
                }
            }
            8 => {
                log.push(format!("{i}: position"));
                match r.stream_position() {
                    Ok(x) if x == m.pos => {}
                    x => err = Some(format!("position {x:?}, expected {}", m.pos)),
                }
            }
            9 if n_readers < 4 => {
                log.push(format!("{i}: clone"));
                let pos = m.pos;
                match r.try_clone() {
                    Ok(c) => readers.push((c, Model { pos })),
                    Err(e) => err = Some(format!("clone: {e}")),
                }
            }
            10 => {
                // a device that fails everywhere, or in one of its blocks
                let n = g.range(1, 2 * bs as u64) as usize;
                let bad = if blocks == 0 || g.chance(1, 2) {
                    (0, u64::MAX)
                } else {
                    let b = g.draw(blocks - 1) * bs as u64;
                    (b, b + bs as u64)
                };
                log.push(format!("{i}: read {n} at {}, failing from {} to {}", m.pos, bad.0, bad.1));
                ctl.bad.borrow_mut().push(bad);
                ctl.gen_fail_kind(g);
                ctl.failed.set(false);
                let mut buf = vec![0; n];
                let x = r.read(&mut buf);
                ctl.bad.borrow_mut().clear();
                match x {
                    // at the end of the data the device need not be asked
                    Err(e) => {
                        if !ctl.failed.get() {
                            err = Some(format!("read of {n} at {}: {e}, though the device did not fail", m.pos));
                        }
                        g.class("read error");
                    }
                    // without an error there have to be bytes, as the device gave them before it failed
                    Ok(k) => {
                        if k > n || k as u64 > avail || (k == 0 && avail > 0) {
                            err = Some(format!("failing read of {n} at {} of {len} returned {k}", m.pos));
                        } else if buf[..k] != flat[m.pos.min(len) as usize..][..k] {
                            err = Some(format!("failing read of {n} at {}: wrong bytes", m.pos));
                        }
                        m.pos += k as u64;
                    }
                }
            }
            _ => {
                // the device below stays reachable and does not move the stream
                let b = g.draw(blocks + 1);
                log.push(format!("{i}: block {b}"));
                let mut buf = vec![0; bs as usize];
                match r.read_block(BlockNumber(b), &mut buf) {
                    Ok(k) => {
                        if b >= blocks || k != bs as usize || buf[..] != flat[(b * bs as u64) as usize..][..k] {
                            err = Some(format!("block {b}: wrong result"));
                        }
                    }
                    Err(e) => {
                        if b < blocks {
                            err = Some(format!("block {b}: {e}"));
                        }
                    }
                }
            }
        }
        if err.is_some() {
            break;
        }
    }
    g.describe(|| format!("{blocks} blocks of {bs} (+{tail}): {}", log.join("; ")));
    if let Some(e) = err {
        return Err(Fail(e));
    }
    // what is left reads to the end
    for (r, m) in &mut readers {
        if m.pos <= len {
            let mut rest = vec![];
            let x = r.read_to_end(&mut rest);
            ensure!(x.is_ok() && rest == flat[m.pos as usize..], "reading to the end from {}: {x:?}", m.pos);
        }
    }
    if readers.len() > 1 {
        g.class("clones");
    }
    Ok(())
}

use super::fsworld::*;
use crate::dev::Dev;
use crate::engine::*;
use crate::ext4::verif::InodeNumber;
use crate::ext4::Ext4Fs;
use crate::ext4img::*;

pub static PROP: Prop = Prop {
    id: "C24",
    quick: 300_000,
    thorough: 8_000_000,
    rule: "at least two readers were open at once and the schedule went back to one after another had been read in between; distinct by the full choice sequence",
    assumptions: &[
        "one thread: operations interleave between calls, not within one",
        "a reader's own sequence is the builder's content, which C14 and C15 compare it with",
    ],
    run,
    pinned: &[],
};

struct Reader {
    x: Opened<Dev>,
    item: usize,
    pos: u64,
    ended: bool,
}

fn run(g: &mut G) -> R {
    let many = g.chance(1, 60);
    if many {
        g.class("many block groups");
    }
    let k = Knobs { big: false, max_groups: if many { 3000 } else { 4 }, ..Default::default() };
    let Some(w) = gen_world(g, &k, 4, 12, 20) else { return Ok(()) };
    let bs = w.img.cfg.bs();
    if g.chance(1, 3) {
        w.img.ctl.short.set(g.us(1, 2000));
    }
    if g.chance(1, 3) {
        w.img.ctl.shared.set(true);
        g.class("clones of the device share their position");
    }
    let mut fss: Vec<Ext4Fs<Dev>> = vec![w.img.must_open()?];
    let mut readers: Vec<Reader> = vec![];
    let mut log = vec![];
    let mut buf = vec![0u8; bs as usize + 100];
    let steps = 10 + g.draw(110);
    let mut last = usize::MAX;
    let mut switched = false;
    for _ in 0..steps {
        let at = |e: String, log: &Vec<String>| Fail(format!("{e} (after {})", log.join(" ")));
        match g.draw(15) {
            0 if fss.len() < 4 => {
                let i = g.us(0, fss.len() - 1);
                let c = fss[i].try_clone().map_err(|e| at(format!("clone: {e}"), &log))?;
                fss.push(c);
                log.push(format!("clone({i})"));
                g.class("filesystem cloned");
            }
            1 if fss.len() > 1 => {
                let i = g.us(0, fss.len() - 1);
                fss.swap_remove(i);
                log.push(format!("drop({i})"));
            }
            2 => {
                // calls that fail must not disturb anything either
                let i = g.us(0, fss.len() - 1);
                match g.draw(2) {
                    0 => {
                        ensure!(open_ino(&mut fss[i], 0).is_err(), "inode 0 opened");
                    }
                    1 => {
                        let _ = fss[i].read_root_inode();
                    }
                    _ => {
                        let n = g.u32b();
                        let _ = fss[i].open_file(InodeNumber(n));
                    }
                }
                log.push("other".into());
            }
            3 if !readers.is_empty() => {
                let i = g.us(0, readers.len() - 1);
                if let Opened::File(f) = &mut readers[i].x {
                    let n = g.us(0, bs as usize - 1);
                    ensure!(f.read_next_block(&mut buf[..n]).is_err(), "a buffer of {n} bytes was accepted");
                    log.push(format!("small({i})"));
                }
            }
            4 if readers.len() > 2 => {
                let i = g.us(0, readers.len() - 1);
                readers.remove(i);
                last = usize::MAX;
                log.push(format!("close({i})"));
            }
            _ if readers.len() < 2 || (readers.len() < 8 && g.chance(1, 6)) => {
                let i = g.us(0, fss.len() - 1);
                let item = g.us(0, w.items.len() - 1);
                let x = open_ino(&mut fss[i], w.items[item].ino())
                    .map_err(|e| at(format!("opening inode {}: {e}", w.items[item].ino()), &log))?;
                ensure!(is_kind(&x, &w.items[item]), "inode {} is of another type", w.items[item].ino());
                if readers.iter().any(|r| r.item == item) {
                    g.class("one file open twice");
                }
                readers.push(Reader { x, item, pos: 0, ended: false });
                log.push(format!("open(fs {i}, item {item})"));
            }
            _ => {
                let i = g.us(0, readers.len() - 1);
                let burst = 1 + g.draw(2);
                for _ in 0..burst {
                    let r = &mut readers[i];
                    let got = step(&mut r.x, &mut buf);
                    log.push(format!("read({i})"));
                    matches_step(&w.img, &w.items[r.item], r.pos, &got, &buf)
                        .map_err(|e| at(format!("reader {i} (item {}): {}", r.item, e.0), &log))?;
                    if let Opened::File(f) = &r.x {
                        if let Item::File(s) = &w.items[r.item] {
                            ensure_eq!(f.file_size_bytes(), s.size, "size");
                        }
                    }
                    if let Got::End = got {
                        r.ended = true;
                    } else {
                        r.pos += 1;
                    }
                }
                if last != i && last != usize::MAX && readers[i].pos > burst {
                    switched = true;
                }
                last = i;
            }
        }
    }
    // all come to their end
    for (i, r) in readers.iter_mut().enumerate() {
        for _ in 0..500 {
            let got = step(&mut r.x, &mut buf);
            matches_step(&w.img, &w.items[r.item], r.pos, &got, &buf)
                .map_err(|e| Fail(format!("reader {i} (item {}) at the end: {}", r.item, e.0)))?;
            if let Got::End = got {
                r.ended = true;
                break;
            }
            r.pos += 1;
        }
    }
    if readers.iter().any(|r| r.ended) {
        g.class("some reader came to its end");
    }
    if switched {
        g.nontrivial();
    }
    g.describe(|| format!("{} items {}; {}", w.img.cfg.describe(), w.items.len(), log.join(" ")));
    Ok(())
}

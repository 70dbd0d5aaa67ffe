use super::fsworld::*;
use crate::engine::*;
use crate::ext4img::*;
use std::collections::BTreeSet;
use std::io::ErrorKind;

pub static PROP: Prop = Prop {
    id: "C23",
    quick: 160_000,
    thorough: 4_000_000,
    rule: "a device fault (the n-th operation, a byte range, or the end of the device) was met while a filesystem was opened, a file read or a directory listed; distinct by the full choice sequence",
    assumptions: &[
        "a fault is a failing seek, read, clone or a read beyond the end of the device",
        "transient Interrupted errors of at most three operations may be retried; all other errors have to surface in the call that met them",
        "after an error a reader may fail for good or go on where it stopped; it may not skip, repeat or end early",
    ],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    let k = Knobs { big: false, max_groups: 4, ..Default::default() };
    let ops = if g.chance(1, 3) { 60 } else { 10 };
    let Some(w) = gen_world(g, &k, 3, 12, ops) else { return Ok(()) };
    let ctl = w.img.ctl.clone();
    g.describe(|| {
        let v: Vec<_> = w.items.iter().map(|i| i.describe()).collect();
        format!("{} {}", w.img.cfg.describe(), v.join("; "))
    });
    // without a fault everything is right
    let clean = session(&w, false)?;
    ensure!(!clean.met, "harness: fault without a fault");
    let total = ctl.ops.get();
    if g.chance(1, 4) {
        // ranges of bytes that cannot be read, or a device cut short
        let len = w.img.store.len;
        for _ in 0..6 {
            let touched = g.chance(5, 6);
            let at = if touched && !clean.reads.is_empty() {
                let (p, n) = clean.reads[g.us(0, clean.reads.len() - 1)];
                p + g.draw(n.max(1) - 1)
            } else {
                g.draw(len - 1)
            };
            reset(&w);
            let cut = g.chance(1, 3);
            let what;
            let r = if cut {
                let mut s = (*w.img.store).clone();
                s.len = at;
                let img = Done {
                    cfg: w.img.cfg.clone(),
                    store: std::rc::Rc::new(s),
                    nodes: vec![],
                    ctl: w.img.ctl.clone(),
                };
                what = format!("device cut to {at} bytes");
                session_on(&w, &img, false)
            } else {
                let n = 1 + g.draw(600);
                *ctl.bad.borrow_mut() = vec![(at, at + n)];
                ctl.gen_fail_kind(g);
                what = format!("bytes {at}..{} unreadable", at + n);
                session(&w, false)
            };
            let met = r.map_err(|e| Fail(format!("{what}: {}", e.0)))?.met;
            if met {
                g.nontrivial();
                g.class(if cut { "device cut short" } else { "unreadable bytes" });
            }
        }
        return Ok(());
    }
    let mut at = BTreeSet::new();
    if total <= 40 {
        at.extend(0..total);
        g.class("every operation of the session failed in turn");
    } else {
        for _ in 0..16 {
            at.insert(g.draw(total - 1));
        }
    }
    for n in at {
        let transient = g.chance(1, 6);
        if transient {
            ctl.fail_kind.set(Some(ErrorKind::Interrupted));
        } else {
            ctl.gen_fail_kind(g);
        }
        let kind = ctl.fail_kind.get();
        let len = match g.draw(3) {
            0 | 1 => 1,
            2 => 1 + g.draw(2),
            _ if transient => 3,
            _ => u64::MAX,
        };
        reset(&w);
        ctl.fail_at.set(Some(n));
        ctl.fail_len.set(len);
        let r = session(&w, transient)
            .map_err(|e| Fail(format!("operation {n} of {total} fails ({kind:?}, {len} times): {}", e.0)))?;
        if r.met {
            g.nontrivial();
            g.class(if transient { "transient failure" } else { "failing operation" });
        }
    }
    Ok(())
}

fn reset(w: &World) {
    let c = &w.img.ctl;
    c.fail_at.set(None);
    c.bad.borrow_mut().clear();
    c.ops.set(0);
}

struct Session {
    met: bool,
    reads: Vec<(u64, u64)>,
}

fn session(w: &World, transient: bool) -> Result<Session, Fail> {
    session_on(w, &w.img, transient)
}

/// Opens the filesystem and reads everything, judging each call by whether a fault was met in it.
fn session_on(w: &World, img: &Done, transient: bool) -> Result<Session, Fail> {
    let ctl = &img.ctl;
    ctl.ops.set(0);
    *ctl.reads.borrow_mut() = Some(vec![]);
    let mut met = false;
    let mut call = |what: &dyn Fn() -> String, failed: Option<&std::io::Error>| -> R {
        let fault = ctl.failed.replace(false);
        let eof = ctl.hit_eof.replace(false);
        met |= fault || eof;
        match failed {
            None if fault && !transient => Err(Fail(format!("{}: reported success", what()))),
            Some(e) if !fault && !eof => Err(Fail(format!("{}: failed without a fault: {e}", what()))),
            _ => Ok(()),
        }
    };
    ctl.failed.set(false);
    ctl.hit_eof.set(false);
    let fs = img.open();
    call(&|| "opening".into(), fs.as_ref().err())?;
    let done = |met: bool| {
        let reads = ctl.reads.borrow_mut().take().unwrap();
        Ok(Session { met, reads })
    };
    let Ok(mut fs) = fs else { return done(met) };
    ensure_eq!(fs.block_size() as u64, w.img.cfg.bs(), "block size");
    let bs = w.img.cfg.bs();
    let mut buf = vec![0; bs as usize];
    for item in &w.items {
        let x = open_ino(&mut fs, item.ino());
        call(&|| format!("opening inode {}", item.ino()), x.as_ref().err())?;
        let Ok(mut x) = x else { continue };
        ensure!(is_kind(&x, item), "inode {} is of another type", item.ino());
        let mut got = 0;
        let mut errs = 0;
        loop {
            for b in buf.iter_mut().step_by(7) {
                *b ^= 0x55;
            }
            let r = step(&mut x, &mut buf);
            if let Got::Error(e) = &r {
                // once a reader has failed it may go on failing
                if errs == 0 {
                    call(&|| format!("inode {}, result {got}", item.ino()), Some(e))?;
                }
                ctl.failed.set(false);
                ctl.hit_eof.set(false);
                errs += 1;
                if errs > 4 {
                    break;
                }
                continue;
            }
            call(&|| format!("inode {}, result {got}", item.ino()), None)?;
            // the reference is the whole device even when the one read is cut short
            matches_step(&w.img, item, got, &r, &buf)
                .map_err(|e| Fail(format!("inode {}{}: {}", item.ino(), if errs > 0 { " after an error" } else { "" }, e.0)))?;
            if let Got::End = r {
                break;
            }
            got += 1;
        }
    }
    done(met)
}

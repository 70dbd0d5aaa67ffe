use super::mdset::read;
use crate::block_device::BlockDevice;
use crate::engine::*;
use crate::mdimg::*;
use std::collections::BTreeSet;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C03",
    quick: 400_000,
    thorough: 30_000_000,
    rule: "the case holds a sector whose stripe is broken (parity mismatch, unreadable, short or missing member) and was read",
    assumptions: &[
        "corruption of several members that cancels out in P cannot be seen by P alone and is left out",
        "devices fail reads in whole device blocks",
    ],
    run,
    pinned: &[],
};

#[derive(Debug)]
enum Fault {
    Flip { row: (u64, u64), member: usize, byte: usize, mask: u8 },
    /// The whole sector replaced by a pattern (0..=255), another member's sector (256 + member) or junk.
    Overwrite { row: (u64, u64), member: usize, with: usize },
    Missing(usize),
    Short(usize, u64),
    Unreadable { member: usize, row: (u64, u64) },
    None,
}

fn run(g: &mut G) -> R {
    let level = if g.strat(8) == 7 { 5 } else { 6 };
    let big = g.chance(1, 4);
    let max_n = if g.chance(1, 150) { 300 } else if g.chance(1, 6) { 120 } else { 20 };
    let mut a = gen_array(
        g,
        &Knobs {
            level,
            max_n,
            max_chunks: if big { None } else { Some(20) },
            max_chunk: 64,
            any_chunk: true,
            ..Default::default()
        },
    );
    let geo = a.geo;
    if g.chance(1, 3) {
        a.content = Content::Patterned(g.u64b());
    }
    // a few stripe rows, some of them neighbours
    let mut rows: BTreeSet<(u64, u64)> = BTreeSet::new();
    for _ in 0..2 + g.draw(4) {
        let r = g.draw(geo.per_dev - 1);
        rows.insert((r / geo.chunk, r % geo.chunk));
        if g.chance(1, 2) && r + 1 < geo.per_dev {
            rows.insert(((r + 1) / geo.chunk, (r + 1) % geo.chunk));
        }
    }
    for (s, o) in &rows {
        a.fill_row(*s, *o);
    }
    let rows: Vec<_> = rows.into_iter().collect();
    let nf = g.range(1, 2);
    let mut faults = vec![];
    for _ in 0..nf {
        let member = g.us(0, geo.n as usize - 1);
        let row = rows[g.us(0, rows.len() - 1)];
        faults.push(match g.draw(9) {
            0..=2 => Fault::Flip {
                row,
                member,
                byte: if g.chance(1, 3) { g.pick(&[0, 511, 1, 510, 255, 256]) } else { g.us(0, 511) },
                mask: if g.chance(1, 2) { 1 << g.draw(7) } else { g.range(1, 255) as u8 },
            },
            3 | 4 => Fault::Overwrite {
                row,
                member,
                with: match g.draw(5) {
                    0 | 1 => 0,
                    2 => 0xff,
                    3 => g.us(0, 255),
                    4 => 256 + g.us(0, geo.n as usize - 1),
                    _ => 1000,
                },
            },
            5 => Fault::Missing(member),
            6 if matches!(a.members[member].ver, Ver::V11 | Ver::V12) => {
                let m = &a.members[member];
                let bs = m.block_size as u64;
                let cut = (m.data_offset + geo.member_sector(row.0, row.1) + g.draw(1)) * 512;
                Fault::Short(member, (cut.max(12288) / bs * bs).max(12288_u64.div_ceil(bs) * bs))
            }
            _ => Fault::Unreadable { member, row },
        });
    }
    for f in &faults {
        match f {
            Fault::Flip { row, member, byte, mask } => {
                let m = &mut a.members[*member];
                m.store.xor((m.data_offset + geo.member_sector(row.0, row.1)) * 512 + *byte as u64, *mask);
            }
            Fault::Overwrite { row, member, with } => {
                let sector = |m: usize| (a.members[m].data_offset + geo.member_sector(row.0, row.1)) * 512;
                let mut b = [*with as u8; 512];
                match *with {
                    0..=255 => {}
                    1000 => b = blob(g.u64b(), 512).try_into().unwrap(),
                    m => drop(a.members[m - 256].store.read(sector(m - 256), &mut b)),
                }
                let at = sector(*member);
                a.members[*member].store.write(at, &b);
            }
            _ => {}
        }
    }
    // what each row now holds: Err if P contradicts the data, Ok(true) if data or P are not what was stored
    let states: Vec<Result<bool, ()>> = rows
        .iter()
        .map(|row| {
            let (mut xor, mut changed) = ([0u8; 512], false);
            let data: Vec<[u8; 512]> =
                (0..geo.dd()).map(|k| a.content.sector(geo.logical(row.0, row.1, k))).collect();
            let p = parity(&data).0;
            for (i, sl) in geo.slots(row.0).into_iter().enumerate() {
                let want = match sl {
                    Slot::D(k) => &data[k as usize],
                    Slot::P => &p,
                    Slot::Q => continue,
                };
                let mut b = [0u8; 512];
                a.members[i].store.read((a.members[i].data_offset + geo.member_sector(row.0, row.1)) * 512, &mut b);
                xor.iter_mut().zip(&b).for_each(|(x, y)| *x ^= y);
                changed |= b != *want;
            }
            if xor != [0; 512] { Err(()) } else { Ok(changed) }
        })
        .collect();
    for f in &faults {
        if let Fault::Short(member, len) = f {
            let m = &mut a.members[*member];
            m.store.len = m.store.len.min(*len);
        }
    }
    let offs: Vec<u64> = a.members.iter().map(|m| m.data_offset).collect();
    let b = a.finish();
    g.describe(|| format!("{} rows {rows:?} faults {faults:?}", b.describe()));
    let order: Vec<usize> =
        b.order(g).into_iter().filter(|i| !faults.iter().any(|f| matches!(f, Fault::Missing(m) if m == i))).collect();
    if order.is_empty() {
        return Ok(());
    }
    let mut arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?;
    for f in &faults {
        if let Fault::Unreadable { member, row } = f {
            let at = (offs[*member] + geo.member_sector(row.0, row.1)) * 512;
            b.devs[*member].1.bad.borrow_mut().push((at, at + 512));
            b.devs[*member].1.gen_fail_kind(g);
        }
    }
    // does the device block that holds this sector read?
    let block_ok = |member: usize, sec: u64| {
        let bs = b.devs[member].2 as u64;
        let at = (offs[member] + sec) * 512 / bs * bs;
        at + bs <= b.devs[member].0.len / bs * bs
            && !b.devs[member].1.bad.borrow().iter().any(|(s, e)| at < *e && at + bs > *s)
    };
    let any_missing = faults.iter().any(|f| matches!(f, Fault::Missing(_)));
    let judge = |row: &(u64, u64), state: &Result<bool, ()>| {
        let sec = geo.member_sector(row.0, row.1);
        let slots = geo.slots(row.0);
        let mut broken = any_missing || level != 6;
        // Q takes no part in the check of P
        let mut unsure = false;
        for m in 0..geo.n as usize {
            let exact = (offs[m] + sec) * 512;
            if exact + 512 > b.devs[m].0.len
                || b.devs[m].1.bad.borrow().iter().any(|(s, e)| exact < *e && exact + 512 > *s)
            {
                if slots[m] == Slot::Q {
                    unsure = true;
                } else {
                    broken = true;
                }
            } else if !block_ok(m, sec) {
                unsure = true;
            }
        }
        (broken | state.is_err(), unsure)
    };
    // the data sectors of the rows in order; then, at times, again in another order, when failed sectors may have come back
    let mut todo: Vec<(usize, u64)> = (0..rows.len()).flat_map(|i| (0..geo.dd()).map(move |k| (i, k))).collect();
    let passes = 1 + g.chance(1, 3) as usize;
    for pass in 0..passes {
        if pass > 0 {
            match g.draw(3) {
                0 => arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?,
                1 => arr = arr.try_clone().map_err(|e| Fail(format!("clone: {e}")))?,
                _ => {}
            }
            g.shuffle(&mut todo);
            todo.truncate(40);
            if g.chance(1, 2) {
                g.class("failed sectors read again");
                b.devs.iter().for_each(|d| d.1.bad.borrow_mut().clear());
            }
        }
        for (i, k) in &todo {
            let (row, state) = (&rows[*i], &states[*i]);
            if let Ok(true) = state {
                g.class("cancelling corruption (skipped)");
                continue;
            }
            let (broken, unsure) = judge(row, state);
            let l = geo.logical(row.0, row.1, *k);
            let got = read(&mut arr, l);
            if broken {
                g.nontrivial();
                // data on an unaffected member may be returned; bytes that differ from what was stored may not
                if let Ok(x) = got {
                    ensure!(x == b.content.sector(l), "sector {l}: wrong bytes from a broken stripe");
                    ensure!(false, "sector {l}: read succeeded though its stripe is broken");
                }
            } else {
                match got {
                    Ok(x) => ensure!(x == b.content.sector(l), "sector {l}: wrong bytes from an intact stripe"),
                    Err(()) => ensure!(unsure, "sector {l}: an intact stripe does not read"),
                }
            }
        }
    }
    if level == 5 {
        g.class("RAID-5 refused");
        ensure!(arr.block_count().is_ok(), "a RAID-5 array has no size");
    }
    for f in &faults {
        g.class(match f {
            Fault::Flip { .. } => "corrupt byte",
            Fault::Overwrite { .. } => "overwritten sector",
            Fault::Missing(_) => "missing member",
            Fault::Short(..) => "short member",
            Fault::Unreadable { .. } => "unreadable sector",
            Fault::None => "none",
        });
    }
    Ok(())
}

use crate::engine::*;
use crate::md::verif::*;
use crate::mdimg::{slot, Slot, RAID5_LAYOUTS, RAID6_LAYOUTS};
use std::collections::HashSet;

pub static PROP: Prop = Prop {
    id: "C02",
    quick: 24_000_000,
    thorough: 120_000_000,
    rule: "a valid geometry whose mapping was inverted and compared, at a sector beyond the first stripe; distinct by choice sequence",
    assumptions: &[
        "the oracle is the inverse mapping (raid5_compute_blocknr), written independently of the forward mapping under test",
        "a three-member RAID-6 (which md refuses) may be mapped or refused",
    ],
    run,
    pinned: &[("small-geometries-exhaustively", exhaustive)],
};

type M = Option<(u64, u64, Option<u64>, u64)>;

fn map(level: u32, layout: u32, l: u64, chunk: u32, n: u32) -> Result<M, Fail> {
    Ok(match MdAlgorithm::from_level_and_layout(level, layout) {
        MdAlgorithm::Raid5(a) => a
            .compute_sector(SectorNumber(l), SectorCount(chunk), DeviceCount(n))
            .map(|(s, p, d)| (s.0, p.0 as u64, None, d.0 as u64)),
        MdAlgorithm::Raid6(a) => a
            .compute_sector(SectorNumber(l), SectorCount(chunk), DeviceCount(n))
            .map(|(s, p, q, d)| (s.0, p.0 as u64, Some(q.0 as u64), d.0 as u64)),
        MdAlgorithm::Unsupported { .. } => {
            return Err(Fail(format!("level {level} layout {layout} is not supported")))
        }
    })
}

fn check(level: u32, layout: u32, l: u64, chunk: u32, n: u32) -> Result<Option<(u64, u64)>, Fail> {
    let at = || format!("level {level} layout {layout} n {n} chunk {chunk} sector {l}");
    let m = map(level, layout, l, chunk, n)?;
    let min = if level == 6 { 4 } else { 2 };
    if chunk == 0 || n < min - (level == 6) as u32 {
        ensure!(m.is_none(), "{}: impossible geometry mapped to {m:?}", at());
        return Ok(None);
    }
    let Some((sec, p, q, d)) = m else {
        ensure!(n < min, "{}: not mapped", at());
        return Ok(None);
    };
    let n64 = n as u64;
    let (s, o) = (sec / chunk as u64, sec % chunk as u64);
    ensure!(d < n64 && p < n64, "{}: member out of range in {m:?}", at());
    let k = match slot(level, layout, n64, s, d) {
        Slot::D(k) => k,
        x => return Err(Fail(format!("{}: mapped to a member that holds {x:?} in stripe {s} ({m:?})", at()))),
    };
    let dd = (n - if level == 6 { 2 } else { 1 }) as u64;
    let back = (s as u128 * dd as u128 + k as u128) * chunk as u128 + o as u128;
    ensure!(back == l as u128, "{}: mapped to {m:?}, which holds sector {back}", at());
    ensure!(slot(level, layout, n64, s, p) == Slot::P, "{}: P said to be on member {p}", at());
    if let Some(q) = q {
        ensure!(q < n64 && slot(level, layout, n64, s, q) == Slot::Q, "{}: Q said to be on member {q}", at());
    }
    Ok(Some((sec, d)))
}

fn run(g: &mut G) -> R {
    let i = g.strat(22);
    let (level, layout) = match i {
        0..=13 => (6, RAID6_LAYOUTS[i as usize]),
        14..=19 => (5, RAID5_LAYOUTS[i as usize - 14]),
        _ => (if i == 20 { 5 } else { 6 }, 1000),
    };
    if layout == 1000 {
        // unknown codes and levels
        let layout = g.u32b();
        let known: &[u32] = if level == 5 { &RAID5_LAYOUTS } else { &RAID6_LAYOUTS };
        let other = g.u32b();
        for (lv, la) in [(level, layout), (other, layout)] {
            let a = MdAlgorithm::from_level_and_layout(lv, la);
            let ok = match &a {
                MdAlgorithm::Raid5(x) => lv == 5 && RAID5_LAYOUTS.contains(&la) && Raid5Algorithm::from_layout(la).as_ref() == Some(x),
                MdAlgorithm::Raid6(x) => lv == 6 && RAID6_LAYOUTS.contains(&la) && Raid6Algorithm::from_layout(la).as_ref() == Some(x),
                MdAlgorithm::Unsupported { level, layout } => {
                    *level == lv
                        && *layout == la
                        && !(lv == 5 && RAID5_LAYOUTS.contains(&la))
                        && !(lv == 6 && RAID6_LAYOUTS.contains(&la))
                }
            };
            ensure!(ok, "level {lv} layout {la} taken for {a:?}");
            let par = a.parity_device_count().map(|c| c.0);
            let exp = match (lv, &a) {
                (_, MdAlgorithm::Unsupported { .. }) => None,
                (5, _) => Some(1),
                _ => Some(2),
            };
            ensure_eq!(par, exp, "parity members of level {lv} layout {la}");
        }
        if !known.contains(&layout) {
            g.nontrivial();
            g.class("unknown layout code");
        }
        return Ok(());
    }
    let n = match g.draw(9) {
        0 => g.u32b(),
        1 => g.draw(3) as u32,
        _ => g.range(2, 60) as u32,
    };
    let chunk = match g.draw(5) {
        0 => g.u32b(),
        1 => g.range(1, 5000) as u32,
        _ => 1 << g.draw(14),
    };
    let l = match g.draw(5) {
        0 => g.u64b(),
        1 => u64::MAX - g.draw(1 << 20),
        2 => g.draw(1 << 44),
        3 => {
            // near a stripe boundary
            let stripe = (chunk as u128 * n.max(3) as u128).min(1 << 50) as u64;
            let k = g.draw((u64::MAX / stripe.max(1)).min(1 << 40));
            (k * stripe.max(1)).wrapping_add(g.draw(4)).wrapping_sub(2)
        }
        _ => g.draw(200_000),
    };
    g.describe(|| format!("level {level} layout {layout} n {n} chunk {chunk} sector {l}"));
    // layout 9 steps past the last stripe number when stripes are single sectors of one data member
    let a = check(level, layout, l, chunk, n)?;
    if a.is_some() && l as u128 >= chunk as u128 * n as u128 {
        g.nontrivial();
    }
    let l2 = if g.chance(1, 2) { l ^ (1 << g.draw(63)) } else { l.wrapping_add(chunk as u64 * g.draw(64)) };
    if l2 != l {
        let b = check(level, layout, l2, chunk, n)?;
        ensure!(a.is_none() || a != b, "level {level} layout {layout} n {n} chunk {chunk}: sectors {l} and {l2} share {a:?}");
    }
    Ok(())
}

fn exhaustive() -> R {
    for (level, layouts) in [(5u32, &RAID5_LAYOUTS[..]), (6, &RAID6_LAYOUTS[..])] {
        for layout in layouts {
            let min = if level == 6 { 4 } else { 2 };
            for n in min..=14u32 {
                for chunk in [1u32, 2, 3, 8] {
                    let dd = (n - if level == 6 { 2 } else { 1 }) as u64;
                    let stripes = 3 * n as u64 + 1;
                    let mut used = HashSet::new();
                    for l in 0..stripes * dd * chunk as u64 {
                        let Some(x) = check(level, *layout, l, chunk, n)? else {
                            return Err(Fail(format!("level {level} layout {layout} n {n} sector {l} not mapped")));
                        };
                        ensure!(used.insert(x), "level {level} layout {layout} n {n}: location {x:?} used twice");
                        ensure!(x.0 < stripes * chunk as u64, "level {level} layout {layout} n {n}: sector {l} leaves its stripes");
                    }
                }
            }
        }
    }
    for layout in 0..5000u32 {
        ensure_eq!(Raid5Algorithm::from_layout(layout).is_some(), RAID5_LAYOUTS.contains(&layout), "RAID-5 layout {layout} known");
        ensure_eq!(Raid6Algorithm::from_layout(layout).is_some(), RAID6_LAYOUTS.contains(&layout), "RAID-6 layout {layout} known");
    }
    for level in [0u32, 1, 4, 7, 10, u32::MAX, u32::MAX - 1] {
        for layout in 0..40 {
            let a = MdAlgorithm::from_level_and_layout(level, layout);
            ensure!(matches!(a, MdAlgorithm::Unsupported { .. }), "level {level} layout {layout} taken for {a:?}");
        }
    }
    Ok(())
}

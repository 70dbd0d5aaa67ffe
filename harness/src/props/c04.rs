use super::mdset::read;
use crate::block_device::{BlockDevice, BlockNumber};
use crate::dev::Storage;
use crate::engine::*;
use crate::mdimg::*;

pub static PROP: Prop = Prop {
    id: "C04",
    quick: 1_000_000,
    thorough: 50_000_000,
    rule: "the array has more than one member and either agrees on a geometry whose size was compared, or disagrees in one named field; distinct by choice sequence",
    assumptions: &[
        "arrays in the middle of a reshape are outside the generator (known finding reshape-count)",
        "a device without superblock among the members may make the size an error, never a different size",
    ],
    run,
    pinned: &[("reshape-count", reshape_count)],
};

fn run(g: &mut G) -> R {
    let kind = g.strat(10);
    let level = g.pick(&[6u32, 6, 5]);
    let max_chunks = if g.chance(1, 2) { None } else { Some(20) };
    let max_chunk = if g.chance(1, 3) { 1 << 20 } else { 64 };
    let mut a = gen_array(g, &Knobs { level, max_n: 30, max_chunks, max_chunk, any_chunk: true, ..Default::default() });
    let ver = a.members[0].ver;
    let n = a.members.len();
    let geo = a.geo;
    let mut expect: Option<u64> = Some(geo.sectors());
    let mut may_fail = false;
    let victim = g.us(0, n - 1);
    let mut devs_without = 0;
    let mut what = "";
    match kind {
        0 | 1 => what = "agreement",
        2 => {
            what = "no superblock anywhere";
            devs_without = n;
            expect = None;
        }
        3 => {
            what = "one device without superblock";
            devs_without = 1;
            may_fail = true;
        }
        4 => {
            what = "level disagrees";
            a.members[victim].sb.level = if level == 6 { 5 } else { 6 };
            a.members[victim].sb.layout = 0;
            expect = None;
        }
        5 => {
            what = "layout disagrees";
            let s = &mut a.members[victim].sb;
            s.layout = if s.layout == 0 { 1 } else { 0 };
            expect = None;
        }
        6 => {
            what = "member count disagrees";
            let s = &mut a.members[victim].sb;
            s.raid_disks = if g.chance(1, 2) { s.raid_disks + 1 } else { s.raid_disks - 1 };
            expect = None;
        }
        7 => {
            what = "member size disagrees";
            let d = 2 << g.draw(20);
            let size = a.members[victim].sb.per_dev;
            let s = &mut a.members[victim].sb;
            s.per_dev = if ver.is_v1() { s.per_dev + d } else { (s.per_dev + d) & 0x1_ffff_ffff };
            if s.per_dev == size {
                return Ok(());
            }
            expect = None;
        }
        8 => {
            what = "chunk size disagrees";
            let s = &mut a.members[victim].sb;
            s.chunk = if g.chance(1, 2) { s.chunk * 2 } else { s.chunk + 1 };
            expect = None;
        }
        _ => {
            // every member holds the same odd geometry
            what = "unusual geometry agreed on";
            let par = if level == 6 { 2u64 } else { 1 };
            let (mut lv, mut rd, mut pd, mut ck) = (level, geo.n as u32, a.members[0].sb.per_dev, geo.chunk as u32);
            match g.draw(4) {
                0 => lv = g.pick(&[0, 1, 4, 10, 7, u32::MAX, 0xffff_fffc]),
                1 => rd = g.pick(&[0, 1, u32::MAX, 2, 3]),
                2 if ver.is_v1() => pd = u64::MAX >> g.draw(20),
                3 => {
                    ck = 1 + g.draw(if ver.is_v1() { u32::MAX as u64 - 1 } else { (1 << 23) - 2 }) as u32;
                    if ver.is_v1() && g.chance(1, 2) {
                        pd = g.u64b();
                    }
                }
                _ => {
                    rd = u32::MAX;
                    if ver.is_v1() {
                        pd = g.u64b();
                    }
                }
            }
            for m in &mut a.members {
                m.sb.level = lv;
                m.sb.raid_disks = rd;
                m.sb.per_dev = pd;
                m.sb.chunk = ck;
            }
            expect = if lv != level { None } else { (rd as u64).checked_sub(par).and_then(|d| d.checked_mul(pd / ck as u64 * ck as u64)) };
            // arrays too small for their level need not have a size
            may_fail = (rd as u64) <= par + 1;
        }
    }
    if n == 1 && kind >= 4 && kind <= 8 {
        return Ok(());
    }
    for r in 0..2 {
        let row = g.draw(geo.per_dev - 1);
        if kind <= 1 {
            a.fill_row(row / geo.chunk, row % geo.chunk);
        }
    }
    // consistent stripes beyond the end, so that only the size stops a read there
    let beyond = g.chance(1, 2) && geo.chunk <= 64 && geo.per_dev < 1 << 30;
    if beyond {
        let zero = g.chance(1, 3);
        let more = (2 * geo.chunk * 512).next_multiple_of(8192);
        for m in &mut a.members {
            m.store.len += more;
        }
        let end = geo.per_dev / geo.chunk;
        for s in end..end + 2 {
            for o in 0..geo.chunk {
                if zero {
                    for m in &mut a.members {
                        let at = (m.data_offset + geo.member_sector(s, o)) * 512;
                        m.store.write(at, &[0; 512]);
                    }
                } else {
                    a.fill_row(s, o);
                }
            }
        }
        g.class("consistent stripes beyond the end");
    }
    let mut b = a.finish();
    for d in 0..devs_without {
        let len = b.devs[d].0.len;
        let store = if g.chance(1, 2) { Storage::new(len, 99) } else { Storage::zeroed(len) };
        b.devs[d].0 = std::rc::Rc::new(store);
    }
    g.describe(|| format!("{what}: {}", b.describe()));
    g.class(what);
    let order = b.order(g);
    let mut arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?;
    let size = arr.block_count().map(|c| c.0);
    match (expect, &size) {
        (Some(e), Ok(s)) => ensure_eq!(*s, e, "array size in sectors"),
        (Some(e), Err(err)) => ensure!(may_fail, "{what}: no size ({err}), expected {e} sectors"),
        (None, Ok(s)) => return Err(Fail(format!("{what}: size given as {s} sectors"))),
        (None, Err(_)) => {}
    }
    if n > 1 {
        g.nontrivial();
    }
    ensure!(matches!(arr.block_size(), Ok(x) if x.0 == 512), "block size is not 512");
    // reads stay inside the size, and there are none without a size
    let probe = match g.draw(3) {
        0 => 0,
        1 => g.draw(geo.sectors() - 1),
        2 => geo.sectors().saturating_add(g.draw(2 * geo.chunk * geo.dd())),
        _ => g.u64b(),
    };
    let mut buf = [0u8; 512];
    for l in [probe, size.as_ref().copied().unwrap_or(7), u64::MAX] {
        let inside = matches!(size, Ok(s) if l < s);
        let r = arr.read_block(BlockNumber(l), &mut buf);
        ensure!(inside || r.is_err(), "{what}: sector {l} of {size:?} was read");
    }
    Ok(())
}

/// An array being grown from n to n+1 members: md records the new member count in raid_disks and the difference in
/// delta_disks.
fn reshape_count() -> R {
    let mut g = G::random(0xc0de, 3, false);
    let mut a = gen_array(
        &mut g,
        &Knobs { layout: Some(2), max_n: 5, max_chunks: Some(8), max_chunk: 4, ..Default::default() },
    );
    let geo = a.geo;
    for m in &mut a.members {
        m.sb.reshape =
            Some(Reshape { level: 6, pos: 0, delta: 1, layout: 2, chunk: geo.chunk as u32, offset: 0 });
        m.sb.minor0 = 91;
    }
    let b = a.finish();
    let order: Vec<usize> = (0..b.devs.len()).collect();
    let arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?;
    if let Ok(s) = arr.block_count() {
        let (new, old) = (geo.sectors(), geo.sectors() - geo.per_dev);
        ensure!(
            s.0 == new || s.0 == old,
            "array growing from {} to {} members: size given as {} sectors, neither the old {old} nor the new {new}",
            geo.n - 1,
            geo.n,
            s.0
        );
    }
    Ok(())
}

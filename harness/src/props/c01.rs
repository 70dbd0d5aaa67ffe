use crate::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use crate::engine::*;
use crate::mdimg::*;
use std::collections::BTreeSet;
use std::io::{Read, Seek, SeekFrom};

pub static PROP: Prop = Prop {
    id: "C01",
    quick: 800_000,
    thorough: 30_000_000,
    rule: "a sector of a stripe other than the first was read back from an array whose stripes were laid out by the inverse mapping of the kernel's raid5 driver; distinct by the full choice sequence",
    assumptions: &[
        "the builder's layout tables follow raid5_compute_blocknr of the Linux kernel (no mdadm is available here to cross-check)",
        "arrays in the middle of a reshape are outside the generator (known finding reshape-boundary)",
        "md itself takes only powers of two as chunk sizes; others are generated as well, by the same formulas",
    ],
    run,
    pinned: &[("reshape-boundary", reshape_boundary), ("every-layout-whole-array", whole_arrays)],
};

fn run(g: &mut G) -> R {
    let layout = RAID6_LAYOUTS[g.strat(14) as usize];
    let big = g.chance(1, 3);
    let knobs = Knobs {
        layout: Some(layout),
        max_n: if g.chance(1, 150) { 384 } else if g.thorough { 200 } else { 40 },
        max_chunks: if big { None } else { Some(40) },
        max_chunk: 2048,
        any_chunk: true,
        reshape_done: true,
        ..Default::default()
    };
    let mut a = gen_array(g, &knobs);
    let geo = a.geo;
    let total = geo.sectors();
    // sectors to read: ends, chunk and stripe boundaries, and anything
    let mut want = BTreeSet::new();
    let count = 3 + g.draw(9);
    for _ in 0..count {
        let l = match g.draw(5) {
            0 => total - 1 - g.draw(total.min(3) - 1),
            1 => g.draw(total.min(4) - 1),
            2 => {
                let c = g.draw(total / geo.chunk - 1) * geo.chunk;
                c + if g.chance(1, 2) { geo.chunk - 1 } else { 0 }
            }
            3 => {
                // a chunk in the first few rotations
                let lim = (geo.n * geo.n * geo.dd()).min(total / geo.chunk) - 1;
                g.draw(lim) * geo.chunk + g.draw(geo.chunk - 1)
            }
            _ => g.draw(total - 1),
        };
        want.insert(l);
    }
    // sectors a power of two of sectors or stripes away from others
    if g.chance(1, 3) {
        for l in want.clone() {
            let k = g.draw(40);
            let m = if g.chance(1, 2) { l ^ (1 << k) } else { l + (geo.chunk * geo.dd() << k) };
            if m < total {
                want.insert(m);
            }
        }
        g.class("sectors a power of two apart");
    }
    let stream = g.chance(1, 4) && geo.chunk * geo.n < 400;
    let stream_from = if stream { g.draw(total - 1) } else { 0 };
    let stream_len = if stream { (1 + g.draw(40)).min(total - stream_from) } else { 0 };
    let mut rows: BTreeSet<_> = want.iter().map(|l| geo.row_of(*l)).collect();
    rows.extend((stream_from..stream_from + stream_len).map(|l| geo.row_of(l)));
    for (s, o) in rows {
        a.fill_row(s, o);
    }
    let b = a.finish();
    g.describe(|| format!("{} sectors {want:?}", b.describe()));
    let order = b.order(g);
    let mut arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?;
    ensure!(matches!(arr.block_size(), Ok(s) if u32::from(s) == 512), "block size is not 512");
    if g.chance(1, 8) {
        arr = arr.try_clone().map_err(|e| Fail(format!("clone: {e}")))?;
    }
    let mut want: Vec<u64> = want.into_iter().collect();
    if g.chance(1, 2) {
        g.shuffle(&mut want);
    }
    for l in want {
        if l >= geo.chunk * geo.dd() {
            g.nontrivial();
        }
        let extra = match g.draw(4) {
            0 => g.us(0, 600),
            1 => 512 * g.us(0, 7),
            _ => 0,
        };
        let mut buf = vec![0xa5u8; 512 + extra];
        let r = arr.read_block(BlockNumber(l), &mut buf);
        ensure!(matches!(r, Ok(512)), "reading sector {l} of {total} into {} bytes: {r:?}", buf.len());
        ensure!(buf[..512] == b.content.sector(l)[..], "sector {l}: wrong bytes");
        ensure!(buf[512..].iter().all(|b| *b == 0xa5), "sector {l}: wrote past the first 512 bytes");
        if g.chance(1, 10) {
            let n = g.us(0, 511);
            ensure!(arr.read_block(BlockNumber(l), &mut vec![0; n]).is_err(), "a buffer of {n} bytes was accepted");
        }
    }
    if stream {
        g.class("byte stream over the array");
        let mut r = BlockDeviceReader::new(arr);
        let skip = g.draw(511);
        let mut got = vec![0u8; (stream_len * 512 - skip) as usize];
        let r = r.seek(SeekFrom::Start(stream_from * 512 + skip)).and_then(|_| r.read_exact(&mut got));
        ensure!(r.is_ok(), "stream at {stream_from}+{stream_len}: {r:?}");
        let exp: Vec<u8> = (stream_from..stream_from + stream_len).flat_map(|l| b.content.sector(l)).collect();
        ensure!(got == exp[skip as usize..], "stream at {stream_from}: wrong bytes");
    }
    if big {
        g.class("large members");
    }
    if b.sbs.iter().any(|s| s.0.data_offset > 0) {
        g.class("data offset");
    }
    Ok(())
}

fn whole_arrays() -> R {
    let mut i = 0;
    for layout in RAID6_LAYOUTS {
        for n in 4..=9 {
            i += 1;
            let mut g = G::random(0xa11, i, false);
            let mut a = gen_array(&mut g, &Knobs { layout: Some(layout), max_n: 4, max_chunks: Some(1), ..Default::default() });
            let ver = a.members[0].ver;
            let chunk = 2;
            let geo = Geo { level: 6, layout, n, chunk, per_dev: chunk * (2 * n + 3) };
            let proto = a.members.swap_remove(0);
            a.geo = geo;
            a.members = (0..n)
                .map(|k| {
                    let mut sb = proto.sb.member(k as u32);
                    sb.reshape = None;
                    sb.layout = layout;
                    sb.roles = (0..n as u32).collect();
                    sb.raid_disks = n as u32;
                    sb.chunk = chunk as u32;
                    sb.per_dev = geo.per_dev;
                    sb.data_offset = if ver.is_v1() && ver != Ver::V10 { 16 + k } else { 0 };
                    let off = sb.data_offset;
                    Member {
                        store: crate::dev::Storage::new(device_size(ver, off, geo.per_dev, 0, 512), k),
                        sb,
                        ver,
                        data_offset: off,
                        block_size: 512,
                    }
                })
                .collect();
            a.fill_all();
            let b = a.finish();
            let order: Vec<usize> = (0..n as usize).rev().collect();
            let mut r = BlockDeviceReader::new(b.open(&order).map_err(|e| Fail(format!("open: {e}")))?);
            let mut got = vec![];
            let res = r.read_to_end(&mut got);
            ensure!(res.is_ok(), "layout {layout} n {n}: {res:?}");
            ensure_eq!(got.len() as u64, geo.sectors() * 512, "layout {layout} n {n}: length");
            for l in 0..geo.sectors() {
                ensure!(
                    got[l as usize * 512..][..512] == b.content.sector(l)[..],
                    "layout {layout} n {n}: sector {l} is wrong"
                );
            }
        }
    }
    Ok(())
}

/// An array half-way through a change of layout: sectors below the reshape position are stored in the new layout, those
/// above it still in the old one.
fn reshape_boundary() -> R {
    let mut g = G::random(0xbeef, 7, false);
    let mut a = gen_array(
        &mut g,
        &Knobs { layout: Some(0), max_n: 5, max_chunks: Some(24), max_chunk: 4, ..Default::default() },
    );
    let new = Geo { layout: 2, ..a.geo };
    let old = a.geo;
    let stripe = old.chunk * old.dd();
    let stripes = old.per_dev / old.chunk;
    let pos_stripe = stripes / 2;
    for s in 0..stripes {
        a.geo = if s < pos_stripe { new } else { old };
        for o in 0..old.chunk {
            a.fill_row(s, o);
        }
    }
    a.geo = old;
    for m in &mut a.members {
        m.sb.reshape = Some(Reshape {
            level: 6,
            pos: pos_stripe * stripe,
            delta: 0,
            layout: 2,
            chunk: old.chunk as u32,
            offset: 0,
        });
        m.sb.minor0 = 91;
    }
    let b = a.finish();
    let order: Vec<usize> = (0..b.devs.len()).collect();
    let mut arr = b.open(&order).map_err(|e| Fail(format!("open: {e}")))?;
    for l in 0..old.sectors() {
        let mut buf = [0u8; 512];
        if arr.read_block(BlockNumber(l), &mut buf).is_ok() {
            ensure!(
                buf == b.content.sector(l),
                "mid-reshape array (layout 0 to 2): sector {l} on the old side of position {} reads back wrong bytes",
                pos_stripe * stripe
            );
        }
    }
    Ok(())
}

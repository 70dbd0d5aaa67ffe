use super::mdset::*;
use crate::block_device::BlockDevice;
use crate::engine::*;
use crate::mdimg::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C06",
    quick: 1_200_000,
    thorough: 40_000_000,
    rule: "the supplied set has a device that is no undisputed holder of a slot, or a role table that is not the identity, and sectors were read",
    assumptions: &[
        "P and Q checks hide a wrong supplier only if its bytes happen to equal the stored ones; suppliers are told apart by the reads their devices receive as well",
        "a set that includes a device without superblock may be refused as a whole",
    ],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    let set = gen_set(g, &SetKnobs { max_mutations: 3, reshape: false, rows: 2 });
    let fill = set.fill();
    let seen: Vec<_> = set.devs.iter().map(|d| d.seen()).collect();
    let all_sb = seen.iter().all(|s| s.is_some());
    let fmt = |s: &Seen| (s.alg, s.size, s.chunk, s.count, s.reshape.clone());
    let agreed = all_sb && !seen.is_empty() && seen.iter().all(|s| fmt(s.as_ref().unwrap()) == fmt(seen[0].as_ref().unwrap()));
    let complete = (0..set.geo.n as u32).all(|s| fill.contains(&Some(s)));
    g.describe(|| format!("{}; slots filled {fill:?}", set.describe()));
    let mut order: Vec<usize> = (0..set.devs.len()).collect();
    g.shuffle(&mut order);

    // open over devices that count what is read from them
    let mut ctls = BTreeMap::new();
    let mut members = vec![];
    for i in &order {
        let d = &set.devs[*i];
        let ctl = Rc::new(crate::dev::Ctl::default());
        let m = open_member(&(Rc::new(d.store.clone()), ctl.clone(), d.block_size))
            .map_err(|e| Fail(format!("opening device {i}: {e}")))?;
        ctl.bytes_read.set(0);
        ctls.insert(*i, ctl);
        members.push(m);
    }
    let mut arr = crate::md::MdArray::open(members);
    let interesting = fill.iter().any(|f| f.is_none()) || !complete;
    if interesting {
        g.nontrivial();
    }
    let mut expected_ok = false;
    for (s, off) in &set.rows {
        for k in 0..set.geo.dd() {
            let l = set.geo.logical(*s, *off, k);
            let got = read(&mut arr, l);
            for (i, c) in &ctls {
                ensure!(
                    fill[*i].is_some() || c.bytes_read.get() == 0,
                    "{} supplied data though it holds no undisputed slot",
                    set.devs[*i].name
                );
            }
            if !agreed {
                // no geometry to go by: whatever comes back must not be made up from a device outside its slot
                continue;
            }
            let base = set.geo;
            let f = seen[0].as_ref().unwrap();
            let same_geo = f.alg == (base.level, base.layout)
                && f.size == base.per_dev
                && f.chunk as u64 == base.chunk
                && f.count as u64 == base.n;
            if !same_geo {
                continue;
            }
            // every slot must be filled by the device that holds that member's data
            let mut right = true;
            for slot_no in 0..base.n as u32 {
                match fill.iter().position(|x| *x == Some(slot_no)) {
                    None => {
                        right = false;
                        ensure!(got.is_err(), "sector {l} reads though slot {slot_no} is unfilled");
                    }
                    Some(i) => {
                        let d = &set.devs[i];
                        let at = (d.sb.as_ref().map(|(sb, v)| if v.is_v1() { sb.data_offset } else { 0 }).unwrap()
                            + base.member_sector(*s, *off))
                            * 512;
                        let mut have = [0u8; 512];
                        let n = d.store.read(at, &mut have);
                        let data: Vec<[u8; 512]> =
                            (0..base.dd()).map(|k| set.content.sector(base.logical(*s, *off, k))).collect();
                        let (p, q) = parity(&data);
                        let want = match slot(base.level, base.layout, base.n, *s, slot_no as u64) {
                            Slot::D(k) => data[k as usize],
                            Slot::P => p,
                            Slot::Q => q,
                        };
                        right &= n == 512 && have == want;
                    }
                }
            }
            if right {
                expected_ok = true;
                ensure!(got.is_ok(), "sector {l} does not read though every slot has its undisputed holder");
                ensure!(got == Ok(set.content.sector(l)), "sector {l}: wrong bytes");
            }
        }
    }
    if expected_ok {
        g.class("read through undisputed holders");
        if set.log.len() > 0 || seen[0].as_ref().unwrap().roles.iter().enumerate().any(|(i, r)| i as u32 != *r) {
            g.nontrivial();
        }
    }
    if !complete {
        g.class("unfilled slot");
    }
    if all_sb && fill.iter().all(|f| f.is_none()) {
        g.class("role table void or empty");
    }
    Ok(())
}

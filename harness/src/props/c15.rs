use crate::engine::*;
use crate::ext4img::*;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C15",
    quick: 320_000,
    thorough: 4_000_000,
    rule: "a directory whose history includes deletions, or which has several blocks, unused records or a name of 250 bytes or more, was listed to its end and compared entry by entry; distinct by the full choice sequence",
    assumptions: &[
        "images come from the harness's own builder; directories evolve by ext4's own insertion and deletion rules",
        "hash-indexed directories are outside the generator (the tool refuses them, C21)",
    ],
    run,
    pinned: &[("one-record-per-64K-block", whole_block_records)],
};

fn run(g: &mut G) -> R {
    let k = Knobs { big: false, ..Default::default() };
    let mut img = Img::gen(g, &k);
    let ino = if g.chance(1, 3) { 2 } else { img.ino(g) };
    let ops = match g.draw(5) {
        0 => g.us(0, 4),
        1..=3 => g.us(1, 40),
        _ => g.us(1, 200),
    };
    let ops = if g.chance(1, 300) { 1000 + g.us(0, 4000) } else { ops };
    let parent = 1 + g.draw(200) as u32;
    let mut d = gen_dir(g, &img.cfg, ino, parent, ops);
    if g.chance(1, 6) {
        // a directory emptied by many deletions
        let n = g.draw(ops as u64);
        let keep = g.chance(3, 4);
        for _ in 0..n {
            d.delete_random(g, keep);
        }
    }
    let Some(f) = img.put_dir(g, ino, &d) else { return Ok(()) };
    let img = img.finish();
    let want: Vec<Entry> = d.live().iter().map(Entry::from).collect();
    let unused = d.blocks.iter().any(|b| b.recs.iter().any(|r| r.ino == 0));
    let slack = d.blocks.iter().any(|b| b.recs.iter().any(|r| r.ino != 0 && r.len > need(&r.name) + 12));
    g.describe(|| {
        let names: Vec<_> = want.iter().take(5).map(|e| String::from_utf8_lossy(&e.name).into_owned()).collect();
        format!("{} directory {} blocks {} entries {:?}", img.cfg.describe(), f.describe(), want.len(), names)
    });
    if d.blocks.len() > 1 {
        g.class("several blocks");
    }
    if unused {
        g.class("unused records");
    }
    if slack {
        g.class("records with slack");
    }
    let long = want.iter().any(|e| e.name.len() >= 250);
    if long {
        g.class("names of 250 bytes or more");
    }
    if want.iter().any(|e| std::str::from_utf8(&e.name).is_err()) {
        g.class("names that are not UTF-8");
    }
    if img.cfg.csum() {
        g.class("metadata checksums");
    }
    if d.blocks.len() > 1 || unused || long {
        g.nontrivial();
    }
    if g.chance(1, 4) {
        img.ctl.short.set(g.us(1, 3000));
    }
    let names: BTreeSet<_> = want.iter().map(|e| &e.name).collect();
    assert_eq!(names.len(), want.len());
    let mut fs = img.must_open()?;
    let mut dir = open_dir(&mut fs, ino)?;
    check_listing(&mut dir, &want)
}

/// 64 KiB blocks without checksums: an empty block is one record of 65536 bytes, which is stored as 65535 (or 0).
fn whole_block_records() -> R {
    for i in 0..8 {
        let mut g = G::random(0x64b, i, false);
        let mut img =
            Img::gen(&mut g, &Knobs { log_bs: Some(6), csum: Some(false), big: false, ..Default::default() });
        let ino = img.ino(&mut g);
        let mut d = gen_dir(&mut g, &img.cfg, ino, 2, 5);
        d.push_empty(&mut g);
        if i & 1 == 1 {
            d.push_empty(&mut g);
            let name = gen_name(&mut g);
            d.blocks.last_mut().unwrap().insert(&name, 77, 1);
        }
        let f = img.put_dir(&mut g, ino, &d).expect("harness: space");
        if i & 2 == 2 {
            // the other encoding
            let e = f.exts.last().unwrap();
            let at = (e.phys + e.len - 1) * img.cfg.bs();
            img.store.write(at + 4, &[0, 0]);
        }
        let want: Vec<Entry> = d.live().iter().map(Entry::from).collect();
        let img = img.finish();
        let mut fs = img.must_open()?;
        let mut dir = open_dir(&mut fs, ino)?;
        check_listing(&mut dir, &want)?;
    }
    Ok(())
}

//! A filesystem with several files and directories, shared by the properties about faults and interleavings.
use crate::engine::*;
use crate::ext4img::*;

#[derive(Clone)]
pub enum Item {
    File(FileSpec),
    Dir(FileSpec, Vec<Entry>),
}

impl Item {
    pub fn ino(&self) -> u32 {
        match self {
            Item::File(f) | Item::Dir(f, _) => f.ino,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Item::File(f) => format!("file {}", f.describe()),
            Item::Dir(f, e) => format!("directory {} ({} entries)", f.describe(), e.len()),
        }
    }
    /// Results a reader gives before the end.
    pub fn steps(&self, bs: u64) -> u64 {
        match self {
            Item::File(f) => f.blocks(bs),
            Item::Dir(_, e) => e.len() as u64,
        }
    }
}

pub struct World {
    pub img: Done,
    pub items: Vec<Item>,
}

pub fn gen_world(g: &mut G, k: &Knobs, max_items: u64, max_blocks: u64, ops: usize) -> Option<World> {
    let mut img = Img::gen(g, k);
    let mut items = vec![];
    for i in 0..1 + g.draw(max_items - 1) {
        let ino = if i == 0 && g.chance(1, 2) { 2 } else { img.ino(g) };
        if ino == 2 || g.chance(1, 3) {
            let n = g.us(0, ops);
            let d = gen_dir(g, &img.cfg, ino, 2, n);
            let Some(f) = img.put_dir(g, ino, &d) else { break };
            items.push(Item::Dir(f, d.live().iter().map(Entry::from).collect()));
        } else {
            let blocks = g.draw(max_blocks);
            let Some(f) = img.gen_file_at(g, ino, blocks) else { break };
            items.push(Item::File(f));
        }
    }
    if items.is_empty() {
        return None;
    }
    Some(World { img: img.finish(), items })
}

/// What one call gave.
pub enum Got {
    End,
    Block(usize),
    Entry(Entry),
    Error(std::io::Error),
}

pub fn step<D: Bytes>(x: &mut Opened<D>, buf: &mut [u8]) -> Got {
    match x {
        Opened::File(f) => match f.read_next_block(buf) {
            Ok(0) => Got::End,
            Ok(n) => Got::Block(n),
            Err(e) => Got::Error(e),
        },
        Opened::Dir(d) => match next_entry(d) {
            Ok(None) => Got::End,
            Ok(Some(e)) => Got::Entry(e),
            Err(e) => Got::Error(e),
        },
        Opened::Other(_) => Got::End,
    }
}

pub fn is_kind<D: Bytes>(x: &Opened<D>, item: &Item) -> bool {
    matches!((x, item), (Opened::File(_), Item::File(_)) | (Opened::Dir(_), Item::Dir(..)))
}

/// Whether `got` is result number i of a reader of `item`.
pub fn matches_step(img: &Done, item: &Item, i: u64, got: &Got, buf: &[u8]) -> R {
    let bs = img.cfg.bs();
    match (got, item) {
        (Got::Block(n), Item::File(f)) => {
            ensure!(i < f.blocks(bs), "a block after the last (block {i})");
            let want = img.expect(f, i);
            ensure_eq!(*n, want.len(), "length of block {i}");
            ensure!(buf[..*n] == want[..], "wrong bytes for block {i}");
        }
        (Got::Entry(e), Item::Dir(_, l)) => {
            ensure!((i as usize) < l.len(), "an entry after the last: {e:?}");
            ensure!(*e == l[i as usize], "entry {i}: {e:?} instead of {:?}", l[i as usize]);
        }
        (Got::End, _) => ensure!(i >= item.steps(bs), "the end after {i} of {} results", item.steps(bs)),
        (Got::Error(e), _) => return Err(Fail(format!("an error at result {i}: {e}"))),
        _ => return Err(Fail("wrong kind of result".into())),
    }
    Ok(())
}

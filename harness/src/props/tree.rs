//! A whole directory tree on a filesystem, and a walk over it through the code under test.
use crate::engine::*;
use crate::ext4::Ext4Fs;
use crate::ext4img::*;

pub enum Kind {
    Dir(Vec<Entry>),
    File,
    Other(u8),
}

pub struct Obj {
    pub spec: FileSpec,
    pub kind: Kind,
}

pub struct Tree {
    pub img: Done,
    pub objs: Vec<Obj>,
    pub depth: usize,
    pub links: bool,
}

impl Tree {
    pub fn describe(&self) -> String {
        let v: Vec<String> = self
            .objs
            .iter()
            .map(|o| match &o.kind {
                Kind::Dir(e) => format!("dir {}: {} entries", o.spec.ino, e.len()),
                Kind::File => format!("file {} of {} bytes in {} extents", o.spec.ino, o.spec.size, o.spec.exts.len()),
                Kind::Other(t) => format!("inode {} of type {t}", o.spec.ino),
            })
            .collect();
        format!("{} [{}]", self.img.cfg.describe(), v.join("; "))
    }
}

/// Adds an entry under a name the directory does not have yet.
fn fresh(g: &mut G, d: &mut DirB, ino: u32, typ: u8) -> Vec<u8> {
    let mut n = gen_name(g);
    for i in 0u32.. {
        if i == 4 {
            n.truncate(200);
        }
        if i >= 4 {
            // draws that run out repeat
            n.truncate(n.len() - if i > 4 { format!("~{}", i - 1).len() } else { 0 });
            n.extend(format!("~{i}").bytes());
        } else if i > 0 {
            n = gen_name(g);
        }
        if d.insert(g, &n, ino, typ) {
            break;
        }
    }
    n
}

/// Directory entry type of a mode.
fn entry_type(mode: u16) -> u8 {
    match mode >> 12 {
        0x8 => 1,
        0x4 => 2,
        0x2 => 3,
        0x6 => 4,
        0x1 => 5,
        0xc => 6,
        0xa => 7,
        _ => 0,
    }
}

pub fn gen_tree(g: &mut G, k: &Knobs, max_blocks: u64) -> Option<Tree> {
    let mut img = Img::gen(g, k);
    let ft = img.cfg.incompat & I_FILETYPE != 0;
    let t = |m: u16| if ft { entry_type(m) } else { 0 };
    // directories: index 0 is the root; (inode, parent index, level)
    let mut dirs: Vec<(u32, usize, usize)> = vec![(2, 0, 0)];
    let free = |img: &Img| img.inos.len() as u64 + 20 < img.cfg.inodes as u64;
    for _ in 0..g.draw(5) {
        if !free(&img) {
            break;
        }
        let p = g.us(0, dirs.len() - 1);
        let ino = img.ino(g);
        dirs.push((ino, p, dirs[p].2 + 1));
    }
    let mut builders: Vec<DirB> = dirs
        .iter()
        .map(|(ino, p, _)| {
            let mut d = DirB::new(img.cfg.dir_cap());
            d.insert(g, b".", *ino, t(0x4000));
            d.insert(g, b"..", dirs[*p].0, t(0x4000));
            d
        })
        .collect();
    for i in 1..dirs.len() {
        let (ino, p, _) = dirs[i];
        fresh(g, &mut builders[p], ino, t(0x4000));
    }
    let mut objs = vec![];
    let mut links = false;
    for _ in 0..g.draw(8) {
        if !free(&img) {
            break;
        }
        let (spec, kind) = if g.chance(1, 5) {
            let mode = g.pick(&[0xa000u16, 0x1000, 0x2000, 0x6000, 0xc000]);
            let ino = img.ino(g);
            let Some(spec) = img.put_file(g, ino, mode | 0o644, 0, vec![], 0) else { break };
            (spec, Kind::Other((mode >> 12) as u8))
        } else {
            let n = if g.chance(1, 8) { max_blocks } else { (max_blocks / 6).max(1) };
            let blocks = g.draw(n);
            let Some(f) = img.gen_file(g, blocks) else { break };
            (f, Kind::File)
        };
        let times = if g.chance(1, 6) { 2 + g.draw(2) } else { 1 };
        for j in 0..times {
            let d = g.us(0, dirs.len() - 1);
            fresh(g, &mut builders[d], spec.ino, t(spec.mode));
            if j > 0 {
                links = true;
            }
        }
        objs.push(Obj { spec, kind });
        // a name that comes and goes
        if g.chance(1, 4) {
            let d = g.us(0, dirs.len() - 1);
            let n = gen_name(g);
            let nino = 1 + g.draw(u32::MAX as u64 - 1) as u32;
            let had: Vec<_> = builders[d].live().iter().map(|r| r.name.clone()).collect();
            if !had.contains(&n) && builders[d].insert(g, &n, nino, 1) {
                builders[d].delete_name(&n);
            }
        }
    }
    for (i, d) in builders.iter().enumerate() {
        let spec = img.put_dir(g, dirs[i].0, d)?;
        objs.push(Obj { spec, kind: Kind::Dir(d.live().iter().map(Entry::from).collect()) });
    }
    let depth = dirs.iter().map(|d| d.2).max().unwrap();
    Some(Tree { img: img.finish(), objs, depth, links })
}

/// Walks the tree from the root, comparing all of it. Returns how many inodes were visited.
pub fn walk<D: Bytes>(fs: &mut Ext4Fs<D>, t: &Tree) -> Result<usize, Fail> {
    let bs = t.img.cfg.bs();
    let root = fs.read_root_inode().map_err(|e| Fail(format!("root inode: {e}")))?;
    ensure_eq!(u8::from(root.file_type()), 4, "type of the root inode");
    let mut queue = vec![(2u32, "/".to_string())];
    let mut seen = std::collections::BTreeSet::from([2u32]);
    let mut buf = vec![0u8; bs as usize];
    while let Some((ino, path)) = queue.pop() {
        let Some(o) = t.objs.iter().find(|o| o.spec.ino == ino) else {
            return Err(Fail(format!("{path} leads to inode {ino}, which is not there")));
        };
        let at = |e: Fail| Fail(format!("{path} (inode {ino}): {}", e.0));
        let x = open_ino(fs, ino).map_err(|e| at(Fail(format!("opening: {e}"))))?;
        match (x, &o.kind) {
            (Opened::File(mut f), Kind::File) => {
                ensure_eq!(f.file_size_bytes(), o.spec.size, "size of {path}");
                for i in 0..=o.spec.blocks(bs) {
                    check_block(&mut f, &t.img, &o.spec, i, &mut buf).map_err(at)?;
                }
            }
            (Opened::Dir(mut d), Kind::Dir(want)) => {
                check_listing(&mut d, want).map_err(at)?;
                for e in want {
                    if e.name != b"." && e.name != b".." && seen.insert(e.ino) {
                        queue.push((e.ino, format!("{path}{}/", e.name.escape_ascii())));
                    }
                }
            }
            (Opened::Other(a), Kind::Other(b)) => ensure_eq!(a, *b, "type of {path}"),
            _ => return Err(at(Fail("opened as another kind of file".into()))),
        }
    }
    Ok(seen.len())
}

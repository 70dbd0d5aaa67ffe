use crate::engine::*;
use crate::names;
use crate::ext4::verif::{Ext4DirectoryInlineFileType, FileMode, FileType, Inode, InodeNumber, Permissions, Superblock};
use crate::ext4img::*;
use chrono::{DateTime, Utc};

pub static PROP: Prop = Prop {
    id: "C16",
    quick: 18_000_000,
    thorough: 120_000_000,
    rule: "every attribute of one generated inode (any bytes, any inode size, any extra size) was compared with an independent decoder; distinct by the full choice sequence",
    assumptions: &[
        "the reference decoder is a table of offsets from the kernel's struct ext4_inode",
        "the extra size is a multiple of four, as ext4 requires; nanosecond fields may hold any 30-bit value",
    ],
    run,
    pinned: &[("every-mode", every_mode), ("types-of-entries-and-inodes", types)],
};

/// Seconds and nanoseconds of an inode time.
fn time(base: u32, extra: u32) -> (i64, u32) {
    let s = base as i32 as i64 + ((extra as i64 & 3) << 32);
    let n = extra >> 2;
    (s + (n / 1_000_000_000) as i64, n % 1_000_000_000)
}

fn tm(t: DateTime<Utc>) -> (i64, u32) {
    (t.timestamp(), t.timestamp_subsec_nanos())
}

/// Every mode, taken apart and put together.
fn every_mode() -> R {
    for m in 0..=0xffffu16 {
        let mode = FileMode::from(m);
        ensure_eq!(u16::from(mode), m, "mode {m:#o}");
        ensure_eq!(u8::from(mode.file_type()), (m >> 12) as u8, "file type of mode {m:#o}");
        ensure_eq!(mode.permissions().bits(), m & 0xfff, "permissions of mode {m:#o}");
        let again = FileMode::from_file_type_and_permissions(mode.file_type(), mode.permissions());
        ensure_eq!(u16::from(again), m, "mode {m:#o} put together");
        // bits beyond the permissions do not reach the type
        let again = FileMode::from_file_type_and_permissions(mode.file_type(), Permissions::from_bits_retain(m | 0xf000));
        ensure_eq!(u16::from(again), m, "mode {m:#o} put together with further bits");
    }
    Ok(())
}

/// The two codes for types of files stand for the same types.
fn types() -> R {
    // S_IFMT >> 12 and EXT4_FT_*
    for (inode, entry) in [(8u8, 1u8), (4, 2), (2, 3), (6, 4), (1, 5), (12, 6), (10, 7)] {
        let (i, e) = (FileType::from(inode), Ext4DirectoryInlineFileType::from(entry));
        ensure_eq!(u8::from(FileType::from(e)), inode, "inode type of entry type {entry}");
        ensure_eq!(u8::from(Ext4DirectoryInlineFileType::from(i)), entry, "entry type of inode type {inode}");
    }
    for v in 0..=255u8 {
        ensure_eq!(u8::from(FileType::from(v)), v, "inode type");
        ensure_eq!(u8::from(Ext4DirectoryInlineFileType::from(v)), v, "entry type");
    }
    Ok(())
}

/// Compares all attributes of an inode with the bytes it was made from.
pub fn compare(inode: &Inode, raw: &[u8]) -> R {
    let mut b = [0u8; 160];
    let n = if raw.len() >= 132 { (128 + get16(raw, 128) as usize).min(raw.len()).min(160) } else { 128 };
    b[..n].copy_from_slice(&raw[..n]);
    let w = |at| get16(&b, at) as u64;
    let d = |at| get32(&b, at);
    ensure_eq!(u16::from(inode.file_mode()), get16(&b, 0), "mode");
    ensure_eq!(u8::from(inode.file_type()), (get16(&b, 0) >> 12) as u8, "file type");
    ensure_eq!(inode.permissions().bits(), get16(&b, 0) & 0xfff, "permissions");
    names::flags("permissions", inode.permissions(), get16(&b, 0) as u64, names::PERMISSIONS)?;
    names::flags("flags", inode.flags(), d(0x20) as u64, names::INODE)?;
    names::value("file type", inode.file_type(), get16(&b, 0) as u64 >> 12, names::FILE_TYPE)?;
    ensure_eq!(inode.owner_user_id() as u64, w(2) | w(0x78) << 16, "owner");
    ensure_eq!(inode.group_id() as u64, w(0x18) | w(0x7a) << 16, "group");
    ensure_eq!(inode.file_size_bytes(), d(4) as u64 | (d(0x6c) as u64) << 32, "size");
    ensure_eq!(inode.links_count() as u64, w(0x1a), "link count");
    ensure_eq!(u64::from(inode.block_count()), d(0x1c) as u64 | w(0x74) << 32, "block count");
    ensure_eq!(inode.flags().bits(), d(0x20), "flags");
    ensure_eq!(inode.version(), d(0x24) as u64 | (d(152) as u64) << 32, "version");
    ensure_eq!(inode.generation(), d(0x64), "generation");
    ensure_eq!(inode.file_acl(), d(0x68) as u64 | w(0x76) << 32, "ACL block");
    ensure_eq!(inode.checksum() as u64, w(0x7c) | w(130) << 16, "checksum");
    ensure_eq!(inode.project_id(), d(156), "project");
    ensure_eq!(tm(inode.access_time()), time(d(8), d(140)), "access time");
    ensure_eq!(tm(inode.change_time()), time(d(12), d(132)), "change time");
    ensure_eq!(tm(inode.modified_time()), time(d(16), d(136)), "modification time");
    ensure_eq!(tm(inode.creation_time()), time(d(144), d(148)), "creation time");
    ensure_eq!(tm(inode.delete_time()), (d(20) as i64, 0), "deletion time");
    Ok(())
}

fn run(g: &mut G) -> R {
    let len = match g.draw(4) {
        0 => 128,
        1 => 256,
        2 => 128usize << g.draw(8),
        3 => 132 + 4 * g.us(0, 40),
        _ => 256,
    };
    let mut raw = match g.draw(3) {
        0 => g.blob(len),
        1 => vec![0u8; len],
        2 => vec![0xff; len],
        _ => g.blob(len),
    };
    // individual fields set to boundary values
    for _ in 0..g.draw(4) {
        let at = 4 * g.us(0, 160.min(len) / 4 - 1);
        let v = g.u32b();
        put32(&mut raw, at, v);
    }
    if len >= 132 {
        let extra = match g.draw(3) {
            0 | 1 => 4 * g.draw(8),
            2 => (len - 128) as u64 & !3,
            _ => 4 * g.draw(0x3fff),
        };
        put16(&mut raw, 128, extra as u16);
    }
    let full = g.chance(1, 30);
    let extra = if len >= 132 { get16(&raw, 128) as usize } else { 0 };
    g.describe(|| format!("inode of {len} bytes, extra size {extra}: {:02x?}..", &raw[..16]));
    g.nontrivial();
    if extra > len.saturating_sub(128) {
        g.class("extra size beyond the inode");
    }
    if extra < 32 && len >= 160 {
        g.class("fields beyond the extra size");
    }
    let ino = 1 + g.draw(u32::MAX as u64 - 1) as u32;
    if full && len.is_power_of_two() {
        // through a filesystem: the root inode
        g.class("root inode through a filesystem");
        let mut cfg = gen_cfg(g, &Knobs { big: false, ..Default::default() });
        if len as u64 > cfg.bs() {
            return Ok(());
        }
        cfg.inode_size = len as u16;
        let mut img = Img::new(g, cfg);
        let Some(pos) = img.inode_pos(g, 2) else { return Ok(()) };
        img.store.write(pos, &raw);
        let img = img.finish();
        let mut fs = img.must_open()?;
        let inode = fs.read_root_inode().map_err(|e| Fail(format!("reading the root inode: {e}")))?;
        return compare(&inode, &raw);
    }
    let sb_noise = g.draw(u32::MAX as u64);
    let mut sb = blob(sb_noise, 1024);
    put32(&mut sb, 0x64, if g.chance(1, 2) { R_CSUM } else { 0 });
    let sb = Superblock::new(sb);
    compare(&Inode::new(&sb, InodeNumber(ino), &raw), &raw)
}

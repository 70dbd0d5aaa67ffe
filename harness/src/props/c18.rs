use crate::engine::*;
use crate::names;
use crate::ext4::verif::{BlockGroupDescriptor, Checksum, Superblock};
use crate::ext4img::*;
use std::time::{Duration, SystemTime};

pub static PROP: Prop = Prop {
    id: "C18",
    quick: 10_000_000,
    thorough: 40_000_000,
    rule: "every attribute of one generated superblock and one generated group descriptor (any bytes) was compared with an independent decoder; distinct by the full choice sequence",
    assumptions: &[
        "the reference decoder is a table of offsets from the kernel's struct ext4_super_block and struct ext4_group_desc",
        "log_block_size, log_cluster_size and log_groups_per_flex stay below the width of a 64-bit size",
    ],
    run,
    pinned: &[],
};

fn get64(b: &[u8], at: usize) -> u64 {
    u64::from_le_bytes(b[at..at + 8].try_into().unwrap())
}

fn cut(b: &[u8]) -> &[u8] {
    &b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]
}

fn run(g: &mut G) -> R {
    let mut b = match g.draw(3) {
        0 => vec![0u8; 1024],
        1 => vec![0xff; 1024],
        _ => g.blob(1024),
    };
    for _ in 0..g.draw(12) {
        let at = 4 * g.us(0, 255);
        let v = g.u32b();
        put32(&mut b, at, v);
    }
    // zero-means-absent fields, names and times set to their edges
    for (at, n) in [(0x2c, 4), (0x274 + 1, 1), (0x108, 4), (0x276, 1), (0x198, 4), (0x278, 1), (0x1cc, 4), (0x279, 1), (0x44, 4)] {
        match g.draw(3) {
            0 => b[at..at + n].fill(0),
            1 => b[at..at + n].fill(0xff),
            _ => {}
        }
    }
    for (at, n) in [(0x78, 16), (0x88, 64), (0x1a8, 32), (0x1dc, 32), (0x200, 64)] {
        match g.draw(4) {
            0 => b[at] = 0,
            1 => b[at + n - 1] = 0,
            2 => {
                let k = g.us(0, n - 1);
                b[at + k] = 0;
            }
            3 => {
                let t = g.bytes(n);
                for (i, c) in t.iter().enumerate() {
                    b[at + i] = (*c).max(1);
                }
            }
            _ => {}
        }
    }
    for at in 0x254..0x258 {
        if g.chance(1, 2) {
            b[at] = g.draw(5) as u8;
        }
    }
    let log_bs = g.draw(53) as u32;
    let log_cl = g.draw(53) as u32;
    put32(&mut b, 0x18, log_bs);
    put32(&mut b, 0x1c, log_cl);
    b[0x174] = g.draw(63) as u8;
    if g.chance(2, 3) {
        b[0x175] = g.draw(2) as u8;
    }
    // values that have names
    for (at, max) in [(0x3c, 4), (0x48, 5), (0xfc, 6)] {
        if g.chance(1, 2) {
            let n = if at == 0x48 { 4 } else { 1 + (at == 0x3c) as usize };
            b[at..at + n].fill(0);
            b[at] = g.draw(max) as u8;
        }
    }
    if g.chance(1, 2) {
        seal_superblock(&mut b);
    }
    g.nontrivial();
    g.describe(|| format!("superblock {:02x?}..", &b[..24]));
    let s = Superblock::new(&b[..]);
    let w = |at| get16(&b, at);
    let d = |at| get32(&b, at);
    let lh = |lo, hi| d(lo) as u64 | (d(hi) as u64) << 32;
    let t40 = |lo: usize, hi: usize| SystemTime::UNIX_EPOCH + Duration::from_secs(d(lo) as u64 | (b[hi] as u64) << 32);
    let some = |t: SystemTime| if t == SystemTime::UNIX_EPOCH { None } else { Some(t) };
    macro_rules! eq {
        ($($name:ident => $want:expr;)*) => { $( ensure_eq!(s.$name(), $want, stringify!($name)); )* };
    }
    ensure_eq!(u32::from(s.inodes_count()), d(0), "inodes_count");
    ensure_eq!(u64::from(s.blocks_count()), lh(4, 0x150), "blocks_count");
    ensure_eq!(u64::from(s.reserved_blocks_count()), lh(8, 0x154), "reserved_blocks_count");
    ensure_eq!(u64::from(s.free_blocks_count()), lh(12, 0x158), "free_blocks_count");
    ensure_eq!(u32::from(s.free_inodes_count()), d(0x10), "free_inodes_count");
    ensure_eq!(u64::from(s.first_data_block()), d(0x14) as u64, "first_data_block");
    ensure_eq!(u32::from(s.inodes_per_group()), d(0x28), "inodes_per_group");
    ensure_eq!(u16::from(s.error_policy()), w(0x3c), "error_policy");
    ensure_eq!(u32::from(s.creator_os()), d(0x48), "creator_os");
    ensure_eq!(u8::from(s.default_hash_version()), b[0xfc], "default_hash_version");
    ensure_eq!(s.state().bits(), w(0x3a), "state");
    ensure_eq!(s.compatible_features().bits(), d(0x5c), "compatible_features");
    ensure_eq!(s.incompatible_features().bits(), d(0x60), "incompatible_features");
    ensure_eq!(s.read_only_compatible_features().bits(), d(0x64), "read_only_compatible_features");
    ensure_eq!(s.default_mount_options().bits(), d(0x100), "default_mount_options");
    ensure_eq!(s.flags().bits(), d(0x160), "flags");
    names::flags("compatible features", s.compatible_features(), d(0x5c) as u64, names::COMPAT)?;
    names::flags("incompatible features", s.incompatible_features(), d(0x60) as u64, names::INCOMPAT)?;
    names::flags("read-only compatible features", s.read_only_compatible_features(), d(0x64) as u64, names::RO_COMPAT)?;
    names::flags("default mount options", s.default_mount_options(), d(0x100) as u64, names::MOUNT_OPTIONS)?;
    names::flags("superblock flags", s.flags(), d(0x160) as u64, names::SB_FLAGS)?;
    names::flags("state", s.state(), w(0x3a) as u64, names::STATE)?;
    names::value("error policy", s.error_policy(), w(0x3c) as u64, names::ERROR_POLICY)?;
    names::value("creator", s.creator_os(), d(0x48) as u64, names::CREATOR)?;
    names::value("hash version", s.default_hash_version(), b[0xfc] as u64, names::HASH)?;
    for a in s.encryption_algorithms() {
        let v = u8::from(a) as u64;
        names::value("encryption algorithm", a, v, names::ENCRYPTION)?;
    }
    let u = s.uuid();
    ensure_eq!(u.as_bytes()[..], b[0x68..0x78], "uuid");
    let u = s.journal_uuid();
    ensure_eq!(u.as_bytes()[..], b[0xd0..0xe0], "journal_uuid");
    eq! {
        block_size_bytes => 1024u64 << log_bs;
        cluster_size_blocks => 1024u64 << log_cl;
        blocks_per_group => d(0x20);
        clusters_per_group => d(0x24);
        mount_time => some(t40(0x2c, 0x275));
        write_time => t40(0x30, 0x274);
        mount_count => w(0x34);
        max_mount_count => w(0x36);
        magic => w(0x38);
        minor_revision_level => w(0x3e);
        last_check_time => t40(0x40, 0x277);
        check_interval => if d(0x44) == 0 { None } else { Some(Duration::from_secs(d(0x44) as u64)) };
        revision_level => d(0x4c);
        default_reserved_user_id => w(0x50);
        default_reserved_group_id => w(0x52);
        first_inode => d(0x54);
        inode_size => w(0x58);
        block_group_number => w(0x5a);
        algorithm_usage_bitmap => d(0xc8);
        preallocate_blocks => b[0xcc];
        preallocate_directory_blocks => b[0xcd];
        reserved_gdt_blocks => w(0xce);
        journal_inode_number => d(0xe0);
        journal_device_number => d(0xe4);
        last_orphan => d(0xe8);
        journal_backup_type => b[0xfd];
        group_descriptor_size => w(0xfe);
        first_meta_block_group => d(0x104);
        creation_time => some(t40(0x108, 0x276));
        minimum_extra_inode_size => w(0x15c);
        wanted_extra_inode_size => w(0x15e);
        raid_stride => w(0x164);
        multi_mount_prevention_interval => w(0x166);
        multi_mount_prevention_block => get64(&b, 0x168);
        raid_stripe_width => d(0x170);
        kbytes_written => get64(&b, 0x178);
        snapshot_inode_number => d(0x180);
        snapshot_id => d(0x184);
        snapshot_reserved_blocks_count => get64(&b, 0x188);
        snapshot_list_inode_number => d(0x190);
        error_count => d(0x194);
        first_error_time => some(t40(0x198, 0x278));
        first_error_inode => d(0x19c);
        first_error_block => get64(&b, 0x1a0);
        first_error_line => d(0x1c8);
        last_error_time => some(t40(0x1cc, 0x279));
        last_error_inode => d(0x1d0);
        last_error_line => d(0x1d4);
        last_error_block => get64(&b, 0x1d8);
        user_quota_inode_number => d(0x240);
        group_quota_inode_number => d(0x244);
        overhead_blocks => d(0x248);
        superblock_backup_block_groups => [d(0x24c), d(0x250)];
        lost_and_found_inode_number => d(0x268);
        project_quota_inode_number => d(0x26c);
        filename_character_encoding => w(0x27c);
        filename_character_encoding_flags => w(0x27e);
        orphan_file_inode_number => d(0x280);
    }
    ensure_eq!(s.hash_seed()[..], b[0xec..0xfc], "hash_seed");
    ensure_eq!(s.journal_blocks()[..], b[0x10c..0x150], "journal_blocks");
    ensure_eq!(s.encryption_password_salt()[..], b[0x258..0x268], "encryption_password_salt");
    if b[0x174] < 63 {
        ensure_eq!(s.groups_per_flex(), 1u64 << b[0x174], "groups_per_flex");
    }
    let names: [(&str, Option<Vec<u8>>, usize, usize); 4] = [
        ("volume_name", s.volume_name().map(|x| <&[u8]>::from(&x).to_vec()), 0x78, 16),
        ("last_mounted_path", s.last_mounted_path().map(|x| <&[u8]>::from(&x).to_vec()), 0x88, 64),
        ("first_error_function_name", s.first_error_function_name().map(|x| <&[u8]>::from(&x).to_vec()), 0x1a8, 32),
        ("last_error_function_name", s.last_error_function_name().map(|x| <&[u8]>::from(&x).to_vec()), 0x1e0, 32),
    ];
    for (n, got, at, len) in names {
        let want = cut(&b[at..at + len]);
        ensure_eq!(got.as_deref(), if want.is_empty() { None } else { Some(want) }, "{n}");
    }
    let m = s.mount_options();
    ensure_eq!(<&[u8]>::from(&m), cut(&b[0x200..0x240]), "mount_options");
    let alg: Vec<u8> = s.encryption_algorithms().into_iter().map(u8::from).collect();
    let want: Vec<u8> = b[0x254..0x258].iter().copied().filter(|a| *a != 0).collect();
    ensure_eq!(alg, want, "encryption_algorithms");
    let stored = d(0x3fc);
    let want = match b[0x175] {
        0 => Checksum::None,
        1 => Checksum::Crc32c(stored),
        t => Checksum::Unknown(t, stored),
    };
    ensure_eq!(s.checksum(), want, "checksum");
    ensure_eq!(s.expected_checksum(), crc32c(!0, &b[..1020]), "expected checksum");
    descriptor(g)
}

fn descriptor(g: &mut G) -> R {
    let len = g.pick(&[32usize, 64, 64, 128, 256, 1024]);
    let mut b = match g.draw(3) {
        0 => vec![0u8; len],
        1 => vec![0xff; len],
        _ => g.blob(len),
    };
    for _ in 0..g.draw(5) {
        let at = 4 * g.us(0, len.min(64) / 4 - 1);
        let v = g.u32b();
        put32(&mut b, at, v);
    }
    let x = BlockGroupDescriptor::new(&b);
    let mut f = [0u8; 64];
    let n = len.min(64);
    f[..n].copy_from_slice(&b[..n]);
    let d = |at| get32(&f, at) as u64;
    let w = |at| get16(&f, at) as u32;
    if len == 32 {
        g.class("32-byte descriptor");
    }
    ensure_eq!(u64::from(x.block_bitmap_block()), d(0) | d(32) << 32, "block_bitmap_block");
    ensure_eq!(u64::from(x.inode_bitmap_block()), d(4) | d(36) << 32, "inode_bitmap_block");
    ensure_eq!(u64::from(x.inode_table_block()), d(8) | d(40) << 32, "inode_table_block");
    ensure_eq!(u32::from(x.free_block_count()), w(12) | w(44) << 16, "free_block_count");
    ensure_eq!(x.free_inode_count(), w(14) | w(46) << 16, "free_inode_count");
    ensure_eq!(x.used_directories_count(), w(16) | w(48) << 16, "used_directories_count");
    ensure_eq!(x.flags().bits() as u32, w(18), "flags");
    names::flags("group flags", x.flags(), w(18) as u64, names::GROUP)?;
    ensure_eq!(u64::from(x.exclude_bitmap_block()), d(20) | d(52) << 32, "exclude_bitmap_block");
    ensure_eq!(x.block_bitmap_checksum(), w(24) | w(56) << 16, "block_bitmap_checksum");
    ensure_eq!(x.inode_bitmap_checksum(), w(26) | w(58) << 16, "inode_bitmap_checksum");
    ensure_eq!(x.unused_inode_count(), w(28) | w(50) << 16, "unused_inode_count");
    ensure_eq!(x.checksum() as u32, w(30), "checksum");
    Ok(())
}

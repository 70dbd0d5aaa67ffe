//! Names of bits and values, from the kernel's ext4.h, md_p.h and stat.h. A name that the code does not (or no longer)
//! use is passed over; one that it uses has to stand for the right bits.
use crate::engine::*;
use bitflags::Flags;
use std::fmt::Debug;

type Table = &'static [(&'static str, u64)];

pub const PERMISSIONS: Table = &[
    ("SET_USER_ID", 0o4000),
    ("SET_GROUP_ID", 0o2000),
    ("STICKY", 0o1000),
    ("USER_READ", 0o400),
    ("USER_WRITE", 0o200),
    ("USER_EXECUTE", 0o100),
    ("GROUP_READ", 0o40),
    ("GROUP_WRITE", 0o20),
    ("GROUP_EXECUTE", 0o10),
    ("OTHER_READ", 4),
    ("OTHER_WRITE", 2),
    ("OTHER_EXECUTE", 1),
];
pub const INODE: Table = &[
    ("SECURE_DELETE", 1 << 0),
    ("UNDELETE", 1 << 1),
    ("COMPRESSED", 1 << 2),
    ("SYNCHRONOUS_UPDATES", 1 << 3),
    ("IMMUTABLE", 1 << 4),
    ("APPEND_ONLY", 1 << 5),
    ("NO_DUMP", 1 << 6),
    ("NO_UPDATE_ACCESS_TIME", 1 << 7),
    ("DIRTY", 1 << 8),
    ("COMPRESSED_CLUSTERS", 1 << 9),
    ("NO_COMPRESS", 1 << 10),
    ("ENCRYPTED", 1 << 11),
    ("HASH_INDEXED_DIRECTORY", 1 << 12),
    ("AFS_DIRECTORY", 1 << 13),
    ("JOURNAL_DATA", 1 << 14),
    ("NO_TAIL_MERGE", 1 << 15),
    ("DIRECTORY_SYNC", 1 << 16),
    ("TOP_DIRECTORY", 1 << 17),
    ("HUGE_FILE", 1 << 18),
    ("HAS_EXTENTS", 1 << 19),
    ("VERITY_PROTECTED", 1 << 20),
    ("LARGE_EXTENDED_ATTRIBUTES", 1 << 21),
    ("DIRECT_ACCESS", 1 << 25),
    ("HAS_INLINE_DATA", 1 << 28),
    ("INHERIT_PROJECT_ID", 1 << 29),
    ("CASE_FOLDED", 1 << 30),
    ("RESERVED", 1 << 31),
];
pub const COMPAT: Table = &[
    ("DIRECTORY_PREALLOCATION", 1),
    ("MAGIC_INODES", 2),
    ("HAS_JOURNAL", 4),
    ("SUPPORTS_EXTENDED_ATTRIBUTES", 8),
    ("HAS_RESERVED_GDT_BLOCKS", 0x10),
    ("HAS_DIRECTORY_INDICES", 0x20),
    ("LAZY_BG", 0x40),
    ("EXCLUDE_INODE", 0x80),
    ("EXCLUDE_BITMAP", 0x100),
    ("SPARSE_SUPERBLOCK_V2", 0x200),
    ("SUPPORTS_FAST_COMMITS", 0x400),
    ("ORPHAN_PRESENT", 0x1000),
];
pub const INCOMPAT: Table = &[
    ("COMPRESSION", 1),
    ("DIRECTORY_ENTRIES_RECORD_FILE_TYPE", 2),
    ("NEEDS_RECOVERY", 4),
    ("HAS_SEPARATE_JOURNAL_DEVICE", 8),
    ("HAS_META_BLOCK_GROUPS", 0x10),
    ("FILES_USE_EXTENTS", 0x40),
    ("IS_64_BIT", 0x80),
    ("MULTIPLE_MOUNT_PROTECTION", 0x100),
    ("FLEXIBLE_BLOCK_GROUPS", 0x200),
    ("INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES", 0x400),
    ("DATA_IN_DIRECTORY_ENTRY", 0x1000),
    ("METADATA_CHECKSUM_SEED", 0x2000),
    ("LARGE_DIRECTORIES", 0x4000),
    ("DATA_IN_INODE", 0x8000),
    ("HAS_ENCRYPTED_INODES", 0x10000),
];
pub const RO_COMPAT: Table = &[
    ("SPARSE_SUPERBLOCKS", 1),
    ("CONTAINS_LARGE_FILES", 2),
    ("BTREE_DIR", 4),
    ("CONTAINS_HUGE_FILES", 8),
    ("GROUP_DESCRIPTORS_HAVE_CHECKSUMS", 0x10),
    ("UNLIMITED_SUBDIRECTORIES", 0x20),
    ("CONTAINS_LARGE_INODES", 0x40),
    ("HAS_SNAPSHOT", 0x80),
    ("QUOTA", 0x100),
    ("BIGALLOC", 0x200),
    ("METADATA_CHECKSUMS", 0x400),
    ("REPLICA", 0x800),
    ("READ_ONLY", 0x1000),
    ("PROJECT_QUOTA", 0x2000),
    ("VERITY", 0x8000),
    ("ORPHAN_PRESENT", 0x10000),
];
/// The two bits 0x60 are one field: journal, ordered, or (both) writeback.
pub const MOUNT_OPTIONS: Table = &[
    ("PRINT_DEBUGGING_INFO", 1),
    ("NEW_FILES_INHERIT_DIRECTORY_GROUP_ID", 2),
    ("ENABLE_USERSPACE_EXTENDED_ATTRIBUTES", 4),
    ("ENABLE_POSIX_ACLS", 8),
    ("DISABLE_16_BIT_USER_IDS", 0x10),
    ("COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL", 0x20),
    ("FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA", 0x40),
    ("DATA_ORDERING_NOT_PRESERVED", 0x60),
    ("DISABLE_WRITE_FLUSHES", 0x100),
    ("TRACK_METADATA_BLOCKS", 0x200),
    ("ENABLE_DISCARD", 0x400),
    ("DISABLE_DELAYED_ALLOCATION", 0x800),
];
pub const SB_FLAGS: Table = &[("SIGNED_DIRECTORY_HASH", 1), ("UNSIGNED_DIRECTORY_HASH", 2), ("TEST_FILESYSTEM", 4)];
pub const STATE: Table = &[("CLEANLY_UNMOUNTED", 1), ("ERRORS_DETECTED", 2), ("ORPHANS_BEING_RECOVERED", 4)];
pub const GROUP: Table = &[("INODE_NOT_IN_USE", 1), ("BLOCK_BITMAP_NOT_IN_USE", 2), ("INODE_TABLE_ZEROED", 4)];

pub const ERROR_POLICY: Table = &[("Continue", 1), ("RemountReadOnly", 2), ("Panic", 3)];
pub const CREATOR: Table = &[("Linux", 0), ("Hurd", 1), ("Masix", 2), ("FreeBsd", 3), ("Lites", 4)];
pub const HASH: Table = &[
    ("Legacy", 0),
    ("HalfMd4", 1),
    ("Tea", 2),
    ("LegacyUnsigned", 3),
    ("HalfMd4Unsigned", 4),
    ("TeaUnsigned", 5),
];
pub const ENCRYPTION: Table = &[("Invalid", 0), ("Aes256Xts", 1), ("Aes256Gcm", 2), ("Aes256Cbc", 3)];
/// The upper four bits of st_mode.
pub const FILE_TYPE: Table = &[
    ("Fifo", 1),
    ("CharacterDevice", 2),
    ("Directory", 4),
    ("BlockDevice", 6),
    ("RegularFile", 8),
    ("SymbolicLink", 10),
    ("Socket", 12),
];
pub const ENTRY_TYPE: Table = &[
    ("RegularFile", 1),
    ("Directory", 2),
    ("CharacterDevice", 3),
    ("BlockDevice", 4),
    ("Fifo", 5),
    ("Socket", 6),
    ("SymbolicLink", 7),
];

/// Every known flag of `got` is set just when its bits are in `stored`.
pub fn flags<T: Flags>(what: &str, got: T, stored: u64, table: Table) -> R
where
    T::Bits: Into<u64>,
{
    for f in T::FLAGS {
        if let Some((name, bits)) = table.iter().find(|(n, _)| *n == f.name()) {
            let is = got.contains(T::from_bits_retain(f.value().bits()));
            ensure!(
                is == (stored & bits == *bits),
                "{what} {stored:#x}: {name} is {}",
                if is { "reported but not set" } else { "set but not reported" }
            );
        }
    }
    Ok(())
}

/// `got`, an enum, bears the name of the stored value, and no name if that has none.
pub fn value<T: Debug>(what: &str, got: T, stored: u64, table: Table) -> R {
    let name = format!("{got:?}");
    let known = table.iter().find(|(n, _)| *n == name);
    match table.iter().find(|(_, v)| *v == stored) {
        Some((want, _)) => {
            ensure!(known.is_none() && !name.starts_with("Unknown") || name == *want, "{what} {stored}: {name}, not {want}")
        }
        None => ensure!(known.is_none(), "{what} {stored}, which has no name, is given as {name}"),
    }
    Ok(())
}

From 108f57067ff82d5792a81c8bf2f0f190a95712f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 01/33] Expose internals to the verification harness under
 cfg(md_recover_verif)

---
 src/ext4/mod.rs | 12 ++++++++++++
 src/main.rs     |  2 ++
 src/md/mod.rs   | 11 +++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/ext4/mod.rs b/src/ext4/mod.rs
index 5dc78f6..253550f 100644
--- a/src/ext4/mod.rs
+++ b/src/ext4/mod.rs
@@ -14,3 +14,15 @@ mod units;
 pub use self::{
     directory::Ext4Directory, file::Ext4File, fs::Ext4Fs, regular_file::Ext4RegularFile,
 };
+
+/// Internals exposed to the external verification harness.
+#[cfg(md_recover_verif)]
+#[allow(unused_imports)]
+pub mod verif {
+    pub use super::block_group::BlockGroupDescriptor;
+    pub use super::crc::{ext4_crc32c, EXT4_CRC32C_INITIAL};
+    pub use super::inode::Inode;
+    pub use super::string::Ext4String;
+    pub use super::superblock::{Checksum, Superblock};
+    pub use super::units::*;
+}
diff --git a/src/main.rs b/src/main.rs
index c260d95..715f96c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,6 @@
 #![allow(dead_code, clippy::module_inception)]
+// md_recover_verif is set only by the external verification harness.
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate arrayref;
diff --git a/src/md/mod.rs b/src/md/mod.rs
index 6c71e93..ffc2c77 100644
--- a/src/md/mod.rs
+++ b/src/md/mod.rs
@@ -14,3 +14,14 @@ pub use self::{
     array::MdArray,
     device::{MdDevice, MdDeviceId, MdDeviceSuperblock},
 };
+
+/// Internals exposed to the external verification harness.
+#[cfg(md_recover_verif)]
+#[allow(unused_imports)]
+pub mod verif {
+    pub use super::algorithm::*;
+    pub use super::diagnosis::*;
+    pub use super::raid5::*;
+    pub use super::raid6::*;
+    pub use super::units::*;
+}
-- 
2.43.0


From bcc9656f15cb11cdce22f388c49d1c17c2443565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 02/33] fix: start each member's data at its superblock's data
 offset

Sectors of an array were read from the start of each member device, so
for every version-1 superblock with a data offset (all of 1.1 and 1.2)
reads returned the wrong bytes or failed.
---
 src/md/array.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..d7efd98 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -158,9 +158,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .ok_or(io::ErrorKind::InvalidData)?
+                    .data_offset();
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
                     u64::from(sector_number)
+                        .checked_add(u64::from(data_offset))
+                        .ok_or(io::ErrorKind::InvalidInput)?
                         .checked_mul(512)
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
-- 
2.43.0


From 4283494d032a6db52f01355c0f33b01b376c0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 03/33] fix: accept buffers larger than a sector in
 MdArray::read_block

Buffers of more than 512 bytes passed the length check and then made
copy_from_slice panic.
---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index d7efd98..f5754f0 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -175,7 +175,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From 57b3c159587fa58dfb3d59a3b030bfc2f49af7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 04/33] fix: refuse to read past the end of an array

Blocks past the end mapped to whatever follows the data on the members
(superblocks, bitmaps) and were returned if it passed the parity check.
---
 src/md/array.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/md/array.rs b/src/md/array.rs
index f5754f0..6dbf237 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -134,6 +134,10 @@ where
             Err(io::ErrorKind::InvalidInput)?;
         }
 
+        if block_number >= self.block_count()? {
+            Err(io::ErrorKind::UnexpectedEof)?;
+        }
+
         // FIXME: Handle the boundary between the new format and the old.
         let format = self
             .definition
-- 
2.43.0


From 72ae77b8987607e685ab2cbb76c799f7090994e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 05/33] fix: let invalid device roles give way to valid ones

The two is_invalid checks were transposed: an invalid role in one role
table overrode the valid role all other tables agree on, and whether
conflicting roles were noticed depended on the order of the devices.
---
 src/md/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index 6dbf237..329fff6 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -39,10 +39,10 @@ where
                             .zip_longest(roles)
                             .map(|pair| match pair {
                                 EitherOrBoth::Both(left, right) => {
-                                    if left.is_spare() || right.is_invalid() || left.is_faulty() {
+                                    if left.is_spare() || left.is_invalid() || left.is_faulty() {
                                         Some(right)
                                     } else if right.is_spare()
-                                        || left.is_invalid()
+                                        || right.is_invalid()
                                         || right.is_faulty()
                                         || left == right
                                     {
-- 
2.43.0


From 8613600079de2804fad6c2a7d31784f097f28c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 06/33] fix: treat the highest position as a valid device role

is_valid rejected 0xfeff, which is_invalid and device_number accept.
---
 src/md/superblock/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..ca87173 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
-- 
2.43.0


From 91bbb49a3dfd301dd12360af26370562a4294c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 07/33] fix: check bounds in InMemoryBlockDevice::read_block

Reading a block past the end, or into a buffer larger than a block, panicked
where FileBlockDevice returns an error or fills the first block of the buffer.
---
 src/block_device/in_memory.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..7d52eaf 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -41,8 +41,13 @@ impl BlockDevice for InMemoryBlockDevice {
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|rest| rest.get(..usize::from(self.block_size)))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block.len()].copy_from_slice(block);
+            Ok(block.len())
         }
     }
 
-- 
2.43.0


From 840f66bef82843f6a8a4bd6f7d34872f770a388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 08/33] fix: report reshape status only for version 0.91
 superblocks

Linux md sets minor_version to 91 while an array is being reshaped; in a 0.90
superblock the reshape fields are unused. Treating them as an active reshape
gave every 0.90 array a bogus new format, so it could not be read.
---
 src/md/superblock/version_0/superblock.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..970d764 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -59,6 +59,8 @@ impl SuperblockVersion0 {
 
     pub const MAJOR_VERSION: u32 = 0;
 
+    const MIN_RESHAPE_MINOR_VERSION: u32 = 91;
+
     pub fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buffer = [0u8; Self::SIZE_ON_DISK];
         reader.read_exact(&mut buffer)?;
@@ -138,7 +140,11 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        if self.minor_version >= Self::MIN_RESHAPE_MINOR_VERSION {
+            Some(self.reshape_status.clone())
+        } else {
+            None
+        }
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From 5cf4f4a0fa0a4a84ec7a347d5efb1742027731c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 09/33] fix: convert version 0.90 sizes to sectors

A version 0.90 superblock stores the device size in KiB and chunk sizes in
bytes; both were used as if they were counts of 512-byte sectors.
---
 src/md/superblock/version_0/superblock.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index 970d764..b9f18f0 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -85,6 +85,11 @@ impl SuperblockVersion0 {
         self.major_version == Self::MAJOR_VERSION
     }
 
+    /// Chunk sizes are stored in bytes.
+    fn chunk_size_from_bytes(bytes: SectorCount<u32>) -> SectorCount<u32> {
+        SectorCount(u32::from(bytes) / 512)
+    }
+
     fn valid_device_descriptors(&self) -> bool {
         self.devices
             .iter()
@@ -128,11 +133,12 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // Stored in KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        Self::chunk_size_from_bytes(self.chunk_size)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
@@ -141,7 +147,10 @@ impl Superblock for SuperblockVersion0 {
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
         if self.minor_version >= Self::MIN_RESHAPE_MINOR_VERSION {
-            Some(self.reshape_status.clone())
+            Some(ReshapeStatus {
+                new_chunk_size: Self::chunk_size_from_bytes(self.reshape_status.new_chunk_size),
+                ..self.reshape_status.clone()
+            })
         } else {
             None
         }
-- 
2.43.0


From b7c8f3a7b9f859b6feddefd38244baa9414c26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 10/33] fix: check for zero blocks per group before dividing by
 it

Opening a filesystem whose superblock has no blocks per group panicked instead
of returning an error.
---
 src/ext4/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..5df211e 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,8 +30,6 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
@@ -46,6 +44,9 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
+            .or(Err(io::ErrorKind::Unsupported))?;
+
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
-- 
2.43.0


From 80bb231d3c41c69068e3690e36fcff49cbb01779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 11/33] fix: do not allocate by an untrusted group count

The group count comes from the superblock and can be far larger than the
device, in which case reserving room for every descriptor up front panicked or
exhausted memory before the first read failed.
---
 src/ext4/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 5df211e..296baa2 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -51,7 +51,7 @@ where
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
-- 
2.43.0


From 211d8bb996413a92d877ec5294a99012b50f74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 12/33] fix: refuse block sizes larger than ext4 supports

Block sizes up to 2^62 bytes were accepted, so that reading any directory or
extent block tried to allocate that much memory, and the position of the group
descriptors overflowed.
---
 src/ext4/superblock/superblock.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index c667dfb..ef5470a 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -123,6 +123,9 @@ binary_layout!(layout, LittleEndian, {
 pub struct Superblock<S: AsRef<[u8]>>(S);
 
 impl<S: AsRef<[u8]>> Superblock<S> {
+    /// The largest ext4 block size is 64KiB.
+    const MAX_LOG_BLOCK_SIZE: u32 = 6;
+
     pub fn new(storage: S) -> Self {
         Self(storage)
     }
@@ -142,7 +145,7 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn valid_block_size(&self) -> bool {
-        self.view().into_log_block_size().read() < 53
+        self.view().into_log_block_size().read() <= Self::MAX_LOG_BLOCK_SIZE
     }
 
     pub fn valid_cluster_size(&self) -> bool {
-- 
2.43.0


From b555077f26b6a8485f287ffb470776cf4430ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 13/33] fix: refuse inode sizes smaller than an inode

Reading an inode from a filesystem whose superblock gives an inode size below
128 bytes panicked.
---
 src/ext4/fs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 296baa2..ab11dc1 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -10,6 +10,8 @@ use std::io;
 use std::io::{Read, Seek, SeekFrom};
 use std::rc::Rc;
 
+const MIN_INODE_SIZE: u16 = 128;
+
 #[derive(Clone)]
 pub struct Ext4Fs<D>
 where
@@ -35,6 +37,7 @@ where
         if blocks_per_group == 0
             || group_size == 0
             || superblock.inodes_per_group() == InodeCount(0)
+            || superblock.inode_size() < MIN_INODE_SIZE
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
                 .incompatible_features()
-- 
2.43.0


From 602fc4117734eb18dc85fe2d689e78c07895ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 14/33] fix: bound an inode's declared extra size

The limit applied to the extra size alone rather than to the whole length, so
an inode declaring more than 32 extra bytes, or more than its inode size holds,
panicked.
---
 src/ext4/inode/inode.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..17c9549 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -55,15 +55,16 @@ impl Inode {
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
-                + (if buffer.as_ref().len()
-                    > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
-                {
-                    usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
-                } else {
-                    0
-                })
-                .clamp(0, layout::SIZE.unwrap());
+            let extra_isize = if buffer.as_ref().len()
+                > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
+            {
+                usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
+            } else {
+                0
+            };
+            let source_length = (layout::extra_isize::OFFSET + extra_isize)
+                .min(layout::SIZE.unwrap())
+                .min(buffer.as_ref().len());
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
-- 
2.43.0


From fca3ad726e5e35410da089bd2e21c746a6923f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 15/33] fix: decode extents of 32768 blocks

A stored length of 0x8000 is an initialized extent of 32768 blocks, the largest
ext4 makes; it was decoded as an uninitialized extent of no blocks, so the file
could not be read.
---
 src/ext4/extent/extent.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..fc574f5 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -9,6 +9,9 @@ binary_layout!(layout, LittleEndian, {
     first_fs_block_number_low: u32,
 });
 
+/// Lengths above this mark an extent as uninitialized.
+const MAX_INITIALIZED_LENGTH: u16 = 0x8000;
+
 pub struct Extent<S: AsRef<[u8]>>(layout::View<S>);
 
 impl<S: AsRef<[u8]>> Extent<S> {
@@ -21,11 +24,16 @@ impl<S: AsRef<[u8]>> Extent<S> {
     }
 
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= MAX_INITIALIZED_LENGTH
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if length <= MAX_INITIALIZED_LENGTH {
+            length
+        } else {
+            length - MAX_INITIALIZED_LENGTH
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
-- 
2.43.0


From 3215268a998f75118bdf5a0177c537257d697cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 16/33] fix: read uninitialized extents as zeros

Blocks preallocated for a file but not yet written read as zeros; the stale
contents of the underlying blocks were returned instead.
---
 src/ext4/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..2f5cb9b 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -135,8 +135,12 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            buf[..self.fs.block_size()].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From 97a6ee1ea9e60770a105878c37ee65b90cbf0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 17/33] fix: read only one block in Ext4Fs::read_block

With a buffer larger than a block, the following blocks were read too, which
failed near the end of the device.
---
 src/ext4/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index ab11dc1..3bcdffa 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -125,7 +125,8 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            let block_size = self.block_size();
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From 47a513bc501b1c3825a0de7664b51771192df074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 18/33] fix: locate an extent block's checksum by its capacity

The checksum follows the room for eh_max entries and covers all of it, not just
the entries in use, so extent blocks that were not full failed validation.
---
 src/ext4/extent/tree.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..d15edd8 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -206,14 +206,18 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        let max_entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
             None => 0,
         };
 
-        if self.view().entries_and_tail().as_ref().len() < entries_size + tail_size {
+        if self.view().entries_and_tail().as_ref().len() < max_entries_size + tail_size {
             return false;
         }
 
@@ -222,10 +226,10 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             Some(checksum_seed) => {
                 let expected_checksum = ext4_crc32c(
                     checksum_seed,
-                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + entries_size],
+                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + max_entries_size],
                 );
 
-                tail::layout::View::new(&self.view().entries_and_tail()[entries_size..])
+                tail::layout::View::new(&self.view().entries_and_tail()[max_entries_size..])
                     .checksum()
                     .read()
                     == expected_checksum
-- 
2.43.0


From bc9291f80220e5d6b6888c310a4f16f464d56ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 19/33] fix: validate extent trees while reading them

Extent blocks were used without checking their magic number, entry count,
checksum or depth. Corrupt blocks were decoded as file mappings or panicked, and
a block that refers to itself or its ancestors was followed forever.
---
 src/ext4/extent/tree.rs | 11 +++++++++++
 src/ext4/file.rs        | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index d15edd8..5201a52 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -47,6 +47,13 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(branch) => branch.depth(),
+            ExtentTree::Leaf(leaf) => leaf.0.depth(),
+        }
+    }
+
     pub fn entry_count(&self) -> usize {
         match self {
             ExtentTree::Branch(branch) => branch.subtree_count(),
@@ -74,6 +81,10 @@ impl<S: AsRef<[u8]>> ExtentBranch<S> {
         self.0.entry_count()
     }
 
+    pub fn depth(&self) -> u16 {
+        self.0.depth()
+    }
+
     pub fn max_subtrees(&self) -> usize {
         self.0.max_entries()
     }
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 2f5cb9b..b920702 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -61,6 +61,10 @@ where
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
 
+        if !tree.valid() {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+
         Ok(Self {
             fs,
             inode,
@@ -97,12 +101,20 @@ where
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
-                                if index.block() != self.block_pos {
+                                let repeated = pos > 0
+                                    && branch.subtree_index_at(pos - 1).unwrap().block()
+                                        == index.block();
+                                if index.block() != self.block_pos || repeated {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid()
+                                    || subtree.depth().checked_add(1) != Some(branch.depth())
+                                {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
-- 
2.43.0


From 77c722a68140fd9b21ac81b17899fdf9aee88242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 20/33] fix: limit directory entry names to their stored length

The bytes after a name are not necessarily zero: whatever was left over from a
deleted or longer entry was returned as part of the name.
---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From 0e7339d6e3f812f0c2e2717ced9bda87834d4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 21/33] fix: skip unused directory entries

Records with inode number zero are deleted entries or padding, but were listed
as if they were files.
---
 src/ext4/directory/block.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 05b4f47..0bf876c 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -1,6 +1,7 @@
 use crate::ext4::crc::ext4_crc32c;
 use crate::ext4::directory::dir_entry::DirEntry;
 use crate::ext4::directory::dir_entry_tail;
+use crate::ext4::units::InodeNumber;
 
 pub struct Ext4DirectoryBlock<S: AsRef<[u8]>> {
     storage: S,
@@ -46,10 +47,18 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
     }
 
     pub fn read_next_entry(&mut self) -> Option<DirEntry<&[u8]>> {
-        let rest = &self.storage.as_ref()[self.pos..self.len];
-        let (entry, rest) = DirEntry::from_buf(rest);
-        self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
-        entry
+        loop {
+            let rest = &self.storage.as_ref()[self.pos..self.len];
+            let (entry, rest) = DirEntry::from_buf(rest);
+            self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
+            // Unused entries have inode number zero.
+            if entry
+                .as_ref()
+                .is_none_or(|entry| entry.inode() != InodeNumber(0))
+            {
+                return entry;
+            }
+        }
     }
 }
 
-- 
2.43.0


From e598a5ea5ad7618ddfb8a5bdea26de74ea9aed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 22/33] fix: order names by their bytes

Ordering compared lossy text, so different names with invalid UTF-8 compared as
Equal although they were not equal, violating the contract of Ord.
---
 src/ext4/string.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..b182134 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,9 +73,7 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
-- 
2.43.0


From e7b623a9bac533abe1d0018da99bb2b91c5cbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 23/33] fix: require a superblock checksum when metadata has
 checksums

A superblock with the metadata checksum feature but checksum type none was
accepted unverified; ext4 allows only CRC-32C with that feature.
---
 src/ext4/superblock/superblock.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index ef5470a..c2078e6 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -172,7 +172,9 @@ impl<S: AsRef<[u8]>> Superblock<S> {
 
     pub fn valid_checksum(&self) -> bool {
         match self.checksum() {
-            Checksum::None => true,
+            Checksum::None => !self
+                .read_only_compatible_features()
+                .contains(ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS),
             Checksum::Crc32c(checksum) => checksum == self.expected_checksum(),
             Checksum::Unknown(_, _) => false,
         }
-- 
2.43.0


From 724db8212db010487a7f7e477edcd69107ab60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 24/33] fix: report malformed directory records instead of
 skipping the rest of the block

---
 src/ext4/directory/block.rs     | 6 ++++++
 src/ext4/directory/directory.rs | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 0bf876c..8a78d60 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -46,6 +46,12 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
         })
     }
 
+    /// Whether all records of the block have been read. Records that do not
+    /// reach the end of the block are malformed.
+    pub fn at_end(&self) -> bool {
+        self.pos == self.len
+    }
+
     pub fn read_next_entry(&mut self) -> Option<DirEntry<&[u8]>> {
         loop {
             let rest = &self.storage.as_ref()[self.pos..self.len];
diff --git a/src/ext4/directory/directory.rs b/src/ext4/directory/directory.rs
index 57b5d0e..3468a07 100644
--- a/src/ext4/directory/directory.rs
+++ b/src/ext4/directory/directory.rs
@@ -47,6 +47,8 @@ where
         while let CurrentBlock::Block(block) = &mut self.current_block {
             if let Some(entry) = block.read_next_entry() {
                 return Ok(Some(entry.to_owned()));
+            } else if !block.at_end() {
+                return Err(io::ErrorKind::InvalidData.into());
             } else {
                 self.current_block = match self.read_next_block()? {
                     Some(block) => CurrentBlock::Block(block),
-- 
2.43.0


From ce0de3e55f9e6d1843892be6fdd1ece37754fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 25/33] fix: use 32-byte group descriptors unless the
 filesystem is 64-bit

---
 src/ext4/fs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3bcdffa..3a237c5 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -12,6 +12,9 @@ use std::rc::Rc;
 
 const MIN_INODE_SIZE: u16 = 128;
 
+/// The size of group descriptors on filesystems without the 64-bit feature.
+const MIN_GROUP_DESCRIPTOR_SIZE: usize = 32;
+
 #[derive(Clone)]
 pub struct Ext4Fs<D>
 where
@@ -32,7 +35,14 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_size = usize::from(superblock.group_descriptor_size());
+        let group_size = if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::IS_64_BIT)
+        {
+            usize::from(superblock.group_descriptor_size())
+        } else {
+            MIN_GROUP_DESCRIPTOR_SIZE
+        };
 
         if blocks_per_group == 0
             || group_size == 0
-- 
2.43.0


From ff02feb5a83118973db7eb71800a19a8a43c78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 26/33] fix: locate group descriptors after the superblock's
 block

---
 src/ext4/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3a237c5..a23a7d4 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -60,7 +60,8 @@ where
         let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
             .or(Err(io::ErrorKind::Unsupported))?;
 
-        let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
+        // The block after the one that holds the superblock.
+        let group_descriptors_block_number = 1024 / superblock.block_size_bytes() + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-- 
2.43.0


From fadbd9ec0fba7f90cf7e9871f8732586bbc5d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 27/33] fix: refuse filesystems with descriptors in meta block
 groups

---
 src/ext4/fs.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index a23a7d4..2ecc5b7 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -60,6 +60,18 @@ where
         let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
             .or(Err(io::ErrorKind::Unsupported))?;
 
+        // Descriptors in meta block groups are stored elsewhere.
+        if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::HAS_META_BLOCK_GROUPS)
+            && u64::from(superblock.first_meta_block_group())
+                < (group_count as u64)
+                    .saturating_mul(group_size as u64)
+                    .div_ceil(superblock.block_size_bytes())
+        {
+            return Err(io::ErrorKind::Unsupported.into());
+        }
+
         // The block after the one that holds the superblock.
         let group_descriptors_block_number = 1024 / superblock.block_size_bytes() + 1;
         device.seek(SeekFrom::Start(
-- 
2.43.0


From c37b901f121d000060df9617aeba778b67a2ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 28/33] fix: decode directory records that span a 64KiB block

---
 src/ext4/directory/dir_entry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index c673860..e8e9beb 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -18,7 +18,11 @@ impl<'buf> DirEntry<&'buf [u8]> {
     pub(super) fn from_buf(buf: &'buf [u8]) -> (Option<Self>, &'buf [u8]) {
         if buf.len() >= layout::name::OFFSET {
             let view = layout::View::new(buf);
-            let record_length = usize::from(view.record_length().read());
+            let record_length = match view.record_length().read() {
+                // A record that spans a whole 64KiB block.
+                0 | 0xffff if buf.len() == 0x10000 => buf.len(),
+                record_length => usize::from(record_length),
+            };
             let name_length = usize::from(view.name_length().read());
             if record_length <= buf.len() && record_length >= (layout::name::OFFSET + name_length) {
                 return (Some(Self(&buf[..record_length])), &buf[record_length..]);
-- 
2.43.0


From afdfe893671e9c3408d2b914b9b47cdc82c8aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 29/33] fix: correct the mount option bits for unordered data

EXT4_DEFM_JMODE_WBACK is 0x60, the combination of both journal mode bits.
---
 src/ext4/superblock/mount_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext4/superblock/mount_options.rs b/src/ext4/superblock/mount_options.rs
index 8a6a689..145ca95 100644
--- a/src/ext4/superblock/mount_options.rs
+++ b/src/ext4/superblock/mount_options.rs
@@ -11,7 +11,7 @@ bitflags! {
         const DISABLE_16_BIT_USER_IDS = 0x10;
         const COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL = 0x20;
         const FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA = 0x40;
-        const DATA_ORDERING_NOT_PRESERVED = 0x80;
+        const DATA_ORDERING_NOT_PRESERVED = 0x60;
         const DISABLE_WRITE_FLUSHES = 0x100;
         const TRACK_METADATA_BLOCKS = 0x200;
         const ENABLE_DISCARD = 0x400;
-- 
2.43.0


From 8416cc0a1fee5c6e0d1c79afcd53e2255a74940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 30/33] fix: leave partial chunks at the ends of devices out of
 the array size

Linux rounds the size of each device down to whole chunks. Without that, the
array appeared larger than it is, and reads near its end went to sectors
beyond the data of its members.
---
 src/md/format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/md/format.rs b/src/md/format.rs
index 1e1bb19..c8c2277 100644
--- a/src/md/format.rs
+++ b/src/md/format.rs
@@ -46,7 +46,12 @@ impl MdFormat {
     }
 
     pub fn data_sector_count(&self) -> Option<SectorCount<u64>> {
-        u64::from(self.sectors_per_device)
+        let sectors_per_device = u64::from(self.sectors_per_device);
+        // A partial chunk at the end of each device holds no data.
+        let unused_sectors = sectors_per_device
+            .checked_rem(u64::from(self.chunk_size))
+            .unwrap_or(0);
+        (sectors_per_device - unused_sectors)
             .checked_mul(u64::from(self.data_device_count()?))
             .map(SectorCount)
     }
-- 
2.43.0


From 9e9bb171a89e4d49f101818f7945bfefd39dfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 31/33] fix: allow for blocks preallocated beyond the end of a
 file

fallocate with FALLOC_FL_KEEP_SIZE leaves unwritten extents beyond the end of
a file, possibly behind a gap. Reading such a file ended in an error instead of
at the end of the file.
---
 src/ext4/file.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index b920702..944e162 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -104,9 +104,10 @@ where
                                 let repeated = pos > 0
                                     && branch.subtree_index_at(pos - 1).unwrap().block()
                                         == index.block();
-                                if index.block() != self.block_pos || repeated {
+                                if !self.may_continue_at(index.block()) || repeated {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
+                                self.block_pos = index.block();
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
@@ -126,9 +127,10 @@ where
                             }
                             ExtentTree::Leaf(leaf) => {
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
-                                if extent.first_file_block_number() != self.block_pos {
+                                if !self.may_continue_at(extent.first_file_block_number()) {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
+                                self.block_pos = extent.first_file_block_number();
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Leaf(leaf),
                                     pos: pos + 1,
@@ -144,7 +146,14 @@ where
                 Some(ReadStackEntry::Extent { extent, pos }) => {
                     if pos < extent.length() {
                         if self.byte_pos >= self.file_size_bytes() {
-                            return Err(io::ErrorKind::InvalidData.into());
+                            if extent.initialized() {
+                                return Err(io::ErrorKind::InvalidData.into());
+                            }
+                            let end = u32::from(extent.first_file_block_number())
+                                .checked_add(u16::from(extent.length()).into())
+                                .ok_or(io::ErrorKind::InvalidData)?;
+                            self.block_pos = FileBlockNumber(end);
+                            continue;
                         }
 
                         if extent.initialized() {
@@ -172,6 +181,16 @@ where
         }
     }
 
+    /// Whether the mapping may go on with the given block. Blocks may be preallocated anywhere
+    /// beyond the end of the file.
+    fn may_continue_at(&self, block: FileBlockNumber) -> bool {
+        if self.byte_pos < self.file_size_bytes() {
+            block == self.block_pos
+        } else {
+            block >= self.block_pos
+        }
+    }
+
     pub(in crate::ext4) fn metadata_checksum_seed(&self) -> Option<u32> {
         self.inode.metadata_checksum_seed()
     }
-- 
2.43.0


From 133f0350672203704438ef45f956939f3d518e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 32/33] fix: address devices by their logical block size

The size of a device need not be a multiple of its physical block size. The
blocks at its end were then left out, so superblocks near the end were looked
for in the wrong place and the last blocks could not be read.
---
 src/block_device/native.rs | 4 ++--
 src/ioctl/blk.rs           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block_device/native.rs b/src/block_device/native.rs
index b243583..6841627 100644
--- a/src/block_device/native.rs
+++ b/src/block_device/native.rs
@@ -1,6 +1,6 @@
 use crate::block_device::internal::InternalFile;
 use crate::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
-use crate::ioctl::blk::{BLK_GETSIZE64, BLK_PBSZGET};
+use crate::ioctl::blk::{BLK_GETSIZE64, BLK_SSZGET};
 use std::fs::File;
 use std::io;
 use std::io::{Read, Seek, SeekFrom};
@@ -25,7 +25,7 @@ impl NativeBlockDevice {
 
 impl BlockDevice for NativeBlockDevice {
     fn block_size(&self) -> io::Result<BlockSize> {
-        BLK_PBSZGET
+        BLK_SSZGET
             .ioctl(self.file.as_ref())
             .map(|(_, size)| BlockSize(size))
     }
diff --git a/src/ioctl/blk.rs b/src/ioctl/blk.rs
index 76cd7b8..e0a7898 100644
--- a/src/ioctl/blk.rs
+++ b/src/ioctl/blk.rs
@@ -3,4 +3,4 @@ use iocuddle::{Group, Ioctl, Read};
 pub const BLK: Group = Group::new(0x12);
 
 pub const BLK_GETSIZE64: Ioctl<Read, &u64> = unsafe { BLK.read(114) };
-pub const BLK_PBSZGET: Ioctl<Read, &u32> = unsafe { Ioctl::classic((0x12 << 8) | 123) };
+pub const BLK_SSZGET: Ioctl<Read, &u32> = unsafe { Ioctl::classic((0x12 << 8) | 104) };
-- 
2.43.0


From 0ff9b0c24c60fb65cafeab21a49ec90f4741f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 33/33] Expose extent trees and file types to the verification
 harness under cfg(md_recover_verif)

---
 src/ext4/directory/mod.rs | 7 +++++++
 src/ext4/mod.rs           | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/mod.rs b/src/ext4/directory/mod.rs
index c516d2a..86fa7ed 100644
--- a/src/ext4/directory/mod.rs
+++ b/src/ext4/directory/mod.rs
@@ -6,3 +6,10 @@ mod file_type;
 
 #[allow(unused_imports)]
 pub use self::directory::Ext4Directory;
+
+/// Internals exposed to the external verification harness.
+#[cfg(md_recover_verif)]
+#[allow(unused_imports)]
+pub mod verif {
+    pub use super::file_type::Ext4DirectoryInlineFileType;
+}
diff --git a/src/ext4/mod.rs b/src/ext4/mod.rs
index 253550f..1315572 100644
--- a/src/ext4/mod.rs
+++ b/src/ext4/mod.rs
@@ -21,7 +21,9 @@ pub use self::{
 pub mod verif {
     pub use super::block_group::BlockGroupDescriptor;
     pub use super::crc::{ext4_crc32c, EXT4_CRC32C_INITIAL};
-    pub use super::inode::Inode;
+    pub use super::directory::verif::*;
+    pub use super::extent::{Extent, ExtentTree};
+    pub use super::inode::{FileMode, FileType, Inode, Permissions};
     pub use super::string::Ext4String;
     pub use super::superblock::{Checksum, Superblock};
     pub use super::units::*;
-- 
2.43.0


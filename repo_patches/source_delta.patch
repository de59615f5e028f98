From 5f0524bc02a0a87fb234df4ff21ce47aa5aa8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 01/44] fix: report malformed dirents while scanning instead of
 panicking

A dirent whose name runs past the end of its sector made next_entry assert.
---
 xdvdfs-core/src/read.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..ed4ed14 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -62,8 +62,15 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             };
 
             let name_len = dirent.node.dirent.filename_length as usize;
+            let name_end = name_offset + name_len;
+            if name_end > layout::SECTOR_SIZE as usize {
+                // Dirents never straddle a sector, so this record is malformed
+                return Err(util::Error::SizeOutOfBounds(
+                    name_end as u64,
+                    layout::SECTOR_SIZE,
+                ));
+            }
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
             name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
 
             // Dirent is valid, advance cursor before returning
-- 
2.43.0


From 4c4142cfc6d28ef3e777c2d53e174d0c34164efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 02/44] fix: return OutOfBounds for reads crossing the end of a
 byte slice

copy_from_slice panicked when fewer bytes were left than requested.
---
 xdvdfs-core/src/blockdev.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..0640f10 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -57,14 +57,13 @@ impl BlockDeviceRead for [u8] {
     type ReadError = OutOfBounds;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), OutOfBounds> {
-        let offset = offset as usize;
-        if offset >= self.as_ref().len() {
+        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
+        let size = <[u8]>::len(buffer);
+        if offset >= <[u8]>::len(self) || <[u8]>::len(self) - offset < size {
             return Err(OutOfBounds);
         }
 
-        let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
-        let range = offset..(offset + size);
-        buffer.copy_from_slice(&self[range]);
+        buffer.copy_from_slice(&self[offset..(offset + size)]);
         Ok(())
     }
 }
-- 
2.43.0


From 641b3279f56a5592f46e72efc8c6df00238e25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 03/44] fix: terminate path lookup on cyclic dirent trees

---
 xdvdfs-core/src/read.rs | 5 ++++-
 xdvdfs-core/src/util.rs | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index ed4ed14..5a9bd7e 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -188,7 +188,8 @@ impl DirectoryEntryTable {
 
         let mut offset = self.offset(0)?;
 
-        loop {
+        // Child offsets are 16 bits wide, so a longer search must be revisiting dirents
+        for _ in 0..=u16::MAX {
             let dirent = read_dirent(dev, offset).await?;
             let dirent = dirent.ok_or(util::Error::DoesNotExist)?;
             let dirent_name = dirent.name_str()?;
@@ -210,6 +211,8 @@ impl DirectoryEntryTable {
 
             offset = self.offset(4 * next_offset as u64)?;
         }
+
+        Err(util::Error::MalformedDirectory)
     }
 
     /// Retrieves the directory entry node corresponding to the provided path,
diff --git a/xdvdfs-core/src/util.rs b/xdvdfs-core/src/util.rs
index ef107e7..47a8591 100644
--- a/xdvdfs-core/src/util.rs
+++ b/xdvdfs-core/src/util.rs
@@ -16,6 +16,7 @@ pub enum Error<E> {
     InvalidFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    MalformedDirectory,
 }
 
 impl<E> Error<E> {
@@ -34,6 +35,7 @@ impl<E> Error<E> {
             Self::InvalidFileName => "Invalid file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::MalformedDirectory => "Malformed directory structure",
         }
     }
 }
-- 
2.43.0


From d77caa2423b2d68712101688a8c72483cc7cee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 04/44] fix: treat a 0xffff child offset as absent in path
 lookup

walk_dirent_tree already does; lookup of a missing name failed with SizeOutOfBounds.
---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 5a9bd7e..90a968e 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -205,7 +205,7 @@ impl DirectoryEntryTable {
                 core::cmp::Ordering::Greater => dirent.node.right_entry_offset,
             };
 
-            if next_offset == 0 {
+            if next_offset == 0 || next_offset == 0xffff {
                 return Err(util::Error::DoesNotExist);
             }
 
-- 
2.43.0


From 93bee6974d5a48317e6bc6e231da7df2f81fc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 05/44] fix: reject dirent trees that reach a dirent twice when
 walking them

A cyclic tree made walk_dirent_tree loop and allocate without bound.
---
 xdvdfs-core/src/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 90a968e..6b0091c 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -305,8 +305,13 @@ impl DirectoryEntryTable {
             return Ok(dirents);
         }
 
+        let mut visited = alloc::collections::BTreeSet::new();
         let mut stack = vec![0];
         while let Some(top) = stack.pop() {
+            if !visited.insert(top) {
+                return Err(util::Error::MalformedDirectory);
+            }
+
             let offset = self.offset(top)?;
             let dirent = read_dirent(dev, offset).await?;
 
-- 
2.43.0


From 9a5bd02a8688688567c9375da557382d0984a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 06/44] fix: reject directories reachable twice in file_tree

A directory containing itself made file_tree loop and allocate without bound.
---
 xdvdfs-core/src/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 6b0091c..37030e1 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -350,10 +350,16 @@ impl DirectoryEntryTable {
 
         let mut dirents = vec![];
 
+        let mut visited = alloc::collections::BTreeSet::new();
         let mut stack = vec![(String::from(""), *self)];
         while let Some((parent, tree)) = stack.pop() {
             debugln!("[file_tree] Descending through {}", parent);
             let children = tree.walk_dirent_tree(dev).await?;
+            let sector = tree.region.sector;
+            if !children.is_empty() && !visited.insert(sector) {
+                return Err(util::Error::MalformedDirectory);
+            }
+
             for child in children.iter() {
                 if let Some(dirent_table) = child.node.dirent.dirent_table() {
                     let child_name = child.name_str()?;
-- 
2.43.0


From e7c716f6f22b550fa66219bc8b3705702d8bda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 07/44] fix: resolve paths made only of slashes to the root

walk_path("//") reached unreachable!().
---
 xdvdfs-core/src/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 37030e1..017cc2f 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -227,13 +227,13 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        let path = path.trim_start_matches('/');
+        if path.is_empty() {
             return Err(util::Error::NoDirent);
         }
 
         let mut dirent_tab = *self;
         let mut path_iter = path
-            .trim_start_matches('/')
             .split_terminator('/')
             .peekable();
 
-- 
2.43.0


From 464773417be59f867aa514f27359738a816d3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 08/44] fix: report absolute dirent offsets when scanning a
 directory

Scanned dirents carried the offset within their sector, walked and looked up ones
the offset within the image, so the same dirent compared unequal. In the FUSE
daemon readdir and lookup gave one file two inode numbers, and two dirents that
are equal but for their sector shared one.
---
 xdvdfs-core/src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 017cc2f..6128c7a 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let disk_offset =
+                (self.sector as u64) * (layout::SECTOR_SIZE as u64) + self.offset as u64;
+            let dirent = deserialize_dirent_node(&buf, disk_offset)?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From 846cad443427feba589e0c34c19c702f329ec499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 09/44] fix: stop read_data_offset at the end of the file

Only the size was clamped, not offset + size, so a read near the end of a file
returned bytes of whatever follows it, or failed at the end of the image.
---
 xdvdfs-core/src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..b2c81cf 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -273,11 +273,11 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        let size = core::cmp::min(size, (self.data.size as u64).saturating_sub(offset));
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-        if self.data.size == 0 {
+        if size == 0 {
             return Ok(buf);
         }
 
-- 
2.43.0


From 6ea136811201dbdb24a4dccd957907dbd2420b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 10/44] fix: compress images whose files do not fill their last
 sector

copy_file_in did not stop at the end of the file when given an input offset,
and read_sector asserted that every file sector is full, so compressing an
image with any file smaller than a sector panicked.
---
 xdvdfs-core/src/write/fs/sector_linear.rs | 3 ++-
 xdvdfs-core/src/write/fs/xdvdfs.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..e4ba902 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -206,7 +206,8 @@ where
                         sector_size as u64,
                     )
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                // The last sector of a file may be partial, the rest stays zero
+                assert!(bytes_read <= sector_size as u64);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..7fd404b 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -306,7 +306,8 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let remaining = (dirent.node.dirent.data.size as u64).saturating_sub(input_offset);
+        let size_to_copy = core::cmp::min(size, remaining);
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From 88d34815e5d425d13c4583179382046359d4750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 11/44] fix: fail repacking when file data ends early

StdIOCopier accepted a short copy, so repacking a truncated image succeeded
and silently dropped data.
---
 xdvdfs-core/src/write/fs/xdvdfs.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 7fd404b..8620e08 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -150,8 +150,15 @@ where
 
         // Arbitrarily assign copy errors to the write side,
         // we can't differentiate them anyway
-        std::io::copy(&mut src.by_ref().take(size), dest)
-            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)
+        let copied = std::io::copy(&mut src.by_ref().take(size), dest)
+            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
+        if copied != size {
+            return Err(XDVDFSFilesystemError::BlockDevReadErr(
+                std::io::ErrorKind::UnexpectedEof.into(),
+            ));
+        }
+
+        Ok(copied)
     }
 }
 
@@ -177,8 +184,15 @@ where
 
         // Arbitrarily assign copy errors to the write side,
         // we can't differentiate them anyway
-        std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
-            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)
+        let copied = std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
+            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
+        if copied != size {
+            return Err(XDVDFSFilesystemError::BlockDevReadErr(
+                std::io::ErrorKind::UnexpectedEof.into(),
+            ));
+        }
+
+        Ok(copied)
     }
 }
 
-- 
2.43.0


From 747fe29eaf950735ea46574cfac97bd565c40deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 12/44] fix: fail packing when a source file is shorter than
 listed

A file that shrank after its directory was listed was packed with its listed size
and missing data.
---
 xdvdfs-core/src/write/fs/stdfs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..5756c6d 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -97,7 +97,12 @@ where
         file.seek(SeekFrom::Start(input_offset))?;
 
         let mut file = std::io::BufReader::with_capacity(1024 * 1024, file.take(size));
-        std::io::copy(&mut file, dest)
+        let copied = std::io::copy(&mut file, dest)?;
+        if copied != size {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        Ok(copied)
     }
 }
 
-- 
2.43.0


From 41b5bb5cc108ed057f26bde2d4c2fa343ac3ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 13/44] fix: copy files into byte slices at nonzero offsets

The destination is already sliced at output_offset, adding it again panicked.
---
 xdvdfs-core/src/write/fs/stdfs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 5756c6d..29a29e1 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -130,7 +130,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
 
         let dest = &mut dest[output_offset..(output_offset + size)];
         let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
@@ -159,7 +159,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
 
         let dest = &mut dest[output_offset..(output_offset + size)];
         let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 38c4068c4e77fe2bed7fcaa135e75300ef3ce74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 14/44] fix: allow any character in repacked and remapped file
 names

PathPrefixTree indexed a 256-entry array by character, which panicked for names
with characters past U+00FF, such as the euro sign of Windows-1252.
---
 xdvdfs-core/src/write/fs/mod.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..44ed081 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -5,6 +5,7 @@ use std::format;
 use std::path::{Path, PathBuf};
 
 use alloc::boxed::Box;
+use alloc::collections::BTreeMap;
 use alloc::string::String;
 use alloc::vec::Vec;
 
@@ -187,7 +188,7 @@ impl<E, BDW: BlockDeviceWrite> FilesystemCopier<BDW> for Box<dyn FilesystemCopie
 
 #[derive(Clone, Debug)]
 struct PathPrefixTree<T> {
-    children: [Option<Box<PathPrefixTree<T>>>; 256],
+    children: BTreeMap<char, Box<PathPrefixTree<T>>>,
     pub record: Option<(T, Box<PathPrefixTree<T>>)>,
 }
 
@@ -204,12 +205,10 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
         // Expand until we find a node with a record
         while let Some(subtree) = self.queue.pop() {
             let (name, node) = &subtree;
-            for (ch, child) in node.children.iter().enumerate() {
-                if let Some(child) = child {
-                    let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
-                    self.queue.push((name, child));
-                }
+            for (ch, child) in node.children.iter() {
+                let mut name = name.to_owned();
+                name.push(*ch);
+                self.queue.push((name, child));
             }
 
             if let Some(record) = &node.record {
@@ -224,7 +223,7 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
 impl<T> Default for PathPrefixTree<T> {
     fn default() -> Self {
         Self {
-            children: [const { None }; 256],
+            children: BTreeMap::new(),
             record: None,
         }
     }
@@ -238,8 +237,7 @@ impl<T> PathPrefixTree<T> {
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
             for ch in component.chars() {
-                let next = &node.children[ch as usize];
-                node = next.as_ref()?;
+                node = node.children.get(&ch)?;
             }
 
             if component_iter.peek().is_some() {
@@ -259,8 +257,7 @@ impl<T> PathPrefixTree<T> {
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
             for ch in component.chars() {
-                let next = &mut node.children[ch as usize];
-                node = next.as_mut()?;
+                node = node.children.get_mut(&ch)?;
             }
 
             if component_iter.peek().is_some() {
@@ -279,8 +276,7 @@ impl<T> PathPrefixTree<T> {
 
         for component in path.iter() {
             for ch in component.chars() {
-                let next = &node.children[ch as usize];
-                node = next.as_ref()?;
+                node = node.children.get(&ch)?;
             }
 
             let record = &node.record;
@@ -295,8 +291,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for ch in tail.chars() {
-            let next = &mut node.children[ch as usize];
-            node = next.get_or_insert_with(|| Box::new(Self::default()));
+            node = node.children.entry(ch).or_default();
         }
 
         node.record
-- 
2.43.0


From ad1d5be55a89918e0d22e1d14ce30e75637816e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 15/44] fix: reject directories reachable twice when repacking
 an image

Repacking an image with a directory that contains itself never ended.
---
 xdvdfs-core/src/write/fs/xdvdfs.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 8620e08..62b9b7f 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -1,3 +1,4 @@
+use alloc::collections::BTreeMap;
 use alloc::vec::Vec;
 use core::error::Error;
 use core::fmt::Debug;
@@ -206,6 +207,8 @@ where
     dev: D,
     volume: crate::layout::VolumeDescriptor,
     dirent_cache: PathPrefixTree<DirectoryEntryNode>,
+    // Sector of each nonempty directory, and the path it was found at
+    dirtab_paths: BTreeMap<u32, PathVec>,
 
     w_type: core::marker::PhantomData<W>,
     copier_type: core::marker::PhantomData<Copier>,
@@ -226,6 +229,7 @@ where
                 dev,
                 volume,
                 dirent_cache: PathPrefixTree::default(),
+                dirtab_paths: BTreeMap::new(),
                 w_type: core::marker::PhantomData,
                 copier_type: core::marker::PhantomData,
             })
@@ -292,6 +296,18 @@ where
             });
         }
 
+        // Descending into a directory found at two paths may never end
+        if !entries.is_empty() {
+            let sector = dirtab.region.sector;
+            let first_path = self
+                .dirtab_paths
+                .entry(sector)
+                .or_insert_with(|| dir.clone());
+            if first_path != dir {
+                return Err(util::Error::MalformedDirectory);
+            }
+        }
+
         Ok(entries)
     }
 }
-- 
2.43.0


From a70a2fd6dc9df32c1181667e3bd62f52ee704e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 16/44] fix: refuse to extract names that lead out of their
 directory

A dirent named ".." or containing a path separator was joined to the output
path unchecked, so unpacking a crafted image wrote outside of the output directory.
---
 xdvdfs-cli/src/cmd_unpack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..279308f 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,4 +1,5 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
@@ -7,7 +8,7 @@ use std::{
     path::{Path, PathBuf},
     str::FromStr,
 };
-use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
+use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable, util::Error};
 
 #[maybe_async]
 async fn copyout_directory(
@@ -21,6 +22,11 @@ async fn copyout_directory(
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
         let file_name = dirent.name_str::<std::io::Error>()?;
+        if file_name == "." || file_name == ".." || file_name.contains(std::path::is_separator) {
+            // Such a name would be extracted outside of its directory
+            bail!("{}: {:?}", Error::<std::io::Error>::InvalidFileName, file_name);
+        }
+
         let file_path = dirname.join(&*file_name);
         let is_dir = dirent.node.dirent.is_directory();
 
-- 
2.43.0


From 2bc4bbd72336c4828a1a2ca7644459c7e569b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 17/44] fix: create the output directory when extracting an
 empty directory

---
 xdvdfs-cli/src/cmd_unpack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 279308f..6be8b38 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -17,6 +17,7 @@ async fn copyout_directory(
     dirtab: &DirectoryEntryTable,
 ) -> Result<(), anyhow::Error> {
     let tree = dirtab.file_tree(img).await?;
+    std::fs::create_dir_all(dest_dir)?;
 
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
-- 
2.43.0


From 8a5dae45c2aed71adb17a7cc6f5655377c45ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 18/44] fix: fail extracting files cut off by the end of the
 image

A truncated image was extracted with short files and exit status 0.
---
 xdvdfs-cli/src/cmd_unpack.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 6be8b38..0f23e32 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -64,7 +64,10 @@ async fn copyout_directory(
             Ok(data) => {
                 let data = data.take(dirent.node.dirent.data.size as u64);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                let copied = std::io::copy(&mut data, &mut file)?;
+                if copied != dirent.node.dirent.data.size as u64 {
+                    bail!("Image ends before the end of {}", file_name);
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -150,7 +153,10 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
         Ok(data) => {
             let data = data.take(dirent.node.dirent.data.size as u64);
             let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            let copied = std::io::copy(&mut data, &mut file)?;
+            if copied != dirent.node.dirent.data.size as u64 {
+                bail!("Image ends before the end of {}", args.src_path);
+            }
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From a8f1697441a14d952a6ce0e8cfa9759eb5be1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 19/44] fix: report write errors when flushing a packed image

The buffered image was only flushed when dropped, which ignores errors: packing to
a full disk could succeed with an incomplete image, and rewriting with -D then
deleted the original.
---
 xdvdfs-cli/src/cmd_build_image.rs | 1 +
 xdvdfs-cli/src/cmd_pack.rs        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..6e15062 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -244,6 +244,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    image.flush()?;
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..71ecb65 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 use anyhow::bail;
@@ -99,5 +100,6 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    image.flush()?;
     Ok(())
 }
-- 
2.43.0


From 4a6bdad9efa936c025b5a4f5b69a3e699a48feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 20/44] fix: honour the -O option of build-image

It was parsed but never used, the image went to the inferred path instead.
---
 xdvdfs-cli/src/cmd_build_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 6e15062..281516b 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -195,10 +195,10 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
     let image_path = if let Some(path) = &args.image_path {
         PathBuf::from_str(path)?
     } else {
-        let output_path = image_spec
+        let output_path = args.meta_output.as_ref().or(image_spec
             .as_ref()
             .and_then(|spec| spec.metadata.as_ref())
-            .and_then(|meta| meta.output.as_ref());
+            .and_then(|meta| meta.output.as_ref()));
 
         if let Some(output) = output_path {
             source_path.join(output)
-- 
2.43.0


From 253899dd751aa457158ce067d06377196234e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 21/44] fix: build images from a spec file in the current
 directory

`build-image xdvdfs.toml` used an empty source path, which cannot be read.
---
 xdvdfs-cli/src/cmd_build_image.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 281516b..8e749d5 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -149,6 +149,12 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
             .parent()
             .ok_or(anyhow!("Invalid source path"))?
             .to_path_buf();
+        // The parent of a bare file name is empty, which cannot be listed
+        let source = if source.as_os_str().is_empty() {
+            PathBuf::from(".")
+        } else {
+            source
+        };
         (source_path, source)
     };
 
-- 
2.43.0


From 9bb06f71671631edc134c28dba78af23594c40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 22/44] fix: accept several -c arguments with output files in
 extract-xiso mode

The output file of each but the first was taken for the next argument.
---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..3750dae 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -117,7 +117,7 @@ async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> a
 
         if i + 2 < rest.len() && rest[i + 2] != "-c" {
             tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
-            i += 2;
+            i += 3;
         } else {
             tasks.push((&rest[i + 1], None));
             i += 2;
-- 
2.43.0


From d477afa28b99f3f8fab83cffc596cfede39171fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 23/44] fix: write rewritten images into the directory given
 with -d

with_file_name replaces the last component, so they ended up next to it.
---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 3750dae..5d3ab80 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From 5a85eca109cb7c34eb5fd1ab67034329e83ce1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 24/44] fix: print child offsets past 64 KiB in info

4 * u16 overflowed for large directories.
---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..948c65b 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * dirent.node.left_entry_offset as u32)
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * dirent.node.right_entry_offset as u32)
         } else {
             String::from("None")
         }
-- 
2.43.0


From be0d0bc6a948608ea07263b624e363a1d9795289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 25/44] fix: resolve the directory of output paths that do not
 exist yet

The check that the output is not inside of the source compared an unresolved path,
which ".." components or symlinked directories defeat.
---
 xdvdfs-cli/src/img.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index f570ff6..d13dc6a 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -80,11 +80,20 @@ pub async fn open_image(
 /// otherwise returns the result of std::path::absolute
 /// std::fs::canonicalize will follow symlinks, but seems to error on some filesystems
 /// on Windows. Following symlinks is desirable, so it is attempted first
+/// For a path that does not exist yet, its parent directory is resolved instead
 pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
-    match std::fs::canonicalize(path) {
-        Err(_) => std::path::absolute(path),
-        ok => ok,
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
     }
+
+    let path = std::path::absolute(path)?;
+    if let (Some(parent), Some(file_name)) = (path.parent(), path.file_name()) {
+        if let Ok(parent) = std::fs::canonicalize(parent) {
+            return Ok(parent.join(file_name));
+        }
+    }
+
+    Ok(path)
 }
 
 /// Similar to Path::with_extension, but will not overwrite the extension for
-- 
2.43.0


From e4d8af7a0b1d11d021d6a184fe871d4e77904b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 26/44] fix: write compressed images to the directory of the
 output path

Only the file name of the given path was used, so the image always ended up in
the current directory.
---
 xdvdfs-cli/src/cmd_compress.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..647cdd6 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -20,7 +20,9 @@ pub struct CompressArgs {
     image_path: Option<String>,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    dir: PathBuf,
+}
 
 type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
@@ -35,7 +37,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
+        let file = std::fs::File::create(self.dir.join(name))?;
         let bf: BufFile = std::io::BufWriter::new(file);
         Ok(bf)
     }
@@ -74,7 +76,9 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, image_path);
+    // Only the file name of each split is passed to the filesystem
+    let dir = image_path.parent().unwrap_or(Path::new("")).to_path_buf();
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
-- 
2.43.0


From 40165f2348fbe81ad4f8e246dfcd5ba7179db960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 27/44] fix: compare absolute paths when compressing

As pack does. The output was only refused when both paths were spelled alike.
---
 xdvdfs-cli/src/cmd_compress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 647cdd6..392ebd3 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -54,7 +54,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -70,7 +70,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if image_path.starts_with(&source_path) {
+    if absolute_path(&image_path)?.starts_with(&source_path) {
         return Err(anyhow::anyhow!(
             "Destination path is contained by source path"
         ));
-- 
2.43.0


From 8c6c4c00b413582e1f564b774af3e50d3319b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 28/44] fix: report write errors when flushing a compressed
 image

As when packing, errors of the final flush were ignored.
---
 xdvdfs-cli/src/cmd_compress.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 392ebd3..dda4d91 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -1,4 +1,8 @@
-use std::path::{Path, PathBuf};
+use std::{
+    io::Write,
+    path::{Path, PathBuf},
+    sync::{Arc, Mutex},
+};
 
 use clap::Args;
 use maybe_async::maybe_async;
@@ -22,6 +26,7 @@ pub struct CompressArgs {
 
 struct SplitStdFs {
     dir: PathBuf,
+    flush_result: Arc<Mutex<std::io::Result<()>>>,
 }
 
 type BufFile = std::io::BufWriter<std::fs::File>;
@@ -42,7 +47,11 @@ impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
         Ok(bf)
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, mut file: BufFile) {
+        if let Err(err) = file.flush() {
+            *self.flush_result.lock().unwrap() = Err(err);
+        }
+    }
 }
 
 fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
@@ -78,7 +87,12 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
 
     // Only the file name of each split is passed to the filesystem
     let dir = image_path.parent().unwrap_or(Path::new("")).to_path_buf();
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, image_path);
+    let flush_result = Arc::new(Mutex::new(Ok(())));
+    let split_fs = SplitStdFs {
+        dir,
+        flush_result: flush_result.clone(),
+    };
+    let mut output = ciso::split::SplitOutput::new(split_fs, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
@@ -134,5 +148,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
-    Ok(())
+    output.close().await;
+    let mut flush_result = flush_result.lock().unwrap();
+    Ok(std::mem::replace(&mut *flush_result, Ok(()))?)
 }
-- 
2.43.0


From e72b92366759b40aee7c810eebda7d95ebfba388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 29/44] fix: read compressed images at unaligned offsets

CSOReader ignores the offset within a sector that is stored uncompressed, and panics
when a read at an offset within a compressed one ends in the next. Dirents at
nonzero offsets of incompressible tables were read from the start of the sector.
Reads past the end of the image are errors now, not panics.
---
 xdvdfs-cli/src/img.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index d13dc6a..0429a8c 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -19,13 +19,23 @@ where
     type ReadError = std::io::Error;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
+        let size = self.inner.file_size();
+        if offset > size || size - offset < buffer.len() as u64 {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        // CSOReader only supports reads starting at a sector boundary
+        let start = offset % xdvdfs::layout::SECTOR_SIZE as u64;
+        let mut sectors = vec![0; start as usize + buffer.len()];
         self.inner
-            .read_offset(offset, buffer)
+            .read_offset(offset - start, &mut sectors)
             .await
             .map_err(|e| match e {
                 ciso::layout::Error::Other(e) => e,
                 e => std::io::Error::new(std::io::ErrorKind::Other, e),
-            })
+            })?;
+        buffer.copy_from_slice(&sectors[start as usize..]);
+        Ok(())
     }
 }
 
-- 
2.43.0


From a6104a41960172cd38ee94f1831445d43f03e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 30/44] fix: answer lookups of missing names with ENOENT

They failed with EIO.
---
 xdvdfs-fsd/src/img_fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6112fc9..61f193c 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -13,6 +13,7 @@ use tokio::runtime::Runtime;
 use xdvdfs::{
     blockdev::OffsetWrapper,
     layout::{DirectoryEntryNode, DirectoryEntryTable, VolumeDescriptor},
+    util::Error,
 };
 
 struct FuseFilesystemCache {
@@ -212,6 +213,10 @@ impl fuser::Filesystem for FuseFilesystem {
         let dirent = self.rt.block_on(dirtab.walk_path(&mut self.device, name));
         let dirent = match dirent {
             Ok(dirent) => dirent,
+            Err(Error::DoesNotExist | Error::DirectoryEmpty) => {
+                reply.error(libc::ENOENT);
+                return;
+            }
             Err(_) => {
                 reply.error(libc::EIO);
                 return;
-- 
2.43.0


From 859e02d6f5accd1223b9c6e76ece3fefff6a35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 31/44] fix: exit with an error when the daemon fails to start

The parent process exited successfully whether or not the forked child could
open the image.
---
 xdvdfs-fsd/src/daemonize.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/xdvdfs-fsd/src/daemonize.rs b/xdvdfs-fsd/src/daemonize.rs
index cb6b7a8..2c3dced 100644
--- a/xdvdfs-fsd/src/daemonize.rs
+++ b/xdvdfs-fsd/src/daemonize.rs
@@ -8,14 +8,6 @@ type Inner = ();
 
 pub struct Daemonize(Inner, bool);
 
-impl Drop for Daemonize {
-    fn drop(&mut self) {
-        if !self.1 {
-            self.finish_impl().unwrap();
-        }
-    }
-}
-
 impl Daemonize {
     pub fn finish(mut self) -> anyhow::Result<()> {
         if self.1 {
@@ -33,8 +25,9 @@ impl Daemonize {
     /// Fork the daemon off of the parent
     /// This function will never return in the parent,
     /// and will return a Daemonize handle to the child.
-    /// The parent will wait for the child to drop, or
-    /// to call `finish()` before exiting.
+    /// The parent will wait for the child to drop the handle, or
+    /// to call `finish()` before exiting. It only exits successfully
+    /// after `finish()`.
     /// Safety: Unsafe when called in multithreaded context.
     pub unsafe fn fork() -> anyhow::Result<Daemonize> {
         use nix::unistd;
@@ -48,9 +41,9 @@ impl Daemonize {
                 // Wait for message on pipe, then exit
                 std::mem::drop(w);
                 let mut buf = [0];
-                unistd::read(r.as_raw_fd(), &mut buf)?;
+                let finished = unistd::read(r.as_raw_fd(), &mut buf)? == 1;
                 std::mem::drop(r);
-                std::process::exit(0);
+                std::process::exit(if finished { 0 } else { 1 });
             }
             unistd::ForkResult::Child => {
                 std::mem::drop(r);
-- 
2.43.0


From 97b898f416a2f8bacab3492897b5830745fad406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:20 +0000
Subject: [PATCH 32/44] fix: answer readdir when the dot entries fill the
 buffer

Returning without completing the reply made the session answer with EIO
instead of the entries that did fit.
---
 xdvdfs-fsd/src/img_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 61f193c..38c4119 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -365,11 +365,13 @@ impl fuser::Filesystem for FuseFilesystem {
 
         // Increment idx + 1 because 0 is special in FUSE
         if offset == 0 && reply.add(ino, idx + 1, fuser::FileType::Directory, ".") {
+            reply.ok();
             return;
         }
         idx += 1;
 
         if offset <= 1 && reply.add(ino, idx + 1, fuser::FileType::Directory, "..") {
+            reply.ok();
             return;
         }
         idx += 1;
-- 
2.43.0


From 109727300136b8af2b167ef3f316731d5717e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:16 +0000
Subject: [PATCH 33/44] fix: do not compress an image over itself

The output of compress is written to numbered parts; an image named like
the first part of its own output was truncated before it was read.
---
 xdvdfs-cli/src/cmd_compress.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index dda4d91..34aea83 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -79,10 +79,14 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if absolute_path(&image_path)?.starts_with(&source_path) {
-        return Err(anyhow::anyhow!(
-            "Destination path is contained by source path"
-        ));
+    // The output is written to numbered parts, the first of which always exists
+    let first_part = image_path.with_extension("1.cso");
+    for path in [&image_path, &first_part] {
+        if absolute_path(path)?.starts_with(&source_path) {
+            return Err(anyhow::anyhow!(
+                "Destination path is contained by source path"
+            ));
+        }
     }
 
     // Only the file name of each split is passed to the filesystem
-- 
2.43.0


From c7fe6235fd551df4b56121a411aff0016b7335f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:55 +0000
Subject: [PATCH 34/44] fix: read all of a file into memory devices

A single read may return less than requested (on Linux never more than
2 GiB), and the rest of the file was replaced by zeros.
---
 xdvdfs-core/src/write/fs/stdfs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 29a29e1..b47eac1 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -129,8 +129,9 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[bytes_read..].fill(0);
+        // A single read is allowed to return less than what is left of the file
+        let bytes_read = std::io::copy(&mut file.take(size as u64), &mut &mut *dest)?;
+        dest[bytes_read as usize..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
@@ -158,8 +159,9 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[bytes_read..].fill(0);
+        // A single read is allowed to return less than what is left of the file
+        let bytes_read = std::io::copy(&mut file.take(size as u64), &mut &mut *dest)?;
+        dest[bytes_read as usize..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 94bd9871fd3550c89f508cd43374d172243b8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:02 +0000
Subject: [PATCH 35/44] fix: count buffered data in the length of a buffered
 file

---
 xdvdfs-core/src/blockdev.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 0640f10..c95d690 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -271,6 +271,8 @@ impl BlockDeviceWrite for std::io::BufWriter<std::fs::File> {
     }
 
     async fn len(&mut self) -> Result<u64, std::io::Error> {
+        // Buffered data may extend the file
+        std::io::Write::flush(self)?;
         Ok(self.get_mut().metadata()?.len())
     }
 }
-- 
2.43.0


From d0784d866e2b5b2a533043d6883012c3331fd40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 36/44] fix: substitute glob matches into remapped paths in one
 pass

---
 xdvdfs-core/src/write/fs/remap.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8305b05..dbe181a 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -229,12 +229,19 @@ where
                     continue;
                 }
 
-                let mut rewrite = cfg.map_rules[idx].1.clone();
-                let match_indices = Self::find_match_indices(&rewrite)?;
-                for index in match_indices {
-                    let replace = matched.get(index).unwrap_or("");
-                    rewrite = rewrite.replace(&alloc::format!("{{{index}}}"), replace);
+                // Substituted text is never searched for further substitutions, as host
+                // names can contain braces
+                let mut rewrite = String::new();
+                let mut remaining = cfg.map_rules[idx].1.as_str();
+                for index in Self::find_match_indices(remaining)? {
+                    let directive = alloc::format!("{{{index}}}");
+                    if let Some((literal, rest)) = remaining.split_once(directive.as_str()) {
+                        rewrite.push_str(literal);
+                        rewrite.push_str(matched.get(index).unwrap_or(""));
+                        remaining = rest;
+                    }
                 }
+                rewrite.push_str(remaining);
 
                 // If this path matched a prefix (e.g. the rule "bin") and has a suffix (e.g.
                 // "/default.xbe"), then we need to re-add the suffix to the rewritten prefix
-- 
2.43.0


From 92d55d8368879a61ea69b6023ce0e5a0ea73b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:11 +0000
Subject: [PATCH 37/44] fix: keep the leading dot of remapped dotfiles

---
 xdvdfs-core/src/write/fs/remap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index dbe181a..182357b 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -250,11 +250,12 @@ where
                         alloc::format!("{}{}", rewrite.trim_end_matches('/'), suffix.as_string());
                 }
 
+                // Image paths are always relative to the image root, drop leading "/", "./" and
+                // "../", but not the first character of a dotfile
                 let rewrite = PathVec::from_iter(
                     rewrite
-                        .trim_start_matches('.')
-                        .trim_start_matches('/')
-                        .split('/'),
+                        .split('/')
+                        .skip_while(|component| matches!(*component, "" | "." | "..")),
                 );
                 rewritten_path = Some(rewrite);
             }
-- 
2.43.0


From 5cc2daeab4309bfe2d196348729e418f355112c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 38/44] fix: report the length of an offset device relative to
 its offset

---
 xdvdfs-core/src/blockdev.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index c95d690..5e0ea7d 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -205,7 +205,9 @@ where
     }
 
     async fn len(&mut self) -> Result<u64, Self::WriteError> {
-        self.inner.len().await
+        // As with reads and writes, positions are relative to the offset
+        let len = self.inner.len().await?;
+        Ok(len.saturating_sub(self.offset))
     }
 }
 
-- 
2.43.0


From 6177a0d95a15f0bb0b05aea249c48782c7dee368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 39/44] fix: fail when a file does not fit into a memory device

---
 xdvdfs-core/src/write/fs/stdfs.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index b47eac1..50263b8 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -125,12 +125,14 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);
         file.seek(SeekFrom::Start(input_offset))?;
 
-        let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
-
-        let dest = &mut dest[output_offset..(output_offset + size)];
+        // Files which do not fit into the device are not truncated
+        let dest = usize::try_from(output_offset)
+            .ok()
+            .and_then(|offset| dest.get_mut(offset..))
+            .and_then(|dest| dest.get_mut(..usize::try_from(size).ok()?))
+            .ok_or(std::io::Error::from(std::io::ErrorKind::WriteZero))?;
         // A single read is allowed to return less than what is left of the file
-        let bytes_read = std::io::copy(&mut file.take(size as u64), &mut &mut *dest)?;
+        let bytes_read = std::io::copy(&mut file.take(size), &mut &mut *dest)?;
         dest[bytes_read as usize..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
-- 
2.43.0


From 7cf0c090381b3bc33da1e7996139453003df87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:15 +0000
Subject: [PATCH 40/44] fix: fail packing to memory when a source file is
 shorter than listed

---
 xdvdfs-core/src/write/fs/stdfs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 50263b8..6d707f6 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -133,8 +133,11 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
             .ok_or(std::io::Error::from(std::io::ErrorKind::WriteZero))?;
         // A single read is allowed to return less than what is left of the file
         let bytes_read = std::io::copy(&mut file.take(size), &mut &mut *dest)?;
-        dest[bytes_read as usize..].fill(0);
-        Ok(<[u8]>::len(dest) as u64)
+        if bytes_read != size {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        Ok(bytes_read)
     }
 }
 
-- 
2.43.0


From 4d8d473afa606baa8f197bf15285f7de3f43c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 41/44] fix: do not overwrite another original when rewriting
 an image

---
 xdvdfs-cli/src/exiso_compat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 5d3ab80..26292ab 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -175,6 +175,14 @@ async fn exiso_repack(
 
         // Move input to `input.old`
         let renamed_input_path = with_extension(&source_path, "old", false);
+        if renamed_input_path.symlink_metadata().is_ok() {
+            // It may be the only copy of another original
+            bail!(
+                "{} already exists, cannot rewrite {}",
+                renamed_input_path.display(),
+                source_path.display()
+            );
+        }
         std::fs::rename(&source_path, &renamed_input_path)?;
 
         // Pack using `input.old` as input, and source path as output
-- 
2.43.0


From 5c4862eff0345c62a6eabbed5919b6e5752c9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 42/44] fix: do not write one rewritten image over another

---
 xdvdfs-cli/src/exiso_compat.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 26292ab..4563bb0 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -166,6 +166,12 @@ async fn exiso_repack(
 ) -> anyhow::Result<()> {
     use crate::cmd_pack::cmd_pack_path;
 
+    // No output may replace another image of the list or its output
+    let mut taken = xiso_list
+        .iter()
+        .map(|xiso| absolute_path(Path::new(xiso)))
+        .collect::<std::io::Result<std::collections::BTreeSet<_>>>()?;
+
     for xiso in xiso_list {
         let source_path = absolute_path(Path::new(&xiso))?;
         let metadata = std::fs::metadata(&source_path)?;
@@ -173,6 +179,14 @@ async fn exiso_repack(
             bail!("Repack input must be a file");
         }
 
+        let dest_path = match directory {
+            Some(d) => absolute_path(&Path::new(d).join(source_path.file_name().unwrap()))?,
+            None => source_path.clone(),
+        };
+        if dest_path != source_path && !taken.insert(dest_path.clone()) {
+            bail!("{} belongs to another image", dest_path.display());
+        }
+
         // Move input to `input.old`
         let renamed_input_path = with_extension(&source_path, "old", false);
         if renamed_input_path.symlink_metadata().is_ok() {
@@ -186,11 +200,6 @@ async fn exiso_repack(
         std::fs::rename(&source_path, &renamed_input_path)?;
 
         // Pack using `input.old` as input, and source path as output
-        let dest_path = match directory {
-            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
-            None => source_path,
-        };
-
         cmd_pack_path(&renamed_input_path, &dest_path).await?;
 
         if delete {
-- 
2.43.0


From f2208ad46c5cafbaaf39cd74cc570993c3e6d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 43/44] fix: fail packing when the image runs out of sector
 numbers

Sector numbers wrapped around once the files of a tree filled 2^32 sectors, so later files were written over
earlier ones (or, with overflow checks, packing panicked).
---
 xdvdfs-core/src/write/dirtab.rs |  2 +-
 xdvdfs-core/src/write/img.rs    |  2 +-
 xdvdfs-core/src/write/mod.rs    |  2 ++
 xdvdfs-core/src/write/sector.rs | 12 ++++++++----
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index 22edf31..da3b73f 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -189,7 +189,7 @@ impl DirectoryEntryTableWriter {
                 dirent,
             };
 
-            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64);
+            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64)?;
             dirent.dirent.data.sector = sector;
 
             file_listing.push(FileListingEntry {
diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..f361a55 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -137,7 +137,7 @@ pub async fn create_xdvdfs_image<
         .first_key_value()
         .expect("should always have one dirent at minimum (root)");
     let root_dirtab_size = root_dirtab.1.dirtab_size();
-    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64);
+    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64)?;
     let root_table = layout::DirectoryEntryTable::new(root_dirtab_size, root_sector);
     dir_sectors.insert((*root_dirtab.0).clone(), root_sector as u64);
 
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index d269ecb..b07e9a8 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -18,6 +18,7 @@ pub enum FileStructureError {
     DuplicateFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    ImageTooLarge,
 }
 
 #[derive(Debug)]
@@ -43,6 +44,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::ImageTooLarge => "Image is too large",
         }
     }
 }
diff --git a/xdvdfs-core/src/write/sector.rs b/xdvdfs-core/src/write/sector.rs
index 85715d9..98e6ea9 100644
--- a/xdvdfs-core/src/write/sector.rs
+++ b/xdvdfs-core/src/write/sector.rs
@@ -1,3 +1,4 @@
+use super::FileStructureError;
 use crate::layout::SECTOR_SIZE;
 
 pub struct SectorAllocator {
@@ -29,11 +30,14 @@ pub fn required_sectors(len: u64) -> u32 {
 
 impl SectorAllocator {
     /// Allocates a contiguous set of sectors, big enough to fit `bytes`.
-    /// Returns the number of the first sector in the allocation
-    pub fn allocate_contiguous(&mut self, bytes: u64) -> u32 {
+    /// Returns the number of the first sector in the allocation,
+    /// or an error if the image has no more sectors to address
+    pub fn allocate_contiguous(&mut self, bytes: u64) -> Result<u32, FileStructureError> {
         let sectors = required_sectors(bytes);
         let allocation = self.next_free;
-        self.next_free += sectors;
-        allocation
+        self.next_free = allocation
+            .checked_add(sectors)
+            .ok_or(FileStructureError::ImageTooLarge)?;
+        Ok(allocation)
     }
 }
-- 
2.43.0


From c2ec6e71c8de68b67f6b3c7eef7798717f5b4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 44/44] fix: limit file names by their length on disk

Names hold one byte per character on disk, but the limit of 255 was applied to their UTF-8 form. Names of up to
255 characters with some outside of ASCII were refused, so images holding such names could not be repacked.
---
 xdvdfs-core/src/layout.rs       | 6 +++---
 xdvdfs-core/src/write/dirtab.rs | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index b2c81cf..e0ed81c 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -109,7 +109,8 @@ pub struct DirectoryEntryNode {
 #[cfg(feature = "write")]
 pub struct DirectoryEntryData {
     pub node: DirectoryEntryDiskData,
-    pub name: arrayvec::ArrayString<256>,
+    // Names are at most 255 characters on disk, of up to 3 bytes each in UTF-8
+    pub name: arrayvec::ArrayString<768>,
 }
 
 impl DiskRegion {
@@ -321,8 +322,7 @@ impl DirectoryEntryNode {
 #[cfg(feature = "write")]
 impl DirectoryEntryData {
     pub fn name_slice(&self) -> &[u8] {
-        let name_len = self.node.filename_length as usize;
-        &self.name.as_str().as_bytes()[0..name_len]
+        self.name.as_bytes()
     }
 
     pub fn name_str(&self) -> &str {
diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index da3b73f..9aeabcc 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -49,8 +49,10 @@ impl DirectoryEntryTableWriter {
     ) -> Result<(), FileStructureError> {
         let name =
             arrayvec::ArrayString::from(name).map_err(|_| FileStructureError::FileNameTooLong)?;
+        // On disk, every character is encoded to a single byte
         let filename_length = name
-            .len()
+            .chars()
+            .count()
             .try_into()
             .map_err(|_| FileStructureError::FileNameTooLong)?;
 
-- 
2.43.0


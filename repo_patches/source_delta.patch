From bda2ecd905eaed0fc239a85d1652e3cf8dbc2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 01/24] fix: keep staged writes locked until their batch ends,
 and release them when it commits

A file with staged writes was handed whole to the next value writer. Dropping
that writer unlocked the staged data, and committing while it was alive left
the committed data locked.
---
 src/exclusive_file.rs | 19 +++++++++++++++++++
 src/lib.rs            | 18 +++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index c6436e8..0fd9f21 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -84,6 +84,11 @@ impl ExclusiveFile {
 
     pub(crate) fn committed(&mut self) -> io::Result<bool> {
         let new_committed_offset = self.inner.stream_position()?;
+        self.committed_to(new_committed_offset)
+    }
+
+    /// Marks only the part of the file up to the given offset as committed.
+    pub(crate) fn committed_to(&mut self, new_committed_offset: u64) -> io::Result<bool> {
         // Remove the exclusive lock on the part we just committed.
         if !self
             .inner
@@ -95,6 +100,20 @@ impl ExclusiveFile {
         Ok(true)
     }
 
+    /// Another reference to the same open file. The file position and locks are shared, and locks
+    /// are held until all references are closed.
+    pub(crate) fn try_clone(&self) -> io::Result<Self> {
+        Ok(Self {
+            inner: self.inner.try_clone()?,
+            id: self.id,
+            last_committed_offset: self.last_committed_offset,
+            lock_level: match self.lock_level {
+                Shared => Shared,
+                Exclusive => Exclusive,
+            },
+        })
+    }
+
     /// The exclusive file offset that writing should occur at. Maybe it shouldn't need to be
     /// mutable since it shouldn't actually shift the file position, however it may decide to cache
     /// it in the future.
diff --git a/src/lib.rs b/src/lib.rs
index 3ddcf89..3d147e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -250,6 +250,11 @@ where
 {
     handle: H,
     exclusive_files: Vec<ExclusiveFile>,
+    // Exclusive files that contain staged writes but have since been handed out to another
+    // ValueWriter, with the end of the staged writes. These share their locks with the ValueWriter's
+    // file, so what's staged stays protected if the ValueWriter is dropped, and can be released on
+    // commit if it isn't.
+    lent_files: HashMap<FileId, (ExclusiveFile, u64)>,
     pending_writes: Vec<PendingWrite>,
     value_renames: Vec<ValueRename>,
 }
@@ -262,6 +267,7 @@ where
         Self {
             handle,
             exclusive_files: Default::default(),
+            lent_files: Default::default(),
             pending_writes: Default::default(),
             value_renames: Default::default(),
         }
@@ -316,9 +322,11 @@ where
     H: WithHandle,
 {
     fn get_exclusive_file(&mut self) -> Result<ExclusiveFile> {
-        if let Some(ef) = self.exclusive_files.pop() {
+        if let Some(ef) = self.exclusive_files.last_mut() {
+            let lent = (ef.try_clone()?, ef.next_write_offset()?);
+            self.lent_files.insert(ef.id, lent);
             debug!("reusing exclusive file from writer");
-            return Ok(ef);
+            return Ok(self.exclusive_files.pop().unwrap());
         }
         self.handle.with_handle(Handle::get_exclusive_file)
     }
@@ -367,7 +375,8 @@ where
 
     fn commit_inner(mut self, before_write: impl Fn()) -> Result<WriteCommitResult> {
         if flocking() {
-            for ef in &mut self.exclusive_files {
+            let lent_files = self.lent_files.values_mut().map(|(ef, _)| ef);
+            for ef in self.exclusive_files.iter_mut().chain(lent_files) {
                 assert!(ef.downgrade_lock()?);
             }
         }
@@ -394,6 +403,9 @@ where
 
     /// Flush Writer's exclusive files and return them to the Handle pool.
     fn flush_exclusive_files(&mut self) {
+        for (_, (mut ef, staged_end)) in self.lent_files.drain() {
+            ef.committed_to(staged_end).unwrap();
+        }
         for ef in &mut self.exclusive_files {
             ef.committed().unwrap();
         }
-- 
2.43.0


From 244fe82aaa3bc5637aa449196378e6ef2d75b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:11 +0000
Subject: [PATCH 02/24] fix: exclude keys outside a prefix that ends in 0xff

The end of the range kept zero bytes where 0xff carried, so listing, deleting
and moving the prefix included keys such as the incremented prefix itself.
---
 src/tx.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tx.rs b/src/tx.rs
index 7548f3e..5138a38 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -100,6 +100,11 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
     fn list_items(&self, prefix: &[u8]) -> PubResult<Vec<Item>> {
         let range_end = {
             let mut prefix = prefix.to_owned();
+            // Carrying out of trailing 0xff would leave zeroes that keys after the prefix can be
+            // less than.
+            while prefix.last() == Some(&u8::MAX) {
+                prefix.pop();
+            }
             if inc_big_endian_array(&mut prefix) {
                 Some(prefix)
             } else {
-- 
2.43.0


From 6716c36ed17026a231e5de49df29716a65a67a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 03/24] fix: renaming a value onto its own key, or one that is
 gone, deletes nothing

---
 src/tx.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index 5138a38..a6abac2 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -269,6 +269,18 @@ where
 
     // TODO: Add a test for renaming onto itself.
     pub fn rename_value(&mut self, value: &Value, new_key: Vec<u8>) -> PubResult<bool> {
+        // Leave everything alone if the value is gone, or already has the key.
+        match self
+            .tx
+            .prepare_cached_readonly("select key from keys where file_id=? and file_offset=?")?
+            .query_row(params![value.file_id(), value.file_offset()], |row| {
+                row.get::<_, Vec<u8>>(0)
+            }) {
+            Err(QueryReturnedNoRows) => return Ok(false),
+            Err(err) => return Err(err.into()),
+            Ok(old_key) if old_key == new_key => return Ok(true),
+            Ok(_) => {}
+        }
         match self
             .tx
             .prepare_cached(&format!(
@@ -280,19 +292,9 @@ where
             Err(QueryReturnedNoRows) => {}
             Err(err) => return Err(err.into()),
             Ok(existing_value) => {
-                match existing_value.location {
-                    Nonzero(a) => {
-                        let b = value;
-                        if Some(a.file_offset) == b.file_offset() && Some(&a.file_id) == b.file_id()
-                        {
-                            assert_eq!(a.length, b.length());
-                            // Renamed but the name is the same.
-                            return Ok(true);
-                        }
-                        // Schedule the value that previously had the key to be hole punched.
-                        self.deleted_values.push(a);
-                    }
-                    ZeroLength => {}
+                // Schedule the value that previously had the key to be hole punched.
+                if let Nonzero(a) = existing_value.location {
+                    self.deleted_values.push(a);
                 }
             }
         };
-- 
2.43.0


From a5bf8a68fe96b13332feccc54e8b8ea387cc0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 04/24] fix: look for new values again after locking a values
 file to truncate it

---
 src/lib.rs | 12 +++++++++++-
 src/tx.rs  |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d147e9..55b643e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -856,7 +856,17 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                     .context("locking value file")?;
                 // Get the file length after we have tried locking the file.
                 let file_end = file.seek(End(0))? as i64;
-                if locked_file {
+                // Values could have been committed to the file between the start of the transaction
+                // and getting the lock.
+                let next_offset = if locked_file {
+                    tx.renew()?;
+                    tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?
+                } else {
+                    None
+                };
+                if let Some(next_offset) = next_offset {
+                    floored_multiple(next_offset as i64, block_size)
+                } else if locked_file {
                     // I think it's okay to remove and truncate files if cloning doesn't use locks,
                     // because there are no values in this file to clone.
                     if offset == 0 && allow_remove {
diff --git a/src/tx.rs b/src/tx.rs
index a6abac2..afc368b 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -39,6 +39,13 @@ pub type ReadTransactionRef<'a> = &'a ReadTransactionOwned<'a>;
 /// Helper type for wrapping rusqlite::Transaction to only provide ReadTransaction capabilities.
 pub struct ReadTransactionOwned<'a>(pub(crate) rusqlite::Transaction<'a>);
 
+impl ReadTransactionOwned<'_> {
+    /// Moves the transaction to the latest committed state.
+    pub(crate) fn renew(&self) -> rusqlite::Result<()> {
+        self.0.execute_batch("rollback; begin deferred")
+    }
+}
+
 impl ReadOnlyTransactionAccessor for ReadTransactionOwned<'_> {
     fn readonly_transaction(&self) -> &rusqlite::Transaction {
         &self.0
-- 
2.43.0


From e7194da9d77c9f73613f463218cf2ac1e32e7e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 05/24] fix: wait for momentarily locked extents when reading,
 and release them before completing a commit

---
 src/lib.rs    | 30 +++++++++++++++++++++---------
 src/reader.rs |  4 +++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55b643e..7c43dee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,22 +394,34 @@ where
             }
             // TODO: On error here, rewind the exclusive to undo any writes that just occurred.
             let work = transaction.commit().context("commit transaction")?;
+            // Readers of the committed values may be waiting for these locks, while holding things
+            // that are needed to complete.
+            Self::flush_exclusive_files(&mut self.exclusive_files, &mut self.lent_files);
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-        self.flush_exclusive_files();
+        self.return_exclusive_files_to_handle();
         Ok(write_commit_res)
     }
 
-    /// Flush Writer's exclusive files and return them to the Handle pool.
-    fn flush_exclusive_files(&mut self) {
-        for (_, (mut ef, staged_end)) in self.lent_files.drain() {
-            ef.committed_to(staged_end).unwrap();
-        }
-        for ef in &mut self.exclusive_files {
-            ef.committed().unwrap();
+    /// Flush Writer's exclusive files so they can be returned to the Handle pool.
+    fn flush_exclusive_files(
+        exclusive_files: &mut Vec<ExclusiveFile>,
+        lent_files: &mut HashMap<FileId, (ExclusiveFile, u64)>,
+    ) {
+        for (_, (mut ef, staged_end)) in lent_files.drain() {
+            if let Err(err) = ef.committed_to(staged_end) {
+                error!("error releasing committed part of {}: {:#?}", ef.id, err);
+            }
         }
-        self.return_exclusive_files_to_handle()
+        // Closing a file that's broken in some way releases its locks.
+        exclusive_files.retain_mut(|ef| match ef.committed() {
+            Ok(_) => true,
+            Err(err) => {
+                error!("error releasing committed part of {}: {:#?}", ef.id, err);
+                false
+            }
+        });
     }
 
     fn return_exclusive_files_to_handle(&mut self) {
diff --git a/src/reader.rs b/src/reader.rs
index 46b60a3..dae2d3b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -174,7 +174,9 @@ where
             return Ok(());
         }
         for extent in read_extents {
-            assert!(file.lock_segment(LockSharedNonblock, Some(extent.len), extent.offset)?);
+            // Block, because the extent can be exclusively locked momentarily: By a writer that is
+            // yet to trim its lock after committing, or by a punch of another part of the file.
+            assert!(file.lock_segment(LockShared, Some(extent.len), extent.offset)?);
         }
         Ok(())
     }
-- 
2.43.0


From c2389c178d86d6a75ad0ff78b1b545fb1ca5989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 06/24] fix: discard what a failed copy has written instead of
 leaving it in the value

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c43dee..f4715aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,9 +209,9 @@ impl ValueWriter {
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
+                // Seeking isn't enough, writes are appended.
                 self.exclusive_file
-                    .inner
-                    .seek(Start(value_file_offset))
+                    .revert_to_offset(value_file_offset)
                     .expect("should rewind failed copy");
                 return Err(err.into());
             }
-- 
2.43.0


From f1bc3d7c9e20faf9433112ff531e160ef2717c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:09 +0000
Subject: [PATCH 07/24] fix: begin prefix operations as write transactions so
 they can wait for others

---
 src/handle.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 19f6fd0..38de004 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -441,7 +441,9 @@ impl Handle {
     }
 
     pub fn move_prefix(&self, from: &[u8], to: &[u8]) -> Result<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        // A transaction that starts with reading can fail to become a write transaction without
+        // waiting for its turn.
+        let mut tx = self.start_immediate_transaction()?;
         let items = tx.list_items(from)?;
         let mut to_vec = to.to_vec();
         for item in items {
@@ -454,7 +456,7 @@ impl Handle {
     }
 
     pub fn delete_prefix(&self, prefix: impl AsRef<[u8]>) -> PubResult<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         for item in tx.list_items(prefix.as_ref())? {
             tx.delete_key(&item.key)?;
         }
-- 
2.43.0


From e3f5023f8f78c282d0212b081b38a0eee318eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 08/24] fix: survive a values file being removed by another
 handle's reclamation

---
 src/handle.rs | 4 +++-
 src/lib.rs    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 38de004..679fda2 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -430,7 +430,9 @@ impl Handle {
             }
             Err(Full(values)) => {
                 warn!("channel full while sending values. blocking.");
-                sender.send(values).unwrap()
+                if let Err(err) = sender.send(values) {
+                    error!("sending {:?}: channel disconnected", err.0);
+                }
             }
         }
     }
diff --git a/src/lib.rs b/src/lib.rs
index f4715aa..d72e7a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -882,8 +882,12 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                     // I think it's okay to remove and truncate files if cloning doesn't use locks,
                     // because there are no values in this file to clone.
                     if offset == 0 && allow_remove {
-                        remove_file(file_path).context("removing value file")?;
-                        return Ok(true);
+                        return match remove_file(file_path) {
+                            // Another punch got there between us opening and locking the file.
+                            Err(err) if err.kind() == ErrorKind::NotFound => Ok(true),
+                            Err(err) => Err(err).context("removing value file"),
+                            Ok(()) => Ok(true),
+                        };
                     } else if allow_truncate {
                         file.set_len(offset as u64)?;
                         return Ok(true);
-- 
2.43.0


From 8c0c9c197191d413bf3aec528a26140c97bc98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 09/24] fix: never clone onto an existing file, nor leave an
 empty one when cloning fails

---
 src/sys/clonefile/sys.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sys/clonefile/sys.rs b/src/sys/clonefile/sys.rs
index 6cb3a6a..3cab371 100644
--- a/src/sys/clonefile/sys.rs
+++ b/src/sys/clonefile/sys.rs
@@ -104,8 +104,8 @@ pub fn fclonefile_noflags(src_file: &File, dst_path: &Path) -> Result<(), Native
             )}?;
             Ok(())
         } else if #[cfg(target_os = "linux")] {
-            // Should this be exclusive create?
-            let dst_file = File::create(dst_path)?;
+            // Like clonefile on other systems, the destination must not exist.
+            let dst_file = File::create_new(dst_path)?;
             let src_fd = src_file.as_raw_fd();
             let dst_fd = dst_file.as_raw_fd();
             // Is this because the musl bindings are wrong?
@@ -113,7 +113,10 @@ pub fn fclonefile_noflags(src_file: &File, dst_path: &Path) -> Result<(), Native
             let request = libc::FICLONE.try_into().unwrap();
             let rv = unsafe { libc::ioctl(dst_fd, request, src_fd) };
             if rv == -1 {
-                return Err(last_errno());
+                let err = last_errno();
+                // Nothing was cloned into the file we just created.
+                let _ = std::fs::remove_file(dst_path);
+                return Err(err);
             }
             Ok(())
         } else if #[cfg(target_os = "freebsd")] {
-- 
2.43.0


From c5abf829f30250788acc04f1cccbe68fcce96bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 10/24] fix: tolerate files with names that are not Unicode in
 the directory

---
 src/handle.rs | 7 ++++++-
 src/walk.rs   | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 679fda2..8514f8a 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -75,7 +75,12 @@ impl Handle {
             if !entry.file_type()?.is_file() {
                 continue;
             }
-            if !ExclusiveFile::valid_file_name(entry.file_name().to_str().unwrap()) {
+            // Our own file names are always valid Unicode.
+            if !entry
+                .file_name()
+                .to_str()
+                .is_some_and(ExclusiveFile::valid_file_name)
+            {
                 continue;
             }
             let path = entry.path();
diff --git a/src/walk.rs b/src/walk.rs
index 2808e21..78a3f1e 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -42,9 +42,9 @@ impl TryFrom<&StdDirEntry> for DirEntry {
     fn try_from(value: &StdDirEntry) -> Result<Self, Self::Error> {
         let file_name = value
             .file_name()
-            .to_str()
-            .context("file name not str")?
-            .to_owned();
+            // Files that aren't ours can have any name.
+            .to_string_lossy()
+            .into_owned();
         Ok(Self {
             file_name,
             file_type: value.file_type()?,
-- 
2.43.0


From be6d6b7235387ee6246215441d0d7dd1d9aa5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 11/24] fix: don't punch missing holes that a reader is using

---
 src/main.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 14a52fd..5d429b1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,7 @@ use std::path::{Path, PathBuf};
 
 use anyhow::{anyhow, bail, Context};
 use itertools::Itertools;
-use log::info;
+use log::{info, warn};
 use possum::sys::seekhole::{file_regions, Region, RegionType};
 use possum::sys::{punchfile, FileLocking, SparseFile};
 use possum::*;
@@ -157,10 +157,6 @@ fn main() -> anyhow::Result<()> {
                                 .read(true)
                                 .open(&values_file_entry.path)?;
                             file.set_sparse(true)?;
-                            // Make sure nobody could be writing to the file. It should be possible
-                            // to punch holes before the last value despite this (just as greedy
-                            // start hole punching occurs during regular key deletes).
-                            file.lock_max_segment(possum::sys::LockExclusiveNonblock)?;
                             for FileRegion {
                                 mut start,
                                 mut length,
@@ -177,6 +173,21 @@ fn main() -> anyhow::Result<()> {
                                 if length == 0 {
                                     continue;
                                 }
+                                // Make sure nobody is reading here. Writes only occur after the
+                                // last value.
+                                if !file.lock_segment(
+                                    possum::sys::LockExclusiveNonblock,
+                                    Some(length),
+                                    start,
+                                )? {
+                                    warn!(
+                                        "{}: {}-{} is in use, not punching",
+                                        &values_file_entry.path.display(),
+                                        start,
+                                        start + length,
+                                    );
+                                    continue;
+                                }
                                 println!(
                                     "{}: {}-{} (length {}, block_size mod {})",
                                     &values_file_entry.path.display(),
-- 
2.43.0


From 3facd9cd400479536c4b4bb8b1a275341effd449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 12/24] fix: report I/O errors of file cloning instead of
 panicking about them

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 7fa376d..7f74be0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,8 +47,8 @@ impl Error {
         match self {
             NoSuchKey | UnsupportedFilesystem => self,
             Sqlite(inner) => inner,
+            Io(inner) => inner,
             Anyhow(inner) => inner.root_cause(),
-            _ => unimplemented!(),
         }
     }
 
-- 
2.43.0


From 782989329ccbbd7d8e88cce114317847246eda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 13/24] fix: don't panic when what a failed copy has written
 can't be discarded

---
 src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d72e7a3..385a8a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,6 +170,7 @@ where
         Ok(ValueWriter {
             exclusive_file,
             value_file_offset: 0,
+            broken: false,
         })
     }
 
@@ -188,6 +189,7 @@ where
         Ok(ValueWriter {
             value_file_offset: exclusive_file.next_write_offset()?,
             exclusive_file,
+            broken: false,
         })
     }
 }
@@ -197,6 +199,8 @@ where
 pub struct ValueWriter {
     exclusive_file: ExclusiveFile,
     value_file_offset: u64,
+    // The file ends with something that isn't part of the value and couldn't be removed.
+    broken: bool,
 }
 
 impl ValueWriter {
@@ -210,9 +214,10 @@ impl ValueWriter {
             Ok(ok) => ok,
             Err(err) => {
                 // Seeking isn't enough, writes are appended.
-                self.exclusive_file
-                    .revert_to_offset(value_file_offset)
-                    .expect("should rewind failed copy");
+                if let Err(err) = self.exclusive_file.revert_to_offset(value_file_offset) {
+                    error!("error reverting failed copy: {:#?}", err);
+                    self.broken = true;
+                }
                 return Err(err.into());
             }
         };
@@ -220,6 +225,12 @@ impl ValueWriter {
     }
 
     pub fn value_length(&mut self) -> io::Result<u64> {
+        if self.broken {
+            return Err(io::Error::new(
+                ErrorKind::Other,
+                "a failed copy could not be reverted",
+            ));
+        }
         Ok(self.exclusive_file.next_write_offset()? - self.value_file_offset)
     }
 }
-- 
2.43.0


From 2effce27ca59be289b38afce2c4f2b4cb1173c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:36 +0000
Subject: [PATCH 14/24] fix: don't panic when an imported file can't be staged

---
 src/exclusive_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index 0fd9f21..5c0e48a 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -45,8 +45,10 @@ impl ExclusiveFile {
     }
 
     pub(crate) fn revert_to_offset(&mut self, offset: u64) -> io::Result<()> {
-        // Shouldn't revert prior to the last commit.
-        assert!(offset >= self.last_committed_offset);
+        // Shouldn't revert prior to the last commit, or what an imported file began with.
+        if offset < self.last_committed_offset {
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
         self.inner.seek(Start(offset))?;
         self.inner.set_len(offset)
     }
-- 
2.43.0


From 6520981da90b398b2ec2b1055c6e4a8f56ed8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:09 +0000
Subject: [PATCH 15/24] fix: take a snapshot again when a cleanup gets in
 before it is locked

---
 src/reader.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index dae2d3b..5454151 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -120,6 +120,24 @@ where
         cache: &mut FileCloneCache,
         src_dir: &Path,
     ) -> PubResult<Arc<Mutex<FileClone>>> {
+        loop {
+            if let Some(file_clone) = self.try_clone_file(file_id, tempdir, cache, src_dir)? {
+                return Ok(file_clone);
+            }
+            // Until the snapshot file is locked, it and its dir look unused to a cleanup. Start over
+            // with a new dir.
+            *tempdir = None;
+        }
+    }
+
+    /// Returns None if the snapshot file or its dir were cleaned up before they could be locked.
+    fn try_clone_file(
+        &self,
+        file_id: &FileId,
+        tempdir: &mut Option<Arc<TempDir>>,
+        cache: &mut FileCloneCache,
+        src_dir: &Path,
+    ) -> PubResult<Option<Arc<Mutex<FileClone>>>> {
         let tempdir: &Arc<TempDir> = match tempdir {
             Some(tempdir) => tempdir,
             None => {
@@ -142,14 +160,18 @@ where
         }
         let tempdir_path = tempdir.path();
         let dst_path = file_path(tempdir_path, file_id);
-        clonefile(&src_path, &dst_path).context("cloning file")?;
-        let mut file = open_file_id(OpenOptions::new().read(true), tempdir_path, file_id)
-            .context("opening value file")?;
-        // This prevents the snapshot file from being cleaned up. There's probably a race between
-        // here and when it was cloned above. I wonder if the snapshot dir can be locked, or if we
-        // can retry the cloning until we are able to lock it.
-        let locked = file.lock_max_segment(LockSharedNonblock)?;
-        assert!(locked);
+        match clonefile(&src_path, &dst_path) {
+            Err(err) if err.kind() == ErrorKind::NotFound && src_path.exists() => return Ok(None),
+            res => res.context("cloning file")?,
+        }
+        let mut file = match open_file_id(OpenOptions::new().read(true), tempdir_path, file_id) {
+            Err(err) if err.kind() == ErrorKind::NotFound => return Ok(None),
+            res => res.context("opening value file")?,
+        };
+        // This prevents the snapshot file from being cleaned up.
+        if !file.lock_max_segment(LockSharedNonblock)? {
+            return Ok(None);
+        }
         let len = file.seek(End(0))?;
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
@@ -159,7 +181,7 @@ where
         }));
 
         cache.insert(file_id.to_owned(), file_clone.clone());
-        Ok(file_clone)
+        Ok(Some(file_clone))
     }
 
     fn lock_read_extents<'b>(
-- 
2.43.0


From 6a7fc624cdc3ed1cd38cfd61fb78f414f91ad657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 16/24] fix: accept empty buffers without a pointer in the C
 API

---
 src/c_api/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c_api/mod.rs b/src/c_api/mod.rs
index 8c9a250..1692f82 100644
--- a/src/c_api/mod.rs
+++ b/src/c_api/mod.rs
@@ -17,6 +17,10 @@ use super::*;
 
 impl AsRef<[u8]> for PossumBuf {
     fn as_ref(&self) -> &[u8] {
+        // An empty buffer may have no pointer (Go's nil slices and empty strings).
+        if self.size == 0 {
+            return &[];
+        }
         let ptr = self.ptr as _;
         unsafe { slice::from_raw_parts(ptr, self.size) }
     }
@@ -24,6 +28,9 @@ impl AsRef<[u8]> for PossumBuf {
 
 impl PossumBuf {
     fn as_mut_slice(&mut self) -> &mut [u8] {
+        if self.size == 0 {
+            return &mut [];
+        }
         let ptr = self.ptr as *mut u8;
         unsafe { slice::from_raw_parts_mut(ptr, self.size) }
     }
-- 
2.43.0


From 3f8a185667dc4a6859d0355e810702141a9ca7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:55 +0000
Subject: [PATCH 17/24] fix: a C reader takes the write lock at once, as
 Handle::read does

---
 src/c_api/ext_fns/handle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index c3b7387..ec5f22f 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -179,7 +179,7 @@ pub extern "C" fn possum_reader_new(
         // This is copied from Handle::start_writable_transaction_with_behaviour and Handle::read
         // until I make proper abstractions.
         |conn, handle| {
-            let rtx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+            let rtx = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
             Ok(Transaction::new(rtx, handle))
         },
     );
-- 
2.43.0


From 8a0f236ed33a2d3039bd7fc0c3ad7844f61bfdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:51 +0000
Subject: [PATCH 18/24] fix: don't hold a lock while a view's caller looks at
 the value

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 385a8a8..3eea956 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,17 +85,17 @@ struct FileClone {
     /// This exists to destroy clone tempdirs after they become empty.
     #[allow(unused)]
     tempdir: Option<Arc<TempDir>>,
-    mmap: Option<Mmap>,
+    mmap: Option<Arc<Mmap>>,
     len: u64,
 }
 
 type FileCloneCache = HashMap<FileId, Arc<Mutex<FileClone>>>;
 
 impl FileClone {
-    fn get_mmap(&mut self) -> io::Result<&Mmap> {
+    fn get_mmap(&mut self) -> io::Result<Arc<Mmap>> {
         let mmap_opt = &mut self.mmap;
         if let Some(mmap) = mmap_opt {
-            return Ok(mmap);
+            return Ok(Arc::clone(mmap));
         }
         let mmap = unsafe {
             memmap2::MmapOptions::new()
@@ -103,7 +103,7 @@ impl FileClone {
                 .map_copy_read_only(&self.file)
         }?;
         assert_eq!(mmap.len() as u64, self.len);
-        Ok(mmap_opt.insert(mmap))
+        Ok(Arc::clone(mmap_opt.insert(Arc::new(mmap))))
     }
 }
 
@@ -677,8 +677,8 @@ where
                 let usize_length = to_usize_io(length)?;
                 let end =
                     usize::checked_add(start, usize_length).ok_or_else(make_to_usize_io_error)?;
-                let mut mutex_guard = file_clone.lock().unwrap();
-                let mmap = mutex_guard.get_mmap()?;
+                // Don't hold the lock while calling out, other values can share the file.
+                let mmap = file_clone.lock().unwrap().get_mmap()?;
                 Ok(f(&mmap[start..end]))
             }
             ZeroLength => Ok(f(&[])),
-- 
2.43.0


From d43c633ffaaecb4f91393db71549b26a5d7c3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:39 +0000
Subject: [PATCH 19/24] fix: don't reuse a clone for values that were written
 after it was made

A clone can end with an uncommitted write. If that write is then reverted, by a
failed copy, and something else is written and committed in its place, the clone
was reused to read what's in its place, if that isn't longer, by handles other
than the one that committed it.
---
 src/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5454151..759bbf0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -172,7 +172,12 @@ where
         if !file.lock_max_segment(LockSharedNonblock)? {
             return Ok(None);
         }
-        let len = file.seek(End(0))?;
+        // The clone can end with an uncommitted write that is later replaced by another.
+        let end = file.seek(End(0))?;
+        let len = self
+            .owned_tx
+            .transaction()
+            .query_last_end_offset(file_id, end)?;
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
             tempdir: Some(tempdir.clone()),
-- 
2.43.0


From 8b37bc06b4033dad3d92bf72099167ce4e7525a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:23 +0000
Subject: [PATCH 20/24] fix: don't fail to walk a directory while a snapshot in
 it goes away

---
 src/walk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index 78a3f1e..23d48f9 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -86,7 +86,12 @@ where
     P: AsRef<Path>,
 {
     let mut ok = vec![];
-    for std_entry in read_dir(path)? {
+    let dir = match read_dir(path) {
+        // Snapshots remove their directories when they're done with them.
+        Err(err) if err.kind() == ErrorKind::NotFound => return Ok(ok),
+        dir => dir?,
+    };
+    for std_entry in dir {
         let std_entry = std_entry?;
         let entry = DirEntry::try_from(&std_entry)?;
         let file_name = entry.file_name;
-- 
2.43.0


From 0d5599f099abccc304281b9358d5d28bbded5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:05 +0000
Subject: [PATCH 21/24] fix: don't report that the whole buffer was read when
 reading fails, in Go

The size in the buffer given to the C functions is only updated if they succeed.
---
 go/cpossum/c-possum.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/go/cpossum/c-possum.go b/go/cpossum/c-possum.go
index f86c142..e530702 100644
--- a/go/cpossum/c-possum.go
+++ b/go/cpossum/c-possum.go
@@ -154,7 +154,10 @@ func SingleReadAt(handle *Handle, key string, buf []byte, offset uint64) (n int,
 		&pBuf,
 		C.uint64_t(offset),
 	))
-	n = int(pBuf.size)
+	// The size is only what was read if that succeeded.
+	if err == nil {
+		n = int(pBuf.size)
+	}
 	return
 }
 
@@ -211,7 +214,9 @@ func ValueReadAt(v Value, buf []byte, offset int64) (n int, err error) {
 	defer pin.Unpin()
 	pin.Pin(pBuf.ptr)
 	err = mapError(C.possum_value_read_at(v, &pBuf, C.uint64_t(offset)))
-	n = int(pBuf.size)
+	if err == nil {
+		n = int(pBuf.size)
+	}
 	return
 }
 
-- 
2.43.0


From 14ca944b9879f61c1abc0c6b1e4c5869ccd2984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:05 +0000
Subject: [PATCH 22/24] fix: ReadAt returns an error when it reads less than
 asked for, in Go

io.ReaderAt demands it, and io.ReadFull-like callers rely on it.
---
 go/go-possum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/go-possum.go b/go/go-possum.go
index 05ea557..7e3ac24 100644
--- a/go/go-possum.go
+++ b/go/go-possum.go
@@ -82,7 +82,7 @@ type Item = possumC.Item
 
 // See the very strict definition of io.ReaderAt.ReadAt.
 func mapRustEofReadAt(bufLen int, n int, err error) error {
-	if n == 0 && bufLen != 0 && err == nil {
+	if n < bufLen && err == nil {
 		return io.EOF
 	}
 	return err
-- 
2.43.0


From 0e9b8db2a641a01bfa7e313ec1dfd40723c483bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:05 +0000
Subject: [PATCH 23/24] fix: name the stat of a reader's value, in Go

---
 go/go-possum.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/go-possum.go b/go/go-possum.go
index 7e3ac24..2b71aa3 100644
--- a/go/go-possum.go
+++ b/go/go-possum.go
@@ -12,6 +12,7 @@ type Reader struct {
 }
 
 func (r Reader) Add(key string) (v Value, err error) {
+	v.key = key
 	v.c, err = possumC.ReaderAdd(r.pc, key)
 	return
 }
-- 
2.43.0


From 0cfafabc5b472c2e094b6427077b2152a6d9cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:36 +0000
Subject: [PATCH 24/24] fix: don't punch or truncate where other values have
 been written since

---
 src/lib.rs | 15 ++++++++++++++-
 src/tx.rs  | 18 ++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3eea956..f40c1ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -861,7 +861,13 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
     };
     // Find out how far back we can punch and start there, correcting for block boundaries as we go.
     if offset % block_size != 0 || greedy_start {
-        let last_end_offset = tx.query_last_end_offset(file_id, offset as u64)?;
+        // Other values can have been written where the value was, if it's been gone long enough for
+        // the file to have been truncated or replaced.
+        let last_end_offset =
+            tx.query_last_end_offset_starting_before(file_id, (offset + length) as u64)?;
+        if last_end_offset as i64 >= offset + length {
+            return Ok(true);
+        }
         // Round up the end of the last value.
         let new_offset = ceil_multiple(last_end_offset, block_size as u64) as i64;
         // Because these are u64 we can't deal with overflow into negatives.
@@ -883,6 +889,13 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                 // and getting the lock.
                 let next_offset = if locked_file {
                     tx.renew()?;
+                    let last_end_offset = tx.query_last_end_offset_starting_before(
+                        file_id,
+                        (offset + length) as u64,
+                    )?;
+                    if last_end_offset as i64 > offset {
+                        return Ok(false);
+                    }
                     tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?
                 } else {
                     None
diff --git a/src/tx.rs b/src/tx.rs
index afc368b..9a41fe8 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -88,6 +88,24 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
             })
     }
 
+    /// Returns the end offset of the last active value that starts before offset in the same file.
+    fn query_last_end_offset_starting_before(
+        &self,
+        file_id: &FileId,
+        offset: u64,
+    ) -> rusqlite::Result<u64> {
+        self.readonly_transaction()
+            .prepare_cached_readonly(
+                "select max(file_offset+value_length) as last_offset \
+                from keys \
+                where file_id=? and file_offset < ?",
+            )?
+            .query_row(params![file_id, offset], |row| {
+                let res: rusqlite::Result<Option<_>> = row.get(0);
+                res.map(|v| v.unwrap_or_default())
+            })
+    }
+
     /// Returns the next value offset with at least min_offset.
     fn next_value_offset(
         &self,
-- 
2.43.0


From 2cfe4fbf819113c2ea09fa743549f57e6ca79e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 01/37] fix: restore to paths which are gone, and don't follow
 dangling symlinks in the output

With several paths, restore --output left a dangling symlink at output/name
out of the comparison and then wrote through it. Without --output,
a snapshot whose path had been lost altogether could not be restored at all.
---
 src/ui/restore.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..d57688c 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::BTreeSet,
     fs::{self, File},
-    io::prelude::*,
+    io::{self, prelude::*},
     sync::Arc,
 };
 
@@ -236,7 +236,7 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                .filter(|p| is_present(p))
                 .collect();
 
             fs_tree::forest_from_fs(
@@ -257,9 +257,16 @@ fn load_fs_tree_and_mapping<'a>(
             "Restoring snapshot {} to its paths, {:?}",
             id, snapshot.paths
         );
+        // Anything that's gone altogether gets restored from scratch.
+        let paths = snapshot
+            .paths
+            .iter()
+            .filter(|p| is_present(p))
+            .cloned()
+            .collect();
         let (fs_id, fs_forest) = fs_tree::forest_from_fs(
             tree::Symlink::Read, // See above
-            &snapshot.paths,
+            &paths,
             Some(&snapshot.tree),
             snapshot_forest,
         )?;
@@ -279,6 +286,12 @@ fn load_fs_tree_and_mapping<'a>(
     }
 }
 
+/// Is there anything at the given path, be it a dangling symlink?
+/// (`Path::exists()` follows symlinks, and here we never want to.)
+fn is_present(path: &Utf8Path) -> bool {
+    !matches!(fs::symlink_metadata(path), Err(e) if e.kind() == io::ErrorKind::NotFound)
+}
+
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
     Timespec {
-- 
2.43.0


From 85f06f72f2004700afc9682f55f3a4f65de74333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 02/37] fix: restore fractional timestamps from before 1970

---
 src/ui/restore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index d57688c..084d672 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -294,9 +294,12 @@ fn is_present(path: &Utf8Path) -> bool {
 
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
+    // Timespecs before the epoch have negative seconds, but never negative nanoseconds.
+    // (jiff gives the latter the same sign as the former.)
+    let nanos = t.as_nanosecond();
     Timespec {
-        tv_sec: t.as_second(),
-        tv_nsec: t.subsec_nanosecond() as i64,
+        tv_sec: nanos.div_euclid(1_000_000_000) as i64,
+        tv_nsec: nanos.rem_euclid(1_000_000_000) as i64,
     }
 }
 
-- 
2.43.0


From 89e09da2d5bee157bd01ff9d00ec5abe36f9f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 03/37] fix: make backup --allow-repeat work

---
 src/ui/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..aade7fe 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -248,7 +248,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         s
     });
     match prev_but_now {
-        Some(p) if p == snapshot => {
+        Some(p) if p == snapshot && !args.allow_repeat => {
             // We really did nothing, huh?
             assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-- 
2.43.0


From fde780ca5c2ea19c0f5b3417fdc5d2a7afc8dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 04/37] fix: don't touch the WIP index in dry runs, nor leave
 one behind in rebuild-index

Dry runs replaced and then deleted the WIP index of an interrupted backup.
rebuild-index left one, which a later backup would take up and then
die of a failed assertion (or refuse to run at all after a prune elsewhere).
---
 src/backup.rs |  8 ++++++++
 src/index.rs  | 24 ++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..2e55d0f 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -77,6 +77,7 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    resumable: bool,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -97,6 +98,11 @@ impl Backup<'_, '_> {
         drop(self.upload_tx);
         self.threads.join().unwrap();
 
+        // A dry run didn't make a WIP index. If there is one, it isn't ours to remove.
+        if !self.resumable {
+            return Ok(());
+        }
+
         // If everything exited cleanly, we uploaded the new index.
         // We can axe the WIP one, which we kept around until now to make sure we're resumable.
         match fs::remove_file(index::WIP_NAME) {
@@ -131,6 +137,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
     let (tree_tx, tree_rx) = sync_channel(0);
     let (upload_tx, upload_rx) = sync_channel(0);
     let upload_tx2 = upload_tx.clone();
+    let resumable = matches!(mode, Mode::LiveFire);
 
     let threads = thread::Builder::new()
         .name(String::from("backup master"))
@@ -154,6 +161,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        resumable,
         threads,
     }
 }
diff --git a/src/index.rs b/src/index.rs
index 2face26..5bdb1f9 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -89,7 +89,7 @@ pub fn index(
     // (For example, it could be an index from `prune` that omits packs
     // we no longer need. If we don't write it but delete those packs anyways...)
     if !index.is_empty() && resumable == Resumable::Yes {
-        persisted = Some(to_temp_file(&index)?);
+        persisted = Some(to_wip_file(&index)?);
     }
 
     // For each pack...
@@ -106,12 +106,15 @@ pub fn index(
             // Rewrite the index every time we get a pack.
             // That way the temp index should always contain a complete list of packs,
             // allowing us to resume a backup from the last finished pack.
-            persisted = Some(to_temp_file(&index)?);
+            persisted = Some(to_wip_file(&index)?);
         }
     }
     // If we haven't been saving a WIP index, write it all out now.
+    // (Not to WIP_NAME! There's nothing to resume,
+    // and we don't want to clobber what some interrupted backup might have left there.)
     if !index.is_empty() && resumable == Resumable::No {
-        persisted = Some(to_temp_file(&index)?);
+        let (id, tf) = to_temp_file(&index)?;
+        persisted = Some((id, tf.into_file()));
     }
 
     if let Some((index_id, mut fh)) = persisted {
@@ -151,12 +154,20 @@ pub fn index(
     }
 }
 
-fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
+fn to_wip_file(index: &Index) -> Result<(ObjectId, File)> {
     // Could we speed things up by reusing the same file handle instead of
     // opening, writing, and closing each time we update the WIP index file?
     // Probably, but we'd have to seek back to the beginning each time,
     // _and_ we'd be assuming that the file grows larger each time.
     // (This _might_ not be true since its contents are compressed...)
+    let (id, tf) = to_temp_file(index)?;
+    let f = tf
+        .persist(WIP_NAME)
+        .with_context(|| format!("Couldn't persist WIP index to {}", WIP_NAME))?;
+    Ok((id, f))
+}
+
+fn to_temp_file(index: &Index) -> Result<(ObjectId, tempfile::NamedTempFile)> {
     let mut tf = tempfile::Builder::new()
         .prefix("temp-backpak-")
         .suffix(".index")
@@ -164,10 +175,7 @@ fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
         .context("Couldn't open temporary index for writing")?;
 
     let id = to_file(tf.as_file_mut(), index)?;
-    let f = tf
-        .persist(WIP_NAME)
-        .with_context(|| format!("Couldn't persist WIP index to {}", WIP_NAME))?;
-    Ok((id, f))
+    Ok((id, tf))
 }
 
 fn to_file(fh: &mut fs::File, index: &Index) -> Result<ObjectId> {
-- 
2.43.0


From 621f0e9db19a5314bc4fdf195e49d7adc4a51a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 05/37] fix: never write an index with the ID of one that has
 been superseded

Backing up the same files again after they were forgotten and pruned away
makes the same packs and so the same index as before,
which prune's index still lists as superseded.
It was ignored, and the new snapshot could not be read.
---
 src/backup.rs             |  5 +++++
 src/index.rs              | 44 ++++++++++++++++++++++++++-------------
 src/ui/backup.rs          |  1 +
 src/ui/copy.rs            |  1 +
 src/ui/filter_snapshot.rs |  1 +
 src/ui/prune.rs           |  1 +
 src/ui/rebuild_index.rs   |  3 +++
 7 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 2e55d0f..091779d 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -46,6 +46,7 @@
 //! packs (passing it to the indexer as a starting point), then feeds blobs from
 //! the partially-used packs to the packers for compaction. And so on, and so forth.
 
+use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
@@ -123,6 +124,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
     backend_config: &'env backend::Configuration,
     cached_backend: &'env backend::CachedBackend,
     starting_index: index::Index,
+    superseded: &'env BTreeSet<ObjectId>,
     statistics: &'env BackupStatistics,
 ) -> Backup<'scope, 'env> {
     // Channels are all handoffs holding no elements - this simplifies reasoning about:
@@ -152,6 +154,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 cached_backend,
                 statistics,
                 starting_index,
+                superseded,
             )
         })
         .unwrap();
@@ -177,6 +180,7 @@ fn backup_master_thread<'env>(
     cached_backend: &'env backend::CachedBackend,
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
+    superseded: &'env BTreeSet<ObjectId>,
 ) {
     // ALL THE CONCURRENCY
 
@@ -236,6 +240,7 @@ fn backup_master_thread<'env>(
                 index::index(
                     resumable,
                     starting_index,
+                    superseded,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index 5bdb1f9..1f9dee9 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -75,9 +75,12 @@ pub enum Resumable {
 
 /// Gather metadata for completed packs from `rx` into an index file,
 /// and upload the index files when they reach a sufficient size.
+///
+/// `superseded` are the indexes which are superseded by some index in the repository.
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
+    superseded: &BTreeSet<ObjectId>,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -89,7 +92,7 @@ pub fn index(
     // (For example, it could be an index from `prune` that omits packs
     // we no longer need. If we don't write it but delete those packs anyways...)
     if !index.is_empty() && resumable == Resumable::Yes {
-        persisted = Some(to_wip_file(&index)?);
+        persisted = Some(to_wip_file(&mut index, superseded)?);
     }
 
     // For each pack...
@@ -106,14 +109,14 @@ pub fn index(
             // Rewrite the index every time we get a pack.
             // That way the temp index should always contain a complete list of packs,
             // allowing us to resume a backup from the last finished pack.
-            persisted = Some(to_wip_file(&index)?);
+            persisted = Some(to_wip_file(&mut index, superseded)?);
         }
     }
     // If we haven't been saving a WIP index, write it all out now.
     // (Not to WIP_NAME! There's nothing to resume,
     // and we don't want to clobber what some interrupted backup might have left there.)
     if !index.is_empty() && resumable == Resumable::No {
-        let (id, tf) = to_temp_file(&index)?;
+        let (id, tf) = to_temp_file(&mut index, superseded)?;
         persisted = Some((id, tf.into_file()));
     }
 
@@ -154,28 +157,41 @@ pub fn index(
     }
 }
 
-fn to_wip_file(index: &Index) -> Result<(ObjectId, File)> {
+fn to_wip_file(index: &mut Index, superseded: &BTreeSet<ObjectId>) -> Result<(ObjectId, File)> {
     // Could we speed things up by reusing the same file handle instead of
     // opening, writing, and closing each time we update the WIP index file?
     // Probably, but we'd have to seek back to the beginning each time,
     // _and_ we'd be assuming that the file grows larger each time.
     // (This _might_ not be true since its contents are compressed...)
-    let (id, tf) = to_temp_file(index)?;
+    let (id, tf) = to_temp_file(index, superseded)?;
     let f = tf
         .persist(WIP_NAME)
         .with_context(|| format!("Couldn't persist WIP index to {}", WIP_NAME))?;
     Ok((id, f))
 }
 
-fn to_temp_file(index: &Index) -> Result<(ObjectId, tempfile::NamedTempFile)> {
-    let mut tf = tempfile::Builder::new()
-        .prefix("temp-backpak-")
-        .suffix(".index")
-        .tempfile_in(".")
-        .context("Couldn't open temporary index for writing")?;
-
-    let id = to_file(tf.as_file_mut(), index)?;
-    Ok((id, tf))
+fn to_temp_file(
+    index: &mut Index,
+    superseded: &BTreeSet<ObjectId>,
+) -> Result<(ObjectId, tempfile::NamedTempFile)> {
+    loop {
+        let mut tf = tempfile::Builder::new()
+            .prefix("temp-backpak-")
+            .suffix(".index")
+            .tempfile_in(".")
+            .context("Couldn't open temporary index for writing")?;
+
+        let id = to_file(tf.as_file_mut(), index)?;
+        // An index's ID depends on its contents alone, so if we've been through all this before
+        // (say, we back up what we forgot and pruned a while ago) we might end up with
+        // the same index as then - and that one has been superseded!
+        // Everything in it would be ignored. Superseding it once more gives us another ID.
+        if !superseded.contains(&id) {
+            return Ok((id, tf));
+        }
+        debug!("Index {id} has been superseded before; superseding it again");
+        index.supersedes.insert(id);
+    }
 }
 
 fn to_file(fh: &mut fs::File, index: &Index) -> Result<ObjectId> {
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index aade7fe..f6cc27e 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -162,6 +162,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             wip_index,
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..8ea5b2a 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -111,6 +111,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &dst_backend_config,
             &dst_cached_backend,
             wip_index,
+            &dst_index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index a4793ef..e11b00f 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -88,6 +88,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             Index::default(),
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..c13730e 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -174,6 +174,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &backend_config,
             &cached_backend,
             new_index,
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index c0b1052..82421ae 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -51,6 +51,9 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         index::index(
             index::Resumable::No,
             replacing,
+            // We supersede every index there is, so we can't be the same as one
+            // that's superseded by any of them.
+            &BTreeSet::new(),
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From 2bdec6666c2afa90f2d501691e4d2ee5c5baa96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 06/37] fix: don't let backup or copy resume from prune's WIP
 index

An interrupted prune leaves a WIP index which supersedes all others,
but doesn't yet list everything they do. Resuming from it made
other snapshots unreadable.
---
 src/backup.rs    | 19 +++++++++++++++++++
 src/ui/backup.rs |  2 +-
 src/ui/copy.rs   |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 091779d..61f6f65 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -316,6 +316,25 @@ pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<Resumab
     }))
 }
 
+/// [`find_resumable()`] for commands that only add to the repository (`backup`, `copy`)
+///
+/// These can take up whatever packs some interrupted command of their kind has finished.
+/// But they can't use a WIP index that supersedes others, i.e., one left by `prune`.
+/// It drops packs whose contents weren't all rewritten when `prune` was interrupted.
+pub fn find_additive_resumable(
+    backend: &backend::CachedBackend,
+    current_index: &index::Index,
+) -> Result<ResumableBackup> {
+    match find_resumable(backend)? {
+        Some(r) if r.wip_index.supersedes.is_subset(&current_index.supersedes) => Ok(r),
+        Some(_) => {
+            warn!("WIP index file supersedes other indexes (from prune?). Starting over.");
+            Ok(ResumableBackup::default())
+        }
+        None => Ok(ResumableBackup::default()),
+    }
+}
+
 fn find_cwd_packfiles(index: &index::Index) -> Result<Vec<ObjectId>> {
     let mut packfiles = vec![];
 
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index f6cc27e..d96f3d4 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_additive_resumable(&cached_backend, &index)?;
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index 8ea5b2a..2c355bb 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -89,7 +89,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_additive_resumable(&dst_cached_backend, &dst_index)?;
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
-- 
2.43.0


From 86829237ee08cad020f2a3435ef205a16b32a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 07/37] fix: don't panic when a backup resumes but turns out
 the same as the last snapshot

---
 src/ui/backup.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index d96f3d4..55859b8 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -142,6 +142,8 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         cwd_packfiles,
     } = find_additive_resumable(&cached_backend, &index)?;
 
+    let resumed = !wip_index.packs.is_empty();
+
     for manifest in wip_index.packs.values() {
         for entry in manifest {
             packed_blobs.insert(entry.id);
@@ -212,12 +214,13 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     })?;
     if root == *tree::EMPTY_ID && !args.allow_empty {
         // We really did nothing, huh?
+        // (Besides finishing what an interrupted backup started, perhaps.)
         assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
         assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+        assert!(resumed || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
 
         info!("Nothing backed up! Pass --allow-empty to create an empty snapshot.");
         return Ok(());
@@ -250,12 +253,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     });
     match prev_but_now {
         Some(p) if p == snapshot && !args.allow_repeat => {
-            // We really did nothing, huh?
+            // We really did nothing, huh? (Besides finishing what was interrupted; see above.)
             assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+            assert!(resumed || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
 
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
-- 
2.43.0


From 39af01d9709936df37d9805a73ea13d37210dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 08/37] fix: don't resume a prune which keeps packs that are to
 be removed

If a prune was interrupted, snapshots forgotten, and prune run again,
its WIP index could keep a pack which was then deleted.
---
 src/ui/prune.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index c13730e..16f32da 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -147,6 +147,15 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Does it keep any packs that we're about to remove? (If snapshots were forgotten since,
+        // packs which used to be reusable might not be any more.)
+        else if wip_index
+            .packs
+            .keys()
+            .any(|p| packs_to_prune.contains_key(p))
+        {
+            warn!("WIP index file keeps packs which should be pruned now. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
-- 
2.43.0


From a1bc5eab92bc7342697e064d87e6e64faa30dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 09/37] fix: tolerate blobs stored in more than one pack

Concurrent backups, or rebuild-index after an interrupted backup or prune,
legitimately lead to duplicates. Failing on them made the whole repository
unusable: no backup, prune, check, restore, ... would run again.
---
 src/index.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 1f9dee9..50406a1 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -27,7 +27,7 @@ use std::sync::{
     mpsc::{Receiver, SyncSender},
 };
 
-use anyhow::{Context, Result, anyhow, bail, ensure};
+use anyhow::{Context, Result, anyhow, ensure};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde_derive::{Deserialize, Serialize};
 use tracing::*;
@@ -296,14 +296,12 @@ pub fn blob_to_pack_map(index: &Index) -> Result<BlobMap> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if let Some(other_pack) = mapping.insert(blob.id, *pack_id) {
-                // TODO: Should this just be a warning?
-                // This might happen in weird cases like concurrent backups
-                // but isn't a huge issue so long as the blobs are valid...
-                bail!(
+                // This happens after concurrent backups, or when a pack is indexed after all
+                // (by rebuild-index) that was uploaded just before its backup got interrupted.
+                // It wastes some space, but any copy is as good as the other.
+                debug!(
                     "Duplicate blob {} in pack {}, previously seen in pack {}",
-                    blob.id,
-                    pack_id,
-                    other_pack
+                    blob.id, pack_id, other_pack
                 );
             }
         }
@@ -320,8 +318,7 @@ pub fn blob_id_set(index: &Index) -> Result<FxHashSet<ObjectId>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if !blobs.insert(blob.id) {
-                // TODO: Ditto - just warn?
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
@@ -337,7 +334,7 @@ pub fn blob_to_size_map(index: &Index) -> Result<FxHashMap<ObjectId, u32>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if size_map.insert(blob.id, blob.length).is_some() {
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
-- 
2.43.0


From 4253a57dd6f09538ecff6f3855cfc7f01ea96979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 10/37] fix: read blobs back whether they were packed as chunks
 or as trees

Blobs are deduplicated by ID alone. A file whose bytes are those of a tree
(say, the single byte 0xa0, an empty one) could be recorded as being in a pack
of trees, from which it was then never read. Similarly for trees.
---
 src/pack.rs | 24 ++++++++++++------------
 src/read.rs | 11 ++---------
 src/tree.rs |  7 ++++++-
 3 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index c8244c5..bc8b6d4 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -432,9 +432,14 @@ pub fn extract_blob<R: Read>(
 }
 
 /// Reads in a packfile (presumably of all trees) and appends them to the given forest
+///
+/// `wanted` is the tree we're after. It's also read if it was packed as a chunk -
+/// blobs are deduplicated by ID alone, so that's where it is
+/// if a file with the very same bytes was backed up before.
 pub fn append_to_forest<R: Read + Seek>(
     packfile: &mut R,
     manifest_from_index: &[PackManifestEntry],
+    wanted: &ObjectId,
     forest: &mut tree::Forest,
 ) -> Result<()> {
     check_magic(packfile)?;
@@ -443,20 +448,15 @@ pub fn append_to_forest<R: Read + Seek>(
 
     for entry in manifest_from_index {
         // If it's not a tree, or if we have it already, skip it!
-        let skip = if entry.blob_type != blob::Type::Tree {
-            warn!(
-                "Chunk {} found in pack where we expected only trees",
-                entry.id
-            );
-            true
-        } else {
-            forest.contains_key(&entry.id)
-        };
+        let skip = (entry.blob_type != blob::Type::Tree && entry.id != *wanted)
+            || forest.contains_key(&entry.id);
         let entry_length = entry.length as u64;
         if skip {
-            assert_eq!(
-                entry_length,
-                io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?
+            let skipped = io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?;
+            ensure!(
+                skipped == entry_length,
+                "Pack ended in the middle of blob {}",
+                entry.id
             );
             continue;
         }
diff --git a/src/read.rs b/src/read.rs
index a0e38b5..3175bd7 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -9,7 +9,6 @@ use rustc_hash::FxHashSet;
 use tracing::*;
 
 use crate::backend;
-use crate::blob;
 use crate::counters;
 use crate::file_util;
 use crate::hashing::{HashingReader, ObjectId};
@@ -192,14 +191,8 @@ impl<'a> ChunkReader<'a> {
         let mut bytes_read = 0;
         let mut blob_buf = vec![];
         for entry in manifest {
-            if entry.blob_type != blob::Type::Chunk {
-                warn!(
-                    "Tree {} found in pack where we expected only chunks",
-                    entry.id
-                );
-                continue;
-            }
-
+            // Don't mind if some are trees: blobs are deduplicated by ID alone,
+            // so that's where to find the contents of a file with the very same bytes.
             blob_buf.clear();
             blob_buf.reserve(entry.length as usize);
 
diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..6f21002 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -416,7 +416,12 @@ impl<'a> Cache<'a> {
             .get(pack_id)
             .expect("Pack ID in blob -> pack map but not the index");
 
-        pack::append_to_forest(&mut pack_containing_tree, manifest, &mut self.tree_cache)?;
+        pack::append_to_forest(
+            &mut pack_containing_tree,
+            manifest,
+            id,
+            &mut self.tree_cache,
+        )?;
 
         self.tree_cache
             .get(id)
-- 
2.43.0


From 861332af25c225f4a002e206ae7f2c195e836d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 11/37] fix: don't panic when the unfilter command exits before
 its feeding thread

---
 src/backend/filter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..20f8003 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -58,9 +58,11 @@ impl Read for UnfilterRead {
             }
 
             // Make sure we actually fed all the bytes into the filter program.
-            let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
-            copy_thread.join().expect("unfilter-copy thread aborted")?;
+            // (It's gone, so the thread feeding it is done or about to be.
+            // If we're read again after returning 0, we've been here already.)
+            if let Some(copy_thread) = self.copy_thread.take() {
+                copy_thread.join().expect("unfilter-copy thread aborted")?;
+            }
         }
 
         Ok(res)
-- 
2.43.0


From 471ec87ec76c803c6d4942f84c1434b6b54eb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 12/37] fix: don't forget threads waiting for the semaphore

---
 src/semaphored.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..fed403b 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,11 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit
+        //
+        // Wake somebody even if the count was already positive: others might have posted
+        // just before us, and the thread they woke can only take one of the slots.
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From ac8d2b2a373f42958a31338664cc022756fd8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 13/37] fix: don't panic on LAST~<huge number>, and order
 snapshots of the same time by ID

---
 src/snapshot.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index b747d96..1ff6c74 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -229,7 +229,8 @@ pub fn load_chronologically_with_total_size(
             }
         });
     let mut snapshots = concurrently::map_concurrently(get_snapshots);
-    snapshots.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // Break ties so that LAST, etc. are always the same snapshot.
+    snapshots.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     Ok((snapshots, total.load(Ordering::SeqCst)))
 }
 
@@ -259,12 +260,15 @@ pub fn find<'a>(
         let index = match groups[..] {
             [_, None, None] => 0,
             [_, Some(_), None] => 1,
-            [_, None, Some(n)] => n.as_str().parse().unwrap(),
+            [_, None, Some(n)] => n
+                .as_str()
+                .parse::<usize>()
+                .with_context(|| format!("Don't have {} snapshots yet", n.as_str()))?,
             _ => unreachable!(),
         };
         match chronological_snapshots.iter().rev().nth(index) {
             Some(found) => return Ok(found),
-            None => bail!("Don't have {} snapshots yet", index + 1),
+            None => bail!("Don't have {} snapshots yet", index.saturating_add(1)),
         };
     }
 
@@ -296,7 +300,7 @@ pub fn from_args_list(
         desired_snaps.push((s.clone(), *i));
     }
     // Take whatever the user asked for and make it chronological with no duplicates.
-    desired_snaps.sort_by_key(|(snap, _)| snap.time.timestamp());
+    desired_snaps.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     desired_snaps.dedup_by(|(_, id1), (_, id2)| id1 == id2);
     Ok(desired_snaps)
 }
-- 
2.43.0


From b7239c5cd1839d88fe2568495d3bc401febc52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 14/37] fix: don't look for what's below a symlink in the
 directory it's in (dump)

---
 src/ui/dump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/dump.rs b/src/ui/dump.rs
index 0ec62c1..04b4e94 100644
--- a/src/ui/dump.rs
+++ b/src/ui/dump.rs
@@ -84,7 +84,11 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 }
             }
             tree::NodeContents::Symlink { target } => {
-                dump_symlink(target, &path_so_far, &args.output)?;
+                if is_last_component {
+                    dump_symlink(target, &path_so_far, &args.output)?;
+                } else {
+                    bail!("{path_so_far} is a symlink, not a directory");
+                }
             }
             tree::NodeContents::File { chunks } => {
                 if is_last_component {
-- 
2.43.0


From f8e7647017e7be3850dda26c9e083ca3acf949ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 15/37] fix: don't fail to report the sizes of snapshots with
 empty directories

---
 src/tree.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 6f21002..3885a81 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::fs;
 use std::sync::{Arc, LazyLock};
 
-use anyhow::{Context, Result, anyhow, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use jiff::Timestamp;
 use rustc_hash::{FxHashMap, FxHashSet};
@@ -552,10 +552,12 @@ fn tree_size(
         .ok_or_else(|| anyhow!("Missing tree {tree_id}"))
         .unwrap();
 
-    let ts = size_map
-        .get(tree_id)
-        .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
-    let ts = *ts as u64;
+    let ts = match size_map.get(tree_id) {
+        Some(ts) => *ts as u64,
+        // See ui/backup.rs: We don't bother uploading nothing, so it takes up nothing.
+        None if *tree_id == *EMPTY_ID => 0,
+        None => bail!("Couldn't find tree {tree_id} to get size"),
+    };
     s.tree_bytes += ts;
     if visited_blobs.insert(*tree_id) {
         s.introduced += ts;
-- 
2.43.0


From 691d381dabca8ff37d748a0e6dd17d69da4c7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:36 +0000
Subject: [PATCH 16/37] fix: save snapshots where the time zone has no name

---
 src/snapshot.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 1ff6c74..ed72a40 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -28,7 +28,7 @@ use std::sync::{
 
 use anyhow::{Context, Result, bail, ensure};
 use camino::Utf8PathBuf;
-use jiff::{Timestamp, Zoned, tz::TimeZone};
+use jiff::{Timestamp, Zoned, fmt::temporal::DateTimePrinter, tz::TimeZone};
 use regex::Regex;
 use serde_derive::{Deserialize, Serialize};
 
@@ -107,9 +107,14 @@ struct SnapshotV2 {
 }
 
 fn diskfmt(s: &Snapshot) -> SnapshotV2 {
+    // If /etc/localtime isn't a link into the time zone database, we don't get a name.
+    let mut tz = s.time.time_zone().clone();
+    if DateTimePrinter::new().time_zone_to_string(&tz).is_err() {
+        tz = s.time.offset().to_time_zone();
+    }
     SnapshotV2 {
         time: s.time.timestamp(),
-        tz: s.time.time_zone().clone(),
+        tz,
         author: s.author.clone(),
         tags: s.tags.clone(),
         paths: s.paths.clone(),
-- 
2.43.0


From 0a4a580ad13f8e339b107ff28d66f79d161dffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 17/37] fix: restore directory times after changing their
 entries (restore --times)

A directory which had the right times to begin with lost them
when entries were added to or removed from it.
---
 src/diff.rs       | 8 ++++++++
 src/ui/restore.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/diff.rs b/src/diff.rs
index 1144bd9..60396ab 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -38,6 +38,12 @@ pub trait Callbacks {
         new_node: &Node,
     ) -> Result<()>;
 
+    /// Something below a directory changed, but the directory's own metadata didn't.
+    /// (Called after everything below it.)
+    fn entries_changed(&mut self, _node_path: &Utf8Path, _new_node: &Node) -> Result<()> {
+        Ok(())
+    }
+
     /// A node didn't change.
     fn nothing_changed(&mut self, _node_path: &Utf8Path, _node: &Node) -> Result<()> {
         Ok(())
@@ -135,6 +141,8 @@ pub fn compare_nodes(
                 // trace!("{:#?} != {:#?}", node1.metadata, node2.metadata);
                 callbacks.metadata_changed(path, node1, node2)?;
                 changed = true;
+            } else if changed {
+                callbacks.entries_changed(path, node2)?;
             }
             if !changed {
                 callbacks.nothing_changed(path, node1)?;
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 084d672..88a11ee 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -544,6 +544,14 @@ impl diff::Callbacks for Restorer<'_> {
         self.set_metadata(&node_path, new_node)
     }
 
+    fn entries_changed(&mut self, node_path: &Utf8Path, new_node: &Node) -> Result<()> {
+        if self.args.dry_run {
+            return Ok(());
+        }
+        // Adding and removing entries changed the directory's modification time.
+        self.set_metadata(&self.translate_path(node_path), new_node)
+    }
+
     fn type_changed(
         &mut self,
         node_path: &Utf8Path,
-- 
2.43.0


From 4f56d1747834e543876b4cc50a9c6834b68a2f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 18/37] fix: don't hang or write to special files in the place
 of restored ones

---
 src/ui/restore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 88a11ee..25aa31f 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -394,7 +394,8 @@ impl Restorer<'_> {
     fn add_node(&mut self, node_path: &Utf8Path, new_node: &Node, forest: &Forest) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
-                let fh = File::create(node_path)
+                // Nothing's known to be here - don't write to, say, a FIFO if there is.
+                let fh = File::create_new(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
             }
-- 
2.43.0


From 173a2b7ef63dcba9f5742f9c67efedca119ea239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 19/37] fix: don't restore over the other hard links of a file

Restoring contents which differ between two names of one file
left both with whatever was written last.
---
 src/ui/restore.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 25aa31f..434b8de 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -432,8 +432,13 @@ impl Restorer<'_> {
     ) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
+                let old_permissions = unshare(node_path)?;
                 let fh = File::create(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
+                if let Some(p) = old_permissions {
+                    fh.set_permissions(p)
+                        .with_context(|| format!("Couldn't chmod {node_path}"))?;
+                }
                 fill_file(fh, new_node, &mut self.blob_reader)?;
 
                 // Don't try to set metadata on a symlink! We can't lol
@@ -453,6 +458,25 @@ impl Restorer<'_> {
     }
 }
 
+/// If the file has other hard links, remove it before we write to it,
+/// since we'd change the contents of the others as well.
+/// Returns the permissions it had if so.
+#[cfg(unix)]
+fn unshare(path: &Utf8Path) -> Result<Option<fs::Permissions>> {
+    use std::os::unix::fs::MetadataExt;
+    let metadata = fs::symlink_metadata(path).with_context(|| format!("Couldn't stat {path}"))?;
+    if metadata.nlink() < 2 {
+        return Ok(None);
+    }
+    fs::remove_file(path).with_context(|| format!("Couldn't remove {path}"))?;
+    Ok(Some(metadata.permissions()))
+}
+
+#[cfg(windows)]
+fn unshare(_path: &Utf8Path) -> Result<Option<fs::Permissions>> {
+    Ok(None)
+}
+
 fn fill_file(mut fh: File, node: &Node, bl: &mut ChunkReader<'_>) -> Result<()> {
     let chunks = node.contents.chunks();
     for c in chunks {
-- 
2.43.0


From fc4b8291f066b29202fd6728e529ce96f073af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 20/37] fix: don't hang on machines with fewer than four cores

The stages of the backup pipeline wait for each other, so all have to be spawned.
---
 src/concurrently.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..3fe73cb 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,21 @@ where
     })
 }
 
+/// Like [`concurrently()`], but all at once and with names.
+///
+/// For threads which wait for each other, like the stages of a pipeline:
+/// limiting how many of those there are would make the first wait for the ones not yet spawned.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From b6b4812ec7cf4944df5e0d7614e559cdffe44d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:25 +0000
Subject: [PATCH 21/37] fix: wait for other processes using the cache

Transactions which read before they write fail at once if another process
wrote in between, so commands sharing a cache failed - check with broken packs.
---
 src/backend/cache.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 0dc23ac..bd69621 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -2,12 +2,14 @@ use std::{
     fs::{self, File},
     io::prelude::*,
     sync::Mutex,
+    thread,
+    time::Duration,
 };
 
 use anyhow::{Context, Result, anyhow, bail};
 use byte_unit::Byte;
 use camino::{Utf8Path, Utf8PathBuf};
-use rusqlite::Connection;
+use rusqlite::{Connection, ErrorCode, TransactionBehavior};
 
 use crate::counters::{Op, bump};
 use crate::file_util;
@@ -38,7 +40,9 @@ impl Cache {
     pub fn new(dir: &Utf8Path, cache_size: Byte) -> Result<Self> {
         let mut conn = Connection::open(dir.join("cache_metadata.sqlite"))?;
 
-        let t = conn.transaction()?;
+        // NB: Transactions that first read and then write have to lock the database from the start.
+        // If they don't, and another process writes in between, they can't wait - they just fail.
+        let t = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
         let ver: i32 = t.query_row("PRAGMA user_version", (), |r| r.get(0))?;
         if ver < 1 {
             t.execute(
@@ -62,7 +66,17 @@ impl Cache {
         t.execute("PRAGMA user_version=1", ())?;
         t.commit()?;
 
-        let jm: String = conn.query_row("PRAGMA journal_mode=wal", (), |r| r.get(0))?;
+        // SQLite doesn't always wait when several processes try this at once. Wait for it here.
+        let mut tries = 0;
+        let jm: String = loop {
+            match conn.query_row("PRAGMA journal_mode=wal", (), |r| r.get(0)) {
+                Err(e) if e.sqlite_error_code() == Some(ErrorCode::DatabaseBusy) && tries < 250 => {
+                    tries += 1;
+                    thread::sleep(Duration::from_millis(20));
+                }
+                done => break done?,
+            }
+        };
         // The journal mode could be memory if this is an in-memory DB for unit tests.
         assert!(jm == "wal" || jm == "memory", "sqlite: Couldn't set WAL");
 
@@ -143,7 +157,7 @@ impl Cache {
     pub fn prune(&self) -> Result<()> {
         // We want this all to be atomic.
         let mut c = self.conn.lock().unwrap();
-        let transaction = c.transaction()?;
+        let transaction = c.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         // Get the max cache size.
         let max_size: i64 =
-- 
2.43.0


From ec8f449a572ad800fecc3faf307dfc59c55b00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 22/37] fix: keep the cache within its size

The entry with which the size was exceeded was kept.
---
 src/backend/cache.rs | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index bd69621..8271e9a 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -6,7 +6,7 @@ use std::{
     time::Duration,
 };
 
-use anyhow::{Context, Result, anyhow, bail};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use byte_unit::Byte;
 use camino::{Utf8Path, Utf8PathBuf};
 use rusqlite::{Connection, ErrorCode, TransactionBehavior};
@@ -164,6 +164,7 @@ impl Cache {
             transaction.query_row("SELECT value FROM settings WHERE key = 'size'", (), |r| {
                 r.get(0)
             })?;
+        ensure!(max_size > 0, "Absurd: zero-size cache");
 
         // Find least-recently used entries that exceed our cache size.
         let mut statement =
@@ -171,37 +172,29 @@ impl Cache {
         let mut times_and_sizes = statement.query(())?;
 
         let mut acc = 0i64;
-        let mut oldest_that_fits = None;
-        while acc < max_size {
-            match times_and_sizes.next()? {
-                Some(row) => {
-                    let t: i64 = row.get(1)?;
-                    let s: i64 = row.get(2)?;
-                    oldest_that_fits = Some(t);
-                    acc += s;
-                }
-                None => {
-                    // The whole cache fits. We're done.
-                    return Ok(());
-                }
-            }
-        }
-        // Delete files older than this
+        let mut fits = 0;
+        let mut too_big = vec![];
         while let Some(row) = times_and_sizes.next()? {
             let name: String = row.get(0)?;
-            bump(Op::BackendCacheSpill);
-            self.delete_if_exists(&name)?;
+            let s: i64 = row.get(2)?;
+            acc += s;
+            // Keep at least the entry used last, or what was just inserted would be gone.
+            if acc <= max_size || fits == 0 {
+                fits += 1;
+            } else {
+                too_big.push(name);
+            }
         }
         drop(times_and_sizes);
         drop(statement);
 
         // Delete those least-recently used entries that are too big.
-        if let Some(o) = oldest_that_fits {
-            transaction.execute("DELETE FROM cache WHERE time < ?1", [o])?;
-            transaction.commit()?;
-        } else {
-            bail!("Absurd: zero-size cache");
+        for name in &too_big {
+            bump(Op::BackendCacheSpill);
+            self.delete_if_exists(name)?;
+            transaction.execute("DELETE FROM cache WHERE name == ?1", [name])?;
         }
+        transaction.commit()?;
 
         Ok(())
     }
-- 
2.43.0


From ada6235eedd54cf66bef825e3c94b0bc9c70e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 23/37] fix: don't remove an interrupted command's packs in dry
 runs

---
 src/backup.rs           |  2 +-
 src/ui/rebuild_index.rs | 11 ++++++-----
 src/upload.rs           | 27 +++++++++++++++++++++++----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 61f6f65..9e4276f 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -200,7 +200,7 @@ fn backup_master_thread<'env>(
 
     let umode = match mode {
         Mode::LiveFire => upload::Mode::LiveFire,
-        Mode::DryRun => upload::Mode::DryRun,
+        Mode::DryRun => upload::Mode::dry_run(),
     };
     let jobs: [(&str, Box<dyn FnOnce() -> Result<()> + Send>); 4] = [
         (
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index 82421ae..4279e4c 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -60,6 +60,12 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         )
     });
 
+    let umode = if args.dry_run {
+        upload::Mode::dry_run()
+    } else {
+        upload::Mode::LiveFire
+    };
+
     info!("Reading all packs to build a new index");
     let read_packs = cached_backend
         .list_packs()?
@@ -78,11 +84,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     concurrently::concurrently(read_packs);
     drop(pack_tx);
 
-    let umode = if args.dry_run {
-        upload::Mode::DryRun
-    } else {
-        upload::Mode::LiveFire
-    };
     upload::upload(umode, &cached_backend, upload_rx)?;
 
     // NB: Before deleting the old indexes, we make sure the new one's been written.
diff --git a/src/upload.rs b/src/upload.rs
index 21febd3..f075fab 100644
--- a/src/upload.rs
+++ b/src/upload.rs
@@ -5,26 +5,45 @@ use std::fs::File;
 use std::sync::mpsc::Receiver;
 
 use anyhow::Result;
+use rustc_hash::FxHashSet;
 
 use crate::backend;
 
 pub enum Mode {
-    DryRun,
+    DryRun {
+        /// Files an interrupted command left in the working directory.
+        /// If we happen to make the same ones again, they aren't ours to remove.
+        leftovers: FxHashSet<String>,
+    },
     LiveFire,
 }
 
+impl Mode {
+    /// A dry run, started before any packs or indexes are made in the working directory.
+    pub fn dry_run() -> Self {
+        let leftovers = std::fs::read_dir(".")
+            .into_iter()
+            .flatten()
+            .filter_map(|e| e.ok()?.file_name().into_string().ok())
+            .collect();
+        Mode::DryRun { leftovers }
+    }
+}
+
 pub fn upload(
     mode: Mode,
     cached_backend: &backend::CachedBackend,
     rx: Receiver<(String, File)>,
 ) -> Result<()> {
     while let Ok((path, fh)) = rx.recv() {
-        match mode {
+        match &mode {
             Mode::LiveFire => cached_backend.write(&path, fh)?,
-            Mode::DryRun => {
+            Mode::DryRun { leftovers } => {
                 // Just axe it, it isn't going anywhere.
                 drop(fh);
-                std::fs::remove_file(path)?;
+                if !leftovers.contains(&path) {
+                    std::fs::remove_file(path)?;
+                }
             }
         };
     }
-- 
2.43.0


From d85a242e82296376e6ea7c9ada5c226e8d75aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 24/37] fix: heed .backpak without a global configuration

---
 src/config.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b7257d6..c2cc508 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -71,13 +71,14 @@ pub fn load(p: Option<Utf8PathBuf>) -> Result<Configuration> {
         }
     };
     let confpath = confpath?;
-    let s = match fs::read_to_string(&confpath) {
-        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(Configuration::default()),
-        found => found,
-    }
-    .with_context(|| format!("Couldn't open {confpath}"))?;
-    let mut conf: Configuration =
-        toml::from_str(&s).with_context(|| format!("Couldn't parse {confpath}"))?;
+    let mut conf: Configuration = match fs::read_to_string(&confpath) {
+        // No global configuration, but there could still be a local one.
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Configuration::default(),
+        found => {
+            let s = found.with_context(|| format!("Couldn't open {confpath}"))?;
+            toml::from_str(&s).with_context(|| format!("Couldn't parse {confpath}"))?
+        }
+    };
     let local_conf = load_cwd()?;
     // We have <> at home.
     if let Some(lc) = local_conf {
-- 
2.43.0


From a7908323cd2f7876cb5f20eea5715cff24eea252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:29 +0000
Subject: [PATCH 25/37] fix: file sizes shown beside the directory or symlink a
 file replaced

---
 src/ui/snapshots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/snapshots.rs b/src/ui/snapshots.rs
index 0af1e79..dd53bec 100644
--- a/src/ui/snapshots.rs
+++ b/src/ui/snapshots.rs
@@ -500,7 +500,8 @@ impl PrintDiffs<'_> {
             assert!(plen <= self.pad);
             let pad: String = " ".repeat(self.pad - plen);
             print!("{p}{pad}");
-            if let Some(s) = sizes.get(path) {
+            // (A directory or symlink here was replaced by the file with these sizes.)
+            if let (NodeContents::File { .. }, Some(s)) = (&node.contents, sizes.get(path)) {
                 print!(
                     " | {} new, {} reused",
                     nice_size(s.introduced),
-- 
2.43.0


From e2205a00efee7dc72e1669e7f89d0d2a4117f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:36 +0000
Subject: [PATCH 26/37] fix: back up unchanged files again when their chunks
 are lost

---
 src/ui/backup.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 55859b8..240b7f2 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -253,13 +253,8 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     });
     match prev_but_now {
         Some(p) if p == snapshot && !args.allow_repeat => {
-            // We really did nothing, huh? (Besides finishing what was interrupted; see above.)
-            assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert!(resumed || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
-
+            // We really did nothing, huh?
+            // (Besides finishing what was interrupted, or putting back data that got lost.)
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
         }
@@ -402,6 +397,15 @@ fn check_paths(
     )
 }
 
+fn has_all_chunks(node: Option<&tree::Node>, packed_blobs: &FxHashSet<ObjectId>) -> bool {
+    match node.map(|n| &n.contents) {
+        Some(tree::NodeContents::File { chunks }) => {
+            chunks.iter().all(|c| packed_blobs.contains(c))
+        }
+        _ => false,
+    }
+}
+
 #[expect(clippy::too_many_arguments)] // Stop shame culture
 fn backup_tree(
     symlink_behavior: tree::Symlink,
@@ -434,6 +438,16 @@ fn backup_tree(
                      entry: DirectoryEntry<ObjectId>|
      -> Result<()> {
         walk_stats.current_file.update(path.to_owned());
+        let entry = match entry {
+            // Is everything the previous backup said of the file still there?
+            // (If packs were lost and the index rebuilt, it might not be.)
+            DirectoryEntry::UnchangedFile
+                if !has_all_chunks(previous_node, &packed_blobs.borrow()) =>
+            {
+                DirectoryEntry::ChangedFile
+            }
+            e => e,
+        };
         let subnode = match entry {
             DirectoryEntry::Directory(subtree) => {
                 /*
-- 
2.43.0


From 41f7693a7bf8eb4d57f62802217c8e6afe1a8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 27/37] fix: read snapshots before indexes, in case of
 concurrent backups

---
 src/ui/backup.rs          | 4 +++-
 src/ui/check.rs           | 8 ++++++--
 src/ui/copy.rs            | 3 ++-
 src/ui/diff.rs            | 3 ++-
 src/ui/filter_snapshot.rs | 3 ++-
 src/ui/restore.rs         | 3 ++-
 src/ui/usage.rs           | 5 +++--
 7 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 240b7f2..b70dba2 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -118,11 +118,13 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         backend::CacheBehavior::Normal,
     )?;
 
+    // NB: Read snapshots before indexes! Whoever else is backing up uploads them the other way
+    //     around, so we'll have an index for everything in the snapshots we found.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
     info!("Finding a parent snapshot");
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let parent = parent_snapshot(&paths, &snapshots);
     let parent = parent.as_ref();
 
diff --git a/src/ui/check.rs b/src/ui/check.rs
index 328adc9..213976f 100644
--- a/src/ui/check.rs
+++ b/src/ui/check.rs
@@ -50,6 +50,8 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         backend::CacheBehavior::AlwaysRead,
     )?;
 
+    // (Snapshots before indexes; see ui/backup.rs)
+    let snapshots = cached_backend.list_snapshots()?;
     let index = index::build_master_index(&cached_backend)?;
 
     info!("Downloading pack list");
@@ -120,6 +122,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     // Map the chunks that belong in each snapshot.
     let chunks_to_snapshots = map_chunks_to_snapshots(
         &cached_backend,
+        &snapshots,
         &mut tree::Cache::new(&index, &blob_map, &cached_backend),
     )?;
 
@@ -196,12 +199,13 @@ pub fn warn_on_unreachable_packs(index: &index::Index, all_packs: &[(String, u64
 /// Maps all reachable chunks to the set of snapshots that use them
 fn map_chunks_to_snapshots(
     cached_backend: &backend::CachedBackend,
+    snapshots: &[(String, u64)],
     tree_cache: &mut tree::Cache,
 ) -> Result<FxHashMap<ObjectId, FxHashSet<ObjectId>>> {
     let mut chunks_to_snapshots = FxHashMap::default();
 
-    for (snapshot_path, _snapshot_len) in cached_backend.list_snapshots()? {
-        let snapshot_id = backend::id_from_path(&snapshot_path)?;
+    for (snapshot_path, _snapshot_len) in snapshots {
+        let snapshot_id = backend::id_from_path(snapshot_path)?;
         let snapshot = snapshot::load(&snapshot_id, cached_backend)?;
 
         let snapshot_tree = tree::forest_from_root(&snapshot.tree, tree_cache)?;
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index 2c355bb..9b1f632 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -60,10 +60,11 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // (Snapshots before indexes; see ui/backup.rs)
+    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_index = index::build_master_index(&src_cached_backend)?;
     let src_blob_map = index::blob_to_pack_map(&src_index)?;
 
-    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_snapshots = if args.target.all {
         src_snapshots
     } else {
diff --git a/src/ui/diff.rs b/src/ui/diff.rs
index bf8d86a..aa72529 100644
--- a/src/ui/diff.rs
+++ b/src/ui/diff.rs
@@ -51,11 +51,12 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // (Snapshots before indexes; see ui/backup.rs)
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot1, id1) = snapshot::find(&snapshots, &args.first_snapshot)?;
     let snapshot1_forest = tree::forest_from_root(&snapshot1.tree, &mut tree_cache)?;
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index e11b00f..46f0161 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -55,10 +55,11 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // (Snapshots before indexes; see ui/backup.rs)
+    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (target, target_id) = snapshot::find(&chrono_snapshots, &args.target_snapshot)?;
 
     let snapshot_and_forest = repack::load_forest(
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 434b8de..bb74784 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -99,10 +99,11 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // (Snapshots before indexes; see ui/backup.rs)
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot, id) = snapshot::find(&snapshots, &args.restore_from)?;
     let snapshot_forest = tree::forest_from_root(
         &snapshot.tree,
diff --git a/src/ui/usage.rs b/src/ui/usage.rs
index ad278fc..5c10835 100644
--- a/src/ui/usage.rs
+++ b/src/ui/usage.rs
@@ -12,6 +12,9 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // (Snapshots before indexes; see ui/backup.rs)
+    let (snapshots, snapshot_size) =
+        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     let (index, index_sizes) = index::build_master_index_with_sizes(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
@@ -20,8 +23,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
     let mut reachable_blobs = FxHashSet::default();
     let reachable_blob_size;
 
-    let (snapshots, snapshot_size) =
-        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     if snapshots.is_empty() {
         reachable_blob_size = 0u64;
         println!("0 snapshots");
-- 
2.43.0


From bdef0a12e0bcde260a81a31f2ff90720bb56f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:09 +0000
Subject: [PATCH 28/37] fix: don't fail listing files when an upload finishes
 meanwhile

---
 src/backend/fs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backend/fs.rs b/src/backend/fs.rs
index da54923..55cb9c5 100644
--- a/src/backend/fs.rs
+++ b/src/backend/fs.rs
@@ -110,9 +110,6 @@ impl Backend for FilesystemBackend {
 
         let paths: Vec<(String, u64)> = walk_dir(&prefix)?
             .iter()
-            // see file_utils::safe_copy_to_file()
-            // Use the fancy new atomic file crate instead?
-            .filter(|(p, _len)| p.extension() != Some("part"))
             .map(str_and_len)
             .collect::<Result<Vec<_>>>()?;
 
@@ -125,6 +122,12 @@ fn walk_dir(dir: &Utf8Path) -> io::Result<Vec<(Utf8PathBuf, u64)>> {
     for entry in Utf8Path::read_dir_utf8(dir)? {
         let entry = entry?;
         let path = entry.path();
+        // see file_utils::safe_copy_to_file()
+        // Use the fancy new atomic file crate instead?
+        // (Don't even look at it; someone might be about to finish and rename it.)
+        if path.extension() == Some("part") {
+            continue;
+        }
         if path.is_dir() {
             paths.append(&mut walk_dir(path)?);
         } else {
-- 
2.43.0


From 4a8f3f5844f74d5df13169b8fe208bcb4d0e0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:04 +0000
Subject: [PATCH 29/37] fix: a prune that fails halfway mustn't replace the
 index

---
 src/ui/prune.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 16f32da..9af6f36 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -10,6 +10,7 @@ use tracing::*;
 use crate::backend;
 use crate::backup;
 use crate::config::Configuration;
+use crate::fatal;
 use crate::file_util::nice_size;
 use crate::hashing::ObjectId;
 use crate::index;
@@ -196,27 +197,35 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         );
 
         let run_res = (|| {
-            // Finish the WIP resume business.
-            if !args.dry_run {
-                backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)?;
-            }
-            drop(packs_to_upload);
+            let repack_res = (|| {
+                // Finish the WIP resume business.
+                if !args.dry_run {
+                    backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)?;
+                }
+                drop(packs_to_upload);
 
-            // Get a reader to load the chunks we're repacking.
-            let mut reader = read::ChunkReader::new(&cached_backend, &index, &blob_map);
+                // Get a reader to load the chunks we're repacking.
+                let mut reader = read::ChunkReader::new(&cached_backend, &index, &blob_map);
 
-            // We don't skip over anything as we prune; that'd leave us in a nasty state.
-            let filter = |_p: &Utf8Path| true;
+                // We don't skip over anything as we prune; that'd leave us in a nasty state.
+                let filter = |_p: &Utf8Path| true;
 
-            repack::walk_snapshots(
-                repack::Op::Prune,
-                &snapshots_and_forests,
-                filter,
-                &mut reader,
-                &mut packed_blobs,
-                &mut backup,
-                &walk_stats,
-            )?;
+                repack::walk_snapshots(
+                    repack::Op::Prune,
+                    &snapshots_and_forests,
+                    filter,
+                    &mut reader,
+                    &mut packed_blobs,
+                    &mut backup,
+                    &walk_stats,
+                )
+            })();
+            if let Err(e) = repack_res {
+                // Die before the backup threads see their channels close.
+                // They'd take that as the end of the prune and upload an index which supersedes
+                // the current ones without having everything we meant to repack.
+                fatal(e);
+            }
 
             // NB: Before deleting the old indexes, we make sure the new one's been written.
             //     This ensures there's no point in time when we don't have a valid index
-- 
2.43.0


From 6cd4feee342cbce6c0e714f290bfa7ce70a03649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 30/37] fix: no index of a backup whose packer failed

---
 src/backup.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 9e4276f..673c775 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -56,6 +56,7 @@ use std::sync::{
 use std::thread;
 
 use anyhow::{Context, Result, bail};
+use byte_unit::Byte;
 use camino::Utf8Path;
 use rustc_hash::FxHashSet;
 use tracing::*;
@@ -63,6 +64,7 @@ use tracing::*;
 use crate::backend;
 use crate::blob::Blob;
 use crate::concurrently::named_concurrently;
+use crate::fatal;
 use crate::hashing::ObjectId;
 use crate::index;
 use crate::pack;
@@ -206,27 +208,29 @@ fn backup_master_thread<'env>(
         (
             "chunk packer",
             Box::new(move || {
-                pack::pack(
+                pack_or_die(
                     pack_size,
                     chunk_rx,
                     chunk_index_tx,
                     chunk_pack_upload_tx,
                     chunk_bytes,
                     comp_bytes,
-                )
+                );
+                Ok(())
             }),
         ),
         (
             "tree packer",
             Box::new(move || {
-                pack::pack(
+                pack_or_die(
                     pack_size,
                     tree_rx,
                     tree_index_tx,
                     tree_pack_upload_tx,
                     tree_bytes,
                     comp_bytes,
-                )
+                );
+                Ok(())
             }),
         ),
         (
@@ -256,6 +260,32 @@ fn backup_master_thread<'env>(
     named_concurrently(jobs.into_iter());
 }
 
+/// [`pack::pack()`], but if it fails, die on the spot.
+///
+/// If it returned its error, its channel to the indexer would be closed by then.
+/// The indexer could take that as the end of the backup
+/// and have an index uploaded that misses the failed pack - which, for a prune,
+/// supersedes all others - before we get around to exiting.
+fn pack_or_die(
+    pack_size: Byte,
+    rx: Receiver<Blob>,
+    to_index: SyncSender<pack::PackMetadata>,
+    to_upload: SyncSender<(String, File)>,
+    unpacked_bytes: &AtomicU64,
+    packed_bytes: &AtomicU64,
+) {
+    if let Err(e) = pack::pack(
+        pack_size,
+        rx,
+        to_index.clone(),
+        to_upload,
+        unpacked_bytes,
+        packed_bytes,
+    ) {
+        fatal(e);
+    }
+}
+
 #[derive(Default)]
 pub struct ResumableBackup {
     /// Work-in-progress index found from a (presumably) interrupted backup.
-- 
2.43.0


From d2f36f8cf0abcf9de118faf3f68376972614b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 31/37] Let verification builds choose the B2 server (cfg
 vh_hook)

---
 b2/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index a11e43d..dd831cb 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -47,13 +47,24 @@ fn noredir() -> ureq::Agent {
     ureq::Agent::new_with_config(ureq::Agent::config_builder().max_redirects(0).build())
 }
 
+/// Where to log in - the rest of the URLs come from there.
+#[allow(unexpected_cfgs)]
+fn api_url() -> String {
+    // Verification builds can talk to some other server.
+    #[cfg(vh_hook)]
+    if let Ok(u) = std::env::var("BACKPAK_B2_API") {
+        return u;
+    }
+    "https://api.backblazeb2.com".to_owned()
+}
+
 impl Session {
     pub fn new<S: Into<String>>(key_id: &str, application_key: &str, bucket: S) -> Result<Self> {
         let bucket = bucket.into();
 
         let creds = String::from(key_id) + ":" + application_key;
         let auth = String::from("Basic") + &BASE64_STANDARD.encode(creds);
-        let v: json::Value = ureq::get("https://api.backblazeb2.com/b2api/v3/b2_authorize_account")
+        let v: json::Value = ureq::get(&(api_url() + "/b2api/v3/b2_authorize_account"))
             .header("Authorization", &auth)
             .call()?
             .body_mut()
-- 
2.43.0


From b19fa3771d46b23947cec7885a74dbb3d4e52879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 32/37] fix: hold B2 connection slots until contents are read

A read gave back its slot as soon as the answer's headers were there, and
streamed the contents without it, so there could be more connections than
concurrent_connections.
---
 src/backend/semaphored.rs | 29 +++++++++++++++++++++--------
 src/semaphored.rs         | 13 +++++++------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index ee591ba..cdfc832 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -1,40 +1,53 @@
 use super::*;
 use crate::semaphored;
 
-use std::sync::atomic::AtomicU32;
+use std::sync::{Arc, atomic::AtomicU32};
 
 pub struct Semaphored<B> {
     inner: B,
-    count: AtomicU32,
+    count: Arc<AtomicU32>,
+}
+
+/// Holds its slot until the contents are read - the connection is there until then.
+struct SemaphoredRead {
+    inner: Box<dyn Read + Send>,
+    _sem: semaphored::SemaphoreGuard<Arc<AtomicU32>>,
+}
+
+impl Read for SemaphoredRead {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.inner.read(buf)
+    }
 }
 
 impl<B: Backend> Semaphored<B> {
     pub fn new(inner: B, concurrency: u32) -> Self {
         Self {
             inner,
-            count: AtomicU32::new(concurrency),
+            count: Arc::new(AtomicU32::new(concurrency)),
         }
     }
 }
 
 impl<B: Backend> Backend for Semaphored<B> {
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>> {
-        let _sem = semaphored::dec(&self.count);
-        self.inner.read(from)
+        let _sem = semaphored::dec(self.count.clone());
+        let inner = self.inner.read(from)?;
+        Ok(Box::new(SemaphoredRead { inner, _sem }))
     }
 
     fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.write(len, from, to)
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.remove(which)
     }
 
     fn list(&self, prefix: &str) -> Result<Vec<(String, u64)>> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.list(prefix)
     }
 }
diff --git a/src/semaphored.rs b/src/semaphored.rs
index fed403b..127005e 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -7,16 +7,17 @@
 //! We also might want to limit the number of concurrent filesystem threads
 //! done with [`concurrently`](super::concurrently)
 
+use std::ops::Deref;
 use std::sync::atomic::{AtomicU32, Ordering};
 
 use atomic_wait::*; // <3 Mara
 
 /// lmao how does the stdlib not have counting semaphores
-pub struct SemaphoreGuard<'a> {
-    count: &'a AtomicU32,
+pub struct SemaphoreGuard<C: Deref<Target = AtomicU32>> {
+    count: C,
 }
 
-pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
+pub fn dec<C: Deref<Target = AtomicU32>>(count: C) -> SemaphoreGuard<C> {
     // Sanity check:
     // https://www.remlab.net/op/futex-misc.shtml
 
@@ -31,7 +32,7 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
             Err(actual) => {
                 if actual == 0 {
                     // I sleep
-                    wait(count, 0);
+                    wait(&*count, 0);
                     // We're back, so at least one thread posted the semaphore
                     // (by dropping the guard) and we've got a positive count again.
                     // Assume only one thread did - if several beat us here, no worries,
@@ -49,13 +50,13 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
     SemaphoreGuard { count }
 }
 
-impl Drop for SemaphoreGuard<'_> {
+impl<C: Deref<Target = AtomicU32>> Drop for SemaphoreGuard<C> {
     fn drop(&mut self) {
         self.count.fetch_add(1, Ordering::Release);
         // real shit
         //
         // Wake somebody even if the count was already positive: others might have posted
         // just before us, and the thread they woke can only take one of the slots.
-        wake_one(self.count);
+        wake_one(&*self.count);
     }
 }
-- 
2.43.0


From fd8244f5b16fa18e22a264bb6894e4151d7b3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 33/37] fix: send B2 uploads from the start when retrying

The reader was left where the failed try had stopped, so the next one sent
only the rest (if anything) under the length of the whole.
---
 src/backend.rs            | 7 ++++---
 src/backend/backblaze.rs  | 8 ++++++--
 src/backend/filter.rs     | 2 +-
 src/backend/fs.rs         | 2 +-
 src/backend/memory.rs     | 2 +-
 src/backend/semaphored.rs | 2 +-
 src/progress.rs           | 7 +++++++
 7 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/backend.rs b/src/backend.rs
index 53f15d9..a733756 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -105,7 +105,8 @@ pub trait Backend {
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>>;
 
     /// Write the given read stream to the given key
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()>;
+    /// (which is rewound if it has to be sent again)
+    fn write(&self, len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()>;
 
     fn remove(&self, which: &str) -> Result<()>;
 
@@ -168,8 +169,8 @@ impl CachedBackend {
     }
 }
 
-pub trait SeekableRead: Read + Seek + Send + 'static {}
-impl<T> SeekableRead for T where T: Read + Seek + Send + 'static {}
+pub trait SeekableRead: Read + Seek + Send {}
+impl<T> SeekableRead for T where T: Read + Seek + Send {}
 
 // NB: We use a flat cache structure (where every file is just <hash>.pack/index/etc)
 // but prepend prefixes with `destination()` prior to giving the path to the backend.
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index f15629d..63150a7 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -72,8 +72,12 @@ impl Backend for BackblazeBackend {
         Ok(Box::new(r))
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        retry(|| self.session.put(to, len, from))?;
+    fn write(&self, len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()> {
+        retry(|| {
+            // An earlier try might have sent some of it.
+            from.rewind()?;
+            self.session.put(to, len, from)
+        })?;
         Ok(())
     }
 
diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index 20f8003..4c93cbd 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -102,7 +102,7 @@ impl Backend for BackendFilter {
         }))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()> {
         debug!("{} > {to}", self.filter);
 
         let mut f = Command::new("sh")
diff --git a/src/backend/fs.rs b/src/backend/fs.rs
index 55cb9c5..ba2d2b5 100644
--- a/src/backend/fs.rs
+++ b/src/backend/fs.rs
@@ -84,7 +84,7 @@ impl Backend for FilesystemBackend {
         ))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()> {
         let to = self.path_of(to);
         file_util::safe_copy_to_file(from, &to)?;
         Ok(())
diff --git a/src/backend/memory.rs b/src/backend/memory.rs
index c8a09a1..4cdd90c 100644
--- a/src/backend/memory.rs
+++ b/src/backend/memory.rs
@@ -44,7 +44,7 @@ impl Backend for MemoryBackend {
         Ok(Box::new(self.read_cursor(from)?))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()> {
         let mut vec = Vec::new();
         io::copy(from, &mut vec)?;
         self.files.lock().unwrap().insert(to.to_owned(), vec);
diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index cdfc832..1c41a9b 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -36,7 +36,7 @@ impl<B: Backend> Backend for Semaphored<B> {
         Ok(Box::new(SemaphoredRead { inner, _sem }))
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()> {
         let _sem = semaphored::dec(&*self.count);
         self.inner.write(len, from, to)
     }
diff --git a/src/progress.rs b/src/progress.rs
index 6ecd7a2..df80324 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -41,6 +41,13 @@ impl<R: Read> Read for AtomicCountRead<'_, R> {
     }
 }
 
+/// Used to start over - everything read is counted, again if need be.
+impl<R: io::Seek> io::Seek for AtomicCountRead<'_, R> {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.inner.seek(pos)
+    }
+}
+
 pub struct AtomicCountWrite<'a, W> {
     inner: W,
     count: &'a AtomicU64,
-- 
2.43.0


From 9539d8fdae9fb091d5eb66d9a6793fd7cf5a6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:23 +0000
Subject: [PATCH 34/37] fix: don't retry what B2 will never answer otherwise

Missing objects, refusals, and errors reading the contents of an upload were
retried forever, so e.g. check never ended on a repository lacking a pack.
---
 b2/src/lib.rs            | 62 +++++++++++++++++++++++++++++++++-------
 src/backend/backblaze.rs |  8 +++---
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index dd831cb..df08d8a 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -22,6 +22,25 @@ impl From<ureq::Error> for Error {
     }
 }
 
+impl Error {
+    /// Did the server tell us that our token is not (or no longer) good?
+    pub fn is_unauthorized(&self) -> bool {
+        matches!(self, Self::Http(e) if matches!(**e, ureq::Error::StatusCode(401)))
+    }
+
+    /// Could trying again get another answer? If the server understood what we want
+    /// and says no, it will go on saying no.
+    pub fn is_temporary(&self) -> bool {
+        match self {
+            Self::Http(e) => match **e {
+                ureq::Error::StatusCode(s) => s == 408 || s == 429 || s >= 500,
+                _ => true,
+            },
+            Self::Io(_) | Self::UnexpectedResponse { .. } | Self::NotFound { .. } => false,
+        }
+    }
+}
+
 fn unexpected(w: &str, r: &json::Value) -> Error {
     Error::UnexpectedResponse {
         why: w.to_string(),
@@ -222,26 +241,44 @@ impl Session {
 
         // B2 wants the SHA1 hash (as hex), but we can provide it at the end.
         // Very nice.
-        enum HashAppendingReader<R> {
-            Contents { inner: R, hasher: Option<Sha1> },
+        enum HashAppendingReader<'a, R> {
+            Contents {
+                inner: R,
+                hasher: Option<Sha1>,
+                failure: &'a mut Option<std::io::Error>,
+            },
             HashSuffix(Cursor<Vec<u8>>),
         }
 
-        impl<R> HashAppendingReader<R> {
-            fn new(inner: R) -> Self {
+        impl<'a, R> HashAppendingReader<'a, R> {
+            fn new(inner: R, failure: &'a mut Option<std::io::Error>) -> Self {
                 Self::Contents {
                     inner,
                     hasher: Some(Sha1::new()),
+                    failure,
                 }
             }
         }
 
-        impl<R: Read> Read for HashAppendingReader<R> {
+        impl<R: Read> Read for HashAppendingReader<'_, R> {
             fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                 match self {
-                    Self::Contents { inner, hasher } => {
+                    Self::Contents {
+                        inner,
+                        hasher,
+                        failure,
+                    } => {
                         // Read some bytes from the inner Read trait object.
-                        let bytes_read = inner.read(buf)?;
+                        let bytes_read = match inner.read(buf) {
+                            Ok(b) => b,
+                            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => return Err(e),
+                            Err(e) => {
+                                // Keep that apart from errors talking to the server.
+                                let told = std::io::Error::new(e.kind(), e.to_string());
+                                **failure = Some(e);
+                                return Err(told);
+                            }
+                        };
                         if bytes_read > 0 {
                             // If we got some bytes, update the SHA1 hash with those and return.
                             hasher.as_mut().unwrap().update(&buf[..bytes_read]);
@@ -262,17 +299,22 @@ impl Session {
             }
         }
 
-        let mut hr = HashAppendingReader::new(contents);
+        let mut failure = None;
+        let mut hr = HashAppendingReader::new(contents, &mut failure);
 
-        noredir()
+        let sent = noredir()
             .post(&self.upload_url)
             .header("Authorization", &self.upload_token)
             .header("Content-Length", &(len + 40).to_string()) // SHA1 is 40 hex digits long.
             .header("X-Bz-File-Name", name) // No need to URL-encode, our names are boring
             .header("Content-Type", "b2/x-auto") // Go ahead and guess
             .header("X-Bz-Content-Sha1", "hex_digits_at_end")
-            .send(ureq::SendBody::from_reader(&mut hr))?;
+            .send(ureq::SendBody::from_reader(&mut hr));
 
+        if let Some(e) = failure {
+            return Err(e.into());
+        }
+        sent?;
         Ok(())
     }
 
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index 63150a7..338d76f 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -54,12 +54,12 @@ fn retry<T, F: FnMut() -> b2::Result<T>>(mut f: F) -> b2::Result<T> {
             Ok(k) => return Ok(k),
             Err(e) => {
                 // Assume IO errors are issues with our machine that won't resolve quickly,
-                // and everything else to be server-side, temporary sadness.
-                if matches!(e, b2::Error::Io(_)) {
-                    return Err(e);
-                } else {
+                // and that a server which is not just busy means what it says.
+                if e.is_temporary() {
                     warn!("{e}, retrying");
                     std::thread::sleep(std::time::Duration::from_secs(1));
+                } else {
+                    return Err(e);
                 }
             }
         }
-- 
2.43.0


From bd65a6b75f010d939f5379d02b589d436983186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 35/37] fix: log in to B2 again when tokens or upload URLs
 expire

Tokens are good for a day; then every request was refused, and tried again,
forever. The same went for upload URLs, which B2 asks to be replaced
whenever an upload fails.
---
 src/backend/backblaze.rs | 86 ++++++++++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index 338d76f..aae3b3f 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -1,14 +1,21 @@
 use super::*;
 
 use std::fs;
+use std::sync::{Arc, Mutex};
 
 use anyhow::Result;
 use b2::Session;
 use backpak_b2 as b2;
 use byte_unit::Byte;
 
+/// How often to log in again before we believe that we're not welcome.
+const MAX_RENEWALS: usize = 3;
+
 pub struct BackblazeBackend {
-    pub session: Session,
+    key_id: String,
+    application_key: String,
+    bucket: String,
+    session: Mutex<Arc<Session>>,
 }
 
 pub fn initialize(
@@ -43,24 +50,59 @@ pub fn initialize(
 impl BackblazeBackend {
     pub fn open(key_id: &str, application_key: &str, bucket: &str) -> Result<Self> {
         let session = Session::new(key_id, application_key, bucket)?;
-        Ok(Self { session })
+        Ok(Self {
+            key_id: key_id.to_owned(),
+            application_key: application_key.to_owned(),
+            bucket: bucket.to_owned(),
+            session: Mutex::new(Arc::new(session)),
+        })
+    }
+
+    fn session(&self) -> Arc<Session> {
+        self.session.lock().unwrap().clone()
     }
-}
 
-// We could make the timeout configurable, make this generic across different errors, etc.
-fn retry<T, F: FnMut() -> b2::Result<T>>(mut f: F) -> b2::Result<T> {
-    loop {
-        match f() {
-            Ok(k) => return Ok(k),
-            Err(e) => {
-                // Assume IO errors are issues with our machine that won't resolve quickly,
-                // and that a server which is not just busy means what it says.
-                if e.is_temporary() {
-                    warn!("{e}, retrying");
-                    std::thread::sleep(std::time::Duration::from_secs(1));
-                } else {
-                    return Err(e);
-                }
+    /// Log in again and get another upload URL, unless some other thread already did.
+    fn renew(&self, old: &Arc<Session>) -> b2::Result<()> {
+        let mut current = self.session.lock().unwrap();
+        if Arc::ptr_eq(&current, old) {
+            *current = Arc::new(Session::new(
+                &self.key_id,
+                &self.application_key,
+                self.bucket.as_str(),
+            )?);
+        }
+        Ok(())
+    }
+
+    // We could make the timeout configurable, make this generic across different errors, etc.
+    fn retry<T, F: FnMut(&Session) -> b2::Result<T>>(&self, mut f: F) -> b2::Result<T> {
+        let mut renewals = 0;
+        loop {
+            let session = self.session();
+            let e = match f(&session) {
+                Ok(k) => return Ok(k),
+                Err(e) => e,
+            };
+            // Tokens only last so long.
+            let expired = e.is_unauthorized() && renewals < MAX_RENEWALS;
+            // Assume IO errors are issues with our machine that won't resolve quickly,
+            // and that a server which is not just busy means what it says.
+            if !expired && !e.is_temporary() {
+                return Err(e);
+            }
+            warn!("{e}, retrying");
+            if expired {
+                renewals += 1;
+            } else {
+                std::thread::sleep(std::time::Duration::from_secs(1));
+            }
+            // When uploading fails, B2 wants us to get another URL for that.
+            // (There's no harm in getting one, whatever failed.)
+            match self.renew(&session) {
+                Err(e) if !e.is_temporary() => return Err(e),
+                Err(e) => warn!("{e}, retrying"),
+                Ok(()) => {}
             }
         }
     }
@@ -68,26 +110,26 @@ fn retry<T, F: FnMut() -> b2::Result<T>>(mut f: F) -> b2::Result<T> {
 
 impl Backend for BackblazeBackend {
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>> {
-        let r = retry(|| self.session.get(from))?;
+        let r = self.retry(|s| s.get(from))?;
         Ok(Box::new(r))
     }
 
     fn write(&self, len: u64, from: &mut dyn SeekableRead, to: &str) -> Result<()> {
-        retry(|| {
+        self.retry(|s| {
             // An earlier try might have sent some of it.
             from.rewind()?;
-            self.session.put(to, len, from)
+            s.put(to, len, from)
         })?;
         Ok(())
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        retry(|| self.session.delete(which))?;
+        self.retry(|s| s.delete(which))?;
         Ok(())
     }
 
     fn list(&self, prefix: &str) -> Result<Vec<(String, u64)>> {
-        let l = retry(|| self.session.list(Some(prefix)))?;
+        let l = self.retry(|s| s.list(Some(prefix)))?;
         Ok(l)
     }
 }
-- 
2.43.0


From 5593ddcc9bb192b32d7b6bb2f531e7c814faad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:09 +0000
Subject: [PATCH 36/37] fix: delete all versions of a B2 file

Storing a file again because the answer got lost makes another version of
it, and then deleting it failed forever. Deleting again because the answer
got lost didn't find it, and failed forever, too.
---
 b2/src/lib.rs            | 68 +++++++++++++++++++++++-----------------
 src/backend/backblaze.rs | 10 +++++-
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index df08d8a..62d7db1 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -318,38 +318,50 @@ impl Session {
         Ok(())
     }
 
+    /// Deletes all versions of the given file.
+    /// (There's more than one if storing it was retried because the answer got lost.)
     pub fn delete(&self, name: &str) -> Result<()> {
-        let req = noredir()
-            .get(&(self.url.clone() + "/b2api/v2/b2_list_file_versions"))
-            .header("Authorization", &self.token)
-            .query("bucketId", &self.bucket_id)
-            .query("prefix", name);
-
-        let lfv = req.call()?.body_mut().read_json()?;
-        let where_name = || unexpected(&format!("couldn't find {name}"), &lfv);
+        let mut found = false;
+        loop {
+            let req = noredir()
+                .get(&(self.url.clone() + "/b2api/v2/b2_list_file_versions"))
+                .header("Authorization", &self.token)
+                .query("bucketId", &self.bucket_id)
+                .query("startFileName", name)
+                .query("prefix", name);
 
-        let versions = lfv["files"].as_array().ok_or_else(where_name)?;
+            let lfv: json::Value = req.call()?.body_mut().read_json()?;
 
-        if versions.is_empty() {
-            return Err(where_name());
-        }
-        if versions.len() != 1 {
-            return Err(unexpected(
-                &format!("found multiple versions of {name}"),
-                &lfv,
-            ));
-        }
-        let id = versions[0]["fileId"]
-            .as_str()
-            .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
+            let versions: Vec<&json::Value> = lfv["files"]
+                .as_array()
+                .ok_or_else(|| unexpected(&format!("couldn't find {name}"), &lfv))?
+                .iter()
+                // Others might start with its name.
+                .filter(|v| v["fileName"].as_str() == Some(name))
+                .collect();
 
-        ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
-            .header("Authorization", &self.token)
-            .send_json(json::json!({
-                "fileName": name,
-                "fileId": id
-            }))?;
+            if versions.is_empty() {
+                if found {
+                    return Ok(());
+                }
+                return Err(Error::NotFound {
+                    what: name.to_owned(),
+                });
+            }
 
-        Ok(())
+            for v in versions {
+                let id = v["fileId"]
+                    .as_str()
+                    .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
+
+                ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
+                    .header("Authorization", &self.token)
+                    .send_json(json::json!({
+                        "fileName": name,
+                        "fileId": id
+                    }))?;
+                found = true;
+            }
+        }
     }
 }
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index aae3b3f..7c3930f 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -124,7 +124,15 @@ impl Backend for BackblazeBackend {
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        self.retry(|s| s.delete(which))?;
+        let mut tried = false;
+        self.retry(|s| match s.delete(which) {
+            // An earlier try deleted it, but we didn't hear of that.
+            Err(b2::Error::NotFound { .. }) if tried => Ok(()),
+            done => {
+                tried = true;
+                done
+            }
+        })?;
         Ok(())
     }
 
-- 
2.43.0


From 7b00e8125c6d54b967f4187c4cfa04acd6906a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:04 +0000
Subject: [PATCH 37/37] fix: refuse a B2 repository which allows no connections

Waiting for one took forever.
---
 src/backend.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/backend.rs b/src/backend.rs
index a733756..5cb5a4b 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -405,10 +405,16 @@ pub fn open(
                     application_key,
                     bucket,
                     concurrent_connections,
-                } => Box::new(semaphored::Semaphored::new(
-                    backblaze::BackblazeBackend::open(key_id, application_key, bucket)?,
-                    *concurrent_connections,
-                )),
+                } => {
+                    ensure!(
+                        *concurrent_connections > 0,
+                        "{repository} doesn't allow any connections to {bucket}"
+                    );
+                    Box::new(semaphored::Semaphored::new(
+                        backblaze::BackblazeBackend::open(key_id, application_key, bucket)?,
+                        *concurrent_connections,
+                    ))
+                }
             };
 
             let cache = cache::setup(cache_size)?;
-- 
2.43.0


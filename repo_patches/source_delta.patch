From b8cba50a03de2639a285d47849f05299d5374f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 01/19] fix: keep paths in duplicity's order when merging
 signatures

The merge of a new signature into the chain compared paths as bytes, while the
list it walks is sorted by path components. Whenever the two orders disagree
(foo/bar and foo.txt) an existing path was not found: it was listed twice, and
its deletion was lost. Use one comparison, by components, for both.
---
 src/rawpath.rs    | 11 +++++++++++
 src/signatures.rs | 15 ++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/rawpath.rs b/src/rawpath.rs
index c15da94..7b3717e 100644
--- a/src/rawpath.rs
+++ b/src/rawpath.rs
@@ -1,5 +1,16 @@
 pub use self::os::RawPath;
 
+use std::cmp::Ordering;
+
+/// Compares two paths in the order used by duplicity: component by component.
+///
+/// Note that this is different from comparing the bytes: `foo/bar` comes before `foo.txt`, because
+/// `foo` comes before `foo.txt`.
+pub fn cmp_paths(a: &[u8], b: &[u8]) -> Ordering {
+    let is_sep = |c: &u8| *c == b'/';
+    a.split(is_sep).cmp(b.split(is_sep))
+}
+
 #[cfg(unix)]
 mod os {
     use std::ffi::OsString;
diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..c1c10f5 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -3,6 +3,7 @@
 //! This sub-module exposes types to deal with duplicity signatures. It can be used to get
 //! information about files backupped in a backup chain.
 
+use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
@@ -16,7 +17,7 @@ use time::Timespec;
 
 use crate::backend::Backend;
 use crate::collections::{SignatureChain, SignatureFile};
-use crate::rawpath::RawPath;
+use crate::rawpath::{cmp_paths, RawPath};
 use crate::timefmt::TimeDisplay;
 
 /// Stores information about paths in a backup chain.
@@ -236,14 +237,13 @@ impl Chain {
                     loop {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
-                            let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            match cmp_paths(path_snapshots.path.as_bytes(), path) {
                                 // this path is already present in old snapshots: update them
-                                found = true;
-                            } else if old_path > path {
+                                Ordering::Equal => found = true,
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
-                                break;
+                                Ordering::Greater => break,
+                                Ordering::Less => (),
                             }
                         }
                         if found {
@@ -274,7 +274,8 @@ impl Chain {
             // TODO: Performance hurt here: we have two sorted arrays to merge,
             // better to use this algorithm: http://stackoverflow.com/a/4553321/1667955
             self.files.extend(new_files.into_iter());
-            self.files.sort_by(|a, b| a.path.cmp(&b.path));
+            self.files
+                .sort_by(|a, b| cmp_paths(a.path.as_bytes(), b.path.as_bytes()));
         }
         Ok(())
     }
-- 
2.43.0


From b7245bfe782d9c89809df2bb8e35956256793065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 02/19] fix: support chains with more than 255 snapshots

The number of snapshots was kept in a u8: the 256th signature of a chain
overflowed it, and nth never went beyond the 254th snapshot.
---
 src/signatures.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index c1c10f5..7252e44 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -25,7 +25,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -34,20 +34,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -106,7 +106,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -188,7 +188,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -298,13 +298,8 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
+        // check for overflow to be fool-proof
+        let id = self.snapshot_id.checked_add(n)?;
         if id < self.chain.num_snapshots {
             self.snapshot_id = id + 1;
             Some(Snapshot {
@@ -319,7 +314,7 @@ impl<'a> Iterator for Snapshots<'a> {
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
     fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+        self.chain.num_snapshots - self.snapshot_id
     }
 }
 
-- 
2.43.0


From 3f0d32946b74ca9de2d6b9d11a5f3bc7c5c1f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 03/19] fix: make signatures::Snapshots a lawful iterator

It promises an exact size, but size_hint was left at the default, and nth
beyond the end left the iterator where it was instead of exhausting it.
---
 src/signatures.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 7252e44..9f4d62a 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -298,8 +298,8 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        // check for overflow to be fool-proof
-        let id = self.snapshot_id.checked_add(n)?;
+        // skipping beyond the end exhausts the iterator (check for overflow to be fool-proof)
+        let id = self.snapshot_id.saturating_add(n);
         if id < self.chain.num_snapshots {
             self.snapshot_id = id + 1;
             Some(Snapshot {
@@ -307,17 +307,19 @@ impl<'a> Iterator for Snapshots<'a> {
                 index: id,
             })
         } else {
+            self.snapshot_id = self.chain.num_snapshots;
             None
         }
     }
-}
 
-impl<'a> ExactSizeIterator for Snapshots<'a> {
-    fn len(&self) -> usize {
-        self.chain.num_snapshots - self.snapshot_id
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.chain.num_snapshots - self.snapshot_id;
+        (len, Some(len))
     }
 }
 
+impl<'a> ExactSizeIterator for Snapshots<'a> {}
+
 impl<'a> Snapshot<'a> {
     /// Returns the files inside this backup snapshot.
     pub fn files(&self) -> SnapshotEntries<'a> {
-- 
2.43.0


From 9bd4c5b9c419a106f86d6a051d7616d53b35f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 04/19] fix: do not panic on a second query while a cached
 result is in use

---
 src/lib.rs | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..4e14004 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,24 +344,22 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 
     fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        {
-            // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
-                // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                    let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
-                } else {
-                    return Err(not_found(
-                        "The given backup snapshot does not have a \
-                                         corresponding signature",
-                    ));
-                }
+        // check if there is a cached value: a mutable borrow is only taken when the value is
+        // missing, because the cached one can be still borrowed by the caller
+        let cached = self.signatures[chain_id].borrow().is_some();
+        if !cached {
+            // compute signatures now
+            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+                *self.signatures[chain_id].borrow_mut() = Some(new_sig);
+            } else {
+                return Err(not_found(
+                    "The given backup snapshot does not have a \
+                                     corresponding signature",
+                ));
             }
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.signatures[chain_id].borrow())
     }
@@ -371,17 +369,16 @@ impl<B: Backend> ResourceCache for Backup<B> {
         id: usize,
         path: &str,
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
-        {
-            // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
-                // compute manifest now
-                let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
-            }
+        // check if there is a cached value: a mutable borrow is only taken when the value is
+        // missing, because the cached one can be still borrowed by the caller
+        let cached = self.manifests[id].borrow().is_some();
+        if !cached {
+            // compute manifest now
+            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
+            let new_man = Manifest::parse(&mut file)?;
+            *self.manifests[id].borrow_mut() = Some(new_man);
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.manifests[id].borrow())
     }
-- 
2.43.0


From 198a1643dd0d4935710c351832dcebbaca378a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 05/19] fix: count and store only the volumes that exist

---
 src/collections/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..cde3a11 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,8 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    // the paths of the volumes by volume number; volumes are numbered starting from 1
+    volumes_paths: BTreeMap<usize, String>,
 }
 
 /// Information about a signature file.
@@ -142,9 +144,7 @@ impl BackupSet {
 
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
-        self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+        self.volumes_paths.get(&volume_num).map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -238,7 +238,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
         };
         result.add_filename(fname);
         result
@@ -259,14 +259,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From 3eb8a63bc1b1275a79c3f7e8de69b3dc09cefb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 06/19] fix: set flags do not depend on the listing order

---
 src/collections/mod.rs | 47 +++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index cde3a11..4e7972b 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -99,7 +99,7 @@ impl BackupSet {
     ///
     /// The corresponding backup has not been stopped before completion.
     pub fn is_complete(&self) -> bool {
-        !self.manifest_path.is_empty()
+        !self.manifest_path.is_empty() && !self.partial
     }
 
     /// Returns whether the set is partial.
@@ -221,22 +221,11 @@ impl BackupSet {
                 end_time: end_time,
             },
         };
-        // set partial
-        let partial = {
-            match fname.info.tp {
-                fnm::Type::FullManifest { partial, .. }
-                | fnm::Type::IncManifest { partial, .. }
-                | fnm::Type::FullSig { partial, .. }
-                | fnm::Type::NewSig { partial, .. } => partial,
-                _ => false,
-            }
-        };
-
         let mut result = BackupSet {
             tp: tp,
-            partial: partial,
-            compressed: fname.info.compressed,
-            encrypted: fname.info.encrypted,
+            partial: false,
+            compressed: false,
+            encrypted: false,
             manifest_path: String::new(),
             volumes_paths: BTreeMap::new(),
         };
@@ -247,8 +236,9 @@ impl BackupSet {
     /// Adds a filename to given set. Return true if it fits.
     ///
     /// The filename will match the given set if it has the right
-    /// times and is of the right type. The information will be set
-    /// from the first filename given.
+    /// times and is of the right type. The flags are set if any of the
+    /// files in the set has them, so that they don't depend on which file
+    /// has been added first.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -266,16 +256,18 @@ impl BackupSet {
                 }
                 _ => (),
             }
-            self.fix_encrypted(pr.encrypted);
+            self.partial |= match pr.tp {
+                fnm::Type::FullManifest { partial, .. }
+                | fnm::Type::IncManifest { partial, .. }
+                | fnm::Type::FullSig { partial, .. }
+                | fnm::Type::NewSig { partial, .. } => partial,
+                _ => false,
+            };
+            self.compressed |= pr.compressed;
+            self.encrypted |= pr.encrypted;
             true
         }
     }
-
-    fn fix_encrypted(&mut self, pr_encrypted: bool) {
-        if self.encrypted != pr_encrypted && self.partial && pr_encrypted {
-            self.encrypted = pr_encrypted;
-        }
-    }
 }
 
 impl Display for BackupSet {
@@ -565,14 +557,17 @@ where
     E: AsRef<Path> + 'a,
 {
     let parser = FileNameParser::new();
-    filenames
+    let mut infos: Vec<_> = filenames
         .into_iter()
         .filter_map(|path| path.as_ref().to_str())
         .filter_map(|name| match parser.parse(name) {
             Some(info) => Some(FileNameInfo::new(name, info)),
             None => None,
         })
-        .collect()
+        .collect();
+    // do not depend on the order in which the files have been listed
+    infos.sort_by(|a, b| a.file_name.cmp(b.file_name));
+    infos
 }
 
 fn compute_backup_chains(fname_infos: &[FileNameInfo]) -> Vec<BackupChain> {
-- 
2.43.0


From 29add57ed238a006b7b9e751f293f9a58109a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 07/19] fix: never pair a snapshot with the signatures of
 another one

---
 src/collections/file_naming.rs |  4 +--
 src/collections/mod.rs         | 50 ++++++++++++++++++++++++++--------
 src/lib.rs                     | 13 +++++++--
 3 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/collections/file_naming.rs b/src/collections/file_naming.rs
index 5d65aeb..0788800 100644
--- a/src/collections/file_naming.rs
+++ b/src/collections/file_naming.rs
@@ -64,8 +64,8 @@ impl<'a> FileNameInfo<'a> {
         }
     }
 
-    pub fn start_time(&self) -> Timespec {
-        self.info.tp.time_range().0
+    pub fn end_time(&self) -> Timespec {
+        self.info.tp.time_range().1
     }
 }
 
diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 4e7972b..77191c9 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -437,12 +437,24 @@ impl SignatureChain {
     /// Adds the given incremental signature to the signature chain if possible,
     /// returns false otherwise.
     pub fn add_new_sig(&mut self, fname: &FileNameInfo) -> bool {
-        if matches!(fname.info.tp, fnm::Type::NewSig{ .. }) {
-            self.incsigs.push(SignatureFile::from_filename_info(fname));
-            true
-        } else {
-            false
+        if !matches!(fname.info.tp, fnm::Type::NewSig{ .. }) {
+            return false;
+        }
+        let (start_time, end_time) = fname.info.tp.time_range();
+        if self.end_time() != start_time {
+            // replace the last element if it starts from the same point and it comes before
+            let last_start = match self.incsigs.len() {
+                0 => return false,
+                1 => self.start_time(),
+                n => self.incsigs[n - 2].time,
+            };
+            if last_start != start_time || self.end_time() >= end_time {
+                return false;
+            }
+            self.incsigs.pop();
         }
+        self.incsigs.push(SignatureFile::from_filename_info(fname));
+        true
     }
 
     /// The file name of the full signature chain.
@@ -455,6 +467,14 @@ impl SignatureChain {
         self.incsigs.iter()
     }
 
+    /// Returns the time of the signature with the given index, where the first one is the full.
+    pub(crate) fn time_of(&self, index: usize) -> Option<Timespec> {
+        match index {
+            0 => Some(self.start_time()),
+            n => self.incsigs.get(n - 1).map(|inc| inc.time),
+        }
+    }
+
     /// Returns the time of the first signature in the chain.
     pub fn start_time(&self) -> Timespec {
         self.fullsig.time
@@ -527,20 +547,26 @@ impl Collections {
 
     /// Returns the backup chains.
     ///
-    /// Each backup chain should be coupled with a signature chain. They can be matched because
-    /// they are both in chronological order.
+    /// Each backup chain should be coupled with a signature chain. They can be matched by looking
+    /// at their start times, because some signature files could be missing.
     pub fn backup_chains(&self) -> ChainIter<BackupChain> {
         self.backup_chains.iter()
     }
 
     /// Returns the signature chains.
     ///
-    /// Each signature chain should be coupled with a backup chain. They can be matched because
-    /// they are both in chronological order.
+    /// Each signature chain should be coupled with a backup chain. They can be matched by looking
+    /// at their start times, because some signature files could be missing.
     pub fn signature_chains(&self) -> ChainIter<SignatureChain> {
         self.sig_chains.iter()
     }
 
+    /// Returns the signature chain that belongs to the given backup chain, if present.
+    pub(crate) fn signature_chain_of(&self, chain_id: usize) -> Option<&SignatureChain> {
+        let start_time = self.backup_chains.get(chain_id)?.start_time();
+        self.sig_chains.iter().find(|s| s.start_time() == start_time)
+    }
+
     /// Returns the total number of snapshots.
     pub fn num_snapshots(&self) -> usize {
         let mut i = 0;
@@ -624,20 +650,20 @@ fn compute_signature_chains(fname_infos: &[FileNameInfo]) -> Vec<SignatureChain>
         .map(SignatureChain::from_filename_info)
         .collect::<Vec<_>>();
     sig_chains.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
-    // collect inc signatures and sort them by start time
+    // collect inc signatures and sort them by end time
     let inc_sigs = {
         let mut is = fname_infos
             .iter()
             .filter(|f| matches!(f.info.tp, fnm::Type::NewSig{..}))
             .collect::<Vec<_>>();
-        is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
+        is.sort_by(|a, b| a.end_time().cmp(&b.end_time()));
         is
     };
     // add inc signatures to chains
     for inc in inc_sigs {
         let mut added = false;
         for chain in &mut sig_chains {
-            if chain.end_time() == inc.start_time() && chain.add_new_sig(inc) {
+            if chain.add_new_sig(inc) {
                 added = true;
                 break;
             }
diff --git a/src/lib.rs b/src/lib.rs
index 4e14004..0a1ed35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -154,7 +154,7 @@ impl<B: Backend> Backup<B> {
         let files = backend.file_names()?;
         let collections = Collections::from_filenames(files);
         let signatures = collections
-            .signature_chains()
+            .backup_chains()
             .map(|_| RefCell::new(None))
             .collect();
         let manifests = (0..collections.num_snapshots())
@@ -288,7 +288,14 @@ impl<'a> Snapshot<'a> {
     /// provided by the backend and the signatures size.
     pub fn entries(&self) -> io::Result<SnapshotEntries> {
         let sig = self.backup._signature_chain(self.chain_id)?;
-        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
+        let sig_time = self
+            .backup
+            ._collections()
+            .signature_chain_of(self.chain_id)
+            .and_then(|s| s.time_of(self.sig_id));
+        if sig_time == Some(self.set.end_time())
+            && self.sig_id < sig.as_ref().unwrap().snapshots().len()
+        {
             Ok(SnapshotEntries {
                 chain: sig,
                 sig_id: self.sig_id,
@@ -349,7 +356,7 @@ impl<B: Backend> ResourceCache for Backup<B> {
         let cached = self.signatures[chain_id].borrow().is_some();
         if !cached {
             // compute signatures now
-            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+            if let Some(sigchain) = self.collections.signature_chain_of(chain_id) {
                 let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
                 *self.signatures[chain_id].borrow_mut() = Some(new_sig);
             } else {
-- 
2.43.0


From 3b7ea8d4f897067fd61784d2efb35c02af4b5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:18 +0000
Subject: [PATCH 08/19] fix: look up volumes of a path in duplicity's path
 order

---
 src/manifest.rs | 65 +++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..43839e2 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -9,7 +9,7 @@ use std::path::Path;
 use std::str::{self, FromStr, Utf8Error};
 use std::usize;
 
-use crate::rawpath::RawPath;
+use crate::rawpath::{cmp_paths, RawPath};
 
 /// Manifest file info.
 #[derive(Debug, Eq, PartialEq)]
@@ -103,20 +103,16 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
-                Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
-                    Ordering::Less | Ordering::Equal => Ordering::Equal,
-                    Ordering::Greater => Ordering::Less,
-                },
-                Ordering::Equal => match v.start_path.block {
-                    Some(n) if n > 0 => Ordering::Greater,
-                    _ => Ordering::Equal,
-                },
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // volumes are sorted: the first candidate is the first that does not end before the path
+        let idx = self
+            .volumes
+            .partition_point(|v| cmp_archive_paths(v.end_path_bytes(), path) == Ordering::Less);
+        match self.volumes.get(idx) {
+            Some(v) if cmp_archive_paths(v.start_path_bytes(), path) != Ordering::Greater => {
+                Some(idx + 1)
+            }
+            _ => None,
+        }
     }
 
     /// Returns the index of the last volume containing the given path, if present.
@@ -126,23 +122,14 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
-                Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
-                    Ordering::Greater | Ordering::Equal => Ordering::Equal,
-                    Ordering::Less => Ordering::Greater,
-                },
-                Ordering::Equal => {
-                    if v.end_path.block.is_some() {
-                        Ordering::Less
-                    } else {
-                        Ordering::Equal
-                    }
-                }
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // volumes are sorted: the last candidate is the last that does not start after the path
+        let num = self
+            .volumes
+            .partition_point(|v| cmp_archive_paths(v.start_path_bytes(), path) != Ordering::Greater);
+        match self.volume(num) {
+            Some(v) if cmp_archive_paths(v.end_path_bytes(), path) != Ordering::Less => Some(num),
+            _ => None,
+        }
     }
 }
 
@@ -202,6 +189,20 @@ impl Volume {
     }
 }
 
+/// Compares two paths in the order in which duplicity stores them in the volumes.
+///
+/// The backup root comes first; a manifest calls it `.`.
+fn cmp_archive_paths(a: &[u8], b: &[u8]) -> Ordering {
+    fn strip_root(path: &[u8]) -> &[u8] {
+        if path == b"." {
+            b""
+        } else {
+            path
+        }
+    }
+    cmp_paths(strip_root(a), strip_root(b))
+}
+
 impl Error for ParseError {}
 
 impl Display for ParseError {
-- 
2.43.0


From 24180719d6bb77bf68394b5bb1cac951d4252da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 09/19] fix: do not overflow on damaged signature fields

---
 src/signatures.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 9f4d62a..14e66c3 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -619,12 +619,13 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         // read the header
         let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
         let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
-        let sign_block_len_bytes = 4 + ss_len;
+        let sign_block_len_bytes = ss_len.checked_add(4)?;
         // the remaining part of the file are blocks
+        // note that the fields could be damaged, so we can't trust their values
         let file_size = file.header().size().ok()? as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let num_blocks = file_size.checked_sub(12)? / sign_block_len_bytes;
 
-        let max_file_len = file_block_len_bytes * num_blocks;
+        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
         if max_file_len > file_block_len_bytes {
             Some((max_file_len - file_block_len_bytes + 1, max_file_len))
         } else {
-- 
2.43.0


From 9aa43cdc1ede6042be6a3c1c64a94d5c1ebf8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 10/19] fix: report a linked path for symbolic links only

---
 src/signatures.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 14e66c3..3bb2c76 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -452,7 +452,10 @@ impl<'a> Entry<'a> {
     ///
     /// This will return some path only if this entry is a symbolic link.
     pub fn linked_path(&self) -> Option<&'a Path> {
-        self.info.link.as_ref().and_then(|p| p.as_path())
+        match self.entry_type() {
+            EntryType::SymLink => self.info.link.as_ref().and_then(|p| p.as_path()),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 7885d72dda160290678710d45d55aed533816d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:22 +0000
Subject: [PATCH 11/19] fix: report owner names as recorded with each snapshot

---
 src/signatures.rs | 59 ++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 3bb2c76..1921d5f 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -114,16 +114,23 @@ struct PathInfo {
     mtime: Timespec,
     uid: Option<u64>,
     gid: Option<u64>,
+    // positions of the owner names in the user group map
+    uname: Option<usize>,
+    gname: Option<usize>,
     mode: Option<u32>,
     entry_type: u8,
     size_hint: Option<(usize, usize)>,
     link: Option<RawPath>,
 }
 
+// the names of users and groups, stored only once
+//
+// note that a name can't be found by user or group id, because the same id can be recorded with
+// different names, e.g. in different snapshots
 #[derive(Debug)]
 struct UserGroupMap {
-    uid_map: HashMap<u64, String>,
-    gid_map: HashMap<u64, String>,
+    names: Vec<String>,
+    positions: HashMap<String, usize>,
 }
 
 #[derive(Debug)]
@@ -205,12 +212,14 @@ impl Chain {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
                         let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
-                        if let (Ok(uid), Ok(Some(name))) = (header.uid(), header.username()) {
-                            self.ug_map.add_user(uid, name.to_owned());
-                        }
-                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), header.groupname()) {
-                            self.ug_map.add_group(gid, name.to_owned());
-                        }
+                        let uname = match (header.uid(), header.username()) {
+                            (Ok(_), Ok(Some(name))) => Some(self.ug_map.add_name(name)),
+                            _ => None,
+                        };
+                        let gname = match (header.gid(), header.groupname()) {
+                            (Ok(_), Ok(Some(name))) => Some(self.ug_map.add_name(name)),
+                            _ => None,
+                        };
                         let link = tarfile
                             .link_name_bytes()
                             .map(|b| RawPath::from_bytes(b.into_owned()));
@@ -218,6 +227,8 @@ impl Chain {
                             mtime: time,
                             uid: header.uid().ok(),
                             gid: header.gid().ok(),
+                            uname: uname,
+                            gname: gname,
                             mode: header.mode().ok(),
                             size_hint: size_hint,
                             entry_type: tarfile.header().entry_type().as_byte(),
@@ -420,14 +431,12 @@ impl<'a> Entry<'a> {
 
     /// Returns the name of the owner user.
     pub fn username(&self) -> Option<&'a str> {
-        self.info.uid.and_then(|uid| self.ug_map.get_user_name(uid))
+        self.info.uname.and_then(|pos| self.ug_map.get_name(pos))
     }
 
     /// Returns the name of the group.
     pub fn groupname(&self) -> Option<&'a str> {
-        self.info
-            .gid
-            .and_then(|gid| self.ug_map.get_group_name(gid))
+        self.info.gname.and_then(|pos| self.ug_map.get_name(pos))
     }
 
     /// Returns the last modification time.
@@ -514,25 +523,23 @@ impl Display for EntryType {
 impl UserGroupMap {
     pub fn new() -> Self {
         UserGroupMap {
-            uid_map: HashMap::new(),
-            gid_map: HashMap::new(),
+            names: Vec::new(),
+            positions: HashMap::new(),
         }
     }
 
-    pub fn add_user(&mut self, uid: u64, name: String) -> bool {
-        self.uid_map.insert(uid, name).is_none()
-    }
-
-    pub fn add_group(&mut self, gid: u64, name: String) -> bool {
-        self.gid_map.insert(gid, name).is_none()
-    }
-
-    pub fn get_user_name(&self, uid: u64) -> Option<&str> {
-        self.uid_map.get(&uid).map(AsRef::as_ref)
+    pub fn add_name(&mut self, name: &str) -> usize {
+        if let Some(&pos) = self.positions.get(name) {
+            return pos;
+        }
+        let pos = self.names.len();
+        self.names.push(name.to_owned());
+        self.positions.insert(name.to_owned(), pos);
+        pos
     }
 
-    pub fn get_group_name(&self, gid: u64) -> Option<&str> {
-        self.gid_map.get(&gid).map(AsRef::as_ref)
+    pub fn get_name(&self, pos: usize) -> Option<&str> {
+        self.names.get(pos).map(AsRef::as_ref)
     }
 }
 
-- 
2.43.0


From ea36841fed961cc37ee16356c54478de9d1a9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 12/19] fix: do not panic when displaying extreme timestamps

---
 src/timefmt.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..d31cba6 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -53,11 +53,23 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(self))
+        PrettyDisplay(time::at(to_displayable(self)))
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(self))
+        PrettyDisplay(time::at_utc(to_displayable(self)))
+    }
+}
+
+/// Returns the instant nearest to the given one that can be broken down into calendar fields.
+///
+/// Breaking down an instant panics when its year does not fit in 32 bits.
+fn to_displayable(t: Timespec) -> Timespec {
+    // more than two billion years
+    const MAX_SEC: i64 = 67_767_000_000_000_000;
+    Timespec {
+        sec: t.sec.max(-MAX_SEC).min(MAX_SEC),
+        ..t
     }
 }
 
-- 
2.43.0


From 8a0a9105ad1e487234913ef7084a08cece37c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 13/19] fix: read times and owner names from PAX records

---
 src/signatures.rs | 55 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 1921d5f..ec6524e 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -133,6 +133,15 @@ struct UserGroupMap {
     positions: HashMap<String, usize>,
 }
 
+// the values that the header of an archive member can't represent, e.g. a time before 1970 or a
+// user name that is not ASCII, are written in PAX records by the tar library of Python 3
+#[derive(Debug, Default)]
+struct PaxFields {
+    mtime: Option<i64>,
+    uname: Option<String>,
+    gname: Option<String>,
+}
+
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
 
@@ -206,18 +215,28 @@ impl Chain {
                 // better than abort the whole signature
                 let mut tarfile = unwrap_or_continue!(tarfile);
                 let size_hint = compute_size_hint(&mut tarfile);
+                let pax = PaxFields::new(&mut tarfile);
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
                 let info = match difftype {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
-                        let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
-                        let uname = match (header.uid(), header.username()) {
-                            (Ok(_), Ok(Some(name))) => Some(self.ug_map.add_name(name)),
+                        let mtime = pax.mtime.unwrap_or(header.mtime().unwrap_or(0) as i64);
+                        let time = Timespec::new(mtime, 0);
+                        let username = pax.uname.as_ref().map_or_else(
+                            || header.username().unwrap_or(None),
+                            |name| Some(name.as_str()),
+                        );
+                        let groupname = pax.gname.as_ref().map_or_else(
+                            || header.groupname().unwrap_or(None),
+                            |name| Some(name.as_str()),
+                        );
+                        let uname = match (header.uid(), username) {
+                            (Ok(_), Some(name)) => Some(self.ug_map.add_name(name)),
                             _ => None,
                         };
-                        let gname = match (header.gid(), header.groupname()) {
-                            (Ok(_), Ok(Some(name))) => Some(self.ug_map.add_name(name)),
+                        let gname = match (header.gid(), groupname) {
+                            (Ok(_), Some(name)) => Some(self.ug_map.add_name(name)),
                             _ => None,
                         };
                         let link = tarfile
@@ -520,6 +539,32 @@ impl Display for EntryType {
     }
 }
 
+impl PaxFields {
+    fn new<R: Read>(file: &mut tar::Entry<R>) -> Self {
+        let mut fields = PaxFields::default();
+        let tp = file.header().entry_type();
+        if tp.is_pax_global_extensions() || tp.is_pax_local_extensions() {
+            // this is not a member with records, but the records
+            return fields;
+        }
+        if let Ok(Some(records)) = file.pax_extensions() {
+            for record in records {
+                // as for paths, we can ignore records with errors
+                let record = unwrap_or_continue!(record);
+                let value = unwrap_or_continue!(record.value());
+                match record.key() {
+                    // fractions of second are ignored, like in the header
+                    Ok("mtime") => fields.mtime = value.split('.').next().and_then(|v| v.parse().ok()),
+                    Ok("uname") => fields.uname = Some(value.to_owned()),
+                    Ok("gname") => fields.gname = Some(value.to_owned()),
+                    _ => (),
+                }
+            }
+        }
+        fields
+    }
+}
+
 impl UserGroupMap {
     pub fn new() -> Self {
         UserGroupMap {
-- 
2.43.0


From 84e8a429218caf7d149d1689d0955a044915e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 14/19] fix: compare the year with the current one in the same
 time zone

---
 src/timefmt.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index d31cba6..81a98f1 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -37,7 +37,8 @@ pub trait TimeDisplay {
 /// Suppose to have the timestamp `2012-02-22T14:53:18Z`. If we are in 2012, the display will be
 /// `Feb 22 14:53`; if we are in 2015, the display will be `Feb 22  2012`.
 #[derive(Copy, Clone, Debug)]
-pub struct PrettyDisplay(Tm);
+// the second field gives the current time in the same time zone as the first
+pub struct PrettyDisplay(Tm, fn() -> Tm);
 
 /// Parse a string representing a duplicity timestamp and returns a `Timespec` if all goes well.
 ///
@@ -53,11 +54,11 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(to_displayable(self)))
+        PrettyDisplay(time::at(to_displayable(self)), time::now)
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(to_displayable(self)))
+        PrettyDisplay(time::at_utc(to_displayable(self)), time::now_utc)
     }
 }
 
@@ -75,7 +76,7 @@ fn to_displayable(t: Timespec) -> Timespec {
 
 impl Display for PrettyDisplay {
     fn fmt(&self, f: &mut Formatter) -> Result {
-        if time::now_utc().tm_year == self.0.tm_year {
+        if (self.1)().tm_year == self.0.tm_year {
             // the year is the current, so print month, day, hour
             write!(f, "{}", time::strftime("%b %d %R", &self.0).unwrap())
         } else {
-- 
2.43.0


From 1dda13a27abf487b76db311b23c8b3aef61c6a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 15/19] fix: report the failure to read a local directory

---
 src/backend/local.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/backend/local.rs b/src/backend/local.rs
index c4d1c1d..4f09fcf 100644
--- a/src/backend/local.rs
+++ b/src/backend/local.rs
@@ -28,6 +28,7 @@ use std::ffi::OsString;
 use std::fs::{self, File};
 use std::io;
 use std::path::{Path, PathBuf};
+use std::vec;
 
 /// Backend for some directory in the local file system.
 #[derive(Debug)]
@@ -36,7 +37,7 @@ pub struct LocalBackend {
 }
 
 /// Iterator over a set of file names.
-pub struct FileNameIterator(fs::ReadDir);
+pub struct FileNameIterator(vec::IntoIter<OsString>);
 
 impl LocalBackend {
     /// Creates a new local backend for the given directory.
@@ -53,8 +54,11 @@ impl Backend for LocalBackend {
     type FileStream = File;
 
     fn file_names(&self) -> io::Result<Self::FileNameIter> {
-        let dir = fs::read_dir(self.base_path.as_path())?;
-        Ok(FileNameIterator(dir))
+        // read the whole directory now, because the iterator cannot report a failure
+        let names = fs::read_dir(self.base_path.as_path())?
+            .map(|entry| entry.map(|entry| entry.file_name()))
+            .collect::<io::Result<Vec<_>>>()?;
+        Ok(FileNameIterator(names.into_iter()))
     }
 
     fn open_file(&self, name: &Path) -> io::Result<File> {
@@ -68,12 +72,7 @@ impl Iterator for FileNameIterator {
     type Item = OsString;
 
     fn next(&mut self) -> Option<OsString> {
-        for entry in &mut self.0 {
-            if let Ok(entry) = entry {
-                return Some(entry.file_name());
-            }
-        }
-        None
+        self.0.next()
     }
 }
 
-- 
2.43.0


From 2d42aa3c16a45d9b8f005c22ceaa883967f3af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 16/19] fix: show control characters in the file list as
 question marks

---
 src/signatures.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index ec6524e..9523e5c 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -494,18 +494,27 @@ impl<'a> Display for Entry<'a> {
             "{}{}\t{}\t{}\t{}\t{}\t{}",
             self.entry_type(),
             ModeDisplay(self.mode()),
-            self.username().unwrap_or("?"),
-            self.groupname().unwrap_or("?"),
+            printable(self.username().unwrap_or("?")),
+            printable(self.groupname().unwrap_or("?")),
             self.size_hint()
                 .map_or("?".to_owned(), |hint| format!("{}", hint.1)),
             self.mtime().into_local_display(),
             // handle special case for the root:
             // the path is empty, return "." instead
-            self.path
+            printable(&self.path.to_string())
         )
     }
 }
 
+/// Replaces control characters with `?`, like ls does.
+///
+/// A tab or a new line would break the columns and the lines of the list.
+fn printable(text: &str) -> String {
+    text.chars()
+        .map(|c| if c.is_control() { '?' } else { c })
+        .collect()
+}
+
 impl EntryType {
     /// Creates a new entry type from a raw byte.
     ///
-- 
2.43.0


From 5fd47237fabe90b75fe2cc7942d092a0844dd8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 17/19] fix: read every member of a gzip compressed signature
 file

A gzip file can be made of several members, one after the other, and
decompresses to all of them. Only the first was read, so the snapshot was
silently shown without the files recorded in the others.
---
 src/signatures.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 9523e5c..75a5773 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -11,7 +11,7 @@ use std::iter::Iterator;
 use std::path::Path;
 use std::slice;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use tar;
 use time::Timespec;
 
@@ -186,7 +186,8 @@ impl Chain {
         let result = {
             let snapshot_id = self.num_snapshots;
             if sigfile.compressed {
-                let gz_decoder = GzDecoder::new(file);
+                // a gzip file can be made of several members, one after the other
+                let gz_decoder = MultiGzDecoder::new(file);
                 self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
             } else {
                 self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)
-- 
2.43.0


From 90c50ab97e11fa3e59113f1a7fe7b0934b2e2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 18/19] fix: try an interrupted read of a signature file again

A read that ends with ErrorKind::Interrupted is to be tried again. The
archive reader takes it for the end of the archive, so the snapshot was
silently shown without the files recorded after that place.
---
 src/signatures.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index 75a5773..809b382 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -142,6 +142,9 @@ struct PaxFields {
     gname: Option<String>,
 }
 
+// an interrupted read has to be tried again, but the readers of archives take it for a failure
+struct RetryInterrupted<R>(R);
+
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
 
@@ -185,6 +188,7 @@ impl Chain {
     fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {
         let result = {
             let snapshot_id = self.num_snapshots;
+            let file = RetryInterrupted(file);
             if sigfile.compressed {
                 // a gzip file can be made of several members, one after the other
                 let gz_decoder = MultiGzDecoder::new(file);
@@ -575,6 +579,17 @@ impl PaxFields {
     }
 }
 
+impl<R: Read> Read for RetryInterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => (),
+                result => return result,
+            }
+        }
+    }
+}
+
 impl UserGroupMap {
     pub fn new() -> Self {
         UserGroupMap {
-- 
2.43.0


From 3856d5448a94f39907ecb19aa7807464c0a6ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 19/19] fix: an empty line in a manifest hid the volumes that
 follow it

---
 src/manifest.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 43839e2..86a9967 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -280,9 +280,15 @@ impl<R: BufRead> ManifestParser<R> {
     }
 
     fn read_volume(&mut self) -> Result<Option<(Volume, usize)>, ParseError> {
-        if !self.read_line()? {
-            // EOF
-            return Ok(None);
+        loop {
+            if !self.read_line()? {
+                // EOF
+                return Ok(None);
+            }
+            // an empty line is not the end: other volumes could follow
+            if !self.buf.is_empty() {
+                break;
+            }
         }
 
         // volume number
@@ -310,6 +316,10 @@ impl<R: BufRead> ManifestParser<R> {
     fn read_line(&mut self) -> io::Result<bool> {
         self.buf.clear();
         let mut len = self.input.read_until(b'\n', &mut self.buf)?;
+        if len == 0 {
+            // EOF
+            return Ok(false);
+        }
         if len > 0 && self.buf[len - 1] == b'\n' {
             len -= 1;
         }
@@ -318,7 +328,7 @@ impl<R: BufRead> ManifestParser<R> {
         }
         self.buf.truncate(len);
 
-        Ok(!self.buf.is_empty())
+        Ok(true)
     }
 
     fn read_param_bytes(&mut self, key: &str) -> Result<Vec<u8>, ParseError> {
-- 
2.43.0


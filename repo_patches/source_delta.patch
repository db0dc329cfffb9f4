From 6a079573aaba85e3d3323f0c907e97f510f17573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 01/24] fix: resolve a full key to itself, and report a missing
 one as not found

canonicalize looked the key up and then parsed the stored *value* as a key,
and unwrapped the lookup, so every full key either failed to parse or panicked.
---
 src/ds/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..c15cf8a 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -256,8 +256,9 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key).unwrap() {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
-- 
2.43.0


From 3e135d399beac67caa4d9e0af1d0bda20c17b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 02/24] fix: do not drop the topmost tree level when finishing
 put_data

The end of put_data ignored key_bufs[4], so a file with a chunk boundary that
promotes to the top level lost all data before that boundary.
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..38c5135 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if (0..5).all(|x| key_bufs[x].is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 2102d5296c034d6ec66bdce1cad785bcc150e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 03/24] fix: reject key text that is longer than a key or has
 padding bits set

---
 src/keyish.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keyish.rs b/src/keyish.rs
index fbe8f95..a5a23bf 100644
--- a/src/keyish.rs
+++ b/src/keyish.rs
@@ -88,6 +88,12 @@ impl std::str::FromStr for Keyish {
 
             if input.len() == max_len {
                 let mut v = input.into_vec();
+
+                // Text after the key, or padding bits that are set, are not part of any key.
+                if !crate::base32::to_base32(&v).eq_ignore_ascii_case(bytes) {
+                    return Err(KeyishParseError::Invalid(s.to_string()));
+                }
+
                 v.insert(0_usize, 1_u8);
                 return Ok(Keyish::Key(s.to_string(), v));
             }
-- 
2.43.0


From f039a5ccad0507041e175c436768a3b8ca70c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 04/24] fix: reject objects that are not commits when reading a
 commit

---
 src/commit.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/commit.rs b/src/commit.rs
index a7c50e8..9468622 100644
--- a/src/commit.rs
+++ b/src/commit.rs
@@ -83,6 +83,17 @@ impl TryInto<Commit> for Object {
     type Error = serde_cbor::error::Error;
 
     fn try_into(self) -> Result<Commit, serde_cbor::error::Error> {
+        use serde::de::Error;
+
+        match self.objtype() {
+            ObjType::Commit => {}
+            _ => return Err(serde_cbor::error::Error::custom("object is not a commit")),
+        }
+
+        if self.keys().is_empty() {
+            return Err(serde_cbor::error::Error::custom("commit has no tree"));
+        }
+
         let item: serde_cbor::Value = serde_cbor::from_slice(&self.data())?;
 
         let attrs: CommitAttrs = serde_cbor::value::from_value(item)?;
-- 
2.43.0


From fd57793f00c71aab613ffbdb84a73282a5b44c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 05/24] fix: fetching a directory recreates empty directories

---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..18a3304 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -240,6 +240,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 27f745666eb3e414e5711966807ec9313a98c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 06/24] fix: comparing no longer aborts when something was
 deleted

---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..a3eba78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -120,7 +120,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From 1363dc328739f6f297f61b47fce3f44897d42ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:04 +0000
Subject: [PATCH 07/24] fix: comparing hashes added files where they are, and
 reports errors instead of aborting

---
 src/diff.rs | 55 +++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a3eba78..2000989 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -88,32 +88,37 @@ pub fn compare<'a>(
 
     let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
 
-    let mut in_from_only: Vec<AddedDiffResult> = from_keys
-        .difference(&to_keys)
-        .map(|x| AddedDiffResult {
+    let mut in_from_only: Vec<AddedDiffResult> = Vec::new();
+
+    for x in from_keys.difference(&to_keys) {
+        let (new_key, is_dir) = match &from_map {
+            either::Left(fs_items) => {
+                if !fs_items[x] {
+                    // this is a file
+                    let hash = dir::hash_fs_item(
+                        ds,
+                        &from_path
+                            .as_ref()
+                            .expect("should have been populated")
+                            .join(x),
+                        *cache.expect("you must pass a cache if you're hashing the fs"),
+                    )?;
+
+                    (Some(hash.into()), false)
+                } else {
+                    // directories don't have a hash
+                    (None, true)
+                }
+            }
+            either::Right(db_items) => (Some(db_items[x].0), db_items[x].1),
+        };
+
+        in_from_only.push(AddedDiffResult {
             path: x.clone(),
-            new_key: from_map.as_ref().either(
-                |y| {
-                    if !y[x] {
-                        // this is a file
-                        match dir::hash_fs_item(
-                            ds,
-                            x,
-                            *cache.expect("you must pass a cache if you're hashing the fs"),
-                        ) {
-                            Ok(h) => Some(h.into()),
-                            Err(e) => panic!(e),
-                        }
-                    } else {
-                        // directories don't have a hash
-                        None
-                    }
-                },
-                |y| Some(y[x].0),
-            ),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
-        })
-        .collect();
+            new_key,
+            is_dir,
+        });
+    }
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-- 
2.43.0


From bdd3b8bf993d3675766658dba3196bae46dd595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 08/24] fix: comparing treats a file and a directory at one
 path as different items

---
 src/diff.rs | 59 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 2000989..a77957b 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -81,19 +81,35 @@ pub fn compare<'a>(
         None => HashMap::new(),
     };
 
-    let from_keys: HashSet<PathBuf> = from_map.clone().either(
-        |x| x.keys().cloned().collect(),
-        |x| x.keys().cloned().collect(),
-    );
+    // A path is compared together with its kind: a file that became a directory (or the other way
+    // around) is a deletion and an addition, and not a modification.
+    let mut from_keys: HashSet<(PathBuf, bool)> = HashSet::new();
+
+    match &from_map {
+        either::Left(fs_items) => {
+            for (path, is_dir) in fs_items {
+                from_keys.insert((path.clone(), *is_dir));
+            }
+        }
+        either::Right(db_items) => {
+            for (path, item) in db_items {
+                from_keys.insert((path.clone(), item.1));
+            }
+        }
+    }
+
+    let mut to_keys: HashSet<(PathBuf, bool)> = HashSet::new();
 
-    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
+    for (path, item) in &to_map {
+        to_keys.insert((path.clone(), item.1));
+    }
 
     let mut in_from_only: Vec<AddedDiffResult> = Vec::new();
 
-    for x in from_keys.difference(&to_keys) {
-        let (new_key, is_dir) = match &from_map {
-            either::Left(fs_items) => {
-                if !fs_items[x] {
+    for (x, is_dir) in from_keys.difference(&to_keys) {
+        let new_key = match &from_map {
+            either::Left(_) => {
+                if !is_dir {
                     // this is a file
                     let hash = dir::hash_fs_item(
                         ds,
@@ -104,28 +120,28 @@ pub fn compare<'a>(
                         *cache.expect("you must pass a cache if you're hashing the fs"),
                     )?;
 
-                    (Some(hash.into()), false)
+                    Some(hash.into())
                 } else {
                     // directories don't have a hash
-                    (None, true)
+                    None
                 }
             }
-            either::Right(db_items) => (Some(db_items[x].0), db_items[x].1),
+            either::Right(db_items) => Some(db_items[x].0),
         };
 
         in_from_only.push(AddedDiffResult {
             path: x.clone(),
             new_key,
-            is_dir,
+            is_dir: *is_dir,
         });
     }
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-        .map(|x| DeletedDiffResult {
+        .map(|(x, is_dir)| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: to_map[x].1,
+            is_dir: *is_dir,
         })
         .collect();
 
@@ -133,14 +149,15 @@ pub fn compare<'a>(
 
     let mut modified = Vec::new();
 
-    for path in in_both {
+    for (path, is_dir) in in_both {
+        // Directories can't be modified, only what is in them.
+        if *is_dir {
+            continue;
+        }
+
         let f;
         match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
+            either::Left(_) => {
                 f = dir::hash_fs_item(
                     ds,
                     &from_path
-- 
2.43.0


From 931a0fe3e5598222b558897185de0e093aba4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 09/24] fix: use a cached key only when the repository has the
 object

---
 src/dir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 18a3304..da0cb97 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -153,6 +153,9 @@ pub enum HashFsItemError {
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
+    #[error("raw exists error: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("error when encoding object: {_0}")]
     EncodeError(#[from] serde_cbor::error::Error),
 
@@ -180,7 +183,10 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         };
 
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            // The cache is shared between repositories, this one might not have the object.
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
-- 
2.43.0


From 59166b236271041c3d3ac9996e0816bca5667abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:30 +0000
Subject: [PATCH 10/24] fix: notice a file that changes twice in a second

---
 src/dir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index da0cb97..9ec8bfe 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -177,7 +177,11 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
-            mtime: ext_metadata.mtime(),
+            // In nanoseconds: a file can change twice in a second.
+            mtime: ext_metadata
+                .mtime()
+                .wrapping_mul(1_000_000_000)
+                .wrapping_add(ext_metadata.mtime_nsec()),
             inode: ext_metadata.ino(),
             size: ext_metadata.size(),
         };
-- 
2.43.0


From 30345859e46113fff0c57dcb72017f735b57516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 11/24] fix: report when a transaction can not be begun,
 committed or rolled back

---
 src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..6aff11f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -767,7 +767,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -790,10 +792,14 @@ fn main() -> CMDResult {
 
         println!("fatal: {}", e);
 
-        state.ds_state.as_mut().map(|x| x.ds.rollback());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.rollback()?;
+        }
         state.cache.rollback()?;
     } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.commit()?;
+        }
         state.cache.commit()?;
     }
 
-- 
2.43.0


From 42bca4f84190bff188ddf5a12c5fdf42a27e2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 12/24] fix: reject objects that are not well-formed
 directories or files

---
 src/dir.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 9ec8bfe..dcac8f7 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -28,6 +28,11 @@ enum FSItemType {
     File,
 }
 
+/// Whether an entry of a directory can have this name
+fn is_entry_name(name: &Path) -> bool {
+    name.file_name() == Some(name.as_os_str())
+}
+
 impl TryInto<Object> for FSItem {
     type Error = serde_cbor::error::Error;
 
@@ -53,12 +58,34 @@ impl TryInto<FSItem> for Object {
     type Error = serde_cbor::error::Error;
 
     fn try_into(self) -> Result<FSItem, serde_cbor::error::Error> {
+        use serde::de::Error;
+
         let item: serde_cbor::Value = serde_cbor::from_slice(&self.data())?;
 
         let mut fsitem: FSItem = serde_cbor::value::from_value(item)?;
 
         fsitem.children = self.keys().iter().map(|&x| x.into()).collect();
 
+        let well_formed = match fsitem.itemtype {
+            FSItemType::Dir => {
+                let unique: HashSet<&PathBuf> = fsitem.children_names.iter().collect();
+
+                matches!(self.objtype(), ObjType::FSItemDir)
+                    && fsitem.children.len() == fsitem.children_names.len()
+                    && unique.len() == fsitem.children_names.len()
+                    && fsitem.children_names.iter().all(|x| is_entry_name(x))
+            }
+            FSItemType::File => {
+                matches!(self.objtype(), ObjType::FSItemFile) && fsitem.children.len() == 1
+            }
+        };
+
+        if !well_formed {
+            return Err(serde_cbor::error::Error::custom(
+                "object is not a directory or a file",
+            ));
+        }
+
         Ok(fsitem)
     }
 }
-- 
2.43.0


From a6f5fa10db1306edbd28ab170ed5a42140249aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:55 +0000
Subject: [PATCH 13/24] fix: commit the cache before the repository

A cache that could not be committed made a command fail after its
changes to the repository had already been committed.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6aff11f..bca8e2f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -797,10 +797,11 @@ fn main() -> CMDResult {
         }
         state.cache.rollback()?;
     } else {
+        // The repository comes last: once it is committed, nothing else can fail.
+        state.cache.commit()?;
         if let Some(x) = state.ds_state.as_mut() {
             x.ds.commit()?;
         }
-        state.cache.commit()?;
     }
 
     Ok(())
-- 
2.43.0


From 7667f984292f3ffac57c21ae159c4ca4ee621273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:55 +0000
Subject: [PATCH 14/24] fix: checkout-head: an unreadable ref is an error, not
 an empty one

Any failure to read the ref of HEAD was taken for a ref without commits,
so that an empty directory counted as clean.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bca8e2f..14c0753 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -652,7 +652,11 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());
 
-- 
2.43.0


From 8bab79514df603b70290a3406087ed12e11a1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:55 +0000
Subject: [PATCH 15/24] fix: init keeps the HEAD of an existing repository

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14c0753..20c48ba 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,10 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    // Initialising again leaves an existing repository as it is.
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 9c1b80bfa982aa0285d791be4663ab15dd25a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:53 +0000
Subject: [PATCH 16/24] fix: status: an unreadable ref is an error, not one
 without commits

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 20c48ba..369ea82 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -600,7 +600,11 @@ fn status(state: &mut State, _args: StatusArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     match &ref_key {
         Some(k) => {
-- 
2.43.0


From a7ee512660855cc7f84bc410f3959cbd26cfe57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:09 +0000
Subject: [PATCH 17/24] fix: put_data: the key of a stream does not depend on
 how the reader splits it

---
 src/file.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 38c5135..be320f5 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -17,6 +17,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     let mut key_bufs: [Vec<Key>; 5] = Default::default();
 
     let mut read_buffer = [0u8; 1 << 16usize];
+    let mut filled = 0;
     let mut chunk_buffer: Vec<u8> = Vec::new();
     let mut current_chunk = Vec::new();
 
@@ -69,12 +70,19 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
+            // Where the cuts fall depends on what is looked at together. Always look at a whole buffer,
+            // so that they do not depend on how the reader splits its data.
+            match data.read(&mut read_buffer[filled..]) {
                 Ok(len) => {
-                    if len == 0 {
-                        break;
+                    filled += len;
+
+                    if len == 0 || filled == read_buffer.len() {
+                        if filled == 0 {
+                            break;
+                        }
+                        chunk_buffer.extend_from_slice(&read_buffer[0..filled]);
+                        filled = 0;
                     }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
                 }
                 Err(e) if e.kind() == ErrorKind::Interrupted => {}
                 Err(e) => {
-- 
2.43.0


From 9f2acbf52fdeeb0e22e24f516c1b127788746faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:43 +0000
Subject: [PATCH 18/24] fix: put_fs_item: the key of a directory does not
 depend on the order the file system lists it in

---
 src/dir.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index dcac8f7..18f1a52 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -116,17 +116,15 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
 
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order in which the file system lists the entries must not decide the key.
+        entries.sort_by_key(|direntry| direntry.file_name());
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From d6926164305567b90f734becb1be54d0af6c378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:03 +0000
Subject: [PATCH 19/24] fix: a command that fails ends with a non-zero status

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 369ea82..cb408c4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -807,6 +807,8 @@ fn main() -> CMDResult {
             x.ds.rollback()?;
         }
         state.cache.rollback()?;
+
+        std::process::exit(1);
     } else {
         // The repository comes last: once it is committed, nothing else can fail.
         state.cache.commit()?;
-- 
2.43.0


From e1840ac0f2e4d7a26d5e92cf563c6c2edfb3441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:34 +0000
Subject: [PATCH 20/24] fix: checkout-head: a refused switch is reported as a
 failure

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cb408c4..22ca14b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -240,6 +240,10 @@ struct DatabaseNotFoundError;
 )]
 struct NoHeadError;
 
+#[derive(Debug, Error)]
+#[error("Cannot checkout: working directory is not clean")]
+struct NotCleanError;
+
 fn insert(state: &mut State, args: InsertArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -679,10 +683,8 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
     )?;
 
     if !diff::diff_result_empty(&result) {
-        println!("Cannot checkout: working directory is not clean");
-
         diff::print_diff_result(result);
-        return Ok(());
+        return Err(NotCleanError.into());
     }
 
     ds_state.ds.put_head(&args.refname)?;
-- 
2.43.0


From cc093a8cf859fda2047caf08bb62dbf17e5b505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:01 +0000
Subject: [PATCH 21/24] fix: show: the ranges of a hunk give its lines

---
 src/diff.rs | 55 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a77957b..fb453fb 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -376,6 +376,14 @@ pub fn format_patch(p: &patch::Patch<'_>) -> String {
 const BEFORE_CONTEXT_LINES: usize = 3;
 const AFTER_CONTEXT_LINES: usize = 5;
 
+/// The range of `count` lines from line `start` on. An empty one is named after the line before it.
+fn patch_range(start: u64, count: u64) -> patch::Range {
+    patch::Range {
+        start: if count == 0 { start - 1 } else { start },
+        count,
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum DiffPatchError {
     #[error("tried to make patch with non-UTF8 files")]
@@ -418,11 +426,8 @@ pub fn create_diff_patch_result(
                     }
 
                     hunks.push(patch::Hunk {
-                        old_range: patch::Range { start: 0, count: 0 },
-                        new_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        old_range: patch_range(1, 0),
+                        new_range: patch_range(1, lines.len() as u64),
                         lines,
                     });
                 }
@@ -471,11 +476,8 @@ pub fn create_diff_patch_result(
                     }
 
                     hunks.push(patch::Hunk {
-                        new_range: patch::Range { start: 0, count: 0 },
-                        old_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        new_range: patch_range(1, 0),
+                        old_range: patch_range(1, lines.len() as u64),
                         lines,
                     });
                 }
@@ -595,33 +597,34 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
         assert!(!collected.is_empty());
 
         let (start_before, start_after, _) = collected.first().unwrap();
-        let (end_before, end_after, _) = collected.last().unwrap();
-
-        let before_range = patch::Range {
-            start: *start_before,
-            count: *end_before - *start_before,
-        };
-
-        let after_range = patch::Range {
-            start: *start_after,
-            count: *end_after - *start_after,
-        };
 
+        let mut count_before = 0;
+        let mut count_after = 0;
         let mut lines = Vec::new();
 
         for item in collected.iter().map(|x| &x.2) {
             let patch_item = match item {
-                difference::Difference::Same(x) => patch::Line::Context(&x),
-                difference::Difference::Add(x) => patch::Line::Add(&x),
-                difference::Difference::Rem(x) => patch::Line::Remove(&x),
+                difference::Difference::Same(x) => {
+                    count_before += 1;
+                    count_after += 1;
+                    patch::Line::Context(&x)
+                }
+                difference::Difference::Add(x) => {
+                    count_after += 1;
+                    patch::Line::Add(&x)
+                }
+                difference::Difference::Rem(x) => {
+                    count_before += 1;
+                    patch::Line::Remove(&x)
+                }
             };
 
             lines.push(patch_item);
         }
 
         let hunk = patch::Hunk {
-            old_range: before_range,
-            new_range: after_range,
+            old_range: patch_range(*start_before, count_before),
+            new_range: patch_range(*start_after, count_after),
             lines,
         };
 
-- 
2.43.0


From 36130688d304eb523d1b058135f99202eed089cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:38 +0000
Subject: [PATCH 22/24] fix: show: the patch of a file keeps the ends of its
 lines

---
 src/diff.rs | 92 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index fb453fb..7d4af42 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -384,6 +384,16 @@ fn patch_range(start: u64, count: u64) -> patch::Range {
     }
 }
 
+/// The lines of a text as a patch shows them: one that no newline ends is marked as such.
+fn patch_lines(text: &str) -> Vec<String> {
+    text.split_inclusive('\n')
+        .map(|line| match line.strip_suffix('\n') {
+            Some(x) => x.to_string(),
+            None => format!("{}\n\\ No newline at end of file", line),
+        })
+        .collect()
+}
+
 #[derive(Debug, Error)]
 pub enum DiffPatchError {
     #[error("tried to make patch with non-UTF8 files")]
@@ -416,12 +426,14 @@ pub fn create_diff_patch_result(
             file::read_data(ds, k.into(), &mut data).unwrap();
 
             let data = std::str::from_utf8(&data);
+            let text_lines;
 
             match data {
                 Ok(s) => {
+                    text_lines = patch_lines(s);
                     let mut lines = Vec::new();
 
-                    for line in s.lines() {
+                    for line in &text_lines {
                         lines.push(patch::Line::Add(line));
                     }
 
@@ -466,12 +478,14 @@ pub fn create_diff_patch_result(
             file::read_data(ds, k.into(), &mut data).unwrap();
 
             let data = std::str::from_utf8(&data);
+            let text_lines;
 
             match data {
                 Ok(s) => {
+                    text_lines = patch_lines(s);
                     let mut lines = Vec::new();
 
-                    for line in s.lines() {
+                    for line in &text_lines {
                         lines.push(patch::Line::Remove(line));
                     }
 
@@ -522,53 +536,43 @@ pub fn create_diff_patch_result(
 }
 
 fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf) -> String {
-    let lines = difference::Changeset::new(&before_str, &after_str, "\n");
+    let before_lines = patch_lines(&before_str);
+    let after_lines = patch_lines(&after_str);
 
     let mut before_lineno = 1;
     let mut after_lineno = 1;
 
-    let lines_ln: Vec<_> = lines
-        .diffs
-        .into_iter()
-        .map(|x| {
-            let mut result = Vec::new();
-            match x {
-                difference::Difference::Add(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Add(line.to_string()),
-                        ));
-                        after_lineno += 1;
-                    }
-                }
-                difference::Difference::Same(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Same(line.to_string()),
-                        ));
-                        before_lineno += 1;
-                        after_lineno += 1;
-                    }
-                }
-                difference::Difference::Rem(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Rem(line.to_string()),
-                        ));
-                        before_lineno += 1;
-                    }
-                }
+    let mut lines_ln = Vec::new();
+
+    for item in diff::slice(&before_lines, &after_lines) {
+        match item {
+            diff::Result::Left(line) => {
+                lines_ln.push((
+                    before_lineno,
+                    after_lineno,
+                    difference::Difference::Rem(line.to_string()),
+                ));
+                before_lineno += 1;
             }
-            result
-        })
-        .flatten()
-        .collect();
+            diff::Result::Right(line) => {
+                lines_ln.push((
+                    before_lineno,
+                    after_lineno,
+                    difference::Difference::Add(line.to_string()),
+                ));
+                after_lineno += 1;
+            }
+            diff::Result::Both(line, _) => {
+                lines_ln.push((
+                    before_lineno,
+                    after_lineno,
+                    difference::Difference::Same(line.to_string()),
+                ));
+                before_lineno += 1;
+                after_lineno += 1;
+            }
+        }
+    }
 
     let mut windows_vec = Vec::new();
     for (idx, item) in lines_ln.iter().enumerate() {
-- 
2.43.0


From d74d6730d5bff55de44cb0523822083437b3184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:32 +0000
Subject: [PATCH 23/24] fix: checkout refuses to change a folder before it
 empties a file there

---
 src/dir.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 18f1a52..f95dc49 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -322,6 +322,9 @@ pub fn checkout_fs_item<DS: DataStore>(
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
+    // Before anything is changed: creating a file empties the one that is there.
+    assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+
     let obj = ds.get_obj(key.into())?;
 
     let fsobj: FSItem = obj.try_into()?;
@@ -343,7 +346,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                 let p = path.join(item);
                 let ft = std::fs::metadata(&p)?.file_type();
 
@@ -365,8 +367,6 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::File => {
             let mut f = std::fs::File::create(path)?;
 
-            assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From f1ab175c863f9a2d5ed96c5db3d69399934ec459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:32 +0000
Subject: [PATCH 24/24] fix: checkout makes a stored folder that is not there
 before it lists it

---
 src/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index f95dc49..e9cca8a 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -335,6 +335,8 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             let mut fs_items = HashSet::new();
 
+            std::fs::create_dir_all(&path)?;
+
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
 
@@ -359,8 +361,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                std::fs::create_dir_all(&path)?;
-
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
-- 
2.43.0


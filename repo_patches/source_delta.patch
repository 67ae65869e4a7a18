From 6815421672b46ccf102fc175d38bb17c4888c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:21 +0000
Subject: [PATCH 01/25] fix: resolve a full key to the key itself, and report
 lookup errors

canonicalize() looked a full key's *value* up and then parsed that value as a
key, so every command given a complete key failed (or panicked when the object
was missing).
---
 src/ds/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..cc3bd16 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -31,6 +31,12 @@ pub enum CanonicalizeError {
 
     #[error("error when getting reflog: {_0}")]
     GetReflogError(#[from] GetReflogError),
+
+    #[error("error when looking up object: {_0}")]
+    RawExistsError(#[from] RawExistsError),
+
+    #[error("error when listing objects: {_0}")]
+    RawBetweenError(#[from] RawBetweenError),
 }
 
 #[derive(Debug)]
@@ -256,13 +262,14 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key)? {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
 
-                results = self.raw_between(&start, end.as_deref()).unwrap();
+                results = self.raw_between(&start, end.as_deref())?;
             }
             Keyish::Reflog {
                 orig,
-- 
2.43.0


From 577a5e1a149168e3db802025a24a19b84009e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 02/25] fix: do not ignore failures to begin or commit, and
 exit non-zero on error

The results of BEGIN and COMMIT were dropped, so a command whose transaction
could not be started or committed exited 0 with nothing recorded; a command
that printed 'fatal:' exited 0 as well. A failing ROLLBACK (SQLite had already
rolled back) replaced the error being reported.
---
 src/main.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..4bc8255 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -767,7 +767,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -790,12 +792,25 @@ fn main() -> CMDResult {
 
         println!("fatal: {}", e);
 
-        state.ds_state.as_mut().map(|x| x.ds.rollback());
-        state.cache.rollback()?;
-    } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
-        state.cache.commit()?;
+        // Some errors make SQLite roll back by itself, and whatever is still open is rolled back
+        // when the connections are closed, so there is nothing more to do if this fails.
+        if let Some(x) = state.ds_state.as_mut() {
+            if let Err(e) = x.ds.rollback() {
+                log::debug!("error when rolling back: {}", e);
+            }
+        }
+        if let Err(e) = state.cache.rollback() {
+            log::debug!("error when rolling back cache: {}", e);
+        }
+
+        drop(state);
+        std::process::exit(1);
+    }
+
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.commit()?;
     }
+    state.cache.commit()?;
 
     Ok(())
 }
-- 
2.43.0


From 0451910302be9596b8e5dfaefd58e65442e17562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 03/25] fix: report a failure to write the end of the output

Output after the last newline was only written by the runtime at exit, which
ignores errors, so 'show' of a file could lose its tail and still exit 0.
---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 4bc8255..febc598 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,6 +12,7 @@ use snapcd::{
 use colored::*;
 pub use thiserror::Error;
 
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use structopt::StructOpt;
 
@@ -787,6 +788,9 @@ fn main() -> CMDResult {
         Command::Ref(args) => ref_cmd(&mut state, args),
     };
 
+    // The last line of the output is only written here if it does not end with a newline.
+    let result = result.and_then(|()| Ok(std::io::stdout().flush()?));
+
     if let Err(e) = result {
         log::debug!("error debug: {:?}", e);
 
-- 
2.43.0


From a273c0fee79a7635d5fd8feb50124f04b32bb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 04/25] fix: checkout-head exits non-zero when it refuses

It printed that the working directory is not clean, left HEAD alone, and
reported success.
---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index febc598..d636d91 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -241,6 +241,10 @@ struct DatabaseNotFoundError;
 )]
 struct NoHeadError;
 
+#[derive(Debug, Error)]
+#[error("Cannot checkout: working directory is not clean")]
+struct NotCleanError;
+
 fn insert(state: &mut State, args: InsertArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -669,10 +673,8 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
     )?;
 
     if !diff::diff_result_empty(&result) {
-        println!("Cannot checkout: working directory is not clean");
-
         diff::print_diff_result(result);
-        return Ok(());
+        return Err(NotCleanError.into());
     }
 
     ds_state.ds.put_head(&args.refname)?;
-- 
2.43.0


From ca6a106174c432e3aa6a24332f91251cd28659e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 05/25] fix: status and checkout-head report errors reading the
 ref

Any error was taken for 'no commits on this ref', so a read error made status
claim an empty history and checkout-head compare against nothing.
---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d636d91..d0eaa92 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -602,7 +602,11 @@ fn status(state: &mut State, _args: StatusArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     match &ref_key {
         Some(k) => {
@@ -657,7 +661,11 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());
 
-- 
2.43.0


From 0f5d367f9303c48bae8982ed554c5dd60433b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 06/25] fix: compare looks items up on the side they are on,
 with their kind

An added file was hashed by its path relative to the root, so from any other
directory compare panicked or hashed the wrong file; a deleted item was looked
up among the present ones, which panicked; a directory whose contents changed
counted as a modified file when two trees were compared, which made 'log' and
'show' read a directory as a file; a file that became a directory (or the
reverse) was not reported at all.
---
 src/diff.rs | 86 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..3ed9662 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -81,46 +81,51 @@ pub fn compare<'a>(
         None => HashMap::new(),
     };
 
-    let from_keys: HashSet<PathBuf> = from_map.clone().either(
-        |x| x.keys().cloned().collect(),
-        |x| x.keys().cloned().collect(),
+    // A file that became a directory (or the other way round) is one deletion and one addition, so
+    // whether an item is a directory is part of what is compared.
+    let from_keys: HashSet<(PathBuf, bool)> = from_map.as_ref().either(
+        |x| x.iter().map(|(p, &is_dir)| (p.clone(), is_dir)).collect(),
+        |x| x.iter().map(|(p, item)| (p.clone(), item.1)).collect(),
     );
 
-    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
-
-    let mut in_from_only: Vec<AddedDiffResult> = from_keys
-        .difference(&to_keys)
-        .map(|x| AddedDiffResult {
-            path: x.clone(),
-            new_key: from_map.as_ref().either(
-                |y| {
-                    if !y[x] {
-                        // this is a file
-                        match dir::hash_fs_item(
-                            ds,
-                            x,
-                            *cache.expect("you must pass a cache if you're hashing the fs"),
-                        ) {
-                            Ok(h) => Some(h.into()),
-                            Err(e) => panic!(e),
-                        }
-                    } else {
-                        // directories don't have a hash
-                        None
-                    }
-                },
-                |y| Some(y[x].0),
-            ),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
-        })
+    let to_keys: HashSet<(PathBuf, bool)> = to_map
+        .iter()
+        .map(|(p, item)| (p.clone(), item.1))
         .collect();
 
+    let mut in_from_only: Vec<AddedDiffResult> = Vec::new();
+
+    for (path, is_dir) in from_keys.difference(&to_keys) {
+        let new_key = match &from_map {
+            // directories don't have a hash
+            either::Left(_) if *is_dir => None,
+            either::Left(_) => Some(
+                dir::hash_fs_item(
+                    ds,
+                    &from_path
+                        .as_ref()
+                        .expect("should have been populated")
+                        .join(path),
+                    *cache.expect("you must pass a cache if you're hashing the fs"),
+                )?
+                .into(),
+            ),
+            either::Right(db_items) => Some(db_items[path].0),
+        };
+
+        in_from_only.push(AddedDiffResult {
+            path: path.clone(),
+            new_key,
+            is_dir: *is_dir,
+        });
+    }
+
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-        .map(|x| DeletedDiffResult {
-            path: x.clone(),
-            original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+        .map(|(path, is_dir)| DeletedDiffResult {
+            path: path.clone(),
+            original_key: Some(to_map[path].0),
+            is_dir: *is_dir,
         })
         .collect();
 
@@ -128,14 +133,15 @@ pub fn compare<'a>(
 
     let mut modified = Vec::new();
 
-    for path in in_both {
+    for (path, is_dir) in in_both {
+        // Directories can't be modified, what is in them can.
+        if *is_dir {
+            continue;
+        }
+
         let f;
         match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
+            either::Left(_) => {
                 f = dir::hash_fs_item(
                     ds,
                     &from_path
-- 
2.43.0


From 86fa998ef763ecb95cca248b469823e52d28c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 07/25] fix: store directory entries sorted by name

The tree object listed entries in the order the file system returned them, so
identical directories got different keys.
---
 src/dir.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..2b5e56f 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,15 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
-
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order of a directory listing is arbitrary, but the key must only depend on what is in
+        // the directory.
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
+        entries.sort_unstable_by_key(DirEntry::file_name);
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From 9b1fe1e536979606073cf516faf148bf20278512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 08/25] fix: fetch creates empty directories

A directory was only created for the sake of a file in it, so an empty one (or
an empty tree as a whole) was missing from what was fetched.
---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 2b5e56f..5ec26eb 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -238,6 +238,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 7888c442dc3a6358fc36c84e83944a9a10f31392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 09/25] fix: checkout refuses a wrong destination before
 touching it

The check of the destination came after File::create, which had already
emptied the file.
---
 src/dir.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 5ec26eb..69b3564 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -285,6 +285,9 @@ pub fn checkout_fs_item<DS: DataStore>(
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
+    // Before anything is touched.
+    assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+
     let obj = ds.get_obj(key.into())?;
 
     let fsobj: FSItem = obj.try_into()?;
@@ -306,7 +309,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                 let p = path.join(item);
                 let ft = std::fs::metadata(&p)?.file_type();
 
@@ -328,8 +330,6 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::File => {
             let mut f = std::fs::File::create(path)?;
 
-            assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From 1fc2e2f890df70ed2e320a81746d2dbee96a7471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 10/25] fix: checkout creates directories before listing them

A directory that was missing from the working tree made checkout fail, and an
empty one would not have been created.
---
 src/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 69b3564..48e5c4d 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -298,6 +298,8 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             let mut fs_items = HashSet::new();
 
+            std::fs::create_dir_all(&path)?;
+
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
 
@@ -322,8 +324,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                std::fs::create_dir_all(&path)?;
-
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
-- 
2.43.0


From ffec18cb88b309569d7f3dce2cb9cbb4972ad366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 11/25] fix: checkout keeps excluded files in a directory it
 removes

A directory that is not in the snapshot was removed as a whole, together with
the excluded files (and repositories) in it.
---
 src/dir.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 48e5c4d..db2cf9d 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -279,6 +279,34 @@ pub enum CheckoutFsItemError {
     UnimplementedFileTypeFound,
 }
 
+/// Removes what is at a path, except for what is excluded and the directories that are in the way
+/// of that. Returns whether everything is gone.
+fn remove_fs_item(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, std::io::Error> {
+    // A symlink to a directory is not followed, only the link goes.
+    if !std::fs::symlink_metadata(path)?.is_dir() {
+        std::fs::remove_file(path)?;
+        return Ok(true);
+    }
+
+    let mut empty = true;
+
+    for entry in std::fs::read_dir(path)? {
+        let entry = entry?;
+
+        let removed = filter(&entry) && remove_fs_item(&entry.path(), filter)?;
+        empty = empty && removed;
+    }
+
+    if empty {
+        std::fs::remove_dir(path)?;
+    }
+
+    Ok(empty)
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -311,16 +339,7 @@ pub fn checkout_fs_item<DS: DataStore>(
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                let p = path.join(item);
-                let ft = std::fs::metadata(&p)?.file_type();
-
-                if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
-                } else if ft.is_file() {
-                    std::fs::remove_file(p)?;
-                } else if ft.is_symlink() {
-                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
-                }
+                remove_fs_item(&path.join(item), filter)?;
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-- 
2.43.0


From c1113d8bc77845d8b1f6109804ed20dd50548fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:30 +0000
Subject: [PATCH 12/25] fix: checkout replaces what is of the wrong kind
 instead of following it

With a symlink in the working tree, checkout wrote to and deleted from the
place the link pointed to, outside the repository. A file where the snapshot
has a directory, or a directory where it has a file, made it fail half-way.
---
 src/dir.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index db2cf9d..3279418 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -307,6 +307,36 @@ fn remove_fs_item(
     Ok(empty)
 }
 
+/// Removes what is at a path if it is not the kind of thing that is to be checked out there. A
+/// symlink never is: what it points to is not ours to change.
+fn clear_the_way<DS: DataStore>(
+    ds: &DS,
+    key: TypedKey<FSItem>,
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<(), CheckoutFsItemError> {
+    let meta = match std::fs::symlink_metadata(path) {
+        Ok(meta) => meta,
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(()),
+        Err(e) => return Err(e.into()),
+    };
+
+    let obj = ds.get_obj(key.into())?;
+
+    let fsobj: FSItem = obj.try_into()?;
+
+    let fits = match fsobj.itemtype {
+        FSItemType::Dir => meta.is_dir(),
+        FSItemType::File => meta.is_file(),
+    };
+
+    if !fits {
+        remove_fs_item(path, filter)?;
+    }
+
+    Ok(())
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -343,7 +373,10 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                checkout_fs_item(ds, child, &path.join(&name), filter)?;
+                let child_path = path.join(&name);
+
+                clear_the_way(ds, child, &child_path, filter)?;
+                checkout_fs_item(ds, child, &child_path, filter)?;
             }
         }
         FSItemType::File => {
-- 
2.43.0


From a1fa08b073aff10d66575df6063b5fb3e59d50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:16 +0000
Subject: [PATCH 13/25] fix: do not lose what is in the top level of a file's
 tree

When the chunks so far had been collected into the highest level of the tree,
the end of put_data did not look there, and returned the key of the last part
of the file (or stored only that).
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..38c5135 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if (0..5).all(|x| key_bufs[x].is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 50eed159f3977f0aaa4f51797086b0cad48e5801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 14/25] fix: the key of a file does not depend on how it was
 read

Chunks were cut depending on how many bytes each read returned, so the same
file got different keys when reads were short (or interrupted).
---
 src/file.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 38c5135..00c16e4 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -65,22 +65,14 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
                 }
             }
         } else {
-            use std::io::ErrorKind;
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
-                Ok(len) => {
-                    if len == 0 {
-                        break;
-                    }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
-                }
-                Err(e) if e.kind() == ErrorKind::Interrupted => {}
-                Err(e) => {
-                    return Err(e.into());
-                }
+            let len = read_full(&mut data, &mut read_buffer)?;
+            if len == 0 {
+                break;
             }
+            chunk_buffer.extend_from_slice(&read_buffer[0..len]);
         }
     }
 
@@ -111,6 +103,23 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     Ok(ds.put_obj(&Object::new(&[], &key_bufs[4], ObjType::FileBlobTree))?)
 }
 
+/// Reads until the buffer is full or the data ends. Where a file is cut depends on how much is read
+/// at once, so that must not depend on how much the reader happens to return.
+fn read_full<R: Read>(data: &mut R, buf: &mut [u8]) -> Result<usize, std::io::Error> {
+    let mut filled = 0;
+
+    while filled < buf.len() {
+        match data.read(&mut buf[filled..]) {
+            Ok(0) => break,
+            Ok(len) => filled += len,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+
+    Ok(filled)
+}
+
 #[derive(Debug, Error)]
 pub enum ReadDataError {
     #[error("error putting object: {_0}")]
-- 
2.43.0


From 6f7172edf14c333ab405a02686a6b52ffcf1c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 15/25] fix: check that a stored object still has the hash it
 is named by

A damaged object was handed out as if it were the one asked for.
---
 src/ds/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index cc3bd16..4338b69 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -106,6 +106,9 @@ pub enum CommitTransError {
 pub enum RawGetError {
     #[error(transparent)]
     DSerror(#[from] DSError),
+
+    #[error("object '{_0}' is damaged")]
+    Damaged(key::Key),
 }
 
 #[derive(Debug, Error)]
@@ -205,6 +208,10 @@ pub trait DataStore: Transactional {
     fn get(&self, key: key::Key) -> Result<Cow<'_, [u8]>, RawGetError> {
         let results = self.raw_get(&key.as_db_key())?;
 
+        if self.hash(&results) != key {
+            return Err(RawGetError::Damaged(key));
+        }
+
         Ok(results)
     }
 
-- 
2.43.0


From d4e0b9a9ddb0c7eb4f81a5f553511e65cfdbb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:57 +0000
Subject: [PATCH 16/25] fix: do not take a changed file for the one in the
 cache

A file was identified by inode, size and mtime in whole seconds, so an edit
within the same second, one that puts the mtime back, or a file on another
device could be reported as unmodified.
---
 src/cache.rs | 59 ++++++++++++++++++++++++++++++++++++++++------------
 src/dir.rs   | 33 ++++++++++++++---------------
 2 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..03e3145 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -1,17 +1,61 @@
 use crate::ds::ToDSErrorResult;
 use rusqlite::{params, OptionalExtension};
+use std::fs::Metadata;
+use std::os::unix::fs::MetadataExt;
 use std::path::Path;
+use std::time::SystemTime;
 use thiserror::Error;
 
 use crate::{ds, key};
 
 #[derive(Copy, Clone, Debug)]
 pub struct CacheKey {
+    pub dev: u64,
     pub inode: u64,
     pub mtime: i64,
+    pub mtime_nsec: i64,
+    pub ctime: i64,
+    pub ctime_nsec: i64,
     pub size: u64,
 }
 
+impl CacheKey {
+    pub fn new(meta: &Metadata) -> Self {
+        Self {
+            dev: meta.dev(),
+            inode: meta.ino(),
+            mtime: meta.mtime(),
+            mtime_nsec: meta.mtime_nsec(),
+            ctime: meta.ctime(),
+            ctime_nsec: meta.ctime_nsec(),
+            size: meta.size(),
+        }
+    }
+
+    /// A file that was changed only just now can change again without its times telling, because
+    /// they are no finer than the file system (or the kernel) makes them.
+    pub fn is_settled(&self, now: SystemTime) -> bool {
+        match now.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(d) => self.mtime.max(self.ctime).saturating_add(2) <= d.as_secs() as i64,
+            Err(_) => false,
+        }
+    }
+
+    fn to_bytes(&self) -> Vec<u8> {
+        let mut data = Vec::with_capacity(8 * 7);
+
+        data.extend(self.dev.to_le_bytes().iter());
+        data.extend(self.inode.to_le_bytes().iter());
+        data.extend(self.mtime.to_le_bytes().iter());
+        data.extend(self.mtime_nsec.to_le_bytes().iter());
+        data.extend(self.ctime.to_le_bytes().iter());
+        data.extend(self.ctime_nsec.to_le_bytes().iter());
+        data.extend(self.size.to_le_bytes().iter());
+
+        data
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum RawGetCacheError {
     #[error("data store error: {_0}")]
@@ -44,12 +88,7 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        let cache_result = self.raw_get(&data)?;
+        let cache_result = self.raw_get(&cachekey.to_bytes())?;
 
         match cache_result {
             Some(data) => {
@@ -61,13 +100,7 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        self.raw_put(&data, &value.as_db_key())?;
+        self.raw_put(&cachekey.to_bytes(), &value.as_db_key())?;
 
         Ok(())
     }
diff --git a/src/dir.rs b/src/dir.rs
index 3279418..338c2af 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -166,19 +166,16 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
     let meta = std::fs::metadata(path)?;
 
     if meta.is_file() {
-        use std::os::unix::fs::MetadataExt;
-
         let f = std::fs::File::open(path)?;
 
         let ext_metadata = f.metadata()?;
-        let cache_key = CacheKey {
-            mtime: ext_metadata.mtime(),
-            inode: ext_metadata.ino(),
-            size: ext_metadata.size(),
-        };
+        let cache_key = CacheKey::new(&ext_metadata);
+        let settled = cache_key.is_settled(std::time::SystemTime::now());
 
-        if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+        if settled {
+            if let Some(h) = cache.get(cache_key)? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
@@ -196,14 +193,16 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let obj_hash = ds.put_obj(&object)?;
 
-        match cache.put(cache_key, obj_hash) {
-            Ok(()) => {}
-            Err(e) => log::warn!(
-                "Error {:?} putting cache entry {:?} as {}",
-                e,
-                cache_key,
-                &obj_hash
-            ),
+        if settled {
+            match cache.put(cache_key, obj_hash) {
+                Ok(()) => {}
+                Err(e) => log::warn!(
+                    "Error {:?} putting cache entry {:?} as {}",
+                    e,
+                    cache_key,
+                    &obj_hash
+                ),
+            }
         }
 
         return Ok(obj_hash);
-- 
2.43.0


From 70b57e60d1cb280ebdee3ee9ed7be2956fa0b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:24 +0000
Subject: [PATCH 17/25] fix: only use a cached key if this repository has the
 object

The cache is shared by all repositories of a user. A key another one had
cached was returned although the object is not in this store, and compare -s
then panicked on reading it.
---
 src/dir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 338c2af..9244dd5 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -151,6 +151,9 @@ pub enum HashFsItemError {
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
+    #[error("error looking for object: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("error when encoding object: {_0}")]
     EncodeError(#[from] serde_cbor::error::Error),
 
@@ -174,7 +177,10 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         if settled {
             if let Some(h) = cache.get(cache_key)? {
-                return Ok(h);
+                // The cache is shared between repositories, this one may not have the object.
+                if ds.raw_exists(&h.as_db_key())? {
+                    return Ok(h);
+                }
             }
         }
 
-- 
2.43.0


From 09bca82ce618c34382396ae635111db4d983fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 18/25] fix: carry on without the cache if it cannot be used

A cache that was damaged (a power loss is enough, it is not synced), locked or
not writable made every command fail, even those that do not use it.
---
 src/dir.rs  | 10 ++++++----
 src/main.rs | 38 ++++++++++++++++++++++++++++----------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 9244dd5..0eb4a34 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -148,9 +148,6 @@ pub enum HashFsItemError {
     #[error("put data error: {_0}")]
     PutDataError(#[from] file::PutDataError),
 
-    #[error("cache error: {_0}")]
-    CacheError(#[from] cache::GetCacheError),
-
     #[error("error looking for object: {_0}")]
     RawExistsError(#[from] ds::RawExistsError),
 
@@ -176,7 +173,12 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         let settled = cache_key.is_settled(std::time::SystemTime::now());
 
         if settled {
-            if let Some(h) = cache.get(cache_key)? {
+            let cached = cache.get(cache_key).unwrap_or_else(|e| {
+                log::warn!("Error {:?} getting cache entry {:?}", e, cache_key);
+                None
+            });
+
+            if let Some(h) = cached {
                 // The cache is shared between repositories, this one may not have the object.
                 if ds.raw_exists(&h.as_db_key())? {
                     return Ok(h);
diff --git a/src/main.rs b/src/main.rs
index d0eaa92..f8591da 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -720,6 +720,25 @@ fn setup_logging(#[allow(unused_variables)] level: u64) {
     }
 }
 
+fn open_cache(mut dir: PathBuf) -> Result<SqliteCache, anyhow::Error> {
+    log::info!("using cache dir {}", dir.display());
+    dir.push("snapcd");
+    std::fs::create_dir_all(&dir)?;
+    dir.push("cache.db");
+
+    let mut cache = SqliteCache::new(dir)?;
+    cache.begin_trans()?;
+
+    Ok(cache)
+}
+
+fn open_memory_cache() -> Result<SqliteCache, anyhow::Error> {
+    let mut cache = SqliteCache::new(":memory:")?;
+    cache.begin_trans()?;
+
+    Ok(cache)
+}
+
 fn main() -> CMDResult {
     let opt = Opt::from_args();
 
@@ -758,17 +777,15 @@ fn main() -> CMDResult {
         ds_state.as_ref().map(|x| &x.repo_path)
     );
 
-    let cache = match dirs::cache_dir() {
-        Some(mut d) => {
-            log::info!("using cache dir {}", d.display());
-            d.push("snapcd");
-            std::fs::create_dir_all(&d)?;
-            d.push("cache.db");
-            SqliteCache::new(d)?
+    let cache = match dirs::cache_dir().map(open_cache) {
+        Some(Ok(cache)) => cache,
+        Some(Err(e)) => {
+            log::warn!("cache is not usable, using in memory cache: {}", e);
+            open_memory_cache()?
         }
         None => {
             log::warn!("cache not found, using in memory cache");
-            SqliteCache::new(":memory:")?
+            open_memory_cache()?
         }
     };
 
@@ -781,7 +798,6 @@ fn main() -> CMDResult {
     if let Some(x) = state.ds_state.as_mut() {
         x.ds.begin_trans()?;
     }
-    state.cache.begin_trans()?;
 
     let result = match opt.cmd {
         Command::Insert(args) => insert(&mut state, args),
@@ -824,7 +840,9 @@ fn main() -> CMDResult {
     if let Some(x) = state.ds_state.as_mut() {
         x.ds.commit()?;
     }
-    state.cache.commit()?;
+    if let Err(e) = state.cache.commit() {
+        log::warn!("error when writing cache: {}", e);
+    }
 
     Ok(())
 }
-- 
2.43.0


From 999b0a19c33c6fdc93d333315b8b9ca0f8ff54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 19/25] fix: notice damaged cache entries

The cache file is written without syncing, so it may hold anything after a
crash. An entry is now stored with a checksum over it and what it is about, and
a damaged one is replaced.
---
 src/cache.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 03e3145..46f1641 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -56,6 +56,18 @@ impl CacheKey {
     }
 }
 
+const CHECKSUM_LEN: usize = 8;
+
+/// The cache is not written safely, so an entry must show that it is what was put.
+fn checksum(cachekey: &CacheKey, db_key: &[u8]) -> [u8; CHECKSUM_LEN] {
+    let mut data = cachekey.to_bytes();
+    data.extend(db_key);
+
+    let mut sum = [0; CHECKSUM_LEN];
+    sum.copy_from_slice(&blake3::hash(&data).as_bytes()[..CHECKSUM_LEN]);
+    sum
+}
+
 #[derive(Debug, Error)]
 pub enum RawGetCacheError {
     #[error("data store error: {_0}")]
@@ -81,6 +93,9 @@ pub enum GetCacheError {
 
     #[error("error when parsing key from cache: {_0}")]
     FromDbKeyError(#[from] key::FromDbKeyError),
+
+    #[error("cache entry is damaged")]
+    Damaged,
 }
 
 pub trait Cache: ds::Transactional {
@@ -92,15 +107,25 @@ pub trait Cache: ds::Transactional {
 
         match cache_result {
             Some(data) => {
-                let key = key::Key::from_db_key(&data)?;
-                Ok(Some(key))
+                let key_len = data.len().saturating_sub(CHECKSUM_LEN);
+                let (db_key, sum) = data.split_at(key_len);
+
+                if sum != checksum(&cachekey, db_key) {
+                    return Err(GetCacheError::Damaged);
+                }
+
+                Ok(Some(key::Key::from_db_key(db_key)?))
             }
             None => Ok(None),
         }
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        self.raw_put(&cachekey.to_bytes(), &value.as_db_key())?;
+        let mut data = value.as_db_key();
+        let sum = checksum(&cachekey, &data);
+        data.extend(&sum);
+
+        self.raw_put(&cachekey.to_bytes(), &data)?;
 
         Ok(())
     }
@@ -173,7 +198,7 @@ impl Cache for SqliteCache {
     fn raw_put<'a>(&'a self, key: &[u8], data: &[u8]) -> Result<(), RawPutCacheError> {
         self.conn
             .execute(
-                "INSERT OR IGNORE INTO cache VALUES (?, ?)",
+                "INSERT OR REPLACE INTO cache VALUES (?, ?)",
                 params![key, data],
             )
             .to_ds_r()?;
-- 
2.43.0


From 6cfbeba7cf47cc67b1d1b29398bd5d566ae32013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:33 +0000
Subject: [PATCH 20/25] fix: checkout leaves excluded paths alone even if the
 snapshot has them

Also drops an import that is not used since the cache is no longer required.
---
 src/dir.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 0eb4a34..f9a395b 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -1,5 +1,5 @@
 use crate::object::ObjType;
-use crate::{cache, ds};
+use crate::ds;
 use crate::{
     cache::Cache,
     cache::CacheKey,
@@ -362,6 +362,7 @@ pub fn checkout_fs_item<DS: DataStore>(
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
             let mut fs_items = HashSet::new();
+            let mut excluded_items: HashSet<PathBuf> = HashSet::new();
 
             std::fs::create_dir_all(&path)?;
 
@@ -370,6 +371,8 @@ pub fn checkout_fs_item<DS: DataStore>(
 
                 if filter(&ok_item) {
                     fs_items.insert(ok_item.file_name().into());
+                } else {
+                    excluded_items.insert(ok_item.file_name().into());
                 }
             }
 
@@ -380,6 +383,11 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                // What is excluded is left alone, even if it is in the snapshot.
+                if excluded_items.contains(name) {
+                    continue;
+                }
+
                 let child_path = path.join(&name);
 
                 clear_the_way(ds, child, &child_path, filter)?;
-- 
2.43.0


From 49315b314ea1618afdd39ce388f367fdc70ab72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:39 +0000
Subject: [PATCH 21/25] fix: do not fail on excluded paths that can not be
 followed

---
 src/filter.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 01b3ca2..b425834 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -16,19 +16,20 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
-        let canon_path = std::fs::canonicalize(&path).unwrap();
-        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
-
-        if canon_path.starts_with(canon_db_path) {
-            return false;
-        }
-
         let normalised_path = if path.starts_with("./") {
             path.strip_prefix("./").unwrap()
         } else {
             &path
         };
 
-        !excl_globset.is_match(normalised_path)
+        // Before anything that fails for what it can not follow, such as a dangling symlink.
+        if excl_globset.is_match(normalised_path) {
+            return false;
+        }
+
+        let canon_path = std::fs::canonicalize(&path).unwrap();
+        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
+
+        !canon_path.starts_with(canon_db_path)
     })
 }
-- 
2.43.0


From 86e0af3706b401956a8193bfaaeb66da3ebdbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 22/25] fix: do not panic on symlinks that lead nowhere

---
 src/filter.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index b425834..3e52f33 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -22,14 +22,27 @@ pub fn make_filter_fn<T: AsRef<str>>(
             &path
         };
 
-        // Before anything that fails for what it can not follow, such as a dangling symlink.
         if excl_globset.is_match(normalised_path) {
             return false;
         }
 
-        let canon_path = std::fs::canonicalize(&path).unwrap();
         let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
 
-        !canon_path.starts_with(canon_db_path)
+        match std::fs::canonicalize(&path) {
+            Ok(canon_path) => !canon_path.starts_with(canon_db_path),
+            // What leads nowhere, such as a dangling symlink, does not lead into the database.
+            Err(e) if leads_nowhere(&e) => true,
+            Err(e) => panic!("cannot resolve {}: {}", path.display(), e),
+        }
     })
 }
+
+fn leads_nowhere(e: &std::io::Error) -> bool {
+    // std has no stable ErrorKind for it
+    const ELOOP: i32 = 40;
+
+    match e.kind() {
+        std::io::ErrorKind::NotFound | std::io::ErrorKind::NotADirectory => true,
+        _ => e.raw_os_error() == Some(ELOOP),
+    }
+}
-- 
2.43.0


From 54e4554a6f7218b935b66bb04a8abbbcd0ff9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 23/25] fix: the size of a stored file is the number of bytes
 that were stored

---
 src/dir.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index f9a395b..7ea26e5 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -78,6 +78,26 @@ pub enum PutFsItemError {
     SerialisationError(#[from] serde_cbor::error::Error),
 }
 
+/// Counts the bytes that are read: the file may have grown or shrunk since its metadata was read.
+struct CountingReader<R> {
+    inner: R,
+    count: u64,
+}
+
+impl<R> CountingReader<R> {
+    fn new(inner: R) -> Self {
+        Self { inner, count: 0 }
+    }
+}
+
+impl<R: std::io::Read> std::io::Read for CountingReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let n = self.inner.read(buf)?;
+        self.count += n as u64;
+        Ok(n)
+    }
+}
+
 pub fn put_fs_item<DS: DataStore>(
     ds: &mut DS,
     path: &Path,
@@ -118,15 +138,15 @@ pub fn put_fs_item<DS: DataStore>(
     if meta.is_file() {
         let f = std::fs::File::open(path)?;
 
-        let reader = std::io::BufReader::new(f);
+        let mut reader = CountingReader::new(std::io::BufReader::new(f));
 
-        let hash = file::put_data(ds, reader)?;
+        let hash = file::put_data(ds, &mut reader)?;
 
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size: reader.count,
         };
 
         let object = obj.try_into()?;
@@ -186,15 +206,15 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
             }
         }
 
-        let reader = std::io::BufReader::new(f);
+        let mut reader = CountingReader::new(std::io::BufReader::new(f));
 
-        let hash = file::put_data(ds, reader)?;
+        let hash = file::put_data(ds, &mut reader)?;
 
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size: reader.count,
         };
 
         let object = obj.try_into()?;
-- 
2.43.0


From 7a005de16d2173438ffa87db508c8b9217c895d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 24/25] fix: do not record objects of the wrong type in refs
 and commits

---
 src/main.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f8591da..461e116 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,7 @@
 
 use snapcd::{
     cache::SqliteCache, commit, diff, dir, display, ds::sqlite::SqliteDS, ds::GetReflogError,
-    ds::Transactional, filter, key, DataStore, Keyish, Reflog,
+    ds::Transactional, filter, key, object::ObjType, DataStore, Keyish, Reflog,
 };
 
 use colored::*;
@@ -245,6 +245,25 @@ struct NoHeadError;
 #[error("Cannot checkout: working directory is not clean")]
 struct NotCleanError;
 
+#[derive(Debug, Error)]
+#[error("{0} is not a {1}")]
+struct WrongTypeError(key::Key, &'static str);
+
+/// A ref, and the parents of a commit, must lead to commits.
+fn expect_commit(ds: &impl DataStore, key: key::Key) -> CMDResult {
+    match ds.get_obj(key)?.objtype() {
+        ObjType::Commit => Ok(()),
+        _ => Err(WrongTypeError(key, "commit").into()),
+    }
+}
+
+fn expect_tree(ds: &impl DataStore, key: key::Key) -> CMDResult {
+    match ds.get_obj(key)?.objtype() {
+        ObjType::FSItemDir | ObjType::FSItemFile => Ok(()),
+        _ => Err(WrongTypeError(key, "tree").into()),
+    }
+}
+
 fn insert(state: &mut State, args: InsertArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -306,6 +325,7 @@ fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
     let key = ds_state.ds.canonicalize(args.key)?;
+    expect_commit(&ds_state.ds, key)?;
 
     let refname = match args.refname {
         Some(s) => s,
@@ -387,11 +407,13 @@ fn debug_commit_tree(state: &mut State, args: CommitTreeArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
     let tree = ds_state.ds.canonicalize(args.tree)?;
+    expect_tree(&ds_state.ds, tree)?;
 
     let mut parents = Vec::with_capacity(args.parents.len());
 
     for parent in args.parents {
         let key = ds_state.ds.canonicalize(parent)?;
+        expect_commit(&ds_state.ds, key)?;
         parents.push(key);
     }
 
@@ -425,6 +447,7 @@ fn debug_reflog_push(state: &mut State, args: ReflogPushArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
     let key = ds_state.ds.canonicalize(args.key)?;
+    expect_commit(&ds_state.ds, key)?;
 
     let log = Reflog {
         key: key.into(),
-- 
2.43.0


From 58020bf02e229a437c6a30a74fba9a2ff8ae2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:43 +0000
Subject: [PATCH 25/25] fix: a file that grows when its end was read gets the
 key of what was read before

---
 src/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 00c16e4..94044eb 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -21,6 +21,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     let mut current_chunk = Vec::new();
 
     let mut hasher = gearhash::Hasher::new(&gearhash::DEFAULT_TABLE);
+    let mut ended = false;
 
     loop {
         let m = {
@@ -68,10 +69,13 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            let len = read_full(&mut data, &mut read_buffer)?;
-            if len == 0 {
+            if ended {
                 break;
             }
+
+            let len = read_full(&mut data, &mut read_buffer)?;
+            // A file that grows just now may have more to read after its end was met.
+            ended = len < read_buffer.len();
             chunk_buffer.extend_from_slice(&read_buffer[0..len]);
         }
     }
-- 
2.43.0


From 144ff1de5e28e6100e1804fc6b2878012c2217c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 1/8] fix: keep the loaded document when a concurrent
 dereference wins

---
 plotline/src/document/lazy.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..ef3fe61 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,13 +60,9 @@ where
             return doc;
         }
 
-        if self
-            .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
+        let document = self.document_repo.find_by_id(&self.document_id)?;
+        if self.document.set(document).is_err() {
+            tracing::debug!(id = ?self.document_id, "document already loaded");
         }
 
         self.document.get()
-- 
2.43.0


From d7e9ef6ffb61976fc8a3dc8be5c8a654d016ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 2/8] fix: saving fails when the target is not available to be
 stored

---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..b585b0e 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("node being saved is not available"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From ebc019dd0e49264d796725ce1038d994cb42cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 3/8] fix: commit every operation even if a context was leaked

---
 plotline/src/schema/transaction.rs | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..0bf976e 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -72,17 +72,9 @@ where
             return;
         };
 
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
-            Err(err) => {
-                tracing::error!(error = err.to_string(), "committing poisoned transaction");
-                return;
-            }
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
+            Err(err) => std::mem::take(&mut *err.into_inner()),
         };
 
         ops.into_iter().for_each(|op| match op {
@@ -138,17 +130,9 @@ where
     T: Identify,
 {
     fn commit(self) {
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
-            Err(err) => {
-                tracing::error!(error = err.to_string(), "committing poisoned transaction");
-                return;
-            }
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
+            Err(err) => std::mem::take(&mut *err.into_inner()),
         };
 
         let mut upstream_ops = match self.context.operations.write() {
-- 
2.43.0


From ae4b792507e3ee80d4f362e418714bbfb3060069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 4/8] fix: find documents by their whole id and return them
 under it

---
 plotline-cli/src/repository.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..8facbf7 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,10 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        let mut path = self.context.join(id).into_os_string();
+        path.push(".");
+        path.push(&self.extension);
+        let path = PathBuf::from(path);
 
         fs::read(&path)
             .inspect_err(|err| {
@@ -33,7 +36,10 @@ impl DocumentRepository for LocalDocumentRepository {
                     "finding document by id"
                 )
             })
-            .map(|bytes| Document { path, bytes })
+            .map(|bytes| Document {
+                path: id.clone(),
+                bytes,
+            })
             .ok()
     }
 }
-- 
2.43.0


From 309ec1a8019282134d07b64fb99a89b8a03904e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 5/8] fix: list exactly the files with the literal extension
 under loadable ids

---
 plotline-cli/src/repository.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 8facbf7..7884ca0 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -5,7 +5,6 @@ use plotline::{
     id::Identify,
 };
 use ignore::Walk;
-use regex::Regex;
 
 use crate::document::Document;
 
@@ -47,6 +46,9 @@ impl DocumentRepository for LocalDocumentRepository {
 impl LocalDocumentRepository {
     /// Returns an iterator of [`LazyDocument`].
     pub fn all(self: &Arc<Self>) -> impl Iterator<Item = LazyDocument<Self>> + '_ {
+        let suffix = format!(".{}", self.extension);
+        let dots = suffix.matches('.').count();
+
         Walk::new(&self.context)
             .filter_map(move |entry| {
                 if let Err(err) = &entry {
@@ -59,21 +61,18 @@ impl LocalDocumentRepository {
 
                 entry.ok()
             })
-            .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
-                    .expect("pattern should be a valid regular expression");
-
-                move |entry| {
-                    let matches = regex.is_match(&entry.file_name().to_string_lossy());
-                    tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
+            .filter(move |entry| {
+                let name = entry.file_name().as_encoded_bytes();
+                let matches = name.ends_with(suffix.as_bytes()) && entry.path().is_file();
+                tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
 
-                    matches
-                }
+                matches
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                let path = (0..dots)
+                    .fold(entry.path().to_path_buf(), |path, _| {
+                        path.with_extension("")
+                    })
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From a9cc0103e26d620944e9851860e6c885ad623732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 6/8] fix: report a failure to write the listing instead of
 panicking

---
 plotline-cli/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/document.rs b/plotline-cli/src/document.rs
index 33d71f4..25abf34 100644
--- a/plotline-cli/src/document.rs
+++ b/plotline-cli/src/document.rs
@@ -96,7 +96,7 @@ where
                 self.schema
                     .read()
                     .into_iter()
-                    .for_each(|node| writeln!(stdout, "{:?}", node.id()).unwrap());
+                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;
             }
             DocumentSubCommand::Save(args) => {
                 let document_id = document_id()?;
-- 
2.43.0


From d326f2b0bd8165f601e86fabe2b3974328815012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 7/8] fix: deleting an interval finds equal lower bounds and
 updates the limits

---
 plugins/interval/src/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..e9c662c 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,10 +89,15 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
-- 
2.43.0


From 388285decc6a5e53c443f946e7288f7a1cb4c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 8/8] fix: joining interval trees keeps their intervals and
 terminates

---
 plugins/interval/src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index e9c662c..aa18e5b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -227,6 +227,7 @@ where
 
             let center = intervals.len() / 2;
             let left = intervals.drain(0..center).collect();
+            let root = root.insert(intervals.remove(0));
             immersion(immersion(root, left), intervals)
         }
 
-- 
2.43.0


From f03a8c98ae76c622b797dc721d07bc55bfda77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 1/6] fix: VecSet::union_with clones the elements it takes from
 the other set

It used NoConverter, which panics as soon as the other set has an element
that is not in self.
---
 src/vec_set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..ec81db5 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -754,7 +754,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-- 
2.43.0


From fca0d9c30f1307aed7553a0ee4f129da017f5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 2/6] fix: VecSet::xor_with computes the symmetric difference

It computed the intersection.
---
 src/vec_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index ec81db5..9f97102 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -775,8 +775,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From e0544a252b6eee9001afafae0b5939c378e6ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 3/6] fix: TotalVecSet::is_superset is the converse of
 is_subset

It returned the negation of is_subset.
---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From 5a74f2154352d5b01fe298dda462d8a3b067d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 4/6] fix: TotalVecMap equality takes the default value into
 account

Two maps with the same non-default mappings but different defaults compared
equal, in contradiction to their ordering and to the lookups they answer.
---
 src/total_vec_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..663a25a 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -66,7 +66,7 @@ impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From 8c104a93aaac41167f56b5c1ed774a1330faad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 5/6] fix: right_join_with on BTreeMap drops the elements that
 are only in self

---
 src/btree_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..630d66e 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -190,6 +190,8 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
         K: Ord + Clone,
         F: Fn(&K, Option<&mut V>, &W) -> bool,
     {
+        // a right join has no elements that are only in self
+        self.retain(|k, _| that.get(k).is_some());
         for (k, w) in that.iter() {
             if !f(k, self.get_mut(k), w) {
                 self.remove(k);
-- 
2.43.0


From ce94ec28166921f634e1f3c7918dd2fcac26d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:15 +0000
Subject: [PATCH 6/6] fix: validate the children of an archived radix tree
 before reading them

---
 src/radix_tree/arc_radix_tree.rs  | 6 +++---
 src/radix_tree/flat_radix_tree.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..02a8024 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -297,6 +297,9 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children, before anything in them is looked at
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -311,9 +314,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
 
             Ok(&*this)
         }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..8685cc9 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children, before anything in them is looked at
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


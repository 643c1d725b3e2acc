From b7e129fe9b1531a7ad090135558acc4f7ccef596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 1/7] fix: keep the hashes of RbTree up to date after mutable
 access to a value

get_mut, modify, insert and the entry API hand out a mutable reference to a
value, but the hashes on the path to its node were computed before the caller
changed the value (or not at all), so root_hash and every witness could
disagree with the content. Remember the node and rehash its path on next use.
modify and modify_max_with_prefix also bind the reference to the tree's borrow.
---
 src/collections/map.rs |   2 +-
 src/rbtree.rs          | 175 ++++++++++++++++++++++++-----------------
 src/rbtree/entry.rs    |   2 +
 3 files changed, 106 insertions(+), 73 deletions(-)

diff --git a/src/collections/map.rs b/src/collections/map.rs
index e29a038..9d62cea 100644
--- a/src/collections/map.rs
+++ b/src/collections/map.rs
@@ -50,7 +50,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Map<K, V> {
     /// key will be returned.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
-        self.inner.insert(key, value).0
+        self.inner.insert_node(key, value).0
     }
 
     /// Remove the value associated with the given key from the map, returns the
diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..95af636 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -6,6 +6,7 @@
 //! [crate::collections] module.
 
 use std::borrow::{Borrow, Cow};
+use std::cell::Cell;
 use std::cmp::Ordering;
 use std::cmp::Ordering::{Equal, Greater, Less};
 use std::fmt;
@@ -41,6 +42,7 @@ impl Color {
 impl<K: 'static + Label, V: AsHashTree + 'static> AsHashTree for RbTree<K, V> {
     #[inline]
     fn root_hash(&self) -> Hash {
+        self.refresh();
         if self.root.is_null() {
             Empty.reconstruct()
         } else {
@@ -116,7 +118,7 @@ impl<'a, T: Label + AsRef<[u8]>> AsRef<[u8]> for KeyBound<'a, T> {
 // 2. Children of a red node are black.
 // 3. Every path from a node goes through the same number of black
 //    nodes.
-struct Node<K, V> {
+pub(crate) struct Node<K, V> {
     key: K,
     value: V,
     left: *mut Node<K, V>,
@@ -247,6 +249,10 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
 pub struct RbTree<K: 'static + Label, V: AsHashTree + 'static> {
     len: usize,
     root: *mut Node<K, V>,
+
+    /// The node whose value was last handed out by mutable reference (or null): the hashes on
+    /// the path from the root to it are recomputed by `refresh` before they are used again.
+    stale: Cell<*mut Node<K, V>>,
 }
 
 impl<K: 'static + Label, V: AsHashTree + 'static> Drop for RbTree<K, V> {
@@ -269,6 +275,38 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         Self {
             len: 0,
             root: Node::null(),
+            stale: Cell::new(Node::null()),
+        }
+    }
+
+    /// Recompute the hashes that a mutable reference to a value may have left out of date.
+    fn refresh(&self) {
+        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
+            h: *mut Node<K, V>,
+            n: *mut Node<K, V>,
+        ) {
+            debug_assert!(!h.is_null());
+            if h != n {
+                match (*n).key.cmp(&(*h).key) {
+                    Less => go((*h).left, n),
+                    Equal | Greater => go((*h).right, n),
+                }
+            }
+            (*h).subtree_hash = Node::subtree_hash(h);
+        }
+
+        let n = self.stale.get();
+        if !n.is_null() {
+            unsafe { go(self.root, n) }
+            self.stale.set(Node::null());
+        }
+    }
+
+    /// Must be called before a mutable reference to the value of `n` is handed out.
+    fn mark_stale(&self, n: *mut Node<K, V>) {
+        if self.stale.get() != n {
+            self.refresh();
+            self.stale.set(n);
         }
     }
 
@@ -331,10 +369,14 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     }
 
     #[inline]
-    unsafe fn get_node(&self, key: &K) -> *mut Node<K, V> {
+    unsafe fn get_node<Q: ?Sized>(&self, key: &Q) -> *mut Node<K, V>
+    where
+        K: Borrow<Q>,
+        Q: Ord,
+    {
         let mut root = self.root;
         while !root.is_null() {
-            match key.cmp(&(*root).key) {
+            match key.cmp((*root).key.borrow()) {
                 Equal => return root,
                 Less => root = (*root).left,
                 Greater => root = (*root).right,
@@ -345,48 +387,28 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<'a, Q: ?Sized, T>(
+        &'a mut self,
+        key: &Q,
+        f: impl FnOnce(&'a mut V) -> T,
+    ) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
     {
-        unsafe fn go<'a, K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
-            mut h: *mut Node<K, V>,
-            k: &Q,
-            f: impl FnOnce(&'a mut V) -> T,
-        ) -> Option<T>
-        where
-            K: Borrow<Q>,
-            Q: Ord,
-        {
-            if h.is_null() {
+        unsafe {
+            let node = self.get_node(key);
+            if node.is_null() {
                 return None;
             }
-
-            match k.cmp((*h).key.borrow()) {
-                Equal => {
-                    let res = f(&mut (*h).value);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    Some(res)
-                }
-                Less => {
-                    let res = go((*h).left, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-                Greater => {
-                    let res = go((*h).right, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-            }
+            self.mark_stale(node);
+            Some(f(&mut (*node).value))
         }
-        unsafe { go(self.root, key, f) }
     }
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
         f: impl FnOnce(&'a K, &'a mut V) -> T,
     ) -> Option<T>
@@ -394,49 +416,43 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Prefix<P>,
         P: Ord,
     {
-        unsafe fn go<
-            'a,
-            K: Label + 'static,
-            V: AsHashTree + 'static,
-            P: ?Sized,
-            T,
-            F: FnOnce(&'a K, &'a mut V) -> T,
-        >(
-            mut h: *mut Node<K, V>,
+        unsafe fn go<K: Label + 'static, V: AsHashTree + 'static, P: ?Sized>(
+            h: *mut Node<K, V>,
             prefix: &P,
-            f: F,
-        ) -> (Option<T>, Option<F>)
+        ) -> *mut Node<K, V>
         where
             K: Prefix<P>,
             P: Ord,
         {
             if h.is_null() {
-                return (None, Some(f));
+                return h;
             }
 
             let node_key = &(*h).key;
             let key_prefix = node_key.borrow();
 
-            let res = match key_prefix.cmp(prefix) {
-                Greater | Equal if node_key.is_prefix(prefix) => match go((*h).right, prefix, f) {
-                    (None, Some(f)) => {
-                        let ret = f(node_key, &mut (*h).value);
-                        (Some(ret), None)
+            match key_prefix.cmp(prefix) {
+                Greater | Equal if node_key.is_prefix(prefix) => {
+                    let max = go((*h).right, prefix);
+                    if max.is_null() {
+                        h
+                    } else {
+                        max
                     }
-                    ret => ret,
-                },
-                Greater => go((*h).left, prefix, f),
-                Less | Equal => go((*h).right, prefix, f),
-            };
-
-            if res.0.is_some() {
-                (*h).subtree_hash = Node::subtree_hash(h);
+                }
+                Greater => go((*h).left, prefix),
+                Less | Equal => go((*h).right, prefix),
             }
-
-            res
         }
 
-        unsafe { go(self.root, prefix, f).0 }
+        unsafe {
+            let node = go(self.root, prefix);
+            if node.is_null() {
+                return None;
+            }
+            self.mark_stale(node);
+            Some(f(&(*node).key, &mut (*node).value))
+        }
     }
 
     pub fn max_entry_with_prefix<P: ?Sized>(&self, prefix: &P) -> Option<(&K, &V)>
@@ -475,6 +491,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         right: Option<KeyBound<'a, K>>,
         f: unsafe fn(*mut Node<K, V>) -> HashTree<'a>,
     ) -> HashTree<'a> {
+        self.refresh();
         match (left, right) {
             (None, None) => unsafe { Node::full_witness_tree(self.root, f) },
             (Some(l), None) => self.witness_range_above(l, f),
@@ -510,6 +527,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Borrow<Q>,
         Q: Ord,
     {
+        self.refresh();
         if let Some(t) = self.lookup_and_build_witness(key, f) {
             return t;
         }
@@ -876,53 +894,64 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     /// Inserts a key-value entry into the map.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> (Option<V>, &mut V) {
-        struct GoResult<'a, K, V> {
+        let (old_value, node) = self.insert_node(key, value);
+        self.mark_stale(node);
+        (old_value, unsafe { &mut (*node).value })
+    }
+
+    /// Inserts a key-value entry into the map, and returns the node of the entry along with the
+    /// previous value.
+    #[inline]
+    pub(crate) fn insert_node(&mut self, key: K, value: V) -> (Option<V>, *mut Node<K, V>) {
+        struct GoResult<K, V> {
             node: *mut Node<K, V>,
             old_value: Option<V>,
-            new_value_ref: &'a mut V,
+            new_node: *mut Node<K, V>,
         }
 
         unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
             mut h: *mut Node<K, V>,
             k: K,
             mut v: V,
-        ) -> GoResult<'static, K, V> {
+        ) -> GoResult<K, V> {
             if h.is_null() {
                 let node = Node::new(k, v);
                 return GoResult {
                     node,
                     old_value: None,
-                    new_value_ref: &mut (*node).value,
+                    new_node: node,
                 };
             }
 
-            let (old_value, new_value_ref) = match k.cmp(&(*h).key) {
+            let (old_value, new_node) = match k.cmp(&(*h).key) {
                 Equal => {
                     std::mem::swap(&mut (*h).value, &mut v);
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (Some(v), &mut (*h).value)
+                    (Some(v), h)
                 }
                 Less => {
                     let res = go((*h).left, k, v);
                     (*h).left = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.new_node)
                 }
                 Greater => {
                     let res = go((*h).right, k, v);
                     (*h).right = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.new_node)
                 }
             };
 
             GoResult {
                 node: balance(h),
                 old_value,
-                new_value_ref,
+                new_node,
             }
         }
 
+        self.refresh();
+
         unsafe {
             let mut result = go(self.root, key, value);
             (*result.node).color = Color::Black;
@@ -941,7 +970,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             }
 
             self.root = result.node;
-            (result.old_value, result.new_value_ref)
+            (result.old_value, result.new_node)
         }
     }
 
@@ -1043,6 +1072,8 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             balance(h)
         }
 
+        self.refresh();
+
         unsafe {
             self.get(key)?;
             if !is_red((*self.root).left) && !is_red((*self.root).right) {
diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..62719f7 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -63,6 +63,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`into_mut`]: OccupiedEntry::into_mut
     #[inline]
     pub fn get_mut(&mut self) -> &mut V {
+        self.map.mark_stale(self.node);
         unsafe { &mut (*self.node).value }
     }
 
@@ -73,6 +74,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`get_mut`]: OccupiedEntry::get_mut
     #[inline]
     pub fn into_mut(self) -> &'a mut V {
+        self.map.mark_stale(self.node);
         unsafe { &mut (*self.node).value }
     }
 
-- 
2.43.0


From ea23c9cf68349a5c9bf029826e10d98d86597435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 2/7] fix: keys_with_prefix must start at the smallest key with
 the prefix

When several keys borrow as the same prefix, lower_bound returned the first
one met on the way down, and the keys with the prefix below it were left out
of the witness.
---
 src/rbtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 95af636..6eb18f0 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -783,7 +783,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let node_key = &(*n).key;
             match node_key.borrow().cmp(key) {
                 Less => go((*n).right, key).or(Some(KeyBound::Neighbor(node_key))),
-                Equal => Some(KeyBound::Exact(node_key)),
+                // More than one key may be equal to a prefix, the bound is the smallest one.
+                Equal => match go((*n).left, key) {
+                    Some(KeyBound::Exact(k)) => Some(KeyBound::Exact(k)),
+                    _ => Some(KeyBound::Exact(node_key)),
+                },
                 Greater => go((*n).left, key),
             }
         }
-- 
2.43.0


From eda86c5a6296591e31d1420bb8b6189c363c680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 3/7] fix: Paged must not truncate page numbers above u32::MAX

get and witness answered for page (n mod 2^32) when asked for page n.
---
 src/collections/paged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..ec89b3f 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            // No page has a number this large: the witness is a proof of absence.
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0


From 1a138337d0d2e6d5f09b6c82556d9811afb076ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 4/7] fix: Seq::extend keeps items and hash together if the
 iterator panics

extend pushed the items first and hashed them afterwards, so after a caught
panic of the iterator (or of an item's root_hash) the sequence held items its
hash does not cover.
---
 src/collections/seq.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/collections/seq.rs b/src/collections/seq.rs
index d7ce6f9..dc9009a 100644
--- a/src/collections/seq.rs
+++ b/src/collections/seq.rs
@@ -195,18 +195,22 @@ impl<T: AsHashTree> Borrow<[T]> for Seq<T> {
 impl<'a, T: AsHashTree + Copy + 'a> Extend<&'a T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        let iter = iter.into_iter();
+        self.items.reserve(iter.size_hint().0);
+        for item in iter {
+            self.append(*item);
+        }
     }
 }
 
 impl<T: AsHashTree> Extend<T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        let iter = iter.into_iter();
+        self.items.reserve(iter.size_hint().0);
+        for item in iter {
+            self.append(item);
+        }
     }
 }
 
-- 
2.43.0


From 3dc8d26e04dc96ad7693eeb09560bed853d5f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 5/7] fix: RbTree runs no code of keys and values while it is
 being changed

The hash of a node's own entry is cached, so insertion, removal and balancing
never hash a key or value: a panic there lost entries and left a wrong length.
---
 src/rbtree.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 6eb18f0..e713895 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -125,6 +125,10 @@ pub(crate) struct Node<K, V> {
     right: *mut Node<K, V>,
     color: Color,
 
+    /// Hash of the labeled value of this node. The restructuring operations only use this hash:
+    /// they never call into the key or the value, which may panic.
+    data_hash: Hash,
+
     /// Hash of the full hash tree built from this node and its
     /// children. It needs to be recomputed after every rotation.
     subtree_hash: Hash,
@@ -133,14 +137,14 @@ pub(crate) struct Node<K, V> {
 impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
     #[allow(clippy::let_and_return)]
     fn new(key: K, value: V) -> *mut Self {
-        let value_hash = value.root_hash();
-        let data_hash = labeled_hash(&key.as_label(), &value_hash);
+        let data_hash = labeled_hash(&key.as_label(), &value.root_hash());
         let node = Box::into_raw(Box::new(Self {
             key,
             value,
             left: Node::null(),
             right: Node::null(),
             color: Color::Red,
+            data_hash,
             subtree_hash: data_hash,
         }));
 
@@ -152,7 +156,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
 
     unsafe fn data_hash(n: *mut Self) -> Hash {
         debug_assert!(!n.is_null());
-        labeled_hash(&(*n).key.as_label(), &(*n).value.root_hash())
+        (*n).data_hash
     }
 
     unsafe fn left_hash_tree<'a>(n: *mut Self) -> HashTree<'a> {
@@ -286,7 +290,9 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             n: *mut Node<K, V>,
         ) {
             debug_assert!(!h.is_null());
-            if h != n {
+            if h == n {
+                (*h).data_hash = labeled_hash(&(*h).key.as_label(), &(*h).value.root_hash());
+            } else {
                 match (*n).key.cmp(&(*h).key) {
                     Less => go((*h).left, n),
                     Equal | Greater => go((*h).right, n),
@@ -929,6 +935,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
             let (old_value, new_node) = match k.cmp(&(*h).key) {
                 Equal => {
+                    (*h).data_hash = labeled_hash(&(*h).key.as_label(), &v.root_hash());
                     std::mem::swap(&mut (*h).value, &mut v);
                     (*h).subtree_hash = Node::subtree_hash(h);
                     (Some(v), h)
@@ -1067,6 +1074,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                     let m = min((*h).right);
                     std::mem::swap(&mut (*h).key, &mut (*m).key);
                     std::mem::swap(&mut (*h).value, &mut (*m).value);
+                    std::mem::swap(&mut (*h).data_hash, &mut (*m).data_hash);
                     (*h).right = delete_min((*h).right, result);
                 } else {
                     (*h).right = go((*h).right, result, key);
-- 
2.43.0


From 5a2b59a1df9d2955345361321e8a65b0ab071e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 6/7] fix: RbTree::delete compares keys before it changes the
 tree

A comparison that panics lost entries, and inconsistent comparisons made it
dereference null pointers.
---
 src/rbtree.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index e713895..1c382de 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -1042,25 +1042,23 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             balance(h)
         }
 
-        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static, Q: ?Sized>(
+        // Removes `target`; `right_of_target` are the nodes on the path to it that are greater.
+        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
             mut h: *mut Node<K, V>,
             result: &mut Option<(K, V)>,
-            key: &Q,
-        ) -> *mut Node<K, V>
-        where
-            K: Borrow<Q>,
-            Q: Ord,
-        {
-            if key < (*h).key.borrow() {
+            target: *mut Node<K, V>,
+            right_of_target: &[*mut Node<K, V>],
+        ) -> *mut Node<K, V> {
+            if right_of_target.contains(&h) {
                 if !is_red((*h).left) && !is_red((*(*h).left).left) {
                     h = move_red_left(h);
                 }
-                (*h).left = go((*h).left, result, key);
+                (*h).left = go((*h).left, result, target, right_of_target);
             } else {
                 if is_red((*h).left) {
                     h = rotate_right(h);
                 }
-                if key == (*h).key.borrow() && (*h).right.is_null() {
+                if h == target && (*h).right.is_null() {
                     debug_assert!((*h).left.is_null());
                     *result = Some(Node::delete(h).unwrap());
                     return Node::null();
@@ -1070,14 +1068,14 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                     h = move_red_right(h);
                 }
 
-                if key == (*h).key.borrow() {
+                if h == target {
                     let m = min((*h).right);
                     std::mem::swap(&mut (*h).key, &mut (*m).key);
                     std::mem::swap(&mut (*h).value, &mut (*m).value);
                     std::mem::swap(&mut (*h).data_hash, &mut (*m).data_hash);
                     (*h).right = delete_min((*h).right, result);
                 } else {
-                    (*h).right = go((*h).right, result, key);
+                    (*h).right = go((*h).right, result, target, right_of_target);
                 }
             }
             (*h).subtree_hash = Node::subtree_hash(h);
@@ -1087,13 +1085,29 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         self.refresh();
 
         unsafe {
-            self.get(key)?;
+            // All comparisons are made before the tree is changed: they may panic.
+            let mut right_of_target = Vec::new();
+            let mut target = self.root;
+            loop {
+                if target.is_null() {
+                    return None;
+                }
+                match key.cmp((*target).key.borrow()) {
+                    Equal => break,
+                    Less => {
+                        right_of_target.push(target);
+                        target = (*target).left;
+                    }
+                    Greater => target = (*target).right,
+                }
+            }
+
             if !is_red((*self.root).left) && !is_red((*self.root).right) {
                 (*self.root).color = Color::Red;
             }
 
             let mut result = None;
-            self.root = go(self.root, &mut result, key);
+            self.root = go(self.root, &mut result, target, &right_of_target);
             if !self.root.is_null() {
                 (*self.root).color = Color::Black;
             }
-- 
2.43.0


From b7d0fa89e58fbc0a1190fb81e86078068e43505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 7/7] fix: the refresh of RbTree must not rely on the order of
 keys

With keys whose order is not a total one it dereferenced a null pointer.
---
 src/rbtree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 1c382de..76f30ed 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -289,7 +289,10 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             h: *mut Node<K, V>,
             n: *mut Node<K, V>,
         ) {
-            debug_assert!(!h.is_null());
+            if h.is_null() {
+                // The order of the keys is not a total one.
+                return;
+            }
             if h == n {
                 (*h).data_hash = labeled_hash(&(*h).key.as_label(), &(*h).value.root_hash());
             } else {
-- 
2.43.0


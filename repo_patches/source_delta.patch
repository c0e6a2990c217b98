From 75a3f42486cc50d5a0f864c1a0af46a5b2db9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 1/6] fix: do not allocate the upper bound of the size hint
 when collecting a list

---
 src/list/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..01d0dea 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -383,8 +383,9 @@ where
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
         let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
+        // The upper bound of the hint can be arbitrarily larger than the number of elements.
+        let (min_size, _) = iter.size_hint();
+        let mut vec: Vec<T> = Vec::with_capacity(min_size);
 
         for e in iter {
             vec.push(e);
-- 
2.43.0


From 0b5a30c40486c7b5b0469c0ee7943084c38156f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 2/6] fix: do not trust the size announced by serialized lists
 to allocate memory

---
 src/list/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 01d0dea..36676bf 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -512,11 +512,8 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
-            let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
-            } else {
-                Vec::new()
-            };
+            // The size hint comes from the input, so it cannot be trusted to size an allocation.
+            let mut vec: Vec<T> = Vec::new();
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
-- 
2.43.0


From ddd97d28e27ca23243181c841340664337474348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 3/6] fix: refuse vector branching parameters wider than an
 index and saturate the root capacity

---
 src/vector/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..05e8e4c 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -294,6 +294,7 @@ where
     #[must_use]
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
+        assert!(u32::from(bits) < usize::BITS, "number of bits for the vector is too big");
 
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
@@ -383,8 +384,13 @@ where
          *   = (2 ** bits) ** (height + 1)        (by def. of degree)
          *   = 2 ** (bits * (height + 1))
          *   = 1 << (bits * (height + 1))
+         *
+         * This saturates when the capacity is not representable.
          */
-        1 << (self.bits as usize * (self.height() + 1))
+        u32::try_from(self.bits as usize * (self.height() + 1))
+            .ok()
+            .and_then(|shift| 1_usize.checked_shl(shift))
+            .unwrap_or(usize::MAX)
     }
 
     #[inline]
-- 
2.43.0


From 0eb15e4ae487c5d121cacb901f9539cf071f1839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 4/6] fix: refuse hash trie maps and sets of degree one

---
 src/map/hash_trie_map/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..e33269b 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -750,6 +750,7 @@ where
         degree: u8,
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
+        assert!(degree > 1, "degree is too small");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
 
         HashTrieMap {
-- 
2.43.0


From 70c1e8fe513fece6928e5968558fae09afa8c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 5/6] fix: drop lists iteratively even when threads race to
 drop shared nodes

---
 src/list/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 36676bf..884b68a 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -401,17 +401,19 @@ where
     }
 }
 
-// Drop the list iteratively to prevent stack overflow.
-impl<T, P> Drop for List<T, P>
+// Drop the nodes iteratively to prevent stack overflow.  The nodes do this (as opposed to the list)
+// because any node can be the one dropped: when two threads race to drop the same list both can fail
+// to unwrap a node, and then the last one drops that node and all the ones after it.
+impl<T, P> Drop for Node<T, P>
 where
     P: SharedPointerKind,
 {
     fn drop(&mut self) {
-        let mut head = self.head.take();
-        while let Some(node) = head {
+        let mut next = self.next.take();
+        while let Some(node) = next {
             match SharedPointer::try_unwrap(node) {
                 Ok(mut node) => {
-                    head = node.next.take();
+                    next = node.next.take();
                 }
                 _ => {
                     break;
-- 
2.43.0


From 4638ce78f5de37873b0cbc428d808b7c1e22e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 6/6] fix: make list! and list_sync! usable without other
 imports and evaluate their arguments in order

---
 src/list/mod.rs | 31 ++-----------------------------
 1 file changed, 2 insertions(+), 29 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 884b68a..407c740 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -9,33 +9,6 @@ use core::iter::FromIterator;
 // TODO Use impl trait instead of this when available.
 pub type Iter<'a, T, P> = core::iter::Map<IterPtr<'a, T, P>, fn(&SharedPointer<T, P>) -> &T>;
 
-#[doc(hidden)]
-#[macro_export]
-macro_rules! list_reverse {
-    ($ptr_kind:ty ; ; $($reversed:expr),*) => {
-         {
-            #[allow(unused_mut)]
-            let mut l: List<_, $ptr_kind> = $crate::List::new_with_ptr_kind();
-            $(
-                l.push_front_mut($reversed);
-            )*
-            l
-         }
-    };
-    ($ptr_kind:ty ; $h:expr ; $($reversed:expr),*) => {
-        $crate::list_reverse!($ptr_kind ; ; $h, $($reversed),*)
-    };
-    ($ptr_kind:ty ; $h:expr, $($t:expr),+ ; $($reversed:expr),*) => {
-        $crate::list_reverse!($ptr_kind ; $($t),* ; $h, $($reversed),*)
-    };
-
-    // This is just to handle the cases where this macro is called with an extra comma in the
-    // reserve list, which can happen in a recursive call.
-    ($ptr_kind:ty ; $($t:expr),* ; $($reversed:expr),*,) => {
-        $crate::list_reverse!($ptr_kind ; $($t),* ; $($reversed),*)
-    };
-}
-
 /// Creates a [`List`](crate::List) containing the given arguments:
 ///
 /// ```
@@ -51,7 +24,7 @@ macro_rules! list_reverse {
 #[macro_export]
 macro_rules! list {
     ($($e:expr),*) => {
-        $crate::list_reverse!(::archery::RcK ; $($e),* ; )
+        <$crate::List<_> as ::core::iter::FromIterator<_>>::from_iter([$($e),*])
     };
 }
 
@@ -74,7 +47,7 @@ macro_rules! list {
 #[macro_export]
 macro_rules! list_sync {
     ($($e:expr),*) => {
-        $crate::list_reverse!(::archery::ArcTK ; $($e),* ; )
+        <$crate::ListSync<_> as ::core::iter::FromIterator<_>>::from_iter([$($e),*])
     };
 }
 
-- 
2.43.0


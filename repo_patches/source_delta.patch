From 92b11f0e3a68089c61763b95a7b882dded8fdf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 1/9] fix: connect boolean-op edges only to chains with the
 region on the same side

Several chains may end at a vertex, in particular when three or more
output edges start there. Keeping a single end per vertex joined edges
that have the region on opposite sides, which tripped the winding
assertions, or mislabelled exteriors as holes without them.
---
 src/bops/rings.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..871baa3 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -8,7 +8,7 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    end_points: BTreeMap<SweepPoint<T>, Vec<Link>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -95,24 +95,22 @@ impl<T: GeoFloat> Rings<T> {
         let left = geom.first();
         let right = geom.second();
 
-        let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
-        );
+        let le = self.take_end_point(left, winding.clone());
+        let re = self.take_end_point(right, winding_inverse(winding.clone()));
 
         match (le, re) {
             (None, None) => {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.add_end_point(
                     left,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.add_end_point(
                     right,
                     Link {
                         idx,
@@ -124,30 +122,48 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.add_end_point(left, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.add_end_point(right, i);
                 trace!("\tadded to {i:?}: {right:?}");
-
             }
             (Some(i), Some(j)) => {
                 // Since both end points matched, we don't
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    fn add_end_point(&mut self, pt: SweepPoint<T>, link: Link) {
+        self.end_points.entry(pt).or_default().push(link);
+    }
+
+    /// Remove and return an end of a chain at `pt` that can be extended by an
+    /// edge that has `winding` as it leaves from `pt`.
+    ///
+    /// More than one chain may have an end at `pt`, but the region may lie on
+    /// either side of these.
+    fn take_end_point(&mut self, pt: SweepPoint<T>, winding: WindingOrder) -> Option<Link> {
+        let links = self.end_points.get_mut(&pt)?;
+        let chains = &self.chains;
+        let pos = links.iter().position(|l| {
+            let matches_back = chains[l.idx].winding == winding;
+            matches_back != l.to_front
+        })?;
+        let link = links.remove(pos);
+        if links.is_empty() {
+            self.end_points.remove(&pt);
+        }
+        Some(link)
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
-- 
2.43.0


From 1ea4be490fa782ff1641c899834a1212b65ae052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 2/9] fix: drop deep splay trees without recursing

Inserting in order yields a tree as deep as it is large, and dropping or
clearing it, or an iterator over it, recursed into every node and could
overflow the stack.
---
 src/splay/tree.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..efac784 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,7 +34,12 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
+        // Consume the nodes one by one: the tree may be too deep to be dropped
+        // recursively.
+        drop(IntoIter {
+            cur: self.root_mut().take(),
+            remaining: self.size,
+        });
         self.size = 0;
     }
 
@@ -390,6 +395,12 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        self.for_each(drop);
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From 4840e828bfc0f33ffa6737dfc15a8b04073aaf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 3/9] fix: size the sweep's storage by the lower bound of the
 input's size hint

The upper bound may be arbitrarily larger than the number of items, e.g. for
(0..usize::MAX).map_while(..): building the sweep panicked with a capacity
overflow or exhausted the memory.
---
 src/crossings.rs       | 6 ++----
 src/crossings/sweep.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 7ba6453..82f0201 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -168,10 +168,8 @@ where
 {
     fn from_iter<T: IntoIterator<Item = C>>(iter: T) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be arbitrarily larger than the actual size.
+        let (size, _) = iter.size_hint();
         let sweep = Sweep::new(iter);
         let segments = Vec::with_capacity(4 * size);
         Self { sweep, segments }
diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 6878e98..d71a964 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -252,10 +252,8 @@ where
 {
     pub fn new<I: IntoIterator<Item = C>>(iter: I) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be arbitrarily larger than the actual size.
+        let (size, _) = iter.size_hint();
 
         let mut sweep = Sweep {
             segments: Slab::with_capacity(16 * size).into(),
-- 
2.43.0


From 00397827442e9f223639b18bc708807333c54d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 4/9] fix: splay the neighbour found by SplayTree::next and
 prev

A plain descent to the neighbour costs as much as the tree is deep each
time it is repeated: it is linear on degenerate trees, however often.
---
 src/splay/tree.rs | 58 ++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index efac784..75b058f 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -95,7 +95,7 @@ where
 
     pub fn next(&self, key: &K) -> Option<(&K, &V)> {
         // Splay trees are self-modifying, which is the cause of this ugly mess
-        let mut node: &Node<K, V> = match self.root_mut() {
+        let root: &mut Node<K, V> = match self.root_mut() {
             Some(ref mut root) => {
                 splay(key, root, &self.comparator);
                 root
@@ -103,30 +103,23 @@ where
             None => return None,
         };
 
-        let mut successor: Option<(&K, &V)> = None;
-
-        loop {
-            match (self.comparator)(key, &node.key) {
-                Ordering::Less => {
-                    successor = Some((&node.key, &node.value));
-                    match node.left {
-                        Some(ref left) => node = left,
-                        None => break,
-                    }
-                }
-                Ordering::Equal | Ordering::Greater => match node.right {
-                    Some(ref right) => node = right,
-                    None => break,
-                },
+        if (self.comparator)(key, &root.key) == Ordering::Less {
+            return Some((&root.key, &root.value));
+        }
+        // The root is the largest key up to `key`. Splay its successor too: a
+        // mere descent to it is not paid for by the next operations.
+        match root.right {
+            Some(ref mut right) => {
+                splay(key, right, &self.comparator);
+                Some((&right.key, &right.value))
             }
+            None => None,
         }
-
-        successor
     }
 
     pub fn prev(&self, key: &K) -> Option<(&K, &V)> {
         // Splay trees are self-modifying, which is the cause of this ugly mess
-        let mut node: &Node<K, V> = match self.root_mut() {
+        let root: &mut Node<K, V> = match self.root_mut() {
             Some(ref mut root) => {
                 splay(key, root, &self.comparator);
                 root
@@ -134,25 +127,18 @@ where
             None => return None,
         };
 
-        let mut predecessor: Option<(&K, &V)> = None;
-
-        loop {
-            match (self.comparator)(key, &node.key) {
-                Ordering::Equal | Ordering::Less => match node.left {
-                    Some(ref left) => node = left,
-                    None => break,
-                },
-                Ordering::Greater => {
-                    predecessor = Some((&node.key, &node.value));
-                    match node.right {
-                        Some(ref right) => node = right,
-                        None => break,
-                    }
-                }
+        if (self.comparator)(key, &root.key) == Ordering::Greater {
+            return Some((&root.key, &root.value));
+        }
+        // The root is the smallest key from `key`. Splay its predecessor too: a
+        // mere descent to it is not paid for by the next operations.
+        match root.left {
+            Some(ref mut left) => {
+                splay(key, left, &self.comparator);
+                Some((&left.key, &left.value))
             }
+            None => None,
         }
-
-        predecessor
     }
 
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
-- 
2.43.0


From 2b55d2442e73cc865ac27e8562f892f4cdb97ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 5/9] fix: survive a panicking comparator on deep splay trees

A comparison that panics dropped the subtree held by the splay, or the left
subtree taken out by a removal, recursively: a deep one overflows the stack.
---
 src/splay/tree.rs | 53 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 75b058f..5af85e5 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -183,6 +183,10 @@ where
                 if (self.comparator)(key, &root.key) != Ordering::Equal {
                     return None;
                 }
+                // Splay the left subtree in place, while the tree owns it.
+                if let Some(ref mut left) = root.left {
+                    splay(key, left, &self.comparator);
+                }
             }
         }
 
@@ -191,7 +195,6 @@ where
         *self.root_mut() = match left {
             None => right,
             Some(mut node) => {
-                splay(key, &mut node, &self.comparator);
                 node.right = right;
                 Some(node)
             }
@@ -387,6 +390,26 @@ impl<K, V> Drop for IntoIter<K, V> {
     }
 }
 
+/// Nodes set aside by `splay`: when a comparison panics they may form a tree too
+/// deep to be dropped recursively.
+struct Detached<K, V>(Option<Box<Node<K, V>>>);
+
+impl<K, V> Drop for Detached<K, V> {
+    fn drop(&mut self) {
+        let mut cur = self.0.take();
+        while let Some(mut node) = cur {
+            cur = match node.pop_left() {
+                Some(mut left) => {
+                    node.left = left.pop_right();
+                    left.right = Some(node);
+                    Some(left)
+                }
+                None => node.pop_right(),
+            };
+        }
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
@@ -396,15 +419,15 @@ fn splay<K, V, C>(key: &K, node: &mut Box<Node<K, V>>, comparator: &C)
 where
     C: Fn(&K, &K) -> Ordering,
 {
-    let mut newleft = None;
-    let mut newright = None;
+    let mut newleft = Detached(None);
+    let mut newright = Detached(None);
 
     // Eplicitly grab a new scope so the loans on newleft/newright are
     // terminated before we move out of them.
     {
         // Yes, these are backwards, that's intentional.
-        let mut l = &mut newright;
-        let mut r = &mut newleft;
+        let mut l = &mut newright.0;
+        let mut r = &mut newleft.0;
 
         loop {
             match comparator(key, &node.key) {
@@ -412,12 +435,14 @@ where
                 Ordering::Equal => break,
 
                 Ordering::Less => {
-                    let mut left = match node.pop_left() {
-                        Some(left) => left,
+                    // Compare first: left may be too deep to be dropped.
+                    let ord = match node.left {
+                        Some(ref left) => comparator(key, &left.key),
                         None => break,
                     };
+                    let mut left = node.pop_left().unwrap();
                     // rotate this node right if necessary
-                    if comparator(key, &left.key) == Ordering::Less {
+                    if ord == Ordering::Less {
                         // A bit odd, but avoids drop glue
                         mem::swap(&mut node.left, &mut left.right);
                         mem::swap(&mut left, node);
@@ -438,12 +463,14 @@ where
                 // If you look closely, you may have seen some similar code
                 // before
                 Ordering::Greater => {
-                    let mut right = match node.pop_right() {
-                        Some(right) => right,
+                    // Compare first: right may be too deep to be dropped.
+                    let ord = match node.right {
+                        Some(ref right) => comparator(key, &right.key),
                         None => break,
                     };
+                    let mut right = node.pop_right().unwrap();
 
-                    if comparator(key, &right.key) == Ordering::Greater {
+                    if ord == Ordering::Greater {
                         mem::swap(&mut node.right, &mut right.left);
                         mem::swap(&mut right, node);
                         let none = mem::replace(&mut node.left, Some(right));
@@ -465,6 +492,6 @@ where
         mem::swap(r, &mut node.right);
     }
 
-    node.left = newright;
-    node.right = newleft;
+    node.left = newright.0.take();
+    node.right = newleft.0.take();
 }
-- 
2.43.0


From 3a4bb9ab2ee3e86f61868514e2254025f06b38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 6/9] fix: keep the active segment first among overlapping
 boolean-op edges

---
 src/bops/op.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bops/op.rs b/src/bops/op.rs
index 1f2064d..e0cfb07 100644
--- a/src/bops/op.rs
+++ b/src/bops/op.rs
@@ -74,7 +74,10 @@ impl<T: Float> Op<T> {
                     }
                 })
             }
-            iter.intersections_mut().sort_unstable_by(compare_crossings);
+            // Overlapping segments compare as equal. The first of these to be
+            // reported is the one in the active-set (see `prev_active` below),
+            // and must stay first.
+            iter.intersections_mut().sort_by(compare_crossings);
 
             // Process all end-segments.
             let mut idx = 0;
-- 
2.43.0


From fc9b8fa4a89dd13c928bc138eb96adedb389fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 7/9] fix: keep the interpolated bottom of a trapezoid at or
 below its top

Where the chains of a monotone polygon nearly meet, rounding could
interpolate the bottom chain above the top one. Trapz::area then failed its
assertion, and Scanner::cross_area panicked building the flipped trapezoid.
---
 src/monotone/mono_poly.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/monotone/mono_poly.rs b/src/monotone/mono_poly.rs
index 0643181..81f15bf 100644
--- a/src/monotone/mono_poly.rs
+++ b/src/monotone/mono_poly.rs
@@ -254,13 +254,16 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                 (new_top, bot[self.bot_idx], Ordering::Less, self.curr.x)
             }
         };
+        // Note: chains that nearly touch may be interpolated past each other;
+        // the bottom is not to rise above the top.
         if until < new_x {
+            let top = interpolate(top[self.top_idx], new_top, until);
             Some((
                 None,
                 Trip {
                     x: until,
-                    top: interpolate(top[self.top_idx], new_top, until),
-                    bot: interpolate(bot[self.bot_idx], new_bot, until),
+                    top,
+                    bot: interpolate(bot[self.bot_idx], new_bot, until).min(top),
                 },
             ))
         } else {
@@ -270,7 +273,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Trip {
                         x: new_top.x,
                         top: new_top.y,
-                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x),
+                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x).min(new_top.y),
                     },
                 )),
                 Ordering::Equal => Some((
@@ -285,7 +288,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Some(ord),
                     Trip {
                         x: new_bot.x,
-                        top: interpolate(top[self.top_idx], new_top, new_bot.x),
+                        top: interpolate(top[self.top_idx], new_top, new_bot.x).max(new_bot.y),
                         bot: new_bot.y,
                     },
                 )),
-- 
2.43.0


From 66f9aa0b96ecef58b4fa2be436475f944da188d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 8/9] fix: a monotone sweep cannot be moved once pinned

Its active segments point to its storage. The marker that makes it
`!Unpin` was not itself pinned, so the type stayed `Unpin` and safe
code could move a sweep between two steps.
---
 src/monotone/sweep.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monotone/sweep.rs b/src/monotone/sweep.rs
index 00f1635..e188ee2 100644
--- a/src/monotone/sweep.rs
+++ b/src/monotone/sweep.rs
@@ -39,6 +39,7 @@ pin_project! {
         pt_key: usize,
         events: Vec<Event<T>>,
         active_segments: BTreeSet<Active<Segment<T>>>,
+        #[pin]
         _pin: PhantomPinned,
     }
 }
-- 
2.43.0


From afe2fbc37451957c277c7024b90166a731547051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 9/9] fix: an overlap with a line which started earlier was
 reported twice

---
 src/crossings.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 82f0201..557d42b 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -277,10 +277,11 @@ where
         };
         // Ignore intersections that have already been processed
         let should_compute = if self.is_overlap {
-            // For overlap, we only return intersection if at least
-            // one segment is the first, and both are at left
+            // For overlap, we only return intersection if both
+            // segments start here. If one of them started earlier, its
+            // piece that ends here is paired with the other.
             debug_assert_eq!(si.at_left, sj.at_left);
-            si.at_left && (si.first_segment || sj.first_segment)
+            si.at_left && si.first_segment && sj.first_segment
         } else {
             (!si.at_left || si.first_segment) && (!sj.at_left || sj.first_segment)
         };
-- 
2.43.0


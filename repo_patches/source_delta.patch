From ad4aba285dbb3869e2bc173c9edd6ab5832b45f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 01/18] fix: camefrom_into_path: bound iterations by width *
 height

The limit was width * width, so a valid path in a grid taller than it is
wide could be rejected with Error::Loop.
---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..e5b897a 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::dimensions() + 1;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 7076d60f2ab1e3cf4647cc53aba6ccc39a566a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 02/18] fix: ucs: skip stale frontier entries

A position that was pushed twice was also yielded twice, and the second,
more expensive entry overwrote the "came from" direction of the first,
resulting in paths that were not the cheapest.
---
 src/sqrid/ucs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..8e0ee64 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) {
+                // Stale entry: a cheaper path to pos was already yielded
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 1650a68ebac570346613681a912400f1c5990583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 03/18] fix: astar: skip stale frontier entries

A position that was pushed twice was also yielded twice, and the second,
longer entry overwrote the "came from" direction of the first, resulting
in paths that were not the shortest.
---
 src/sqrid/astar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..f73f7be 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -109,8 +109,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) + pos.manhattan(&self.dest) {
+                // Stale entry: a shorter path to pos was already yielded
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
@@ -121,10 +125,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 4c3910ba2d8abf5fb0684ab2c0bc6397d1edf58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 04/18] fix: astar: use an admissible heuristic when diagonals
 are enabled

The manhattan distance overestimates the number of steps when diagonals
are allowed, and A* could then return a path that was not the shortest.
---
 src/sqrid/astar.rs    | 15 +++++++++++++--
 src/sqrid/postrait.rs | 17 +++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index f73f7be..f41e628 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -56,6 +56,17 @@ use super::Grid;
 use super::MapPos;
 use super::Sqrid;
 
+/* Heuristic ******************************************************************/
+
+/// Minimum number of steps from `pos` to `dest`
+fn heuristic<P: PosT, const D: bool>(pos: &P, dest: &P) -> usize {
+    if D {
+        pos.chebyshev(dest)
+    } else {
+        pos.manhattan(dest)
+    }
+}
+
 /* AstarIterator **************************************************************/
 
 /// Internal A* iterator
@@ -111,7 +122,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
-            if priority > *self.cost.get(&pos) + pos.manhattan(&self.dest) {
+            if priority > *self.cost.get(&pos) + heuristic::<P, D>(&pos, &self.dest) {
                 // Stale entry: a shorter path to pos was already yielded
                 continue;
             }
@@ -120,7 +131,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + heuristic::<P, D>(&next_pos, &self.dest));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..369a6f2 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -196,6 +196,23 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
         into_or_panic!(dx) + into_or_panic!(dy)
     }
 
+    /// Return the chebyshev distance: the number of steps required when diagonals are allowed
+    fn chebyshev(&self, pos: &Self) -> usize {
+        let dx = if self.x() > pos.x() {
+            self.x().checked_sub(pos.x()).unwrap()
+        } else {
+            pos.x().checked_sub(self.x()).unwrap()
+        };
+        let dy = if self.y() > pos.y() {
+            self.y().checked_sub(pos.y()).unwrap()
+        } else {
+            pos.y().checked_sub(self.y()).unwrap()
+        };
+        let dx: usize = into_or_panic!(dx);
+        let dy: usize = into_or_panic!(dy);
+        dx.max(dy)
+    }
+
     /// Check that the position is inside the provided limits
     fn inside(&self, pos1: &Self, pos2: &Self) -> bool {
         let (xmin, xmax) = if pos1.x() < pos2.x() {
-- 
2.43.0


From b6bb46c8d828b916f4796cd68669d9c751a96a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 05/18] fix: PosTIterRange: don't skip the last position

The position was lost when the range reached the last line of the grid
but not its last column.
---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 369a6f2..e9ba459 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -534,8 +534,8 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    let y = p.y().inc();
+                    pos = y.and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From 427bd97c5156963ec362eb09a4dcd28fa65b0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 06/18] fix: Gridbool rotate_cw and rotate_cc: rotate the
 innermost ring

The 2x2 ring in the center of grids with an even side was not rotated.
---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..eb9b484 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX.div_ceil(2) {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX.div_ceil(2) {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From 902858bd1b8892867568a5c47189dd6f5c5c6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 07/18] fix: Gridbool::repeat: keep the unused bits clear

repeat(true) and ALL_TRUE also set the bits that don't have a position,
and were then different from a Gridbool with the same values built by
other means, as those bits are considered by PartialEq, Ord and Hash.
---
 src/sqrid/gridbool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index eb9b484..3d36d6e 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,13 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Bits that don't have a position are always 0:
+        let last = P::WIDTH * P::HEIGHT / 32;
+        if value && last < WORDS {
+            words[last] = !(Self::WORD_TRUE >> (P::WIDTH * P::HEIGHT % 32));
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From 6c349072912a1953393d81cf294b923d8b3db5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 08/18] fix: Pos::try_from((i32, i32)): don't truncate the
 coordinates

Values outside the u16 range wrapped around into valid coordinates.
---
 src/sqrid/pos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..8981253 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,9 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        let x = u16::try_from(xy.0).or(Err(Error::OutOfBounds))?;
+        let y = u16::try_from(xy.1).or(Err(Error::OutOfBounds))?;
+        Pos::new(x, y)
     }
 }
 
-- 
2.43.0


From 0672dd7e41c27e6f7e21658984615e4ad4db5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 09/18] fix: Grid::extend_from_vecvec: don't truncate the
 coordinates

Indexes outside the u16 range wrapped around into valid coordinates.
---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d4cd094 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -191,7 +191,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From c49e96d280ab84a121281d1810c65ade0210c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/18] fix: PosT for integer tuples: WIDTH and HEIGHT are off
 by one

They didn't agree with width() and height(), and made it impossible to
create a Gridbool with enough bits for all positions.
---
 src/sqrid/postrait.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index e9ba459..bf361bd 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -604,8 +604,10 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            const WIDTH: usize =
+                ({ <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize).saturating_add(1);
+            const HEIGHT: usize =
+                ({ <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From b55d748a4eff494194cd1a004b52d3d61ec49934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 11/18] fix: Grid: check SIZE in the constructors

The compile-time check was never instantiated, so a Grid with a SIZE that
doesn't match its positions could be created, and get accesses it
unchecked.
---
 src/sqrid/grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d4cd094..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
-- 
2.43.0


From 5132dd2076d3d1d05377ae0b6e2b465ca9f3d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 12/18] fix: iter_in_x, iter_in_y: start at the minimum
 coordinate

Positions with negative coordinates were skipped.
---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index bf361bd..a1219d5 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -360,7 +360,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -368,7 +368,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From 3b7c9d1f79ddf01a6c693a836e5853e546941760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 13/18] fix: ucs: don't overflow when adding costs

A cost sum above usize::MAX panicked or wrapped into a lower cost.
---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 8e0ee64..9088fdb 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From d0862f3101e9641304090b0e7eb36a1c5119e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 14/18] fix: bf_iter: don't yield the origin

The origin was marked as visited only after its neighbors were processed,
so it was yielded when a movement led back to it.
---
 src/sqrid/bf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..ccf25c3 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -135,6 +135,7 @@ where
             return None;
         }
         for &(pos, _) in &front {
+            self.visited.insert(pos);
             for dir in Dir::iter::<D>() {
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if self.visited.contains(&next_pos) {
@@ -144,7 +145,6 @@ where
                     self.visited.insert(next_pos);
                 }
             }
-            self.visited.insert(pos);
         }
         Some(front)
     }
-- 
2.43.0


From 350d84c931c3b4a8931d40b9db64ed00d35232fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 15/18] fix: bounded integers: make the inner value private

It allowed the creation of out-of-bounds values, which Grid uses to index
memory without checking.
---
 src/sqrid/boundedint.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index e0cede3..da9679d 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -307,55 +307,55 @@ macro_rules! boundedint_type_create {
 
 /// A bounded u8
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU8<const MIN: u8, const MAX: u8>(pub u8);
+pub struct BoundedU8<const MIN: u8, const MAX: u8>(u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU16<const MIN: u16, const MAX: u16>(pub u16);
+pub struct BoundedU16<const MIN: u16, const MAX: u16>(u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU32<const MIN: u32, const MAX: u32>(pub u32);
+pub struct BoundedU32<const MIN: u32, const MAX: u32>(u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU64<const MIN: u64, const MAX: u64>(pub u64);
+pub struct BoundedU64<const MIN: u64, const MAX: u64>(u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedU128<const MIN: u128, const MAX: u128>(pub u128);
+pub struct BoundedU128<const MIN: u128, const MAX: u128>(u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedIsize<const MIN: isize, const MAX: isize>(pub isize);
+pub struct BoundedIsize<const MIN: isize, const MAX: isize>(isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI8<const MIN: i8, const MAX: i8>(pub i8);
+pub struct BoundedI8<const MIN: i8, const MAX: i8>(i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI16<const MIN: i16, const MAX: i16>(pub i16);
+pub struct BoundedI16<const MIN: i16, const MAX: i16>(i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI32<const MIN: i32, const MAX: i32>(pub i32);
+pub struct BoundedI32<const MIN: i32, const MAX: i32>(i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI64<const MIN: i64, const MAX: i64>(pub i64);
+pub struct BoundedI64<const MIN: i64, const MAX: i64>(i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
 #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
-pub struct BoundedI128<const MIN: i128, const MAX: i128>(pub i128);
+pub struct BoundedI128<const MIN: i128, const MAX: i128>(i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From 7f9b3df9e8bc8867739ee5e495a508f5ce23d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 16/18] fix: bounded integers: don't create out-of-bounds
 values in Default and From<bool>

Default returned 0 and From<bool> returned 0 or 1 even when these are not
within the bounds. Default is now the valid value that is closest to 0,
and From<bool> panics, like new_unwrap.
---
 src/sqrid/boundedint.rs | 45 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index da9679d..ff92969 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -257,6 +257,27 @@ macro_rules! boundedint_type_create {
                     .map(|v| Self(v))
                     .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))
             }
+
+            // The value 1 might not be within bounds, so we can't use `one`:
+            fn inc(self) -> Option<Self> {
+                self.0.checked_add(1).and_then(|v| Self::new(v).ok())
+            }
+            fn dec(self) -> Option<Self> {
+                self.0.checked_sub(1).and_then(|v| Self::new(v).ok())
+            }
+        }
+
+        impl<const MIN: $type, const MAX: $type> Default for $name<MIN, MAX> {
+            /// The valid value that is closest to 0
+            fn default() -> Self {
+                if MIN > <$type>::default() {
+                    <Self as BoundedInt>::MIN
+                } else if MAX < <$type>::default() {
+                    <Self as BoundedInt>::MAX
+                } else {
+                    Self(<$type>::default())
+                }
+            }
         }
 
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
@@ -279,7 +300,7 @@ macro_rules! boundedint_type_create {
 
         impl<const MIN: $type, const MAX: $type> From<bool> for $name<MIN, MAX> {
             fn from(value: bool) -> Self {
-                $name(value.into())
+                Self::new_unwrap(value.into())
             }
         }
 
@@ -306,56 +327,56 @@ macro_rules! boundedint_type_create {
 }
 
 /// A bounded u8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU8<const MIN: u8, const MAX: u8>(u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU16<const MIN: u16, const MAX: u16>(u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU32<const MIN: u32, const MAX: u32>(u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU64<const MIN: u64, const MAX: u64>(u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU128<const MIN: u128, const MAX: u128>(u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedIsize<const MIN: isize, const MAX: isize>(isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI8<const MIN: i8, const MAX: i8>(i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI16<const MIN: i16, const MAX: i16>(i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI32<const MIN: i32, const MAX: i32>(i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI64<const MIN: i64, const MAX: i64>(i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI128<const MIN: i128, const MAX: i128>(i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From d04dc1e333f1dd66547dce4d0edfa31496274c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 17/18] fix: Dir::next without diagonals: don't panic on NW, go
 to the next cardinal

---
 src/sqrid/dir.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sqrid/dir.rs b/src/sqrid/dir.rs
index a9ca60f..f0838c7 100644
--- a/src/sqrid/dir.rs
+++ b/src/sqrid/dir.rs
@@ -166,12 +166,12 @@ impl Dir {
     pub const fn next<const D: bool>(&self) -> Option<Self> {
         // PartialEq is no const, but this is:
         let index = *self as usize;
-        if (D && index == 7) || (!D && index == 6) {
-            None
-        } else if D {
-            Some(Dir::ALL8[(*self as usize) + 1])
+        // Without diagonals, skip to the next even index:
+        let next = if D { index + 1 } else { index + 2 - index % 2 };
+        if next < Self::SIZE {
+            Some(Dir::ALL8[next])
         } else {
-            Some(Dir::ALL8[(*self as usize) + 2])
+            None
         }
     }
 
-- 
2.43.0


From 166f7d6ce8adeed0e2e4990bfa0ce681045d5dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:05 +0000
Subject: [PATCH 18/18] fix: position iterators: size_hint is the number of
 positions left, not the whole grid

---
 src/sqrid/postrait.rs | 56 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index a1219d5..9732eb1 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -438,6 +438,28 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/* Helpers for the iterators' `size_hint` */
+
+/// Number of values from `from` to `to`, inclusive, if it's positive and fits in a `usize`.
+fn count_values<T: BoundedInt>(from: T, to: T) -> Option<usize> {
+    let from: usize = from.try_into().ok()?;
+    let to: usize = to.try_into().ok()?;
+    to.checked_sub(from)?.checked_add(1)
+}
+
+/// Number of positions from `from` to `to`, inclusive, when traversed along T and then U.
+fn count_positions<T: BoundedInt, U: BoundedInt>(from: (T, U), to: (T, U)) -> Option<usize> {
+    let total = count_values(from.1, to.1)?.checked_mul(count_values(T::MIN, T::MAX)?)?;
+    let before = count_values(T::MIN, from.0)? - 1;
+    let after = count_values(to.0, T::MAX)? - 1;
+    total.checked_sub(before)?.checked_sub(after)
+}
+
+/// Return the hint for the given number of values, if known.
+fn hint(count: Option<usize>) -> (usize, Option<usize>) {
+    (count.unwrap_or(0), count)
+}
+
 /* PosTIter */
 
 /// Iterator for positions
@@ -478,8 +500,11 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        hint(match (&self.cur, &self.end) {
+            (Some(cur), Some(end)) if XFIRST => count_positions(cur.tuple(), end.tuple()),
+            (Some(cur), Some(end)) => count_positions((cur.y(), cur.x()), (end.y(), end.x())),
+            _ => Some(0),
+        })
     }
 }
 
@@ -523,6 +548,18 @@ impl<P: PosT + Copy> PosTIterRange<P> {
             value: Some(topleft),
         }
     }
+
+    /// Number of positions still to be returned, if it fits in a `usize`.
+    fn remaining(&self) -> Option<usize> {
+        let Some(value) = &self.value else {
+            return Some(0);
+        };
+        let line = count_values(value.x(), self.botright.x())?;
+        let lines = count_values(value.y(), self.botright.y())? - 1;
+        count_values(self.topleft.x(), self.botright.x())?
+            .checked_mul(lines)?
+            .checked_add(line)
+    }
 }
 
 impl<P: PosT> Iterator for PosTIterRange<P> {
@@ -545,8 +582,7 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        hint(self.remaining())
     }
 }
 
@@ -569,8 +605,10 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
-        (size, Some(size))
+        hint(match &self.0 {
+            Some(pos) => count_values(pos.y(), P::Ytype::MAX),
+            None => Some(0),
+        })
     }
 }
 
@@ -592,8 +630,10 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
-        (size, Some(size))
+        hint(match &self.0 {
+            Some(pos) => count_values(pos.x(), P::Xtype::MAX),
+            None => Some(0),
+        })
     }
 }
 
-- 
2.43.0


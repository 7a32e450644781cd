From 423d44116d7f609d31a9bf472ac5bb43c6f761b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 01/13] fix: allow paths of up to width*height steps in
 camefrom_into_path

The iteration cap was computed as width*width + 1, so grids taller than
wide reported Error::Loop for valid paths, and (u32, u32) positions
overflowed the multiplication.
---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..9707c81 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::width().saturating_mul(P::height()).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 2f2b1489c55f5792cf8b4c95d946c06b1375b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 02/13] fix: never deliver the origin in breadth-first
 iteration

The origin was only marked as visited after being expanded, so a go
function that answers with the origin itself had it queued, delivered by
BfIterator and reported as found by the path searches.
---
 src/sqrid/bf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..edb6d14 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -115,6 +115,9 @@ where
             nextfront: vec![(*orig, Dir::default())],
             go,
         };
+        // The origin is visited from the start, so that a move that comes
+        // back to it right away is not taken for a new position:
+        bfs.visited.insert(*orig);
         // Process origins:
         let _ = bfs.next();
         bfs
-- 
2.43.0


From 0c2d9bb7e981ffd7c1be9b874ec56805e1ec97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 03/13] fix: make A* return shortest paths

Two problems made astar paths longer than necessary, or made the path
reconstruction fail with Error::Loop: frontier entries superseded by a
better one were still yielded and overwrote the better came-from
direction, and with diagonals the manhattan distance overestimates the
number of movements left.
---
 src/sqrid/astar.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..28dff37 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -97,6 +97,17 @@ impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usi
         it.cost.set(*orig, 0);
         it
     }
+
+    /// Lower bound for the number of movements from `pos` to the destination
+    fn heuristic(&self, pos: &P) -> usize {
+        let distance = pos.manhattan(&self.dest);
+        if D {
+            // A diagonal movement covers two units of manhattan distance
+            distance.div_ceil(2)
+        } else {
+            distance
+        }
+    }
 }
 
 impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize> Iterator
@@ -109,22 +120,25 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(estimate), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if estimate > self.cost.get(&pos).saturating_add(self.heuristic(&pos)) {
+                // We have already found a better way to get here
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + self.heuristic(&next_pos));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From e7785eeddd28bf78ecf480f20059cc7dcd54dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 04/13] fix: make UCS return minimum-cost paths

Frontier entries superseded by a cheaper one were still yielded and
overwrote the cheaper came-from direction.
---
 src/sqrid/ucs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..a2162fb 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(cost), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if cost > *self.cost.get(&pos) {
+                // We have already found a cheaper way to get here
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From e81fa35ab6c64cab2710e399a03878e410e365f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 05/13] fix: saturate UCS costs instead of overflowing

A step cost that doesn't fit on top of the accumulated one panicked in
debug builds, and wrapped around to a small cost in release builds.
---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index a2162fb..5f58124 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From a6222a36bcacfbea370d86532b4f88ba48750e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 06/13] fix: keep unused bits of all-true boolean grids cleared

---
 src/sqrid/gridbool.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..625188e 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,18 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        if value {
+            // The bits that don't correspond to any position are always
+            // zero, otherwise equal contents could compare as different:
+            let unused = WORDS * 32 - P::WIDTH * P::HEIGHT;
+            words[WORDS - 1] = if unused < 32 {
+                Self::WORD_TRUE << unused
+            } else {
+                Self::WORD_FALSE
+            };
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From aea4abe0c9437648caf7ea393f4166cbc12f26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 07/13] fix: rotate the innermost ring of even-sided boolean
 grids

---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index 625188e..fe14072 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -231,7 +231,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -252,7 +252,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From 7c673563c70917dfeba5f10eb0358ec17e738257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 08/13] fix: report rows and columns over 65535 as out of
 bounds

---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d4cd094 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -191,7 +191,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From 08bcd79a70387fe1160b1a213c3daca11b2ea1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 09/13] fix: start row and column iteration at the first
 coordinate

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..8fe0583 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From 41c2810b7d575bf49260af2fea51b1664c6d4959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 10/13] fix: yield the last position of ranges touching the
 bottom row

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 8fe0583..6265f94 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,8 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    let y = p.y().inc();
+                    pos = y.and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From fd9a6e8a7480073b6a69425315d80ad2b314fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 11/13] fix: compute distances that do not fit the coordinate
 type

---
 src/sqrid/astar.rs      |  4 ++--
 src/sqrid/boundedint.rs | 18 ++++++++++++++++++
 src/sqrid/postrait.rs   | 14 +++-----------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index 28dff37..8d61f29 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -131,8 +131,8 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + self.heuristic(&next_pos));
-                        self.frontier.push((priority, (next_pos, -dir)));
+                        let estimate = newcost.saturating_add(self.heuristic(&next_pos));
+                        self.frontier.push((Reverse(estimate), (next_pos, -dir)));
                     }
                 }
             }
diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index e0cede3..da5b3bb 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -90,6 +90,18 @@ where
         self.checked_sub(Self::one())
     }
 
+    /// Return the distance between two values, saturating at [`usize::MAX`].
+    ///
+    /// The default implementation panics if the type can't represent the distance itself.
+    fn distance(self, other: Self) -> usize {
+        let difference = if self > other {
+            self.checked_sub(other).unwrap()
+        } else {
+            other.checked_sub(self).unwrap()
+        };
+        difference.try_into().unwrap_or(usize::MAX)
+    }
+
     /// Return an iterator for all values of this `BoundedInt` type.
     fn iter() -> BoundedIntIterator<Self> {
         BoundedIntIterator::new(Self::MIN, Self::MAX)
@@ -114,6 +126,9 @@ macro_rules! boundedint_impl {
             fn checked_sub(self, rhs: Self) -> Option<Self> {
                 self.checked_sub(rhs)
             }
+            fn distance(self, other: Self) -> usize {
+                usize::try_from(self.abs_diff(other)).unwrap_or(usize::MAX)
+            }
         }
     };
 }
@@ -257,6 +272,9 @@ macro_rules! boundedint_type_create {
                     .map(|v| Self(v))
                     .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))
             }
+            fn distance(self, other: Self) -> usize {
+                self.0.distance(other.0)
+            }
         }
 
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 6265f94..6b4d381 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -183,17 +183,9 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
 
     /// Return the manhattan distance
     fn manhattan(&self, pos: &Self) -> usize {
-        let dx = if self.x() > pos.x() {
-            self.x().checked_sub(pos.x()).unwrap()
-        } else {
-            pos.x().checked_sub(self.x()).unwrap()
-        };
-        let dy = if self.y() > pos.y() {
-            self.y().checked_sub(pos.y()).unwrap()
-        } else {
-            pos.y().checked_sub(self.y()).unwrap()
-        };
-        into_or_panic!(dx) + into_or_panic!(dy)
+        let dx = self.x().distance(pos.x());
+        let dy = self.y().distance(pos.y());
+        dx.saturating_add(dy)
     }
 
     /// Check that the position is inside the provided limits
-- 
2.43.0


From 97f9eee16f32fd8e1c14a840b91ad0ab72203d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 12/13] fix: rebuild paths between positions of any integer
 type

---
 src/sqrid/mappos.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index 9707c81..0fcbfaf 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -105,24 +105,30 @@ where
     P: std::ops::Add<Dir, Output = Result<P, Error>>,
     MapPosDir: MapPos<Option<Dir>, P, WORDS, SIZE>,
 {
-    let distance = orig.manhattan(dest);
-    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
+    let mut ret = collections::VecDeque::<Dir>::new();
     let mut pos = *dest;
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
-    // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width().saturating_mul(P::height()).saturating_add(1);
+    // Detect cycles by keeping track of a previous position, that gets
+    // replaced after a number of steps that doubles each time:
+    let mut mark = pos;
+    let mut steps = 0_usize;
+    let mut limit = 1_usize;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
         pos = (pos + dir).or(Err(Error::InvalidMovement))?;
-        maxiter -= 1;
-        if maxiter == 0 {
-            // We have iterated more than the total coordinates,
-            // there's definitely a loop:
+        if pos == mark {
+            // We are back where we have already been:
             return Err(Error::Loop);
         }
+        steps += 1;
+        if steps == limit {
+            mark = pos;
+            steps = 0;
+            limit = limit.saturating_mul(2);
+        }
     }
     Ok(Vec::from(ret))
 }
-- 
2.43.0


From 84c7d57c5a1aeccac99091d8f2284d800fc7b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 13/13] fix: announce how many positions an iteration still has

The size hints of the position iterators were those of the whole grid, and
computing them overflowed for positions of large integer types: collecting
a small rectangle of (i32, i32) positions panicked with a capacity overflow,
and taking some (u64, u64) positions with an arithmetic one.
---
 src/sqrid/postrait.rs | 58 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 6b4d381..a4fb04f 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -413,6 +413,30 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/// Size hint of an iteration that has to go from `first` to `last`,
+/// the latter being `lines` lines ahead. Each line has `width + 1`
+/// positions.
+fn remaining<T: BoundedInt>(
+    lines: usize,
+    width: usize,
+    first: T,
+    last: T,
+) -> (usize, Option<usize>) {
+    let full = width
+        .checked_add(1)
+        .and_then(|width| width.checked_mul(lines))
+        .and_then(|size| size.checked_add(1));
+    let size = if first <= last {
+        full.and_then(|size| size.checked_add(last.distance(first)))
+    } else {
+        full.map(|size| size - first.distance(last))
+    };
+    match size {
+        Some(size) => (size, Some(size)),
+        None => (usize::MAX, None),
+    }
+}
+
 /* PosTIter */
 
 /// Iterator for positions
@@ -453,8 +477,16 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        let (Some(cur), Some(end)) = (self.cur, self.end) else {
+            return (0, Some(0));
+        };
+        if XFIRST {
+            let width = P::Xtype::MAX.distance(P::Xtype::MIN);
+            remaining(cur.y().distance(end.y()), width, cur.x(), end.x())
+        } else {
+            let height = P::Ytype::MAX.distance(P::Ytype::MIN);
+            remaining(cur.x().distance(end.x()), height, cur.y(), end.y())
+        }
     }
 }
 
@@ -520,8 +552,16 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        let Some(pos) = self.value else {
+            return (0, Some(0));
+        };
+        if pos.x() > self.botright.x() || pos.y() > self.botright.y() {
+            // Not a rectangle
+            return (1, None);
+        }
+        let width = self.botright.x().distance(self.topleft.x());
+        let lines = self.botright.y().distance(pos.y());
+        remaining(lines, width, pos.x(), self.botright.x())
     }
 }
 
@@ -544,8 +584,9 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
-        (size, Some(size))
+        self.0.map_or((0, Some(0)), |pos| {
+            remaining(0, 0, pos.y(), P::Ytype::MAX)
+        })
     }
 }
 
@@ -567,8 +608,9 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
-        (size, Some(size))
+        self.0.map_or((0, Some(0)), |pos| {
+            remaining(0, 0, pos.x(), P::Xtype::MAX)
+        })
     }
 }
 
-- 
2.43.0


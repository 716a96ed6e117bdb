From 2cd101cb2fcab1e25ec346ca91b8c2c063fec0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 01/17] fix: normalize must not leave degenerate or inverted
 Closed intervals

---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..7a43368 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From e47e27a42cfa737f95ee339682d17b91df664773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 02/17] fix: denormalize To and From must keep their included
 endpoint

---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 7a43368..db5bfa7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 08e562b0b9aead61394e1ceefd054d407f5c3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 03/17] fix: enclose_all must start from the empty interval

---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From c9a6a2f630d67646ff2e84d6ff4aad74c75f6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 04/17] fix: Interval::complement must not yield empty
 intervals

---
 src/interval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..75119d6 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1570,6 +1570,7 @@ impl<T> Interval<T>
             .complement()
             .map(Normalize::normalized)
             .map(Interval)
+            .filter(|i| !i.is_empty())
     }
     
     /// Returns the largest `Interval` whose points are all contained entirely
-- 
2.43.0


From c5e8165dac2bfa3b0944b2d9f82f70cb7dad9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 05/17] fix: Interval::union must merge intervals adjacent
 after normalization

---
 src/interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 75119d6..42e17cc 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1614,9 +1614,9 @@ impl<T> Interval<T>
     /// # }
     /// ```
     pub fn union(&self, other: &Self) -> impl Iterator<Item=Self> {
-        // TODO: Fix intervals that are adjacent after normalization.
-        self.0
-            .union(&other.0)
+        // Denormalized intervals overlap if they are adjacent when normalized.
+        self.0.clone().denormalized()
+            .union(&other.0.clone().denormalized())
             .map(Normalize::normalized)
             .map(Interval)
     }
-- 
2.43.0


From d327d7dc3ccc8e8cc050063652f5706afeb52fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 06/17] fix: Tine::minus must keep every side of the boundary
 it does not remove

---
 src/tine.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..9ba5522 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -226,6 +226,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +240,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +251,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
-- 
2.43.0


From 68362a371143551022cd3539561c75429a149f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 07/17] fix: Tine::intersect with an excluded point must keep
 the open side

---
 src/tine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tine.rs b/src/tine.rs
index 9ba5522..f8d522e 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,6 +182,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
@@ -202,6 +203,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
-- 
2.43.0


From 2e5942149f9077113f6359c129a46be109e318f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 08/17] fix: minus of a point must not restore an already
 excluded point

---
 src/tine_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..ecfa355 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -664,7 +664,10 @@ impl<T> TineTree<T> where T: Ord + Clone {
             (true,  true)  => {
                 // (   )
                 //   |
-                self.0.insert(p.invert());
+                //     O R
+                // ( ) ( )
+                //   |
+                self.0.insert(if p.is_point_include() {p.invert()} else {p});
             },
             (true,  false) => {
                 // ( )   ( )
-- 
2.43.0


From f8b1865421365b5a3cb9ac9abdd9566df07428f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 09/17] fix: intersect_in_place must keep partial overlaps at
 coinciding bounds

---
 src/tine_tree.rs | 91 +++++++++---------------------------------------
 1 file changed, 16 insertions(+), 75 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index ecfa355..c835e8b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -323,91 +323,32 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
+        // We need to detect whether the bounds are inside or outside an
+        // interval. To do this, we look at the tines before and after them.
+        let open_before = ts[0]
+            .as_ref()
+            .is_some_and(Tine::is_lower_bound);
+        let closed_after = ts[5]
+            .as_ref()
+            .is_some_and(Tine::is_upper_bound);
+
+        // Merge tines if overlap or use given ones, ignoring them if they are
+        // not wrapped by a surrounding interval. Everything between the bounds
+        // is already in the tree.
         let merged_l = if ts[2].is_some() {
             ts[2].take().and_then(|lower| lower.intersect(&l))
         } else {
-            Some(l)
+            open_before.then_some(l)
         };
 
         let merged_u = if ts[3].is_some() {
             ts[3].take().and_then(|upper| upper.intersect(&u))
         } else {
-            Some(u)
+            closed_after.then_some(u)
         };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
-        // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
-        let open_before = ts[0]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-        let closed_after = ts[5]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-
-        let in_l = ts[1]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        if let Some(l) = merged_l {self.0.insert(l);}
+        if let Some(u) = merged_u {self.0.insert(u);}
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 44a06d429c08d845f19fded49a2ab7a2ea861180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 10/17] fix: TineTree::intersect must visit every pair of
 overlapping intervals

---
 src/tine_tree.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index c835e8b..f21eabe 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -180,27 +180,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
     /// `TineTree`s.
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
-        let mut other_intervals = other.interval_iter();
-
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
-
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
-            }
-        }
-        intersection
+        self.minus(&other.complement())
     }
 
     /// Returns a `TineTree` containing all points present in either of the 
-- 
2.43.0


From 419559e79ac163645370c297d243ba380efc6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 11/17] fix: reverse interval iteration must share excluded
 points between neighbours

---
 src/tine_tree.rs | 64 +++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index f21eabe..999e074 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -957,13 +957,15 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.inner.next() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        // A saved tine has already been used as a lower bound.
+                        self.saved_upper.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -993,13 +995,15 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        // A saved tine has already been used as an upper bound.
+                        self.saved_lower.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -1046,13 +1050,15 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        // A saved tine has already been used as a lower bound.
+                        self.saved_upper.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1083,13 +1089,15 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        // A saved tine has already been used as an upper bound.
+                        self.saved_lower.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From 818c8cd483db85084cbc55ea489d0439ac1689f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 12/17] fix: Selection::closure must not widen past the
 enclosing interval

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..9981b18 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -712,7 +712,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From 7e075d53a9c37eaf285631503966102615ed490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 13/17] fix: Selection::is_bounded must hold for the empty
 selection

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9981b18..afc54ad 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -368,7 +368,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From 47866e2a2d3b46bfde8b407af22a1c9dedbc87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 14/17] fix: Selection operations must keep their intervals
 denormalized

---
 src/selection.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index afc54ad..e303456 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,12 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    /// Constructs a `Selection` from the intervals of a `TineTree` which may
+    /// not be denormalized.
+    fn from_tree(tree: TineTree<T>) -> Self {
+        Self(tree).into_interval_iter().collect()
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -500,7 +506,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +558,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::from_tree(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +601,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::from_tree(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +668,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::from_tree(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -759,7 +765,9 @@ impl<T> Selection<T>
     /// # }
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
-        self.0.intersect_in_place(&interval.0.denormalized());
+        let mut tree = std::mem::take(&mut self.0);
+        tree.intersect_in_place(&interval.0.denormalized());
+        *self = Self::from_tree(tree);
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -845,7 +853,9 @@ impl<T> Selection<T>
     /// # }
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
-        self.0.minus_in_place(&interval.0.denormalized());
+        let mut tree = std::mem::take(&mut self.0);
+        tree.minus_in_place(&interval.0.denormalized());
+        *self = Self::from_tree(tree);
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c939d0b264023d3ca69bb2c7ebfe14f1c3587536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 15/17] fix: Selection point iterators must keep separate front
 and back intervals

---
 src/selection.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index e303456..fdde069 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -884,6 +884,7 @@ impl<T> Selection<T>
         Iter {
             intervals: self.0.interval_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -898,6 +899,7 @@ impl<T> IntoIterator for Selection<T>
         IntoIter {
             intervals: self.0.into_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -912,6 +914,7 @@ impl<'a, T> IntoIterator for &'a Selection<T>
         Iter {
             intervals: self.0.interval_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -1066,8 +1069,10 @@ pub struct IntoIter<T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
-    /// The current interval.
+    /// The current interval at the front.
     current: crate::interval::Iter<T>,
+    /// The current interval at the back.
+    current_back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1086,7 +1091,7 @@ impl<T> Iterator for IntoIter<T>
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current_back.next(),
         };
 
         self.current.next()
@@ -1097,20 +1102,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.current_back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.current_back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current.next_back(),
         };
 
-        self.current.next_back()
+        self.current_back.next_back()
     }
 }
 
@@ -1128,8 +1133,10 @@ pub struct Iter<'t, T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
-    /// The current interval.
+    /// The current interval at the front.
     current: crate::interval::Iter<T>,
+    /// The current interval at the back.
+    current_back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1148,7 +1155,7 @@ impl<'t, T> Iterator for Iter<'t, T>
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current_back.next(),
         };
 
         self.current.next()
@@ -1159,20 +1166,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.current_back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.current_back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current.next_back(),
         };
 
-        self.current.next_back()
+        self.current_back.next_back()
     }
 }
 
-- 
2.43.0


From 105fb2b7978597d328ec11200422bd32ca6b7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 16/17] fix: union_all must merge every interval touched by a
 later one

---
 src/raw_interval.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..342bbe3 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -414,20 +414,22 @@ impl<T> RawInterval<T> where T: Ord + Clone {
         // Get first interval.
         if let Some(start) = it.next() {
             // Fold over remaining intervals.
-            it.fold(vec![start], |mut prev, next| {
+            it.fold(vec![start], |mut prev, mut next| {
                 // Early exit for full interval.
                 if next == Self::Full {
                     return vec![Self::Full];
                 }
-                let mut append = true;
-                for item in &mut prev {
+                // Merge every interval touching the next one.
+                let mut i = 0;
+                while i < prev.len() {
+                    let item = &prev[i];
                     if item.intersects(&next) || item .is_adjacent_to(&next) {
-                        *item = item.enclose(&next);
-                        append = false;
-                        break;
+                        next = prev.remove(i).enclose(&next);
+                    } else {
+                        i += 1;
                     }
                 }
-                if append {prev.push(next);}
+                prev.push(next);
                 prev
             })
         } else {
-- 
2.43.0


From 53d7e0aa0fe7f8ad00576dd075d14b4139e02df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 17/17] fix: RawInterval::from_str must reject text beside the
 infinity and empty-set signs

---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 342bbe3..f051c11 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -464,14 +464,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x == "(-∞" {
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -483,7 +483,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if y == "∞)" {
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


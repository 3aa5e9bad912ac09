From 82aea0dce834f723ecc4563ea0426c9677c5e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:23 +0000
Subject: [PATCH 01/39] hook: expose the crate's types behind cfg(geos_verif)

---
 src/core/algorithm/robust_line_intersector.rs | 12 ++++
 src/lib.rs                                    |  3 +
 src/verif.rs                                  | 65 +++++++++++++++++++
 3 files changed, 80 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/core/algorithm/robust_line_intersector.rs b/src/core/algorithm/robust_line_intersector.rs
index 89fc525..5bee3bb 100644
--- a/src/core/algorithm/robust_line_intersector.rs
+++ b/src/core/algorithm/robust_line_intersector.rs
@@ -540,3 +540,15 @@ impl RobustLineIntersector {
         return (zp + zq) / 2.0;
     }
 }
+
+/// Read access to the intersector's private outcome, for the verification harness.
+#[cfg(geos_verif)]
+impl RobustLineIntersector {
+    pub fn verif_result(&self) -> i32 {
+        return self.result;
+    }
+
+    pub fn verif_is_proper(&self) -> bool {
+        return self.is_proper;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 910ec52..dfc62ed 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,6 @@
 
 mod core;
 mod tests;
+
+#[cfg(geos_verif)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..26bf1ed
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,65 @@
+//! Re-exports of the crate's types for the verification harness.
+//! Compiled only with `--cfg geos_verif`.
+
+pub use crate::core::algorithm::{
+    angle::Angle,
+    area::Area,
+    centroid::Centroid,
+    cg_algorithms_3d::CGAlgorithms3D,
+    cg_algorithms_dd::CGAlgorithmsDD,
+    distance::Distance,
+    hcoordinate::HCoordinate,
+    intersection::Intersection,
+    length::Length,
+    line_intersector::LineIntersector,
+    orientation::Orientation,
+    point_location::PointLocation,
+    ray_crossing_counter::RayCrossingCounter,
+    robust_line_intersector::RobustLineIntersector,
+};
+pub use crate::core::geom::{
+    coordinate::Coordinate,
+    coordinate_array_sequences::CoordinateArraySequences,
+    coordinate_arrays::CoordinateArrays,
+    coordinate_list::CoordinateList,
+    coordinate_sequence_comparator::CoordinateSequenceComparator,
+    coordinates::Coordinates,
+    dimension::Dimension,
+    envelope::Envelope,
+    geometry::Geometry,
+    geometry_factory::GeometryFactory,
+    intersection_matrix::IntersectionMatrix,
+    line_segment::LineSegment,
+    line_string::LineString,
+    linear_ring::LinearRing,
+    location::Location,
+    multi_line_string::MultiLineString,
+    multi_point::MultiPoint,
+    multi_polygon::MultiPolygon,
+    octagonal_envelope::OctagonalEnvelope,
+    packed_coordinate_sequences::PackedCoordinateSequences,
+    point::Point,
+    polygon::Polygon,
+    position::Position,
+    precision_model::PrecisionModel,
+    precision_model::PrecisionModelType,
+    quadrant::Quadrant,
+    triangle::Triangle,
+};
+pub use crate::core::geom::implementation::{
+    coordinate_array_sequence::CoordinateArraySequence,
+    coordinate_array_sequence_factory::CoordinateArraySequenceFactory,
+    packed_coordinate_sequence::PackedCoordinateSequence,
+    packed_coordinate_sequence_double::PackedCoordinateSequenceDouble,
+    packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory,
+};
+pub use crate::core::math::{
+    dd::DD,
+    matrix::Matrix,
+    vector_2d::Vector2D,
+    vector_3d::Vector3D,
+};
+pub use crate::core::util::{
+    math_util::MathUtil,
+    number_util::NumberUtil,
+};
-- 
2.43.0


From cd8358c358ad71a268a8ba258b1f61e1c8310a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 02/39] fix: orientation of an empty ring must not underflow

---
 src/core/algorithm/orientation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..f2b85a8 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -125,7 +125,7 @@ impl Orientation {
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
         // # of points without closing endpoint
-        let n_pts = ring.size() - 1;
+        let n_pts = ring.size().saturating_sub(1);
         // return default value if ring is flat
         if n_pts < 3 {
             return false;
-- 
2.43.0


From e7c21e90403eac19b08fde564816535d9e1a20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 03/39] fix: centroid of empty lines and rings must not
 underflow

---
 src/core/algorithm/centroid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
-- 
2.43.0


From d651c5186f45fc009b11020f80f4d1e6b15fd835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:28 +0000
Subject: [PATCH 04/39] fix: 3D distance to a degenerate second segment

---
 src/core/algorithm/cg_algorithms_3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 193b50e..ec16d50 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -95,7 +95,7 @@ impl CGAlgorithms3D {
         if ac.equals_3d(bc) {
             return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
         }
-        if cc.equals_3d(bc) {
+        if cc.equals_3d(dd) {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
-- 
2.43.0


From 0a94ebd47a21dcfd56e6168fbb9cd7d372e7a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 05/39] fix: 3D segment distance when both closest parameters
 are out of range

---
 src/core/algorithm/cg_algorithms_3d.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index ec16d50..888363c 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -131,14 +131,18 @@ impl CGAlgorithms3D {
             s = (b * e - c * d) / denom;
             t = (a * e - b * d) / denom;
         }
-        if s < 0. {
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
-        } else if s > 1. {
-            return CGAlgorithms3D::distance_point_segment(bc, cc, dd);
-        } else if t < 0. {
-            return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
-        } else if t > 1. {
-            return CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+        if s < 0. || s > 1. || t < 0. || t > 1. {
+            // the closest points include an endpoint of one of the segments
+            return f64::min(
+                f64::min(
+                    CGAlgorithms3D::distance_point_segment(ac, cc, dd),
+                    CGAlgorithms3D::distance_point_segment(bc, cc, dd),
+                ),
+                f64::min(
+                    CGAlgorithms3D::distance_point_segment(cc, ac, bc),
+                    CGAlgorithms3D::distance_point_segment(dd, ac, bc),
+                ),
+            );
         }
         /*
          The closest points are in interiors of segments,
-- 
2.43.0


From 32bfdb7da839b403e6ef07b0c99c440354b3efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 06/39] fix: octagonal envelope of a null envelope is null

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..542850e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
-- 
2.43.0


From 95cca75ce49624b326154ff850ff93d5ef178c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 07/39] fix: a null octagonal envelope intersects no point

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 542850e..fd9117e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -312,6 +312,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From f2e6d4866c1b85cda1ac93c4fc000a2ca3cda37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 08/39] fix: add a descending section to a coordinate list

---
 src/core/geom/coordinate_list.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..afbf614 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,14 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
-
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            if start > end {
+                i -= 1;
+            } else {
+                i += 1;
+            }
         }
         return true;
     }
-- 
2.43.0


From 3be84cb617dda25c4eaf89df58d09a7e26181ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 09/39] fix: add an array to a coordinate list in reverse

---
 src/core/geom/coordinate_list.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index afbf614..61f8410 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -93,11 +93,8 @@ impl CoordinateList {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         } else {
-            let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
+            for i in (0..coord_list.len()).rev() {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
-                i -= 1;
             }
         }
         return true;
-- 
2.43.0


From fa61ca9ea4d7a9549194568d564734a02a7bc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 10/39] fix: measures are ordinates of coordinates and
 coordinate sequences

---
 src/core/geom/coordinate.rs                   | 10 ++++++----
 .../coordinate_array_sequence.rs              | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/coordinate.rs b/src/core/geom/coordinate.rs
index 367b3f8..634a7dc 100644
--- a/src/core/geom/coordinate.rs
+++ b/src/core/geom/coordinate.rs
@@ -286,8 +286,8 @@ impl Coordinate {
     /**
      * Gets the ordinate value for the given index.
      *
-     * The base implementation supports values for the index are
-     * {@link #X}, {@link #Y}, and {@link #Z}.
+     * The supported values for the index are
+     * {@link #X}, {@link #Y}, {@link #Z} and {@link #M}.
      *
      * @param ordinateIndex the ordinate index
      * @return the value of the ordinate
@@ -298,6 +298,7 @@ impl Coordinate {
             Coordinate::X => return Some(self.x),
             Coordinate::Y => return Some(self.y),
             Coordinate::Z => return Some(self.z),
+            Coordinate::M => return Some(self.m),
             _ => return None,
         }
     }
@@ -306,8 +307,8 @@ impl Coordinate {
      * Sets the ordinate for the given index
      * to a given value.
      *
-     * The base implementation supported values for the index are
-     * {@link #X}, {@link #Y}, and {@link #Z}.
+     * The supported values for the index are
+     * {@link #X}, {@link #Y}, {@link #Z} and {@link #M}.
      *
      * @param ordinateIndex the ordinate index
      * @param value the value to set
@@ -318,6 +319,7 @@ impl Coordinate {
             Coordinate::X => self.x = value,
             Coordinate::Y => self.y = value,
             Coordinate::Z => self.set_z(value), // delegate to subclass rather than offer direct field acces,
+            Coordinate::M => self.set_m(value),
             _ => {}
         }
     }
diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index f8ff2d6..3373d1a 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -287,7 +287,7 @@ impl CoordinateArraySequence {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
             _ => {
-                let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
+                let ord = self.coordinates[index].get_ordinate(self.coordinate_ordinate(ordinate_index));
                 match ord {
                     Some(ord) => return ord,
                     None => return f64::NAN,
@@ -330,7 +330,22 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
-            _ => self.coordinates[index].set_ordinate(ordinate_index, value),
+            _ => {
+                let ordinate = self.coordinate_ordinate(ordinate_index);
+                self.coordinates[index].set_ordinate(ordinate, value)
+            }
+        }
+    }
+
+    /**
+     * The coordinate ordinate held at an ordinate index of this sequence: the measure
+     * takes the place of Z in a sequence without Z, and there is none without measures.
+     */
+    fn coordinate_ordinate(&self, ordinate_index: i32) -> i32 {
+        match ordinate_index {
+            CoordinateArraySequence::Z if self.has_m() && !self.has_z() => Coordinate::M,
+            CoordinateArraySequence::M if !self.has_m() => -1,
+            _ => ordinate_index,
         }
     }
 
-- 
2.43.0


From 2671eee86da084be3d3d4429cfd2e015f2fc759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 11/39] fix: reading a coordinate of a sequence into another
 keeps its measure

---
 src/core/geom/implementation/coordinate_array_sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index 3373d1a..67079ee 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -216,7 +216,7 @@ impl CoordinateArraySequence {
      * @see org.locationtech.jts.geom.CoordinateSequence#getX(int)
      */
     pub fn get_coordinate_index_coordinate(&self, index: usize, coord: &mut Coordinate) {
-        coord.set_coordinate(&self.coordinates[index]);
+        *coord = self.coordinates[index];
     }
 
     /**
-- 
2.43.0


From b4f06665519a23edbbbcac8cb381f59612a72cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 12/39] fix: build a packed sequence from coordinates

---
 .../packed_coordinate_sequence_double.rs      | 56 ++++---------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..2654909 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -80,27 +80,11 @@ impl PackedCoordinateSequenceDouble {
      * @param dimension the total number of ordinates that make up a {@link Coordinate} in this sequence.
      */
     pub fn new_coordinates_with_dimension(coordinates: &Vec<Coordinate>, dimension: i32) -> Self {
-        let mut new = Self {
+        PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(
+            coordinates,
             dimension,
-            measures: i32::max(0, dimension - 3),
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
-        }
-
-        new
+            i32::max(0, dimension - 3),
+        )
     }
 
     /**
@@ -118,7 +102,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension,
             measures,
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * dimension as usize],
         };
 
         for i in 0..coordinates.len() {
@@ -126,12 +110,16 @@ impl PackedCoordinateSequenceDouble {
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
                 // Z or M
+                new.coords[offset + 2] = if dimension == 3 && measures == 1 {
+                    coordinates[i].get_m()
+                } else {
+                    coordinates[i].get_z()
+                };
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
                 // M
+                new.coords[offset + 3] = coordinates[i].get_m();
             }
         }
 
@@ -144,27 +132,7 @@ impl PackedCoordinateSequenceDouble {
      * @param coordinates an array of {@link Coordinate}s
      */
     pub fn new_with_coordinates(coordinates: &Vec<Coordinate>) -> Self {
-        let mut new = Self {
-            dimension: 3,
-            measures: 0,
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * new.dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if new.dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if new.dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
-        }
-
-        new
+        PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(coordinates, 3, 0)
     }
 
     /**
-- 
2.43.0


From 55bed732d7bbe390cee292d9604633c2e214d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 13/39] fix: extending or closing a sequence keeps its measures

---
 src/core/geom/coordinate_array_sequences.rs  | 12 ++++++++++--
 src/core/geom/packed_coordinate_sequences.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_array_sequences.rs b/src/core/geom/coordinate_array_sequences.rs
index b2454bd..eda9c36 100644
--- a/src/core/geom/coordinate_array_sequences.rs
+++ b/src/core/geom/coordinate_array_sequences.rs
@@ -156,7 +156,11 @@ impl CoordinateArraySequences {
         size: usize,
     ) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -168,7 +172,11 @@ impl CoordinateArraySequences {
 
     pub fn extend(seq: &CoordinateArraySequence, size: usize) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
diff --git a/src/core/geom/packed_coordinate_sequences.rs b/src/core/geom/packed_coordinate_sequences.rs
index c1c4ff8..37cb00a 100644
--- a/src/core/geom/packed_coordinate_sequences.rs
+++ b/src/core/geom/packed_coordinate_sequences.rs
@@ -158,7 +158,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -173,7 +177,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
-- 
2.43.0


From 61dda18d803a4c42a931dac21c96b812d5058433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 14/39] fix: extract a subsequence of a coordinate array

---
 src/core/geom/coordinate_arrays.rs | 34 ++++++------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..8145a07 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,5 +1,3 @@
-use crate::core::util::math_util::MathUtil;
-
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
 
@@ -663,33 +661,15 @@ impl CoordinateArrays {
      * @param end   the index of the end of the subsequence to extract
      * @return a subsequence of the input array
      */
-    pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
-        let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
-            return extract_pts;
+    pub fn extract(pts: &Vec<Coordinate>, start: usize, end: usize) -> Vec<Coordinate> {
+        if pts.len() == 0 {
+            return vec![];
         }
-
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+        let last = pts.len() - 1;
+        if start > last || end < start {
+            return vec![];
         }
-        return extract_pts;
+        return pts[start..=usize::min(end, last)].to_vec();
     }
 
     /**
-- 
2.43.0


From 2347537933c53dfaa2e0c516fe2f50512e625df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 15/39] fix: enforcing a coordinate layout keeps measures

---
 src/core/geom/coordinate_arrays.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 8145a07..5547510 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -88,6 +88,9 @@ impl CoordinateArrays {
                 let coordinate = array[i];
                 let mut duplicate = Coordinates::create_dim_measures(max_dimension, max_measures);
                 duplicate.set_coordinate(&coordinate);
+                if !f64::is_nan(coordinate.m) {
+                    duplicate.set_m(coordinate.m);
+                }
                 array[i] = duplicate;
             }
         }
@@ -115,6 +118,12 @@ impl CoordinateArrays {
             let coordinate = array[i];
             let mut duplicate = Coordinates::create_dim_measures(dimension, measures);
             duplicate.set_coordinate(&coordinate);
+            if dimension - measures < 3 {
+                duplicate.set_z(f64::NAN);
+            }
+            if measures > 0 && !f64::is_nan(coordinate.m) {
+                duplicate.set_m(coordinate.m);
+            }
             copy[i] = duplicate;
         }
         return copy;
-- 
2.43.0


From 1c0b942d89eaec157cb1921ea60df56fafa665c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 16/39] fix: an invalid first coordinate is invalid too

---
 src/core/geom/coordinate_arrays.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 5547510..ea40c1a 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -409,11 +409,11 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
-        for i in 1..coord.len() {
+        for i in 0..coord.len() {
             if !coord[i].is_valid() {
                 return true;
             }
-            if coord[i - 1].equals_2d(&coord[i]) {
+            if i > 0 && coord[i - 1].equals_2d(&coord[i]) {
                 return true;
             }
         }
-- 
2.43.0


From 986e7111dac42dc2e180ab749192bcd5ca425f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 17/39] fix: copies and reversals of polygons keep holes and
 precision model

---
 src/core/geom/polygon.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..fb21861 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut copy = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     // TODO: Implement ME!
@@ -473,10 +475,12 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut reversed = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        reversed.precision_model = self.precision_model;
+        return reversed;
     }
 
     /**
-- 
2.43.0


From d5698f4f028304d2f0d680dd86c14882751507c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 18/39] fix: copy and reverse multi polygons

---
 src/core/geom/multi_polygon.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..ce37b14 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,9 +205,11 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut reversed = MultiPolygon::new_with_polygons(&polygons);
+        reversed.precision_model = self.precision_model;
+        return reversed;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -217,9 +219,11 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut copy = MultiPolygon::new_with_polygons(&polygons);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     pub fn get_type_code(&self) -> i32 {
-- 
2.43.0


From a828add5f6c2883ed1de29b8f291db138834e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 19/39] fix: copy and reverse multi line strings

---
 src/core/geom/multi_line_string.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..a46a6cb 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,18 +130,22 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in 0..self.line_strings.len() {
+            line_strings.push(self.line_strings[i].reverse());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut reversed = MultiLineString::new_with_line_strings(&line_strings);
+        reversed.precision_model = self.precision_model;
+        return reversed;
     }
 
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
-        return MultiLineString::new_with_line_strings(&line_strings);
+        let mut copy = MultiLineString::new_with_line_strings(&line_strings);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     pub fn equals_exact(&self, other: &MultiLineString, tolerance: f64) -> bool {
-- 
2.43.0


From bd94f78cca4578794e567c451b01bf3ad0944a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 20/39] fix: copy and reverse multi points

---
 src/core/geom/multi_point.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..b5091e9 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,9 +136,11 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut copy = MultiPoint::new_with_points(&points);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     /**
@@ -263,9 +265,11 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut copy = MultiPoint::new_with_points(&points);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     pub fn get_type_code() -> i32 {
-- 
2.43.0


From cab739f08a0c8ff65e2e191024dea704130335fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 21/39] fix: get the first point of a multi point

---
 src/core/geom/multi_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b5091e9..64f5b39 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -223,7 +223,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
+        if index >= self.points.len() {
             return None;
         }
         return Some(self.points[index].copy());
-- 
2.43.0


From a4bae4b275a51ede0c7022f85c4abb06dff86a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 22/39] fix: coordinates of a multi point with empty members

---
 src/core/geom/multi_point.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 64f5b39..4e52602 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -250,13 +250,11 @@ impl MultiPoint {
      * @return the collected coordinates
      *    */
     pub fn get_coordinates(&self) -> Vec<Coordinate> {
-        let mut coordinates: Vec<Coordinate> = vec![Coordinate::default(); self.get_num_points()];
-        let mut k: i32 = -1;
+        let mut coordinates: Vec<Coordinate> = vec![];
         for i in 0..self.points.len() {
             let child_coordinates = self.points[i].get_coordinates();
             for j in 0..child_coordinates.len() {
-                k += 1;
-                coordinates[k as usize] = child_coordinates[j];
+                coordinates.push(child_coordinates[j]);
             }
         }
         return coordinates;
-- 
2.43.0


From fe5fdea5e4e2a246b728123300e260520d2644cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 23/39] fix: normalising a polygon normalises its rings

---
 src/core/geom/polygon.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index fb21861..fadba24 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -360,6 +360,7 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
+        self.holes.sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
         // Arrays.sort(holes);
     }
 
@@ -430,12 +431,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -454,6 +455,7 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        *ring = LinearRing::new_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From d4a74113078ac25da1b3364b2c7bc4d256f4f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 24/39] fix: a multi point of empty points is empty

---
 src/core/geom/multi_point.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 4e52602..a4c181e 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -55,7 +55,12 @@ impl MultiPoint {
     }
 
     pub fn is_empty(&self) -> bool {
-        return self.points.len() == 0;
+        for i in 0..self.points.len() {
+            if !self.points[i].is_empty() {
+                return false;
+            }
+        }
+        return true;
     }
 
     pub fn get_num_points(&self) -> usize {
-- 
2.43.0


From 57f273e62483cd364c13b6af0e748126c5d941ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:47 +0000
Subject: [PATCH 25/39] fix: round to single precision

---
 src/core/geom/precision_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..51558de 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,8 +320,8 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
-  		return float_single_val;
+  		let float_single_val = val as f32;
+  		return float_single_val as f64;
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-- 
2.43.0


From 77f8c5d3df33aced09d1ebc51f06a6dee392eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:14 +0000
Subject: [PATCH 26/39] fix: floating precision models of the same type are
 equal

---
 src/core/geom/precision_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 51558de..908908d 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -349,7 +349,8 @@ impl PrecisionModel {
   }
 
   pub fn equals(&self, other: PrecisionModel) -> bool {
-    self.model_type == other.model_type && self.scale == other.scale
+    self.model_type == other.model_type
+      && (self.is_floating() || self.scale == other.scale)
   }
 
   /**
-- 
2.43.0


From d066235dd7003585a6eef773d60f08802fbcf7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:33 +0000
Subject: [PATCH 27/39] fix: asymmetric arithmetic rounding for negative ties

---
 src/core/geom/precision_model.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 908908d..a44b829 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -326,16 +326,27 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round_half_up(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
   }
 
+  /**
+   * Rounds to the nearest integer, ties towards positive infinity.
+   */
+  fn round_half_up(val: f64) -> f64 {
+    let floor = val.floor();
+    if val - floor >= 0.5 {
+      return floor + 1.0;
+    }
+    return floor;
+  }
+
   /**
    * Rounds a Coordinate to the PrecisionModel grid.
    */
-- 
2.43.0


From 73f2b543f97737b566c26a82f07a7fbd4f9098a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 28/39] fix: the eastern half plane holds the north-east
 quadrant

---
 src/core/geom/quadrant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/quadrant.rs b/src/core/geom/quadrant.rs
index 48c71c5..370963b 100644
--- a/src/core/geom/quadrant.rs
+++ b/src/core/geom/quadrant.rs
@@ -125,7 +125,7 @@ impl Quadrant {
      */
     pub fn is_in_half_plane(quad: i32, half_plane: i32) -> bool {
         if half_plane == Quadrant::SE {
-            return quad == Quadrant::SE || quad == Quadrant::SW;
+            return quad == Quadrant::SE || quad == Quadrant::NE;
         }
         return quad == half_plane || quad == half_plane + 1;
     }
-- 
2.43.0


From a5918651b72159a190ff542ecb59eab82d9862c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 29/39] fix: closest points of intersecting segments are a pair

---
 src/core/geom/line_segment.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/line_segment.rs b/src/core/geom/line_segment.rs
index c8003a4..1c5aa43 100644
--- a/src/core/geom/line_segment.rs
+++ b/src/core/geom/line_segment.rs
@@ -547,10 +547,8 @@ impl LineSegment {
         // test for intersection
         let int_pt = self.intersection(line);
         if int_pt.is_some() {
-            return vec![Coordinate::new_xy(
-                int_pt.unwrap().get_x(),
-                int_pt.unwrap().get_y(),
-            )];
+            let pt = Coordinate::new_xy(int_pt.unwrap().get_x(), int_pt.unwrap().get_y());
+            return vec![pt, pt];
         }
 
         //  if no intersection closest pair contains at least one endpoint.
-- 
2.43.0


From eb8691c2b8e3bf1a4f854fb96c421c4c66f83f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 30/39] hook: read access to the components of DD

---
 src/core/math/dd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..e87eb31 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1460,3 +1460,11 @@ impl DD {
 
     // }
 }
+
+/// Read access for the verification harness.
+#[cfg(geos_verif)]
+impl DD {
+    pub fn verif_parts(&self) -> (f64, f64) {
+        return (self.hi, self.lo);
+    }
+}
-- 
2.43.0


From f3ab41c99f416bb8b49171420fc56e6b25375297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 31/39] fix: decimal magnitude of numbers below one and above
 the 32-bit range

---
 src/core/math/dd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index e87eb31..a520a44 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1349,8 +1349,8 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powi(10., x_mag);
+        if x_approx * 10. <= x_abs {
             x_mag += 1;
         }
 
-- 
2.43.0


From fa52a11955a40e00951a2765c36107d74ad4dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 32/39] fix: rounding an extended-precision number leaves it
 unchanged

---
 src/core/math/dd.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a520a44..60d1167 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -753,13 +753,12 @@ impl DD {
      *
      * @return this value rounded to the nearest integer
      */
-    pub fn rint(&mut self) -> DD {
+    pub fn rint(&self) -> DD {
         if self.is_nan() {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        return self.add_f64(0.5).floor();
     }
 
     /**
-- 
2.43.0


From 71efc41b25b8e318d263e47ed4ed8392accc590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 33/39] fix: floor and ceiling of extended-precision numbers
 are normalised

---
 src/core/math/dd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 60d1167..38e86bd 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -687,8 +687,8 @@ impl DD {
         if fhi == self.hi {
             flo = f64::floor(self.lo);
         }
-        // do we need to renormalize here?
-        return DD::new_hi_lo(fhi, flo);
+        // renormalize, so that the result compares like the number it is
+        return DD::new_x(fhi).add_f64(flo);
     }
 
     /**
@@ -711,9 +711,9 @@ impl DD {
         // Hi is already integral.  Ceil the low word
         if fhi == self.hi {
             flo = f64::ceil(self.lo);
-            // do we need to renormalize here?
         }
-        return DD::new_hi_lo(fhi, flo);
+        // renormalize, so that the result compares like the number it is
+        return DD::new_x(fhi).add_f64(flo);
     }
 
     /**
-- 
2.43.0


From 002eae66a4a01d207bc577f2ad392fe0cba2f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:07 +0000
Subject: [PATCH 34/39] fix: solving a regular linear system

---
 src/core/math/matrix.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..641b9a1 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,8 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
+                for k in (i..n).rev() {
                     a[j][k] -= a[i][k] * row_factor;
-                    k -= 1;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +84,7 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        for j in (0..n).rev() {
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +92,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From fd2d243812dbbb10a846868194ffae4fac6590ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 35/39] fix: shuffling the integers below n does not panic

---
 src/core/util/math_util.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..cf3397d 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -187,18 +187,13 @@ impl MathUtil {
      * @return the shuffled array
      */
     pub fn shuffle(n: usize) -> Vec<i32> {
-        let mut ints: Vec<i32> = vec![];
-        for i in 0..n {
-            ints[i] = i as i32;
-        }
+        let mut ints: Vec<i32> = (0..n as i32).collect();
 
-        let mut i = n - 1;
-        while i >= 1 {
+        for i in (1..n).rev() {
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
             ints[i] = ints[j];
             ints[j] = last;
-            i = i - 1;
         }
 
         return ints;
-- 
2.43.0


From aee81fb8d037a28d9e89941581c3f317340080e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 36/39] fix: ceiling of a quotient with a negative denominator

---
 src/core/util/math_util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index cf3397d..439b9f9 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -60,7 +60,8 @@ impl MathUtil {
      */
     pub fn ceil(num: i32, denom: i32) -> i32 {
         let div = num / denom;
-        if div * denom >= num {
+        // integer division truncates, which already is the ceiling of a quotient below 0
+        if div * denom == num || (num < 0) != (denom < 0) {
             return div;
         } else {
             return div + 1;
-- 
2.43.0


From fe46bbeb333c9f3ffa6937e0f8e4d12d66630235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 37/39] fix: line and segment do not meet when one of them is
 degenerate

---
 src/core/algorithm/intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/algorithm/intersection.rs b/src/core/algorithm/intersection.rs
index db0fe59..d5a8572 100644
--- a/src/core/algorithm/intersection.rs
+++ b/src/core/algorithm/intersection.rs
@@ -177,6 +177,11 @@ impl Intersection {
         seg1: &Coordinate,
         seg2: &Coordinate,
     ) -> Option<Coordinate> {
+        // a degenerate line or segment has no intersection point
+        if line1.equals_2d(line2) || seg1.equals_2d(seg2) {
+            return None;
+        }
+
         let orient_s1 = Orientation::index(line1, line2, seg1);
         if orient_s1 == 0 {
             return Some(Coordinate::from_coordinate(seg1));
-- 
2.43.0


From f9c0d466df343cc2fd04208db85213642a8ceeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:01 +0000
Subject: [PATCH 38/39] fix: normalising an angle removes any number of turns
 at once

The loops subtracted one turn at a time: they never ended for angles so
large that a turn does not change them, and added up rounding errors.
---
 src/core/algorithm/angle.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/algorithm/angle.rs b/src/core/algorithm/angle.rs
index 687fa34..7776b56 100644
--- a/src/core/algorithm/angle.rs
+++ b/src/core/algorithm/angle.rs
@@ -229,7 +229,8 @@ impl Angle {
      * @return an equivalent angle in the range (-Pi, Pi]
      */
     pub fn normalize(angle: f64) -> f64 {
-        let mut normalized_angle = angle;
+        // whole turns are removed exactly, however many there are
+        let mut normalized_angle = angle % Angle::PI_TIMES_2;
         while normalized_angle > std::f64::consts::PI {
             normalized_angle -= Angle::PI_TIMES_2;
         }
@@ -259,7 +260,8 @@ impl Angle {
      * @return an equivalent positive angle
      */
     pub fn normalize_positive(angle: f64) -> f64 {
-        let mut normalized_pos_angle = angle;
+        // whole turns are removed exactly, however many there are
+        let mut normalized_pos_angle = angle % Angle::PI_TIMES_2;
         if normalized_pos_angle < 0.0 {
             while normalized_pos_angle < 0.0 {
                 normalized_pos_angle += Angle::PI_TIMES_2;
-- 
2.43.0


From 987e6690666dbc263e3d7970c1e16332f325a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:30 +0000
Subject: [PATCH 39/39] fix: a fixed precision model keeps values too large to
 be scaled

Multiplying by the scale (or dividing by the grid size) overflowed, and a
huge finite value became infinite.
---
 src/core/geom/precision_model.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index a44b829..8107509 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -325,12 +325,15 @@ impl PrecisionModel {
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-  	  if self.grid_size > 0. {
-  	    return PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size;
+  	  let rounded = if self.grid_size > 0. {
+  	    PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size
   	  }
   	  else {
-  	    return PrecisionModel::round_half_up(val * self.scale) / self.scale;
-  	  }
+  	    PrecisionModel::round_half_up(val * self.scale) / self.scale
+  	  };
+  	  // a value too large to be counted in grid steps has none of its digits below the grid
+  	  if rounded.is_infinite() { return val; }
+  	  return rounded;
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
-- 
2.43.0


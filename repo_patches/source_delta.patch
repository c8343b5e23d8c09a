From e0d182157eeac263c7251cd367e8919707c17a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 01/34] fix: an empty distribution has no blocks

nr_blocks() and local_nr_blocks() counted one block when the matrix is empty
along a coordinate but the distribution has a non-zero tile offset.
---
 include/dlaf/matrix/distribution.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..3734a17 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,22 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_tiles_.rows() > 0 ? util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
+                                                tiles_per_block<Coord::Row>())
+                               : 0,
+            nr_tiles_.cols() > 0 ? util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
+                                                tiles_per_block<Coord::Col>())
+                               : 0};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {local_nr_tiles_.rows() > 0 ? util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
+                                                      tiles_per_block<Coord::Row>())
+                                     : 0,
+            local_nr_tiles_.cols() > 0 ? util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
+                                                      tiles_per_block<Coord::Col>())
+                                     : 0};
   }
 
   const GlobalElementSize& block_size() const noexcept {
-- 
2.43.0


From 07da45d48632d932640e3793148c4109f0c07b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 02/34] fix: do not truncate the number of skipped blocks to
 int

The source rank of a distribution whose offset skips more than INT_MAX blocks
was wrong (even negative).
---
 src/matrix/distribution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..843e18b 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,9 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  // The number of blocks to skip may not fit an int, therefore it has to be reduced first.
+  source_rank_index_ = {static_cast<int>((source_rank_index_.row() + div_row.quot) % grid_size_.rows()),
+                        static_cast<int>((source_rank_index_.col() + div_col.quot) % grid_size_.cols())};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 3350083b72a8770ff1f6f4d1e24211c0efb3e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 03/34] fix: do not compute the size of a 2D range in the index
 type

---
 include/dlaf/common/range2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/common/range2d.h b/include/dlaf/common/range2d.h
index fd1a5a4..af0d113 100644
--- a/include/dlaf/common/range2d.h
+++ b/include/dlaf/common/range2d.h
@@ -174,11 +174,11 @@ class IterableRange2D {
 
 public:
   IterableRange2D(index2d_t begin_idx, size2d_t sz)
-      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(sz.rows() * sz.cols()) {}
+      : begin_idx_(begin_idx), ld_(sz.rows()), i_max_(SizeType{sz.rows()} * SizeType{sz.cols()}) {}
 
   IterableRange2D(index2d_t begin_idx, index2d_t end_idx)
       : begin_idx_(begin_idx), ld_(end_idx.row() - begin_idx.row()),
-        i_max_(ld_ * (end_idx.col() - begin_idx_.col())) {
+        i_max_(SizeType{ld_} * SizeType{end_idx.col() - begin_idx_.col()}) {
     DLAF_ASSERT(begin_idx.row() <= end_idx.row(), begin_idx, end_idx);
     DLAF_ASSERT(begin_idx.col() <= end_idx.col(), begin_idx, end_idx);
   }
-- 
2.43.0


From 9e71f7d0981e66a5afd6fc4a1d1afdb91a667ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 04/34] fix: free the owned MPI datatype in type_handler move
 assignment

---
 include/dlaf/communication/type_handler.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..622c246 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -13,6 +13,7 @@
 /// @file
 
 #include <type_traits>
+#include <utility>
 
 #include <dlaf/communication/datatypes.h>
 #include <dlaf/communication/error.h>
@@ -57,8 +58,9 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    // The previously owned custom MPI_Datatype (if any) is released by tmp.
+    type_handler tmp(std::move(rhs));
+    std::swap(custom_type_, tmp.custom_type_);
     return *this;
   }
 
-- 
2.43.0


From 3452f5efda359f2c5291ee5ff5e10b2da39bf03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 05/34] fix: release the parent when a live sub-pipeline is
 overwritten

The move assignment dropped the nested sender of a live sub-pipeline, so the resource
was never moved back and later accesses to the parent pipeline saw a moved-from object.
---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From 23fa4bb7a916bb359b92c5a3ca80198abfd29569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 06/34] fix: locate a panel view inside a distribution with an
 offset

---
 include/dlaf/matrix/views.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dlaf/matrix/views.h b/include/dlaf/matrix/views.h
index 7a9e05f..5cadd5f 100644
--- a/include/dlaf/matrix/views.h
+++ b/include/dlaf/matrix/views.h
@@ -145,15 +145,15 @@ struct SubPanelView : public internal::View {
   /// @pre offset_e.col() + ncols <= dist.tile_size().cols()
   SubPanelView(Distribution dist, GlobalElementIndex offset_e, const SizeType ncols)
       : View(dist, offset_e), cols_(ncols) {
-    i_sub_offset_ = offset_e_.row() % dist_.tile_size().rows();
-    j_sub_offset_ = offset_e_.col() % dist_.tile_size().cols();
+    if (dist.size().isEmpty())
+      return;
+
+    i_sub_offset_ = dist_.tileElementFromGlobalElement<Coord::Row>(offset_e_.row());
+    j_sub_offset_ = dist_.tileElementFromGlobalElement<Coord::Col>(offset_e_.col());
 
     DLAF_ASSERT(j_sub_offset_ + cols_ <= dist_.tile_size().cols(), j_sub_offset_ + cols_,
                 dist_.tile_size().cols());
 
-    if (dist.size().isEmpty())
-      return;
-
     tile_end_ = LocalTileIndex(dist_.localNrTiles().rows(), tile_begin_.col() + 1);
 
     has_top_tile_ = dist_.rankGlobalTile<Coord::Row>(offset().row()) == dist_.rankIndex().row();
@@ -179,7 +179,7 @@ struct SubPanelView : public internal::View {
 private:
   ///> Maximum width for the panel (it can be less in case there are not enough elements in the matrix)
   SizeType cols_;
-  SizeType i_sub_offset_, j_sub_offset_;
+  SizeType i_sub_offset_ = 0, j_sub_offset_ = 0;
 
   bool has_top_tile_;
 };
-- 
2.43.0


From 610f35630bbf6244413dddb03f8aff9511dcdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 07/34] fix: a sub-pipelined matrix keeps the allocation layout

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..411ca58 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -464,7 +464,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From 2f193aaa2d38210cbebfc45f99221a7316b56808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 08/34] fix: reject distributions with an offset when a matrix
 is allocated

---
 include/dlaf/matrix/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index 411ca58..c770262 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -459,8 +459,8 @@ public:
 protected:
   Matrix(Distribution distribution, AllocationLayout alloc)
       : internal::MatrixBase{std::move(distribution)}, allocation_layout_(alloc) {
-    DLAF_ASSERT((distribution.offset() == GlobalElementIndex{0, 0}), "not supported",
-                distribution.offset());
+    DLAF_ASSERT((this->distribution().offset() == GlobalElementIndex{0, 0}), "not supported",
+                this->distribution().offset());
   }
 
   struct SubPipelineTag {};
-- 
2.43.0


From 89bfbced43e192dfd27079d9bc3bfcb42ba4e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 09/34] fix: use distinct tags for the tiles exchanged when a
 matrix gets redistributed

The tag was computed from the global tile index with a leading dimension for
local indices, so different tiles could get the same tag and be swapped.
---
 include/dlaf/matrix/copy.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..3b8eb59 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -181,9 +181,12 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
     // possible. Moreover, since the local size of the matrix might change on different ranks, linear
     // local tile index is computed using a rank-independent ld.
     const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    const SizeType mt = dist.block_size().rows() / dist.tile_size().rows();
+    const SizeType nt = dist.block_size().cols() / dist.tile_size().cols();
+    const LocalTileIndex source_ij_lc{ij.row() / mt / size.rows() * mt + ij.row() % mt,
+                                      ij.col() / nt / size.cols() * nt + ij.col() % nt};
+    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), mt * size.rows()) * mt;
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From 2a0149a069d6890374bb6eab2ab3b8677f5e3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 10/34] fix: allow empty panels that start past a partial last
 tile

The extent of the workspace was negative, so the construction failed.
---
 include/dlaf/matrix/panel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..f3cd8a0 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -11,6 +11,7 @@
 
 /// @file
 
+#include <algorithm>
 #include <set>
 #include <utility>
 
@@ -358,9 +359,9 @@ protected:
 
     switch (axis) {
       case Coord::Col:
-        return {mat_size - i_tile * mb, nb};
+        return {std::max<SizeType>(0, mat_size - i_tile * mb), nb};
       case Coord::Row:
-        return {mb, mat_size - i_tile * nb};
+        return {mb, std::max<SizeType>(0, mat_size - i_tile * nb)};
       default:
         return DLAF_UNREACHABLE(LocalElementSize);
     }
-- 
2.43.0


From 8a06f1fed6c8331e2691a2ebcd642bd72df2604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 11/34] fix: forget the start offset of a panel when its range
 is set by tiles

The offset of an earlier setRangeStart() by element was still applied to the
first tile of the new range.
---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index f3cd8a0..c5c4b33 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -170,6 +170,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
 
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
+    start_offset_ = 0;
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
@@ -325,6 +326,7 @@ protected:
   void initRange(GlobalTileIndex start_idx, GlobalTileIndex end_idx) {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
+    start_offset_ = 0;
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
 
     end_ = end_idx.get(coord);
-- 
2.43.0


From 66290e5603912e5ca99f0eccfb53477af566a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 12/34] fix: keep the offset of the distribution in panels that
 are stored transposed

---
 include/dlaf/matrix/panel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index c5c4b33..0d17a77 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -492,7 +492,7 @@ private:
   static matrix::Distribution transposeDist(const matrix::Distribution& dist) {
     return {common::transposed(dist.size()), common::transposed(dist.tile_size()),
             common::transposed(dist.commGridSize()), common::transposed(dist.rankIndex()),
-            common::transposed(dist.sourceRankIndex())};
+            common::transposed(dist.sourceRankIndex()), common::transposed(dist.offset())};
   }
 
 public:
-- 
2.43.0


From 107127224cb8b754f4b8209865f32090f77ffb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 13/34] fix: duplicating a tile without rows gives it a valid
 leading dimension

---
 include/dlaf/matrix/copy_tile.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/copy_tile.h b/include/dlaf/matrix/copy_tile.h
index 302ca59..ca11941 100644
--- a/include/dlaf/matrix/copy_tile.h
+++ b/include/dlaf/matrix/copy_tile.h
@@ -12,6 +12,7 @@
 
 /// @file
 
+#include <algorithm>
 #include <cstddef>
 #include <type_traits>
 #include <utility>
@@ -199,7 +200,8 @@ struct Duplicate {
   Tile<T, Destination> operator()(const Tile<const T, Source>& source, Ts&&... ts) const {
     auto source_size = source.size();
     dlaf::memory::MemoryView<T, Destination> mem_view(source_size.linear_size());
-    Tile<T, Destination> destination(source_size, std::move(mem_view), source_size.rows());
+    Tile<T, Destination> destination(source_size, std::move(mem_view),
+                                     std::max<SizeType>(1, source_size.rows()));
     internal::copy(source, destination, std::forward<decltype(ts)>(ts)...);
     return Tile<T, Destination>(std::move(destination));
   }
@@ -219,7 +221,8 @@ struct DuplicateNoCopy {
   Tile<T, Destination> operator()(const Tile<const T, Source>& source) const {
     auto source_size = source.size();
     dlaf::memory::MemoryView<T, Destination> mem_view(source_size.linear_size());
-    Tile<T, Destination> destination(source_size, std::move(mem_view), source_size.rows());
+    Tile<T, Destination> destination(source_size, std::move(mem_view),
+                                     std::max<SizeType>(1, source_size.rows()));
     return Tile<T, Destination>(std::move(destination));
   }
 };
-- 
2.43.0


From 1bd920db8569f70acba17419412ab4b57ad7f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 14/34] fix: an empty tile can be turned into a data descriptor

---
 include/dlaf/matrix/tile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/tile.h b/include/dlaf/matrix/tile.h
index 77901fa..8630dc2 100644
--- a/include/dlaf/matrix/tile.h
+++ b/include/dlaf/matrix/tile.h
@@ -464,7 +464,7 @@ private:
 /// Create a common::Buffer from a Tile.
 template <class T, Device D>
 auto create_data(const Tile<T, D>& tile) {
-  return common::DataDescriptor<T>(tile.ptr({0, 0}), tile.size().cols(), tile.size().rows(), tile.ld());
+  return common::DataDescriptor<T>(tile.ptr(), tile.size().cols(), tile.size().rows(), tile.ld());
 }
 
 namespace internal {
-- 
2.43.0


From 0572cfd653de01c9e024a90760c50a3a79f248c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 15/34] fix: a new C API grid never gets the context of a grid
 that is still in use

---
 src/c_api/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index 3793bb4..8723325 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -28,7 +28,10 @@ std::unordered_map<int, dlaf::comm::CommunicatorGrid> dlaf_grids;
 int dlaf_create_grid(MPI_Comm comm, int nprow, int npcol, char order) noexcept {
   // dlaf_context starts from INT_MAX to reduce the likelihood of clashes with blacs contexts
   // blacs starts to number contexts from 0
-  int dlaf_context = std::numeric_limits<int>::max() - static_cast<int>(std::size(dlaf_grids));
+  // contexts which are still in use have to be skipped, as grids can be freed in any order
+  int dlaf_context = std::numeric_limits<int>::max();
+  while (dlaf_grids.count(dlaf_context) > 0)
+    --dlaf_context;
 
   auto dlaf_order = char2order(order);
 
-- 
2.43.0


From 3d683e063e4a9e35585a9e1d0d9eb14a63b6df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 16/34] fix: print the number of communicator pipelines with
 the other tune parameters

---
 src/tune.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tune.cpp b/src/tune.cpp
index 6561638..76dd97b 100644
--- a/src/tune.cpp
+++ b/src/tune.cpp
@@ -34,6 +34,7 @@ std::ostream& operator<<(std::ostream& os, const TuneParameters& params) {
      << std::endl;
   os << "  bt_band_to_tridiag_hh_apply_group_size = " << params.bt_band_to_tridiag_hh_apply_group_size
      << std::endl;
+  os << "  communicator_grid_num_pipelines = " << params.communicator_grid_num_pipelines << std::endl;
   return os;
 }
 
-- 
2.43.0


From 7c25b1c8b0bb7ec055b9a2dc8e466673b23ea164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 17/34] fix: configure the device memory pool with its own
 parameters

---
 src/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index a709ca4..9e8ec96 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -126,9 +126,9 @@ struct Init<Backend::GPU> {
     const int device = 0;
     memory::internal::initializeUmpireDeviceAllocator(
         cfg.umpire_device_memory_pool_initial_block_bytes,
-        cfg.umpire_device_memory_pool_initial_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
-        cfg.umpire_host_memory_pool_coalescing_free_ratio,
-        cfg.umpire_host_memory_pool_coalescing_reallocation_ratio);
+        cfg.umpire_device_memory_pool_next_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
+        cfg.umpire_device_memory_pool_coalescing_free_ratio,
+        cfg.umpire_device_memory_pool_coalescing_reallocation_ratio);
 #if PIKA_VERSION_FULL >= 0x001F00  // >= 0.31.0
     initializeGpuPool(device, cfg.num_np_gpu_streams, cfg.num_hp_gpu_streams, cfg.num_gpu_blas_handles,
                       cfg.num_gpu_lapack_handles);
-- 
2.43.0


From aee6c5952649a20c8296f73a8ff06679d23a2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 18/34] fix: give the exchanged columns of the tridiagonal
 solver a contiguous workspace

---
 include/dlaf/eigensolver/tridiag_solver/rot.h | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/rot.h b/include/dlaf/eigensolver/tridiag_solver/rot.h
index 1f2960d..b07fd58 100644
--- a/include/dlaf/eigensolver/tridiag_solver/rot.h
+++ b/include/dlaf/eigensolver/tridiag_solver/rot.h
@@ -35,7 +35,6 @@
 #include <dlaf/matrix/distribution.h>
 #include <dlaf/matrix/index.h>
 #include <dlaf/matrix/matrix.h>
-#include <dlaf/matrix/panel.h>
 #include <dlaf/memory/memory_view.h>
 #include <dlaf/sender/policy.h>
 #include <dlaf/sender/transform.h>
@@ -266,18 +265,10 @@ void applyGivensRotationsToMatrixColumns(
 
   auto givens_rots_fn = [comm_row_chain = comm_row_chain.sub_pipeline(), tag, dist_sub,
                          mb](std::vector<GivensRotation<T>> rots, std::vector<matrix::Tile<T, D>> tiles,
-                             std::vector<matrix::Tile<T, D>> all_ws) mutable {
-    // Note:
-    // It would have been enough to just get the first tile from the beginning, and it would have
-    // worked anyway (thanks to the fact that panel has its own memorychunk and the first tile would
-    // keep alive the entire chunk, so also the part of other tiles, through its memory view).
-    // Anyway, it is more clean to get them all, and then just here use a single one to access the
-    // full column.
-    matrix::Tile<T, D>& tile_ws = all_ws[0];
-
+                             matrix::Tile<T, D> tile_ws) mutable {
     // Note:
     // The entire algorithm relies on a strong assumption about memory layout of all tiles involved,
-    // i.e. both the input tiles selected from the matrix and the tiles for the workspace.
+    // i.e. both the input tiles selected from the matrix and the tile for the workspace.
     // By relying on the fact that all of them are stored in a column-layout, we can work on column
     // vectors ignoring their distribution over different tiles, and it would be enough just getting
     // the pointer to the top head of the column and all other data can be easily accessed since it
@@ -381,16 +372,15 @@ void applyGivensRotationsToMatrixColumns(
   };
 
   // Note:
-  // Using a combination of shrinked distribution and an offset given to the panel, the workspace
-  // is allocated just for the part strictly needed by the range [i_begin, i_end)
-  const matrix::Distribution dist_ws({range_size_limit, 1}, dist.tile_size(), dist.commGridSize(),
-                                     dist.rankIndex(), dist.sourceRankIndex());
-  matrix::Panel<Coord::Col, T, D> workspace(dist_ws, GlobalTileIndex(i_begin, i_begin));
+  // The workspace is a single tile, since it has to store contiguously the local part of a column in
+  // the range [i_begin, i_end).
+  const SizeType m_local = dist_sub.localSize().rows();
+  Matrix<T, D> workspace(LocalElementSize(m_local, 1), TileElementSize(m_local, 1));
 
   const TileCollector tc(i_begin, i_end);
 
   ex::when_all(std::forward<GRSender>(rots_fut), ex::when_all_vector(tc.readwrite(mat)),
-               ex::when_all_vector(select(workspace, workspace.iteratorLocal()))) |
+               workspace.readwrite(LocalTileIndex(0, 0))) |
       di::transformDetach(di::Policy<Backend::MC>(), std::move(givens_rots_fn));
 }
 }
-- 
2.43.0


From 6767409b56080c067b44431e740ef6fdcc56657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 19/34] fix: make the deflation tolerance of the tridiagonal
 solver relative to the matrix

---
 .../dlaf/eigensolver/tridiag_solver/merge.h   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index a69457b..40a973f 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -241,12 +241,14 @@ auto maxVectorElement(const SizeType i_begin, const SizeType i_end, Matrix<const
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_calc_fn));
 }
 
-// The tolerance calculation is the same as the one used in LAPACK's stedc implementation [1].
+// The tolerance calculation is the same as the one used in LAPACK's stedc implementation [1], except that
+// LAPACK requires a matrix scaled to have norm one. As the matrix is not scaled here, `z` is multiplied by
+// `rho`, such that the tolerance is relative to the matrix.
 //
 // [1] LAPACK 3.10.0, file dlaed2.f, line 315, variable TOL
-template <class T>
-auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T, Device::CPU>& d,
-                   Matrix<const T, Device::CPU>& z) {
+template <class T, class RhoSender>
+auto calcTolerance(const SizeType i_begin, const SizeType i_end, RhoSender&& rho,
+                   Matrix<const T, Device::CPU>& d, Matrix<const T, Device::CPU>& z) {
   namespace ex = pika::execution::experimental;
   namespace di = dlaf::internal;
   using pika::execution::thread_stacksize;
@@ -254,11 +256,11 @@ auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T,
   auto dmax = maxVectorElement(i_begin, i_end, d);
   auto zmax = maxVectorElement(i_begin, i_end, z);
 
-  auto tol_fn = [](T dmax, T zmax) {
-    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, zmax);
+  auto tol_fn = [](T rho, T dmax, T zmax) {
+    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, rho * zmax);
   };
 
-  return ex::when_all(std::move(dmax), std::move(zmax)) |
+  return ex::when_all(std::forward<RhoSender>(rho), std::move(dmax), std::move(zmax)) |
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_fn)) |
          // TODO: This releases the tiles that are kept in the operation state.
          // This is a temporary fix and needs to be replaced by a different
@@ -1105,7 +1107,7 @@ void mergeSubproblems(const SizeType i_begin, const SizeType i_split, const Size
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
@@ -1848,7 +1850,7 @@ void mergeDistSubproblems(comm::CommunicatorPipeline<comm::CommunicatorType::Ful
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
-- 
2.43.0


From 4c85f6d91b674e85abf210b2e492aece49f0b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 20/34] fix: return eigenvectors that are distributed like the
 input matrix

---
 include/dlaf/eigensolver/eigensolver.h     | 2 +-
 include/dlaf/eigensolver/gen_eigensolver.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 969c3cd..687fb30 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -221,7 +221,7 @@ EigensolverResult<T, D> hermitian_eigensolver(comm::CommunicatorGrid& grid, blas
   const SizeType size = mat.size().rows();
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat.distribution());
 
   hermitian_eigensolver<B, D, T>(grid, uplo, mat, eigenvalues, eigenvectors, eigenvalues_index_begin,
                                  eigenvalues_index_end);
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index 4d24778..feb31d1 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -156,7 +156,7 @@ EigensolverResult<T, D> hermitian_generalized_eigensolver(comm::CommunicatorGrid
 
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat_a.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat_a.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat_a.distribution());
 
   hermitian_generalized_eigensolver<B, D, T>(grid, uplo, mat_a, mat_b, eigenvalues, eigenvectors,
                                              factorization, eigenvalues_index_begin,
-- 
2.43.0


From d60282621a809596991e4e247f0f18408711b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 21/34] fix: check the band size of the distributed band to
 tridiagonal reduction before using it

---
 include/dlaf/eigensolver/band_to_tridiag.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/band_to_tridiag.h b/include/dlaf/eigensolver/band_to_tridiag.h
index 87910ec..6c52d22 100644
--- a/include/dlaf/eigensolver/band_to_tridiag.h
+++ b/include/dlaf/eigensolver/band_to_tridiag.h
@@ -77,9 +77,9 @@ TridiagResult<T, Device::CPU> band_to_tridiagonal(blas::Uplo uplo, SizeType band
   DLAF_ASSERT(matrix::square_size(mat_a), mat_a);
   DLAF_ASSERT(matrix::single_tile_per_block(mat_a), mat_a);
   DLAF_ASSERT(matrix::square_block_size(mat_a), mat_a);
-  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
   DLAF_ASSERT(matrix::local_matrix(mat_a), mat_a);
   DLAF_ASSERT(band_size >= 2, band_size);
+  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
 
   switch (uplo) {
     case blas::Uplo::Lower:
@@ -152,6 +152,7 @@ TridiagResult<T, Device::CPU> band_to_tridiagonal(comm::CommunicatorGrid& grid,
   DLAF_ASSERT(matrix::single_tile_per_block(mat_a), mat_a);
   DLAF_ASSERT(matrix::equal_process_grid(mat_a, grid), mat_a, grid);
   DLAF_ASSERT(band_size >= 2, band_size);
+  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
 
   // If the grid contains only one rank force local implementation.
   if (grid.size() == comm::Size2D(1, 1))
-- 
2.43.0


From 72d1bb99bc79569e836fe287e7e14c5f6a1cd07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 22/34] fix: refuse eigenvalue matrices with more than one
 column before changing the arguments

---
 include/dlaf/eigensolver/eigensolver.h     | 2 ++
 include/dlaf/eigensolver/gen_eigensolver.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 687fb30..8e37a8c 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -40,6 +40,7 @@ void hermitian_eigensolver(blas::Uplo uplo, Matrix<T, D>& mat, Matrix<BaseType<T
   DLAF_ASSERT(matrix::single_tile_per_block(mat), mat);
   DLAF_ASSERT(matrix::square_block_size(mat), mat);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
               eigenvectors);
@@ -154,6 +155,7 @@ void hermitian_eigensolver(comm::CommunicatorGrid& grid, blas::Uplo uplo, Matrix
   DLAF_ASSERT(matrix::single_tile_per_block(mat), mat);
   DLAF_ASSERT(matrix::square_block_size(mat), mat);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
               eigenvectors);
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index feb31d1..82525d9 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -45,6 +45,7 @@ void hermitian_generalized_eigensolver(blas::Uplo uplo, Matrix<T, D>& mat_a, Mat
   DLAF_ASSERT(mat_a.size() == mat_b.size(), mat_a, mat_b);
   DLAF_ASSERT(mat_a.block_size() == mat_b.block_size(), mat_a, mat_b);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
               eigenvectors);
@@ -113,6 +114,7 @@ void hermitian_generalized_eigensolver(
   DLAF_ASSERT(mat_a.size() == mat_b.size(), mat_a, mat_b);
   DLAF_ASSERT(mat_a.block_size() == mat_b.block_size(), mat_a, mat_b);
   DLAF_ASSERT(eigenvalues.size().rows() == eigenvectors.size().rows(), eigenvalues, eigenvectors);
+  DLAF_ASSERT(eigenvalues.size().cols() == 1, eigenvalues);
   DLAF_ASSERT(matrix::single_tile_per_block(eigenvalues), eigenvalues);
   DLAF_ASSERT(eigenvalues.block_size().rows() == eigenvectors.block_size().rows(), eigenvalues,
               eigenvectors);
-- 
2.43.0


From 954282fac27563286976e45a8ea992d919b90a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 23/34] fix: print values that are not finite as valid numpy
 input

---
 include/dlaf/matrix/print_numpy.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dlaf/matrix/print_numpy.h b/include/dlaf/matrix/print_numpy.h
index b201a82..cef1731 100644
--- a/include/dlaf/matrix/print_numpy.h
+++ b/include/dlaf/matrix/print_numpy.h
@@ -12,6 +12,7 @@
 
 /// @file
 
+#include <cmath>
 #include <complex>
 #include <iostream>
 #include <sstream>
@@ -51,6 +52,8 @@ std::string numpy_value(const T& value) {
   std::ostringstream os;
   if (std::isnan(value))
     os << "np.nan";
+  else if (std::isinf(value))
+    os << (value < 0 ? "-np.inf" : "np.inf");
   else
     os << value;
   return os.str();
@@ -59,6 +62,11 @@ std::string numpy_value(const T& value) {
 template <class T>
 std::string numpy_value(const std::complex<T>& value) {
   std::ostringstream os;
+  // nan and inf cannot be part of a complex literal
+  if (!std::isfinite(std::real(value)) || !std::isfinite(std::imag(value))) {
+    os << "complex(" << numpy_value(std::real(value)) << "," << numpy_value(std::imag(value)) << ")";
+    return os.str();
+  }
   const auto imag = std::imag(value);
   const auto sign = (imag < 0) ? '-' : '+';
   os << std::real(value) << sign << std::abs(imag) << "j";
-- 
2.43.0


From 3cba1be8de3db9cab415f14094039fec11412a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 24/34] fix: set_random_hermitian_banded zeroes the elements
 outside of the band in diagonal tiles too

---
 include/dlaf/util_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/util_matrix.h b/include/dlaf/util_matrix.h
index ea8a421..f8b083b 100644
--- a/include/dlaf/util_matrix.h
+++ b/include/dlaf/util_matrix.h
@@ -333,13 +333,15 @@ namespace internal {
 
 template <class T>
 void set_diagonal_tile(const Tile<T, Device::CPU>& tile, internal::getter_random<T>& random_value,
-                       SizeType offset_value) {
+                       SizeType offset_value, std::optional<SizeType> band_size = std::nullopt) {
   // DIAGONAL
   // for diagonal tiles get just lower matrix values and set value for both
   // straight and transposed indices
   for (SizeType j = 0; j < tile.size().cols(); ++j) {
     for (SizeType i = 0; i < j; ++i) {
       auto value = random_value();
+      if (band_size && j - i > *band_size)
+        value = T(0);
 
       tile(TileElementIndex{i, j}) = value;
       tile(TileElementIndex{j, i}) = dlaf::conj(value);
@@ -442,7 +444,7 @@ void set_random_hermitian_with_offset(Matrix<T, Device::CPU>& matrix, const Size
     auto set_hp_f = [=](const TileType& tile) {
       internal::getter_random<T> random_value(seed);
       if (ij.row() == ij.col())
-        internal::set_diagonal_tile(tile, random_value, offset_value);
+        internal::set_diagonal_tile(tile, random_value, offset_value, band_size);
       else
         internal::set_lower_and_upper_tile(tile, random_value, full_tile_size, ij, dist, band_size);
     };
-- 
2.43.0


From 33caebff7a4acb6169a00d4070cd519f34052700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 25/34] fix: hemm on tiles refuses a hermitian operand that is
 not square

---
 include/dlaf/util_blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/util_blas.h b/include/dlaf/util_blas.h
index e7a7a0b..594b3d4 100644
--- a/include/dlaf/util_blas.h
+++ b/include/dlaf/util_blas.h
@@ -74,6 +74,7 @@ hemmSizes getHemmSizes(const blas::Side side, [[maybe_unused]] const dlaf::matri
                        const dlaf::matrix::Tile<T, D>& c) {
   const hemmSizes s{c.size().rows(), c.size().cols()};
 
+  DLAF_ASSERT(square_size(a), a);
   if (side == blas::Side::Left) {
     DLAF_ASSERT(s.m == a.size().rows(), c, a);
     DLAF_ASSERT(s.n == b.size().cols(), c, b);
-- 
2.43.0


From 030f28057d6942502fa9e9ad3136d56eb012b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:40 +0000
Subject: [PATCH 26/34] fix: 1D block size of band_to_tridiagonal is a multiple
 of the block size for small bases

---
 include/dlaf/eigensolver/internal/get_1d_block_size.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/internal/get_1d_block_size.h b/include/dlaf/eigensolver/internal/get_1d_block_size.h
index 83e9da1..1bd2f34 100644
--- a/include/dlaf/eigensolver/internal/get_1d_block_size.h
+++ b/include/dlaf/eigensolver/internal/get_1d_block_size.h
@@ -22,7 +22,7 @@ inline SizeType get1DBlockSize(const SizeType nb) noexcept {
   DLAF_ASSERT(nb >= 1, nb);
   DLAF_ASSERT(nb_base >= 1, nb_base);
 
-  return std::max<SizeType>(1, nb_base / nb * nb);
+  return std::max<SizeType>(1, nb_base / nb) * nb;
 }
 
 }
-- 
2.43.0


From a228c14479467386fddce5fced71e734ab4a6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:14 +0000
Subject: [PATCH 27/34] fix: tridiagonal solver works with any allocation
 layout of the matrices and by default

---
 .../dlaf/eigensolver/tridiag_solver/impl.h    | 88 ++++++++++++-------
 .../dlaf/eigensolver/tridiag_solver/merge.h   |  3 +-
 2 files changed, 57 insertions(+), 34 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 6bb8020..24dd352 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -217,26 +217,38 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
     return;
   }
 
+  // Note: the kernels access vectors, and columns of matrices across tiles, through a single pointer.
+  const matrix::AllocationSpec col_major(matrix::AllocationLayout::ColMajor);
+  if (evals.allocation_layout() != matrix::AllocationLayout::ColMajor ||
+      evecs.allocation_layout() != matrix::AllocationLayout::ColMajor) {
+    Matrix<T, D> evals_col_major(evals.distribution(), col_major);
+    Matrix<T, D> evecs_col_major(evecs.distribution(), col_major);
+    call(tridiag, evals_col_major, evecs_col_major);
+    copy(evals_col_major, evals);
+    copy(evecs_col_major, evecs);
+    return;
+  }
+
   // Auxiliary matrix used for the D&C algorithm
   const matrix::Distribution& distr = evecs.distribution();
   const LocalElementSize vec_size(distr.size().rows(), 1);
   const TileElementSize vec_tile_size(distr.tile_size().rows(), 1);
-  WorkSpace<T, D> ws{Matrix<T, D>(distr),                            // e0
-                     Matrix<T, D>(distr),                            // e1
-                     evecs,                                          // e2
-                     evals,                                          // d1
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z0
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z1
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i2
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5b
-                     Matrix<SizeType, D>(vec_size, vec_tile_size)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size),          // d0
-                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size),    // c
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i1
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i3
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size)};  // i4
+  WorkSpace<T, D> ws{Matrix<T, D>(distr, col_major),                            // e0
+                     Matrix<T, D>(distr, col_major),                            // e1
+                     evecs,                                                     // e2
+                     evals,                                                     // d1
+                     Matrix<T, D>(vec_size, vec_tile_size, col_major),          // z0
+                     Matrix<T, D>(vec_size, vec_tile_size, col_major),          // z1
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major),   // i2
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major),   // i5
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major),   // i5b
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, col_major)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size, col_major),          // d0
+                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size, col_major),    // c
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, col_major),   // i1
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, col_major),   // i3
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, col_major)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   WorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1),
@@ -280,7 +292,8 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
 template <Backend B, Device D, class T>
 void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>& evals,
                                   Matrix<std::complex<T>, D>& evecs) {
-  Matrix<T, D> real_evecs(evecs.distribution());
+  Matrix<T, D> real_evecs(evecs.distribution(),
+                          matrix::AllocationSpec(matrix::AllocationLayout::ColMajor));
   TridiagSolver<B, D, T>::call(tridiag, evals, real_evecs);
 
   // Convert real to complex numbers
@@ -371,6 +384,15 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   if (evecs.size().isEmpty())
     return;
 
+  // Note: the kernels access vectors, and columns of matrices across tiles, through a single pointer.
+  const matrix::AllocationSpec col_major(matrix::AllocationLayout::ColMajor);
+  if (evals.allocation_layout() != matrix::AllocationLayout::ColMajor) {
+    Matrix<T, D> evals_col_major(evals.distribution(), col_major);
+    call(grid, tridiag, evals_col_major, evecs);
+    copy(evals_col_major, evals);
+    return;
+  }
+
 #ifdef DLAF_WITH_HDF5
   static std::atomic<size_t> num_tridiag_solver_calls = 0;
   std::stringstream fname;
@@ -402,22 +424,22 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const matrix::Distribution& dist_evals = evals.distribution();
   const matrix::Distribution dist_local({dist_evecs.local_size().cols(), 1}, dist_evecs.tile_size());
 
-  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs),          // e0
-                     Matrix<T, D>(dist_evecs),          // e1
-                     evecs,                             // e2
-                     evals,                             // d1
-                     Matrix<T, D>(dist_evals),          // z0
-                     Matrix<T, D>(dist_evals),          // z1
-                     Matrix<SizeType, D>(dist_evals),   // i2
-                     Matrix<SizeType, D>(dist_evals),   // i5
-                     Matrix<SizeType, D>(dist_local),   // i5b
-                     Matrix<SizeType, D>(dist_evals)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals),          // d0
-                        Matrix<ColType, Device::CPU>(dist_evals),    // c
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i1
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i3
-                        Matrix<SizeType, Device::CPU>(dist_evals)};  // i4
+  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs, col_major),          // e0
+                     Matrix<T, D>(dist_evecs, col_major),          // e1
+                     evecs,                                        // e2
+                     evals,                                        // d1
+                     Matrix<T, D>(dist_evals, col_major),          // z0
+                     Matrix<T, D>(dist_evals, col_major),          // z1
+                     Matrix<SizeType, D>(dist_evals, col_major),   // i2
+                     Matrix<SizeType, D>(dist_evals, col_major),   // i5
+                     Matrix<SizeType, D>(dist_local, col_major),   // i5b
+                     Matrix<SizeType, D>(dist_evals, col_major)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals, col_major),          // d0
+                        Matrix<ColType, Device::CPU>(dist_evals, col_major),    // c
+                        Matrix<SizeType, Device::CPU>(dist_evals, col_major),   // i1
+                        Matrix<SizeType, Device::CPU>(dist_evals, col_major),   // i3
+                        Matrix<SizeType, Device::CPU>(dist_evals, col_major)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   DistWorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e0), initMirrorMatrix(ws.e2),
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index 40a973f..ee6cd57 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -176,7 +176,8 @@ struct DistWorkSpaceHostMirror {
 
 template <class T>
 Matrix<T, Device::CPU> initMirrorMatrix(Matrix<T, Device::GPU>& mat) {
-  return Matrix<T, Device::CPU>(mat.distribution());
+  return Matrix<T, Device::CPU>(mat.distribution(),
+                                matrix::AllocationSpec(matrix::AllocationLayout::ColMajor));
 }
 
 template <class T>
-- 
2.43.0


From e5f81ee98828665754f5fd6138be58e8f69371d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:43 +0000
Subject: [PATCH 28/34] fix: permutations work with index maps of any
 allocation layout

---
 include/dlaf/permutations/general/impl.h | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/dlaf/permutations/general/impl.h b/include/dlaf/permutations/general/impl.h
index 0653e5c..dadf9fb 100644
--- a/include/dlaf/permutations/general/impl.h
+++ b/include/dlaf/permutations/general/impl.h
@@ -31,6 +31,7 @@
 #include <dlaf/eigensolver/tridiag_solver/index_manipulation.h>
 #include <dlaf/lapack/gpu/lacpy.h>
 #include <dlaf/lapack/tile.h>
+#include <dlaf/matrix/copy.h>
 #include <dlaf/matrix/copy_tile.h>
 #include <dlaf/matrix/distribution.h>
 #include <dlaf/matrix/distribution_extensions.h>
@@ -189,6 +190,17 @@ void Permutations<B, D, T, C>::call(const SizeType i_begin, const SizeType i_end
   const LocalTileIndex idx_begin_lc = next_local_from_global(i_begin);
   const LocalTileIndex idx_end_lc = next_local_from_global(i_end);
 
+  // The index map is accessed through the pointer to its first element.
+  if (perms.allocation_layout() != matrix::AllocationLayout::ColMajor) {
+    const SizeType i_begin_lc = idx_begin_lc.get<C>();
+    Matrix<SizeType, D> perms_col_major(perms.distribution(),
+                                        matrix::AllocationSpec(matrix::AllocationLayout::ColMajor));
+    matrix::copy(LocalTileIndex(i_begin_lc, 0), LocalTileSize(idx_end_lc.get<C>() - i_begin_lc, 1),
+                 perms, perms_col_major);
+    call(i_begin, i_end, perms_col_major, mat_in, mat_out);
+    return;
+  }
+
   auto perms_range = common::iterate_range2d(LocalTileIndex(idx_begin_lc.get<C>(), 0),
                                              LocalTileIndex(idx_end_lc.get<C>(), 1));
   auto mat_range = common::iterate_range2d(idx_begin_lc, idx_end_lc);
@@ -580,8 +592,17 @@ void permuteOnCPU(
   if (sz_loc.isEmpty())
     return;
 
+  // The index maps are accessed through the pointer to their first element.
+  const AllocationSpec col_major(AllocationLayout::ColMajor);
+  if (perms.allocation_layout() != AllocationLayout::ColMajor) {
+    Matrix<SizeType, D> perms_col_major(perms.distribution(), col_major);
+    copy(LocalTileIndex(i_begin, 0), LocalTileSize(i_end - i_begin, 1), perms, perms_col_major);
+    permuteOnCPU<T, C>(sub_task_chain, i_begin, i_end, perms_col_major, mat_in, mat_out);
+    return;
+  }
+
   // Create a map from send indices to receive indices (inverse of perms)
-  Matrix<SizeType, D> inverse_perms(perms.distribution());
+  Matrix<SizeType, D> inverse_perms(perms.distribution(), col_major);
   eigensolver::internal::invertIndex(i_begin, i_end, perms, inverse_perms);
 
   // Local distribution used for packing and unpacking
@@ -591,9 +612,9 @@ void permuteOnCPU(
   // communication data
   const SizeType nvecs = sz_loc.get<C>();
   const Distribution index_dist(LocalElementSize(nvecs, 1), TileElementSize(blk.get<C>(), 1));
-  Matrix<SizeType, D> local2global_index(index_dist);
-  Matrix<SizeType, D> packing_index(index_dist);
-  Matrix<SizeType, D> unpacking_index(index_dist);
+  Matrix<SizeType, D> local2global_index(index_dist, col_major);
+  Matrix<SizeType, D> packing_index(index_dist, col_major);
+  Matrix<SizeType, D> unpacking_index(index_dist, col_major);
 
   // Local matrices used for packing data for communication. Both matrices are in column-major order.
   // The particular constructor is used on purpose to guarantee that columns are stored contiguosly,
-- 
2.43.0


From 5dadd635d85d4806209b60ff0e274842ef0b397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:07 +0000
Subject: [PATCH 29/34] fix: miniapps report results with NaNs as errors

---
 miniapp/miniapp_cholesky.cpp        | 3 ++-
 miniapp/miniapp_eigensolver.cpp     | 3 ++-
 miniapp/miniapp_gen_eigensolver.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/miniapp/miniapp_cholesky.cpp b/miniapp/miniapp_cholesky.cpp
index e39d0cf..eb864aa 100644
--- a/miniapp/miniapp_cholesky.cpp
+++ b/miniapp/miniapp_cholesky.cpp
@@ -437,7 +437,8 @@ void check_cholesky(Matrix<T, Device::CPU>& A, Matrix<T, Device::CPU>& L, Commun
 
   const auto diff_ratio = norm_diff / norm_A;
 
-  if (diff_ratio > 100 * eps * n)
+  // Note: written such that NaNs are reported as error
+  if (!(diff_ratio <= 100 * eps * n))
     std::cout << "ERROR: ";
   else if (diff_ratio > eps * n)
     std::cout << "Warning: ";
diff --git a/miniapp/miniapp_eigensolver.cpp b/miniapp/miniapp_eigensolver.cpp
index cc8d297..1def6b5 100644
--- a/miniapp/miniapp_eigensolver.cpp
+++ b/miniapp/miniapp_eigensolver.cpp
@@ -343,7 +343,8 @@ void checkEigensolver(CommunicatorGrid& comm_grid, blas::Uplo uplo, Matrix<const
 
   const auto diff_ratio = norm_diff / norm_A;
 
-  if (diff_ratio > 100 * eps * n)
+  // Note: written such that NaNs are reported as error
+  if (!(diff_ratio <= 100 * eps * n))
     std::cout << "ERROR: ";
   else if (diff_ratio > eps * n)
     std::cout << "Warning: ";
diff --git a/miniapp/miniapp_gen_eigensolver.cpp b/miniapp/miniapp_gen_eigensolver.cpp
index afc3637..5a6f881 100644
--- a/miniapp/miniapp_gen_eigensolver.cpp
+++ b/miniapp/miniapp_gen_eigensolver.cpp
@@ -383,7 +383,8 @@ void checkGenEigensolver(CommunicatorGrid& comm_grid, blas::Uplo uplo, Matrix<co
 
   const auto diff_ratio = norm_diff / norm_A / norm_B;
 
-  if (diff_ratio > 100 * eps * n)
+  // Note: written such that NaNs are reported as error
+  if (!(diff_ratio <= 100 * eps * n))
     std::cout << "ERROR: ";
   else if (diff_ratio > eps * n)
     std::cout << "Warning: ";
-- 
2.43.0


From 723beefc3dc4d29eec018230f3479824f6d581be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:19 +0000
Subject: [PATCH 30/34] fix: triangular multiplication miniapp prints the
 requested CSV data

---
 miniapp/miniapp_triangular_multiplication.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/miniapp/miniapp_triangular_multiplication.cpp b/miniapp/miniapp_triangular_multiplication.cpp
index 661759e..d1b820e 100644
--- a/miniapp/miniapp_triangular_multiplication.cpp
+++ b/miniapp/miniapp_triangular_multiplication.cpp
@@ -177,6 +177,25 @@ struct triangularMultiplicationMiniapp {
                   << dlaf::internal::FormatShort{opts.op} << dlaf::internal::FormatShort{opts.diag}
                   << " " << bh.size() << " " << bh.blockSize() << " " << comm_grid.size() << " "
                   << pika::get_os_thread_count() << " " << backend << std::endl;
+        if (opts.csv_output) {
+          // CSV formatted output with column names that can be read by pandas to simplify
+          // post-processing CSVData{-version}, value_0, title_0, value_1, title_1
+          std::cout << "CSVData-2, "
+                    << "run, " << run_index << ", "
+                    << "time, " << elapsed_time << ", "
+                    << "GFlops, " << gigaflops << ", "
+                    << "type, " << dlaf::internal::FormatShort{opts.type}.value << ", "
+                    << "side, " << dlaf::internal::FormatShort{opts.side}.value << ", "
+                    << "uplo, " << dlaf::internal::FormatShort{opts.uplo}.value << ", "
+                    << "op, " << dlaf::internal::FormatShort{opts.op}.value << ", "
+                    << "diag, " << dlaf::internal::FormatShort{opts.diag}.value << ", "
+                    << "matrixsize, " << bh.size().rows() << ", "
+                    << "blocksize, " << bh.blockSize().rows() << ", "
+                    << "comm_rows, " << comm_grid.size().rows() << ", "
+                    << "comm_cols, " << comm_grid.size().cols() << ", "
+                    << "threads, " << pika::get_os_thread_count() << ", "
+                    << "backend, " << backend << ", " << opts.info << std::endl;
+        }
       }
 
       if ((opts.do_check == dlaf::miniapp::CheckIterFreq::Last && run_index == (opts.nruns - 1)) ||
-- 
2.43.0


From 2fb76906f1ab54547365a4540d7824d81eb355d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:19 +0000
Subject: [PATCH 31/34] fix: triangular solver miniapp gives the side of CSV
 data its title

---
 miniapp/miniapp_triangular_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniapp/miniapp_triangular_solver.cpp b/miniapp/miniapp_triangular_solver.cpp
index c0676ac..60ae1fc 100644
--- a/miniapp/miniapp_triangular_solver.cpp
+++ b/miniapp/miniapp_triangular_solver.cpp
@@ -209,7 +209,7 @@ struct triangularSolverMiniapp {
                     << "time, " << elapsed_time << ", "
                     << "GFlops, " << gigaflops << ", "
                     << "type, " << dlaf::internal::FormatShort{opts.type}.value << ", "
-                    << "size, " << dlaf::internal::FormatShort{opts.side}.value << ", "
+                    << "side, " << dlaf::internal::FormatShort{opts.side}.value << ", "
                     << "uplo, " << dlaf::internal::FormatShort{opts.uplo}.value << ", "
                     << "op, " << dlaf::internal::FormatShort{opts.op}.value << ", "
                     << "diag, " << dlaf::internal::FormatShort{opts.diag}.value << ", "
-- 
2.43.0


From f1e3fb01ae92a2745e5a4c08b1536108d2f1947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:30 +0000
Subject: [PATCH 32/34] fix: set up MPI-IO for parallel HDF5 files also without
 assertions

---
 include/dlaf/matrix/hdf5.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/hdf5.h b/include/dlaf/matrix/hdf5.h
index d80b594..06ae2e9 100644
--- a/include/dlaf/matrix/hdf5.h
+++ b/include/dlaf/matrix/hdf5.h
@@ -186,7 +186,8 @@ public:
   /// @post file created will support parallel-write
   FileHDF5(comm::Communicator comm, const std::string& filepath) {
     H5::FileAccPropList fapl;
-    DLAF_ASSERT(H5Pset_fapl_mpio(fapl.getId(), comm, MPI_INFO_NULL) >= 0, "Problem setting up MPI-IO.");
+    [[maybe_unused]] const herr_t status = H5Pset_fapl_mpio(fapl.getId(), comm, MPI_INFO_NULL);
+    DLAF_ASSERT(status >= 0, "Problem setting up MPI-IO.");
     file_ = H5::H5File(filepath, mode2flags(FileMode::readwrite), {}, fapl);
     has_mpio_ = true;
     rank_ = comm.rank();
-- 
2.43.0


From 1f66b903dc040113b16504a789eccca83cd839c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:30 +0000
Subject: [PATCH 33/34] fix: release the panels of gen_to_std in the last
 iteration

They hold tiles of mat_l, for which hegst waits, so that waiting for the
result (e.g. to dump it) before the end of the algorithm hangs.
---
 include/dlaf/eigensolver/gen_to_std/impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/gen_to_std/impl.h b/include/dlaf/eigensolver/gen_to_std/impl.h
index 081e9ec..2a973b7 100644
--- a/include/dlaf/eigensolver/gen_to_std/impl.h
+++ b/include/dlaf/eigensolver/gen_to_std/impl.h
@@ -398,8 +398,12 @@ void GenToStd<backend, device, T>::call_L(comm::CommunicatorGrid& grid, Matrix<T
       hegstDiagTile<backend>(thread_priority::high, mat_a.readwrite(kk), mat_l.readwrite(kk));
 
     // If there is no trailing matrix
-    if (k == nrtile - 1)
+    if (k == nrtile - 1) {
+      // Note: the panels hold tiles of mat_l, for which hegst waits.
+      l_panel.reset();
+      l_panelT.reset();
       continue;
+    }
 
     const LocalTileIndex diag_wp_idx{0, kk_offset.cols()};
 
-- 
2.43.0


From 1814186b25696459df82e67429a92789f7de0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:30 +0000
Subject: [PATCH 34/34] fix: dump the results of the tridiagonal solver also
 for a single tile

The calls were also not counted, so that the next one reused the file.
---
 include/dlaf/eigensolver/tridiag_solver/impl.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 24dd352..31b9c20 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -416,6 +416,16 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
       solveDistLeaf(full_task_chain, tridiag, evecs, h_evecs);
     }
     offloadDiagonal(tridiag, evals);
+
+#ifdef DLAF_WITH_HDF5
+    if (getTuneParameters().debug_dump_tridiag_solver_data) {
+      file->write(evecs, "/evecs");
+      file->write(evals, "/evals");
+    }
+
+    num_tridiag_solver_calls++;
+#endif
+
     return;
   }
 
-- 
2.43.0


From 4decbcb0ceaa36ad51b1d518f03832af51bb88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 01/45] fix: pose graph iterators tested the element behind the
 end before the end itself

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..5a89ed7 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -265,7 +265,7 @@ public:
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && current_->get() == nullptr) {
       ++current_;
     }
     return *this;
@@ -323,7 +323,7 @@ public:
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && current_->get() == nullptr) {
       ++current_;
     }
     return *this;
-- 
2.43.0


From 53cc0471f19aff59f1cafe8a4203a17abbc0f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 02/45] fix: pose graph iteration started at a removed first
 edge

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 5a89ed7..88ca105 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -260,6 +260,10 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // first element may be an empty field left after removed element
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
@@ -318,6 +322,10 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // first element may be an empty field left after removed element
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
-- 
2.43.0


From 2fec85ea67ccd448dd6652755dbaef03452d9d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 03/45] fix: removeEdge accepted the first unused edge id

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 88ca105..aff4b7a 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From 5fb9943a2bd37517ff9d1a888c469dbadfd9972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 04/45] fix: nodes kept dangling pointers to removed pose graph
 edges

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index aff4b7a..8363f5f 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -2,6 +2,7 @@
 #define NDT_GSLAM_POSE_GRAPH
 
 #include <Eigen/Eigen>
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -105,6 +106,10 @@ bool Graph<P, T>::removeEdge(Id edge_id)
       id_edge_pool_.end())
     return false;
   id_edge_pool_.push_back(edge_id);
+  // nodes must not keep pointers to the edge which is about to be destroyed
+  E* edge = edges_[edge_id].get();
+  nodes_[edge->getFrom()->getId()]->removeEdge(edge);
+  nodes_[edge->getTo()->getId()]->removeEdge(edge);
   edges_[edge_id].reset(nullptr);
   return true;
 }
@@ -409,8 +414,7 @@ public:
   bool addEdgeIn(Edge<P, T>* e);
   edge_list_t& getEdgesIn();
   edge_list_t& getEdgesOut();
-  //    bool removeEdge(Id id);
-  //    bool removeEdge(Edge * e);
+  void removeEdge(Edge<P, T>* e);
   void setId(Id id);
   Id getId() const;
   bool isVisited() const;
@@ -492,16 +496,14 @@ typename Node<P, T>::edge_list_t& Node<P, T>::getEdgesOut()
   return edges_out_;
 }
 
-// template<typename T,typename P>
-// bool Node<P>::removeEdge(Id id){
-//     auto it = std::find(edges_.begin(),edges_.end(),id);
-//     if(it != edges_.end()){
-//         // edge exist ..can be erased.
-//         edges_.erase(it);
-//         return true;
-//     }
-//     return false;
-// }
+template <typename P, typename T>
+void Node<P, T>::removeEdge(Edge<P, T>* e)
+{
+  edges_out_.erase(std::remove(edges_out_.begin(), edges_out_.end(), e),
+                   edges_out_.end());
+  edges_in_.erase(std::remove(edges_in_.begin(), edges_in_.end(), e),
+                  edges_in_.end());
+}
 
 template <typename P, typename T>
 void Node<P, T>::setId(Id id)
-- 
2.43.0


From 5166ebd845b74e85436e55bfc958156f5b3b8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 05/45] fix: failed addEdge left a half inserted edge in the
 pose graph

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 8363f5f..10c50d9 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -79,21 +79,31 @@ template <typename P, typename T>
 typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 {
   std::unique_ptr<E> e_ptr(new E(std::move(edg)));
+  E* edge = e_ptr.get();
+  N& from = *nodes_[edge->getFrom()->getId()];
+  N& to = *nodes_[edge->getTo()->getId()];
   size_t id;
-  if (id_edge_pool_.empty()) {
-    edges_.push_back(std::move(e_ptr));
-    size_t edge_id = edges_.size() - 1;
-    id = edge_id;
-  } else {
-    // previously deleted edges left unallocated possitions. Fill in new edge.
-    size_t free_id = id_edge_pool_.back();
-    id_edge_pool_.pop_back();
-    edges_[free_id] = std::move(e_ptr);
-    id = free_id;
+  try {
+    from.addEdgeOut(edge);
+    to.addEdgeIn(edge);
+    if (id_edge_pool_.empty()) {
+      edges_.push_back(std::move(e_ptr));
+      size_t edge_id = edges_.size() - 1;
+      id = edge_id;
+    } else {
+      // previously deleted edges left unallocated possitions. Fill in new edge.
+      size_t free_id = id_edge_pool_.back();
+      id_edge_pool_.pop_back();
+      edges_[free_id] = std::move(e_ptr);
+      id = free_id;
+    }
+  } catch (...) {
+    // edge was not stored. Nodes can not keep reference to it
+    from.removeEdge(edge);
+    to.removeEdge(edge);
+    throw;
   }
   edges_[id]->setId(id);
-  nodes_[edges_[id]->getFrom()->getId()]->addEdgeOut(edges_[id].get());
-  nodes_[edges_[id]->getTo()->getId()]->addEdgeIn(edges_[id].get());
   return id;
 }
 
-- 
2.43.0


From c625845878f38bb2bed7a9e9324d527ce58694f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 06/45] fix: copying a voxel grid dereferenced empty cells and
 doubled the storage

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..10f6aef 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -309,11 +309,14 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , height_down_(other.height_down_)
   , valid_cells_(other.valid_cells_)
 {
-  cells_.resize(other.cells_.size());
+  cells_.reserve(other.cells_.size());
   for (const std::unique_ptr<CellType>& cell : other.cells_) {
-    CellType* new_cell = new CellType;
-    *new_cell = *cell;
-    cells_.emplace_back(new_cell);
+    std::unique_ptr<CellType> new_cell;
+    if (cell.get() != nullptr) {
+      new_cell.reset(new CellType);
+      *new_cell = *cell;
+    }
+    cells_.push_back(std::move(new_cell));
   }
 }
 
-- 
2.43.0


From 8fb0ea897f08b3bc41de03fd423a8e41bac3dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 07/45] fix: removeCell did not return a value

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 10f6aef..75e4ca1 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -389,6 +389,7 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
     --valid_cells_;
   }
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From 41ad366b0f47cafb2f0dc244d71a745b7ef1a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 08/45] fix: count of valid cells ignored clearing, translating
 and ray tracing

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 75e4ca1..46d806d 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -550,6 +550,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -559,6 +560,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -599,6 +601,12 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // some cells could have been moved out of the grid
+  valid_cells_ = 0;
+  for (auto&& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -607,6 +615,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From 9e4922cb917ebebf1027b89e04de0f38d10a0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 09/45] fix: ray tracing of a beam shorter than one cell ran to
 the border of the grid

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 46d806d..bab0783 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -553,6 +553,9 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
+  // the end is not further than one cell away, the loop counter would underflow
+  if (length < 1)
+    return res;
   double total_dist = 0;
   for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
     // total_dist += delta_dist;
-- 
2.43.0


From af892310b70650beb6bd2f9b3c30b6af33a6b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 10/45] fix: getCentroid of voxel grid used member functions as
 values

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index bab0783..0d5f37d 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -473,9 +473,9 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(left())) * cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      (static_cast<long>(up()) - static_cast<long>(coords.second)) * cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From dc6089813beeffce6ec84caa69a5697f3e07d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 11/45] fix: voxel grid used different borders for the inside
 test, indexing and growing

---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 64 +++++++++++--------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 0d5f37d..3c71104 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -266,6 +266,10 @@ private:
   size_t calcIndex(const std::pair<size_t, size_t>& coords) const;
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
+  // offset of the cell from the centroid cell. Columns grow to the right, rows
+  // downwards
+  double calcCol(double x) const;
+  double calcRow(double y) const;
 
   void enlargeToFit(const Point& pt);
   size_t calcIncLeft(float pt) const;
@@ -395,15 +399,12 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
-    return true;
-  else
-    return false;
+  double col = calcCol(pt(0));
+  double row = calcRow(pt(1));
+  return col >= -static_cast<double>(width_left_) &&
+         col <= static_cast<double>(width_right_) &&
+         row >= -static_cast<double>(height_up_) &&
+         row <= static_cast<double>(height_down_);
 }
 
 template <typename CellType>
@@ -522,12 +523,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
 
   if (!isInside(start)) {
     return res;
@@ -569,7 +564,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
@@ -661,24 +656,41 @@ std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
   std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
+  coords.first = static_cast<size_t>(calcCol(pt(0)) +
+                                     static_cast<double>(width_left_));
+  coords.second = static_cast<size_t>(calcRow(pt(1)) +
+                                      static_cast<double>(height_up_));
   return coords;
 }
 
 template <typename CellType>
 void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 {
-  // keep in sync with calculation in isInside. Mostly operator< and widths
-  // calculations
   if (isInside(pt))
     return;
-  enlargeGrid(calcIncLeft(pt(0)), calcIncRight(pt(0)), calcIncUp(pt(1)),
-              calcIncDown(pt(1)));
+  double col = calcCol(pt(0));
+  double row = calcRow(pt(1));
+  auto increment = [](double needed, size_t current) -> size_t {
+    if (needed > static_cast<double>(current))
+      return static_cast<size_t>(needed) - current;
+    return 0;
+  };
+  enlargeGrid(increment(-col, width_left_), increment(col, width_right_),
+              increment(-row, height_up_), increment(row, height_down_));
+}
+
+// All decisions about position of a point in the grid are based on these two
+// functions. It is important to have the same rounding everywhere.
+template <typename CellType>
+double VoxelGrid2D<CellType>::calcCol(double x) const
+{
+  return std::floor((x + cell_size_half_) / cell_size_);
+}
+
+template <typename CellType>
+double VoxelGrid2D<CellType>::calcRow(double y) const
+{
+  return std::floor((-y + cell_size_half_) / cell_size_);
 }
 
 template <typename CellType>
-- 
2.43.0


From 256e924b4d45e0d54274575b0c9aaf4eb8aec035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 12/45] fix: zero length ray made occupancy of ndt cell NaN

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..eba7cab 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -238,7 +238,14 @@ void NDTCell::rescaleCovar()
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
                                         Vector &pt) const
 {
-  Vector l = (end - start) / (end - start).norm();
+  double length = (end - start).norm();
+  if (length == 0) {
+    // ray without direction consists only of its end
+    pt = end;
+    double likelihood = (pt - mean_).dot(icov_ * (pt - mean_));
+    return std::exp(-likelihood / 2);
+  }
+  Vector l = (end - start) / length;
   Vector a = icov_ * l;
   Vector b = (end - mean_);
   double sigma = a.cwiseProduct(l).sum();
-- 
2.43.0


From d1f2df33d378c5b47896e5d12b245765ec802a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 13/45] fix: ndt cell forgot its distribution when less than
 six points were added

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index eba7cab..116b566 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -71,8 +71,9 @@ void NDTCell::computeGaussian()
     return;
   }
   if (points_vec_.size() < 6) {
-    gaussian_ = false;
-    points_ = points_vec_.size();
+    // new points wait for others, already known distribution stays valid
+    if (!gaussian_)
+      points_ = points_vec_.size();
     return;
   }
 
-- 
2.43.0


From 12bc3d3aac7d0d57a52a264e36748223f181d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 14/45] fix: switch kept the rejected value when the optimiser
 restored its estimate

---
 .../switchable_constraints/vertex_switchLinear.h           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..e05bd13 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -30,6 +30,13 @@ public:
   virtual bool write(std::ostream& os) const;
   virtual void setEstimate(const double& et);
 
+  // the optimiser restores the estimate when it rejects a step
+  virtual void pop()
+  {
+    g2o::BaseVertex<1, double>::pop();
+    _x = _estimate;
+  }
+
   double x() const
   {
     return _x;
-- 
2.43.0


From 6417606887e2678748074fd0c0b6bbb7b1a46d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 15/45] fix: switchable constraints reported success for failed
 reads and writes

---
 .../switchable_constraints/edge_se2Switchable.cpp             | 2 +-
 .../switchable_constraints/edge_switchPrior.cpp               | 4 ++--
 .../switchable_constraints/vertex_switchLinear.cpp            | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
index b0ae7ad..2584e9d 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
@@ -41,7 +41,7 @@ bool EdgeSE2Switchable::read(std::istream& is)
       if (i != j)
         information()(j, i) = information()(i, j);
     }
-  return true;
+  return !is.fail();
 }
 // ================================================
 bool EdgeSE2Switchable::write(std::ostream& os) const
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
index 2d9ac54..408f39c 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
@@ -9,13 +9,13 @@ bool EdgeSwitchPrior::read(std::istream &is)
   setMeasurement(new_measurement);
 
   is >> information()(0, 0);
-  return true;
+  return !is.fail();
 }
 
 bool EdgeSwitchPrior::write(std::ostream &os) const
 {
   os << measurement() << " " << information()(0, 0);
-  return true;
+  return os.good();
 }
 
 void EdgeSwitchPrior::linearizeOplus()
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..bbb25c3 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -18,7 +18,7 @@ bool VertexSwitchLinear::read(std::istream& is)
   is >> _x;
   _estimate = _x;
 
-  return true;
+  return !is.fail();
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
-- 
2.43.0


From 9e42e8620ff773572344237d6eec282e60d47fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 16/45] fix: best component of an empty mixture was not
 initialised

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp   | 2 +-
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..9ec47f6 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..ae03517 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
-- 
2.43.0


From 1a7db13aaf9b69ef736154e2178c569bfaf3987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 17/45] fix: mixture kept determinants of its previous
 components

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp    | 1 +
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 9ec47f6..3f4da83 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index ae03517..5c71505 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
-- 
2.43.0


From efa3a2d317fbc642b1a5c622417b043ba0c5f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 18/45] fix: reading a cut off mixture record used unset
 vertices and components

---
 .../max_mixture/edge_se2_mixture.cpp          | 24 +++++++++++++++++--
 .../max_mixture/edge_se2_pointxy_mixture.cpp  | 24 +++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 3f4da83..ec55bae 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -137,7 +137,23 @@ void EdgeSE2Mixture::computeBestEdge()
 // EDGE_SE2_MIXTURE va vb numComponents Edgetype_i w_i na_i nb_i
 bool EdgeSE2Mixture::read(std::istream& is)
 {
+  // a record that is cut off or damaged must not leave a half read mixture
+  auto failed = [this]() {
+    for (auto&& edge : allEdges)
+      delete edge;
+    allEdges.clear();
+    weights.clear();
+    determinants.clear();
+    numberComponents = 0;
+    return false;
+  };
+
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   is >> numberComponents;
+  if (is.fail() || numberComponents < 1)
+    return failed();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -158,11 +174,13 @@ bool EdgeSE2Mixture::read(std::istream& is)
     int na, nb;
     is >> na;
     is >> nb;
+    if (is.fail())
+      return failed();
 
     VertexSE2* v0 = static_cast<VertexSE2*>(va->graph()->vertex(na));
     VertexSE2* v1 = static_cast<VertexSE2*>(va->graph()->vertex(nb));
-    assert(v0 != NULL);
-    assert(v1 != NULL);
+    if (v0 == NULL || v1 == NULL)
+      return failed();
     allEdges[c]->setVertex(0, v0);
     allEdges[c]->setVertex(1, v1);
 
@@ -179,6 +197,8 @@ bool EdgeSE2Mixture::read(std::istream& is)
           inf(j, i) = inf(i, j);
       }
     allEdges[c]->setInformation(inf);
+    if (!is.good())
+      return failed();
   }
 
   for (unsigned int i = 0; i < numberComponents; i++)
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 5c71505..f506d8b 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -133,7 +133,23 @@ void EdgeSE2PointXYMixture::computeBestEdge()
 // EDGE_SE2_MIXTURE na nb numComponents Edgetype_i w_i na_i nb_i
 bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
+  // a record that is cut off or damaged must not leave a half read mixture
+  auto failed = [this]() {
+    for (auto&& edge : allEdges)
+      delete edge;
+    allEdges.clear();
+    weights.clear();
+    determinants.clear();
+    numberComponents = 0;
+    return false;
+  };
+
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   is >> numberComponents;
+  if (is.fail() || numberComponents < 1)
+    return failed();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -156,11 +172,13 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
     int na, nb;
     is >> na;
     is >> nb;
+    if (is.fail())
+      return failed();
 
     VertexSE2* v0 = static_cast<VertexSE2*>(va->graph()->vertex(na));
     VertexPointXY* v1 = static_cast<VertexPointXY*>(va->graph()->vertex(nb));
-    assert(v0 != NULL);
-    assert(v1 != NULL);
+    if (v0 == NULL || v1 == NULL)
+      return failed();
     allEdges[c]->setVertex(0, v0);
     allEdges[c]->setVertex(1, v1);
 
@@ -177,6 +195,8 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
           inf(j, i) = inf(i, j);
       }
     allEdges[c]->setInformation(inf);
+    if (!is.good())
+      return failed();
   }
 
   for (unsigned int i = 0; i < numberComponents; i++)
-- 
2.43.0


From ea9fdeb6dbf60f0028213445790d257f30d01fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:14 +0000
Subject: [PATCH 19/45] fix: mapper could not look up, move, remove or combine
 its frames

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 3f909b2..ee405c2 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -8,6 +8,7 @@
 #include <pcl/point_cloud.h>
 #include <ros/ros.h>
 #include <Eigen/Dense>
+#include <algorithm>
 #include <map>
 #include <memory>
 
@@ -110,7 +111,7 @@ private:
   FrameStorage grids_;
   typename Pcl::Ptr means_;
   // return id of frame if found. Otherwise exception
-  typename FrameStorage::iterator getFrameIterator(const NDTGrid2DPtr &frame);
+  typename FrameStorage::iterator getFrameIterator(const NDTGrid2DConstPtr &frame);
   void addToMap(const Grid &frame);
 };
 
@@ -164,7 +165,7 @@ template <typename CellType, typename PointType>
 void NDTMapper<CellType, PointType>::updateFrame(const NDTGrid2DPtr &frame,
                                                  const Pose &pose)
 {
-  getFrameIterator(frame)->setOrigin(pose);
+  (*getFrameIterator(frame))->setOrigin(pose);
 }
 
 template <typename CellType, typename PointType>
@@ -172,11 +173,12 @@ typename NDTMapper<CellType, PointType>::NDTGrid2DPtr
 NDTMapper<CellType, PointType>::combineFrames(const NDTGrid2DPtr &a,
                                               const NDTGrid2DPtr &b)
 {
-  Grid *frame_a = getFrameIterator(a)->get();
-  Grid *frame_b = getFrameIterator(b)->get();
+  NDTGrid2DPtr frame_a = *getFrameIterator(a);
+  NDTGrid2DPtr frame_b = *getFrameIterator(b);
   frame_a->mergeInTraced(*frame_b, true, true);
   frame_a->setTimestamp(frame_b->getTimestamp());
   removeFrame(frame_b);
+  return frame_a;
 }
 
 template <typename CellType, typename PointType>
@@ -219,9 +221,9 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
 
 template <typename CellType, typename PointType>
 typename NDTMapper<CellType, PointType>::FrameStorage::iterator
-NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DPtr &frame)
+NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DConstPtr &frame)
 {
-  auto iter = grids_.find(frame);
+  auto iter = std::find(grids_.begin(), grids_.end(), frame);
   if (iter == grids_.end())
     throw std::invalid_argument("Id of frame doesn't exist");
   return iter;
-- 
2.43.0


From a8200ba9547f8f74277eaf382ed469d383c4f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 20/45] fix: rays were cut off at the old borders when merging
 enlarges the grid

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h   | 11 +++++++++++
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5db1e57..133fd20 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -574,6 +574,17 @@ void NDTGrid2D<CellType, PointType>::mergeInTraced(const SelfType &grid,
   // conversion from x y theta pose to x,y,z coordinates for 3dCell interface
   typename CellType::Vector start(origin2(0), origin2(1), 0);
   // std::cout << "start: " << start.transpose() << std::endl;
+  if (resize || !initialized_) {
+    // enlarge before tracing, rays would be cut off at borders of the grid
+    float minx, miny, maxx, maxy;
+    pcl::getMinMaxNDT2D(occupied_cells, minx, miny, maxx, maxy);
+    grid_.enlarge(minx, miny, maxx, maxy);
+    grid_.enlargeToFit(start.head(2));
+    for (auto &&cell : occupied_cells) {
+      if (cell.hasGaussian())
+        grid_.enlargeToFit(cell.getMean().head(2));
+    }
+  }
   // go over all cells in grid, whichh is merging in.
   for (auto &&cell : occupied_cells) {
     if (cell.hasGaussian()) {
diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 3c71104..c69b849 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -127,6 +127,13 @@ public:
                 calcIncDown(miny));
   }
 
+  /**
+   * @brief      Enlarges grid so that the point is inside of the grid.
+   *
+   * @param[in]  pt    The point
+   */
+  void enlargeToFit(const Point& pt);
+
   /**
    * @brief      Do ray-tracing from the start point to the end point.
    *
@@ -271,7 +278,6 @@ private:
   double calcCol(double x) const;
   double calcRow(double y) const;
 
-  void enlargeToFit(const Point& pt);
   size_t calcIncLeft(float pt) const;
   size_t calcIncRight(float pt) const;
   size_t calcIncUp(float pt) const;
-- 
2.43.0


From 4a69601040a058dde81c8d97e00d5694c82f4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 21/45] fix: new mapper started with a visited cell which
 recalc removes

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index ee405c2..6aa5ed3 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -128,6 +128,8 @@ NDTMapper<CellType, PointType>::NDTMapper()
   , means_(new Pcl())
 {
   map_ndt_.setCellSize(resolution_);
+  // empty map, the same state from which recalc starts
+  map_ndt_.clear();
 }
 
 template <typename CellType, typename PointType>
-- 
2.43.0


From 4e54b536ad44c2750cd98bd123a44011a8e48278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:13 +0000
Subject: [PATCH 22/45] fix: published occupancy grid was mirrored and shifted
 by the size of the map

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 6aa5ed3..81635a2 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -213,9 +213,19 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
   occ_msg.info.height = map_.height_;
   occ_msg.info.width = map_.width_;
   occ_msg.info.resolution = map_.resolution_;
-  occ_msg.info.origin = EigenToPoseMsg(map_.origin_);
   occ_msg.info.map_load_time = map_recalc_time_;
-  occ_msg.data = map_.cells_;
+  // message starts in left bottom corner of the grid, rows are going up. Our
+  // grid starts in the middle of left top cell and rows are going down.
+  Pose corner(-0.5 * map_.resolution_,
+              (0.5 - static_cast<double>(map_.height_)) * map_.resolution_, 0);
+  occ_msg.info.origin = EigenToPoseMsg(
+      eigt::transformConcat(map_.origin_, eigt::getTransFromPose(corner)));
+  occ_msg.data.reserve(map_.cells_.size());
+  for (size_t row = map_.height_; row > 0; --row) {
+    occ_msg.data.insert(occ_msg.data.end(),
+                        map_.cells_.begin() + (row - 1) * map_.width_,
+                        map_.cells_.begin() + row * map_.width_);
+  }
   return occ_msg;
 }
 
-- 
2.43.0


From f5b95be235ee9a150b7d15fcb453b2cbe91cf089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:13 +0000
Subject: [PATCH 23/45] fix: corner and angle in the NDT grid message were
 garbage

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 133fd20..c137871 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -871,11 +871,12 @@ template <typename CellType, typename PointType>
 NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
 {
   NDTGridMsg msg;
-  Eigen::Vector2d corner_origin(-grid_.left() * cell_size_,
+  Eigen::Vector2d corner_origin(-static_cast<double>(grid_.left()) * cell_size_,
                                 grid_.up() * cell_size_);
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
   msg.origin_.head(2) = trans * corner_origin;
+  msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
   for (auto &&cell : grid_.getValidCellsPtr()) {
-- 
2.43.0


From 9b498c78b6ae4ea68c193f1f473d8c2632513cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:13 +0000
Subject: [PATCH 24/45] fix: grid created with an origin had no cloud of means

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index c137871..c3f2bc7 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -457,6 +457,8 @@ NDTGrid2D<CellType, PointType>::NDTGrid2D(const Eigen::Vector3d &origin,
   , initialized_(false)
   , timestamp_(timestamp)
   , grid_()
+  , kdtree_()
+  , means_(new PointCloud())
 {
   grid_.setCellSize(cell_size_);
 }
-- 
2.43.0


From 6671781fe9a2af3251f193049d34c0726d3baacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 25/45] fix: nearest neighbours could contain null for means at
 borders of cells

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index c3f2bc7..3194989 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -987,7 +987,10 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
   kdtree_.nearestKSearch(point, K, res_indexes, distances);
   for (int id : res_indexes) {
     PointType near_pt = means_->at(id);
-    res.push_back(grid_.getCellPtr(Eigen::Vector2d(near_pt.x, near_pt.y)));
+    Eigen::Vector2d mean(near_pt.x, near_pt.y);
+    // mean rounded to float can lay in neighboring cell
+    if (grid_.cellExists(mean) && grid_.getCellPtr(mean)->hasGaussian())
+      res.push_back(grid_.getCellPtr(mean));
   }
   return res;
 }
-- 
2.43.0


From 01aae204c1b80bab7e2f38e863425868c40c6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 26/45] fix: loop search started from an uninitialised distance
 and covariance

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 3917b2a..4e164fe 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -22,7 +22,8 @@ struct EdgeCov {
   double distance_;
   size_t hop_;
   EdgeCov()
-    : node_id_(0)
+    : start_id_(0)
+    , node_id_(0)
     , cov_(Covar::Zero())
     , t_(Transform::Identity())
     , distance_(0)
@@ -32,8 +33,10 @@ struct EdgeCov {
   }
   explicit EdgeCov(size_t start_id)
     : start_id_(start_id)
-    , cov_()
+    , node_id_(start_id)
+    , cov_(Covar::Zero())
     , t_(Transform::Identity())
+    , distance_(0)
     , hop_(0)
     , det_cov_(0)
   {
-- 
2.43.0


From 2cea5c9ca029945303b372030043bb4a493137e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 27/45] fix: loop search read an empty queue and visited nodes
 twice

---
 .../ndt_gslam/slam_optimizer/loop_detector.h        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 4e164fe..39b4e94 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -221,22 +221,24 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   typedef internal::EdgeCov EdgeCov;
   ROS_INFO_STREAM("Finding loop closures for node: " << node_id);
   std::vector<LoopClosure<P>> all_constrains;
-  size_t nodes_visited = 0;
-  bool far_enough = false;
 
   std::priority_queue<EdgeCov, std::vector<EdgeCov>, internal::EdgeCovComparer>
       fringe;
   graph_->getNode(node_id).setVisited(true);
-  ++nodes_visited;
   // initialize start node edges
   auto first_edges = genPossibleEdges(node_id, EdgeCov(node_id));
   for (EdgeCov &e : first_edges) {
     fringe.push(e);
   }
   size_t depth = 0;
-  // repeat while some nodes are unvisited
-  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_) {
+  // repeat while some unvisited nodes are reachable
+  while (!fringe.empty() && depth < max_search_depth_) {
     size_t curr_node_id = fringe.top().node_id_;
+    // node could be reached over more than one edge
+    if (graph_->getNode(curr_node_id).isVisited()) {
+      fringe.pop();
+      continue;
+    }
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
     Node &source_n = graph_->getNode(curr_node_id);
@@ -278,7 +280,6 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
       }
     }
     graph_->getNode(curr_node_id).setVisited(true);
-    ++nodes_visited;
     auto f_top = fringe.top();
     fringe.pop();
     auto next_edges = genPossibleEdges(curr_node_id, f_top);
-- 
2.43.0


From 70b9c4303bca41b4b2bee71a157a203208d4609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 28/45] fix: interrupted loop search left nodes and edges
 marked for next search

---
 .../ndt_gslam/slam_optimizer/loop_detector.h    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 39b4e94..1d4276b 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -205,6 +205,7 @@ protected:
   std::vector<internal::EdgeCov>
   genPossibleEdges(Id node_id, const internal::EdgeCov &last_edge);
 
+  void resetTraversal();
   const internal::ScanInfo &calcScanParams(Id node_id);
   bool isCloseMatch(const internal::EdgeCov &edge);
 };
@@ -221,6 +222,8 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   typedef internal::EdgeCov EdgeCov;
   ROS_INFO_STREAM("Finding loop closures for node: " << node_id);
   std::vector<LoopClosure<P>> all_constrains;
+  // previous search could have been interrupted by exception
+  resetTraversal();
 
   std::priority_queue<EdgeCov, std::vector<EdgeCov>, internal::EdgeCovComparer>
       fringe;
@@ -288,10 +291,7 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   }
 
   // put whole graph to base state
-  std::for_each(graph_->beginNode(), graph_->endNode(),
-                [](Node &nd) { nd.setVisited(false); });
-  std::for_each(graph_->beginEdge(), graph_->endEdge(),
-                [](Edge &e) { e.setUsed(false); });
+  resetTraversal();
   return all_constrains;
 }
 
@@ -351,6 +351,15 @@ std::vector<internal::EdgeCov> LoopDetector<P, T>::genPossibleEdges(
   return outp;
 }
 
+template <typename P, typename T>
+void LoopDetector<P, T>::resetTraversal()
+{
+  std::for_each(graph_->beginNode(), graph_->endNode(),
+                [](Node &nd) { nd.setVisited(false); });
+  std::for_each(graph_->beginEdge(), graph_->endEdge(),
+                [](Edge &e) { e.setUsed(false); });
+}
+
 template <typename P, typename T>
 const internal::ScanInfo &LoopDetector<P, T>::calcScanParams(Id node_id)
 {
-- 
2.43.0


From a2f03895c1e30d6bfce98b2d8d8104db22395eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 29/45] fix: transform broadcast before the first accepted scan
 was not initialised

---
 ndt_gslam/src/graph_slam2d_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index 61fb540..ce35099 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -12,7 +12,7 @@ GraphSlamNode::GraphSlamNode(ros::NodeHandle &n, ros::NodeHandle &n_private,
   , last_pose_(pose_t::Zero())
   , odom_sync_(OdomSyncPolicy(10))
   , pose_sync_(PoseSyncPolicy(10))
-  // , world_tf_trans_()
+  , world_tf_trans_(tf::Transform::getIdentity())
   , seq_(0)
   , is_ready_(false)
 {
-- 
2.43.0


From c4daa64cd162dc0a2dfb23c9edacf9f91013a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 30/45] fix: first accepted scan did not place the odometry
 frame at the start of the map

---
 ndt_gslam/src/graph_slam2d_node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index ce35099..e77eff5 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -230,8 +230,9 @@ void GraphSlamNode::doAlgorithm(const ros::Time &time_stamp, const pose_t &odom,
   if (!is_ready_) {
     is_ready_ = true;
     last_odom_ = odom;
-    last_pose_ = pose_t::Zero();
-    algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    last_pose_ =
+        algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    updateTFTrans(odom, last_pose_);
     publishTF(time_stamp);
     return;
   }
-- 
2.43.0


From 9b1628f33320838815b400912b9452a5c167b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 31/45] fix: deferred small motions all count in the reported
 pose

While scans are skipped because the robot has not moved enough, update()
returned position_ * motion, i.e. only the last of the deferred motions:
the pose fell back with every small step.
---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 9063d5c..9600294 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -219,7 +219,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   }
   unused_trans_ = unused_trans_ * motion;
   if (!movedEnough(unused_trans_)) {
-    return eigt::getPoseFromTransform(position_ * motion);
+    return eigt::getPoseFromTransform(position_ * unused_trans_);
   }
   unused_trans_.setIdentity();
   FrameTypePtr local = FrameTypePtr(new FrameType());
-- 
2.43.0


From 8a97b091451ce5254a73a8807a1c551a94204d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 32/45] fix: use the deferred motion for the match guess and
 the fallback

The motion of scans that were skipped was dropped: the scan matcher's
initial guess and the dead reckoning used after a failed match only
contained the motion of the current scan.
---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 9600294..6033139 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -221,6 +221,8 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   if (!movedEnough(unused_trans_)) {
     return eigt::getPoseFromTransform(position_ * unused_trans_);
   }
+  // whole motion since the last processed scan
+  const Transform moved = unused_trans_;
   unused_trans_.setIdentity();
   FrameTypePtr local = FrameTypePtr(new FrameType());
   PointCloud::Ptr pcl_out(new PointCloud());
@@ -233,7 +235,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   // inc_matcher_.setInputSource(local);
   inc_matcher_.align(
       *pcl_out,
-      eigt::convertFromTransform(position_cumul_ * motion).cast<float>());
+      eigt::convertFromTransform(position_cumul_ * moved).cast<float>());
   //
   ROS_DEBUG_STREAM("[SLAM ALGORITHM]: incremental scanamtching converged:"
                    << inc_matcher_.hasConverged());
@@ -285,7 +287,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
-    updateGraph(motion, Covar::Identity() * 100, pcl, update_time);
+    updateGraph(moved, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 3ec304b7acc169c6fad4bdee3caa977a9099ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 33/45] fix: motion bridged by dead reckoning is not counted
 twice

After a failed match the graph advanced by odometry, but the matcher's
own pose stayed behind: the next successful match measured its increase
from there and added the bridged motion again, starting from a guess
that lacked it.
---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 6033139..f8ece68 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -288,6 +288,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
     updateGraph(moved, Covar::Identity() * 100, pcl, update_time);
+    // next match starts from, and is measured against, the new position
+    last_matcher_pose_ = eigt::getPoseFromTransform(
+        eigt::getTransFromPose(last_matcher_pose_) * moved);
+    position_cumul_ = position_cumul_ * moved;
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 57e5966ddc1865224b0845160cfdf96becda61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 34/45] fix: second derivative of the point transform belongs
 to the rotation entry of the hessian only

---
 ndt_gslam/include/ndt_gslam/registration/ndt2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
index 60b803a..6109c40 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
@@ -539,9 +539,9 @@ ndt_reg::ScoreAndDerivatives<3, double> NormalDistributionsTransform2DEx<
     for (long j = 0; j < 3; ++j) {
       // calculate hessian (eq. 6.13) [Magnusson 2009]
       if (i == 2 && j == 2) {
-        hess_part = hess_derivatives2;
-      } else {
         hess_part = hess_derivative;
+      } else {
+        hess_part = hess_derivatives2;
       }
       double jacc_i = diff_icov.dot(jacobian.col(i));
       double jacc_j = diff_icov.dot(jacobian.col(j));
-- 
2.43.0


From 476c4381c8d8a158ba36cfe41a9800ebdf920a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 35/45] fix: debug clouds that cannot be saved do not stop the
 mapping

---
 .../ndt_gslam/slam_optimizer/ndt_scanmatcher.h     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/ndt_scanmatcher.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/ndt_scanmatcher.h
index 7e14290..4042e24 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/ndt_scanmatcher.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/ndt_scanmatcher.h
@@ -73,16 +73,22 @@ NdtScanmatcher<FrameType>::match(const FrameType &source,
   // save measured point clouds and solutions to the disk for testing
   ss << time_ << "_" << seq_ << "score:" << matcher.getAlignmentQuality();
   ++seq_;
-  pcl::savePcl<typename FrameType::Point>(target.getData()->getMeans(), pcl_out,
-                                          ss.str());
   std::cout << ss.str() << std::endl;
   std::stringstream ss_source;
   std::stringstream ss_target;
 
   ss_target << "target_" << time_ << seq_ << ".pcd";
   ss_source << "source_" << time_ << seq_ << ".pcd";
-  pcl::io::savePCDFile(ss_target.str(), *(target.getData()->getMeans()));
-  pcl::io::savePCDFile(ss_source.str(), *(source.getData()->getMeans()));
+  // debug data only, result of matching does not depend on it
+  try {
+    pcl::savePcl<typename FrameType::Point>(target.getData()->getMeans(),
+                                            pcl_out, ss.str());
+    pcl::io::savePCDFile(ss_target.str(), *(target.getData()->getMeans()));
+    pcl::io::savePCDFile(ss_source.str(), *(source.getData()->getMeans()));
+  } catch (const std::exception &e) {
+    ROS_WARN_STREAM("[NDT_SCANMATCHER]:Debug clouds were not saved: "
+                    << e.what());
+  }
 
   ROS_INFO_STREAM(
       "[NDT_SCANMATCHER]:Normal Distributions Transform has converged:"
-- 
2.43.0


From 1d625958742849754f8711cce0df1f1412f4e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 36/45] fix: correlative estimate includes the initial guess it
 was searched around

---
 .../include/ndt_gslam/registration/correlative_estimation2d.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
index 4d30c9b..f14b3d0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
@@ -252,7 +252,7 @@ void CorrelativeEstimation<PointSource, PointTarget>::computeTransformation(
 
   // output data
   converged_ = true;
-  final_transformation_ = vecToMat(best_trans);  // * guess;
+  final_transformation_ = vecToMat(best_trans) * guess;
   transformPointCloud(*input_, output, final_transformation_);
 }
 
-- 
2.43.0


From b31d781b976e9f7e159b287abb1e9a8f827a38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 37/45] fix: initial guess of the optimisation follows odometry
 only, also when a loop joins neighbouring poses

---
 .../include/ndt_gslam/slam_optimizer/slam2d.h | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
index 36a3c38..2dda779 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
@@ -14,7 +14,9 @@
 #include <ros/ros.h>
 
 #include <deque>
+#include <limits>
 #include <map>
+#include <set>
 #include <unordered_map>
 
 #include <iostream>
@@ -52,6 +54,24 @@ class Slam2D : public IGraphOptimalizer2d<T>
 
   typedef EdgeSE2Mixture EdgeG2OMM;
 
+  // initial guess follows only odometry. Loop closure between two neighbouring
+  // poses can't be distinguished from odometry by ids of its vertices.
+  struct OdometryCost : public g2o::EstimatePropagatorCostOdometry {
+    OdometryCost(g2o::SparseOptimizer *graph, const std::set<int> &loop_ids)
+      : g2o::EstimatePropagatorCostOdometry(graph), loop_ids_(loop_ids)
+    {
+    }
+    virtual double operator()(g2o::OptimizableGraph::Edge *edge,
+                              const g2o::OptimizableGraph::VertexSet &from,
+                              g2o::OptimizableGraph::Vertex *to) const
+    {
+      if (loop_ids_.count(edge->id()) > 0)
+        return std::numeric_limits<double>::max();
+      return g2o::EstimatePropagatorCostOdometry::operator()(edge, from, to);
+    }
+    const std::set<int> &loop_ids_;
+  };
+
 public:
   explicit Slam2D(std::unique_ptr<IScanmatcher2d<T>> &&matcher)
     : epsilon_(0.001)
@@ -125,6 +145,7 @@ protected:
   bool first_node_added_;
   size_t g2o_edge_seq_;
   size_t g2o_node_seq_;
+  std::set<int> g2o_loop_ids_;
 
   GraphType graph_;
   std::unique_ptr<IScanmatcher2d<T>> matcher_;
@@ -160,7 +181,7 @@ bool Slam2D<T>::optimalize()
   // initializeGrapFromOdom();
   g2o_opt_->setVerbose(true);
   g2o_opt_->initializeOptimization();
-  g2o::EstimatePropagatorCostOdometry costFunction(g2o_opt_.get());
+  OdometryCost costFunction(g2o_opt_.get(), g2o_loop_ids_);
   g2o_opt_->computeInitialGuess(costFunction);
   // g2o_opt_->computeActiveErrors();
   g2o_opt_->optimize(10);
@@ -290,6 +311,7 @@ bool Slam2D<T>::tryLoopClose(size_t node_id)
     //                        constrain.information_);
     size_t id =
         addConstrain(node_id_from, node_id_to, trans, constrain.information_);
+    g2o_loop_ids_.insert(static_cast<int>(g2o_edge_seq_) - 1);
     graph_.getEdge(id).setType(EdgeType::Type::LOOP);
     nodes_to_edge_id_[std::make_pair(node_id_from, node_id_to)] = id;
 
-- 
2.43.0


From 759a0f19914e9aae543f0146da1b7354a0fa4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 38/45] fix: first alignment of the robust matcher was used
 uninitialised when it converged

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index 6d189d5..d936e60 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -331,11 +331,10 @@ void D2DNormalDistributionsTransform2DRobust<
   // standard D2D match try for good guess estimations
   d2d_.align(output, guess);
   double score = proofTransform(d2d_.getFinalTransformation());
-  Eigen::Matrix4f first_trans;
+  Eigen::Matrix4f first_trans = d2d_.getFinalTransformation();
   // test if first d2d has return bad result
   if (!(d2d_.hasConverged() && score > 0.7)) {
     // bad result -> robust alignment needed
-    first_trans = d2d_.getFinalTransformation();
     corr_est_.align(output, guess);
     if (!corr_est_.hasConverged()) {
       converged_ = false;
-- 
2.43.0


From 9e60bebf3d7cf2ce8b5c6b530228aa6d791c1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 39/45] fix: fallback to the first alignment respects the
 configured score threshold

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index d936e60..1fd5d5c 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -359,7 +359,7 @@ void D2DNormalDistributionsTransform2DRobust<
   // robust alignment still not good enough
   if (score2 < rejection_limit_) {
     // Maybe at least first d2d got some reasonable result
-    if (score > 0.6) {
+    if (score >= rejection_limit_) {
       converged_ = true;
       final_transformation_ = first_trans;
     } else {
-- 
2.43.0


From 318eaa160440bc9f66ab4013aa3e03241152086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 40/45] fix: cells of the window message were not placed in the
 world frame

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 3194989..058631a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -881,8 +881,14 @@ NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
   msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
+  // cells are placed in the same frame as the corner
+  Eigen::Matrix3d rotation = Eigen::Matrix3d::Identity();
+  rotation.block(0, 0, 2, 2) = trans.rotation();
   for (auto &&cell : grid_.getValidCellsPtr()) {
-    msg.cells_.push_back(cell->serialize());
+    NDTCellMsg cell_msg = cell->serialize();
+    cell_msg.mean_.head(2) = trans * Eigen::Vector2d(cell_msg.mean_.head(2));
+    cell_msg.cov_ = rotation * cell_msg.cov_ * rotation.transpose();
+    msg.cells_.push_back(std::move(cell_msg));
   }
   return msg;
 }
-- 
2.43.0


From 6815ee6b836c4412506d1a8b461f3a15269c81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 41/45] fix: window message declared the middle of its corner
 cell as the centre of the map

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index f8ece68..5ec43cd 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -408,9 +408,14 @@ ndt_gslam::NDTMapMsg NdtSlamAlgortihm::toNdtMapMsg(
   ros_msg.header.frame_id = fixed_frame;
   ros_msg.header.stamp = window_update_time_;
   ros_msg.header.seq = window_seq_;
-  ros_msg.x_cen = msg.origin_(0);
-  ros_msg.y_cen = msg.origin_(1);
-  ros_msg.z_cen = msg.origin_(2);
+  // origin of the grid is the middle of its top left cell
+  Eigen::Vector2d center =
+      eigt::getTransFromPose(msg.origin_) *
+      Eigen::Vector2d((msg.size_(0) - msg.cell_sizes_(0)) / 2,
+                      (msg.cell_sizes_(1) - msg.size_(1)) / 2);
+  ros_msg.x_cen = center(0);
+  ros_msg.y_cen = center(1);
+  ros_msg.z_cen = 0;
   ros_msg.x_size = msg.size_(0);
   ros_msg.y_size = msg.size_(1);
   ros_msg.z_size = msg.size_(2);
-- 
2.43.0


From ecb3f8f91646ad748fb010f73a1df3fedd153139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 42/45] fix: best component of an empty mixture in space was
 not initialised

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index b7939fd..1fcf4fa 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE3Mixture::EdgeSE3Mixture() : g2o::EdgeSE3::EdgeSE3()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE3Mixture::~EdgeSE3Mixture()
-- 
2.43.0


From 618b883f50070142a6e1a9fc09cdc2f873736307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 43/45] fix: mixture in space kept determinants of its previous
 components

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index 1fcf4fa..ffa0dd1 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE3Mixture::initializeComponents(std::vector<g2o::EdgeSE3*>& _edges,
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
-- 
2.43.0


From de227f3cdf33c928daeefd956a55a61aeb7e7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 44/45] fix: reading a cut off mixture in space used unset
 vertices and components

---
 .../max_mixture/edge_se3_mixture.cpp          | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index ffa0dd1..1d233b8 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -127,7 +127,23 @@ void EdgeSE3Mixture::computeBestEdge()
 
 bool EdgeSE3Mixture::read(std::istream& is)
 {
+  // a record that is cut off or damaged must not leave a half read mixture
+  auto failed = [this]() {
+    for (auto&& edge : allEdges)
+      delete edge;
+    allEdges.clear();
+    weights.clear();
+    determinants.clear();
+    numberComponents = 0;
+    return false;
+  };
+
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   is >> numberComponents;
+  if (is.fail() || numberComponents < 1)
+    return failed();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -148,11 +164,13 @@ bool EdgeSE3Mixture::read(std::istream& is)
     int na, nb;
     is >> na;
     is >> nb;
+    if (is.fail())
+      return failed();
 
     VertexSE3* v0 = static_cast<VertexSE3*>(va->graph()->vertex(na));
     VertexSE3* v1 = static_cast<VertexSE3*>(va->graph()->vertex(nb));
-    assert(v0 != NULL);
-    assert(v1 != NULL);
+    if (v0 == NULL || v1 == NULL)
+      return failed();
     allEdges[c]->setVertex(0, v0);
     allEdges[c]->setVertex(1, v1);
 
@@ -169,6 +187,8 @@ bool EdgeSE3Mixture::read(std::istream& is)
           inf(j, i) = inf(i, j);
       }
     allEdges[c]->setInformation(inf);
+    if (!is.good())
+      return failed();
   }
 
   for (unsigned int i = 0; i < numberComponents; i++)
-- 
2.43.0


From 3685fa549865d91a747ebde63ebedf5fb62563d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 45/45] fix: correlative search looked up the scan without the
 border of its table, so the estimate was off by the border

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 9d5a5c9..79150f0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -331,9 +331,11 @@ LookUpTable<PointType>::toIndexes(const pcl::PointCloud<PointType> &pcl) const
   for (size_t i = 0; i < pcl.points.size(); ++i) {
     IndexPoint pt;
     pt.x_idx_ = static_cast<int>(
-        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_));
+        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_) +
+        border_size_);
     pt.y_idx_ = static_cast<int>(
-        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_));
+        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_) +
+        border_size_);
     indexes.push_back(pt);
   }
   return indexes;
-- 
2.43.0


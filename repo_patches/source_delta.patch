From ca80ee6a5223b28b54826edaa2fe03dcd823bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 01/88] fix: QuadTree range queries must compare with the
 closest point of a subtree, not its closest corner

---
 SEUtils/SEUtils/QuadTree.h          |  1 +
 SEUtils/SEUtils/_impl/QuadTree.icpp | 10 ++++------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/SEUtils/SEUtils/QuadTree.h b/SEUtils/SEUtils/QuadTree.h
index 4d24790..fa92571 100644
--- a/SEUtils/SEUtils/QuadTree.h
+++ b/SEUtils/SEUtils/QuadTree.h
@@ -18,6 +18,7 @@
 #ifndef _SEUTILS_QUADTREE_H_
 #define _SEUTILS_QUADTREE_H_
 
+#include <algorithm>
 #include <vector>
 #include <memory>
 
diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index dccdba2..7ae2fa0 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -84,12 +84,10 @@ std::vector<T> QuadTree<T>::getPointsWithinRange(Coord c, double range) const {
     std::vector<T> points;
     for (int i=0; i<4; i++) {
       if (m_sub_trees[i] != nullptr) {
-        // compare range with distance to closest corner of subtree
-        auto dx_sq = std::min((c.x - m_sub_trees[i]->m_min.x) * (c.x - m_sub_trees[i]->m_min.x),
-            (c.x - m_sub_trees[i]->m_max.x) * (c.x - m_sub_trees[i]->m_max.x));
-        auto dy_sq = std::min((c.y - m_sub_trees[i]->m_min.y) * (c.y - m_sub_trees[i]->m_min.y),
-            (c.y - m_sub_trees[i]->m_max.y) * (c.y - m_sub_trees[i]->m_max.y));
-        if (dx_sq + dy_sq <= range_sq) {
+        // compare range with distance to closest point of the area covered by the subtree
+        auto dx = std::max({m_sub_trees[i]->m_min.x - c.x, 0.0, c.x - m_sub_trees[i]->m_max.x});
+        auto dy = std::max({m_sub_trees[i]->m_min.y - c.y, 0.0, c.y - m_sub_trees[i]->m_max.y});
+        if (dx * dx + dy * dy <= range_sq) {
           auto subtree_points = m_sub_trees[i]->getPointsWithinRange(c, range);
           points.insert(points.end(), subtree_points.begin(), subtree_points.end());
         }
-- 
2.43.0


From 264e91a2e096ff3f1a7308c7b472a828dd10e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 02/88] fix: QuadTree must not try to split coincident points
 forever

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index 7ae2fa0..002eeab 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -54,7 +54,8 @@ void QuadTree<T>::add(const T& data) {
     m_sub_trees[quad]->add(data);
   } else {
     addLocally(data);
-    if (m_data.size() >= m_capacity) {
+    // points that share the same coordinates can not be separated by splitting
+    if (m_data.size() >= m_capacity && (m_max.x > m_min.x || m_max.y > m_min.y)) {
       split();
     }
   }
-- 
2.43.0


From 2e3f121697c324343c0d3984b5db1e006c99250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 03/88] fix: Reflect101Coordinates must not divide by zero for
 a one pixel wide image

---
 SEFramework/SEFramework/Image/PaddedImage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEFramework/SEFramework/Image/PaddedImage.h b/SEFramework/SEFramework/Image/PaddedImage.h
index 85bd572..3ae582d 100644
--- a/SEFramework/SEFramework/Image/PaddedImage.h
+++ b/SEFramework/SEFramework/Image/PaddedImage.h
@@ -58,6 +58,10 @@ inline int Reflect101Coordinates(int N, int v) {
   }
 
   int max = N - 1;
+  // A single pixel is its own reflection
+  if (max == 0) {
+    return 0;
+  }
   v = std::abs(v);
   int offset = v % max;
   int ntimes = v / max;
-- 
2.43.0


From ac793640d1ac4ce7286e381b8c8b9f3b7ea863aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 04/88] fix: writes to a WriteableBufferedImage must not be
 lost when its tile is saved or evicted

---
 SEFramework/SEFramework/Image/ImageTile.h     |  3 +-
 SEFramework/SEFramework/Image/TileManager.h   | 10 ++++
 .../Image/WriteableBufferedImage.h            | 13 ++---
 SEFramework/src/lib/Image/TileManager.cpp     | 56 +++++++++++++++++--
 4 files changed, 66 insertions(+), 16 deletions(-)

diff --git a/SEFramework/SEFramework/Image/ImageTile.h b/SEFramework/SEFramework/Image/ImageTile.h
index 779725e..187f52c 100644
--- a/SEFramework/SEFramework/Image/ImageTile.h
+++ b/SEFramework/SEFramework/Image/ImageTile.h
@@ -23,6 +23,7 @@
 
 #ifndef _SEFRAMEWORK_IMAGE_IMAGETILE_H_
 #define _SEFRAMEWORK_IMAGE_IMAGETILE_H_
+#include <atomic>
 #include <iostream>
 #include "SEFramework/Image/Image.h"
 #include "SEFramework/Image/VectorImage.h"
@@ -147,7 +148,7 @@ protected:
   ImageTile& operator=(const ImageTile&) = delete;
   ImageTile& operator=(ImageTile&&) = delete;
 
-  bool m_modified;
+  std::atomic_bool m_modified;
   ImageType m_image_type;
   std::shared_ptr<ImageSource> m_source;
   int m_x, m_y;
diff --git a/SEFramework/SEFramework/Image/TileManager.h b/SEFramework/SEFramework/Image/TileManager.h
index a9ff955..1c03f7b 100644
--- a/SEFramework/SEFramework/Image/TileManager.h
+++ b/SEFramework/SEFramework/Image/TileManager.h
@@ -24,6 +24,7 @@
 #ifndef _SEFRAMEWORK_IMAGE_TILEMANAGER_H_
 #define _SEFRAMEWORK_IMAGE_TILEMANAGER_H_
 
+#include <functional>
 #include <iostream>
 #include <thread>
 #include <list>
@@ -87,6 +88,13 @@ public:
   std::shared_ptr<ImageTile>
   getTileForPixel(int x, int y, std::shared_ptr<const ImageSource> source);
 
+  /**
+   * Call the given function with the tile that contains the pixel (x, y), and flag the tile as modified.
+   * While the function runs, the tile can be neither saved nor evicted, so the modification can not be lost.
+   */
+  void modifyTileForPixel(int x, int y, std::shared_ptr<const ImageSource> source,
+                          const std::function<void(ImageTile&)>& modify);
+
   static std::shared_ptr<TileManager> getInstance();
 
   void saveAllTiles();
@@ -99,6 +107,8 @@ private:
 
   std::shared_ptr<ImageTile> tryTileFromCache(const TileKey& key);
 
+  std::shared_ptr<ImageTile> loadTile(const TileKey& key) const;
+
   std::shared_ptr<boost::mutex>& getMutexForImageSource(const ImageSource*);
 
   void removeTile(TileKey tile_key);
diff --git a/SEFramework/SEFramework/Image/WriteableBufferedImage.h b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
index d5acb8b..8ada2a6 100644
--- a/SEFramework/SEFramework/Image/WriteableBufferedImage.h
+++ b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
@@ -49,18 +49,13 @@ public:
   void setValue(int x, int y, T value) override {
     assert(x >= 0 && y >=0 && x < BufferedImage<T>::m_source->getWidth() && y < BufferedImage<T>::m_source->getHeight());
 
-    if (m_current_tile == nullptr || !m_current_tile->isPixelInTile(x, y)) {
-      m_current_tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
-    }
-
-    m_current_tile->setModified(true);
-    m_current_tile->setValue(x, y, value);
+    // A tile kept here could be saved or evicted behind our back, so let the tile manager do it
+    BufferedImage<T>::m_tile_manager->modifyTileForPixel(x, y, BufferedImage<T>::m_source, [x, y, value](ImageTile& tile) {
+      tile.setValue(x, y, value);
+    });
   }
 
   using BufferedImage<T>::getRepr;
-
-private:
-  mutable std::shared_ptr<ImageTile> m_current_tile;
 };
 
 }
diff --git a/SEFramework/src/lib/Image/TileManager.cpp b/SEFramework/src/lib/Image/TileManager.cpp
index 4848089..78fcf51 100644
--- a/SEFramework/src/lib/Image/TileManager.cpp
+++ b/SEFramework/src/lib/Image/TileManager.cpp
@@ -61,10 +61,12 @@ void TileManager::setOptions(int tile_width, int tile_height, int max_memory) {
 }
 
 void TileManager::flush() {
-  // empty anything still stored in cache
-  saveAllTiles();
-
   boost::lock_guard<boost::shared_mutex> wr_lock(m_mutex);
+
+  // empty anything still stored in cache
+  for (auto& tile_key : m_tile_list) {
+    m_tile_map.at(tile_key)->saveIfModified();
+  }
   m_tile_list.clear();
   m_tile_map.clear();
   m_total_memory_used = 0;
@@ -126,9 +128,7 @@ std::shared_ptr<ImageTile> TileManager::getTileForPixel(int x, int y,
     return tile;
   }
 
-  tile = source->getImageTile(x, y,
-                              std::min(m_tile_width, source->getWidth() - x),
-                              std::min(m_tile_height, source->getHeight() - y));
+  tile = loadTile(key);
 
   // Here we need to acquire the mutex in write mode!
   boost::lock_guard<boost::shared_mutex> wr_lock(m_mutex);
@@ -137,6 +137,50 @@ std::shared_ptr<ImageTile> TileManager::getTileForPixel(int x, int y,
   return tile;
 }
 
+std::shared_ptr<ImageTile> TileManager::loadTile(const TileKey& key) const {
+  auto& source = key.m_source;
+  return source->getImageTile(key.m_tile_x, key.m_tile_y,
+                              std::min(m_tile_width, source->getWidth() - key.m_tile_x),
+                              std::min(m_tile_height, source->getHeight() - key.m_tile_y));
+}
+
+void TileManager::modifyTileForPixel(int x, int y, std::shared_ptr<const ImageSource> source,
+                                     const std::function<void(ImageTile&)>& modify) {
+  TileKey key{source, x / m_tile_width * m_tile_width, y / m_tile_height * m_tile_height};
+
+  // Saving and evicting need an exclusive lock, so the shared one is enough to protect the cached tile
+  auto modify_cached = [this, &key, &modify]() {
+    boost::shared_lock<boost::shared_mutex> shared_rd_lock(m_mutex);
+    auto it = m_tile_map.find(key);
+    if (it == m_tile_map.end()) {
+      return false;
+    }
+    modify(*it->second);
+    it->second->setModified(true);
+    return true;
+  };
+
+  if (modify_cached()) {
+    return;
+  }
+
+  // Cache miss, see getTileForPixel
+  auto img_mutex = getMutexForImageSource(source.get());
+  boost::lock_guard<boost::mutex> img_lock(*img_mutex);
+  if (modify_cached()) {
+    return;
+  }
+
+  // No one else can load, or see, this tile until it is in the cache
+  auto tile = loadTile(key);
+  modify(*tile);
+  tile->setModified(true);
+
+  boost::lock_guard<boost::shared_mutex> wr_lock(m_mutex);
+  addTile(key, tile);
+  removeExtraTiles();
+}
+
 std::shared_ptr<TileManager> TileManager::getInstance() {
   if (s_instance == nullptr) {
     s_instance = std::make_shared<TileManager>();
-- 
2.43.0


From a8d397b490fc42712cbd5ff01149b772c9538376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 05/88] fix: convolution with a kernel of even size must cover
 the whole image and not depend on its padding

---
 SEFramework/SEFramework/Convolution/DFT.h               | 9 ++++++---
 SEFramework/SEFramework/Convolution/DirectConvolution.h | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/SEFramework/SEFramework/Convolution/DFT.h b/SEFramework/SEFramework/Convolution/DFT.h
index 2385ac5..36d097f 100644
--- a/SEFramework/SEFramework/Convolution/DFT.h
+++ b/SEFramework/SEFramework/Convolution/DFT.h
@@ -222,9 +222,12 @@ public:
 protected:
   void padKernel(ConvolutionContext& context) const {
     auto padded = PaddedImage<T>::create(m_kernel, context.m_padded_width, context.m_padded_height);
-    auto center = PixelCoordinate{context.m_padded_width / 2, context.m_padded_height / 2};
-    if (context.m_padded_width % 2 == 0) center.m_x--;
-    if (context.m_padded_height % 2 == 0) center.m_y--;
+    // The position of the central pixel of the kernel once padded. It must not depend on the padded size,
+    // or the convolution with a kernel of even size would be shifted for some image sizes
+    auto center = PixelCoordinate{
+      (context.m_padded_width - m_kernel->getWidth()) / 2 + m_kernel->getWidth() / 2,
+      (context.m_padded_height - m_kernel->getHeight()) / 2 + m_kernel->getHeight() / 2
+    };
     auto recenter = RecenterImage<T>::create(padded, center);
 
     dumpImage(recenter, context.m_kernel_transform);
diff --git a/SEFramework/SEFramework/Convolution/DirectConvolution.h b/SEFramework/SEFramework/Convolution/DirectConvolution.h
index 24be1f7..4f71fb4 100644
--- a/SEFramework/SEFramework/Convolution/DirectConvolution.h
+++ b/SEFramework/SEFramework/Convolution/DirectConvolution.h
@@ -49,8 +49,8 @@ public:
       TPadding::create(image, padded_width, padded_height, std::forward<Args>(padding_args)...)
     );
 
-    for (int iy = tpad; iy < padded->getHeight() - tpad; ++iy) {
-      for (int ix = lpad; ix < padded->getWidth() - lpad; ++ix) {
+    for (int iy = tpad; iy < image->getHeight() + tpad; ++iy) {
+      for (int ix = lpad; ix < image->getWidth() + lpad; ++ix) {
         T acc = 0;
         for (int ky = 0; ky < m_kernel->getHeight(); ++ky) {
           for (int kx = 0; kx < m_kernel->getWidth(); ++kx) {
-- 
2.43.0


From d08f269987b69f00e86a859b6ebc245903036929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 06/88] fix: ExpSigmoidConverter must give a finite engine
 value at the limits of its range

---
 ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp b/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
index 1f67b37..92bdc7f 100644
--- a/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
+++ b/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
@@ -41,7 +41,10 @@ double ExpSigmoidConverter::worldToEngine(const double world_value) const {
   }
 
   auto wv = std::max(m_min_value, std::min(m_max_value, world_value));
-  return log(log(wv / m_min_value) / log(m_max_value / wv));
+  // At the limits of the range the engine value would be infinite
+  double num = log(wv / m_min_value);
+  double den = log(m_max_value / wv);
+  return (num > 0. ? (den > 0. ? std::max(-50.0, std::min(50.0, log(num / den))) : 50.0) : -50.0);
 }
 
 
-- 
2.43.0


From 0d76243fb1d69f33c0d1bd6061acc237f99d25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 07/88] fix: EngineParameter::setValue must update the engine
 value before notifying the observers

---
 ModelFitting/src/lib/Parameters/EngineParameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/EngineParameter.cpp b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
index d3d8bed..7ade231 100644
--- a/ModelFitting/src/lib/Parameters/EngineParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
@@ -37,8 +37,9 @@ double EngineParameter::getEngineToWorldDerivative() const {
 }
 
 void EngineParameter::setValue(const double value) {
-  BasicParameter::setValue(value);
+  // The observers must be able to read both values
   m_engine_value = m_converter->worldToEngine(value);
+  BasicParameter::setValue(value);
 }
 
 
-- 
2.43.0


From 215370ccf3fa9d2f78abb0989c20df621bf5d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 08/88] fix: a DependentParameter must remove its observers
 when it is destroyed

---
 .../ModelFitting/Parameters/DependentParameter.h   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index c759a11..7626c4e 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -65,7 +65,12 @@ public:
     //m_get_value_hook = std::bind(&DependentParameter::getValueHook, this);
   }
 
-  virtual ~DependentParameter() = default;
+  virtual ~DependentParameter() {
+    // The input parameters may outlive this one
+    for (int i = 0; i < PARAM_NO; ++i) {
+      (*m_params)[i]->removeObserver(m_observer_ids[i]);
+    }
+  }
 
   double getValue() const override {
     if (!this->isObserved()) {
@@ -82,6 +87,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // Identifiers of the observers added to the input parameters
+  std::array<std::size_t, PARAM_NO> m_observer_ids;
+
   /* The two following methods represent the mechanism to loop over
    * the arbitrary number of variadic elements, the first one is called
    * as long as there is more than one elements in the list and the
@@ -117,8 +125,8 @@ private:
   }
 
   template<typename Param>
-  void addParameterObserver(int, Param& param) {
-    param->addObserver([this](double){
+  void addParameterObserver(int index, Param& param) {
+    m_observer_ids[index] = param->addObserver([this](double){
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
-- 
2.43.0


From 0a98483b3fd064e99e2b4b807069e6702604285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 09/88] fix: a DependentParameter must be brought up to date
 when its first observer is added

---
 ModelFitting/src/lib/Parameters/BasicParameter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ModelFitting/src/lib/Parameters/BasicParameter.cpp b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
index 48bd97e..cdee2cf 100644
--- a/ModelFitting/src/lib/Parameters/BasicParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
@@ -37,6 +37,8 @@ void BasicParameter::setValue(const double new_value) {
 }
 
 std::size_t BasicParameter::addObserver(ParameterObserver observer) {
+  // A dependent parameter keeps its value current only while it is observed, so bring it up to date first
+  getValue();
   m_last_obs_id += 1;
   m_observer_map.emplace(m_last_obs_id, std::move(observer));
   return m_last_obs_id;
-- 
2.43.0


From e2940c4aef4268d9cc6f928f954a9b2fb2e7e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 10/88] fix: GSLEngine must leave the parameters at the
 solution, not at its last trial

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index 4d31f10..da250db 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -197,6 +197,9 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   auto end     = std::chrono::steady_clock::now();
   std::chrono::duration<float> elapsed = end - start;
 
+  // The last evaluation may have been a rejected step or a finite difference: leave the parameters at the solution
+  parameter_manager.updateEngineValues(GslVectorConstIterator{gsl_multifit_nlinear_position(workspace)});
+
   // Final cost
   double chisq;
   gsl_blas_ddot(residual, residual, &chisq);
-- 
2.43.0


From b01bbcdd1cc5dea1b7b9ca15c8859ca104cee59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 11/88] fix: AsinhChiSquareComparator must not lose precision,
 finite differences of its residuals drown in it

---
 ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h b/ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h
index db788a6..c9c51a0 100644
--- a/ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h
+++ b/ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h
@@ -45,7 +45,7 @@ public:
 
   /// Returns the modified \f$\chi^2\f$ residual
   double operator()(double real, double model, double weight) const {
-    float val =  weight * (real - model) / m_u0;
+    double val =  weight * (real - model) / m_u0;
     return m_u0 * std::asinh(val);
   }
 
-- 
2.43.0


From 120f87747577b3df91156c309e2852ab4a594c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 12/88] fix: moving a RotatedModelComponent keeps a dangling
 observer and breaks the moved-from destructor

---
 .../src/lib/Models/RotatedModelComponent.cpp       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
index 5714cf9..7dd43ff 100644
--- a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
@@ -41,12 +41,20 @@ RotatedModelComponent::RotatedModelComponent(std::unique_ptr<ModelComponent> com
 RotatedModelComponent::RotatedModelComponent(RotatedModelComponent&& other)
         : m_component {std::move(other.m_component)},
           m_rotation_angle{std::move(other.m_rotation_angle)},
-          m_cos{other.m_cos}, m_sin{other.m_sin},
-          m_observer_id (other.m_observer_id) {
+          m_cos{other.m_cos}, m_sin{other.m_sin} {
+  // The observer of the moved-from instance refers to that instance, so it can not be kept
+  m_rotation_angle->removeObserver(other.m_observer_id);
+  m_observer_id = m_rotation_angle->addObserver([this](double v){
+    m_cos = std::cos(v);
+    m_sin = std::sin(v);
+  });
 }
 
 RotatedModelComponent::~RotatedModelComponent() {
-  m_rotation_angle->removeObserver(m_observer_id);
+  // Null if this instance has been moved from
+  if (m_rotation_angle) {
+    m_rotation_angle->removeObserver(m_observer_id);
+  }
 }
 
 double RotatedModelComponent::getValue(double x, double y) {
-- 
2.43.0


From 8ccd4d00481ebfc9e4f57fd7609eb55269619427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 13/88] fix: moving a TransformModelComponent loses the wrapped
 component

---
 ModelFitting/src/lib/Models/TransformModelComponent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Models/TransformModelComponent.cpp b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
index fa87b81..3eecc14 100644
--- a/ModelFitting/src/lib/Models/TransformModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
@@ -46,7 +46,8 @@ TransformModelComponent::TransformModelComponent(
   assert(m_transform[2] * m_inv_transform[1] + m_transform[3] * m_inv_transform[3] >= 1 - 1e-8);
 }
 
-TransformModelComponent::TransformModelComponent(TransformModelComponent&& other) {
+TransformModelComponent::TransformModelComponent(TransformModelComponent&& other)
+    : m_component(std::move(other.m_component)) {
   for (int i = 0; i < 4; i++) {
     m_transform[i] = other.m_transform[i];
     m_inv_transform[i] = other.m_inv_transform[i];
-- 
2.43.0


From 94b9149f82c324e8f4103d117f28b4e4d6d95f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 14/88] fix: compact models evaluate getValue relative to their
 position, as any ExtendedModel

---
 .../ModelFitting/Models/_impl/CompactExponentialModel.icpp     | 3 +++
 ModelFitting/ModelFitting/Models/_impl/CompactSersicModel.icpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ModelFitting/ModelFitting/Models/_impl/CompactExponentialModel.icpp b/ModelFitting/ModelFitting/Models/_impl/CompactExponentialModel.icpp
index 3f1b538..c6f48b5 100644
--- a/ModelFitting/ModelFitting/Models/_impl/CompactExponentialModel.icpp
+++ b/ModelFitting/ModelFitting/Models/_impl/CompactExponentialModel.icpp
@@ -23,6 +23,9 @@ CompactExponentialModel<ImageType>::CompactExponentialModel(
 
 template<typename ImageType>
 double CompactExponentialModel<ImageType>::getValue(double x, double y) const {
+  x -= this->getX();
+  y -= this->getY();
+
   ExponentialModelEvaluator model_eval;
   model_eval.transform = getCombinedTransform(1.0);
   model_eval.i0 = m_i0->getValue();
diff --git a/ModelFitting/ModelFitting/Models/_impl/CompactSersicModel.icpp b/ModelFitting/ModelFitting/Models/_impl/CompactSersicModel.icpp
index a47e629..99013ff 100644
--- a/ModelFitting/ModelFitting/Models/_impl/CompactSersicModel.icpp
+++ b/ModelFitting/ModelFitting/Models/_impl/CompactSersicModel.icpp
@@ -25,6 +25,9 @@ CompactSersicModel<ImageType>::CompactSersicModel(double sharp_radius,
 
 template<typename ImageType>
 double CompactSersicModel<ImageType>::getValue(double x, double y) const {
+  x -= this->getX();
+  y -= this->getY();
+
   SersicModelEvaluator model_eval;
   model_eval.transform = getCombinedTransform(1.0);
   model_eval.i0 = m_i0->getValue();
-- 
2.43.0


From b69cdc4eddbe19a332cc3de7b230242cd0de21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 15/88] fix: a variable PSF with a negative component group is
 refused

---
 SEFramework/src/lib/Psf/VariablePsf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Psf/VariablePsf.cpp b/SEFramework/src/lib/Psf/VariablePsf.cpp
index c8367c3..13f74bd 100644
--- a/SEFramework/src/lib/Psf/VariablePsf.cpp
+++ b/SEFramework/src/lib/Psf/VariablePsf.cpp
@@ -98,7 +98,7 @@ void VariablePsf::selfTest() {
   // Pre-condition: There is a degree value per unique group
   std::vector<int> n_component_per_group(m_group_degrees.size());
   for (auto& component : m_components) {
-    if (component.group_id >= (int) m_group_degrees.size()) {
+    if (component.group_id < 0 || component.group_id >= (int) m_group_degrees.size()) {
       throw Elements::Exception() << "Component group out of range for " << component.name;
     }
     ++n_component_per_group[component.group_id];
-- 
2.43.0


From e2cd932e8899dff9603723e015c116a5705165ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 16/88] fix: a PSFEx file with less data than declared is
 refused

---
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index 462835f..5f5994f 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -105,6 +105,11 @@ static std::shared_ptr<VariablePsf> readPsfEx(std::unique_ptr<CCfits::FITS> &pFi
     psf_data.column("PSF_MASK").readArrays(all_data, 0, 0);
     auto& raw_coeff_data = all_data[0];
 
+    if (width <= 0 || n_coeffs <= 0 || raw_coeff_data.size() / width / height < std::size_t(n_coeffs)) {
+      throw Elements::Exception() << "PSF_MASK has " << raw_coeff_data.size() << " values, which is not enough for "
+                                  << n_coeffs << " coefficients of " << width << 'X' << height;
+    }
+
     std::vector<std::shared_ptr<VectorImage<SeFloat>>> coefficients(n_coeffs);
 
     for (int i = 0; i < n_coeffs; ++i) {
-- 
2.43.0


From b6148781996daaddbc26588d3be1127bcb0dd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 17/88] fix: adding an image to a WriteableImage places it as
 for VectorImage

---
 .../SEImplementation/Image/WriteableImageInterfaceTraits.h  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
index 7c8cd31..952cf46 100644
--- a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
+++ b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
@@ -192,13 +192,13 @@ struct ImageTraits<WriteableInterfaceTypePtr> {
     int window_height = height(window);
     for (int x_win = 0; x_win < window_width; x_win++) {
       for (int y_win = 0; y_win < window_height; y_win++) {
-        float x = (x_win - x_shift) / scale_factor;
-        float y = (y_win - y_shift) / scale_factor;
+        float x = (x_win + 0.5 - x_shift) / scale_factor + 0.5;
+        float y = (y_win + 0.5 - y_shift) / scale_factor + 0.5;
 
         // Work around the interface of interpolate_pix copying to memory the pixels surrounding
         // the pixel to interpolate
         float buffer[INTERP_MAXKERNELWIDTH * INTERP_MAXKERNELWIDTH] = {0.};
-        int ix = x, iy = y;
+        int ix = std::floor(x), iy = std::floor(y);
 
         for (int j = 0; j < INTERP_MAXKERNELWIDTH; ++j) {
           for (int i = 0; i < INTERP_MAXKERNELWIDTH; ++i) {
-- 
2.43.0


From 5eb48bc837bea57e4e2bf65a11d3c0110266961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 18/88] fix: the source PSF check image is rendered at the
 centroid

---
 SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp b/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp
index 3879cd2..0047410 100644
--- a/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp
+++ b/SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp
@@ -65,11 +65,12 @@ void SourcePsfTask::computeProperties(SourceXtractor::SourceInterface &source) c
     // Check image
     auto check_image = CheckImages::getInstance().getPsfImage(m_instance);
     if (check_image) {
+      // Pixel centers are at integer coordinates for the centroid, but at half-integer ones for the rendering
       auto x = component_value_getters["X_IMAGE"](source, m_instance);
       auto y = component_value_getters["Y_IMAGE"](source, m_instance);
 
       ModelFitting::ImageTraits<ModelFitting::WriteableInterfaceTypePtr>::addImageToImage(
-        check_image, psf, m_vpsf->getPixelSampling(), x, y);
+        check_image, psf, m_vpsf->getPixelSampling(), x + 0.5, y + 0.5);
     }
   } else {
     source.setIndexedProperty<SourcePsfProperty>(m_instance, 1.0, nullptr);
-- 
2.43.0


From 174480a127552facad7ec2ce119b6c7957f1b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 19/88] fix: the bounds of an aperture must be rounded
 outwards, or pixels it covers are missed

---
 SEFramework/src/lib/Aperture/CircularAperture.cpp    | 3 ++-
 SEFramework/src/lib/Aperture/EllipticalAperture.cpp  | 3 ++-
 SEFramework/src/lib/Aperture/TransformedAperture.cpp | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/CircularAperture.cpp b/SEFramework/src/lib/Aperture/CircularAperture.cpp
index ab5878b..33b1910 100644
--- a/SEFramework/src/lib/Aperture/CircularAperture.cpp
+++ b/SEFramework/src/lib/Aperture/CircularAperture.cpp
@@ -20,6 +20,7 @@
  *  Created on: Oct 08, 2018
  *      Author: Alejandro Alvarez
  */
+#include <cmath>
 #include <iostream>
 #include "SEFramework/Aperture/CircularAperture.h"
 
@@ -77,7 +78,7 @@ SeFloat CircularAperture::getRadiusSquared(SeFloat center_x, SeFloat center_y, S
 }
 
 PixelCoordinate CircularAperture::getMinPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-  return PixelCoordinate(centroid_x - m_radius, centroid_y - m_radius);
+  return PixelCoordinate(std::floor(centroid_x - m_radius), std::floor(centroid_y - m_radius));
 }
 
 PixelCoordinate CircularAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
index 22928bb..dd69fa6 100644
--- a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
+++ b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "SEFramework/Aperture/EllipticalAperture.h"
+#include <cmath>
 #include <iostream>
 namespace SourceXtractor {
 
@@ -78,7 +79,7 @@ PixelCoordinate EllipticalAperture::getMinPixel(SeFloat centroid_x, SeFloat cent
   dy = m_rad_max * std::sqrt(1.0 / (m_cyy - m_cxy * m_cxy / (4.0 * m_cxx)));
 
   // return the absolute values
-  return PixelCoordinate(centroid_x - dx, centroid_y - dy);
+  return PixelCoordinate(std::floor(centroid_x - dx), std::floor(centroid_y - dy));
 }
 
 PixelCoordinate EllipticalAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/TransformedAperture.cpp b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
index d88f5b8..0a47962 100644
--- a/SEFramework/src/lib/Aperture/TransformedAperture.cpp
+++ b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
@@ -23,6 +23,7 @@
 
 #include "SEFramework/Aperture/TransformedAperture.h"
 #include <algorithm>
+#include <cmath>
 
 namespace SourceXtractor {
 
@@ -62,7 +63,7 @@ PixelCoordinate TransformedAperture::getMinPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::min({a.first, b.first, c.first, d.first});
   auto min_y = std::min({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::floor(x + min_x), std::floor(y + min_y));
 }
 
 PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
@@ -77,7 +78,7 @@ PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::max({a.first, b.first, c.first, d.first});
   auto min_y = std::max({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::ceil(x + min_x), std::ceil(y + min_y));
 }
 
 SeFloat TransformedAperture::getArea(SeFloat center_x, SeFloat center_y, SeFloat pixel_x, SeFloat pixel_y) const {
-- 
2.43.0


From ea059d096282b6b4a34c57e41e6f3e73a63545ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 20/88] fix: the mirror of a masked pixel just outside of the
 image is not the border pixel

---
 SEFramework/src/lib/Aperture/FluxMeasurement.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
index e64fef6..c4e8e2f 100644
--- a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
+++ b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
@@ -21,6 +21,7 @@
  *      Author: Alejandro Alvarez
  */
 
+#include <cmath>
 #include "SEFramework/Aperture/FluxMeasurement.h"
 #include "SEFramework/Image/ImageChunk.h"
 
@@ -36,8 +37,8 @@ getMirrorPixel(SeFloat centroid_x, SeFloat centroid_y,
                SeFloat variance_threshold) {
   centroid_x -= min_pixel.m_x;
   centroid_y -= min_pixel.m_y;
-  auto mirror_x = 2 * centroid_x - pixel_x + 0.49999;
-  auto mirror_y = 2 * centroid_y - pixel_y + 0.49999;
+  int mirror_x = std::floor(2 * centroid_x - pixel_x + 0.49999);
+  int mirror_y = std::floor(2 * centroid_y - pixel_y + 0.49999);
   if (img.isInside(mirror_x, mirror_y)) {
     auto variance_tmp = variance_map.getValue(mirror_x, mirror_y);
     if (variance_tmp < variance_threshold) {
-- 
2.43.0


From f8c45ba5806a35e3cb034b76fbd1fd2991025efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 21/88] fix: printing a saturated flag must not throw

---
 SEFramework/SEFramework/Source/SourceFlags.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Source/SourceFlags.h b/SEFramework/SEFramework/Source/SourceFlags.h
index 31870cc..c0467e3 100644
--- a/SEFramework/SEFramework/Source/SourceFlags.h
+++ b/SEFramework/SEFramework/Source/SourceFlags.h
@@ -56,6 +56,7 @@ const std::map<Flags, std::string> FlagsStr = {
   {Flags::NONE, "NONE"},
   {Flags::BIASED, "BIASED"},
   {Flags::BLENDED, "BLENDED"},
+  {Flags::SATURATED, "SATURATED"},
   {Flags::BOUNDARY, "BOUNDARY"},
   {Flags::NEIGHBORS, "NEIGHBORS"},
   {Flags::OUTSIDE, "OUTSIDE"},
-- 
2.43.0


From 89832a970fea3705d222cf8ca6c89ca099f3730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 22/88] fix: a member of a group must report an unknown
 property as not found

---
 SEFramework/src/lib/Source/EntangledSource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Source/EntangledSource.cpp b/SEFramework/src/lib/Source/EntangledSource.cpp
index 32db767..014e68f 100644
--- a/SEFramework/src/lib/Source/EntangledSource.cpp
+++ b/SEFramework/src/lib/Source/EntangledSource.cpp
@@ -57,7 +57,12 @@ const Property& SourceGroupWithOnDemandProperties::EntangledSource::getProperty(
     // Getting this exception means the property must be computed at the group level
 
     // Get the group task
-    auto group_task = m_group.m_task_provider->getTask<GroupTask>(property_id);
+    std::shared_ptr<const GroupTask> group_task;
+    try {
+      group_task = m_group.m_task_provider->getTask<GroupTask>(property_id);
+    } catch (const Elements::Exception&) {
+      // There is not even a factory for the task
+    }
     if (!group_task) {
       // No task is available to make that property
       throw PropertyNotFoundException(property_id);
-- 
2.43.0


From 0bb7c11b5d648c299841d6e234f0a39c31ca1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 23/88] fix: sources without assoc group id must not be grouped
 together

---
 .../SEImplementation/Grouping/AssocGrouping.h     |  4 ++++
 .../src/lib/Grouping/AssocGrouping.cpp            | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/SEImplementation/SEImplementation/Grouping/AssocGrouping.h b/SEImplementation/SEImplementation/Grouping/AssocGrouping.h
index 7e5e67a..728a826 100644
--- a/SEImplementation/SEImplementation/Grouping/AssocGrouping.h
+++ b/SEImplementation/SEImplementation/Grouping/AssocGrouping.h
@@ -18,8 +18,10 @@
 #ifndef _SEIMPLEMENTATION_GROUPING_ASSOCGROUPING_H_
 #define _SEIMPLEMENTATION_GROUPING_ASSOCGROUPING_H_
 
+#include <list>
 #include <map>
 
+
 #include "SEFramework/Pipeline/SourceGrouping.h"
 
 namespace SourceXtractor {
@@ -41,6 +43,8 @@ public:
 private:
   std::shared_ptr<SourceGroupFactory> m_group_factory;
   std::map<unsigned int, std::unique_ptr<SourceGroupInterface>> m_source_groups;
+  // sources without a group id (0) are not grouped with anything
+  std::list<std::unique_ptr<SourceGroupInterface>> m_single_source_groups;
   unsigned int m_hard_limit;
 
 };
diff --git a/SEImplementation/src/lib/Grouping/AssocGrouping.cpp b/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
index ce80b81..76498f4 100644
--- a/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
+++ b/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
@@ -32,6 +32,12 @@ std::set<PropertyId> AssocGrouping::requiredProperties() const {
 /// Handles a new Source
 void AssocGrouping::receiveSource(std::unique_ptr<SourceInterface> source) {
   auto source_id = source->getProperty<AssocMode>().getGroupId();
+  if (source_id == 0) {
+    auto single_source_group = m_group_factory->createSourceGroup();
+    single_source_group->addSource(std::move(source));
+    m_single_source_groups.emplace_back(std::move(single_source_group));
+    return;
+  }
 
   if (m_source_groups.find(source_id) == m_source_groups.end()) {
     auto new_group = m_group_factory->createSourceGroup();
@@ -72,6 +78,15 @@ void AssocGrouping::receiveProcessSignal(const ProcessSourcesEvent& event) {
     sendSource(std::move(m_source_groups[group_id]));
     m_source_groups.erase(group_id);
   }
+
+  for (auto it = m_single_source_groups.begin(); it != m_single_source_groups.end();) {
+    if (event.m_selection_criteria->mustBeProcessed(*(*it)->begin())) {
+      sendSource(std::move(*it));
+      it = m_single_source_groups.erase(it);
+    } else {
+      ++it;
+    }
+  }
 }
 
 } // SourceXtractor namespace
-- 
2.43.0


From 1e310b6ad32cf770a19c09d1d6a4a03d0c554193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 24/88] fix: the rest of a region too large for BFS
 segmentation must not become sources

---
 .../src/lib/Segmentation/BFSSegmentation.cpp           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
index 8ca5a4b..b0989e1 100644
--- a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
+++ b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
@@ -74,6 +74,7 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
 
   PixelCoordinate minPixel = pc;
   PixelCoordinate maxPixel = pc;
+  bool too_large = false;
 
   while (pixels_to_process.size() > 0) {
     auto pixel = pixels_to_process.back();
@@ -86,8 +87,9 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     maxPixel.m_y = std::max(maxPixel.m_y, pixel.m_y);
 
     if (maxPixel.m_x - minPixel.m_x > m_max_delta || maxPixel.m_y - minPixel.m_y > m_max_delta) {
-      // The source extends over a too large area, ignore it
-      return;
+      // The source extends over a too large area, ignore it, but visit all of its pixels
+      // so the ones left are not taken for other sources
+      too_large = true;
     }
 
     for (auto& offset : offsets) {
@@ -100,6 +102,10 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     }
   }
 
+  if (too_large) {
+    return;
+  }
+
   auto source = m_source_factory->createSource();
   source->setProperty<PixelCoordinateList>(source_pixels);
   source->setProperty<SourceId>();
-- 
2.43.0


From 64f022e683a59451ea52e206dc1c8cc796883520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 25/88] fix: attractors partition must read the stamp from its
 own origin

---
 .../src/lib/Partition/AttractorsPartitionStep.cpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index f5eb987..890fb53 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -34,18 +34,20 @@ namespace SourceXtractor {
 
 std::vector<std::unique_ptr<SourceInterface>> AttractorsPartitionStep::partition(std::unique_ptr<SourceInterface> source) const {
   using Accessor = ImageAccessor<DetectionImage::PixelType>;
-  Accessor stamp(source->getProperty<DetectionFrameSourceStamp>().getStamp());
+  auto& source_stamp = source->getProperty<DetectionFrameSourceStamp>();
+  Accessor stamp(source_stamp.getStamp());
+  auto stamp_origin = source_stamp.getTopLeft();
   auto& detection_frame = source->getProperty<DetectionFrame>();
   auto& bounds = source->getProperty<PixelBoundaries>();
 
   auto bbox_min = bounds.getMin();
   auto bbox_max = bounds.getMax();
 
-  auto value_function = [bbox_min, bbox_max, &stamp](PixelCoordinate coord) {
+  auto value_function = [bbox_min, bbox_max, stamp_origin, &stamp](PixelCoordinate coord) {
     if (coord.m_x < bbox_min.m_x || coord.m_x > bbox_max.m_x || coord.m_y < bbox_min.m_y || coord.m_y > bbox_max.m_y) {
       return std::numeric_limits<DetectionImage::PixelType>::lowest();
     }
-    auto offset_coord = coord - bbox_min;
+    auto offset_coord = coord - stamp_origin;
     return stamp.getValue(offset_coord.m_x, offset_coord.m_y);
   };
 
-- 
2.43.0


From 18df93e3badce2d037210cdb24277b35c5a7e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 26/88] fix: a failing worker must not leave the producer
 waiting in the prefetcher

---
 SEImplementation/src/lib/Prefetcher/Prefetcher.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
index 42f6325..0b0d0e9 100644
--- a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
+++ b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
@@ -53,6 +53,11 @@ Prefetcher::~Prefetcher() {
 
 void Prefetcher::receiveSource(std::unique_ptr<SourceInterface> message) {
   m_semaphore.acquire();
+  // If a worker failed nothing leaves the queue anymore
+  if (m_thread_pool->checkForException(false)) {
+    m_semaphore.release();
+    m_thread_pool->checkForException(true);
+  }
 
   intptr_t source_addr = reinterpret_cast<intptr_t>(message.get());
   {
@@ -130,6 +135,8 @@ void Prefetcher::outputLoop() {
       break;
     }
   }
+  // Do not leave a producer waiting for room that will never be made
+  m_semaphore.release();
   logger.debug() << "Stopping prefetcher output loop";
 }
 
-- 
2.43.0


From 9a5cfeb7c0752bd5ab64258b3b97f613173e8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 27/88] fix: discarding a measurement stage that was never
 started must not crash

---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index b29fdec..179ab89 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -34,7 +34,7 @@ static Elements::Logging logger = Elements::Logging::getLogger("Multithreading")
 
 
 MultithreadedMeasurement::~MultithreadedMeasurement() {
-  if (m_output_thread->joinable()) {
+  if (m_output_thread && m_output_thread->joinable()) {
     m_output_thread->join();
   }
 }
-- 
2.43.0


From e6cabbc42fbefaf2cda35ef3290995f718df3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 28/88] fix: pieces of the attractors partition keep the
 detection they come from

---
 .../src/lib/Partition/AttractorsPartitionStep.cpp         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index 890fb53..a39461c 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -25,7 +25,10 @@
 #include "SEFramework/Image/ImageAccessor.h"
 #include "SEFramework/Property/DetectionFrame.h"
 
+#include "SEFramework/Property/PropertyNotFoundException.h"
+
 #include "SEImplementation/Property/PixelCoordinateList.h"
+#include "SEImplementation/Property/SourceId.h"
 #include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
 #include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
 #include "SEImplementation/Partition/AttractorsPartitionStep.h"
@@ -72,6 +75,11 @@ std::vector<std::unique_ptr<SourceInterface>> AttractorsPartitionStep::partition
       auto new_source = m_source_factory->createSource();
       new_source->setProperty<PixelCoordinateList>(source_pixels);
       new_source->setProperty<DetectionFrame>(detection_frame.getEncapsulatedFrame());
+      try {
+        new_source->setProperty<SourceId>(source->getProperty<SourceId>().getDetectionId());
+      } catch (const PropertyNotFoundException&) {
+        // the original source has no identity to pass on
+      }
       sources.emplace_back(std::move(new_source));
     }
   }
-- 
2.43.0


From 31494ed21e99c6fa4db518da89a975e4c7fd2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 29/88] fix: pieces of pieces and cleaned sources keep the id
 of their detection

---
 SEImplementation/src/lib/Deblending/Cleaning.cpp              | 2 +-
 .../src/lib/Partition/MultiThresholdPartitionStep.cpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Deblending/Cleaning.cpp b/SEImplementation/src/lib/Deblending/Cleaning.cpp
index 94d8456..5d83b3f 100644
--- a/SEImplementation/src/lib/Deblending/Cleaning.cpp
+++ b/SEImplementation/src/lib/Deblending/Cleaning.cpp
@@ -160,7 +160,7 @@ std::unique_ptr<SourceInterface> Cleaning::mergeSources(SourceInterface& parent,
   auto new_source = m_source_factory->createSource();
   new_source->setProperty<PixelCoordinateList>(pixel_list);
   new_source->setProperty<DetectionFrame>(parent.getProperty<DetectionFrame>().getEncapsulatedFrame());
-  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getSourceId());
+  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getDetectionId());
 
   return new_source;
 }
diff --git a/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp b/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
index afeb33e..042d054 100644
--- a/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp
@@ -130,7 +130,7 @@ private:
 std::vector<std::unique_ptr<SourceInterface>> MultiThresholdPartitionStep::partition(
     std::unique_ptr<SourceInterface> original_source) const {
 
-  auto parent_source_id = original_source->getProperty<SourceId>().getSourceId();
+  auto parent_detection_id = original_source->getProperty<SourceId>().getDetectionId();
 
   auto& detection_frame = original_source->getProperty<DetectionFrame>();
 
@@ -245,7 +245,7 @@ std::vector<std::unique_ptr<SourceInterface>> MultiThresholdPartitionStep::parti
 
   for (auto& new_source : new_sources) {
     new_source->setProperty<DetectionFrame>(detection_frame.getEncapsulatedFrame());
-    new_source->setProperty<SourceId>(parent_source_id);
+    new_source->setProperty<SourceId>(parent_detection_id);
   }
 
   return new_sources;
-- 
2.43.0


From b75c3ddb8dd9df05ec39a8baa0d4eafd5b774eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 30/88] fix: with several detection HDUs each check image has
 the size and coordinates of its own HDU

---
 SEImplementation/src/lib/CheckImages/CheckImages.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/CheckImages/CheckImages.cpp b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
index e047002..9271f29 100644
--- a/SEImplementation/src/lib/CheckImages/CheckImages.cpp
+++ b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
@@ -109,8 +109,8 @@ void CheckImages::configure(Euclid::Configuration::ConfigManager& manager) {
   m_check_image_ml_detection.resize(detection_images_nb);
 
   for (size_t i = 0; i < detection_images_nb; i++) {
-    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage();
-    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem();
+    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage(i);
+    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem(i);
 
     m_detection_images.emplace_back(detection_image);
     m_coordinate_systems.emplace_back(coordinate_system);
-- 
2.43.0


From b0d8242c70b111f807d0e6a309e6d7212086ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 31/88] fix: the background of an image without measurable
 noise must not read past an empty list of ratios

---
 .../src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
index 3c5edac..1269da9 100644
--- a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
+++ b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
@@ -59,6 +59,11 @@ static float computeScaling(const std::shared_ptr<VectorImage<DetectionImage::Pi
     }
   }
 
+  // Without any measurable noise there is nothing to scale the weights to
+  if (ratios.empty()) {
+    return 1.f;
+  }
+
   std::sort(ratios.begin(), ratios.end());
   if (ratios.size() % 2 == 1) {
     return ratios[ratios.size() / 2];
-- 
2.43.0


From b214d47c206a04f5585e3346f102dbea193a990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 32/88] fix: attractors must be merged in a fixed order, not in
 that of the hash map

---
 .../src/lib/Partition/AttractorsPartitionStep.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index a39461c..22bf6b3 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -19,7 +19,9 @@
  * @date 06/03/16
  * @author mschefer
  */
+#include <algorithm>
 #include <limits>
+#include <tuple>
 
 #include "SEFramework/Image/Image.h"
 #include "SEFramework/Image/ImageAccessor.h"
@@ -143,9 +145,18 @@ std::vector<std::vector<PixelCoordinate>> AttractorsPartitionStep::mergeAttracto
   std::vector<PixelCoordinate> bbox_min;
   std::vector<PixelCoordinate> bbox_max;
 
+  // The outcome depends on the order, which must not be the order of the hash map
+  std::vector<PixelCoordinate> coordinates;
+  coordinates.reserve(attractors.size());
   for (auto& attractor : attractors) {
-    auto coord = attractor.first;
-    auto& pixels = attractor.second;
+    coordinates.emplace_back(attractor.first);
+  }
+  std::sort(coordinates.begin(), coordinates.end(), [](const PixelCoordinate& a, const PixelCoordinate& b) {
+    return std::tie(a.m_y, a.m_x) < std::tie(b.m_y, b.m_x);
+  });
+
+  for (auto& coord : coordinates) {
+    auto& pixels = attractors.at(coord);
     bool done = false;
 
     for (size_t i=0; i < merged.size(); i++) {
-- 
2.43.0


From fffcd3d837e59fa123fb70afe3d30b490b0d54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 33/88] fix: the error ellipse angle is that of its major axis

---
 .../src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
index 59c52a8..dd8f3a1 100644
--- a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
@@ -97,9 +97,9 @@ void ErrorEllipseTask::computeProperties(SourceInterface& source) const {
 
   // angle of the error ellipse
   SeFloat theta_error, a_error, b_error;
-  SeFloat temp_error = fabs(x_2_error - y_2_error);
-  if (temp_error>0.0)
-	  theta_error = atan2(2.0*x_y_error, temp_error); // when dividing by 2.0 as in SE2 the range is -45 < theta_error < 45 which is smaller than in SE2
+  SeFloat temp_error = x_2_error - y_2_error;
+  if (fabs(temp_error)>0.0)
+	  theta_error = atan2(2.0*x_y_error, temp_error) / 2.0;
   else
 	  theta_error = M_PI /4.0;
 
-- 
2.43.0


From a8f05a74a5337d0f83f119c9382403dcb60b4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 34/88] fix: the peak of a source without positive pixels is
 its highest pixel

---
 .../SEImplementation/Plugin/PeakValue/PeakValueTask.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
index 1dc7342..f270200 100644
--- a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
+++ b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
@@ -43,7 +43,7 @@ public:
 
     auto& coordinates = source.getProperty<PixelCoordinateList>().getCoordinateList();
 
-    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::min();
+    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::lowest();
     DetectionImage::PixelType min_value = std::numeric_limits<DetectionImage::PixelType>::max();
 
     unsigned int index=0;
-- 
2.43.0


From 1ac3efb6c629eaa933d232f83cfa692102dff755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 35/88] fix: a source with equal moments and negative xy moment
 is oriented at -45 degrees, not +45

---
 .../src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp            | 2 +-
 .../src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
index dd8f3a1..998ac10 100644
--- a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
@@ -101,7 +101,7 @@ void ErrorEllipseTask::computeProperties(SourceInterface& source) const {
   if (fabs(temp_error)>0.0)
 	  theta_error = atan2(2.0*x_y_error, temp_error) / 2.0;
   else
-	  theta_error = M_PI /4.0;
+	  theta_error = x_y_error < 0.0 ? -M_PI / 4.0 : M_PI / 4.0;
 
   // major/minor axis for the error ellipse
   temp_error = sqrt(0.25*temp_error*temp_error+x_y_error*x_y_error);
diff --git a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
index 2ba368d..77c35ea 100644
--- a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
@@ -76,7 +76,7 @@ void ShapeParametersTask::computeProperties(SourceInterface& source) const {
   if (fabs(x_2 - y_2) > 0.0) {
     theta = atan2(2.0 * x_y, x_2 - y_2) / 2.0;
   } else {
-    theta = M_PI/4.0;
+    theta = x_y < 0.0 ? -M_PI/4.0 : M_PI/4.0;
   }
 
   float temp = x_2 - y_2;
-- 
2.43.0


From ebea276b90198e5a153aab9c04ea889670acde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 36/88] fix: add_aperture_photometry accepts a list of images,
 as documented

---
 .../python/sourcextractor/config/measurement_config.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index c275634..641f8da 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -63,6 +63,9 @@ class MeasurementConfig:
         if isinstance(image, MeasurementImage):
             if image.id not in self._measurement_images:
                 self._measurement_images[image.id] = image
+        elif isinstance(image, list):
+            for member in image:
+                self.add_measurement_image(member)
         elif image.is_leaf():
             for member in image:
                 self.add_measurement_image(member)
-- 
2.43.0


From 5f13ff90fe36b921d07db453afdc1dfc541f27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 37/88] fix: a detection on an image too narrow for the Moffat
 fit no longer ends the run

---
 .../MoffatModelFitting/MoffatModelFittingTask.cpp      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelFittingTask.cpp b/SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelFittingTask.cpp
index 9a315aa..e64f273 100644
--- a/SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelFittingTask.cpp
+++ b/SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelFittingTask.cpp
@@ -250,9 +250,13 @@ void MoffatModelFittingTask::computeProperties(SourceInterface& source) const {
   res_estimator.registerBlockProvider(move(data_vs_model));
 
   // Perform the minimization
-  auto engine = LeastSquareEngineManager::create(m_least_squares_engine, m_max_iterations);
-  auto solution = engine->solveProblem(manager, res_estimator);
-  size_t iterations = solution.iteration_no;
+  // With fewer pixels than parameters (narrow images) there is nothing to fit: the first guess is kept
+  size_t iterations = 0;
+  if (res_estimator.numberOfResiduals() >= manager.numberOfParameters()) {
+    auto engine = LeastSquareEngineManager::create(m_least_squares_engine, m_max_iterations);
+    auto solution = engine->solveProblem(manager, res_estimator);
+    iterations = solution.iteration_no;
+  }
 
   auto final_stamp = VectorImage<SeFloat>::create(source_stamp.getWidth(), source_stamp.getHeight());
 
-- 
2.43.0


From 319dd196f8b0a06614a0d9a4701dd25594a203a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 38/88] fix: a quoted FITS keyword value may contain a slash

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 449ced8..4d6c3fb 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -223,7 +223,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
 
   fits_read_record(fptr, keynum, record, &status);
   while (status == 0 && strncmp(record, "END", 3) != 0) {
-    static boost::regex regex("([^=]{8})=([^\\/]*)(\\/(.*))?");
+    static boost::regex regex("([^=]{8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
     boost::smatch sub_matches;
@@ -299,7 +299,7 @@ void FitsFile::loadHeadFile() {
       current_hdu = *(++hdu_iter);
       is_new_hdu = true;
     } else {
-      static boost::regex regex("([^=]{1,8})=([^\\/]*)(\\/ (.*))?");
+      static boost::regex regex("([^=]{1,8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/ (.*))?");
       boost::smatch       sub_matches;
       if (boost::regex_match(line, sub_matches, regex) && sub_matches.size() >= 3) {
         auto keyword = boost::to_upper_copy(sub_matches[1].str());
-- 
2.43.0


From b4cc4e804e21225cb2f00c49c9fc19ad56a20994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 39/88] fix: an empty FITS string value is empty, not a quote

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 4d6c3fb..4cc34c3 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -74,9 +74,10 @@ static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
   // does not work well when the escape code and the delimiter are the same
   std::string unquoted;
   bool escape = false;
+  bool quoted = value.size() >= 2 && value.front() == '\'' && value.back() == '\'';
 
   unquoted.reserve(value.size());
-  for (auto i = value.begin(); i != value.end(); ++i) {
+  for (auto i = value.begin() + quoted; i != value.end() - quoted; ++i) {
     if (*i == '\'' && !escape) {
       escape = true;
       // skip this char
-- 
2.43.0


From 1597f25f3e98c1bd9fade98e5a10788d1a599ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 40/88] fix: a FITS keyword value with a D exponent is a number

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 4cc34c3..ad48dee 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -30,6 +30,7 @@
 #include <string>
 
 #include <boost/algorithm/string/case_conv.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
@@ -52,7 +53,7 @@ static Elements::Logging logger = Elements::Logging::getLogger("FitsFile");
  * - anything else will be casted to std::string, removing simple quotes if necessary
  */
 static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
-  boost::regex float_regex("^[-+]?(\\d*\\.?\\d+|\\d+\\.?\\d*)([eE][-+]?\\d+)?$");
+  boost::regex float_regex("^[-+]?(\\d*\\.?\\d+|\\d+\\.?\\d*)([eEdD][-+]?\\d+)?$");
   boost::regex int_regex("^[-+]?\\d+$");
 
   try {
@@ -61,7 +62,8 @@ static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
     } else if (boost::regex_match(value, int_regex)) {
       return static_cast<int64_t>(std::stoll(value));
     } else if (boost::regex_match(value, float_regex)) {
-      return std::stod(value);
+      // FITS allows D instead of E for the exponent
+      return std::stod(boost::replace_all_copy(boost::to_upper_copy(value), "D", "E"));
     } else if (value.size() == 1) {
       return value.at(0);
     }
-- 
2.43.0


From 59a81d777b7a2ee1678258b6e2b64cac900f1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 41/88] fix: a FITS keyword that starts with END does not end
 the header

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index ad48dee..259f11b 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -225,7 +225,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
   int keynum = 1, status = 0;
 
   fits_read_record(fptr, keynum, record, &status);
-  while (status == 0 && strncmp(record, "END", 3) != 0) {
+  while (status == 0 && boost::trim_right_copy(std::string(record)) != "END") {
     static boost::regex regex("([^=]{8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
-- 
2.43.0


From 9ae77803793446452068995619494f8dfe074347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 42/88] fix: do not read past the last image HDU at the last
 END of a .head file

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 259f11b..1fe9020 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -299,7 +299,7 @@ void FitsFile::loadHeadFile() {
     }
 
     if (boost::to_upper_copy(line) == "END") {
-      current_hdu = *(++hdu_iter);
+      ++hdu_iter;
       is_new_hdu = true;
     } else {
       static boost::regex regex("([^=]{1,8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/ (.*))?");
-- 
2.43.0


From c47ceb965513078f6146b9dbf72b9407ba386d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 43/88] fix: the depth of a data cube is read, and a layer it
 does not have is refused

---
 SEFramework/SEFramework/FITS/FitsImageSource.h | 4 ++--
 SEFramework/src/lib/FITS/FitsImageSource.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsImageSource.h b/SEFramework/SEFramework/FITS/FitsImageSource.h
index 5686df9..353c7f5 100644
--- a/SEFramework/SEFramework/FITS/FitsImageSource.h
+++ b/SEFramework/SEFramework/FITS/FitsImageSource.h
@@ -133,10 +133,10 @@ private:
 
   int m_width;
   int m_height;
-  int m_depth;
+  int m_depth = 1;
   ImageTile::ImageType m_image_type;
 
-  int m_current_layer;
+  int m_current_layer = 0;
 };
 
 }
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index f68b062..48a8e2e 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -94,7 +94,7 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
     switchHdu(fptr, m_hdu_number);
   }
 
-  fits_get_img_param(fptr, 2, &bitpix, &naxis, naxes, &status);
+  fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
     char error_message[32];
     fits_get_errstatus(status, error_message);
@@ -273,7 +273,7 @@ void FitsImageSource::switchHdu(fitsfile *fptr, int hdu_number) const {
 }
 
 void FitsImageSource::setLayer(int layer) {
-  if (layer < 0 && layer >= m_depth) {
+  if (layer < 0 || layer >= m_depth) {
     throw Elements::Exception() << "Trying to access an inexistent data cube layer (" << layer << ") in " << m_filename;
   }
   m_current_layer = layer;
-- 
2.43.0


From cb377bc5d18f78afa99180e76acf3f0b4b7eec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 44/88] fix: string metadata is quoted when written to a FITS
 header

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 48a8e2e..a7424df 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -28,6 +28,7 @@
 #include <AlexandriaKernel/memory_tools.h>
 #include <ElementsKernel/Exception.h>
 #include <boost/algorithm/string/case_conv.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
@@ -69,6 +70,15 @@ ImageTile::ImageType convertImageType(int bitpix) {
   return image_type;
 }
 
+// Serialize a metadata value as it must appear on a FITS card: strings are quoted and their quotes doubled
+std::string toFitsValue(const MetadataEntry::value_t& value) {
+  auto text = VariantCast<std::string>(value);
+  if (value.type() == typeid(std::string)) {
+    return "'" + boost::replace_all_copy(text, "'", "''") + "'";
+  }
+  return text;
+}
+
 }
 
 FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
@@ -295,12 +305,7 @@ std::unique_ptr<std::vector<char>> FitsImageSource::getFitsHeaders(int& number_o
       record_string += std::string(8 - record_string.size(), ' ');
     }
 
-    if (headers.at(key).m_value.type() == typeid(std::string)) {
-      record_string += "= '" + VariantCast<std::string>(headers.at(key).m_value) + "'";
-    }
-    else {
-      record_string += "= " + VariantCast<std::string>(headers.at(key).m_value);
-    }
+    record_string += "= " + toFitsValue(headers.at(key).m_value);
 
     if (record_string.size() > 80) {
       throw Elements::Exception() << "FITS record longer than 80 characters";
@@ -338,7 +343,7 @@ void FitsImageSource::setMetadata(const std::string& key, const MetadataEntry& v
   padded_key << std::setw(8) << std::left << key;
 
   serializer << padded_key.str() << "= " << std::left << std::setw(70)
-             << VariantCast<std::string>(value.m_value);
+             << toFitsValue(value.m_value);
   auto str = serializer.str();
 
   int status = 0;
-- 
2.43.0


From add05190965a920217520afe5d80b87a7c9605c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 45/88] fix: the median filter must not read outside of an
 image smaller than its box

---
 .../SEImplementation/Background/SE/MedianFilter.h          | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
index 28b463d..8e09a91 100644
--- a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
+++ b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
@@ -125,12 +125,7 @@ private:
    *    As many pixels as could be read safely from the image, up to box_size
    */
   static int clip(int position, int box_size, int image_size) {
-    box_size /= 2;
-    if (box_size > position)
-      return position;
-    if (box_size > image_size - position - 1)
-      return image_size - position - 1;
-    return box_size;
+    return std::min({box_size / 2, position, image_size - position - 1});
   }
 
   /**
-- 
2.43.0


From 9787a210a71b66226592d09a201c7d55b5e88d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 46/88] fix: the noise of an image in small units must not be
 taken as zero

---
 .../Background/SE/KappaSigmaBinning.h         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h b/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
index 59103e4..53b0c11 100644
--- a/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
+++ b/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
@@ -134,29 +134,36 @@ private:
   /**
    * Online mean and standard deviation computation
    * Similar to boost::accumulators, but this turned out to be faster
+   * The values are accumulated relative to the first one, so the result is exact for constant data,
+   * and what is considered noise does not depend on the units of the data
    */
   struct Stats {
-    double mean = 0, sigma = 0;
+    double zero = 0, mean = 0, sigma = 0;
     size_t ndata = 0;
 
     void operator() (VarType v) {
-      mean += v;
-      sigma += v * v;
+      if (ndata == 0)
+        zero = v;
+      double delta = v - zero;
+      mean += delta;
+      sigma += delta * delta;
       ++ndata;
     }
 
     std::tuple<double, double, size_t> get() {
       mean /= ndata;
-      sigma = sigma / ndata - mean * mean;
-      if (sigma > std::numeric_limits<double>::epsilon())
+      auto mean_sq = sigma / ndata;
+      sigma = mean_sq - mean * mean;
+      if (sigma > std::numeric_limits<double>::epsilon() * mean_sq)
         sigma = std::sqrt(sigma);
       else
         sigma = 0.;
+      mean += zero;
       return std::make_tuple(mean, sigma, ndata);
     }
 
     void reset() {
-      mean = sigma = 0;
+      zero = mean = sigma = 0;
       ndata = 0;
     }
   };
-- 
2.43.0


From b9fcbcacb8deaa91c956e8e6b44001d4d22f40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 47/88] fix: the background map is interpolated between the
 centers of the cells, also when the image is not a multiple of them

---
 .../SEFramework/Image/ScaledImageSource.h     | 21 ++++++++++++++++---
 .../SE/SEBackgroundLevelAnalyzer.cpp          |  6 ++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/SEFramework/SEFramework/Image/ScaledImageSource.h b/SEFramework/SEFramework/Image/ScaledImageSource.h
index 0d44fd8..0afb810 100644
--- a/SEFramework/SEFramework/Image/ScaledImageSource.h
+++ b/SEFramework/SEFramework/Image/ScaledImageSource.h
@@ -49,8 +49,14 @@ public:
    *    New height
    * @param interp_type
    *    Interpolation type
+   * @param cell_width
+   *    Width of the cell each pixel of the original image stands for, the last one may be partial.
+   *    If 0, the original image is stretched evenly.
+   * @param cell_height
+   *    Height of the cell each pixel of the original image stands for
    */
-  ScaledImageSource(const std::shared_ptr<Image<T>>& image, int width, int height, InterpolationType interp_type = InterpolationType::BICUBIC)
+  ScaledImageSource(const std::shared_ptr<Image<T>>& image, int width, int height, InterpolationType interp_type = InterpolationType::BICUBIC,
+                    int cell_width = 0, int cell_height = 0)
     : m_image(image), m_width(width), m_height(height) {
     m_wscale = std::ceil(static_cast<float>(width) / image->getWidth());
     m_hscale = std::ceil(static_cast<float>(height) / image->getHeight());
@@ -69,13 +75,13 @@ public:
     // Generate y coordinates on the original image
     std::vector<double> y_coords(image->getHeight());
     for (size_t i = 0; i < y_coords.size(); ++i) {
-      y_coords[i] = std::floor((i + 0.5) * m_hscale);
+      y_coords[i] = getCellCenter(i, m_hscale, cell_height, height);
     }
 
     // Generate x coordinates on the original image
     m_x_coords.resize(image->getWidth());
     for (size_t i = 0; i < m_x_coords.size(); ++i) {
-      m_x_coords[i] = std::floor((i + 0.5) * m_wscale);
+      m_x_coords[i] = getCellCenter(i, m_wscale, cell_width, width);
     }
 
     // Store interpolation along columns
@@ -158,6 +164,15 @@ public:
   }
 
 private:
+  /// Coordinate, on the scaled image, of the center of a pixel of the original one
+  static double getCellCenter(int i, double scale, int cell_size, int size) {
+    if (cell_size <= 0) {
+      return std::floor((i + 0.5) * scale);
+    }
+    int start = i * cell_size;
+    return start + std::min(cell_size, size - start) / 2;
+  }
+
   std::shared_ptr<Image<T>> m_image;
   int m_width, m_height;
   Euclid::MathUtils::InterpolationType m_interpolation_type;
diff --git a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
index 1269da9..a43b730 100644
--- a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
+++ b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
@@ -152,7 +152,8 @@ BackgroundModel SEBackgroundLevelAnalyzer::analyzeBackground(
     final_var = BufferedImage<DetectionImage::PixelType>::create(
       std::make_shared<ScaledImageSource<DetectionImage::PixelType>>(
         final_var, image->getWidth(), image->getHeight(),
-        ScaledImageSource<DetectionImage::PixelType>::InterpolationType::BICUBIC
+        ScaledImageSource<DetectionImage::PixelType>::InterpolationType::BICUBIC,
+        m_cell_size[0], m_cell_size[1]
       )
     );
   }
@@ -167,7 +168,8 @@ BackgroundModel SEBackgroundLevelAnalyzer::analyzeBackground(
   final_bg = BufferedImage<DetectionImage::PixelType>::create(
     std::make_shared<ScaledImageSource<DetectionImage::PixelType>>(
       mode, image->getWidth(), image->getHeight(),
-      ScaledImageSource<DetectionImage::PixelType>::InterpolationType::BICUBIC
+      ScaledImageSource<DetectionImage::PixelType>::InterpolationType::BICUBIC,
+        m_cell_size[0], m_cell_size[1]
     )
   );
 
-- 
2.43.0


From 76e1218a1a9a2673023686a5004f362566c17ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 48/88] fix: a segmentation filter that is not a rectangle of
 numbers is refused

---
 .../src/lib/Configuration/SegmentationConfig.cpp    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp b/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
index 04a6438..bef125c 100644
--- a/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
@@ -180,10 +180,12 @@ static bool getNormalization(std::istream& line_stream) {
 template <typename T>
 static void extractValues(std::istream& line_stream, std::vector<T>& data) {
   T value;
-  while (line_stream.good()) {
-    line_stream >> value;
+  while (line_stream >> value) {
     data.push_back(value);
   }
+  if (!line_stream.eof()) {
+    throw Elements::Exception() << "Malformed segmentation filter: value number " << data.size() + 1 << " is not a number";
+  }
 }
 
 std::shared_ptr<DetectionImageFrame::ImageFilter> SegmentationConfig::loadASCIIFilter(const std::string& filename) const {
@@ -227,10 +229,15 @@ std::shared_ptr<DetectionImageFrame::ImageFilter> SegmentationConfig::loadASCIIF
         kernel_width = kernel_data.size();
         state = LoadState::STATE_OTHER_LINES;
         break;
-      case LoadState::STATE_OTHER_LINES:
+      case LoadState::STATE_OTHER_LINES: {
+        auto previous_size = kernel_data.size();
         extractValues(line_stream, kernel_data);
+        if (kernel_data.size() != previous_size + kernel_width) {
+          throw Elements::Exception() << "Malformed segmentation filter: the lines do not have the same number of values";
+        }
         break;
       }
+      }
   }
 
   // compute the dimensions and create the kernel
-- 
2.43.0


From 863ac8c4ce41b93a5c67e290f417105ec1c21eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 49/88] fix: the weight threshold of a measurement image
 follows its flux scale

---
 .../src/lib/Configuration/MeasurementImageConfig.cpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index ba81408..eb0faad 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -210,6 +210,10 @@ void MeasurementImageConfig::initialize(const UserValues&) {
       if (weight_map != nullptr && flux_scale != 1. && py_image.weight_absolute) {
         info.m_weight_image = MultiplyImage<WeightImage::PixelType>::create(
             weight_map, py_image.flux_scale * py_image.flux_scale);
+        // the threshold is in the units of the weight map
+        if (info.m_weight_threshold < std::numeric_limits<WeightImage::PixelType>::max()) {
+          info.m_weight_threshold *= py_image.flux_scale * py_image.flux_scale;
+        }
       } else {
         info.m_weight_image = weight_map;
       }
-- 
2.43.0


From feff3e15297ee5d25a6112de01eed076c4517192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 50/88] fix: a weight file with fewer images than the detection
 file is refused

---
 SEImplementation/src/lib/Configuration/WeightImageConfig.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/src/lib/Configuration/WeightImageConfig.cpp b/SEImplementation/src/lib/Configuration/WeightImageConfig.cpp
index 593a4f2..84c62f4 100644
--- a/SEImplementation/src/lib/Configuration/WeightImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/WeightImageConfig.cpp
@@ -181,6 +181,10 @@ void WeightImageConfig::initialize(const UserValues& args) {
       m_weight_images.emplace_back(weight_image);
       m_scaled_weight_thresholds.emplace_back(scaled_weight_threshold);
     }
+
+    if (m_weight_images.size() < getDependency<DetectionImageConfig>().getExtensionsNb()) {
+      throw Elements::Exception() << "There are fewer weight images in " << weight_image_filename << " than detection images";
+    }
   }
 }
 
-- 
2.43.0


From 52e1611879def6f919231f9928ae988a3e456166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 51/88] fix: exit in the Python configuration is an error, not
 a crash

---
 SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp b/SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp
index 987a9fa..f2ff99f 100644
--- a/SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp
+++ b/SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp
@@ -115,6 +115,11 @@ void PythonInterpreter::runFile(const std::string& filename, const std::vector<s
     std::string pycode((std::istreambuf_iterator<char>(fs)), (std::istreambuf_iterator<char>()));
     py::exec(pycode.c_str(), main_namespace);
   } catch (const py::error_already_set& e) {
+    if (PyErr_ExceptionMatches(PyExc_SystemExit)) {
+      // PyErr_Print would end the process here and now
+      PyErr_Clear();
+      throw Elements::Exception() << "The Python configuration script called exit";
+    }
     PyErr_Print();
     throw Elements::Exception() << "An error occured while running the Python configuration script";
   } catch (const std::system_error& e) {
-- 
2.43.0


From 3125cc8d03e5619a0061b126c364617aa6f2bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 52/88] fix: an option that needs a value is not read past the
 end of the arguments

---
 SEMain/src/program/SourceXtractor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEMain/src/program/SourceXtractor.cpp b/SEMain/src/program/SourceXtractor.cpp
index 49b2d49..de5271e 100644
--- a/SEMain/src/program/SourceXtractor.cpp
+++ b/SEMain/src/program/SourceXtractor.cpp
@@ -552,21 +552,21 @@ private:
 static void forwardOptions(int argc, char *const *argv, std::vector<std::string>& plugin_options_input) {
   for (int i = 0; i < argc; ++i) {
     std::string option{argv[i]};
-    if (option == "--config-file") {
+    if (option == "--config-file" && i + 1 < argc) {
       plugin_options_input.emplace_back("--config-file");
       plugin_options_input.emplace_back(std::string{argv[i + 1]});
     }
     if (boost::starts_with(option, "--config-file=")) {
       plugin_options_input.emplace_back(option);
     }
-    if (option == "--plugin-directory") {
+    if (option == "--plugin-directory" && i + 1 < argc) {
       plugin_options_input.emplace_back("--plugin-directory");
       plugin_options_input.emplace_back(std::string{argv[i + 1]});
     }
     if (boost::starts_with(option, "--plugin-directory=")) {
       plugin_options_input.emplace_back(option);
     }
-    if (option == "--plugin") {
+    if (option == "--plugin" && i + 1 < argc) {
       plugin_options_input.emplace_back("--plugin");
       plugin_options_input.emplace_back(std::string{argv[i + 1]});
     }
-- 
2.43.0


From d04da8e56ed3c21276162c8721310d2269dbfc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 53/88] fix: the default of an unsigned option is printed as
 such

---
 SEMain/src/program/SourceXtractor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SEMain/src/program/SourceXtractor.cpp b/SEMain/src/program/SourceXtractor.cpp
index de5271e..2ca4161 100644
--- a/SEMain/src/program/SourceXtractor.cpp
+++ b/SEMain/src/program/SourceXtractor.cpp
@@ -256,6 +256,8 @@ public:
     static std::map<std::type_index, PrinterFunction> printers{
       {typeid(bool), &writeDefault<bool>},
       {typeid(int), &writeDefault<int>},
+      {typeid(unsigned int), &writeDefault<unsigned int>},
+      {typeid(unsigned long), &writeDefault<unsigned long>},
       {typeid(double), &writeDefault<double>},
       {typeid(std::string), &writeDefault<std::string>},
       {typeid(std::vector<std::string>), &writeDefaultMultiple<std::string>}
-- 
2.43.0


From 899e95b5946a5b8340d27355ed3ead9127f53cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 54/88] fix: the aperture diameters can be read back in Python

---
 SEImplementation/src/lib/PythonConfig/PythonModule.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/src/lib/PythonConfig/PythonModule.cpp b/SEImplementation/src/lib/PythonConfig/PythonModule.cpp
index 4f56e04..339626f 100644
--- a/SEImplementation/src/lib/PythonConfig/PythonModule.cpp
+++ b/SEImplementation/src/lib/PythonConfig/PythonModule.cpp
@@ -124,6 +124,9 @@ BOOST_PYTHON_MODULE(_SourceXtractorPy) {
   bp::class_<std::vector<unsigned int> >("_UIntVector")
     .def(bp::vector_indexing_suite<std::vector<unsigned int> >());
 
+  bp::class_<std::vector<float> >("_FloatVector")
+    .def(bp::vector_indexing_suite<std::vector<float> >());
+
   bp::class_<std::map<std::string, std::string>>("_StringStringMap")
     .def(bp::map_indexing_suite<std::map<std::string, std::string>>());
 
-- 
2.43.0


From 9cb8d9e555f12a9265552e4e36150dfd296a4555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 55/88] fix: an empty vignet size is refused

---
 SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp
index 511ea53..4112730 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp
@@ -51,7 +51,7 @@ void VignetConfig::initialize(const UserValues& args) {
   if (vignet_iter != args.end()) {
     auto vignet_str = vignet_iter->second.as<std::string>();
     auto vignet_vector = Euclid::stringToVector<int>(vignet_str);
-    if (vignet_vector.size() > 2) {
+    if (vignet_vector.empty() || vignet_vector.size() > 2) {
       throw Elements::Exception() << VIGNET_SIZE << " only accepts one or two numbers";
     }
     m_vignet_size[0] = vignet_vector.front();
-- 
2.43.0


From fc5dc573e8c51424f38d7910053a1e7b5523b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 56/88] fix: a coordinate system with more axes than the image
 overran the conversion buffers

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index ac14c06..4d6f4ea 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -195,11 +195,31 @@ void WCS::init(char* headers, int number_of_records) {
   // Do a second pass, in relaxed mode. We use the result.
   ret = wcspih(headers, number_of_records, WCSHDR_all, 0, &nreject, &nwcs, &wcs);
   wcsRaiseOnParseError(ret);
+  if (nwcs < 1) {
+    throw Elements::Exception() << "No coordinate system in the FITS headers";
+  }
   wcsset(wcs);
 
   // There are some things worth reporting about which WCS will not necessarily complain
   wcsCheckHeaders(wcs, headers, number_of_records);
 
+  // Only the two axes of the image matter, the conversions use arrays of that size
+  if (wcs->naxis != 2) {
+    int nsub = 2, axes[] = {1, 2};
+    auto image_wcs = static_cast<wcsprm*>(calloc(1, sizeof(wcsprm)));
+    image_wcs->flag = -1;
+    ret = wcs->naxis > 2 ? safe_wcssub(true, wcs, &nsub, axes, image_wcs) : WCSERR_BAD_PARAM;
+    wcsvfree(&nwcs, &wcs);
+    if (ret != WCSERR_SUCCESS) {
+      wcsfree(image_wcs);
+      free(image_wcs);
+      throw Elements::Exception() << "The coordinate system does not apply to the axes of the image: " << wcs_errmsg[ret];
+    }
+    nwcs = 1;
+    wcs = image_wcs;
+    wcsset(wcs);
+  }
+
   m_wcs = decltype(m_wcs)(wcs, [nwcs](wcsprm* ptr) {
     int nwcs_copy = nwcs;
     wcsfree(ptr);
-- 
2.43.0


From 14ea628e0959efab31981bdc5b2279d9f0cf087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 57/88] fix: right ascension and declination were exchanged
 when the header has the declination first

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 4d6f4ea..599f638 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -83,6 +83,13 @@ static void wcsRaiseOnTransformError(wcsprm *wcs, int ret_code) {
   }
 }
 
+/**
+ * The header may have the declination on its first axis
+ */
+static bool isLatitudeFirst(const wcsprm& wcs) {
+  return wcs.lat == 0 && wcs.lng == 1;
+}
+
 /**
  * Extract the keywords from the headers
  */
@@ -255,9 +262,10 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   int status = 0;
   int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array, ic_array, &phi, &theta, wc_array, &status);
   wcsRaiseOnTransformError(&wcs_copy, ret_val);
+  bool latitude_first = isLatitudeFirst(wcs_copy);
   wcsfree(&wcs_copy);
 
-  return WorldCoordinate(wc_array[0], wc_array[1]);
+  return latitude_first ? WorldCoordinate(wc_array[1], wc_array[0]) : WorldCoordinate(wc_array[0], wc_array[1]);
 }
 
 ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
@@ -269,6 +277,9 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   double pc_array[2] {0, 0};
   double ic_array[2] {0, 0};
   double wc_array[2] {world_coordinate.m_alpha, world_coordinate.m_delta};
+  if (isLatitudeFirst(*m_wcs)) {
+    std::swap(wc_array[0], wc_array[1]);
+  }
   double phi, theta;
 
   int status = 0;
-- 
2.43.0


From 01b272c49fc0278f91f1513d8f631c4d9586d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 58/88] fix: moving the origin of a coordinate system left its
 distortion behind

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 599f638..4b94d21 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -24,6 +24,7 @@
 
 #include "SEFramework/CoordinateSystem/WCS.h"
 
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <fitsio.h>
 #include <mutex>
@@ -320,6 +321,22 @@ std::map<std::string, std::string> WCS::getFitsHeaders() const {
 void WCS::addOffset(PixelCoordinate pc) {
   m_wcs->crpix[0] -= pc.m_x;
   m_wcs->crpix[1] -= pc.m_y;
+
+  // A distortion (SIP) keeps its own copy of the reference pixel
+  if (auto dis = m_wcs->lin.dispre) {
+    for (int i = 0; i < dis->ndp; ++i) {
+      std::string field(dis->dp[i].field);
+      for (int axis = 0; axis < 2; ++axis) {
+        if (dis->dp[i].type != 0 && boost::ends_with(field, ".OFFSET." + std::to_string(axis + 1))) {
+          dis->dp[i].value.f -= axis == 0 ? pc.m_x : pc.m_y;
+        }
+      }
+    }
+    dis->flag = 0;
+  }
+  m_wcs->lin.flag = 0;
+  m_wcs->flag = 0;
+  wcsset(m_wcs.get());
 }
 
 
-- 
2.43.0


From 4da37b60c4284924d667780cb6e5b3971f70b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 59/88] fix: a failed conversion to the sky leaked the copy of
 the coordinate system

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 4b94d21..707a8b7 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -262,8 +262,13 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
 
   int status = 0;
   int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array, ic_array, &phi, &theta, wc_array, &status);
-  wcsRaiseOnTransformError(&wcs_copy, ret_val);
   bool latitude_first = isLatitudeFirst(wcs_copy);
+  try {
+    wcsRaiseOnTransformError(&wcs_copy, ret_val);
+  } catch (...) {
+    wcsfree(&wcs_copy);
+    throw;
+  }
   wcsfree(&wcs_copy);
 
   return latitude_first ? WorldCoordinate(wc_array[1], wc_array[0]) : WorldCoordinate(wc_array[0], wc_array[1]);
-- 
2.43.0


From 0dc2b54278a7cf28e3c8479d7172ea287cce0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 60/88] fix: the image header in an LDAC catalog kept only
 seven digits of its values

---
 SEImplementation/src/lib/Output/LdacOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 41a7f17..25f4e3c 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -15,6 +15,8 @@
  * 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
  */
 
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 #include <AlexandriaKernel/memory_tools.h>
@@ -45,7 +47,7 @@ std::string generateHeader(const std::string& name, T value, const std::string&
   std::stringstream str;
 
   str << std::setw(8) << std::left << name << "= "
-      << std::scientific << std::setw(20) << std::right << value
+      << std::scientific << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << std::setw(20) << std::right << value
       << " / ";
 
   if (str.str().size() > 80) {
-- 
2.43.0


From 04b160851fafbb81891bbc0d49f464fcc8287d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 61/88] fix: a valid FITS header with a long text could not be
 copied to an LDAC catalog

---
 SEImplementation/src/lib/Output/LdacOutput.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 25f4e3c..97a030b 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -72,12 +72,17 @@ std::string generateHeader<std::string>(const std::string& name, std::string val
   quoted_value << boost::io::quoted(value, '\'', '\'');
 
   str << std::setw(8) << std::left << name << "= "
-      << std::setw(20) << std::left << quoted_value.str()
-      << " / ";
+      << std::setw(20) << std::left << quoted_value.str();
 
   if (str.str().size() > 80) {
     throw Elements::Exception() << "Header cannot exceed 80 characters: \"" << str.str() << "\"";
   }
+  if (str.str().size() > 77) {
+    // no room for a comment
+    str << std::string(80 - str.str().size(), ' ');
+    return str.str();
+  }
+  str << " / ";
 
   size_t remaining = 80 - str.str().size();
   if (comment.size() < remaining) {
-- 
2.43.0


From 74bc29cf486271d66b253983eb51fd9d95f3e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 62/88] fix: unnumbered columns at the top of an assoc-config
 file were read one column too far

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index e0d259d..1aa7226 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -449,7 +449,7 @@ std::map<std::string, unsigned int>  AssocModeConfig::parseConfigFile(const std:
     }
 
     std::string line;
-    int current_column_nb = 1; // column indices start at 1
+    int current_column_nb = 0; // column indices start at 1 in the file, at 0 internally
     while (std::getline(config_file, line)) {
       boost::trim(line);
       // Skip lines starting with '#'
-- 
2.43.0


From 98314c15ce70048c1b1afca7a818ca96b1101697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 63/88] fix: assoc mode FIRST took an arbitrary match when the
 catalog is large

---
 .../SEImplementation/Plugin/AssocMode/AssocModeConfig.h     | 2 ++
 .../src/lib/Plugin/AssocMode/AssocModeConfig.cpp            | 2 +-
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
index 9cb2469..ab6c42b 100644
--- a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
+++ b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
@@ -65,6 +65,8 @@ public:
     double source_pixel_height;
 
     unsigned int group_id;
+
+    size_t catalog_index;   // position in the catalog
   };
 
   explicit AssocModeConfig(long manager_id);
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index 1aa7226..e66ec68 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -398,7 +398,7 @@ std::vector<AssocModeConfig::CatalogEntry> AssocModeConfig::readTable(
         world_coord = coordinate_system->imageToWorld(coord);
       }
     }
-    catalog.emplace_back(CatalogEntry { coord, world_coord, 1.0, {}, 1.0, 1.0, 0 });
+    catalog.emplace_back(CatalogEntry { coord, world_coord, 1.0, {}, 1.0, 1.0, 0, catalog.size() });
     if (columns.size() == 3 && columns.at(2) >= 0) {
       catalog.back().weight = boost::apply_visitor(CastVisitor<double>{}, row[columns.at(2)]);
     }
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 2be8afb..9025544 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -50,7 +50,11 @@ AssocModeConfig::CatalogEntry getAssocEntryUnknownImpl(const std::vector<AssocMo
 }
 
 AssocModeConfig::CatalogEntry getAssocEntryFirstImpl(const std::vector<AssocModeConfig::CatalogEntry>& entries) {
-  return entries.front();
+  // the entries come in the order of the search tree, not in that of the catalog
+  return *std::min_element(entries.begin(), entries.end(),
+      [](const AssocModeConfig::CatalogEntry &a, const AssocModeConfig::CatalogEntry &b) -> bool {
+          return a.catalog_index < b.catalog_index;
+      });
 }
 
 AssocModeConfig::CatalogEntry getAssocEntryNearestImpl(const std::vector<AssocModeConfig::CatalogEntry>& entries,
-- 
2.43.0


From 6831f82bdd1593fcf51f64e4f2be79f610402d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 64/88] fix: sources without a match had an assoc_values cell
 of another size than the others

---
 .../SEImplementation/Plugin/AssocMode/AssocModeTask.h    | 1 +
 .../src/lib/Plugin/AssocMode/AssocModeTask.cpp           | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
index d6cef7d..de9a465 100644
--- a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
+++ b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
@@ -45,6 +45,7 @@ private:
   std::vector<KdTree<AssocModeConfig::CatalogEntry>> m_catalogs;
   AssocModeConfig::AssocMode m_assoc_mode;
   double m_radius;
+  size_t m_values_nb;   // number of columns copied from the catalog
 };
 
 }
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 9025544..766afe3 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <algorithm>
 #include <functional>
+#include <limits>
 
 #include "SEUtils/KdTree.h"
 
@@ -151,9 +152,12 @@ AssocModeConfig::CatalogEntry getAssocEntryMagSumImpl(const std::vector<AssocMod
 
 AssocModeTask::AssocModeTask(const std::vector<std::vector<AssocModeConfig::CatalogEntry>>& catalogs,
                              AssocModeConfig::AssocMode assoc_mode, double radius) :
-                             m_assoc_mode(assoc_mode), m_radius(radius) {
+                             m_assoc_mode(assoc_mode), m_radius(radius), m_values_nb(0) {
   for (auto& catalog : catalogs) {
     m_catalogs.emplace_back(catalog);
+    if (!catalog.empty()) {
+      m_values_nb = catalog.front().assoc_columns.size();
+    }
   }
 }
 
@@ -172,7 +176,8 @@ void AssocModeTask::computeProperties(SourceInterface &source) const {
 
   if (nearby_catalog_entries.size() == 0) {
     // No match
-    source.setProperty<AssocMode>(false, std::vector<double>());
+    // keep as many values as for the matches, the output column has the same size in all its rows
+    source.setProperty<AssocMode>(false, std::vector<double>(m_values_nb, std::numeric_limits<double>::quiet_NaN()));
   } else {
     const std::map<AssocModeConfig::AssocMode, AssocModeTask::GetAssocResult> assoc_mode_implementation_table {
       std::make_pair(AssocModeConfig::AssocMode::UNKNOWN, getAssocEntryUnknownImpl),
-- 
2.43.0


From 703afe4307b5139db6b63cebcd6af1acaa3f42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 65/88] fix: iterative model fitting aborted on sources outside
 of a measurement frame

---
 .../FlexibleModelFittingIterativeTask.cpp                | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 1e99d9e..86575f1 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -131,6 +131,11 @@ PixelRectangle FlexibleModelFittingIterativeTask::getUnclippedFittingRect(Source
 
 PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle fitting_rect,
     SourceInterface& source, int frame_index) const {
+  // the source may be entirely outside of the frame
+  if (fitting_rect.getWidth() <= 0 || fitting_rect.getHeight() <= 0) {
+    return PixelRectangle();
+  }
+
   const auto& frame_info = source.getProperty<MeasurementFrameInfo>(frame_index);
 
   auto min = fitting_rect.getTopLeft();
@@ -142,6 +147,10 @@ PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle
   max.m_x = std::min(max.m_x, frame_info.getWidth() - 1);
   max.m_y = std::min(max.m_y, frame_info.getHeight() - 1);
 
+  if (max.m_x < min.m_x || max.m_y < min.m_y) {
+    return PixelRectangle();
+  }
+
   return PixelRectangle(min, max);
 }
 
-- 
2.43.0


From bd49c0d1a2f910be6f7f808fb502df4cc42f1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 66/88] fix: iterative model fitting lost the flags of sources
 it could not fit and gave 0 for their derived parameters

---
 .../FlexibleModelFittingIterativeTask.cpp                    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 86575f1..042e83c 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -459,9 +459,7 @@ void FlexibleModelFittingIterativeTask::computeProperties(SourceGroupInterface&
     auto& source_state = fitting_state.source_states.at(index);
 
     for (auto parameter : m_parameters) {
-      auto free_parameter = std::dynamic_pointer_cast<FlexibleModelFittingFreeParameter>(parameter);
-
-      if (free_parameter != nullptr && !source_state.parameters_fitted[parameter->getId()]) {
+      if (!source_state.parameters_fitted[parameter->getId()]) {
         source_state.parameters_values[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
         source_state.parameters_sigmas[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
       }
@@ -739,6 +737,7 @@ void FlexibleModelFittingIterativeTask::fitSource(SourceGroupInterface& group, S
 
   // Do not run the model fitting for the flags above
   if (flags != Flags::NONE) {
+    state.source_states[index].flags = flags;
     return;
   }
 
-- 
2.43.0


From 55a7c8405bc376796ee773cb9a45b4d80429c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 67/88] fix: CTYPE values shorter than four characters were
 read before their begin

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 707a8b7..8707fc6 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -116,7 +116,7 @@ static void wcsCheckHeaders(const wcsprm *wcs, const char *headers_str, int numb
     for (int i = 0; i < wcs->naxis; ++i) {
       sip_used |= (strncmp(wcs->lin.dispre->dtype[i], "SIP", 3) == 0);
       size_t ctype_len = strlen(wcs->ctype[i]);
-      sip_specified |= (strncmp(wcs->ctype[i] + ctype_len - 4, "-SIP", 4) == 0);
+      sip_specified |= ctype_len >= 4 && (strncmp(wcs->ctype[i] + ctype_len - 4, "-SIP", 4) == 0);
     }
     if (sip_used && !sip_specified) {
       logger.warn() << "SIP coefficients present, but CTYPE has not the '-SIP' suffix";
-- 
2.43.0


From eabf8516cce5cb2769fc0645232fcdab29385a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 68/88] fix: the background analysis aborted on cells with
 pixels that are not a number

---
 SEImplementation/src/lib/Background/SE/ImageMode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Background/SE/ImageMode.cpp b/SEImplementation/src/lib/Background/SE/ImageMode.cpp
index 857c1bb..7b55d96 100644
--- a/SEImplementation/src/lib/Background/SE/ImageMode.cpp
+++ b/SEImplementation/src/lib/Background/SE/ImageMode.cpp
@@ -137,7 +137,7 @@ void ImageMode<T>::processCell(const Image<T>& img, int x, int y,
   for (int y = 0; y < h; ++y) {
     for (int x = 0; x < w; ++x) {
       auto v = img_chunk.getValue(x, y);
-      if (v != m_invalid)
+      if (v != m_invalid && std::isfinite(v))
         filtered.emplace_back(v);
     }
   }
-- 
2.43.0


From a0853b682c30a66c6840de46e2f68d0cfdd7662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 69/88] fix: vignets of sources near the border or outside of
 the frames read pixels outside of the detection image

---
 .../lib/Plugin/Vignet/VignetSourceTask.cpp    | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
index 15ab07c..288126f 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
@@ -35,6 +35,10 @@
 #include "SEImplementation/Plugin/Vignet/VignetSourceTask.h"
 
 namespace SourceXtractor {
+
+// no image reaches that far, and integers still hold it
+static const double MAX_PIXEL_COORDINATE = 1e9;
+
 void VignetSourceTask::computeProperties(SourceInterface& source) const {
   const auto& measurement_frame_info = source.getProperty<MeasurementFrameInfo>(m_instance);
   const auto& measurement_frame_images = source.getProperty<MeasurementFrameImages>(m_instance);
@@ -57,6 +61,17 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
 
   // get the central pixel coord
   const auto& centroid = source.getProperty<MeasurementFramePixelCentroid>(m_instance);
+
+  std::vector<SeFloat> vignet_vector(m_vignet_size[0] * m_vignet_size[1], m_vignet_default_pixval);
+
+  // a source outside of the projection or far away has no pixel to copy
+  if (centroid.badProjection() ||
+      !(std::abs(centroid.getCentroidX()) < MAX_PIXEL_COORDINATE && std::abs(centroid.getCentroidY()) < MAX_PIXEL_COORDINATE)) {
+    source.setIndexedProperty<Vignet>(m_instance,
+      VectorImage<DetectionImage::PixelType>::create(m_vignet_size[0], m_vignet_size[1], std::move(vignet_vector)));
+    return;
+  }
+
   const int x_pix = static_cast<int>(centroid.getCentroidX() + 0.5);
   const int y_pix = static_cast<int>(centroid.getCentroidY() + 0.5);
 
@@ -67,7 +82,6 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
   int y_end = y_start + m_vignet_size[1];
 
   // create and fill the vignet vector using the measurement frame
-  std::vector<SeFloat> vignet_vector(m_vignet_size[0] * m_vignet_size[1], m_vignet_default_pixval);
   int index = 0;
   for (int iy = y_start; iy < y_end; iy++) {
     for (int ix = x_start; ix < x_end; ix++, index++) {
@@ -77,16 +91,27 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
         continue;
 
       // translate pixel coordinates to the detection frame
-      auto world_coord = measurement_coordinate_system->imageToWorld({static_cast<double>(ix), static_cast<double>(iy)});
-      auto detection_coord = detection_coordinate_system->worldToImage(world_coord);
+      bool in_detection_frame = false;
+      int detection_x = -1, detection_y = -1;
+      try {
+        auto world_coord = measurement_coordinate_system->imageToWorld({static_cast<double>(ix), static_cast<double>(iy)});
+        auto detection_coord = detection_coordinate_system->worldToImage(world_coord);
+        in_detection_frame = detection_coord.m_x > -0.5 && detection_coord.m_y > -0.5 &&
+          detection_coord.m_x < detection_thresh_image->getWidth() - 0.5 &&
+          detection_coord.m_y < detection_thresh_image->getHeight() - 0.5;
+        if (in_detection_frame) {
+          detection_x = static_cast<int>(detection_coord.m_x + 0.5);
+          detection_y = static_cast<int>(detection_coord.m_y + 0.5);
+        }
+      }
+      catch (const InvalidCoordinatesException&) {
+        // the detection frame does not know this pixel
+      }
 
       // copy the pixel value if it is not masked, and if it does not correspond to a detection pixel
       // if it corresponds to a detection pixel, use it if it belongs to the source
-      int detection_x = static_cast<int>(detection_coord.m_x + 0.5);
-      int detection_y = static_cast<int>(detection_coord.m_y + 0.5);
-
       bool is_masked = measurement_var_image->getValue(ix, iy) > measurement_var_threshold;
-      bool is_detection_pixel = detection_thresh_image->getValue(detection_x, detection_y) > 0;
+      bool is_detection_pixel = in_detection_frame && detection_thresh_image->getValue(detection_x, detection_y) > 0;
 
       if (!is_masked && (!is_detection_pixel || pixel_coords.contains({detection_x, detection_y}))) {
         vignet_vector[index] = measurement_sub_image->getValue(ix, iy);
-- 
2.43.0


From 6b00c94f8e2ab79c4be7be3e8c457774889290a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 70/88] fix: fitting a source whose position is not a number or
 far away aborted

---
 SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
index 123aae5..a4a2859 100644
--- a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
+++ b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
@@ -319,6 +319,11 @@ void ModelFitting::ImageTraits<ImageInterfaceTypePtr>::addImageToImage(
   // Calculate the size in pixels of the image2 after in the scale of image1
   double scaled_width = width(source_image) * scale_factor;
   double scaled_height = height(source_image) * scale_factor;
+  // Nothing to add when the two images do not overlap, or when the position is not a number
+  if (!(x + scaled_width / 2. > 0 && x - scaled_width / 2. < width(target_image) &&
+        y + scaled_height / 2. > 0 && y - scaled_height / 2. < height(target_image))) {
+    return;
+  }
   // Calculate the window of the image1 which is affected
   int x_min = std::floor(x - scaled_width / 2.);
   int x_max = std::ceil(x + scaled_width / 2.);
-- 
2.43.0


From 99298ae861423696e8c18145771f34855149c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 71/88] fix: drawing the PSF of a source whose position is not
 a number aborted

---
 .../SEImplementation/Image/WriteableImageInterfaceTraits.h   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
index 952cf46..7fbfa42 100644
--- a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
+++ b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
@@ -229,6 +229,11 @@ inline void ImageTraits<WriteableInterfaceTypePtr>::addImageToImage(WriteableInt
   // Calculate the size in pixels of the image2 after in the scale of image1
   double scaled_width = width(image2) * scale_factor;
   double scaled_height = height(image2) * scale_factor;
+  // Nothing to add when the two images do not overlap, or when the position is not a number
+  if (!(x + scaled_width / 2. > 0 && x - scaled_width / 2. < width(image1) &&
+        y + scaled_height / 2. > 0 && y - scaled_height / 2. < height(image1))) {
+    return;
+  }
   // Calculate the window of the image1 which is affected
   int x_min = std::floor(x - scaled_width / 2.);
   int x_max = std::ceil(x + scaled_width / 2.);
-- 
2.43.0


From f2eb7825adf88ec27724cac2ebd3776bc62a4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 72/88] fix: a generated PSF with a size or sampling that is
 not positive aborted

---
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index 5f5994f..dff0ece 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -43,6 +43,9 @@ static const std::string PSF_FILE{"psf-filename"};
 static const std::string PSF_FWHM {"psf-fwhm" };
 static const std::string PSF_PIXEL_SAMPLING {"psf-pixel-sampling" };
 
+// Widest gaussian PSF (in samples) that fits in an image
+static const double MAX_GAUSSIAN_SIZE = 7000;
+
 /*
  * Reading in a stacked PSF as it is being developed for co-added images in Euclid
  */
@@ -202,6 +205,10 @@ std::shared_ptr<Psf> PsfPluginConfig::readPsf(const std::string& filename, int h
 }
 
 std::shared_ptr<Psf> PsfPluginConfig::generateGaussianPsf(SeFloat fwhm, SeFloat pixel_sampling) {
+  if (!(fwhm > 0 && pixel_sampling > 0 && fwhm / pixel_sampling < MAX_GAUSSIAN_SIZE)) {
+    throw Elements::Exception() << "Can not generate a gaussian PSF with a full-width half-maximum of " << fwhm
+                                << " pixels and a pixel sampling of " << pixel_sampling;
+  }
   int size = int(fwhm / pixel_sampling + 1) * 6 + 1;
   auto kernel = VectorImage<SeFloat>::create(size, size);
 
-- 
2.43.0


From c3dc1a4c5a68c8069f0a54fc0dc51a8c6b4f8a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 73/88] fix: a model without free parameters aborted

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index da250db..b9645a4 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -117,6 +117,16 @@ static LeastSquareSummary::StatusFlag getStatusFlag(int ret) {
 
 LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager& parameter_manager,
                                            ModelFitting::ResidualEstimator& residual_estimator) {
+  // Without free parameters there is nothing to fit, and GSL aborts
+  if (parameter_manager.numberOfParameters() == 0) {
+    LeastSquareSummary summary;
+    summary.status_flag = LeastSquareSummary::SUCCESS;
+    summary.engine_stop_reason = GSL_SUCCESS;
+    summary.iteration_no = 0;
+    summary.duration = 0;
+    return summary;
+  }
+
   // Create a tuple which keeps the references to the given manager and estimator
   // If we capture, we can not use the lambda for the function pointer
   auto adata = std::tie(parameter_manager, residual_estimator);
-- 
2.43.0


From 8c6268466d8539f36497272ded87316112c8f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 74/88] fix: the growth curve of a source with a huge radius
 walked over billions of pixels outside of the image

---
 .../src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp b/SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp
index ae936c6..d5ff9f2 100644
--- a/SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp
+++ b/SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp
@@ -107,13 +107,15 @@ void GrowthCurveTask::computeProperties(SourceInterface& source) const {
   auto min_coord = apertures.back().getMinPixel(centroid_x, centroid_y);
   auto max_coord = apertures.back().getMaxPixel(centroid_x, centroid_y);
 
+  // There is nothing to add outside of the image
+  min_coord.m_x = std::max(min_coord.m_x, 0);
+  min_coord.m_y = std::max(min_coord.m_y, 0);
+  max_coord.m_x = std::min(max_coord.m_x, image->getWidth() - 1);
+  max_coord.m_y = std::min(max_coord.m_y, image->getHeight() - 1);
+
   // Compute fluxes for each ring
   for (auto y = min_coord.m_y; y <= max_coord.m_y; ++y) {
     for (auto x = min_coord.m_x; x <= max_coord.m_x; ++x) {
-      if (!image->isInside(x, y)) {
-        continue;
-      }
-
       auto pixel_value = getPixelValue(x, y, centroid_x, centroid_y, image,
                                        variance_map, variance_threshold,
                                        m_use_symmetry);
-- 
2.43.0


From 1195190329fd0a478cde5a864228125c83c3362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 75/88] fix: resampling a PSF with a tiny pixel sampling
 overflowed the pixel coordinates

---
 .../SEImplementation/Image/WriteableImageInterfaceTraits.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
index 7fbfa42..36ebbba 100644
--- a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
+++ b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
@@ -195,6 +195,13 @@ struct ImageTraits<WriteableInterfaceTypePtr> {
         float x = (x_win + 0.5 - x_shift) / scale_factor + 0.5;
         float y = (y_win + 0.5 - y_shift) / scale_factor + 0.5;
 
+        // The kernel does not reach the source image, whatever the position (which may not fit an integer)
+        if (!(x > -INTERP_MAXKERNELWIDTH && y > -INTERP_MAXKERNELWIDTH &&
+              x < width(source) + INTERP_MAXKERNELWIDTH && y < height(source) + INTERP_MAXKERNELWIDTH)) {
+          window->setValue(x_win, y_win, 0);
+          continue;
+        }
+
         // Work around the interface of interpolate_pix copying to memory the pixels surrounding
         // the pixel to interpolate
         float buffer[INTERP_MAXKERNELWIDTH * INTERP_MAXKERNELWIDTH] = {0.};
-- 
2.43.0


From 6692d15db400188a38c84250bf2595536003ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 76/88] fix: a coordinate system that could not be copied was
 used without being initialized

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index 8707fc6..fcd1ac5 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -247,11 +247,23 @@ void WCS::init(char* headers, int number_of_records) {
 WCS::~WCS() {
 }
 
+/**
+ * Copy a coordinate system, as wcslib modifies the one it works on
+ */
+static void copyWcs(const wcsprm& source, wcsprm& copy) {
+  copy      = {};
+  copy.flag = -1;
+  int ret = safe_wcssub(true, &source, nullptr, nullptr, &copy);
+  if (ret != WCSERR_SUCCESS) {
+    wcsfree(&copy);
+    throw Elements::Exception() << "Failed to copy the coordinate system: " << wcs_errmsg[ret];
+  }
+}
+
 WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   // wcsprm is in/out
   wcsprm wcs_copy;
-  wcs_copy.flag = -1;
-  safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
+  copyWcs(*m_wcs, wcs_copy);
 
   // +1 as fits standard coordinates start at 1
   double pc_array[2] {image_coordinate.m_x + 1, image_coordinate.m_y + 1};
@@ -277,8 +289,7 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
 ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   // wcsprm is in/out
   wcsprm wcs_copy;
-  wcs_copy.flag = -1;
-  safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
+  copyWcs(*m_wcs, wcs_copy);
 
   double pc_array[2] {0, 0};
   double ic_array[2] {0, 0};
-- 
2.43.0


From 47505bbab0b2fa18298a55419937d35d15de6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 77/88] fix: drawing a PSF with a tiny pixel sampling
 overflowed the pixel coordinates

---
 .../src/lib/Image/ImageInterfaceTraits.cpp          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
index a4a2859..ed97110 100644
--- a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
+++ b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
@@ -272,9 +272,12 @@ void shiftResizeLancszosFast(const ImageInterfaceTypePtr& source, ImageInterface
   auto buffer = Traits::factory(window_height, source_width);
   for (unsigned int buff_x = 0; buff_x < Traits::width(buffer); buff_x++) {
     float pos = (buff_x + 0.5 - y_shift) / scale_factor + 0.5;
-    int ipos = int(pos) - 4;
+    if (!(pos >= 4 && pos < source_height)) {
+      continue;
+    }
 
-    if (ipos < 0 || ipos + 7 >= source_height) {
+    int ipos = int(pos) - 4;
+    if (ipos + 7 >= source_height) {
       continue;
     }
 
@@ -291,8 +294,12 @@ void shiftResizeLancszosFast(const ImageInterfaceTypePtr& source, ImageInterface
   // resize on the other axis
   for (int x_win = 0; x_win < window_width; x_win++) {
     float pos = (x_win + 0.5 - x_shift) / scale_factor + 0.5;
+    if (!(pos >= 4 && pos < source_width)) {
+      continue;
+    }
+
     int ipos = int(pos) - 4;
-    if (ipos < 0 || ipos + 7 >= source_width) {
+    if (ipos + 7 >= source_width) {
       continue;
     }
     make_kernel(pos - int(pos), kernel, INTERP_LANCZOS4);
-- 
2.43.0


From 3517e310274e4f17a67223c7b764b1e9921f845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 78/88] fix: drawing an aperture much bigger than the check
 image walked over all its pixels

---
 .../SEFramework/Aperture/FluxMeasurement.h    | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/SEFramework/SEFramework/Aperture/FluxMeasurement.h b/SEFramework/SEFramework/Aperture/FluxMeasurement.h
index f6807b6..f9ed91c 100644
--- a/SEFramework/SEFramework/Aperture/FluxMeasurement.h
+++ b/SEFramework/SEFramework/Aperture/FluxMeasurement.h
@@ -24,6 +24,8 @@
 #ifndef _SEFRAMEWORK_SEFRAMEWORK_APERTURE_MEASUREFLUX_H
 #define _SEFRAMEWORK_SEFRAMEWORK_APERTURE_MEASUREFLUX_H
 
+#include <algorithm>
+
 #include "Aperture.h"
 #include "SEFramework/Image/WriteableImage.h"
 #include "SEFramework/Source/SourceFlags.h"
@@ -83,12 +85,14 @@ void fillAperture(const std::shared_ptr<Aperture> &aperture, SeFloat centroid_x,
   auto min_pixel = aperture->getMinPixel(centroid_x, centroid_y);
   auto max_pixel = aperture->getMaxPixel(centroid_x, centroid_y);
 
-  for (int y = min_pixel.m_y; y <= max_pixel.m_y; ++y) {
-    for (int x = min_pixel.m_x; x <= max_pixel.m_x; ++x) {
+  // Only visit the pixels inside the image, as the aperture can be much bigger
+  int min_x = std::max(min_pixel.m_x, 0), max_x = std::min(max_pixel.m_x, img->getWidth() - 1);
+  int min_y = std::max(min_pixel.m_y, 0), max_y = std::min(max_pixel.m_y, img->getHeight() - 1);
+
+  for (int y = min_y; y <= max_y; ++y) {
+    for (int x = min_x; x <= max_x; ++x) {
       if (aperture->getArea(centroid_x, centroid_y, x, y) > 0) {
-        if (x >= 0 && y >= 0 && x < img->getWidth() && y < img->getHeight()) {
-          img->setValue(x, y, value);
-        }
+        img->setValue(x, y, value);
       }
     }
   }
@@ -114,12 +118,14 @@ void drawAperture(const std::shared_ptr<Aperture> &aperture, SeFloat centroid_x,
   auto min_pixel = aperture->getMinPixel(centroid_x, centroid_y);
   auto max_pixel = aperture->getMaxPixel(centroid_x, centroid_y);
 
-  for (int y = min_pixel.m_y; y <= max_pixel.m_y; ++y) {
-    for (int x = min_pixel.m_x; x <= max_pixel.m_x; ++x) {
+  // Only visit the pixels inside the image, as the aperture can be much bigger
+  int min_x = std::max(min_pixel.m_x, 0), max_x = std::min(max_pixel.m_x, img->getWidth() - 1);
+  int min_y = std::max(min_pixel.m_y, 0), max_y = std::min(max_pixel.m_y, img->getHeight() - 1);
+
+  for (int y = min_y; y <= max_y; ++y) {
+    for (int x = min_x; x <= max_x; ++x) {
       if (aperture->drawArea(centroid_x, centroid_y, x, y) > 0) {
-        if (x >= 0 && y >= 0 && x < img->getWidth() && y < img->getHeight()) {
-          img->setValue(x, y, value);
-        }
+        img->setValue(x, y, value);
       }
     }
   }
-- 
2.43.0


From 9536a3a3ff5815a4a803a29f04f9ec712e0ad0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 79/88] fix: drawing a PSF much bigger than the image
 overflowed or took forever

---
 .../Image/WriteableImageInterfaceTraits.h          | 14 +++++++-------
 .../src/lib/Image/ImageInterfaceTraits.cpp         | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
index 36ebbba..f6674e0 100644
--- a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
+++ b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
@@ -241,12 +241,12 @@ inline void ImageTraits<WriteableInterfaceTypePtr>::addImageToImage(WriteableInt
         y + scaled_height / 2. > 0 && y - scaled_height / 2. < height(image1))) {
     return;
   }
-  // Calculate the window of the image1 which is affected
-  int x_min = std::floor(x - scaled_width / 2.);
-  int x_max = std::ceil(x + scaled_width / 2.);
+  // Calculate the window of the image1 which is affected, without what falls outside
+  int x_min = std::max(std::floor(x - scaled_width / 2.), 0.);
+  int x_max = std::min<double>(std::ceil(x + scaled_width / 2.), width(image1));
   int window_width = x_max - x_min;
-  int y_min = std::floor(y - scaled_height / 2.);
-  int y_max = std::ceil(y + scaled_height / 2.);
+  int y_min = std::max(std::floor(y - scaled_height / 2.), 0.);
+  int y_max = std::min<double>(std::ceil(y + scaled_height / 2.), height(image1));
   int window_height = y_max - y_min;
   // Calculate the shift of the image2 inside the window
   double x_shift = x - scaled_width / 2. - x_min;
@@ -261,8 +261,8 @@ inline void ImageTraits<WriteableInterfaceTypePtr>::addImageToImage(WriteableInt
   // with the image2
   double corr_factor = 1. / (scale_factor * scale_factor);
   // Add the window to the image1
-  for (int x_im = std::max(x_min, 0); x_im < std::min<int>(x_max, width(image1)); ++x_im) {
-    for (int y_im = std::max(y_min, 0); y_im < std::min<int>(y_max, height(image1)); ++y_im) {
+  for (int x_im = x_min; x_im < x_max; ++x_im) {
+    for (int y_im = y_min; y_im < y_max; ++y_im) {
       int x_win = x_im - x_min;
       int y_win = y_im - y_min;
       at(image1, x_im, y_im) += corr_factor * at(window, x_win, y_win);
diff --git a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
index ed97110..3d2347b 100644
--- a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
+++ b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
@@ -331,12 +331,12 @@ void ModelFitting::ImageTraits<ImageInterfaceTypePtr>::addImageToImage(
         y + scaled_height / 2. > 0 && y - scaled_height / 2. < height(target_image))) {
     return;
   }
-  // Calculate the window of the image1 which is affected
-  int x_min = std::floor(x - scaled_width / 2.);
-  int x_max = std::ceil(x + scaled_width / 2.);
+  // Calculate the window of the image1 which is affected, without what falls outside
+  int x_min = std::max(std::floor(x - scaled_width / 2.), 0.);
+  int x_max = std::min<double>(std::ceil(x + scaled_width / 2.), width(target_image));
   int window_width = x_max - x_min;
-  int y_min = std::floor(y - scaled_height / 2.);
-  int y_max = std::ceil(y + scaled_height / 2.);
+  int y_min = std::max(std::floor(y - scaled_height / 2.), 0.);
+  int y_max = std::min<double>(std::ceil(y + scaled_height / 2.), height(target_image));
   int window_height = y_max - y_min;
   // Calculate the shift of the image2 inside the window
   double x_shift = x - scaled_width / 2. - x_min;
@@ -350,8 +350,8 @@ void ModelFitting::ImageTraits<ImageInterfaceTypePtr>::addImageToImage(
   // with the image2
   double corr_factor = 1. / (scale_factor * scale_factor);
   // Add the window to the image1
-  for (int x_im = std::max(x_min, 0); x_im < std::min<int>(x_max, width(target_image)); ++x_im) {
-    for (int y_im = std::max(y_min, 0); y_im < std::min<int>(y_max, height(target_image)); ++y_im) {
+  for (int x_im = x_min; x_im < x_max; ++x_im) {
+    for (int y_im = y_min; y_im < y_max; ++y_im) {
       int x_win = x_im - x_min;
       int y_win = y_im - y_min;
       at(target_image, x_im, y_im) += corr_factor * at(window, x_win, y_win);
-- 
2.43.0


From abdcaabceba27929a97c345c4517606eaf258fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 80/88] fix: a PSFEx group number that is not positive
 overflowed

---
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index dff0ece..c153ae2 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -76,6 +76,9 @@ static std::shared_ptr<VariablePsf> readPsfEx(std::unique_ptr<CCfits::FITS> &pFi
       psf_data.readKey("POLSCAL" + index_str, components[i].scale);
 
       // Groups in the FITS file are indexed starting at 1, but we use a zero-based index
+      if (components[i].group_id < 1) {
+        throw Elements::Exception() << "Invalid group " << components[i].group_id << " for the component " << components[i].name;
+      }
       --components[i].group_id;
     }
 
-- 
2.43.0


From 40854cc9e4b2bd7955c6ec6ce56210c7c390833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 81/88] fix: assoc column numbers that are not positive
 overflowed

---
 .../src/lib/Plugin/AssocMode/AssocModeConfig.cpp     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index e66ec68..a299b84 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -101,7 +101,11 @@ std::vector<int> parseColumnList(const std::string& arg) {
       std::vector<int> column_list;
       for (auto& part : parts) {
         // the input is a 1-based index, the internal index is 0-based
-        column_list.emplace_back(boost::lexical_cast<int>(part)-1);
+        int column = boost::lexical_cast<int>(part);
+        if (column < 1) {
+          throw Elements::Exception() << "Invalid column number " << column;
+        }
+        column_list.emplace_back(column - 1);
       }
       return column_list;
     } catch(...) {
@@ -225,8 +229,8 @@ void AssocModeConfig::readConfigFromParams(const UserValues& args) {
   m_columns =  parseColumnList(args.at(ASSOC_COLUMNS).as<std::string>());
   m_columns_idx = parseColumnList(args.at(ASSOC_COPY).as<std::string>());
 
-  m_pixel_width_column = args.at(ASSOC_SOURCE_SIZES).as<int>() - 1; // config uses 1 as first column
-  m_pixel_height_column = args.at(ASSOC_SOURCE_SIZES).as<int>() - 1; // config uses 1 as first column
+  m_pixel_width_column = std::max(args.at(ASSOC_SOURCE_SIZES).as<int>(), 0) - 1; // config uses 1 as first column
+  m_pixel_height_column = m_pixel_width_column;
 
   if (args.find(ASSOC_SOURCE_HALF_WIDTHS) != args.end() && args.at(ASSOC_SOURCE_HALF_WIDTHS).as<int>() > 0) {
     m_pixel_width_column = args.at(ASSOC_SOURCE_HALF_WIDTHS).as<int>() - 1; // config uses 1 as first column
@@ -235,7 +239,7 @@ void AssocModeConfig::readConfigFromParams(const UserValues& args) {
     m_pixel_height_column = args.at(ASSOC_SOURCE_HALF_HEIGHTS).as<int>() - 1; // config uses 1 as first column
   }
 
-  m_group_id_column = args.at(ASSOC_GROUP_ID).as<int>() - 1; // config uses 1 as first column
+  m_group_id_column = std::max(args.at(ASSOC_GROUP_ID).as<int>(), 0) - 1; // config uses 1 as first column
 
   m_assoc_coord_type = getCoordinateType(args);
 }
-- 
2.43.0


From 2f0a46fbe25ea3d98216953cef103b063c5f97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 82/88] fix: inverting an ill-conditioned jacobian aborted

---
 SEUtils/SEUtils/Mat22.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/SEUtils/SEUtils/Mat22.h b/SEUtils/SEUtils/Mat22.h
index 793c39f..6a0e9ef 100644
--- a/SEUtils/SEUtils/Mat22.h
+++ b/SEUtils/SEUtils/Mat22.h
@@ -9,7 +9,8 @@
 #define _SEUTILS_MAT22_H_
 
 #include <tuple>
-#include <assert.h>
+#include <cmath>
+#include <stdexcept>
 
 namespace SExtractor {
 
@@ -58,15 +59,15 @@ public:
   Mat22 GetInverse() const {
     Mat22 out;
 
-    double inv_det = 1.  / (m_mat[0] * m_mat[3] - m_mat[2] * m_mat[1]);
+    double det = m_mat[0] * m_mat[3] - m_mat[2] * m_mat[1];
+    if (!(std::abs(det) > 0)) {
+      throw std::domain_error("A singular matrix has no inverse");
+    }
+
+    double inv_det = 1.  / det;
     out[0] = m_mat[3] * inv_det; out[1] = -m_mat[1] * inv_det;
     out[2] = -m_mat[2] * inv_det; out[3] = m_mat[0] * inv_det;
 
-    assert(m_mat[0] * out[0] + m_mat[1] * out[2] >= 1 - 1e-8);
-    assert(m_mat[0] * out[1] + m_mat[1] * out[3] <= 1e-8);
-    assert(m_mat[2] * out[0] + m_mat[3] * out[2] <= 1e-8);
-    assert(m_mat[2] * out[1] + m_mat[3] * out[3] >= 1 - 1e-8);
-
     return out;
   }
 
-- 
2.43.0


From 1b7b076ec994d6818c4ca435027e785bcd96c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 83/88] fix: a vignet size of zero or of too many pixels
 aborted

---
 SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp
index 4112730..b7538ee 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetConfig.cpp
@@ -19,6 +19,7 @@
  * @author mkuemmel
  */
 
+#include <limits>
 #include <AlexandriaKernel/StringUtils.h>
 #include "SEFramework/Image/ProcessedImage.h"
 #include "SEImplementation/Plugin/Vignet/VignetConfig.h"
@@ -56,9 +57,12 @@ void VignetConfig::initialize(const UserValues& args) {
     }
     m_vignet_size[0] = vignet_vector.front();
     m_vignet_size[1] = vignet_vector.back();
-    if (m_vignet_size[0] < 0 || m_vignet_size[1] < 0) {
+    if (m_vignet_size[0] <= 0 || m_vignet_size[1] <= 0) {
       throw Elements::Exception() << VIGNET_SIZE << " only accept positive numbers";
     }
+    if (m_vignet_size[0] > std::numeric_limits<int>::max() / m_vignet_size[1]) {
+      throw Elements::Exception() << VIGNET_SIZE << " is too big: " << vignet_str;
+    }
   }
   if (args.find(VIGNET_DEFAULT_PIXVAL) != args.end()) {
     m_vignet_default_pixval = args.find(VIGNET_DEFAULT_PIXVAL)->second.as<double>();
-- 
2.43.0


From e1157e0f6fd3baa2721c2001ba80a1fdcdc351a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 84/88] fix: sampling scale factors that are not positive or
 huge aborted

---
 SEImplementation/src/lib/Configuration/SamplingConfig.cpp | 4 ++++
 SEImplementation/src/lib/Image/DownSampledImagePsf.cpp    | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Configuration/SamplingConfig.cpp b/SEImplementation/src/lib/Configuration/SamplingConfig.cpp
index ba7d0e4..dad8d19 100644
--- a/SEImplementation/src/lib/Configuration/SamplingConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/SamplingConfig.cpp
@@ -16,6 +16,7 @@
  */
 
 #include <boost/algorithm/string.hpp>
+#include <ElementsKernel/Exception.h>
 
 #include "SEImplementation/Configuration/SamplingConfig.h"
 
@@ -50,6 +51,9 @@ void SamplingConfig::preInitialize(const UserValues& ) {
 void SamplingConfig::initialize(const UserValues& args) {
 //  m_adaptive_target = args.at(SAMPLING_ADAPTIVE_TARGET).as<double>();
   m_scale_factor = args.at(SAMPLING_SCALE_FACTOR).as<double>();
+  if (!(m_scale_factor > 0)) {
+    throw Elements::Exception() << SAMPLING_SCALE_FACTOR << " must be positive: " << m_scale_factor;
+  }
   m_max_fit_size = args.at(SAMPLING_MAX_FIT_SIZE).as<size_t>();
 }
 
diff --git a/SEImplementation/src/lib/Image/DownSampledImagePsf.cpp b/SEImplementation/src/lib/Image/DownSampledImagePsf.cpp
index 7656410..f3bb094 100644
--- a/SEImplementation/src/lib/Image/DownSampledImagePsf.cpp
+++ b/SEImplementation/src/lib/Image/DownSampledImagePsf.cpp
@@ -21,6 +21,7 @@
  *      Author: mschefer
  */
 
+#include <limits>
 #include <numeric>
 #include <iostream>
 
@@ -45,7 +46,12 @@ DownSampledImagePsf::DownSampledImagePsf(
     }
 
     if (down_scaling != 1.0) {
-      int new_size = image->getWidth() * down_scaling;
+      double scaled_size = image->getWidth() * down_scaling;
+      if (!(scaled_size >= 0 && scaled_size * scaled_size < std::numeric_limits<int>::max())) {
+        throw Elements::Exception() << "A PSF kernel of " << image->getWidth() << " pixels can not be scaled by "
+                                    << down_scaling;
+      }
+      int new_size = scaled_size;
       new_size += (new_size % 2 == 0) ? 1 : 0;
 
       auto new_image = Traits::factory(new_size, new_size);
-- 
2.43.0


From 3ef237c607c7f58e5dda9f09131e8de1f03b9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 85/88] fix: PSF models with a constant first group had wrong
 exponents, and huge or negative degrees overflowed

---
 SEFramework/src/lib/Psf/VariablePsf.cpp | 29 +++++++++++++------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/SEFramework/src/lib/Psf/VariablePsf.cpp b/SEFramework/src/lib/Psf/VariablePsf.cpp
index 13f74bd..c5c2ea5 100644
--- a/SEFramework/src/lib/Psf/VariablePsf.cpp
+++ b/SEFramework/src/lib/Psf/VariablePsf.cpp
@@ -23,6 +23,7 @@
 
 #include <ElementsKernel/Exception.h>
 #include <algorithm>
+#include <cmath>
 #include "SEFramework/Psf/VariablePsf.h"
 
 
@@ -105,16 +106,18 @@ void VariablePsf::selfTest() {
   }
 
   // Pre-condition: There are enough coefficients - (n+d)!/(n!d!) per group
-  unsigned int n_coefficients = 1;
+  double n_coefficients = 1;
   for (unsigned int g = 0; g < n_component_per_group.size(); ++g) {
-    int dmax = m_group_degrees[g];
-    int n = n_component_per_group[g];
-    int d = std::min<int>(dmax, n);
-    int num, den;
-
-    for (num = 1, den = 1; d > 0; num *= (n+dmax--), den*= d--);
+    double n = n_component_per_group[g], d = m_group_degrees[g];
+    if (d < 0) {
+      throw Elements::Exception() << "The degree of a component group can not be negative";
+    }
 
-    n_coefficients *= num / den;
+    double n_group = 1;
+    for (int i = 1; i <= std::min(n, d); ++i) {
+      n_group = std::round(n_group * (n + d - i + 1) / i);
+    }
+    n_coefficients *= n_group;
   }
 
   if (n_coefficients != m_coefficients.size()) {
@@ -156,16 +159,12 @@ void VariablePsf::calculateExponents() {
   }
 
   // Constant
-  m_exponents[0].resize(m_components.size());
-  --group_exponents[m_components[0].group_id];
+  m_exponents[0] = exp;
 
   // Polynomial
-  exp[0] = 1;
   for (auto e = m_exponents.begin() + 1; e != m_exponents.end(); ++e) {
-    *e = exp;
-
     size_t ei = 0;
-    for (auto component : m_components) {
+    for (auto& component : m_components) {
       if (group_exponents[component.group_id] > 0) {
         --group_exponents[component.group_id];
         ++exp[ei];
@@ -176,6 +175,8 @@ void VariablePsf::calculateExponents() {
         exp[ei++] = 0;
       }
     }
+
+    *e = exp;
   }
 }
 
-- 
2.43.0


From 7c2e336f6054be08dc40ca3462dafd016fa8bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 86/88] fix: drawing a PSF smaller than the resolution of its
 position aborted

---
 .../SEImplementation/Image/WriteableImageInterfaceTraits.h     | 3 +++
 SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
index f6674e0..2b14b42 100644
--- a/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
+++ b/SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h
@@ -248,6 +248,9 @@ inline void ImageTraits<WriteableInterfaceTypePtr>::addImageToImage(WriteableInt
   int y_min = std::max(std::floor(y - scaled_height / 2.), 0.);
   int y_max = std::min<double>(std::ceil(y + scaled_height / 2.), height(image1));
   int window_height = y_max - y_min;
+  if (window_width <= 0 || window_height <= 0) {
+    return;
+  }
   // Calculate the shift of the image2 inside the window
   double x_shift = x - scaled_width / 2. - x_min;
   double y_shift = y - scaled_height / 2. - y_min;
diff --git a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
index 3d2347b..1aba81b 100644
--- a/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
+++ b/SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp
@@ -338,6 +338,9 @@ void ModelFitting::ImageTraits<ImageInterfaceTypePtr>::addImageToImage(
   int y_min = std::max(std::floor(y - scaled_height / 2.), 0.);
   int y_max = std::min<double>(std::ceil(y + scaled_height / 2.), height(target_image));
   int window_height = y_max - y_min;
+  if (window_width <= 0 || window_height <= 0) {
+    return;
+  }
   // Calculate the shift of the image2 inside the window
   double x_shift = x - scaled_width / 2. - x_min;
   double y_shift = y - scaled_height / 2. - y_min;
-- 
2.43.0


From 55c0be752cfe74b0f61dc24b74417205888e6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 87/88] fix: PSF stacks without positions, with positions that
 are not numbers or with a negative stamp size aborted

---
 SEFramework/src/lib/Psf/VariablePsfStack.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Psf/VariablePsfStack.cpp b/SEFramework/src/lib/Psf/VariablePsfStack.cpp
index 2276e55..af5bd00 100644
--- a/SEFramework/src/lib/Psf/VariablePsfStack.cpp
+++ b/SEFramework/src/lib/Psf/VariablePsfStack.cpp
@@ -21,6 +21,7 @@
  *      Author: Martin Kuemmel
  */
 #include <algorithm>
+#include <cmath>
 #include <ElementsKernel/Logging.h>
 #include <ElementsKernel/Exception.h>
 #include "SEFramework/Psf/VariablePsfStack.h"
@@ -58,7 +59,7 @@ void VariablePsfStack::setup(std::shared_ptr<CCfits::FITS> pFits) {
     m_grid_offset = m_psf_size / 2;  // this is for CCfits where indices start with 1!
 
     // make sure the PSF size is odd
-    if (m_psf_size % 2 == 0) {
+    if (m_psf_size < 1 || m_psf_size % 2 == 0) {
       throw Elements::Exception() << "PSF kernel must have odd size, but has: " << m_psf_size;
     }
 
@@ -94,6 +95,15 @@ void VariablePsfStack::setup(std::shared_ptr<CCfits::FITS> pFits) {
 void VariablePsfStack::selfTest() {
   int naxis1, naxis2;
 
+  if (m_gridx_values.empty() || m_gridy_values.empty()) {
+    throw Elements::Exception() << "The PSF stack has no positions";
+  }
+  for (auto values : {&m_gridx_values, &m_gridy_values}) {
+    if (std::any_of(values->begin(), values->end(), [](double value) { return !std::isfinite(value); })) {
+      throw Elements::Exception() << "The PSF stack has grid positions that are not finite";
+    }
+  }
+
   // read in the min/max grid values in x/y
   const auto x_grid_minmax = std::minmax_element(begin(m_gridx_values), end(m_gridx_values));
   const auto y_grid_minmax = std::minmax_element(begin(m_gridy_values), end(m_gridy_values));
-- 
2.43.0


From b25b5f6200c5b9e14a4f748da25a7ca2cd7db6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 88/88] fix: images with a size of zero or too big for an
 integer aborted

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index a7424df..7bd1005 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -35,6 +35,7 @@
 #include <boost/regex.hpp>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <numeric>
 #include <string>
 
@@ -113,6 +114,13 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
         << " status: " << status << " = " << error_message;
   }
 
+  for (long size : naxes) {
+    if (size < 1 || size > std::numeric_limits<int>::max()) {
+      throw Elements::Exception() << "Unsupported image size in FITS file: " << filename << "[" << m_hdu_number << "]: "
+                                  << naxes[0] << "x" << naxes[1];
+    }
+  }
+
   m_width = naxes[0];
   m_height = naxes[1];
   m_depth = naxis >= 3 ? naxes[2] : 1;
-- 
2.43.0


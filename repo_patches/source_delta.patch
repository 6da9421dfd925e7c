From 51ac6f65350b8753e462a173a7fad92273b0118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 01/37] fix: classify groups of elements without trimmed
 neighbours by a point query

A body that fills the whole background grid (its boundary coincides with the
grid's) has no trimmed elements: the vote of the flood fill is empty and all
elements were marked as outside.
---
 queso/embedding/flood_fill.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..d89fecd 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -108,7 +108,13 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     // Mark states
     for( auto& r_group : rGroupsOutput ){
         int inside_count = std::get<2>(r_group);
-        auto state = (inside_count > 0) ? IntersectionState::inside : IntersectionState::outside;
+        bool is_inside = inside_count > 0;
+        if( inside_count == 0 ) {
+            // No vote, e.g. because the group does not border any trimmed element. All elements of the group are on the same side.
+            const auto box = mGridIndexer.GetBoundingBoxXYZFromIndex( *std::get<1>(r_group).begin() );
+            is_inside = mpBrepOperator->IsInside( 0.5 * (box.lower + box.upper) );
+        }
+        auto state = is_inside ? IntersectionState::inside : IntersectionState::outside;
         for( auto group_it = std::get<1>(r_group).begin(); group_it !=  std::get<1>(r_group).end(); ++group_it){
             states[*group_it] = state;
         }
-- 
2.43.0


From 4ef279c6305cda690cf7acbacf76ae2c8384ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 02/37] fix: solve the moment fitting equation also for a zero
 target residual

With moment_fitting_residual <= 0 the point elimination loop was never entered
(MIND is the smallest positive double): the unfitted octree points of all
iterations were accumulated and returned as a converged rule.
---
 queso/quadrature/trimmed_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..5354ce2 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -401,7 +401,7 @@ protected:
         const IndexType min_number_of_points = order_u * order_v * order_w;
 
         const double targeted_residual = Residual;
-        double global_residual = MIND;
+        double global_residual = LOWESTD;
         double prev_residual = 0.0;
         const SizeType maximum_iteration = 1000UL;
         SizeType number_iterations = 0UL;
-- 
2.43.0


From f3b1ceb386506cd1f2efddf5ce2a8ecdca6902f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 03/37] fix: refuse 1D quadrature rules that are not tabulated

---
 .../integration_points_factory_1d.cpp           | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp b/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
index 6774502..0f87882 100644
--- a/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
+++ b/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
@@ -27,6 +27,10 @@ typedef IntegrationPointFactory1D::Ip1DVectorPtrType Ip1DVectorPtrType;
 
 // Public member functions
 Ip1DVectorPtrType IntegrationPointFactory1D::GetGGQ(SizeType PolynomialDegree, SizeType NumberKnotSpans, IntegrationMethodType Method ){
+    QuESo_ERROR_IF(PolynomialDegree < 2 || PolynomialDegree > 4)
+        << "Generalized Gauss Quadrature (GGQ) rules are only available for 2 <= p <= 4.\n";
+    QuESo_ERROR_IF(NumberKnotSpans < 1) << "The number of knot spans must be positive.\n";
+
     const double a = 0.0;
     const double b = 1.0;
 
@@ -123,17 +127,24 @@ Ip1DVectorPtrType IntegrationPointFactory1D::GetGGQ(SizeType PolynomialDegree, S
 }
 
 const Ip1DVectorType& IntegrationPointFactory1D::GetGauss( SizeType PolynomialDegree, IntegrationMethodType Method ){
+    SizeType reduction = 0;
     switch(Method)
     {
         case IntegrationMethod::gauss:
-            return mGaussLegendrePoints[PolynomialDegree];
+            reduction = 0;
+            break;
         case IntegrationMethod::gauss_reduced_1:
-            return mGaussLegendrePoints[PolynomialDegree-1];
+            reduction = 1;
+            break;
         case IntegrationMethod::gauss_reduced_2:
-            return mGaussLegendrePoints[PolynomialDegree-2];
+            reduction = 2;
+            break;
         default:
             QuESo_ERROR << "Method not available\n";
     }
+    QuESo_ERROR_IF(PolynomialDegree < reduction || PolynomialDegree - reduction >= mGaussLegendrePoints.size())
+        << "Gauss rule for polynomial degree " << PolynomialDegree << " is not available.\n";
+    return mGaussLegendrePoints[PolynomialDegree - reduction];
 }
 
 const std::pair<SizeType, SizeType> IntegrationPointFactory1D::GetSpaceDimension(SizeType PolynomialDegre, IntegrationMethodType Method ){
-- 
2.43.0


From 773b81c5dc1d31cd8f082c1aa84458dafc35b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 04/37] fix: do not bundle elements across the end of a row in
 GGQ rules

---
 queso/quadrature/multiple_elements.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..ae9ad61 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,6 +306,10 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
+        // At the end of a row/column, the indexer continues with the next row/column, which is not a neighbor.
+        if( rElements.IsEnd(CurrentId, Dir) ) {
+            return nullptr;
+        }
         return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
     }
 
-- 
2.43.0


From 34091e7f2bb915e7171101db7df183fd9b88b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 05/37] fix: raise the duplicate element error outside of the
 critical section

---
 queso/containers/background_grid.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..f677379 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,9 +327,11 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        bool already_exists = false;// An exception must not leave the critical section.
 #pragma omp critical
-        {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
+        if (mElementIdMap.contains(Id)) {
+            already_exists = true;
+        } else {
             const auto location = [&]() {
                 if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
                     const IndexType index = mTrimmedElements.size();
@@ -348,6 +350,7 @@ public:
             }();
             mElementIdMap.emplace(Id, location);
         }
+        QuESo_ERROR_IF(already_exists) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From 8ca17cbef8e5fc45cf60a0bd5766356eea84e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 06/37] fix: refuse settings with empty grids, inverted bounds,
 or unavailable orders

---
 queso/utilities/check_dictionary_utilities.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index 3e8eca2..1451f4a 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -36,6 +36,7 @@ namespace CheckDictionaryUtilities {
         const IndexType min_order =  Math::Min( order );
         const IndexType max_order =  Math::Max( order );
         QuESo_ERROR_IF(min_order < 1) << "Invalid Input. The polynomial order must be p > 0. \n";
+        QuESo_ERROR_IF(max_order > 8) << "Invalid Input. Quadrature rules are only available for polynomial orders p <= 8. \n";
         QuESo_INFO_IF(max_order > 4) << "Warning :: QuESo is designed to construct efficient quadrature rules for 1 <= p <= 4. "
             << "For higher polynomial degrees, the process might become slow. It is recommended to use quadratic bases. Generally, they offer the best performance and accuracy.\n";
 
@@ -47,9 +48,22 @@ namespace CheckDictionaryUtilities {
 
         // Check 'number_of_elements' related settings.
         const Vector3i num_elements = rSettings[MainSettings::background_grid_settings].GetRequiredValue<Vector3i>(BackgroundGridSettings::number_of_elements);
+        QuESo_ERROR_IF(Math::Min( num_elements ) < 1) << "Invalid Input. The number of elements must be at least one in each direction. \n";
         const IndexType tot_num_elements = num_elements[0]*num_elements[1]*num_elements[2];
         QuESo_INFO_IF( tot_num_elements < 2 && echo_level > 0 ) << "You are using only one single element.\n";
 
+        // Check bounds of the background grid.
+        const auto& r_grid_settings = rSettings[MainSettings::background_grid_settings];
+        const auto is_valid_box = [](const PointType& rLower, const PointType& rUpper) {
+            return rLower[0] < rUpper[0] && rLower[1] < rUpper[1] && rLower[2] < rUpper[2];
+        };
+        QuESo_ERROR_IF( !is_valid_box( r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_xyz),
+                                       r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_xyz) ) )
+            << "Invalid Input. 'lower_bound_xyz' must be smaller than 'upper_bound_xyz' in each direction. \n";
+        QuESo_ERROR_IF( !is_valid_box( r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_uvw),
+                                       r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_uvw) ) )
+            << "Invalid Input. 'lower_bound_uvw' must be smaller than 'upper_bound_uvw' in each direction. \n";
+
         const IntegrationMethod integration_method = rSettings[MainSettings::non_trimmed_quadrature_rule_settings]
             .GetRequiredValue<IntegrationMethod>(NonTrimmedQuadratureRuleSettings::integration_method);
 
-- 
2.43.0


From 8d960301a16707fdb0846ded0b77b50778c2402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 07/37] fix: do not evaluate ray coordinates that are undefined
 for parallel triangles

---
 queso/embedding/geometry_query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/geometry_query.cpp b/queso/embedding/geometry_query.cpp
index bddc9a0..bbb3020 100644
--- a/queso/embedding/geometry_query.cpp
+++ b/queso/embedding/geometry_query.cpp
@@ -119,6 +119,10 @@ namespace queso {
             // Test for actual intersection, if area is area is not zero.
             if( TriangleUtilities::Area(tri) > 100.0*ZEROTOL
                     && rRay.intersect(tri.P1, tri.P2, tri.P3, t, u, v, back_facing, parallel) ) {
+                if( parallel ){ // Triangle is parallel to ray. Note that t, u, and v are not computed in this case.
+                    final_result = std::make_pair(false, false);
+                    return TriangleMeshView::VisitToken::stop_loop;
+                }
                 intersection_count++;
                 const double sum_u_v = u+v;
                 if( t < ZEROTOL ){ // Origin lies on boundary
@@ -130,10 +134,6 @@ namespace queso {
                     final_result = std::make_pair(false, false);
                     return TriangleMeshView::VisitToken::stop_loop;
                 }
-                if( parallel ){ // Triangle is parallel to ray.
-                    final_result = std::make_pair(false, false);
-                    return TriangleMeshView::VisitToken::stop_loop;
-                }
             }
             return TriangleMeshView::VisitToken::continue_loop;
         });
-- 
2.43.0


From 7495273fbeda8dfdb5769abb32118bc6128ffd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 08/37] fix: scale the tolerances of the unique clipping with
 the coordinates

---
 queso/embedding/brep_operator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 552d9a6..34b798f 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -242,10 +242,13 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 
 
 ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
-    const PointType offset{30*ZEROTOL, 30*ZEROTOL, 30*ZEROTOL};
+    // The tolerances must be significant compared to the round-off errors of the given coordinates.
+    const double magnitude = std::max(std::max(1.0, Math::Norm(rLowerBound)), Math::Norm(rUpperBound));
+    const double offset_value = 30*ZEROTOL*magnitude;
+    const PointType offset{offset_value, offset_value, offset_value};
     const auto lower_bound = rLowerBound + offset;
     const auto upper_bound = rUpperBound + offset;
-    double snap_tolerance = 1.0*ZEROTOL;
+    double snap_tolerance = 1.0*ZEROTOL*magnitude;
 
     const auto intersected_triangle_ids = mGeometryQuery.GetIntersectedTriangleIds(lower_bound, upper_bound, snap_tolerance);
     ClippedTriangleMesh clipped_mesh{};
-- 
2.43.0


From 38c648fb51bda4052f5b8b7154e7f1c62e12b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 09/37] fix: keep condition surfaces that lie on the lower
 bound of the grid

---
 queso/embedded_model.cpp          | 8 +++++++-
 queso/embedding/brep_operator.cpp | 8 ++++++--
 queso/embedding/brep_operator.h   | 5 ++++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..e1f9853 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -240,7 +240,13 @@ void EmbeddedModel::ComputeCondition(
         const auto index = static_cast<IndexType>(for_index);
         // Clip embedded geoemetry with the current element (bounding box).
         const auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
-        auto new_mesh = brep_operator.ClipTriangleMeshUnique(bounding_box_xyz.lower, bounding_box_xyz.upper);
+        // Triangles on the lower bound of the grid are assigned to the first elements.
+        const auto grid_indices = mGridIndexer.GetMatrixIndicesFromVectorIndex(index);
+        auto new_mesh = brep_operator.ClipTriangleMeshUnique(
+            bounding_box_xyz.lower,
+            bounding_box_xyz.upper,
+            { grid_indices[0] == 0, grid_indices[1] == 0, grid_indices[2] == 0 }
+        );
 
         if (new_mesh.NumOfTriangles() > 0) {
             const auto p_el = mBackgroundGrid.GetElementView(index + 1);
diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 34b798f..d9d0fd4 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -241,12 +241,16 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 }
 
 
-ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
+ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(
+        PointView rLowerBound, PointView rUpperBound, const std::array<bool, 3>& rKeepOnNegativePlanes ) const {
     // The tolerances must be significant compared to the round-off errors of the given coordinates.
     const double magnitude = std::max(std::max(1.0, Math::Norm(rLowerBound)), Math::Norm(rUpperBound));
     const double offset_value = 30*ZEROTOL*magnitude;
     const PointType offset{offset_value, offset_value, offset_value};
-    const auto lower_bound = rLowerBound + offset;
+    auto lower_bound = rLowerBound + offset;
+    for( IndexType i = 0; i < 3; ++i ){
+        if( rKeepOnNegativePlanes[i] ){ lower_bound[i] = rLowerBound[i] - offset_value; }
+    }
     const auto upper_bound = rUpperBound + offset;
     double snap_tolerance = 1.0*ZEROTOL*magnitude;
 
diff --git a/queso/embedding/brep_operator.h b/queso/embedding/brep_operator.h
index 4bd7e74..592008f 100644
--- a/queso/embedding/brep_operator.h
+++ b/queso/embedding/brep_operator.h
@@ -142,8 +142,11 @@ public:
     ///@see ClipTriangleMesh()
     ///@param rLowerBound Lower bound of AABB.
     ///@param rUpperBound Upper bound of AABB.
+    ///@param rKeepOnNegativePlanes If true, triangles on the respective negative plane (-x, -y, -z) are kept as well.
+    ///                             Must be used for AABB's, which do not have a neighbour beyond this plane.
     ///@return ClippedTriangleMesh. Clipped mesh.
-    ClippedTriangleMesh ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const;
+    ClippedTriangleMesh ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound,
+        const std::array<bool, 3>& rKeepOnNegativePlanes = {false, false, false} ) const;
     ///@}
 
 private:
-- 
2.43.0


From 6fe758b7469c08d7bdbc289ad7e92ed4a3c8a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 10/37] fix: do not access the geometric operator after trimmed
 domains are constructed

---
 queso/embedding/trimmed_domain.cpp | 6 +++++-
 queso/embedding/trimmed_domain.h   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/trimmed_domain.cpp b/queso/embedding/trimmed_domain.cpp
index 221494a..a35029d 100644
--- a/queso/embedding/trimmed_domain.cpp
+++ b/queso/embedding/trimmed_domain.cpp
@@ -28,7 +28,11 @@ bool TrimmedDomain::IsInsideTrimmedDomain(const PointType& rPoint) const {
     if( success ){
         return val;
     }
-    return mpBrepOperatorGlobal->IsInside(rPoint); // This test is more costly, but also more precise.
+    // This test is more costly, but also more precise.
+    if( mpBrepOperatorGlobal ){
+        return mpBrepOperatorGlobal->IsInside(rPoint);
+    }
+    return BRepOperator(mClosedMesh.View()).IsInside(rPoint);
 }
 
 bool TrimmedDomain::IsInsideTrimmedDomain(const PointType& rPoint, bool& rSuccess) const {
diff --git a/queso/embedding/trimmed_domain.h b/queso/embedding/trimmed_domain.h
index 25b0412..6e25662 100644
--- a/queso/embedding/trimmed_domain.h
+++ b/queso/embedding/trimmed_domain.h
@@ -51,7 +51,7 @@ public:
     /// @param rLowerBound Lower bound of the enclosing AABB.
     /// @param rUpperBound Upper bound of the enclosing AABB.
     /// @param pOperator Pointer to the BRepOperator used as a fallback for IsInside() queries if
-    ///                  IsInsideTrimmedDomain() is inconclusive.
+    ///                  IsInsideTrimmedDomain() is inconclusive during construction. Is not accessed afterwards.
     /// @param MinNumberOfTriangles Minimum number of triangles used to discretize the boundary of this trimmed domain.
     /// @param SwitchPlaneOrientation If true, the orientation of edges on TrimmedDomainOnPlane is switched.
     TrimmedDomain(
@@ -107,6 +107,9 @@ public:
 
             MeshUtilities::Refine(mClosedMesh, MinNumberOfTriangles);
         }
+
+        // This trimmed domain may outlive pOperator. From now on, the closed mesh is used as fallback.
+        mpBrepOperatorGlobal = nullptr;
     }
 
     /// Destructor
-- 
2.43.0


From 706c6747f8a6eca040d3a9ff0b5aa8157e5c69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 11/37] fix: keep global integration points valid after their
 element view is destroyed

---
 queso/containers/element_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queso/containers/element_view.hpp b/queso/containers/element_view.hpp
index 1a05559..9da8d45 100644
--- a/queso/containers/element_view.hpp
+++ b/queso/containers/element_view.hpp
@@ -98,9 +98,10 @@ public:
                 "Global integration-point access requires IntegrationPointType(PointType, double)."
             );
             const auto& r_core = mCore.get();
-            return r_core.integration_points | std::views::transform([this, &r_core](const auto& rPoint) {
+            // The returned range must remain valid, if this (lightweight) view is destroyed.
+            return r_core.integration_points | std::views::transform([det_j = mDetJ, &r_core](const auto& rPoint) {
                        return IntegrationPointType(
-                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * mDetJ
+                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * det_j
                        );
                    });
         }
-- 
2.43.0


From 51ba2f4a5d5dde491e4c40d420359db0c69ee375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 12/37] fix: append a triangle mesh to itself without reading
 freed memory

---
 queso/utilities/mesh_utilities.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/queso/utilities/mesh_utilities.cpp b/queso/utilities/mesh_utilities.cpp
index d6e65fb..28bb6fd 100644
--- a/queso/utilities/mesh_utilities.cpp
+++ b/queso/utilities/mesh_utilities.cpp
@@ -97,6 +97,13 @@ void Refine(TriangleMesh &rTriangleMesh, IndexType MinNumberOfTriangles)
 
 void Append(TriangleMesh &rTriangleMesh, const TriangleMesh &rNewMesh)
 {
+    if (&rTriangleMesh == &rNewMesh) {
+        // Appending grows the containers the source is read from.
+        const TriangleMesh copy = rNewMesh;
+        Append(rTriangleMesh, copy);
+        return;
+    }
+
     const IndexType initial_vertex_count = rTriangleMesh.NumOfVertices();
     const IndexType target_capacity = rTriangleMesh.NumOfTriangles() + rNewMesh.NumOfTriangles();
     rTriangleMesh.Reserve(target_capacity);
-- 
2.43.0


From 3d62eae7309240d3552d52125bdc2a9ea1f22402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 13/37] fix: let a single thread store the number of threads in
 flood fill

---
 queso/embedding/flood_fill.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index d89fecd..a241e4f 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -68,6 +68,7 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     std::vector<PartitionBoxType> partitions;
     IndexType num_threads = 1;
     #pragma omp parallel
+    #pragma omp single
     {
         num_threads = static_cast<IndexType>(omp_get_num_threads());
     }
-- 
2.43.0


From a0bf693e810018268eaf2dc8dcb883aa816f7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 14/37] fix: guard the lazily created boundary mesh of
 untrimmed elements

---
 queso/containers/cell_domain.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queso/containers/cell_domain.hpp b/queso/containers/cell_domain.hpp
index 5b34791..5f86ec0 100644
--- a/queso/containers/cell_domain.hpp
+++ b/queso/containers/cell_domain.hpp
@@ -15,6 +15,7 @@
 
 //// STL includes
 #include <algorithm>
+#include <mutex>
 #include <optional>
 
 //// Project includes
@@ -140,9 +141,12 @@ private:
     ///@{
 
     /// @brief Returns lazily initialized boundary mesh of the full cell.
+    /// @details Const elements may be queried concurrently, hence the initialization is guarded.
     /// @return const TriangleMesh&
     [[nodiscard]] const TriangleMesh& GetOrCreateBoundaryMesh(const ElementBounds& rBounds) const
     {
+        static std::mutex s_mutex;
+        const std::lock_guard<std::mutex> lock(s_mutex);
         if (!mBoundaryMesh) {
             const auto& r_bounds = rBounds.global;
             mBoundaryMesh.emplace(MeshUtilities::MakeMeshBox(r_bounds.lower, r_bounds.upper));
-- 
2.43.0


From 3c4b14901b01c8a0cb2262bd012b8d8eed04c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 15/37] fix: do not throw from the destructor of the binary
 writer

---
 queso/io/binary_buffer_writer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/io/binary_buffer_writer.hpp b/queso/io/binary_buffer_writer.hpp
index f160a0e..e2f3ab6 100644
--- a/queso/io/binary_buffer_writer.hpp
+++ b/queso/io/binary_buffer_writer.hpp
@@ -54,9 +54,12 @@ public:
     {
     }
 
-    /// Destructor
+    /// Destructor. Writes the remaining data, but never throws.
+    /// @note If writing fails, the file stream is left in a failed state.
     ~BinaryBufferWriter() {
-        Flush();
+        if (mBufferPos > 0) {
+            mOut.write(mBuffer.data(), static_cast<long int>(mBufferPos));
+        }
     }
 
     /// Delete copy and move operators.
-- 
2.43.0


From f33785519dd61778f301c7aafb0aa694f1c6c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 16/37] fix: refuse STL vertices without three finite
 coordinates

---
 queso/io/io_utilities.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..f8a1a18 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <cmath>
 #include <map>
 //// Project includes
 #include "queso/io/io_utilities.h"
@@ -248,8 +249,9 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 std::istringstream iss(line);
                 std::string word;
                 iss >> word; // "vertex"
-                float xf, yf, zf;
+                float xf{}, yf{}, zf{};
                 iss >> xf >> yf >> zf;
+                QuESo_ERROR_IF(!iss || word != "vertex") << "Expected 'vertex' with three coordinates but got: " << line << '.' << std::endl;
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
@@ -327,6 +329,8 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
             float coords[3];
             file.read(reinterpret_cast<char*>(coords), sizeof(coords));
             QuESo_ERROR_IF(!file) << "Couldn't read triangle vertex." << std::endl;
+            QuESo_ERROR_IF(!std::isfinite(coords[0]) || !std::isfinite(coords[1]) || !std::isfinite(coords[2]))
+                << "Coordinates of triangle vertex are not finite." << std::endl;
 
             Vector3d vertex = {static_cast<double>(coords[0]),
                                static_cast<double>(coords[1]),
-- 
2.43.0


From 1fcd7d5c32b44457ac0cdf7915ad934d6a01b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 17/37] fix: read all solids of an ASCII STL file, whatever
 their names

---
 queso/io/io_utilities.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index f8a1a18..6f9134a 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -223,17 +223,13 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
 
     std::string line;
 
-    // Skip lines until we hit the first "facet"
+    // Note: The file may contain several solids, and the names of solids may contain any keyword.
     while (std::getline(file, line)) {
-        if (line.find("facet") != std::string::npos) {
-            break; // We've found the start of the actual STL data
-        }
-    }
-    do {
-        if (line.find("endsolid") != std::string::npos) {
-            break;
-        }
-        if (line.find("facet") != std::string::npos) {
+        std::string keyword;
+        std::istringstream(line) >> keyword;
+        QuESo_ERROR_IF(keyword == "outer" || keyword == "vertex" || keyword == "endloop" || keyword == "endfacet")
+            << "Expected 'facet' but got: " << line << '.' << std::endl;
+        if (keyword == "facet") {
             std::getline(file, line); // Expect "outer loop"
             if (!file.good() || line.find("outer loop") == std::string::npos) {
                 QuESo_ERROR << "Expected 'outer loop' but got: " << line << '.' << std::endl;
@@ -283,7 +279,7 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 QuESo_ERROR << "Expected 'endfacet' but got: " << line << '.' << std::endl;
             }
         }
-    } while (std::getline(file, line));
+    }
 
     rTriangleMesh.Check();
 }
-- 
2.43.0


From 80e35bb8c72e783ee167171b37727ccc3f674e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 18/37] fix: escape text values in written JSON files

---
 queso/containers/data_set.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/queso/containers/data_set.hpp b/queso/containers/data_set.hpp
index 3e40f73..b7a0a60 100644
--- a/queso/containers/data_set.hpp
+++ b/queso/containers/data_set.hpp
@@ -95,7 +95,18 @@ public:
         void operator()(const Vector3i& rValue){mOstream << '[' << rValue[0] << ", " << rValue[1] << ", " << rValue[2] << ']';};
         void operator()(const IndexType& rValue){ mOstream << rValue;};
         void operator()(const double& rValue){mOstream << rValue;};
-        void operator()(const std::string& rValue){mOstream << '\"' << rValue << '\"';};
+        void operator()(const std::string& rValue){
+            // Escape characters that are not allowed in JSON strings.
+            constexpr char hex_digits[] = "0123456789abcdef";
+            mOstream << '\"';
+            for( const char c : rValue ) {
+                const auto code = static_cast<unsigned char>(c);
+                if( c == '\"' || c == '\\' ) { mOstream << '\\' << c; }
+                else if( code < 0x20 ) { mOstream << "\\u00" << hex_digits[code >> 4] << hex_digits[code & 0xF]; }
+                else { mOstream << c; }
+            }
+            mOstream << '\"';
+        };
         void operator()(const bool& rValue){std::string out = (rValue) ? "true" : "false"; mOstream << out; };
         void operator()(const IntegrationMethodType& rValue){ mOstream << '\"' << rValue << '\"'; };
         void operator()(const GridTypeType& rValue){ mOstream << '\"' << rValue << '\"'; };
-- 
2.43.0


From cf3171e423bdb9125413cc6e10f6f5f66ab2aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 19/37] fix: read settings files with an empty list of
 conditions

---
 queso/python/scripts/json_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index 05dd0e3..faf8fbb 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -78,7 +78,7 @@ class JsonIO():
             value (list): The list of values from JSON.
             queso_settings (QuESo.Dictionary): The settings object to modify.
         """
-        if( isinstance(value[0], dict) ):
+        if( not value or isinstance(value[0], dict) ):
             queso_list = queso_settings.GetList(string_key) # Just called to check key, and throw an error if necessary.
             cls._read_conditions_settings_list(value, queso_list)
         else:
-- 
2.43.0


From 616e1f20dee98a9ab56c27fd60fc3cef60a4e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 20/37] fix: refuse STL vertices with garbled coordinates

---
 queso/io/io_utilities.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 6f9134a..599092f 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <cctype>
 #include <cmath>
 #include <map>
 //// Project includes
@@ -245,12 +246,16 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 std::istringstream iss(line);
                 std::string word;
                 iss >> word; // "vertex"
-                float xf{}, yf{}, zf{};
-                iss >> xf >> yf >> zf;
-                QuESo_ERROR_IF(!iss || word != "vertex") << "Expected 'vertex' with three coordinates but got: " << line << '.' << std::endl;
-                PointType vertex = PointType{static_cast<double>(xf),
-                                             static_cast<double>(yf),
-                                             static_cast<double>(zf)};
+                PointType vertex{};
+                bool is_valid = (word == "vertex");
+                for (IndexType j = 0; is_valid && j < 3; ++j) {
+                    float coordinate{};
+                    // Each coordinate must be a complete word.
+                    is_valid = (iss >> coordinate) && (iss.eof() || std::isspace(iss.peek()));
+                    vertex[j] = static_cast<double>(coordinate);
+                }
+                QuESo_ERROR_IF(!is_valid || !(iss >> std::ws).eof())
+                    << "Expected 'vertex' with three coordinates but got: " << line << '.' << std::endl;
 
                 // Map is used to ensure unique vertices. Note that STL does not reuse vertices.
                 auto [it, inserted] = index_map.try_emplace(vertex, 0);
-- 
2.43.0


From 8b495fc4361b27e05eea1a617d0a72bc28444144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 21/37] fix: do not convert arbitrary python objects to bool in
 dictionaries

---
 queso/python/bindings/dictionary_binder_helper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queso/python/bindings/dictionary_binder_helper.hpp b/queso/python/bindings/dictionary_binder_helper.hpp
index aa8f2cf..5cd447e 100644
--- a/queso/python/bindings/dictionary_binder_helper.hpp
+++ b/queso/python/bindings/dictionary_binder_helper.hpp
@@ -49,8 +49,9 @@ void DictionaryBinderHelper(py::class_<TDictType, Unique<TDictType>>& binder) {
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, const Vector3i& rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
+    // Note: Without 'noconvert' any value without an exact match, e.g., None or a negative integer, is converted to bool.
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, bool rValue){
-        StringAccess::SetValue(rDictionary, rKeyName, rValue); });
+        StringAccess::SetValue(rDictionary, rKeyName, rValue); }, py::arg("key"), py::arg("value").noconvert());
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, double rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, IndexType rValue){
-- 
2.43.0


From ca49f0186d9ae4abb8f91576242a5b75f86cc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 22/37] fix: use the weight property in
 PyQuESo.GetIntegrationPoints

---
 queso/python/PyQuESo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2b1c58e..b05cdb3 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -91,7 +91,7 @@ class PyQuESo:
         for element in self.GetElements():
             if element.IsTrimmed():
                 for point_trimmed_reduced in element.GetIntegrationPoints():
-                    weight = point_trimmed_reduced.Weight()
+                    weight = point_trimmed_reduced.weight
                     if( weight > 0):
                         integration_points.append(point_trimmed_reduced)
             else:
-- 
2.43.0


From 737526f353f16427ba7c7ece6161514c362eeb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 23/37] fix: keep the model alive as long as its elements are
 used in python

---
 .../bindings/add_containers_to_python.cpp     | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 1eca5a2..5ca3b50 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -76,6 +76,22 @@ inline std::tuple<double, double, double> ToTuple3(const Vector3d &rV)
     return { rV[0], rV[1], rV[2] };
 }
 
+/// @brief Returns a list of all elements. Each element keeps its owner alive.
+/// @tparam TOwner (EmbeddedModel or BackgroundGrid).
+/// @param Owner
+/// @return py::list
+template<class TOwner>
+py::list GetElementList(const py::object& Owner)
+{
+    py::list elements;
+    for (const auto& r_view : Owner.cast<const TOwner&>().GetElementViews()) {
+        py::object element = py::cast(ElementViewType(r_view));
+        py::detail::keep_alive_impl(element, Owner);
+        elements.append(std::move(element));
+    }
+    return elements;
+}
+
 } // namespace
 
 using namespace pybind11::literals;
@@ -224,17 +240,7 @@ void AddContainersToPython(pybind11::module& m) {
 	using GridType = BackgroundGridType;
 	py::class_<GridType>(m, "BackgroundGrid")
 		.def(py::init<const GridType::MainDictionaryType&>())
-		.def(
-			"GetElements",
-			[](const GridType& rGrid) {
-				std::vector<ElementViewType> elements;
-				const auto views = rGrid.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			},
-			py::keep_alive<0, 1>()
-		)
+		.def("GetElements", &GetElementList<GridType>)
 		.def("NumberOfActiveElements", &GridType::NumberOfActiveElements)
 		.def("GetConditions", &GridType::GetConditions, py::return_value_policy::reference_internal)
 		.def("NumberOfConditions", &GridType::NumberOfConditions);
@@ -275,14 +281,7 @@ void AddContainersToPython(pybind11::module& m) {
             return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
         }))
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
-		.def("GetElements",
-			[](const EmbeddedModel& rEmbeddedModel) {
-				std::vector<ElementViewType> elements;
-				const auto views = rEmbeddedModel.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			})
+		.def("GetElements", &GetElementList<EmbeddedModel>)
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
         .def("GetSettings", &EmbeddedModel::GetSettings, py::return_value_policy::reference_internal)
         .def("GetModelInfo", static_cast<const EmbeddedModel::MainDictionaryType& (EmbeddedModel::*)() const>(&EmbeddedModel::GetModelInfo),
-- 
2.43.0


From af99bb5c01d0e66a3115249296610fd6bd6451b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 24/37] fix: let triangles own their data in python

---
 .../bindings/add_containers_to_python.cpp     | 46 +++++++++++++------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 5ca3b50..421c2bf 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -56,7 +56,23 @@ namespace py = pybind11;
 
 namespace {
 
-using PythonTriangleProxy = TriangleProxy<WithNormals>;
+/// Owns its data, such that triangles stay valid if the mesh is modified or destroyed.
+struct PythonTriangle {
+    explicit PythonTriangle(const TriangleProxy<WithNormals>& rTriangle)
+        : P1{rTriangle.P1[0], rTriangle.P1[1], rTriangle.P1[2]},
+          P2{rTriangle.P2[0], rTriangle.P2[1], rTriangle.P2[2]},
+          P3{rTriangle.P3[0], rTriangle.P3[1], rTriangle.P3[2]},
+          Normal{rTriangle.Normal[0], rTriangle.Normal[1], rTriangle.Normal[2]}
+    {
+    }
+
+    TriangleProxy<WithNormals> Proxy() const {
+        return { std::span<const double, 3>(P1.data(), 3), std::span<const double, 3>(P2.data(), 3),
+                 std::span<const double, 3>(P3.data(), 3), std::span<const double, 3>(Normal.data(), 3) };
+    }
+
+    Vector3d P1, P2, P3, Normal;
+};
 
 struct TriangleIteratorTag {};
 
@@ -103,7 +119,7 @@ void AddContainersToPython(pybind11::module& m) {
             if (self.mIndex >= self.mpMesh->NumOfTriangles()) {
                 throw py::stop_iteration();
             }
-            return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
+            return PythonTriangle(self.mpMesh->Triangle<WithNormals>(self.mIndex++));
         })
     ;
 
@@ -117,22 +133,22 @@ void AddContainersToPython(pybind11::module& m) {
         })
     ;
 
-    py::class_<PythonTriangleProxy>(m, "Triangle")
-        .def_property_readonly("p1", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P1[0], self.P1[1], self.P1[2]}); })
-        .def_property_readonly("p2", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P2[0], self.P2[1], self.P2[2]}); })
-        .def_property_readonly("p3", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P3[0], self.P3[1], self.P3[2]}); })
-        .def_property_readonly("normal", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.Normal[0], self.Normal[1], self.Normal[2]}); })
-        .def("Area", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::Area(self);
+    py::class_<PythonTriangle>(m, "Triangle")
+        .def_property_readonly("p1", [](const PythonTriangle &self){ return ToTuple3(self.P1); })
+        .def_property_readonly("p2", [](const PythonTriangle &self){ return ToTuple3(self.P2); })
+        .def_property_readonly("p3", [](const PythonTriangle &self){ return ToTuple3(self.P3); })
+        .def_property_readonly("normal", [](const PythonTriangle &self){ return ToTuple3(self.Normal); })
+        .def("Area", [](const PythonTriangle &self){
+            return TriangleUtilities::Area(self.Proxy());
         })
-        .def("Center", [](const PythonTriangleProxy &self){
-            return ToTuple3(TriangleUtilities::Center(self));
+        .def("Center", [](const PythonTriangle &self){
+            return ToTuple3(TriangleUtilities::Center(self.Proxy()));
         })
-        .def("AspectRatio", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::AspectRatio(self);
+        .def("AspectRatio", [](const PythonTriangle &self){
+            return TriangleUtilities::AspectRatio(self.Proxy());
         })
-        .def("GetIPsGlobal", [](const PythonTriangleProxy &self, IndexType Method){
-            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self, Method);
+        .def("GetIPsGlobal", [](const PythonTriangle &self, IndexType Method){
+            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self.Proxy(), Method);
         }, py::return_value_policy::move)
     ;
 
-- 
2.43.0


From 0ae626b467bf04f6e4b8adff7979ef92cc59f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 25/37] fix: keep the segments alive while they are iterated in
 python

---
 queso/python/bindings/add_containers_to_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 421c2bf..51b1b7f 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -273,7 +273,7 @@ void AddContainersToPython(pybind11::module& m) {
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     /// Export Condition
-- 
2.43.0


From dfd34bae3342623f07aa9ebc6009b2e247c4cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 26/37] fix: check indices that are passed from python

---
 queso/python/bindings/add_containers_to_python.cpp | 10 +++++++++-
 queso/python/bindings/add_dictionary_to_python.cpp |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 51b1b7f..f2d017f 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -230,6 +230,10 @@ void AddContainersToPython(pybind11::module& m) {
         .def("AddTriangle", [](TriangleMesh& self, const std::array<IndexType,3>& rTriangle){
             const Vector3i triangle_indices(rTriangle);
             const auto &vertices = self.Vertices();
+            for (const IndexType index : triangle_indices) {
+                if (index >= vertices.size())
+                    throw py::index_error();
+            }
             const TriangleProxy<WithoutNormals> triangle {
                 std::span<const double, 3>(vertices[triangle_indices[0]].data(), 3),
                 std::span<const double, 3>(vertices[triangle_indices[1]].data(), 3),
@@ -269,7 +273,11 @@ void AddContainersToPython(pybind11::module& m) {
     // Export ConditionSegment Vector
     py::class_<ConditionSegmentVectorType>(m, "ConditionSegmentVector")
         .def("__getitem__", [](const ConditionSegmentVectorType &self, const IndexType i)
-            { return &self[i]; }, py::return_value_policy::reference_internal)
+            {
+                if (i >= self.size())
+                    throw py::index_error();
+                return &self[i];
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index dd2d9a6..ec9895b 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -54,7 +54,11 @@ void AddDictionaryToPython(pybind11::module& m) {
     // Export vector
     py::class_<DictionaryVectorPtrType>(m, "DictionaryList")
         .def("__getitem__", [](DictionaryVectorPtrType &self, IndexType i)
-            { return &(*self[i]); }, py::return_value_policy::reference_internal)
+            {
+                if (i >= self.size())
+                    throw py::index_error();
+                return &(*self[i]);
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const DictionaryVectorPtrType &self) { return self.size(); })
         .def("__iter__", [](DictionaryVectorPtrType &self) {
             return py::make_iterator( dereference_iterator(self.begin()), dereference_iterator(self.end()) );
-- 
2.43.0


From 95f5d17823a2a859ddb079febb733af109eb057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 27/37] fix: keep dictionaries valid in python after their
 ownership was passed on

---
 queso/python/bindings/add_containers_to_python.cpp | 6 ++++--
 queso/python/bindings/add_dictionary_to_python.cpp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index f2d017f..b531c20 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -302,8 +302,10 @@ void AddContainersToPython(pybind11::module& m) {
     /// Export EmbeddedModel
     py::class_<EmbeddedModel>(m,"EmbeddedModel")
         .def(py::init([](MainDictionaryHolderType& rSettings) {
-            return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
-        }))
+            rSettings.GetObject(); // Throws if the settings have been released already.
+            // Note: The holder keeps the settings if they are refused.
+            return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(std::move(rSettings.mpData)));
+        }), py::keep_alive<2, 1>()) // References to the settings stay valid.
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
 		.def("GetElements", &GetElementList<EmbeddedModel>)
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index ec9895b..19b845c 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -65,7 +65,7 @@ void AddDictionaryToPython(pybind11::module& m) {
         }, py::keep_alive<0, 1>() )
         .def("append", [](DictionaryVectorPtrType& self, MainDictionaryHolderType& rDictionaryHolder){
             self.push_back(std::move(rDictionaryHolder.Release()));
-        } )
+        }, py::keep_alive<2, 1>() ) // References to the appended dictionary stay valid.
     ;
 
 } // End AddDictionaryToPython
-- 
2.43.0


From c918744e81ebba2e53913b779b7343a4ce03882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 28/37] fix: point-in-cell test aimed at slivers and returned
 the wrong side

---
 queso/embedding/trimmed_domain.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/trimmed_domain.cpp b/queso/embedding/trimmed_domain.cpp
index a35029d..38d0bcb 100644
--- a/queso/embedding/trimmed_domain.cpp
+++ b/queso/embedding/trimmed_domain.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <algorithm>
 
 //// Project includes
 #include "queso/includes/define.hpp"
@@ -67,7 +68,13 @@ bool TrimmedDomain::IsInsideTrimmedDomain(const PointType& rPoint, bool& rSucces
         // Get vertices of current triangle
         // Make sure target triangle is not parallel and has a significant area.
         const double area = TriangleUtilities::Area(triangle);
-        if( !ray.is_parallel(triangle.P1, triangle.P2, triangle.P3, 100.0*mSnapTolerance) && area >  100*ZEROTOL) {
+        // Slivers are no valid target. Due to the perturbation of the bounds (see: BRepOperator::pGetTrimmedDomain()),
+        // they may be as thin as the snap tolerance, and the position of the intersection would not be accurate.
+        const double max_edge = std::max({ Math::Norm(triangle.P2 - triangle.P1),
+                                           Math::Norm(triangle.P3 - triangle.P2),
+                                           Math::Norm(triangle.P1 - triangle.P3) });
+        const bool is_sliver = area < 1e5*mSnapTolerance*max_edge;
+        if( !ray.is_parallel(triangle.P1, triangle.P2, triangle.P3, 100.0*mSnapTolerance) && area >  100*ZEROTOL && !is_sliver ) {
             std::tie(is_inside, success_local) = mGeometryQuery.IsInside(ray);
         }
         current_id++;
-- 
2.43.0


From 895b38e7ea69282f0fcc6148fbc4b1249922a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 29/37] fix: query of an empty AABB tree read behind the nodes

---
 queso/embedding/aabb_tree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/aabb_tree.cpp b/queso/embedding/aabb_tree.cpp
index 52dcb03..c067648 100644
--- a/queso/embedding/aabb_tree.cpp
+++ b/queso/embedding/aabb_tree.cpp
@@ -45,12 +45,13 @@ std::vector<IndexType> AABB_tree::Query(const AABB_primitive_base& rAABB_primiti
         IndexType node = stack.back();
         stack.pop_back();
 
+        // The root of an empty tree is a null node.
+        if (node == NULL_NODE) continue;
+
         /// TODO: remove this copy (pass lower_bound and upper_bound to intersect())
         const auto& r_aabb_base = BaseTreeType::Nodes()[node].aabb_base;
         const AABB_primitive aabb{r_aabb_base.lowerBound, r_aabb_base.upperBound};
 
-        if (node == NULL_NODE) continue;
-
         // Test for overlap between the AABBs.
         if (rAABB_primitive.intersect(aabb) )
         {
-- 
2.43.0


From 6ab3b9abdf3908606b1f9ab49d659d4aba27bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 30/37] fix: point elimination erased an invalid range if a
 thin domain has fewer points than functions

---
 queso/quadrature/trimmed_element.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 5354ce2..b52f10b 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -423,11 +423,13 @@ protected:
                         return point_a.Weight() > point_b.Weight();
                     }
                 );
-                // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                // Only keep #number_of_functions integration points (very thin domains may contain less points).
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 8d1b3e20f352bbfc9e071d65cab25259f5b03361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 31/37] fix: refuse surface loads with a zero direction (the
 exception was created, not raised)

---
 kratos_interface/weak_bcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/weak_bcs.py b/kratos_interface/weak_bcs.py
index bc0b9eb..7f3ef50 100644
--- a/kratos_interface/weak_bcs.py
+++ b/kratos_interface/weak_bcs.py
@@ -215,7 +215,7 @@ class SurfaceLoad(WeakBcsBase):
         direction_array = np.array(direction)
         norm_direction = np.linalg.norm(direction_array)
         if norm_direction < 1e-10:
-            Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
+            raise Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
         normalized_direction = direction_array / norm_direction
         self.force = modulus * normalized_direction
 
-- 
2.43.0


From 546a6c04af3fbdd175a136a52cbd0099d36fc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 32/37] fix: name the unknown entity type when reading a
 triangle mesh from a model part (was a NameError)

---
 kratos_interface/model_part_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/model_part_utilities.py b/kratos_interface/model_part_utilities.py
index 4bac39d..d18911a 100644
--- a/kratos_interface/model_part_utilities.py
+++ b/kratos_interface/model_part_utilities.py
@@ -96,7 +96,7 @@ class ModelPartUtilities:
             entity_list = KratosModelPart.Conditions
         else:
             message = (
-                f"Given condition type '{type_name}' is not available. "
+                f"Given type '{type}' is not available. "
                 f"Available options are: 'Elements' and 'Conditions'.")
             raise Exception(message)
 
-- 
2.43.0


From 8dd4ca2ec17b1f0dfccd5ac75b1688e5e507339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 33/37] fix: GetAnalysis() reports that no Kratos analysis
 exists instead of an AttributeError

---
 queso/python/PyQuESo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index b05cdb3..e2d42c8 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -17,6 +17,7 @@ class PyQuESo:
         Args:
             json_filename (str): Path to the JSON configuration file.
         """
+        self.analysis = None
         self._settings_holder = JsonIO.read_settings(json_filename)
         settings = self._settings_holder.GetObject()
         write_output_to_file = settings["general_settings"].GetBool("write_output_to_file")
-- 
2.43.0


From e68ae451be13384f852e6c271f6005c460d0b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 34/37] fix: treat weights as zero relative to the size of the
 cell

The weights of trimmed elements are measures of the parametric space.  They
were compared to the absolute value 1e-14: if the parametric space is small
(e.g. equal to a physical space of a few millimetres, given in metres), valid
points were dropped, and with them most of the trimmed elements.
---
 queso/quadrature/trimmed_element.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index b52f10b..769afe0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -400,6 +400,12 @@ protected:
             (order_u * ffactor + 1) * (order_v * ffactor + 1) * (order_w * ffactor + 1);
         const IndexType min_number_of_points = order_u * order_v * order_w;
 
+        // Weights are measures of the parametric space. Hence, they scale with the size of the cell.
+        const PointType& r_lower = rElement.template GetCellBounds<CoordinateSpace::parametric>().lower;
+        const PointType& r_upper = rElement.template GetCellBounds<CoordinateSpace::parametric>().upper;
+        const double zero_weight =
+            ZEROTOL * std::abs((r_upper[0] - r_lower[0]) * (r_upper[1] - r_lower[1]) * (r_upper[2] - r_lower[2]));
+
         const double targeted_residual = Residual;
         double global_residual = LOWESTD;
         double prev_residual = 0.0;
@@ -436,7 +442,7 @@ protected:
                     std::remove_if(
                         rIntegrationPoint.begin(),
                         rIntegrationPoint.end(),
-                        [](const IntegrationPointType& point) { return point.Weight() < ZEROTOL; }
+                        [zero_weight](const IntegrationPointType& point) { return point.Weight() < zero_weight; }
                     ),
                     rIntegrationPoint.end()
                 );
@@ -502,7 +508,7 @@ protected:
                 std::remove_if(
                     reduced_points.begin(),
                     reduced_points.end(),
-                    [](const IntegrationPointType& point) { return point.Weight() < ZEROTOL; }
+                    [zero_weight](const IntegrationPointType& point) { return point.Weight() < zero_weight; }
                 ),
                 reduced_points.end()
             );
@@ -515,7 +521,7 @@ protected:
                 std::remove_if(
                     reduced_points.begin(),
                     reduced_points.end(),
-                    [](const IntegrationPointType& point) { return point.Weight() < ZEROTOL; }
+                    [zero_weight](const IntegrationPointType& point) { return point.Weight() < zero_weight; }
                 ),
                 reduced_points.end()
             );
-- 
2.43.0


From 85b3d4df448cc7a9cd1d34d034ece0841a44f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:09 +0000
Subject: [PATCH 35/37] fix: surface normals keep unit length for every ratio
 of the spaces

The mapped normal was set to zero if the ratio of the areas in the two spaces
was below 1e-14.
---
 queso/utilities/mapping_utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/utilities/mapping_utilities.hpp b/queso/utilities/mapping_utilities.hpp
index 7b9c87b..6db4cae 100644
--- a/queso/utilities/mapping_utilities.hpp
+++ b/queso/utilities/mapping_utilities.hpp
@@ -60,7 +60,7 @@ namespace detail {
     {
         auto transformed = TransformAreaVector(rNormal, rScale);
         const double norm = Math::Norm(transformed);
-        if (norm > ZEROTOL) {
+        if (norm > 0.0) {
             transformed *= 1.0 / norm;
         } else {
             transformed = { 0.0, 0.0, 0.0 };
-- 
2.43.0


From fdd1c8da50c920331a8c4bccd7583a7fb2d09090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:47 +0000
Subject: [PATCH 36/37] fix: targets of the clipped-section test are
 significant relative to the cell

The triangles that serve as targets of the rays were compared to absolute
tolerances of an area (1e-10 and 1e-12).  If a model is small (cells of 1e-4
length units and a surface mesh of the same order), no triangle qualified and
cells inside the body were classified as outside.
---
 queso/embedding/brep_operator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index d9d0fd4..7de15c9 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -85,6 +85,10 @@ bool BRepOperator::OnBoundedSideOfClippedSection(const PointType& rPoint, PointV
     const IndexType num_triangles = clipped_mesh.NumOfTriangles();
     if( num_triangles == 0 ){ return false; }
 
+    // Areas are significant relative to the size of the given bounds.
+    const double max_extent = std::max({rUpperBound[0]-rLowerBound[0], rUpperBound[1]-rLowerBound[1], rUpperBound[2]-rLowerBound[2]});
+    const double area_scale = std::min(1.0, max_extent*max_extent);
+
     IndexType success_count = 0;
     int inside_count = 0;
     while( success_count < 10 && current_id < num_triangles ){
@@ -108,7 +112,7 @@ bool BRepOperator::OnBoundedSideOfClippedSection(const PointType& rPoint, PointV
 
         // Make sure target triangle is not parallel and has a significant area.
         const double area = TriangleUtilities::Area(triangle);
-        if( !ray.is_parallel(p1, p2, p3, 100.0*tolerance) && area >  100*ZEROTOL) {
+        if( !ray.is_parallel(p1, p2, p3, 100.0*tolerance*area_scale) && area >  100*ZEROTOL*area_scale) {
             auto [is_inside, success] = geometry_query_local.IsInside(ray);
             if( success ){
                 ++success_count;
-- 
2.43.0


From 0dbe060eaf12109b3b3a027f7e828a176ac67d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 37/37] fix: tolerances of multi-element rules are relative to
 the parametric size of the element

---
 queso/quadrature/multiple_elements.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index ae9ad61..1f2662a 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -261,6 +261,9 @@ private:
                 const double distance_global = rBounds.upper[direction] - rBounds.lower[direction];
                 const double length_global = std::abs(rBounds.upper[direction] - rBounds.lower[direction]);
 
+                // Tolerances are relative to the size of the element.
+                const double tolerance_scale = std::min(1.0, upper_point_param[direction] - lower_point_param[direction]);
+
                 const IntegrationPointFactory1D::Ip1DVectorPtrType p_ggq_points =
                     IntegrationPointFactory1D::GetGGQ(rIntegrationOrder[direction], rNumberKnotspans[direction], Method);
                 const IntegrationPointFactory1D::Ip1DVectorType& r_ggq_points = *p_ggq_points;
@@ -269,10 +272,10 @@ private:
                     const double position = rBounds.lower[direction] + distance_global* (r_ggq_points)[j][0];
                     const double weight = length_global *  (r_ggq_points)[j][1];
                     std::array<double, 2> tmp_point = {position, weight};
-                    if( lower_point_param[direction]-EPS3 <= position && position < upper_point_param[direction]-EPS3){
-                        if( lower_point_param[direction]+EPS2 > position) {
+                    if( lower_point_param[direction]-EPS3*tolerance_scale <= position && position < upper_point_param[direction]-EPS3*tolerance_scale){
+                        if( lower_point_param[direction]+EPS2*tolerance_scale > position) {
                             // Make sure point is clearly inside one element.
-                            tmp_point[0] = lower_point_param[direction]+2*EPS3;
+                            tmp_point[0] = lower_point_param[direction]+2*EPS3*tolerance_scale;
                         }
                         tmp_integration_points[direction].push_back(tmp_point);
                     }
-- 
2.43.0


From 940c0162cc27edda05586028c16d94cebb2b002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 01/22] fix: Box::set2D resets the box corners along z

---
 freud/box/Box.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..b8290a3 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -120,6 +120,8 @@ public:
         m_2d = _2d;
         m_L.z = 0;
         m_Linv.z = 0;
+        m_hi.z = 0;
+        m_lo.z = 0;
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From 7032553c79f03bac06c533fda57892e5d92e30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 02/22] fix: ClusterProperties uses each point's own mass in
 the centers of mass

---
 freud/cluster/ClusterProperties.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..b21ecf0 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -46,6 +46,8 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
 
     // Create a vector to store cluster points, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    // and the masses of these points, in the same order
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -58,23 +60,16 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
         (*m_cluster_masses)[c] += mass;
+        cluster_point_masses[c].push_back(mass);
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c],
+            (masses != nullptr) ? cluster_point_masses[c].data() : nullptr);
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From b92aba14c1fcce1053627e3126ee8cf4d6187c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 03/22] fix: NeighborList.all_pairs vectors point from query
 point to point

---
 freud/locality/NeighborList.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..4112abb 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -118,9 +118,8 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_neighbors)(bond_idx, 0) = i;
                 (*m_neighbors)(bond_idx, 1) = j;
                 (*m_weights)(bond_idx) = 1.0;
-                const auto dr = box.wrap(query_points[i] - points[j]);
-                (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
-                (*m_vectors)(bond_idx) = dr;
+                (*m_distances)(bond_idx) = box.computeDistance(points[j], query_points[i]);
+                (*m_vectors)(bond_idx) = box.wrap(points[j] - query_points[i]);
                 ++bond_idx;
             }
         }
-- 
2.43.0


From 6c8e616f66a24b08f5b2651dcb26b775ecd2b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 04/22] fix: filtered NeighborLists keep the numbers of points
 and may be empty

---
 freud/locality/FilterRAD.cc    |  3 ++-
 freud/locality/FilterSANN.cc   |  3 ++-
 freud/locality/NeighborList.cc | 27 ++++-----------------------
 freud/locality/NeighborList.h  |  2 +-
 4 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..82808ae 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -127,7 +127,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(
+        rad_bonds, m_unfiltered_nlist->getNumQueryPoints(), m_unfiltered_nlist->getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..b82ca55 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,8 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(
+        sann_bonds, m_unfiltered_nlist->getNumQueryPoints(), m_unfiltered_nlist->getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 4112abb..7408435 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -126,35 +126,20 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
+NeighborList::NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points), m_segments_counts_updated(false),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
             auto bond = bonds[i];
 
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
-
             // fill in array data
             (*m_distances)(i) = bond.getDistance();
             (*m_weights)(i) = bond.getWeight();
@@ -164,12 +149,8 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
         }
     });
 
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
     m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
     m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..95c5a70 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,7 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points, unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From 4124ba85bef26abf1e1833de83f6e4138f0c56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 05/22] fix: FilterRAD keeps the vectors and weights of the
 bonds it selects

---
 freud/locality/FilterRAD.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 82808ae..89f2161 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -47,6 +47,7 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_weights = *sorted_nlist.getWeights();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
@@ -93,7 +94,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), sorted_vecs(first_idx + j));
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From 75be8533a1c2592b066363d5bdf6df86ce9c2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 06/22] fix: AngularSeparationNeighbor pairs query_orientations
 with query points

---
 freud/environment/AngularSeparation.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From 1f9b51b4df8193d6b1bc996b17a0956569a8ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 07/22] fix: nearest neighbor AABB queries search the whole
 range up to r_max

The search radius was expanded before the termination tests, so that the
search stopped without having queried the radii between the last one
queried and r_max (or the size of the box), and a guess beyond half the
box was queried without removing duplicates.
---
 freud/locality/AABBQuery.cc | 44 ++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..565f030 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -153,11 +153,17 @@ NeighborBond AABBQueryIterator::next()
 {
     vec3<float> const plane_distance = m_neighbor_query->getBox().getNearestPlaneDistance();
     float min_plane_distance = std::min(plane_distance.x, plane_distance.y);
-    float max_plane_distance = std::max(plane_distance.x, plane_distance.y);
     if (!m_neighbor_query->getBox().is2D())
     {
         min_plane_distance = std::min(min_plane_distance, plane_distance.z);
-        max_plane_distance = std::max(max_plane_distance, plane_distance.z);
+    }
+
+    // No two points in the box are farther apart than the sum of the lengths of the lattice vectors.
+    float max_distance = 0;
+    for (unsigned int i = 0; i < (m_neighbor_query->getBox().is2D() ? 2U : 3U); ++i)
+    {
+        vec3<float> const lattice_vector = m_neighbor_query->getBox().getLatticeVector(i);
+        max_distance += std::sqrt(dot(lattice_vector, lattice_vector));
     }
 
     // This iterator is not truly lazy; because it needs to get possible
@@ -177,6 +183,21 @@ NeighborBond AABBQueryIterator::next()
             m_current_neighbors.clear();
             m_all_bonds_minimum_distance.clear();
             m_query_points_below_r_min.clear();
+
+            if (std::min(m_r_cur, m_r_max) > min_plane_distance / 2)
+            {
+                // If we have to go beyond the cutoff radius, we need to
+                // start tracking what particles are already in the set so
+                // that we can make sure that we find the closest image
+                // because we now run the risk of finding duplicates.
+                //
+                // We could make this marginally more efficient by checking
+                // whether we've exactly hit the limit, or if there's a
+                // rescaling that would let us try the exact limit once
+                // before going beyond the min plane distance.
+                m_search_extended = true;
+            }
+
             std::shared_ptr<NeighborQueryPerPointIterator> const ball_it
                 = std::make_shared<AABBQueryBallIterator>(static_cast<const AABBQuery*>(m_neighbor_query),
                                                           m_query_point, m_query_point_idx,
@@ -220,15 +241,13 @@ NeighborBond AABBQueryIterator::next()
 
             // Break if there are enough neighbors, or if we are querying beyond the limits of
             // the periodic box.
-            m_r_cur *= m_scale;
-
             if (m_current_neighbors.size() >= m_num_neighbors)
             {
                 std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
@@ -247,19 +266,8 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if (m_r_cur > min_plane_distance / 2)
-            {
-                // If we have to go beyond the cutoff radius, we need to
-                // start tracking what particles are already in the set so
-                // that we can make sure that we find the closest image
-                // because we now run the risk of finding duplicates.
-                //
-                // We could make this marginally more efficient by checking
-                // whether we've exactly hit the limit, or if there's a
-                // rescaling that would let us try the exact limit once
-                // before going beyond the min plane distance.
-                m_search_extended = true;
-            }
+            // Only expand the search after testing the radius that was just queried.
+            m_r_cur *= m_scale;
         }
     }
 
-- 
2.43.0


From a5d0d04d764df84cd71c1dd23792d9c32e58a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 08/22] fix: nearest neighbor LinkCell queries reach across the
 longest box direction

The number of cell shells to search was computed from the shortest box
direction, so that neighbors further away along the longer directions were
never found.
---
 freud/locality/LinkCell.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..2426f09 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -578,13 +578,13 @@ NeighborBond LinkCellQueryIterator::next()
     float const r_min_sq = m_r_min * m_r_min;
 
     vec3<float> const plane_distance = m_neighbor_query->getBox().getNearestPlaneDistance();
-    float min_plane_distance = std::min(plane_distance.x, plane_distance.y);
+    float max_plane_distance = std::max(plane_distance.x, plane_distance.y);
     if (!m_neighbor_query->getBox().is2D())
     {
-        min_plane_distance = std::min(min_plane_distance, plane_distance.z);
+        max_plane_distance = std::max(max_plane_distance, plane_distance.z);
     }
     unsigned int const max_range
-        = static_cast<unsigned int>(std::ceil(min_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
+        = static_cast<unsigned int>(std::ceil(max_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
 
     vec3<unsigned int> const point_cell(m_linkcell->getCellCoord(m_query_point));
     // NOLINTBEGIN(bugprone-narrowing-conversions): narrowing coversion is working as expected
-- 
2.43.0


From 3ba9034e11b7ed234829ab47e2f54a86bdbebd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 09/22] fix: grid densities visit every cell within r_max
 exactly once

The window of grid cells around a point ignored the point's offset within its
own cell, missing cells within r_max, and visited cells several times (or
indexed out of range) when it was wider than a periodic box.
---
 freud/density/GaussianDensity.cc    | 25 ++++++++++++++++++-------
 freud/density/SphereVoxelization.cc | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..614dd50 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <memory>
@@ -81,10 +82,20 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins within r_max: a point is up to half a bin away
+    // from the center of its own bin. No cell is more than m_width bins away.
+    const int bin_cut_x = int(std::min(m_r_max / grid_size_x + float(0.5), static_cast<float>(m_width.x)));
+    const int bin_cut_y = int(std::min(m_r_max / grid_size_y + float(0.5), static_cast<float>(m_width.y)));
+    const int bin_cut_z = m_box.is2D()
+        ? 0
+        : int(std::min(m_r_max / grid_size_z + float(0.5), static_cast<float>(m_width.z)));
+    // In periodic directions, visit every cell at most once (at its nearest image).
+    const int bin_low_x = periodic.x ? std::min(bin_cut_x, int(m_width.x / 2)) : bin_cut_x;
+    const int bin_low_y = periodic.y ? std::min(bin_cut_y, int(m_width.y / 2)) : bin_cut_y;
+    const int bin_low_z = periodic.z ? std::min(bin_cut_z, int(m_width.z / 2)) : bin_cut_z;
+    const int bin_high_x = periodic.x ? std::min(bin_cut_x, int(m_width.x) - 1 - bin_low_x) : bin_cut_x;
+    const int bin_high_y = periodic.y ? std::min(bin_cut_y, int(m_width.y) - 1 - bin_low_y) : bin_cut_y;
+    const int bin_high_z = periodic.z ? std::min(bin_cut_z, int(m_width.z) - 1 - bin_low_z) : bin_cut_z;
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -111,7 +122,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
 
             // Reject bins that are outside the box in aperiodic directions
             // Only evaluate over bins that are within the cutoff
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = bin_z - bin_low_z; k <= bin_z + bin_high_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -120,7 +131,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = bin_y - bin_low_y; j <= bin_y + bin_high_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -129,7 +140,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = bin_x - bin_low_x; i <= bin_x + bin_high_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..89566c4 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
@@ -77,10 +78,20 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins within r_max: a point is up to half a bin away
+    // from the center of its own bin. No cell is more than m_width bins away.
+    const int bin_cut_x = int(std::min(m_r_max / grid_size_x + float(0.5), static_cast<float>(m_width.x)));
+    const int bin_cut_y = int(std::min(m_r_max / grid_size_y + float(0.5), static_cast<float>(m_width.y)));
+    const int bin_cut_z = m_box.is2D()
+        ? 0
+        : int(std::min(m_r_max / grid_size_z + float(0.5), static_cast<float>(m_width.z)));
+    // In periodic directions, visit every cell at most once (at its nearest image).
+    const int bin_low_x = periodic.x ? std::min(bin_cut_x, int(m_width.x / 2)) : bin_cut_x;
+    const int bin_low_y = periodic.y ? std::min(bin_cut_y, int(m_width.y / 2)) : bin_cut_y;
+    const int bin_low_z = periodic.z ? std::min(bin_cut_z, int(m_width.z / 2)) : bin_cut_z;
+    const int bin_high_x = periodic.x ? std::min(bin_cut_x, int(m_width.x) - 1 - bin_low_x) : bin_cut_x;
+    const int bin_high_y = periodic.y ? std::min(bin_cut_y, int(m_width.y) - 1 - bin_low_y) : bin_cut_y;
+    const int bin_high_z = periodic.z ? std::min(bin_cut_z, int(m_width.z) - 1 - bin_low_z) : bin_cut_z;
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
@@ -96,7 +107,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
 
             // Only evaluate over bins that are within the cutoff, rejecting bins
             // that are outside the box in aperiodic directions.
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = bin_z - bin_low_z; k <= bin_z + bin_high_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -105,7 +116,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = bin_y - bin_low_y; j <= bin_y + bin_high_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -114,7 +125,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = bin_x - bin_low_x; i <= bin_x + bin_high_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
-- 
2.43.0


From 45a7fe25d38ba55510623d805b4201edd14f1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 10/22] fix: histograms do not count NaN values

A NaN passed the range check and was converted to an arbitrary bin index.
---
 freud/util/Histogram.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/util/Histogram.h b/freud/util/Histogram.h
index 9aa63d7..cf1aab5 100644
--- a/freud/util/Histogram.h
+++ b/freud/util/Histogram.h
@@ -154,7 +154,8 @@ public:
         // Since we're using an unsigned int cast for truncation, we must
         // ensure that we will be working with a positive number or we will
         // fail to detect underflow.
-        if (value < m_min || value >= m_max)
+        // The comparison is written such that NaN is out of range, too.
+        if (!(value >= m_min && value < m_max))
         {
             return OVERFLOW_BIN;
         }
-- 
2.43.0


From 93f19a316099865488e3cd0606a581baf20f6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 11/22] fix: BondOrder counts bonds along the poles

A bond along -z has phi = Pi, which the half-open axis dropped, and rounding
could take the argument of acos out of its domain.
---
 freud/environment/BondOrder.cc | 8 +++++++-
 freud/environment/BondOrder.h  | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index f65e43c..102c544 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 #ifdef __SSE2__
@@ -74,6 +75,7 @@ BondOrder::BondOrder(unsigned int n_bins_theta, unsigned int n_bins_phi, BondOrd
     m_bo_array = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {m_histogram.shape()});
 
     m_local_histograms = BondHistogram::ThreadLocalHistogram(m_histogram);
+    m_last_phi = axes[1]->getBinCenters().back();
 }
 
 void BondOrder::reset()
@@ -143,7 +145,11 @@ void BondOrder::accumulate(const std::shared_ptr<locality::NeighborQuery>& neigh
                           theta = util::modulusPositive(theta, constants::TWO_PI);
 
                           // NOTE that the below has replaced the commented out expression for phi.
-                          const float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          // Rounding may take the cosine out of range, and phi = Pi is in the last bin.
+                          const float cos_phi = v.z / std::sqrt(dot(v, v));
+                          const float phi
+                              = std::min(std::acos(std::max(std::min(cos_phi, float(1.0)), float(-1.0))),
+                                         m_last_phi); // 0..Pi
 
                           m_local_histograms(theta, phi);
                       });
diff --git a/freud/environment/BondOrder.h b/freud/environment/BondOrder.h
index 85fe9be..f68bfd4 100644
--- a/freud/environment/BondOrder.h
+++ b/freud/environment/BondOrder.h
@@ -63,6 +63,7 @@ private:
     std::shared_ptr<util::ManagedArray<float>> m_bo_array; //!< bond order array computed
     std::shared_ptr<util::ManagedArray<float>> m_sa_array; //!< surface area array computed
     BondOrderMode m_mode;                                  //!< The mode to calculate with.
+    float m_last_phi; //!< Center of the last bin in phi, which includes phi = Pi.
 };
 
 }; }; // end namespace freud::environment
-- 
2.43.0


From 0c8755315df9c249340732df86e671af306ef426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 12/22] fix: RotationalAutocorrelation computes factorials
 without overflow

The products of factorials overflowed unsigned int for l >= 9.
---
 freud/order/RotationalAutocorrelation.cc | 5 ++---
 freud/order/RotationalAutocorrelation.h  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/freud/order/RotationalAutocorrelation.cc b/freud/order/RotationalAutocorrelation.cc
index 82cc4d8..ca799d8 100644
--- a/freud/order/RotationalAutocorrelation.cc
+++ b/freud/order/RotationalAutocorrelation.cc
@@ -76,9 +76,8 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
         for (unsigned int b = 0; b <= m_l; b++)
         {
             unit_harmonics.push_back(std::conj(hypersphere_harmonic(xi, zeta, a, b)));
-            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a]
-                                                  * (*m_factorials)[b] * (*m_factorials)[m_l - b])
-                / (static_cast<float>(m_l + 1));
+            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]
+                                                  * (*m_factorials)[m_l - b] / (m_l + 1));
         }
     }
 
diff --git a/freud/order/RotationalAutocorrelation.h b/freud/order/RotationalAutocorrelation.h
index e15f958..e303e9c 100644
--- a/freud/order/RotationalAutocorrelation.h
+++ b/freud/order/RotationalAutocorrelation.h
@@ -56,7 +56,7 @@ public:
     {
         // For efficiency, we precompute all required factorials for use during
         // the per-particle computation.
-        m_factorials = std::make_shared<util::ManagedArray<unsigned int>>(m_l + 1);
+        m_factorials = std::make_shared<util::ManagedArray<double>>(m_l + 1);
         (*m_factorials)[0] = 1;
         for (unsigned int i = 1; i <= m_l; i++)
         {
@@ -123,7 +123,7 @@ private:
     float m_Ft {0};   //!< Real value of calculated RA function.
 
     std::shared_ptr<util::ManagedArray<std::complex<float>>> m_RA_array; //!< Array of RA values per particle
-    std::shared_ptr<util::ManagedArray<unsigned int>> m_factorials;      //!< Array of cached factorials
+    std::shared_ptr<util::ManagedArray<double>> m_factorials;            //!< Array of cached factorials
 };
 
 }; }; // end namespace freud::order
-- 
2.43.0


From de1886a4124c3856fd81080463f02409e8661083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 13/22] fix: Cubatic replicates do not depend on the number of
 threads

The random number generator was seeded with the first replicate of a thread's
range, so that results depended on how the replicates were divided.
---
 freud/order/Cubatic.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..58dfd47 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,20 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create replicate-specific rng, such that results do not depend on threads
+            const auto replicate = static_cast<unsigned int>(i);
+
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = replicate;
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 84d89f1abeb46b67b91e53aacb6db85f93680593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 14/22] fix: LocalDensity ignores neighbors outside of the
 r_max sphere

Neighbors further away than r_max + diameter / 2 contributed negative counts.
---
 freud/density/LocalDensity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density/LocalDensity.cc b/freud/density/LocalDensity.cc
index 8a09dce..af82384 100644
--- a/freud/density/LocalDensity.cc
+++ b/freud/density/LocalDensity.cc
@@ -60,7 +60,7 @@ void LocalDensity::compute(const std::shared_ptr<locality::NeighborQuery>& neigh
                 {
                     num_neighbors += float(1.0);
                 }
-                else
+                else if (nb.getDistance() < (m_r_max + m_diameter / float(2.0)))
                 {
                     // partially count particles that intersect the r_max sphere
                     // this is not particularly accurate for a single particle, but works well on average for
-- 
2.43.0


From dee7f97a33cedb3b5ab5dcf7a56b25ea1540779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 15/22] fix: RDF allocates one cell volume per bin

The arrays of cell volumes had bins^2 and bins^3 elements.
---
 freud/density/RDF.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index b072d7d..2c20c85 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -49,8 +49,8 @@ RDF::RDF(unsigned int bins, float r_max, float r_min) : BondHistogramCompute()
     m_N_r = std::make_shared<util::ManagedArray<float>>(m_histogram.shape());
 
     // Precompute the cell volumes to speed up later calculations.
-    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins});
-    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins, bins});
+    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
+    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
     const float volume_prefactor = (float(4.0) / float(3.0)) * M_PI;
     std::vector<float> bin_boundaries = getBinEdges()[0];
 
-- 
2.43.0


From 0055ca2d8476a6adfbb3127035f2314c30e4ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 16/22] fix: NeighborList.filter rejects masks of the wrong
 length

A short mask was read out of bounds.
---
 freud/locality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..b19cece 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -719,7 +719,7 @@ class NeighborList:
             # Keep only the bonds between particles of type A and type B
             nlist.filter(types[nlist.query_point_indices] != types[nlist.point_indices])
         """  # E501
-        filt = np.ascontiguousarray(filt, dtype=bool)
+        filt = freud.util._convert_array(filt, shape=(len(self),), dtype=bool)
         self._cpp_obj.filter(filt)
         return self
 
-- 
2.43.0


From e9451f914186464e0098970d70a6cd3de391100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 17/22] fix: NeighborList.all_pairs accepts array-like query
 points

---
 freud/locality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index b19cece..6b27b66 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -587,7 +587,7 @@ class NeighborList:
 
         points = freud.util._convert_array(points, shape=points.shape, dtype=np.float32)
         query_points = freud.util._convert_array(
-            query_points, shape=query_points.shape, dtype=np.float32
+            query_points, shape=(None, 3), dtype=np.float32
         )
 
         result = cls()
-- 
2.43.0


From 0a0d591f1629aa5fdacaad32d4401607f30bd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 18/22] fix: computes reject per-point arrays of the wrong
 length

Masses, orientations and values shorter than the points (or query points) they
belong to were read out of bounds.
---
 freud/cluster.py     |  2 +-
 freud/density.py     | 11 +++++------
 freud/environment.py | 11 ++++++-----
 freud/pmft.py        |  8 ++++++--
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
diff --git a/freud/density.py b/freud/density.py
index c47ad95..fb92bb1 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -119,12 +119,11 @@ class CorrelationFunction(_SpatialHistogram1D):
         )
         if query_values is None:
             query_values = values
-        else:
-            query_values = freud.util._convert_array(
-                query_values,
-                shape=(l_query_points.shape[0],),
-                dtype=np.complex128,
-            )
+        query_values = freud.util._convert_array(
+            query_values,
+            shape=(l_query_points.shape[0],),
+            dtype=np.complex128,
+        )
         self._cpp_obj.accumulate(
             nq._cpp_obj,
             values,
diff --git a/freud/environment.py b/freud/environment.py
index edb2681..130ca21 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
@@ -1055,7 +1054,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..adde64e 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -197,7 +197,9 @@ class PMFTR12(_PMFT):
 
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
-            query_orientations = orientations
+            query_orientations = freud.util._convert_array(
+                orientations, shape=(query_points.shape[0],)
+            )
         else:
             query_orientations = _gen_angle_array(
                 query_orientations, shape=(query_points.shape[0],)
@@ -299,7 +301,9 @@ class PMFTXYT(_PMFT):
 
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
-            query_orientations = orientations
+            query_orientations = freud.util._convert_array(
+                orientations, shape=(query_points.shape[0],)
+            )
         else:
             query_orientations = _gen_angle_array(
                 query_orientations, shape=(query_points.shape[0],)
-- 
2.43.0


From 58d93b78ee2a646cb439ae565f014c70bb091d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 19/22] fix: RotationalAutocorrelation accepts array-like
 orientations

---
 freud/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/order.py b/freud/order.py
index b6e014c..5ad0803 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -861,6 +861,8 @@ class RotationalAutocorrelation(_Compute):
         assert len(ref_orientations) == len(orientations), (
             "orientations and ref_orientations must have the same shape."
         )
+        ref_orientations = freud.util._convert_array(ref_orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(orientations, shape=(None, 4))
         self._cpp_obj.compute(ref_orientations, orientations)
         return self
 
-- 
2.43.0


From 8275457a0927025583f2a9377980fa44bec7e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 20/22] fix: 2D grid densities keep directions of width 1

---
 freud/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index fb92bb1..6d5efe3 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -264,7 +264,7 @@ class GaussianDensity(_Compute):
         """(:math:`w_x`, :math:`w_y`, :math:`w_z`) :class:`numpy.ndarray`: The
         grid with the Gaussian density contributions from each point."""
         if self.box.is2D:
-            return np.squeeze(self._cpp_obj.density.toNumpyArray())
+            return np.squeeze(self._cpp_obj.density.toNumpyArray(), axis=2)
         return self._cpp_obj.density.toNumpyArray()
 
     @property
@@ -373,7 +373,7 @@ class SphereVoxelization(_Compute):
         voxel grid indicating overlap with the computed spheres."""
         data = self._cpp_obj.voxels.toNumpyArray()
         if self.box.is2D:
-            return np.squeeze(data)
+            return np.squeeze(data, axis=2)
         return data
 
     @property
-- 
2.43.0


From b6d6ba9e03c0809e8ef6a8a35104602272364c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 21/22] fix: read-only arrays are accepted by every compute and
 Box method

---
 freud/box/Box.h                                  |  4 ++--
 freud/box/export-Box.cc                          |  8 ++++----
 freud/box/export-Box.h                           |  4 ++--
 freud/density/export-LocalDensity.cc             |  4 ++--
 .../export-AngularSeparationNeighbor.cc          | 16 ++++++++--------
 freud/environment/export-LocalBondProjection.cc  | 16 ++++++++--------
 6 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index b8290a3..def31b6 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -372,7 +372,7 @@ public:
      *  \param masses Optional array of masses, of length Nvecs
      *  \return Center of mass as a vec3<float>
      */
-    vec3<float> centerOfMass(vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
+    vec3<float> centerOfMass(const vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
     {
         // This roughly follows the implementation in
         // https://en.wikipedia.org/wiki/Center_of_mass#Systems_with_periodic_boundary_conditions
@@ -468,7 +468,7 @@ public:
         \param n_points The number of points.
         \param contains_mask Mask of points inside the box.
     */
-    void contains(vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
+    void contains(const vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
     {
         util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
             std::transform(&points[begin], &points[end], &contains_mask[begin],
diff --git a/freud/box/export-Box.cc b/freud/box/export-Box.cc
index 2d86e68..dfc2d9c 100644
--- a/freud/box/export-Box.cc
+++ b/freud/box/export-Box.cc
@@ -59,11 +59,11 @@ void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
     box->unwrap(vecs_data, images_data, Nvecs, out_data);
 }
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nb::shape<-1>>& masses)
 {
     const unsigned int Nvecs = vecs.shape(0);
-    auto* vecs_data = reinterpret_cast<vec3<float>*>(vecs.data());
+    const auto* vecs_data = reinterpret_cast<const vec3<float>*>(vecs.data());
     const auto* masses_data = reinterpret_cast<const float*>(masses.data());
     auto com = box->centerOfMass(vecs_data, Nvecs, masses_data);
     return {com.x, com.y, com.z};
@@ -104,11 +104,11 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
     box->computeAllDistances(query_points_data, n_query_points, points_data, n_points, distances_data);
 }
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nb::ndim<1>>& contains_mask)
 {
     const unsigned int n_points = points.shape(0);
-    auto* points_data = reinterpret_cast<vec3<float>*>(points.data());
+    const auto* points_data = reinterpret_cast<const vec3<float>*>(points.data());
     auto* contains_mask_data = reinterpret_cast<bool*>(contains_mask.data());
     box->contains(points_data, n_points, contains_mask_data);
 }
diff --git a/freud/box/export-Box.h b/freud/box/export-Box.h
index e88938b..068d0e4 100644
--- a/freud/box/export-Box.h
+++ b/freud/box/export-Box.h
@@ -29,7 +29,7 @@ void wrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs, co
 void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
             const nb_array<const int>& images, const nb_array<float>& out);
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nanobind::shape<-1>>& masses);
 
 void center(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
@@ -43,7 +43,7 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
                          const nb_array<const float>& points,
                          const nb_array<float, nanobind::ndim<2>>& distances);
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nanobind::ndim<1>>& contains_mask);
 
 }; }; }; // namespace freud::box::wrap
diff --git a/freud/density/export-LocalDensity.cc b/freud/density/export-LocalDensity.cc
index 55e5bcf..63b4674 100644
--- a/freud/density/export-LocalDensity.cc
+++ b/freud/density/export-LocalDensity.cc
@@ -20,11 +20,11 @@ namespace wrap {
 
 void computeLocalDensity(const std::shared_ptr<LocalDensity>& self,
                          const std::shared_ptr<locality::NeighborQuery>& points,
-                         nb_array<float, nanobind::shape<-1, 3>>& query_points,
+                         const nb_array<const float, nanobind::shape<-1, 3>>& query_points,
                          const unsigned int num_query_points, std::shared_ptr<locality::NeighborList>& nlist,
                          const locality::QueryArgs& qargs)
 {
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
+    const auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
     self->compute(points, query_points_data, num_query_points, nlist, qargs);
 }
 
diff --git a/freud/environment/export-AngularSeparationNeighbor.cc b/freud/environment/export-AngularSeparationNeighbor.cc
index b846697..5ceef58 100644
--- a/freud/environment/export-AngularSeparationNeighbor.cc
+++ b/freud/environment/export-AngularSeparationNeighbor.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<AngularSeparationNeighbor>& angular_separation,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 4>>& query_orientations,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             const nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             const nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             const nb_array<const float, nanobind::shape<-1, 4>>& query_orientations,
+             const nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* query_orientations_data = reinterpret_cast<quat<float>*>(query_orientations.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    const auto* orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    const auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    const auto* query_orientations_data = reinterpret_cast<const quat<float>*>(query_orientations.data());
+    const auto* equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
     const unsigned int n_query_points = query_orientations.shape(0);
     angular_separation->compute(nq, orientations_data, query_points_data, query_orientations_data,
diff --git a/freud/environment/export-LocalBondProjection.cc b/freud/environment/export-LocalBondProjection.cc
index 4dca8b8..d485b9e 100644
--- a/freud/environment/export-LocalBondProjection.cc
+++ b/freud/environment/export-LocalBondProjection.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<LocalBondProjection>& local_bond_projection,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 3>>& projected_vectors,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             const nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             const nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             const nb_array<const float, nanobind::shape<-1, 3>>& projected_vectors,
+             const nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* proj_vectors_data = reinterpret_cast<vec3<float>*>(projected_vectors.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    const auto* orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    const auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    const auto* proj_vectors_data = reinterpret_cast<const vec3<float>*>(projected_vectors.data());
+    const auto* equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_proj_vec = projected_vectors.shape(0);
     const unsigned int n_query_points = query_points.shape(0);
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
-- 
2.43.0


From 3e2cff28963c8816bf23dd86ae7fe01cf7512cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 22/22] fix: iterating a query without query points read the
 first query point

The iterator's constructor always started on query point 0, so with an empty
array of query points it read past its end and reported bonds of a query point
that does not exist (converting the query to a list gave none).
---
 freud/locality/NeighborQuery.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..c76a014 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -370,7 +370,15 @@ public:
         : m_neighbor_query(neighbor_query), m_query_points(query_points),
           m_num_query_points(num_query_points), m_qargs(qargs)
     {
-        m_iter = this->query(m_cur_p);
+        // Without query points there is nothing to iterate over (and no first point to read).
+        if (m_num_query_points > 0)
+        {
+            m_iter = this->query(m_cur_p);
+        }
+        else
+        {
+            m_finished = true;
+        }
     }
 
     //! Empty Destructor
-- 
2.43.0


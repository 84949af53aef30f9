From 48c3b9516bc60a1fbbcb08e2c6da5c778c9b67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 001/112] fix: single-element meshes carry boundary and
 subdomain information

make_single_element_mesh() left boundary_info (2D/3D simplices and boxes) or
subdomain_info (1D) empty, so every boundary/subdomain query on the mesh threw
std::out_of_range.
---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 3d70a7a..be7cfdf 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -897,6 +897,7 @@ void make_single_element_mesh(generic_mesh<T,1>& msh, const T& a, const T& b)
     boundary_descriptor bi(0, true);
     storage->boundary_info.at(0) = bi;
     storage->boundary_info.at(1) = bi;
+    storage->subdomain_info.resize( 1 );
 }
 
 template<typename T>
@@ -929,6 +930,7 @@ void make_single_element_mesh(simplicial_mesh<T,2>& msh, const point<T,2>& a, co
 
     storage->surfaces.push_back( {p0, p1, p2} );
     storage->subdomain_info.resize( 1 );
+    storage->boundary_info.assign( storage->edges.size(), boundary_descriptor(0, true) );
 }
 
 template<typename T>
@@ -977,6 +979,7 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     storage->volumes.push_back( {p0, p1, p2, p3} );
 
     storage->subdomain_info.resize( 1 );
+    storage->boundary_info.assign( storage->surfaces.size(), boundary_descriptor(0, true) );
 
 }
 
@@ -1014,6 +1017,7 @@ void make_single_element_mesh(cartesian_mesh<T,2>& msh, const point<T,2>& base,
 
     storage->surfaces.push_back( {p0, p1, p2, p3} );
     storage->subdomain_info.resize( 1 );
+    storage->boundary_info.assign( storage->edges.size(), boundary_descriptor(0, true) );
 }
 
 
@@ -1080,6 +1084,7 @@ void make_single_element_mesh(cartesian_mesh<T,3>& msh, const point<T,3>& base,
     storage->volumes.push_back( {p0, p1, p2, p3, p4, p5, p6, p7} );
 
     storage->subdomain_info.resize( 1 );
+    storage->boundary_info.assign( storage->surfaces.size(), boundary_descriptor(0, true) );
 }
 
 
-- 
2.43.0


From a0168a1498e2613fa101728205dc7dbf46d191f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 002/112] fix: single-tetrahedron mesh has nodes and sorted
 faces

The faces were stored unsorted, so looking up a face of the cell failed.
---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index be7cfdf..e149449 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -958,6 +958,11 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     auto p2 = point_identifier<3>(2);
     auto p3 = point_identifier<3>(3);
 
+    storage->nodes.push_back( { p0 } );
+    storage->nodes.push_back( { p1 } );
+    storage->nodes.push_back( { p2 } );
+    storage->nodes.push_back( { p3 } );
+
     // Base face
     storage->edges.push_back( {p0, p1} );
     storage->edges.push_back( {p0, p2} );
@@ -976,6 +981,10 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     // Back face
     storage->surfaces.push_back( {p0, p2, p3} );
 
+    /* mesh lookups require sorted elements */
+    std::sort(storage->edges.begin(), storage->edges.end());
+    std::sort(storage->surfaces.begin(), storage->surfaces.end());
+
     storage->volumes.push_back( {p0, p1, p2, p3} );
 
     storage->subdomain_info.resize( 1 );
-- 
2.43.0


From c9441534d4a7df1b35d37aa64a1e8f8454a98e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 003/112] fix: faces of the single-box meshes are those of the
 cell

Some edges (2D) and surfaces (3D) of make_single_element_mesh() did not match the
faces returned by faces(msh, cl), which therefore were not found in the mesh.
---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index e149449..9595385 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -1020,8 +1020,8 @@ void make_single_element_mesh(cartesian_mesh<T,2>& msh, const point<T,2>& base,
     storage->nodes.push_back( { p3 } );
 
     storage->edges.push_back( {p0, p1} );
-    storage->edges.push_back( {p0, p3} );
-    storage->edges.push_back( {p1, p2} );
+    storage->edges.push_back( {p0, p2} );
+    storage->edges.push_back( {p1, p3} );
     storage->edges.push_back( {p2, p3} );
 
     storage->surfaces.push_back( {p0, p1, p2, p3} );
@@ -1086,8 +1086,8 @@ void make_single_element_mesh(cartesian_mesh<T,3>& msh, const point<T,3>& base,
     storage->surfaces.push_back( {p4, p5, p7, p6} );
     storage->surfaces.push_back( {p0, p2, p6, p4} );
     storage->surfaces.push_back( {p1, p3, p7, p5} );
-    storage->surfaces.push_back( {p0, p1, p5, p4} );
-    storage->surfaces.push_back({ p2, p3, p7, p6 });
+    storage->surfaces.push_back( {p0, p4, p5, p1} );
+    storage->surfaces.push_back({p2, p6, p7, p3});
     std::sort(storage->surfaces.begin(), storage->surfaces.end());
 
     storage->volumes.push_back( {p0, p1, p2, p3, p4, p5, p6, p7} );
-- 
2.43.0


From ce6672cf0d055c78b2d4bc97421459fdb547bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 004/112] fix: mesh bounding box is the box of all the points

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index 12c880b..e0b2819 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -1037,17 +1037,13 @@ public:
                   itor != msh.points_end();
                   itor++)
         {
-            bool lt = false, gt = false;
-            auto curpt = *itor;
+            const auto& curpt = *itor;
 
             for (size_t i = 0; i < point_type::dimension; i++)
             {
-                lt = lt or (curpt[i] < m_bb_min[i]);
-                gt = gt or (curpt[i] > m_bb_max[i]);
+                m_bb_min[i] = std::min(m_bb_min[i], curpt[i]);
+                m_bb_max[i] = std::max(m_bb_max[i], curpt[i]);
             }
-            assert(lt != gt); //lt xor gt
-            if (lt) m_bb_min = curpt;
-            if (gt) m_bb_max = curpt;
         }
     }
 
-- 
2.43.0


From 5efc219bab539992e9f2d15f37b02ac5da10a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 005/112] fix: offset() refuses elements that are not in the
 mesh

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index e0b2819..80ea7d3 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -949,7 +949,7 @@ size_t
 offset(const Mesh& msh, const typename Mesh::cell_type& cl)
 {
     auto itor = std::lower_bound(msh.cells_begin(), msh.cells_end(), cl);
-    if ( itor == msh.cells_end() )
+    if ( itor == msh.cells_end() or cl < *itor )
         throw std::logic_error("Cell not found: this is likely a bug.");
 
     return std::distance(msh.cells_begin(), itor);
@@ -960,7 +960,7 @@ size_t
 offset(const Mesh& msh, const typename Mesh::face_type& fc)
 {
     auto itor = std::lower_bound(msh.faces_begin(), msh.faces_end(), fc);
-    if ( itor == msh.faces_end() )
+    if ( itor == msh.faces_end() or fc < *itor )
         throw std::logic_error("Face not found: this is likely a bug.");
 
     return std::distance(msh.faces_begin(), itor);
-- 
2.43.0


From bce63b6a24967c9476b4af07e57fe25342d26dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 006/112] fix: generic elements of different size are not equal

---
 libdiskpp/include/diskpp/geometry/element_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/element_generic.hpp b/libdiskpp/include/diskpp/geometry/element_generic.hpp
index d8e8079..de0a9cc 100644
--- a/libdiskpp/include/diskpp/geometry/element_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/element_generic.hpp
@@ -191,7 +191,7 @@ public:
     bool operator==(const generic_element& other) const
     {
         return std::equal(this->m_sids_ptrs.begin(), this->m_sids_ptrs.end(),
-                          other.m_sids_ptrs.begin());
+                          other.m_sids_ptrs.begin(), other.m_sids_ptrs.end());
     }
 };
 
-- 
2.43.0


From 60adc312f71f39d991c2861233b9c06cbba23485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 007/112] fix: volume of a box does not trip its own assertion

---
 libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 860b8d1..0048b5f 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -267,7 +267,7 @@ measure(const cartesian_mesh<T,3>& msh,
         const typename cartesian_mesh<T,3>::cell& cl)
 {
     auto pts = points(msh, cl);
-    assert(pts.size() == 4);
+    assert(pts.size() == 8);
     auto v0 = (pts[1] - pts[0]).to_vector().norm();
     auto v1 = (pts[2] - pts[0]).to_vector().norm();
     auto v2 = (pts[4] - pts[0]).to_vector().norm();
-- 
2.43.0


From 556fe30b436271d63264a74fc31436c3aa883c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 008/112] fix: normals and area of non-convex polygons do not
 depend on the barycenter

---
 .../diskpp/geometry/geometry_generic.hpp      | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
index 226f734..e190bb9 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
@@ -222,6 +222,54 @@ measure(const generic_mesh<T,2>& msh,
     return tot_meas;
 }
 
+/**
+ * \brief Return the unit outward normal to a face of a 2D cell
+ *
+ * The vertices of a polygonal cell are listed along its boundary, so the side
+ * on which the cell lies is known also if the cell is not convex, when the
+ * position of the barycenters does not tell it.
+ *
+ * \param msh Reference to the mesh
+ * \param cl Reference to a cell
+ * \param fc Reference to a face of the cell
+ * \return Return the unit outward normal
+ */
+template<typename T>
+static_vector<T, 2>
+normal(const generic_mesh<T,2>& msh,
+    const typename generic_mesh<T,2>::cell& cl,
+    const typename generic_mesh<T,2>::face& fc)
+{
+    auto pts = points(msh, cl);
+    auto cl_ptids = cl.point_ids();
+    auto fc_ptids = fc.point_ids();
+    assert(fc_ptids.size() == 2);
+
+    T area2 = 0.0;
+    auto fc_first = pts.size();
+    for (size_t i = 0; i < pts.size(); i++)
+    {
+        auto j = (i+1) % pts.size();
+        auto v0 = pts[i] - pts[0];
+        auto v1 = pts[j] - pts[0];
+        area2 += v0.x()*v1.y() - v1.x()*v0.y();
+
+        if ( (cl_ptids[i] == fc_ptids[0] and cl_ptids[j] == fc_ptids[1]) or
+             (cl_ptids[i] == fc_ptids[1] and cl_ptids[j] == fc_ptids[0]) )
+            fc_first = i;
+    }
+
+    if (fc_first == pts.size())
+        throw std::invalid_argument("The face does not belong to the cell.");
+
+    auto v = pts[(fc_first+1) % pts.size()] - pts[fc_first];
+    auto n = (point<T,2>({v.y(), -v.x()})).to_vector();
+    if (area2 < T(0))
+        return -n/n.norm();
+
+    return n/n.norm();
+}
+
 template<typename T>
 point<T,2>
 barycenter(const generic_mesh<T,2>& msh,
-- 
2.43.0


From f0f3a8f6d89ddadd8db4fd38e5881bea023d0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 009/112] fix: area of a triangle with aligned vertices is
 zero, not NaN

---
 libdiskpp/include/diskpp/common/simplicial_formula.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/common/simplicial_formula.hpp b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
index c46a19a..7513295 100644
--- a/libdiskpp/include/diskpp/common/simplicial_formula.hpp
+++ b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
@@ -59,7 +59,10 @@ area_triangle_kahan(const point<T, N>& p0, const point<T, N>& p1, const point<T,
     const T b = length[1];
     const T c = length[0];
 
-    return T(0.25) * std::sqrt((a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c)));
+    // negative only by rounding, when the vertices are aligned
+    const T excess = std::max(T(0), c - (a - b));
+
+    return T(0.25) * std::sqrt((a + (b + c)) * excess * (c + (a - b)) * (a + (b - c)));
 }
 
 /**
-- 
2.43.0


From f6106fc1a1f7cce3e91890ddb238def7cd1b3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 010/112] fix: exact area of triangles with rational
 coordinates

---
 libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
index 798ecc6..01610c4 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
@@ -357,7 +357,7 @@ measure(const simplicial_mesh<rational<T>, 2>&                msh,
     const auto d0 = (pts[1] - pts[0]);
     const auto d1 = (pts[2] - pts[0]);
 
-    const auto area = d0.x() * d1.y() - d1.x() * d0.y();
+    const auto area = (d0.x() * d1.y() - d1.x() * d0.y()) / T(2);
 
     if (signed_volume)
     {
-- 
2.43.0


From 2b33c352ae27e025e56ff9bd44302f5c2364d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 011/112] fix: normals of faces whose first three points are
 aligned

---
 .../include/diskpp/geometry/geometry_all.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 7604282..8d89a15 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -413,9 +413,14 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Sum over the fan: three consecutive points can be aligned. */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i + 1 < pts.size(); i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
@@ -447,9 +452,14 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Sum over the fan: three consecutive points can be aligned. */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i + 1 < pts.size(); i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     return n/n.norm();
 }
-- 
2.43.0


From 8ed1ff4c581d64b298ddc9459089128d866bf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 012/112] fix: quadratures of general quadrilaterals reach the
 requested degree

---
 .../include/diskpp/quadratures/bits/quad_phys_generic.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
index ce4683d..6ed4fba 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
@@ -104,7 +104,8 @@ integrate(const disk::generic_mesh<T, 2>& msh, const typename disk::generic_mesh
 
     if (pts.size() == 4 and convex)
     {
-        return disk::quadrature::tensorized_gauss_legendre(degree, pts[0], pts[1], pts[2], pts[3]);
+        /* The jacobian of a general quadrilateral has degree 1 in each variable. */
+        return disk::quadrature::tensorized_gauss_legendre(degree + 1, pts[0], pts[1], pts[2], pts[3]);
     }
 
     if (convex)
-- 
2.43.0


From 81862621a110935f15eb3d7ed6ba34ea4ca2e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 013/112] fix: point-in-cell query looks at the edges of the
 polygon

---
 .../include/diskpp/geometry/geometry_all.hpp  | 12 +++++----
 .../diskpp/geometry/geometry_hexahedral.hpp   | 25 +++++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 8d89a15..25041c4 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -288,13 +288,14 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
           const typename Mesh<T, 2, Storage>::cell&       cl,
           const typename Mesh<T, 2, Storage>::point_type& pt)
 {
-    /* Nodes MUST be ordered COUNTERCLOCKWISE and the polygon must be CONVEX */
+    /* The nodes MUST turn around the polygon and the polygon must be CONVEX */
     auto pts = points(msh, cl);
 
+    bool left = false, right = false;
     for (size_t i = 0; i < pts.size(); i++)
     {
         auto p0 = pts[i];
-        auto p1 = pts[i % pts.size()];
+        auto p1 = pts[(i+1) % pts.size()];
 
         auto x  = pt.x();
         auto y  = pt.y();
@@ -303,11 +304,12 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
         auto x1 = p1.x();
         auto y1 = p1.y();
 
-        if ((y - y0) * (x1 - x0) - (x - x0) * (y1 - y0) < 0.0)
-            return false;
+        auto cross = (y - y0) * (x1 - x0) - (x - x0) * (y1 - y0);
+        left = left or (cross > 0.0);
+        right = right or (cross < 0.0);
     }
 
-    return true;
+    return not (left and right);
 }
 
 
diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 0048b5f..a9b7790 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -274,6 +274,31 @@ measure(const cartesian_mesh<T,3>& msh,
     return v0 * v1 * v2;
 }
 
+/* The nodes of a cartesian cell do not turn around it. */
+template<typename T>
+bool
+is_inside(const cartesian_mesh<T,2>& msh,
+          const typename cartesian_mesh<T,2>::cell& cl,
+          const typename cartesian_mesh<T,2>::point_type& pt)
+{
+    auto pts = points(msh, cl);
+    auto d = pt - pts[0];
+
+    /* The cell is a parallelogram of sides pts[1] - pts[0] and pts[2] - pts[0] */
+    for (size_t i = 1; i < 3; i++)
+    {
+        auto side = pts[i] - pts[0];
+        auto other = pts[3-i] - pts[0];
+        auto cross = d.x()*other.y() - d.y()*other.x();
+        auto area = side.x()*other.y() - side.y()*other.x();
+        auto coord = cross/area;
+        if (coord < 0.0 or coord > 1.0)
+            return false;
+    }
+
+    return true;
+}
+
 /**
  * @brief Compute the measure (area in 3D or length 2D) of the specified face
  *
-- 
2.43.0


From f377e86294a44e7a848cad8f3bdea047b379ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 014/112] fix: boundary points of any tetrahedron are inside it

---
 .../include/diskpp/geometry/geometry_simplicial.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
index 01610c4..a39c138 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
@@ -400,21 +400,22 @@ is_inside(const simplicial_mesh<T,3>& msh,
     auto v4 = to_vector(pts[3] - pts[1]);
     auto v5 = to_vector(pts[3] - pts[2]);
 
-    int count = 0;
+    /* A zero means that the point is on the plane of a face: it agrees with both signs */
+    bool positive = false, negative = false;
 
     T t0 = v3.cross(v0).dot( to_vector(pt - pts[0]) );
-    if (t0 < 0) count--; else count++;
+    positive = positive or (t0 > 0); negative = negative or (t0 < 0);
 
     T t1 = v0.cross(v1).dot( to_vector(pt - pts[0]) );
-    if (t1 < 0) count--; else count++;
+    positive = positive or (t1 > 0); negative = negative or (t1 < 0);
     
     T t2 = v4.cross(v2).dot( to_vector(pt - pts[1]) );
-    if (t2 < 0) count--; else count++;
+    positive = positive or (t2 > 0); negative = negative or (t2 < 0);
     
     T t3 = v1.cross(v3).dot( to_vector(pt - pts[0]) );
-    if (t3 < 0) count--; else count++;
+    positive = positive or (t3 > 0); negative = negative or (t3 < 0);
 
-    return (count == 4) or (count == -4);
+    return not (positive and negative);
 }
 
 
-- 
2.43.0


From 322132682116879dfce2d9ac43863061f7be5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 015/112] fix: Dunavant quadrature refuses the degree of the
 end marker of its table

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 83af5c3..143450f 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -289,7 +289,7 @@ std::vector<quadrature_point<T,DIM>>
 dunavant(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, const point<T,DIM>& p2)
 {
     auto max_degree = sizeof(priv::dunavant_rules)/sizeof(priv::dunavant_rule);
-    if (degree > max_degree)
+    if (degree >= max_degree)
         throw std::invalid_argument("Dunavant quadrature: degree too high");
 
     size_t rule_num = (degree == 0) ? 0 : degree - 1;
-- 
2.43.0


From 0765199cd08f69228b076a57d45cfe60d4c35c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 016/112] fix: high order triangle quadratures work on
 triangles in 3D

---
 .../diskpp/quadratures/bits/quad_raw_triangle.hpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 143450f..977fea0 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -2632,8 +2632,9 @@ triangle_gauss(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, co
     }
     else 
     {
+        /* Compute on the reference triangle and map, the element can be in 3D. */
         Eigen::Matrix<double,3,2> vertices;
-        vertices << p0.x(), p0.y(), p1.x(), p1.y(), p2.x(), p2.y();  
+        vertices << 0.0, 0.0, 1.0, 0.0, 0.0, 1.0;
 
         auto qinfo = triquad(degree, vertices);
 
@@ -2643,8 +2644,12 @@ triangle_gauss(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, co
 
         ret.reserve(degree*degree);
 
+        auto area = area_triangle_kahan(p0, p1, p2);
+        auto v0 = p1-p0;
+        auto v1 = p2-p0;
+
         for(size_t i = 0; i < qX.size(); i++ )
-            ret.push_back({point<T,DIM>({qX[i], qY[i]}), qw[i]});        
+            ret.push_back({p0 + v0*T(qX[i]) + v1*T(qY[i]), T(2.0*qw[i]*area)});
     }
 
     return ret;
-- 
2.43.0


From c0c2c5acd3072c7eeac9e5e34775434379607adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 017/112] fix: tetrahedral quadratures of too high degree throw
 instead of exiting

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp
index dc64e4c..7ebeec1 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp
@@ -12,6 +12,7 @@
 
 #include "diskpp/mesh/point.hpp"
 #include "diskpp/quadratures/quadrature_point.hpp"
+#include <stdexcept>
 #include <vector>
 
 #include "simplex_gm_rule.hpp"
@@ -49,6 +50,10 @@ template<typename T>
 std::vector<quadrature_point<T, 3>>
 arbq(size_t degree, const point<T, 3>& p0, const point<T, 3>& p1, const point<T, 3>& p2, const point<T, 3>& p3)
 {
+    /* The tables stop there and the rule would terminate the program. */
+    if (degree > 15)
+        throw std::invalid_argument("Arbq quadrature: degree too high");
+
     int rule = degree;
     if (rule == 0)
         rule = 1;
-- 
2.43.0


From 1b71278e40ddb8bad66b8851f892ecf8bca2d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 018/112] fix: no read past the triangle rules for high degrees
 on polygonal faces

---
 libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
index 6ed4fba..5e6d2fa 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
@@ -162,7 +162,6 @@ integrate_polyhedron_face(const disk::generic_mesh<T, 3>&                msh,
     const auto rss = split_in_raw_triangles(msh, fc);
 
     std::vector<quadpoint_type> ret;
-    ret.reserve(quadrature::priv::triangle_gauss_rules[degree].num_points * rss.size());
     for (auto& rs : rss)
     {
         const auto pts = rs.points();
-- 
2.43.0


From 1048e802a766dc4cc86cc87137415415912b98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 019/112] fix: triangle quadrature of degree 21 has order 21

---
 .../include/diskpp/quadratures/bits/quad_raw_triangle.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 977fea0..77cc014 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -2580,7 +2580,8 @@ static struct triangle_gauss_rule triangle_gauss_rules[] = {
     { sizeof(triangle_gauss_rule_18)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_18 },
     { sizeof(triangle_gauss_rule_19)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_19 },
     { sizeof(triangle_gauss_rule_20)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_20 },
-    { sizeof(triangle_gauss_rule_21)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_21 },
+    /* rule 21 is a copy of rule 20 and has order 20 */
+    { sizeof(triangle_gauss_rule_22)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_22 },
     { sizeof(triangle_gauss_rule_22)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_22 },
     { sizeof(triangle_gauss_rule_23)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_23 },
     { sizeof(triangle_gauss_rule_24)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_24 },
-- 
2.43.0


From 252390a4852020f9228100a3a2fcbef5fdc86936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 020/112] fix: derivatives of the Legendre polynomials of
 degree 8 and 10

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index be7a593..b64f8f7 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -628,11 +628,11 @@ class legendre_1D
             case 5: val = (315 * pows[4] - 210 * pows[2] + 15) / 8; break;
             case 6: val = (1386 * pows[5] - 1260 * pows[3] + 210 * pows[1]) / 16; break;
             case 7: val = (3003 * pows[6] - 3465 * pows[4] + 945 * pows[2] - 35) / 16; break;
-            case 8: val = (51480 * pows[7] - 72012 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
+            case 8: val = (51480 * pows[7] - 72072 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
             case 9: val = (109395 * pows[8] - 180180 * pows[6] + 90090 * pows[4] - 13860 * pows[2] + 315) / 128; break;
             case 10:
                 val =
-                  (461890 * pows[9] - 875160 * pows[7] + 450450 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
+                  (461890 * pows[9] - 875160 * pows[7] + 540540 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
                 break;
         }
         return val / sqrt(T(2) / T(2 * degree + 1));
-- 
2.43.0


From a594824951d0ffbe8c569cb2332c1a4f86c60a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 021/112] fix: normalization of the Legendre basis on the faces
 of 2D meshes

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index b64f8f7..01999e1 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -882,7 +882,7 @@ class scaled_legendre_scalar_basis<Mesh<T, 2, Storage>, typename Mesh<T, 2, Stor
     eval_functions(const point_type& pt) const
     {
         const auto        ep      = this->scaling_point(pt);
-        const scalar_type scaling = this->scaling_factor();
+        const scalar_type scaling = sqrt(this->scaling_factor());
 
         return leg_x.eval_functions(ep.x()) * scaling;
     }
-- 
2.43.0


From f82082d3a4c7d3b113418a5372e227df24bb443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 022/112] fix: scaling of the gradients of the harmonic
 functions

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 01999e1..e8ac662 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1448,7 +1448,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 2) =
-                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
+                (2.0/diam)*hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
         }
         return ret;
     }
@@ -1696,7 +1696,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                (2.0/diam)*hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
@@ -1954,7 +1954,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                (2.0/diam)*hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
-- 
2.43.0


From 6205472a660b3b491350797954cbd10c7e3c8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 023/112] fix: 3D harmonic functions and gradients are finite
 on the axis y = z = 0

---
 .../include/diskpp/bases/bases_scalar.hpp     | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index e8ac662..202123c 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1752,32 +1752,21 @@ private:
         cs_matrix_type Ss = cs_matrix_type::Zero(hmd+1, hmd+1);
         Cs(0,0) = 1.0;
 
-        if (hmd > 0) {
-            Cs(1,0) = bp.x();
-            Cs(1,1) = bp.y();
-            Ss(1,1) = bp.z();
-        }
+        const auto R2 = bp.x()*bp.x() + bp.y()*bp.y() + bp.z()*bp.z();
 
-        auto R2 = bp.x()*bp.x() + bp.y()*bp.y() + bp.z()*bp.z();
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
-
-        for(int n = 0; n <= hmd; n++) {
-            for (int m = 0; m <= n; m++) {
-                if (n >= 2 && m < n) {
-                    auto multn = 2*(m+1);
-                    auto multd = (n+m+1)*r2;
-                    auto mult = multn/multd;
-                    auto c1 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.y();
-                    auto c2 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.z();
-                    Cs(n,m+1) = mult*(c1-c2);
-                    auto s1 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.y();
-                    auto s2 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.z();
-                    Ss(n,m+1) = mult*(s1+s2);
-                }
-                if (n >= 1 and m < 2 and n < hmd) {
-                    auto mult = 1.0/(n+m+1.0);
-                    Cs(n+1,m) = mult*( (2*n+1)*bp.x()*Cs(n,m) - (n-m)*R2*Cs(n-1, m) );
-                    Ss(n+1,m) = mult*( (2*n+1)*bp.x()*Ss(n,m) - (n-m)*R2*Ss(n-1, m) );
+        for (size_t m = 0; m <= hmd; m++) {
+            if (m > 0) {
+                Cs(m,m) = bp.y()*Cs(m-1,m-1) - bp.z()*Ss(m-1,m-1);
+                Ss(m,m) = bp.y()*Ss(m-1,m-1) + bp.z()*Cs(m-1,m-1);
+            }
+
+            for (size_t n = m; n < hmd; n++) {
+                const auto mult = 1.0/(n+m+1.0);
+                Cs(n+1,m) = mult*(2*n+1)*bp.x()*Cs(n,m);
+                Ss(n+1,m) = mult*(2*n+1)*bp.x()*Ss(n,m);
+                if (n > m) {
+                    Cs(n+1,m) -= mult*(n-m)*R2*Cs(n-1,m);
+                    Ss(n+1,m) -= mult*(n-m)*R2*Ss(n-1,m);
                 }
             }
         }
@@ -1821,21 +1810,36 @@ private:
         auto [Cs, Ss] = eval_cs(bp);
         gradient_type ret = gradient_type::Zero(bsize, 3);
         
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
+        /* Factors of the functions of orders m-1 and m+1 in the derivatives
+         * along y and z of the functions of order m. */
+        const auto lower = [](size_t m) -> scalar_type { return m; };
+        const auto upper = [](size_t n, size_t m) -> scalar_type {
+            return scalar_type((n-m)*(n-m-1)) / scalar_type(m == 0 ? 2 : 4*(m+1));
+        };
 
         size_t ofs = 1;
         for(size_t n = 1; n <= hmd; n++) {
             for (size_t m = 0; m <= n; m++) {
                 ret(ofs, 0) = (n-m)*Cs(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) + m*Ss(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) - m*Ss(n,m)*bp.y()/r2;
+                if (m > 0) {
+                    ret(ofs, 1) += lower(m)*Cs(n-1,m-1);
+                    ret(ofs, 2) -= lower(m)*Ss(n-1,m-1);
+                }
+                if (m+2 <= n) {
+                    ret(ofs, 1) -= upper(n,m)*Cs(n-1,m+1);
+                    ret(ofs, 2) -= upper(n,m)*Ss(n-1,m+1);
+                }
                 ofs++;
             }
 
             for (size_t m = 1; m <= n; m++) {
                 ret(ofs, 0) = (n-m)*Ss(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) - m*Cs(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) + m*Cs(n,m)*bp.y()/r2;
+                ret(ofs, 1) += lower(m)*Ss(n-1,m-1);
+                ret(ofs, 2) += lower(m)*Cs(n-1,m-1);
+                if (m+2 <= n) {
+                    ret(ofs, 1) -= upper(n,m)*Ss(n-1,m+1);
+                    ret(ofs, 2) += upper(n,m)*Cs(n-1,m+1);
+                }
                 ofs++;
             }
         }
-- 
2.43.0


From 168158432b19781514b14e7d80bd3417498c6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 024/112] fix: Raviart-Thomas basis of lowest order on
 tetrahedra has its fourth function

---
 .../include/diskpp/bases/bases_vector.hpp     | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_vector.hpp b/libdiskpp/include/diskpp/bases/bases_vector.hpp
index ac47f94..6194c63 100644
--- a/libdiskpp/include/diskpp/bases/bases_vector.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_vector.hpp
@@ -892,10 +892,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
         ret.block(0, 0, vector_basis.size(), 3) = vector_basis.eval_functions(pt);
 
         const auto sphi = scalar_basis.eval_functions(pt);
-        size_t     deg  = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg  = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
@@ -922,10 +921,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
 
         const auto sphi  = scalar_basis.eval_functions(pt);
         const auto sdphi = scalar_basis.eval_gradients(pt);
-        size_t     deg   = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg   = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
@@ -1003,10 +1001,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 2, Storage>, typename Mesh<T, 2, S
         ret.block(0, 0, vector_basis.size(), 2) = vector_basis.eval_functions(pt);
 
         const auto sphi = scalar_basis.eval_functions(pt);
-        size_t     deg  = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(basis_degree - 2, 2);
+        size_t     beg  = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 2);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
@@ -1031,10 +1028,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 2, Storage>, typename Mesh<T, 2, S
 
         const auto sphi  = scalar_basis.eval_functions(pt);
         const auto sdphi = scalar_basis.eval_gradients(pt);
-        size_t     deg   = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(basis_degree - 2, 2);
+        size_t     beg   = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 2);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
-- 
2.43.0


From ef01b6401d769f8c3c3f246e1355269126c5f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 025/112] fix: number of functions of the 3D symmetric
 Raviart-Thomas basis

---
 libdiskpp/include/diskpp/bases/bases_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_matrix.hpp b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
index 057fc3c..9ef25f3 100644
--- a/libdiskpp/include/diskpp/bases/bases_matrix.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
@@ -752,7 +752,7 @@ class scaled_monomial_sym_matrix_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T,
         const auto sphi = scalar_basis.eval_functions(pt);
         size_t     beg  = 0;
         if (basis_degree >= 2)
-            beg = scalar_basis_size(basis_degree - 2, 2);
+            beg = scalar_basis_size(basis_degree - 2, 3);
 
         const auto bx = (pt.x() - cell_bar.x());
         const auto by = (pt.y() - cell_bar.y());
-- 
2.43.0


From 2766819a3a514a7a9dc3cd360a074f180e6320c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 026/112] fix: frame of 3D faces with aligned vertices

---
 libdiskpp/include/diskpp/bases/bases_all.hpp | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_all.hpp b/libdiskpp/include/diskpp/bases/bases_all.hpp
index 3ade87c..e803e72 100644
--- a/libdiskpp/include/diskpp/bases/bases_all.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_all.hpp
@@ -442,29 +442,33 @@ class scaled_monomial_abstract_face_basis<Mesh<T, 3, Storage>, typename Mesh<T,
         vector_type v0;
         vector_type v1;
 
-        bool ok = false;
-
-        const auto pts = points(msh, fc);
+        /* Cosine of the angle at the best corner found so far */
+        coordinate_type best = 1;
 
+        const auto   pts  = points(msh, fc);
         const size_t npts = pts.size();
         for (size_t i = 1; i <= npts; i++)
         {
+            const size_t ic = i % npts;
             const size_t i0 = (i + 1) % npts;
             const size_t i1 = (i - 1) % npts;
-            v0              = (pts[i0] - pts[i]).to_vector();
-            v1              = (pts[i1] - pts[i]).to_vector();
 
-            const vector_type v0n = v0 / v0.norm();
-            const vector_type v1n = v1 / v1.norm();
+            const vector_type w0 = (pts[i0] - pts[ic]).to_vector();
+            const vector_type w1 = (pts[i1] - pts[ic]).to_vector();
 
-            if (v0n.dot(v1n) < 0.99) // we want at least 8 degrees angle
+            const auto cosine = std::abs(w0.dot(w1)) / (w0.norm() * w1.norm());
+            if (cosine < best)
             {
-                ok = true;
-                break;
+                best = cosine;
+                v0   = w0;
+                v1   = w1;
             }
+
+            if (best < 0.99) // we want at least 8 degrees angle
+                break;
         }
 
-        if (!ok)
+        if (best > 1 - 1e-10)
             throw std::invalid_argument("Degenerate polyhedron, cannot proceed");
 
         e0 = v0 / v0.norm();
-- 
2.43.0


From cabd1ba06783313fbd35da5f2bc70f82e8e2f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 027/112] fix: gradient of the 1D composable basis of degree 0

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 0146597..70e3d0a 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -159,7 +159,8 @@ public:
         auto ep = phys2ref(pt);
 
         ret(0) = 0.;
-        ret(1) = scale_/h_;
+        if (degree_ > 0)
+            ret(1) = scale_/h_;
         for (size_t k = 2; k <= degree_; k++)
             ret(k) = ret(k-1)*k*ep.x()/(k-1);
 
-- 
2.43.0


From 1a7681228844435e6b735b1dcbf748589bbc75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 028/112] fix: changing the scale factor rescales the
 composable bases consistently

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 70e3d0a..413dbc3 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -106,7 +106,7 @@ private:
         auto bv = (pb_ - bar_).to_vector();
         auto dv = (pt - bar_).to_vector();
         auto nbv = h_/scale_;
-        return point_type( bv.dot(dv)/(nbv*nbv) );
+        return point_type( bv.dot(dv)/(nbv*bv.norm()) );
     }
 
     std::pair<size_t, size_t>
@@ -413,6 +413,7 @@ public:
     }
 
     void scalefactor(CoordT sf) {
+        tr_ *= sf/scale_;
         scale_ = sf;
     }
 
-- 
2.43.0


From 1dd2c3ea4392d89a046fb5d0578da9735d67a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 029/112] fix: gradients of the composable bases on 3D faces
 have three components

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 413dbc3..355836a 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -684,7 +684,7 @@ class scalar_monomial<Mesh<CoordT, 3, Storage>, typename Mesh<CoordT, 3, Storage
     static const size_t tensor_order = 0; /* scalar */
     using value_type = typename tensor<scalar_type, basis_dimension, tensor_order>::value_type;
     using value_array_type = typename tensor<scalar_type, basis_dimension, tensor_order>::array_type;
-    using gradient_array_type = typename tensor<scalar_type, basis_dimension, tensor_order + 1>::array_type;
+    using gradient_array_type = typename tensor<scalar_type, immersion_dimension, tensor_order + 1>::array_type;
 
 private:
     using tr_mat_type = Eigen::Matrix<coordinate_type, immersion_dimension, immersion_dimension>;
-- 
2.43.0


From 093f10c0b51f67217e44f3b7b746eafb7e735754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 030/112] fix: L2_projector integrates products with bases of
 higher degree exactly

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 355836a..a22288b 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -834,6 +834,8 @@ class L2_projector
     static const size_t immersion_dimension = Basis::immersion_dimension;
 
     const Basis& basis_;
+    const mesh_type& msh_;
+    element_type elem_;
 
     using matrix_type = Eigen::Matrix<scalar_type, Eigen::Dynamic, Eigen::Dynamic>;
     using vector_type = Eigen::Matrix<scalar_type, Eigen::Dynamic, 1>;
@@ -845,7 +847,7 @@ class L2_projector
 
 public:
     L2_projector(const mesh_type& msh, const element_type& elem, const Basis& pb)
-        : basis_(pb)
+        : basis_(pb), msh_(msh), elem_(elem)
     {
         auto degree = basis_.integration_degree()*2;
         mass_ = matrix_type::Zero(basis_.size(), basis_.size());
@@ -877,7 +879,8 @@ public:
     {
         auto degree = basis_.integration_degree() + other.integration_degree();
         matrix_type rhs = matrix_type::Zero(basis_.size(), other.size());
-        for (auto& qp : qps_) {
+        auto qps = integrate(msh_, elem_, degree);
+        for (auto& qp : qps) {
             auto test = basis_(qp.point());
             auto trial = other(qp.point());
             /* This must be fixed, for now it works only with
-- 
2.43.0


From 68cdf593f1019e423226aa291fb17e61bf8d80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 031/112] fix: local axes of 2D elements with aligned vertices

---
 libdiskpp/include/diskpp/geometry/geometry_all.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 25041c4..c73041a 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -594,6 +594,11 @@ element_local_axes(const std::array<point<T,DIM>, N>& pts)
     auto v0 = (pts[1] - pts[0]).to_vector();
     auto v1 = (pts[2] - pts[0]).to_vector();
     v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+    /* The first three points can be aligned: use another one in that case */
+    for (size_t i = 3; i < pts.size() && v1.norm() < 1e-8*diam; i++) {
+        v1 = (pts[i] - pts[0]).to_vector();
+        v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0));
+    }
     auto scale = 2*v0.norm()/diam;
     ret.col(0) = v0/scale;
     ret.col(1) = v1/scale;
@@ -615,6 +620,11 @@ element_local_axes(const std::vector<point<T,DIM>>& pts)
     auto v0 = (pts[1] - pts[0]).to_vector();
     auto v1 = (pts[2] - pts[0]).to_vector();
     v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+    /* The first three points can be aligned: use another one in that case */
+    for (size_t i = 3; i < pts.size() && v1.norm() < 1e-8*diam; i++) {
+        v1 = (pts[i] - pts[0]).to_vector();
+        v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0));
+    }
     auto scale = 2*v0.norm()/diam;
     ret.col(0) = v0/scale;
     ret.col(1) = v1/scale;
-- 
2.43.0


From cf836f3b22f05ea7d0a1f252cf067fa3d2b66f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 032/112] fix: composable bases on 3D faces with aligned
 vertices

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index a22288b..57660fe 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -708,6 +708,11 @@ private:
         //#if 0
         v0_ = u0;
         v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+        /* The first three points can be aligned: use another one in that case */
+        for (size_t i = 3; i < pts.size() && v1_.norm() < 1e-8*v0_.norm(); i++) {
+            u1 = (pts[i] - pts[0]).to_vector();
+            v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+        }
         v2_ = v0_.cross(v1_);
 
         tr_.col(0) = v0_;
-- 
2.43.0


From 8f56b0de141f6d52efd3ccf69507f157d6b624d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 033/112] fix: product of a nonsymmetric material tensor and a
 basis

---
 libdiskpp/include/diskpp/bases/bases_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_operations.hpp b/libdiskpp/include/diskpp/bases/bases_operations.hpp
index 4081692..ba69843 100644
--- a/libdiskpp/include/diskpp/bases/bases_operations.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_operations.hpp
@@ -248,11 +248,11 @@ struct material_prod_evaluator
 
 private:
     auto eval(const point_type& pt, const variable_material_tensor<Basis>& pmt) const {
-        return (basis(pt)*pmt(pt)).eval();
+        return (basis(pt)*pmt(pt).transpose()).eval();
     }
 
     auto eval(const point_type& pt, const piecewise_material_tensor<Basis>& pmt) const {
-        return (basis(pt)*pmt).eval();
+        return (basis(pt)*pmt.transpose()).eval();
     }
 };
 
-- 
2.43.0


From f28b87999864f6b04013c07879e47844235cf728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 034/112] fix: normal component of the gradients of the
 composable bases on 3D faces

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 57660fe..8a87c7a 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -789,6 +789,7 @@ public:
                 vec_type tmp_grad;
                 tmp_grad(0) = dx*py;
                 tmp_grad(1) = px*dy;
+                tmp_grad(2) = 0.0;
                 ret.block(pos, 0, 1, immersion_dimension) = tmp_grad.transpose()*tr_;
                 pos++;
             }
-- 
2.43.0


From 639dba0e40e8a4935b5d93886a6438e29963eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 035/112] fix: harmonic functions and gradients share one
 scaling, gradients as they were

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 202123c..feb1df8 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1414,7 +1414,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (0.5*diam)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1448,7 +1448,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 2) =
-                (2.0/diam)*hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
+                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 2);
         }
         return ret;
     }
@@ -1646,7 +1646,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (0.5*diam)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1696,7 +1696,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                (2.0/diam)*hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
@@ -1908,7 +1908,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (0.5*diam)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1958,7 +1958,7 @@ public:
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             gradient_type hg = eval_harmonic_gradients(hep);
             ret.block(ret.rows()-harmonic_part_size, 0, harmonic_part_size, 3) =
-                (2.0/diam)*hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
+                hg.block(hg.rows()-harmonic_part_size, 0, harmonic_part_size, 3);
         }
         return ret;
     }
-- 
2.43.0


From 108c634436ac58f40a8936dfc5fe4cebffcd3b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 036/112] fix: make_scalar_dg_stabilization_fluxes could not be
 instantiated

---
 .../diskpp/methods/implementation_hho/scalar_stabilization.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index d647491..a206465 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -1044,7 +1044,7 @@ make_scalar_dg_stabilization_fluxes(const Mesh&                     msh,
 {
     const auto stab    = make_scalar_dg_stabilization_diff(msh, cl, cell_infos, hF);
     const auto adjoint = make_scalar_stabilization_fluxes(msh, cl, cell_infos, stab, hF);
-    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos, hF);
+    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos);
 }
 
 /**
-- 
2.43.0


From a8107cabd64d8ea76d0025d0db16aa0f42359ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 037/112] fix: fluxes of the HHO stabilization use the
 requested length scale

---
 .../diskpp/methods/implementation_hho/scalar_stabilization.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index a206465..09ba202 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -936,7 +936,7 @@ make_scalar_hho_stabilization_fluxes(const Mesh&              msh,
     using T = typename Mesh::coordinate_type;
     typedef Matrix<T, Dynamic, Dynamic> matrix_type;
 
-    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos);
+    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos, hF);
 
     const auto celdeg = cell_infos.cell_degree();
 
-- 
2.43.0


From 630390f665e5fbb1710fc6fa0472e5bd592f64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 038/112] fix: faces without unknowns do not count in the HHO
 difference space

---
 .../diskpp/methods/implementation_hho/utils_hho.hpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index 1d89945..b9ea3a3 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -358,8 +358,11 @@ scalar_diff_dofs(const Mesh& msh, const CellDegreeInfo<Mesh>& cell_infos)
 
     for (auto fdi : faces_infos)
     {
-        const auto fbs = scalar_face_dofs(msh, fdi);
-        num_dofs += std::max(dbs, fbs);
+        if (fdi.hasUnknowns())
+        {
+            const auto fbs = scalar_face_dofs(msh, fdi);
+            num_dofs += std::max(dbs, fbs);
+        }
     }
 
     return num_dofs;
-- 
2.43.0


From 19f099b76d8255e1c39cf42d69fb72263bce5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 039/112] fix: static condensation of indefinite, nonsymmetric
 or complex symmetric cell blocks

---
 .../methods/implementation_hho/curl.hpp       | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index 384c96b..bbda608 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -569,12 +569,13 @@ static_condensation(const dynamic_matrix<T>& lhs, const dynamic_vector<T>& rhs,
     dynamic_vector<T> bT = rhs.segment(     0, t_size);
     dynamic_vector<T> bF = rhs.segment(tf_bnd, f_size);
 
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* LTT can be indefinite, nonsymmetric or complex symmetric, LDLT won't do */
+    PartialPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if ((lu_LTT.matrixLU().diagonal().array() == T(0)).any())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    dynamic_matrix<T> LC = LFF - LFT*ldlt_LTT.solve(LTF);
-    dynamic_vector<T> bC = bF - LFT*ldlt_LTT.solve(bT);
+    dynamic_matrix<T> LC = LFF - LFT*lu_LTT.solve(LTF);
+    dynamic_vector<T> bC = bF - LFT*lu_LTT.solve(bT);
 
     return std::make_pair(LC, bC);
 }
@@ -592,11 +593,12 @@ static_condensation(const dynamic_matrix<T>& lhs,
     dynamic_matrix<T> LFT = lhs.block(tf_bnd,      0, f_size, t_size);
     dynamic_matrix<T> LFF = lhs.block(tf_bnd, tf_bnd, f_size, f_size);
 
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* LTT can be indefinite, nonsymmetric or complex symmetric, LDLT won't do */
+    PartialPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if ((lu_LTT.matrixLU().diagonal().array() == T(0)).any())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    dynamic_matrix<T> LC = LFF - LFT*ldlt_LTT.solve(LTF);
+    dynamic_matrix<T> LC = LFF - LFT*lu_LTT.solve(LTF);
 
     return LC;
 }
@@ -616,11 +618,12 @@ static_decondensation(const dynamic_matrix<T>& lhs, const dynamic_vector<T>& rhs
     dynamic_vector<T> bT = rhs.segment(0, t_size);
 
     dynamic_vector<T> ret = dynamic_vector<T>::Zero(lhs.rows());
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* LTT can be indefinite, nonsymmetric or complex symmetric, LDLT won't do */
+    PartialPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if ((lu_LTT.matrixLU().diagonal().array() == T(0)).any())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    ret.segment(     0, t_size) = ldlt_LTT.solve(bT - LTF*uF);
+    ret.segment(     0, t_size) = lu_LTT.solve(bT - LTF*uF);
     ret.segment(tf_bnd, f_size) = uF;
 
     return ret;
@@ -639,11 +642,12 @@ static_decondensation(const dynamic_matrix<T>& lhs,
     dynamic_matrix<T> LTF = lhs.block(0, tf_bnd, t_size, f_size);
 
     dynamic_matrix<T> ret = dynamic_matrix<T>::Zero(lhs.rows(), uF.cols());
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* LTT can be indefinite, nonsymmetric or complex symmetric, LDLT won't do */
+    PartialPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if ((lu_LTT.matrixLU().diagonal().array() == T(0)).any())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    ret.block(0, 0, t_size, uF.cols()) = ldlt_LTT.solve(-LTF*uF);
+    ret.block(0, 0, t_size, uF.cols()) = lu_LTT.solve(-LTF*uF);
     ret.block(tf_bnd, 0, f_size, uF.cols()) = uF;
 
     return ret;
-- 
2.43.0


From a58eef8ec5ef84a41b2eea4c95d3ada71741f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 040/112] fix: vector HHO reconstruction with the degrees of
 the mesh did not compile

---
 .../diskpp/methods/implementation_hho/vector_hho_laplacian.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
index efc2e1f..f679c98 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
@@ -195,7 +195,7 @@ make_vector_hho_laplacian(const Mesh& msh, const typename Mesh::cell_type& cl, c
 {
     const auto hho_scalar_laplacian = make_scalar_hho_laplacian(msh, cl, mesh_infos);
 
-    return make_vector_hho_laplacian(msh, cl, mesh_infos.cellDegreeInfo(msh, cl), hho_scalar_laplacian);
+    return make_vector_hho_laplacian(msh, cl, mesh_infos, hho_scalar_laplacian);
 }
 
 template<typename Mesh>
-- 
2.43.0


From 5316684700d5c179d3d171d617879dc1b8b2175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 041/112] fix: Raviart-Thomas gradient reconstructions did not
 compile

---
 .../methods/implementation_hho/vector_hho_gradrec.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index 2a726bf..eed9722 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -302,7 +302,7 @@ make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl,
 
     const CellDegreeInfo<Mesh> cell_infos(msh, cl, di.cell_degree(), di.face_degree(), di.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
@@ -332,9 +332,9 @@ std::pair<dynamic_matrix<typename Mesh::coordinate_type>, dynamic_matrix<typenam
 make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl, const MeshDegreeInfo<Mesh>& msh_infos)
 {
     const auto cell_infos = msh_infos.cellDegreeInfo(msh, cl);
-    const auto gb         = make_vector_monomial_basis(msh, cl, cell_infos.grad_degree());
+    const auto gb         = make_vector_monomial_basis_RT(msh, cl, cell_infos.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
-- 
2.43.0


From 5a5734c48b2e98622b97b3e17ce6527c8281490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 042/112] fix: gradient and divergence reconstructions ignored
 faces without unknowns

---
 .../implementation_hho/scalar_hho_divrec.hpp       | 14 ++++++++++++++
 .../implementation_hho/vector_hho_gradrec.hpp      | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
index e2e6cef..7f12266 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
@@ -139,6 +139,20 @@ make_hho_divergence_reconstruction_rhs(const Mesh&                     msh,
 
             offset += fbs;
         }
+        else
+        {
+            // no unknowns on this face: the trace of vT is used instead of vF
+            const auto fc    = fcs[i];
+            const auto n     = normal(msh, cl, fc);
+            const auto qps_f = integrate(msh, fc, celdeg + recdeg);
+            for (auto& qp : qps_f)
+            {
+                const auto s_phi      = cbas_s.eval_functions(qp.point());
+                const auto c_phi      = cbas_v.eval_functions(qp.point());
+                const auto qp_c_phi_n = priv::inner_product(c_phi, priv::inner_product(qp.weight(), n));
+                dr_rhs.block(0, 0, rbs, cbs) += priv::outer_product(s_phi, qp_c_phi_n);
+            }
+        }
     }
 
     return dr_rhs;
diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index eed9722..fb61da3 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -105,6 +105,20 @@ make_vector_hho_gradrec_impl(const Mesh&                     msh,
             }
             offset += fbs;
         }
+        else
+        {
+            // no unknowns on this face: the trace of vT is used instead of vF
+            const auto fc    = fcs[i];
+            const auto n     = normal(msh, cl, fc);
+            const auto qps_f = integrate(msh, fc, graddeg + celdeg);
+            for (auto& qp : qps_f)
+            {
+                const vector_type c_phi      = cb.eval_functions(qp.point());
+                const auto        g_phi      = gb.eval_functions(qp.point());
+                const vector_type qp_g_phi_n = g_phi * (qp.weight() * n);
+                gr_rhs.block(0, 0, gbs, cbs) += priv::outer_product(qp_g_phi_n, c_phi);
+            }
+        }
     }
 
     matrix_type oper = gr_lhs.ldlt().solve(gr_rhs);
-- 
2.43.0


From 8964d2f964ab97b50a34d1a6af0510076505833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 043/112] fix: projection on the faces used the quadrature of
 the cell

---
 libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index bbda608..bf68817 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -401,7 +401,7 @@ maxwell_prj(const Mesh& msh, const typename Mesh::cell_type& cl,
     {
         const auto& fc = fcs[i];
         const auto fb = make_vector_monomial_tangential_basis(msh, fc, hdi.face_degree());
-        const auto qps_f = integrate(msh, cl, 2*hdi.face_degree());
+        const auto qps_f = integrate(msh, fc, 2*hdi.face_degree());
         dynamic_matrix<T> fmat = dynamic_matrix<T>::Zero(fbs, fbs);
         dynamic_matrix<T> frhs = dynamic_vector<T>::Zero(fbs);
         for (const auto& qp : qps_f)
-- 
2.43.0


From 42de73ff57f0e2c4c3731cb15daaf10642759d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 044/112] fix: curl reconstructions integrated their mass
 matrix with a too low order

---
 libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index bf68817..4ffc2da 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -443,7 +443,7 @@ curl_reconstruction_pk(const Mesh&                       msh,
     matrix_type mass = matrix_type::Zero(rbs, rbs);
     matrix_type cr_rhs = matrix_type::Zero(rbs, cbs + num_faces_dofs);
 
-    const auto qps = integrate(msh, cl, 2*celdeg+2);
+    const auto qps = integrate(msh, cl, 2*std::max(celdeg+1, recdeg));
     for (auto& qp : qps)
     {
         const auto r_phi = rb.eval_functions(qp.point());
@@ -510,7 +510,7 @@ curl_reconstruction_nedelec(const Mesh&                       msh,
     matrix_type mass = matrix_type::Zero(rbs, rbs);
     matrix_type cr_rhs = matrix_type::Zero(rbs, cbs + num_faces_dofs);
 
-    const auto qps = integrate(msh, cl, 2*celdeg+2);
+    const auto qps = integrate(msh, cl, 2*std::max(celdeg+1, recdeg));
     for (auto& qp : qps)
     {
         const auto r_phi = rb.eval_functions(qp.point());
-- 
2.43.0


From 0b8c50bfb039e3fb45f49ff48e69e80efbadcc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 045/112] fix: boundary conditions counted re-registered faces
 twice

---
 .../boundary_conditions.hpp                    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index c2fc2ff..0c4fa4a 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -252,8 +252,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_contact_face(face_id))
+                m_contact_faces++;
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, -1);
-            m_contact_faces++;
         }
     }
 
@@ -269,8 +270,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_contact_face(face_id))
+                m_contact_faces++;
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_contact_faces++;
         }
     }
 
@@ -287,8 +289,9 @@ class BoundaryConditions
 
             const auto face_id = m_msh.lookup(bfc);
 
+            if (!is_dirichlet_face(face_id))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, 0, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -304,8 +307,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_robin_face(face_id))
+                m_robin_faces++;
             m_faces_is_robin.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_robin_faces++;
         }
     }
 
@@ -320,8 +324,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_dirichlet_face(face_id))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -336,8 +341,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_neumann_face(face_id))
+                m_neumann_faces++;
             m_faces_is_neumann.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_neumann_faces++;
         }
     }
 
-- 
2.43.0


From 00432ae0bb357cc7ff0f4db079d3195eda4ef6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 046/112] fix: contact_boundary_id of a face returned the Robin
 boundary id

---
 .../include/diskpp/boundary_conditions/boundary_conditions.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index 0c4fa4a..bc7472f 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -523,7 +523,7 @@ class BoundaryConditions
     size_t
     contact_boundary_id(const face_type& fc) const
     {
-        return robin_boundary_id(m_msh.lookup(fc));
+        return contact_boundary_id(m_msh.lookup(fc));
     }
 
     bool
-- 
2.43.0


From 48b1924c495916e82b31ebb440a56b15d64cec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 047/112] fix: addDirichletEverywhere lost the boundary id of
 the faces

---
 .../include/diskpp/boundary_conditions/boundary_conditions.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index bc7472f..d80837e 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -291,7 +291,7 @@ class BoundaryConditions
 
             if (!is_dirichlet_face(face_id))
                 m_dirichlet_faces++;
-            m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, 0, bcf_id);
+            m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, m_msh.boundary_id(face_id), bcf_id);
         }
     }
 
-- 
2.43.0


From 69e1572e56ff4726c2fb2ed12ab19a18a312450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 048/112] fix: MeshDegreeInfo setters could not be instantiated

---
 libdiskpp/include/diskpp/adaptivity/adaptivity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
index 61d3fb1..755cadd 100644
--- a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
+++ b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
@@ -336,7 +336,7 @@ class MeshDegreeInfo
     degreeInfo(const MeshType& msh, const cell_type& cl, const DegreeInfo& di)
     {
         const auto cell_id             = msh.lookup(cl);
-        return m_cells_degree[cell_id] = di;
+        m_cells_degree[cell_id] = di;
     }
 
     DegreeInfo
@@ -366,7 +366,7 @@ class MeshDegreeInfo
     degreeInfo(const MeshType& msh, const face_type& fc, const DegreeInfo& di)
     {
         const auto face_id             = msh.lookup(fc);
-        return m_faces_degree[face_id] = di;
+        m_faces_degree[face_id] = di;
     }
 
     std::vector<DegreeInfo>
-- 
2.43.0


From b7c6de2189816cad70f81045297c740f69997498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 049/112] fix: face offsets of a degree map could not be
 instantiated

---
 .../include/diskpp/methods/implementation_hho/utils_hho.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index b9ea3a3..0b4da5b 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -321,7 +321,7 @@ scalar_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += scalar_face_dofs(msh, fc);
+        num_dofs += scalar_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
@@ -340,7 +340,7 @@ vector_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += vector_face_dofs(msh, fc);
+        num_dofs += vector_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
-- 
2.43.0


From ef15f5e9a114548670a050ca4385a7cad04e0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 050/112] fix: scalar interpolation with a degree map could not
 be instantiated

---
 .../include/diskpp/methods/implementation_hho/methods_hho.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
index 9c076b7..53e1a7d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
@@ -303,7 +303,7 @@ project_function(const Mesh&                      msh,
     const auto cdi    = degree_infos.cellDegreeInfo(msh, cl);
     const auto fcs_di = cdi.facesDegreeInfo();
 
-    const auto num_faces_dofs = scalar_faces_dofs(msh, cl, fcs_di);
+    const auto num_faces_dofs = scalar_faces_dofs(msh, fcs_di);
 
     const auto cbs = scalar_basis_size(cdi.cell_degree(), Mesh::dimension);
 
-- 
2.43.0


From 0807ceb4d8ff970d424858d26ed609ace59f96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 051/112] fix: traction on partially constrained faces went to
 wrong unknowns in the vector assemblers

---
 .../implementation_hho/assembler_hho.hpp      | 57 ++++++++++---------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 6ed23c3..e6c7f32 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -2249,6 +2249,7 @@ class assembler_mechanics
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t sol_ind = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case disk::DIRICHLET:
@@ -2267,10 +2268,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + sol_ind++) += neumann(i + 1);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + sol_ind++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2279,10 +2280,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) = neumann(i);
+                                    RHS(face_offset + sol_ind++) += neumann(i);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + sol_ind++) += neumann(i + 2);
                                     }
                                 }
 
@@ -2294,8 +2295,8 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + sol_ind++) += neumann(i);
+                                    RHS(face_offset + sol_ind++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2305,7 +2306,7 @@ class assembler_mechanics
                                 {
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + sol_ind++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2316,7 +2317,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + sol_ind++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2326,7 +2327,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
+                                    RHS(face_offset + sol_ind++) += neumann(i);
                                 }
                                 break;
                             }
@@ -3828,6 +3829,7 @@ class vector_primal_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t sol_ind = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -3846,10 +3848,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3858,10 +3860,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
 
@@ -3873,8 +3875,8 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3884,7 +3886,7 @@ class vector_primal_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3895,7 +3897,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3905,7 +3907,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                 }
                                 break;
                             }
@@ -4666,6 +4668,7 @@ class vector_mechanics_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t sol_ind = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -4684,10 +4687,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4696,10 +4699,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
 
@@ -4711,8 +4714,8 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4722,7 +4725,7 @@ class vector_mechanics_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4733,7 +4736,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4743,7 +4746,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                 }
                                 break;
                             }
-- 
2.43.0


From 576c2cfb61a0a67f3e2bdaaf4d92072cfe4aaa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 052/112] fix: face solution of vector_primal_hho_assembler
 could not be instantiated

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index e6c7f32..5f0dbbe 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -3179,7 +3179,7 @@ class vector_primal_hho_assembler
     {
         const auto face_id = msh.lookup(fc);
 
-        const auto n_face_dofs = num_faces_dofs(face_id);
+        const auto n_face_dofs = num_face_dofs(face_id);
 
         vector_type ret = vector_type::Zero(n_face_dofs);
 
-- 
2.43.0


From 76cf4135d7ed3ad68b9bdd75b0cb50f23f6c8993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 053/112] fix: stokes_assembler::assemble_alg could not be
 instantiated

---
 .../diskpp/methods/implementation_hho/assembler_hho.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 5f0dbbe..58c00d7 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -793,14 +793,14 @@ class stokes_assembler
             if (!asm_map[i].assemble())
                 continue;
 
-            RHS(asm_map[i]) += rhs(i);
+            RHS[asm_map[i]] += rhs(i);
 
             for (size_t j = 0; j < lhs_A.cols(); j++)
             {
                 if (asm_map[j].assemble())
                     triplets.push_back(Triplet<T>(asm_map[i], asm_map[j], lhs_A(i, j)));
                 else
-                    RHS(asm_map[i]) -= lhs_A(i, j) * dirichlet_data(j);
+                    RHS[asm_map[i]] -= lhs_A(i, j) * dirichlet_data(j);
             }
         }
 
-- 
2.43.0


From e873a387e8fe4944cd7f27955e6707cea79a6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 054/112] fix: integrate_on_primal_faces of a tetrahedron
 stored 4 values in a 3-vector

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 316cfa2..474a2eb 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -481,7 +481,7 @@ integrate_on_primal_faces(const simplicial_mesh<T, 3>& mesh,
                           const typename simplicial_mesh<T, 3>::volume_type& vol,
                           const vec3<T> vecf)
 {
-    Eigen::Matrix<T, 3, 1> ret;
+    Eigen::Matrix<T, 4, 1> ret;
 
     auto pav = primal_area_vectors(mesh, vol);
 
-- 
2.43.0


From 61786212db388a8dffb4f27b42a4fcf9931e8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 055/112] fix: dual edges of a triangle had the orientation of
 another edge numbering

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 474a2eb..91bf6a9 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -334,8 +334,8 @@ dual_edge_vectors(const simplicial_mesh<T, 3>& mesh,
     auto edgs = edges(mesh, t);
 
     ret[0] =  ( face_bar - barycenter(mesh, edgs[0]) ).to_vector() * sign;
-    ret[1] =  ( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
-    ret[2] = -( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
+    ret[1] = -( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
+    ret[2] =  ( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
 
     return ret;
 }
-- 
2.43.0


From eb7479433006b69bf9ce615159d970decf9c44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 056/112] fix: two of the edge normals of a triangle pointed
 inward, one was read from a dead temporary

---
 .../diskpp/methods/implementation_dga/methods_dga.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 91bf6a9..c7069d1 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -574,9 +574,9 @@ normals(const simplicial_mesh<T, 3>& mesh,
 
     auto normal = priv::cross(pev[0], pev[2]);
 
-    auto n0 =  priv::cross(pev[0], normal);
-    auto n1 =  priv::cross(pev[1], normal);
-    auto n2 = -priv::cross(pev[2], normal);
+    vec3<T> n0 =  priv::cross(pev[0], normal);
+    vec3<T> n1 = -priv::cross(pev[1], normal);
+    vec3<T> n2 =  priv::cross(pev[2], normal);
 
     ret[0] = n0/n0.norm();
     ret[1] = n1/n1.norm();
-- 
2.43.0


From 66a9fa2de69abfb0780237a4337f9cf710ea3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 057/112] fix: lowest-order VEM projector did not preserve
 linear polynomials

---
 .../methods/implementation_vem/methods_vem_2d.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index f52b55e..74a43f6 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -288,6 +288,21 @@ matrix_G(const Mesh&    msh,
     const auto cb  = make_scalar_monomial_basis(msh, cl, degree);
     dynamic_matrix<T> stiffness = make_stiffness_matrix(msh, cl, cb);
 
+    if (degree == 1)
+    {
+        /* The mean is not computable from the DoFs, matrix_B()
+         * uses the average of the values on the vertices. */
+        const auto pts = points(msh, cl);
+        for (auto& pt : pts)
+        {
+            const auto phi    = cb.eval_functions(pt);
+            stiffness.row(0) += phi.transpose();
+        }
+        stiffness.row(0) /= num_faces;
+
+        return stiffness;
+    }
+
     const auto qps = integrate(msh, cl, 2 * (degree - 1));
     for (auto& qp : qps)
     {
-- 
2.43.0


From d2e45086187f37b7e941117a2f3a899db5773e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 058/112] fix: VEM L2 projector dropped the highest-degree part
 of the gradient projection

---
 .../diskpp/methods/implementation_vem/methods_vem_2d.hpp  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 74a43f6..ce4698d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -556,7 +556,11 @@ projector_zero(const Mesh& msh,
     const auto pbs = scalar_basis_size(proj_degree, Mesh::dimension);
     const auto pb = make_scalar_monomial_basis(msh, cl, proj_degree);
 
+    const auto cbs = scalar_basis_size(degree, Mesh::dimension);
+    const auto cb = make_scalar_monomial_basis(msh, cl, degree);
+
     matrix_t H = make_mass_matrix(msh, cl, pb);
+    matrix_t M = make_mass_matrix(msh, cl, cb);
 
     const auto num_faces = howmany_faces(msh, cl);
     const auto offset = num_faces * degree;
@@ -565,7 +569,7 @@ projector_zero(const Mesh& msh,
     if (degree == 1)
     {
         C.resize(pbs, offset);
-        C = H * PIN_star.block(0, 0, pbs, offset);
+        C = M.block(0, 0, pbs, cbs) * PIN_star;
     }
     else
     {
@@ -575,7 +579,7 @@ projector_zero(const Mesh& msh,
 
         C.block(0, offset, lbs, lbs) = matrix_t::Identity(lbs, lbs) * measure(msh, cl);
         C.block(lbs, 0, pbs - lbs, num_dofs) =
-            H.block(lbs, 0, pbs - lbs, pbs) * PIN_star.block(0, 0, pbs, num_dofs);
+            M.block(lbs, 0, pbs - lbs, cbs) * PIN_star;
     }
 
     //std::cout << "PIN* \n" << PIN_star << std::endl;
-- 
2.43.0


From d8756a04912b3a577f7639ab9447424759cd329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 059/112] fix: second derivative of the determinant of a 3x3
 matrix was wrong and its header could not be included

---
 .../diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
index 3bf5d01..c612fef 100755
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
@@ -26,7 +26,7 @@
 #pragma once
 
 #include "diskpp/common/eigen.hpp"
-#include "diskpp/mechanics/bevaviors/maths_tensor.hpp"
+#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
 
 namespace disk
 {
@@ -137,7 +137,7 @@ JacobianSecondDerivate(const static_matrix<T, 3, 3>& M)
     ret(5, 3) = -M(0, 2);
     ret(6, 1) = M(1, 2);
     ret(6, 2) = -M(1, 1);
-    ret(6, 3) = -M(2, 1);
+    ret(6, 3) = -M(1, 2);
     ret(7, 1) = -M(0, 2);
     ret(7, 2) = M(0, 1);
     ret(7, 3) = M(0, 2);
-- 
2.43.0


From c16ef394b14a70a1639560cc8dc2de155fdbd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 060/112] fix: derivative of the norm of the deviator was not
 the derivative

---
 .../include/diskpp/mechanics/behaviors/maths_utils.hpp    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
index d5aac1c..0d7c599 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
@@ -52,13 +52,7 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 NormFroFirstDerivate(const static_matrix<T, DIM, DIM>& dev)
 {
-    const T normFrodev    = dev.norm();
-    const T normFrodev3_2 = normFrodev * std::sqrt(normFrodev);
-
-    auto mat = dev;
-    mat.diagonal() *= (1 - 1.0 / T(DIM));
-
-    return -mat / normFrodev3_2;
+    return dev / dev.norm();
 }
 
 } // end disk
\ No newline at end of file
-- 
2.43.0


From 8c7a9456c03014aaba7efcd3b203c9e75cfadc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 061/112] fix: linearized strain was G*G^T/2 instead of the
 symmetric part of G

---
 libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
index c984050..e94f02a 100755
--- a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
+++ b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
@@ -41,7 +41,7 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 convertGtoLinearizedStrain(const static_matrix<T, DIM, DIM>& Gradient)
 {
-    return 0.5 * Gradient * Gradient.transpose();
+    return T(0.5) * (Gradient + Gradient.transpose());
 }
 
 // Compute F = G + I
-- 
2.43.0


From 241d97606b9515d82b35c9f7ce7238060a579ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 062/112] fix: convertMatrixFromMgis dropped the 23 component
 of 3D symmetric matrices

---
 .../include/diskpp/mechanics/behaviors/tensor_conversion.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
index 51d4cd9..53672ed 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
@@ -285,7 +285,7 @@ convertMatrixFromMgis(const std::vector<T2>& mat_vec, static_matrix<T, 3, 3>& ma
             mat(1, 0)    = mat(0, 1);
             mat(0, 2)    = mat_vec[4] / sqrt(2.);
             mat(2, 0)    = mat(0, 2);
-            mat(0, 1)    = mat_vec[5] / sqrt(2.);
+            mat(1, 2)    = mat_vec[5] / sqrt(2.);
             mat(2, 1)    = mat(1, 2);
             break;
         }
-- 
2.43.0


From d9f481a9ff481cf195a8b6f8f7fbd875653fffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 063/112] fix: convertTensorFromMgis read 3D symmetric tensors
 with another component order and two wrong factors

---
 .../mechanics/behaviors/tensor_conversion.hpp | 130 +++++++++---------
 1 file changed, 65 insertions(+), 65 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
index 53672ed..718d09b 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
@@ -392,92 +392,92 @@ convertTensorFromMgis(const std::vector<T2>& tens_vec, static_tensor<T, 3>& tens
             coeff<T, 3>(tens, 0, 0, 0, 0, tens_vec[0]);
             coeff<T, 3>(tens, 0, 0, 1, 1, tens_vec[1]);
             coeff<T, 3>(tens, 0, 0, 2, 2, tens_vec[2]);
-            coeff<T, 3>(tens, 0, 0, 1, 2, tens_vec[3] / rac2);
-            coeff<T, 3>(tens, 0, 0, 2, 1, coeff<T, 3>(tens, 0, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 0, 2, 0, tens_vec[4] / rac2);
-            coeff<T, 3>(tens, 0, 0, 0, 2, coeff<T, 3>(tens, 0, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 0, 0, 1, tens_vec[5] / rac2);
+            coeff<T, 3>(tens, 0, 0, 0, 1, tens_vec[3] / rac2);
             coeff<T, 3>(tens, 0, 0, 1, 0, coeff<T, 3>(tens, 0, 0, 0, 1));
+            coeff<T, 3>(tens, 0, 0, 0, 2, tens_vec[4] / rac2);
+            coeff<T, 3>(tens, 0, 0, 2, 0, coeff<T, 3>(tens, 0, 0, 0, 2));
+            coeff<T, 3>(tens, 0, 0, 1, 2, tens_vec[5] / rac2);
+            coeff<T, 3>(tens, 0, 0, 2, 1, coeff<T, 3>(tens, 0, 0, 1, 2));
             //
             coeff<T, 3>(tens, 1, 1, 0, 0, tens_vec[6]);
             coeff<T, 3>(tens, 1, 1, 1, 1, tens_vec[7]);
             coeff<T, 3>(tens, 1, 1, 2, 2, tens_vec[8]);
-            coeff<T, 3>(tens, 1, 1, 1, 2, tens_vec[9] / rac2);
-            coeff<T, 3>(tens, 1, 1, 2, 1, coeff<T, 3>(tens, 1, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 1, 2, 0, tens_vec[10] / rac2);
-            coeff<T, 3>(tens, 1, 1, 0, 2, coeff<T, 3>(tens, 1, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 1, 0, 1, tens_vec[11] / rac2);
+            coeff<T, 3>(tens, 1, 1, 0, 1, tens_vec[9] / rac2);
             coeff<T, 3>(tens, 1, 1, 1, 0, coeff<T, 3>(tens, 1, 1, 0, 1));
+            coeff<T, 3>(tens, 1, 1, 0, 2, tens_vec[10] / rac2);
+            coeff<T, 3>(tens, 1, 1, 2, 0, coeff<T, 3>(tens, 1, 1, 0, 2));
+            coeff<T, 3>(tens, 1, 1, 1, 2, tens_vec[11] / rac2);
+            coeff<T, 3>(tens, 1, 1, 2, 1, coeff<T, 3>(tens, 1, 1, 1, 2));
             //
             coeff<T, 3>(tens, 2, 2, 0, 0, tens_vec[12]);
             coeff<T, 3>(tens, 2, 2, 1, 1, tens_vec[13]);
             coeff<T, 3>(tens, 2, 2, 2, 2, tens_vec[14]);
-            coeff<T, 3>(tens, 2, 2, 1, 2, tens_vec[15] / rac2);
-            coeff<T, 3>(tens, 2, 2, 2, 1, coeff<T, 3>(tens, 2, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 2, 2, 0, tens_vec[16] / rac2);
-            coeff<T, 3>(tens, 2, 2, 0, 2, coeff<T, 3>(tens, 2, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 2, 0, 1, tens_vec[17] / rac2);
+            coeff<T, 3>(tens, 2, 2, 0, 1, tens_vec[15] / rac2);
             coeff<T, 3>(tens, 2, 2, 1, 0, coeff<T, 3>(tens, 2, 2, 0, 1));
+            coeff<T, 3>(tens, 2, 2, 0, 2, tens_vec[16] / rac2);
+            coeff<T, 3>(tens, 2, 2, 2, 0, coeff<T, 3>(tens, 2, 2, 0, 2));
+            coeff<T, 3>(tens, 2, 2, 1, 2, tens_vec[17] / rac2);
+            coeff<T, 3>(tens, 2, 2, 2, 1, coeff<T, 3>(tens, 2, 2, 1, 2));
             //
-            coeff<T, 3>(tens, 1, 2, 0, 0, tens_vec[18] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 1, tens_vec[19] / rac2);
-            coeff<T, 3>(tens, 1, 2, 2, 2, tens_vec[20] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 2, tens_vec[21] / 2.);
-            coeff<T, 3>(tens, 1, 2, 2, 1, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 1, 2, 2, 0, tens_vec[22] / 2.);
-            coeff<T, 3>(tens, 1, 2, 0, 2, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 1, 2, 0, 1, tens_vec[23] / 2.);
-            coeff<T, 3>(tens, 1, 2, 1, 0, coeff<T, 3>(tens, 1, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 0, 0, 0, tens_vec[24] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 1, tens_vec[25] / rac2);
-            coeff<T, 3>(tens, 2, 0, 2, 2, tens_vec[26] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 2, tens_vec[27] / 2.);
-            coeff<T, 3>(tens, 2, 0, 2, 1, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 2, 0, 2, 0, tens_vec[28] / 2.);
-            coeff<T, 3>(tens, 2, 0, 0, 2, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 2, 0, 0, 1, tens_vec[29] / 2.);
-            coeff<T, 3>(tens, 2, 0, 1, 0, coeff<T, 3>(tens, 2, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 0, 1, 0, 0, tens_vec[30] / rac2);
-            coeff<T, 3>(tens, 0, 1, 1, 1, tens_vec[31] / rac2);
-            coeff<T, 3>(tens, 0, 1, 2, 2, tens_vec[32] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 2, tens_vec[33] / 2.);
-            coeff<T, 3>(tens, 0, 1, 2, 1, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 0, 1, 2, 0, tens_vec[34] / rac2);
-            coeff<T, 3>(tens, 0, 1, 0, 2, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 0, 1, 0, 1, tens_vec[35] / 2.);
+            coeff<T, 3>(tens, 0, 1, 0, 0, tens_vec[18] / rac2);
+            coeff<T, 3>(tens, 0, 1, 1, 1, tens_vec[19] / rac2);
+            coeff<T, 3>(tens, 0, 1, 2, 2, tens_vec[20] / rac2);
+            coeff<T, 3>(tens, 0, 1, 0, 1, tens_vec[21] / 2.);
             coeff<T, 3>(tens, 0, 1, 1, 0, coeff<T, 3>(tens, 0, 1, 0, 1));
+            coeff<T, 3>(tens, 0, 1, 0, 2, tens_vec[22] / 2.);
+            coeff<T, 3>(tens, 0, 1, 2, 0, coeff<T, 3>(tens, 0, 1, 0, 2));
+            coeff<T, 3>(tens, 0, 1, 1, 2, tens_vec[23] / 2.);
+            coeff<T, 3>(tens, 0, 1, 2, 1, coeff<T, 3>(tens, 0, 1, 1, 2));
             //
-            coeff<T, 3>(tens, 2, 1, 0, 0, coeff<T, 3>(tens, 1, 2, 0, 0));
-            coeff<T, 3>(tens, 2, 1, 1, 1, coeff<T, 3>(tens, 1, 2, 1, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 2, coeff<T, 3>(tens, 1, 2, 2, 2));
-            coeff<T, 3>(tens, 2, 1, 1, 2, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 1, 2, 1, coeff<T, 3>(tens, 1, 2, 2, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 0, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 1, 0, 2, coeff<T, 3>(tens, 1, 2, 0, 2));
-            coeff<T, 3>(tens, 2, 1, 0, 1, coeff<T, 3>(tens, 1, 2, 0, 1));
-            coeff<T, 3>(tens, 2, 1, 1, 0, coeff<T, 3>(tens, 1, 2, 1, 0));
+            coeff<T, 3>(tens, 0, 2, 0, 0, tens_vec[24] / rac2);
+            coeff<T, 3>(tens, 0, 2, 1, 1, tens_vec[25] / rac2);
+            coeff<T, 3>(tens, 0, 2, 2, 2, tens_vec[26] / rac2);
+            coeff<T, 3>(tens, 0, 2, 0, 1, tens_vec[27] / 2.);
+            coeff<T, 3>(tens, 0, 2, 1, 0, coeff<T, 3>(tens, 0, 2, 0, 1));
+            coeff<T, 3>(tens, 0, 2, 0, 2, tens_vec[28] / 2.);
+            coeff<T, 3>(tens, 0, 2, 2, 0, coeff<T, 3>(tens, 0, 2, 0, 2));
+            coeff<T, 3>(tens, 0, 2, 1, 2, tens_vec[29] / 2.);
+            coeff<T, 3>(tens, 0, 2, 2, 1, coeff<T, 3>(tens, 0, 2, 1, 2));
             //
-            coeff<T, 3>(tens, 0, 2, 0, 0, coeff<T, 3>(tens, 2, 0, 0, 0));
-            coeff<T, 3>(tens, 0, 2, 1, 1, coeff<T, 3>(tens, 2, 0, 1, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 2, coeff<T, 3>(tens, 2, 0, 2, 2));
-            coeff<T, 3>(tens, 0, 2, 1, 2, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 2, 2, 1, coeff<T, 3>(tens, 2, 0, 2, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 0, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 2, 0, 2, coeff<T, 3>(tens, 2, 0, 0, 2));
-            coeff<T, 3>(tens, 0, 2, 0, 1, coeff<T, 3>(tens, 2, 0, 0, 1));
-            coeff<T, 3>(tens, 0, 2, 1, 0, coeff<T, 3>(tens, 2, 0, 1, 0));
+            coeff<T, 3>(tens, 1, 2, 0, 0, tens_vec[30] / rac2);
+            coeff<T, 3>(tens, 1, 2, 1, 1, tens_vec[31] / rac2);
+            coeff<T, 3>(tens, 1, 2, 2, 2, tens_vec[32] / rac2);
+            coeff<T, 3>(tens, 1, 2, 0, 1, tens_vec[33] / 2.);
+            coeff<T, 3>(tens, 1, 2, 1, 0, coeff<T, 3>(tens, 1, 2, 0, 1));
+            coeff<T, 3>(tens, 1, 2, 0, 2, tens_vec[34] / 2.);
+            coeff<T, 3>(tens, 1, 2, 2, 0, coeff<T, 3>(tens, 1, 2, 0, 2));
+            coeff<T, 3>(tens, 1, 2, 1, 2, tens_vec[35] / 2.);
+            coeff<T, 3>(tens, 1, 2, 2, 1, coeff<T, 3>(tens, 1, 2, 1, 2));
             //
             coeff<T, 3>(tens, 1, 0, 0, 0, coeff<T, 3>(tens, 0, 1, 0, 0));
             coeff<T, 3>(tens, 1, 0, 1, 1, coeff<T, 3>(tens, 0, 1, 1, 1));
             coeff<T, 3>(tens, 1, 0, 2, 2, coeff<T, 3>(tens, 0, 1, 2, 2));
-            coeff<T, 3>(tens, 1, 0, 1, 2, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 0, 2, 1, coeff<T, 3>(tens, 0, 1, 2, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 0, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 0, 0, 2, coeff<T, 3>(tens, 0, 1, 0, 2));
             coeff<T, 3>(tens, 1, 0, 0, 1, coeff<T, 3>(tens, 0, 1, 0, 1));
             coeff<T, 3>(tens, 1, 0, 1, 0, coeff<T, 3>(tens, 0, 1, 1, 0));
+            coeff<T, 3>(tens, 1, 0, 0, 2, coeff<T, 3>(tens, 0, 1, 0, 2));
+            coeff<T, 3>(tens, 1, 0, 2, 0, coeff<T, 3>(tens, 0, 1, 2, 0));
+            coeff<T, 3>(tens, 1, 0, 1, 2, coeff<T, 3>(tens, 0, 1, 1, 2));
+            coeff<T, 3>(tens, 1, 0, 2, 1, coeff<T, 3>(tens, 0, 1, 2, 1));
+            //
+            coeff<T, 3>(tens, 2, 0, 0, 0, coeff<T, 3>(tens, 0, 2, 0, 0));
+            coeff<T, 3>(tens, 2, 0, 1, 1, coeff<T, 3>(tens, 0, 2, 1, 1));
+            coeff<T, 3>(tens, 2, 0, 2, 2, coeff<T, 3>(tens, 0, 2, 2, 2));
+            coeff<T, 3>(tens, 2, 0, 0, 1, coeff<T, 3>(tens, 0, 2, 0, 1));
+            coeff<T, 3>(tens, 2, 0, 1, 0, coeff<T, 3>(tens, 0, 2, 1, 0));
+            coeff<T, 3>(tens, 2, 0, 0, 2, coeff<T, 3>(tens, 0, 2, 0, 2));
+            coeff<T, 3>(tens, 2, 0, 2, 0, coeff<T, 3>(tens, 0, 2, 2, 0));
+            coeff<T, 3>(tens, 2, 0, 1, 2, coeff<T, 3>(tens, 0, 2, 1, 2));
+            coeff<T, 3>(tens, 2, 0, 2, 1, coeff<T, 3>(tens, 0, 2, 2, 1));
+            //
+            coeff<T, 3>(tens, 2, 1, 0, 0, coeff<T, 3>(tens, 1, 2, 0, 0));
+            coeff<T, 3>(tens, 2, 1, 1, 1, coeff<T, 3>(tens, 1, 2, 1, 1));
+            coeff<T, 3>(tens, 2, 1, 2, 2, coeff<T, 3>(tens, 1, 2, 2, 2));
+            coeff<T, 3>(tens, 2, 1, 0, 1, coeff<T, 3>(tens, 1, 2, 0, 1));
+            coeff<T, 3>(tens, 2, 1, 1, 0, coeff<T, 3>(tens, 1, 2, 1, 0));
+            coeff<T, 3>(tens, 2, 1, 0, 2, coeff<T, 3>(tens, 1, 2, 0, 2));
+            coeff<T, 3>(tens, 2, 1, 2, 0, coeff<T, 3>(tens, 1, 2, 2, 0));
+            coeff<T, 3>(tens, 2, 1, 1, 2, coeff<T, 3>(tens, 1, 2, 1, 2));
+            coeff<T, 3>(tens, 2, 1, 2, 1, coeff<T, 3>(tens, 1, 2, 2, 1));
             break;
         }
 
-- 
2.43.0


From d4ffc46746b627933af891bb0535e16742d4e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 064/112] fix: logarithmic strain derivatives used the wrong
 eigenvalue when the two largest are equal

---
 .../behaviors/logarithmic_strain/logarithmic_tools.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 32a8190..ba61743 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -371,7 +371,7 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = di(0) / T(2);
+            theta(1, 2) = di(1) / T(2);
             theta(2, 1) = theta(1, 2);
 
             xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
@@ -380,10 +380,10 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
             xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
 
-            xi(1, 2) = fi(0) / T(8);
+            xi(1, 2) = fi(1) / T(8);
             xi(2, 1) = xi(1, 2);
 
-            eta = xi(1, 2);
+            eta = xi(0, 1);
             break;
         }
         default: std::invalid_argument("LogarithmicStrain: Wrong case");
-- 
2.43.0


From 9ca0e15908a1df9cee89da675e3867976a2ea516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 065/112] fix: logarithmic strain derivatives lost all accuracy
 for nearly equal eigenvalues

---
 .../logarithmic_strain/logarithmic_tools.hpp  | 205 ++++++++----------
 1 file changed, 91 insertions(+), 114 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index ba61743..11545f5 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -240,12 +240,92 @@ selectCase(const static_vector<T, 3>& lambda_i)
     return -1;
 }
 
-// lambda_0 != lambda_1 != lambda_2 && lambda_0 < lambda_1 < lambda_2
+// The coefficients are divided differences of e(x) = log(x)/2. They are evaluated such that they stay
+// accurate when eigenvalues are close to each other.
+
+// e[x, y]
+template<typename T>
+T
+first_difference(const T x, const T y)
+{
+    const T r = (x - y) / y;
+
+    return (r == T(0)) ? T(1) / (T(2) * y) : std::log1p(r) / (T(2) * r * y);
+}
+
+// e[x, y, y]
+template<typename T>
+T
+second_difference(const T x, const T y)
+{
+    const T r = (x - y) / y;
+
+    if (std::abs(r) > T(0.1))
+    {
+        return (std::log1p(r) / r - T(1)) / (T(2) * r * y * y);
+    }
+
+    // log(1 + r) = r - r^2/2 + r^3/3 - ...
+    T sum = T(0), pow = -T(1);
+    for (int n = 2; n < 24; n++)
+    {
+        sum += pow / T(n);
+        pow *= -r;
+    }
+
+    return sum / (T(2) * y * y);
+}
+
+// e[lambda_0, lambda_1, lambda_2]
+template<typename T>
+T
+second_difference(const static_vector<T, 3>& lambda_i)
+{
+    // the largest gap is between lambda_i and lambda_k
+    int i = 0, j = 1, k = 2;
+    if (std::abs(lambda_i(0) - lambda_i(1)) > std::abs(lambda_i(i) - lambda_i(k)))
+    {
+        i = 0, j = 2, k = 1;
+    }
+    if (std::abs(lambda_i(1) - lambda_i(2)) > std::abs(lambda_i(i) - lambda_i(k)))
+    {
+        i = 1, j = 0, k = 2;
+    }
+
+    const T mean = (lambda_i(0) + lambda_i(1) + lambda_i(2)) / T(3);
+    const T gap  = lambda_i(i) - lambda_i(k);
+
+    if (std::abs(gap) > T(0.1) * mean)
+    {
+        return (first_difference(lambda_i(i), lambda_i(j)) - first_difference(lambda_i(j), lambda_i(k))) / gap;
+    }
+
+    // Taylor expansion about the mean, with h_n the complete homogeneous symmetric polynomials of r
+    const static_vector<T, 3> r  = (lambda_i - static_vector<T, 3>::Constant(mean)) / mean;
+    const T                   e1 = r(0) + r(1) + r(2);
+    const T                   e2 = r(0) * r(1) + r(1) * r(2) + r(2) * r(0);
+    const T                   e3 = r(0) * r(1) * r(2);
+
+    T sum = T(0), sign = -T(1);
+    T hn = T(1), hn1 = T(0), hn2 = T(0);
+    for (int n = 2; n < 24; n++)
+    {
+        sum += sign * hn / T(n);
+        sign = -sign;
+
+        const T next = e1 * hn - e2 * hn1 + e3 * hn2;
+        hn2          = hn1;
+        hn1          = hn;
+        hn           = next;
+    }
+
+    return sum / (T(2) * mean * mean);
+}
+
 template<typename T>
 std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
-compute_three_diff(const static_vector<T, 3>& lambda_i, const static_vector<T, 3>& ei, const static_vector<T, 3>& di)
+compute_not_equal(const static_vector<T, 3>& lambda_i)
 {
-    T                      eta   = T(0);
     static_matrix<T, 3, 3> theta = static_matrix<T, 3, 3>::Zero();
     static_matrix<T, 3, 3> xi    = static_matrix<T, 3, 3>::Zero();
 
@@ -255,23 +335,13 @@ compute_three_diff(const static_vector<T, 3>& lambda_i, const static_vector<T, 3
         {
             if (j != i)
             {
-                const T lilj = lambda_i(i) - lambda_i(j);
-                theta(i, j)  = (ei(i) - ei(j)) / lilj;
-                xi(i, j)     = (theta(i, j) - di(j) / T(2)) / lilj;
-
-                for (int k = 0; k < 3; k++)
-                {
-                    if (k != i && k != j)
-                    {
-                        const T lilk = lambda_i(i) - lambda_i(k);
-                        eta += ei(i) / (T(2) * lilj * lilk);
-                    }
-                }
+                theta(i, j) = first_difference(lambda_i(i), lambda_i(j));
+                xi(i, j)    = second_difference(lambda_i(i), lambda_i(j));
             }
         }
     }
 
-    return std::make_tuple(theta, xi, eta);
+    return std::make_tuple(theta, xi, second_difference(lambda_i));
 }
 
 // lambda_0 == lambda_1 == lambda_2
@@ -300,97 +370,6 @@ compute_three_equal(const static_vector<T, 3>& di, const static_vector<T, 3>& fi
 
     return std::make_tuple(theta, xi, eta);
 }
-
-// lambda_0 == lambda_1 != lambda_2
-template<typename T>
-std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
-compute_two_equal(const static_vector<T, 3>& lambda_i,
-                  const static_vector<T, 3>& ei,
-                  const static_vector<T, 3>& di,
-                  const static_vector<T, 3>& fi,
-                  const int                  CASE)
-{
-    T                      eta   = T(0);
-    static_matrix<T, 3, 3> theta = static_matrix<T, 3, 3>::Zero();
-    static_matrix<T, 3, 3> xi    = static_matrix<T, 3, 3>::Zero();
-
-    switch (CASE)
-    {
-        case TWO_EQUAL01:
-        {
-            theta(0, 1) = di(0) / T(2);
-            theta(1, 0) = theta(0, 1);
-
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
-            theta(2, 0) = theta(0, 2);
-
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
-            theta(2, 1) = theta(1, 2);
-
-            xi(0, 1) = fi(0) / T(8);
-            xi(1, 0) = xi(0, 1);
-
-            xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
-            xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
-
-            xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
-            xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
-
-            eta = xi(2, 0);
-
-            break;
-        }
-        case TWO_EQUAL02:
-        {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
-            theta(1, 0) = theta(0, 1);
-
-            theta(0, 2) = di(0) / T(2);
-            theta(2, 0) = theta(0, 2);
-
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
-            theta(2, 1) = theta(1, 2);
-
-            xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
-            xi(1, 0) = (theta(1, 0) - di(0) / T(2)) / (lambda_i(1) - lambda_i(0));
-
-            xi(0, 2) = fi(0) / T(8);
-            xi(2, 0) = xi(0, 2);
-
-            xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
-            xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
-
-            eta = xi(0, 1);
-            break;
-        }
-        case TWO_EQUAL12:
-        {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
-            theta(1, 0) = theta(0, 1);
-
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
-            theta(2, 0) = theta(0, 2);
-
-            theta(1, 2) = di(1) / T(2);
-            theta(2, 1) = theta(1, 2);
-
-            xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
-            xi(1, 0) = (theta(1, 0) - di(0) / T(2)) / (lambda_i(1) - lambda_i(0));
-
-            xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
-            xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
-
-            xi(1, 2) = fi(1) / T(8);
-            xi(2, 1) = xi(1, 2);
-
-            eta = xi(0, 1);
-            break;
-        }
-        default: std::invalid_argument("LogarithmicStrain: Wrong case");
-    }
-
-    return std::make_tuple(theta, xi, eta);
-}
 }
 
 template<typename T>
@@ -404,15 +383,13 @@ compute_coefficient(const static_vector<T, 3>& lambda_i,
     // std::cout << "CASE: " << evcase << std::endl;
     switch (evcase)
     {
-        case THREE_DIFF: return priv::compute_three_diff(lambda_i, ei, di); break;
-        case TWO_EQUAL01: return priv::compute_two_equal(lambda_i, ei, di, fi, TWO_EQUAL01); break;
-        case TWO_EQUAL02: return priv::compute_two_equal(lambda_i, ei, di, fi, TWO_EQUAL02); break;
-        case TWO_EQUAL12: return priv::compute_two_equal(lambda_i, ei, di, fi, TWO_EQUAL12); break;
+        case THREE_DIFF:
+        case TWO_EQUAL01:
+        case TWO_EQUAL02:
+        case TWO_EQUAL12: return priv::compute_not_equal(lambda_i); break;
         case THREE_EQUAL: return priv::compute_three_equal(di, fi); break;
-        default: std::invalid_argument("LogarithmicStrain: Wrong case");
+        default: throw std::invalid_argument("LogarithmicStrain: Wrong case");
     }
-
-    return std::make_tuple(static_matrix<T, 3, 3>::Zero(), static_matrix<T, 3, 3>::Zero(), T(0));
 }
 
 // compute projector tensor
-- 
2.43.0


From b2b70091da580d823cfe550bd924574dac106e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 066/112] fix: geometric term of the logarithmic strain tangent
 acted on the wrong indices

---
 .../behaviors/logarithmic_strain/logarithmic_tools.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 11545f5..3a3a1e7 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -499,7 +499,7 @@ compute_projector(const static_matrix<T, 3, 3>& F,
         const matrix_type inv_F   = F.inverse();
         const matrix_type invF_TP = inv_F * ContractedProduct(stress_T, P);
         const matrix_type Id      = matrix_type::Identity();
-        TL += Odot(invF_TP, Id);
+        TL += ProductSup(Id, invF_TP);
     }
     // std::cout << "P" << std::endl;
     // std::cout << P << std::endl;
-- 
2.43.0


From 81ce1f50098b0d65904e7e53291240a4d80a4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 067/112] fix: Neohookean energy could not be compiled

---
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 56628c7..2560a3d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -202,7 +202,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             throw std::invalid_argument(mess);
         }
 
-        const static_matrix_type3D C = convertFtoCauchyGreenRight(this->m_estrain_curr);
+        const static_matrix_type3D C = mechanics::convertFtoCauchyGreenRight(this->m_estrain_curr);
 
         const scalar_type Wiso = data.getMu() / 2.0 * (C.trace() - 3);
         const scalar_type Wvol =
-- 
2.43.0


From 6b23557f59b75f65f8f70b323ed31ede542ae378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 068/112] fix: volumetric energy 1 - 1/J was evaluated as 1/(1
 - J)

---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp       | 2 +-
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index 64a7221..ab8f40d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -85,7 +85,7 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 2560a3d..e79f24d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -84,7 +84,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
-- 
2.43.0


From 0aa1afae6271890fbb46d36c14bd507b9f95ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 069/112] fix: energy of the finite strain laws was NaN near J
 = 1 for the sixth volumetric law

---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp       | 2 +-
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index ab8f40d..6245cf9 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -87,7 +87,7 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
             case 3: return log10(J);
             case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
-            case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
+            case 6: return sqrt(std::max(scalar_type(0), (J * J - scalar_type(1) - 2 * log(J)) / 2));
 
             default: throw std::invalid_argument("NeoHookeanLaw: m_type have to be <= 6");
         }
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index e79f24d..63516ef 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -86,7 +86,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             case 3: return log10(J);
             case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
-            case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
+            case 6: return sqrt(std::max(scalar_type(0), (J * J - scalar_type(1) - 2 * log(J)) / 2));
 
             default: throw std::invalid_argument("NeoHookeanLaw: m_type have to be <= 6");
         }
-- 
2.43.0


From 9420a0213cbc76cd53d7cd8908d71a18c9fcd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 070/112] fix: projection of the stress on a cell could not be
 compiled for any behavior

---
 .../mechanics/behaviors/laws/behaviorlaws.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp
index 1a067b2..69bb2cd 100755
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/behaviorlaws.hpp
@@ -509,16 +509,21 @@ class Behavior
     vector_type
     projectStressOnCell(const MeshType& msh, const cell_type& cl, const hho_degree_info& hdi) const
     {
+        const auto cell_id = msh.lookup(cl);
+
         switch (m_id)
         {
-            case 100: return m_elastic.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 101: return m_linearHard.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 102: return m_nonlinearHard.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 103: return m_henckymises.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 200: return m_neohokean.projectStressOnCell(msh, cl, hdi, m_data); break;
-            case 201: return m_cavitation.projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 100: return m_elastic.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 101: return m_linearHard.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 102: return m_nonlinearHard.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 103: return m_henckymises.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 200: return m_neohokean.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 201: return m_cavitation.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 300: return m_log_elastic.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 301: return m_log_linearHard.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 302: return m_log_nonlinearHard.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
 #ifdef HAVE_MGIS
-            case 500: return m_mfront.projectStressOnCell(msh, cl, hdi, m_data); break;
+            case 500: return m_mfront.getCellQPs(cell_id).projectStressOnCell(msh, cl, hdi, m_data); break;
 #endif
 
             default: throw std::invalid_argument("Behavior error: Unknown id law");
-- 
2.43.0


From 43d075294eac72324714e2fa2c915a4ee2cab222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 071/112] fix: hardening laws refused volumetric strains and
 closed plastic cycles because of roundoff

---
 .../IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp    | 2 +-
 .../LinearIsotropicAndKinematicHardening_qp.hpp             | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
index b871df6..46120d0 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
@@ -202,7 +202,7 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
             // std::cout << "se_eq: " << se_eq << ", Rp " << Rp0 + H0 * (m_p_prev - p0) << ", Phi: " << Phi_trial0 <<
             // std::endl;
 
-            if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+            if (std::abs(se.trace()) > 1E-8 * (se.norm() + 2 * data.getMu() * estrain_trial.norm()))
             {
                 // std::cout << std::abs(se.trace()) << ", " << se.norm() << ", " << (std::abs(se.trace()) / se.norm())
                 //           << std::endl;
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index 0a37fa8..6102245 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -164,13 +164,13 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
         const scalar_type          se_eq         = this->sigmaeq(se);
         const scalar_type          Phi_trial     = se_eq - data.getSigma_y0() - data.getH() * m_p_prev;
 
-        if ((std::abs(X_prev.trace()) / X_prev.norm()) > 1E-8)
+        if (std::abs(X_prev.trace()) > 1E-8 * std::abs(data.getK()) * m_p_prev)
         {
             const std::string mess = "X_trace= " + std::to_string(X_prev.trace()) + " <= 0";
             throw std::invalid_argument(mess);
         }
 
-        if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+        if (std::abs(se.trace()) > 1E-8 * (se.norm() + 2 * data.getMu() * estrain_trial.norm()))
         {
             const std::string mess = "Se_trace= " + std::to_string(se.trace()) + " <= 0";
             throw std::invalid_argument(mess);
@@ -222,7 +222,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             m_p_curr             = m_p_prev;
         }
 
-        if ((std::abs(m_pstrain_curr.trace()) / m_pstrain_curr.norm()) > 1E-8)
+        if (std::abs(m_pstrain_curr.trace()) > 1E-8 * m_p_curr)
         {
             const std::string mess = "eps_p= " + std::to_string(m_pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
-- 
2.43.0


From 5b945b6730b72e83bd748bb47a6e6ccdfd0f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 072/112] fix: the last time step could be dropped and
 requested times missed because of roundoff

---
 .../mechanics/NewtonSolver/TimeManager.hpp       | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
index 90c178e..73655dd 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
@@ -26,6 +26,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <iostream>
 #include <list>
 #include <vector>
@@ -136,11 +137,20 @@ class ListOfTimeStep
 
         for (I i = 0; i < n_step; i++)
         {
-            if ((start_time + (i + 1) * delta_t) <= user_end_time)
+            // the requested times have to be reached exactly, whatever the roundoff
+            const T step_start = (i == 0) ? start_time : list_steps.back().end_time();
+            T       step_end   = (i + 1 == n_step) ? end_time : start_time + (i + 1) * delta_t;
+            if (std::abs(step_end - user_end_time) <= T(1E-8) * delta_t)
             {
-                const TimeStep<T> step(start_time + i * delta_t, start_time + (i + 1) * delta_t, level);
-                list_steps.push_back(step);
+                step_end = user_end_time;
             }
+
+            if (step_end > user_end_time)
+            {
+                break;
+            }
+
+            list_steps.push_back(TimeStep<T>(step_start, step_end, level));
         }
     }
 
-- 
2.43.0


From 0cdcc5ec1303129b1587a40ee831b746cfe069da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 073/112] fix: intervals after the final time were discretized
 from a wrong start time

---
 .../include/diskpp/mechanics/NewtonSolver/TimeManager.hpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
index 73655dd..8d41fc4 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
@@ -179,6 +179,11 @@ class ListOfTimeStep
         for (auto& [time, n_step] : list_of_time_step)
         {
             this->addTimeStepping(time, n_step, 0);
+            if (time >= final_time)
+            {
+                // the next intervals are after the final time
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 94cb815489f6b525bd962debab845bdde6b6db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 074/112] fix: reading truncated or malformed Newton parameters
 never terminated

---
 .../mechanics/NewtonSolver/NewtonSolverParameters.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
index e074c5a..5e260a7 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
@@ -139,6 +139,12 @@ class NewtonSolverParameter
         line++;
         while (keyword != "EndParameters")
         {
+            if (!ifs)
+            {
+                std::cout << "Unexpected end of file or value, line: " << line << std::endl;
+                return false;
+            }
+
             if (keyword == "FaceDegree")
             {
                 ifs >> m_face_degree;
@@ -166,8 +172,7 @@ class NewtonSolverParameter
                 line++;
 
                 m_time_step.clear();
-                m_time_step.reserve(n_time_step);
-                for (int i = 0; i < n_time_step; i++)
+                for (int i = 0; i < n_time_step && ifs; i++)
                 {
                     T   time(0.0);
                     int time_step(0);
@@ -189,7 +194,7 @@ class NewtonSolverParameter
                 line++;
 
                 m_time_save.clear();
-                for (int i = 0; i < m_n_time_save; i++)
+                for (int i = 0; i < m_n_time_save && ifs; i++)
                 {
                     T time(0.0);
                     ifs >> time;
-- 
2.43.0


From cc6135330b6e6b40fa6599bf87c82d7ff079ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 075/112] fix: Newton parameters returned the face degree as
 gradient degree

---
 .../diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
index 5e260a7..037eae1 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
@@ -29,6 +29,7 @@
 #include <fstream>
 #include <iostream>
 #include <list>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -356,7 +357,7 @@ class NewtonSolverParameter
     int
     getGradDegree() const
     {
-        return m_face_degree;
+        return m_grad_degree;
     }
 
     void
-- 
2.43.0


From 9a2b6ad0e71bec6404a300e2782eed198d1460ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 076/112] fix: gcd of negative numbers and division by a
 negative integer left rationals with a negative denominator

---
 libdiskpp/include/diskpp/mesh/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/rational.hpp b/libdiskpp/include/diskpp/mesh/rational.hpp
index 320e067..dc5baf9 100644
--- a/libdiskpp/include/diskpp/mesh/rational.hpp
+++ b/libdiskpp/include/diskpp/mesh/rational.hpp
@@ -47,7 +47,7 @@ template<typename I>
 I gcd(I a, I b)
 {
     if (b == 0)
-       return a;
+       return (a < 0) ? -a : a;
 
     return gcd(b, a%b);
 }
@@ -215,7 +215,7 @@ public:
     rational operator/=(I other)
     {
         m_den *= other;
-        assert(m_den != 0);
+        simplify();
         return *this;
     }
 
-- 
2.43.0


From 8fda740c3a4ee8dd43bee28ce791b6f7440168d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 077/112] fix: medit 3D loader reported failure after loading
 the mesh

---
 libdiskpp/include/diskpp/loaders/loader_medit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index f7245cf..b4e4f36 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -708,7 +708,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
 
-        return false;
+        return true;
     }
 };
 
-- 
2.43.0


From 0846018f46ee057428ef591559be1acf709de90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 078/112] fix: load_mesh reported success when the mesh could
 not be populated

---
 libdiskpp/include/diskpp/loaders/loader.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader.hpp b/libdiskpp/include/diskpp/loaders/loader.hpp
index f29ebd5..c3f4b21 100644
--- a/libdiskpp/include/diskpp/loaders/loader.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader.hpp
@@ -114,8 +114,7 @@ load_mesh(const char* filename, LT& loader, MT& msh)
     if (!success)
         return false;
 
-    loader.populate_mesh(msh);
-    return true;
+    return loader.populate_mesh(msh);
 }
 
 } // namespace priv
-- 
2.43.0


From 1fb427565fba0ce9f8553142d6d9453c3c07ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 079/112] fix: netgen 2D loader dropped the subdomain numbers

---
 .../include/diskpp/loaders/loader_netgen.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index a05f33d..12c51af 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -102,7 +102,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
     std::vector<node_type>                    nodes;
     std::vector<edge_type>                    edges;
     std::vector<std::pair<edge_type, size_t>> boundary_edges;
-    std::vector<surface_type>                 surfaces;
+    std::vector<std::pair<surface_type, size_t>> surfaces;
 
     bool
     netgen_read(const std::string& filename)
@@ -181,13 +181,13 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
             disk::point_identifier<2> p2(std::get<3>(t));
-            // domain_id_type      d(std::get<0>(t));
+            auto subdomain_num = std::get<0>(t);
 
             edges.push_back(edge_type({p0, p1}));
             edges.push_back(edge_type({p1, p2}));
             edges.push_back(edge_type({p0, p2}));
 
-            surfaces.push_back(surface_type({p0, p1, p2}));
+            surfaces.push_back(std::make_pair(surface_type({p0, p1, p2}), subdomain_num));
 
             linecount++;
         }
@@ -265,12 +265,24 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         THREAD(edge_thread, priv::sort_uniq(edges); storage->edges = std::move(edges););
 
         /* sort triangles, make unique and move them in geometry */
-        THREAD(tri_thread, priv::sort_uniq(surfaces); storage->surfaces = std::move(surfaces););
+        THREAD(tri_thread, std::sort(surfaces.begin(), surfaces.end()););
 
         /* wait for the threads */
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(tri_thread);
 
+        storage->surfaces.clear();
+        storage->subdomain_info.clear();
+        for (auto& [surf, subdomain_num] : surfaces)
+        {
+            if (!storage->surfaces.empty() && storage->surfaces.back() == surf)
+                continue;
+
+            storage->surfaces.push_back(surf);
+            storage->subdomain_info.push_back(subdomain_descriptor(subdomain_num));
+        }
+        surfaces.clear();
+
         storage->boundary_info.resize(storage->edges.size());
         for (auto& be : boundary_edges)
         {
@@ -295,8 +307,6 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
-        storage->subdomain_info.resize(storage->surfaces.size());
-
         return true;
     }
 };
-- 
2.43.0


From 72372cac1da753fa29bb6f5c6d82e92990ad1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 080/112] fix: cells of cartesian meshes had no subdomain and
 labelled interfaces were not marked as internal

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index df34061..3e54858 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -340,6 +340,10 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
 
         boundary_surfaces.clear();
 
+        storage->subdomain_info.resize(storage->volumes.size());
+
+        mark_internal_faces(msh);
+
         return true;
     }
 };
@@ -553,6 +557,10 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
 
         boundary_edges.clear();
 
+        storage->subdomain_info.resize(storage->surfaces.size());
+
+        mark_internal_faces(msh);
+
         return true;
     }
 };
-- 
2.43.0


From cfa78f791c9250f20467f00c79616a979acdb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 081/112] fix: netgen 2D loader did not mark labelled
 interfaces as internal

---
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 12c51af..5613a36 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -307,6 +307,8 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
-- 
2.43.0


From ad49164254c5eaff8f5b9caed0cba248ae2ff469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 082/112] fix: cells of uniform 1D meshes had no subdomain

---
 libdiskpp/include/diskpp/loaders/loader_uniform.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
index e25e8b3..25b952f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
@@ -92,6 +92,8 @@ class uniform_mesh_loader<T, 1> : public mesh_loader<generic_mesh<T, 1>>
         storage->boundary_info.at(0)             = bi;
         storage->boundary_info.at(num_nodes - 1) = bi;
 
+        storage->subdomain_info.resize(num_edges);
+
         return true;
     }
 };
-- 
2.43.0


From d4c60194af939d8874a9eacebfa373ce3686a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 083/112] fix: FVCA6 loader used one-based vertices for the
 edges

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index fa621fe..1c008a1 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -223,6 +223,10 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             size_t v1, v2;
             ifs >> v1 >> v2;
 
+            /* convert indices to zero-based */
+            v1 -= 1;
+            v2 -= 1;
+
             if (v1 > v2)
                 std::swap(v1, v2);
 
-- 
2.43.0


From 984496e4bd74ae06946e50d0d415ad652537173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 084/112] fix: cells of FVCA6 meshes had no subdomain

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 1c008a1..04f76a0 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -345,6 +345,7 @@ public:
          * give to the internal boundaries.
          */
         storage->boundary_info.resize(storage->surfaces.size());
+        storage->subdomain_info.resize(storage->volumes.size());
         auto renumbered = renumber_hypercube_boundaries(msh);
         if (not renumbered) {
             std::cout << "Warning: unable to renumber FVCA6 mesh boundaries, ";
-- 
2.43.0


From 20c71a3942e8150d1427457578693f69361554d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 085/112] fix: medit loaders dropped the subdomains and did not
 mark labelled interfaces as internal

---
 .../include/diskpp/loaders/loader_medit.hpp   | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index b4e4f36..7816e18 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -360,7 +360,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges = std::move(edges);
 
         /* Surfaces */
-        std::vector<surface_type> surfaces;
+        using sd_pair = std::pair<surface_type, size_t>;
+        std::vector<sd_pair> surfaces;
         surfaces.reserve(m_polys.size());
 
         for (auto& p : m_polys)
@@ -384,11 +385,21 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             }
             auto surface = surface_type(surface_edges);
             surface.set_point_ids(p.nodes.begin(), p.nodes.end()); /* XXX: crap */
-            surfaces.push_back(surface);
+            surfaces.push_back(std::make_pair(surface, p.id));
         }
 
-        std::sort(surfaces.begin(), surfaces.end());
-        storage->surfaces = std::move(surfaces);
+        auto comp = [](const sd_pair& a, const sd_pair& b) -> bool { return a.first < b.first; };
+        std::sort(surfaces.begin(), surfaces.end(), comp);
+
+        storage->surfaces.clear();
+        storage->subdomain_info.clear();
+        for (auto& [surface, id] : surfaces)
+        {
+            storage->surfaces.push_back(surface);
+            storage->subdomain_info.push_back(subdomain_descriptor(id));
+        }
+
+        mark_internal_faces(msh);
 
         return true;
     }
@@ -708,6 +719,10 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
 
+        storage->subdomain_info.resize(storage->volumes.size());
+
+        mark_internal_faces(msh);
+
         return true;
     }
 };
-- 
2.43.0


From 2de8c4d70e4470b00941dc920c533478748bc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 086/112] fix: poly loaders dropped the subdomains and did not
 mark labelled interfaces as internal

---
 .../include/diskpp/loaders/loader_poly.hpp    | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 7b9878c..385260e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -359,11 +359,23 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         }
         /* Now the faces are in their place and have correct ptrs */
 
+        /* Groups of faces are the subdomains */
+        std::vector<size_t> subdomain_ids(faces_to_edges.size(), 0);
+        for (auto& [id, faces] : faces_to_grp)
+            for (auto& face_id : faces)
+                subdomain_ids.at(face_id) = id;
+
+        storage->subdomain_info.clear();
+        for (auto& fe : faces_to_edges)
+            storage->subdomain_info.push_back(subdomain_descriptor(subdomain_ids.at(fe.first)));
+
         storage->points   = std::move(m_points);
         storage->nodes    = std::move(m_nodes);
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
@@ -659,6 +671,18 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
 
+        /* Groups of volumes are the subdomains */
+        std::vector<size_t> subdomain_ids(vols_to_faces.size(), 0);
+        for (auto& [id, volumes] : vols_to_grp)
+            for (auto& volume_id : volumes)
+                subdomain_ids.at(volume_id) = id;
+
+        storage->subdomain_info.clear();
+        for (auto& vf : vols_to_faces)
+            storage->subdomain_info.push_back(subdomain_descriptor(subdomain_ids.at(vf.first)));
+
+        mark_internal_faces(msh);
+
         return true;
     }
 };
-- 
2.43.0


From 726a72491d2f191f595543dc70ed31ffd4a3e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 087/112] fix: poly loaders ignored the identifiers of nodes
 and elements listed out of order

---
 libdiskpp/include/diskpp/loaders/loader_poly.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 385260e..4f5112b 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -71,6 +71,9 @@ read_cell_block(std::ifstream& ifs, const size_t nb_cells, std::vector<std::pair
     for (size_t i = 0; i < nb_cells; i++)
         cells.push_back(read_cell_line(ifs));
 
+    /* Elements refer to each other by identifier, put them in order */
+    std::sort(cells.begin(), cells.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
+
     return true;
 }
 
@@ -94,6 +97,9 @@ read_nodes_block(std::ifstream& ifs, const size_t nb_nodes, std::vector<std::pai
         nodes.push_back(std::make_pair(node_id, coor));
     }
 
+    /* Elements refer to each other by identifier, put them in order */
+    std::sort(nodes.begin(), nodes.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
+
     return true;
 }
 
-- 
2.43.0


From ce9c2345945c4a5f006fdfa1e914447b1c96c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 088/112] fix: netgen export rounded the coordinates and
 dropped subdomain and boundary numbers

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index e98b758..8f9a030 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -442,6 +442,7 @@ void
 dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& filename)
 {
     std::ofstream ofs(filename);
+    ofs.precision(std::numeric_limits<T>::max_digits10);
 
     ofs << msh.points_size() << std::endl;
     for (auto itor = msh.points_begin(); itor != msh.points_end(); itor++)
@@ -452,7 +453,7 @@ dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& fil
     {
         auto cell = *itor;
         auto ptids = cell.point_ids();
-        ofs << "1 ";
+        ofs << msh.domain_info(cell).tag() << " ";
         for (auto& pi : ptids)
             ofs << pi+1 << " ";
         ofs << std::endl;
@@ -463,7 +464,7 @@ dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& fil
     {
         auto face = *itor;
         auto ptids = face.point_ids();
-        ofs << "1 ";
+        ofs << msh.boundary_info(face).tag() << " ";
         for (auto& pi : ptids)
             ofs << pi+1 << " ";
         ofs << std::endl;
-- 
2.43.0


From d66d378fba4af41d270239858875977437dd66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 089/112] fix: mapped files ending at a page boundary were read
 past their end

---
 libdiskpp/src/common/mapped_file.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 45cf388..d459942 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -110,17 +110,32 @@ mapped_file::map(const std::string& name)
     }
     m_length = sb.st_size;
 
-    m_addr = static_cast<const char*>(
-                         mmap(NULL, m_length, PROT_READ, MAP_PRIVATE, fd, 0u)
-                       );
-    if (m_addr == MAP_FAILED)
+    /* The parsers expect a zero-terminated buffer. Past the end of the file
+     * the last page is filled with zeros, but if the file ends exactly at the
+     * end of a page (or if it is empty) there is nothing to terminate it, so
+     * put it on top of an anonymous mapping which is one byte longer. */
+    void *addr = mmap(NULL, m_length+1, PROT_READ, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+    if (addr == MAP_FAILED)
     {
         perror("mmap");
         ::close(fd);
         return false;
     }
 
-    madvise((void*)m_addr, sb.st_size, MADV_SEQUENTIAL);
+    if (m_length > 0)
+    {
+        if ( mmap(addr, m_length, PROT_READ, MAP_PRIVATE|MAP_FIXED, fd, 0) == MAP_FAILED )
+        {
+            perror("mmap");
+            munmap(addr, m_length+1);
+            ::close(fd);
+            return false;
+        }
+
+        madvise(addr, m_length, MADV_SEQUENTIAL);
+    }
+
+    m_addr = static_cast<const char*>(addr);
 
     m_name = name;
 
@@ -134,7 +149,7 @@ mapped_file::map(const std::string& name)
 bool
 mapped_file::unmap(void)
 {
-    munmap((void *)m_addr, m_length);
+    munmap((void *)m_addr, m_length+1);
     ::close(m_fd);
     return true;
 }
-- 
2.43.0


From f1b090d77464f25f21d931e650db83f7ada4200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 090/112] fix: closing a mapped file that was not open unmapped
 garbage

---
 libdiskpp/src/common/mapped_file.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index d459942..1a5e5bb 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -64,11 +64,12 @@
 #include "diskpp/common/mapped_file.h"
 
 mapped_file::mapped_file()
-    : m_is_open(false)
+    : m_start(nullptr), m_end(nullptr), m_fd(-1), m_length(0),
+      m_addr(nullptr), m_is_open(false)
 {}
 
 mapped_file::mapped_file(const std::string& name)
-    : m_is_open(false)
+    : mapped_file()
 {
     open(name);
 }
@@ -81,13 +82,18 @@ mapped_file::~mapped_file()
 void
 mapped_file::open(const std::string& name)
 {
+    close();
     m_is_open = map(name);
 }
 
 void
 mapped_file::close(void)
 {
+    if (!m_is_open)
+        return;
+
     unmap();
+    m_is_open = false;
 }
 
 bool
-- 
2.43.0


From 832f47e13d059cef678f6c26e309944cf1ea76d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 091/112] fix: netgen and cartesian loaders crashed when the
 file could not be opened

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 2 ++
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp    | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 3e54858..ee780ec 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -131,6 +131,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 5613a36..7050f9c 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -117,6 +117,8 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
@@ -343,6 +345,8 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         /************************ Read points ************************/
         linecount = 0;
-- 
2.43.0


From a6ce797d9fe47c753f63092b8b9691ac6aa0a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 092/112] fix: loaders read missing numbers as zeros

---
 libdiskpp/include/diskpp/loaders/strtot.hpp | 29 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/strtot.hpp b/libdiskpp/include/diskpp/loaders/strtot.hpp
index c58ee67..283198e 100644
--- a/libdiskpp/include/diskpp/loaders/strtot.hpp
+++ b/libdiskpp/include/diskpp/loaders/strtot.hpp
@@ -53,8 +53,21 @@
 #pragma once
 
 #include <sstream>
+#include <stdexcept>
 #include <stdlib.h>
 
+namespace strtot_priv
+{
+/* strtod() & co. don't move if there is nothing to convert: without this check
+ * the rest of a truncated or malformed file would be read as zeros. */
+inline void
+check_converted(const char *str, char **endptr)
+{
+    if (*endptr == str)
+        throw std::invalid_argument("strtot: a number was expected");
+}
+} // namespace strtot_priv
+
 template<typename T>
 T
 inline
@@ -71,7 +84,9 @@ inline
 double
 strtot(const char *str, char **endptr)
 {
-    return strtod(str, endptr);
+    auto ret = strtod(str, endptr);
+    strtot_priv::check_converted(str, endptr);
+    return ret;
 }
 
 template<>
@@ -79,7 +94,9 @@ inline
 float
 strtot(const char *str, char **endptr)
 {
-    return strtof(str, endptr);
+    auto ret = strtof(str, endptr);
+    strtot_priv::check_converted(str, endptr);
+    return ret;
 }
 
 template<>
@@ -87,7 +104,9 @@ inline
 long double
 strtot(const char *str, char **endptr)
 {
-    return strtold(str, endptr);
+    auto ret = strtold(str, endptr);
+    strtot_priv::check_converted(str, endptr);
+    return ret;
 }
 
 template<>
@@ -95,5 +114,7 @@ inline
 size_t
 strtot(const char *str, char **endptr)
 {
-    return strtoul(str, endptr, 10);
+    auto ret = strtoul(str, endptr, 10);
+    strtot_priv::check_converted(str, endptr);
+    return ret;
 }
-- 
2.43.0


From dc0d54bdfb47e3ad4da22cc2ebb65845d5dfbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 093/112] fix: FVCA6 loader did not notice the end of truncated
 files

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 04f76a0..b6420c5 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -106,6 +106,9 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Don't go on with a truncated or malformed file */
+        ifs.exceptions(std::ifstream::failbit);
+
         /* Apparently the first 16 lines of the file are comments or
          * information repeated elsewhere: throw them away */
 
-- 
2.43.0


From a2e93dd292318fd2339bbae8c635d146cd24bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 094/112] fix: medit loader did not notice the end of truncated
 files

---
 libdiskpp/include/diskpp/loaders/loader_medit.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 7816e18..79cac4e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -200,6 +200,9 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Don't go on with a truncated or malformed file */
+        ifs.exceptions(std::ifstream::failbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
@@ -470,6 +473,9 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Don't go on with a truncated or malformed file */
+        ifs.exceptions(std::ifstream::failbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
-- 
2.43.0


From 7a83c8db95f5e425b0a7a00ffeab3b4e646991cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 095/112] fix: poly loader did not notice the end of truncated
 files

---
 libdiskpp/include/diskpp/loaders/loader_poly.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 4f5112b..3114c4a 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -172,6 +172,9 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Don't go on with a truncated or malformed file */
+        ifs.exceptions(std::ifstream::failbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
@@ -425,6 +428,9 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Don't go on with a truncated or malformed file */
+        ifs.exceptions(std::ifstream::failbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
-- 
2.43.0


From bde9c6017e6acedccd7971fe01b42cd7f3e6ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 096/112] fix: netgen loaders accepted elements made of
 inexistent points

---
 .../include/diskpp/loaders/loader_netgen.hpp  |  6 ++++++
 .../include/diskpp/loaders/loader_utils.hpp   | 20 +++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 7050f9c..642f6c3 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -285,6 +285,9 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         }
         surfaces.clear();
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
         storage->boundary_info.resize(storage->edges.size());
         for (auto& be : boundary_edges)
         {
@@ -518,6 +521,9 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         storage->surfaces      = std::move(surfaces);
         storage->boundary_info = std::move(boundary_info);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
         std::vector<volume_type> vols;
         vols.reserve(tmp_volumes.size());
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index 0c07bff..fa89571 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -184,6 +184,26 @@ read_3d_point_line(const char* str, char** endptr, T scalefactor)
     return point<T, 3>{t1 * scalefactor, t2 * scalefactor, t3 * scalefactor};
 }
 
+/* Check that elements refer only to points that exist */
+template<typename Elements>
+bool
+valid_point_ids(const Elements& elements, size_t num_points)
+{
+    for (auto& element : elements)
+    {
+        for (auto& ptid : element.point_ids())
+        {
+            if (size_t(ptid) < num_points)
+                continue;
+
+            std::cout << "Invalid mesh: element refers to an inexistent point" << std::endl;
+            return false;
+        }
+    }
+
+    return true;
+}
+
 } // namespace priv
 
 } // namespace disk
-- 
2.43.0


From 5ee0e42b786daed0c6832c4df94edc3edba9fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 097/112] fix: cartesian loaders accepted elements made of
 inexistent points

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index ee780ec..63f4b2f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -316,6 +316,9 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         WAIT_THREAD(quad_thread);
         WAIT_THREAD(hex_thread);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
         storage->boundary_info.resize(storage->surfaces.size());
         for (auto& bs : boundary_surfaces)
         {
@@ -534,6 +537,9 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(quad_thread);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
         storage->boundary_info.resize(storage->edges.size());
         for (auto& bs : boundary_edges)
         {
-- 
2.43.0


From d368b4c88ef93b90d0cfbeac17d8b266e08cb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 098/112] fix: FVCA5 loader accepted polygons made of
 inexistent points or edges

---
 libdiskpp/include/diskpp/loaders/loader_fvca5.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 843b5a9..dd00982 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -485,6 +485,9 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         storage->edges = std::move(edges);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
         /* Surfaces */
         using sd_pair = std::pair<surface_type, size_t>;
         std::vector<sd_pair> surfaces;
@@ -509,6 +512,13 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
                 surface_edges.push_back(edge_id.second);
             }
+            if (surface_edges.size() != p.nodes.size())
+            {
+                std::cout << "Invalid mesh: the edges of a polygon don't match ";
+                std::cout << "its nodes" << std::endl;
+                return false;
+            }
+
             auto surface = surface_type(surface_edges);
             surface.set_point_ids(p.nodes.begin(), p.nodes.end()); /* XXX: crap */
             surfaces.push_back(std::make_pair(surface, p.domain_id));
@@ -527,6 +537,9 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->subdomain_info.resize(surfaces.size());
         std::transform(surfaces.begin(), surfaces.end(), storage->subdomain_info.begin(), get_id);
 
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+            return false;
+
         mark_internal_faces(msh);
 
         /* FVCA5 meshes do not provide boundary information. As usually they represent
-- 
2.43.0


From b7df97d9d16be5f3d695e3d976c7b5584705d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 099/112] fix: FVCA6 loader accepted elements made of
 inexistent points, edges or faces

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index b6420c5..ca07e5b 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -280,7 +280,7 @@ public:
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort in lexicographical order and remember original position */
@@ -308,7 +308,7 @@ public:
         for (auto& vf : vol_to_faces )
         {
             for (auto& ptr : vf.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         //for (auto& f : faces)
@@ -334,6 +334,15 @@ public:
         storage->surfaces   = std::move(faces);
         storage->volumes    = std::move(volumes);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->volumes, storage->points.size()))
+            return false;
+
         std::vector<size_t> bf(storage->surfaces.size());
         for (auto& vol : storage->volumes)
         {
-- 
2.43.0


From df83d7eee1e0971de3cbe9c2f66e6289d8e9d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 100/112] fix: medit loaders accepted elements made of
 inexistent points, edges or faces

---
 .../include/diskpp/loaders/loader_medit.hpp    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 79cac4e..29eebd0 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -362,6 +362,9 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         storage->edges = std::move(edges);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
         /* Surfaces */
         using sd_pair = std::pair<surface_type, size_t>;
         std::vector<sd_pair> surfaces;
@@ -669,7 +672,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort in lexicographical order and remember original position */
@@ -695,7 +698,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& vf : vol_to_faces)
         {
             for (auto& ptr : vf.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort volume data */
@@ -718,11 +721,20 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->volumes, storage->points.size()))
+            return false;
+
         storage->boundary_info.resize(storage->surfaces.size());
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
             boundary_descriptor bi(m_boundary_edges[i][1], true);
-            storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
+            storage->boundary_info.at(conv_table.at(m_boundary_edges[i][0])) = bi;
         }
 
         storage->subdomain_info.resize(storage->volumes.size());
-- 
2.43.0


From 25f6c6f3a451e2de124b50fcb8e075826d126579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 101/112] fix: poly loaders accepted elements made of
 inexistent points, edges or faces

---
 .../include/diskpp/loaders/loader_poly.hpp    | 107 ++++++++++++++----
 1 file changed, 85 insertions(+), 22 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 3114c4a..b0b756c 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -74,6 +74,15 @@ read_cell_block(std::ifstream& ifs, const size_t nb_cells, std::vector<std::pair
     /* Elements refer to each other by identifier, put them in order */
     std::sort(cells.begin(), cells.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
 
+    for (size_t i = 0; i < cells.size(); i++)
+    {
+        if (cells[i].first == i)
+            continue;
+
+        std::cout << "Invalid mesh: missing or repeated identifier" << std::endl;
+        return false;
+    }
+
     return true;
 }
 
@@ -100,6 +109,15 @@ read_nodes_block(std::ifstream& ifs, const size_t nb_nodes, std::vector<std::pai
     /* Elements refer to each other by identifier, put them in order */
     std::sort(nodes.begin(), nodes.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
 
+    for (size_t i = 0; i < nodes.size(); i++)
+    {
+        if (nodes[i].first == i)
+            continue;
+
+        std::cout << "Invalid mesh: missing or repeated identifier" << std::endl;
+        return false;
+    }
+
     return true;
 }
 
@@ -208,7 +226,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " nodes" << std::endl;
 
-                poly::read_nodes_block(ifs, nb_elems, vts);
+                if ( !poly::read_nodes_block(ifs, nb_elems, vts) )
+                    return false;
             }
             else if (keyword == "*Nodes->Groups")
             {
@@ -216,7 +235,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " nodes->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, vts_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, vts_to_grp) )
+                    return false;
             }
             else if (keyword == "*Edges->Nodes")
             {
@@ -224,7 +244,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " edges->nodes" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, edges_to_vts);
+                if ( !poly::read_cell_block(ifs, nb_elems, edges_to_vts) )
+                    return false;
             }
             else if (keyword == "*Edges->Groups")
             {
@@ -232,7 +253,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " edges->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, edges_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, edges_to_grp) )
+                    return false;
             }
             else if (keyword == "*Faces->Nodes")
             {
@@ -240,7 +262,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " faces->nodes" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, faces_to_vts);
+                if ( !poly::read_cell_block(ifs, nb_elems, faces_to_vts) )
+                    return false;
             }
             else if (keyword == "*Faces->Edges")
             {
@@ -248,7 +271,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " faces->edges" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, faces_to_edges);
+                if ( !poly::read_cell_block(ifs, nb_elems, faces_to_edges) )
+                    return false;
             }
             else if (keyword == "*Faces->Groups")
             {
@@ -256,7 +280,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " faces->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, faces_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, faces_to_grp) )
+                    return false;
             }
             else if (keyword == "**EndMesh")
             {
@@ -305,6 +330,12 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         m_edges.reserve(edges_to_vts.size());
         for (auto& [id, vts] : edges_to_vts)
         {
+            if (vts.size() != 2)
+            {
+                std::cout << "Invalid mesh: an edge must have two nodes" << std::endl;
+                return false;
+            }
+
             size_t v1 = vts[0], v2 = vts[1];
 
             if (v1 > v2)
@@ -335,7 +366,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Detect which ones are boundary edges */
@@ -345,7 +376,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             for (auto& edge_id : edges)
             {
                 boundary_descriptor bi(id, true);
-                storage->boundary_info.at(conv_table[edge_id]) = bi;
+                storage->boundary_info.at(conv_table.at(edge_id)) = bi;
             }
         }
 
@@ -383,6 +414,12 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+            return false;
+
         mark_internal_faces(msh);
 
         return true;
@@ -464,7 +501,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " nodes" << std::endl;
 
-                poly::read_nodes_block(ifs, nb_elems, vts);
+                if ( !poly::read_nodes_block(ifs, nb_elems, vts) )
+                    return false;
             }
             else if (keyword == "*Nodes->Groups")
             {
@@ -472,7 +510,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " nodes->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, vts_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, vts_to_grp) )
+                    return false;
             }
             else if (keyword == "*Edges->Nodes")
             {
@@ -480,7 +519,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " edges->nodes" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, edges_to_vts);
+                if ( !poly::read_cell_block(ifs, nb_elems, edges_to_vts) )
+                    return false;
             }
             else if (keyword == "*Edges->Groups")
             {
@@ -488,7 +528,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " edges->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, edges_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, edges_to_grp) )
+                    return false;
             }
             else if (keyword == "*Faces->Nodes")
             {
@@ -496,7 +537,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " faces->nodes" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, faces_to_vts);
+                if ( !poly::read_cell_block(ifs, nb_elems, faces_to_vts) )
+                    return false;
             }
             else if (keyword == "*Faces->Edges")
             {
@@ -504,7 +546,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " faces->edges" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, faces_to_edges);
+                if ( !poly::read_cell_block(ifs, nb_elems, faces_to_edges) )
+                    return false;
             }
             else if (keyword == "*Faces->Groups")
             {
@@ -512,7 +555,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " faces->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, faces_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, faces_to_grp) )
+                    return false;
             }
             else if (keyword == "*Volumes->Nodes")
             {
@@ -520,7 +564,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " volumes->nodes" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, vols_to_vts);
+                if ( !poly::read_cell_block(ifs, nb_elems, vols_to_vts) )
+                    return false;
             }
             else if (keyword == "*Volumes->Edges")
             {
@@ -528,7 +573,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " volumes->edges" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, vols_to_edges);
+                if ( !poly::read_cell_block(ifs, nb_elems, vols_to_edges) )
+                    return false;
             }
             else if (keyword == "*Volumes->Faces")
             {
@@ -536,7 +582,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " volumes->faces" << std::endl;
 
-                poly::read_cell_block(ifs, nb_elems, vols_to_faces);
+                if ( !poly::read_cell_block(ifs, nb_elems, vols_to_faces) )
+                    return false;
             }
             else if (keyword == "*Volumes->Groups")
             {
@@ -544,7 +591,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
                 if (this->verbose())
                     std::cout << "Reading " << nb_elems << " volumes->groups" << std::endl;
 
-                poly::read_grp_block(ifs, nb_elems, vols_to_grp);
+                if ( !poly::read_grp_block(ifs, nb_elems, vols_to_grp) )
+                    return false;
             }
             else if (keyword == "**EndMesh")
             {
@@ -593,6 +641,12 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         m_edges.reserve(edges_to_vts.size());
         for (auto& [id, vts] : edges_to_vts)
         {
+            if (vts.size() != 2)
+            {
+                std::cout << "Invalid mesh: an edge must have two nodes" << std::endl;
+                return false;
+            }
+
             size_t v1 = vts[0], v2 = vts[1];
 
             if (v1 > v2)
@@ -623,7 +677,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort in lexicographical order and remember original position */
@@ -660,7 +714,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& vf : vols_to_faces)
         {
             for (auto& ptr : vf.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort volume data */
@@ -693,6 +747,15 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& vf : vols_to_faces)
             storage->subdomain_info.push_back(subdomain_descriptor(subdomain_ids.at(vf.first)));
 
+        if (!priv::valid_point_ids(storage->edges, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+            return false;
+
+        if (!priv::valid_point_ids(storage->volumes, storage->points.size()))
+            return false;
+
         mark_internal_faces(msh);
 
         return true;
-- 
2.43.0


From 9cd84f523770e943914f60c8062d37b45af817c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 102/112] fix: FVCA5 loader looped forever on read errors

---
 libdiskpp/include/diskpp/loaders/loader_fvca5.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index dd00982..42e7a47 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -394,6 +394,9 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* On read errors eof() is never reached */
+        ifs.exceptions(std::ifstream::badbit);
+
         while (!ifs.eof())
         {
             bool success = fvca5_parse_block();
-- 
2.43.0


From 7ea737094228340f4a66ae5ef8a282ba3f1ca892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 103/112] fix: loaders accepted polytopes with too few vertices

---
 libdiskpp/include/diskpp/loaders/loader_fvca5.hpp |  2 +-
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp |  4 ++--
 libdiskpp/include/diskpp/loaders/loader_medit.hpp |  4 ++--
 libdiskpp/include/diskpp/loaders/loader_poly.hpp  |  6 +++---
 libdiskpp/include/diskpp/loaders/loader_utils.hpp | 11 +++++++++--
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 42e7a47..ef77b6b 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -540,7 +540,7 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->subdomain_info.resize(surfaces.size());
         std::transform(surfaces.begin(), surfaces.end(), storage->subdomain_info.begin(), get_id);
 
-        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size(), 3))
             return false;
 
         mark_internal_faces(msh);
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index ca07e5b..2cab1dc 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -337,10 +337,10 @@ public:
         if (!priv::valid_point_ids(storage->edges, storage->points.size()))
             return false;
 
-        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size(), 3))
             return false;
 
-        if (!priv::valid_point_ids(storage->volumes, storage->points.size()))
+        if (!priv::valid_point_ids(storage->volumes, storage->points.size(), 4))
             return false;
 
         std::vector<size_t> bf(storage->surfaces.size());
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 29eebd0..40ff704 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -724,10 +724,10 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         if (!priv::valid_point_ids(storage->edges, storage->points.size()))
             return false;
 
-        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size(), 3))
             return false;
 
-        if (!priv::valid_point_ids(storage->volumes, storage->points.size()))
+        if (!priv::valid_point_ids(storage->volumes, storage->points.size(), 4))
             return false;
 
         storage->boundary_info.resize(storage->surfaces.size());
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index b0b756c..dc11e3e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -417,7 +417,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         if (!priv::valid_point_ids(storage->edges, storage->points.size()))
             return false;
 
-        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size(), 3))
             return false;
 
         mark_internal_faces(msh);
@@ -750,10 +750,10 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         if (!priv::valid_point_ids(storage->edges, storage->points.size()))
             return false;
 
-        if (!priv::valid_point_ids(storage->surfaces, storage->points.size()))
+        if (!priv::valid_point_ids(storage->surfaces, storage->points.size(), 3))
             return false;
 
-        if (!priv::valid_point_ids(storage->volumes, storage->points.size()))
+        if (!priv::valid_point_ids(storage->volumes, storage->points.size(), 4))
             return false;
 
         mark_internal_faces(msh);
diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index fa89571..6a07ca9 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -184,13 +184,20 @@ read_3d_point_line(const char* str, char** endptr, T scalefactor)
     return point<T, 3>{t1 * scalefactor, t2 * scalefactor, t3 * scalefactor};
 }
 
-/* Check that elements refer only to points that exist */
+/* Check that elements refer only to points that exist and that they have
+ * enough of them */
 template<typename Elements>
 bool
-valid_point_ids(const Elements& elements, size_t num_points)
+valid_point_ids(const Elements& elements, size_t num_points, size_t min_points = 1)
 {
     for (auto& element : elements)
     {
+        if (element.point_ids().size() < min_points)
+        {
+            std::cout << "Invalid mesh: element with too few points" << std::endl;
+            return false;
+        }
+
         for (auto& ptid : element.point_ids())
         {
             if (size_t(ptid) < num_points)
-- 
2.43.0


From eab46d33cc9cbb150022543778510a2217a323c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 104/112] fix: edges of refined meshes had uninitialised
 boundary numbers and lost the interfaces

---
 .../include/diskpp/mesh/mesh_hierarchy.hpp    | 49 ++++++-------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 8f9a030..5c19c04 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -53,26 +53,11 @@ class mesh_hierarchy
             p0          = ptids[0];
             p1          = ptids[1];
             assert(p0 < p1);
-            is_boundary = msh.is_boundary(e);
-            if(is_boundary)
-                boundary_id = msh.boundary_id(e);
-
+            bnd_info    = msh.boundary_info(e);
             is_broken   = false;
         }
 
-        edge(size_t ap0, size_t ap1, bool bnd = false)
-        {
-            assert (ap0 != ap1);
-            p0                  = ap0;
-            p1                  = ap1;
-            if (p0 > p1)
-                std::swap(p0, p1);
-
-            is_boundary         = bnd;
-            is_broken           = false;
-        }
-
-        edge(size_t ap0, size_t ap1, size_t bid, bool bnd)
+        edge(size_t ap0, size_t ap1, const boundary_descriptor& bi = boundary_descriptor())
         {
             assert (ap0 != ap1);
             p0                  = ap0;
@@ -80,9 +65,8 @@ class mesh_hierarchy
             if (p0 > p1)
                 std::swap(p0, p1);
 
-            is_boundary         = bnd;
+            bnd_info            = bi;
             is_broken           = false;
-            boundary_id         = bid;
         }
 
         friend bool operator<(const edge& a, const edge& b) {
@@ -98,13 +82,13 @@ class mesh_hierarchy
         friend std::ostream& operator<<(std::ostream& os, const edge& e) {
             os << "Edge: " << e.p0 << " " << e.p1;
             if (e.is_broken) os << ", broken";
-            if (e.is_boundary) os << ", boundary";
+            if (e.bnd_info.is_boundary()) os << ", boundary";
             return os;
         }
 
         size_t  p0, p1, pb;
-        bool    is_boundary, is_broken;
-        size_t  boundary_id;
+        bool    is_broken;
+        boundary_descriptor bnd_info;
     };
 
 
@@ -180,23 +164,23 @@ class mesh_hierarchy
 
             /* compute the edges of the new four triangles */
             /* first triangle */
-            m_edges.push_back( edge(t_e0.p0, t_e0.pb, t_e0.boundary_id, t_e0.is_boundary) );
-            m_edges.push_back( edge(t_e0.pb, t_e2.pb, false) );
-            m_edges.push_back( edge(t_e0.p0, t_e2.pb, t_e2.boundary_id, t_e2.is_boundary) );
+            m_edges.push_back( edge(t_e0.p0, t_e0.pb, t_e0.bnd_info) );
+            m_edges.push_back( edge(t_e0.pb, t_e2.pb) );
+            m_edges.push_back( edge(t_e0.p0, t_e2.pb, t_e2.bnd_info) );
             triangle t0(t_e0.p0, t_e0.pb, t_e2.pb);
             m_triangles.push_back(t0);
 
             /* second triangle */
-            m_edges.push_back( edge(t_e0.p1, t_e0.pb, t_e0.boundary_id, t_e0.is_boundary) );
-            m_edges.push_back( edge(t_e0.pb, t_e1.pb, false) );
-            m_edges.push_back( edge(t_e1.p0, t_e1.pb, t_e1.boundary_id, t_e1.is_boundary) );
+            m_edges.push_back( edge(t_e0.p1, t_e0.pb, t_e0.bnd_info) );
+            m_edges.push_back( edge(t_e0.pb, t_e1.pb) );
+            m_edges.push_back( edge(t_e1.p0, t_e1.pb, t_e1.bnd_info) );
             triangle t1(t_e0.p1, t_e0.pb, t_e1.pb);
             m_triangles.push_back(t1);
 
             /* third triangle */
-            m_edges.push_back( edge(t_e1.p1, t_e1.pb, t_e1.boundary_id, t_e1.is_boundary) );
-            m_edges.push_back( edge(t_e1.pb, t_e2.pb, false) );
-            m_edges.push_back( edge(t_e2.p1, t_e2.pb, t_e2.boundary_id, t_e2.is_boundary) );
+            m_edges.push_back( edge(t_e1.p1, t_e1.pb, t_e1.bnd_info) );
+            m_edges.push_back( edge(t_e1.pb, t_e2.pb) );
+            m_edges.push_back( edge(t_e2.p1, t_e2.pb, t_e2.bnd_info) );
             triangle t2(t_e1.p1, t_e1.pb, t_e2.pb);
             m_triangles.push_back(t2);
 
@@ -259,8 +243,7 @@ class mesh_hierarchy
             auto p1 = point_id_type(m_edges[i].p1);
 
             bs_refined->edges[i] = mesh_edge_type({p0, p1});
-            bs_refined->boundary_info[i] =
-                disk::boundary_descriptor(m_edges[i].boundary_id, m_edges[i].is_boundary);
+            bs_refined->boundary_info[i] = m_edges[i].bnd_info;
         }
 
         bs_refined->surfaces.resize( m_triangles.size() );
-- 
2.43.0


From d5e05c05eaea9bac16c00bf9c51ee8d6f744792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 105/112] fix: cells of refined meshes had no subdomain

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 5c19c04..8584313 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -381,6 +381,15 @@ public:
             //next_mesh.statistics();
             meshes.push_back( next_mesh );
             auto c2f = make_coarse_to_fine_map(meshes[i], meshes[i+1]);
+
+            /* The new triangles are in the subdomain of the triangle they come from */
+            auto& coarse_sds = meshes[i].backend_storage()->subdomain_info;
+            auto& fine_sds = meshes[i+1].backend_storage()->subdomain_info;
+            fine_sds.resize( meshes[i+1].cells_size() );
+            for (size_t coarse_id = 0; coarse_id < coarse_sds.size(); coarse_id++)
+                for (auto& fine_id : c2f.at(coarse_id))
+                    fine_sds.at(fine_id) = coarse_sds[coarse_id];
+
             coarse_to_fine.push_back( std::move(c2f) );
         }
 
-- 
2.43.0


From ac5083c37499353b279a89b395a1950121814dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 106/112] fix: locating a point on the level after the last one
 accessed an inexistent mesh

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 8584313..f124ca1 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -336,9 +336,6 @@ class mesh_hierarchy
     size_t
     locate_recursive(const point_type& pt, size_t cur_level, size_t max_level, size_t tri_num)
     {
-        if (max_level > meshes.size())
-            throw std::invalid_argument("inexistent mesh level");
-
         if (cur_level > max_level)
             return tri_num;
 
@@ -404,6 +401,9 @@ public:
         if (meshes.size() == 0)
             throw std::logic_error("mesh hierarchy not built");
 
+        if (level >= meshes.size())
+            throw std::invalid_argument("inexistent mesh level");
+
         size_t tri_num;
         for (tri_num = 0; tri_num < meshes[0].cells_size(); tri_num++)
         {
-- 
2.43.0


From fc2af6ba4e0dd5ed1ad826e5e0deca7423731e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 107/112] fix: points on the edges of a mesh hierarchy could
 not be located because of roundoff

---
 .../include/diskpp/mesh/mesh_hierarchy.hpp    | 63 ++++++++++---------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index f124ca1..e677791 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -309,28 +309,22 @@ class mesh_hierarchy
         return next_mesh;
     }
 
-    bool
-    is_inside(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
+    /* Smallest barycentric coordinate of a point: not negative if the point is
+     * inside the triangle. */
+    T
+    inside_margin(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
     {
         auto pts = points(msh, t);
 
-        auto v0 = (pts[1] - pts[0]).to_vector();
-        auto v1 = (pts[2] - pts[0]).to_vector();
-        auto v2 = (pt - pts[0]).to_vector();
+        auto v0 = pts[1] - pts[0];
+        auto v1 = pts[2] - pts[0];
+        auto v2 = pt - pts[0];
 
-        auto dot00 = v0.dot(v0);
-        auto dot01 = v0.dot(v1);
-        auto dot02 = v0.dot(v2);
-        auto dot11 = v1.dot(v1);
-        auto dot12 = v1.dot(v2);
+        T det = v0.x()*v1.y() - v0.y()*v1.x();
+        T u = (v2.x()*v1.y() - v2.y()*v1.x())/det;
+        T v = (v0.x()*v2.y() - v0.y()*v2.x())/det;
 
-        auto invDenom = 1. / (dot00 * dot11 - dot01 * dot01);
-        auto u = (dot11 * dot02 - dot01 * dot12) * invDenom;
-        auto v = (dot00 * dot12 - dot01 * dot02) * invDenom;
-
-        auto thresh = 0.0;
-
-        return (u >= (0-thresh)) && (v >= (0-thresh)) && (u + v <= (1+thresh));
+        return std::min( std::min(u, v), T(1)-u-v );
     }
 
     size_t
@@ -342,14 +336,23 @@ class mesh_hierarchy
         auto current_mesh = meshes[cur_level];
         auto triangles = coarse_to_fine.at(cur_level-1).at(tri_num);
 
+        /* The point is in the triangle that has just been refined: take the
+         * best of the four new triangles, as a point lying on an edge could
+         * be found outside of all of them because of roundoff. */
+        size_t best_t = triangles[0];
+        T best_margin = -std::numeric_limits<T>::infinity();
         for (auto& t : triangles)
         {
             auto cl = *std::next(current_mesh.cells_begin(), t);
-            if (is_inside(current_mesh, cl, pt))
-                return locate_recursive(pt, cur_level+1, max_level, t);
+            auto margin = inside_margin(current_mesh, cl, pt);
+            if (margin > best_margin)
+            {
+                best_margin = margin;
+                best_t = t;
+            }
         }
 
-        throw std::invalid_argument("point not found (s)");
+        return locate_recursive(pt, cur_level+1, max_level, best_t);
     }
 
 public:
@@ -404,21 +407,25 @@ public:
         if (level >= meshes.size())
             throw std::invalid_argument("inexistent mesh level");
 
-        size_t tri_num;
-        for (tri_num = 0; tri_num < meshes[0].cells_size(); tri_num++)
+        size_t best_tri = 0;
+        T best_margin = -std::numeric_limits<T>::infinity();
+        for (size_t tri_num = 0; tri_num < meshes[0].cells_size(); tri_num++)
         {
             auto cl = *std::next(meshes[0].cells_begin(), tri_num);
-            if ( is_inside(meshes[0], cl, pt) )
+            auto margin = inside_margin(meshes[0], cl, pt);
+            if (margin > best_margin)
             {
-                if (level > 0)
-                    return locate_recursive(pt, 1, level, tri_num);
-                else
-                    return tri_num;
+                best_margin = margin;
+                best_tri = tri_num;
             }
         }
 
+        /* Points on the boundary could be outside because of roundoff */
+        const T thresh = std::sqrt(std::numeric_limits<T>::epsilon());
+        if ( not (best_margin >= -thresh) )
+            throw std::invalid_argument("point not found");
 
-        throw std::invalid_argument("point not found");
+        return locate_recursive(pt, 1, level, best_tri);
     }
 
     auto meshes_begin()     const { return meshes.begin(); }
-- 
2.43.0


From 15d8094a8e26b3520bce05c929ff143a8c79a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 108/112] fix: faces of exported polyhedra were turned after
 three of their points

---
 libdiskpp/include/diskpp/output/silo.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index dbf5662..e3f4474 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -73,9 +73,14 @@ silo_face_orientation(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Area vector of the whole face: the first three points alone can be
+     * aligned, or they can turn the other way if the face is not convex. */
+    Eigen::Matrix<T,3,1> n = Eigen::Matrix<T,3,1>::Zero();
+    for (size_t i = 1; i+1 < pts.size(); i++) {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
-- 
2.43.0


From 5b702bb49bf1dbfe09d5f49146369aead0509403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 109/112] fix: rational coordinates were written as the bytes
 of truncated numbers

---
 libdiskpp/include/diskpp/output/silo.hpp | 85 +++++++++++++++---------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index e3f4474..87f9f07 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -121,6 +121,22 @@ struct silo_types<disk::rational<T>>
     static const int DB_TYPE = DB_DOUBLE;
 };
 
+/* Type used to write the coordinates: Silo does not have rational numbers. */
+template<typename T>
+struct silo_coordinate
+{
+    using type = T;
+};
+
+template<typename T>
+struct silo_coordinate<disk::rational<T>>
+{
+    using type = double;
+};
+
+template<typename T>
+using silo_coordinate_type = typename silo_coordinate<T>::type;
+
 template<typename T, variable_centering_t centering>
 class silo_variable
 {
@@ -235,16 +251,17 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back( double(pt.x()) );
-            y_coords.push_back( double(pt.y()) );
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 3*msh.cells_size() );
@@ -297,18 +314,19 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords, z_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords, z_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
         z_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back( pt.x() );
-            y_coords.push_back( pt.y() );
-            z_coords.push_back( pt.z() );
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
+            z_coords.push_back( coord_type(pt.z()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 4*msh.cells_size() );
@@ -361,17 +379,18 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(pts.size());
         y_coords.reserve(pts.size());
 
         for (auto& pt : pts) 
         {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = { x_coords.data(), y_coords.data() };
+        coord_type *coords[] = { x_coords.data(), y_coords.data() };
 
         int ndims = 2;
         int nels = pts.size();
@@ -394,18 +413,19 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords, z_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords, z_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
         z_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back( pt.x() );
-            y_coords.push_back( pt.y() );
-            z_coords.push_back( pt.z() );
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
+            z_coords.push_back( coord_type(pt.z()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 8*msh.cells_size() );
@@ -464,16 +484,17 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 4*msh.cells_size() );
@@ -527,18 +548,19 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords, z_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords, z_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
         z_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
-            z_coords.push_back(pt.z());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
+            z_coords.push_back( coord_type(pt.z()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
 
         int nfaces = msh.faces_size();
 
@@ -611,16 +633,17 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = silo_coordinate_type<T>;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data()};
 
         std::vector<int>    nodelist;
 
-- 
2.43.0


From e603f5397fc5023971857a2b2729d95b58e7b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 110/112] fix: opening a database that was already open leaked
 it

---
 libdiskpp/include/diskpp/output/silo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 87f9f07..6085e16 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -211,6 +211,7 @@ public:
 
     bool create(const std::string& db_name)
     {
+        close();
         m_siloDb = DBCreate(db_name.c_str(), DB_CLOBBER, DB_LOCAL, NULL, DB_PDB);
         if (m_siloDb)
             return true;
@@ -221,6 +222,7 @@ public:
 
     bool open(const std::string& db_name)
     {
+        close();
         m_siloDb = DBOpen(db_name.c_str(), DB_PDB, DB_APPEND);
         if (m_siloDb)
             return true;
-- 
2.43.0


From e6908ea607c9b27fcc981e4e91dbdedbd8cfac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 111/112] fix: failures to write variables and expressions were
 not reported

---
 libdiskpp/include/diskpp/output/silo.hpp | 89 +++++++++++++++---------
 1 file changed, 58 insertions(+), 31 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 6085e16..4935ec1 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -706,24 +706,27 @@ public:
             return false;
         }
 
+        bool ok = true;
         if (centering == zonal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
                          var.data(),
                          var.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+                         DB_ZONECENT, NULL) == 0;
         }
         else if (centering == nodal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
                          var.data(),
                          var.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+                         DB_NODECENT, NULL) == 0;
         }
         else
             return false;
 
-        return true;
+        if (!ok)
+            std::cout << "DBPutUcdvar1() failed" << std::endl;
+        return ok;
     }
 
     /* Scalar variable, COMPLEX case */
@@ -748,43 +751,46 @@ public:
             return false;
         }
 
+        bool ok = true;
         if (centering == zonal_variable_t)
         {
             std::stringstream ss;
             ss << var.name() << "_real";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
                          var_rep.data(),
                          var_rep.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+                         DB_ZONECENT, NULL) == 0;
             ss.str(std::string());
 
             ss << var.name() << "_imag";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
                          var_imp.data(),
                          var_imp.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+                         DB_ZONECENT, NULL) == 0;
 
         }
         else if (centering == nodal_variable_t)
         {
             std::stringstream ss;
             ss << var.name() << "_real";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
                          var_rep.data(),
                          var_rep.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+                         DB_NODECENT, NULL) == 0;
             ss.str(std::string());
 
             ss << var.name() << "_imag";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
                          var_imp.data(),
                          var_imp.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+                         DB_NODECENT, NULL) == 0;
         }
         else
             return false;
 
-        return true;
+        if (!ok)
+            std::cout << "DBPutUcdvar1() failed" << std::endl;
+        return ok;
     }
 
     /* Scalar variable, REAL case */
@@ -836,14 +842,12 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        bool ok = add_variable(mesh_name, var_name+"_x", c, centering);
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        ok = ok && add_variable(mesh_name, var_name+"_y", c, centering);
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
-
-        return true;
+        return ok && add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
     }
 
     template<typename T>
@@ -853,17 +857,15 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        bool ok = add_variable(mesh_name, var_name+"_x", c, centering);
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        ok = ok && add_variable(mesh_name, var_name+"_y", c, centering);
         c = var.col(2);
-        add_variable(mesh_name, var_name+"_z", c, centering);
+        ok = ok && add_variable(mesh_name, var_name+"_z", c, centering);
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y";
         exprss << ", " << var_name << "_z" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
-
-        return true;
+        return ok && add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
     }
 
     /* Scalar variable, REAL case */
@@ -881,29 +883,40 @@ public:
             return false;
         }
 
+        bool ok = true;
         if (centering == zonal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
                          var.data(),
                          var.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+                         DB_ZONECENT, NULL) == 0;
         }
         else if (centering == nodal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
+            ok = ok && DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
                          var.data(),
                          var.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+                         DB_NODECENT, NULL) == 0;
         }
         else
             return false;
 
-        return true;
+        if (!ok)
+            std::cout << "DBPutUcdvar1() failed" << std::endl;
+        return ok;
     }
 
     bool add_variable(const std::string& mesh_name, const std::string& vars_name,
         std::vector<std::vector<double>>& vars)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
+        if (vars.empty())
+            return false;
+
         std::vector<const double*> pvars;
         pvars.resize(vars.size());
         auto tr = [](const std::vector<double>& v) { return v.data(); };
@@ -921,6 +934,11 @@ public:
     bool add_variable(const std::string& mesh_name, const std::string& var_name,
         std::vector<double>& var)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
         int nels = var.size();
 
         auto err = DBPutPointvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
@@ -933,11 +951,20 @@ public:
                         const std::string& expr_definition,
                         int expr_type)
     {
+        if (!m_siloDb) {
+            std::cout << "add_expression(): Database not opened." << std::endl;
+            return false;
+        }
+
         std::stringstream ss;
         ss << "def_" << expr_name;
         const char *name[] = { expr_name.c_str() };
         const char *def[] = { expr_definition.c_str() };
-        DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL);
+        if ( DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL) < 0 ) {
+            std::cout << "DBPutDefvars() failed" << std::endl;
+            return false;
+        }
+
         return true;
     }
 };
-- 
2.43.0


From 1a5b39e189d4628cb0676213044695f07446304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 112/112] fix: cartesian cells were not split along a diagonal

---
 .../diskpp/quadratures/bits/raw_simplices.hpp | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp b/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
index 7041215..3d92979 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
@@ -27,6 +27,7 @@
 #pragma once
 
 #include "diskpp/geometry/geometry.hpp"
+#include "diskpp/geometry/element_hexahedral.hpp"
 #include "diskpp/common/simplicial_formula.hpp"
 #include "diskpp/contrib/earcut.hpp"
 
@@ -221,6 +222,35 @@ split_in_raw_triangles(const Mesh& msh, const typename Mesh::face& fc)
     return raw_simplices;
 }
 
+/**
+ * @brief Split a 2D-cell in triangles
+ *
+ * @tparam Mesh type of the mesh
+ * @param msh mesh
+ * @param cl specified 2D-cell
+ * @return std::vector<std::array<std::size_t, 3>> list of triangles (local index of nodes)
+ */
+template<typename Mesh>
+std::vector<std::array<std::size_t, 3>>
+split_in_local_triangles(const Mesh& msh, const typename Mesh::cell& cl)
+{
+    static_assert(Mesh::dimension == 2);
+
+    /* The points of cartesian cells do not follow the boundary of the cell */
+    if constexpr (std::is_same_v<typename Mesh::cell, cartesian_element<2,0>>)
+    {
+        using Triangle = std::array<std::size_t, 3>;
+        return std::vector<Triangle>{ Triangle{{0, 1, 3}}, Triangle{{0, 3, 2}} };
+    }
+
+    const auto pts = points(msh, cl);
+
+    std::vector<typename Mesh::point_type> vpts;
+    vpts.insert(vpts.begin(), std::begin(pts), std::end(pts));
+
+    return triangulation_earcut_algorithm(vpts);
+}
+
 /**
  * @brief Split a 2D-cell in triangles. There is several possibilities
  *
@@ -238,10 +268,7 @@ split_in_raw_triangles(const Mesh& msh, const typename Mesh::cell& cl)
 
     auto pts = points(msh, cl);
 
-    std::vector<typename Mesh::point_type> vpts;
-    vpts.insert(vpts.begin(), std::begin(pts), std::end(pts));
-
-    const auto triangles = triangulation_earcut_algorithm(vpts);
+    const auto triangles = split_in_local_triangles(msh, cl);
     std::vector<raw_simplex_type> raw_simplices;
     raw_simplices.reserve(triangles.size());
 
@@ -268,13 +295,9 @@ split_in_raw_triangles_index(const Mesh& msh, const typename Mesh::cell& cl)
     static_assert(Mesh::dimension == 2);
     using Triangle = std::array<point_identifier<2>, 3>;
 
-    const auto pts = points(msh, cl);
     const auto pts_id = cl.point_ids();
 
-    std::vector<typename Mesh::point_type> vpts;
-    vpts.insert(vpts.begin(), std::begin(pts), std::end(pts));
-
-    const auto triangles = triangulation_earcut_algorithm(vpts);
+    const auto triangles = split_in_local_triangles(msh, cl);
 
     std::vector<Triangle> raw_simplices;
     raw_simplices.reserve(triangles.size());
-- 
2.43.0


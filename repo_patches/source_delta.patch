From 380c00f04aa12971a24a9d1bed5bdbd7fe470f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:35 +0000
Subject: [PATCH 01/17] fix: knot removal drops exactly the knots it reports

When fewer than the requested removals succeeded, the points and knots
were still shortened by the requested number; when none succeeded the
points were left in homogeneous coordinates; asking for more removals
than the knot's multiplicity read outside the arrays.
---
 src/Algorithm/KnotRemoval.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..fd416ea 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,6 +24,13 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        int s = knot_vector.GetMultiplicity(knot_remove);
+        // a knot cannot be removed more often than it occurs
+        times = std::min(times, s);
+        if (times <= 0) return 0;
+
+        const std::vector<Vec4> original_points = points;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -31,7 +38,6 @@ namespace libnurbs
         }
 
         auto& knots = knot_vector.Values();
-        int s = knot_vector.GetMultiplicity(knot_remove);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
         double tol = CalcTOL(points, tolerance);
@@ -96,7 +102,11 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            points = original_points;
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
@@ -110,14 +120,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
-- 
2.43.0


From 83f8840a47d2c2a2ce61644b0450bf2652f15c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 02/17] fix: surface knot removal sizes the net by what was
 removed

The net was sized for the requested number of removals, so a partial
removal did not fit, and rows that allow different numbers of removals
made it give up instead of removing what all of them allow.
---
 src/Surface/Surface.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..79cfef3 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -763,38 +763,52 @@ Surface Surface::InsertKnotV(std::span<Numeric> knots_to_insert) const
 
 std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Numeric tolerance) const
 {
+    // Every row has to allow the removal, so the most restrictive one decides.
+    int t = times;
+    for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
+    {
+        auto knots = this->KnotsU;
+        auto points = this->ControlPoints.GetV(it_v);
+        t = KnotRemoval(knots, points, DegreeU, knot_remove, t, tolerance);
+        if (t == 0) return {*this, 0};
+    }
+
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
-    int t = 0;
+    points_ref = {points_ref.UCount - t, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
-        auto knots = result.KnotsU;
+        auto knots = this->KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
-        int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
-        if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        KnotRemoval(knots, points, DegreeU, knot_remove, t, tolerance);
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
-        t = t_tmp;
     }
     return {result, t};
 }
 
 std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Numeric tolerance) const
 {
+    // Every column has to allow the removal, so the most restrictive one decides.
+    int t = times;
+    for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
+    {
+        auto knots = this->KnotsV;
+        auto points = this->ControlPoints.GetU(it_u);
+        t = KnotRemoval(knots, points, DegreeV, knot_remove, t, tolerance);
+        if (t == 0) return {*this, 0};
+    }
+
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
-    int t = 0;
+    points_ref = {points_ref.UCount, points_ref.VCount - t};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
-        auto knots = result.KnotsV;
+        auto knots = this->KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
-        int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
-        if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        KnotRemoval(knots, points, DegreeV, knot_remove, t, tolerance);
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
-        t = t_tmp;
     }
     return {result, t};
 }
-- 
2.43.0


From 14937274aa2fddf193d5a1ac58677db1b61e7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 03/17] fix: degree elevation buffers hold the elevated curve

The buffers were sized without regard to the number of segments, so
raising the degree of a curve with many knot spans wrote past their end.
---
 src/Algorithm/DegreeAlgo.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..3a9283d 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,13 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        // every Bezier segment (at most n - degree + 1) adds `times` control points
+        const int max_points = n + 1 + times * (n - degree + 1);
+
+        std::vector<Vec4> Qw(max_points);
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh(max_points + ph + 1);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From dc2fd11ff423e90df592bee76c3b521bef2c5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 04/17] fix: surface degree elevation sizes the net by the
 elevated row

A row gains control points for every knot span, not only `times`.
---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 79cfef3..9c0ec76 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -817,13 +817,13 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
         auto knots = result.KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1)
         {
             result.KnotsU = knots;
@@ -838,13 +838,13 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
         auto knots = result.KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         if (it_u == ControlPoints.UCount - 1)
         {
             result.KnotsV = knots;
-- 
2.43.0


From cc13f03bc87dfeaa46a1d84cfa84014a39b89510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 05/17] fix: expanding a bounding box by a point keeps its
 maximum

---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From 3fc1536aad731d043c70557f6c15cbd3f9e37468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 06/17] fix: bounding boxes of rational curves

The subdivision averaged Cartesian control points and weights
separately, which gives points off the curve when the weights differ.
---
 src/Curve/Curve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..1554fbb 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -587,9 +587,10 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     auto segments = this->ExtractBezier();
     int p         = this->Degree;
 
+    // the subdivision below works on homogeneous control points
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return v.head<3>() / v.w();
     };
 
     // if p <= 5, use static buffer
@@ -601,6 +602,10 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     for (auto& seg : segments)
     {
         stack<vector<Vec4>> stack;
+        for (auto& point : seg.ControlPoints)
+        {
+            point = ToHomo(point);
+        }
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
         {
-- 
2.43.0


From 9240dd08767f600c362cb9eae3bbf3da1c90ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 07/17] fix: IsClamped compares the numbers of end knots

It compared the number of leading zeros with an index.
---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..11e6f69 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -106,7 +106,7 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count1] != 1.0) break;
     }
-    return count0 == count1;
+    return count0 > 0 && count0 == (int)m_Values.size() - 1 - count1;
 }
 
 bool KnotVector::IsUniform() const
-- 
2.43.0


From fe4f6b23d3c6b999411aa24c48d4e96f4b421503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 08/17] fix: knot pairs give the index of the first occurrence

All but the last pair had the index of the next value.
---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 11e6f69..3cb0bae 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From de3c760385408a82fca181b81cd90618ddb1ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 09/17] fix: knot vectors do not accept NaN

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 3cb0bae..692595e 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false;
         last_value = val;
     }
     if (last_value != 1.0) return false;
-- 
2.43.0


From 8f1753ee43c8fd0c1344d34c73e99fb19c02121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 10/17] fix: loading a text file replaces the object's contents

Knots and curve control points were appended to the existing ones.
---
 src/Curve/Curve.cpp     | 2 ++
 src/Surface/Surface.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 1554fbb..9def9ff 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,6 +88,8 @@ Curve& Curve::LoadFromFile(std::istream& is)
     }
 
     // TXT mode
+    Knots.Values().clear();
+    ControlPoints.clear();
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 9c0ec76..1dd2edc 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -93,6 +93,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
     else
     {
         // Text mode
+        KnotsU.Values().clear();
+        KnotsV.Values().clear();
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
-- 
2.43.0


From 053aae029cb5f8d3d690b67ba944c94eba127e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 11/17] fix: text files keep every digit of small numbers

Fixed notation with 17 decimals loses the digits of numbers below 1.
---
 src/Curve/Curve.cpp     | 2 +-
 src/Surface/Surface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 9def9ff..758ac39 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -255,7 +255,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         // Write textual data
         os << "*Degree: " << Degree << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         os << "*Knots:\n";
         for (size_t i = 0; i < Knots.Values().size(); ++i)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 1dd2edc..f91dd0a 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -324,7 +324,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         os << "*DegreeU: " << DegreeU << "\n";
         os << "*DegreeV: " << DegreeV << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         // Write knot vectors
         os << "*KnotsU:\n";
-- 
2.43.0


From a98523d0e20b6bcb1915b68b1cb641d4f158ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 12/17] fix: Grid::InsertU keeps cells and the given value
 intact

The first row was move-assigned onto itself, which empties strings, and
a value that is a cell of the grid dangled after the resize.
---
 include/libnurbs/Core/Grid.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..ab5830a 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -109,6 +109,7 @@ namespace libnurbs
         void InsertU(int u_index, const T& default_value = T())
         {
             assert(u_index >= 0 && u_index < UCount);
+            const T value = default_value; // may be a cell of this grid
             int float_idx = UCount * VCount - 1;
             UCount += 1;
             Values.resize(UCount * VCount);
@@ -123,11 +124,11 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                for (int i = insertion_idx - 1; i >= start_idx; --i)
+                for (int i = insertion_idx - 1; i >= start_idx; --i, --float_idx)
                 {
-                    Values[i] = std::move(Values[float_idx--]);
+                    if (i != float_idx) Values[i] = std::move(Values[float_idx]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = value;
             }
         }
     };
-- 
2.43.0


From 93d649c2cba6773d1bed4bec28768187854a655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:32 +0000
Subject: [PATCH 13/17] fix: keep Surface::SearchParameter's result a number
 when the search diverges

The estimate of the inverse Hessian could grow without bound on degenerate
updates until the next step was inf - inf: the result was NaN (or, with
assertions, the next evaluation aborted) instead of parameters in [0,1].
---
 src/Surface/Surface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index f91dd0a..bb85bec 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -529,6 +529,8 @@ auto Surface::SearchParameter(const Vec3& point, Numeric init_u, Numeric init_v,
         Numeric rho = 1.0 / yk_dot_sk;
         Mat2x2 I = Mat2x2::Identity();
         Hk = (I - rho * sk * yk.transpose()) * Hk * (I - rho * yk * sk.transpose()) + rho * sk * sk.transpose();
+        // A degenerate update must not grow the estimate until the next step is not a number.
+        if (!(Hk.norm() < 1e30)) Hk = I;
 
         u_last = uv_last.x();
         v_last = uv_last.y();
-- 
2.43.0


From eb16521e47001bf0009ca0084dd660c702eddbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:45 +0000
Subject: [PATCH 14/17] fix: Surface::EvaluateAll no longer overflows int in
 mixed derivatives of high order

---
 src/Surface/Surface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index bb85bec..a8a09e4 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -431,7 +431,7 @@ Grid<Vec3> Surface::EvaluateAll(Numeric u, Numeric v, int order_u, int order_v)
 
             for (int i = 1; i <= ou; ++i)
             {
-                const int bi = Binomial(ou, i);
+                const Numeric bi = Binomial(ou, i); // bi * Binomial(ov, j) may exceed int
                 for (int j = 1; j <= ov; ++j)
                 {
                     Numeric Wders = homo_ders.Get(i, j).w();
-- 
2.43.0


From 25dc107cc7015c19ff4b289f7749155faafeb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 15/17] fix: saving to a file reports data that did not reach
 the file

---
 src/Curve/Curve.cpp     | 7 +++++++
 src/Surface/Surface.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 758ac39..bf8f820 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -220,6 +220,13 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+
+    // What is still buffered may fail to reach the file
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index a8a09e4..aea1bf9 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -277,6 +277,13 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+
+    // What is still buffered may fail to reach the file
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 
-- 
2.43.0


From b3b5fb083000b9d6352cfd95b1b48526dd1ccb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:54 +0000
Subject: [PATCH 16/17] fix: refuse surface files whose net dimensions overflow
 int

---
 src/Surface/Surface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index aea1bf9..6230a02 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -77,7 +77,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
         // Read control point grid dimensions
         is.read(reinterpret_cast<char*>(&ControlPoints.UCount), sizeof(int));
         is.read(reinterpret_cast<char*>(&ControlPoints.VCount), sizeof(int));
-        if (is.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0)
+        if (is.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0 ||
+            ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
         {
             throw std::runtime_error("Failed to read control point grid dimensions.");
         }
@@ -182,7 +183,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
                 std::stringstream ss_dims(lines[0]);
                 ss_dims >> ControlPoints.UCount >> ControlPoints.VCount;
-                if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0)
+                if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0 ||
+                    ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
                 {
                     throw std::runtime_error("Invalid control point grid dimensions.");
                 }
-- 
2.43.0


From 7555199c0651e6abab35ef0dda8b0167ae4f7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:18 +0000
Subject: [PATCH 17/17] fix: knot removal tolerance from Euclidean, not
 weighted, coordinates

The tolerance in homogeneous space is eps * w_min / (1 + |P|_max) with |P|_max
over the points themselves.  With large weights redundant knots were kept.
---
 src/Algorithm/KnotRemoval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index fd416ea..6b587d9 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -40,7 +40,7 @@ namespace libnurbs
         auto& knots = knot_vector.Values();
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
-        double tol = CalcTOL(points, tolerance);
+        double tol = CalcTOL(original_points, tolerance);
 
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
-- 
2.43.0


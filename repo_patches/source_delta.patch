From 8d52bfffd943aa40c6fa2ded819459bf05137215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 01/37] fix: keep the dimension when a Serie is assigned,
 cloned or built by toSerie

---
 src/Serie.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..7cad1e2 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -59,11 +59,12 @@ void Serie::reCount(uint32_t c) {
 Serie &Serie::operator=(const Serie &s) {
     count_ = s.count_;
     itemSize_ = s.itemSize_;
+    dimension_ = s.dimension_;
     s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return Serie(itemSize_, s_, dimension_); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
@@ -142,7 +143,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From f74c634908cfa8cab0ef23a0692082951f028cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 02/37] fix: report out-of-range reads of a Serie instead of
 reading past its storage

---
 include/dataframe/inline/Serie.hxx | 5 +++++
 src/Serie.cxx                      | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..b3efa07 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -115,6 +115,11 @@ template <typename T>
 inline auto Serie::get(uint32_t i) const
     -> std::conditional_t<details::is_array_v<T>, Array, double> {
     if constexpr (details::is_array_v<T>) {
+        if (i >= count_) {
+            throw std::invalid_argument("index out of range (" +
+                                        std::to_string(i) +
+                                        ">=" + std::to_string(count_) + ")");
+        }
         if (itemSize_ == 1) {
             return Array{s_[i]};
         }
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7cad1e2..f2604d2 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,6 +87,10 @@ void Serie::dump() const {
 }
 
 Array Serie::value(uint32_t i) const {
+    if (i >= count_) {
+        throw std::invalid_argument("index out of range (" + std::to_string(i) +
+                                    ">=" + std::to_string(count_) + ")");
+    }
     auto start = i * itemSize_;
     Array r(itemSize_);
     for (uint32_t j = 0; j < itemSize_; ++j) {
@@ -96,10 +100,10 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= s_.size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
-                                    ">=" + std::to_string(size()));
+                                    ">=" + std::to_string(s_.size()) + ")");
     }
     return s_[i];
 }
-- 
2.43.0


From 379aa82df05488ce26a0bbf110fc64f094a8453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 03/37] fix: do not divide by zero when a Serie is built from
 values with itemSize 0

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index f2604d2..136fbf9 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -38,14 +38,14 @@ Serie::Serie(const Serie &s)
 
 Serie::Serie(int itemSize, const Array &values, uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = values;
 }
 
 Serie::Serie(int itemSize, const std::initializer_list<double> &values,
              uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = Array(values);
 }
 
-- 
2.43.0


From a332ce8643a21351087aee82ac48a31391694233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 04/37] fix: map over several empty Series returns an empty
 Serie

---
 include/dataframe/functional/map.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..72f92bc 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -120,6 +120,14 @@ auto map(F &&callback, const Args &...args) {
 
         auto counts = utils::countAndCheck(args...);
 
+        if (counts[0] == 0) {
+            return Serie(std::is_arithmetic_v<std::decay_t<decltype(callback(
+                                 args.template get<Array>(0)..., 0))>>
+                             ? 1
+                             : 0,
+                         0);
+        }
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
-- 
2.43.0


From 7b7bd966a73067d1dcaedaf61522d4943771e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 05/37] fix: norm2 allocates one value per item and squares
 scalar items

---
 src/functional/algebra/norm.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..ea85f4f 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -39,10 +39,10 @@ Serie norm2(const Serie &s) {
     }
 
     if (s.itemSize() == 1) {
-        return s.clone();
+        return s.map([](double v, uint32_t) { return v * v; });
     }
 
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
-- 
2.43.0


From db473b9b50eb1cea1f7efefff774f1a72a4fa1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 06/37] fix: geo::areas halves the norm of the normals
 (arguments of div were swapped)

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 3d95fc4df40c5bee710e0f60ab6452f19683e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 07/37] fix: yz entry of the inverse of a full 3x3 matrix

---
 src/functional/algebra/inv.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/inv.cxx b/src/functional/algebra/inv.cxx
index 23ef040..d7da24f 100644
--- a/src/functional/algebra/inv.cxx
+++ b/src/functional/algebra/inv.cxx
@@ -87,7 +87,7 @@ Serie inv(const Serie &serie) {
         inv[2] = (xy * yz - xz * yy) * invDet; // xz
         inv[3] = (yz * zx - yx * zz) * invDet; // yx
         inv[4] = (xx * zz - xz * zx) * invDet; // yy
-        inv[5] = (zx * xy - xx * zy) * invDet; // yz
+        inv[5] = (yx * xz - xx * yz) * invDet; // yz
         inv[6] = (yx * zy - yy * zx) * invDet; // zx
         inv[7] = (xy * zx - xx * zy) * invDet; // zy
         inv[8] = (xx * yy - xy * yx) * invDet; // zz
-- 
2.43.0


From af1c84cd01b54abe36b7013f265baf824fda59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 08/37] fix: Matrix owns its values (it kept a reference to
 temporaries)

---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From 84b8d048639373751dafa928b8cabefeede5a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 09/37] fix: Vector::norm accumulates in double

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From e70b08aa252b5175381e7281e612a33ba8398493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 10/37] fix: sort uses the given comparator for scalar Series
 too

---
 include/dataframe/functional/utils/sort.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 2fb2d1d..e49d875 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -40,7 +40,12 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        std::sort(values.begin(), values.end());
+        if constexpr (std::is_invocable_v<Comparator, double, double>) {
+            std::sort(values.begin(), values.end(), comp);
+        } else {
+            throw std::invalid_argument(
+                "Cannot use an array comparator for Serie with itemSize == 1");
+        }
         return Serie(1, values);
     } else {
         std::vector<Array> values;
@@ -49,7 +54,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<Array>(i));
         }
 
-        std::sort(values.begin(), values.end(), comp);
+        if constexpr (std::is_invocable_v<Comparator, const Array &,
+                                          const Array &>) {
+            std::sort(values.begin(), values.end(), comp);
+        } else {
+            throw std::invalid_argument(
+                "Cannot use a scalar comparator for Serie with itemSize > 1");
+        }
 
         Array flattened;
         flattened.reserve(serie.itemSize() * values.size());
-- 
2.43.0


From 0791b61f04317cc9e74a6533a7878503115c7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 11/37] fix: partition_n of one Serie rejects n = 0 like the
 variadic overload

---
 include/dataframe/functional/utils/partition_n.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..be50e82 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -42,6 +42,10 @@ namespace utils {
  * ```
  */
 Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
+
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From 3cccd5256c16c8d25c4bacea69a4743a48afe5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 12/37] fix: parallel_execute on an empty Serie returns what
 the functor returns

---
 include/dataframe/functional/utils/parallel_execute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..1bddc96 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -69,7 +69,7 @@ Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
         throw std::invalid_argument("NnCores must be >= 1");
     }
 
-    if (nbCores == 1) {
+    if (nbCores == 1 || serie.count() == 0) {
         return fct(serie);
     }
 
-- 
2.43.0


From d8f8aa13b96b1507e3df7792fcde157f1dd15959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 13/37] fix: partition_n and concat keep the dimension
 (parallel_execute lost it)

---
 include/dataframe/functional/utils/concat.h      | 2 +-
 include/dataframe/functional/utils/partition_n.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..ffc215e 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -50,7 +50,7 @@ Serie concat(const std::vector<Serie> &series) {
         totalCount += s.count();
     }
 
-    Serie result(itemSize, totalCount);
+    Serie result(itemSize, totalCount, series[0].dimension());
     uint32_t currentIndex = 0;
 
     for (const auto &s : series) {
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index be50e82..9ec7008 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -56,7 +56,7 @@ Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
         uint32_t size = base_size + (i < remainder ? 1 : 0);
-        Serie part(serie.itemSize(), size);
+        Serie part(serie.itemSize(), size, serie.dimension());
         for (uint32_t j = 0; j < size; ++j) {
             part.set(j, serie.get<Array>(start + j));
         }
@@ -103,7 +103,7 @@ auto partition_n(uint32_t n, const Series &...series) {
         uint32_t start = 0;
         for (uint32_t i = 0; i < n; ++i) {
             uint32_t size = base_size + (i < remainder ? 1 : 0);
-            Serie part(s.itemSize(), size);
+            Serie part(s.itemSize(), size, s.dimension());
             for (uint32_t j = 0; j < size; ++j) {
                 part.set(j, s.get<Array>(start + j));
             }
-- 
2.43.0


From 3974b19328f6b8601cf31e6c38dd3c40fb393c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 14/37] fix: selecting or sorting items keeps the dimension of
 the Serie

---
 include/dataframe/functional/filter.h          |  8 ++++----
 include/dataframe/functional/find.h            |  2 +-
 include/dataframe/functional/utils/partition.h | 10 ++++++----
 include/dataframe/functional/utils/reject.h    |  8 ++++----
 include/dataframe/functional/utils/sort.h      |  4 ++--
 5 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index acac4df..e579b83 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -97,7 +97,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -117,7 +117,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -179,7 +179,7 @@ auto filter(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -253,7 +253,7 @@ Series filterAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto filter_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/find.h b/include/dataframe/functional/find.h
index 0076211..c4fa624 100644
--- a/include/dataframe/functional/find.h
+++ b/include/dataframe/functional/find.h
@@ -106,7 +106,7 @@ template <typename F> Serie findAll(F &&predicate, const Serie &serie) {
     }
 
     // Create result Serie
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         if (serie.itemSize() == 1) {
             result.template set(i, serie.template get<double>(indices[i]));
diff --git a/include/dataframe/functional/utils/partition.h b/include/dataframe/functional/utils/partition.h
index 45bc1f4..387ca17 100644
--- a/include/dataframe/functional/utils/partition.h
+++ b/include/dataframe/functional/utils/partition.h
@@ -56,8 +56,8 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(1, matched_indices.size());
-        Serie unmatched(1, unmatched_indices.size());
+        Serie matched(1, matched_indices.size(), serie.dimension());
+        Serie unmatched(1, unmatched_indices.size(), serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<double>(matched_indices[i]));
@@ -78,8 +78,10 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(serie.itemSize(), matched_indices.size());
-        Serie unmatched(serie.itemSize(), unmatched_indices.size());
+        Serie matched(serie.itemSize(), matched_indices.size(),
+                        serie.dimension());
+        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
+                        serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<Array>(matched_indices[i]));
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index 3171e17..a6bb057 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -46,7 +46,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -66,7 +66,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -95,7 +95,7 @@ auto reject(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -140,7 +140,7 @@ Series rejectAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto reject_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index e49d875..fed95bf 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -46,7 +46,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             throw std::invalid_argument(
                 "Cannot use an array comparator for Serie with itemSize == 1");
         }
-        return Serie(1, values);
+        return Serie(1, values, serie.dimension());
     } else {
         std::vector<Array> values;
         values.reserve(serie.count());
@@ -67,7 +67,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
         for (const auto &v : values) {
             flattened.insert(flattened.end(), v.begin(), v.end());
         }
-        return Serie(serie.itemSize(), flattened);
+        return Serie(serie.itemSize(), flattened, serie.dimension());
     }
 }
 
-- 
2.43.0


From 362b4f4e32aa1a6c16ce89e4530edb44fed6e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 15/37] fix: memoize distinguishes Series by shape and by exact
 values

---
 include/dataframe/functional/utils/memoize.h | 22 +++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..eef1f62 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -21,6 +21,7 @@
  *
  */
 #pragma once
+#include <cstring>
 #include <dataframe/Serie.h>
 #include <map>
 #include <utility>
@@ -48,17 +49,24 @@ template <typename F> class Memoized {
 
   private:
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable std::map<std::vector<uint64_t>, Serie> cache;
 
-    // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
+    // Helper to create cache key from Series: its shape, then the bits of its
+    // values (NaN cannot be ordered, and 0.0 == -0.0)
+    std::vector<uint64_t> make_key(const Serie &s) const {
+        std::vector<uint64_t> key{s.itemSize(), s.count(), s.dimension()};
+        auto push = [&key](double v) {
+            uint64_t bits;
+            std::memcpy(&bits, &v, sizeof(bits));
+            key.push_back(bits);
+        };
         for (uint32_t i = 0; i < s.count(); ++i) {
             if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
+                push(s.template get<double>(i));
             } else {
-                const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
+                for (double v : s.template get<Array>(i)) {
+                    push(v);
+                }
             }
         }
         return key;
-- 
2.43.0


From 42242292e123a4b88668b2cde31b298817212343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 16/37] fix: bins rejects values below start and accepts
 constant Series

---
 src/functional/stats/bins.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..4f8047e 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -48,16 +48,16 @@ Serie bins(const Serie &serie, uint nb, double start, double stop) {
     // binning
     Array b = createArray(nb, 0);
     serie.forEach([&](double v, uint32_t) {
-        uint32_t i = std::trunc((v - start) / size);
+        double i = v == start ? 0 : std::trunc((v - start) / size);
         if (i >= nb) {
             i = nb - 1;
         }
-        if (i < 0 || i >= nb) {
+        if (!(i >= 0 && v >= start)) {
             throw std::invalid_argument(
                 "bins: index for bin (" + std::to_string(i) +
                 ") out of bounds (0, " + std::to_string(nb) + ")");
         }
-        b[i]++;
+        b[uint32_t(i)]++;
     });
 
     return Serie(1, b);
-- 
2.43.0


From 7f77bb45d4888a80f03c98682dbe865e5a776687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 17/37] fix: bins, quantile, normalize and sums of Series no
 longer read out of bounds on empty input

---
 src/functional/math/add.cxx         | 3 +++
 src/functional/math/normalize.cxx   | 3 +++
 src/functional/math/sub.cxx         | 3 +++
 src/functional/math/weightedSum.cxx | 3 +++
 src/functional/stats/bins.cxx       | 3 +++
 src/functional/stats/quantile.cxx   | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/src/functional/math/add.cxx b/src/functional/math/add.cxx
index 01b8b53..36e535e 100644
--- a/src/functional/math/add.cxx
+++ b/src/functional/math/add.cxx
@@ -28,6 +28,9 @@ namespace math {
 
 Serie add(const std::initializer_list<Serie> &list) {
     Series series(list);
+    if (series.empty()) {
+        throw std::invalid_argument("(add) No Serie provided");
+    }
 
     const Serie &firstSerie = series[0];
     uint32_t itemSize = firstSerie.itemSize();
diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..f25c999 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -38,6 +38,9 @@ Serie normalize(const Serie &serie) {
     }
 
     if (serie.itemSize() == 1) {
+        if (serie.count() == 0) {
+            return Serie(1, 0);
+        }
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
 
diff --git a/src/functional/math/sub.cxx b/src/functional/math/sub.cxx
index cbdf0ab..5b4e6d5 100644
--- a/src/functional/math/sub.cxx
+++ b/src/functional/math/sub.cxx
@@ -28,6 +28,9 @@ namespace math {
 
 Serie sub(const std::initializer_list<Serie> &list) {
     Series series(list);
+    if (series.empty()) {
+        throw std::invalid_argument("(sub) No Serie provided");
+    }
 
     const Serie &firstSerie = series[0];
     uint32_t itemSize = firstSerie.itemSize();
diff --git a/src/functional/math/weightedSum.cxx b/src/functional/math/weightedSum.cxx
index 80ad145..1f9626b 100644
--- a/src/functional/math/weightedSum.cxx
+++ b/src/functional/math/weightedSum.cxx
@@ -29,6 +29,9 @@ namespace math {
 Serie weigthedSum(const std::initializer_list<Serie> &list,
                   const Array &weights) {
     Series series(list);
+    if (series.empty()) {
+        throw std::invalid_argument("(weightedSum) No Serie provided");
+    }
 
     if (series.size() != weights.size()) {
         throw std::invalid_argument("(weightedSum) Number of series (" +
diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 4f8047e..4d2ce58 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -30,6 +30,9 @@ namespace df {
 namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
+    if (serie.count() == 0) {
+        return bins(serie, nb, 0, 0);
+    }
     auto [min, max] = math::minMax(serie);
     return bins(serie, nb, min[0], max[0]);
 }
diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..9d99394 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -39,6 +39,9 @@ double quantile(const Serie &s, double q) {
     if (s.itemSize() != 1) {
         throw std::invalid_argument("quantile algorithm: itemSize must be 1");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile of an empty serie");
+    }
     if (q < 0 || q > 1) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
-- 
2.43.0


From 3b5af3c0ab312b8bb80a6d3754779cd4bc341d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 18/37] fix: variadic sub was named add and subtracted its
 first argument

---
 include/dataframe/functional/math/sub.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 2b97bd7..49f87c5 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -54,18 +54,10 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
-
-    Serie result = Serie(first.itemSize(), first.count());
+template <typename... Series>
+Serie sub(const Serie &first, const Serie &second, const Serie &third,
+          const Series &...series) {
+    Serie result = sub(sub(first, second), third);
     ((result = sub(result, series)), ...);
     return result;
 }
-- 
2.43.0


From 3df7c787efd032fa2997957b3515c16d2ab05bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 19/37] fix: dot and cross reject Series of different shapes
 instead of reading past the end

---
 src/functional/algebra/cross.cxx | 4 ++++
 src/functional/algebra/dot.cxx   | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/functional/algebra/cross.cxx b/src/functional/algebra/cross.cxx
index 366245c..3621088 100644
--- a/src/functional/algebra/cross.cxx
+++ b/src/functional/algebra/cross.cxx
@@ -40,6 +40,10 @@ Serie cross(const Serie &a, const Serie &b) {
         throw std::invalid_argument("cross: serie b must have itemSize=3");
     }
 
+    if (a.count() != b.count()) {
+        throw std::invalid_argument("cross: series must have same count");
+    }
+
     return a.map([&](const Array &A, uint32_t i) {
         auto B = b.value(i);
         return Array{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2],
diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..0b70a5b 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -27,6 +27,11 @@ namespace df {
 namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
+    if (a.itemSize() != b.itemSize() || a.count() != b.count()) {
+        throw std::invalid_argument(
+            "dot: series must have same itemSize and count");
+    }
+
     uint32_t itemSize = a.itemSize();
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
@@ -39,7 +44,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From 6e7b1cde0f9b8b634c30692130e9d4056349a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 20/37] fix: Components picks the entry of a matrix from its
 own layout

---
 src/attributes/Components.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..236a703 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -114,7 +114,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
             for (uint32_t i = 0; i < vector2Names.size(); ++i) {
-                if (name == newName + vector2Names[i]) {
+                if (serie.itemSize() == 2 && name == newName + vector2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -122,7 +122,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
             }
         } else {
             for (uint32_t i = 0; i < vector3Names.size(); ++i) {
-                if (name == newName + vector3Names[i]) {
+                if (serie.itemSize() == 3 && name == newName + vector3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -137,14 +137,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
             for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
-                if (name == newName + smatrix2Names[i]) {
+                if (serie.itemSize() == 3 && name == newName + smatrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
             for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
-                if (name == newName + matrix2Names[i]) {
+                if (serie.itemSize() == 4 && name == newName + matrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -152,14 +152,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
             }
         } else {
             for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
-                if (name == newName + smatrix3Names[i]) {
+                if (serie.itemSize() == 6 && name == newName + smatrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
             for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
-                if (name == newName + matrix3Names[i]) {
+                if (serie.itemSize() == 9 && name == newName + matrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
-- 
2.43.0


From ac54e9bf738b4c60a8e9e9a74ca505546276dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 21/37] fix: Components numbers every component of items
 without a named layout

---
 src/attributes/Components.cxx | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 236a703..b9ee807 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -94,7 +94,7 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
         names.push_back(name + std::to_string(i));
     }
 
@@ -169,12 +169,11 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
-            if (name == newName + std::to_string(i)) {
-                return serie.map([i](const Array &item, uint32_t index) {
+    for (auto const &x : dataframe.series()) {
+        const Strings all = names(dataframe, 1, x.second, x.first);
+        for (uint32_t i = 0; i < all.size(); ++i) {
+            if (name == all[i]) {
+                return x.second.map([i](const Array &item, uint32_t index) {
                     return Array{item[i]};
                 });
             }
-- 
2.43.0


From ef548fb6c26b0371f78b914c776f8b1c93f15279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 22/37] fix: EigenValues and EigenVectors decomposers resolve
 the names they list

---
 src/attributes/Coordinates.cxx  |  2 +-
 src/attributes/EigenValues.cxx  |  2 +-
 src/attributes/EigenVectors.cxx | 13 +++++++------
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..d1fe050 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -46,7 +46,7 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
                         return Array{item[i]};
diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..5ee7c2d 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -55,7 +55,7 @@ namespace df
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name.empty() ? 0 : name.back() - '0';
 
         if (serie.isValid() == false) {
             return Serie();
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..28faa97 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -50,26 +50,26 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
+        if (itemSize != 2 && itemSize != 3) {
             return Serie();
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name.empty() ? 0 : name.back() - '0';
 
         if (serie.isValid() == false) {
             return Serie();
         }
 
         if (serie.dimension() == 2) {
-            if (serie.itemSize() != 3) {
+            if (serie.itemSize() != 3 || itemSize != 2) {
                 return Serie();
             }
             if (id < 1 || id > 2) {
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.itemSize() != 6 || itemSize != 3) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
@@ -77,8 +77,9 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, itemSize](const Array& item, uint32_t) {
+            auto first = item.begin() + (id - 1) * itemSize;
+            return Array(first, first + itemSize);
         });
     }
 
-- 
2.43.0


From 52edf534fdab182b7651d3699843b61d13fa4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 23/37] fix: mesh decomposers need both positions and indices
 to list their name

---
 src/attributes/Areas.cxx   | 2 +-
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..50010e0 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..2e9ad69 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..2334007 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
-- 
2.43.0


From 50d3ac43a9e11b45eee85e9fee5e324041552e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 24/37] fix: decomposers: virtual destructor, owned callback,
 no write outside of the valence array

---
 include/dataframe/attributes/Decomposer.h           |  1 +
 .../dataframe/attributes/UserDefinedDecomposer.h    |  2 +-
 src/attributes/Valence.cxx                          | 13 ++++++++++---
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..5ac707b 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,7 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..52b3cbb 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,7 +41,7 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        F cb_;
     };
 
     // ------------------------------------------------------------
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index 2334007..0b045c4 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -58,12 +58,19 @@ namespace df
             return Serie();
         }
 
+        if (indices.itemSize() != 3) {
+            return Serie();
+        }
+
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
-            ids[t[0]]++;
-            ids[t[1]]++;
-            ids[t[2]]++;
+            for (double id : t) {
+                if (!(id >= 0 && id < ids.size())) {
+                    throw std::invalid_argument("valence: index out of bounds");
+                }
+                ids[id]++;
+            }
         });
 
         return Serie(1, ids);
-- 
2.43.0


From c38a7dc1ee9f7c6798862e0fb59d926685cc90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 25/37] fix: if_then_else compiles and passes its arguments to
 map in the right order

---
 include/dataframe/functional/conditional/if.h | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c69728d..7edbf67 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,7 +22,7 @@
  */
 
 #pragma once
-#include "../Serie.h"
+#include "../../Serie.h"
 
 namespace df {
 namespace cond {
@@ -55,13 +55,21 @@ namespace cond {
 template <typename Check, typename True, typename False>
 Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
                    False &&false_fn) {
-    return map(serie, [check_fn = std::forward<Check>(check_fn),
-                       true_fn = std::forward<True>(true_fn),
-                       false_fn = std::forward<False>(false_fn),
-                       &serie](const auto &value, uint32_t i) {
-        return check_fn(value) ? true_fn(value, i, serie)
-                               : false_fn(value, i, serie);
-    });
+    if constexpr (std::is_invocable_v<Check, const Array &>) {
+        return map(
+            [&](const Array &value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    } else {
+        return map(
+            [&](double value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    }
 }
 
 MAKE_OP(if_then_else);
-- 
2.43.0


From 17388e182a5749a09a73b6ca424950f7e67ecc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 26/37] fix: dot.h defines make_dot, so that it can be included
 together with det.h

---
 include/dataframe/functional/algebra/dot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..767d888 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP(dot);
 
 } // namespace algebra
 } // namespace df
-- 
2.43.0


From c331025bdc379a3b137a8219da9ff893ed77d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 27/37] fix: Vector operations reject a vector of another size
 instead of reading past its end

---
 src/view/Vector.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index dbdeb05..b806b5b 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -23,6 +23,7 @@
 #include <dataframe/view/Vector.h>
 #include <cmath>
 #include <numeric>
+#include <stdexcept>
 
 namespace df
 {
@@ -81,6 +82,10 @@ namespace df
 
     Vector &Vector::mult(const Vector &s)
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for product of vectors");
+        }
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x * s[id++]; };
@@ -90,6 +95,10 @@ namespace df
 
     Vector &Vector::add(const Vector &s)
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for sum of vectors");
+        }
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x + s[id++]; };
@@ -99,6 +108,10 @@ namespace df
 
     Vector &Vector::sub(const Vector &s)
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for difference of vectors");
+        }
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x - s[id++]; };
@@ -108,6 +121,10 @@ namespace df
 
     double Vector::dot(const Vector &s) const
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for dot product of vectors");
+        }
         double d = 0;
         for (uint32_t i = 0; i < v_.size(); ++i)
         {
-- 
2.43.0


From 142103933ca4f691121f7ab6ccd9a1ea4ba59fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 28/37] fix: eigenValues and eigenVectors reject dimensions
 other than 2 and 3 instead of reading past the item

---
 src/functional/algebra/eigen.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..f429eb9 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -29,7 +29,8 @@ namespace algebra {
 void symmetricEigen(const double *, int, double *, double *);
 
 Serie eigenValues(const Serie &serie) {
-    if (serie.dimension() == 2 && serie.itemSize() != 3) {
+    if ((serie.dimension() != 2 && serie.dimension() != 3) ||
+        (serie.dimension() == 2 && serie.itemSize() != 3)) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
@@ -68,7 +69,8 @@ Serie eigenValues(const Serie &serie) {
 }
 
 Serie eigenVectors(const Serie &serie) {
-    if (serie.dimension() == 2 && serie.itemSize() != 3) {
+    if ((serie.dimension() != 2 && serie.dimension() != 3) ||
+        (serie.dimension() == 2 && serie.itemSize() != 3)) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-- 
2.43.0


From 5e27e0673531abc1d81e90099308a437f08a8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 29/37] fix: quantile rejects NaN instead of indexing with it

---
 src/functional/stats/quantile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index 9d99394..c9097c9 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -42,7 +42,7 @@ double quantile(const Serie &s, double q) {
     if (s.count() == 0) {
         throw std::invalid_argument("quantile of an empty serie");
     }
-    if (q < 0 || q > 1) {
+    if (!(q >= 0 && q <= 1)) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
 
-- 
2.43.0


From 8728ee57c32f0b5b93216f7bd340ff90975442d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 30/37] fix: decomposers list only names that they resolve

---
 src/attributes/Areas.cxx        | 3 +++
 src/attributes/Coordinates.cxx  | 3 ++-
 src/attributes/EigenValues.cxx  | 5 ++++-
 src/attributes/EigenVectors.cxx | 5 ++++-
 src/attributes/Normals.cxx      | 3 +++
 src/attributes/Valence.cxx      | 3 +++
 6 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 50010e0..bb8036a 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -44,6 +44,9 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index d1fe050..9fdfac3 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -38,7 +38,8 @@ namespace df
         if (itemSize != 1 || name != "positions") {
             return Strings();
         }
-        return names_;
+        // only the coordinates that positions do have
+        return Strings(names_.begin(), names_.begin() + std::min<size_t>(names_.size(), serie.itemSize()));
     }
 
     Serie Coordinates::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 5ee7c2d..3e69145 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -35,6 +35,9 @@ namespace df
         if (name == "positions" || name == "indices") {
             return Strings();
         }
+        if (serie.dimension() != 2 && serie.dimension() != 3) {
+            return Strings();
+        }
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 1)) {
             return Strings();
         }
@@ -69,7 +72,7 @@ namespace df
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.dimension() != 3 || serie.itemSize() != 6) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 28faa97..36eaaf9 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -35,6 +35,9 @@ namespace df
         if (name == "positions" || name == "indices") {
             return Strings();
         }
+        if (serie.dimension() != 2 && serie.dimension() != 3) {
+            return Strings();
+        }
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 2)) {
             return Strings();
         }
@@ -69,7 +72,7 @@ namespace df
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6 || itemSize != 3) {
+            if (serie.dimension() != 3 || serie.itemSize() != 6 || itemSize != 3) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index 2e9ad69..93a0f48 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -42,6 +42,9 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index 0b045c4..9c7706b 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -41,6 +41,9 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        if (dataframe["indices"].itemSize() != 3) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
-- 
2.43.0


From 64b396b7684b79a73cd41210a10706566b5e6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 31/37] fix: parallel_execute.h could not be included together
 with reject.h and partition.h, nor without concat.h

---
 include/dataframe/functional/utils/parallel_execute.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 1bddc96..c662730 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/utils/concat.h>
 #include <dataframe/functional/utils/partition_n.h>
 #include <dataframe/utils.h>
 #include <future>
@@ -32,7 +33,7 @@
 namespace df {
 namespace utils {
 
-namespace details {
+namespace parallel_details {
 
 // Helper to detect return type of functor when called with a Serie
 template <typename F> struct returns_serie {
@@ -51,7 +52,7 @@ template <typename F> struct returns_serie {
 template <typename F>
 inline constexpr bool returns_serie_v = returns_serie<F>::value;
 
-} // namespace details
+} // namespace parallel_details
 
 // -----------------------------------------------------------
 
@@ -62,7 +63,7 @@ inline constexpr bool returns_serie_v = returns_serie<F>::value;
  */
 template <typename Functor>
 Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
-    static_assert(details::returns_serie_v<Functor>,
+    static_assert(parallel_details::returns_serie_v<Functor>,
                   "Functor must return a Serie");
 
     if (nbCores < 1) {
-- 
2.43.0


From 4c3feda99aed5a7dbb42b63885a763fd0065e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 32/37] fix: unzip rejects itemSizes whose sum wraps around

---
 include/dataframe/functional/utils/unzip.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b00e8fe..e06d22f 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -40,8 +40,9 @@ Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
         throw std::invalid_argument("itemSizes cannot be empty");
     }
 
-    uint32_t totalItemSize =
-        std::accumulate(itemSizes.begin(), itemSizes.end(), 0u);
+    // 64 bits, so that the sum of large itemSizes does not wrap around
+    uint64_t totalItemSize =
+        std::accumulate(itemSizes.begin(), itemSizes.end(), uint64_t{0});
     if (totalItemSize != zipped.itemSize()) {
         throw std::invalid_argument("Total itemSize mismatch");
     }
-- 
2.43.0


From 0977ea6af2264c2c21a62ea48d31baad8b329fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 33/37] fix: memoize tells Series with an incomplete last item
 apart

---
 include/dataframe/functional/utils/memoize.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index eef1f62..2554cd3 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -60,14 +60,8 @@ template <typename F> class Memoized {
             std::memcpy(&bits, &v, sizeof(bits));
             key.push_back(bits);
         };
-        for (uint32_t i = 0; i < s.count(); ++i) {
-            if (s.itemSize() == 1) {
-                push(s.template get<double>(i));
-            } else {
-                for (double v : s.template get<Array>(i)) {
-                    push(v);
-                }
-            }
+        for (double v : s.asArray()) {
+            push(v);
         }
         return key;
     }
-- 
2.43.0


From fd1dcaf8c7934c576fee95a3cf85931b731eac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 34/37] fix: a Serie of more values than 32 bits can count is
 reported instead of being built too small

---
 src/Serie.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 136fbf9..86d1b88 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -23,11 +23,22 @@
 
 #include <dataframe/Serie.h>
 #include <iostream>
+#include <limits>
 
 namespace df {
 
+// The values of a Serie are counted with 32 bits
+static void checkSize(uint32_t itemSize, uint32_t count) {
+    if (uint64_t(count) * itemSize > std::numeric_limits<uint32_t>::max()) {
+        throw std::invalid_argument("too many values for a Serie (" +
+                                    std::to_string(count) + " items of size " +
+                                    std::to_string(itemSize) + ")");
+    }
+}
+
 Serie::Serie(int itemSize, uint32_t count, uint dimension)
     : itemSize_(itemSize), count_(count), dimension_(dimension) {
+    checkSize(itemSize_, count_);
     s_ = Array(count * itemSize);
 }
 
@@ -52,6 +63,7 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
+    checkSize(itemSize_, c);
     count_ = c;
     s_ = Array(c * itemSize_);
 }
-- 
2.43.0


From c2e6baded971f468855a7a86377c83d15dba1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:36 +0000
Subject: [PATCH 35/37] fix: dump of a scalar Serie threw instead of printing
 it

---
 src/Serie.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86d1b88..983b970 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,13 +87,13 @@ uint32_t Serie::itemSize() const { return itemSize_; }
 uint Serie::dimension() const { return dimension_; }
 
 void Serie::dump() const {
-    forEach([](const Array &t, uint32_t i) {
+    for (uint32_t i = 0; i < count_; ++i) {
         std::cerr << i << ": ";
-        for (auto tt : t) {
+        for (auto tt : value(i)) {
             std::cerr << tt << " ";
         }
         std::cerr << std::endl;
-    });
+    }
 
     std::cerr << std::endl;
 }
-- 
2.43.0


From a8df705fa5a3e8cac00ccde1a5b33fe5064a5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 36/37] fix: operator<< writes to the stream it is given

---
 include/dataframe/inline/Serie.hxx | 18 +++++++++---------
 include/dataframe/types.h          | 12 ++++++------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index b3efa07..0d8a04b 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -67,19 +67,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
-    if (s.count() > 0) {
-        std::cerr << "  values   : [";
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
+    if (s.size() > 0) {
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..7fba2ad 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -51,15 +51,15 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
     if (a.size() > 0) {
+        o << "[";
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
+        o << a.back() << "]";
     }
     else {
-        std::cout << "[]";
+        o << "[]";
     }
 
     return o;
@@ -67,8 +67,8 @@ inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From d1cf66e3042f508d75b3e827b76cdd10e81a01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:53 +0000
Subject: [PATCH 37/37] fix: print of a Serie of items without components no
 longer reads past them

---
 include/dataframe/functional/utils/print.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/print.h b/include/dataframe/functional/utils/print.h
index 7779312..7df9a0f 100644
--- a/include/dataframe/functional/utils/print.h
+++ b/include/dataframe/functional/utils/print.h
@@ -35,7 +35,7 @@ inline void print(const Serie &serie) {
               << "  dimension: " << serie.dimension() << std::endl
               << "  values   : [";
 
-    if (serie.count() > 0) {
+    if (serie.size() > 0) {
         for (uint32_t i = 0; i < serie.count() - 1; ++i) {
             if (serie.itemSize() == 1) {
                 std::cout << serie.get<double>(i) << ", ";
-- 
2.43.0


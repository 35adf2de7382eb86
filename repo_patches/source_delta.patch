From e741c5abdfd2051c1d314c0d89ba9d9d4f7a9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 001/123] fix: moving from a vector left its old dimensions on
 an empty storage (move assignment, flatten and reform of a temporary)

---
 include/vif/core/vec.hpp                  | 8 ++++++--
 include/vif/utility/bits/generic-dims.hpp | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..4584e94 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -145,8 +145,12 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
-            data = std::move(v.data);
-            dims = std::move(v.dims);
+            if (this != &v) {
+                data = std::move(v.data);
+                dims = v.dims;
+                v.clear();
+            }
+
             return *this;
         }
 
diff --git a/include/vif/utility/bits/generic-dims.hpp b/include/vif/utility/bits/generic-dims.hpp
index fb21603..4917dae 100644
--- a/include/vif/utility/bits/generic-dims.hpp
+++ b/include/vif/utility/bits/generic-dims.hpp
@@ -21,6 +21,7 @@ namespace vif {
         vec<1,Type> r;
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.clear();
         return r;
     }
 
@@ -70,6 +71,7 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.clear();
 
         return r;
     }
-- 
2.43.0


From 25c1b4981c52c114024729751509180b40997f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:43 +0000
Subject: [PATCH 002/123] fix: an out-of-range unsigned index made the error
 message read past the dimension array

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..f0b2ffb 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -298,7 +298,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From 86352e53423314513a5158c7af236338a341c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:09 +0000
Subject: [PATCH 003/123] fix: negative indices inside an index vector were
 rejected by operator()

---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f0b2ffb..43416b6 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -422,7 +422,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -457,7 +457,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -542,7 +542,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From 8922f22867beec85c34e4f7ac718877d3090b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:26 +0000
Subject: [PATCH 004/123] fix: negative indices of narrow signed types selected
 the wrong element on vectors longer than the type's range

---
 include/vif/core/bits/access.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 43416b6..f81a9c2 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -290,8 +290,9 @@ namespace vec_access {
     template<typename T>
     uint_t to_idx_(uint_t size, T i, meta::cte_t<true>) {
         vif_check(size > 0, "operator[]: index out of bounds (", i, " vs. ", size, ")");
-        while (i < 0) i += size;
-        uint_t ui(i);
+        int_t si = i;
+        while (si < 0) si += size;
+        uint_t ui(si);
         vif_check(ui < size, "operator[]: index out of bounds (", ui, " vs. ", size, ")");
         return ui;
     }
@@ -305,8 +306,9 @@ namespace vec_access {
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T i, meta::cte_t<true>) {
         vif_check(dims[I] > 0, "operator[]: index out of bounds (", i, " vs. ", dims[I], ")");
-        while (i < 0) i += dims[I];
-        uint_t ui(i);
+        int_t si = i;
+        while (si < 0) si += dims[I];
+        uint_t ui(si);
         vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
-- 
2.43.0


From 2fef96798c99474006c4bd67328e79b9a0d347de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:01 +0000
Subject: [PATCH 005/123] fix: v op= v[i] re-read the element while it was
 being modified

---
 include/vif/core/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 4584e94..855b635 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -593,7 +593,7 @@ namespace vif {
             template<typename U, typename enable = typename std::enable_if< \
                 meta::is_scalar<U>::value \
             >::type> \
-            vec& operator op (const U& u) { \
+            vec& operator op (U u) { \
                 for (auto& v : data) { \
                     v op u; \
                 } \
-- 
2.43.0


From 760af8b7971674a9dca35f0e0e6b4d3bc72b7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:15 +0000
Subject: [PATCH 006/123] fix: a range selection of a view forgot which vector
 it refers to, so overlapping assignments were not detected

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f81a9c2..c30db6b 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -645,7 +645,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From 4b9350ce4bfecc89bec8b80ead3d9735338ea076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:18 +0000
Subject: [PATCH 007/123] fix: assigning from a read-only view of the same
 vector was not recognised as overlapping

---
 include/vif/core/vec.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 855b635..448993f 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -200,6 +200,11 @@ namespace vif {
             return v.view_same(*this);
         }
 
+        template<std::size_t D>
+        bool view_same(const vec<D,const Type*>& v) const {
+            return v.view_same(*this);
+        }
+
         bool empty() const {
             return data.empty();
         }
@@ -806,13 +811,18 @@ namespace vif {
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        bool view_same(const vec<D,rtype*>& v) const {
+            return v.parent == parent;
+        }
+
+        template<std::size_t D>
+        bool view_same(const vec<D,const rtype*>& v) const {
             return v.parent == parent;
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
+        bool view_same(const vec<D,rtype>& v) const {
+            return static_cast<void*>(const_cast<vec<D,rtype>*>(&v)) == parent;
         }
 
         bool empty() const {
-- 
2.43.0


From eaca6781d6a3a5d59a37e8c09a1108b4f031d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:19 +0000
Subject: [PATCH 008/123] fix: equal_range() returned one past the last equal
 value, and a range for values that are not in the vector

---
 include/vif/utility/bits/generic-find.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 99e4769..6fbe1e0 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -421,9 +421,9 @@ namespace vif {
         auto tres = std::equal_range(v.data.begin(), v.data.end(), x,
             typename vec<Dim,Type>::comparator_less());
 
-        if (tres.first != v.data.end()) {
+        if (tres.first != tres.second) {
             res[0] = tres.first - v.data.begin();
-            res[1] = tres.second - v.data.begin();
+            res[1] = tres.second - v.data.begin() - 1;
         } else {
             res[0] = res[1] = npos;
         }
-- 
2.43.0


From c06314b16f83391ec83a7e5fc8ef52ea74a85142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 009/123] fix: match() on large vectors ignored repeated values
 of the first vector and changed the order of the matches

---
 include/vif/utility/bits/generic-find.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 6fbe1e0..feadec0 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -226,18 +226,28 @@ namespace vif {
             vec1u ids1 = sort(v1);
             vec1u ids2 = sort(v2);
 
+            // For each value of 'v1', the first matching value of 'v2' (or 'npos')
+            std::vector<uint_t> found(n1, npos);
+
             uint_t i1 = 0, i2 = 0;
             while (i1 < n1 && i2 < n2) {
                 auto tv1 = v1.safe[ids1.safe[i1]];
                 auto tv2 = v2.safe[ids2.safe[i2]];
-                if (tv1 < tv2) {
+                if (tv1 == tv2) {
+                    // Stay on this value of 'v2', it may match other values of 'v1'
+                    found[ids1.safe[i1]] = ids2.safe[i2];
+                    ++i1;
+                } else if (tv1 < tv2 || tv1 != tv1) {
                     ++i1;
-                } else if (tv1 > tv2) {
-                    ++i2;
                 } else {
-                    id1.data.push_back(ids1.safe[i1]);
-                    id2.data.push_back(ids2.safe[i2]);
-                    ++i1; ++i2;
+                    ++i2;
+                }
+            }
+
+            for (uint_t i : range(n1)) {
+                if (found[i] != npos) {
+                    id1.data.push_back(i);
+                    id2.data.push_back(found[i]);
                 }
             }
 
-- 
2.43.0


From 2bebb9a3b405253e306c0cdbf304fdea64e10004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:52 +0000
Subject: [PATCH 010/123] fix: is_sorted() said that a sorted vector with
 repeated values is not sorted, and failed on empty vectors

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..d83ac18 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -108,8 +108,8 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
-        for (uint_t i : range(1, v.size())) {
-            if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
+        for (uint_t i = 1; i < v.size(); ++i) {
+            if (typename vec<Dim,Type>::comparator_less()(v.safe[i], v.safe[i-1])) return false;
         }
 
         return true;
-- 
2.43.0


From f8e3394d0b15a5078ed462176e77d66136a33c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:30 +0000
Subject: [PATCH 011/123] fix: shift() and replicate() of an empty vector
 divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index d83ac18..772d5ef 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,6 +12,8 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
+        if (v.empty()) return;
+
         n = (-n) % int_t(v.size());
         if (n < 0) n = int_t(v.size())+n;
 
@@ -53,6 +55,8 @@ namespace vif {
         static const std::size_t FDim = Dim+meta::dim_total<Args...>::value;
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
+        if (t.empty()) return v;
+
         std::size_t pitch = t.size();
         std::size_t n = v.size()/pitch;
         for (uint_t i : range(n))
-- 
2.43.0


From 36e371e2dd6177b831debd0c99cf4a911f3c0d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:10 +0000
Subject: [PATCH 012/123] fix: remove() accepted out-of-range rows of
 multidimensional vectors and some duplicated indices

---
 include/vif/utility/bits/generic-rearrange.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 772d5ef..16a7e31 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -124,24 +124,22 @@ namespace vif {
     void inplace_remove(vec<Dim,Type>& v, vec1u ids) {
         inplace_sort(ids);
 
+        for (uint_t i : range(ids)) {
+            vif_check(ids.safe[i] < v.dims[0], "trying to erase value ", ids.safe[i],
+                " in vector of dimensions ", v.dims);
+            vif_check(i == 0 || ids.safe[i] != ids.safe[i-1],
+                "remove indices contain duplicates");
+        }
+
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
 
-            vif_check(i1 < osize, "trying to erase value ", i1, " in vector of "
-                "dimensions ", v.dims);
-
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
                 i0 = ids.safe[ids.size()-1-i];
-
-                vif_check(i0 != i1, "remove indices contain duplicates");
-                vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
-                    "dimensions ", v.dims);
-
                 ++i;
             }
 
-- 
2.43.0


From 0a00940b16fcca3a447c71ced1565f2caa52b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:46 +0000
Subject: [PATCH 013/123] fix: append<N>() and prepend<N>() accepted vectors of
 incompatible dimensions when their products were equal

---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 16a7e31..9f739be 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -167,8 +167,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (std::size_t i = 0; i < Dim; ++i) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
@@ -190,8 +192,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (std::size_t i = 0; i < Dim; ++i) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From 345e4f232a69d41a4fa1fd01a7a454ac1e91f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:02 +0000
Subject: [PATCH 014/123] fix: appending or prepending a vector (or a view of
 it) to itself read freed or overwritten memory

---
 .../vif/utility/bits/generic-rearrange.hpp    | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 9f739be..d2e9ef3 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -156,9 +156,24 @@ namespace vif {
         return v;
     }
 
+    namespace impl {
+        // Check if 'v2' is the same vector as 'v1', or a view on 'v1'
+        template<std::size_t Dim, typename Type1, typename Type2>
+        bool shares_data(const vec<Dim,Type1>& v1, const vec<Dim,Type2>& v2) {
+            return static_cast<const void*>(&v1) == static_cast<const void*>(&v2) ||
+                v2.view_same(v1);
+        }
+    }
+
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<(N < Dim) && !std::is_pointer<Type1>::value>::type>
     void append(vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
+        if (impl::shares_data(t1, t2)) {
+            const vec<Dim,meta::rtype_t<Type2>> tmp2 = t2;
+            append<N>(t1, tmp2);
+            return;
+        }
+
         if (t1.empty()) {
             t1 = t2;
             return;
@@ -184,6 +199,12 @@ namespace vif {
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<(N < Dim) && !std::is_pointer<Type1>::value>::type>
     void prepend(vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
+        if (impl::shares_data(t1, t2)) {
+            const vec<Dim,meta::rtype_t<Type2>> tmp2 = t2;
+            prepend<N>(t1, tmp2);
+            return;
+        }
+
         if (t1.empty()) {
             t1 = t2;
             return;
@@ -209,6 +230,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void append(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (impl::shares_data(t1, t2)) {
+            const vec<1,meta::rtype_t<Type2>> tmp2 = t2;
+            append(t1, tmp2);
+            return;
+        }
+
         t1.data.insert(t1.data.end(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
@@ -216,6 +243,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void prepend(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (impl::shares_data(t1, t2)) {
+            const vec<1,meta::rtype_t<Type2>> tmp2 = t2;
+            prepend(t1, tmp2);
+            return;
+        }
+
         t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
-- 
2.43.0


From f1eff8332d1dbf8c2dd343a844db82507d9af56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:15 +0000
Subject: [PATCH 015/123] fix: cut() dropped the last, shorter piece of the
 string

---
 include/vif/utility/bits/string-split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..37b5581 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -38,7 +38,7 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        uint_t ncut = (ts.size() + size - 1)/size;
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From 94010dbe1b222edba454357ee1a84351f61e7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:24 +0000
Subject: [PATCH 016/123] fix: replace_blocks() took separators located after
 the end of the block as part of the block

---
 include/vif/utility/bits/string-find-replace.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..6c14a63 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -177,8 +177,9 @@ namespace vif {
 
             vec1s b;
 
+            // Only consider the separators that are found before the end of the block
             p0 = os.find(sep, p);
-            while (p0 != npos) {
+            while (p0 != npos && p0 <= os.find(end, p)) {
                 b.push_back(os.substr(p, p0-p));
                 p0 += sep.size();
                 p = p0;
-- 
2.43.0


From 076d5e15064cb7ba41790297c350bf9584aa8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:07 +0000
Subject: [PATCH 017/123] fix: get_word() returned an empty string when the
 string consists of a single word

---
 include/vif/utility/bits/string-find-replace.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 6c14a63..416d3c1 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -129,8 +129,7 @@ namespace vif {
                 ++nw;
             }
 
-            p2 = (p2 == str.npos ? str.npos : p2-1);
-            return str.substr(p1, p2-p1+1);
+            return p2 == str.npos ? str.substr(p1) : str.substr(p1, p2-p1);
         }
     }
 
-- 
2.43.0


From 3f3921b02e70e525257bb01775d5628e3fc54f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:04 +0000
Subject: [PATCH 018/123] fix: regex_extract() and regex_replace() looped
 forever on empty matches, matched ^ again after the first match and threw on
 optional groups that did not take part

---
 include/vif/utility/bits/string-regex.hpp | 52 ++++++++++++++---------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 34c4f3d..2b74888 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -36,20 +36,6 @@ namespace vif {
         inline bool regex_match_(const std::string& ts, regex_t& re) {
             return regexec(&re, ts.c_str(), std::size_t(0), nullptr, 0) == 0;
         }
-
-        inline uint_t regex_find_nmatch_(const std::string& regex) {
-            uint_t nmatch = 0;
-            uint_t p = regex.find_first_of('(');
-            while (p != npos) {
-                if (p == 0 || regex[p-1] != '\\') {
-                    ++nmatch;
-                }
-
-                p = regex.find_first_of('(', p+1);
-            }
-
-            return nmatch;
-        }
     }
     }
 
@@ -93,8 +79,11 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
-        if (nmatch == 0) return ret;
+        uint_t nmatch = re.re_nsub;
+        if (nmatch == 0) {
+            regfree(&re);
+            return ret;
+        }
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -113,10 +102,16 @@ namespace vif {
 
             append<0>(ret, reform(std::move(tret), 1, nmatch));
 
+            bool empty_match = m[0].rm_eo == m[0].rm_so;
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            if (empty_match) ++offset; // nothing was consumed, always move forward
+            if (offset > ts.size()) break;
+
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), offset == 0 ? 0 : REG_NOTBOL);
         }
 
+        regfree(&re);
+
         return ret;
     }
 
@@ -127,7 +122,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -139,16 +134,31 @@ namespace vif {
             vec1s ext;
             ext.reserve(nmatch);
             for (uint_t i : range(nmatch)) {
-                ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                if (m[i+1].rm_eo > m[i+1].rm_so) {
+                    ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                } else {
+                    ext.push_back("");
+                }
             }
 
             s += func(std::move(ext));
 
+            bool empty_match = m[0].rm_eo == m[0].rm_so;
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            if (empty_match) {
+                // Nothing was consumed, always move forward
+                if (offset < ts.size()) s += ts[offset];
+                ++offset;
+            }
+
+            if (offset > ts.size()) break;
+
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), offset == 0 ? 0 : REG_NOTBOL);
         }
 
-        s += ts.substr(offset);
+        regfree(&re);
+
+        if (offset < ts.size()) s += ts.substr(offset);
 
         return s;
     }
-- 
2.43.0


From 9358e06ba3cbf1379859825a72e28d9bcd76153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:56 +0000
Subject: [PATCH 019/123] fix: a command line argument that cannot be converted
 modified its variable and hid other arguments whose name is part of its text

---
 include/vif/utility/argv.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 2ce9ebc..d603f33 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -26,7 +26,11 @@ namespace vif {
         template<typename T,
             typename enable = typename std::enable_if<!std::is_same<T, vec<1,std::string>>::value>::type>
         bool read_args_n2T_(T& t, const std::string& s) {
-            return from_string(s, t);
+            // Only modify the variable if the conversion is successful
+            T tmp = t;
+            if (!from_string(s, tmp)) return false;
+            t = tmp;
+            return true;
         }
 
         template<typename U>
@@ -118,7 +122,7 @@ namespace vif {
                             bool v = read_args_n2T_(tmp, trim(trim(s), "'\""));
                             if (!v) {
                                 valid = false;
-                                return false;
+                                return true;
                             } else {
                                 tmpv.push_back(tmp);
                             }
@@ -174,10 +178,10 @@ namespace vif {
             for (auto& i : idm) {
                 if (read_args_impl_(argv[i], read[i], valid[i], tname, t)) {
                     found = true;
-                }
-                if (!valid[i]) {
-                    warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
-                    break;
+                    if (!valid[i]) {
+                        warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
+                        break;
+                    }
                 }
             }
 
@@ -209,10 +213,10 @@ namespace vif {
             for (auto& i : idm) {
                 if (read_args_impl_(argv[i], read[i], valid[i], t.name, t.obj)) {
                     found = true;
-                }
-                if (!valid[i]) {
-                    warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
-                    break;
+                    if (!valid[i]) {
+                        warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
+                        break;
+                    }
                 }
             }
 
-- 
2.43.0


From b8a4c7e3251c143ff090990e62e7596e2ddd1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:32 +0000
Subject: [PATCH 020/123] fix: command line arguments written --variable=value
 were not recognised

---
 include/vif/utility/argv.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index d603f33..1f4fb4b 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -56,22 +56,25 @@ namespace vif {
             return true;
         }
 
+        // Number of dashes at the beginning of the argument ("-name" or "--name")
+        inline uint_t count_dashes_(const std::string& arg) {
+            uint_t n = 0;
+            while (n < 2 && n < arg.size() && arg[n] == '-') ++n;
+            return n;
+        }
+
         template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, T& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(count_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = count_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
@@ -89,18 +92,14 @@ namespace vif {
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, vec<1,T>& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(count_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = count_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
-- 
2.43.0


From d658510306cf1125798e71a6d8910b7c7e37d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:03 +0000
Subject: [PATCH 021/123] fix: get_basename() and get_directory() mishandled
 relative directories and repeated slashes at the end of the path

---
 include/vif/io/filesystem.hpp | 49 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..3fb8f73 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -205,25 +205,22 @@ namespace file {
 
     // Same behavior as 'basename'
     inline std::string get_basename(std::string path) {
+        auto lpos = path.find_last_not_of(' ');
+        if (lpos != path.npos && path[lpos] == '/') {
+            // Ignore trailing slashes
+            lpos = path.find_last_not_of('/', lpos);
+            if (lpos == path.npos) {
+                return "/";
+            }
+
+            path.erase(lpos+1);
+        }
+
         auto pos = path.find_last_of('/');
         if (pos == path.npos) {
             return path;
         } else {
-            auto lpos = path.find_last_not_of(' ');
-            if (pos == lpos) {
-                if (pos == 0) {
-                    return "/";
-                } else {
-                    pos = path.find_last_of('/', pos-1);
-                    if (pos == path.npos) {
-                        return path.substr(lpos);
-                    } else {
-                        return path.substr(pos+1, lpos-pos-1);
-                    }
-                }
-            } else {
-                return path.substr(pos+1);
-            }
+            return path.substr(pos+1);
         }
     }
 
@@ -247,20 +244,18 @@ namespace file {
 
     // Same behavior as 'dirname'
     inline std::string get_directory(const std::string& path) {
-        auto pos = path.find_last_of('/');
-        if (pos == path.npos) {
-            return "./";
-        } else if (pos == path.find_last_not_of(' ')) {
-            if (pos == 0) {
+        auto lpos = path.find_last_not_of(' ');
+        if (lpos != path.npos && path[lpos] == '/') {
+            // Ignore trailing slashes
+            lpos = path.find_last_not_of('/', lpos);
+            if (lpos == path.npos) {
                 return "/";
-            } else {
-                pos = path.find_last_of('/', pos-1);
-                if (pos == path.npos) {
-                    return "./";
-                } else {
-                    return path.substr(0, pos+1);
-                }
             }
+        }
+
+        auto pos = path.find_last_of('/', lpos);
+        if (pos == path.npos) {
+            return "./";
         } else {
             return path.substr(0, pos+1);
         }
-- 
2.43.0


From 89dfadebf89c66ce42af11652a99d004b166754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:43 +0000
Subject: [PATCH 022/123] fix: closing or reopening a directory explorer closed
 the same directory handle twice

---
 include/vif/io/filesystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 3fb8f73..12b33aa 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -105,6 +105,7 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
+                dirfd = nullptr;
             };
         }
 
-- 
2.43.0


From a748bd7a6a305a403e5dd7632c2923898fe7998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:22 +0000
Subject: [PATCH 023/123] fix: is_older() compared the time of the last status
 change instead of the last modification

---
 include/vif/io/filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 12b33aa..bc390ce 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -31,7 +31,7 @@ namespace file {
         struct stat st1, st2;
         if (::stat(file1.c_str(), &st1) != 0) return false;
         if (::stat(file2.c_str(), &st2) != 0) return false;
-        return std::difftime(st1.st_ctime, st2.st_ctime) < 0.0;
+        return std::difftime(st1.st_mtime, st2.st_mtime) < 0.0;
     }
 
     inline bool is_absolute_path(const std::string& path) {
-- 
2.43.0


From 24ac6d538f4c335e1de0585948e696fa02d53da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:56 +0000
Subject: [PATCH 024/123] fix: mkdir() reported success when a regular file
 exists at the requested path

---
 include/vif/io/filesystem.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index bc390ce..7ba611c 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -273,7 +273,10 @@ namespace file {
             bool res = (::mkdir(tmp.c_str(), 0775) == 0) || (errno == EEXIST);
             if (!res) return false;
         }
-        return true;
+
+        // What exists at this location could be something else than a directory
+        struct stat st;
+        return ::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
     }
 
     VIF_VECTORIZE(directorize)
-- 
2.43.0


From 2f3323b776d664a5ca9e4a78013c07dc9f107128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:34 +0000
Subject: [PATCH 025/123] fix: copy() erased a file copied onto itself and
 reported success when the data could not be written

---
 include/vif/io/filesystem.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 7ba611c..6871b9a 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -42,10 +42,22 @@ namespace file {
     inline bool copy(const std::string& file_from, const std::string& file_to) {
         std::ifstream src(file_from, std::ios::binary);
         if (!src.is_open()) return false;
+
+        // Do not erase the file if it is copied onto itself
+        struct stat st1, st2;
+        if (::stat(file_from.c_str(), &st1) == 0 && ::stat(file_to.c_str(), &st2) == 0 &&
+            st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) {
+            return true;
+        }
+
         std::ofstream dst(file_to,   std::ios::binary);
         if (!dst.is_open()) return false;
-        dst << src.rdbuf();
-        return true;
+        if (src.peek() != std::ifstream::traits_type::eof()) {
+            dst << src.rdbuf();
+        }
+
+        dst.close();
+        return dst.good();
     }
 
     inline bool remove(const std::string& path) {
-- 
2.43.0


From 9c5a934f4ecd683bb58caf6463eeeb5abbcdc357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:39 +0000
Subject: [PATCH 026/123] fix: read_table() failed on a table with fewer lines
 than skip_first

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..7c35ec6 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -343,7 +343,7 @@ namespace ascii {
                     ++n;
                 }
 
-                n -= opts.skip_first;
+                n -= std::min(n, opts.skip_first);
             }
 
             // Resize all vectors
-- 
2.43.0


From c415ae3e60063dc8b267e7bd9ad3eb6714262886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:21 +0000
Subject: [PATCH 027/123] fix: read_table() with a single delimiter read an
 empty first column over and over, shifting all the other columns

---
 include/vif/io/ascii.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 7c35ec6..62f8a4d 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -81,15 +81,18 @@ namespace impl {
 
             std::string delim = " \t";
             bool delim_single = false;
+            bool started = false; // true once the first word has been extracted
 
             bool skip_word() {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
+                    if (started) {
                         pos += delim.size();
                     }
 
+                    started = true;
+
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         pos = p1;
@@ -112,10 +115,12 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
+                    if (started) {
                         pos += delim.size();
                     }
 
+                    started = true;
+
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         sub = line.substr(pos);
@@ -143,6 +148,7 @@ namespace impl {
 
             void reset() {
                 pos = 0;
+                started = false;
             }
         };
 
-- 
2.43.0


From fbf84a8d9a992e2e02dbdf83db4a53858877a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:59 +0000
Subject: [PATCH 028/123] fix: write_table() read past the end of an empty
 first column when the following columns are not empty

---
 include/vif/io/ascii.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 62f8a4d..30b3258 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -475,7 +475,7 @@ namespace impl {
 
             static_assert(Dim <= 2, "cannot write vectors of more than two dimensions");
 
-            if (r == 0) {
+            if (r == npos) {
                 r = v.dims[0];
             }
 
@@ -641,8 +641,9 @@ namespace ascii {
         vif_check(file.out.is_open(), "could not open file "+filename+" to write data");
 
         // Compute number of rows and check that all vectors have the same size
-        uint_t r = 0, c = 0;
+        uint_t r = npos, c = 0;
         impl::ascii_impl::write_table_check_size_(r, c, args...);
+        if (r == npos) r = 0;
 
         if (!opts.header.empty()) {
             vif_check(opts.header.size() == c, "mismatch between dimensions of header and number "
-- 
2.43.0


From c89e3db4059f5773109251c3ec145eae54c548fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:22 +0000
Subject: [PATCH 029/123] fix: a FITS object could not open any file after a
 failed call to open()

---
 include/vif/io/fits/base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7e64ae3..7ac3ea7 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -393,6 +393,9 @@ namespace impl {
             void open(const std::string& filename) {
                 close();
 
+                // Forget about previous errors
+                status_ = 0;
+
                 if (rights_ == write_only || (rights_ == read_write && !file::exists(filename))) {
                     fits_create_file(&fptr_, ("!"+filename).c_str(), &status_);
                     fits::vif_check_cfitsio(status_, "cannot create file '"+filename+"'");
-- 
2.43.0


From a200c90f36c5a5a5d35300a5d1353d8e9cd8d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:53 +0000
Subject: [PATCH 030/123] fix: reach_hdu() inserted the missing HDUs after the
 current one, moving the following HDUs and reaching one of them

---
 include/vif/io/fits/base.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7ac3ea7..e98c25c 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -597,6 +597,13 @@ namespace impl {
                         "FITS file (", hdu, " vs. ", nhdu, ")");
                 } else {
                     if (hdu >= nhdu) {
+                        // Move to the last HDU: new HDUs are inserted after the current one
+                        if (nhdu > 0) {
+                            fits_movabs_hdu(fptr_, nhdu, nullptr, &status_);
+                            fits::vif_check_cfitsio(status_,
+                                "could not create new HDUs to reach HDU "+to_string(hdu));
+                        }
+
                         // Create missing HDUs to be able to reach the one requested
                         long naxes = 0;
                         for (uint_t i = nhdu; i <= hdu; ++i) {
-- 
2.43.0


From c408b1c758621893f3f1e07d714f287d399913ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:23 +0000
Subject: [PATCH 031/123] fix: remove_hdu() erased the data of the primary HDU
 instead of reporting an error

---
 include/vif/io/fits/base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index e98c25c..d9e0aa5 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -775,6 +775,8 @@ namespace impl {
             void remove_hdu() {
                 check_is_open_();
 
+                vif_check_fits(current_hdu() != 0, "cannot remove the primary HDU");
+
                 fits_delete_hdu(fptr_, nullptr, &status_);
                 fits::vif_check_cfitsio(status_, "could not remove the current HDU");
 
-- 
2.43.0


From ebcf8134c1987629277123a4501d4b38725bd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:55 +0000
Subject: [PATCH 032/123] fix: axis_count() and image_dims() failed on tables,
 and all the following operations with them

---
 include/vif/io/fits/base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index d9e0aa5..01f4e9e 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -630,6 +630,11 @@ namespace impl {
             uint_t axis_count() const {
                 check_is_open_();
 
+                int type;
+                fits_get_hdu_type(fptr_, &type, &status_);
+                fits::vif_check_cfitsio(status_, "could not get the number of axis in HDU");
+                if (type != IMAGE_HDU) return 0;
+
                 int naxis;
                 fits_get_img_dim(fptr_, &naxis, &status_);
                 fits::vif_check_cfitsio(status_, "could not get the number of axis in HDU");
-- 
2.43.0


From 7f2bf1be755c7f54bc81fbd41806c485ed780e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 033/123] fix: read_keyword() modified the value when the
 keyword does not exist and altered strings that contain quotes

---
 include/vif/io/fits/base.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 01f4e9e..c140f1f 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -519,9 +519,17 @@ namespace impl {
                 char content[80];
                 int status = 0;
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
-                value = content;
-                value = trim(value, " '");
-                return status == 0;
+                if (status != 0) return false;
+
+                value = trim(content);
+                if (!value.empty() && value[0] == '\'') {
+                    // Remove enclosing quotes, padding spaces, and duplicated quotes
+                    uint_t last = value.size() > 1 && value.back() == '\'' ? 1 : 0;
+                    value = trim(value.substr(1, value.size()-1-last));
+                    value = replace(value, "''", "'");
+                }
+
+                return true;
             }
 
             template <typename T>
-- 
2.43.0


From 88492df8f470aa8a47e338db1039fe44d95e1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:14 +0000
Subject: [PATCH 034/123] fix: read_keyword() modified the value when the
 keyword cannot be converted to the requested type

---
 include/vif/io/fits/base.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index c140f1f..749b6f8 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -546,7 +546,11 @@ namespace impl {
                     content = "0";
                 }
 
-                return from_string(content, value);
+                // Only modify the value if it could be converted
+                T tmp;
+                if (!from_string(content, tmp)) return false;
+                value = tmp;
+                return true;
             }
 
             uint_t hdu_count() const {
-- 
2.43.0


From 4a866427e070529e1742cb5783fd1849d32316d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:27 +0000
Subject: [PATCH 035/123] fix: read_subset() accepted an open range that starts
 after the end of the image, reading out of bounds

---
 include/vif/io/fits/image.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index 98f98fb..bb78b12 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -75,6 +75,10 @@ namespace fits {
             std::vector<long>& fpixel, std::vector<long>& lpixel,
             impl::range_impl::right_range_t r, const Args& ... args) const {
 
+            vif_check_fits(r.first < uint_t(naxes[naxes.size()-1-idim]), "image subset goes outside of "
+                "the image boundaries (axis "+to_string(idim)+": "+to_string(r.first)+" vs. "+
+                to_string(naxes[naxes.size()-1-idim]));
+
             fpixel[naxes.size()-1-idim] = r.first+1;
             lpixel[naxes.size()-1-idim] = naxes[naxes.size()-1-idim];
 
-- 
2.43.0


From 0b52aa707dac04051f6bd5164d94aeec473e328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:05 +0000
Subject: [PATCH 036/123] fix: read_column_info() gave an extra dimension to
 the columns of row-oriented tables with one value per row, so read_elements()
 and update_elements() refused them

---
 include/vif/io/fits/table.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 419557e..90b8a4d 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -260,7 +260,12 @@ namespace fits {
             if (format_ == table_format::row_oriented) {
                 uint_t nrow = 0;
                 read_keyword("NAXIS2", nrow);
-                ci.dims.push_back(nrow);
+                if (naxis == 1 && ci.dims[0] == 1) {
+                    // One value per row
+                    ci.dims[0] = nrow;
+                } else {
+                    ci.dims.push_back(nrow);
+                }
             }
 
             ci.dims = reverse(ci.dims);
-- 
2.43.0


From f1f7bbeb33a11ed5e624f2feb518763b5049a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:22 +0000
Subject: [PATCH 037/123] fix: reading a column of several rows of a
 row-oriented table into a scalar was accepted and gave the first row

---
 include/vif/io/fits/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 90b8a4d..87b5ec3 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -649,7 +649,7 @@ namespace fits {
                 }
             }
 
-            if (!read_column_check_dim_(opts, value, vdim, naxis, repeat)) {
+            if (!read_column_check_dim_(opts, value, vdim, naxis, repeat*nrow)) {
                 return read_sentry{this, "wrong number of dimensions for column '"+colname+"' "
                     "(expected "+to_string(vdim)+", got "+to_string(naxis)+")"};
             }
-- 
2.43.0


From 307dfe8230139be27366327c8978f5e644cff2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:58 +0000
Subject: [PATCH 038/123] fix: read_keyword(), write_keyword() and
 remove_keyword() used any of the keywords of the same name instead of the
 first one

---
 include/vif/io/fits/base.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 749b6f8..965db2a 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -456,6 +456,14 @@ namespace impl {
 
         protected :
 
+            // CFITSIO searches for keywords starting from the last one that was accessed.
+            // Call this function first to always find the first matching keyword.
+            void rewind_header_() const {
+                char card[FLEN_CARD];
+                int status = 0;
+                fits_read_record(fptr_, 0, card, &status);
+            }
+
             void check_is_open_() const {
                 if (!is_open()) {
                     throw fits::exception("no FITS file opened, cannot proceed");
@@ -518,6 +526,7 @@ namespace impl {
                 char comment[80];
                 char content[80];
                 int status = 0;
+                rewind_header_();
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
                 if (status != 0) return false;
 
@@ -740,6 +749,7 @@ namespace impl {
                 const std::string& com = "") {
                 check_is_open_();
 
+                rewind_header_();
                 fits_update_key(fptr_, traits<meta::decay_t<T>>::ttype,
                     name.c_str(), const_cast<T*>(&value),
                     const_cast<char*>(com.c_str()), &status_);
@@ -766,6 +776,7 @@ namespace impl {
 
                 }
 
+                rewind_header_();
                 fits_update_key(fptr_, TSTRING, name.c_str(),
                     const_cast<char*>(value.c_str()),
                     const_cast<char*>(com.c_str()), &status_);
@@ -785,6 +796,7 @@ namespace impl {
             void remove_keyword(const std::string& name) {
                 check_is_open_();
 
+                rewind_header_();
                 fits_delete_key(fptr_, name.c_str(), &status_);
                 status_ = 0; // don't care if the keyword doesn't exist or other errors
             }
-- 
2.43.0


From 23bdd664d35a14c74a98e8f7db16fd7377f5aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:34 +0000
Subject: [PATCH 039/123] fix: getkey() and setkey() took a slash inside a
 quoted value for the start of the comment

---
 include/vif/io/fits/base.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 965db2a..4a0ee2d 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -815,6 +815,24 @@ namespace impl {
     }
 }
 
+namespace impl {
+    namespace fits_impl {
+        // Find the position of the comment in a header entry, ignoring quoted text
+        inline std::size_t find_comment(const std::string& entry, std::size_t eqpos) {
+            bool quoted = false;
+            for (std::size_t i = eqpos; i < entry.size(); ++i) {
+                if (entry[i] == '\'') {
+                    quoted = !quoted;
+                } else if (entry[i] == '/' && !quoted) {
+                    return i;
+                }
+            }
+
+            return entry.npos;
+        }
+    }
+}
+
 namespace fits {
     // Header keyword manipulation
     template<typename T>
@@ -824,7 +842,7 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(entry, eqpos);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
@@ -843,7 +861,7 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(entry, eqpos);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
@@ -899,7 +917,7 @@ namespace fits {
             // Extract entry's name
             std::string nam = trim(tentry.substr(0, eqpos));
             // Look for comments
-            std::size_t cpos = tentry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(tentry, eqpos);
 
             if (nam == key) {
                 // The entry already exists
-- 
2.43.0


From f3f2901e9d285037eef84c584b55611223fa1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 040/123] fix: setkey() inserted the new entry in the middle of
 the last one if it contains the letters END

---
 include/vif/io/fits/base.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 4a0ee2d..513a4c5 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -902,8 +902,7 @@ namespace fits {
         // Insertion point
         std::size_t ipos = hdr.npos;
         if (hdr.size() >= 80) {
-            ipos = hdr.substr(hdr.size() - 80, 80).find("END");
-            if (ipos != hdr.npos) ipos += hdr.size() - 80;
+            if (trim(hdr.substr(hdr.size() - 80, 80)) == "END") ipos = hdr.size() - 80;
         }
 
         // Look for existing entry in header
-- 
2.43.0


From 3bffe1e4c403700c1e7fb4933c6bbec9e521f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:55 +0000
Subject: [PATCH 041/123] fix: parse_header() ended a string value at the first
 of two consecutive quotes

---
 include/vif/io/fits/base.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 513a4c5..9484063 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -961,6 +961,17 @@ namespace fits {
 
     inline fits::parsed_header parse_header(const fits::header& hdr) {
         fits::parsed_header keys;
+
+        // Find the quote closing the string (two consecutive quotes stand for one quote inside it)
+        auto find_closing_quote = [](const std::string& str) {
+            auto pq = str.find_first_of('\'', 1);
+            while (pq != std::string::npos && pq+1 < str.size() && str[pq+1] == '\'') {
+                pq = str.find_first_of('\'', pq+2);
+            }
+
+            return pq;
+        };
+
         vec1s lines = cut(hdr, 80);
         keys.reserve(lines.size());
         for (uint_t i : range(lines)) {
@@ -968,11 +979,11 @@ namespace fits {
                 keys.push_back(header_keyword{});
                 auto& k = keys.back();
                 k.key = trim(lines[i]);
-            } else if (lines[i].find("CONTINUE ") == 0) {
+            } else if (lines[i].find("CONTINUE ") == 0 && !keys.empty()) {
                 auto& k = keys.back();
                 std::string right = trim(lines[i].substr(10));
                 if (!right.empty() && right[0] == '\'') {
-                    auto p2 = right.find_first_of('\'', 1);
+                    auto p2 = find_closing_quote(right);
                     std::string val;
                     if (p2 != std::string::npos) {
                         val = trim(right.substr(1, p2-1));
@@ -986,10 +997,10 @@ namespace fits {
                         k.value = k.value.substr(1, k.value.size()-2);
                     }
 
-                    if (k.value.back() == '&') {
+                    if (!k.value.empty() && k.value.back() == '&') {
                         k.value = k.value.substr(0, k.value.size()-1);
                     }
-                    if (val.back() == '&') {
+                    if (!val.empty() && val.back() == '&') {
                         val = val.substr(0, val.size()-1);
                     }
 
@@ -1014,7 +1025,7 @@ namespace fits {
                     std::string right = trim(lines[i].substr(p+1));
                     if (!right.empty()) {
                         if (right[0] == '\'') {
-                            auto p2 = right.find_first_of('\'', 1);
+                            auto p2 = find_closing_quote(right);
                             if (p2 != std::string::npos) {
                                 ++p2;
 
-- 
2.43.0


From deaffe26d54e262764fa23ad9499ae3ae0f4bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:45 +0000
Subject: [PATCH 042/123] fix: rms(), weighted_mean() and optimal_mean() of
 integers overflowed

---
 include/vif/math/reduce.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..a494c7c 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -62,7 +62,7 @@ namespace vif {
         double total = 0.0;
         double totalw = 0.0;
         for (uint_t i : range(v)) {
-            total += v.safe[i]*w.safe[i];
+            total += double(v.safe[i])*w.safe[i];
             totalw += w.safe[i];
         }
 
@@ -79,7 +79,7 @@ namespace vif {
         double totalv = 0.0;
         double totalw = 0.0;
         for (uint_t i : range(v)) {
-            double w = 1.0/(e.safe[i]*e.safe[i]);
+            double w = 1.0/(double(e.safe[i])*e.safe[i]);
             totalv += w*v.safe[i];
             totalw += w;
         }
@@ -454,7 +454,7 @@ namespace vif {
     double rms(const vec<Dim,Type>& v) {
         double sum = 0;
         for (auto& t : v) {
-            sum += t*t;
+            sum += double(t)*t;
         }
 
         return sqrt(sum/v.size());
-- 
2.43.0


From 0d20ffb869dedc8e2d95fc79ea4458dd7f36b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:13 +0000
Subject: [PATCH 043/123] fix: percentile() and percentiles() close to 1 gave
 NaN if some of the values are NaN

---
 include/vif/math/reduce.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index a494c7c..a1a2012 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -213,7 +213,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +231,11 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            if (nwrong == v.size()) {
+                r.safe[i] = dnan;
+            } else {
+                r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
+            }
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
-- 
2.43.0


From d82de9c5b5064ad80de7cf33ade6a5ee1506d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:01 +0000
Subject: [PATCH 044/123] fix: weighted_percentile() could give NaN for a
 percentile of 1 because of rounding errors

---
 include/vif/math/reduce.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index a1a2012..670eb40 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -185,9 +185,11 @@ namespace vif {
         vec1u ids = sort(v);
 
         double tot = 0;
+        uint_t last = npos;
         for (uint_t i : range(ids)) {
             uint_t j = ids.safe[i];
             if (!is_nan(v.safe[j]) && !is_nan(w.safe[j])) {
+                last = j;
                 tot += w.safe[j];
                 if (tot >= totw*p) {
                     return v.safe[j];
@@ -195,7 +197,8 @@ namespace vif {
             }
         }
 
-        return dnan;
+        // Not reached because of rounding errors in the sum of the weights
+        return v.safe[last];
     }
 
     template<std::size_t Dim, typename Type, typename TypeW, typename enable = typename std::enable_if<
-- 
2.43.0


From 4e8ec1b02bab08e01095333cc190d4e25461bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:13 +0000
Subject: [PATCH 045/123] fix: cumul_reverse() only added the next value
 instead of all the next ones

---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..222d137 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -379,7 +379,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From bdb773631719146763c172d69563f90711f6ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:40 +0000
Subject: [PATCH 046/123] fix: integrate() of binned data between x0 and x1
 used the next bin for the part of the bin containing x0

---
 include/vif/math/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 670eb40..83e57fe 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -792,7 +792,7 @@ namespace vif {
                 r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
             }
 
-            r += y.safe[i0]*(x.safe[i0] - x0);
+            r += y.safe[i0-1]*(x.safe[i0] - x0);
             r += y.safe[i1]*(x1 - x.safe[i1]);
 
             return r;
-- 
2.43.0


From 6e4bbd9a14b3fb1aca66f73d8a559e18cfc91b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:33 +0000
Subject: [PATCH 047/123] fix: integrate() and integrate_hinted() read out of
 bounds if x0 is the last point

---
 include/vif/math/reduce.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 83e57fe..13841a8 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -743,7 +743,10 @@ namespace vif {
         uint_t i0 = upper_bound(x, x0);
         uint_t i1 = lower_bound(x, x1);
 
-        if (i0 > i1) {
+        if (i0 == npos) {
+            // x0 is the last point, nothing to integrate
+            return 0;
+        } else if (i0 > i1) {
             double y0 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x0);
             double y1 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x1);
             return 0.5*(y0+y1)*(x1-x0);
@@ -817,7 +820,9 @@ namespace vif {
             // No hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
-                i1 = x.size()-1;
+                // x0 is the last point, nothing to integrate
+                ihint = x.size()-1;
+                return 0;
             } else {
                 i1 = i0-1;
                 while (i1 < x.size()-1 && x.safe[i1+1] <= x1) {
-- 
2.43.0


From bb7c87c7fd87d6715b9d69b46575dfc44b0e513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:38 +0000
Subject: [PATCH 048/123] fix: integrate() and cumul() of an empty table read
 out of bounds

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 13841a8..1848a4a 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -701,7 +701,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
         }
 
@@ -882,7 +882,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
             dr.safe[i] = r;
         }
-- 
2.43.0


From 3035b3347f5fe0c935daab6959aa6f9afe5cd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 049/123] fix: interpolate_3spline() was not the cubic spline
 if the points are not regularly spaced

---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..16c3a2c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -285,7 +285,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From 7918a1015e3833c2f3c7a289ff055e725ba64455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:39 +0000
Subject: [PATCH 050/123] fix: bilinear_strict() returned the default value on
 the last row and column of the map

---
 include/vif/math/interpolate.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 16c3a2c..5fa19c6 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -232,6 +232,10 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
+        // The last pixel is inside the map, but is interpolated from the previous one
+        if (tix == int_t(map.dims[0])-1 && x == tix) --tix;
+        if (tiy == int_t(map.dims[1])-1 && y == tiy) --tiy;
+
         if (tix < 0 || uint_t(tix) >= map.dims[0]-1 || tiy < 0 || uint_t(tiy) >= map.dims[1]-1) {
             return def;
         }
-- 
2.43.0


From b5dec55f706234414e2d7cfaa80265add59a5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 051/123] fix: the division of a matrix by a scalar did not
 compile

---
 include/vif/math/bits/matrix-types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index d140138..a26376d 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -550,7 +550,7 @@ namespace matrix {
         meta::is_matrix<TypeA>::value && std::is_arithmetic<typename std::decay<TypeB>::type>::value
     >::type>
     auto operator / (const TypeA& a, const TypeB& b) -> mat<decltype(a(0,0)/b)> {
-        return mat<decltype(a(0,0)/b)>(std::forward<TypeA>(a).base/b);
+        return mat<decltype(a(0,0)/b)>(a.base/b);
     }
 
     // matrix + matrix
-- 
2.43.0


From cf75076b4331600f9bd5ef613052e0d9625a7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:15 +0000
Subject: [PATCH 052/123] fix: decompose_lu::invert() without pivoting did not
 give the inverse

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 341c1b2..dfbd195 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -246,7 +246,7 @@ namespace matrix {
 
                         r.safe[k] = (i1 == k);
                     } else {
-                        r.safe[k] = 1.0;
+                        r.safe[k] = (k == c);
                     }
 
                     for (uint_t i : range(k)) {
-- 
2.43.0


From 70f50fedbaec42bc87e3a813c2815546b6f3111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:45 +0000
Subject: [PATCH 053/123] fix: solve() and inplace_solve() solved the system of
 the transposed matrix when using LAPACK

---
 include/vif/math/bits/matrix-functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index dfbd195..af81566 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -712,6 +712,9 @@ namespace matrix {
         int info;
         vec<1,int> ipiv(n);
 
+        // LAPACK stores matrices column by column
+        alpha.base = vif::transpose(alpha.base);
+
         lapack::dgesv_(&n, &nrhs, alpha.raw_data(), &lda, ipiv.raw_data(), beta.raw_data(),
             &ldb, &info);
         if (info != 0) {
-- 
2.43.0


From b449d6c02a8962dc26c762dbd38e318769b16e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:17 +0000
Subject: [PATCH 054/123] fix: decompose_cholesky did nothing when LAPACK is
 disabled

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index af81566..5285310 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -307,7 +307,7 @@ namespace matrix {
             l = std::move(alpha);
 
         #ifdef NO_LAPACK
-            const uint_t n = alpha.dims[0];
+            const uint_t n = l.dims[0];
             for (uint_t i : range(n)) {
                 for (uint_t j : range(i+1)) {
                     double s = 0.0;
-- 
2.43.0


From b648e9527a13e9cbbc8fa0aaa47a814c9a714c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:40 +0000
Subject: [PATCH 055/123] fix: linfit_nn() always reported a failure

---
 include/vif/math/linfit.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index a61d1d4..37890f3 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -158,9 +158,7 @@ namespace vif {
                 ++titer;
             } while (ta/tb > fit_tftol && titer < titermax);
 
-            if (titer == titermax) {
-                fr.success = false;
-            }
+            fr.success = titer < titermax;
 
             vec1d model(nm);
             for (uint_t m : range(nm)) {
-- 
2.43.0


From 0cc21e38a1e5a9791ec20ee2793e025af2815902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:10 +0000
Subject: [PATCH 056/123] fix: linfit_nn() gave NaN if the best value of all
 the parameters is zero

---
 include/vif/math/linfit.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index 37890f3..9884c15 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -149,6 +149,8 @@ namespace vif {
 
                     // Update coeff
                     double old = fr.params.safe[m0];
+                    if (old == 0.0) continue;
+
                     fr.params.safe[m0] *= beta.safe[m0]/av;
 
                     ta += abs(fr.params.safe[m0] - old);
@@ -156,7 +158,7 @@ namespace vif {
                 }
 
                 ++titer;
-            } while (ta/tb > fit_tftol && titer < titermax);
+            } while (ta > fit_tftol*tb && titer < titermax);
 
             fr.success = titer < titermax;
 
-- 
2.43.0


From f2d2dcaddff4a7f9e733a8dd95e9f24300138753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:53 +0000
Subject: [PATCH 057/123] fix: linfit_batch update_model() read out of bounds
 if the model is smaller than the data

---
 include/vif/math/linfit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index 9884c15..ae52028 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -347,6 +347,8 @@ namespace vif {
             uint_t nm = cache.dims[1];
 
             vif_check(i < np, "index goes beyond available models (", i, " vs. ", np, ")");
+            vif_check(x.size() == nm, "incompatible dimensions between X and YE arrays (",
+                meta::dims(x), " vs. ", meta::dims(ye), ")");
 
             for (uint_t j : range(nm)) {
                 cache.safe(i,j) = x.safe[j]/ye.safe[j];
-- 
2.43.0


From 44b80edaf947ec2f58f247149ced50a368591aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:44 +0000
Subject: [PATCH 058/123] fix: mpfit() did not move the parameters that have a
 limit towards this limit

---
 include/vif/math/mpfit.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index dea5498..994039d 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -573,12 +573,12 @@ namespace vif {
         while (true) {
             fjac = mpfit_fdjac2(deviate, xall, ifree, x, fvec, options);
 
-            // Set derivatives of frozen parameters to zero
+            // Set derivatives of the parameters pegged at a limit to zero
             for (uint_t p : range(n)) {
-                if (!is_nan(llim[p]) && total(fvec*fjac(p,_)) > 0.0) {
+                if (x[p] == llim[p] && total(fvec*fjac(p,_)) > 0.0) {
                     fjac(p,_) = 0.0;
                 }
-                if (!is_nan(ulim[p]) && total(fvec*fjac(p,_)) < 0.0) {
+                if (x[p] == ulim[p] && total(fvec*fjac(p,_)) < 0.0) {
                     fjac(p,_) = 0.0;
                 }
             }
@@ -670,8 +670,10 @@ namespace vif {
                     // we should take a step in the same direction but shorter distance.
                     // The step should take us right to the limit in that case.
                     if (anylim) {
-                        wa1[ilow] = max(wa1[ilow], 0.0);
-                        wa1[iup] = min(wa1[iup], 0.0);
+                        vec1u wlpeg = where(x == llim);
+                        vec1u wupeg = where(x == ulim);
+                        wa1[wlpeg] = max(wa1[wlpeg], 0.0);
+                        wa1[wupeg] = min(wa1[wupeg], 0.0);
 
                         vec1b dwa1 = abs(wa1) > eps;
                         vec1u whl = where(dwa1 && x + wa1 < llim);
-- 
2.43.0


From c748237734e8b063d0e5443f97bf1cc0cab8e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:35 +0000
Subject: [PATCH 059/123] fix: mpfit() stopped before the minimum if rounding
 errors kept a parameter from reaching its limit

---
 include/vif/math/mpfit.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index 994039d..e71cd71 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -704,9 +704,8 @@ namespace vif {
                     if (anylim) {
                         // Adjust the final output values.  If the step put us exactly
                         // on a boundary, make sure we peg it there.
-                        //                ... nonzero *LIM ...       ... zero *LIM ...
-                        vec1d ulim1 = ulim*(1.0 - sign(ulim)*eps) - (ulim == 0.0)*eps;
-                        vec1d llim1 = llim*(1.0 + sign(llim)*eps) + (llim == 0.0)*eps;
+                        vec1d ulim1 = ulim - 2.0*eps*(abs(ulim) + abs(x));
+                        vec1d llim1 = llim + 2.0*eps*(abs(llim) + abs(x));
 
                         vec1u wh = where(wa2 >= ulim1);
                         wa2[wh] = ulim[wh];
-- 
2.43.0


From 08be14a6372cd581af29a6d93f2df518f7121f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:29 +0000
Subject: [PATCH 060/123] fix: the orientation of a convex hull was wrong if
 its first three vertices are aligned

---
 include/vif/math/convex_hull.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 6851971..1fce4cb 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -51,8 +51,14 @@ namespace vif {
                 closed = (abs(x.safe[0] - x.safe[hend]) < eps &&
                      abs(y.safe[0] - y.safe[hend]) < eps);
 
-                orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
-                         (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
+                // Use the sign of the area: consecutive vertices may be aligned
+                T area = 0;
+                for (uint_t i : range(hend)) {
+                    area += (x.safe[i] - x.safe[0])*(y.safe[i+1] - y.safe[0]) -
+                            (y.safe[i] - y.safe[0])*(x.safe[i+1] - x.safe[0]);
+                }
+
+                orient = (area > 0) ? 1 : -1;
 
                 validated = true;
             }
-- 
2.43.0


From ec2cf7513e27d19e3de7f256fa99fbdb396533de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:42 +0000
Subject: [PATCH 061/123] fix: build_convex_hull() of an empty set of points
 wrote out of bounds

---
 include/vif/math/convex_hull.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 1fce4cb..39c9922 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -139,7 +139,7 @@ namespace vif {
         }
 
         uint_t t = k+1;
-        for (uint_t i = npt-2; i != npos; --i) {
+        for (uint_t i = (npt < 2 ? npos : npt-2); i != npos; --i) {
             while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i]) <= 0) --k;
             res.safe[k] = ids.safe[i];
             ++k;
-- 
2.43.0


From 3b7429d7f64169f83467bdee20a1af3a719225cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:07 +0000
Subject: [PATCH 062/123] fix: randomi() with several values never gave the
 lower bound if it is negative

---
 include/vif/math/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 340be64..e6f5caa 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -60,7 +60,7 @@ namespace vif {
         vec<meta::dim_total<Args...>::value,decltype(mi+ma)> {
         auto v = randomu(seed, std::forward<Args>(args)...);
         using rtype = decltype(mi + ma);
-        return vec<meta::dim_total<Args...>::value,rtype>(v*(ma + 1 - mi) + mi);
+        return vec<meta::dim_total<Args...>::value,rtype>(floor(v*(ma + 1 - mi)) + mi);
     }
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
-- 
2.43.0


From 36871d48e897b7c68f4f8e978514283cc08e769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:03 +0000
Subject: [PATCH 063/123] fix: parallel_for called the function with indices
 outside of the requested range, or not for all of them

---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..1d44d36 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, iend, i0, i1, di;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, ilast);
+                iend = ilast;
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From 200ea444bd5fa15e4170a07153aa48f038148e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 064/123] fix: normalize_coordinates() left declinations beyond
 +/-270 degrees out of [-90,90]

---
 include/vif/astro/astro.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6ba3596..74b2579 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -136,12 +136,8 @@ namespace astro {
     template<typename T, typename U, typename enable = typename std::enable_if<
         !meta::is_vec<T>::value && !meta::is_vec<U>::value>::type>
     void normalize_coordinates(T& ra, U& dec) {
-        while (dec > 90.0) {
-            dec = 180.0 - dec;
-            ra += 180.0;
-        }
-        while (dec < -90.0) {
-            dec = -180.0 - dec;
+        while (dec > 90.0 || dec < -90.0) {
+            dec = (dec > 90.0 ? 180.0 : -180.0) - dec;
             ra += 180.0;
         }
 
-- 
2.43.0


From 0a7dcf191d37e5e2ca3cf9cf20c4b8ca80f5edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:22 +0000
Subject: [PATCH 065/123] fix: vernal_angle() had the wrong sign for right
 ascensions between 180 and 360 degrees

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 74b2579..53d43c8 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -170,7 +170,7 @@ namespace astro {
         double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
         double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
 
-        if (ra > 180.0) e = -e;
+        if (sin(ra) < 0.0) e = -e;
 
         return e;
     }
-- 
2.43.0


From 7705e93ce2ef45921f94076ef7420f1adb681c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:30 +0000
Subject: [PATCH 066/123] fix: vernal_angle() was NaN for some positions of the
 meridian, by rounding

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 53d43c8..07ed091 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -168,7 +168,7 @@ namespace astro {
         dec *= dpi/180;
 
         double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
-        double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
+        double e = (180/dpi)*asin(clamp(sin(dec)/(2*(sqrt(p-p*p))), -1.0, 1.0));
 
         if (sin(ra) < 0.0) e = -e;
 
-- 
2.43.0


From e7c522380d02b3533512aacc95937cac99fa272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:21 +0000
Subject: [PATCH 067/123] fix: angrot_vernal() gave NaN for positions that
 rotate to a pole, by rounding

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 07ed091..b88c44b 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -199,7 +199,7 @@ namespace astro {
         auto y2 = ce*y1 - se*z1;
         auto z2 = ce*z1 + se*y1;
 
-        d2 = asin(z2);
+        d2 = asin(clamp(z2, -1.0, 1.0));
         r2 = atan2(y2, x1);
 
         // Other solutions
-- 
2.43.0


From 41668f53c6fe894f50fe71079b8dcb3e0eee3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:12 +0000
Subject: [PATCH 068/123] fix: sex2deg() ignored the sign of coordinates that
 start with -0

---
 include/vif/astro/astro.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index b88c44b..5cc8060 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1043,8 +1043,9 @@ namespace astro {
             return false;
         }
 
-        double signr = sign(rah);
-        double signd = sign(dech);
+        // Look for the sign in the string, since '-0' is a valid first field
+        double signr = (trim(starr1[0])[0] == '-' ? -1.0 : 1.0);
+        double signd = (trim(starr2[0])[0] == '-' ? -1.0 : 1.0);
 
         ra = (rah + ram*signr/60.0 + ras*signr/3600.0)*15.0;
         dec = dech + decm*signd/60.0 + decs*signd/3600.0;
-- 
2.43.0


From 5b49e6b6924073f1686c94f31f12df96f362f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:50 +0000
Subject: [PATCH 069/123] fix: deg2sex() lost the sign of coordinates between
 -1 and 0, wrote 60 seconds and exponents

---
 include/vif/astro/astro.hpp | 45 +++++++++++--------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 5cc8060..8b28004 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1073,40 +1073,21 @@ namespace astro {
 
     // Convert a set of degree coordinates into sexagesimal format ('hh:mm:ss.ms')
     inline void deg2sex(double ra, double dec, std::string& sra, std::string& sdec) {
-        double signr = sign(ra);
-        ra /= 15.0*signr;
-        int_t  rah = ra;
-        int_t  ram = (ra - rah)*60.0;
-        double ras = ((ra - rah)*60 - ram)*60;
-        rah *= signr;
-
-        double signd = sign(dec);
-        dec *= signd;
-        int_t  dech = dec;
-        int_t  decm = (dec - dech)*60.0;
-        double decs = ((dec - dech)*60 - decm)*60;
-        dech *= signd;
-
-        auto format_sec = [](double sec) {
-            std::string s = to_string(sec);
-            auto p = s.find_first_of('.');
-            if (p == s.npos) {
-                if (s.size() != 2) {
-                    return "0" + s + ".0";
-                } else {
-                    return s + ".0";
-                }
-            } else {
-                if (p != 2u) {
-                    return "0" + s;
-                } else {
-                    return s;
-                }
-            }
+        auto format_sex = [](double value) {
+            // Round first to the precision of the output, so that seconds can never reach 60
+            std::string sgn = (value < 0.0 ? "-" : "");
+            uint_t v = round(abs(value)*3600.0*1e6);
+            uint_t h = v/3600000000u;
+            uint_t m = (v/60000000u)%60u;
+            double sec = (v%60000000u)/1e6;
+
+            std::string s = to_string(format::fixed(format::precision(sec, 6)));
+            s.erase(std::max(s.find_last_not_of('0'), s.find_first_of('.')+1)+1);
+            return sgn+to_string(h)+':'+align_right(to_string(m),2,'0')+':'+(sec < 10.0 ? "0" : "")+s;
         };
 
-        sra = to_string(rah)+':'+align_right(to_string(ram),2,'0')+':'+format_sec(ras);
-        sdec = to_string(dech)+':'+align_right(to_string(decm),2,'0')+':'+format_sec(decs);
+        sra = format_sex(ra/15.0);
+        sdec = format_sex(dec);
     }
 
     template<std::size_t Dim = 1, typename TSR = double, typename TSD = double,
-- 
2.43.0


From e56e8cac4c7b1dc2e7bd9c1ded3f2d8d4d6d7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:24 +0000
Subject: [PATCH 070/123] fix: mag2lsun() could not be called (template
 argument never deduced)

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 8b28004..ad23ef1 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -468,7 +468,7 @@ namespace astro {
     // Absolute magnitude [AB] to absolute luminosity [Lsun] using rest-frame wavelength
     // 'lam' [um]
     template<typename T, typename U>
-    auto mag2lsun(const T& lam, const T& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
+    auto mag2lsun(const T& lam, const U& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
         const double Mpc = 3.0856e22; // [m/Mpc]
         const double Lsol = 3.839e26; // [W/Lsol]
         const double uJy = 1.0e32;    // [uJy/(W.m-2.Hz-1)]
-- 
2.43.0


From 28258b6cdf93892b9e56794482b24fca7956ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:51 +0000
Subject: [PATCH 071/123] fix: vectorised cosmology functions gave NaN or an
 error for many equal, or no positive redshifts

---
 include/vif/astro/astro.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index ad23ef1..be0bb5f 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -398,17 +398,23 @@ namespace astro {
                 } \
                 return r; \
             } else { \
-                auto idz = where(z > 0); \
-                auto mi = min(z[idz]); \
-                auto ma = max(z[idz]); \
-                auto tz = rgen_log(mi, ma, npt); \
                 using rtype = meta::rtype_t<Type>; \
-                vec<1,rtype> td(tz.dims); \
-                for (uint_t i : range(tz)) { \
-                    td[i] = name(tz[i], args...); \
-                } \
                 vec<Dim,rtype> r(z.dims); \
-                r[idz] = interpolate(td, tz, z[idz]); \
+                auto idz = where(z > 0); \
+                if (!idz.empty()) { \
+                    auto mi = min(z[idz]); \
+                    auto ma = max(z[idz]); \
+                    if (mi == ma) { \
+                        r[idz] = name(rtype(mi), args...); \
+                    } else { \
+                        auto tz = rgen_log(mi, ma, npt); \
+                        vec<1,rtype> td(tz.dims); \
+                        for (uint_t i : range(tz)) { \
+                            td[i] = name(tz[i], args...); \
+                        } \
+                        r[idz] = interpolate(td, tz, z[idz]); \
+                    } \
+                } \
                 idz = where(z <= 0); \
                 r[idz] = name(0.0, args...); \
                 return r; \
-- 
2.43.0


From bc8ecb3f7981a580c5088b78c304ebc07ad4f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 072/123] fix: sed2flux() gave NaN if the spectrum ends exactly
 where the filter does

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index be0bb5f..496e58f 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1298,7 +1298,7 @@ namespace astro {
         while (ifil < nfil-1 && ised < nsed-1) {
             double nlam, nval;
 
-            if (flam.safe[ifil+1] < lam.safe[ised+1]) {
+            if (flam.safe[ifil+1] <= lam.safe[ised+1]) {
                 // Next point is from filter
                 ++ifil;
                 nlam = flam.safe[ifil];
-- 
2.43.0


From 1b6813bf0fb9c509e418bb168cf361241c67db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 073/123] fix: sed2flux() read out of bounds if the spectrum
 ends where the filter starts

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 496e58f..7d43f01 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1286,7 +1286,7 @@ namespace astro {
         vif_check(!lam.empty(), "second array cannot be empty");
 
         uint_t ised = lower_bound(lam, flam.safe[0]);
-        if (ised == npos) return dnan;
+        if (ised == npos || ised == lam.size()-1) return dnan;
         uint_t ifil = 0;
 
         double plam = flam.safe[0];
-- 
2.43.0


From d94a330506b6b37ed8f5ea788f446eeeed187671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:06 +0000
Subject: [PATCH 074/123] fix: sed_luminosity() integrated beyond the requested
 wavelength region, and refused a region that ends with the spectrum

---
 include/vif/astro/astro.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 7d43f01..360ad5b 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1355,11 +1355,9 @@ namespace astro {
     // The return value is in the same units as the input SED, i.e. most likely Lsun.
     template<typename TL, typename TS>
     double sed_luminosity(const vec<1,TL>& lam, const vec<1,TS>& sed, double l0, double l1) {
-        uint_t s = lower_bound(lam, l0);
-        uint_t e = upper_bound(lam, l1);
-        if (s == npos || e == npos) return dnan;
+        if (lam.empty() || l0 < lam.front() || l1 > lam.back()) return dnan;
 
-        return integrate(lam[s-_-e], sed[s-_-e]/lam[s-_-e]);
+        return integrate(lam, sed/lam, l0, l1);
     }
 
     // Compute the LIR luminosity of a rest-frame SED (8um to 1000um).
-- 
2.43.0


From 035159d10bffadd92b4caed5965729bd47476d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 075/123] fix: translate_integer() and recenter() wrapped
 around for translations larger than the image

---
 include/vif/astro/image.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..67303fd 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -290,8 +290,9 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        // Beyond the size of the image there is nothing left to translate
+        tsx = clamp(-tsx, -int_t(v.dims[0]), int_t(v.dims[0]));
+        tsy = clamp(-tsy, -int_t(v.dims[1]), int_t(v.dims[1]));
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From 8d76e9f9eae68d963ad313f9eb19004189b9d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 076/123] fix: radial_profile() exchanged the radius and the
 position of its apertures

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 67303fd..95f9e4e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -395,8 +395,8 @@ namespace astro {
         uint_t hsy = img.dims[1]/2;
         res[0] = img(hsx,hsy);
         for (uint_t i : range(1u, npix)) {
-            vec2d mask = circular_mask(img.dims, double(hsx), double(hsy), i)*
-                (1.0 - circular_mask(img.dims, double(hsx), double(hsy), i-1));
+            vec2d mask = circular_mask(img.dims, i, hsx, hsy)*
+                (1.0 - circular_mask(img.dims, i-1, hsx, hsy));
             res.safe[i] = total(mask*img)/total(mask);
         }
 
-- 
2.43.0


From 2046fdcd6c93d5f3aee509369493ccef23524fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:00 +0000
Subject: [PATCH 077/123] fix: boxcar() read out of bounds for windows larger
 than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 95f9e4e..26de62a 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -757,9 +757,9 @@ namespace astro {
         for (uint_t x = 0; x < img.dims[0]; ++x)
         for (uint_t y = 0; y < img.dims[1]; ++y) {
             uint_t x0 = x >= hsize ? x - hsize : 0;
-            uint_t x1 = x < img.dims[0]-hsize ? x + hsize : img.dims[0]-1;
+            uint_t x1 = x + hsize < img.dims[0] ? x + hsize : img.dims[0]-1;
             uint_t y0 = y >= hsize ? y - hsize : 0;
-            uint_t y1 = y < img.dims[1]-hsize ? y + hsize : img.dims[1]-1;
+            uint_t y1 = y + hsize < img.dims[1] ? y + hsize : img.dims[1]-1;
 
             vec<1,meta::rtype_t<T>> tmp;
             tmp.reserve((x1-x0)*(y1-y0));
-- 
2.43.0


From 9207063c4c9772c6684dcca3e742b06bfad90ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 078/123] fix: convolve2d() ignored the last row and column of
 kernels with odd dimensions

---
 include/vif/astro/image.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 26de62a..c9eb9e5 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -522,13 +522,13 @@ namespace astro {
         vec2d tkernel(tmap.dims);
 
         // TODO: optimize this and catch case where kernel is larger than image
-        vec1u px1 = hsx + indgen<uint_t>(hsx);
-        vec1u py1 = hsy + indgen<uint_t>(hsy);
+        vec1u px1 = hsx + indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u py1 = hsy + indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u px2 = hsx - 1 - indgen<uint_t>(hsx);
         vec1u py2 = hsy - 1 - indgen<uint_t>(hsy);
 
-        vec1u ix1 = indgen<uint_t>(hsx);
-        vec1u iy1 = indgen<uint_t>(hsy);
+        vec1u ix1 = indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u iy1 = indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u ix2 = tmap.dims[0] - 1 - indgen<uint_t>(hsx);
         vec1u iy2 = tmap.dims[1] - 1 - indgen<uint_t>(hsy);
 
-- 
2.43.0


From 96139468e7752552eba0fefa5037dbf60426470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:07 +0000
Subject: [PATCH 079/123] fix: convolver2d padded the wrong pixels of
 non-square images, out of bounds or not at all

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c9eb9e5..5b49589 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -674,10 +674,10 @@ namespace astro {
 
                 // Pad image to prevent issues with cyclic borders
                 for (uint_t ix : range(hsx)) {
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(ix,iy) = 0;
                     }
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(tmap.dims[0]-hsx+ix,iy) = 0;
                     }
                 }
-- 
2.43.0


From 938e6cf1db6d68f20e308552d304bcd601cb3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:02 +0000
Subject: [PATCH 080/123] fix: cyclic convolver2d multiplied the image by its
 number of pixels

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 5b49589..d4ded60 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -702,6 +702,7 @@ namespace astro {
             if (cyclic) {
                 // Copy image data
                 map = std::move(tmap);
+                map /= cimg.size();
             } else {
                 // Copy image data and shrink back to original dimensions
                 for (uint_t ix : range(map.dims[0]))
-- 
2.43.0


From f057a9f9d5eb7e0d51bcdae99c2d0de1b7350915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 081/123] fix: make_transition_kernel() gave a wrong kernel, or
 an error, for non-square images

---
 include/vif/astro/image.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d4ded60..ce7437b 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -745,7 +745,11 @@ namespace astro {
 #else
         vec2cd cfrom = fft(from);
         vec2cd cto = fft(to);
-        cto(_-(cfrom.dims[1]/2),_) /= cfrom(_-(cfrom.dims[1]/2),_);
+        // Only the first values are used, see the output format of FFTW for real data
+        for (uint_t i : range(cfrom.dims[0]*(cfrom.dims[1]/2 + 1))) {
+            cto.safe[i] /= cfrom.safe[i];
+        }
+
         return shift(ifft(cto), cfrom.dims[0]/2, cfrom.dims[1]/2);
 #endif
     }
-- 
2.43.0


From 5c13d356e7e13c4f5149d0c8f2f2eed202ead4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 082/123] fix: convolve2d_naive() wrote out of bounds if the
 kernel is larger than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index ce7437b..8461771 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -444,9 +444,9 @@ namespace astro {
             if (kw == 0.0) continue;
 
             uint_t x0 = (kx >= hxsize ? 0 : hxsize-kx);
-            uint_t xn = map.dims[0] - (kx >= hxsize ? kx-hxsize : 0);
+            uint_t xn = map.dims[0] - std::min(map.dims[0], kx >= hxsize ? kx-hxsize : 0);
             uint_t y0 = (ky >= hysize ? 0 : hysize-ky);
-            uint_t yn = map.dims[1] - (ky >= hysize ? ky-hysize : 0);
+            uint_t yn = map.dims[1] - std::min(map.dims[1], ky >= hysize ? ky-hysize : 0);
 
             for (uint_t x = x0; x < xn; ++x)
             for (uint_t y = y0; y < yn; ++y) {
-- 
2.43.0


From 78a3aea594554717182030427f675cafd6e64855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:07 +0000
Subject: [PATCH 083/123] fix: segment_deblend() ignored the faintest pixel of
 the image even if it is detected

---
 include/vif/astro/image.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 8461771..40e3644 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1045,8 +1045,8 @@ namespace astro {
 
         auto explore_neighbors = [&](uint_t ty, uint_t tx) {
             auto check_add = [&](uint_t tty, uint_t ttx) {
-                if (visited.safe(tty,ttx) != ipos) {
-                    visited.safe(tty,ttx) = ipos;
+                if (visited.safe(tty,ttx) != ipos+1) {
+                    visited.safe(tty,ttx) = ipos+1;
                     ox.push_back(ttx);
                     oy.push_back(tty);
                 }
@@ -1073,14 +1073,14 @@ namespace astro {
 
         uint_t id = params.first_id;
 
-        while (img[mid] >= params.detect_threshold && ipos > 0) {
+        while (img[mid] >= params.detect_threshold) {
             // Check neighboring pixels within the deblend threshold if one of them
             // already has been segmented, and if so give this pixel to that segment
             vec1u tmid = mult_ids(img, mid);
             ox.clear(); oy.clear();
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
-            visited[mid] = ipos;
+            visited[mid] = ipos+1;
 
             uint_t neib_seg = 0;
             double closest = dinf;
@@ -1120,6 +1120,8 @@ namespace astro {
                 ++id;
             }
 
+            if (ipos == 0) break;
+
             --ipos;
             mid = sid[ipos];
         }
-- 
2.43.0


From ba065cebcdb7e4a33652f4380296231727c79e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:11 +0000
Subject: [PATCH 084/123] fix: segment_deblend() counted the peak of a segment
 twice in its area, flux and barycenter

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 40e3644..153c280 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1163,6 +1163,7 @@ namespace astro {
                 oy.clear(); ox.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 while (!ox.empty()) {
                     vec1u tox = std::move(ox), toy = std::move(oy);
@@ -1219,6 +1220,7 @@ namespace astro {
                 ox.clear(); oy.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 vec1u sids;
                 sids.reserve(out.area[s]);
-- 
2.43.0


From 7382a24482d725d826aa9158e31be744a76aded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:43 +0000
Subject: [PATCH 085/123] fix: foreach_segment() gave the first pixel of a
 segment twice

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 153c280..0ceaa9e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -868,6 +868,7 @@ namespace astro {
             vec1u tmid = mult_ids(seg, mids[s]);
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
+            visited[mids[s]] = curseg;
 
             while (!ox.empty()) {
                 vec1u tox = std::move(ox), toy = std::move(oy);
-- 
2.43.0


From 35c9ad8c8bb08bc2f8b1d79eb0ed18deb3435772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:15 +0000
Subject: [PATCH 086/123] fix: segment() counted some pixels several times in
 the area and center of segments

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 0ceaa9e..8ba6cad 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -938,6 +938,7 @@ namespace astro {
 
                 auto check_add = [&ox,&oy,&map,&out](uint_t tty, uint_t ttx) {
                     if (map.safe(tty,ttx) != 0) {
+                        map.safe(tty,ttx) = 0; // set to zero to avoid coming back to it
                         out.area.back() += 1u;
                         out.px.back() += ttx;
                         out.py.back() += tty;
-- 
2.43.0


From b28d9d4a06e77e39d6d4918fcd8812b73e586c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 087/123] fix: segment_distance() gave pixels to a segment
 while their nearest segment is another one

---
 include/vif/astro/image.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 8ba6cad..86f3012 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1364,6 +1364,9 @@ namespace astro {
                 starved = false;
 
                 auto process_point = [&state,&map,&dmap,&imap](uint_t ty, uint_t tx) {
+                    // Skip pixels that were claimed by another segment in the mean time
+                    if (map.safe(ty,tx) != state.id) return;
+
                     ++state.npix;
 
                     auto check_add = [&state,&map,&dmap,&imap,tx,ty](uint_t tty, uint_t ttx) {
-- 
2.43.0


From 6dd58e8642a2ea5e8be0306bf41d7ccbde215ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:25 +0000
Subject: [PATCH 088/123] fix: xmatch_clean_best() read out of bounds for
 sources without any match

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 88b0bca..d4b260e 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -647,7 +647,7 @@ namespace astro {
         c.lost.data.reserve(ngal/6);
 
         for (uint_t i = 0; i < ngal; ++i) {
-            if (r.rid[r.id[i]] == i) {
+            if (r.id[i] != npos && r.rid[r.id[i]] == i) {
                 c.id1.data.push_back(i);
                 c.id2.data.push_back(r.id[i]);
             } else {
-- 
2.43.0


From b90706816fc7df2abd2ad21d622a8037a701b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:33 +0000
Subject: [PATCH 089/123] fix: qxmatch() with nth>1 could return the same
 neighbour several times: buckets on the axes were visited twice

---
 include/vif/astro/qxmatch.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index d4b260e..4485f97 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -117,13 +117,17 @@ namespace impl {
 
                 // We have (+x,+y), fill the other 3 quadrants:
                 // (-x,+y), (-x,-y), (-x,+y)
-                vec1u idnew = indgen<uint_t>(depth.bx.size());
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, depth.by[idnew]);
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
-                append(depth.bx, depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
+                // being careful not to include twice the buckets on the axes
+                vec1u idx = where(depth.bx != 0);
+                vec1u idy = where(depth.by != 0);
+                vec1u idxy = where(depth.bx != 0 && depth.by != 0);
+                vec1i bx = depth.bx, by = depth.by;
+                append(depth.bx, -bx[idx]);
+                append(depth.by, by[idx]);
+                append(depth.bx, -bx[idxy]);
+                append(depth.by, -by[idxy]);
+                append(depth.bx, bx[idy]);
+                append(depth.by, -by[idy]);
             }
         };
     }
-- 
2.43.0


From 66dbd658ecb445d7ed1badca86a6a7881c8b3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 090/123] fix: qxmatch() used the bucket algorithm, which
 cannot handle degenerate fields, when there are fewer than 10 sources to
 match to (the intended switch to brute force did nothing)

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 4485f97..6ff48f4 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -228,7 +228,7 @@ namespace astro {
         if (!params.brute_force && ra2.size() < 10) {
             // The bucket algorithm was requested, but there are too few objects to
             // cross match to. The brute force algorithm is likely to be the fastest.
-            params.brute_force = false;
+            params.brute_force = true;
         }
 
         if (!params.brute_force) {
-- 
2.43.0


From 452c608150afa7681fd58f24656404c368ba3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:05 +0000
Subject: [PATCH 091/123] fix: qxmatch() in linear mode failed when all the
 sources are aligned or at the same position (null bucket size)

---
 include/vif/astro/qxmatch.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 6ff48f4..caf0dae 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -250,6 +250,12 @@ namespace astro {
             double cell_size = params.linear ? sqrt((rra2[1] - rra2[0])*(rdec2[1] - rdec2[0])) :
                 std::max(3600.0*sqrt(field_area_hull(hx, hy))/nc2, 1.0);
 
+            if (params.linear) {
+                // Avoid empty cells if all the sources are aligned or at the same position
+                cell_size = std::max(cell_size, 1e-3*std::max(rra[1] - rra[0], rdec[1] - rdec[0]));
+                if (cell_size == 0.0) cell_size = 1.0;
+            }
+
             // Be careful that RA and Dec are spherical coordinates
             double dra, ddec;
             if (params.linear) {
-- 
2.43.0


From a187e408347252a078f33842855e0052e9650ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 092/123] fix: qxmatch() could place sources outside of the
 last bucket because of round off errors

---
 include/vif/astro/qxmatch.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index caf0dae..a0ef4f9 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -272,9 +272,10 @@ namespace astro {
             rdec[0] -= ddec;
             rdec[1] += ddec;
 
-            // Final number of buckets
-            uint_t nra  = (rra[1]  - rra[0])/dra;
-            uint_t ndec = (rdec[1] - rdec[0])/ddec;
+            // Final number of buckets (rounded up, else round off errors could leave sources
+            // outside of the last bucket)
+            uint_t nra  = ceil((rra[1]  - rra[0])/dra) + 1;
+            uint_t ndec = ceil((rdec[1] - rdec[0])/ddec) + 1;
 
             // Build the buckets
             struct bucket_t {
-- 
2.43.0


From d050659ef1a4068a4982f98f33401e19906bd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:46 +0000
Subject: [PATCH 093/123] fix: qxmatch() of aligned sources created millions of
 buckets and did not end

---
 include/vif/astro/qxmatch.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index a0ef4f9..0b932c1 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -250,11 +250,12 @@ namespace astro {
             double cell_size = params.linear ? sqrt((rra2[1] - rra2[0])*(rdec2[1] - rdec2[0])) :
                 std::max(3600.0*sqrt(field_area_hull(hx, hy))/nc2, 1.0);
 
-            if (params.linear) {
-                // Avoid empty cells if all the sources are aligned or at the same position
-                cell_size = std::max(cell_size, 1e-3*std::max(rra[1] - rra[0], rdec[1] - rdec[0]));
-                if (cell_size == 0.0) cell_size = 1.0;
-            }
+            // Avoid empty cells, or an excessive number of them, if the sources are aligned,
+            // at the same position, or if the first catalog is much more extended
+            double extent = params.linear ? std::max(rra[1] - rra[0], rdec[1] - rdec[0]) :
+                3600.0*std::max((rra[1] - rra[0])*abs(cos(mean(rdec2)*dpi/180.0)), rdec[1] - rdec[0]);
+            cell_size = std::max(cell_size, 0.01*extent);
+            if (cell_size == 0.0) cell_size = 1.0;
 
             // Be careful that RA and Dec are spherical coordinates
             double dra, ddec;
-- 
2.43.0


From 4306efcf23fe7284c90b9fed0091861c29d92cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 094/123] fix: qxmatch() did not search the buckets in the
 corners of the field, and could find no match at all

---
 include/vif/astro/qxmatch.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 0b932c1..135c9b2 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -53,7 +53,7 @@ namespace impl {
             std::size_t          max_depth;
 
             depth_cache(uint_t nx, uint_t ny, double cs) : csize(cs),
-                max_depth(std::max(nx, ny)) {
+                max_depth(ceil(sqrt(sqr(double(nx)) + sqr(double(ny)))) + 1) {
 
                 visited = vec2b(nx, ny);
                 depths.reserve(20);
@@ -67,7 +67,7 @@ namespace impl {
                 visited(0,0) = true;
 
                 // Generate a few in advance
-                for (uint_t d : range(std::min(uint_t{9}, std::max(nx, ny)-1))) {
+                for (uint_t d : range(std::min(std::size_t{9}, max_depth-1))) {
                     grow();
                 }
             }
@@ -87,8 +87,7 @@ namespace impl {
             }
 
             void grow() {
-                vif_check(depths.size() < visited.dims[0] ||
-                    depths.size() < visited.dims[1], "cannot grow past the size of the "
+                vif_check(depths.size() < max_depth, "cannot grow past the size of the "
                     "bucket field (", visited.dims, "; trying to reach ", depths.size(), ")");
 
                 depths.push_back(depth_t{});
@@ -103,10 +102,7 @@ namespace impl {
                 // can be deduced by symmetry.
                 for (uint_t x : range(std::min(d+1, visited.dims[0])))
                 for (uint_t y : range(std::min(d+1, visited.dims[1]))) {
-                    double dist2 = sqr(csize)*min(vec1d{
-                        sqr(x-0.5) + sqr(y-0.5), sqr(x+0.5) + sqr(y-0.5),
-                        sqr(x+0.5) + sqr(y+0.5), sqr(x-0.5) + sqr(y+0.5)
-                    });
+                    double dist2 = sqr(csize)*(sqr(x-0.5) + sqr(y-0.5));
 
                     if (dist2 <= sqr(depth.max_dist) && !visited(x, y)) {
                         depth.bx.push_back(x);
-- 
2.43.0


From e0c093e0369d1a3f9c460956017afe4ff7b24978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 095/123] fix: qxmatch() with more threads than sources failed

---
 include/vif/astro/qxmatch.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 135c9b2..3f6d8eb 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -484,12 +484,14 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg1[t]-_-(tend1[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tend1[t] > tbeg1[t]) {
+                        auto ids = tbeg1[t]-_-(tend1[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
-                    if (!params.no_mirror) {
-                        ids = tbeg2[t]-_-(tend2[t]-1);
+                    if (!params.no_mirror && tend2[t] > tbeg2[t]) {
+                        auto ids = tbeg2[t]-_-(tend2[t]-1);
                         res.rid.safe[ids] = vres[t].rid.safe[ids];
                         res.rd.safe[ids] = vres[t].rd.safe[ids];
                     }
@@ -593,6 +595,8 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
+                    if (tend[t] == tbeg[t]) continue;
+
                     auto ids = tbeg[t]-_-(tend[t]-1);
                     res.id.safe(_,ids) = vres[t].id.safe(_,ids);
                     res.d.safe(_,ids) = vres[t].d.safe(_,ids);
-- 
2.43.0


From 0893712e3bc0fa4c31ce028d66ba6069d6be4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:55 +0000
Subject: [PATCH 096/123] fix: ad2xy() and xy2ad() truncated the second
 coordinate to the type of the first one

---
 include/vif/astro/wcs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 55290f3..1e89981 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -792,7 +792,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tra  = replicate(ra,  1);
-        vec<1,T> tdec = replicate(dec, 1);
+        vec<1,U> tdec = replicate(dec, 1);
         vec<1,V> tx;
         vec<1,W> ty;
 
@@ -812,7 +812,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tx = replicate(x, 1);
-        vec<1,T> ty = replicate(y, 1);
+        vec<1,U> ty = replicate(y, 1);
         vec<1,V> tra;
         vec<1,W> tdec;
 
-- 
2.43.0


From 76db14b76c165aa6a4c2309facc537d6a3482267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:38 +0000
Subject: [PATCH 097/123] fix: filter_wcs() duplicated the RADECSYS and SECPIX
 keywords

---
 include/vif/astro/wcs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 1e89981..753adcb 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -223,6 +223,7 @@ namespace astro {
             for (auto& wk : keywords) {
                 if (begins_with(k, wk)) {
                     nkeys.push_back(k);
+                    break;
                 }
             }
         }
-- 
2.43.0


From eed4a78148d4ae044f8e859c282a029e351ee4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:33 +0000
Subject: [PATCH 098/123] fix: astro::wcs built without header released memory
 from new with free()

---
 include/vif/astro/wcs.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 753adcb..2f5aed7 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -1,6 +1,7 @@
 #ifndef VIF_IO_ASTRO_WCS_HPP
 #define VIF_IO_ASTRO_WCS_HPP
 
+#include <cstdlib>
 #include "vif/core/error.hpp"
 #include "vif/utility/thread.hpp"
 #include "vif/io/fits.hpp"
@@ -361,7 +362,9 @@ namespace astro {
         uint_t ra_axis = 1, dec_axis = 0;
         uint_t x_axis = 1, y_axis = 0;
 
-        explicit wcs(uint_t naxis = 2) : w(new wcsprm), nwcs(1) {
+        explicit wcs(uint_t naxis = 2) :
+            w(static_cast<wcsprm*>(std::calloc(1, sizeof(wcsprm)))), nwcs(1) {
+            // NB: memory must come from calloc() since it is freed by WCSlib in wcsvfree()
             w->flag = -1;
             wcsini(true, naxis, w);
 
-- 
2.43.0


From fe8061266892b022d7ab306f36a454902699cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:13 +0000
Subject: [PATCH 099/123] fix: regrid_drizzle() with linearize scaled the
 fluxes by pixfrac squared and ignored pixfrac in the weights

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 86f3012..14eb713 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -2095,7 +2095,7 @@ namespace astro {
             s2d_wcs(csx, csy+1.0, cdx2, cdy2);
 
             cdx1 -= cdx; cdy1 -= cdy; cdx2 -= cdx; cdy2 -= cdy;
-            pixel_area = sqrt(sqr(cdx1) + sqr(cdy1))*sqrt(sqr(cdx2) + sqr(cdy2));
+            pixel_area = sqr(opts.pixfrac)*sqrt(sqr(cdx1) + sqr(cdy1))*sqrt(sqr(cdx2) + sqr(cdy2));
 
             if (abs(cdx-round(cdx)) < 1e-6 && abs(cdy-round(cdy)) < 1e-6 &&
                 abs(cdx1 - 1.0) < 1e-6 && abs(cdy2 - 1.0) < 1e-6 &&
@@ -2114,7 +2114,7 @@ namespace astro {
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-                wei[idd] = 1.0;
+                wei[idd] = sqr(opts.pixfrac);
 
                 return res;
             }
-- 
2.43.0


From b1ac99e730ea7d6e22d14c3b26d3b6f3c4082c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:19 +0000
Subject: [PATCH 100/123] fix: regrid_drizzle() gave the full weight and flux
 of a pixel crossing the border of the destination image to the pixels of the
 border

---
 include/vif/astro/image.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 14eb713..29c8133 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1739,7 +1739,17 @@ namespace impl {
 
             uint_t ymax = tymax, xmax = txmax;
 
-            if (xmax == xmin && ymax == ymin) {
+            // NB: the bounds are limited to the destination image, so also check that the
+            // projection does not extend outside of the image
+            bool contained = xmax == xmin && ymax == ymin;
+            for (uint_t i : range(xps)) {
+                if (xps.safe[i] < xmin-0.5 || xps.safe[i] > xmin+0.5 ||
+                    yps.safe[i] < ymin-0.5 || yps.safe[i] > ymin+0.5) {
+                    contained = false;
+                }
+            }
+
+            if (contained) {
                 // Original pixel is fully contained within destination pixel
                 add_flux(imgs, ix, iy, flux_frac, res, xmin, ymin);
                 wei.safe(ymin,xmin) += pixel_area;
-- 
2.43.0


From e8cf1abc828add0d04b97aa1f6d2a75ba38e1001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:41 +0000
Subject: [PATCH 101/123] fix: regrid_interpolate() with the nearest method
 ignored the first row and column of the image

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 29c8133..0187408 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1830,7 +1830,7 @@ namespace impl {
         template<typename T, typename U>
         bool regrid_nearest(const vec<2,T>& imgs, double xps, double yps, U& flx) {
             int_t mx = round(xps), my = round(yps);
-            if (mx > 0 && uint_t(mx) < imgs.dims[1] && my > 0 && uint_t(my) < imgs.dims[0]) {
+            if (mx >= 0 && uint_t(mx) < imgs.dims[1] && my >= 0 && uint_t(my) < imgs.dims[0]) {
                 flx = imgs.safe(uint_t(my), uint_t(mx));
                 return true;
             } else {
-- 
2.43.0


From 7c04d05cdce18a613159e0fb76b944eaa8136f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:57 +0000
Subject: [PATCH 102/123] fix: regrid_interpolate() with linearize took the
 wrong pixels for integer translations

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 0187408..d53f95e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1949,7 +1949,7 @@ namespace astro {
                 int_t wy2 = ny-1 - wy1;
 
                 vec1u ids, idd;
-                subregion(res, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, idd, ids);
+                subregion(imgs, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, ids, idd);
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-- 
2.43.0


From ff8252b71191b9c4902f1cfbb8fb9aab8e2f5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 103/123] fix: regrid_interpolate() took the size of the result
 from the wrong axes when the destination WCS has more axes than the source

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d53f95e..4e6b5b0 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1905,8 +1905,8 @@ namespace astro {
 
         res = replicate(dnan, astrod.dims[astrod.y_axis], astrod.dims[astrod.x_axis]);
 
-        uint_t nx = astrod.dims[astros.x_axis];
-        uint_t ny = astrod.dims[astros.y_axis];
+        uint_t nx = astrod.dims[astrod.x_axis];
+        uint_t ny = astrod.dims[astrod.y_axis];
 
         // Precompute the projection of the new pixel grid on the old
         // Note: for the horizontal pixel 'i' of line 'j' (x_i,y_j), the grid is:
-- 
2.43.0


From 81f1b43f48d635ccfbe992eac471594042125bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:16 +0000
Subject: [PATCH 104/123] fix: get_cutout() wrote null dimensions in the header
 of cutouts outside of the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 4e6b5b0..b8a644d 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1563,8 +1563,8 @@ namespace astro {
                 }
 
                 // Set cutout WCS
-                if (!fits::setkey(hdr, "NAXIS1", cut.dims[1]) ||
-                    !fits::setkey(hdr, "NAXIS2", cut.dims[0]) ||
+                if (!fits::setkey(hdr, "NAXIS1", 2*hs+1) ||
+                    !fits::setkey(hdr, "NAXIS2", 2*hs+1) ||
                     !fits::setkey(hdr, "CRPIX1", px) || !fits::setkey(hdr, "CRPIX2", py) ||
                     !fits::setkey(hdr, "CRVAL1", ra) || !fits::setkey(hdr, "CRVAL2", dec)) {
                     return false;
-- 
2.43.0


From 4784528b380e35265b0749838ea4a7e79abcc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:21 +0000
Subject: [PATCH 105/123] fix: qstack() dropped sources whose cutout touches
 the last row or column of the image

---
 include/vif/astro/qstack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 4f6ab3f..75d671c 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -142,13 +142,13 @@ namespace astro {
                 long p1[2] = {long(round(img.x[i]+hsize)), long(round(img.y[i]+hsize))};
 
                 // Discard any source that falls out of the boundaries of the image
-                if (p1[0] < 1 || p0[0] >= img.width || p1[1] < 1 || p0[1] >= img.height) {
+                if (p1[0] < 1 || p0[0] > img.width || p1[1] < 1 || p0[1] > img.height) {
                     continue;
                 }
 
                 vec<2,Type> cut(2*hsize+1, 2*hsize+1);
 
-                if (p0[0] < 1 || p1[0] >= img.width || p0[1] < 1 || p1[1] >= img.height) {
+                if (p0[0] < 1 || p1[0] > img.width || p0[1] < 1 || p1[1] > img.height) {
                     // The source is overlapping with the edges of the map
                     // Extract what we can
                     cut[_] = fnan;
@@ -314,7 +314,7 @@ namespace astro {
             long p1[2] = {long(round(x[i]+hsize)), long(round(y[i]+hsize))};
 
             // Discard any source that falls out of the boundaries of the image
-            if (p0[0] < 1 || p1[0] >= width || p0[1] < 1 || p1[1] >= height) {
+            if (p0[0] < 1 || p1[0] > width || p0[1] < 1 || p1[1] > height) {
                 continue;
             }
 
-- 
2.43.0


From 55d36fde7ca5f913592c73f1cfd93afd93f646b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 106/123] fix: qstack() with weights did not return the offsets
 and sections for sectioned images

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 75d671c..0b2e48b 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -231,7 +231,7 @@ namespace astro {
 
         if (ends_with(ffile, ".sectfits") || ends_with(wfile, ".sectfits")) {
             uint_t norig = ids.size();
-            qstack(ra, dec, ffile, hsize, cube, ids, params);
+            out = qstack(ra, dec, ffile, hsize, cube, ids, params);
             uint_t nsci = ids.size() - norig;
 
             vec1u tids; // trash weight IDs: they are already collected in 'ids'
-- 
2.43.0


From 3036b21bc940a3ea60c507cd3ebc17e879015244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:03 +0000
Subject: [PATCH 107/123] fix: srcsub() could not be compiled

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 360ad5b..265bb5b 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -273,7 +273,7 @@ namespace astro {
     void srcsub(vec<2,TypeM>& img, const vec<2,TypeP>& psf, double flux, const vec1i& pos) {
         int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
 
-        vec1i rr, rs;
+        vec1u rr, rs;
         subregion(img, {pos(0)-hx, pos(1)-hy, pos(0)+hx, pos(1)+hy}, rr, rs);
         img[rr] -= flux*psf[rs];
     }
-- 
2.43.0


From 6b0ef58471791dfa4ca60c4fdcbfc6b462228f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:46 +0000
Subject: [PATCH 108/123] fix: randpos_uniform_box() without region could not
 be called

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 265bb5b..24366ea 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -742,7 +742,7 @@ namespace astro {
         return true;
     }
 
-    template<typename TX, typename TY, typename TSeed, typename F>
+    template<typename TX, typename TY, typename TSeed>
     void randpos_uniform_box(TSeed& seed, uint_t nsrc, vec1d rx, vec1d ry,
         vec<1,TX>& x, vec<1,TY>& y) {
 
-- 
2.43.0


From a1cefb11ed47b813ea421a7992a6fdbc26219669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:38 +0000
Subject: [PATCH 109/123] fix: psffit() and srcsub() failed with non square
 PSFs

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 24366ea..e769417 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -232,7 +232,7 @@ namespace astro {
         using err_type = typename vec<2,TypeE>::effective_type;
         static const auto max_error = std::numeric_limits<meta::rtype_t<TypeE>>::max();
 
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
         err_type err = terr;
         if (err.dims[0] == 1 && err.dims[1] == 1) {
@@ -271,7 +271,7 @@ namespace astro {
 
     template<typename TypeM, typename TypeP = TypeM>
     void srcsub(vec<2,TypeM>& img, const vec<2,TypeP>& psf, double flux, const vec1i& pos) {
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
         vec1u rr, rs;
         subregion(img, {pos(0)-hx, pos(1)-hy, pos(0)+hx, pos(1)+hy}, rr, rs);
-- 
2.43.0


From 3c47f882e925949d70bca732aa87a5e522f7f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:14 +0000
Subject: [PATCH 110/123] fix: field_area_hull() was NaN when a hull vertex
 lies on the line between two others

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index e769417..06f4b7c 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -538,7 +538,7 @@ namespace astro {
             double e2 = angdistr(hx.safe[i-1], hy.safe[i-1], hx.safe[i],   hy.safe[i]);
             double e3 = angdistr(hx.safe[i],   hy.safe[i],   hx.safe[0],   hy.safe[0]);
             double p = 0.5*(e1 + e2 + e3);
-            area += sqrt(p*(p-e1)*(p-e2)*(p-e3));
+            area += sqrt(max(0.0, p*(p-e1)*(p-e2)*(p-e3)));
         }
 
         area /= sqr(d2r);
-- 
2.43.0


From 47c74682ac38431444e18f81bd3ac70895223ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:06 +0000
Subject: [PATCH 111/123] fix: the columns of ASCII tables were all reported as
 strings

---
 include/vif/io/fits/table.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 87b5ec3..1f4d7f3 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -166,6 +166,23 @@ namespace fits {
             fits_read_tdim(fptr_, c, max_dim, &naxis, axes, &status_);
             fits::vif_check_cfitsio(status_, "could not read parameters of column '"+std::string(name)+"'");
 
+            // Support ASCII tables (for which fits_get_bcolparms() does not give the type)
+            std::string extension;
+            if (read_keyword("XTENSION", extension) && extension == "TABLE") {
+                int tcode = 0;
+                long width = 0;
+                fits_get_coltype(fptr_, c, &tcode, nullptr, &width, &status_);
+                fits::vif_check_cfitsio(status_, "could not read type of column '"+std::string(name)+"'");
+
+                switch (tcode) {
+                case TSHORT :  type = 'I'; break;
+                case TLONG :   type = 'J'; break;
+                case TFLOAT :  type = 'E'; break;
+                case TDOUBLE : type = 'D'; break;
+                default :      type = 'A'; axes[0] = width; break;
+                }
+            }
+
             if (!read_keyword("TTYPE"+to_string(c), ci.name)) {
                 return false;
             }
-- 
2.43.0


From fc38f1548cfd1b5386597a57f49e9970a68be180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:05 +0000
Subject: [PATCH 112/123] fix: read_columns_info() failed on byte columns with
 values above 127

---
 include/vif/io/fits/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 1f4d7f3..d772d7b 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -196,10 +196,10 @@ namespace fits {
                 break;
             }
             case 'B' : {
-                vec<1,char> v(repeat);
-                char def = impl::fits_impl::traits<char>::def();
+                vec<1,unsigned char> v(repeat);
+                unsigned char def = 0;
                 int null;
-                fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
+                fits_read_col(fptr_, TBYTE, c, 1, 1, repeat,
                     &def, v.raw_data(), &null, &status_);
                 fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
 
-- 
2.43.0


From 3b5c8c2482bd4d4bc7a32976f144520bd3f692f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:37 +0000
Subject: [PATCH 113/123] fix: set_format() failed when the current HDU is
 empty (row oriented tables only in the first extension)

---
 include/vif/io/fits/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index d772d7b..9109396 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1053,7 +1053,7 @@ namespace fits {
                 // File is already open.
                 // Check if data already exists, in which case we cannot change format
                 uint_t nhdu = hdu_count();
-                if (nhdu != 0) {
+                if (nhdu != 0 && hdu_type() == fits::table_hdu) {
                     int ncols = 0;
                     fits_get_num_cols(fptr_, &ncols, &status_);
                     fits::vif_check_cfitsio(status_, "could not get number of columns in HDU");
-- 
2.43.0


From 33a481e86bd2a4d33360f26194d665bad38b014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:24 +0000
Subject: [PATCH 114/123] fix: progress_tick() failed at the last iteration

---
 include/vif/utility/time.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index 6501886..6c0c30e 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -167,7 +167,7 @@ namespace vif {
     void progress_tick(progress_t& p, double ticklen) {
         if (p.ended) return;
 
-        if (p.i < 10 || p.i - p.last_tick >= p.ips*ticklen) {
+        if (p.i < 10 || p.i - p.last_tick >= p.ips*ticklen || p.i + 1 >= p.n) {
             p.last_tick = p.i;
             impl::progress_(p);
         }
@@ -175,7 +175,6 @@ namespace vif {
         ++p.i;
 
         if (p.i >= p.n) {
-            impl::progress_(p);
             std::cout << std::endl;
             p.ended = true;
         }
-- 
2.43.0


From 9201f0553eb7437e7bbd9a874ed004115966cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:27 +0000
Subject: [PATCH 115/123] fix: regions written in physical coordinates were
 shifted by one pixel when read back

---
 include/vif/astro/ds9.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 7b46bf1..e7027cc 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -308,11 +308,15 @@ namespace ds9 {
     inline void write_region(std::ofstream& out, const std::string& ss,
         const vif::astro::ds9::region& r) {
 
+        // Add 1 to physical X and Y to go from C++ convention to FITS convention
+        double x0 = r.params[0] + (r.physical ? 1.0 : 0.0);
+        double y0 = r.params[1] + (r.physical ? 1.0 : 0.0);
+
         if (r.type == "circle") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << x0 << ", " << y0 << ", " <<
                 r.params[2] << ss << ")\n";
         } else if (r.type == "box") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << x0 << ", " << y0 << ", " <<
                 r.params[2] << ss << ", " <<
                 r.params[3] << ss << ", " << r.params[4] << ")\n";
         } else {
-- 
2.43.0


From 2b71834591f8aa8f2dc4beab622f3dbe90cd0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 116/123] fix: combinations of templates were skipped after one
 that is excluded or singular, fits with limits scaled their fluxes by the
 errors and their simulations overwrote the fluxes, and several redshifts did
 not compile

---
 include/vif/astro/template_fit.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 312e74f..b402cfd 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -47,9 +47,12 @@ namespace astro {
         // Combine the SEDs of each source to build an effective "redshift convolved" SED in the
         // observed frame
         for (uint_t i = 0; i < z.size(); ++i) {
-            auto tlam = lib.lam*(1.0 + z[i]);
-            auto tsed = lsun2uJy(z[i], d[i], lib.lam, lib.sed);
-            tlib.sed += interpolate(tsed, tlam, tlib.lam);
+            vec2d tlam = lib.lam*(1.0 + z[i]);
+            vec2d tsed = lsun2uJy(z[i], d[i], lib.lam, lib.sed);
+            for (uint_t s = 0; s < tsed.dims[0]; ++s) {
+                tlib.sed(s,_) += interpolate(tsed(s,_).concretise(), tlam(s,_).concretise(),
+                    tlib.lam(s,_).concretise());
+            }
         }
 
         tlib.sed /= z.size();
@@ -404,7 +407,10 @@ namespace astro {
 
             vec1u ilib = replicate(0, nlib);
             for (uint_t i : range(nseds)) {
-                if (!constraints(ilib)) continue;
+                if (!constraints(ilib)) {
+                    increment_index_list(ilib, nsed);
+                    continue;
+                }
 
                 vec2f tpls(nlib, nfilter);
                 for (uint_t l : range(nlib)) {
@@ -431,7 +437,7 @@ namespace astro {
 
                 for (uint_t s : range(params.nsim)) {
                     fres = mpfit([&](const vec1d& p) {
-                        auto deviate = rflux(s,_);
+                        vec1d deviate = rflux(s,_);
                         for (uint_t l : range(nlib)) {
                             deviate -= p[l]*tpls(l,_);
                         }
@@ -480,6 +486,7 @@ namespace astro {
                     }
 
                     if (!inplace_invert_symmetric(alpha)) {
+                        increment_index_list(ilib, nsed);
                         continue;
                     }
 
@@ -532,7 +539,11 @@ namespace astro {
         res.flux.resize(nlib, nfilter);
         if (is_finite(res.chi2)) {
             for (uint_t l : range(nlib)) {
-                res.flux(l,_) = res.amp[l]*convflux[l](res.bfit[l],_)*err;
+                res.flux(l,_) = res.amp[l]*convflux[l](res.bfit[l],_);
+                if (!params.ulim) {
+                    // Templates were divided by the errors
+                    res.flux(l,_) *= err;
+                }
             }
         } else {
             res.bfit = replicate(npos, nlib);
-- 
2.43.0


From 78c1305336af03af32a5edeb185f7415a4c5fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:40 +0000
Subject: [PATCH 117/123] fix: fitstool editkwd refused quoted values and wrote
 numbers larger than an int as garbage

---
 tools/fitstool/fitstool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index 99502e0..96a0290 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -646,7 +646,7 @@ bool write_keyword_value(fitsfile* fptr, bool newk, std::string name, std::strin
             for (uint_t i = new_value.size()-1; i != npos; --i) {
                 if (new_value[i] == '\'') {
                     new_value.resize(i);
-                    return false;
+                    break;
                 }
             }
         }
@@ -661,7 +661,8 @@ bool write_keyword_value(fitsfile* fptr, bool newk, std::string name, std::strin
             fits::vif_check_cfitsio(status, "cannot update keyword '"+name+"'");
         }
     } else {
-        if (ends_with(new_value, ".") || find(new_value, ".") == npos) {
+        if ((ends_with(new_value, ".") || find(new_value, ".") == npos) &&
+            abs(d) <= std::numeric_limits<int>::max()) {
             int di = d;
             if (newk) {
                 fits_write_key(fptr, TINT, const_cast<char*>(name.c_str()), &di, comment,
-- 
2.43.0


From eefcde6631f7f563b8d24a9f9173075488326db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:45 +0000
Subject: [PATCH 118/123] fix: fitstool transpose rounded 64 bit integers to
 doubles

---
 tools/fitstool/fitstool.cpp | 38 ++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index 96a0290..909bc0a 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -230,6 +230,7 @@ bool transpose_columns(int argc, char* argv[], const std::string& file) {
 
         for (auto& col : fcols) {
             vec2d v;
+            vec<2,long long> vl; // 64 bit integers do not fit in a double
 
             int id;
             fits_get_colnum(fptr, CASESEN, const_cast<char*>(col.c_str()), &id, &status);
@@ -254,19 +255,30 @@ bool transpose_columns(int argc, char* argv[], const std::string& file) {
             v.dims[0] = naxes[1];
             v.dims[1] = naxes[0];
 
-            v.resize();
-
             double def = dnan;
             int null;
-            fits_read_col(
-                fptr, impl::fits_impl::traits<double>::ttype, id, 1, 1, repeat, &def, v.data.data(),
-                &null, &status
-            );
+            if (type == TLONGLONG) {
+                vl.dims = v.dims;
+                vl.resize();
+                fits_read_col(
+                    fptr, TLONGLONG, id, 1, 1, repeat, nullptr, vl.data.data(), &null, &status
+                );
+            } else {
+                v.resize();
+                fits_read_col(
+                    fptr, impl::fits_impl::traits<double>::ttype, id, 1, 1, repeat, &def,
+                    v.data.data(), &null, &status
+                );
+            }
 
             fits_delete_col(fptr, id, &status);
             fits::vif_check_cfitsio(status, "cannot temporarily delete column '"+col+"'");
 
-            v = transpose(v);
+            if (type == TLONGLONG) {
+                vl = transpose(vl);
+            } else {
+                v = transpose(v);
+            }
 
             fits_insert_col(fptr, id, const_cast<char*>(col.c_str()), otform, &status);
             fits::vif_check_cfitsio(status, "cannot re-insert column '"+col+"'");
@@ -275,10 +287,14 @@ bool transpose_columns(int argc, char* argv[], const std::string& file) {
             fits_write_tdim(fptr, id, 2, naxes.data(), &status);
             fits::vif_check_cfitsio(status, "cannot re-write TDIM for column '"+col+"'");
 
-            fits_write_col(
-                fptr, impl::fits_impl::traits<double>::ttype, id, 1, 1, v.size(),
-                const_cast<vec2d::dtype*>(v.data.data()), &status
-            );
+            if (type == TLONGLONG) {
+                fits_write_col(fptr, TLONGLONG, id, 1, 1, vl.size(), vl.data.data(), &status);
+            } else {
+                fits_write_col(
+                    fptr, impl::fits_impl::traits<double>::ttype, id, 1, 1, v.size(),
+                    const_cast<vec2d::dtype*>(v.data.data()), &status
+                );
+            }
             fits::vif_check_cfitsio(status, "cannot write transposed data for column '"+col+"'");
         }
 
-- 
2.43.0


From 5e1d8209f3c742c16adbd5294e1420772abd1c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 119/123] fix: qmask shifted circles in physical coordinates by
 one pixel, and failed on a region file without circle

---
 tools/qmask/qmask.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/qmask/qmask.cpp b/tools/qmask/qmask.cpp
index 19c2d5e..0629220 100644
--- a/tools/qmask/qmask.cpp
+++ b/tools/qmask/qmask.cpp
@@ -104,7 +104,14 @@ bool read_ds9_region_circles_physical(std::string file_name,
     bool physical = false;
     if (!read_ds9_region_circles(file_name, regs, physical, color)) return false;
 
-    if (physical) return true;
+    if (regs.empty()) return true;
+
+    if (physical) {
+        // The first pixel is (1,1) in a region file
+        regs(_,0) -= 1;
+        regs(_,1) -= 1;
+        return true;
+    }
 
     astro::wcs w(fits::read_header(img_name));
     if (!w.is_valid()) {
-- 
2.43.0


From fec54f7665851bbbbd0ae6f94930c7755aef1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:52 +0000
Subject: [PATCH 120/123] fix: qregrid swapped the axes when looking for the
 center of an image that is not square

---
 tools/qregrid/qregrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/qregrid/qregrid.cpp b/tools/qregrid/qregrid.cpp
index 796a883..90f566a 100644
--- a/tools/qregrid/qregrid.cpp
+++ b/tools/qregrid/qregrid.cpp
@@ -140,7 +140,7 @@ int vif_main(int argc, char* argv[]) {
             params.pixel_scale = aspix;
             params.dims_x = dims[1];
             params.dims_y = dims[0];
-            astro::xy2ad(astros, imgs.dims[0]/2 + 1, imgs.dims[1]/2 + 1, params.sky_ref_ra, params.sky_ref_dec);
+            astro::xy2ad(astros, imgs.dims[1]/2 + 1, imgs.dims[0]/2 + 1, params.sky_ref_ra, params.sky_ref_dec);
             params.pixel_ref_x = dims[1]/2 + 1;
             params.pixel_ref_y = dims[0]/2 + 1;
 
-- 
2.43.0


From d99db8dfefb4e91f4ca4129005ea6eccea79a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:57 +0000
Subject: [PATCH 121/123] fix: qconvol used a wrong conversion from half width
 to sigma (1.117 instead of 1.177)

---
 tools/qconvol/qconvol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/qconvol/qconvol.cpp b/tools/qconvol/qconvol.cpp
index 03e22e3..a451c6f 100644
--- a/tools/qconvol/qconvol.cpp
+++ b/tools/qconvol/qconvol.cpp
@@ -76,7 +76,7 @@ int vif_main(int argc, char* argv[]) {
             radius /= aspix;
         }
 
-        radius /= 1.117;
+        radius /= 1.17741;
         uint_t nk = ceil(30*radius);
         if (nk % 2 == 0) ++nk;
 
-- 
2.43.0


From 7a7fd174f062ac6d60d7918aa67db09d876e56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 122/123] fix: fits2ascii wrote byte columns as raw characters
 and left split columns without a name

---
 tools/fits2ascii/fits2ascii.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/fits2ascii/fits2ascii.cpp b/tools/fits2ascii/fits2ascii.cpp
index 8af8266..1e8f470 100644
--- a/tools/fits2ascii/fits2ascii.cpp
+++ b/tools/fits2ascii/fits2ascii.cpp
@@ -128,7 +128,7 @@ do_next read_column(const std::string& in_file, const fits::column_info& cinfo,
         break;
     }
     case fits::column_info::byte : {
-        auto next = read_column<Dim,char>(in_file, cinfo.name, v, nrow, ids);
+        auto next = read_column<Dim,int_t>(in_file, cinfo.name, v, nrow, ids);
         if (next != do_next::run) return next;
         vtype = "byte";
         break;
@@ -221,8 +221,6 @@ int vif_main(int argc, char* argv[]) {
         uint_t ncols2 = iterc->dims[1];
         split_names[i].resize(ncols2);
 
-        if (ss.size() == 1) continue;
-
         for (uint_t j : range(1, ss.size())) {
             if (begins_with(ss[j], "[")) {
                 vec1s st = split(erase_end(erase_begin(ss[j], "["), "]"), ",");
@@ -262,7 +260,7 @@ int vif_main(int argc, char* argv[]) {
         }
 
         vec1u ide = where(empty(split_names[i]));
-        split_names[i][ide] = split_cols[i] + '_' + to_string(ide);
+        split_names[i][ide] = split_cols[i] + '_' + to_string_vector(ide);
     }
 
     vec1u id_sel;
-- 
2.43.0


From cd9b39292675269dcd4053a5f75935075a927243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 123/123] fix: qstack2 moved the cutouts in the wrong direction
 when asked for subpixel centering

---
 tools/qstack2/qstack2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/qstack2/qstack2.cpp b/tools/qstack2/qstack2.cpp
index 1a90e3a..7a8926e 100644
--- a/tools/qstack2/qstack2.cpp
+++ b/tools/qstack2/qstack2.cpp
@@ -228,7 +228,7 @@ int vif_main(int argc, char* argv[]) {
 
     auto do_subpixel = [&cube](const vec1d& dx, const vec1d& dy) {
         for (uint_t i : range(dx)) {
-            cube(i,_,_) = translate(cube(i,_,_), dy[i], dx[i]);
+            cube(i,_,_) = translate(cube(i,_,_), -dy[i], -dx[i]);
         }
     };
 
-- 
2.43.0


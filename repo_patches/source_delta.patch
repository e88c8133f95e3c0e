From e9ad09705df5c112ffd749b8208701b04aadcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 01/25] fix: soa_grid::swap() must exchange all dimensions and
 extents

---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From b85080aba21f57b3011800a75f77fa3b128f2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 02/25] fix: keep soa_grid consistent when copied, emptied or
 when resizing fails

The copy constructor left the extents uninitialized, default
constructed grids had indeterminate extents and could neither be copied
nor assigned, and resize() released the storage before it knew whether
the new size is supported (or can be allocated), so that the destructor
would run on a dangling pointer.
---
 include/libflatarray/soa_grid.hpp | 72 +++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..94ab535 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,20 +88,33 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
     }
 
     soa_grid(const soa_grid& other) :
-        my_dim_x(other.my_dim_x),
-        my_dim_y(other.my_dim_y),
-        my_dim_z(other.my_dim_z),
-        my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_dim_x(0),
+        my_dim_y(0),
+        my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
+        my_data(0)
     {
-        init();
-        copy_in(other);
+        resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
+
+        try {
+            copy_in(other);
+        } catch (...) {
+            destroy_and_deallocate();
+            throw;
+        }
     }
 
     ~soa_grid()
@@ -142,18 +155,36 @@ public:
             return;
         }
 
+        std::size_t new_byte_size = 0;
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+
+        if ((new_dim_x != 0) || (new_dim_y != 0) || (new_dim_z != 0)) {
+            // size selection rounds up our grid size. It will throw if
+            // the size is unsupported, so we can't modify *this yet:
+            detail::flat_array::set_byte_size_functor<value_type> functor(
+                &new_byte_size,
+                &new_extent_x,
+                &new_extent_y,
+                &new_extent_z);
+            api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
+        }
+
         destroy_and_deallocate();
 
+        if (new_byte_size == 0) {
+            return;
+        }
+
+        my_data = ALLOCATOR().allocate(new_byte_size);
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
         init();
     }
 
@@ -463,10 +494,23 @@ private:
 
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
+
+        my_data = 0;
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
     }
 
     void copy_in(const soa_grid& other)
     {
+        if (other.my_data == 0) {
+            return;
+        }
+
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-- 
2.43.0


From 423d263b7c27c15d7adabb1a31d5f82da962fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:18 +0000
Subject: [PATCH 03/25] fix: soa_array must refuse initial contents which
 exceed its capacity

The fill constructor wrote beyond the end of the array, and the
converting constructors leaked the already constructed members when
they threw.
---
 include/libflatarray/soa_array.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..4788e7d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,7 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+        check_capacity(elements);
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
@@ -73,6 +74,7 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        check_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -83,6 +85,7 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        check_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -280,15 +283,23 @@ private:
         }
     }
 
-    template<int OTHER_SIZE>
     inline
     __host__ __device__
-    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    static void check_capacity(std::size_t num)
     {
-        if (other.size() > SIZE) {
+#ifndef __CUDA_ARCH__
+        if (num > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+#endif
+    }
 
+    template<int OTHER_SIZE>
+    inline
+    __host__ __device__
+    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    {
+        check_capacity(other.size());
         at(0).copy_members(other[0], other.size());
         elements = other.size();
     }
-- 
2.43.0


From 33386b35cc15477faf2aac068bf351b11a059948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:18 +0000
Subject: [PATCH 04/25] fix: soa_array must not copy or swap non-trivial
 members bytewise

Copies from const or temporary arrays of the same size used the
implicit (bitwise) copy constructor/assignment, and swap() exchanged
raw bytes. Both corrupt members which own resources or refer to
themselves.
---
 include/libflatarray/soa_array.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 4788e7d..4815531 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -79,6 +79,13 @@ public:
         copy_in(other);
     }
 
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
 
     template<int OTHER_SIZE>
     inline
@@ -100,6 +107,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -313,9 +328,10 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
-    using std::swap;
-    swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
+    // members may be arbitrary C++ objects, so we can't just swap bytes:
+    soa_array<value_type, size> tmp(a);
+    a = b;
+    b = tmp;
 }
 
 }
-- 
2.43.0


From 864c4a9a734d49dcb4ce5b7ba3ded84ce55851c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:18 +0000
Subject: [PATCH 05/25] fix: soa_vector must not drop elements or use
 unconstructed ones

reserve() with less than the current size discarded elements, and
push_back() wrote to slots beyond the grid's dimension whose members
had never been constructed.
---
 include/libflatarray/soa_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..cb5efc4 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -112,6 +112,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
@@ -142,9 +146,10 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
+        if (count == capacity()) {
             // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+            using std::max;
+            reserve(max(count + 1, static_cast<std::size_t>(count * 1.2)));
         }
         set(count, element);
         ++count;
-- 
2.43.0


From 66ca9a806fc8254bc67432842987037071a7a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:18 +0000
Subject: [PATCH 06/25] fix: loop_peeler must not overrun the end of short,
 unaligned ranges

---
 include/libflatarray/loop_peeler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..4791299 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,9 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = (END_X);                                        \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +112,9 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From 5ec5d943f12e584059acc9b9224645863f905e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 07/25] fix: int short_vec operator/= must truncate like
 operator/ does

---
 .../detail/short_vec_avx512_int_16.hpp           |  2 +-
 .../detail/short_vec_avx512_int_32.hpp           |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_16.hpp |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_32.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_avx_int_8.hpp  |  2 +-
 .../libflatarray/detail/short_vec_sse_int_16.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_sse_int_32.hpp | 16 ++++++++--------
 .../libflatarray/detail/short_vec_sse_int_4.hpp  |  2 +-
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..abee972 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,7 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
+        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
                                                 _mm512_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..7f48fec 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,9 +138,9 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
                                                 _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
                                                 _mm512_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..90f3b28 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,9 +140,9 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..5213944 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,13 +158,13 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
                                                 _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
                                                 _mm256_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..b801ee5 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,7 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
+        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
                                                 _mm256_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..29139e8 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,13 +236,13 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..cdf2c56 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,21 +336,21 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
+        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
                                           _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
+        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
                                           _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
+        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
                                           _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
+        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
                                           _mm_cvtepi32_ps(other.val[ 7])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..879818b 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,7 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
+        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
                                           _mm_cvtepi32_ps(other.val)));
     }
 
-- 
2.43.0


From ae1477d14c1e87511bbdb7b255482019f0d14ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 08/25] fix: sign-extend offsets when gathering with SSE4.1/AVX

The inline assembly uses 64-bit index registers, but was handed 32-bit
operands, so negative offsets addressed memory 16 GB off.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..34a1186 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -93,7 +93,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +112,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From 9203c89f6d718a28f1a1a2ed3f3b16426abeaffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 09/25] fix: aligned_allocator must not return too small blocks
 on size overflow

---
 include/libflatarray/aligned_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..c0d6bdf 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -69,6 +70,10 @@ public:
         // desired offset. Since we need the original address for the
         // deallocation, we store it directly in front of the aligned
         // array's start. Ugly, but it works.
+        if (n > (static_cast<std::size_t>(-1) - graceOffset()) / sizeof(T)) {
+            throw std::bad_alloc();
+        }
+
         char *chunk = std::allocator<char>().allocate(upsize(n));
         if (chunk == 0) {
             return reinterpret_cast<pointer>(chunk);
-- 
2.43.0


From 9f63a2b5169910507707a224b9153ce8fd7a79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 10/25] fix: reading from a const soa_grid must not modify
 shared state

get() and save() stored the caller's target pointer in the grid, so
concurrent readers would write into each other's buffers.
---
 include/libflatarray/soa_grid.hpp | 40 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 94ab535..9dd9087 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -245,33 +245,37 @@ public:
     value_type get(std::size_t x, std::size_t y, std::size_t z) const
     {
         value_type cell;
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        // can't use the member here: concurrent reads must not interfere
+        cell_staging_buffer_type staging_buffer;
+        staging_buffer.resize(1);
+        staging_buffer.prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     staging_buffer.data(),
                      x,
                      y,
                      z,
                      1));
 
-        cell_staging_buffer.save(&cell);
+        staging_buffer.save(&cell);
         return cell;
     }
 
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        // can't use the member here: concurrent reads must not interfere
+        cell_staging_buffer_type staging_buffer;
+        staging_buffer.resize(count);
+        staging_buffer.prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     staging_buffer.data(),
                      x,
                      y,
                      z,
                      count));
 
-        cell_staging_buffer.save(cells);
+        staging_buffer.save(cells);
     }
 
     /**
@@ -341,18 +345,20 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
+        // can't use the member here: concurrent reads must not interfere
+        char_staging_buffer_type staging_buffer;
+        staging_buffer.resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        staging_buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     staging_buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        staging_buffer.save(target);
     }
 
     template<typename ITERATOR>
@@ -362,18 +368,20 @@ public:
         char *target,
         std::size_t count) const
     {
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
+        // can't use the member here: concurrent reads must not interfere
+        char_staging_buffer_type staging_buffer;
+        staging_buffer.resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        staging_buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     staging_buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        staging_buffer.save(target);
     }
 
     std::size_t byte_size() const
-- 
2.43.0


From a27a28afac1e5bf659a3a59e9671acf5b643539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:32 +0000
Subject: [PATCH 11/25] fix: soa_array::load() must refuse counts which
 overflow with the offset

num + offset was computed without considering wrap-around, so very large
counts passed the capacity check and memory beyond the array was overwritten.
---
 include/libflatarray/soa_array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 4815531..ba0473a 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -203,14 +203,14 @@ public:
     __host__ __device__
     void load(const soa_accessor<value_type, OTHER_SIZE, 1, 1, 0>& accessor, std::size_t num, std::size_t offset)
     {
-        using std::max;
-        std::size_t new_elements = max(elements, num + offset);
-        if (new_elements > SIZE) {
+        // beware of overflows, num + offset may exceed the range of std::size_t:
+        if ((num > SIZE) || (offset > (SIZE - num))) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
 
         at(offset).load(accessor.data(), num, std::size_t(accessor.index()), std::size_t(OTHER_SIZE));
-        elements = new_elements;
+        using std::max;
+        elements = max(elements, num + offset);
     }
 
     inline
-- 
2.43.0


From 8feaa00a4c56c946b1577207e0fd808dbd1678a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:00 +0000
Subject: [PATCH 12/25] fix: aligned_allocator must not store its bookkeeping
 in front of the chunk

For alignments of 1 and 2 bytes a single correction step still left less
than a pointer's size in front of the aligned block.
---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index c0d6bdf..46dcc9a 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -81,7 +81,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From 4ab70e959769b537a724dd06215c0153baabdea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 13/25] fix: integer short_vec division must be exact for large
 operands

Single precision floats can't represent all 32-bit integers, so quotients
of operands beyond 2^24 were off. Use double precision instead.
---
 .../detail/short_vec_avx512_int_16.hpp        |  6 +-
 .../detail/short_vec_avx512_int_32.hpp        | 12 ++--
 .../detail/short_vec_avx_int_16.hpp           | 14 ++---
 .../detail/short_vec_avx_int_32.hpp           | 28 +++------
 .../detail/short_vec_avx_int_8.hpp            |  7 +--
 .../libflatarray/detail/short_vec_helpers.hpp | 61 +++++++++++++++++++
 .../detail/short_vec_sse_int_16.hpp           | 28 +++------
 .../detail/short_vec_sse_int_32.hpp           | 56 +++++------------
 .../detail/short_vec_sse_int_4.hpp            |  7 +--
 .../detail/short_vec_sse_int_8.hpp            | 14 ++---
 10 files changed, 111 insertions(+), 122 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index abee972..083f74c 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,8 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
-                                                _mm512_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::div_epi32(val, other.val);
     }
 
     inline
@@ -141,8 +140,7 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
-                                              _mm512_cvtepi32_ps(other.val))));
+            ShortVecHelpers::div_epi32(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index 7f48fec..6c27933 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,10 +138,8 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
-                                                _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
-                                                _mm512_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -151,10 +149,8 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
-                                              _mm512_cvtepi32_ps(other.val[ 0]))),
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
-                                              _mm512_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]),
+            ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index 90f3b28..42d8a50 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,10 +140,8 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
-                                                _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
-                                                _mm256_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -153,12 +151,8 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 0]),
-                                    _mm256_cvtepi32_ps(other.val[ 0]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 1]),
-                                    _mm256_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]),
+            ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 5213944..bbcf801 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,14 +158,10 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
-                                                _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
-                                                _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
-                                                _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
-                                                _mm256_cvtepi32_ps(other.val[ 3])));
+        val[ 0] = ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::div_epi32(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::div_epi32(val[ 3], other.val[ 3]);
     }
 
     inline
@@ -175,18 +171,10 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 0]),
-                                    _mm256_cvtepi32_ps(other.val[ 0]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 1]),
-                                    _mm256_cvtepi32_ps(other.val[ 1]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 2]),
-                                    _mm256_cvtepi32_ps(other.val[ 2]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 3]),
-                                    _mm256_cvtepi32_ps(other.val[ 3]))));
+            ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]),
+            ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]),
+            ShortVecHelpers::div_epi32(val[ 2], other.val[ 2]),
+            ShortVecHelpers::div_epi32(val[ 3], other.val[ 3]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index b801ee5..f286165 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,8 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
-                                                _mm256_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::div_epi32(val, other.val);
     }
 
     inline
@@ -143,9 +142,7 @@ public:
     short_vec<int, 8> operator/(const short_vec<int, 8>& other) const
     {
         return short_vec<int, 8>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val),
-                                    _mm256_cvtepi32_ps(other.val))));
+            ShortVecHelpers::div_epi32(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 34a1186..f92ac0e 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -27,10 +27,18 @@
 #define _SHORTVEC_UINTPTR_T unsigned long long
 #endif
 
+#ifdef __SSE2__
+#include <emmintrin.h>
+#endif
+
 #ifdef __SSE4_1__
 #include <smmintrin.h>
 #endif
 
+#ifdef __AVX2__
+#include <immintrin.h>
+#endif
+
 #ifdef _MSC_BUILD
 #pragma warning( pop )
 #endif
@@ -134,6 +142,59 @@ union ExtractResult {
 
 #endif
 
+/**
+ * There is no SIMD instruction for integer division. Doubles can
+ * represent all 32-bit integers (floats can't), so a truncated double
+ * precision quotient is exact.
+ */
+#ifdef __SSE2__
+
+inline
+__m128i div_epi32(const __m128i& a, const __m128i& b)
+{
+    __m128i lower = _mm_cvttpd_epi32(
+        _mm_div_pd(_mm_cvtepi32_pd(a),
+                   _mm_cvtepi32_pd(b)));
+    __m128i upper = _mm_cvttpd_epi32(
+        _mm_div_pd(_mm_cvtepi32_pd(_mm_unpackhi_epi64(a, a)),
+                   _mm_cvtepi32_pd(_mm_unpackhi_epi64(b, b))));
+    return _mm_unpacklo_epi64(lower, upper);
+}
+
+#endif
+
+#ifdef __AVX2__
+
+inline
+__m256i div_epi32(const __m256i& a, const __m256i& b)
+{
+    __m128i lower = _mm256_cvttpd_epi32(
+        _mm256_div_pd(_mm256_cvtepi32_pd(_mm256_castsi256_si128(a)),
+                      _mm256_cvtepi32_pd(_mm256_castsi256_si128(b))));
+    __m128i upper = _mm256_cvttpd_epi32(
+        _mm256_div_pd(_mm256_cvtepi32_pd(_mm256_extracti128_si256(a, 1)),
+                      _mm256_cvtepi32_pd(_mm256_extracti128_si256(b, 1))));
+    return _mm256_inserti128_si256(_mm256_castsi128_si256(lower), upper, 1);
+}
+
+#endif
+
+#ifdef __AVX512F__
+
+inline
+__m512i div_epi32(const __m512i& a, const __m512i& b)
+{
+    __m256i lower = _mm512_cvttpd_epi32(
+        _mm512_div_pd(_mm512_cvtepi32_pd(_mm512_castsi512_si256(a)),
+                      _mm512_cvtepi32_pd(_mm512_castsi512_si256(b))));
+    __m256i upper = _mm512_cvttpd_epi32(
+        _mm512_div_pd(_mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(a, 1)),
+                      _mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(b, 1))));
+    return _mm512_inserti64x4(_mm512_castsi256_si512(lower), upper, 1);
+}
+
+#endif
+
 }
 
 }
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 29139e8..f52310e 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,14 +236,10 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                          _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                          _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
-                                          _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
-                                          _mm_cvtepi32_ps(other.val[ 3])));
+        val[ 0] = ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::div_epi32(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::div_epi32(val[ 3], other.val[ 3]);
     }
 
     inline
@@ -253,18 +249,10 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 2]),
-                                 _mm_cvtepi32_ps(other.val[ 2]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 3]),
-                                 _mm_cvtepi32_ps(other.val[ 3]))));
+            ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]),
+            ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]),
+            ShortVecHelpers::div_epi32(val[ 2], other.val[ 2]),
+            ShortVecHelpers::div_epi32(val[ 3], other.val[ 3]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index cdf2c56..18ac926 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,22 +336,14 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                          _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                          _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
-                                          _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
-                                          _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
-                                          _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
-                                          _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
-                                          _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
-                                          _mm_cvtepi32_ps(other.val[ 7])));
+        val[ 0] = ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::div_epi32(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::div_epi32(val[ 3], other.val[ 3]);
+        val[ 4] = ShortVecHelpers::div_epi32(val[ 4], other.val[ 4]);
+        val[ 5] = ShortVecHelpers::div_epi32(val[ 5], other.val[ 5]);
+        val[ 6] = ShortVecHelpers::div_epi32(val[ 6], other.val[ 6]);
+        val[ 7] = ShortVecHelpers::div_epi32(val[ 7], other.val[ 7]);
     }
 
     inline
@@ -361,30 +353,14 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 2]),
-                                 _mm_cvtepi32_ps(other.val[ 2]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 3]),
-                                 _mm_cvtepi32_ps(other.val[ 3]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 4]),
-                                 _mm_cvtepi32_ps(other.val[ 4]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 5]),
-                                 _mm_cvtepi32_ps(other.val[ 5]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 6]),
-                                 _mm_cvtepi32_ps(other.val[ 6]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 7]),
-                                 _mm_cvtepi32_ps(other.val[ 7]))));
+            ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]),
+            ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]),
+            ShortVecHelpers::div_epi32(val[ 2], other.val[ 2]),
+            ShortVecHelpers::div_epi32(val[ 3], other.val[ 3]),
+            ShortVecHelpers::div_epi32(val[ 4], other.val[ 4]),
+            ShortVecHelpers::div_epi32(val[ 5], other.val[ 5]),
+            ShortVecHelpers::div_epi32(val[ 6], other.val[ 6]),
+            ShortVecHelpers::div_epi32(val[ 7], other.val[ 7]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 879818b..32a8887 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,8 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
-                                          _mm_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::div_epi32(val, other.val);
     }
 
     inline
@@ -176,9 +175,7 @@ public:
     short_vec<int, 4> operator/(const short_vec<int, 4>& other) const
     {
         return short_vec<int, 4>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val),
-                                 _mm_cvtepi32_ps(other.val))));
+            ShortVecHelpers::div_epi32(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_8.hpp b/include/libflatarray/detail/short_vec_sse_int_8.hpp
index 392ac1b..9e169af 100644
--- a/include/libflatarray/detail/short_vec_sse_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_8.hpp
@@ -188,10 +188,8 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                           _mm_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -201,12 +199,8 @@ public:
     short_vec<int, 8> operator/(const short_vec<int, 8>& other) const
     {
         return short_vec<int, 8>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::div_epi32(val[ 0], other.val[ 0]),
+            ShortVecHelpers::div_epi32(val[ 1], other.val[ 1]));
     }
 
     inline
-- 
2.43.0


From fb4b8e62344f384637c67b714e3bf255d30dc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:41 +0000
Subject: [PATCH 14/25] fix: array member arities given as expressions must be
 evaluated as a whole

---
 include/libflatarray/detail/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/detail/macros.hpp b/include/libflatarray/detail/macros.hpp
index 65391db..8241444 100644
--- a/include/libflatarray/detail/macros.hpp
+++ b/include/libflatarray/detail/macros.hpp
@@ -54,7 +54,7 @@
             LIBFLATARRAY_ARRAY_CONDITIONAL(                             \
                 MEMBER,                                                 \
                 1,                                                      \
-                LIBFLATARRAY_ARRAY_ARITY(MEMBER));                      \
+                (LIBFLATARRAY_ARRAY_ARITY(MEMBER)));                    \
                                                                         \
         template<typename MEMBER_TYPE>                                  \
         inline                                                          \
-- 
2.43.0


From 01a148e9ebe6736a7f70734f3cf08f0c146a5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:22 +0000
Subject: [PATCH 15/25] fix: soa_array must not leak its members if a copy
 fails in a constructor

---
 include/libflatarray/soa_array.hpp | 56 +++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index ba0473a..01dc77a 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -64,9 +64,11 @@ public:
     {
         check_capacity(elements);
         construct_all_instances();
+        instances_guard guard(*this);
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
         }
+        guard.release();
     }
 
     template<int OTHER_SIZE>
@@ -76,7 +78,9 @@ public:
     {
         check_capacity(other.size());
         construct_all_instances();
+        instances_guard guard(*this);
         copy_in(other);
+        guard.release();
     }
 
     inline
@@ -84,7 +88,9 @@ public:
     soa_array(const soa_array& other)
     {
         construct_all_instances();
+        instances_guard guard(*this);
         copy_in(other);
+        guard.release();
     }
 
     template<int OTHER_SIZE>
@@ -94,17 +100,16 @@ public:
     {
         check_capacity(other.size());
         construct_all_instances();
+        instances_guard guard(*this);
         copy_in(other);
+        guard.release();
     }
 
     inline
     __host__ __device__
     ~soa_array()
     {
-        for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < MY_SIZE; accessor += 1) {
-            accessor.destroy_members();
-        }
-
+        destroy_all_instances();
     }
 
     inline
@@ -286,6 +291,40 @@ public:
     }
 
 private:
+    /**
+     * Destructors aren't run for objects whose constructor throws
+     * (e.g. because copying a member failed), hence this helper
+     * cleans up the instances which were already constructed.
+     */
+    class instances_guard
+    {
+    public:
+        inline
+        __host__ __device__
+        explicit instances_guard(soa_array& array) :
+            array(&array)
+        {}
+
+        inline
+        __host__ __device__
+        ~instances_guard()
+        {
+            if (array) {
+                array->destroy_all_instances();
+            }
+        }
+
+        inline
+        __host__ __device__
+        void release()
+        {
+            array = 0;
+        }
+
+    private:
+        soa_array *array;
+    };
+
     std::size_t elements;
     char my_data[BYTE_SIZE];
 
@@ -298,6 +337,15 @@ private:
         }
     }
 
+    inline
+    __host__ __device__
+    void destroy_all_instances()
+    {
+        for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < MY_SIZE; accessor += 1) {
+            accessor.destroy_members();
+        }
+    }
+
     inline
     __host__ __device__
     static void check_capacity(std::size_t num)
-- 
2.43.0


From 77bc519780c7b23dc566858333f5467212507da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:56 +0000
Subject: [PATCH 16/25] fix: a failed assignment must keep size and storage of
 soa_vector in sync

---
 include/libflatarray/soa_vector.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index cb5efc4..aa94e42 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -59,6 +59,24 @@ public:
         grid.broadcast(0, 0, 0, value, count);
     }
 
+    inline
+    __host__ __device__
+    soa_vector(const soa_vector& other) :
+        grid(other.grid),
+        count(other.count)
+    {}
+
+    inline
+    __host__ __device__
+    soa_vector& operator=(const soa_vector& other)
+    {
+        // copy first: if this fails, then grid and count need to stay in sync
+        soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(other.grid);
+        grid.swap(new_grid);
+        count = other.count;
+        return *this;
+    }
+
     /**
      * Copies an element to the given index. We're intentionally not
      * using at() or operator[] to avoid mismatched expectations here:
-- 
2.43.0


From f779b1b310c7cfd3754eaea58d8bd1580be3a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:14 +0000
Subject: [PATCH 17/25] fix: broadcast on CUDA devices must write all cells,
 not just the first one

---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From 152373cf045c3b57380d698bf1cdb83b443dc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:20 +0000
Subject: [PATCH 18/25] fix: build on SSE targets without SSE2

The division helper div_epi32 was guarded by __SSE2__, but the SSE float
vectors need it with plain SSE, too.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index f92ac0e..7502659 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -27,7 +27,7 @@
 #define _SHORTVEC_UINTPTR_T unsigned long long
 #endif
 
-#ifdef __SSE2__
+#ifdef __SSE__
 #include <emmintrin.h>
 #endif
 
@@ -147,7 +147,7 @@ union ExtractResult {
  * represent all 32-bit integers (floats can't), so a truncated double
  * precision quotient is exact.
  */
-#ifdef __SSE2__
+#ifdef __SSE__
 
 inline
 __m128i div_epi32(const __m128i& a, const __m128i& b)
-- 
2.43.0


From d451c0ade2bbf9ee7b3ab131fb571b5ac19cf518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:33 +0000
Subject: [PATCH 19/25] fix: NEON comparisons == and <=

== computed <, and <= compared the absolute values.
---
 include/libflatarray/detail/short_vec_neon_float_4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_4.hpp b/include/libflatarray/detail/short_vec_neon_float_4.hpp
index 39c6887..dfd220c 100644
--- a/include/libflatarray/detail/short_vec_neon_float_4.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_4.hpp
@@ -169,13 +169,13 @@ public:
     inline
     uint32x4_t operator<=(const short_vec<float, 4>& other) const
     {
-        return vcaleq_f32(val, other.val);
+        return vcleq_f32(val, other.val);
     }
 
     inline
     uint32x4_t operator==(const short_vec<float, 4>& other) const
     {
-        return  vcltq_f32(val, other.val);
+        return vceqq_f32(val, other.val);
     }
 
     inline
-- 
2.43.0


From 6dd942c8c9f631706e64c313093c4173d33ed282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:33 +0000
Subject: [PATCH 20/25] fix: NEON aligned transfers need no more than the
 reported alignment

short_vec_strategy::neon reports 16 bytes, but the wider vectors asserted
32 to 128 bytes.
---
 include/libflatarray/detail/short_vec_neon_float_16.hpp | 4 ++--
 include/libflatarray/detail/short_vec_neon_float_32.hpp | 4 ++--
 include/libflatarray/detail/short_vec_neon_float_8.hpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_16.hpp b/include/libflatarray/detail/short_vec_neon_float_16.hpp
index 0623e81..6f789ca 100644
--- a/include/libflatarray/detail/short_vec_neon_float_16.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_16.hpp
@@ -280,7 +280,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 64);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -296,7 +296,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 64);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
diff --git a/include/libflatarray/detail/short_vec_neon_float_32.hpp b/include/libflatarray/detail/short_vec_neon_float_32.hpp
index 00edd5f..87bd0ce 100644
--- a/include/libflatarray/detail/short_vec_neon_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_32.hpp
@@ -372,7 +372,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 128);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -392,7 +392,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 128);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
diff --git a/include/libflatarray/detail/short_vec_neon_float_8.hpp b/include/libflatarray/detail/short_vec_neon_float_8.hpp
index bd525d9..08ef7ce 100644
--- a/include/libflatarray/detail/short_vec_neon_float_8.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_8.hpp
@@ -229,7 +229,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 32);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -243,7 +243,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 32);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
-- 
2.43.0


From e2336fd59bcb4e10e98f85071453c931e661ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:33 +0000
Subject: [PATCH 21/25] fix: report the alignment aligned MIC transfers need

Aligned loads and stores assert 64 bytes, but 32 were reported.
---
 include/libflatarray/short_vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/short_vec.hpp b/include/libflatarray/short_vec.hpp
index dfd69f9..9fdcd79 100644
--- a/include/libflatarray/short_vec.hpp
+++ b/include/libflatarray/short_vec.hpp
@@ -253,7 +253,7 @@ public:
         class alignment
         {
         public:
-            const static int ALIGNMENT = 32;
+            const static int ALIGNMENT = 64;
         };
     };
 
-- 
2.43.0


From 9d82a6e2b1527683cbf673830a702f851ff25fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:33 +0000
Subject: [PATCH 22/25] fix: ilp_to_arity lacked Xeon Phi

flat_array.hpp did not compile with __MIC__ as no vector width was defined.
---
 include/libflatarray/ilp_to_arity.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/ilp_to_arity.hpp b/include/libflatarray/ilp_to_arity.hpp
index 34d5df9..eb721ec 100644
--- a/include/libflatarray/ilp_to_arity.hpp
+++ b/include/libflatarray/ilp_to_arity.hpp
@@ -40,6 +40,11 @@ public:
     static const int BIT_WIDTH = 128;
 #  endif
 
+    // ...and for the Xeon Phi:
+#  ifdef __MIC__
+    static const int BIT_WIDTH = 512;
+#  endif
+
     // Only the case of the IBM PC is complicated. No thanks to you,
     // history!
 #  if !defined(__CUDA_ARCH__) && !defined(__ARM_NEON__) && !defined(__MIC__)
-- 
2.43.0


From c86aede025fd97d2beb0b523ab4b56c2ccd9e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:33 +0000
Subject: [PATCH 23/25] fix: cpu_benchmark::device() with unexpected CPU
 descriptions

Blank lines and lines without a value in /proc/cpuinfo (e.g. on ARM) led to
accesses to elements of empty vectors, as did truncated output of
likwid-topology. Values padded with several tabs (POWER) or preceded by a long
line weren't found, line breaks and stale parts of the buffer ended up in the
device's name, and the pipe to likwid-topology was never closed.
---
 .../libflatarray/testbed/cpu_benchmark.hpp    | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index eccee90..35d6def 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -21,6 +21,8 @@
 #include <cstdio>
 #include <fstream>
 #include <iostream>
+#include <sstream>
+#include <stdexcept>
 
 namespace LibFlatArray {
 
@@ -51,12 +53,19 @@ private:
     static std::string parse_proc_cpu()
     {
         std::ifstream file("/proc/cpuinfo");
-        const std::size_t bufferSize = 1 << 12;
-        char buffer[bufferSize];
+        std::string line;
+
+        while (std::getline(file, line)) {
+            std::vector<std::string> tokens = tokenize(line, ':');
+            if ((tokens.size() < 2) || tokens[1].empty()) {
+                continue;
+            }
 
-        while (file.getline(&buffer[0], bufferSize)) {
-            std::vector<std::string> tokens = tokenize(buffer, ':');
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
+            // names are padded with a varying number of tabs
+            while (!fields.empty() && fields.back().empty()) {
+                fields.pop_back();
+            }
 
             if ((fields.size() == 1) && (fields[0] == "cpu")) {
                 return tokens[1];
@@ -91,18 +100,30 @@ private:
         std::string cpu_type;
         std::string cpu_name;
 
-        while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
-            std::vector<std::string> tokens = tokenize(read_buffer, ',');
-            for (std::vector<std::string>::iterator i = tokens.begin(); i != tokens.end(); ++i) {
-                if (i->find("CPU type") != std::string::npos) {
-                    cpu_type = *(++i);
-                }
-                if (i->find("CPU name") != std::string::npos) {
-                    cpu_name = *(++i);
+        while (fgets(&read_buffer[0], static_cast<int>(read_buffer.size()), file) != NULL) {
+            // fgets() null-terminates each line, the remainder of the
+            // buffer is stale:
+            std::string line(read_buffer.c_str());
+            if (!line.empty() && (line[line.size() - 1] == '\n')) {
+                line.resize(line.size() - 1);
+            }
+
+            std::vector<std::string> tokens = tokenize(line, ',');
+            for (std::size_t i = 0; (i + 1) < tokens.size(); ++i) {
+                if (tokens[i].find("CPU type") != std::string::npos) {
+                    cpu_type = tokens[++i];
+                } else if (tokens[i].find("CPU name") != std::string::npos) {
+                    cpu_name = tokens[++i];
                 }
             }
         }
 
+#ifdef _WIN32
+        _pclose(file);
+#else
+        pclose(file);
+#endif
+
         if (cpu_type.empty() || cpu_name.empty()) {
             throw std::runtime_error("failed to parse likwid-topology");
         }
-- 
2.43.0


From fe498dfdbe3fc32628970c7a66f7a1b312083211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:33 +0000
Subject: [PATCH 24/25] fix: evaluate accessed the first of zero dimensions

---
 include/libflatarray/testbed/evaluate.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/testbed/evaluate.hpp b/include/libflatarray/testbed/evaluate.hpp
index 2191686..516450f 100644
--- a/include/libflatarray/testbed/evaluate.hpp
+++ b/include/libflatarray/testbed/evaluate.hpp
@@ -112,9 +112,12 @@ public:
         double performance = benchmark.performance(dim);
 
         std::ostringstream pretty_dim;
-        pretty_dim << "(" << dim[0];
-        for (std::size_t i = 1; i < dim.size(); ++i) {
-            pretty_dim << ", " << dim[i];
+        pretty_dim << "(";
+        for (std::size_t i = 0; i < dim.size(); ++i) {
+            if (i > 0) {
+                pretty_dim << ", ";
+            }
+            pretty_dim << dim[i];
         }
         pretty_dim << ")";
 
-- 
2.43.0


From aa49f1cd551ba7742002159d43d135c002eb3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:45 +0000
Subject: [PATCH 25/25] fix: let constant accessors address their neighbours

operator[](coord) of a constant soa_accessor could not be instantiated: it
tried to bind the constant index to the non-const reference which
const_soa_accessor_light's constructor takes. Return a const_soa_accessor, as
const_soa_accessor's own operator[] does.
---
 include/libflatarray/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..859fdad 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -217,10 +217,10 @@
         template<long X, long Y, long Z>                                \
         inline                                                          \
         __host__ __device__                                             \
-        const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[]( \
+        const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[](  \
             coord<X, Y, Z>) const                                       \
         {                                                               \
-            return const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS>( \
+            return const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS>(  \
                 my_data, my_index);                                     \
         }                                                               \
                                                                         \
-- 
2.43.0


From 96827ab1121cc417f652fa61118b7e7f71b86da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 001/170] fix: allocate the requested capacity when growing an
 aligned Array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..b48a761 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -947,7 +947,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From 4f08cc3bc12d98fcf455861bc0a6463ec0221c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 002/170] fix: Array::Set must not assign to storage past the
 last element

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index b48a761..67edae5 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -660,7 +660,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size_ - data_; ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From b124a46f64c44d8d66cd36753242971286eb8d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 003/170] fix: Array copy assignment constructs the elements
 past the old size

---
 il/container/1d/Array.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 67edae5..5127985 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,10 +585,15 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_old = size();
+      const il::int_t n_assign = n < n_old ? n : n_old;
+      for (il::int_t i = 0; i < n_assign; ++i) {
         data_[i] = v.data_[i];
       }
-      for (il::int_t i = size() - 1; i >= n; --i) {
+      for (il::int_t i = n_assign; i < n; ++i) {
+        new (data_ + i) T(v.data_[i]);
+      }
+      for (il::int_t i = n_old - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
     }
-- 
2.43.0


From 2624626a3560aef565919f8c53f12d4cc55b713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 004/170] fix: Array Append and Resize accept an argument that
 lives in the array

---
 il/container/1d/Array.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 5127985..9607403 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -745,14 +745,15 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    const T x_copy = x;
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = x_copy;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T{x_copy};
       }
     }
   }
@@ -838,13 +839,14 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
+    // x might be an element of this array
+    const bool inside = data_ <= &x && &x < size_;
+    const il::int_t k = inside ? &x - data_ : 0;
     IncreaseCapacity(new_capacity);
+    new (size_) T(std::move(inside ? data_[k] : x));
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
-- 
2.43.0


From 860f495cdd7ef01a75fdac1c82d6dbeaf7599d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 005/170] fix: Array2D and Array2C copy assignment construct
 the elements outside the old shape

---
 il/container/2d/Array2C.h | 6 +++++-
 il/container/2d/Array2D.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..96de218 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -707,7 +707,11 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i0 * capacity(1) + i1] = A(i0, i1);
+            } else {
+              new (data_ + i0 * capacity(1) + i1) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..0cd652c 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -755,7 +755,11 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i1 * capacity(0) + i0] = A(i0, i1);
+            } else {
+              new (data_ + i1 * capacity(0) + i0) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
-- 
2.43.0


From 1ef235e47e6273db96eb1eb2d8e2e9776c736b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 006/170] fix: Array2C copy constructor takes the alignment of
 its source

---
 il/container/2d/Array2C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 96de218..3c14ce8 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -548,7 +548,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     if (il::isTrivial<T>::value && A.align_mod_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From 7b6d8d4c0fe86675d896d6c5a8c9ade1c78497d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 007/170] fix: an empty Array2D or Array2C can be viewed

---
 il/container/2d/Array2CView.h | 4 ++--
 il/container/2d/Array2DView.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..5497ad6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -143,7 +143,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
diff --git a/il/container/2d/Array2DView.h b/il/container/2d/Array2DView.h
index 6c83a34..2a0c95f 100644
--- a/il/container/2d/Array2DView.h
+++ b/il/container/2d/Array2DView.h
@@ -143,7 +143,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
-- 
2.43.0


From 5f78681ef6c6cfaf95005e0e656b97221728a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 008/170] fix: Array2D column views step by the stride and
 check their bounds

---
 il/container/2d/Array2D.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 0cd652c..62ba35a 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1274,7 +1274,14 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
@@ -1325,7 +1332,14 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 5eee19b99ddde237aa4f2fbea82b9812887bddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 009/170] fix: Array2CEdit::Edit selects the requested
 sub-rectangle

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index 5497ad6..c0cec91 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From bb59142edc1079d450378a9da0b8660b408d6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 010/170] fix: copy assignment of 3D and 4D arrays constructs
 the elements outside the old shape

---
 il/container/3d/Array3C.h |  6 +++++-
 il/container/3d/Array3D.h |  6 +++++-
 il/container/4d/Array4C.h | 10 +++++++---
 il/container/4d/Array4D.h | 10 +++++++---
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..2d29748 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,7 +811,11 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              } else {
+                new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..f449ac1 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,11 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              } else {
+                new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..06c77ea 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -554,9 +554,13 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
+                T* p = data_ +
+                       ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i3;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..6d50746 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -554,9 +554,13 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           for (il::int_t i2 = 0; i2 < n2; ++i2) {
             for (il::int_t i1 = 0; i1 < n1; ++i1) {
               for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
+                T* p = data_ +
+                       ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From 864e7280919268a423adf5b6384cef5cc8aef770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 011/170] fix: Array3C in-place Resize and copy assignment walk
 the right extents

---
 il/container/3d/Array3C.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 2d29748..1509aab 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -822,7 +822,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
@@ -1039,7 +1039,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
-- 
2.43.0


From d98ec373155148866c22050af54721745f906c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 012/170] fix: Array4D and Array4C copy assignment allocates
 for a zero last extent

---
 il/container/4d/Array4C.h | 2 +-
 il/container/4d/Array4D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 06c77ea..eec6cea 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -447,7 +447,7 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
       il::int_t r1;
       il::int_t r2;
       il::int_t r3;
-      if (n0 > 0 && n1 > 0 && n2 > 0) {
+      if (n0 > 0 && n1 > 0 && n2 > 0 && n3 > 0) {
         r0 = n0;
         r1 = n1;
         r2 = n2;
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 6d50746..aa282c3 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -447,7 +447,7 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
       il::int_t r1;
       il::int_t r2;
       il::int_t r3;
-      if (n0 > 0 && n1 > 0 && n2 > 0) {
+      if (n0 > 0 && n1 > 0 && n2 > 0 && n3 > 0) {
         if (il::isTrivial<T>::value && alignment != 0) {
           const il::int_t nb_lanes = static_cast<il::int_t>(
               static_cast<std::size_t>(alignment) / alignof(T));
-- 
2.43.0


From 25f7e6d92de1fd6c4efccd02493881cb7fcac127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 013/170] fix: Array2D::Resize accepts a fill value that lives
 in the array

---
 il/container/2d/Array2D.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 62ba35a..f48d877 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -973,6 +973,8 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
 
+  // x might be an element of this array
+  const T x_copy = x;
   const il::int_t n0_old = size(0);
   const il::int_t n1_old = size(1);
   const bool need_memory = n0 > capacity(0) || n1 > capacity(1);
@@ -1024,7 +1026,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = x;
+          new_data[i1 * r0 + i0] = x_copy;
         }
       }
     } else {
@@ -1047,7 +1049,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{x};
+          new (new_data + i1 * r0 + i0) T{x_copy};
         }
       }
     }
@@ -1059,7 +1061,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
     if (il::isTrivial<T>::value) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = (i1 < n1_old ? n0_old : 0); i0 < n0; ++i0) {
-          data_[i1 * capacity(0) + i0] = x;
+          data_[i1 * capacity(0) + i0] = x_copy;
         }
       }
     } else {
@@ -1070,7 +1072,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (data_ + i1 * capacity(0) + i0) T{x};
+          new (data_ + i1 * capacity(0) + i0) T{x_copy};
         }
       }
     }
-- 
2.43.0


From 64bb0f075b3dee17b736fe69863f5acf3623967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 014/170] fix: an aligned Array2D or Array2C keeps its columns
 aligned through a zero extent

---
 il/container/2d/Array2C.h | 45 ++++++++++++++++++++++++++++
 il/container/2d/Array2D.h | 63 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 108 insertions(+)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 3c14ce8..bcdd755 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -329,6 +329,15 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
+    if (il::isTrivial<T>::value && alignment != 0) {
+      const il::int_t nb_lanes = static_cast<il::int_t>(
+          static_cast<std::size_t>(alignment) / alignof(T));
+      bool error = false;
+      r1 = il::safeUpperRound(r1, nb_lanes, il::io, error);
+      if (error) {
+        il::abort();
+      }
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -439,6 +448,15 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
+    if (il::isTrivial<T>::value && alignment != 0) {
+      const il::int_t nb_lanes = static_cast<il::int_t>(
+          static_cast<std::size_t>(alignment) / alignof(T));
+      bool error = false;
+      r1 = il::safeUpperRound(r1, nb_lanes, il::io, error);
+      if (error) {
+        il::abort();
+      }
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -564,6 +582,15 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
+    if (il::isTrivial<T>::value && A.alignment_ != 0) {
+      const il::int_t nb_lanes = static_cast<il::int_t>(
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
+      bool error = false;
+      r1 = il::safeUpperRound(r1, nb_lanes, il::io, error);
+      if (error) {
+        il::abort();
+      }
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -653,6 +680,15 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         r0 = (n0 == 0) ? 1 : n0;
         r1 = (n1 == 0) ? 1 : n1;
+        if (il::isTrivial<T>::value && alignment != 0) {
+          const il::int_t nb_lanes = static_cast<il::int_t>(
+              static_cast<std::size_t>(alignment) / alignof(T));
+          bool error = false;
+          r1 = il::safeUpperRound(r1, nb_lanes, il::io, error);
+          if (error) {
+            il::abort();
+          }
+        }
       }
       bool error = false;
       const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -845,6 +881,15 @@ void Array2C<T>::Resize(il::int_t n0, il::int_t n1) {
     } else {
       r0 = (n0 == 0) ? 1 : n0;
       r1 = (n1 == 0) ? 1 : n1;
+      if (il::isTrivial<T>::value && alignment_ != 0) {
+        const il::int_t nb_lanes = static_cast<il::int_t>(
+            static_cast<std::size_t>(alignment_) / alignof(T));
+        bool error = false;
+        r1 = il::safeUpperRound(r1, nb_lanes, il::io, error);
+        if (error) {
+          il::abort();
+        }
+      }
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, il::io, error);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index f48d877..38f4437 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -344,6 +344,15 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
+    if (il::isTrivial<T>::value && alignment != 0) {
+      const il::int_t nb_lanes = static_cast<il::int_t>(
+          static_cast<std::size_t>(alignment) / alignof(T));
+      bool error = false;
+      r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+      if (error) {
+        il::abort();
+      }
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -487,6 +496,15 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
+    if (il::isTrivial<T>::value && alignment != 0) {
+      const il::int_t nb_lanes = static_cast<il::int_t>(
+          static_cast<std::size_t>(alignment) / alignof(T));
+      bool error = false;
+      r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+      if (error) {
+        il::abort();
+      }
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -612,6 +630,15 @@ Array2D<T>::Array2D(const Array2D<T>& A) {
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
+    if (il::isTrivial<T>::value && A.alignment_ != 0) {
+      const il::int_t nb_lanes = static_cast<il::int_t>(
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
+      bool error = false;
+      r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+      if (error) {
+        il::abort();
+      }
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -701,6 +728,15 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         r0 = (n0 == 0) ? 1 : n0;
         r1 = (n1 == 0) ? 1 : n1;
+        if (il::isTrivial<T>::value && alignment != 0) {
+          const il::int_t nb_lanes = static_cast<il::int_t>(
+              static_cast<std::size_t>(alignment) / alignof(T));
+          bool error = false;
+          r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+          if (error) {
+            il::abort();
+          }
+        }
       }
       bool error = false;
       const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -884,6 +920,15 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1) {
     } else {
       r0 = (n0 == 0) ? 1 : n0;
       r1 = (n1 == 0) ? 1 : n1;
+      if (il::isTrivial<T>::value && alignment_ != 0) {
+        const il::int_t nb_lanes = static_cast<il::int_t>(
+            static_cast<std::size_t>(alignment_) / alignof(T));
+        bool error = false;
+        r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+        if (error) {
+          il::abort();
+        }
+      }
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -1001,6 +1046,15 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
     } else {
       r0 = (n0 == 0) ? 1 : n0;
       r1 = (n1 == 0) ? 1 : n1;
+      if (il::isTrivial<T>::value && alignment_ != 0) {
+        const il::int_t nb_lanes = static_cast<il::int_t>(
+            static_cast<std::size_t>(alignment_) / alignof(T));
+        bool error = false;
+        r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+        if (error) {
+          il::abort();
+        }
+      }
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -1114,6 +1168,15 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
     } else {
       r0 = (n0 == 0) ? 1 : n0;
       r1 = (n1 == 0) ? 1 : n1;
+      if (il::isTrivial<T>::value && alignment_ != 0) {
+        const il::int_t nb_lanes = static_cast<il::int_t>(
+            static_cast<std::size_t>(alignment_) / alignof(T));
+        bool error = false;
+        r0 = il::safeUpperRound(r0, nb_lanes, il::io, error);
+        if (error) {
+          il::abort();
+        }
+      }
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, il::io, error);
-- 
2.43.0


From 07d5a597f4e1e71e8b01ae2ea50a0277772c9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 015/170] fix: an aligned array constructed with no element
 satisfies its invariant

---
 il/container/2d/Array2C.h | 12 ++++++------
 il/container/2d/Array2D.h | 12 ++++++------
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index bcdd755..8440441 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -363,9 +363,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -480,9 +480,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 38f4437..e4bd42c 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -378,9 +378,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -528,9 +528,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 1509aab..4cc198e 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -384,9 +384,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -508,9 +508,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index f449ac1..f220d0c 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -378,9 +378,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -504,9 +504,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = data_ ? static_cast<short>(alignment) : 0;
+  align_r_ = data_ ? static_cast<short>(align_r) : 0;
+  align_mod_ = data_ ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
-- 
2.43.0


From 639cf01bcef87d5bd780ee1dc650ce2b69ea6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 016/170] fix: the aligned value constructors of Array3D and
 Array3C fill the array in release builds

---
 il/container/3d/Array3C.h | 2 --
 il/container/3d/Array3D.h | 2 --
 2 files changed, 4 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4cc198e..eb9a6c0 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -489,7 +489,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i0 = 0; i0 < n0; ++i0) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
@@ -497,7 +496,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index f220d0c..4df0b26 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -485,7 +485,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i2 = 0; i2 < n2; ++i2) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
@@ -493,7 +492,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0


From 62795f1de0b8b79a0181d84faf4e8705cdfd77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 017/170] fix: SmallArray move assignment takes the elements
 and leaves the source empty

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..d3ab9f4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -405,7 +405,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -415,7 +415,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From 45e31eae3d03385733df5c3377a47388f16782bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 018/170] fix: SmallArray::Resize within capacity keeps the
 elements

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index d3ab9f4..a514866 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -479,7 +479,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From 32d4e947552f6c0bf7e722e551a8dba78974d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 019/170] fix: SmallArray copy assignment constructs the
 elements past the old size

---
 il/container/1d/SmallArray.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index a514866..772904c 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -372,8 +372,13 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
           (data_ + i)->~T();
         }
       }
+      const il::int_t n_old = size();
       for (il::int_t i = 0; i < n; ++i) {
-        data_[i] = A.data_[i];
+        if (il::isTrivial<T>::value || i < n_old) {
+          data_[i] = A.data_[i];
+        } else {
+          new (data_ + i) T(A.data_[i]);
+        }
       }
       size_ = data_ + n;
     }
-- 
2.43.0


From 44cd4ef1a3af5caab0befdd42360ce2c134f08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 020/170] fix: SmallArray::Append accepts an element of the
 array when it grows

---
 il/container/1d/SmallArray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 772904c..60e8b72 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -555,9 +555,13 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    // An argument might be an element of this array
+    T x = T(args...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(args...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From a1130955c3ccb25198f78ff53094e85f81ad2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 021/170] fix: copy assignment of LowerArray2D and UpperArray2D
 copies every element

---
 il/container/2d/LowerArray2D.h | 13 +++++++++----
 il/container/2d/UpperArray2D.h | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..35bbefa 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T(A.data_[k]);
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..2c65ca3 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T(A.data_[k]);
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 616668b182b37a0065cf07bc2a144f0ff2049cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 022/170] fix: Map::Rehash puts the elements where a search
 finds them

---
 il/container/hash/Map.h | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..6127087 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1071,26 +1071,16 @@ void Map<K, V, F>::ReserveWithP(int p) {
 
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Rehash() {
+#ifdef IL_DEBUG_CLASS
+  const std::size_t old_hash = hash_;
+#endif
   if (nb_tombstones_ > 0) {
-    const il::int_t m = nbBuckets();
-    KeyValue<K, V>* bucket = il::allocateArray<KeyValue<K, V>>(m);
-    for (il::int_t i = 0; i < m; ++i) {
-      F::constructEmpty(il::io, reinterpret_cast<K*>(bucket + i));
-    }
-    for (il::int_t i = 0; i < m; ++i) {
-      if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
-        ((bucket_ + i)->value).~V();
-        ((bucket_ + i)->key).~K();
-      }
-    }
-    il::deallocate(bucket_);
-    bucket_ = bucket;
-    nb_tombstones_ = 0;
+    // The elements must be searched again: without the tombstones, their
+    // current slots might not be reachable anymore.
+    ReserveWithP(p_);
   }
 #ifdef IL_DEBUG_CLASS
-  hash_ = 2 * hash_;
+  hash_ = 2 * old_hash;
 #endif
 }
 
-- 
2.43.0


From 0ecfa5a0bce38f81efa72a0c918c440f8f7a55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 023/170] fix: inserting in place of a tombstone of a Map
 decreases their number

---
 il/container/hash/Map.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 6127087..f062b17 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -634,6 +634,9 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     il::spot_t j = searchCString(key, n);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -666,6 +669,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
     il::spot_t j = searchCString(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -695,6 +701,9 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -724,6 +733,9 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -753,6 +765,9 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -782,6 +797,9 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
   new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
-- 
2.43.0


From 5dbff6a5f7299bfe97dc165a34f665124fd7c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 024/170] fix: copy and move assignment of a Map, from and to
 an empty one as well

---
 il/container/hash/Map.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index f062b17..6c67833 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -265,6 +265,7 @@ Map<K, V, F>::Map(const Map<K, V, F>& map) {
 #ifdef IL_DEBUG_CLASS
   hash_ = 0;
 #endif
+  bucket_ = nullptr;
   if (p_ >= 0) {
     const il::int_t m = nbBuckets(p_);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
@@ -306,19 +307,22 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
@@ -357,7 +361,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
-- 
2.43.0


From ef1038b9bbb77aa109191b27c90e184d10aa7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 025/170] fix: looping over a Map without buckets is well
 defined

---
 il/container/hash/Map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 6c67833..f5739f1 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1007,7 +1007,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1025,7 +1025,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1037,7 +1037,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 34e7d81513d75d495b1ebc9547a1e35dbe5cd528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 026/170] fix: Map lookups by C string and default values of
 Map lookups

---
 il/container/hash/Map.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index f5739f1..4343343 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -583,7 +583,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
@@ -876,7 +876,8 @@ const V& Map<K, V, F>::valueForKey(const K& key) const {
   if (found(i)) {
     return value(i);
   } else {
-    return V{};
+    static const V default_value{};
+    return default_value;
   }
 }
 
@@ -893,11 +894,12 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 template <typename K, typename V, typename F>
 template <il::int_t m>
 const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
-  const il::spot_t i = search(key);
+  const il::spot_t i = searchCString(key);
   if (found(i)) {
     return value(i);
   } else {
-    return V{};
+    static const V default_value{};
+    return default_value;
   }
 }
 
@@ -905,7 +907,7 @@ template <typename K, typename V, typename F>
 template <il::int_t m>
 const V& Map<K, V, F>::valueForCString(const char (&key)[m],
                                        const V& default_value) const {
-  const il::spot_t i = search(key);
+  const il::spot_t i = searchCString(key);
   if (found(i)) {
     return value(i);
   } else {
-- 
2.43.0


From 876e4ae79c9df2bff68b7cd27e1f7284fc13cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 027/170] fix: Map::erase does not read the key it has
 destroyed

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 4343343..36cddde 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -821,10 +821,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
-- 
2.43.0


From ac93364c541fb679c38672696d023e3ca458c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 028/170] fix: Map::Reserve never shrinks the map

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 36cddde..3e601b2 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -941,7 +941,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n);
+  if (p > p_) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 4737dd2fa4d27e9fb12dfe28960814fbb006a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 029/170] fix: Map::Set accepts a key or a value which lives in
 the map

---
 il/container/hash/Map.h | 86 ++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 3e601b2..e9a35cb 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -409,8 +409,7 @@ void Map<K, V, F>::Set(const K& key, const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    (bucket_ + i.index)->value = value;
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -423,8 +422,7 @@ void Map<K, V, F>::Set(const K& key, V&& value) {
   if (!found(i)) {
     Set(key, std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -437,8 +435,7 @@ void Map<K, V, F>::Set(K&& key, const V& value) {
   if (!found(i)) {
     Set(std::move(key), value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = value;
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -451,8 +448,7 @@ void Map<K, V, F>::Set(K&& key, V&& value) {
   if (!found(i)) {
     Set(std::move(key), std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -466,8 +462,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    (bucket_ + i.index)->value = value;
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -481,8 +476,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], V&& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -626,17 +620,22 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
+  const il::int_t i_local = -(1 + i.index);
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // The key and the value might live in the buckets which are going to be
+    // replaced
+    K new_key(key, n);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = searchCString(key, n);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
@@ -661,17 +660,22 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
+  const il::int_t i_local = -(1 + i.index);
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // The key and the value might live in the buckets which are going to be
+    // replaced
+    K new_key(key);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = searchCString(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
@@ -693,17 +697,22 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
+  const il::int_t i_local = -(1 + i.index);
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The key and the value might live in the buckets which are going to be
+    // replaced
+    K new_key(key);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
@@ -725,23 +734,28 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
+  const il::int_t i_local = -(1 + i.index);
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The key and the value might live in the buckets which are going to be
+    // replaced
+    K new_key(key);
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
   }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
+  new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -757,17 +771,22 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
+  const il::int_t i_local = -(1 + i.index);
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The key and the value might live in the buckets which are going to be
+    // replaced
+    K new_key(std::move(key));
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
@@ -789,17 +808,22 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
+  const il::int_t i_local = -(1 + i.index);
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The key and the value might live in the buckets which are going to be
+    // replaced
+    K new_key(std::move(key));
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
-- 
2.43.0


From dd224f7c953fbadd457dbf85f0e896989920d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 030/170] fix: the Set container compiles and can be looped
 over when it has no bucket

---
 il/container/hash/Set.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index ed81b46..a0b0b4f 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -20,7 +20,7 @@
 #define IL_SET_H
 
 #include <il/container/hash/HashFunction.h>
-#include <il/container/hash/Spot.h>
+#include <il/core/memory/allocate.h>
 
 namespace il {
 
@@ -41,7 +41,7 @@ class Set {
   ~Set();
 
   il::spot_t search(const T& x) const;
-  void Add(const T& x, il::io_t, il::spot_t i);
+  void Add(const T& x, il::io_t, il::spot_t& i);
   void Add(const T& x);
   bool found(il::spot_t i) const;
   bool contains(const T& x) const;
@@ -103,7 +103,7 @@ Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
           (bucket_ + i)->~T();
         }
       }
@@ -137,9 +137,8 @@ Set<T, F>& Set<T, F>::operator=(Set<T, F>&& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+          (bucket_ + i)->~T();
         }
       }
       il::deallocate(bucket_);
@@ -261,7 +260,7 @@ const T& Set<T, F>::element(il::spot_t i) const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotBegin() const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m && (F::isEmpty(bucket_[i]) || F::isTombstone(bucket_[i]))) {
@@ -272,17 +271,12 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-#ifdef IL_DEBUG_CLASS
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_),
-                    0};
-#else
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
-#endif
+  return il::spot_t{nbBuckets()};
 }
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::next(il::spot_t i) const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From b09199d52f6fd96ff0e5093bbd5cfeab64c9776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 031/170] fix: Set::Clear empties the buckets

---
 il/container/hash/Set.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index a0b0b4f..0a35452 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -248,9 +248,11 @@ void Set<T, F>::Clear() {
       if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
         (bucket_ + i)->~T();
       }
+      F::constructEmpty(il::io, bucket_ + i);
     }
   }
   nb_elements_ = 0;
+  nb_tombstones_ = 0;
 }
 
 template <typename T, typename F>
-- 
2.43.0


From 53a3d2b72aa7bf01b9c683dae8be4be7e6095084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 032/170] fix: copy of a Set, from and to an empty one as well

---
 il/container/hash/Set.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index 0a35452..575a5b3 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -71,6 +71,7 @@ Set<T, F>::Set(const Set<T, F>& set) {
   p_ = set.p_;
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+  bucket_ = nullptr;
   if (p_ >= 0) {
     const il::int_t m = nbBuckets(p_);
     bucket_ = il::allocateArray<T>(m);
@@ -97,18 +98,21 @@ Set<T, F>::Set(Set<T, F>&& set) {
 
 template <typename T, typename F>
 Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
+  if (this == &set) {
+    return *this;
+  }
   const int p = set.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
-          (bucket_ + i)->~T();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+        (bucket_ + i)->~T();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<T>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 030688399963f7b41c1756b3b101b29f3918517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 033/170] fix: MapArray::Set on an existing key updates its
 value

---
 il/container/hash/MapArray.h | 83 ++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..f3debf2 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -89,75 +89,92 @@ MapArray<K, V, F>::MapArray(il::value_t,
     }
   }
 #ifdef IL_DEBUG_CLASS
-  hash_ = static_cast<std::size_t>(n);
+  hash_ = map_.hash();
 #endif
 };
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(key, i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = value;
+  } else {
+    Set(key, value, il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = std::move(value);
+  } else {
+    Set(key, std::move(value), il::io, i);
+  }
+}
+
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = value;
+  } else {
+    Set(std::move(key), value, il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = std::move(value);
+  } else {
+    Set(std::move(key), std::move(value), il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
                             il::spot_t& i) {
   const il::int_t j = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(key, j, il::io, i);
-
+  array_.Append(il::KeyValue<K, V>(key, value));
+  map_.Set(array_[j].key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  hash_ = map_.hash();
 #endif
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, j, il::io, i);
+  array_.Append(il::KeyValue<K, V>(key, std::move(value)));
+  map_.Set(array_[j].key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  hash_ = map_.hash();
+#endif
+}
+
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
+  const il::int_t j = array_.size();
+  array_.Append(il::KeyValue<K, V>(std::move(key), value));
+  map_.Set(array_[j].key, j, il::io, i);
+  i.index = j;
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
 #endif
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), j, il::io, i);
+  array_.Append(il::KeyValue<K, V>(std::move(key), std::move(value)));
+  map_.Set(array_[j].key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  hash_ = map_.hash();
 #endif
 }
 
@@ -185,7 +202,7 @@ il::spot_t MapArray<K, V, F>::search(const K& key) const {
 template <typename K, typename V, typename F>
 template <il::int_t m>
 il::spot_t MapArray<K, V, F>::searchCString(const char (&key)[m]) const {
-  const il::spot_t i = map_.search(key);
+  const il::spot_t i = map_.searchCString(key);
   il::spot_t s;
   s.index = map_.found(i) ? map_.value(i) : i.index;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From 1338c2815c44e86887576ca2f478a654a47541e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 034/170] fix: Map::SetCString with a pointer and a length
 compiles

---
 il/container/hash/Map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index e9a35cb..b5b437b 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -626,7 +626,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
       3 * static_cast<std::size_t>(nb_buckets)) {
     // The key and the value might live in the buckets which are going to be
     // replaced
-    K new_key(key, n);
+    K new_key(il::StringType::Utf8, key, n);
     V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
@@ -640,7 +640,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
   if (F::isTombstone(bucket_[i_local].key)) {
     --nb_tombstones_;
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
+  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Utf8, key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
 
-- 
2.43.0


From 8d18ad784dfedf80e78e30d989441e922667fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 035/170] fix: a Map constructed from an empty list has no
 element

---
 il/container/hash/Map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index b5b437b..66d3bee 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -221,6 +221,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
   if (n == 0) {
     bucket_ = nullptr;
     p_ = -1;
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
 #endif
-- 
2.43.0


From cc9a0e4e009cdb4c8854e61fd5e5bab1d8b1b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 036/170] fix: Deque::PopBack of the last element leaves the
 deque empty

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..a3d4390 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -216,7 +216,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From abb52a70a69af639f0fdd1e0fa1de054d0e8bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 037/170] fix: Deque::PushBack on a full deque does not
 overwrite its front

---
 il/container/deque/Deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index a3d4390..78446b4 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,8 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +156,8 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From fc2251c76fe55006f398509eb47e0bca6af73541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 038/170] fix: a moved-from Deque is empty

---
 il/container/deque/Deque.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index 78446b4..b1bfd55 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -35,6 +35,10 @@ class Deque {
  public:
   Deque();
   Deque(il::int_t n);
+  Deque(const il::Deque<T>& deque) = default;
+  Deque(il::Deque<T>&& deque);
+  il::Deque<T>& operator=(const il::Deque<T>& deque) = default;
+  il::Deque<T>& operator=(il::Deque<T>&& deque);
   il::int_t size() const;
   il::int_t capacity() const;
   void Reserve(il::int_t n);
@@ -67,6 +71,26 @@ Deque<T>::Deque(il::int_t n) : data_{n} {
   back_ = -1;
 }
 
+template <typename T>
+Deque<T>::Deque(il::Deque<T>&& deque) : data_{std::move(deque.data_)} {
+  front_ = deque.front_;
+  back_ = deque.back_;
+  deque.front_ = -1;
+  deque.back_ = -1;
+}
+
+template <typename T>
+il::Deque<T>& Deque<T>::operator=(il::Deque<T>&& deque) {
+  if (this != &deque) {
+    data_ = std::move(deque.data_);
+    front_ = deque.front_;
+    back_ = deque.back_;
+    deque.front_ = -1;
+    deque.back_ = -1;
+  }
+  return *this;
+}
+
 template <typename T>
 il::int_t Deque<T>::size() const {
   if (front_ == -1) {
-- 
2.43.0


From 54f05b57e9332822dccd51afbb39403dac401f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 039/170] fix: Tree::depth is the depth of the deepest node

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..3d91221 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -88,7 +88,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From b29266686087669eb3eedf645616573b5c38585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 040/170] fix: a Tree node which has been set is not empty

---
 il/container/tree/Tree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 3d91221..176db70 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -118,9 +118,8 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  // The node is valid and not empty
+  tree_[s.index].flag = tree_[s.index].flag | 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From 10f32c5928fbe32128d85c927c97f3bc822e4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 041/170] fix: a Tree node keeps track of all its children

---
 il/container/tree/Tree.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 176db70..51e85ea 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -36,17 +36,18 @@ namespace il {
 template <typename T, il::int_t n>
 class Tree {
  private:
+  static_assert(n >= 2 && n <= 30, "il::Tree: 2 to 30 children per node");
+
   struct Node {
    public:
     T value;
-    unsigned char flag;
+    unsigned int flag;
 
    public:
     Node() : Node{false} {};
     Node(bool valid)
         : value{},
-          flag{valid ? static_cast<unsigned char>(1)
-                     : static_cast<unsigned char>(0)} {};
+          flag{valid ? 1u : 0u} {};
     bool isValid() const { return (flag % 2) == 1; };
     bool isEmpty() const { return ((flag / 2) % 2) == 0; };
     bool hasChild() const { return flag >= 4; };
@@ -134,20 +135,9 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  return ((tree_[s.index].flag >> (2 + i)) % 2) == 1;
 };
 
 template <typename T, il::int_t n>
@@ -169,7 +159,7 @@ template <typename T, il::int_t n>
 void Tree<T, n>::AddChild(il::spot_t s, il::int_t i) {
   IL_EXPECT_MEDIUM(i >= 0 && i < n);
 
-  unsigned char flag = 1 << (2 + i);
+  const unsigned int flag = 1u << (2 + i);
   tree_[s.index].flag = tree_[s.index].flag | flag;
   if (n * s.index + 1 + i >= tree_.size()) {
     tree_.Resize(n * s.index + 2 + i);
-- 
2.43.0


From 2fb263f6ea0f17ac8a3a9a5a343b5ed67f9a185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 042/170] fix: moving a String keeps its storage

---
 il/container/string/String.h | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..ec07004 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -360,16 +360,9 @@ inline String::String(const il::StringView& s)
 inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 
 inline String::String(String&& s) {
-  const il::int_t size = s.size();
-  const il::StringType type = s.type();
-  if (size <= max_small_size_) {
-    std::memcpy(small_, s.asCString(), size + 1);
-    setSmall(type, size);
-  } else {
-    large_.data = s.large_.data;
-    large_.size = s.large_.size;
-    large_.capacity = s.large_.capacity;
-  }
+  // The representation (small or large) does not depend upon the address of the
+  // object: even a large storage which contains a short string changes hands
+  std::memcpy(small_, s.small_, sizeof(LargeString));
   s.small_[0] = '\0';
   s.setSmall(il::StringType::Ascii, 0);
 }
@@ -432,21 +425,12 @@ inline String& String::operator=(const String& s) {
 
 inline String& String::operator=(String&& s) {
   if (this != &s) {
-    const il::int_t size = s.size();
-    const il::StringType type = s.type();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
-      std::memcpy(small_, s.data(), size + 1);
-      setSmall(type, size);
-    } else {
-      large_.data = s.large_.data;
-      large_.size = s.large_.size;
-      large_.capacity = s.large_.capacity;
-      s.small_[0] = '\0';
-      s.setSmall(il::StringType::Ascii, 0);
+    if (!isSmall()) {
+      il::deallocate(large_.data);
     }
+    std::memcpy(small_, s.small_, sizeof(LargeString));
+    s.small_[0] = '\0';
+    s.setSmall(il::StringType::Ascii, 0);
   }
   return *this;
 }
-- 
2.43.0


From 848d9154fbb73be7aed8b646c548db916acc2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 043/170] fix: String copy assignment from itself

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index ec07004..555c802 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -397,6 +397,9 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From a561122f5d094e55cfb54f5ee81b60999b62cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 044/170] fix: growing a String with a large storage and few
 characters

---
 il/container/string/String.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 555c802..414fcc0 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1044,13 +1044,12 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
+  if (n <= old_capacity) {
+    if (old_is_small) {
+      setSmall(il::StringType::Byte, n);
+    } else {
+      setLarge(il::StringType::Byte, n, old_capacity);
     }
-    setSmall(il::StringType::Byte, n);
-  } else if (n <= old_capacity) {
-    setLarge(il::StringType::Byte, n, old_capacity);
   } else {
     const il::int_t r = nextCapacity(n);
     char* p = il::allocateArray<char>(r + 1);
-- 
2.43.0


From e71af880f1424d5bde038b7a5a8c1327511ec496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 045/170] fix: String::Append many runes

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 414fcc0..8d89294 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -593,7 +593,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
@@ -606,7 +606,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From d683275c06d0d1b2766ad74ee0fbc5ac41612611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 046/170] fix: appending to a String a view of itself

---
 il/container/string/String.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 8d89294..7e26576 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -164,6 +164,9 @@ class String {
  private:
   il::int_t smallSize() const;
   il::int_t largeCapacity() const;
+  // Position in this string of the characters s points to, -1 if they are not
+  // part of this string
+  il::int_t position(const char* s) const;
   // Does not set the '\0'. You are responsible for that.
   void setSmall(il::StringType type, il::int_t n);
   // Does not set the '\0'. You are responsible for that.
@@ -667,9 +670,10 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
 
   const il::int_t old_n = size();
   const il::StringType t = joinType(type(), t0);
+  const il::int_t i = position(data);
   Grow(il::unsafe, old_n, old_n + n);
   char* p = this->Data();
-  std::memcpy(p + old_n, data, n);
+  std::memcpy(p + old_n, i >= 0 ? p + i : data, n);
   p[old_n + n] = '\0';
   SetInvariant(il::unsafe, t, old_n + n);
 }
@@ -678,9 +682,10 @@ inline void String::Append(const StringView& s0) {
   const il::int_t old_n = size();
   const il::int_t n0 = s0.size();
   const il::StringType t = joinType(type(), s0.type());
+  const il::int_t i0 = position(s0.data());
   Grow(il::unsafe, old_n, old_n + n0);
   char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
+  std::memcpy(p + old_n, i0 >= 0 ? p + i0 : s0.data(), n0);
   p[old_n + n0] = '\0';
   SetInvariant(il::unsafe, t, old_n + n0);
 }
@@ -690,10 +695,12 @@ inline void String::Append(const StringView& s0, const StringView& s1) {
   const il::int_t n0 = s0.size();
   const il::int_t n1 = s1.size();
   const il::StringType t = joinType(type(), s0.type(), s1.type());
+  const il::int_t i0 = position(s0.data());
+  const il::int_t i1 = position(s1.data());
   Grow(il::unsafe, old_n, old_n + n0 + n1);
   char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
+  std::memcpy(p + old_n, i0 >= 0 ? p + i0 : s0.data(), n0);
+  std::memcpy(p + old_n + n0, i1 >= 0 ? p + i1 : s1.data(), n1);
   p[old_n + n0 + n1] = '\0';
   SetInvariant(il::unsafe, t, old_n + n0 + n1);
 }
@@ -705,11 +712,14 @@ inline void String::Append(const StringView& s0, const StringView& s1,
   const il::int_t n1 = s1.size();
   const il::int_t n2 = s2.size();
   const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
+  const il::int_t i0 = position(s0.data());
+  const il::int_t i1 = position(s1.data());
+  const il::int_t i2 = position(s2.data());
   Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
   char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  std::memcpy(p + old_n + n0 + n1, s2.data(), n2);
+  std::memcpy(p + old_n, i0 >= 0 ? p + i0 : s0.data(), n0);
+  std::memcpy(p + old_n + n0, i1 >= 0 ? p + i1 : s1.data(), n1);
+  std::memcpy(p + old_n + n0 + n1, i2 >= 0 ? p + i2 : s2.data(), n2);
   p[old_n + n0 + n1 + n2] = '\0';
   SetInvariant(il::unsafe, t, old_n + n0 + n1 + n2);
 }
@@ -1071,6 +1081,14 @@ inline void String::SetInvariant(il::unsafe_t, il::StringType type,
   }
 }
 
+inline il::int_t String::position(const char* s) const {
+  const std::size_t begin = reinterpret_cast<std::size_t>(data());
+  const std::size_t p = reinterpret_cast<std::size_t>(s);
+  return p >= begin && p - begin < static_cast<std::size_t>(size())
+             ? static_cast<il::int_t>(p - begin)
+             : -1;
+}
+
 inline il::int_t String::smallSize() const {
   return small_[max_small_size_ + 1] & static_cast<unsigned char>(0x1F);
 }
-- 
2.43.0


From adefb6e81f584e5100c73ebcefd56212e59dd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 047/170] fix: String::Insert bounds, terminator, type and
 memory

---
 il/container/string/String.h | 133 ++++++++---------------------------
 1 file changed, 31 insertions(+), 102 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7e26576..5774918 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -164,6 +164,9 @@ class String {
  private:
   il::int_t smallSize() const;
   il::int_t largeCapacity() const;
+  // Moves the characters from position i, to leave room for n characters at this
+  // position
+  void MakeRoom(il::StringType type, il::int_t i, il::int_t n);
   // Position in this string of the characters s points to, -1 if they are not
   // part of this string
   il::int_t position(const char* s) const;
@@ -732,66 +735,25 @@ inline void String::Insert(il::int_t i, char c) {
     IL_EXPECT_MEDIUM(isRuneBoundary(i));
   }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + 1 <= old_capacity) {
-    for (il::int_t k = old_size; k >= i + 1; k--) {
-      p[k] = p[k - 1];
-    }
-    p[i] = c;
-    if (old_is_small) {
-      setSmall(type(), old_size + 1);
-    } else {
-      setLarge(type(), old_size + 1, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + 1);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    new_p[i] = c;
-    std::memcpy(new_p + i + 1, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + 1, r);
-  }
+  MakeRoom(type(), i, 1);
+  Data()[i] = c;
 }
 
 // inline void String::Insert(il::int_t i, int rune) {}
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
+  MakeRoom(type(), i, n);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    for (il::int_t k = i; k < i + n; ++k) {
-      p[k] = c;
-    }
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    for (il::int_t k = i; k < i + n; ++k) {
-      new_p[k] = c;
-    }
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
+  for (il::int_t k = i; k < i + n; ++k) {
+    p[k] = c;
   }
 }
 
@@ -799,68 +761,26 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
 
 template <il::int_t m>
 inline void String::Insert(il::int_t i, const char (&s)[m]) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
-                 static_cast<std::size_t>(size()));
-  if (type() == il::StringType::Utf8) {
-    IL_EXPECT_FAST(isRuneBoundary(i));
-  }
-
-  const il::int_t n = m - 1;
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
-  }
+  Insert(i, il::StringType::Utf8, s, m - 1);
 }
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  const il::StringType t_new = il::joinType(type(), t);
-  char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(t_new, old_size + n);
-    } else {
-      setLarge(t_new, old_size + n, old_capacity);
-    }
+  if (position(s) >= 0) {
+    // The inserted characters belong to this string and are about to move
+    const il::String copy{t, s, n};
+    MakeRoom(il::joinType(type(), t), i, n);
+    std::memcpy(Data() + i, copy.data(), n);
   } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(t_new, old_size + n, r);
+    MakeRoom(il::joinType(type(), t), i, n);
+    std::memcpy(Data() + i, s, n);
   }
 }
 
@@ -1081,6 +1001,15 @@ inline void String::SetInvariant(il::unsafe_t, il::StringType type,
   }
 }
 
+inline void String::MakeRoom(il::StringType type, il::int_t i, il::int_t n) {
+  const il::int_t old_size = size();
+  Grow(il::unsafe, old_size, old_size + n);
+  char* p = Data();
+  std::memmove(p + i + n, p + i, static_cast<std::size_t>(old_size - i));
+  p[old_size + n] = '\0';
+  SetInvariant(il::unsafe, type, old_size + n);
+}
+
 inline il::int_t String::position(const char* s) const {
   const std::size_t begin = reinterpret_cast<std::size_t>(data());
   const std::size_t p = reinterpret_cast<std::size_t>(s);
-- 
2.43.0


From ff6b5bf8bd98e6b7f1b222cb7f23d4c2388468e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 048/170] fix: String::substring and String::subview of large
 strings

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 5774918..564298a 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -837,7 +837,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -851,7 +851,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From e18b472be12e05038b206025fe5807edccdcd91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 049/170] fix: String::endsWith a character

---
 il/container/string/String.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 564298a..032b136 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -911,12 +911,7 @@ inline bool String::endsWith(char c) const {
   if (n == 0) {
     return false;
   }
-  const char* s = data();
-  if (*s == 'c') {
-    return true;
-  } else {
-    return false;
-  }
+  return data()[n - 1] == c;
 }
 
 inline const char* String::asCString() const {
-- 
2.43.0


From 5dad1288f4295a9f9afc4067497246feaeb5deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 050/170] fix: comparing a String or a StringView with a C
 string

---
 il/container/string/String.h | 36 +++++++-----------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 032b136..90d404c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -919,29 +919,13 @@ inline const char* String::asCString() const {
 }
 
 inline bool String::isEqual(const char* s) const {
-  bool ans = true;
-  const char* p = data();
-  il::int_t i = 0;
-  while (ans && s[i] != '\0') {
-    if (p[i] != s[i]) {
-      ans = false;
-    }
-    ++i;
-  }
-  return ans;
+  const std::size_t n = std::strlen(s);
+  return n == static_cast<std::size_t>(size()) &&
+         std::memcmp(data(), s, n) == 0;
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
-  const char* p = data();
-  il::int_t i = 0;
-  while (ans && i < n) {
-    if (p[i] != s[i]) {
-      ans = false;
-    }
-    ++i;
-  }
-  return ans;
+  return n == size() && std::memcmp(data(), s, static_cast<std::size_t>(n)) == 0;
 }
 
 inline const char* String::data() const {
@@ -1353,15 +1337,9 @@ inline StringView StringView::subview(il::int_t i0, il::int_t i1) const {
 //}
 
 inline bool StringView::operator==(const char* string) const {
-  bool match = true;
-  il::int_t k = 0;
-  while (match && k < size() && string[k] != '\0') {
-    if (data_[k] != string[k]) {
-      match = false;
-    }
-    ++k;
-  }
-  return match;
+  const std::size_t n = std::strlen(string);
+  return n == static_cast<std::size_t>(size()) &&
+         (n == 0 || std::memcmp(data_, string, n) == 0);
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From b74bebb8ecc75318edde4c7b90a3ebbd37fcb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 051/170] fix: a trail surrogate is not a rune

---
 il/container/string/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 90d404c..ee94817 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -239,11 +239,11 @@ class StringView {
 
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < surrogate_min || urune > surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
-- 
2.43.0


From 2ec31861f6482e962317ed34ba8dbf3a6b2bc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 052/170] fix: ordering of Strings which contain the character
 0

---
 il/container/string/String.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index ee94817..aecfdd4 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1443,8 +1443,11 @@ inline il::String join(const il::StringView& s0, const il::StringView& s1,
 }
 
 inline bool operator<(const il::String& s0, const il::String& s1) {
-  const int compare = std::strcmp(s0.data(), s1.data());
-  return compare < 0;
+  const il::int_t n0 = s0.size();
+  const il::int_t n1 = s1.size();
+  const int compare = std::memcmp(s0.data(), s1.data(),
+                                  static_cast<std::size_t>(n0 < n1 ? n0 : n1));
+  return compare < 0 || (compare == 0 && n0 < n1);
 }
 
 inline bool operator<(const char* s0, const il::String& s1) {
-- 
2.43.0


From 7ab003bc20483572a33c98476bab7a529f4b6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 053/170] fix: writing a StringView in a stream stops at its
 end

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index aecfdd4..56ce2cb 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1515,7 +1515,7 @@ inline std::ostream& operator<<(std::ostream& os, const String& s) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const StringView& s) {
-  return os << s.data();
+  return os.write(s.data(), static_cast<std::streamsize>(s.size()));
 }
 
 }  // namespace il
-- 
2.43.0


From 9a3e23600d7fcc16ae32ca52a83e94d9a55b551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 054/170] fix: toString of integers with more than 11
 characters

---
 il/container/string/algorithmString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..37fe085 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,8 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From 34b48486554cc85c3509310b9fe75ef4dd8d5e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 055/170] fix: isUtf8 recognizes well-formed UTF-8

---
 il/container/string/String.h | 91 ++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 56ce2cb..56f7974 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1093,59 +1093,50 @@ inline constexpr bool isAscii(const char* data) {
 //  return ans;
 //}
 
-inline constexpr bool auxIsUtf8(const char* s, int nbBytes, int pos,
-                                bool surrogate) {
-  return (pos == 0)
-             // If it starts with the null character, the string is valid
-             ? ((*s == 0x00)
-                    ? true
-                    // Otherwise, let's check if is starts with an ASCII
-                    // character
-                    : ((*s & 0x80) == 0
-                           // In this case, check the rest of the string
-                           ? auxIsUtf8(s + 1, 0, 0, false)
-                           // Otherwise, it might start with a 2-byte sequence
-                           : ((*s & 0xD0) == 0xB0
-                                  // In this case, check the rest of the string
-                                  ? auxIsUtf8(s + 1, 2, 1, false)
-                                  // Otherwise, it might start with a 3-byte
-                                  // sequence
-                                  : ((*s & 0xF0) == 0xD0
-                                         // In this case, check the rest of the
-                                         // string
-                                         ? auxIsUtf8(
-                                               s + 1, 3, 1,
-                                               (static_cast<unsigned char>(
-                                                    *s) == 0xED))
-                                         // Otherwise, it might start with a
-                                         // 4-byte sequence
-                                         : ((*s & 0xF8) == 0xF0
-                                                ? auxIsUtf8(s + 1, 4, 1, false)
-                                                : false)))))
-             // In the case where we are scanning the second byte of a multibyte
-             // sequence
-             : ((pos == 1)
-                    ? ((*s & 0xC0) == 0x80
-                           ? (nbBytes == 2 ? ((*s & 0xA0) != 0xA0)
-                                           : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                       surrogate))
-                           : false)
-                    // In the case where we are scanning the third byte of a
-                    // multibyte sequence
-                    : ((pos == 2)
-                           ? ((*s & 0xC0) == 0x80
-                                  ? (nbBytes == 3
-                                         ? true
-                                         : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                     surrogate))
-                                  : false)
-                           // In the case where we are scanning the
-                           // fourth byte of a multibyte sequence
-                           : ((pos == 3) ? ((*s & 0xC0) == 0x80) : false)));
+inline constexpr bool isByteIn(const char* s, unsigned char c0,
+                               unsigned char c1) {
+  return static_cast<unsigned char>(*s) >= c0 &&
+         static_cast<unsigned char>(*s) <= c1;
+}
+
+// Length of the well-formed UTF-8 sequence at the beginning of a string (Table
+// 3-7 of the Unicode standard), 0 if it does not begin with such a sequence
+inline constexpr int utf8SequenceLength(const char* s) {
+  return isByteIn(s, 0x00, 0x7F)
+             ? 1
+             : isByteIn(s, 0xC2, 0xDF)
+                   ? (isByteIn(s + 1, 0x80, 0xBF) ? 2 : 0)
+                   : isByteIn(s, 0xE0, 0xEF)
+                         ? (isByteIn(s + 1, isByteIn(s, 0xE0, 0xE0) ? 0xA0 : 0x80,
+                                     isByteIn(s, 0xED, 0xED) ? 0x9F : 0xBF) &&
+                                    isByteIn(s + 2, 0x80, 0xBF)
+                                ? 3
+                                : 0)
+                         : isByteIn(s, 0xF0, 0xF4)
+                               ? (isByteIn(s + 1,
+                                           isByteIn(s, 0xF0, 0xF0) ? 0x90 : 0x80,
+                                           isByteIn(s, 0xF4, 0xF4) ? 0x8F
+                                                                   : 0xBF) &&
+                                          isByteIn(s + 2, 0x80, 0xBF) &&
+                                          isByteIn(s + 3, 0x80, 0xBF)
+                                      ? 4
+                                      : 0)
+                               : 0;
 }
 
 inline constexpr bool isUtf8(const char* s) {
-  return auxIsUtf8(s, 0, 0, false);
+  return *s == '\0' || (utf8SequenceLength(s) > 0 &&
+                        isUtf8(s + utf8SequenceLength(s)));
+}
+
+inline bool isUtf8(const char* s, il::int_t n) {
+  const il::String string{il::StringType::Byte, s, n};
+  const char* p = string.data();
+  il::int_t i = 0;
+  while (i < n && utf8SequenceLength(p + i) > 0) {
+    i += utf8SequenceLength(p + i);
+  }
+  return i == n;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 262e1f8df5dfdb9571e4d11458e49f26dfba791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 056/170] fix: moving an UTF16String keeps its storage

---
 il/container/string/UTF16String.h | 32 ++++++++-----------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..ad2de9f 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -132,17 +132,9 @@ inline UTF16String::UTF16String(const UTF16String& s) {
 }
 
 inline UTF16String::UTF16String(UTF16String&& s) {
-  const il::int_t size = s.size();
-  if (size <= max_small_size_) {
-    std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
-    SetSmallSize(size);
-  } else {
-    large_.data = s.large_.data;
-    large_.size = s.large_.size;
-    large_.capacity = s.large_.capacity;
-    s.data_[0] = static_cast<unsigned short>('\0');
-    s.SetSmallSize(0);
-  }
+  std::memcpy(data_, s.data_, sizeof(LargeUTF16String));
+  s.data_[0] = static_cast<unsigned short>('\0');
+  s.SetSmallSize(0);
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
@@ -174,20 +166,12 @@ inline UTF16String& UTF16String::operator=(const UTF16String& s) {
 
 inline UTF16String& UTF16String::operator=(UTF16String&& s) {
   if (this != &s) {
-    const il::int_t size = s.size();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
-      std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
-      SetSmallSize(size);
-    } else {
-      large_.data = s.large_.data;
-      large_.size = s.large_.size;
-      large_.capacity = s.large_.capacity;
-      s.data_[0] = static_cast<unsigned short>('\0');
-      s.SetSmallSize(0);
+    if (!isSmall()) {
+      il::deallocate(large_.data);
     }
+    std::memcpy(data_, s.data_, sizeof(LargeUTF16String));
+    s.data_[0] = static_cast<unsigned short>('\0');
+    s.SetSmallSize(0);
   }
   return *this;
 }
-- 
2.43.0


From 75927357bb5fd283fcc15d5a7be50d6dcec427ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 057/170] fix: UTF16String copy assignment from itself

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index ad2de9f..54a4e98 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -138,6 +138,9 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From b2fb779b180fa050a18c18993a8a3325bd7cab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 058/170] fix: UTF16String::Append many characters

---
 il/container/string/UTF16String.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 54a4e98..30f86c6 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -259,7 +259,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
@@ -308,8 +308,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From afb2f338d352b7cdc8a7493f054b6c0fe3773d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 059/170] fix: a trail surrogate is not a rune of an
 UTF16String

---
 il/container/string/UTF16String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 30f86c6..eff4ec3 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -414,11 +414,11 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < surrogate_min || ucp > surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From 11fc4f556543aa935dbdf763bcca4e4a91c4b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 060/170] fix: appending an UTF16String to itself

---
 il/container/string/UTF16String.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index eff4ec3..6f0ada4 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -398,6 +398,11 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
   const il::int_t old_size = size();
+  if (reinterpret_cast<const unsigned short*>(data) == this->data()) {
+    const il::UTF16String copy{*this};
+    Append(copy.asWString(), n);
+    return;
+  }
   const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
   Reserve(new_capacity);
 
-- 
2.43.0


From 0e2b83fd62154687408b921531738dd846b43d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 061/170] fix: conversions between UTF-8 and UTF-16 do not add
 a character

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From cd3e4d2d1a89afa659cd71fc6fe4464a06651ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 062/170] fix: il::Dynamic can be constructed from an
 il::Array<short> to be moved

---
 il/container/dynamic/Dynamic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..1993f7e 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -267,6 +267,12 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
   *reinterpret_cast<il::Array<short> **>(&data_) = new il::Array<short>{value};
 }
 
+inline Dynamic::Dynamic(il::Array<short> &&value) {
+  type_ = il::Type::ArrayOfInt16;
+  *reinterpret_cast<il::Array<short> **>(&data_) =
+      new il::Array<short>{std::move(value)};
+}
+
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
   type_ = il::Type::ArrayOfInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
-- 
2.43.0


From f31f47d0b2ad2c65256b27467be7f0feca7eca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 063/170] fix: type of an il::Dynamic storing an
 il::Array<unsigned int>

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 1993f7e..6a99a92 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -274,13 +274,13 @@ inline Dynamic::Dynamic(il::Array<short> &&value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From e7eebdaf0623128f483c00dc344c1a09a576ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 064/170] fix: copy and release of an il::Dynamic storing a 2D
 array

---
 il/container/dynamic/Dynamic.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 6a99a92..5c2a29d 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -638,6 +638,16 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{
+              *reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
@@ -698,6 +708,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     default:
       IL_UNREACHABLE;
   }
-- 
2.43.0


From 83a19a898748e3d05ed115688b70577140baafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 065/170] fix: types of the integers stored in an il::Dynamic

---
 il/container/dynamic/Type.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 33c6bee..a2777cb 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -222,6 +222,31 @@ inline il::Type typeId<bool>() {
   return il::Type::Bool;
 }
 
+template <>
+inline il::Type typeId<unsigned char>() {
+  return il::Type::UInt8;
+}
+
+template <>
+inline il::Type typeId<signed char>() {
+  return il::Type::Int8;
+}
+
+template <>
+inline il::Type typeId<unsigned short>() {
+  return il::Type::UInt16;
+}
+
+template <>
+inline il::Type typeId<short>() {
+  return il::Type::Int16;
+}
+
+template <>
+inline il::Type typeId<unsigned int>() {
+  return il::Type::UInt;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
@@ -232,6 +257,11 @@ template <>
 inline il::Type typeId<il::int_t>() {
   return il::Type::Integer;
 }
+
+template <>
+inline il::Type typeId<std::size_t>() {
+  return il::Type::UInteger;
+}
 #endif
 
 template <>
-- 
2.43.0


From 61f8d2eceb88911a45468da4e3f98cd98b59bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 066/170] fix: assignment of a part of an il::Dynamic to itself

---
 il/container/dynamic/Dynamic.h | 43 +++++++++++++---------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 5c2a29d..753a2eb 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -463,21 +463,13 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
-  return *this;
+  // value might belong to this object
+  return *this = il::Dynamic{value};
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
-  return *this;
+  // value might belong to this object
+  return *this = il::Dynamic{std::move(value)};
 }
 
 inline Dynamic::Dynamic(const il::Dynamic &other) {
@@ -496,25 +488,22 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
-  return *this;
+  // other might be this object, or belong to it
+  return *this = il::Dynamic{other};
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
+  if (this != &other) {
+    // other might belong to this object
+    const il::Type type = other.type_;
+    const std::uint64_t data = other.data_;
+    other.type_ = il::Type::Void;
+    if (!isStackAllocated()) {
+      ReleaseMemory();
+    }
+    type_ = type;
+    data_ = data;
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
   return *this;
 }
 
-- 
2.43.0


From 76f06f4878305ea3fd47c06824cd632e037f28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 067/170] fix: il::Info releases its memory

---
 il/container/info/Info.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..1523517 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -160,6 +161,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +171,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 56582890e2babe305031c563426d6ac1b4666b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 068/170] fix: il::Info::search compares whole keys and returns
 the last value set

---
 il/container/info/Info.h | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 1523517..518cfa1 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -273,24 +273,17 @@ inline void Info::Set(const char* key, const char* value) {
 
 inline il::int_t Info::search(const char* key) const {
   const unsigned char* p = data();
-  il::int_t i = 0;
-  bool found = false;
-  il::int_t j;
-  while (!found && i < size()) {
-    const int step = get_int(i);
-
-    j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
-      ++j;
-    }
-    if (p[i + sizeof(int) + j] == '\0') {
-      found = true;
-    } else {
-      i += step;
+  const std::size_t length = strlen(key) + 1;
+  const il::int_t n = size();
+  // The last value set for a given key is the one to be returned
+  il::int_t ans = -1;
+  for (il::int_t i = 0; i < n; i += get_int(i)) {
+    const char* local_key = reinterpret_cast<const char*>(p + i + sizeof(int));
+    if (strcmp(local_key, key) == 0) {
+      ans = i + static_cast<il::int_t>(sizeof(int) + length);
     }
   }
-
-  return found ? i + static_cast<il::int_t>(sizeof(int)) + j + 1 : -1;
+  return ans;
 }
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
-- 
2.43.0


From d8d6bcab4168dc4679d2726876c0c3a41167065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 069/170] fix: an int set in an il::Info can be read

---
 il/container/info/Info.h | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 518cfa1..9a2e7cb 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -177,29 +177,12 @@ inline Info::~Info() {
   }
 }
 
+#ifdef IL_64_BIT
 inline void Info::Set(const char* key, int value) {
-  const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
-
-  Set(n, p + i);
-  i += sizeof(int);
-
-  for (il::int_t j = 0; j < key_length + 1; ++j) {
-    p[i + j] = key[j];
-  }
-  i += key_length + 1;
-
-  p[i] = 3;
-  ++i;
-
-  Set(value, p + i);
+  Set(key, static_cast<il::int_t>(value));
 }
+#endif
 
-#ifdef IL_64_BIT
 inline void Info::Set(const char* key, il::int_t value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n =
@@ -222,7 +205,6 @@ inline void Info::Set(const char* key, il::int_t value) {
 
   Set(value, p + i);
 }
-#endif
 
 inline void Info::Set(const char* key, double value) {
   const int key_length = static_cast<int>(strlen(key));
-- 
2.43.0


From 93698acf3bf2015a1ca7f8a5ed0246dc02986f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 070/170] fix: booleans in il::Info

---
 il/container/info/Info.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 9a2e7cb..a239624 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -206,6 +206,28 @@ inline void Info::Set(const char* key, il::int_t value) {
   Set(value, p + i);
 }
 
+inline void Info::Set(const char* key, bool value) {
+  const int key_length = static_cast<int>(strlen(key));
+  const int n = key_length + 3 + static_cast<int>(sizeof(int));
+  il::int_t i = size();
+  Resize(i + n);
+
+  unsigned char* p = data();
+
+  Set(n, p + i);
+  i += sizeof(int);
+
+  for (il::int_t j = 0; j < key_length + 1; ++j) {
+    p[i + j] = key[j];
+  }
+  i += key_length + 1;
+
+  p[i] = 3;
+  ++i;
+
+  p[i] = value ? 1 : 0;
+}
+
 inline void Info::Set(const char* key, double value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
@@ -270,12 +292,20 @@ inline il::int_t Info::search(const char* key) const {
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
 
+inline bool Info::isBool(il::int_t i) const { return data()[i] == 3; }
+
 inline bool Info::isInteger(il::int_t i) const { return data()[i] == 0; }
 
 inline bool Info::isDouble(il::int_t i) const { return data()[i] == 1; }
 
 inline bool Info::isString(il::int_t i) const { return data()[i] == 2; }
 
+inline bool Info::toBool(il::int_t i) const {
+  IL_EXPECT_FAST(isBool(i));
+
+  return data()[i + 1] != 0;
+}
+
 inline il::int_t Info::toInteger(il::int_t i) const {
   IL_EXPECT_FAST(isInteger(i));
 
@@ -312,6 +342,13 @@ inline const char* Info::asCString(il::int_t i) const {
   return reinterpret_cast<const char*>(data()) + i + 1;
 }
 
+inline bool Info::toBool(const char* key) const {
+  const il::int_t i = search(key);
+  IL_ENSURE(found(i));
+
+  return toBool(i);
+}
+
 inline il::int_t Info::toInteger(const char* key) const {
   const il::int_t i = search(key);
   IL_ENSURE(found(i));
-- 
2.43.0


From fb437a0e2bcdb8809d7337901cd9d62ed6d73285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 071/170] fix: il::Info::Set with a key or a value that belongs
 to the object

---
 il/container/info/Info.h | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index a239624..f7bb7e6 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -21,6 +21,7 @@
 
 #include <il/core.h>
 #include <cstring>
+#include <utility>
 
 namespace il {
 
@@ -188,9 +189,11 @@ inline void Info::Set(const char* key, il::int_t value) {
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
-  Resize(i + n);
+  // key and value might belong to this object
+  il::Info info{*this};
+  info.Resize(i + n);
 
-  unsigned char* p = data();
+  unsigned char* p = info.data();
 
   Set(n, p + i);
   i += sizeof(int);
@@ -204,15 +207,19 @@ inline void Info::Set(const char* key, il::int_t value) {
   ++i;
 
   Set(value, p + i);
+
+  *this = std::move(info);
 }
 
 inline void Info::Set(const char* key, bool value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 3 + static_cast<int>(sizeof(int));
   il::int_t i = size();
-  Resize(i + n);
+  // key and value might belong to this object
+  il::Info info{*this};
+  info.Resize(i + n);
 
-  unsigned char* p = data();
+  unsigned char* p = info.data();
 
   Set(n, p + i);
   i += sizeof(int);
@@ -226,15 +233,19 @@ inline void Info::Set(const char* key, bool value) {
   ++i;
 
   p[i] = value ? 1 : 0;
+
+  *this = std::move(info);
 }
 
 inline void Info::Set(const char* key, double value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
   il::int_t i = size();
-  Resize(i + n);
+  // key and value might belong to this object
+  il::Info info{*this};
+  info.Resize(i + n);
 
-  unsigned char* p = data();
+  unsigned char* p = info.data();
 
   Set(n, p + i);
   i += sizeof(int);
@@ -248,6 +259,8 @@ inline void Info::Set(const char* key, double value) {
   ++i;
 
   Set(value, p + i);
+
+  *this = std::move(info);
 }
 
 inline void Info::Set(const char* key, const char* value) {
@@ -255,9 +268,11 @@ inline void Info::Set(const char* key, const char* value) {
   const int value_length = static_cast<int>(strlen(value));
   const int n = key_length + value_length + 3 + static_cast<int>(sizeof(int));
   il::int_t i = size();
-  Resize(i + n);
+  // key and value might belong to this object
+  il::Info info{*this};
+  info.Resize(i + n);
 
-  unsigned char* p = data();
+  unsigned char* p = info.data();
 
   Set(n, p + i);
   i += sizeof(int);
@@ -273,6 +288,8 @@ inline void Info::Set(const char* key, const char* value) {
   for (il::int_t j = 0; j < value_length + 1; ++j) {
     p[i + j] = value[j];
   }
+
+  *this = std::move(info);
 }
 
 inline il::int_t Info::search(const char* key) const {
-- 
2.43.0


From 095f622e5ec3a74db3f6fb7ee29cf98436abb5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 072/170] fix: il::Status::domain is defined

---
 il/container/info/Status.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 5a63664..8a54ebf 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -255,6 +255,12 @@ inline il::Error Status::error() const {
 
   return error_;
 }
+
+inline il::ErrorDomain Status::domain() const {
+  IL_EXPECT_MEDIUM(!to_check_);
+
+  return il::domain(error_);
+}
 }  // namespace il
 
 #endif  // IL_STATUS_H
-- 
2.43.0


From efd067fb36b7d4ac6ac4318c56eb8895d9a8a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 073/170] fix: ParseTable and ParseDuplicateKey are different
 errors

---
 il/container/info/Status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 8a54ebf..ef982d8 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -63,7 +63,7 @@ enum class Error : unsigned short {
   ParseHeterogeneousArray = 1 * 256 + 12,
   ParseArray = 1 * 256 + 13,
   ParseTable = 1 * 256 + 14,
-  ParseDuplicateKey = 1 * 256 + 14,
+  ParseDuplicateKey = 1 * 256 + 17,
   ParseKey = 1 * 256 + 15,
   ParseValue = 1 * 256 + 16,
   //
-- 
2.43.0


From e366b4cf298da500b0d79ba2ca22320fcd411697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 074/170] fix: il::safeDivision sets the error flag on success

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From a39843d96884c5ff8aa5607e164b1599ee615c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 075/170] fix: il::floor to a multiple of a negative integer

---
 il/math.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index fc77d85..5b245f4 100644
--- a/il/math.h
+++ b/il/math.h
@@ -102,9 +102,19 @@ inline double abs(std::complex<double> x) {
   return std::sqrt(re * re + im * im);
 }
 
-inline il::int_t floor(il::int_t a, int b) { return (a / b) * b; }
+inline il::int_t floor(il::int_t a, il::int_t b) {
+  il::int_t q = a / b;
+  // The integer division rounds towards zero
+  if (a % b != 0 && ((a < 0) != (b < 0))) {
+    q -= 1;
+  }
+  return q * b;
+}
+
+inline il::int_t floor(il::int_t a, int b) {
+  return il::floor(a, static_cast<il::int_t>(b));
+}
 
-inline il::int_t floor(il::int_t a, il::int_t b) { return (a / b) * b; }
 // Template for pow(x,N) where N is a positive il::int_t constant.
 // General case, N is not a power of 2:
 template <bool IsPowerOf2, il::int_t N, typename T>
-- 
2.43.0


From d8e19e1b0d84e8281b4d7c0d9cecb223dbc9bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 076/170] fix: il::ipow does not compute a power that is not
 needed

---
 il/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index 5b245f4..ac20375 100644
--- a/il/math.h
+++ b/il/math.h
@@ -173,8 +173,10 @@ T ipow(T x, il::int_t n) {
     if (n & 1) {
       ans *= x;
     }
-    x *= x;
     n >>= 1;
+    if (n != 0) {
+      x *= x;
+    }
   }
   return ans;
 }
-- 
2.43.0


From ce23b165eeccbcdbc9d7653b4e683898b4d6fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 077/170] fix: overflow in il::safeProduct2Positive

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From 5ae9ae5ec4e32da65381ba4a3afafe22183ac8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 078/170] fix: il::min, il::max and il::maxAbs of arrays of
 floating point numbers

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From 6451b8899bddd265440394289a5ee3dca0c5f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 079/170] fix: il::minMax on a range

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..f24b52d 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From e5a49108bda7b055e839d356244a14241604ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 080/170] fix: il::minMax of the lowest integer

---
 il/algorithm/algorithmArray2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/algorithm/algorithmArray2D.h b/il/algorithm/algorithmArray2D.h
index bf36f4d..fddcf6b 100644
--- a/il/algorithm/algorithmArray2D.h
+++ b/il/algorithm/algorithmArray2D.h
@@ -31,9 +31,9 @@ MinMax<T> minMax(const il::Array2D<T>& A, il::Range i0_range, il::int_t i1) {
   IL_EXPECT_FAST(i0_range.begin < i0_range.end);
 
   MinMax<T> ans{};
-  ans.min = std::numeric_limits<T>::max();
-  ans.max = -std::numeric_limits<T>::max();
-  for (il::int_t i0 = i0_range.begin; i0 < i0_range.end; ++i0) {
+  ans.min = A(i0_range.begin, i1);
+  ans.max = A(i0_range.begin, i1);
+  for (il::int_t i0 = i0_range.begin + 1; i0 < i0_range.end; ++i0) {
     if (A(i0, i1) < ans.min) {
       ans.min = A(i0, i1);
     }
-- 
2.43.0


From 3bd69ce9553ef6bbc443cb586fc5977f3e50d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:46 +0000
Subject: [PATCH 081/170] fix: il::maxAbs on a range compares absolute values

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index f24b52d..db487e3 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From b2e4dbc5c7e06decf170d0aa7c1cfc30cdbfeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 082/170] fix: Set::element checks its slot in checked builds

---
 il/container/hash/Set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index 575a5b3..ca02fbc 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -261,6 +261,9 @@ void Set<T, F>::Clear() {
 
 template <typename T, typename F>
 const T& Set<T, F>::element(il::spot_t i) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i.index) <
+                   static_cast<std::size_t>(nbBuckets()));
+
   return bucket_[i.index];
 }
 
-- 
2.43.0


From eddf8b597e86db42453f6d619f2d2005cf79e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 083/170] fix: BandArray2C refuses negative sizes and widths

---
 il/container/2d/BandArray2C.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/container/2d/BandArray2C.h b/il/container/2d/BandArray2C.h
index 6dc63a8..2f84b45 100644
--- a/il/container/2d/BandArray2C.h
+++ b/il/container/2d/BandArray2C.h
@@ -49,6 +49,9 @@ class BandArray2C {
 template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n, il::int_t width)
     : element_{n, 1 + 3 * width, 0} {
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(width >= 0);
+
   n0_ = n;
   n1_ = n;
   width_left_ = width;
@@ -60,6 +63,11 @@ template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
                             il::int_t width_right)
     : element_{n0, 1 + 2 * width_left + width_right, 0} {
+  IL_EXPECT_FAST(n0 >= 0);
+  IL_EXPECT_FAST(n1 >= 0);
+  IL_EXPECT_FAST(width_left >= 0);
+  IL_EXPECT_FAST(width_right >= 0);
+
   n0_ = n0;
   n1_ = n1;
   width_left_ = width_left;
-- 
2.43.0


From c19a98ee2a3d1335e9dd54a7f9744d9f8c1fa353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 084/170] fix: SparseMatrixCSR refuses an element before the
 first one of its row

---
 il/container/2d/SparseMatrixCSR.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..8bac32a 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -252,16 +252,16 @@ T &SparseMatrixCSR<Index, T>::operator[](il::int_t k) {
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
 template <typename Index, typename T>
 T &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
-- 
2.43.0


From 1d515164c5ed81de772192579e27a2ca4454f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 085/170] fix: StringView::rune checks its index in checked
 builds

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 56f7974..a78638b 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1241,6 +1241,9 @@ inline il::int_t StringView::nextDigit(il::int_t i) const {
 }
 
 inline int StringView::rune(il::int_t i) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <
+                   static_cast<std::size_t>(size()));
+
   unsigned int ans = 0;
   const unsigned char* data =
       reinterpret_cast<const unsigned char*>(this->data());
-- 
2.43.0


From c3b67bf11975a1e896594917f06a3f6b9bb1a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 086/170] fix: a moved-from TriDiagonal is empty

---
 il/container/2d/TriDiagonal.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/il/container/2d/TriDiagonal.h b/il/container/2d/TriDiagonal.h
index 256557e..b1a01b8 100644
--- a/il/container/2d/TriDiagonal.h
+++ b/il/container/2d/TriDiagonal.h
@@ -31,6 +31,20 @@ class TriDiagonal {
 
  public:
   TriDiagonal(il::int_t n) : data_{3 * n} { size_ = n; }
+  TriDiagonal(const TriDiagonal<T>& A) = default;
+  TriDiagonal(TriDiagonal<T>&& A)
+      : size_{A.size_}, data_{std::move(A.data_)} {
+    A.size_ = 0;
+  }
+  TriDiagonal& operator=(const TriDiagonal<T>& A) = default;
+  TriDiagonal& operator=(TriDiagonal<T>&& A) {
+    if (this != &A) {
+      size_ = A.size_;
+      data_ = std::move(A.data_);
+      A.size_ = 0;
+    }
+    return *this;
+  }
   const T& operator()(il::int_t i, il::int_t k) const {
     IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <
                      static_cast<std::size_t>(size_));
-- 
2.43.0


From cca15f231e5b00c24f5b61f396e3d091f8699c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 087/170] fix: a moved-from SparseMatrixCSR is empty

---
 il/container/2d/SparseMatrixCSR.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 8bac32a..3025012 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -50,6 +50,10 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t n,
                   const il::Array<il::StaticArray<Index, 2>> &position,
                   il::io_t, il::Array<Index> &index);
+  SparseMatrixCSR(const SparseMatrixCSR<Index, T> &A) = default;
+  SparseMatrixCSR(SparseMatrixCSR<Index, T> &&A);
+  SparseMatrixCSR &operator=(const SparseMatrixCSR<Index, T> &A) = default;
+  SparseMatrixCSR &operator=(SparseMatrixCSR<Index, T> &&A);
   const T &operator[](il::int_t k) const;
   T &operator[](il::int_t k);
   const T &operator()(il::int_t i, il::int_t k) const;
@@ -73,6 +77,32 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR() : element_{}, column_{}, row_{} {
   n1_ = 0;
 }
 
+template <typename Index, typename T>
+SparseMatrixCSR<Index, T>::SparseMatrixCSR(SparseMatrixCSR<Index, T> &&A)
+    : n0_{A.n0_},
+      n1_{A.n1_},
+      element_{std::move(A.element_)},
+      column_{std::move(A.column_)},
+      row_{std::move(A.row_)} {
+  A.n0_ = 0;
+  A.n1_ = 0;
+}
+
+template <typename Index, typename T>
+SparseMatrixCSR<Index, T> &SparseMatrixCSR<Index, T>::operator=(
+    SparseMatrixCSR<Index, T> &&A) {
+  if (this != &A) {
+    n0_ = A.n0_;
+    n1_ = A.n1_;
+    element_ = std::move(A.element_);
+    column_ = std::move(A.column_);
+    row_ = std::move(A.row_);
+    A.n0_ = 0;
+    A.n1_ = 0;
+  }
+  return *this;
+}
+
 template <typename Index, typename T>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
                                            il::Array<Index> column,
-- 
2.43.0


From 9effce2434fe37509255a76dfbee67a8ac600259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 088/170] fix: a moved-from BandArray2C is empty

---
 il/container/2d/BandArray2C.h | 37 +++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/il/container/2d/BandArray2C.h b/il/container/2d/BandArray2C.h
index 2f84b45..10acb93 100644
--- a/il/container/2d/BandArray2C.h
+++ b/il/container/2d/BandArray2C.h
@@ -37,6 +37,10 @@ class BandArray2C {
   BandArray2C(il::int_t n, il::int_t width);
   BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
               il::int_t width_right);
+  BandArray2C(const BandArray2C<T>& A) = default;
+  BandArray2C(BandArray2C<T>&& A);
+  BandArray2C& operator=(const BandArray2C<T>& A) = default;
+  BandArray2C& operator=(BandArray2C<T>&& A);
   const T& operator()(il::int_t i0, il::int_t k) const;
   T& operator()(il::int_t i0, il::int_t k);
   il::int_t size(il::int_t d) const;
@@ -75,6 +79,39 @@ BandArray2C<T>::BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
   capacity_right_ = width_left + width_right;
 }
 
+template <typename T>
+BandArray2C<T>::BandArray2C(BandArray2C<T>&& A)
+    : n0_{A.n0_},
+      n1_{A.n1_},
+      width_left_{A.width_left_},
+      width_right_{A.width_right_},
+      capacity_right_{A.capacity_right_},
+      element_{std::move(A.element_)} {
+  A.n0_ = 0;
+  A.n1_ = 0;
+  A.width_left_ = 0;
+  A.width_right_ = 0;
+  A.capacity_right_ = 0;
+}
+
+template <typename T>
+BandArray2C<T>& BandArray2C<T>::operator=(BandArray2C<T>&& A) {
+  if (this != &A) {
+    n0_ = A.n0_;
+    n1_ = A.n1_;
+    width_left_ = A.width_left_;
+    width_right_ = A.width_right_;
+    capacity_right_ = A.capacity_right_;
+    element_ = std::move(A.element_);
+    A.n0_ = 0;
+    A.n1_ = 0;
+    A.width_left_ = 0;
+    A.width_right_ = 0;
+    A.capacity_right_ = 0;
+  }
+  return *this;
+}
+
 template <typename T>
 const T& BandArray2C<T>::operator()(il::int_t i0, il::int_t k) const {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0) <
-- 
2.43.0


From 4df84f8c33d2422ef4cfcbbbfc1da9dbb1dac234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 089/170] fix: a moved-from Tree can be used

---
 il/container/tree/Tree.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 51e85ea..6cc299a 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -57,6 +57,10 @@ class Tree {
  public:
   Tree();
   Tree(il::int_t depth);
+  Tree(const Tree<T, n>& tree) = default;
+  Tree(Tree<T, n>&& tree);
+  Tree& operator=(const Tree<T, n>& tree) = default;
+  Tree& operator=(Tree<T, n>&& tree);
   il::int_t depth() const;
   il::spot_t root() const;
   il::spot_t parent(il::spot_t s) const;
@@ -84,6 +88,20 @@ Tree<T, n>::Tree(il::int_t depth) {
   tree_.Resize(1, il::emplace, true);
 };
 
+template <typename T, il::int_t n>
+Tree<T, n>::Tree(Tree<T, n>&& tree) : tree_{std::move(tree.tree_)} {
+  tree.tree_.Resize(1, il::emplace, true);
+}
+
+template <typename T, il::int_t n>
+Tree<T, n>& Tree<T, n>::operator=(Tree<T, n>&& tree) {
+  if (this != &tree) {
+    tree_ = std::move(tree.tree_);
+    tree.tree_.Resize(1, il::emplace, true);
+  }
+  return *this;
+}
+
 template <typename T, il::int_t n>
 il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
-- 
2.43.0


From c21f1b65f11897a7408b47f9507b0858245cf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 090/170] fix: a moved-from il::Info is empty

---
 il/container/info/Info.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index f7bb7e6..a973012 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -121,6 +121,7 @@ inline Info::Info(Info&& other) {
   if (size <= max_small_size_) {
     std::memcpy(small_, other.data(), size);
     SetSmallSize(size);
+    other.clear();
   } else {
     large_ = other.large_;
     other.SetSmallSize(0);
@@ -161,6 +162,7 @@ inline Info& Info::operator=(Info&& other) {
       }
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
+      other.clear();
     } else {
       if (!isSmall()) {
         delete[] large_.data;
-- 
2.43.0


From 1c7b2aec055306201c757de0c13e30a3da2152dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 091/170] fix: a matrix with spare capacity is saved to .npy
 without its padding

---
 il/io/numpy/numpy.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..42b9e18 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -148,10 +148,14 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
-    if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
+    // The columns are not adjacent in memory when the matrix has spare capacity
+    il::int_t written = 0;
+    for (il::int_t j = 0; j < A.size(1); ++j) {
+      written += static_cast<il::int_t>(
+          std::fwrite(A.data() + j * A.stride(1), sizeof(T),
+                      static_cast<std::size_t>(A.size(0)), file));
+    }
+    if (written != A.size(0) * A.size(1)) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
-- 
2.43.0


From 67feed3eae226de9bb394b040ee6cab283696b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 092/170] fix: .npy files are closed when they can not be read
 or written, and hand out no partial data

---
 il/io/numpy/numpy.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 42b9e18..2fccec8 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -97,6 +97,7 @@ class SaveHelper<il::Array<T>> {
     std::size_t written = std::fwrite(v.data(), sizeof(T),
                                       static_cast<std::size_t>(v.size()), file);
     if (static_cast<il::int_t>(written) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -156,6 +157,7 @@ class SaveHelper<il::Array2D<T>> {
                       static_cast<std::size_t>(A.size(0)), file));
     }
     if (written != A.size(0) * A.size(1)) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -195,15 +197,18 @@ class LoadHelper<il::Array<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 1) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
@@ -212,6 +217,8 @@ class LoadHelper<il::Array<T>> {
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
+      std::fclose(file);
+      v = il::Array<T>{};
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
@@ -251,19 +258,23 @@ class LoadHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 2) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
     } else if (!numpy_info.fortran_order) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
       return v;
@@ -273,6 +284,8 @@ class LoadHelper<il::Array2D<T>> {
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
     if (static_cast<il::int_t>(read) != n) {
+      std::fclose(file);
+      v = il::Array2D<T>{};
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
-- 
2.43.0


From 2ba8f6d6299c8f104ba44d474b798ca4912195f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 093/170] fix: malformed headers of .npy files are reported

---
 il/io/numpy/numpy.cpp | 123 +++++++++++++++++++++++++++++-------------
 1 file changed, 85 insertions(+), 38 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index bfa155d..80ebd43 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -18,11 +18,70 @@
 
 #include <il/io/numpy/numpy.h>
 
+#include <limits>
+
 #include <il/String.h>
 #include <il/container/string/algorithmString.h>
 
 namespace il {
 
+// What follows a key (given with its quotes and its colon) in the header. It is
+// empty if there is no such key.
+static StringView numpyValue(const char* key, StringView header) {
+  const il::int_t i = il::search(key, header);
+  if (i == -1) {
+    return header.subview(0, 0);
+  }
+  il::int_t k = i + il::size(key);
+  while (k < header.size() && header[k] == ' ') {
+    ++k;
+  }
+  return header.subview(k, header.size());
+}
+
+// Read a tuple of dimensions such as "(3,)" or "(3, 4)". Returns false if the
+// string does not start with one.
+static bool numpyShape(StringView string, il::io_t,
+                       il::Array<il::int_t>& shape) {
+  const il::int_t max = std::numeric_limits<il::int_t>::max();
+  il::int_t k = 0;
+  if (string.size() == 0 || string[k] != '(') {
+    return false;
+  }
+  ++k;
+  while (true) {
+    while (k < string.size() && string[k] == ' ') {
+      ++k;
+    }
+    if (k < string.size() && string[k] == ')') {
+      return true;
+    }
+    il::int_t dimension = 0;
+    const il::int_t first_digit = k;
+    while (k < string.size() && string[k] >= '0' && string[k] <= '9') {
+      const il::int_t digit = static_cast<il::int_t>(string[k] - '0');
+      if (dimension > (max - digit) / 10) {
+        return false;
+      }
+      dimension = 10 * dimension + digit;
+      ++k;
+    }
+    if (k == first_digit) {
+      return false;
+    }
+    shape.Append(dimension);
+    while (k < string.size() && string[k] == ' ') {
+      ++k;
+    }
+    if (k == string.size() || (string[k] != ',' && string[k] != ')')) {
+      return false;
+    }
+    if (string[k] == ',') {
+      ++k;
+    }
+  }
+}
+
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   NumpyInfo numpy_info;
 
@@ -50,8 +109,9 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   }
   char major_version = buffer[6];
   char minor_version = buffer[7];
-  unsigned short header_length =
-      *reinterpret_cast<unsigned short*>(first_buffer + 8);
+  const il::int_t header_length =
+      static_cast<il::int_t>(static_cast<unsigned char>(first_buffer[8])) +
+      256 * static_cast<il::int_t>(static_cast<unsigned char>(first_buffer[9]));
   if (major_version != 1 || minor_version != 0) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
@@ -60,11 +120,14 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   // Read the header
   //
-  il::Array<char> second_buffer{header_length + 1};
+  il::Array<char> second_buffer{header_length + 1, '\0'};
+  const std::size_t read_header =
+      fread(second_buffer.Data(), sizeof(char),
+            static_cast<std::size_t>(header_length), fp);
   StringView header =
-      StringView{il::StringType::Byte, second_buffer.Data(), header_length + 1};
-  char* success = fgets(second_buffer.Data(), header_length + 1, fp);
-  if (success == nullptr || !(header[header.size() - 2] == '\n')) {
+      StringView{il::StringType::Byte, second_buffer.data(), header_length};
+  if (static_cast<il::int_t>(read_header) != header_length ||
+      header_length == 0 || header[header_length - 1] != '\n') {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
@@ -72,61 +135,45 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   // Read the endianness, the type of the Numpy array, and the byte size
   //
-  const il::int_t i4 = il::search("descr", header);
-  if (i4 == -1 || i4 + 12 >= header.size()) {
+  StringView type_string = numpyValue("'descr':", header);
+  if (!(type_string.size() >= 2 && type_string[0] == '\'' &&
+        (type_string[1] == '<' || type_string[1] == '|'))) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
-  const bool little_endian = header[i4 + 9] == '<' || header[i4 + 9] == '|';
-  if (!little_endian) {
+  type_string = type_string.subview(2, type_string.size());
+  const il::int_t i5 = il::search("'", type_string);
+  if (i5 == -1) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
-
-  StringView type_string = header.subview(i4 + 10, header.size());
-  const il::int_t i5 = il::search("'", type_string);
   numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
 
   // Read the ordering for multidimensional arrays
   //
-  const il::int_t i0 = il::search("fortran_order", header);
-  if (i0 == -1 || i0 + 20 > header.size()) {
+  const StringView order_string = numpyValue("'fortran_order':", header);
+  if (order_string.size() >= 4 && order_string.subview(0, 4) == "True") {
+    numpy_info.fortran_order = true;
+  } else if (order_string.size() >= 5 &&
+             order_string.subview(0, 5) == "False") {
+    numpy_info.fortran_order = false;
+  } else {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
 
-  StringView fortran_order_string = header.subview(i0 + 16, i0 + 20);
-  numpy_info.fortran_order = (fortran_order_string == "True") ? true : false;
-
   // Read the dimensions
   //
-  const il::int_t i1 = il::search("(", header);
-  const il::int_t i2 = il::search(")", header);
-  if (i1 == -1 || i2 == -1 || i2 - i1 <= 1) {
+  const StringView shape_string = numpyValue("'shape':", header);
+  if (!numpyShape(shape_string, il::io, numpy_info.shape)) {
+    numpy_info.shape.Resize(0);
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
-  StringView shape_string = header.subview(i1 + 1, i2);
-  if (shape_string.back(0) == ',') {
-    numpy_info.shape.Resize(1);
-  } else {
-    const il::int_t n_dim = il::count(',', shape_string) + 1;
-    numpy_info.shape.Resize(n_dim);
-  }
-  il::int_t i = 0;
-  while (true) {
-    numpy_info.shape[i] = std::atoll(shape_string.asCString());
-    if (i == numpy_info.shape.size() - 1) {
-      break;
-    }
-    const il::int_t i3 = il::search(",", shape_string);
-    shape_string = shape_string.subview(i3 + 1, shape_string.size());
-    ++i;
-  }
 
   status.SetOk();
   return numpy_info;
-- 
2.43.0


From 72f2e9f42e6063b5890a500aa99445d9da796381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 094/170] fix: the size of a .npy file is checked before memory
 is taken for its elements

---
 il/io/numpy/numpy.cpp | 31 +++++++++++++++++++++++++++++++
 il/io/numpy/numpy.h   | 19 +++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 80ebd43..b59cc66 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -179,6 +179,37 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   return numpy_info;
 }
 
+bool hasNumpyData(const NumpyInfo& numpy_info, il::int_t bytes_per_element,
+                  il::io_t, std::FILE* fp) {
+  bool empty = false;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    if (numpy_info.shape[i] == 0) {
+      empty = true;
+    }
+  }
+  // An array without elements says nothing about its other dimensions, but
+  // takes memory for them
+  il::int_t available = std::numeric_limits<int>::max();
+  if (!empty) {
+    const long current = std::ftell(fp);
+    if (current < 0 || std::fseek(fp, 0, SEEK_END) != 0) {
+      return false;
+    }
+    const long end = std::ftell(fp);
+    if (end < current || std::fseek(fp, current, SEEK_SET) != 0) {
+      return false;
+    }
+    available = static_cast<il::int_t>(end - current);
+  }
+  available /= bytes_per_element;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    if (numpy_info.shape[i] != 0) {
+      available /= numpy_info.shape[i];
+    }
+  }
+  return available > 0;
+}
+
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status) {
   il::String header{};
diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 2fccec8..e55443f 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -57,6 +57,9 @@ struct NumpyInfo {
 };
 
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status);
+// Whether the rest of the file is long enough for all the elements
+bool hasNumpyData(const NumpyInfo& numpy_info, il::int_t bytes_per_element,
+                  il::io_t, std::FILE* fp);
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status);
 
@@ -214,6 +217,14 @@ class LoadHelper<il::Array<T>> {
       return v;
     }
 
+    if (!il::hasNumpyData(numpy_info, static_cast<il::int_t>(sizeof(T)), il::io,
+                          file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
@@ -280,6 +291,14 @@ class LoadHelper<il::Array2D<T>> {
       return v;
     }
 
+    if (!il::hasNumpyData(numpy_info, static_cast<il::int_t>(sizeof(T)), il::io,
+                          file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0], numpy_info.shape[1]);
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
-- 
2.43.0


From d9acdf0670b0177bbfb4144fa6b928bd135b5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 095/170] fix: loading a sparse matrix that is not there
 reports an error

---
 il/io/numpy/numpy.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index e55443f..3a91a2c 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -333,19 +333,28 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     filename_row.Append(".row");
     auto row =
         il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
     auto column =
         il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
     auto element =
         il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     const il::int_t n = row.size() - 1;
     status.SetOk();
-- 
2.43.0


From bdba65c0705a992c2f95a3c03612f4ccba04f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 096/170] fix: TomlParser reads lines of any length

---
 il/io/toml/toml.cpp | 31 ++++++++++++++++++++++---------
 il/io/toml/toml.h   |  6 ++++--
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..7a81811 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -23,20 +23,36 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+bool TomlParser::readLine() {
+  line_.Clear();
+  int c = std::getc(file_);
+  while (c != EOF) {
+    const char value = static_cast<char>(c);
+    line_.Append(il::StringType::Byte, &value, 1);
+    if (value == '\n') {
+      break;
+    }
+    c = std::getc(file_);
+  }
+  if (line_.isEmpty()) {
+    return false;
+  }
+  ++line_number_;
+  return true;
+}
+
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine()) {
       IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
       status.SetInfo("line", line_number_);
       return string;
     }
-    ++line_number_;
-    string = il::StringView{buffer_line_};
+    string = il::StringView{line_};
     string.trimPrefix();
   }
 
@@ -934,11 +950,8 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
-    ++line_number_;
-
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
+  while (readLine()) {
+    il::StringView line{line_};
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..4715acc 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,8 +38,7 @@ namespace il {
 
 class TomlParser {
  private:
-  static const il::int_t max_line_length_ = 200;
-  char buffer_line_[max_line_length_ + 1];
+  il::String line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -84,6 +83,9 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  // Reads the next line, including the characters that end it. Returns false
+  // if there is none.
+  bool readLine();
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From d6e0baad9aee3fc87a797f40dafa48665dd6f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 097/170] fix: TomlParser closes the file when it fails on
 trailing characters

---
 il/io/toml/toml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 7a81811..43bdefe 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -938,10 +938,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
-  file_ = std::fopen(filename.asCString(), "r+b");
+  file_ = std::fopen(filename.asCString(), "rb");
 #else
   il::UTF16String filename_utf16 = il::toUtf16(filename);
-  file_ = _wfopen(filename_utf16.asWString(), L"r+b");
+  file_ = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
   if (!file_) {
     status.SetError(il::Error::FilesystemFileNotFound);
@@ -978,6 +978,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        std::fclose(file_);
         return root_toml;
       }
     }
-- 
2.43.0


From 067c617c04f9f5fa9a9a70ceab32b5b378d220c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 098/170] fix: TomlParser reads numbers as TOML defines them

---
 il/io/toml/toml.cpp | 146 +++++++++++++++++++++++---------------------
 il/io/toml/toml.h   |   3 +
 2 files changed, 79 insertions(+), 70 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 43bdefe..3a7bbf2 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -16,6 +16,10 @@
 //
 //==============================================================================
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
+
 #include <il/container/string/algorithmString.h>
 #include <il/io/toml/toml.h>
 
@@ -80,22 +84,28 @@ il::String TomlParser::currentLine() const {
 
 il::Type TomlParser::parseType(il::StringView string, il::io_t,
                                il::Status& status) {
-  if (string[0] == '"' || string[0] == '\'') {
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseCanNotDetermineType);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return il::Type::Void;
+  } else if (string[0] == '"' || string[0] == '\'') {
     status.SetOk();
     return il::Type::UnicodeString;
-  } else if (string.startsWithDigit() || string[0] == '-' || string[0] == '+') {
+  } else if (string.startsWithDigit() || string[0] == '-' || string[0] == '+' ||
+             string[0] == 'i' || string[0] == 'n') {
     il::int_t i = 0;
     if (string[0] == '-' || string[0] == '+') {
       ++i;
     }
-    while (i < string.size() && string.hasDigit(i)) {
+    while (i < string.size() && (string.hasDigit(i) || string[i] == '_')) {
       ++i;
     }
-    if (i < string.size() && string[i] == '.') {
-      ++i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+    // What follows the digits in a floating point number: '.', an exponent, or
+    // there are no digits in "inf" and "nan"
+    if (i < string.size() &&
+        (string[i] == '.' || string[i] == 'e' || string[i] == 'E' ||
+         string[i] == 'i' || string[i] == 'n')) {
       status.SetOk();
       return il::Type::Double;
     } else {
@@ -139,6 +149,22 @@ il::Dynamic TomlParser::parseBool(il::io_t, il::StringView& string,
   }
 }
 
+il::int_t TomlParser::skipDigits(il::StringView string, il::int_t i) {
+  if (i == string.size() || !string.hasDigit(i)) {
+    return -1;
+  }
+  while (i < string.size() && string.hasDigit(i)) {
+    ++i;
+    if (i < string.size() && string[i] == '_') {
+      ++i;
+      if (i == string.size() || !string.hasDigit(i)) {
+        return -1;
+      }
+    }
+  }
+  return i;
+}
+
 il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
                                     il::Status& status) {
   // Skip the +/- sign at the beginning of the string
@@ -147,10 +173,24 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     ++i;
   }
 
+  const bool is_inf = i + 2 < string.size() && string[i] == 'i' &&
+                      string[i + 1] == 'n' && string[i + 2] == 'f';
+  const bool is_nan = i + 2 < string.size() && string[i] == 'n' &&
+                      string[i + 1] == 'a' && string[i + 2] == 'n';
+  if (is_inf || is_nan) {
+    double x = is_inf ? std::numeric_limits<double>::infinity()
+                                : std::numeric_limits<double>::quiet_NaN();
+    if (string[0] == '-') {
+      x = -x;
+    }
+    string.removePrefix(i + 3);
+    status.SetOk();
+    return il::Dynamic{x};
+  }
+
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -158,20 +198,8 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
   }
 
   // Skip the digits (there should be at least one) before the '.' ot the 'e'
-  const il::int_t i_begin_number = i;
-  while (i < string.size() && string.hasDigit(i)) {
-    ++i;
-    if (i < string.size() && string[i] == '_') {
-      ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
-        status.SetError(il::Error::ParseNumber);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return il::Dynamic{};
-      }
-    }
-  }
-  if (i == i_begin_number) {
+  i = skipDigits(string, i);
+  if (i < 0) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -179,63 +207,35 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
   }
 
   // Detecting if we are a floating point or an integer
-  bool is_float;
-  if (i < string.size() &&
-      (string[i] == '.' || string[i] == 'e' || string[i] == 'E')) {
-    is_float = true;
-
-    const bool is_exponent = (string[i] == 'e' || string[i] == 'E');
-    ++i;
+  bool is_float = false;
 
-    if (i == string.size()) {
+  // Skip the digits after the dot (there should be at least one). Note that
+  // trailing 0 are accepted.
+  if (i < string.size() && string[i] == '.') {
+    is_float = true;
+    i = skipDigits(string, i + 1);
+    if (i < 0) {
       status.SetError(il::Error::ParseDouble);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return il::Dynamic{};
     }
+  }
 
-    // Skip the +/- if we have an exponent
-    if (is_exponent) {
-      if (i < string.size() && (string[i] == '+' || string[i] == '-')) {
-        ++i;
-      }
-    }
-
-    // Skip the digits (there should be at least one). Note that trailing 0
-    // are accepted.
-    const il::int_t i_begin_number = i;
-    while (i < string.size() && string.hasDigit(i)) {
+  // Skip the +/- and the digits of the exponent (there should be at least one)
+  if (i < string.size() && (string[i] == 'e' || string[i] == 'E')) {
+    is_float = true;
+    ++i;
+    if (i < string.size() && (string[i] == '+' || string[i] == '-')) {
       ++i;
     }
-    if (i == i_begin_number) {
+    i = skipDigits(string, i);
+    if (i < 0) {
       status.SetError(il::Error::ParseDouble);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return il::Dynamic{};
     }
-
-    // If we were after the dot, we might have reached the exponent
-    if (!is_exponent && i < string.size() &&
-        (string[i] == 'e' || string[i] == 'E')) {
-      ++i;
-
-      // Skip the +/- and then the digits (there should be at least one)
-      if (i < string.size() && (string[i] == '+' || string[i] == '-')) {
-        ++i;
-      }
-      const il::int_t i_begin_exponent = i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
-      if (i == i_begin_exponent) {
-        status.SetError(il::Error::ParseDouble);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return il::Dynamic{};
-      }
-    }
-  } else {
-    is_float = false;
   }
 
   // Remove the '_' in the number
@@ -246,17 +246,23 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
       number.Append(string[j]);
     }
   }
-  il::StringView view{il::StringType::Byte, number.data(), i};
 
   if (is_float) {
     status.SetOk();
     string.removePrefix(i);
-    double x = std::atof(view.asCString());
+    double x = std::strtod(number.asCString(), nullptr);
     return il::Dynamic{x};
   } else {
+    errno = 0;
+    const il::int_t n = std::strtoll(number.asCString(), nullptr, 10);
+    if (errno == ERANGE) {
+      status.SetError(il::Error::ParseNumber);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return il::Dynamic{};
+    }
     status.SetOk();
     string.removePrefix(i);
-    il::int_t n = std::atoll(view.asCString());
     return il::Dynamic{n};
   }
 }
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 4715acc..662d139 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -86,6 +86,9 @@ class TomlParser {
   // Reads the next line, including the characters that end it. Returns false
   // if there is none.
   bool readLine();
+  // Position after the digits that start at position i. An underscore is
+  // allowed in between two digits. Returns -1 if there are no such digits.
+  static il::int_t skipDigits(il::StringView string, il::int_t i);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From 1b1e42325524111515bdd5a941c878620d035837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 099/170] fix: TomlParser accepts any character in strings,
 which end with the line

---
 il/io/toml/toml.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 3a7bbf2..d0c2ced 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -303,10 +303,22 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       string = il::removeWhitespaceLeft(string);
       status.SetOk();
       return ans;
+    } else if (string.startsWithNewLine()) {
+      break;
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
-      ans.Append(string.rune(0));
-      string.removePrefix(string.nextRune(0));
+      // All the characters up to the delimiter, an escape code or the new line
+      il::int_t i = 1;
+      while (i < string.size() && string[i] != delimiter && string[i] != '\\' &&
+             !string.hasNewLine(i)) {
+        ++i;
+      }
+      const il::StringType type =
+          il::isAscii(string.data(), i)
+              ? il::StringType::Ascii
+              : (il::isUtf8(string.data(), i) ? il::StringType::Utf8
+                                              : il::StringType::Byte);
+      ans.Append(type, string.data(), i);
+      string.removePrefix(i);
     }
   }
 
-- 
2.43.0


From d44455ca3444122894d0b3cabd461b2975c08b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 100/170] fix: TomlParser understands the escape codes of
 Unicode characters

---
 il/io/toml/toml.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index d0c2ced..c5ef63b 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -366,9 +366,24 @@ il::String TomlParser::parseEscapeCode(il::io_t, il::StringView& string,
       break;
     case 'u':
     case 'U': {
-      status.SetError(il::Error::ParseString);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
+      const il::int_t nb_digits = string[i] == 'u' ? 4 : 8;
+      ++i;
+      unsigned int rune = 0;
+      bool valid = i + nb_digits <= string.size();
+      for (il::int_t j = i; valid && j < i + nb_digits; ++j) {
+        const char c = string[j];
+        valid = string.hasHexaDecimal(j);
+        rune = 16 * rune + (c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
+      }
+      if (!valid || !il::isRune(static_cast<int>(rune))) {
+        status.SetError(il::Error::ParseString);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
+      string.removePrefix(i + nb_digits);
+      ans.Append(static_cast<int>(rune));
+      status.SetOk();
       return ans;
     } break;
     default:
-- 
2.43.0


From 9ab2c0ed443e870750046c9696ddef99c9e7ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 101/170] fix: TomlParser reads bare and quoted keys as TOML
 defines them

---
 il/io/toml/toml.cpp | 95 +++++++++------------------------------------
 1 file changed, 18 insertions(+), 77 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c5ef63b..f5e4833 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -631,95 +631,36 @@ void TomlParser::parseKeyValue(il::io_t, il::StringView& string,
 il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
                                 il::Status& status) {
   IL_EXPECT_FAST(end == '=' || end == '"' || end == '\'' || end == '@');
+  IL_UNUSED(end);
 
-  il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
 
-  il::Status parse_status{};
-  if (string[0] == '"') {
-    //////////////////////////
-    // We have a key in a ".."
-    //////////////////////////
-    string.removePrefix(1);
-    while (string.size() > 0) {
-      if (string[0] == '\\') {
-        il::Status parse_status{};
-        key.Append(parseEscapeCode(il::io, string, parse_status));
-        if (!parse_status.Ok()) {
-          status = std::move(parse_status);
-          return key;
-        }
-      } else if (string[0] == '"') {
-        string.removePrefix(1);
-        string = il::removeWhitespaceLeft(string);
-        status.SetOk();
-        return key;
-      } else {
-        // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
-      }
-    }
-    status.SetError(il::Error::ParseString);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return key;
+  if (!string.isEmpty() && (string[0] == '"' || string[0] == '\'')) {
+    ///////////////////////////////////
+    // We have a key in a ".." or a '..'
+    ///////////////////////////////////
+    return parseStringLiteral(string[0], il::io, string, status);
   } else {
-    /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
-    /////////////////////////////////////
-    // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
+    /////////////////////////////
+    // We have a bare key: ->..<-
+    /////////////////////////////
     il::int_t j = 0;
-    if (end != '@') {
-      while (j < string.size() && (string[j] != end)) {
-        ++j;
-      }
-    } else {
-      while (j < string.size() && (string[j] != '.') && (string[j] != ']')) {
-        ++j;
-      }
-    }
-    const il::int_t j_end = j;
-    while (j > 0 && (string[j - 1] == ' ' || string[j - 1] == '\t')) {
-      --j;
+    while (j < string.size() &&
+           (string.hasDigit(j) || (string[j] >= 'a' && string[j] <= 'z') ||
+            (string[j] >= 'A' && string[j] <= 'Z') || string[j] == '_' ||
+            string[j] == '-')) {
+      ++j;
     }
     if (j == 0) {
       status.SetError(il::Error::ParseKey);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
-      return key;
-    }
-
-    // Check if the key has forbidden characters
-    il::StringView key_string = string.subview(0, j);
-    string.removePrefix(j_end);
-
-    for (il::int_t i = 0; i < key_string.size(); ++i) {
-      if (key_string[i] == ' ' || key_string[i] == '\t') {
-        status.SetError(il::Error::ParseKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return key;
-      }
-      if (key_string[i] == '#') {
-        status.SetError(il::Error::ParseKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return key;
-      }
-      if (key_string[i] == '[' || key_string[i] == ']') {
-        status.SetError(il::Error::ParseKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return key;
-      }
+      return il::String{};
     }
 
-    key = il::String{il::StringType::Byte, key_string.data(), j};
+    il::String key{il::StringType::Ascii, string.data(), j};
+    string.removePrefix(j);
+    string = il::removeWhitespaceLeft(string);
     status.SetOk();
     return key;
   }
-- 
2.43.0


From 068ca87af0743d180ab9b7b975f51218d217e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 102/170] fix: TomlParser reads arrays of arrays and of tables
 over many lines

---
 il/io/toml/toml.cpp | 86 ++++++---------------------------------------
 il/io/toml/toml.h   |  2 --
 2 files changed, 10 insertions(+), 78 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index f5e4833..88b8be4 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -419,46 +419,20 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
     return ans;
   }
 
-  il::int_t i = 0;
-  while (i < string.size() && (string[i] != ',') && (string[i] != ']') &&
-         (string[i] != '#')) {
-    ++i;
-  }
-  il::StringView value_string = string.subview(0, i);
-  il::Type value_type = parseType(value_string, il::io, parse_status);
+  il::Type value_type = parseType(string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
     return ans;
   }
 
-  switch (value_type) {
-    case il::Type::Void:
-    case il::Type::Bool:
-    case il::Type::Integer:
-    case il::Type::Double:
-    case il::Type::UnicodeString: {
-      ans = parseValueArray(value_type, il::io, string, parse_status);
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        return ans;
-      }
-      status.SetOk();
-      return ans;
-    } break;
-    case il::Type::ArrayOfDynamic: {
-      ans = parseObjectArray(il::Type::ArrayOfDynamic, '[', il::io, string,
-                             parse_status);
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        return ans;
-      }
-      status.SetOk();
-      return ans;
-    }
-    default:
-      il::abort();
-      return ans;
+  ans = parseValueArray(value_type, il::io, string, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    return ans;
   }
+
+  status.SetOk();
+  return ans;
 }
 
 il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
@@ -502,54 +476,14 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
-  }
-
-  status.SetOk();
-  return ans;
-}
-
-il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
-                                         il::io_t, il::StringView& string,
-                                         il::Status& status) {
-  il::Dynamic ans{il::Array<il::Dynamic>{}};
-  il::Array<il::Dynamic>& array = ans.As<il::Array<il::Dynamic>>();
-  il::Status parse_status{};
-
-  while (!string.isEmpty() && (string[0] != ']')) {
-    if (string[0] != delimiter) {
-      status.SetError(il::Error::ParseArray);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return ans;
-    }
-
-    if (object_type == il::Type::ArrayOfDynamic) {
-      array.Append(parseArray(il::io, string, parse_status));
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        return ans;
-      }
-    } else {
-      il::abort();
-    }
-
-    string = il::removeWhitespaceLeft(string);
-    if (string.isEmpty() || (string[0] != ',')) {
-      break;
-    }
-    string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
-  }
-
-  if (string.isEmpty() || (string[0] != ']')) {
+  if (string.isEmpty() || string[0] != ']') {
     status.SetError(il::Error::ParseArray);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
     return ans;
   }
   string.removePrefix(1);
+
   status.SetOk();
   return ans;
 }
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 662d139..de2c614 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -52,8 +52,6 @@ class TomlParser {
   il::Dynamic parseArray(il::io_t, il::StringView &string, il::Status &status);
   il::Dynamic parseValueArray(il::Type value_type, il::io_t,
                               il::StringView &string, il::Status &status);
-  il::Dynamic parseObjectArray(il::Type object_type, char delimiter, il::io_t,
-                               il::StringView &string, il::Status &status);
   il::Dynamic parseInlineTable(il::io_t, il::StringView &string,
                                il::Status &status);
   void parseKeyValue(il::io_t, il::StringView &string,
-- 
2.43.0


From 171622b77a0d4d1691df5a9e742011d8b2c819be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 103/170] fix: TomlParser accepts an empty inline table and
 rejects an unclosed one

---
 il/io/toml/toml.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 88b8be4..53ab31f 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -491,6 +491,17 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
 il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+
+  il::StringView inside = string;
+  inside.removePrefix(1);
+  inside.trimPrefix();
+  if (!inside.isEmpty() && inside[0] == '}') {
+    inside.removePrefix(1);
+    string = il::removeWhitespaceLeft(inside);
+    status.SetOk();
+    return ans;
+  }
+
   do {
     string.removePrefix(1);
     if (string.isEmpty()) {
@@ -509,7 +520,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
-- 
2.43.0


From 298b3c8d6e3e5a37207a6db675bc06d600790d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 104/170] fix: TomlParser rejects ill-formed table headers and
 the redefinition of tables

---
 il/io/toml/toml.cpp | 198 ++++++++++++++++++++++----------------------
 il/io/toml/toml.h   |   9 ++
 2 files changed, 109 insertions(+), 98 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 53ab31f..18d02b8 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -681,84 +681,96 @@ void TomlParser::parseTable(il::io_t, il::StringView& string,
   }
 }
 
+void TomlParser::setOrigin(const void* container, Origin origin) {
+  origin_.Set(reinterpret_cast<il::int_t>(container),
+              static_cast<il::int_t>(origin));
+}
+
+TomlParser::Origin TomlParser::origin(const void* container) const {
+  const il::spot_t i = origin_.search(reinterpret_cast<il::int_t>(container));
+  return origin_.found(i) ? static_cast<Origin>(origin_.value(i))
+                          : Origin::Value;
+}
+
+il::MapArray<il::String, il::Dynamic>* TomlParser::enterTable(
+    il::Dynamic& value) {
+  if (value.is<il::MapArray<il::String, il::Dynamic>>()) {
+    il::MapArray<il::String, il::Dynamic>* table =
+        &value.As<il::MapArray<il::String, il::Dynamic>>();
+    return origin(table) != Origin::Value ? table : nullptr;
+  } else if (value.is<il::Array<il::Dynamic>>()) {
+    il::Array<il::Dynamic>& array = value.As<il::Array<il::Dynamic>>();
+    return origin(&array) == Origin::ArrayOfTables
+               ? &array.Back().As<il::MapArray<il::String, il::Dynamic>>()
+               : nullptr;
+  } else {
+    return nullptr;
+  }
+}
+
 void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
                                   il::MapArray<il::String, il::Dynamic>*& toml,
                                   il::Status& status) {
-  if (string.isEmpty() || string[0] == ']') {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-  }
-
-  il::String full_table_name{};
-  bool inserted = false;
-  while (!string.isEmpty() && (string[0] != ']')) {
+  while (true) {
     il::Status parse_status{};
-    il::String table_name = parseKey('@', il::io, string, parse_status);
+    const il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
+    if (string.isEmpty() || (string[0] != '.' && string[0] != ']')) {
       status.SetError(il::Error::ParseTable);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return;
     }
-    if (!full_table_name.isEmpty()) {
-      full_table_name.Append('.');
-    }
-    full_table_name.Append(table_name);
+    const bool last = string[0] == ']';
+    string.removePrefix(1);
 
     il::spot_t i = toml->search(table_name);
-    if (toml->found(i)) {
-      if (toml->value(i).is<il::MapArray<il::String, il::Dynamic>>()) {
-        toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
-      } else if (toml->value(i).is<il::Array<il::Dynamic>>()) {
-        if (toml->value(i).as<il::Array<il::Dynamic>>().size() > 0 &&
-            toml->value(i)
-                .as<il::Array<il::Dynamic>>()
-                .back()
-                .is<il::MapArray<il::String, il::Dynamic>>()) {
-          toml = &(toml->Value(i)
-                       .As<il::Array<il::Dynamic>>()
-                       .Back()
-                       .As<il::MapArray<il::String, il::Dynamic>>());
-        } else {
-          status.SetError(il::Error::ParseDuplicateKey);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
-      } else {
+    if (!toml->found(i)) {
+      toml->Set(table_name,
+                il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
+                i);
+      toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
+      setOrigin(toml, last ? Origin::Table : Origin::SuperTable);
+    } else if (last) {
+      // The only table that is already there and which can be defined is a
+      // super-table whose header has not been met
+      il::Dynamic& value = toml->Value(i);
+      if (!value.is<il::MapArray<il::String, il::Dynamic>>() ||
+          origin(&value.As<il::MapArray<il::String, il::Dynamic>>()) !=
+              Origin::SuperTable) {
         status.SetError(il::Error::ParseDuplicateKey);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
         return;
       }
+      toml = &(value.As<il::MapArray<il::String, il::Dynamic>>());
+      setOrigin(toml, Origin::Table);
     } else {
-      inserted = true;
-      toml->Set(table_name,
-                il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
-                i);
-      toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
+      toml = enterTable(toml->Value(i));
+      if (toml == nullptr) {
+        status.SetError(il::Error::ParseDuplicateKey);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
+      }
     }
 
-    string = il::removeWhitespaceLeft(string);
-    while (!string.isEmpty() && string[0] == '.') {
-      string.removePrefix(1);
+    if (last) {
+      break;
     }
-    string = il::removeWhitespaceLeft(string);
   }
 
-  // TODO: One should check the redefinition of a table (line 1680)
-  IL_UNUSED(inserted);
-
-  string.removePrefix(1);
+  il::Status parse_status{};
   string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
+  checkEndOfLineOrComment(string, il::io, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    return;
   }
+
   status.SetOk();
 }
 
@@ -766,72 +778,61 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
                                  il::MapArray<il::String, il::Dynamic>*& toml,
                                  il::Status& status) {
   string.removePrefix(1);
-  if (string.isEmpty() || string[0] == ']') {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
-  }
-
-  il::String full_table_name{};
-  while (!string.isEmpty() && (string[0] != ']')) {
+  while (true) {
     il::Status parse_status{};
-    il::String table_name = parseKey('@', il::io, string, parse_status);
+    const il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
+    if (string.isEmpty() || (string[0] != '.' && string[0] != ']')) {
       status.SetError(il::Error::ParseTable);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return;
     }
-    if (!full_table_name.isEmpty()) {
-      full_table_name.Append('.');
-    }
-    full_table_name.Append(table_name);
+    const bool last = string[0] == ']';
+    string.removePrefix(1);
 
-    string = il::removeWhitespaceLeft(string);
     il::spot_t i = toml->search(table_name);
-    if (toml->found(i)) {
-      il::Dynamic& b = toml->Value(i);
-      if (!string.isEmpty() && string[0] == ']') {
-        if (!b.is<il::Array<il::Dynamic>>()) {
-          status.SetError(il::Error::ParseTable);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
-        il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
-        v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
-        toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
+    if (last) {
+      if (!toml->found(i)) {
+        toml->Set(table_name, il::Dynamic{il::Array<il::Dynamic>{}}, il::io, i);
+        setOrigin(&toml->Value(i).As<il::Array<il::Dynamic>>(),
+                  Origin::ArrayOfTables);
       }
+      il::Dynamic& value = toml->Value(i);
+      if (!value.is<il::Array<il::Dynamic>>() ||
+          origin(&value.As<il::Array<il::Dynamic>>()) !=
+              Origin::ArrayOfTables) {
+        status.SetError(il::Error::ParseTable);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
+      }
+      il::Array<il::Dynamic>& v = value.As<il::Array<il::Dynamic>>();
+      v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
+      toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
+      setOrigin(toml, Origin::Table);
+      break;
+    } else if (!toml->found(i)) {
+      toml->Set(table_name,
+                il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
+                i);
+      toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
+      setOrigin(toml, Origin::SuperTable);
     } else {
-      if (!string.isEmpty() && string[0] == ']') {
-        toml->Set(table_name, il::Dynamic{il::Array<il::Dynamic>{}}, il::io, i);
-        toml->Value(i).As<il::Array<il::Dynamic>>().Append(
-            il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
-        toml = &(toml->Value(i)
-                     .As<il::Array<il::Dynamic>>()[0]
-                     .As<il::MapArray<il::String, il::Dynamic>>());
-      } else {
-        toml->Set(table_name,
-                  il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
-                  i);
-        toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
+      toml = enterTable(toml->Value(i));
+      if (toml == nullptr) {
+        status.SetError(il::Error::ParseDuplicateKey);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
       }
     }
   }
 
-  if (string.isEmpty()) {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
-  }
-  string.removePrefix(1);
-  if (string.isEmpty()) {
+  if (string.isEmpty() || string[0] != ']') {
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -869,6 +870,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
+  origin_.Clear();
   while (readLine()) {
     il::StringView line{line_};
     line = il::removeWhitespaceLeft(line);
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index de2c614..43c5f8b 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -40,6 +40,10 @@ class TomlParser {
  private:
   il::String line_;
   il::int_t line_number_;
+  // Where the tables and the arrays of tables come from. Those which come from
+  // the value of a key are not there.
+  enum class Origin : il::int_t { Value, SuperTable, Table, ArrayOfTables };
+  il::Map<il::int_t, il::int_t> origin_;
   std::FILE *file_;
 
  public:
@@ -84,6 +88,11 @@ class TomlParser {
   // Reads the next line, including the characters that end it. Returns false
   // if there is none.
   bool readLine();
+  void setOrigin(const void *container, Origin origin);
+  Origin origin(const void *container) const;
+  // The table a header goes through to reach its sub-tables: value, or its last
+  // element for an array of tables. Returns nullptr if there is none.
+  il::MapArray<il::String, il::Dynamic> *enterTable(il::Dynamic &value);
   // Position after the digits that start at position i. An underscore is
   // allowed in between two digits. Returns -1 if there are no such digits.
   static il::int_t skipDigits(il::StringView string, il::int_t i);
-- 
2.43.0


From 8a666823707b47c7694463f2bb131f74bd9061cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 105/170] fix: TomlParser reports an unclosed array instead of
 aborting

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 18d02b8..0ce6fa6 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -51,8 +51,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     if (!readLine()) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -70,8 +70,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
-- 
2.43.0


From 282263ea9bfd216232721fb164832ca46925e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 106/170] fix: il::save writes TOML files that load back as
 what was saved

---
 il/io/toml/toml.h | 348 +++++++++++++++++++++++++---------------------
 1 file changed, 193 insertions(+), 155 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 43c5f8b..b05b8aa 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -99,179 +99,219 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
+// Writes a string, with the escape codes it needs, in between quotes
+inline void save_string(const il::String &string, il::io_t, std::FILE *file) {
+  std::fputc('"', file);
+  for (il::int_t i = 0; i < string.size(); ++i) {
+    const unsigned char c = static_cast<unsigned char>(string.data()[i]);
+    if (c == '"' || c == '\\') {
+      std::fputc('\\', file);
+      std::fputc(c, file);
+    } else if (c < 0x20 || c == 0x7F) {
+      std::fprintf(file, "\\u%04x", static_cast<unsigned int>(c));
+    } else {
+      std::fputc(c, file);
+    }
+  }
+  std::fputc('"', file);
+}
+
+// A table in between braces
+template <typename M>
+void save_inline_table(const M &toml, il::io_t, std::FILE *file,
+                       il::Status &status);
+
+inline void save_double(double x, il::io_t, std::FILE *file) {
+  // 17 significant digits are needed to recover the number
+  std::fprintf(file, "%.16e", x);
+}
+
+inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
+                       std::FILE *file, il::Status &status);
+
+// Type of the value once it has been loaded
+inline il::Type type_once_loaded(const il::Dynamic &value) {
+  switch (value.type()) {
+    case il::Type::ArrayOfDouble:
+    case il::Type::Array2DOfDouble:
+      return il::Type::ArrayOfDynamic;
+    case il::Type::MapStringToDynamic:
+      return il::Type::MapArrayStringToDynamic;
+    default:
+      return value.type();
+  }
+}
+
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status) {
+  switch (value.type()) {
+    case il::Type::Bool:
+      std::fputs(value.to<bool>() ? "true" : "false", file);
+      break;
+    case il::Type::Integer:
+      std::fprintf(file, "%td", value.to<il::int_t>());
+      break;
+    case il::Type::Double:
+      save_double(value.to<double>(), il::io, file);
+      break;
+    case il::Type::UnicodeString:
+      save_string(value.as<il::String>(), il::io, file);
+      break;
+    case il::Type::ArrayOfDouble: {
+      const il::Array<double> &v = value.as<il::Array<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(); ++i) {
+        save_double(v[i], il::io, file);
+        if (i + 1 < v.size()) {
+          std::fputs(", ", file);
+        }
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::Array2DOfDouble: {
+      const il::Array2D<double> &v = value.as<il::Array2D<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(0); ++i) {
+        std::fputs("[ ", file);
+        for (il::int_t j = 0; j < v.size(1); ++j) {
+          save_double(v(i, j), il::io, file);
+          if (j + 1 < v.size(1)) {
+            std::fputs(", ", file);
+          }
+        }
+        std::fputs(" ]", file);
+        if (i + 1 < v.size(0)) {
+          std::fputs(", ", file);
+        }
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::ArrayOfDynamic:
+      save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
+      return;
+    case il::Type::MapArrayStringToDynamic:
+      save_inline_table(value.as<il::MapArray<il::String, il::Dynamic>>(),
+                        il::io, file, status);
+      return;
+    case il::Type::MapStringToDynamic:
+      save_inline_table(value.as<il::Map<il::String, il::Dynamic>>(), il::io,
+                        file, status);
+      return;
+    default:
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+  }
+  status.SetOk();
+}
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
-  const int error0 = std::fputs("[ ", file);
-  IL_UNUSED(error0);
+  std::fputs("[ ", file);
   for (il::int_t j = 0; j < array.size(); ++j) {
     if (j > 0) {
-      const int error1 = std::fputs(", ", file);
-      IL_UNUSED(error1);
+      std::fputs(", ", file);
     }
-    switch (array[j].type()) {
-      case il::Type::Bool: {
-        if (array[j].to<bool>()) {
-          const int error2 = std::fputs("true", file);
-          IL_UNUSED(error2);
-        } else {
-          const int error2 = std::fputs("false", file);
-          IL_UNUSED(error2);
-        }
-      } break;
-      case il::Type::Integer: {
-        const int error2 = std::fprintf(file, "%td", array[j].to<il::int_t>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
-        IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
-      } break;
-      case il::Type::ArrayOfDynamic: {
-        save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
-        if (!status.Ok()) {
-          status.Rearm();
-          return;
-        }
-      } break;
-      default:
-        IL_UNREACHABLE;
+    if (il::type_once_loaded(array[j]) != il::type_once_loaded(array[0])) {
+      status.SetError(il::Error::ParseHeterogeneousArray);
+      IL_SET_SOURCE(status);
+      return;
+    }
+    save_value(array[j], il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
     }
   }
-  const int error5 = std::fputs(" ]", file);
-  IL_UNUSED(error5);
+  std::fputs(" ]", file);
   status.SetOk();
 }
 
 template <typename M>
-inline void save_aux(const M &toml, const il::String &name, il::io_t,
-                     std::FILE *file, il::Status &status) {
-  int error = 0;
-  // Add an object that sets the error on destruction
+inline void save_inline_table(const M &toml, il::io_t, std::FILE *file,
+                              il::Status &status) {
+  std::fputs("{ ", file);
+  bool first = true;
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    if (!first) {
+      std::fputs(", ", file);
+    }
+    first = false;
+    save_string(toml.key(i), il::io, file);
+    std::fputs(" = ", file);
+    save_value(toml.value(i), il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
+  std::fputs(" }", file);
+  status.SetOk();
+}
+
+// A key that is only made of letters, digits, '_' and '-' needs no quote
+inline bool is_bare_key(const il::String &key) {
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = key.data()[i];
+    if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+          (c >= '0' && c <= '9') || c == '_' || c == '-')) {
+      return false;
+    }
+  }
+  return key.size() > 0;
+}
 
+inline void save_key(const il::String &key, il::io_t, std::FILE *file) {
+  if (is_bare_key(key)) {
+    std::fputs(key.asCString(), file);
+  } else {
+    save_string(key, il::io, file);
+  }
+}
+
+// path contains the keys which lead to the table
+template <typename M>
+inline void save_aux(const M &toml, const il::Array<il::String> &path, il::io_t,
+                     std::FILE *file, il::Status &status) {
+  // The values come first: what follows the header of a sub-table is part of it
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
     const il::Type type = value.type();
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs(" = ", file);
-      if (error == EOF) return;
-      switch (type) {
-        case il::Type::Bool:
-          if (value.to<bool>()) {
-            error = std::fputs("true", file);
-          } else {
-            error = std::fputs("false", file);
-          }
-          if (error == EOF) return;
-          break;
-        case il::Type::Integer:
-          error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
-          break;
-        case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
-          if (error == EOF) return;
-          break;
-        case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          break;
-        case il::Type::ArrayOfDouble: {
-          const il::Array<double> &v = value.as<il::Array<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
-            if (i + 1 < v.size()) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::Array2DOfDouble: {
-          const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(0); ++i) {
-            error = std::fputs("[ ", file);
-            if (error == EOF) return;
-            for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
-              if (j + 1 < v.size(1)) {
-                error = std::fputs(", ", file);
-                if (error == EOF) return;
-              }
-            }
-            error = std::fputs(" ]", file);
-            if (error == EOF) return;
-            if (i + 1 < v.size(0)) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::ArrayOfDynamic: {
-          save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
-        } break;
-        default:
-          IL_UNREACHABLE;
-      }
-      error = std::fputs("\n", file);
-      if (error == EOF) return;
-    } else if (type == il::Type::MapArrayStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
-      }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
+      save_key(toml.key(i), il::io, file);
+      std::fputs(" = ", file);
+      save_value(value, il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
-    } else if (type == il::Type::MapStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+      std::fputs("\n", file);
+    }
+  }
+
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    const il::Type type = value.type();
+    if (type == il::Type::MapArrayStringToDynamic ||
+        type == il::Type::MapStringToDynamic) {
+      il::Array<il::String> sub_path = path;
+      sub_path.Append(toml.key(i));
+      std::fputs("\n[", file);
+      for (il::int_t j = 0; j < sub_path.size(); ++j) {
+        if (j > 0) {
+          std::fputs(".", file);
+        }
+        save_key(sub_path[j], il::io, file);
+      }
+      std::fputs("]\n", file);
+      if (type == il::Type::MapArrayStringToDynamic) {
+        save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), sub_path,
+                 il::io, file, status);
+      } else {
+        save_aux(value.as<il::Map<il::String, il::Dynamic>>(), sub_path, il::io,
+                 file, status);
       }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
@@ -304,8 +344,7 @@ class SaveHelper<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
+    save_aux(toml, il::Array<il::String>{}, il::io, file, status);
     if (!status.Ok()) {
       status.Rearm();
       return;
@@ -343,8 +382,7 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
+    save_aux(toml, il::Array<il::String>{}, il::io, file, status);
     if (!status.Ok()) {
       status.Rearm();
       return;
-- 
2.43.0


From c6d401db65cdb3029e42c1eb199b7d608b6712cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 107/170] fix: il::save to TOML closes its file and reports the
 errors of writing

---
 il/io/toml/toml.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index b05b8aa..d7611cc 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -347,10 +347,17 @@ class SaveHelper<il::Map<il::String, il::Dynamic>> {
     save_aux(toml, il::Array<il::String>{}, il::io, file, status);
     if (!status.Ok()) {
       status.Rearm();
+      std::fclose(file);
       return;
     }
 
+    const bool can_not_write = std::ferror(file) != 0;
     const int error = std::fclose(file);
+    if (can_not_write) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
@@ -385,10 +392,17 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
     save_aux(toml, il::Array<il::String>{}, il::io, file, status);
     if (!status.Ok()) {
       status.Rearm();
+      std::fclose(file);
       return;
     }
 
+    const bool can_not_write = std::ferror(file) != 0;
     const int error = std::fclose(file);
+    if (can_not_write) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
-- 
2.43.0


From a08d9e64ddb93415b260edb103730c193b38e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 108/170] fix: an il::Map can be saved to a TOML file

---
 il/io/toml/toml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index d7611cc..cddfe8e 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -324,7 +324,7 @@ inline void save_aux(const M &toml, const il::Array<il::String> &path, il::io_t,
 }
 
 template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
  public:
   static void save(const il::Map<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
-- 
2.43.0


From b936f325f2380be0c2ffb2b8281142c6dfc90cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 109/170] fix: filepack files load back as what was saved

---
 il/io/filepack/filepack.h | 625 ++++++++++++++++----------------------
 1 file changed, 270 insertions(+), 355 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..58f09aa 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -20,6 +20,7 @@
 #define IL_FILEPACK_H
 
 #include <cstdio>
+#include <limits>
 
 #include <il/Array.h>
 #include <il/Map.h>
@@ -35,7 +36,14 @@
 
 namespace il {
 
-inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
+// All the functions that read return false when they can not
+
+inline bool readBytes(il::int_t n, il::io_t, void* p, std::FILE* file) {
+  const std::size_t un = static_cast<std::size_t>(n);
+  return un == 0 || std::fread(p, 1, un, file) == un;
+}
+
+inline bool readVarint(il::io_t, il::int_t& n, std::FILE* file) {
   std::size_t ans = 0;
   std::size_t multiplier = 1;
   const std::size_t max_byte = 1 << 7;
@@ -43,13 +51,137 @@ inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
   const unsigned char continuation_byte = 0x80;
   unsigned char byte;
   do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
-    k += 1;
+    if (!readBytes(1, il::io, &byte, file)) {
+      return false;
+    }
     ans += multiplier * (byte & continuation_mask);
     multiplier *= max_byte;
   } while ((byte & continuation_byte) == continuation_byte);
 
-  return static_cast<il::int_t>(ans);
+  n = static_cast<il::int_t>(ans);
+  return true;
+}
+
+// Returns true if the end of the file is at least n elements of size
+// element_size further
+inline bool hasElements(il::int_t n, il::int_t element_size, il::io_t,
+                        std::FILE* file) {
+  const long position = std::ftell(file);
+  if (n < 0 || position < 0 || std::fseek(file, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = std::ftell(file);
+  return std::fseek(file, position, SEEK_SET) == 0 &&
+         n <= (end - position) / element_size;
+}
+
+inline bool readString(il::int_t n, il::io_t, il::String& string,
+                       std::FILE* file) {
+  if (!hasElements(n, 1, il::io, file)) {
+    return false;
+  }
+  il::Array<char> raw_string{n};
+  if (!readBytes(n, il::io, raw_string.Data(), file)) {
+    return false;
+  }
+  string = il::String{il::StringType::Byte, raw_string.data(), n};
+  return true;
+}
+
+template <typename T>
+bool readArray2D(il::io_t, il::Dynamic& value, std::FILE* file) {
+  il::int_t size0 = 0;
+  il::int_t size1 = 0;
+  if (!readBytes(sizeof(il::int_t), il::io, &size0, file) ||
+      !readBytes(sizeof(il::int_t), il::io, &size1, file) || size0 < 0 ||
+      size1 < 0) {
+    return false;
+  }
+  if (size0 == 0 || size1 == 0) {
+    value = il::Dynamic{il::Array2D<T>{size0, size1}};
+    return true;
+  }
+  if (size1 > std::numeric_limits<il::int_t>::max() / size0 ||
+      !hasElements(size0 * size1, sizeof(T), il::io, file)) {
+    return false;
+  }
+  il::Array2D<T> A{size0, size1};
+  for (il::int_t j = 0; j < size1; ++j) {
+    if (!readBytes(size0 * sizeof(T), il::io, A.Data() + j * A.stride(1),
+                   file)) {
+      return false;
+    }
+  }
+  value = il::Dynamic{std::move(A)};
+  return true;
+}
+
+// A map of arrays which has been saved element after element
+inline bool readArrayOfStruct(il::io_t, il::Dynamic& value, std::FILE* file,
+                              il::Error& error) {
+  il::int_t nb_types = 0;
+  if (!readVarint(il::io, nb_types, file) ||
+      !hasElements(nb_types, 2, il::io, file)) {
+    return false;
+  }
+  il::Array<il::String> key{nb_types};
+  il::Array<il::Type> type{nb_types};
+  il::int_t size_struct = 0;
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    il::int_t key_size = 0;
+    if (!readVarint(il::io, key_size, file) ||
+        !readString(key_size, il::io, key[i], file) ||
+        !readBytes(sizeof(il::Type), il::io, &type[i], file)) {
+      return false;
+    }
+    switch (type[i]) {
+      case il::Type::Double:
+        size_struct += sizeof(double);
+        break;
+      case il::Type::Integer:
+        size_struct += sizeof(int);
+        break;
+      default:
+        error = il::Error::BinaryFileWrongType;
+        return false;
+    }
+  }
+
+  il::int_t n = 0;
+  if (!readVarint(il::io, n, file) ||
+      (nb_types > 0 && !hasElements(n, size_struct, il::io, file))) {
+    return false;
+  }
+  il::MapArray<il::String, il::Dynamic> ans{};
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    if (type[i] == il::Type::Double) {
+      ans.Set(key[i], il::Dynamic{il::Array<double>{n}});
+    } else {
+      ans.Set(key[i], il::Dynamic{il::Array<int>{n}});
+    }
+  }
+  for (il::int_t j = 0; nb_types > 0 && j < n; ++j) {
+    for (il::int_t i = 0; i < nb_types; ++i) {
+      const il::spot_t k = ans.search(key[i]);
+      if (type[i] == il::Type::Double) {
+        double x = 0.0;
+        if (!ans.value(k).is<il::Array<double>>() ||
+            !readBytes(sizeof(double), il::io, &x, file)) {
+          return false;
+        }
+        ans.Value(k).As<il::Array<double>>()[j] = x;
+      } else {
+        int x = 0;
+        if (!ans.value(k).is<il::Array<int>>() ||
+            !readBytes(sizeof(int), il::io, &x, file)) {
+          return false;
+        }
+        ans.Value(k).As<il::Array<int>>()[j] = x;
+      }
+    }
+  }
+  value = il::Dynamic{std::move(ans)};
+  return true;
 }
 
 inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
@@ -72,358 +204,131 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
-  while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
-    if (size_string == 0) {
-      break;
+template <typename M>
+bool readMap(il::io_t, M& config, std::FILE* file, il::Error& error);
+
+// Reads a value. The error is only set when it is not that the file is not
+// long enough
+inline bool readValue(il::Type type, il::io_t, il::Dynamic& value,
+                      std::FILE* file, il::Error& error) {
+  switch (type) {
+    case il::Type::Bool: {
+      unsigned char x = 0;
+      if (!readBytes(sizeof(bool), il::io, &x, file)) {
+        return false;
+      }
+      value = il::Dynamic{x != 0};
+    } break;
+    case il::Type::Integer: {
+      il::int_t x = 0;
+      if (!readVarint(il::io, x, file)) {
+        return false;
+      }
+      value = il::Dynamic{x};
+    } break;
+    case il::Type::Single: {
+      float x = 0.0f;
+      if (!readBytes(sizeof(float), il::io, &x, file)) {
+        return false;
+      }
+      value = il::Dynamic{x};
+    } break;
+    case il::Type::Double: {
+      double x = 0.0;
+      if (!readBytes(sizeof(double), il::io, &x, file)) {
+        return false;
+      }
+      value = il::Dynamic{x};
+    } break;
+    case il::Type::UnicodeString: {
+      // The string is followed by '\0'
+      il::int_t size = 0;
+      il::String x{};
+      char end = '\0';
+      if (!readBytes(sizeof(il::int_t), il::io, &size, file) ||
+          !readString(size, il::io, x, file) ||
+          !readBytes(1, il::io, &end, file)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(x)};
+    } break;
+    case il::Type::ArrayOfDouble: {
+      il::int_t size = 0;
+      if (!readBytes(sizeof(il::int_t), il::io, &size, file) ||
+          !hasElements(size, sizeof(double), il::io, file)) {
+        return false;
+      }
+      il::Array<double> v{size};
+      if (!readBytes(size * sizeof(double), il::io, v.Data(), file)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(v)};
+    } break;
+    case il::Type::Array2DOfUInt8:
+      return readArray2D<unsigned char>(il::io, value, file);
+    case il::Type::Array2DOfDouble:
+      return readArray2D<double>(il::io, value, file);
+    case il::Type::ArrayOfStruct:
+      return readArrayOfStruct(il::io, value, file, error);
+    case il::Type::MapStringToDynamic: {
+      il::int_t n = 0;
+      if (!readVarint(il::io, n, file)) {
+        return false;
+      }
+      value = il::Dynamic{il::Map<il::String, il::Dynamic>{}};
+      return readMap(il::io, value.As<il::Map<il::String, il::Dynamic>>(),
+                     file, error);
     }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
-
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
-
-        il::Array<il::String> key{nb_types};
-        il::Array<il::Type> type{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
-
-          il::Array<char> raw_string{key_size};
-          std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
-
-          fread(&(type[i]), sizeof(il::Type), 1, file);
-        }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
-
-        il::Array<il::Dynamic> array{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          switch (type[i]) {
-            case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
-            } break;
-            case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
-            } break;
-            default:
-              IL_UNREACHABLE;
-          }
-        }
-
-        for (il::int_t j = 0; j < n; ++j) {
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
-                ref[j] = value;
-              } break;
-              case il::Type::Integer: {
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
-                ref[j] = value;
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-        }
+    case il::Type::MapArrayStringToDynamic: {
+      il::int_t n = 0;
+      if (!readVarint(il::io, n, file)) {
+        return false;
       }
-      case il::Type::MapArrayStringToDynamic:
-      case il::Type::MapStringToDynamic: {
-        il::int_t n_map = 0;
-        const il::int_t n = readVarint(il::io, n_map, file);
-        il::int_t size = 0;
-        il::spot_t i = config.search(string);
-        config.Set(std::move(string),
-                   il::Dynamic{il::Map<il::String, il::Dynamic>{n}}, il::io, i);
-        if (!config.found(i)) {
-          // Hello
-        }
-        il::Map<il::String, il::Dynamic>& config_inner =
-            config.Value(i).As<il::Map<il::String, il::Dynamic>>();
-        auxLoad(size, il::io, config_inner, file);
-        k += size;
-      } break;
-      default:
-        IL_UNREACHABLE;
+      value = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+      return readMap(il::io, value.As<il::MapArray<il::String, il::Dynamic>>(),
+                     file, error);
     }
+    default:
+      error = il::Error::BinaryFileWrongType;
+      return false;
   }
+  return true;
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::MapArray<il::String, il::Dynamic>& config,
-                    std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
+// Reads the keys and the values up to an empty key
+template <typename M>
+bool readMap(il::io_t, M& config, std::FILE* file, il::Error& error) {
   while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
+    il::int_t size_string = 0;
+    if (!readVarint(il::io, size_string, file)) {
+      return false;
+    }
     if (size_string == 0) {
-      break;
+      return true;
     }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
-
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-          std::cout << "End" << std::endl;
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
-        }
-      } break;
-        /*
-              case il::Type::MapStringToDynamic:
-              case il::Type::MapArrayStringToDynamic: {
-                il::int_t n_map = 0;
-                const il::int_t n = readVarint(il::io, n_map, file);
-                il::int_t size = 0;
-                il::spot_t i = config.search(string);
-                config.Set(std::move(string),
-                              il::Dynamic{il::MapArray<il::String,
-           il::Dynamic>{n}}, il::io, i); if (!config.found(i)) {
-                }
-                il::MapArray<il::String, il::Dynamic>& config_inner =
-                    config.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-                auxLoad(size, il::io, config_inner, file);
-                k += size;
-              } break;
-        */
-      default:
-        IL_UNREACHABLE;
+    il::String string{};
+    il::Type type = il::Type::Void;
+    il::Dynamic value{};
+    if (!readString(size_string, il::io, string, file) ||
+        !readBytes(sizeof(il::Type), il::io, &type, file) ||
+        !readValue(type, il::io, value, file, error)) {
+      return false;
     }
+    config.Set(std::move(string), std::move(value));
   }
 }
 
+template <typename M>
+void auxLoad(il::io_t, M& config, std::FILE* file, il::Status& status) {
+  il::Error error = il::Error::FilesystemFileNotLongEnough;
+  if (!readMap(il::io, config, file, error)) {
+    status.SetError(error);
+    IL_SET_SOURCE(status);
+    return;
+  }
+  status.SetOk();
+}
+
 template <>
 class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
  public:
@@ -448,7 +353,12 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    auxLoad(il::io, ans, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      std::fclose(file);
+      return ans;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -484,7 +394,12 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    auxLoad(il::io, ans, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      std::fclose(file);
+      return ans;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -513,7 +428,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
-    const il::Type type = data.value(i).type();
+    const bool save_as_array_of_struct =
+        (data.value(i).type() == il::Type::MapArrayStringToDynamic &&
+         option.size() == 1 && option[0] == data.key(i));
+    const il::Type type = save_as_array_of_struct ? il::Type::ArrayOfStruct
+                                                  : data.value(i).type();
     std::fwrite(&type, sizeof(il::Type), 1, file);
     n += sizeof(il::Type);
 
@@ -556,8 +475,8 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         const il::int_t size1 = A.size(1);
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
+        for (il::int_t j = 0; j < size1; ++j) {
+          std::fwrite(A.data() + j * A.stride(1), sizeof(unsigned char), size0,
                       file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
@@ -568,15 +487,12 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         const il::int_t size1 = A.size(1);
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
+        for (il::int_t j = 0; j < size1; ++j) {
+          std::fwrite(A.data() + j * A.stride(1), sizeof(double), size0, file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
         if (save_as_array_of_struct) {
           const il::MapArray<il::String, il::Dynamic>& my_data =
               data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
@@ -585,7 +501,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           const il::int_t population_struct = my_data.nbElements();
           writeVarint(population_struct, il::io, k, file);
 
-          il::int_t n;
+          il::int_t n = 0;
           bool size_of_array_is_known = false;
           for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
                i = my_data.next(i)) {
@@ -656,7 +572,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
           //        std::fseek(file, n_map, SEEK_CUR);
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
         IL_UNREACHABLE;
-- 
2.43.0


From a6fd91a4d7e0e5b55d6c6339ca5d1216a4023a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 110/170] fix: saving a filepack file reports what it can not
 save and the errors of writing

---
 il/io/filepack/filepack.h | 63 +++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 58f09aa..e4498a0 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -414,7 +414,7 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
 
 inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
                     const il::ArrayView<il::String>& option, il::io_t,
-                    il::int_t& n, std::FILE* file) {
+                    il::int_t& n, std::FILE* file, il::Status& status) {
   n = 0;
 
   for (il::int_t i = 0; i < data.size(); ++i) {
@@ -425,6 +425,12 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
     IL_UNUSED(my_size);
 
     const il::int_t string_size = data.key(i).size();
+    if (string_size == 0) {
+      // This is what ends the map
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
@@ -530,7 +536,23 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               default:
-                IL_UNREACHABLE;
+                status.SetError(il::Error::Unimplemented);
+                IL_SET_SOURCE(status);
+                return;
+            }
+          }
+
+          // All the arrays must have the same size
+          for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
+               i = my_data.next(i)) {
+            const il::int_t size =
+                my_data.value(i).type() == il::Type::ArrayOfDouble
+                    ? my_data.value(i).as<il::Array<double>>().size()
+                    : my_data.value(i).as<il::Array<int>>().size();
+            if (size != n) {
+              status.SetError(il::Error::Unimplemented);
+              IL_SET_SOURCE(status);
+              return;
             }
           }
 
@@ -566,7 +588,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
             new_option = option.view(il::Range{1, option.size()});
           }
           auxSave(data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
-                  new_option, il::io, n_map, file);
+                  new_option, il::io, n_map, file, status);
+          if (!status.Ok()) {
+            status.Rearm();
+            return;
+          }
           //        std::fseek(file, -(n_map + sizeof(il::int_t)),
           //          SEEK_CUR);
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
@@ -574,10 +600,13 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         }
       } break;
       default:
-        IL_UNREACHABLE;
+        status.SetError(il::Error::Unimplemented);
+        IL_SET_SOURCE(status);
+        return;
     }
   }
   writeVarint(0, il::io, n, file);
+  status.SetOk();
 }
 
 template <>
@@ -603,9 +632,20 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
 
     il::Array<il::String> option{};
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    auxSave(data, option.view(), il::io, n, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      std::fclose(file);
+      return;
+    }
 
+    const bool can_not_write = std::ferror(file) != 0;
     const int error = std::fclose(file);
+    if (can_not_write) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
@@ -640,9 +680,20 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
 #endif
 
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    auxSave(data, option.view(), il::io, n, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      std::fclose(file);
+      return;
+    }
 
+    const bool can_not_write = std::ferror(file) != 0;
     const int error = std::fclose(file);
+    if (can_not_write) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
-- 
2.43.0


From d85817020a738b2d1d03aae34f100833eb5c9cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 111/170] fix: blas accepts the adjoint of a row-major matrix
 of double

---
 il/linearAlgebra/dense/blas/blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..afc4007 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -547,6 +547,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From 4bf421d511808db0a5868a9c591d04c60c71d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 112/170] fix: the sizes of a product of two transposed
 matrices are checked

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index afc4007..91a09f5 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -678,6 +678,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -731,6 +735,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -786,6 +794,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -856,6 +868,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -924,6 +940,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -977,6 +997,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1032,6 +1056,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1102,6 +1130,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
-- 
2.43.0


From a87fe2de2e4a6722bdf10534a1c788e0355e3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 113/170] fix: blas products with an empty operand give beta
 times the result

---
 il/linearAlgebra/dense/blas/blas.h | 91 ++++++++++++++++++++++++++++++
 1 file changed, 91 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 91a09f5..4f2a494 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -49,6 +49,33 @@ inline CBLAS_TRANSPOSE blas_from_dot(il::Dot op) {
   }
 }
 
+// Products without any term: y = beta * y, where y is not read when beta is 0
+
+template <typename T>
+void scale(T beta, il::io_t, il::ArrayEdit<T> y) {
+  for (il::int_t i = 0; i < y.size(); ++i) {
+    y[i] = beta == T{0} ? T{0} : beta * y[i];
+  }
+}
+
+template <typename T>
+void scale(T beta, il::io_t, il::Array2DEdit<T> C) {
+  for (il::int_t i1 = 0; i1 < C.size(1); ++i1) {
+    for (il::int_t i0 = 0; i0 < C.size(0); ++i0) {
+      C(i0, i1) = beta == T{0} ? T{0} : beta * C(i0, i1);
+    }
+  }
+}
+
+template <typename T>
+void scale(T beta, il::io_t, il::Array2CEdit<T> C) {
+  for (il::int_t i0 = 0; i0 < C.size(0); ++i0) {
+    for (il::int_t i1 = 0; i1 < C.size(1); ++i1) {
+      C(i0, i1) = beta == T{0} ? T{0} : beta * C(i0, i1);
+    }
+  }
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -362,6 +389,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
@@ -397,6 +428,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
@@ -434,6 +469,10 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
@@ -477,6 +516,10 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
@@ -519,6 +562,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
@@ -554,6 +601,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
@@ -591,6 +642,10 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
@@ -634,6 +689,10 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0 || y.size() == 0) {
+    il::scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
@@ -683,6 +742,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -740,6 +803,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -799,6 +866,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -873,6 +944,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -945,6 +1020,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1002,6 +1081,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1061,6 +1144,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1135,6 +1222,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (A.size(0) == 0 || A.size(1) == 0 || C.size(0) == 0 || C.size(1) == 0) {
+    il::scale(beta, il::io, C);
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
-- 
2.43.0


From c1707143dcde133979ea888c1fcaa130a9ace7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 114/170] fix: LU::solve handles padded matrices and checks the
 sizes

---
 il/linearAlgebra/dense/factorization/LU.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..180e49b 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -239,12 +239,13 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
@@ -263,7 +264,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
-- 
2.43.0


From 6e5b3df9b99910e92c185393ecc91a7027488421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 115/170] fix: LU::determinant takes the row interchanges into
 account

---
 il/linearAlgebra/dense/factorization/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 180e49b..78e2d29 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -291,7 +291,7 @@ inline double LU<il::Array2D<double>>::determinant() const {
 
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
-    det *= lu_(i, i);
+    det *= (ipiv_[i] == i + 1) ? lu_(i, i) : -lu_(i, i);
   }
 
   return det;
-- 
2.43.0


From 408207e3444f397b8be2c98f0ac49d8d74b3c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 116/170] fix: the L and U parts of an LU decomposition are
 defined

---
 il/linearAlgebra/dense/factorization/LU.h | 54 +++++++++++------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 78e2d29..f084879 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -326,6 +326,33 @@ inline const double &LU<il::Array2D<double>>::U(il::int_t i,
   return lu_(i, j);
 }
 
+inline il::LowerArray2D<double> LU<il::Array2D<double>>::L() const {
+  IL_EXPECT_FAST(size(0) == size(1));
+
+  const il::int_t n = size(0);
+  il::LowerArray2D<double> L{n};
+  for (il::int_t i1 = 0; i1 < n; ++i1) {
+    L(i1, i1) = 1.0;
+    for (il::int_t i0 = i1 + 1; i0 < n; ++i0) {
+      L(i0, i1) = lu_(i0, i1);
+    }
+  }
+  return L;
+}
+
+inline il::UpperArray2D<double> LU<il::Array2D<double>>::U() const {
+  IL_EXPECT_FAST(size(0) == size(1));
+
+  const il::int_t n = size(0);
+  il::UpperArray2D<double> U{n};
+  for (il::int_t i1 = 0; i1 < n; ++i1) {
+    for (il::int_t i0 = 0; i0 <= i1; ++i0) {
+      U(i0, i1) = lu_(i0, i1);
+    }
+  }
+  return U;
+}
+
 /*
 template <> class LU<il::Array2C<double>> {
 private:
@@ -368,33 +395,6 @@ LU<il::Array2C<double>>::LU(il::Array2C<double> A, il::io_t, il::Status &status)
   }
 }
 
-template <> il::LowerArray2D<double> LU<il::Array2D<double>>::L() const {
-  IL_EXPECT_FAST(size(0) == size(1));
-
-  const il::int_t n = size(0);
-  il::LowerArray2D<double> L{n};
-  for (il::int_t i1 = 0; i1 < n; ++i1) {
-    L(i1, i1) = 1.0;
-    for (il::int_t i0 = i1 + 1; i0 < n; ++i0) {
-      L(i0, i1) = lu_(i0, i1);
-    }
-  }
-  return L;
-}
-
-template <> il::UpperArray2D<double> LU<il::Array2D<double>>::U() const {
-  IL_EXPECT_FAST(size(0) == size(1));
-
-  const il::int_t n = size(0);
-  il::UpperArray2D<double> U{n};
-  for (il::int_t i1 = 0; i1 < n; ++i1) {
-    for (il::int_t i0 = 0; i0 <= i1; ++i0) {
-      U(i0, i1) = lu_(i0, i1);
-    }
-  }
-  return U;
-}
-
 // template <>
 // class LU<il::Array2C<double>> {
 // private:
-- 
2.43.0


From bee2eb5f82bf1916e2c91fefbc07bf4837b0497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 117/170] fix: Cholesky.h compiles

---
 .../dense/factorization/Cholesky.h            | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index aba83b8..e29127c 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -63,8 +63,8 @@ class Cholesky<il::Array2D<double>> {
   double conditionNumber(il::Norm norm_type, double norm_a) const;
 };
 
-Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
-                                        il::Status& status)
+inline Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
+                                               il::Status& status)
     : l_{} {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
@@ -73,7 +73,7 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   const lapack_int n = static_cast<lapack_int>(A.size(0));
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotrf(layout, uplo, n, A.data(), lda);
+      LAPACKE_dpotrf(layout, uplo, n, A.Data(), lda);
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
     status.SetOk();
@@ -83,13 +83,13 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
+inline il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
 
   return l_.size(d);
 }
 
-il::Array<double> Cholesky<il::Array2D<double>>::solve(
+inline il::Array<double> Cholesky<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(l_.size(0) == y.size());
 
@@ -100,37 +100,36 @@ il::Array<double> Cholesky<il::Array2D<double>>::solve(
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error =
-      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.data(), ldy);
+      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return y;
 }
 
-il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
+inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
   il::Array2D<double> inverse{l_};
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(inverse.size(0));
   const lapack_int lda = static_cast<lapack_int>(inverse.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotri(layout, uplo, n, inverse.data(), lda);
+      LAPACKE_dpotri(layout, uplo, n, inverse.Data(), lda);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return inverse;
 }
 
-double Cholesky<il::Array2D<double>>::conditionNumber(il::Norm norm_type,
-                                                      double norm_a) const {
+inline double Cholesky<il::Array2D<double>>::conditionNumber(
+    il::Norm norm_type, double norm_a) const {
   IL_EXPECT_FAST(norm_type == il::Norm::L1 || norm_type == il::Norm::Linf);
 
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-  const char lapack_norm = (norm_type == il::Norm::L1) ? '1' : 'I';
   const lapack_int n = static_cast<lapack_int>(l_.size(0));
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   double rcond;
   const lapack_int lapack_error =
-      LAPACKE_dpocon(layout, lapack_norm, n, l_.data(), lda, norm_a, &rcond);
+      LAPACKE_dpocon(layout, uplo, n, l_.data(), lda, norm_a, &rcond);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return 1.0 / rcond;
@@ -145,8 +144,9 @@ class Cholesky<LowerArray2D<double>> {
   Cholesky(il::LowerArray2D<double> A, il::io_t, il::Status& status);
 };
 
-Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A, il::io_t,
-                                         il::Status& status)
+inline Cholesky<il::LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A,
+                                                    il::io_t,
+                                                    il::Status& status)
     : l_{} {
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-- 
2.43.0


From aa7a35726abd66c12492c4c2fbe4b4a1ebadc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 118/170] fix: Cholesky::inverse returns both halves of the
 inverse

---
 il/linearAlgebra/dense/factorization/Cholesky.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index e29127c..0ff4643 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -116,6 +116,12 @@ inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
       LAPACKE_dpotri(layout, uplo, n, inverse.Data(), lda);
   IL_EXPECT_FAST(lapack_error == 0);
 
+  for (il::int_t i1 = 0; i1 < inverse.size(1); ++i1) {
+    for (il::int_t i0 = 0; i0 < i1; ++i0) {
+      inverse(i0, i1) = inverse(i1, i0);
+    }
+  }
+
   return inverse;
 }
 
-- 
2.43.0


From d1b170771f124baa7d8c8a52c298729165658c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 119/170] fix: Householder.h compiles and keeps the
 factorization

---
 il/linearAlgebra/dense/factorization/Householder.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Householder.h b/il/linearAlgebra/dense/factorization/Householder.h
index fdc66fa..0e7ac31 100644
--- a/il/linearAlgebra/dense/factorization/Householder.h
+++ b/il/linearAlgebra/dense/factorization/Householder.h
@@ -22,7 +22,7 @@
 #include <il/Status.h>
 #include <il/container/1d/Array.h>
 #include <il/container/2d/Array2D.h>
-#include <il/linearAlgebra/dense/factorization/norm.h>
+#include <il/linearAlgebra/dense/norm.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -55,20 +55,22 @@ class Householder<il::Array2D<double>> {
   //  il::Array<double> solve(il::Array<double> y) const;
 };
 
-Householder<il::Array2D<double>>::Householder(il::Array2D<double> A)
-    : house_holder_{} {
+inline Householder<il::Array2D<double>>::Householder(il::Array2D<double> A)
+    : reflexion_{}, house_holder_{} {
   IL_EXPECT_FAST(A.size(0) > 0);
   IL_EXPECT_FAST(A.size(1) > 0);
 
   const int layout = LAPACK_COL_MAJOR;
-  const char trans = 'N';
   const lapack_int m = static_cast<lapack_int>(A.size(0));
   const lapack_int n = static_cast<lapack_int>(A.size(1));
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   il::Array<double> reflexion{m < n ? m : n};
   const lapack_int lapack_error =
-      LAPACKE_dgeqrf(layout, m, n, A.data(), lda, reflexion.data());
-  IL_EXPECT_FAST(lapack_error >= 0);
+      LAPACKE_dgeqrf(layout, m, n, A.Data(), lda, reflexion.Data());
+  IL_EXPECT_FAST(lapack_error == 0);
+
+  reflexion_ = std::move(reflexion);
+  house_holder_ = std::move(A);
 }
 
 }  // namespace il
-- 
2.43.0


From 558187202a081238cb14859139031e2d23c930ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 120/170] fix: the dense decompositions can be included in many
 source files

---
 il/linearAlgebra/dense/factorization/Eigen.h           | 7 ++++---
 il/linearAlgebra/dense/factorization/luDecomposition.h | 8 ++++----
 il/linearAlgebra/dense/factorization/qrDecomposition.h | 9 +++++----
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Eigen.h b/il/linearAlgebra/dense/factorization/Eigen.h
index 635a41e..3e4cb99 100644
--- a/il/linearAlgebra/dense/factorization/Eigen.h
+++ b/il/linearAlgebra/dense/factorization/Eigen.h
@@ -53,8 +53,8 @@ class Eigen<il::Array2D<double>> {
   il::Array<std::complex<double>> eigenValue() const;
 };
 
-Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
-                                  il::Status& status)
+inline Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
+                                         il::Status& status)
     : eigen_value_{}, eigen_value_r_{}, eigen_value_i_{} {
   IL_EXPECT_FAST(A.size(0) > 0);
   IL_EXPECT_FAST(A.size(1) > 0);
@@ -92,7 +92,8 @@ Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue() const {
+inline il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue()
+    const {
   il::Array<std::complex<double>> ans{eigen_value_r_.size()};
 
   for (il::int_t i = 0; i < ans.size(); ++i) {
diff --git a/il/linearAlgebra/dense/factorization/luDecomposition.h b/il/linearAlgebra/dense/factorization/luDecomposition.h
index c796dea..974bace 100644
--- a/il/linearAlgebra/dense/factorization/luDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/luDecomposition.h
@@ -33,8 +33,8 @@
 
 namespace il {
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
-                     il::Array2DEdit<double> A) {
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+                            il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
 
@@ -48,8 +48,8 @@ void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
-                     il::Array2DEdit<std::complex<double>> A) {
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+                            il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
 
diff --git a/il/linearAlgebra/dense/factorization/qrDecomposition.h b/il/linearAlgebra/dense/factorization/qrDecomposition.h
index d492fa1..75fb84a 100644
--- a/il/linearAlgebra/dense/factorization/qrDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/qrDecomposition.h
@@ -33,8 +33,8 @@
 
 namespace il {
 
-void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
-                     il::Array2DEdit<double> A) {
+inline void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
+                            il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
   const int layout = LAPACK_COL_MAJOR;
@@ -46,8 +46,9 @@ void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
-                     il::Array2DEdit<std::complex<double>> A) {
+inline void qrDecomposition(il::io_t,
+                            il::ArrayEdit<std::complex<double>> tau,
+                            il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
   const int layout = LAPACK_COL_MAJOR;
-- 
2.43.0


From 5740ee733b3d6353710dc68e540a64fccb09d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 121/170] fix: il::Singular compiles

---
 il/linearAlgebra/dense/factorization/Singular.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Singular.h b/il/linearAlgebra/dense/factorization/Singular.h
index ede71e8..0afac2e 100644
--- a/il/linearAlgebra/dense/factorization/Singular.h
+++ b/il/linearAlgebra/dense/factorization/Singular.h
@@ -143,13 +143,13 @@ Singular<il::StaticArray2D<double, n, n>>::Singular(
   const int layout = LAPACK_COL_MAJOR;
   const lapack_int lapack_n = static_cast<lapack_int>(n);
 
-  il::StaticArray<double, n> d{n};
+  il::StaticArray<double, n> d{};
   il::StaticArray<double, (n == 1) ? 1 : (n - 1)> e{};
   il::StaticArray<double, n> tauq{};
   il::StaticArray<double, n> taup{};
   lapack_int lapack_error =
-      LAPACKE_dgebrd(layout, lapack_n, lapack_n, A_local.data(), lapack_n,
-                     d.data(), e.data(), tauq.data(), taup.data());
+      LAPACKE_dgebrd(layout, lapack_n, lapack_n, A_local.Data(), lapack_n,
+                     d.Data(), e.Data(), tauq.Data(), taup.Data());
   IL_EXPECT_FAST(lapack_error >= 0);
 
   const char uplo = 'U';
@@ -163,8 +163,8 @@ Singular<il::StaticArray2D<double, n, n>>::Singular(
   il::Array<double> u{ldu * n};
   il::Array<double> c{1};
   lapack_error =
-      LAPACKE_dbdsqr(layout, uplo, lapack_n, ncvt, nru, ncc, d.data(), e.data(),
-                     vt.data(), ldvt, u.data(), ldu, c.data(), ldc);
+      LAPACKE_dbdsqr(layout, uplo, lapack_n, ncvt, nru, ncc, d.Data(), e.Data(),
+                     vt.Data(), ldvt, u.Data(), ldu, c.Data(), ldc);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 9cfc4a9acfb9898173db1c06f890c905b75b1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 122/170] fix: linearSolve passes band matrices to LAPACK in
 the layout it expects

---
 .../dense/factorization/linearSolve.h         | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..8a1381e 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -97,16 +97,27 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
 
   il::Array<lapack_int> ipiv{A.size(1)};
 
-  const int layout{LAPACK_ROW_MAJOR};
+  // Layout of LAPACK: the columns of the matrix with widthLeft() free elements
+  // above them for the fill-in
+  il::Array2D<double> ab{2 * A.widthLeft() + 1 + A.widthRight(), A.size(1),
+                         0.0};
+  for (il::int_t i = 0; i < A.size(0); ++i) {
+    for (il::int_t k = -A.widthLeft(); k <= A.widthRight(); ++k) {
+      if (i + k >= 0 && i + k < A.size(1)) {
+        ab(A.widthLeft() + A.widthRight() - k, i + k) = A(i, k);
+      }
+    }
+  }
+
+  const int layout{LAPACK_COL_MAJOR};
   const lapack_int n{static_cast<lapack_int>(A.size(1))};
   const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
   const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
+  const lapack_int ldab{static_cast<lapack_int>(ab.stride(1))};
+  const lapack_int ldb{n};
   const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+      layout, n, kl, ku, nrhs, ab.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 212d56a22002cb785c665dc45d9550a9afe130d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 123/170] fix: norm of a tridiagonal matrix of size 0 or 1

---
 il/linearAlgebra/dense/norm.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..fc9e936 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -149,11 +149,15 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
   switch (norm_type) {
     case Norm::Linf: {
       il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
+      for (il::int_t i = 0; i < n; ++i) {
+        sum_row[i] = il::abs(A(i, 0));
+        if (i > 0) {
+          sum_row[i] += il::abs(A(i, -1));
+        }
+        if (i < n - 1) {
+          sum_row[i] += il::abs(A(i, 1));
+        }
       }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
       for (il::int_t i = 0; i < sum_row.size(); ++i) {
         ans = il::max(ans, sum_row[i]);
       }
-- 
2.43.0


From 7a49a00cfb07b70b450b3576e8ac2bc10bc69eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 124/170] fix: il::max of two int is not ambiguous

---
 il/core/core.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/core/core.h b/il/core/core.h
index a85c352..c6eed77 100644
--- a/il/core/core.h
+++ b/il/core/core.h
@@ -179,6 +179,10 @@ T max(T a, T b) {
   return a >= b ? a : b;
 }
 
+inline int max(int a, int b) {
+  return a > b ? a : b;
+}
+
 template <typename T>
 T max(T a, int b) {
   return a >= b ? a : b;
-- 
2.43.0


From 99c5db93b564e9e7327aca71e3a441ab7f0ad446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 125/170] fix: a sparse matrix is built from elements of its
 own type

---
 il/container/2d/SparseMatrixCSR.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 3025012..b0f2c5c 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -43,7 +43,7 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
                   il::Array<Index> row);
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
-                  il::Array<Index> row, il::Array<double> element);
+                  il::Array<Index> row, il::Array<T> element);
   template <Index n>
   SparseMatrixCSR(il::int_t width, il::int_t height,
                   const il::Array<il::SmallArray<Index, n>> &column);
@@ -119,13 +119,14 @@ template <typename Index, typename T>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
                                            il::Array<Index> column,
                                            il::Array<Index> row,
-                                           il::Array<double> element)
+                                           il::Array<T> element)
     : n0_{height},
       n1_{width},
       element_{std::move(element)},
       column_{std::move(column)},
       row_{std::move(row)} {
   IL_EXPECT_FAST(row_.size() == height + 1);
+  IL_EXPECT_FAST(element_.size() == column_.size());
 }
 
 template <typename Index, typename T>
-- 
2.43.0


From 05852a282f2b8dc4efb9aec046c031177828e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 126/170] fix: the sparse matrix of a list of columns has a row
 for each of them

---
 il/container/2d/SparseMatrixCSR.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index b0f2c5c..6956368 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -44,7 +44,7 @@ class SparseMatrixCSR {
                   il::Array<Index> row);
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
                   il::Array<Index> row, il::Array<T> element);
-  template <Index n>
+  template <il::int_t n>
   SparseMatrixCSR(il::int_t width, il::int_t height,
                   const il::Array<il::SmallArray<Index, n>> &column);
   SparseMatrixCSR(il::int_t n,
@@ -130,14 +130,16 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
 }
 
 template <typename Index, typename T>
-template <Index n>
+template <il::int_t n>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     il::int_t width, il::int_t height,
     const il::Array<il::SmallArray<Index, n>> &column)
-    : n1_{width}, n0_{height}, element_{}, column_{}, row_{height + 1} {
+    : n0_{height}, n1_{width}, element_{}, column_{}, row_{height + 1} {
+  IL_EXPECT_FAST(column.size() == height);
+
   Index nb_nonzero = 0;
   for (Index i = 0; i < column.size(); ++i) {
-    nb_nonzero += column[i].size();
+    nb_nonzero += static_cast<Index>(column[i].size());
   }
 
   element_.Resize(nb_nonzero);
@@ -147,7 +149,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     for (Index k = 0; k < column[i].size(); ++k) {
       column_[row_[i] + k] = column[i][k];
     }
-    row_[i + 1] = row_[i] + column[i].size();
+    row_[i + 1] = row_[i] + static_cast<Index>(column[i].size());
   }
 }
 
-- 
2.43.0


From 86de2f9cb4210034d2dc46392eeb575a4919a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 127/170] fix: a sparse matrix without rows can be built from
 positions

---
 il/container/2d/SparseMatrixCSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 6956368..6dd1875 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -177,7 +177,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row = n > 0 ? il::max(nb_entries_per_row) : 0;
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From 447a815828337e0607816f73dd9c130eb98edfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 128/170] fix: positions outside of a sparse matrix are
 rejected

---
 il/container/2d/SparseMatrixCSR.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 6dd1875..f85c67b 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -175,6 +175,8 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   //  maximum number of entry in a row.
   il::Array<Index> nb_entries_per_row{n, 0};
   for (Index l = 0; l < nb_entries; ++l) {
+    IL_EXPECT_FAST(position[l][0] >= 0 && position[l][0] < n);
+    IL_EXPECT_FAST(position[l][1] >= 0 && position[l][1] < n);
     ++nb_entries_per_row[position[l][0]];
   }
   const Index max_entries_per_row = n > 0 ? il::max(nb_entries_per_row) : 0;
-- 
2.43.0


From 9559ed5ab1f5c77238dfeef46a3e9fe3031d47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 129/170] fix: the norm of a sparse matrix checks the sizes it
 uses

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index f85c67b..e2bbbec 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -360,8 +360,8 @@ template <typename Index>
 inline double norm(const il::SparseMatrixCSR<Index, double> &A, Norm norm_type,
                    const il::Array<double> &beta,
                    const il::Array<double> &alpha) {
-  IL_EXPECT_FAST(alpha.size() == A.size(0));
-  IL_EXPECT_FAST(beta.size() == A.size(1));
+  IL_EXPECT_FAST(alpha.size() == A.size(1));
+  IL_EXPECT_FAST(beta.size() == A.size(0));
 
   double norm = 0.0;
   switch (norm_type) {
-- 
2.43.0


From ed0aab71f25ade8436553533f80495fc89eec5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 130/170] fix: handles of sparse matrices compile

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 963702e..10304d4 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -44,10 +44,10 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  T *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  T *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -98,10 +98,10 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  float *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  float *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
-- 
2.43.0


From fad9e67892e938d03595cee35922268c8ddb1f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 131/170] fix: the handle of a sparse matrix is not destroyed
 twice

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 10304d4..1c92cf6 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -33,6 +33,8 @@ class SparseMatrixBlas {
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, T> &A);
+  SparseMatrixBlas(const SparseMatrixBlas &A) = delete;
+  SparseMatrixBlas &operator=(const SparseMatrixBlas &A) = delete;
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
@@ -87,6 +89,8 @@ class SparseMatrixBlas<Index, float> {
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, float> &A);
+  SparseMatrixBlas(const SparseMatrixBlas &A) = delete;
+  SparseMatrixBlas &operator=(const SparseMatrixBlas &A) = delete;
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
-- 
2.43.0


From 169dfff980e8fafbb9f8c0082c79cc425d5930ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 132/170] fix: a sparse product with beta equal to 0 does not
 read y

---
 il/linearAlgebra/sparse/blas/sparseBlas.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 874cba9..a6e47bc 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -38,7 +38,7 @@ inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
     for (int k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = beta == 0.0 ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
@@ -51,7 +51,7 @@ inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
     for (il::int_t k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = beta == 0.0 ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
-- 
2.43.0


From b46a2107389f82ac31d7822c3ac9aa183fcfd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 133/170] fix: sparse products check the sizes of the vectors

---
 il/linearAlgebra/sparse/blas/sparseBlas.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index a6e47bc..a780944 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -32,6 +32,9 @@ namespace il {
 inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A.size(1));
+  IL_EXPECT_FAST(y.size() == A.size(0));
+
   //#pragma omp parallel for
   for (int i = 0; i < A.size(0); ++i) {
     double sum = 0.0;
@@ -45,6 +48,9 @@ inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
 inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A.size(1));
+  IL_EXPECT_FAST(y.size() == A.size(0));
+
   //#pragma omp parallel for
   for (il::int_t i = 0; i < A.size(0); ++i) {
     double sum = 0.0;
-- 
2.43.0


From 0aa092d21c410c94b88b1dd395fcdb83d7a98bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 134/170] fix: products of sparse matrices compile

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index e14e4bd..b255234 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -50,16 +50,16 @@ inline il::SparseMatrixCSR<int, double> dot(
   il::Array<int> row{m + 1};
   MKL_INT request = 1;
 
-  int *A_row_data = A.rowData();
-  int *A_column_data = A.columnData();
+  int *A_row_data = A.RowData();
+  int *A_column_data = A.ColumnData();
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
   for (int i = 0; i <= A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
-  int *B_row_data = B.rowData();
-  int *B_column_data = B.columnData();
+  int *B_row_data = B.RowData();
+  int *B_column_data = B.ColumnData();
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
@@ -69,18 +69,18 @@ inline il::SparseMatrixCSR<int, double> dot(
     }
   }
 
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   element.Resize(row[m] - 1);
   column.Resize(row[m] - 1);
   request = 2;
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
-- 
2.43.0


From bf1afaee617c950c281215830dd8ffd63d7e972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 135/170] fix: products of sparse matrices do not write past
 their columns

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index b255234..df4ad2d 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -55,7 +55,7 @@ inline il::SparseMatrixCSR<int, double> dot(
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
   int *B_row_data = B.RowData();
@@ -64,7 +64,7 @@ inline il::SparseMatrixCSR<int, double> dot(
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       ++B_column_data[i];
     }
   }
@@ -87,14 +87,14 @@ inline il::SparseMatrixCSR<int, double> dot(
   for (int i = 0; i <= A.size(0); ++i) {
     --A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     --A_column_data[i];
   }
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       --B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       --B_column_data[i];
     }
   }
-- 
2.43.0


From 46b62ac13eae416cb0530e1b51ad309237225fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 136/170] fix: Pardiso can be used in more than one source file

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..da303d4 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -67,7 +67,7 @@ void PardisoSizeIntSelector<Int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<int>::pardiso_int_t(
+inline void PardisoSizeIntSelector<int>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const int *maxfct, const int *mnum, const int *mtype,
     const int *phase, const int *n, const void *a, const int *ia, const int *ja,
     int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x,
@@ -77,7 +77,7 @@ void PardisoSizeIntSelector<int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
+inline void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const std::ptrdiff_t *maxfct,
     const std::ptrdiff_t *mnum, const std::ptrdiff_t *mtype,
     const std::ptrdiff_t *phase, const std::ptrdiff_t *n, const void *a,
@@ -292,7 +292,7 @@ inline Pardiso::Pardiso() {
 
 inline Pardiso::~Pardiso() { Release(); }
 
-void Pardiso::SymbolicFactorization(
+inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   n_ = A.size(0);
@@ -315,7 +315,7 @@ void Pardiso::SymbolicFactorization(
   matrix_element_ = A.elementData();
 }
 
-void Pardiso::NumericalFactorization(
+inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(matrix_element_ = A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
-- 
2.43.0


From 7b0d3ba1acec79c06b5dd1d9b40d6dfd118da45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 137/170] fix: Pardiso rejects a matrix that is not the
 analysed one

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index da303d4..ce56a1d 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -317,7 +317,7 @@ inline void Pardiso::SymbolicFactorization(
 
 inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -339,7 +339,7 @@ inline void Pardiso::NumericalFactorization(
 inline il::Array<double> Pardiso::Solve(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -363,7 +363,7 @@ inline il::Array<double> Pardiso::Solve(
 inline il::Array<double> Pardiso::SolveIterative(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
-- 
2.43.0


From f0a1fe779f9b4ee8e841bed2d0f7d0c774e508d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 138/170] fix: Pardiso releases an analysis before the next one

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index ce56a1d..abc9cd4 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -295,15 +295,13 @@ inline Pardiso::~Pardiso() { Release(); }
 inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
-  n_ = A.size(0);
 
   const il::int_t phase = 11;
   il::int_t error = 0;
   il::int_t i_dummy;
 
-  if (is_numerical_factorization_) {
-    Release();
-  }
+  Release();
+  n_ = A.size(0);
   PardisoSizeIntSelector<il::int_t>::pardiso_int_t(
       pardiso_pt_, &pardiso_max_fact_, &pardiso_mnum_, &pardiso_mtype_, &phase,
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
-- 
2.43.0


From 0543f44b72e0c722eade295e8ec63bc47dee3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 139/170] fix: the factorization of Pardiso is not released
 twice

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index abc9cd4..b2102e0 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -115,6 +115,8 @@ class Pardiso {
 
  public:
   Pardiso();
+  Pardiso(const Pardiso &other) = delete;
+  Pardiso &operator=(const Pardiso &other) = delete;
   ~Pardiso();
   void SymbolicFactorization(const il::SparseMatrixCSR<il::int_t, double> &A);
   void NumericalFactorization(const il::SparseMatrixCSR<il::int_t, double> &A);
-- 
2.43.0


From e6caa807a8ae723f44dcf6a96b29e2edf80e87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 140/170] fix: arrays of 64-bit integers are saved with their
 type

---
 il/io/numpy/numpy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 3a91a2c..62c5265 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -19,6 +19,7 @@
 #ifndef IL_NUMPY_H
 #define IL_NUMPY_H
 
+#include <cstdint>
 #include <string>
 
 #include <il/Array.h>
@@ -45,6 +46,11 @@ struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+template <>
+struct numpyType<std::int64_t> {
+  static constexpr const char* value = "i8";
+};
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
-- 
2.43.0


From 9c26b0a839dd9476a25ba84cf9ecd08cf45e1e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 141/170] fix: a sparse matrix is not loaded from files that do
 not fit together

---
 il/io/numpy/numpy.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 62c5265..c5ba0f3 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -363,6 +363,20 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     }
 
     const il::int_t n = row.size() - 1;
+    bool well_formed = n >= 0 && column.size() == element.size() &&
+                       row[0] == 0 && row[n] == column.size();
+    for (il::int_t i = 0; well_formed && i < n; ++i) {
+      well_formed = row[i] <= row[i + 1];
+    }
+    for (il::int_t k = 0; well_formed && k < column.size(); ++k) {
+      well_formed = column[k] >= 0 && column[k] < n;
+    }
+    if (!well_formed) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
+
     status.SetOk();
     return il::SparseMatrixCSR<il::int_t, double>{
         n, n, std::move(column), std::move(row), std::move(element)};
-- 
2.43.0


From 41186e110832f07a35d502c6897fec5c28ae7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 142/170] fix: arrays can be loaded from read-only files

---
 il/io/numpy/numpy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index c5ba0f3..9dd94a3 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -192,10 +192,10 @@ class LoadHelper<il::Array<T>> {
     il::Array<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -261,10 +261,10 @@ class LoadHelper<il::Array2D<T>> {
     il::Array2D<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From ddd180f42ecf9f6cdff2d4829967cf6eff5a7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 143/170] fix: the files of a sparse matrix are loaded as NumPy
 files

---
 il/io/numpy/numpy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 9dd94a3..a989dc8 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -338,7 +338,7 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_row = filename;
     filename_row.Append(".row");
     auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
+        il::LoadHelper<il::Array<il::int_t>>::load(filename_row, il::io, local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
       return il::SparseMatrixCSR<il::int_t, double>{};
@@ -347,7 +347,8 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_column = filename;
     filename_column.Append(".column");
     auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
+        il::LoadHelper<il::Array<il::int_t>>::load(filename_column, il::io,
+                                                local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
       return il::SparseMatrixCSR<il::int_t, double>{};
@@ -356,7 +357,8 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_element = filename;
     filename_element.Append(".element");
     auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
+        il::LoadHelper<il::Array<double>>::load(filename_element, il::io,
+                                                local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
       return il::SparseMatrixCSR<il::int_t, double>{};
-- 
2.43.0


From 46a1e7361b9dec72f80831c1d542a4a5671e6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 144/170] fix: a file named by a std::string is loaded as the
 kind of file it is

---
 il/io/io_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..bbd4192 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -116,7 +116,7 @@ template <typename T>
 T load(const std::string& filename, il::io_t, il::Status& status) {
   il::String il_filename{il::StringType::Byte, filename.c_str(),
                          il::size(filename.c_str())};
-  return il::LoadHelper<T>::load(il_filename, il::io, status);
+  return il::load<T>(il_filename, il::io, status);
 }
 
 template <typename T>
-- 
2.43.0


From 7b7c7cc3b9f36edaed0308d998b69af4ea4bb8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 145/170] fix: the iterative Pardiso solver solves A.x = 0

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index b2102e0..0500f59 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -370,6 +370,18 @@ inline il::Array<double> Pardiso::SolveIterative(
   IL_EXPECT_FAST(y.size() == n_);
   il::Array<double> x{n_};
 
+  // The stopping criterion is relative to y: when it is zero, so is x
+  bool y_is_zero = true;
+  for (il::int_t i = 0; i < n_; ++i) {
+    x[i] = 0.0;
+    if (y[i] != 0.0) {
+      y_is_zero = false;
+    }
+  }
+  if (y_is_zero) {
+    return x;
+  }
+
   const il::int_t old_solver = pardiso_iparm_[3];
   // 6 digits of accuracy using LU decomposition
   pardiso_iparm_[3] = 21;
-- 
2.43.0


From 598b3aa9fe4e808624425839be5026e2820ace5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 146/170] fix: Gmres.h includes what it uses

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..146a193 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -19,8 +19,10 @@
 #ifndef IL_GMRES_H
 #define IL_GMRES_H
 
+#include <il/Array.h>
 #include <il/ArrayView.h>
 #include <il/StaticArray.h>
+#include <il/Status.h>
 
 #include "mkl_blas.h"
 #include "mkl_rci.h"
-- 
2.43.0


From 7e84d3891a3b4ff660a9c9013588da9bdda991de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 147/170] fix: Cg.h can be included by several translation
 units

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 8d0b3af..d7faf0d 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -90,7 +90,7 @@ class Cg<double> {
   il::int_t maxNbIterations() const;
 };
 
-Cg<double>::Cg(const il::FunctorArray<double>& A) {
+inline Cg<double>::Cg(const il::FunctorArray<double>& A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
   il::int_t n = A.size(0);
@@ -108,8 +108,8 @@ Cg<double>::Cg(const il::FunctorArray<double>& A) {
   nb_iterations_ = -1;
 }
 
-Cg<double>::Cg(const il::FunctorArray<double>& A,
-               const il::FunctorArray<double>& B) {
+inline Cg<double>::Cg(const il::FunctorArray<double>& A,
+                      const il::FunctorArray<double>& B) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(B.size(0) == B.size(1));
   IL_EXPECT_FAST(A.size(0) == B.size(0));
@@ -129,7 +129,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A,
   nb_iterations_ = -1;
 }
 
-il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
+inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                                     il::Status& status) {
   IL_EXPECT_FAST(y.size() == n_);
 
@@ -207,7 +207,7 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
   return x;
 }
 
-void Cg<double>::SetToSolve(il::ArrayView<double> y) {
+inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_EXPECT_FAST(y.size() == n_);
 
   for (il::int_t i = 0; i < n_; ++i) {
@@ -298,7 +298,7 @@ void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_ENSURE(rci_request_ == 0);
 }
 
-void Cg<double>::Next() {
+inline void Cg<double>::Next() {
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
 
@@ -341,39 +341,39 @@ void Cg<double>::Next() {
   }
 }
 
-double Cg<double>::trueResidualNorm() const { return norm_residual_; }
+inline double Cg<double>::trueResidualNorm() const { return norm_residual_; }
 
-il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
+inline il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
 
-void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+inline void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = x_[i];
   }
 }
 
-void Cg<double>::SetRelativePrecision(double relative_precision) {
+inline void Cg<double>::SetRelativePrecision(double relative_precision) {
   IL_EXPECT_MEDIUM(relative_precision >= 0.0);
 
   relative_precision_ = relative_precision;
 }
 
-void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
+inline void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
   IL_EXPECT_MEDIUM(absolute_precision >= 0.0);
 
   absolute_precision_ = absolute_precision;
 }
 
-void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
+inline void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
   IL_EXPECT_MEDIUM(max_nb_iterations >= 0);
 
   max_nb_iterations_ = max_nb_iterations;
 }
 
-double Cg<double>::relativePrecision() const { return relative_precision_; }
+inline double Cg<double>::relativePrecision() const { return relative_precision_; }
 
-double Cg<double>::absolutePrecision() const { return absolute_precision_; }
+inline double Cg<double>::absolutePrecision() const { return absolute_precision_; }
 
-il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
+inline il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
 
 }  // namespace il
 
-- 
2.43.0


From 410af367d2f8c44569a53176a8dd9c9b618b24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 148/170] fix: a preconditioned GMRES solver has a limit on its
 iterations

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 146a193..98d15a0 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -133,6 +133,8 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
+
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
-- 
2.43.0


From bfc926f068ea2218dca79fa6352ade922bbd5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 149/170] fix: the current GMRES solution is right after a
 restart

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 98d15a0..d4fb45f 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -334,12 +334,19 @@ void Gmres<T>::Next() {
 
 template <typename T>
 void Gmres<T>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+  IL_EXPECT_FAST(x.size() == n_);
+
+  if (nb_iterations_ == 0) {
+    for (il::int_t i = 0; i < n_; ++i) {
+      x[i] = x_[i];
+    }
+    return;
+  }
+  // x_ contains the solution at the last restart, which is left as it is. The
+  // current solution is written in x.
   ipar_[12] = 1;
   int itercount;
-  for (il::int_t i = 0; i < n_; ++i) {
-    x[i] = 0.0;
-  }
-  dfgmres_get(&n_, x.Data(), x.Data(), &RCI_request_, ipar_.data(),
+  dfgmres_get(&n_, x_.Data(), x.Data(), &RCI_request_, ipar_.data(),
               dpar_.data(), tmp_.Data(), &itercount);
 }
 
-- 
2.43.0


From 20ec2fe157a20ba9fae213a9d634ac4facdd0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 150/170] fix: GMRES starts from zero and solves A.x = 0

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index d4fb45f..573773b 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -362,9 +362,20 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
   IL_EXPECT_FAST(y.size() == n_);
   IL_EXPECT_FAST(x.size() == n_);
 
+  bool y_is_zero = true;
   for (il::int_t i = 0; i < n_; ++i) {
+    x[i] = 0.0;
     yloc_[i] = y[i];
     ycopy_[i] = y[i];
+    if (y[i] != 0.0) {
+      y_is_zero = false;
+    }
+  }
+  if (y_is_zero) {
+    norm_residual_ = 0.0;
+    nb_iterations_ = 0;
+    status.SetOk();
+    return;
   }
 
   int itercount = 0;
-- 
2.43.0


From 85963420c3e9442f16c39c5a5397e6e8aed2dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 151/170] fix: GMRES reports that it has not converged

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 28 ++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 573773b..78ac45a 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -441,6 +441,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
                 dpar_.Data(), tmp_.Data());
   IL_EXPECT_FAST(RCI_request_ == 0);
   bool stop_iteration = false;
+  bool has_converged = false;
   double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
   while (!stop_iteration) {
     // The beginning of the iteration
@@ -482,9 +483,9 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
         daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
               &one_int);
         // This number plays a critical role in the precision of the method
-        double norm_residual = dnrm2(&n_, residual_.data(), &one_int);
-        double error_ratio = norm_residual / y_norm;
-        if (norm_residual <= relative_precision * y_norm) {
+        norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+        if (norm_residual_ <= relative_precision * y_norm) {
+          has_converged = true;
           stop_iteration = true;
         }
       } break;
@@ -520,7 +521,26 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
-  status.SetOk();
+  if (!has_converged) {
+    // The iterations have been stopped by their limit, or because the Krylov
+    // space can not be extended
+    il::ArrayEdit<double> my_y = residual_.Edit();
+    for (il::int_t i = 0; i < n_; ++i) {
+      my_y[i] = 0.0;
+    }
+    (*m_)(x, il::io, my_y);
+    for (il::int_t i = 0; i < n_; ++i) {
+      residual_[i] -= y[i];
+    }
+    norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+    has_converged = norm_residual_ <= relative_precision * y_norm;
+  }
+  if (has_converged) {
+    status.SetOk();
+  } else {
+    status.SetError(il::Error::Undefined);
+    IL_SET_SOURCE(status);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From 9ffe5cb85b51ec439f216d57d77848506a0dd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 152/170] fix: the conjugate gradient solver tests the norm of
 the residual

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index d7faf0d..c8f0f73 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -148,6 +148,8 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
             tmp_.Data());
   IL_ENSURE(rci_request_ == 0);
 
+  const MKL_INT integer_one = 1;
+  const double norm_y = dnrm2(&n_, y.data(), &integer_one);
   bool stop_loop = false;
   bool max_nb_iterations_reached = false;
   bool has_converged = false;
@@ -173,10 +175,11 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        double norm_residual = std::sqrt(dpar_[4]);
-        if (norm_residual <=
-            relative_precision_ * std::sqrt(dpar_[2]) + absolute_precision_) {
-          norm_residual_ = norm_residual;
+        // With a preconditionner B, dpar_[4] is r.(B.r) and not the square norm
+        // of the residual r
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
+        if (norm_residual_ <=
+            relative_precision_ * norm_y + absolute_precision_) {
           has_converged = true;
           stop_loop = true;
         } else if (nb_iterations_ == max_nb_iterations_) {
@@ -299,6 +302,7 @@ inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
 }
 
 inline void Cg<double>::Next() {
+  const MKL_INT integer_one = 1;
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
 
@@ -324,7 +328,7 @@ inline void Cg<double>::Next() {
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        norm_residual_ = std::sqrt(dpar_[4]);
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
         if (nb_iterations_ == initial_nb_iterations + 1) {
           stop_loop = true;
         }
-- 
2.43.0


From a53945c305e566ee61870915323401c94073057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 153/170] fix: the iterative solvers stay on an exact solution

---
 il/linearAlgebra/matrixFree/solver/Cg.h    | 5 +++++
 il/linearAlgebra/matrixFree/solver/Gmres.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index c8f0f73..05edb6b 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -302,6 +302,11 @@ inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
 }
 
 inline void Cg<double>::Next() {
+  if (norm_residual_ == 0.0) {
+    // The solution is exact and there is nothing left to minimize
+    return;
+  }
+
   const MKL_INT integer_one = 1;
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 78ac45a..7d9444c 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -238,6 +238,11 @@ double Gmres<T>::normResidual() const {
 
 template <typename T>
 void Gmres<T>::Next() {
+  if (norm_residual_ == 0.0) {
+    // The solution is exact and there is nothing left to minimize
+    return;
+  }
+
   IL_EXPECT_FAST(RCI_request_ == 0);
 
   const char l_char = 'L';
-- 
2.43.0


From 693bdbbdd1d4935efea9e7ae051daca269df0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 154/170] fix: the GMRES iterations stop when the Krylov space
 is invariant

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 71 +++++++++++++---------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 7d9444c..a119e18 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -73,6 +73,10 @@ class Gmres {
   int RCI_request_;
   double norm_residual_;
   il::int_t nb_iterations_;
+  bool has_stopped_;
+
+  void UpdateResidual();
+
  public:
   Gmres(const il::FunctorArray<T>& m, il::int_t krylov_dim);
   Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
@@ -157,6 +161,7 @@ void Gmres<T>::SetToSolve(il::ArrayView<double> y) {
   IL_EXPECT_FAST(y.size() == n_);
 
   nb_iterations_ = 0;
+  has_stopped_ = false;
 
   for (il::int_t i = 0; i < n_; ++i) {
     x_[i] = 0.0;
@@ -238,8 +243,8 @@ double Gmres<T>::normResidual() const {
 
 template <typename T>
 void Gmres<T>::Next() {
-  if (norm_residual_ == 0.0) {
-    // The solution is exact and there is nothing left to minimize
+  if (norm_residual_ == 0.0 || has_stopped_) {
+    // There is nothing left to minimize
     return;
   }
 
@@ -251,9 +256,7 @@ void Gmres<T>::Next() {
   const int one_int = 1;
   const double minus_one_double = -1.0;
   bool stop_iteration = false;
-  double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
-  int itercount = static_cast<il::int_t>(nb_iterations_);
-  int begin_itercount = itercount;
+  const il::int_t begin_itercount = nb_iterations_;
 
   while (!stop_iteration) {
     // The beginning of the iteration
@@ -261,8 +264,9 @@ void Gmres<T>::Next() {
             dpar_.Data(), tmp_.Data());
     switch (RCI_request_) {
       case 0:
-        // In that case, the solution has been found with the right precision.
-        // This occurs only if the stopping test is fully automatic.
+        // The limit on the number of iterations has been reached
+        UpdateResidual();
+        has_stopped_ = true;
         stop_iteration = true;
         break;
       case 1: {
@@ -276,27 +280,8 @@ void Gmres<T>::Next() {
         (*m_)(my_x, il::io, my_y);
       } break;
       case 2: {
-        ipar_[12] = 1;
-        // Retrieve iteration number AND update sol
-        dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_, ipar_.data(),
-                    dpar_.data(), tmp_.Data(), &itercount);
-        // Compute the current true residual via MKL (Sparse) BLAS
-        // routines. It multiplies the matrix A with yCopy and
-        // store the result in residual.
-        //--------------- To Change
-        il::ArrayView<double> my_x = ycopy_.view();
-        il::ArrayEdit<double> my_y = residual_.Edit();
-        for (il::int_t i = 0; i < n_; ++i) {
-          my_y[i] = 0.0;
-        }
-        (*m_)(my_x, il::io, my_y);
-        // Compute: residual = A.(current x) - y
-        // Note that A.(current x) is stored in residual before this operation
-        daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
-              &one_int);
-
-        norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
-        if (itercount == begin_itercount + 1) {
+        UpdateResidual();
+        if (nb_iterations_ == begin_itercount + 1) {
           stop_iteration = true;
         }
 
@@ -326,6 +311,8 @@ void Gmres<T>::Next() {
         // computational errors. The norm is contained in DPAR(7)
         // parameter
         if (dpar_[6] == 0.0) {
+          UpdateResidual();
+          has_stopped_ = true;
           stop_iteration = true;
         }
         break;
@@ -334,6 +321,34 @@ void Gmres<T>::Next() {
         break;
     }
   }
+}
+
+template <typename T>
+void Gmres<T>::UpdateResidual() {
+  const int one_int = 1;
+  const double minus_one_double = -1.0;
+  int itercount = 0;
+
+  ipar_[12] = 1;
+  // Retrieve iteration number AND update sol
+  dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_, ipar_.data(),
+              dpar_.data(), tmp_.Data(), &itercount);
+  // Compute the current true residual via MKL (Sparse) BLAS
+  // routines. It multiplies the matrix A with yCopy and
+  // store the result in residual.
+  //--------------- To Change
+  il::ArrayView<double> my_x = ycopy_.view();
+  il::ArrayEdit<double> my_y = residual_.Edit();
+  for (il::int_t i = 0; i < n_; ++i) {
+    my_y[i] = 0.0;
+  }
+  (*m_)(my_x, il::io, my_y);
+  // Compute: residual = A.(current x) - y
+  // Note that A.(current x) is stored in residual before this operation
+  daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
+        &one_int);
+
+  norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
   nb_iterations_ = itercount;
 }
 
-- 
2.43.0


From 0f96573de15cae37223e0058c058af3a0d1d74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 155/170] fix: a breakdown of the conjugate gradient does not
 abort

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 05edb6b..5f5222b 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -151,7 +151,6 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
   const MKL_INT integer_one = 1;
   const double norm_y = dnrm2(&n_, y.data(), &integer_one);
   bool stop_loop = false;
-  bool max_nb_iterations_reached = false;
   bool has_converged = false;
   while (!stop_loop) {
     dcg(&n_, x.Data(), y.data(), &rci_request_, ipar_.Data(), dpar_.Data(),
@@ -183,7 +182,6 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
           has_converged = true;
           stop_loop = true;
         } else if (nb_iterations_ == max_nb_iterations_) {
-          max_nb_iterations_reached = true;
           stop_loop = true;
         }
       } break;
@@ -194,6 +192,12 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
         il::ArrayEdit<double> v{tmp_.Data() + 3 * n_, n_};
         (*B_)(u, il::io, v);
       } break;
+      case -2:
+      case -10: {
+        // Division by zero: there is nothing left to minimize, or A (or B) is
+        // not positive definite
+        stop_loop = true;
+      } break;
       case -1: {
         IL_UNREACHABLE;
       } break;
@@ -201,10 +205,11 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
     }
   }
 
-  if (!max_nb_iterations_reached) {
+  if (has_converged) {
     status.SetOk();
   } else {
     status.SetError(il::Error::Undefined);
+    IL_SET_SOURCE(status);
   }
 
   return x;
@@ -345,6 +350,12 @@ inline void Cg<double>::Next() {
         il::ArrayEdit<double> v{tmp_.Data() + 3 * n_, n_};
         (*B_)(u, il::io, v);
       } break;
+      case -2:
+      case -10: {
+        // Division by zero: there is nothing left to minimize, or A (or B) is
+        // not positive definite
+        stop_loop = true;
+      } break;
       default: { IL_ENSURE(false); } break;
     }
   }
-- 
2.43.0


From 71d88bddaec7b03176703c2bd5de83bcacf06979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 156/170] fix: File.h includes what it uses

---
 il/io/File.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..2de211c 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -20,10 +20,12 @@
 #define IL_FILE_H
 
 #include <cstdio>
+#include <cstring>
 
 #include <il/Array.h>
 #include <il/Status.h>
 #include <il/String.h>
+#include <il/math.h>
 #ifdef IL_WINDOWS
 #include <il/UTF16String.h>
 #include <il/unicode.h>
-- 
2.43.0


From 179f50f7fd7ae4ac81fc4c720bb1f9245fe0b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 157/170] fix: File::Read reads blocks larger than its buffer

---
 il/io/File.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index 2de211c..0c0a5f9 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -158,13 +158,14 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // element of n bytes is faster than reading n elements of 1 byte. As a
       // consequence, I we try to do that first and if we fail because we are at
       // the end of the file, we try to read n elements of 1 byte.
-      const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
-      nb_bytes_read_ += nb_bytes_read;
-      if (nb_bytes_read != nb_bytes_to_read) {
+      const std::size_t block_read =
+          std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
+                     static_cast<std::size_t>(nb_bytes_to_read), 1, file_);
+      if (block_read != 1) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
         return;
       }
+      nb_bytes_read_ += nb_bytes_to_read;
     } else {
       // Here, if we try to read a full line of buffer. The cursor position has
       // to be saved because if fread fails, its position is undefined.
-- 
2.43.0


From 3b589f9c61b4713a8cf24dcb1f173ec71e3ea9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 158/170] fix: a File that could not be opened is not opened

---
 il/io/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/io/File.h b/il/io/File.h
index 0c0a5f9..1e566fc 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -64,6 +64,7 @@ class File {
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
     : buffer_{buffer_size} {
+  opened_ = false;
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
-- 
2.43.0


From dfdb79c5cceaec0df1c35cd39843d54c4eeb7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 159/170] fix: a File whose closing fails is not opened any
 more

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 1e566fc..1d7c6bf 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -244,12 +244,12 @@ inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
   const int error = std::fclose(file_);
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From 48eb7d642968f43642ce2a2693b7f9aa4f451f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 160/170] fix: File::Read fills its buffer through a pointer
 that can be written

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 1d7c6bf..2d4fc81 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -172,7 +172,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-- 
2.43.0


From cbbf3200851fc54c447c409a32013b2e2e457b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 161/170] fix: nextLog2 ends for numbers above the largest
 power of 2

---
 il/math.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index ac20375..8a84349 100644
--- a/il/math.h
+++ b/il/math.h
@@ -250,8 +250,11 @@ inline int nextLog2(std::size_t x) {
   std::size_t power = 1;
   int k = 0;
   while (power < x) {
-    power *= 2;
     k += 1;
+    if (power > x / 2) {
+      break;
+    }
+    power *= 2;
   }
   return k;
 }
@@ -272,8 +275,11 @@ inline int next_log2_32(unsigned int x) {
   unsigned int power = 1;
   int k = 0;
   while (power < x) {
-    power *= 2;
     k += 1;
+    if (power > x / 2) {
+      break;
+    }
+    power *= 2;
   }
 
   return k;
-- 
2.43.0


From 4dea8d801a62dab57c5cc31c57f2d9f44249737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 162/170] fix: a .png file is not loaded as a .npy file

---
 il/io/io_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index bbd4192..fdf702a 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -107,6 +107,11 @@ T load(const il::String& filename, il::io_t, il::Status& status) {
     case il::FileType::Data:
       return il::LoadHelperData<T>::load(filename, il::io, status);
       break;
+    case il::FileType::Png:
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return T{};
+      break;
     default:
       return il::LoadHelper<T>::load(filename, il::io, status);
   }
-- 
2.43.0


From f7967823496db59918ae5ea88647be24d3bb88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 163/170] fix: ppm.h compiles and can be included by several
 translation units

---
 il/io/ppm/ppm.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 449e98c..765eb5e 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -34,8 +34,8 @@ struct Pixel {
   unsigned char blue;
 };
 
-il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
-                               il::Status& status) {
+inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
+                                      il::Status& status) {
   il::Array2D<il::Pixel> image{};
 
 #ifdef IL_UNIX
@@ -113,7 +113,8 @@ il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.data(), 3 * width, height, fp) != height) {
+  if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width), height, fp) !=
+      static_cast<std::size_t>(height)) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From 2797c2b2a4820bae71b0f14ae70f07a3ac999b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 164/170] fix: readPpm closes a file that it refuses

---
 il/io/ppm/ppm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 765eb5e..282653d 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -55,10 +55,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   char buffer[16];
   if (!std::fgets(buffer, sizeof(buffer), fp)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
   if (buffer[0] != 'P' || buffer[1] != '6') {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -77,12 +79,14 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int height;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   const int error_no = fscanf_s(fp, "%d %d", &width, &height);
   if (error_no != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -91,6 +95,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int rgb_comp_color;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -98,6 +103,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   {
     const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
     if (error_no != 1) {
+      std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
       return image;
     }
@@ -105,6 +111,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 #endif
   // check rgb component depth
   if (rgb_comp_color != 255) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -115,6 +122,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   image.Resize(width, height);
   if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width), height, fp) !=
       static_cast<std::size_t>(height)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From c2bc1c54733abd18b271499a7d49a72dc6dc3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 165/170] fix: readPpm stops at the end of the file

---
 il/io/ppm/ppm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 282653d..a5ae8e2 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -68,7 +68,8 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // Check for comments
   int c{std::getc(fp)};
   while (c == '#') {
-    while (std::getc(fp) != '\n') {
+    while (c != '\n' && c != EOF) {
+      c = std::getc(fp);
     };
     c = std::getc(fp);
   }
@@ -115,8 +116,9 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  while (std::fgetc(fp) != '\n') {
-  };
+  do {
+    c = std::fgetc(fp);
+  } while (c != '\n' && c != EOF);
 
   // read pixel data from file
   image.Resize(width, height);
-- 
2.43.0


From 9d4469439f9098adf968c0740538b5842a5b2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 166/170] fix: readPpm refuses sizes that its file does not
 hold

---
 il/io/ppm/ppm.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index a5ae8e2..4f0d7ff 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -79,13 +79,13 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int width;
   int height;
 #ifdef IL_UNIX
-  if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+  if (std::fscanf(fp, "%9d %9d", &width, &height) != 2) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
-  const int error_no = fscanf_s(fp, "%d %d", &width, &height);
+  const int error_no = fscanf_s(fp, "%9d %9d", &width, &height);
   if (error_no != 2) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
@@ -95,14 +95,14 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // read rgb component
   int rgb_comp_color;
 #ifdef IL_UNIX
-  if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+  if (std::fscanf(fp, "%9d", &rgb_comp_color) != 1) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   {
-    const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
+    const int error_no = fscanf_s(fp, "%9d", &rgb_comp_color);
     if (error_no != 1) {
       std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
@@ -120,10 +120,23 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     c = std::fgetc(fp);
   } while (c != '\n' && c != EOF);
 
+  // the image must not be larger than what remains in the file
+  const long position = std::ftell(fp);
+  std::fseek(fp, 0, SEEK_END);
+  const long nb_bytes = std::ftell(fp) - position;
+  std::fseek(fp, position, SEEK_SET);
+  if (width < 0 || height < 0 ||
+      (width > 0 && height > nb_bytes / 3 / width)) {
+    std::fclose(fp);
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    return image;
+  }
+
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width), height, fp) !=
-      static_cast<std::size_t>(height)) {
+  if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width),
+                 static_cast<std::size_t>(height),
+                 fp) != static_cast<std::size_t>(height)) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
-- 
2.43.0


From e04b26eeca8a7d9281d6be575aae1a28f4f29593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 167/170] fix: sobol compiles: the elements of an array that
 can be written are Data()

---
 il/random/sobol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/random/sobol.h b/il/random/sobol.h
index 006ee2c..3ec26a4 100644
--- a/il/random/sobol.h
+++ b/il/random/sobol.h
@@ -36,7 +36,7 @@ inline il::Array2C<double> sobol(il::int_t nb_point, il::int_t dim, double a,
   int error_code;
   error_code = vslNewStream(&stream, brng, static_cast<MKL_INT>(dim));
   error_code = vdRngUniform(VSL_RNG_METHOD_UNIFORM_STD, stream, dim * nb_point,
-                            A.data(), a, b);
+                            A.Data(), a, b);
   error_code = vslDeleteStream(&stream);
 
   return A;
-- 
2.43.0


From 5312f794395cd3a3bb49ae61ad7c731c1136496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 168/170] fix: the recursion of sort stays shallow for any
 array

---
 il/algorithm/algorithmArray.h | 105 +++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 51 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index db487e3..10eee3d 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -244,66 +244,69 @@ MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
 
 template <typename T>
 void sort_aux(il::Range range, il::io_t, il::Array<T>& v) {
-  if (range.end - range.begin <= 1) {
-    return;
-  } else if (range.end - range.begin <= 15) {
-    for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-      il::int_t j = i;
-      while (j > 0 && v[j - 1] > v[j]) {
-        const T aux = v[j];
-        v[j] = v[j - 1];
-        v[j - 1] = aux;
-        --j;
+  while (range.end - range.begin > 15) {
+    // choose the pivot using the median rule
+    const il::int_t i_begin = range.begin;
+    const il::int_t i_end = range.end - 1;
+    const il::int_t i_middle = range.begin + (range.end - range.begin) / 2;
+    il::int_t pivot;
+    if (v[i_begin] < v[i_end]) {
+      if (v[i_middle] < v[i_begin]) {
+        pivot = i_begin;
+      } else {
+        pivot = (v[i_middle] > v[i_end]) ? i_end : i_middle;
       }
-    }
-    return;
-  }
-  // choose the pivot using the median rule
-  const il::int_t i_begin = range.begin;
-  const il::int_t i_end = range.end - 1;
-  const il::int_t i_middle = range.begin + (range.end - range.begin) / 2;
-  il::int_t pivot;
-  if (v[i_begin] < v[i_end]) {
-    if (v[i_middle] < v[i_begin]) {
-      pivot = i_begin;
     } else {
-      pivot = (v[i_middle] > v[i_end]) ? i_end : i_middle;
+      if (v[i_middle] < v[i_end]) {
+        pivot = i_end;
+      } else {
+        pivot = (v[i_begin] < v[i_middle]) ? i_begin : i_middle;
+      }
     }
-  } else {
-    if (v[i_middle] < v[i_end]) {
+    // swap the pivot and the last element so that the pivot is at the end
+    {
+      const T aux = v[i_end];
+      v[i_end] = v[pivot];
+      v[pivot] = aux;
       pivot = i_end;
-    } else {
-      pivot = (v[i_begin] < v[i_middle]) ? i_begin : i_middle;
     }
-  }
-  // swap the pivot and the last element so that the pivot is at the end
-  {
-    const T aux = v[i_end];
-    v[i_end] = v[pivot];
-    v[pivot] = aux;
-    pivot = i_end;
-  }
-  // Partition into 2 parts
-  const T value_pivot = v[pivot];
-  il::int_t j = range.begin;
-  for (il::int_t i = range.begin; i < range.end - 1; ++i) {
-    if (v[i] < value_pivot) {
-      // Swap v[j] and v[i]
-      const T aux = v[i];
-      v[i] = v[j];
+    // Partition into 2 parts
+    const T value_pivot = v[pivot];
+    il::int_t j = range.begin;
+    for (il::int_t i = range.begin; i < range.end - 1; ++i) {
+      if (v[i] < value_pivot) {
+        // Swap v[j] and v[i]
+        const T aux = v[i];
+        v[i] = v[j];
+        v[j] = aux;
+        ++j;
+      }
+    }
+    // Swap the element j and the last element so the pivot is in place
+    {
+      const T aux = v[i_end];
+      v[i_end] = v[j];
       v[j] = aux;
-      ++j;
+    }
+    // Recursively sort the smallest part and go on with the other one, so that
+    // the depth of the recursion stays logarithmic
+    if (j - range.begin < range.end - (j + 1)) {
+      sort_aux(il::Range{range.begin, j}, il::io, v);
+      range.begin = j + 1;
+    } else {
+      sort_aux(il::Range{j + 1, range.end}, il::io, v);
+      range.end = j;
     }
   }
-  // Swap the element j and the last element so the pivot is in place
-  {
-    const T aux = v[i_end];
-    v[i_end] = v[j];
-    v[j] = aux;
+  for (il::int_t i = range.begin + 1; i < range.end; ++i) {
+    il::int_t j = i;
+    while (j > 0 && v[j - 1] > v[j]) {
+      const T aux = v[j];
+      v[j] = v[j - 1];
+      v[j - 1] = aux;
+      --j;
+    }
   }
-  // Recursively sort the 2 other parts
-  sort_aux(il::Range{range.begin, j}, il::io, v);
-  sort_aux(il::Range{j + 1, range.end}, il::io, v);
 }
 
 template <typename T>
-- 
2.43.0


From 25755073c5ea734e4b4b0b0e5681c74ee7a3ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 169/170] fix: emplaced elements survive growth and are all
 constructed from the arguments

---
 il/container/1d/Array.h   | 20 +++++++++++++-------
 il/container/2d/Array2D.h | 12 +++++++-----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 9607403..a44cc32 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -383,7 +383,7 @@ Array<T>::Array(il::int_t n, il::emplace_t, Args&&... args) {
   if (n > 0) {
     data_ = il::allocateArray<T>(n);
     for (il::int_t i = 0; i < n; ++i) {
-      new (data_ + i) T(std::forward<Args>(args)...);
+      new (data_ + i) T(args...);
     }
   } else {
     data_ = nullptr;
@@ -768,26 +768,28 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
   if (n <= capacity()) {
     if (il::isTrivial<T>::value) {
       for (il::int_t i = size(); i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
+        data_[i] = T(args...);
       }
     } else {
       for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
+        new (data_ + i) T(args...);
       }
     }
   } else {
     const il::int_t n_old = size();
+    // An argument might be an element of this array
+    const T x(args...);
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
+        data_[i] = x;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
+        new (data_ + i) T(x);
       }
     }
   }
@@ -862,9 +864,13 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
+    // An argument might be an element of this array
+    T x(std::forward<Args>(args)...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index e4bd42c..af35dbb 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -437,7 +437,7 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::emplace_t, Args&&... args) {
     data_ = il::allocateArray<T>(r);
     for (il::int_t i1 = 0; i1 < n1; ++i1) {
       for (il::int_t i0 = 0; i0 < n0; ++i0) {
-        new (data_ + i1 * r0 + i0) T(std::forward<Args>(args)...);
+        new (data_ + i1 * r0 + i0) T(args...);
       }
     }
   } else {
@@ -1144,6 +1144,8 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
 
   const il::int_t n0_old = size(0);
   const il::int_t n1_old = size(1);
+  // An argument might be an element of this array
+  const T x(args...);
   const bool need_memory = n0 > capacity(0) || n1 > capacity(1);
   if (need_memory) {
     il::int_t r0;
@@ -1202,7 +1204,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = T(std::forward<Args>(args)...);
+          new_data[i1 * r0 + i0] = x;
         }
       }
     } else {
@@ -1225,7 +1227,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{std::forward<Args>(args)...};
+          new (new_data + i1 * r0 + i0) T(x);
         }
       }
     }
@@ -1237,7 +1239,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
     if (il::isTrivial<T>::value) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = (i1 < n1_old ? n0_old : 0); i0 < n0; ++i0) {
-          data_[i1 * capacity(0) + i0] = T(std::forward<Args>(args)...);
+          data_[i1 * capacity(0) + i0] = x;
         }
       }
     } else {
@@ -1248,7 +1250,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (data_ + i1 * capacity(0) + i0) T{std::forward<Args>(args)...};
+          new (data_ + i1 * capacity(0) + i0) T(x);
         }
       }
     }
-- 
2.43.0


From 09e4705312273cf94bfdd089ce936c8a06f1144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 170/170] fix: emplaced elements of a growing array are
 constructed in place

---
 il/container/1d/Array.h | 54 +++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index a44cc32..f4ac151 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -264,6 +264,12 @@ class Array {
   /* \brief Used internally to increase the capacity of the array
    */
   void IncreaseCapacity(il::int_t r);
+  /* \brief Memory for r elements, with the alignment of this array
+   */
+  T* AllocateMemory(il::int_t r, il::io_t, il::int_t& shift) const;
+  /* \brief Moves the elements to that memory and releases the current one
+   */
+  void MoveToMemory(T* new_data, il::int_t r, il::int_t new_shift);
 
   /* \brief Used internally in debug mode to check the invariance of the object
    */
@@ -779,19 +785,14 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
       }
     }
   } else {
-    const il::int_t n_old = size();
-    // An argument might be an element of this array
-    const T x(args...);
-    IncreaseCapacity(n);
-    if (il::isTrivial<T>::value) {
-      for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
-      }
-    } else {
-      for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T(x);
-      }
+    // An argument might be an element of this array: the new elements are
+    // constructed before the memory of the old ones is released
+    il::int_t new_shift;
+    T* const new_data = AllocateMemory(n, il::io, new_shift);
+    for (il::int_t i = size(); i < n; ++i) {
+      new (new_data + i) T(args...);
     }
+    MoveToMemory(new_data, n, new_shift);
   }
   size_ = data_ + n;
 };
@@ -864,10 +865,12 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    // An argument might be an element of this array
-    T x(std::forward<Args>(args)...);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x));
+    // An argument might be an element of this array: the new element is
+    // constructed before the memory of the old ones is released
+    il::int_t new_shift;
+    T* const new_data = AllocateMemory(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::forward<Args>(args)...);
+    MoveToMemory(new_data, new_capacity, new_shift);
   } else {
     new (size_) T(std::forward<Args>(args)...);
   }
@@ -953,15 +956,24 @@ template <typename T>
 void Array<T>::IncreaseCapacity(il::int_t r) {
   IL_EXPECT_FAST(capacity() < r);
 
-  const il::int_t n = size();
-  T* new_data;
   il::int_t new_shift;
+  T* const new_data = AllocateMemory(r, il::io, new_shift);
+  MoveToMemory(new_data, r, new_shift);
+}
+
+template <typename T>
+T* Array<T>::AllocateMemory(il::int_t r, il::io_t, il::int_t& shift) const {
   if (alignment_ == 0) {
-    new_data = il::allocateArray<T>(r);
-    new_shift = 0;
+    shift = 0;
+    return il::allocateArray<T>(r);
   } else {
-    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
+    return il::allocateArray<T>(r, align_r_, align_mod_, il::io, shift);
   }
+}
+
+template <typename T>
+void Array<T>::MoveToMemory(T* new_data, il::int_t r, il::int_t new_shift) {
+  const il::int_t n = size();
   if (data_) {
     if (il::isTrivial<T>::value) {
       memcpy(new_data, data_, n * sizeof(T));
-- 
2.43.0


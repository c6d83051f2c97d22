From 1a099c70e1ae9bfcb8d1fedfbcfa18cfb3e64cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 01/54] fix: copying an empty matrix must not allocate a
 zero-sized block

---
 inc/susa/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..570e16f 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -443,7 +443,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
     this->sizet_cols      = mat_arg.sizet_cols;
     this->sizet_objects   = mat_arg.sizet_objects;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
@@ -1302,7 +1302,7 @@ template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Alloc
     sizet_cols      = mat_arg.sizet_cols;
     sizet_objects   = sizet_rows * sizet_cols;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
-- 
2.43.0


From 63957c3bb17e39f9bfac8fd0ef872e0c13724495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 02/54] fix: self assignment of a matrix destroyed its content

---
 inc/susa/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 570e16f..b48abaa 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1292,6 +1292,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
+    if (this == &mat_arg) return *this;
+
     if (sizet_objects != 0 && _matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
-- 
2.43.0


From b3edd3f4bda3b5225eb2287f2aa95b9f831ccecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 03/54] fix: moved-from matrix kept its dimensions and lost its
 default element

---
 inc/susa/matrix.h | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b48abaa..4cf28dc 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -90,7 +90,7 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
     size_t          sizet_rows;
     size_t          sizet_cols;
     size_t          sizet_objects;
-    T*              T_default;
+    T               T_default {};
     Allocator       alloc;
     T*              _matrix;
 
@@ -392,7 +392,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
 , alloc()
 , _matrix(nullptr)
 {
@@ -401,8 +400,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
-: T_default(new T)
-, alloc()
+: alloc()
 , _matrix(nullptr)
 {
 
@@ -422,8 +420,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
-: T_default(new T)
-, alloc()
+: alloc()
 , _matrix(nullptr)
 {
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
@@ -435,8 +432,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
-: T_default(new T)
-, alloc(mat_arg.alloc)
+: alloc(mat_arg.alloc)
 , _matrix(nullptr)
 {
     this->sizet_rows      = mat_arg.sizet_rows;
@@ -451,8 +447,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
-: T_default(new T)
-, _matrix(nullptr)
+: _matrix(nullptr)
 {
     size_t sizet_rows;
     size_t sizet_cols;
@@ -467,8 +462,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tinitial)
-: T_default(new T)
-, _matrix(nullptr)
+: _matrix(nullptr)
 {
     size_t sizet_rows;
     size_t sizet_cols;
@@ -493,10 +487,10 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
     sizet_rows          = mat_arg.sizet_rows;
     sizet_cols          = mat_arg.sizet_cols;
     sizet_objects       = mat_arg.sizet_objects;
-    T_default              = mat_arg.T_default;
-    T_default              = mat_arg.T_default;
     _matrix             = mat_arg._matrix;
-    mat_arg.T_default      = nullptr;
+    mat_arg.sizet_rows    = 0;
+    mat_arg.sizet_cols    = 0;
+    mat_arg.sizet_objects = 0;
     mat_arg._matrix     = nullptr;
 }
 
@@ -505,7 +499,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
 , alloc()
 , _matrix(nullptr)
 {
@@ -514,7 +507,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 
 template <typename T, typename Allocator> matrix <T, Allocator>::~matrix() noexcept
 {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
 }
 
@@ -901,7 +893,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
-  return *T_default;
+  T_default = T();
+  return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_row, size_t sizet_col ) const
@@ -921,7 +914,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
-    return *T_default;
+    T_default = T();
+    return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_elem ) const
-- 
2.43.0


From 43be78d068df6b2439a96920f99c44ce1572d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 04/54] fix: right() of a vector was off by one

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 4cf28dc..aea07a3 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -818,7 +818,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
-- 
2.43.0


From 4c55df893ce80e1bc5ec03053c8aa47ecf21773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 05/54] fix: set_row() and set_col() wrote out of bounds for an
 index equal to the dimension

---
 inc/susa/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index aea07a3..d73cef2 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -611,8 +611,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -624,8 +624,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
-- 
2.43.0


From 02201e6a700205801bc695415f3314258c59a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 06/54] fix: swap_rows() and swap_cols() did not check their
 indices

---
 inc/susa/matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index d73cef2..9d1c7ff 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -659,6 +659,9 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "one or more indices is/are out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     T T_tmp;
 
     for (size_t row = 0; row < sizet_rows; row++)
@@ -672,6 +675,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "one or more indices is/are out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     T T_tmp;
 
     for (size_t col = 0; col < sizet_cols; col++)
-- 
2.43.0


From b69fc2d84aabfb6e1626d65185203d04f7b4d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 07/54] fix: row() and col() returned uninitialised elements
 for an index out of range

---
 inc/susa/matrix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 9d1c7ff..bf3c2f7 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -576,7 +576,9 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
-    matrix <T, Allocator> mat_ret(1, sizet_cols);
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+
+    matrix <T, Allocator> mat_ret(1, sizet_cols, T());
 
     if (sizet_row < sizet_rows)
     {
@@ -591,7 +593,9 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
-    matrix <T, Allocator> mat_ret(sizet_rows, 1);
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+
+    matrix <T, Allocator> mat_ret(sizet_rows, 1, T());
 
     if (sizet_col < sizet_cols)
     {
-- 
2.43.0


From 7cc29babc8bb108dd8aca56db05eebcf64bf9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 08/54] fix: get() read out of bounds when the assertions are
 disabled

---
 inc/susa/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index bf3c2f7..87dd640 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -518,6 +518,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
+  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T();
+
   return _matrix[get_lindex(sizet_row,sizet_col)];
 }
 
@@ -527,6 +529,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
+  if (_matrix == nullptr || sizet_elem >= sizet_objects) return T();
+
   return this->_matrix[sizet_elem];
 }
 
-- 
2.43.0


From 479fb9950e06d0b8665a3ecf7bb284d82f35e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 09/54] fix: left(), right() and mid() accepted widths beyond
 the matrix

---
 inc/susa/matrix.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 87dd640..3750e45 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -796,6 +796,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_objects < sizet_left) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -807,6 +808,9 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_cols < sizet_left) return mat_ret;
+
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -828,6 +832,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_objects < sizet_right) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
@@ -841,6 +846,9 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_cols < sizet_right) return mat_ret;
+
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -867,7 +875,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -881,7 +889,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From c45d39dd0b0120caaa906cffbe5438a0270d1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 10/54] fix: the parser gave short strings a wrong shape

---
 src/matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index b71843d..57da260 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -72,7 +72,7 @@ void pre_parser(std::string& str_string)
         int_counter++;
     }
     // Update the string according to its new shape/size
-    str_string.erase(int_counter,int_length - 1);
+    str_string.erase(int_counter);
     int_length = str_string.length();
     str_string = str_string + std::string("  ");
 
@@ -101,8 +101,8 @@ void pre_parser(std::string& str_string)
     }
 
     // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
-    if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
-    else str_string.erase(int_counter,int_length - 1);
+    if (int_counter > 0 && str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1);
+    else str_string.erase(int_counter);
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From 1f63e49d0494914ff71a9ea7c792af8bcc1c1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 11/54] fix: rows longer than 4095 characters were not parsed

---
 inc/susa/matrix.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 3750e45..1fe259b 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -31,8 +31,6 @@
 #ifndef SUSA_MATRIX_H
 #define SUSA_MATRIX_H
 
-#define MAX_STR_LEN     4096
-
 #include <type_traits>
 
 #include <susa/debug.h>
@@ -1462,18 +1460,19 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
 
     std::stringstream ss_all(str_string);
-    char char_buff[MAX_STR_LEN];
+    std::string str_row;
+    std::string str_elem;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-        ss_all.getline(char_buff, MAX_STR_LEN, ';');
-        std::stringstream ssrow(char_buff);
+        std::getline(ss_all, str_row, ';');
+        std::stringstream ssrow(str_row);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
-            ssrow.getline(char_buff, MAX_STR_LEN, 0x20);
-            if (!(std::istringstream(char_buff) >> T_tmp))
+            std::getline(ssrow, str_elem, ' ');
+            if (!(std::istringstream(str_elem) >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
-- 
2.43.0


From 6a73f7ae1002d1e4fd074d80495c219ea9550aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 12/54] fix: concat() of matrices with different number of
 columns

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..1baca50 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -244,7 +244,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From a704447223acd2b2671ee9db40374d58c04225af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 13/54] fix: hermitian() could not be instantiated

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1baca50..3bd21f9 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -123,12 +123,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From 95d949fb0d3523c54bb35f0138ecded40b704a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 14/54] fix: rank() of an integer matrix was computed with
 integer divisions

---
 inc/susa/linalg.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 3bd21f9..0374b01 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -377,12 +377,19 @@ matrix<T, Allocator> eye(size_t sizet_n)
  * @ingroup LALG
  */
 template <typename T, template <typename> typename Allocator>
-unsigned int rank(susa::matrix<T, Allocator<T>> mat_arg, double epsilon = 1e-9)
+unsigned int rank(const susa::matrix<T, Allocator<T>>& mat_in, double epsilon = 1e-9)
 {
     unsigned int uint_ret = 0;
-    size_t sz_rows = mat_arg.no_rows();
-    size_t sz_cols = mat_arg.no_cols();
+    size_t sz_rows = mat_in.no_rows();
+    size_t sz_cols = mat_in.no_cols();
 
+    // the elimination divides by the pivots, i.e. an integer division would truncate
+    using F = std::conditional_t<std::is_integral_v<T>, double, T>;
+    susa::matrix <F, Allocator<F>> mat_arg(sz_rows, sz_cols);
+    for (size_t sz_elem = 0; sz_elem < mat_in.size(); ++sz_elem)
+    {
+        mat_arg(sz_elem) = mat_in(sz_elem);
+    }
 
     susa::matrix <bool, Allocator<bool>> row_selected(sz_rows, 1, false);
     for (size_t sz_col = 0; sz_col < sz_cols; ++sz_col)
-- 
2.43.0


From bdf2b35a2ec9b4331130de8876f78a36890609fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 15/54] fix: lup::decompose() looked for the pivot in the input
 instead of the partially reduced matrix

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..f9385cd 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -233,7 +233,7 @@ template <class T> bool lup<T>::decompose()
 
         for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)
         {
-            T_abs = mat_a(sizet_row, sizet_col);
+            T_abs = mat_lu(sizet_row, sizet_col);
             if (T_abs < 0) T_abs *= -1.0;
             if ( T_abs > T_max)
             {
-- 
2.43.0


From 3de4dc844a7444189bc417cc2ca1a7a328e55bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 16/54] fix: lup::decompose_alt() computed the pivot candidates
 with a wrong index

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index f9385cd..c446cb6 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -321,7 +321,7 @@ template <class T> bool lup<T>::decompose_alt()
             q       = 0;
             while (q < i)
             {
-                Uii -= mat_lu(r,q) * mat_lu(q,r);
+                Uii -= mat_lu(r,q) * mat_lu(q,i);
                 q++;
             }
             if (std::abs(Uii) > Umax)
-- 
2.43.0


From d375abcf2e5eafb728ac6795d7d45a1272ed2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 17/54] fix: lup::solve() returned zero for a single equation

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index c446cb6..6bf278d 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -269,7 +269,7 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    if (sizet_n == 0 || !(mat_b.is_vector() || mat_b.is_scalar()) || mat_b.size() != sizet_n) return mat_ret;
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From fa2a74b29e7a118c791eb0d450dc371d2876a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 18/54] fix: lu::decompose() divided by a zero pivot and
 reported success

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 6bf278d..20b8554 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -191,6 +191,8 @@ template <class T> bool lu<T>::decompose()
             mat_upper(i,k) = mat_a(i,k) - sum;
         }
 
+        if (i + 1 < sizet_n && mat_upper(i,i) == T(0)) return false;
+
         for (size_t k = i; k < sizet_n; k++)
         {
             if (i == k)
-- 
2.43.0


From 9441e1f1a1ad63ada82cb23b675608556a3dd0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 19/54] fix: an array could not be read through a const
 reference

---
 inc/susa/array.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..cdb3c1b 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -87,7 +87,7 @@ namespace susa
     void clone(T *data, size_t length);
 
     template <typename... Args>
-    T get(size_t uint_elem, Args... uint_args);
+    T get(size_t uint_elem, Args... uint_args) const;
 
     //! () operator to set or get elements
     template <typename... Args>
@@ -123,17 +123,17 @@ namespace susa
     size_t uint_num_dims;
     T *T_default;
 
-    std::vector<size_t> vec_get;
-    size_t uint_get_step;
+    mutable std::vector<size_t> vec_get;
+    mutable size_t uint_get_step;
     T T_get_value;
 
     Allocator alloc;
     T *_matrix;
 
-    size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(size_t uint_elem) const;
+    size_t index(const std::vector<size_t> &list) const;
     template <typename... Args>
-    size_t index(size_t uint_elem, Args... uint_args);
+    size_t index(size_t uint_elem, Args... uint_args) const;
   };
 
   // Implementations
@@ -297,7 +297,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args)
+  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT(_matrix != nullptr);
@@ -315,7 +315,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
     size_t uint_elem = 0;
@@ -341,7 +341,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(size_t uint_elem)
+  size_t array<T, Allocator>::index(size_t uint_elem) const
   {
 
     size_t ret;
@@ -376,7 +376,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args)
+  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-- 
2.43.0


From 4aede955b47480f2670110b639ee8a4378017c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 20/54] fix: clone() of a different length overflowed the array

---
 inc/susa/array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cdb3c1b..4f8e6ca 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -176,7 +176,9 @@ namespace susa
       {
         alloc.deallocate(_matrix, uint_total);
       }
-      _matrix       = alloc.allocate(uint_total);
+      _matrix       = nullptr;
+      uint_total    = 0;
+      _matrix       = alloc.allocate(length);
       uint_total    = length;
     }
   
-- 
2.43.0


From 67a7975c969c62f84ab2f4e872365cd2288d6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 21/54] fix: assignment of an array to itself or from an empty
 array

---
 inc/susa/array.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 4f8e6ca..b5971fe 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -216,25 +216,36 @@ namespace susa
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    _matrix       = nullptr;
+    if (uint_total != 0)
+    {
+      _matrix       = alloc.allocate(uint_total);
+      std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    }
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
+    if (this == &arg) return *this;
+
     if (uint_total != 0 && _matrix != nullptr)
     {
       alloc.deallocate(_matrix, uint_total);
     }
-    uint_total    = arg.uint_total;
+    _matrix       = nullptr;
+    uint_total    = 0;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    if (arg.uint_total != 0)
+    {
+      _matrix       = alloc.allocate(arg.uint_total);
+      uint_total    = arg.uint_total;
+      std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    }
 
     return *this;
   }
-- 
2.43.0


From 753c6d705fefaa27f90fcd0833cacfd5e4079018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 22/54] fix: array left its default element and number of
 dimensions uninitialised

---
 inc/susa/array.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index b5971fe..f8eebf5 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,7 +108,8 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
-      return *T_default;
+      T_default = T();
+      return T_default;
     }
 
     template <typename... Args>
@@ -121,7 +122,7 @@ namespace susa
     std::vector<size_t> vec_dims;
     size_t uint_total;
     size_t uint_num_dims;
-    T *T_default;
+    T T_default {};
 
     mutable std::vector<size_t> vec_get;
     mutable size_t uint_get_step;
@@ -140,7 +141,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
-  , T_default(new T)
+  , uint_num_dims(0)
   , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
@@ -150,7 +151,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array(std::initializer_list<size_t> list)
   : vec_dims(list)
-  , T_default(new T)
   , alloc()
   {
     uint_total = 1;
@@ -197,18 +197,15 @@ namespace susa
     vec_get         = std::vector<size_t>(uint_num_dims);
     uint_get_step   = 0;
 
-    T_default          = arg.T_default;
     _matrix         = arg._matrix;
   
-    arg.T_default      = nullptr;
     arg._matrix     = nullptr;
     arg.uint_total  = 0;
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(const array &arg)
-  : T_default(new T)
-  , alloc(arg.alloc)
+  : alloc(arg.alloc)
   {
 
     uint_total    = arg.uint_total;
@@ -253,7 +250,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::~array() noexcept
   {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
   }
 
@@ -287,7 +283,7 @@ namespace susa
       return _matrix[uint_elem];
     }
 
-    return *T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -305,7 +301,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -324,7 +320,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From 7205c29a69bf4727aa2bb82d5f0af2eadfec5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 23/54] fix: a failed allocation was counted as used memory

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From 72ce6d2e27d5853aaabf6abb7389b4afaadc0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 24/54] fix: bitset::set() did not set all the elements

---
 src/sets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..e6e4087 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,7 +94,7 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
+    for (unsigned int index = 0; index < uint_set_size; index++)
     {
       unsigned int byte = index / 8;
       unsigned int bit  = index % 8;
-- 
2.43.0


From 4bb737c87003336633e768d79fec75a992302ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 25/54] fix: dijkstra() left the predecessor of some nodes
 uninitialised

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..ab09ce4 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -258,7 +258,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
-  susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
 
-- 
2.43.0


From b8576b67142207e7deb2747d664a170941e6de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 26/54] fix: sort() stopped before all the elements were sorted

---
 inc/susa/search.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index ab09ce4..893a328 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -92,7 +92,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 /**
  * @brief Bubble sort
  *
- * @return The the elements in decending order.
+ * @return The the elements in ascending order.
  */
 template <class T> matrix <T> sort(const matrix <T> &mat_arg);
 
@@ -100,7 +100,7 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg);
 /**
  * @brief Bubble sort
  *
- * @return The <i>indecies</i> of the elements in decending order.
+ * @return The <i>indecies</i> of the elements in ascending order.
  */
 template <class T> matrix <unsigned int> sort_indices(const matrix <T> &mat_arg);
 
@@ -353,7 +353,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -364,11 +363,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From 1b9e9fc672ec39fcc82914fe9a046f705389893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 27/54] fix: the selection of the least and the most elements
 repeated or invented indices

---
 inc/susa/search.h | 50 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 893a328..391040e 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -113,35 +113,35 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
 
     if (uint_size < uint_num)
     {
         return mat_index;
     }
 
+    susa::bitset selected(uint_size);
     unsigned int uint_min_index;
-    T T_min;
+    T T_min {};
 
     for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) < T_min)
+            if (selected.exists(uint_j)) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_j) < T_min)
             {
                 uint_min_index = uint_j;
-                T_min = mat_ret(uint_j);
+                T_min = mat_arg(uint_j);
             }
         }
 
         mat_index(uint_i) = uint_min_index;
 
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        selected.set(uint_min_index);
     }
 
     return mat_index;
@@ -156,34 +156,34 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
-    if (uint_size < uint_num)
+    SUSA_ASSERT_MESSAGE(mat_limited_index.size() >= uint_num, "The number of elements to be selected is larger than the matrix size.");
+    if (mat_limited_index.size() < uint_num)
     {
         return mat_index;
     }
 
+    susa::bitset selected(uint_size);
     unsigned int uint_min_index;
-    T T_min;
+    T T_min {};
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
-            if (mat_ret(mat_limited_index(uint_j)) < T_min)
+            if (selected.exists(mat_limited_index(uint_j))) continue;
+            if (uint_min_index == uint_size || mat_arg(mat_limited_index(uint_j)) < T_min)
             {
                 uint_min_index = mat_limited_index(uint_j);
-                T_min = mat_ret(mat_limited_index(uint_j));
+                T_min = mat_arg(mat_limited_index(uint_j));
             }
         }
 
         mat_index(uint_i) = uint_min_index;
 
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        selected.set(uint_min_index);
     }
 
     return mat_index;
@@ -196,36 +196,36 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num,
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num,
       "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
         return mat_index;
     }
 
+    susa::bitset selected(uint_size);
     unsigned int uint_max_index;
-    T T_max;
+    T T_max {};
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_max_index = uint_i;
-        T_max = mat_ret(uint_i);
+        uint_max_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) > T_max)
+            if (selected.exists(uint_j)) continue;
+            if (uint_max_index == uint_size || mat_arg(uint_j) > T_max)
             {
                 uint_max_index = uint_j;
-                T_max = mat_ret(uint_j);
+                T_max = mat_arg(uint_j);
             }
         }
 
         mat_index(uint_i) = uint_max_index;
 
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
+        selected.set(uint_max_index);
     }
 
     return mat_index;
-- 
2.43.0


From aac13a07fe0867df7a2a1ca1725953f48eb0166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 28/54] fix: log2() never returned for a value with the most
 significant bit set

---
 inc/susa/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..ddac323 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -276,8 +276,9 @@ T log2(T int_arg)
 {
     T ret(0);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg >>= 1;
         ret++;
     }
 
-- 
2.43.0


From 8f2e2f7f1f7d391c3cb8736cc00ce327789cd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 29/54] fix: abs() left the first element uninitialised and did
 not compile for real types

---
 inc/susa/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index ddac323..2b0a73c 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -372,7 +372,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -381,9 +381,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From 253f952cd7ee7cde37b4df1ab06bbcece9ad71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 30/54] fix: max() returned an empty matrix for a scalar

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 2b0a73c..5d8ab02 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -448,7 +448,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From 769b419367f5d5203bf18e4f65769a5298add8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 31/54] fix: mean() of negative integers was computed with an
 unsigned division

---
 inc/susa/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 5d8ab02..8f37430 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -345,7 +345,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        T_ret /= mat_arg.size();
+        T_ret /= static_cast<std::ptrdiff_t>(mat_arg.size());
         mat_ret = matrix <T, Allocator> (1, 1, T_ret);
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
@@ -359,7 +359,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            T_ret               /= no_rows;
+            T_ret               /= static_cast<std::ptrdiff_t>(no_rows);
             mat_ret(uint_col)   = T_ret;
             T_ret               = T(0);
         }
-- 
2.43.0


From 76b563d2617bcf351719471bdefcfe3790b5f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 32/54] fix: mod() lost precision for large numbers

---
 src/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..d72d44e 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,8 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    long int lint_ret = lint_a % lint_mod;
+    return ((lint_ret != 0 && (lint_ret < 0) != (lint_mod < 0)) ? lint_ret + lint_mod : lint_ret);
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From 4cfdd41edc2b5fef926ea33e08e6cd78443a9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 33/54] fix: upsample() left the inserted elements
 uninitialised

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..e2e88f5 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), T(0));
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From 17fc78ccbc04226353375e328de52f4ce1058c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 34/54] fix: filter() and conv() returned an empty matrix for a
 scalar

---
 inc/susa/signal.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e2e88f5..81b34fc 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,7 +209,7 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows >= 1)
     {
         // for column vector
         size_ret_len = size_x + size_length;
@@ -262,7 +262,15 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     matrix <T, Allocator>   mat_ret;
     size_t                  size_length;
 
-    if (mat_arg_b.is_vector())
+    if (mat_arg_b.is_scalar())
+    {
+        mat_ret = mat_arg_b(0) * mat_arg_a;
+    }
+    else if (mat_arg_a.is_scalar())
+    {
+        mat_ret = mat_arg_a(0) * mat_arg_b;
+    }
+    else if (mat_arg_b.is_vector())
     {
         size_length = mat_arg_b.size() - 1;
         mat_ret = filter(mat_arg_b, matrix <T, Allocator> (1,1,1), mat_arg_a, size_length);
@@ -273,14 +281,6 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
         mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);
 
     }
-    else if (mat_arg_b.is_scalar())
-    {
-        mat_ret = mat_arg_b(0) * mat_arg_a;
-    }
-    else if (mat_arg_a.is_scalar())
-    {
-        mat_ret = mat_arg_a(0) * mat_arg_b;
-    }
     else
     {
         //TODO: implement conv2()
-- 
2.43.0


From fa87bcdd611d50c5a07877c8411272eff25f216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 35/54] fix: copying or default constructing a ccode released
 its generators twice

---
 inc/susa/ccode.h | 2 +-
 src/ccode.cpp    | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..c896231 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen;   // Dynamic array of generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..3e4cc0b 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -37,11 +37,6 @@ ccode::ccode()
 
 ccode::~ccode()
 {
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
 }
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
@@ -56,7 +51,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 
     try
     {
-        uint_gen   = new uint32_t[uint_n];
+        uint_gen.assign(uint_n, 0);
     }
     catch(const std::bad_alloc& e)
     {
-- 
2.43.0


From 2ad21a31d2c59e7e1a4180d20cb1ccdf9c241792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 36/54] fix: ccode::rate() was truncated to zero

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index c896231..d8fd8af 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return ((float)uint_k / uint_n);
     }
 
     /**
-- 
2.43.0


From 92cc4797009f31b24ebbe523f58c1b87b2f596cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 37/54] fix: ccode::decode_bcjr() used uninitialised boundary
 metrics

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 3e4cc0b..a2cfe37 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -181,12 +181,12 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     // Alpha
     matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1,0));
     vec_alpha[0](0,0) = 1;
 
     // Beta
     matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1,0));
     vec_beta[uint_num_stages](0,0) = 1;
 
 
-- 
2.43.0


From 67bdfac5e4a28e5e89e55bc1fbd0d40b8c58692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 38/54] fix: channel::decode_mlse() used uninitialised metrics
 and visited flags

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..31c0375 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states,1,0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states,1,0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states,1,0);
     }
 
 
-- 
2.43.0


From ef03ce3ee635ff66fa1d79f30daa97f6c929fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 39/54] fix: copying a mt generator released its state twice

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..27859eb 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,13 +28,11 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
@@ -42,7 +40,6 @@ mt::mt(uint32_t uint_seed)
 
 mt::~mt()
 {
-    delete [] uint_mt;
 }
 
 /* initializes uint_mt[_MT_N] with a seed */
-- 
2.43.0


From 318d55160d6243baa38b8de6dca4ab840815e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 40/54] fix: rng did not generate the Mersenne Twister sequence
 and could be used uninitialised

---
 src/rng.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..8936250 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,12 +31,11 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
+    init(5489);
 }
 
 rng::rng(unsigned int uint_seed)
 {
-    uint_index = 0;
     init(uint_seed);
 }
 
@@ -149,6 +148,8 @@ void rng::init(unsigned int uint_seed)
     {
         MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
     }
+
+    uint_index = N;
 }
 
 size_t rng::get_nonuniform(double* prob, size_t n)
@@ -220,7 +221,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From d6baceb3e117fca8ddde0e74f436849fe654fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 41/54] fix: the frequency samples of the root-raised cosine
 were truncated to integers

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..53a7446 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double)dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From ba1be951e7047cf468cf29ecc594e10d0c0629d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 42/54] fix: qam aborted for the documented orders that are not
 a square, e.g. 8 and 128

---
 inc/susa/modulation.h |  1 -
 src/modulation.cpp    | 16 ++++++----------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 301e81b..9dc556e 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -75,7 +75,6 @@ class qam {
     unsigned int    uint_m;          // Number of symbols in constellation
 
     matrix < std::complex <double> > mat_s;
-    matrix < std::complex <double> > mat_axis;
 
 };
 
diff --git a/src/modulation.cpp b/src/modulation.cpp
index 7252af3..373be0b 100644
--- a/src/modulation.cpp
+++ b/src/modulation.cpp
@@ -44,21 +44,17 @@ qam::qam(unsigned int uint_m)
 : uint_m(uint_m)
 {
     uint_bps                = log2(uint_m);
-    double          dbl_p   = sqrt(uint_m);
-    unsigned int    uint_l  = (unsigned int)(uint_m/dbl_p);
+    unsigned int    uint_rows = 1U << (uint_bps / 2);
+    unsigned int    uint_cols = uint_m / uint_rows;
 
     // Constellation generation
-    mat_s    = matrix < std::complex <double> > (uint_l, uint_l, std::complex <double>(0,0));
-    mat_axis = matrix < std::complex <double> > ((unsigned int)dbl_p, 1, std::complex <double>(0,0));
+    mat_s    = matrix < std::complex <double> > (uint_rows, uint_cols, std::complex <double>(0,0));
 
-    for (unsigned int i=0; i < dbl_p; i++)
-        mat_axis(i) = std::complex <double> (i - (dbl_p - 1)/2,i - (dbl_p - 1)/2);
-
-    for (unsigned int i=0; i < uint_l; i++)
+    for (unsigned int i=0; i < uint_rows; i++)
     {
-        for (unsigned int j=0; j < uint_l; j++)
+        for (unsigned int j=0; j < uint_cols; j++)
         {
-            mat_s(i,j) = std::complex <double> (mat_axis(i).real(), mat_axis(j).imag());
+            mat_s(i,j) = std::complex <double> (i - (uint_rows - 1.0)/2, j - (uint_cols - 1.0)/2);
         }
     }
 
-- 
2.43.0


From 27055cfdc2b917e00c9f61e4f605582bd2f9b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 43/54] fix: the signal power in awgn() overflowed for integer
 signals

---
 inc/susa/modulation.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 9dc556e..71d0392 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -98,15 +98,19 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     // N0 = P / gamma
     // Noise_var = N0 / 2
 
-    double P;
-    if constexpr (is_complex<T>::value)
-    {
-        P = ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
-    }
-    else
+    double P = 0;
+    for (size_t indx = 0; indx < mat_signal.size(); indx++)
     {
-        P = ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
+        if constexpr (is_complex<T>::value)
+        {
+            P += std::norm(mat_signal(indx));
+        }
+        else
+        {
+            P += (double)mat_signal(indx) * (double)mat_signal(indx);
+        }
     }
+    P = ovs * P / mat_signal.size();
 
     double gamma        = std::pow(10, flt_snr_db/10);
     double N0           = P / gamma;
-- 
2.43.0


From 30b5f4f6d6cb1f298d2f8f15b2e085d1fc36beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 44/54] fix: svd() aborted for matrices with more columns than
 rows

---
 src/svd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 54982c6..91183cb 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -57,6 +57,10 @@ int svd(const matrix <float> &mat_arg_a,
      * http://www.public.iastate.edu/~dicook/JSS/paper/code/svd.c
      * http://svn.lirec.eu/libs/magicsquares/src/SVD.cpp
     */
+    // the reduction below requires at least as many rows as columns
+    if (mat_arg_a.no_rows() < mat_arg_a.no_cols())
+        return svd(transpose(mat_arg_a), mat_arg_v, mat_arg_s, mat_arg_u);
+
     int m = mat_arg_a.no_rows();
     int n = mat_arg_a.no_cols();
     int p = (m > n)?n:m;
-- 
2.43.0


From 680b1def83ea2b57f3e1427699844c2e53c5c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 45/54] fix: mean() of a vector of negative integers was
 computed with an unsigned division

---
 inc/susa/statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index d8b32fc..ea83ba0 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -61,7 +61,7 @@ template <class T> T mean(std::vector <T> vec_arg)
         tMean += vec_arg[i];
     }
 
-    return (tMean/vec_arg.size());
+    return (tMean/static_cast<std::ptrdiff_t>(vec_arg.size()));
 }
 
 
-- 
2.43.0


From ca3d8abe214c13b3cb0e3f75f1d22a5f5d666fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 46/54] fix: svd() of matrices with zero singular values was
 not a decomposition of the input

---
 src/svd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 91183cb..c4856a9 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -231,6 +231,7 @@ int svd(const matrix <float> &mat_arg_a,
                 for (i = l; i <= k; i++)
                 {
                     f = s * rv1(i);
+                    rv1(i) = c * rv1(i);
                     if (fabs(f) + anorm != anorm)
                     {
                         g = (double)mat_arg_s(i);
-- 
2.43.0


From e68348b029338f1747e8ff8e8da3226e3cb3af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 47/54] fix: the variance of a vector of integers was computed
 with truncating divisions

---
 inc/susa/statistics.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index ea83ba0..0344a2d 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -68,14 +68,20 @@ template <class T> T mean(std::vector <T> vec_arg)
 
 template <class T> double var(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tVar = 0;
-    for (int i=0; i<vec_arg.size(); i++)
+    double dMean = 0;
+    for (size_t i=0; i<vec_arg.size(); i++)
+    {
+        dMean += vec_arg[i];
+    }
+    dMean /= vec_arg.size();
+
+    double dVar = 0;
+    for (size_t i=0; i<vec_arg.size(); i++)
     {
-        tVar += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
+        dVar += (vec_arg[i] - dMean)*(vec_arg[i] - dMean);
     }
 
-    return (tVar/vec_arg.size());
+    return (dVar/vec_arg.size());
 }
 
 
@@ -83,14 +89,7 @@ template <class T> double var(std::vector <T> vec_arg)
 
 template <class T> double stdv(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tStd = 0;
-    for (int i=0; i<vec_arg.size(); i++)
-    {
-        tStd += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
-    }
-
-    return (sqrt(tStd/vec_arg.size()));
+    return (std::sqrt(var(vec_arg)));
 }
 } // NAMESPACE SUSA
 #endif // STATISTICS_H
-- 
2.43.0


From 9cc5b8e45832c351f966afe8836ca4b30658fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 48/54] fix: mod() of the least number by -1 trapped

---
 src/base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base.cpp b/src/base.cpp
index d72d44e..ea5364d 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,6 +80,9 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
+    // the quotient of the least number and -1 is not representable
+    if (lint_mod == -1) return 0;
+
     long int lint_ret = lint_a % lint_mod;
     return ((lint_ret != 0 && (lint_ret < 0) != (lint_mod < 0)) ? lint_ret + lint_mod : lint_ret);
 }
-- 
2.43.0


From d0ba6ad743566b7fb21d2f1b463a003ee2496740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:00 +0000
Subject: [PATCH 49/54] fix: a vector of discrete draws consumed one random
 word too many

---
 src/mt.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mt.cpp b/src/mt.cpp
index 27859eb..065b11d 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -284,10 +284,12 @@ matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned
   matrix <unsigned int> mat_rand(uint_length, 1);
   unsigned int uint_prob_size = mat_probabilities.size();
   double       dbl_th         = 0;
-  double       dbl_rnd        = genrand_real3();
+  double       dbl_rnd        = 0;
 
   for (unsigned int uint_mat_indx = 0; uint_mat_indx < uint_length; uint_mat_indx++)
   {
+    dbl_th  = 0;
+    dbl_rnd = genrand_real3();
     for ( unsigned int uint_indx = 0; uint_indx < uint_prob_size; uint_indx++ )
     {
       dbl_th += mat_probabilities(uint_indx);
@@ -297,8 +299,6 @@ matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned
         break;
       }
     }
-    dbl_th  = 0;
-    dbl_rnd = genrand_real3();
   }
 
   return mat_rand;
-- 
2.43.0


From c91b1f1dc9f99465ebc22c14d7397e93b3b889ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 50/54] fix: parsing a text wrote through a null pointer when
 the allocation failed

---
 inc/susa/matrix.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 1fe259b..9c138eb 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1452,10 +1452,8 @@ bool matrix <T, Allocator>::parser(std::string str_string)
             sizet_objects   = 0;
         }
 
-        if (allocate(sizet_size))
-        {
-            sizet_objects = sizet_size;
-        }
+        if (!allocate(sizet_size)) return false;
+        sizet_objects = sizet_size;
     }
 
 
-- 
2.43.0


From 40b87df675995e315de5abcaa8e03c223f542c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 51/54] fix: a matrix under construction from a text leaked
 when a later allocation failed

---
 inc/susa/matrix.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 9c138eb..8ae8fce 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -494,11 +494,7 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
 
 
 template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::string str_string)
-: sizet_rows(0)
-, sizet_cols(0)
-, sizet_objects(0)
-, alloc()
-, _matrix(nullptr)
+: matrix()
 {
   parser(str_string);
 }
-- 
2.43.0


From 3c751cbcdd1ef70a48e2c0fa1afedec8077d600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 52/54] fix: an array index out of range accessed the first
 cell when the assertions are disabled

---
 inc/susa/array.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index f8eebf5..7d69798 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -362,9 +362,7 @@ namespace susa
 
       SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-      if (uint_elem < uint_total) return uint_elem;
-
-      return 0;
+      return uint_elem;
     }
     else
     {
-- 
2.43.0


From 1eaa59b5e25b27ae6430bd3e4719354a2c8a600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 53/54] fix: too many array indices accessed foreign memory

---
 inc/susa/array.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 7d69798..7e58bff 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -259,6 +259,10 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
 
+    SUSA_ASSERT_MESSAGE(list.size() <= 1 || list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+
+    if (list.size() > 1 && list.size() > uint_num_dims) return T();
+
     size_t uint_elem      = 0;
     size_t uint_dim_count = 0;
     size_t uint_factor    = 1;
@@ -327,6 +331,10 @@ namespace susa
   size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
+    SUSA_ASSERT_MESSAGE(list.size() <= 1 || list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+
+    if (list.size() > 1 && list.size() > uint_num_dims) return uint_total;
+
     size_t uint_elem = 0;
     size_t uint_dim_count = 0;
     size_t uint_factor = 1;
@@ -369,10 +377,15 @@ namespace susa
 
       SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-      vec_get[uint_get_step] = uint_elem;
-      uint_get_step++;
-
-      ret = index(vec_get);
+      if (uint_get_step < uint_num_dims)
+      {
+        vec_get[uint_get_step] = uint_elem;
+        ret = index(vec_get);
+      }
+      else
+      {
+        ret = uint_total;
+      }
     }
 
     vec_get = std::vector<size_t>(uint_num_dims);
@@ -388,7 +401,7 @@ namespace susa
 
     SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-    vec_get[uint_get_step] = uint_elem;
+    if (uint_get_step < uint_num_dims) vec_get[uint_get_step] = uint_elem;
     uint_get_step++;
     return index(uint_args...);
   }
-- 
2.43.0


From a8dd371efc57211f09040422d509712bfbd89430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 54/54] fix: the determinant was computed in the element type
 and overflowed for integers

---
 inc/susa/linalg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 0374b01..77ab859 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -164,7 +164,7 @@ double det(const matrix <T, Allocator> &mat_arg)
         }
         else if (sizet_rows == 2)
         { // 2 x 2
-            dbl_ret = mat_arg(0, 0) * mat_arg(1, 1) - mat_arg(1, 0) * mat_arg(0, 1);
+            dbl_ret = (double)mat_arg(0, 0) * (double)mat_arg(1, 1) - (double)mat_arg(1, 0) * (double)mat_arg(0, 1);
         }
         else
         { // 3 x 3 and more
@@ -180,7 +180,7 @@ double det(const matrix <T, Allocator> &mat_arg)
                     SUSA_LOG_ERR("falling into an infinite loop avoided.");
                     return dbl_ret;
                 }
-                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);
+                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * (double)mat_arg(0, sizet_col) * det(mat_minor);
             }
         }
     }
-- 
2.43.0


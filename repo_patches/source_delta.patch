From 4cc915978b93395e75e9f56ca457ebeceeafb646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 01/29] fix: sub(SizedVec, DynVec, SizedVec&) returns its
 destination

It returned the const first operand, so the overload did not compile.
---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..7e221dd 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -329,7 +329,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From f2a0caf41994cc0fe58ce4a14e20a60b0ee5d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 02/29] fix: the dot product of empty vectors is zero, and the
 generic one compiles

The generic kernel returned a pointer operand instead of the sum, and read the
first elements even of empty vectors.
---
 include/lalib/ops/vec_ops_core.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..84cb624 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,9 +205,9 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
-    auto r = v1[0] * v2[0];
+    T r = T();
     #pragma omp simd reduction(+:r)
-    for (auto i = 1u; i < size; ++i) {
+    for (auto i = 0u; i < size; ++i) {
         r += v1[i] * v2[i];
     }
     return r;
@@ -215,8 +215,7 @@ inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
 
 template<typename T>
 inline auto dot_core(const T* v1, const T* v2, size_t size) -> T {
-    __dot_core_simd(v1, v2, size);
-    return v2;
+    return __dot_core_simd(v1, v2, size);
 }
 
 template<>
-- 
2.43.0


From aeb259f120fa21aa3d493c3d115879b4325719f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 03/29] fix: norms and dot products of complex vectors compile,
 and norms are Euclidean

The complex norm summed v*v instead of |v|^2, and neither reduction compiled
with OpenMP.
---
 include/lalib/ops/vec_ops_core.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 84cb624..9d00a1d 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -2,6 +2,7 @@
 #ifndef LALIB_VEC_OPS_CORE_HPP
 #define LALIB_VEC_OPS_CORE_HPP
 
+#include <cmath>
 #include <cstddef>
 #include <complex>
 
@@ -201,6 +202,11 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 }
 
 
+// Sum reductions over complex numbers are not predefined by OpenMP.
+#pragma omp declare reduction(+: std::complex<float>: omp_out += omp_in) initializer(omp_priv = std::complex<float>())
+#pragma omp declare reduction(+: std::complex<double>: omp_out += omp_in) initializer(omp_priv = std::complex<double>())
+
+
 // ==== Dots ==== //
 
 template<typename T>
@@ -310,12 +316,22 @@ inline auto scal_core<double>(double alpha, double* v1, size_t size) -> double*
 
 // ==== Eucledian Norm ==== //
 
+template<typename T>
+inline auto __abs_sq(const T& v) -> T {
+    return v * v;
+}
+
+template<typename T>
+inline auto __abs_sq(const std::complex<T>& v) -> std::complex<T> {
+    return std::norm(v);
+}
+
 template<typename T>
 inline auto __norm2_core_simd(const T* v1, size_t size) -> T {
     T r = 0;
     #pragma omp simd reduction(+:r)
     for (auto i = 0u; i < size; ++i) {
-        r += v1[i] * v1[i];
+        r += __abs_sq(v1[i]);
     }
     return std::sqrt(r);
 }
-- 
2.43.0


From f2e289613cd2e1605e1708bde757ef6665a454d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 04/29] fix: BLAS matrix products use the row stride of the
 result

ldc was the number of rows, so every product with a non-square result was
wrong or rejected by the BLAS.
---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..0d30a8f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -61,10 +61,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +78,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From a273742d2e5b0361a7c861291e0acceefdd33631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 05/29] fix: aliased BLAS matrix-vector products keep the beta
 * y term

The temporary used when x and y are the same vector started from zeros.
---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From 32bb1c06c5aacb4fc5138de0ab26d9e0f2fe6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 06/29] fix: sparse matrix-vector products may write over their
 operand

Unlike the dense product, mul(alpha, SpMat, x, beta, x) read elements it had
already overwritten.
---
 include/lalib/ops/mat_vec_ops_core.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..570dfb3 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -53,11 +53,25 @@ inline auto __mul_core_simd(size_t n, size_t m, T alpha, const T* mat, const T*
 
 template<typename T>
 inline auto _sp_mul_core(size_t n, const size_t* col_ids, const size_t* row_ptr, T alpha, const T* mat, const T* x, T beta, T* y) noexcept -> T* {
-    #pragma omp simd
-    for (auto i = 0u; i < n; ++i) {
-        y[i] = beta * y[i];
-        for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
-            y[i] += alpha * mat[k] * x[col_ids[k]];
+    // If the pointers of the multiplier and one storing the result are the same
+    if (x == y) {
+        auto tmp = std::make_unique<T[]>(n);
+        #pragma omp simd
+        for (auto i = 0u; i < n; ++i) {
+            tmp[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                tmp[i] += alpha * mat[k] * x[col_ids[k]];
+            }
+        }
+        std::copy(tmp.get(), tmp.get() + n, y);
+    }
+    else {
+        #pragma omp simd
+        for (auto i = 0u; i < n; ++i) {
+            y[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                y[i] += alpha * mat[k] * x[col_ids[k]];
+            }
         }
     }
     return y;
-- 
2.43.0


From 0946a0b0f780abeee427b43ce795062ea40d0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 07/29] fix: products, negation, inversion and GMRES compile
 for every element type

Double literals conflicted with the deduced element type, so float and complex
matrices could not be multiplied, negated or inverted.
---
 include/lalib/mat.hpp             |  8 ++++----
 include/lalib/ops/mat_mat_ops.hpp |  4 ++--
 include/lalib/ops/mat_ops.hpp     |  8 ++++----
 include/lalib/ops/mat_vec_ops.hpp | 10 +++++-----
 include/lalib/ops/ops_traits.hpp  |  8 ++++----
 include/lalib/solver/gmres.hpp    |  8 ++++----
 6 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 15b8c71..06a3385 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -34,14 +34,14 @@ inline auto invert(const SizedMat<T, 2, 2>& mat, SizedMat<T, 2, 2>& rmat) -> Siz
         rmat(1, 1) = mat(0, 0);
         rmat(0, 1) = -mat(0, 1);
         rmat(1, 0) = -mat(1, 0);
-        scale(1.0 / denom, rmat);
+        scale(T(1.0) / denom, rmat);
         return rmat;
     } else {
         auto denom = mat(0, 0) * mat(1, 1) - mat(0, 1) * mat(1, 0);
         std::swap(rmat(0, 0), rmat(1, 1));
-        rmat(0, 1) *= -1.0;
-        rmat(1, 0) *= -1.0;
-        scale(1.0 / denom, rmat);
+        rmat(0, 1) *= T(-1.0);
+        rmat(1, 0) *= T(-1.0);
+        scale(T(1.0) / denom, rmat);
         return rmat;
     }
 }
diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 2bef08f..445cc45 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -183,14 +183,14 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, DynMat<
 template<typename T, size_t N, size_t M, size_t L>
 inline auto operator*(const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b) noexcept -> SizedMat<T, N, M> {
     auto mr = lalib::SizedMat<T, N, M>::uninit();
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1.0), a, b, T(0.0), mr);
     return mr;
 }
 
 template<typename T>
 inline auto operator*(const DynMat<T>& a, const DynMat<T>& b) noexcept -> DynMat<T> {
     auto mr = lalib::DynMat<T>::uninit(a.shape().first, b.shape().second);
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1.0), a, b, T(0.0), mr);
     return mr;
 }
 
diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 7182db1..c32e6db 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -78,7 +78,7 @@ template<typename T, size_t N, size_t M>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
@@ -86,7 +86,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
@@ -94,7 +94,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
@@ -102,7 +102,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index c2370b8..20bc78c 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -59,7 +59,7 @@ inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec
 template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const SizedVec<T, M>& vec) noexcept -> SizedVec<T, N> {
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -67,7 +67,7 @@ template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const DynVec<T>& vec) noexcept -> SizedVec<T, N> {
     assert(M == vec.size());
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -76,7 +76,7 @@ inline auto operator*(const DynMat<T>& mat, const SizedVec<T, N>& vec) noexcept
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -85,7 +85,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -94,7 +94,7 @@ inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> Dyn
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), 1.0, mat.values().data(), vec.data(), 0.0, vr.data());
+    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), T(1.0), mat.values().data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 3c00e25..ac4f535 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -18,7 +18,7 @@ struct Zero {
 template<typename T>
 requires std::floating_point<T>
 struct Zero<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(0.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(0.0, 0.0); }
 };
 
 // === One === //
@@ -32,7 +32,7 @@ struct One {
 template<typename T>
 requires std::floating_point<T>
 struct One<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(1.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(1.0, 0.0); }
 };
 
 
@@ -41,13 +41,13 @@ struct One<std::complex<T>> {
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const T& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const std::complex<T>& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 }
diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..fdefec4 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,7 +48,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
-    q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
+    q.emplace_back((T(1.0) / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -82,7 +82,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Transform the solution from the Krylov subspace
     auto x = lalib::DynVec<T>::filled(n, Zero<T>::value());
     for (auto i = 0u; i < beta.size() - 1; ++i) {
-        axpy(1.0, beta[i] * q[i], x);
+        axpy(T(1.0), beta[i] * q[i], x);
     }
 
     return x;
@@ -105,11 +105,11 @@ void Gmres<T, M>::_arnoldi(std::vector<DynVec<T>>& q, HessenbergMat<T>& hess, T&
         hess(j, i) = dot(q[j], v);
     }
     for (auto j: std::views::iota(0u, i + 1)) {
-        axpy(-1.0, hess(j, i) * q[j], v);
+        axpy(T(-1.0), hess(j, i) * q[j], v);
     }
 
     h = v.norm2();
-    q.emplace_back((1.0 / h) * v);
+    q.emplace_back((T(1.0) / h) * v);
 }
 
 template<typename T, typename M>
-- 
2.43.0


From 06ca1d4a7814e66f889920255609865618623f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 08/29] fix: Cholesky factorizations compile for float

The internal kernels took double pointers whatever the element type.
---
 include/lalib/solver/cholesky_factorization.hpp  | 16 ++++++++--------
 .../solver/internal/cholesky_decomposition.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..2982ebc 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -107,7 +107,7 @@ template<Vector V>
 inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -118,7 +118,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const V& rhs) const ->
    	assert(this->_data.shape().first == rhs.size());
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -130,7 +130,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M&
    	assert(rhs.shape().first == rhs.shape().first);
    	assert(rhs.shape().second == rhs.shape().second);
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -143,7 +143,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const M& rhs) const ->
    	assert(rhs.shape().second == rhs.shape().second);
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -179,7 +179,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -194,7 +194,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
@@ -210,7 +210,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -227,7 +227,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..fbcd012 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -23,7 +23,7 @@ inline constexpr auto index<MemType::Triangle>(size_t, size_t i, size_t j) noexc
 
 
 template<typename T, MemType MType>
-auto cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto cholesky_decomposition(size_t n, T* l) -> int32_t {
     for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j < i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -49,7 +49,7 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs, double* rslt) -> double* {
+auto cholesky_linear(size_t n, size_t nrow, const T* l, const T* rhs, T* rslt) -> T* {
 	for (auto k = 0u; k < nrow; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
@@ -72,7 +72,7 @@ auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs,
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto mod_cholesky_decomposition(size_t n, T* l) -> int32_t {
 	for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j <= i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -87,7 +87,7 @@ auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_linear(size_t n, size_t nrhs, const double* l, const double* rhs, double* rslt) {
+auto mod_cholesky_linear(size_t n, size_t nrhs, const T* l, const T* rhs, T* rslt) {
 	for (auto k = 0u; k < nrhs; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
-- 
2.43.0


From 37ce9d52263e77e43fbe20a00c67bfd6dc9be05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 09/29] fix: Cholesky reports a non-positive first pivot and
 NaN pivots

The status of a failure at the first pivot was 0, which means success, and NaN
passed both comparisons.
---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index fbcd012..fc00bab 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -36,12 +36,9 @@ auto cholesky_decomposition(size_t n, T* l) -> int32_t {
 			l[index<MType>(n, i, i)] -= std::pow(l[index<MType>(n, i, k)], 2); 
 		} 
 
-		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
+		if (!(l[index<MType>(n, i, i)] > 0)) { 
+            return i + 1;
 		} 
-		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
-		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
 	}
-- 
2.43.0


From a313d4c29a00b4ba0f390684a20b41b14b701182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 10/29] fix: tridiagonal solves of size 0 and 1 stay in bounds

The elimination read the off-diagonals, which are empty for one unknown.
---
 include/lalib/solver/internal/tdma.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..a69a8a1 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -15,6 +15,12 @@ auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T*
         p.reserve(n);
         q.reserve(n);
 
+        if (n == 0) { break; }
+        if (n == 1) {
+            x[k] = b[k] / d[0];
+            continue;
+        }
+
         p.emplace_back(- du[0] / d[0]);
         q.emplace_back(b[k] / d[0]);
         for (auto i = 1u; i < n - 1; ++i) {
-- 
2.43.0


From 6ddf1e5d1826e56f15cce40e55755200c510a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 11/29] fix: LAPACK tridiagonal solves keep the matrix and
 report failures

gtsv overwrites the diagonals, so a second solve with the same object used the
factors as the matrix; its status was dropped.
---
 include/lalib/solver/tri_diag.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..410b7f8 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -6,6 +6,8 @@
 #include "lalib/vec.hpp"
 #include "lalib/type_traits.hpp"
 #include <concepts>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <utility>
 
@@ -25,10 +27,10 @@ public:
     TriDiag(M&& mat) noexcept;
 
     template<Vector V>
-    auto solve_linear(const V& b, V& rslt) noexcept -> V&;
+    auto solve_linear(const V& b, V& rslt) -> V&;
 
     template<Matrix M1>
-    auto solve_linear(const M1& b, M1& rslt) noexcept -> M1&;
+    auto solve_linear(const M1& b, M1& rslt) -> M1&;
 
 private:
     M _mat;
@@ -48,14 +50,18 @@ inline TriDiag<M>::TriDiag(M &&mat) noexcept: _mat(std::move(mat))
 template <TriDiagMatrix M>
 requires std::floating_point<typename M::ElemType>
 template <Vector V>
-inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
+inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) -> V &
 {
     assert(this->_mat.shape().first == b.size());
     auto n = this->_mat.shape().first;
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    auto lu = this->_mat;   // gtsv overwrites the diagonals with the factors
+    auto info = _lapack_::gtsv(n, 1, lu.data_dl(), lu.data_d(), lu.data_du(), rslt.data(), 1);
+    if (info != 0) {
+        throw std::runtime_error("[error] fail to solve the tri-diagonal system (exit with code: " + std::to_string(info) + ")");
+    }
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -66,7 +72,7 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 template<TriDiagMatrix M>
 requires std::floating_point<typename M::ElemType>
 template<Matrix M1>
-inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noexcept -> M1 &
+inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) -> M1 &
 {
     assert(this->_mat.shape().first == b.shape().first);
     assert(b.shape() == rslt.shape());
@@ -75,7 +81,11 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    auto lu = this->_mat;   // gtsv overwrites the diagonals with the factors
+    auto info = _lapack_::gtsv(n, nrow, lu.data_dl(), lu.data_d(), lu.data_du(), rslt.data(), rslt.shape().second);
+    if (info != 0) {
+        throw std::runtime_error("[error] fail to solve the tri-diagonal system (exit with code: " + std::to_string(info) + ")");
+    }
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From d4846388d48a6a1901d226d1aa806b96585a47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 12/29] fix: size mismatches of neg, axpy, dot and
 DynUpperTriMat reach the caller

These functions were noexcept, so the exception they throw ended the process.
---
 include/lalib/mat/dyn_mat.hpp |  4 ++--
 include/lalib/ops/vec_ops.hpp | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..e8a48e6 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -494,7 +494,7 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -548,7 +548,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 7e221dd..70facbf 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -373,7 +373,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -458,7 +458,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
-- 
2.43.0


From 0eca0b69b0c426a1b29809adffd4bb90cee0f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 13/29] fix: add, sub and SizedVec::dot check the sizes they
 rely on

A short destination was overrun, and so was a short DynVec operand of
SizedVec::dot.
---
 include/lalib/ops/vec_ops.hpp   | 2 ++
 include/lalib/vec/sized_vec.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 70facbf..1d28130 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..fef8212 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
+#include "lalib/err/error.hpp"
 
 namespace lalib {
 
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,9 +206,12 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
     T d;
+    if (this->size() != v.size()) {
+        throw vec_error::SizeMismatched(this->size(), v.size());
+    }
     d = dot_core(this->data(), v.data(), this->size());
     return d;
 }
-- 
2.43.0


From df94e1f65a56a79c967bb3346c3e5164dad7db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 14/29] fix: LAPACK Cholesky solves report failures

The status of potrs was dropped and the right-hand side returned as the solution.
---
 .../lalib/solver/cholesky_factorization.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 2982ebc..9ec63d0 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -177,7 +177,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
+	auto info = _lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the linear system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
@@ -192,7 +195,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 
 	auto rslt = rhs;
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
+	auto info = _lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the linear system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
@@ -208,7 +214,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
    	assert(rhs.shape().second == rhs.shape().second);
 
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
+	auto info = _lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the linear system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
@@ -225,7 +234,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 
 	auto rslt = rhs;
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
+	auto info = _lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the linear system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
-- 
2.43.0


From a1f8196eb72409e15f3de366740b6ddea4e3125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 15/29] fix: reading a structural zero of a tri-diagonal matrix
 does not dangle

The accessors returned a reference to a temporary.
---
 include/lalib/mat/dyn_mat.hpp   | 4 +++-
 include/lalib/mat/sized_mat.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index e8a48e6..c089f41 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,8 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+
+    static inline const T _zero = Zero<T>::value();
 };
 
 template <typename T>
@@ -290,7 +292,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..57a48b7 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,8 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+
+    static inline const T _zero = Zero<T>::value();
 };
 
 template <typename T, size_t N>
@@ -304,7 +306,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From 68e4a069a365d4b068ec7f7a93626f0d4ca51024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 16/29] fix: lower triangular matrices are zero above the
 diagonal

Their accessors mirrored the lower triangle as Hermitian matrices do, also for
the factor a Cholesky factorization returns.
---
 include/lalib/mat/dyn_mat.hpp   | 6 ++++--
 include/lalib/mat/sized_mat.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index c089f41..32f5e2a 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -659,6 +659,8 @@ struct DynLowerTriMat {
 private:
     size_t _n;
     std::vector<T> _lower_elems;
+
+    static inline const T _zero = T();
 };
 
 template<typename T>
@@ -674,13 +676,13 @@ constexpr auto DynLowerTriMat<T>::shape() const noexcept -> std::pair<size_t, si
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index 57a48b7..e254be2 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -386,6 +386,8 @@ struct SizedLowerTriMat {
 
 private:
     std::array<T, N * (N + 1) / 2> _lower_elems;
+
+    static inline const T _zero = T();
 };
 
 template<typename T, size_t N>
@@ -401,13 +403,13 @@ constexpr auto SizedLowerTriMat<T, N>::shape() const noexcept -> std::pair<size_
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
-- 
2.43.0


From 3168dfe4e427087523d47f82f1e668fde2ae3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 17/29] fix: a default-constructed DynUpperTriMat has size 0

Its size was uninitialized.
---
 include/lalib/mat/dyn_mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 32f5e2a..edc21ff 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -531,7 +531,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
-- 
2.43.0


From 9dc695901ee34973e0820e509afa9fa37fadb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 18/29] fix: the shape of a sparse matrix without entries is
 defined

It dereferenced the end of the index arrays.
---
 include/lalib/mat/sp_mat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..81ee059 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,8 +308,8 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ids.empty() ? 0 : *std::ranges::max_element(this->_row_ids) + 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
@@ -520,8 +520,8 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = this->_row_ptr.size() - 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ptr.empty() ? 0 : this->_row_ptr.size() - 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
-- 
2.43.0


From 549de469078e046842f7ab66f4b5df267a0cc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 19/29] fix: sparse addition does not merge into another row

When the receiver had no entry in a row, the entry of a following row was
compared and summed, or the end of the index array was read.
---
 include/lalib/mat/sp_mat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 81ee059..f722de8 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -382,7 +382,14 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
         auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
 
         while (rcursor <= rcursor_end) {
-            if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
+            if (cursor > cursor_end) {
+                // This row has no elements to merge with.
+                this->_val.emplace_back(mat._val[rcursor]);
+                this->_row_ids.emplace_back(i);
+                this->_col_ids.emplace_back(mat._col_ids[rcursor]);
+                ++rcursor;
+            }
+            else if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
                 this->_val[cursor] += mat._val[rcursor];
 
                 if (rcursor == rcursor_end) { break; }
-- 
2.43.0


From 1b03fa0a4245d7b5f25c4705f13a8eb98b7ed5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 20/29] fix: ILU rejects a zero pivot that no later row divides
 by

A singular matrix whose zero pivot is the last one was accepted, and solving
with it divided by zero.
---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From 2af428c3ef85651e1ffef125bb84f2c28fab50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 21/29] fix: GMRES solves a zero right-hand side

The first Krylov vector was divided by a zero norm and the solution was NaN.
---
 include/lalib/solver/gmres.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index fdefec4..7d5a651 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,6 +48,9 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
+    if (b_prime.norm2() == Zero<T>::value()) {
+        return lalib::DynVec<T>::filled(n, Zero<T>::value());
+    }
     q.emplace_back((T(1.0) / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
-- 
2.43.0


From ee72aa26714c2794de2b1b865ba7e14d7447e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 22/29] fix: cross(DynVec, SizedVec<3>) compiles

Its local result had the type of the first operand.
---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 1d28130..5ebcc14 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -541,7 +541,7 @@ inline auto cross(const SizedVec<T, 3>& x, const DynVec<T>& y, DynVec<T>& vr) no
 template<typename T>
 inline auto cross(const DynVec<T>& x, const SizedVec<T, 3>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
-    auto vr = x;
+    auto vr = y;
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
-- 
2.43.0


From c093c5324b2acfdf7411315f4fc99ed52bbd21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 23/29] fix: assertions name existing members and check every
 vector

A mistyped member kept debug builds from compiling, and cgs checked the second
vector over and over.
---
 include/lalib/ops/mat_mat_ops.hpp | 2 +-
 include/lalib/ops/orthogonal.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 445cc45..56547dd 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -142,7 +142,7 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, SizedMa
 
 template<typename T, size_t N, size_t M, size_t L>
 inline auto mul(T alpha, const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b, T beta, DynMat<T>& c) noexcept -> DynMat<T>& {
-    assert(c.shape().frist == N);
+    assert(c.shape().first == N);
     assert(c.shape().second == M);
     mul_core(N, M, L, alpha, a.data(), b.data(), beta, c.data());
     return c;
diff --git a/include/lalib/ops/orthogonal.hpp b/include/lalib/ops/orthogonal.hpp
index 4f01b89..535e4df 100644
--- a/include/lalib/ops/orthogonal.hpp
+++ b/include/lalib/ops/orthogonal.hpp
@@ -17,7 +17,7 @@ inline void cgs(C& vecs) {
     auto m = vecs.size();
 
     for (auto j = 1u; j < m; ++j) {
-        assert(n == vecs[1].size());
+        assert(n == vecs[j].size());
         auto vj = vecs[j];
         for (auto k = 0u; k < j; ++k) {
             lalib::axpy(-lalib::dot(vecs[k], vj) / vecs[k].dot(vecs[k]), vecs[k], vecs[j]);
-- 
2.43.0


From 15469d35fb27909de45d033986803b90ff435824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:20 +0000
Subject: [PATCH 24/29] fix: complex matrices have zeros, ones and a negation

The complex specializations of Zero and One could not be named because the
primary templates were constrained to floating-point types, so identity,
structured, sparse and negated complex matrices did not compile.
---
 include/lalib/ops/mat_ops.hpp    |  4 ----
 include/lalib/ops/ops_traits.hpp | 10 ++++++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index c32e6db..272407a 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -75,7 +75,6 @@ inline auto operator*(const T& alpha, const SpMat<T>& mat) noexcept -> SpMat<T>
 // =============== //
 
 template<typename T, size_t N, size_t M>
-requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
     scale(T(-1.0), rmat);
@@ -83,7 +82,6 @@ inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M
 }
 
 template<typename T>
-requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
     scale(T(-1.0), rmat);
@@ -91,7 +89,6 @@ inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
 }
 
 template<typename T>
-requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
     scale(T(-1.0), rmat);
@@ -99,7 +96,6 @@ inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
 }
 
 template<typename T>
-requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
     scale(T(-1.0), rmat);
diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index ac4f535..22f9d4a 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -9,9 +9,12 @@ namespace lalib {
 
 // === Zero === //
 
+template<typename T>
+struct Zero;
+
 template<typename T>
 requires std::floating_point<T>
-struct Zero {
+struct Zero<T> {
     static auto value() noexcept -> T { return 0.0; }
 };
 
@@ -23,9 +26,12 @@ struct Zero<std::complex<T>> {
 
 // === One === //
 
+template<typename T>
+struct One;
+
 template<typename T>
 requires std::floating_point<T>
-struct One {
+struct One<T> {
     static auto value() noexcept -> T { return 1.0; }
 };
 
-- 
2.43.0


From 22d08eca2d331958b6e7d24e5ac49cdb6b90fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 25/29] fix: headers include what they use

internal/tdma.hpp did not compile on its own, others only by the order of
inclusion.
---
 include/lalib/mat/dyn_mat.hpp                            | 5 +++++
 include/lalib/mat/sized_mat.hpp                          | 3 +++
 include/lalib/mat/sp_mat.hpp                             | 1 +
 include/lalib/ops/mat_mat_ops_core.hpp                   | 1 +
 include/lalib/ops/orthogonal.hpp                         | 1 +
 include/lalib/solver/cholesky_factorization.hpp          | 4 ++++
 include/lalib/solver/gmres.hpp                           | 3 +++
 include/lalib/solver/ilu.hpp                             | 1 +
 include/lalib/solver/internal/cholesky_decomposition.hpp | 4 ++++
 include/lalib/solver/internal/tdma.hpp                   | 2 ++
 include/lalib/solver/lapack/potr.hpp                     | 1 +
 include/lalib/solver/tri_diag.hpp                        | 1 +
 include/lalib/vec/sized_vec.hpp                          | 2 ++
 13 files changed, 29 insertions(+)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index edc21ff..cd3f81e 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -4,7 +4,12 @@
 #define LALIB_MAT_DYN_MAT_HPP
 
 #include "lalib/ops/ops_traits.hpp"
+#include <algorithm>
+#include <cmath>
+#include <cstdint>
 #include <ranges>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <span>
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index e254be2..92aecf7 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -3,7 +3,10 @@
 #ifndef LALIB_MAT_SIZED_MAT_HPP
 #define LALIB_MAT_SIZED_MAT_HPP
 
+#include <algorithm>
 #include <array>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <utility>
 #include "lalib/ops/ops_traits.hpp"
diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index f722de8..6c00f05 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <bits/ranges_algo.h>
 #include <cstddef>
+#include <stdexcept>
 #include <vector>
 #include <cassert>
 #include <ranges>
diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index 0d30a8f..1981b23 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -13,6 +13,7 @@
 #ifndef LALIB_MAT_MAT_OPS_CORE_HPP
 #define LALIB_MAT_MAT_OPS_CORE_HPP
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
diff --git a/include/lalib/ops/orthogonal.hpp b/include/lalib/ops/orthogonal.hpp
index 535e4df..df0a681 100644
--- a/include/lalib/ops/orthogonal.hpp
+++ b/include/lalib/ops/orthogonal.hpp
@@ -4,6 +4,7 @@
 
 #include "lalib/type_traits.hpp"
 #include "lalib/ops/vec_ops.hpp"
+#include <cassert>
 #include <ranges>
 #include <concepts>
 
diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9ec63d0..a09fa23 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -2,6 +2,10 @@
 #ifndef LALIB_SOLVER_CHOLESKY_HPP
 #define LALIB_SOLVER_CHOLESKY_HPP
 
+#include <cassert>
+#include <cstddef>
+#include <stdexcept>
+#include <string>
 #include "lalib/mat/dyn_mat.hpp"
 #include "lalib/solver/internal/cholesky_decomposition.hpp"
 #include "lalib/type_traits.hpp"
diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index 7d5a651..7051641 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -7,7 +7,10 @@
 #include "lalib/ops/vec_ops.hpp"
 #include "lalib/ops/mat_vec_ops.hpp"
 #include "lalib/solver/ilu.hpp"
+#include <cassert>
+#include <cmath>
 #include <ranges>
+#include <vector>
 
 namespace lalib::solver {
 
diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 45bddfe..3b484dd 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -3,6 +3,7 @@
 
 #include <memory>
 #include <concepts>
+#include <stdexcept>
 #include "lalib/vec.hpp"
 
 namespace lalib::solver {
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index fc00bab..465f020 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -2,6 +2,10 @@
 #ifndef LALIB_SOLVER_INTERNAL_CHOLESKY_HPP
 #define LALIB_SOLVER_INTERNAL_CHOLESKY_HPP
 
+#include <cmath>
+#include <cstddef>
+#include <cstdint>
+#include <stdexcept>
 #include "lalib/mat.hpp"
 
 namespace lalib::solver::_internal_ {
diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index a69a8a1..b82e871 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -3,6 +3,8 @@
 #define LALIB_SOLVER_INTERNAL_TDMA_HPP
 
 #include <concepts>
+#include <cstddef>
+#include <cstdint>
 #include <vector>
 
 namespace lalib::solver::_internal_ {
diff --git a/include/lalib/solver/lapack/potr.hpp b/include/lalib/solver/lapack/potr.hpp
index ce02216..ce2c4da 100644
--- a/include/lalib/solver/lapack/potr.hpp
+++ b/include/lalib/solver/lapack/potr.hpp
@@ -2,6 +2,7 @@
 #ifndef LALIB_SOLVER_LAPACK_POTRF_HPP
 #define LALIB_SOLVER_LAPACK_POTRF_HPP
 
+#include <complex>
 #include <cstdint>
 #include <lapacke.h>
 
diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 410b7f8..7e8a0ff 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -5,6 +5,7 @@
 #include "lalib/mat.hpp"
 #include "lalib/vec.hpp"
 #include "lalib/type_traits.hpp"
+#include <cassert>
 #include <concepts>
 #include <stdexcept>
 #include <string>
diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index fef8212..ba8faf5 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -3,7 +3,9 @@
 #ifndef LALIB_VEC_SIZED_VEC_HPP
 #define LALIB_VEC_SIZED_VEC_HPP
 
+#include <algorithm>
 #include <array>
+#include <string>
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
-- 
2.43.0


From a2293d57c58281246cfc010f970253486bee2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:03 +0000
Subject: [PATCH 26/29] fix: gemv with an empty inner dimension scales y by
 beta with the BLAS backend

---
 include/lalib/ops/mat_vec_ops_core.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 570dfb3..a6b37e7 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -86,7 +86,10 @@ inline auto mul_core(size_t n, size_t m, T alpha, const T* mat, const T* x, T be
 template<>
 inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, const float* x, float beta, float* y) noexcept -> float* {
     #if defined(LALIB_BLAS_BACKEND)
-    if (x == y) {
+    if (m == 0) {
+        // BLAS returns without scaling y if the matrix has no columns.
+        __mul_core_simd(n, m, alpha, mat, x, beta, y);
+    } else if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
         std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
@@ -103,7 +106,10 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
 template<>
 inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat, const double* x, double beta, double* y) noexcept -> double* {
     #if defined(LALIB_BLAS_BACKEND)
-    if (x == y) {
+    if (m == 0) {
+        // BLAS returns without scaling y if the matrix has no columns.
+        __mul_core_simd(n, m, alpha, mat, x, beta, y);
+    } else if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
         std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
-- 
2.43.0


From 3f68e55f35620e7ca0b22e7de5b719d896a0b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:32 +0000
Subject: [PATCH 27/29] fix: gemm leading dimensions are at least 1 for empty
 matrices

---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index 1981b23..6f38e0c 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -62,10 +62,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, tmp.get(), std::max<size_t>(1u, m));
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, matc, std::max<size_t>(1u, m));
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -79,10 +79,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, tmp.get(), std::max<size_t>(1u, m));
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, matc, std::max<size_t>(1u, m));
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From 226bb4f799ad22ee59eb840ecae52381e8afa64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:54 +0000
Subject: [PATCH 28/29] fix: the tri-diagonal solver asserts the size of its
 result vector

---
 include/lalib/solver/tri_diag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 7e8a0ff..37ec0fd 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -54,6 +54,7 @@ template <Vector V>
 inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) -> V &
 {
     assert(this->_mat.shape().first == b.size());
+    assert(b.size() == rslt.size());
     auto n = this->_mat.shape().first;
 
     #if defined(LALIB_LAPACK_BACKEND)
-- 
2.43.0


From 0628868f73c4c1aaa2f13685c1e6b265f0645f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:47 +0000
Subject: [PATCH 29/29] fix: headers include the standard headers whose names
 they use

---
 include/lalib/mat.hpp                           | 2 ++
 include/lalib/mat/dyn_mat.hpp                   | 2 ++
 include/lalib/mat/sized_mat.hpp                 | 1 +
 include/lalib/mat/sp_mat.hpp                    | 3 +++
 include/lalib/ops/mat_mat_ops.hpp               | 1 +
 include/lalib/ops/mat_ops.hpp                   | 1 +
 include/lalib/ops/mat_vec_ops.hpp               | 1 +
 include/lalib/ops/vec_ops.hpp                   | 1 +
 include/lalib/solver/cholesky_factorization.hpp | 1 +
 include/lalib/solver/gmres.hpp                  | 1 +
 include/lalib/solver/ilu.hpp                    | 1 +
 include/lalib/vec.hpp                           | 1 +
 include/lalib/vec/dyn_vec.hpp                   | 2 ++
 include/lalib/vec/sized_vec.hpp                 | 1 +
 14 files changed, 19 insertions(+)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 06a3385..a2aecc9 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #ifndef LALIB_MAT_HPP
 #define LALIB_MAT_HPP
+#include <cstddef>
+#include <utility>
 
 #include "lalib/mat/sized_mat.hpp"
 #include "lalib/mat/dyn_mat.hpp"
diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index cd3f81e..a6f1a55 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -12,6 +12,8 @@
 #include <string>
 #include <vector>
 #include <span>
+#include <cstddef>
+#include <utility>
 
 namespace lalib {
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index 92aecf7..4319221 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <vector>
 #include <utility>
+#include <cstddef>
 #include "lalib/ops/ops_traits.hpp"
 #include "lalib/type_traits.hpp"
 
diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 6c00f05..efb2c96 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -11,6 +11,9 @@
 #include <ranges>
 #include <numeric>
 #include <span>
+#include <functional>
+#include <iterator>
+#include <utility>
 
 namespace lalib {
 
diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 56547dd..dee3a82 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -7,6 +7,7 @@
 #include "lalib/mat/dyn_mat.hpp"
 #include "lalib/ops/vec_ops_core.hpp"
 #include <cassert>
+#include <cstddef>
 
 namespace lalib {
 
diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 272407a..624f2ad 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <type_traits>
+#include <cstddef>
 #ifndef LALIB_MAT_OPS_HPP
 #define LALIB_MAT_OPS_HPP
 
diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index 20bc78c..e231d13 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -9,6 +9,7 @@
 #include "lalib/vec/sized_vec.hpp"
 #include "lalib/vec/dyn_vec.hpp"
 #include <cassert>
+#include <cstddef>
 
 
 namespace lalib {
diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 5ebcc14..0f25054 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -10,6 +10,7 @@
 
 #include <cstring>
 #include <cassert>
+#include <cstddef>
 
 
 namespace lalib {
diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index a09fa23..7ce0913 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include "lalib/mat/dyn_mat.hpp"
 #include "lalib/solver/internal/cholesky_decomposition.hpp"
 #include "lalib/type_traits.hpp"
diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index 7051641..d973383 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -11,6 +11,7 @@
 #include <cmath>
 #include <ranges>
 #include <vector>
+#include <utility>
 
 namespace lalib::solver {
 
diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 3b484dd..dd84d78 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -4,6 +4,7 @@
 #include <memory>
 #include <concepts>
 #include <stdexcept>
+#include <utility>
 #include "lalib/vec.hpp"
 
 namespace lalib::solver {
diff --git a/include/lalib/vec.hpp b/include/lalib/vec.hpp
index 6bb8c87..61ea8bb 100644
--- a/include/lalib/vec.hpp
+++ b/include/lalib/vec.hpp
@@ -1,6 +1,7 @@
 #pragma once 
 #ifndef LALIB_VEC_HPP
 #define LALIB_VEC_HPP
+#include <cstddef>
 
 #include "lalib/vec/sized_vec.hpp"
 #include "lalib/vec/dyn_vec.hpp"
diff --git a/include/lalib/vec/dyn_vec.hpp b/include/lalib/vec/dyn_vec.hpp
index 22f3412..669b753 100644
--- a/include/lalib/vec/dyn_vec.hpp
+++ b/include/lalib/vec/dyn_vec.hpp
@@ -4,6 +4,8 @@
 #define LALIB_VEC_DYN_VEC_HPP
 
 #include <vector>
+#include <cstddef>
+#include <utility>
 #include "lalib/ops/ops_traits.hpp"
 #include "lalib/ops/vec_ops_core.hpp"
 #include "lalib/err/error.hpp"
diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index ba8faf5..a01aab2 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -8,6 +8,7 @@
 #include <string>
 #include <vector>
 #include <initializer_list>
+#include <cstddef>
 #include "lalib/ops/vec_ops_core.hpp"
 #include "lalib/err/error.hpp"
 
-- 
2.43.0


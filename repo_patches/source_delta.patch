From 8f1911c7f001f1080e95de45048322287c365530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:38 +0000
Subject: [PATCH 01/32] fix: propagate the incoming adjoint through
 forward-mode erf

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..68de289 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        two_over_sqrt_pi * std::exp(-t_sq) * x.get_adjoint(), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From 7cfda84090d0c0199992a038697e4a6e8c0e74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:38 +0000
Subject: [PATCH 02/32] fix: scale vector cauchy gradients by the seed exactly
 once

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..85983f6 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,8 +436,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dx0 = -dx;
+        auto dgamma = (-1./gamma) * ((dx * diff) + seed);
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From 5441eef928171f349d71606eb54695feb7b5b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:39 +0000
Subject: [PATCH 03/32] fix: refresh the wishart caches for constant X with
 non-constant V

---
 include/fastad_bits/reverse/stat/wishart.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..5000f01 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -170,6 +170,11 @@ public:
             update_x_cache();
         }
 
+        // depends on both x and v, so it must be refreshed if either is not a constant.
+        if (is_x_pos_def_ && is_v_pos_def_) {
+            xv_inv_ = x_.get() * v_inv_;
+        }
+
         if (!valid()) {
             return this->get() = util::neg_inf<value_t>;
         }
@@ -204,14 +209,11 @@ private:
     }
 
     void update_x_cache() {
-        if (is_v_pos_def_) {
-            x_llt_.compute(x_.get());
-            is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
-            if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
-                x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
-                xv_inv_ = x_.get() * v_inv_;
-            }
+        x_llt_.compute(x_.get());
+        is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
+        if (is_x_pos_def_) {
+            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
         }
     }
 
-- 
2.43.0


From 1eaf184a8e0756f5c29d424502e696588163f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 04/32] fix: re-check uniform bounds when x is constant but the
 bound is not

---
 include/fastad_bits/reverse/stat/uniform.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..f13679f 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,9 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        // x cache also depends on max
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +324,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +402,9 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        // x cache also depends on min
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +420,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From 0855b135e1a4aa615c9bea52836ad74474694ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 05/32] fix: give if_else its own value so that it can be used
 inside other expressions

---
 include/fastad_bits/reverse/core/if_else.hpp | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..bc4291d 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,14 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +99,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
-        return cond_expr_.bind_cache_size() +
+        return single_bind_cache_size() +
+                cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
                 else_expr_.bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From 6289cd3a7eacfe2ebf48fb68755266fe0f95b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 06/32] fix: keep the adjoint workspace of prod(e) when it is
 assigned to a placeholder

---
 include/fastad_bits/reverse/core/prod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..2511a3f 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -229,13 +229,15 @@ public:
 
     util::SizePack bind_cache_size() const 
     { 
+        util::SizePack adj_cache_size(0, expr_.size());
         return expr_.bind_cache_size() + 
+                adj_cache_size +
                 single_bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From 5cbc7ab0ba414b6bda1f9b4fcec3967e96515073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 07/32] fix: keep the saved value of an op-assignment when it
 is assigned to a placeholder

---
 include/fastad_bits/reverse/core/eq.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..5299bdc 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,15 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        util::SizePack cache_size(cache_.size(), cache_.size());
+        return cache_size + 
+                single_bind_cache_size() + 
                 expr_.bind_cache_size(); 
     }
 
+    // The root views the variable itself, so it does not bind anything extra.
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From 121fad839f7a459c32c50548f5c93f4a19de08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 08/32] fix: include det and log_det in the main header

---
 include/fastad_bits/reverse/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core.hpp b/include/fastad_bits/reverse/core.hpp
index 7512a06..4421636 100644
--- a/include/fastad_bits/reverse/core.hpp
+++ b/include/fastad_bits/reverse/core.hpp
@@ -2,6 +2,7 @@
 #include "fastad_bits/reverse/core/binary.hpp"
 #include "fastad_bits/reverse/core/bind.hpp"
 #include "fastad_bits/reverse/core/constant.hpp"
+#include "fastad_bits/reverse/core/det.hpp"
 #include "fastad_bits/reverse/core/dot.hpp"
 #include "fastad_bits/reverse/core/eq.hpp"
 #include "fastad_bits/reverse/core/eval.hpp"
@@ -9,6 +10,7 @@
 #include "fastad_bits/reverse/core/for_each.hpp"
 #include "fastad_bits/reverse/core/glue.hpp"
 #include "fastad_bits/reverse/core/if_else.hpp"
+#include "fastad_bits/reverse/core/log_det.hpp"
 #include "fastad_bits/reverse/core/norm.hpp"
 #include "fastad_bits/reverse/core/pow.hpp"
 #include "fastad_bits/reverse/core/prod.hpp"
-- 
2.43.0


From a45414deefeaebdbeef28a8feb722e66dfc3453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 09/32] fix: fold the transpose of a constant into a matrix
 constant

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From 30659ce8db9223fe670575c7dc459100fd4418a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 10/32] fix: use the common value type as the base of a binary
 expression

---
 include/fastad_bits/reverse/core/binary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..ffb7f4c 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,7 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<util::common_value_t<LeftExprType, RightExprType>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From 5ece9b17bf146cb8c2c55c959d0bc3f7cf244055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 11/32] fix: make the sigmoid derivative work for scalars and
 large negative inputs

---
 include/fastad_bits/reverse/core/unary.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..fe514d5 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -273,8 +273,7 @@ UNARY_STRUCT(Erf,
 UNARY_STRUCT(Sigmoid, 
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
-             static_cast<void>(x); 
-             return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
+             return seed * f * Sigmoid::fmap(-x););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-- 
2.43.0


From f81751c9c500d566655aedaf55e1a74a7976d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 12/32] fix: make sinh, cosh and tanh work for scalar
 expressions

---
 include/fastad_bits/reverse/core/unary.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index fe514d5..a19d547 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -277,21 +277,24 @@ UNARY_STRUCT(Sigmoid,
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh; using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh; using Eigen::cosh;
+             return seed * cosh(x););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh; using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh; using Eigen::sinh;
+             return seed * sinh(x););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
+             using std::tanh; using Eigen::tanh;
+             return tanh(x);, 
              static_cast<void>(f); 
+             static_cast<void>(x); 
              return seed *(1-f*f););
 			 
 // operator- (IMPORTANT TO DECLARE IN core)
-- 
2.43.0


From 1bc32ef117f2e814b702f04877bddb20929ae465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 13/32] fix: give constants a size so that constant vectors can
 be stat arguments

---
 include/fastad_bits/reverse/core/constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..34aa439 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -130,6 +130,8 @@ public:
         }
     }
 
+    size_t size() const { return this->rows() * this->cols(); }
+
     size_t rows() const { 
         if constexpr (util::is_scl_v<this_t>) {
             return 1;
-- 
2.43.0


From ef11450810328d5fb19a96e4e18c333cf44aad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 14/32] fix: accept every kind of bound expression in
 evaluate_adj

---
 include/fastad_bits/reverse/core/eval.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..b73f551 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -64,6 +64,22 @@ evaluate_adj(core::ExprBind<ExprType>& expr,
     evaluate_adj(expr.get(), seed);
 }
 
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
 template <class ExprType, class T>
 inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
 evaluate_adj(core::ExprBind<ExprType>&& expr, 
-- 
2.43.0


From e885771e833931d763a2f27f55da8cd9250fb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 15/32] fix: bind the copy of a bound expression to its own
 cache

---
 include/fastad_bits/reverse/core/bind.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..86fb95f 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -32,6 +32,17 @@ struct ExprBind
         expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
     }
     
+    // A copy must view its own cache, not that of the original.
+    ExprBind(const ExprBind& other)
+        : expr_{other.expr_}
+        , val_cache_(other.val_cache_)
+        , adj_cache_(other.adj_cache_)
+    { expr_.bind_cache({val_cache_.data(), adj_cache_.data()}); }
+
+    ExprBind(ExprBind&&) =default;
+    ExprBind& operator=(const ExprBind&) =default;
+    ExprBind& operator=(ExprBind&&) =default;
+
     expr_t& get() { return expr_; }
 
 private:
-- 
2.43.0


From 81d8af3bc9bb8b9006ff08718c1d7ab42fc8ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 16/32] fix: return the forward value from autodiff of a
 multi-dimensional expression

---
 include/fastad_bits/reverse/core/eval.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index b73f551..d3e9a45 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -27,10 +27,13 @@ inline auto evaluate(core::ExprBind<ExprType>& expr)
     return expr.get().feval();
 }
 
+// The cache dies with the temporary, so a multi-dimensional value must be copied out.
 template <class ExprType>
 inline auto evaluate(core::ExprBind<ExprType>&& expr)
 {
-    return expr.get().feval();
+    using value_t = typename util::expr_traits<ExprType>::value_t;
+    using shape_t = typename util::expr_traits<ExprType>::shape_t;
+    return util::constant_var_t<value_t, shape_t>(expr.get().feval());
 }
 
 /* 
@@ -92,7 +95,9 @@ evaluate_adj(core::ExprBind<ExprType>&& expr,
  * Evaluates expression both in the forward and backward direction of reverse-mode AD.
  * @tparam ExprType expression type
  * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
+ * Returns a copy of the forward expression value,
+ * since the evaluated memory may be changed by the backward evaluation (see OpEqNode)
+ * or may not outlive this call (see ExprBind).
  */
 
 template <class ExprType
@@ -114,7 +119,10 @@ template <class ExprType
 inline auto autodiff(ExprType&& expr,
                      const Eigen::ArrayBase<T>& seed)
 {
-    auto t = evaluate(expr);
+    using expr_t = std::decay_t<ExprType>;
+    using value_t = typename util::expr_traits<expr_t>::value_t;
+    using shape_t = typename util::expr_traits<expr_t>::shape_t;
+    util::constant_var_t<value_t, shape_t> t = evaluate(expr);
     evaluate_adj(expr, seed);
     return t;
 }
-- 
2.43.0


From 5105ab34f60a50cbe0a849bc253e27d20302eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:13 +0000
Subject: [PATCH 17/32] fix: accept constant matrices in sum and prod over a
 range

---
 include/fastad_bits/reverse/core/prod.hpp | 2 +-
 include/fastad_bits/reverse/core/sum.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 2511a3f..1e4e97d 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -268,7 +268,7 @@ inline auto prod(Iter begin, Iter end, Lmda f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t());
         var_t prod = f(*begin).feval();     // value_t or Eigen::Matrix
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
diff --git a/include/fastad_bits/reverse/core/sum.hpp b/include/fastad_bits/reverse/core/sum.hpp
index aba293a..4262168 100644
--- a/include/fastad_bits/reverse/core/sum.hpp
+++ b/include/fastad_bits/reverse/core/sum.hpp
@@ -223,7 +223,7 @@ inline auto sum(Iter begin, Iter end, Lmda&& f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t());
         var_t sum = f(*begin).feval(); 
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
-- 
2.43.0


From 8f720446502cffe472aa240df58b1a3b17ce6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 18/32] fix: let argument-dependent lookup find negation of a
 forward variable

---
 include/fastad_bits/forward/core/forward.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 68de289..9be8b7f 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -103,8 +103,6 @@ using ForwardVar = core::ADForward<T>;
 
 // Unary functions 
 
-// Negate forward variable
-FORWARD_UNARY_FUNC(operator-, -x.get_value(), -x.get_adjoint())
 // ad::sin(core::ADForward)
 FORWARD_UNARY_FUNC(sin, std::sin(x.get_value()), 
         std::cos(x.get_value())*x.get_adjoint())
@@ -145,6 +143,8 @@ FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()),
 
 namespace core {
 
+// Negate forward variable
+FORWARD_UNARY_FUNC(operator-, -x.get_value(), -x.get_adjoint())
 // Add forward variables
 FORWARD_BINARY_FUNC(operator+, x.get_value() + y.get_value(), 
                     x.get_adjoint() + y.get_adjoint())
-- 
2.43.0


From e863f45c91a353105d32598b411c0d6ee46c0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 19/32] fix: keep the value of an op-assignment apart from the
 variable it restores

---
 include/fastad_bits/reverse/core/eq.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5299bdc..db81c10 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -162,7 +162,7 @@ private:
  * OpEqNode represents modification of a variable by some operation.
  * Ex. u += 2 * x
  * u is the variable that will be updated with +2*x.
- * It is exactly same memory overhead as EqNode, and internally invokes more copies.
+ * It needs more memory than EqNode, and internally invokes more copies.
  * This is due to possible self-aliasing issues during backward-evaluation.
  * As a result, it is in general faster to use a regular placeholder like:
  *
@@ -271,17 +271,21 @@ public:
     }
 
     /**
-     * Binds itself to view the same values as the variable viewer,
-     * binds the RHS expression, but DOES NOT bind the root of RHS to LHS like EqNode.
+     * Binds the RHS expression, but DOES NOT bind the root of RHS to LHS like EqNode.
      * Needs to cache the previous LHS value, so we store a member value viewer to bind.
+     * Then binds its own value, which must not be that of the variable viewer:
+     * back-evaluating restores the latter, while the expression that contains this node 
+     * may still need the updated value.
      *
      * @return  next pointer not bound by expression or itself.
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        value_adj_view_t::bind({var_view_.data(), var_view_.data_adj()});
         begin = expr_.bind_cache(begin);
         begin = cache_.bind(begin);
+        auto adj = begin.adj;
+        begin = value_adj_view_t::bind({begin.val, var_view_.data_adj()});
+        begin.adj = adj;
         return begin;
     }
 
@@ -293,9 +297,9 @@ public:
                 expr_.bind_cache_size(); 
     }
 
-    // The root views the variable itself, so it does not bind anything extra.
+    // The root views the adjoint of the variable, so it only binds its value.
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From 95debc05227977f7a2d00a6357a2cc3a4a864192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 20/32] fix: rebuild the expression when a bound expression is
 assigned

---
 include/fastad_bits/reverse/core/bind.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 86fb95f..0d70552 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <new>
+#include <utility>
 #include <vector>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/util/type_traits.hpp>
@@ -40,8 +42,17 @@ struct ExprBind
     { expr_.bind_cache({val_cache_.data(), adj_cache_.data()}); }
 
     ExprBind(ExprBind&&) =default;
-    ExprBind& operator=(const ExprBind&) =default;
-    ExprBind& operator=(ExprBind&&) =default;
+
+    // Assigning the expression would assign the values that it views (see Eigen::Map)
+    // instead of viewing what the other one views, so construct it anew.
+    ExprBind& operator=(ExprBind other)
+    {
+        expr_.~expr_t();
+        new (&expr_) expr_t(std::move(other.expr_));
+        val_cache_.swap(other.val_cache_);
+        adj_cache_.swap(other.adj_cache_);
+        return *this;
+    }
 
     expr_t& get() { return expr_; }
 
-- 
2.43.0


From 5b19843c5303da0e0fcf3a0b7c5c089834fb351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 21/32] fix: an empty for_each evaluates to nothing instead of
 reading a null pointer

---
 include/fastad_bits/reverse/core/for_each.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/for_each.hpp b/include/fastad_bits/reverse/core/for_each.hpp
index 01c1a23..154186d 100644
--- a/include/fastad_bits/reverse/core/for_each.hpp
+++ b/include/fastad_bits/reverse/core/for_each.hpp
@@ -82,12 +82,13 @@ public:
     /**
      * Bind every expression from left to right then bind itself
      * to the last expression.
+     * If there are no expressions, bind itself to cache of its own.
      *
      * @return  the next pointer not bound by any of the expressions and itself.
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        if (vec_.size() == 0) return begin;
+        if (vec_.size() == 0) return value_adj_view_t::bind(begin);
         for (auto& expr : vec_) {
             begin = expr.bind_cache(begin);
         }
@@ -101,10 +102,14 @@ public:
         for (const auto& expr : vec_) {
             out += expr.bind_cache_size();
         }
-        return out;
+        return out + single_bind_cache_size();
     }
 
-    util::SizePack single_bind_cache_size() const { return {0,0}; }
+    util::SizePack single_bind_cache_size() const 
+    { 
+        if (vec_.size() == 0) return {this->size(), this->size()};
+        return {0,0}; 
+    }
 
 private:
     std::vector<vec_elem_t> vec_;
-- 
2.43.0


From 67967421635d01df7124516d2fa45cdfcc4e8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 22/32] fix: uniform density of a vector that holds a NaN is
 minus infinity with scalar bounds too

---
 include/fastad_bits/reverse/stat/uniform.hpp | 30 +++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index f13679f..46519d9 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <limits>
 #include <tuple>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/reverse/core/value_adj_view.hpp>
@@ -65,6 +66,27 @@ struct UniformBase:
     }
 
 protected:
+    /**
+     * Smallest and largest element of x used to check the bounds.
+     * NaN is never within the bounds, which minCoeff and maxCoeff may skip over,
+     * and no elements at all are always within the bounds.
+     */
+    template <class T>
+    static value_t min_coeff(const T& x)
+    {
+        if (x.size() == 0) return util::inf<value_t>;
+        if (x.hasNaN()) return std::numeric_limits<value_t>::quiet_NaN();
+        return x.minCoeff();
+    }
+
+    template <class T>
+    static value_t max_coeff(const T& x)
+    {
+        if (x.size() == 0) return util::neg_inf<value_t>;
+        if (x.hasNaN()) return std::numeric_limits<value_t>::quiet_NaN();
+        return x.maxCoeff();
+    }
+
     x_t x_;
     min_t min_;
     max_t max_;
@@ -255,8 +277,8 @@ private:
     }
 
     void update_x_cache() {
-        x_min_ = x_.get().minCoeff();
-        x_max_ = x_.get().maxCoeff();
+        x_min_ = base_t::min_coeff(x_.get());
+        x_max_ = base_t::max_coeff(x_.get());
     }
 
     bool within_range() const {
@@ -352,7 +374,7 @@ private:
     }
 
     void update_x_cache() {
-        x_min_ = x_.get().minCoeff();
+        x_min_ = base_t::min_coeff(x_.get());
         x_bounded_above_ = (x_.get().array() < max_.get().array()).all();
     }
 
@@ -448,7 +470,7 @@ private:
     }
 
     void update_x_cache() {
-        x_max_ = x_.get().maxCoeff();
+        x_max_ = base_t::max_coeff(x_.get());
         x_bounded_below_ = (x_.get().array() > min_.get().array()).all();
     }
 
-- 
2.43.0


From bbcddee582ce000f73be51e33f9719aade0ddafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 23/32] fix: shape of a binary expression of a scalar and an
 empty vector or matrix

---
 include/fastad_bits/reverse/core/binary.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index ffb7f4c..353a611 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -77,8 +77,8 @@ public:
     BinaryNode(const left_t& expr_lhs, 
                const right_t& expr_rhs)
         : value_adj_view_t(nullptr, nullptr,
-                       std::max(expr_lhs.rows(), expr_rhs.rows()),
-                       std::max(expr_lhs.cols(), expr_rhs.cols()))
+                       util::is_scl_v<left_t> ? expr_rhs.rows() : expr_lhs.rows(),
+                       util::is_scl_v<left_t> ? expr_rhs.cols() : expr_lhs.cols())
         , expr_lhs_(expr_lhs)
         , expr_rhs_(expr_rhs)
     {
-- 
2.43.0


From 377251ed055c6522ec60c5f75f1d00b04f3bbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 24/32] fix: log-determinants of matrices whose determinant
 over- or underflows

---
 include/fastad_bits/reverse/core/log_det.hpp | 8 ++++----
 include/fastad_bits/reverse/stat/normal.hpp  | 4 ++--
 include/fastad_bits/reverse/stat/wishart.hpp | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/core/log_det.hpp b/include/fastad_bits/reverse/core/log_det.hpp
index ed1e1ec..34b8367 100644
--- a/include/fastad_bits/reverse/core/log_det.hpp
+++ b/include/fastad_bits/reverse/core/log_det.hpp
@@ -107,7 +107,7 @@ struct LogDetFullPivLU
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         lu_.compute(X);
-        return std::log(std::abs(lu_.determinant()));
+        return lu_.matrixLU().diagonal().array().abs().log().sum();
     }
 
     auto bmap() const 
@@ -139,7 +139,7 @@ struct LogDetLDLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         ldlt_.compute(X);
-        value_t logdet = std::log(std::abs(ldlt_.vectorD().prod()));
+        value_t logdet = ldlt_.vectorD().array().abs().log().sum();
         valid_ = (std::isfinite(logdet)) && (ldlt_.info() == Eigen::Success);
         return logdet;
     }
@@ -178,7 +178,7 @@ struct LogDetLLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         llt_.compute(X);
-        value_t logdet = std::log(std::abs(llt_.matrixL().determinant()));
+        value_t logdet = llt_.matrixLLT().diagonal().array().abs().log().sum();
         return 2. * logdet;
     }
 
@@ -223,7 +223,7 @@ inline auto log_det(const T& x)
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
         using var_t = util::constant_var_t<value_t, ad::scl>;
-        var_t out = std::log(std::abs(expr.feval().determinant()));
+        var_t out = expr.feval().partialPivLu().matrixLU().diagonal().array().abs().log().sum();
         return ad::constant(out);
     } else {
         return core::LogDetNode<DecompType<value_t>, expr_t>(expr);
diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..5c2fd16 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -659,7 +659,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
@@ -757,7 +757,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5000f01..e4d543d 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -203,7 +203,7 @@ private:
         v_llt_.compute(v_.get());
         is_v_pos_def_ = (v_llt_.info() == Eigen::Success);
         if (is_v_pos_def_) {
-            log_v_det_ = std::log(v_llt_.matrixL().determinant());
+            log_v_det_ = v_llt_.matrixLLT().diagonal().array().log().sum();
             v_inv_ = v_llt_.solve(mat_t::Identity(v_.rows(), v_.cols()));
         }
     }
@@ -212,7 +212,7 @@ private:
         x_llt_.compute(x_.get());
         is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
         if (is_x_pos_def_) {
-            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            log_x_det_ = x_llt_.matrixLLT().diagonal().array().log().sum();
             x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
         }
     }
-- 
2.43.0


From df5afc98bbc058ded42f67264d04e428302a0bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 25/32] fix: derivative of a forward quotient when the
 denominator's square over- or underflows

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 9be8b7f..9553136 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -156,7 +156,7 @@ FORWARD_BINARY_FUNC(operator*, x.get_value() * y.get_value(),
         x.get_value() * y.get_adjoint() + x.get_adjoint() * y.get_value())
 // Divide forward variables
 FORWARD_BINARY_FUNC(operator/, x.get_value() / y.get_value(), 
-        (x.get_adjoint() * y.get_value() - x.get_value() * y.get_adjoint()) / (y.get_value() * y.get_value()))
+        (x.get_adjoint() - x.get_value() / y.get_value() * y.get_adjoint()) / y.get_value())
 
 // Add current forward variable with x and update current variable with the result.
 template <class T>
-- 
2.43.0


From 03d743092471e27e3d947cee8ba9f8afd4882f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 26/32] fix: gradient of a /= when the divisor's square over-
 or underflows

---
 include/fastad_bits/reverse/core/eq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index db81c10..f5118e8 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -409,9 +409,9 @@ struct DivEq
     { 
         static_cast<void>(x);
         if constexpr (util::is_eigen_v<T> && !util::is_eigen_v<U>) {
-            return (-seed * x / (y * y)).sum();
+            return (-seed * (x / y) / y).sum();
         } else {
-            return -seed * x / (y * y);
+            return -seed * (x / y) / y;
         }
     }
         
-- 
2.43.0


From 9e39fd024576e8c86503d7a9b1df3f8aa6763f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 27/32] fix: derivative of x^n when x^n underflows but the
 derivative does not

---
 include/fastad_bits/reverse/core/pow.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/fastad_bits/reverse/core/pow.hpp b/include/fastad_bits/reverse/core/pow.hpp
index aa9ff7e..bf08aa7 100644
--- a/include/fastad_bits/reverse/core/pow.hpp
+++ b/include/fastad_bits/reverse/core/pow.hpp
@@ -124,20 +124,13 @@ public:
 
             if constexpr (exp > 1) {
 
-                auto correct_seed = [&]() {
-                    if constexpr (util::is_eigen_v<a_expr_t>) {
-                        return a_expr_t::NullaryExpr(a_expr.rows(), a_expr.cols(),
-                                [&](size_t i, size_t j) { 
-                                    return a_expr(i,j) == 0 ? 
-                                        0 : a_val(i,j) / a_expr(i,j);
-                                });
-                    } else {
-                        return a_expr == 0 ? 0 : a_val / a_expr;
-                    }
-                };
-                auto corrected_seed = exp * a_adj * correct_seed();
-
-                expr_.beval(corrected_seed);
+                // not the value divided by x, since the value may underflow although
+                // the derivative does not
+                if constexpr (util::is_eigen_v<a_expr_t>) {
+                    expr_.beval(exp * a_adj * a_expr.pow(exp-1));
+                } else {
+                    expr_.beval(exp * a_adj * PowFunc<exp-1>::evaluate(a_expr));
+                }
 
             } else {
 
-- 
2.43.0


From 2aa995db3ab9751d0d1b0e3847672a2a10dded6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 28/32] fix: cancellation in normal_adj_log_pdf of constant
 vectors x and sigma and a scalar mean, far from zero

---
 include/fastad_bits/reverse/stat/normal.hpp | 23 +++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 5c2fd16..7903028 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -409,9 +409,9 @@ public:
         : base_t(x, mean, sigma)
         , log_sigma_{0}
         , is_pos_def_{false}
-        , sq_term_{0}
-        , lin_term_{0}
-        , const_term_{0}
+        , x_mean_{0}
+        , x_var_{0}
+        , inv_s_sq_sum_{0}
     {
         if constexpr (util::is_constant_v<sigma_t>) {
             this->update_cache();
@@ -420,9 +420,9 @@ public:
             if constexpr (util::is_constant_v<x_t>) {
                 auto&& x = x_.get().array();
                 auto&& s = sigma_.get().array();
-                sq_term_ = (x/s).matrix().squaredNorm(); 
-                lin_term_ = (x/(s * s)).sum();
-                const_term_ = (1./s).matrix().squaredNorm();
+                inv_s_sq_sum_ = (1./s).matrix().squaredNorm();
+                x_mean_ = (x/(s * s)).sum() / inv_s_sq_sum_;
+                x_var_ = ((x - x_mean_)/s).matrix().squaredNorm();
             }
         }
     }
@@ -443,8 +443,9 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
+            value_t centered = (m - x_mean_);
             return this->get() = 
-                -0.5 * (sq_term_ - 2 * m * lin_term_ + m * m * const_term_)
+                -0.5 * (x_var_ + inv_s_sq_sum_ * centered * centered)
                     - log_sigma_;
         } else {
             auto z = ((x - m) / s).matrix();
@@ -462,7 +463,7 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
-            value_t mean_adj = lin_term_ - m * const_term_;
+            value_t mean_adj = inv_s_sq_sum_ * (x_mean_ - m);
             mean_.beval(seed * mean_adj);
         } else {
 
@@ -489,9 +490,9 @@ private:
     size_t is_pos_def_;
 
     // only used when x and sigma are both constant
-    value_t sq_term_;
-    value_t lin_term_;
-    value_t const_term_;
+    value_t x_mean_;            // weighted by 1/sigma^2
+    value_t x_var_;
+    value_t inv_s_sq_sum_;
 };
 
 // Case 5: vvv
-- 
2.43.0


From 27abc668efe1965073337f4660bea2af2debb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 29/32] fix: gradient of bernoulli_adj_log_pdf of a vector and
 a scalar probability close to one

---
 include/fastad_bits/reverse/stat/bernoulli.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/bernoulli.hpp b/include/fastad_bits/reverse/stat/bernoulli.hpp
index b86cb52..b05469f 100644
--- a/include/fastad_bits/reverse/stat/bernoulli.hpp
+++ b/include/fastad_bits/reverse/stat/bernoulli.hpp
@@ -247,8 +247,9 @@ public:
     {
         if (seed == 0 || !within_range() || !is_x_zero_one_) return;
 
-        value_t adj = (x_sum_ - (x_.size() * p_.get())) /
-                        (p_.get() * (1-p_.get()));
+        // not as one fraction, which cancels when p is close to 1
+        value_t adj = x_sum_ / p_.get() - 
+                        (x_.size() - x_sum_) / (1-p_.get());
         p_.beval(seed * adj);
     }
 
-- 
2.43.0


From 8e93b0cc72eb3a677a025263713a73436e01a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 30/32] fix: gradient of a product that underflows although the
 gradient does not

---
 include/fastad_bits/reverse/core/prod.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 1e4e97d..f24dac0 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cmath>
+#include <limits>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/reverse/core/value_adj_view.hpp>
 #include <fastad_bits/reverse/core/constant.hpp>
@@ -77,13 +79,15 @@ public:
             [&](auto& expr) {
                 auto&& a_expr = util::to_array(expr.get());
 
-                // if current expr's value is 0, cannot optimize,
+                // if current expr's value is 0 or the product underflows, cannot optimize,
                 // must recompute product leaving current index out.
+                constexpr auto min = std::numeric_limits<value_t>::min();
                 bool no_optimize;
                 if constexpr (util::is_scl_v<vec_elem_t>) {
-                    no_optimize = (expr.get() == 0);
+                    no_optimize = (expr.get() == 0) || (std::abs(this->get()) < min);
                 } else {
-                    no_optimize = (expr.get().array() == 0).any();
+                    no_optimize = (expr.get().array() == 0).any() || 
+                                  (this->get().array().abs() < min).any();
                 }
 
                 if (no_optimize) {
@@ -187,14 +191,19 @@ public:
      */
     void beval(value_t seed)
     {
+        bool underflows = std::abs(this->get()) < std::numeric_limits<value_t>::min();
+        if constexpr (!util::is_scl_v<expr_t>) {
+            underflows = underflows && (expr_.get().array() != 0).all();
+        }
+
         for (size_t k = 0; k < expr_.cols(); ++k) {
             for (size_t l = 0; l < expr_.rows(); ++l) {
 
                 adj_cache_.get(l,k) = seed;
 
-                // if current expr's value is 0, cannot optimize,
+                // if current expr's value is 0 or the product underflows, cannot optimize,
                 // must recompute product leaving current index out.
-                if (expr_.get(l,k) == 0) {
+                if (underflows || expr_.get(l,k) == 0) {
                     for (size_t kk = 0; kk < expr_.cols(); ++kk) {
                         for (size_t ll = 0; ll < expr_.rows(); ++ll) {
                             if (ll != l || kk != k) {
-- 
2.43.0


From efb6ebee3ac838acaa82bf49f99a1271a818dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 31/32] fix: pow of a float constant has value type double and
 cannot be used with float expressions

---
 include/fastad_bits/reverse/core/pow.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/pow.hpp b/include/fastad_bits/reverse/core/pow.hpp
index bf08aa7..36cfb0c 100644
--- a/include/fastad_bits/reverse/core/pow.hpp
+++ b/include/fastad_bits/reverse/core/pow.hpp
@@ -211,9 +211,12 @@ inline constexpr auto pow(const Derived& x)
 
     if constexpr (util::is_constant_v<expr_t>) {
         if constexpr (util::is_scl_v<expr_t>) {
-            return ad::constant(
+            // a floating-point constant keeps its value type
+            using result_t = std::conditional_t<
+                std::is_floating_point_v<value_t>, value_t, double>;
+            return ad::constant(static_cast<result_t>(
                     core::PowFunc<exp>::evaluate(expr.feval())
-                    ); 
+                    )); 
         } else {
             var_t out = expr.feval().array().pow(exp);
             return ad::constant(out); 
-- 
2.43.0


From 3105fc6598797dc08155890727f66c0fc4cf5c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:39 +0000
Subject: [PATCH 32/32] fix: if_else took another branch backward when its
 condition is a variable that the branch updates

---
 include/fastad_bits/reverse/core/if_else.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index bc4291d..3a284dc 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -77,7 +77,10 @@ public:
 
     const var_t& feval()
     {
-        if (cond_expr_.feval()) {
+        // remember the choice, since the condition may view a variable
+        // that the chosen expression updates
+        cond_val_ = cond_expr_.feval();
+        if (cond_val_) {
             this->get() = if_expr_.feval();
         } else {
             this->get() = else_expr_.feval();
@@ -88,7 +91,7 @@ public:
     template <class T>
     void beval(const T& seed)
     {
-        if (cond_expr_.get()) {
+        if (cond_val_) {
             if_expr_.beval(seed);
         } else {
             else_expr_.beval(seed);
@@ -122,6 +125,7 @@ private:
     cond_t cond_expr_;
     if_t if_expr_;
     else_t else_expr_;
+    bool cond_val_ = false;
 };
 
 } // namespace core
-- 
2.43.0


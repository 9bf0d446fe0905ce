From 9fcfb5200b1ddcc817bdd8479ee11cb1f32dbd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 01/38] verification hook: let DCGP_VERIF_RANDOM_ENGINE replace
 the random engine type

---
 include/dcgp/rng.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dcgp/rng.hpp b/include/dcgp/rng.hpp
index 0ae1d5c..c1c8d15 100644
--- a/include/dcgp/rng.hpp
+++ b/include/dcgp/rng.hpp
@@ -10,7 +10,12 @@ namespace detail
 {
 
 // DCGP makes use of the 32-bit Mersenne Twister by Matsumoto and Nishimura, 1998.
+#ifdef DCGP_VERIF_RANDOM_ENGINE
+// Verification builds only: a drop-in engine whose draws are enumerated by an explorer.
+using random_engine_type = DCGP_VERIF_RANDOM_ENGINE;
+#else
 using random_engine_type = std::mt19937;
+#endif
 
 template <typename = void>
 struct random_device_statics {
-- 
2.43.0


From d05e8175b1551695b2637fd8d704794f2a195511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 02/38] fix: expression::mutate(idxs) no longer mutates part of
 the genes before refusing an invalid index

---
 include/dcgp/expression.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..b0e7795 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -678,10 +678,11 @@ public:
     void mutate(std::vector<unsigned> idxs)
     {
         bool flag = false;
+        // We check all the indexes before mutating, so that nothing is changed if one of them is invalid
+        if (std::any_of(idxs.begin(), idxs.end(), [this](unsigned idx) { return idx >= m_x.size(); })) {
+            throw std::invalid_argument("idx of gene to be mutated is out of bounds");
+        }
         for (auto i = 0u; i < idxs.size(); ++i) {
-            if (idxs[i] >= m_x.size()) {
-                throw std::invalid_argument("idx of gene to be mutated is out of bounds");
-            }
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From f5857e41be7b63f25877f15018fef46b36630604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 03/38] fix: expression::mutate_ogene honours N also when the
 expression has one output

---
 include/dcgp/expression.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index b0e7795..d5c0a07 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -832,9 +832,11 @@ public:
             }
 
         } else {
-            idx = static_cast<unsigned>(m_active_genes.size() - 1u);
-            idx = m_active_genes[idx];
-            mutate(idx);
+            for (auto i = 0u; i < N; ++i) {
+                idx = static_cast<unsigned>(m_active_genes.size() - 1u);
+                idx = m_active_genes[idx];
+                mutate(idx);
+            }
         }
     }
 
-- 
2.43.0


From e4b2ac869ec6bc1d9dfe1c928627b55e4c160fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 04/38] fix: the symbolic form of the gaussian kernel
 parenthesises its argument

---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..1ca3206 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From ec8c23cb309538bac3018830839ccc8b07d098bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 05/38] fix: expression::set_from_range refuses NaN genes

---
 include/dcgp/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index d5c0a07..a2c7d08 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1110,7 +1110,7 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            if (!(*begin <= *ub_iter && *begin >= *lb_iter)) { // (also true if *begin is a NaN)
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 9d1dc2ecbf122a225188659256dad466948bce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 06/38] fix: a deserialized kernel has the thread safety level
 of its functions

---
 include/dcgp/kernel.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..2ce9c60 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,8 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        // The thread safety level follows from the (de)serialized functions
+        m_thread_safety = std::min(m_f.get_thread_safety(), m_pf.get_thread_safety());
     }
 
 private:
@@ -167,7 +169,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From 0bdad9eec181a139f4cc84a285c5d0e36600c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 07/38] fix: the cross entropy is not NaN when the probability
 of a class underflows

---
 include/dcgp/expression.hpp     | 14 +++++++-------
 include/dcgp/expression_ann.hpp | 15 +++++++--------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index a2c7d08..475e0d9 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -307,14 +307,14 @@ public:
             case loss_type::CE: {
                 // We guard from numerical instabilities subtracting the max element
                 auto max = *std::max_element(outputs.begin(), outputs.end());
-                // exp(a_i - max)
-                std::transform(outputs.begin(), outputs.end(), outputs.begin(),
-                               [max](T a) { return audi::exp(a - max); });
-                // sum exp(a_i - max)
-                T cumsum = std::accumulate(outputs.begin(), outputs.end(), T(0.));
-                // log(p_i) * y_i
+                // a_i - max
+                std::transform(outputs.begin(), outputs.end(), outputs.begin(), [max](T a) { return a - max; });
+                // log sum exp(a_i - max)
+                T log_cumsum = audi::log(std::accumulate(outputs.begin(), outputs.end(), T(0.),
+                                                         [](T acc, T a) { return acc + audi::exp(a); }));
+                // log(p_i) * y_i (the log is not computed from p_i, that may have underflowed to zero)
                 std::transform(outputs.begin(), outputs.end(), prediction.begin(), outputs.begin(),
-                               [cumsum](T a, T y) { return audi::log(a / cumsum) * y; });
+                               [log_cumsum](T a, T y) { return (a - log_cumsum) * y; });
                 // - sum log(p_i) y_i
                 retval = -std::accumulate(outputs.begin(), outputs.end(), T(0.));
                 break;
diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..61ee3ec 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -360,18 +360,17 @@ public:
                 }
                 // We guard from numerical instabilities subtracting the max
                 auto max = *std::max_element(ps.begin(), ps.end());
-                std::transform(ps.begin(), ps.end(), ps.begin(), [max](double a) { return std::exp(a - max); });
+                std::transform(ps.begin(), ps.end(), ps.begin(), [max](double a) { return a - max; });
                 // We compute the sum of exp(o_i - max)
-                double cumsum = std::accumulate(ps.begin(), ps.end(), 0.);
-                // We transform to probabilities p_i
-                std::transform(ps.begin(), ps.end(), ps.begin(), [cumsum](double a) { return a / cumsum; });
-                // We add the derivatives of the loss w.r.t. to outputs
+                double cumsum = std::accumulate(ps.begin(), ps.end(), 0.,
+                                                [](double acc, double a) { return acc + std::exp(a); });
+                // We add the derivatives of the loss w.r.t. to outputs (p_i - y_i)
                 for (decltype(ps.size()) i = 0u; i < ps.size(); ++i) {
-                    d_node.push_back(ps[i] - prediction[i]);
+                    d_node.push_back(std::exp(ps[i]) / cumsum - prediction[i]);
                 }
-                // We compute the cross-entropy
+                // We compute the cross-entropy (the log is not computed from p_i, that may have underflowed to zero)
                 std::transform(ps.begin(), ps.end(), prediction.begin(), ps.begin(),
-                               [](double p, double y) { return std::log(p) * y; });
+                               [cumsum](double a, double y) { return (a - std::log(cumsum)) * y; });
                 // - sum log(p_i) y_i
                 value += -std::accumulate(ps.begin(), ps.end(), 0.);
                 break;
-- 
2.43.0


From dbbd73839801b494028d626fd7220390c7176915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 08/38] fix: the derivative of the ISRU nonlinearity is not NaN
 when its input is zero

---
 include/dcgp/expression_ann.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 61ee3ec..3fc053e 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -960,7 +960,7 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        d_node[node_id] = 1. / std::sqrt(1. + cumin * cumin) / (1. + cumin * cumin);
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From 52f5e325cf4497cc985023b092884297d6c588c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 09/38] fix: set_output_f refuses unknown names and is not
 interrupted by outputs connected to an input

---
 include/dcgp/expression_ann.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 3fc053e..5917515 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -529,7 +529,7 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -561,7 +561,11 @@ public:
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
-                this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
+                auto node_id = this->get()[this->get().size() - 1 - i];
+                // Output nodes may also be connected directly to an input, which has no nonlinearity
+                if (node_id >= this->get_n()) {
+                    this->set_f_gene(node_id, f_id);
+                }
             }
         }
     }
-- 
2.43.0


From e2ef37532a75fbff734dfd93990b2a5952adb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 10/38] fix: sgd refuses an empty batch size and indivisible
 batches before changing the weights

---
 include/dcgp/expression_ann.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 5917515..02e4e24 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -474,6 +474,18 @@ public:
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
+        // All batches (the last one may be smaller) must be divisible into parts, checked before any weight is updated.
+        if (parallel > 0u) {
+            for (auto size : {std::min<decltype(points.size())>(batch_size, points.size()), points.size() % batch_size}) {
+                if (size % parallel != 0u) {
+                    throw std::invalid_argument("A batch of size: " + std::to_string(size) + " cannot be divided into "
+                                                + std::to_string(parallel) + " parts.");
+                }
+            }
+        }
 
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
-- 
2.43.0


From 2b1f7985edaa80f225c93e19af6e0350f1149fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 11/38] fix: sgd refuses a NaN learning rate

---
 include/dcgp/expression_ann.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 02e4e24..b21289e 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -470,7 +470,7 @@ public:
         if (points.size() == 0) {
             throw std::invalid_argument("Data size cannot be zero");
         }
-        if (lr <= 0) {
+        if (!(lr > 0)) { // (also true if lr is a NaN)
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
-- 
2.43.0


From 7573ab49ba398e02bf1fbc68c95ea3f88daeeaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 12/38] fix: ReLu, ELU and step of vectorized duals branch on
 each component, not on the whole vector

---
 include/dcgp/wrapped_functions.hpp | 50 ++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 1ca3206..2fb08ab 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -47,6 +47,20 @@ namespace dcgp
 template <typename T>
 using f_enabler = typename std::enable_if<std::is_same<T, double>::value || is_gdual<T>::value, int>::type;
 
+namespace details
+{
+// A constant having, for each component of x, the value 1 if its constant coefficient is negative and 0 otherwise.
+inline audi::gdual_v negative_mask(const audi::gdual_v &x)
+{
+    const auto cf = x.constant_cf();
+    std::vector<double> mask(cf.begin(), cf.end());
+    for (auto &v : mask) {
+        v = v < 0. ? 1. : 0.;
+    }
+    return audi::gdual_v(mask);
+}
+} // namespace details
+
 /*--------------------------------------------------------------------------
  *                              N-ARITY FUNCTIONS
  *------------------------------------------------------------------------**/
@@ -302,10 +316,15 @@ struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
-        if (retval.constant_cf() < T(0.).constant_cf()) {
-            retval = T(0.);
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            // Each component is on its own side of zero.
+            return retval * (1. - details::negative_mask(retval));
+        } else {
+            if (retval.constant_cf() < T(0.).constant_cf()) {
+                retval = T(0.);
+            }
+            return retval;
         }
-        return retval;
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
@@ -356,10 +375,16 @@ struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
-        if (retval.constant_cf() < T(0.).constant_cf()) {
-            retval = audi::exp(retval) - T(1.);
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            // Each component is on its own side of zero.
+            auto mask = details::negative_mask(retval);
+            return retval * (1. - mask) + (audi::exp(retval * mask) - T(1.));
+        } else {
+            if (retval.constant_cf() < T(0.).constant_cf()) {
+                retval = audi::exp(retval) - T(1.);
+            }
+            return retval;
         }
-        return retval;
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
@@ -625,12 +650,17 @@ struct my_step_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
-        if (retval.constant_cf() < T(0.).constant_cf()) {
-            retval = T(0.);
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            // Each component is on its own side of zero.
+            return 1. - details::negative_mask(retval);
         } else {
-            retval = T(1.);
+            if (retval.constant_cf() < T(0.).constant_cf()) {
+                retval = T(0.);
+            } else {
+                retval = T(1.);
+            }
+            return retval;
         }
-        return retval;
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 2a6f9bd8302e1eb1221fa38612dd35169f860e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:37 +0000
Subject: [PATCH 13/38] fix: gradient and hessian of symbolic_regression are
 permuted with ten or more ephemeral constants

---
 include/dcgp/problems/symbolic_regression.hpp | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..b6b0645 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -3,6 +3,8 @@
 #include <algorithm>
 #include <functional>
 #include <numeric> // std::accumulate
+#include <string>
+#include <unordered_map>
 #include <vector>
 
 #include <audi/gdual.hpp>
@@ -206,10 +208,10 @@ public:
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
-                auto dvec = loss.get_derivative(coeff);
-                retval[i] = collapse(dvec);
+                // (by name, as the gdual keeps its symbols in lexicographic order: dc1, dc10, dc2, ...)
+                std::unordered_map<std::string, unsigned> d;
+                d[m_deph_symb[i]] = 1u;
+                retval[i] = collapse(loss.get_derivative(d));
             }
         }
         return retval;
@@ -284,18 +286,16 @@ public:
         if (!(loss.get_order() == 0u)) {
             // gradient (we cache it)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
-                auto deriv = loss.get_derivative(coeff);
-                m_cache_gradient.second[i] = collapse(deriv);
+                std::unordered_map<std::string, unsigned> d;
+                d[m_deph_symb[i]] = 1u;
+                m_cache_gradient.second[i] = collapse(loss.get_derivative(d));
             }
             // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[hs[0][i].first] = 1;
-                coeff[hs[0][i].second] += 1;
-                auto deriv = loss.get_derivative(coeff);
-                retval[0][i] = collapse(deriv);
+                std::unordered_map<std::string, unsigned> d;
+                ++d[m_deph_symb[hs[0][i].first]];
+                ++d[m_deph_symb[hs[0][i].second]];
+                retval[0][i] = collapse(loss.get_derivative(d));
             }
         }
         return retval;
-- 
2.43.0


From 98070fea610d69f135fab42f14042fda54fafa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:37 +0000
Subject: [PATCH 14/38] fix: symbolic_regression reads the first label before
 checking that there are any

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b6b0645..e43fd2b 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -570,14 +570,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 0861ce43ba0cfa256ff944e2ef46916411ee3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:37 +0000
Subject: [PATCH 15/38] fix: the fitness of symbolic_regression depends on
 earlier gradients (pdiv) and corrections through its cache

---
 include/dcgp/problems/symbolic_regression.hpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index e43fd2b..791325b 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -200,9 +200,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -277,9 +275,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -527,6 +523,8 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        // The cached fitness is not that of the corrected expression
+        m_cache_fitness.first.clear();
     }
 
     /// Unsets the phenotype correction
@@ -534,9 +532,21 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        m_cache_fitness.first.clear();
     }
 
 private:
+    // Caches a fitness value computed by the inner dcgp. This is not possible if the protected division is used, as the
+    // inner dcgp then uses the unprotected one and may get to a different value.
+    void cache_fitness(const pagmo::vector_double &x, double value) const
+    {
+        if (std::none_of(m_f.begin(), m_f.end(), [](const kernel<double> &k) { return k.get_name() == "pdiv"; })) {
+            m_cache_fitness.first = x;
+            m_cache_fitness.second.resize(get_nobj());
+            m_cache_fitness.second[0] = value;
+        }
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From 84453350a8a303839f0b9bb68b8a79023957d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 16/38] fix: symbolic_regression ignores the thread safety
 level of its phenotype corrections

---
 include/dcgp/expression.hpp                   |  9 +++++++++
 include/dcgp/problems/symbolic_regression.hpp | 16 ++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 475e0d9..2a7750e 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -893,6 +893,15 @@ public:
         m_phenotype_correction = boost::none;
     }
 
+    /// Gets the phenotype correction
+    /**
+     * @return the phenotype correction, if any is set.
+     */
+    const boost::optional<pc_fun_type> &get_phenotype_correction() const
+    {
+        return m_phenotype_correction;
+    }
+
     /// Overloaded stream operator
     /**
      * Will return a formatted string containing a human readable representation
diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 791325b..df2d9b0 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -503,10 +503,18 @@ public:
      */
     pagmo::thread_safety get_thread_safety() const
     {
-        return (*std::min_element(
-                    m_f.begin(), m_f.end(),
-                    [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
-            .get_thread_safety();
+        auto retval = (*std::min_element(
+                           m_f.begin(), m_f.end(),
+                           [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
+                          .get_thread_safety();
+        // The phenotype corrections (if any) are called too.
+        if (m_cgp.get_phenotype_correction()) {
+            retval = std::min(retval, m_cgp.get_phenotype_correction()->get_thread_safety());
+        }
+        if (m_dcgp.get_phenotype_correction()) {
+            retval = std::min(retval, m_dcgp.get_phenotype_correction()->get_thread_safety());
+        }
+        return retval;
     }
 
     /// Sets the phenotype correction
-- 
2.43.0


From 608ce12a2a6b2a10c936b9c9c79abb255c0783a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 17/38] fix: es4cgp and moes4cgp set the constants of the
 mutants to zero when learn_constants is false

---
 include/dcgp/algorithms/es4cgp.hpp   | 3 +++
 include/dcgp/algorithms/moes4cgp.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..3a57c92 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,9 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else {
+                    // ... else the mutants keep the constants of the best
+                    std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..3eace56 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,9 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else {
+                    // ... else the mutant keeps the constants of its parent
+                    std::copy(pop.get_x()[i].data(), pop.get_x()[i].data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
-- 
2.43.0


From 700db7866259417d0c69c2d880d839e666968494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 18/38] fix: mes4cgp and momes4cgp read the wrong Hessian entry
 for a single active constant other than the first

---
 include/dcgp/algorithms/mes4cgp.hpp   | 7 ++++---
 include/dcgp/algorithms/momes4cgp.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..caca50b 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,11 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
+                        // (hess[0] holds the lower triangle by rows, we need the diagonal element)
+                        const auto diag = non_zero[0] * (non_zero[0] + 3u) / 2u;
+                        if (hess[0][diag] != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(hess[0][diag])) {
                             mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][diag];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..4b5f2da 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -220,10 +220,11 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
+                        // (hess[0] holds the lower triangle by rows, we need the diagonal element)
+                        const auto diag = non_zero[0] * (non_zero[0] + 3u) / 2u;
+                        if (hess[0][diag] != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(hess[0][diag])) {
                             mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][diag];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From f5ec73201a42b96f577cd48596d14a286c9d8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 19/38] fix: moes4cgp does not serialize ftol

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 3eace56..82f2541 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -369,6 +369,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From 3883b597da3621e078b327bcdad35bc2677f8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 20/38] fix: moes4cgp and momes4cgp check ftol only in the
 generations that are logged

---
 include/dcgp/algorithms/moes4cgp.hpp  | 14 +++++++-------
 include/dcgp/algorithms/momes4cgp.hpp | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 82f2541..ed2e348 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,15 +164,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
             for (decltype(NP) i = 0u; i < NP; ++i) {
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 4b5f2da..1b3515b 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,15 +152,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
 
             // At each generation we need a copy of the population
             pagmo::population popnew(pop);
-- 
2.43.0


From 5806ec0c3e613b5e21abd92a83a89204eca4a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 21/38] fix: mes4cgp logs and prints its last generation with
 verbosity zero

---
 include/dcgp/algorithms/mes4cgp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index caca50b..80b76d3 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -290,12 +290,14 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 return pop;
             }
         }
-- 
2.43.0


From 05a229497f58af8c43028fdfea0ac63647fc51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 22/38] fix: gd4cgp accepts NaN learning rates

---
 include/dcgp/algorithms/gd4cgp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..e5fc8a3 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -55,10 +55,10 @@ public:
     gd4cgp(unsigned max_iter = 1u, double lr = 1., double lr_min = 1e-3)
         : m_max_iter(max_iter), m_lr(lr), m_lr_min(lr_min), m_verbosity(0u)
     {
-        if (lr_min <= 0.) {
+        if (!(lr_min > 0.)) {
             throw std::invalid_argument("The minimum learning rate must be strictly positive.");
         }
-        if (lr_min >= lr) {
+        if (!(lr_min < lr)) {
             throw std::invalid_argument(
                 "The minimum learning rate must be strictly smaller than the initial learning rate.");
         }
-- 
2.43.0


From a7e2b4e79a55f12ce904b41a839b1718fdb035aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 23/38] fix: gd4cgp does not serialize its selection and
 replacement policies

---
 include/dcgp/algorithms/gd4cgp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index e5fc8a3..b869bbd 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 
 #include <audi/gdual.hpp>
+#include <boost/serialization/base_object.hpp>
+#include <boost/serialization/version.hpp>
 #include <pagmo/algorithm.hpp>
 #include <pagmo/algorithms/not_population_based.hpp>
 #include <pagmo/detail/custom_comparisons.hpp>
@@ -290,6 +292,8 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        // (the selection and replacement policies)
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From e4745c6f4b2b3ae604772ca8c641b2fc09c4a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 24/38] fix: the uball5d problem divides by the sum, not the
 product, of the squares

---
 include/dcgp/gym.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..61a3395 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -89,9 +89,8 @@ inline double salutowicz2d(const std::vector<double> &x)
 inline double uball5d(const std::vector<double> &x)
 {
     return 10.
-           / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+           / (5. + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From d829e359c3395a4d6cadf7ecd933d5cc4f4256ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 25/38] fix: the sinecosine problem is 6 sin(x1) cos(x2)

---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 61a3395..c30ae0b 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -100,7 +100,7 @@ inline double ratpol3d(const std::vector<double> &x)
 
 inline double sinecosine(const std::vector<double> &x)
 {
-    return 6. * std::cos(x[0] * std::sin(x[1]));
+    return 6. * std::sin(x[0]) * std::cos(x[1]);
 }
 
 inline double ripple(const std::vector<double> &x)
-- 
2.43.0


From 1327b62c79e7d39ec029d73ce177dbc69083ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 26/38] fix: lanczos2 holds the Lanczos3 data (5 digits), not
 the Lanczos2 data (6 digits)

---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0


From 2e8b9bdc362268a8e72b13cb13b55663bf5643cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 27/38] fix: documented formulas and domains of P2, salutowicz,
 ratpol3d and misra1b

---
 dcgpy/docstrings.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dcgpy/docstrings.cpp b/dcgpy/docstrings.cpp
index d6eb8ba..fabfecc 100644
--- a/dcgpy/docstrings.cpp
+++ b/dcgpy/docstrings.cpp
@@ -533,7 +533,7 @@ European Conference on Genetic Programming. Springer, 2017.
 The functional form of such a problem is:
 
 .. math::
-   y = x^5 - \pi x^3 + \frac{\pi}{x}
+   y = x^5 - \pi x^3 + \frac{2\pi}{x}
 
 x is sampled in ten equally spaced points in [0.1,5].
 
@@ -736,7 +736,7 @@ The functional form of such a problem is:
 .. math::
    y = e^{-x} x^3 \cos x\sin x (\cos x \sin^2 x - 1)
 
-x is sampled in one hundred points uniformly sampled in [0.5,10].
+x is sampled in one hundred points uniformly sampled in [0.05,10].
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
@@ -763,7 +763,7 @@ programming." IEEE Transactions on Evolutionary Computation 13.2 (2008): 333-349
 The functional form of such a problem is:
 
 .. math::
-   y = e^{-x} x^3 \cos x_1\sin x_1 (\cos x_1 \sin^2 x_1 - 1) * (x_2 - 5)
+   y = e^{-x_1} x_1^3 \cos x_1\sin x_1 (\cos x_1 \sin^2 x_1 - 1) * (x_2 - 5)
 
 :math:`x_1` and :math:`x_2` are sampled in 601 randomly selected points in [0.05,10]x[0.05,10].
 
@@ -824,9 +824,9 @@ programming." IEEE Transactions on Evolutionary Computation 13.2 (2008): 333-349
 The functional form of such a problem is:
 
 .. math::
-   y = 30 \frac{(x_1 - 3)(x_3 - 1)}{x_2^2(x_1-10)}
+   y = 30 \frac{(x_1 - 1)(x_3 - 1)}{x_2^2(x_1-10)}
 
-:math:`x_1`, :math:`x_2`, :math:`x_3` are sampled in 300 randomly selected points in [0.05,2] x [1,2].
+:math:`x_1`, :math:`x_2`, :math:`x_3` are sampled in 300 randomly selected points in [0.05,2] x [1,2] x [0.05,2].
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
@@ -1112,7 +1112,7 @@ available. (see https://www.itl.nist.gov/div898/strd/nls/data/misra1b.shtml)
 A good model for such a problem is:
 
 .. math::
-   y = \beta_1 \left( 1 - \frac 1{\left(1 + \beta_1 \frac x2\right)^2}\right) + \epsilon
+   y = \beta_1 \left( 1 - \frac 1{\left(1 + \beta_2 \frac x2\right)^2}\right) + \epsilon
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
-- 
2.43.0


From de2c46ff49ce40009dbbb2484362713c2c22f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 28/38] fix: expression_ann weights and biases accessed by an
 index out of range are refused

---
 include/dcgp/expression_ann.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index b21289e..08c2399 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -676,6 +676,9 @@ public:
      */
     void set_weight(std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         m_weights[idx] = w;
     }
 
@@ -730,6 +733,9 @@ public:
      */
     double get_weight(std::vector<double>::size_type idx) const
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         return m_weights[idx];
     }
 
@@ -777,6 +783,9 @@ public:
      */
     void set_bias(typename std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         m_biases[idx] = w;
     }
 
@@ -805,6 +814,9 @@ public:
      */
     double get_bias(typename std::vector<double>::size_type idx) const
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         return m_biases[idx];
     }
 
-- 
2.43.0


From d8889be57092cfde0cd5ac8c40377b081c9279b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 29/38] fix: expression_ann.set_bias and get_bias in Python
 take a node id, as documented

---
 dcgpy/expose_expressions.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dcgpy/expose_expressions.cpp b/dcgpy/expose_expressions.cpp
index 8c23c8d..a40c8ea 100644
--- a/dcgpy/expose_expressions.cpp
+++ b/dcgpy/expose_expressions.cpp
@@ -200,10 +200,25 @@ void expose_expression_ann(const py::module &m)
         .def(
             "__call__", [](const expression_ann &instance, const std::vector<std::string> &v) { return instance(v); },
             "Call operator from strings")
-        .def("set_bias", &expression_ann::set_bias, expression_ann_set_bias_doc().c_str(), py::arg("node_id"),
-             py::arg("bias"))
+        .def(
+            "set_bias",
+            [](expression_ann &instance, unsigned node_id, double bias) {
+                if (node_id < instance.get_n()) {
+                    throw std::invalid_argument("Requested node does not have a bias (e.g. input nodes)");
+                }
+                instance.set_bias(node_id - instance.get_n(), bias);
+            },
+            expression_ann_set_bias_doc().c_str(), py::arg("node_id"), py::arg("bias"))
         .def("set_biases", &expression_ann::set_biases, expression_ann_set_biases_doc().c_str(), py::arg("biases"))
-        .def("get_bias", &expression_ann::get_bias, expression_ann_get_bias_doc().c_str(), py::arg("node_id"))
+        .def(
+            "get_bias",
+            [](const expression_ann &instance, unsigned node_id) {
+                if (node_id < instance.get_n()) {
+                    throw std::invalid_argument("Requested node does not have a bias (e.g. input nodes)");
+                }
+                return instance.get_bias(node_id - instance.get_n());
+            },
+            expression_ann_get_bias_doc().c_str(), py::arg("node_id"))
         .def("get_biases", &expression_ann::get_biases, "Gets all biases")
         .def(
             "set_weight", [](expression_ann &instance, unsigned idx, double w) { instance.set_weight(idx, w); },
-- 
2.43.0


From 323d8af1ce6f7c5b936184a8e0c9c5fa7434eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 30/38] fix: subscripting a kernel_set out of range in Python
 raises IndexError

---
 dcgpy/expose_kernels.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcgpy/expose_kernels.cpp b/dcgpy/expose_kernels.cpp
index 6b3f84c..7168171 100644
--- a/dcgpy/expose_kernels.cpp
+++ b/dcgpy/expose_kernels.cpp
@@ -184,6 +184,9 @@ void expose_kernel(const py::module &m, const std::string &type)
 template <typename T>
 kernel<T> wrap_operator(const kernel_set<T> &ks, typename std::vector<dcgp::kernel<T>>::size_type idx)
 {
+    if (idx >= ks().size()) {
+        throw py::index_error("kernel index out of range");
+    }
     return ks[idx];
 }
 
-- 
2.43.0


From c9261d8af7822fbc32466c94670ebc5dc2272bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 31/38] fix: mutate_random in Python has its documented default

---
 dcgpy/expose_expressions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcgpy/expose_expressions.cpp b/dcgpy/expose_expressions.cpp
index a40c8ea..e17476e 100644
--- a/dcgpy/expose_expressions.cpp
+++ b/dcgpy/expose_expressions.cpp
@@ -92,7 +92,7 @@ void expose_expression(const py::module &m, std::string type)
             "mutate", [](expression<T> &in, const std::vector<unsigned> &idxs) { return in.mutate(idxs); },
             expression_mutate_doc().c_str(), py::arg("idxs"))
         .def("mutate_random", &expression<T>::mutate_random,
-             "mutate_random(N = 1)\nMutates N randomly selected genes within its allowed bounds", py::arg("N"))
+             "mutate_random(N = 1)\nMutates N randomly selected genes within its allowed bounds", py::arg("N") = 1)
         .def("mutate_active", &expression<T>::mutate_active,
              "mutate_active(N = 1)\nMutates N randomly selected active genes within their allowed bounds",
              py::arg("N") = 1)
-- 
2.43.0


From 17b82173d3da03d85f026ae1f94ae401f903e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 32/38] fix: simplify substitutes weights that are gdual_double

---
 dcgpy/_simplify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcgpy/_simplify.py b/dcgpy/_simplify.py
index e061a32..59bf178 100644
--- a/dcgpy/_simplify.py
+++ b/dcgpy/_simplify.py
@@ -76,7 +76,9 @@ def _sympy_simplify(self, in_sym, subs_weights = False, erc = []):
     # substitute the weights symbols with their values
     if subs_weights:
         wl = self.get_weights()
-        if type(wl[0]) == pyaudi.core.gdual_vdouble:
+        if type(wl[0]) == pyaudi.core.gdual_double:
+            wl = [w.constant_cf for w in wl]
+        elif type(wl[0]) == pyaudi.core.gdual_vdouble:
             wl = [w.constant_cf[0] for w in wl]
         for i in range(m):
             for j in range(r * c):
-- 
2.43.0


From fbafbab32b5c47ce5254e472c4f8adc302dfb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 33/38] fix: simplify works on expressions with ephemeral
 constants

---
 dcgpy/_simplify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dcgpy/_simplify.py b/dcgpy/_simplify.py
index 59bf178..02c084b 100644
--- a/dcgpy/_simplify.py
+++ b/dcgpy/_simplify.py
@@ -35,7 +35,10 @@ def _sympy_simplify(self, in_sym, subs_weights = False, erc = []):
     n = self.get_n()
     m = self.get_m()
 
-    if len(in_sym) != n:
+    # the ephemeral constants follow the inputs and have their own symbols
+    eph_symb = self.eph_symb
+
+    if len(in_sym) != n - len(eph_symb):
         raise ValueError("The length of in_sym must match the number of inputs")
 
     if len(erc) > n:
@@ -56,6 +59,7 @@ def _sympy_simplify(self, in_sym, subs_weights = False, erc = []):
     # define symbols
     pe = []
     exv = self(in_sym)
+    in_sym = list(in_sym) + eph_symb
     ns = {}
     for i in range(n):
         ns[in_sym[i]] = sympy.Symbol(in_sym[i], real = True)
-- 
2.43.0


From 16e963b347eaed5f718e6db4214eb4d3f6e0fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 34/38] fix: expression_ann.visualize draws networks with one
 row and one input

---
 dcgpy/_visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcgpy/_visualize.py b/dcgpy/_visualize.py
index 68a8360..cc7644c 100644
--- a/dcgpy/_visualize.py
+++ b/dcgpy/_visualize.py
@@ -61,7 +61,7 @@ def _dcgpann_visualize(self, show_connections = True, fill_color = 'w', active_c
     x = self.get()
 
     # Grid parameters: dr is the separation between rows and dc between columns. radius is the neuron radius
-    dr = 1./(max(r,n)-1)
+    dr = 1./(max(r,n)-1) if max(r,n) > 1 else 1.
     dc = 1./(c-1) if c > 1 else 1.
 
     radius = 1. / max(n,r,c) / 4.
-- 
2.43.0


From 382274ebed621698ba41b8e43262baf81b9344fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 35/38] fix: expression_ann.visualize draws networks whose
 weights are all zero

---
 dcgpy/_visualize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcgpy/_visualize.py b/dcgpy/_visualize.py
index cc7644c..4c22666 100644
--- a/dcgpy/_visualize.py
+++ b/dcgpy/_visualize.py
@@ -97,7 +97,8 @@ def _dcgpann_visualize(self, show_connections = True, fill_color = 'w', active_c
     # ------------------------------_HERE WE PLOT -----------------------------------------------
     if show_connections:
         # We loop over all cartesian nodes and plot intranodes connections
-        weight_normalization = max(np.abs(self.get_weights()))
+        # (with all weights zero there is nothing to normalize)
+        weight_normalization = max(np.abs(self.get_weights())) or 1.
         for node_id in range(n, n+r*c):
             start = gene[node_id]
             connections = x[start+1:start+1+self.get_arity(node_id)]
-- 
2.43.0


From 0e088747ce6a956aed6cc725465f94bf745c2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 36/38] fix: pdiv with a single argument read past its inputs

---
 include/dcgp/wrapped_functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 2fb08ab..14ac001 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -168,9 +168,9 @@ struct my_pdiv_func {
     T operator()(const std::vector<T> &in) const
     {
         T retval(in[0]);
-        T tmpval(in[1]);
+        T tmpval(1.);
 
-        for (auto i = 2u; i < in.size(); ++i) {
+        for (auto i = 1u; i < in.size(); ++i) {
             tmpval *= in[i];
         }
 
-- 
2.43.0


From 8331b0d55f166e5bd1c3e0cffa1cf749e6140936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 37/38] fix: gd4cgp() in Python had a default lr_min that the
 constructor refuses

---
 dcgpy/expose_symbolic_regression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcgpy/expose_symbolic_regression.cpp b/dcgpy/expose_symbolic_regression.cpp
index 6ae131a..65ec0bf 100644
--- a/dcgpy/expose_symbolic_regression.cpp
+++ b/dcgpy/expose_symbolic_regression.cpp
@@ -172,7 +172,7 @@ void expose_symbolic_regression(py::module &m)
     // GD-4CGP (Gradient Descent for Cartesian Genetic Programming)
     py::class_<dcgp::gd4cgp> gd4cgp_(m, "gd4cgp", gd4cgp_doc().c_str());
     gd4cgp_
-        .def(py::init<unsigned, double, double>(), py::arg("max_iter") = 1u, py::arg("lr") = 1., py::arg("lr_min") = 0.)
+        .def(py::init<unsigned, double, double>(), py::arg("max_iter") = 1u, py::arg("lr") = 1., py::arg("lr_min") = 1e-3)
         .def("evolve", &dcgp::gd4cgp::evolve)
         .def("set_verbosity", &dcgp::gd4cgp::set_verbosity)
         .def("get_name", &dcgp::gd4cgp::get_name)
-- 
2.43.0


From e2bb645352b22334d360bf645f1e8a68535327aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 38/38] fix: documented defaults of the algorithms in Python
 were not those of the constructors

---
 dcgpy/docstrings.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dcgpy/docstrings.cpp b/dcgpy/docstrings.cpp
index fabfecc..0fc8410 100644
--- a/dcgpy/docstrings.cpp
+++ b/dcgpy/docstrings.cpp
@@ -1260,7 +1260,7 @@ Returns:
 
 std::string es4cgp_doc()
 {
-    return R"(es4cgp(gen = 1, max_mut = 4, ftol = 0, learn_constants = False, seed = random)
+    return R"(es4cgp(gen = 1, max_mut = 4, ftol = 0, learn_constants = True, seed = random)
 
 Evolutionary strategies are popular global optimization meta-heuristics essentially based
 on the following simple pseudo-algorithm:
@@ -1359,7 +1359,7 @@ See also the docs of the relevant C++ method :cpp:func:`dcgp::es4cgp::get_log()`
 
 std::string moes4cgp_doc()
 {
-    return R"(moes4cgp(gen = 1, max_mut = 4, learn_constants = False, seed = random)
+    return R"(moes4cgp(gen = 1, max_mut = 4, ftol = 0, learn_constants = True, seed = random)
 
 Multi-Objective Evolutionary strategies are able to trade off, in symbolic regression tasks, the 
 model complexity with its loss. This particular implementation follows the simple pseudo-code:
@@ -1465,7 +1465,7 @@ The gradient descent will only modify the continuous part of the chromosome, lea
 actual model) unchanged.
 
 Args:
-    gen (``int``): maximum number of iterations.
+    max_iter (``int``): maximum number of iterations.
     lr (``float``): initial learning rate (or step size).
     lr_min (``float``): stopping criteria on the minimum value for the learning rate (or step size).
 
@@ -1522,7 +1522,7 @@ See also the docs of the relevant C++ method :cpp:func:`dcgp::gd4cgp::get_log()`
 
 std::string mes4cgp_doc()
 {
-    return R"(mes4cgp(gen = 1, max_mut = 1, ftol = 1e-4, learn_constants = False, seed = random)
+    return R"(mes4cgp(gen = 1, max_mut = 4, ftol = 0, seed = random)
 
 The term Memetic is widely used, in the context of meta-heuristic search, to indicate a synergy between any
 population-based approach with local improvement procedures. The resulting algorithms are also referred to, in the
@@ -1616,7 +1616,7 @@ See also the docs of the relevant C++ method :cpp:func:`dcgp::mes4cgp::get_log()
 
 std::string momes4cgp_doc()
 {
-    return R"(momes4cgp(gen = 1, max_mut = 1, seed = random)
+    return R"(momes4cgp(gen = 1, max_mut = 4, ftol = 0, seed = random)
 
 Symbolic regression tasks seek for good mathematical models to represent input data. By increasing
 the model complexity it is always (theoretically) possible to find almost perfect fits of any input data.
-- 
2.43.0


From 00f4b491605dd93942adc0cb7505e30ea2e60d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 01/24] fix: visit missing off-diagonal hessian elements in
 unary and binary

In the non-skipping mode the iterator on the full hessian jumped over the
elements not stored in the map, so that for example the mixed derivative of
exp(a + b) was lost.
---
 uncertainties/internal/hessgrad.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..7cbdd88 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,18 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // visit all the pairs, the out of diagonal follows
+                        if (tri != triend && tri->first == IdPair {diagmin->first, diagmax->first}) {
+                            ++tri;
+                        }
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
@@ -461,7 +473,7 @@ namespace uncertainties {
                     if (tri == triend || tri->first.first > diagmin->first) {
                         ++diagmin;
                         diagmax = diagmin;
-                    } else if (skipmissing) {
+                    } else {
                         for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
                         assert(diagmax != diagend && diagmax->first == tri->first.second);
                     }
-- 
2.43.0


From ed7e5eb51cce7dceac0c50f8151565f5e9937453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 02/24] fix: UReal::grad returned 0 for variables stored as
 independent

---
 uncertainties/ureal.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..f7bbbbf 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -574,7 +574,7 @@ namespace uncertainties {
         \throw std::invalid_argument if `x` is not independent or if it has
         no uncertainty information.
         */
-        Real grad(const UReal<Real> &x) {
+        Real grad(const UReal<Real> &x) const {
             if (not (x.id > 0 or x.sigma.size() == 1)) {
                 std::ostringstream ss;
                 ss << "uncertainties::UReal::grad: ";
@@ -582,9 +582,11 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
-            if (it != this->sigma.end()) {
-                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+            if (this->id == xid) {
+                return this->sdev / xg;
+            } else if (it != this->sigma.end()) {
                 return it->second / xg;
             } else {
                 return 0;
-- 
2.43.0


From 9b4a70aef9c77c4273ee32e08a2a59c1d0bab0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 03/24] fix: sign of the derivatives of atan2 on UReal

---
 uncertainties/math.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..694a0a6 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,10 +171,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
-        return binary(x, y, atan2(x.n(), y.n()), dx, dy);
+        const Real xxyy = x.n() * x.n() + y.n() * y.n();
+        return binary(x, y, atan2(x.n(), y.n()), y.n() / xxyy, -x.n() / xxyy);
     }
     template<typename Real>
     UReal<Real> sinh(const UReal<Real> &x) {
-- 
2.43.0


From 163704bc4a6f86a8982a32be8572516c8b82daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 04/24] fix: derivative of cbrt of a negative UReal was nan

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 694a0a6..7cbf6cd 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real cbrtx = cbrt(x.n());
+        return unary(x, cbrtx, Real(1) / (3 * cbrtx * cbrtx));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From 9fb842e9c5c4bbd25a6c0ec2d6af7ba44690db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/24] fix: sign of negative numbers formatted without
 uncertainty

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..cbf86c7 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -143,7 +143,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return (x < 0 ? "-" : "") + m;
         }
     }
     
-- 
2.43.0


From 52cfa48bafc936e8d4258184765be2e3be78ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 06/24] fix: io.hpp did not compile if included after math.hpp

pow was used before the using declaration.
---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index cbf86c7..1f25848 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -97,13 +97,13 @@ namespace uncertainties {
         
         template<typename Real>
         int ndigits(Real *const x, const float n) {
+            using std::pow;
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From 3ad51c72f5999be8e1fd3d551f019e03ee442ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 07/24] fix: scale of the rounded uncertainty when choosing the
 number of digits

5 +/- 9.99 was formatted as "5 +/- 100" with errdig=2.5.
---
 uncertainties/io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 1f25848..d27143f 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -100,7 +100,9 @@ namespace uncertainties {
             using std::pow;
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            const Real m = int_mantissa(*x, ndig, xexp);
+            const int mexp = xexp - (ndig - 1);
+            const Real rounded_x = mexp >= 0 ? m * pow(Real(10), mexp) : m / pow(Real(10), -mexp);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From fae47f957c7fa3b6b32c3cd2d329c29cf457a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 08/24] fix: alignment of the mean with the uncertainty when
 rounding adds a digit

---
 uncertainties/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index d27143f..adad115 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -167,8 +167,14 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int muexp_before = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp != muexp_before) {
+            // the rounding added a digit, keep it to stay aligned with s
+            mundig += 1;
+            mumant.push_back('0');
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From a27a7d843514d5910bdd6c439b330adb0b97bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 09/24] fix: isfinite and isnormal did not compile on UReal2

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 7cbf6cd..d1e44df 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -532,7 +532,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -540,7 +540,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From 76894528bf7c9a382cd9803343e57ccf19470e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 10/24] fix: derivatives of pow were nan when the mean of the
 base is 0

---
 uncertainties/math.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index d1e44df..8f83789 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -114,7 +114,8 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        const Real dx = y.n() != 0 ? Real(y.n() * pow(x.n(), y.n() - 1)) : Real(0);
+        return binary(x, y, p, dx, p * log(x.n()));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -345,16 +346,18 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
+        const Real x2y1 = pow(xn, yn - 1);
+        const Real c = yn * (yn - 1);
+        // the coefficients are checked because the power may diverge in zero
+        const Real dfdx = yn != 0 ? Real(yn * x2y1) : Real(0);
+        const Real ddfdxdx = c != 0 ? Real(c * pow(xn, yn - 2)) : Real(0);
         const Real x2ylogx = x2y * logx;
         return binary(x, y, x2y,
-                      x2yixy,
+                      dfdx,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      ddfdxdx,
                       x2ylogx * logx,
-                      x2yix + x2yixy * logx);
+                      x2y1 + dfdx * logx);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> sqrt(const UReal2<Real, prop> &x) {
-- 
2.43.0


From bc1ce7189335271f1dc7d10718c5c367bbb451e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 11/24] fix: mean of the ratio of two UReals

It was computed with the reciprocal of the denominator, which can overflow
even if the ratio does not.
---
 uncertainties/ureal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index f7bbbbf..0ec743b 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -791,7 +791,7 @@ namespace uncertainties {
         }
         friend UReal<Real> operator/(const UReal<Real> &x, const UReal<Real> &y) {
             const Real inv_y = Real(1) / y.mu;
-            const Real mu = x.mu * inv_y;
+            const Real mu = x.mu / y.mu;
             return binary(x, y, mu, inv_y, -mu * inv_y);
         }
         const UReal<Real> &operator+=(const UReal<Real> &x) {
@@ -805,7 +805,7 @@ namespace uncertainties {
         }
         const UReal<Real> &operator/=(const UReal<Real> &x) {
             const Real inv_x = Real(1) / x.mu;
-            const Real mu = this->mu * inv_x;
+            const Real mu = this->mu / x.mu;
             return binary_assign(x, mu, inv_x, -mu * inv_x);
         }
     };
-- 
2.43.0


From e5b716092f6f55154d55e4dcfd3a02910a2a8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 12/24] fix: formatting of numbers close to the smallest
 representable one

The power of 10 overflowed: assertion failure or infinite loop.
---
 uncertainties/io.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index adad115..91c017e 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -60,7 +60,14 @@ namespace uncertainties {
         Real int_mantissa(const Real &x, const int n, const int e) {
             using std::round;
             using std::pow;
-            return round(x * pow(Real(10), n - 1 - e));
+            using std::isfinite;
+            const int p = n - 1 - e;
+            const Real scale = pow(Real(10), p);
+            if (not isfinite(scale)) {
+                // the scaled number can be representable even if its scale is not
+                return round(x * pow(Real(10), p / 2) * pow(Real(10), p - p / 2));
+            }
+            return round(x * scale);
         }
         
         template<typename Real>
-- 
2.43.0


From 004ceb25d5006d28e858b2968738430e2bb52b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 13/24] fix: binary_assign on UReal2 gave wrong results

It read derivatives of the first operand after having modified them.
---
 uncertainties/ureal2.hpp | 77 ++--------------------------------------
 1 file changed, 3 insertions(+), 74 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..3c459bc 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -909,80 +909,9 @@ namespace uncertainties {
             const Real &dfdx, const Real &dfdy,
             const Real &ddfdxdx, const Real &ddfdydy, const Real &ddfdxdy
         ) {
-            // THIS FUNCTION IS NOT FINISHED! It modifies x and then reads
-            // it again... how do I do this?
-            // O(n) fix: the first part walks in order the hessian. It never
-            // happens that a hessian element is required to compute the hessian
-            // element at a different coordinate. So I can save x's gradient
-            // beforehand in an array.
-            
-            x.mu = fxy;
-
-            constexpr Id maxid = std::numeric_limits<Id>::max();
-            const std::pair<Id, Id> pmaxid {maxid, maxid};
-
-            const Real hddfdxdx = ddfdxdx / 2;
-            const Real hddfdydy = ddfdydy / 2;
-            const Real hddfdxdy = ddfdxdy / 2;
-        
-            ConstHessIt itx = x.hg.chbegin(hddfdxdx == 0);
-            const ConstHessIt xend = x.hg.chend();
-            ConstHessIt ity = y.hg.chbegin(hddfdydy == 0);
-            const ConstHessIt yend = y.hg.chend();
-            
-            while (itx != xend or ity != yend) {
-                const std::pair<Id, Id> idx = itx != xend ? std::make_pair(itx.id1(), itx.id2()) : pmaxid;
-                const std::pair<Id, Id> idy = ity != yend ? std::make_pair(ity.id1(), ity.id2()) : pmaxid;
-                
-                Real *hhess;
-                Diag *diag;
-                
-                if (idx <= idy) {
-                    hhess = &x.hg.hhess(idx.first, idx.second);
-                    *hhess += hddfdxdx * itx.diag1().grad * itx.diag2().grad;
-                    *hhess += dfdx * (*itx);
-                    if (idx.first == idx.second) {
-                        diag = &x.hg.diag(idx.first);
-                        diag->mom = itx.diag1().mom;
-                        diag->grad += dfdx * itx.diag1().grad;
-                    }
-                }
-                
-                if (idy <= idx) {
-                    if (idx != idy) {
-                        hhess = &x.hg.hhess(idy.first, idy.second);
-                        if (idy.first == idy.second) {
-                            diag = &x.hg.diag(idy.first);
-                            diag->mom = ity.diag1().mom;
-                        }
-                    }
-                    *hhess += hddfdydy * ity.diag1().grad * ity.diag2().grad;
-                    *hhess += dfdy * (*ity);
-                    if (idy.first == idy.second) {
-                        diag->grad += dfdy * ity.diag1().grad;
-                    }
-                }
-                
-                if (idx <= idy) ++itx;
-                if (idy <= idx) ++ity;
-            }
-            
-            // I shall consider the following code a very inefficient patch.
-            if (hddfdxdy != 0) {
-                const ConstDiagIt end = x.hg.cdend();
-                ConstDiagIt iti, itj;
-                for (iti = x.hg.cdbegin(); iti != end; ++iti) {
-                    for (itj = iti; itj != end; ++itj) {
-                        const Id idi = iti->first;
-                        const Id idj = itj->first;
-                        const Real &dix = x.hg.diag_get(idi).grad;
-                        const Real &djx = x.hg.diag_get(idj).grad;
-                        const Real &diy = y.hg.diag_get(idi).grad;
-                        const Real &djy = y.hg.diag_get(idj).grad;
-                        x.hg.hhess(idi, idj) += hddfdxdy * (dix * djy + djx * diy);
-                    }
-                }
-            }
+            // The derivatives of x are needed up to the end of the computation,
+            // so the result can not be written directly in x.
+            x = binary(x, y, fxy, dfdx, dfdy, ddfdxdx, ddfdydy, ddfdxdy);
         }
         
         friend inline const UReal2<Real, prop> &
-- 
2.43.0


From 8e103a2fa2378eed090ea8ecbf996be892254f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 14/24] fix: cov_matrix and corr_matrix did not compile with
 pointers as iterators

---
 uncertainties/stat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/stat.hpp b/uncertainties/stat.hpp
index 1fb13bc..0356144 100644
--- a/uncertainties/stat.hpp
+++ b/uncertainties/stat.hpp
@@ -114,7 +114,7 @@ namespace uncertainties {
     */
     template<typename InputIt, typename OutputIt>
     OutputIt cov_matrix(InputIt begin, InputIt end, OutputIt matrix) {
-        using Type = typename InputIt::value_type;
+        using Type = typename std::iterator_traits<InputIt>::value_type;
         return internal::outer(begin, end, matrix, [](const Type &x, const Type &y) {
             return cov(x, y);
         });
@@ -147,7 +147,7 @@ namespace uncertainties {
     */
     template<typename InputIt, typename OutputIt>
     OutputIt corr_matrix(InputIt begin, InputIt end, OutputIt matrix) {
-        using Type = typename InputIt::value_type;
+        using Type = typename std::iterator_traits<InputIt>::value_type;
         return internal::outer(begin, end, matrix, [](const Type &x, const Type &y) {
             return corr(x, y);
         });
-- 
2.43.0


From 37647d2543c9f0683485d5ad07c552b596ab21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 15/24] fix: fmod truncated the quotient in double precision
 with long double

---
 uncertainties/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 8f83789..0f2d700 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -47,6 +47,7 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> fmod(const UReal<Real> &x, const UReal<Real> &y) {
         using std::fmod;
+        using std::trunc;
         return binary(x, y, fmod(x.n(), y.n()), 1, -trunc(x.n() / y.n()));
     }
     template<typename Real>
@@ -257,6 +258,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmod(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
         using std::fmod;
+        using std::trunc;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
         return binary(x, y, fmod(xn, yn), 1, -trunc(xn / yn), 0, 0, 0);
-- 
2.43.0


From 0da6b62ed65a3cb00b8ccfc9e209d2845e0c413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 16/24] fix: uniform accepted a reversed interval when the
 width underflows

---
 uncertainties/distr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uncertainties/distr.hpp b/uncertainties/distr.hpp
index ae3f71d..1883194 100644
--- a/uncertainties/distr.hpp
+++ b/uncertainties/distr.hpp
@@ -153,6 +153,12 @@ namespace uncertainties {
         Number uniform(const typename Number::real_type &left,
                        const typename Number::real_type &right) {
             using Real = typename Number::real_type;
+            if (left > right) {
+                std::ostringstream ss;
+                ss << "uncertainties::distr::uniform: ";
+                ss << "left = " << left << " > right = " << right;
+                throw std::invalid_argument(ss.str());
+            }
             static const std::array<Real, 6> std_moments {
                 0,
                 3 * 3 / Real(5),
-- 
2.43.0


From 2bd4280ba55317518e3309c276521024215f5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 17/24] fix: assertion failure formatting 1e23 +/- 0.1

---
 uncertainties/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 91c017e..c952fe4 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -124,7 +124,8 @@ namespace uncertainties {
         std::string mantissa(const Real &x, const int n, int *const e) {
             const Real m = int_mantissa(x, n, *e);
             std::string s = int_mantissa_string(m);
-            assert(s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
+            // one digit less: x is less than a power of 10 by a rounding error
+            assert(s.size() == n or s.size() == n + 1 or s.size() + 1 == n or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
                 s.pop_back();
-- 
2.43.0


From 226b3fcb4c94e907a9fe3e403ccdee66793a45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 18/24] fix: endless loop formatting 1e300 +/- 1e-10

---
 uncertainties/io.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index c952fe4..5425421 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -122,8 +122,15 @@ namespace uncertainties {
     
         template<typename Real>
         std::string mantissa(const Real &x, const int n, int *const e) {
-            const Real m = int_mantissa(x, n, *e);
+            using std::isfinite;
+            Real m = int_mantissa(x, n, *e);
+            int zeros = 0;
+            while (not isfinite(m)) {
+                // there are more digits than in the largest number
+                m = int_mantissa(x, n - ++zeros, *e);
+            }
             std::string s = int_mantissa_string(m);
+            s.append(zeros, '0');
             // one digit less: x is less than a power of 10 by a rounding error
             assert(s.size() == n or s.size() == n + 1 or s.size() + 1 == n or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
-- 
2.43.0


From 1d2d28efc18a19dd1218213180c89c299b8e8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 19/24] fix: ids wrapped around after 2^31 variables

The variables created later had ids already in use or invalid, and lost
their uncertainty.
---
 uncertainties/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.hpp b/uncertainties/core.hpp
index 196a4ae..562386e 100644
--- a/uncertainties/core.hpp
+++ b/uncertainties/core.hpp
@@ -32,7 +32,7 @@ namespace uncertainties {
     /*!
     \brief Type of independent variables ids.
     */
-    using Id = int; // must be signed
+    using Id = long long; // must be signed
     
     /*!
     \brief Constant returned by `UReal::indepid` if the variable is dependent.
-- 
2.43.0


From dc6aa1cb6b58af6f62d4cf9f67872d95e9499fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 20/24] fix: derivatives of the division of UReal2 underflowed
 for large denominators

---
 uncertainties/ureal2.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 3c459bc..c07a76e 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -953,11 +953,11 @@ namespace uncertainties {
             const Real xn = x.first_order_n();
             const Real yn = y.first_order_n();
             const Real invy = 1 / yn;
-            const Real invy2 = invy * invy;
+            const Real xinvy = xn / yn;
             return binary(x, y,
-                          xn / yn,
-                          invy, -xn * invy2,
-                          0, 2 * xn * invy2 * invy, -invy2);
+                          xinvy,
+                          invy, -xinvy * invy,
+                          0, 2 * xinvy * invy * invy, -invy * invy);
         }
 
         template<typename Predicate>
-- 
2.43.0


From 68a4f784abd9fba8166f9261d506d84ef8db494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 21/24] fix: derivatives of atan2 overflowed or underflowed

---
 uncertainties/math.hpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 0f2d700..a07171f 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -173,8 +173,15 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real xxyy = x.n() * x.n() + y.n() * y.n();
-        return binary(x, y, atan2(x.n(), y.n()), y.n() / xxyy, -x.n() / xxyy);
+        using std::abs;
+        const Real &xn = x.n();
+        const Real &yn = y.n();
+        // the squares of xn, yn may overflow or underflow, so use their ratio
+        const bool c = abs(xn) > abs(yn);
+        const Real t = c ? Real(yn / xn) : Real(xn / yn);
+        const Real d = 1 / ((1 + t * t) * (c ? xn : yn));
+        const Real td = t * d;
+        return binary(x, y, atan2(xn, yn), c ? td : d, c ? Real(-d) : Real(-td));
     }
     template<typename Real>
     UReal<Real> sinh(const UReal<Real> &x) {
@@ -446,19 +453,19 @@ namespace uncertainties {
         using std::atan2;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        const Real x2 = xn * xn;
-        const Real y2 = yn * yn;
-        const Real xxyy = x2 + y2;
-        const Real ixxyy = 1 / xxyy;
-        const Real xixxyy = xn * ixxyy;
-        const Real yixxyy = yn * ixxyy;
-        const Real xy2ixxyy2 = 2 * xixxyy * yixxyy;
+        // the squares of xn, yn may overflow or underflow, so use their ratio
+        using std::abs;
+        const bool c = abs(xn) > abs(yn);
+        const Real t = c ? Real(yn / xn) : Real(xn / yn);
+        const Real d = 1 / ((1 + t * t) * (c ? xn : yn));
+        const Real td = t * d;
+        const Real dd = (1 - t * t) * d * d;
         return binary(x, y, atan2(xn, yn),
-                      yixxyy,
-                      -xixxyy,
-                      -xy2ixxyy2,
-                      xy2ixxyy2,
-                      (x2 - y2) * ixxyy * ixxyy);
+                      c ? td : d,
+                      c ? Real(-d) : Real(-td),
+                      -2 * td * d,
+                      2 * td * d,
+                      c ? dd : Real(-dd));
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> sinh(const UReal2<Real, prop> &x) {
-- 
2.43.0


From 985bd3bb172df52185cc281a8c825e199be6f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 22/24] fix: derivatives of asinh and acosh were zero for large
 arguments

---
 uncertainties/math.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index a07171f..a5aa788 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -204,14 +204,14 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> asinh(const UReal<Real> &x) {
         using std::asinh;
-        using std::sqrt;
-        return unary(x, asinh(x.n()), Real(1) / sqrt(x.n() * x.n() + 1));
+        using std::hypot;
+        return unary(x, asinh(x.n()), Real(1) / hypot(Real(1), x.n()));
     }
     template<typename Real>
     UReal<Real> acosh(const UReal<Real> &x) {
         using std::acosh;
         using std::sqrt;
-        return unary(x, acosh(x.n()), Real(1) / sqrt(x.n() * x.n() - 1));
+        return unary(x, acosh(x.n()), Real(1) / (sqrt(x.n() - 1) * sqrt(x.n() + 1)));
     }
     template<typename Real>
     UReal<Real> atanh(const UReal<Real> &x) {
@@ -494,20 +494,18 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> asinh(const UReal2<Real, prop> &x) {
         using std::asinh;
-        using std::sqrt;
+        using std::hypot;
         const Real &xn = x.first_order_n();
-        const Real i1xx = 1 / (1 + xn * xn);
-        const Real sqrti1xx = sqrt(i1xx);
-        return unary(x, asinh(xn), sqrti1xx, -xn * i1xx * sqrti1xx);
+        const Real isqrt1xx = 1 / hypot(Real(1), xn);
+        return unary(x, asinh(xn), isqrt1xx, -xn * isqrt1xx * isqrt1xx * isqrt1xx);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> acosh(const UReal2<Real, prop> &x) {
         using std::acosh;
         using std::sqrt;
         const Real &xn = x.first_order_n();
-        const Real ixx1 = 1 / (xn * xn - 1);
-        const Real sqrtixx1 = sqrt(ixx1);
-        return unary(x, acosh(xn), sqrtixx1, -xn * ixx1 * sqrtixx1);
+        const Real isqrtxx1 = 1 / (sqrt(xn - 1) * sqrt(xn + 1));
+        return unary(x, acosh(xn), isqrtxx1, -xn * isqrtxx1 * isqrtxx1 * isqrtxx1);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> atanh(const UReal2<Real, prop> &x) {
-- 
2.43.0


From af2c89e895be3c1317f72a796e78fe6bb4c65453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 23/24] fix: moments of ordinary distributions were rejected,
 and impossible ones accepted, with a large or small variance

---
 uncertainties/internal/checkmoments.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/uncertainties/internal/checkmoments.hpp b/uncertainties/internal/checkmoments.hpp
index 061f91f..f5fd509 100644
--- a/uncertainties/internal/checkmoments.hpp
+++ b/uncertainties/internal/checkmoments.hpp
@@ -95,10 +95,31 @@ namespace uncertainties {
             static_assert(n == 6 or n == 7, "n != 6 and 7");
             HKMatrix<Real> M;
             constexpr int offset = n - 6;
+            std::array<Real, n> mom = moments;
+            if (n == 7) {
+                // Change unit of measure such that the variance is not far
+                // from 1, otherwise the eigenvalues may be too different to
+                // be computed. The scale is a power of 2, so it is exact.
+                Real scale = 1;
+                Real var = moments[0] < 0 ? Real(-moments[0]) : moments[0];
+                while (var > 4 and var / 4 < var) {
+                    var /= 4;
+                    scale /= 2;
+                }
+                while (var > 0 and var < 1) {
+                    var *= 4;
+                    scale *= 2;
+                }
+                for (int i = 0; i < int(n); ++i) {
+                    for (int j = 0; j < i + 2; ++j) {
+                        mom[i] *= scale;
+                    }
+                }
+            }
             for (int j = 0; j < 5; ++j) {
                 for (int i = j; i < 5; ++i) {
                     const int idx = i + j - 3 + offset;
-                    M(i, j) = idx >= 0 ? moments[idx] : std::abs((idx + offset) % 2);
+                    M(i, j) = idx >= 0 ? mom[idx] : Real(std::abs((idx + offset) % 2));
                 }
             }
             return hamburger(M);
-- 
2.43.0


From df3f18505036139b01d8fc6eef456cfca0676d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:29 +0000
Subject: [PATCH 24/24] fix: last digit lost formatting numbers slightly above
 a power of 10

---
 uncertainties/io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 5425421..56fca01 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -135,7 +135,9 @@ namespace uncertainties {
             assert(s.size() == n or s.size() == n + 1 or s.size() + 1 == n or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
-                s.pop_back();
+                // the last digit may not be 0 if e was too low by rounding
+                s = int_mantissa_string(int_mantissa(x, n - zeros, *e));
+                s.append(zeros, '0');
             }
             return s;
         }
@@ -188,7 +190,7 @@ namespace uncertainties {
         if (muexp != muexp_before) {
             // the rounding added a digit, keep it to stay aligned with s
             mundig += 1;
-            mumant.push_back('0');
+            mumant = internal::mantissa(mu, mundig, &muexp);
         }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
-- 
2.43.0


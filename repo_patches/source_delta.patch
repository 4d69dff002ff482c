From f595dcebf05072357f1f7f630dc5ae86c488f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 01/87] fix: conversion of directions between local tangent
 plane and geocentric form

---
 types/wvector1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index fba7f5b..26b1806 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -95,10 +95,10 @@ double wvector1::direction(const wvector1& pos, const wvector1& dir) {
     const double dir_sp = sin(dir.phi());
     const double dir_cp = cos(dir.phi());
 
-    const double pos_st = sin(dir.theta());
-    const double pos_ct = cos(dir.theta());
-    const double pos_sp = sin(dir.phi());
-    const double pos_cp = cos(dir.phi());
+    const double pos_st = sin(pos.theta());
+    const double pos_ct = cos(pos.theta());
+    const double pos_sp = sin(pos.phi());
+    const double pos_cp = cos(pos.phi());
 
     const double x = dir.rho() * dir_cp * dir_st - pos.rho() * pos_cp * pos_st;
     const double y = dir.rho() * dir_sp * dir_st - pos.rho() * pos_sp * pos_st;
@@ -126,9 +126,9 @@ void wvector1::direction(const wvector1& pos, wvector1* dir) const {
     const double sp = sin(pos.phi());
     const double cp = cos(pos.phi());
 
-    const double x = _rho * ct * sp - _theta * st + _phi * ct * cp;
-    const double y = _rho * st * sp + _theta * ct + _phi * st * cp;
-    const double z = _rho * cp - _phi * sp;
+    const double x = _rho * st * cp + _theta * ct * cp - _phi * sp;
+    const double y = _rho * st * sp + _theta * ct * sp + _phi * cp;
+    const double z = _rho * ct - _theta * st;
 
     dir->rho(1.0);
     dir->theta(atan2(sqrt(x * x + y * y), z));
-- 
2.43.0


From 597f56a92b9017515096b3df54463767b3b3890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 02/87] fix: partial update of an orientation whose angles have
 not been computed yet

---
 types/orientation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/orientation.h b/types/orientation.h
index 4c7da12..d7db52c 100755
--- a/types/orientation.h
+++ b/types/orientation.h
@@ -155,6 +155,7 @@ class USML_DECLSPEC orientation {
      * @param y Compass heading. (deg)
      */
     void yaw(double y) {
+        compute_angles();
         _yaw = y;
         apply_rotation();
     }
@@ -173,6 +174,7 @@ class USML_DECLSPEC orientation {
      * @param p Up/down tilt relative to local ocean surface. (deg)
      */
     void pitch(double p) {
+        compute_angles();
         _pitch = p;
         apply_rotation();
     }
@@ -191,6 +193,7 @@ class USML_DECLSPEC orientation {
      * @param r Left/right tilt relative to local ocean surface. (deg)
      */
     void roll(double r) {
+        compute_angles();
         _roll = r;
         apply_rotation();
     }
-- 
2.43.0


From e8c95a837b8b3e7b00c641371b4e3e804f1598b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 03/87] fix: sign of the cross term in the overlap of two
 eigenverbs

---
 biverbs/biverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..27132b4 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -150,7 +150,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
     const double kappa = -0.25 *
                          (xs2 * (src_sum + new_prod + 2.0 * rcv_length2) +
                           ys2 * (src_sum - new_prod + 2.0 * rcv_width2) -
-                          2.0 * sqrt(xs2 * ys2) * src_diff * sin2alpha) /
+                          2.0 * xs * ys * src_diff * sin2alpha) /
                          det_sr;
 #ifdef DEBUG_BIVERB
     cout << "\tdet_sr=" << det_sr << " kappa=" << kappa
-- 
2.43.0


From 41e21c4fcdf0f701a7e5fa4a2eb0f9136086b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 04/87] fix: seq_vector reverse iterators called themselves
 forever

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From 94a48d9d267ab1cef51a4f21f7ebc79d9fb3253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 05/87] fix: build_best lost the contents of logarithmic and
 offset sequences, and read outside of short ones

---
 types/seq_vector.cc | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..708ec75 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -10,6 +10,7 @@
 
 #include <boost/numeric/ublas/storage.hpp>
 #include <cstdlib>
+#include <stdexcept>
 
 using namespace usml::types;
 
@@ -22,7 +23,8 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n < _max_index &&
+        abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
@@ -51,25 +53,36 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     bool isLinear = true;
     bool isLog = true;
 
+    if (count < 1) {
+        throw std::invalid_argument("sequence has no data");
+    }
     const int N = (int)count;
-    double p1 = data[0];
-    double minValue = p1;
-    double maxValue = p1;
+    const double minValue = data[0];
+    const double maxValue = data[N - 1];
+
+    // compare data to the linear and logarithmic sequences that have
+    // the same end points, allows for data stored as single precision floats
 
+    double increment = 0.0;
+    double ratio = 1.0;
     if (N > 1) {
-        double p2 = data[1];
-        maxValue = p2;
-        for (size_t n = 2; n < N; ++n) {
-            double p3 = data[n];
-            maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+        const double roundoff = 2.5E-7 * max(abs(minValue), abs(maxValue));
+        increment = (maxValue - minValue) / (N - 1);
+        isLinear = increment != 0.0;
+        isLog = increment != 0.0 && minValue != 0.0 && maxValue / minValue > 0.0;
+        if (isLog) {
+            ratio = pow(maxValue / minValue, 1.0 / (N - 1));
+        }
+        for (int n = 1; n < N - 1; ++n) {
+            const double linear = minValue + n * increment;
+            if (abs(data[n] - linear) > 1E-3 * abs(increment) + roundoff) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            const double log = minValue * pow(ratio, n);
+            const double step = log * (ratio - 1.0);
+            if (abs(data[n] - log) > 1E-3 * abs(step) + 2.5E-7 * abs(log)) {
                 isLog = false;
             }
-            p1 = p2;
-            p2 = p3;
         }
     }
 
@@ -79,9 +92,9 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     if (N < 2) {
         seq = new seq_linear(minValue, 1.0, 1);
     } else if (isLinear) {
-        seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
+        seq = new seq_linear(minValue, increment, N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, ratio, N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 3a7e16dcda9c48d84287b126f11899f48f82407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 06/87] fix: seq_log built from limits ran past its last value,
 lookups of far away values returned the wrong end

---
 types/seq_linear.h |  7 +++----
 types/seq_log.h    | 16 +++++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/types/seq_linear.h b/types/seq_linear.h
index 4889f5e..fc8af3b 100755
--- a/types/seq_linear.h
+++ b/types/seq_linear.h
@@ -87,10 +87,9 @@ class USML_DECLSPEC seq_linear : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
-        return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor((value - _data[0]) / _increment[0])));
+        const double last = (double)this->size() - 2.0;
+        const double index = floor((value - _data[0]) / _increment[0]);
+        return (size_type)max(0.0, min(last, index));
     }
 
    private:
diff --git a/types/seq_log.h b/types/seq_log.h
index c8d24ec..e8b825f 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -57,8 +57,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
                          ? 1
                          : max((difference_type)1,
                                (difference_type)floor(
-                                   1.0 + (log((last + increment / 10) / first) /
-                                          log(increment))))) {
+                                   1.1 + log(last / first) / log(increment)))) {
         initialize(first, increment, size());
     }
 
@@ -82,11 +81,13 @@ class USML_DECLSPEC seq_log : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
-        return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor(log(value / _data[0]) /
-                                       log(_increment[1] / _increment[0]))));
+        if (_max_index < 2) {  // a single element or a single interval
+            return 0;
+        }
+        const double last = (double)this->size() - 2.0;
+        const double index = floor(log(max(0.0, value / _data[0])) /
+                                   log(_data[1] / _data[0]));
+        return (size_type)max(0.0, min(last, index));
     }
 
    private:
@@ -101,6 +102,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
         value_type v = first;
         for (size_type n = 0; n < size; ++n) {
             _data[n] = v;
+            _increment[n] = v * increment - v;
             v *= increment;
             if (n > 0) {
                 _increment[n - 1] = _data[n] - _data[n - 1];
-- 
2.43.0


From 9d6e19a50499cea80e322f049e25bdf8a775eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 07/87] fix: seq_data accepted two equal values as a monotonic
 series

---
 types/seq_data.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/seq_data.h b/types/seq_data.h
index 00fc4f4..e34e8fc 100644
--- a/types/seq_data.h
+++ b/types/seq_data.h
@@ -94,6 +94,9 @@ class USML_DECLSPEC seq_data : public seq_vector {
             // process first element
 
             value_type left = value_type(data[1]) - value_type(data[0]);
+            if (left == 0) {
+                throw std::invalid_argument("series not monotonic");
+            }
             if (left < 0) {
                 _sign = -1.0;
             }
-- 
2.43.0


From c2bc2f4fb797f31ad94b16e51b927bf8b43a6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 08/87] fix: seq_augment had no lookup table and was not
 monotonic for odd numbers of rays

---
 types/seq_augment.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/types/seq_augment.h b/types/seq_augment.h
index 2bb3093..6c829f3 100755
--- a/types/seq_augment.h
+++ b/types/seq_augment.h
@@ -44,6 +44,15 @@ class USML_DECLSPEC seq_augment : public seq_data {
         size_t half = (size_t)floor(num_rays / 2.0) + 1;
         double spacing = origin->increment(0) / half;
 
+        // limit spacing on the right so that new rays stay inside of the
+        // last interval, this matters when the last interval is smaller
+        // than the first or when the number of rays is odd
+        size_t right = num_rays - (half - 1) + 1;
+        double spacing_right = origin->increment(size_old - 2) / right;
+        if (abs(spacing_right) > abs(spacing)) {
+            spacing_right = spacing;
+        }
+
         _data[0] = first;
         for (size_t i = 1; i < half + 1; ++i) {
             _data[i] = _data[i - 1] + spacing;
@@ -52,14 +61,13 @@ class USML_DECLSPEC seq_augment : public seq_data {
             _data[i] = (*origin)[j];
         }
         for (size_t i = size_old - 2 + half; i < size - 1; ++i) {
-            _data[i] = _data[i - 1] + spacing;
+            _data[i] = _data[i - 1] + spacing_right;
         }
         _data[size - 1] = (*origin)[size_old - 1];
 
-        for (size_t i = 1; i < size; ++i) {
-            _increment[i - 1] = _data[i] - _data[i - 1];
-        }
-        _increment[_max_index] = _data[_max_index] - _data[_max_index - 1];
+        // initialize increments and the index lookup, refuses origins that
+        // are too short to be augmented because they aren't monotonic
+        init(array_type(_data), size);
     }
 };
 
-- 
2.43.0


From 1dd752506734deb869e7c6284c53c6042a41f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 09/87] fix: inverse hyperbolic and complex inverse functions
 overflow, cancel, or leave the principal branch

---
 ublas/math_traits.h | 72 ++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 54 deletions(-)

diff --git a/ublas/math_traits.h b/ublas/math_traits.h
index c547d94..9cc2811 100644
--- a/ublas/math_traits.h
+++ b/ublas/math_traits.h
@@ -194,19 +194,15 @@ struct math_traits<double> {
 
     static inline value_type acos(const_reference t) { return std::acos(t); }
     static inline value_type acosh(const_reference t) {
-        return log(t + sqrt(t * t - 1.0));
+        return std::acosh(t);
     }
     static inline value_type asin(const_reference t) { return std::asin(t); }
-    static inline value_type asinh(const_reference t) {
-        return log(t + sqrt(t * t + 1.0));
-    }
+    static inline value_type asinh(const_reference t) { return std::asinh(t); }
     static inline value_type atan(const_reference t) { return std::atan(t); }
     static inline value_type atan2(const_reference y, const_reference x) {
         return std::atan2(y, x);
     }
-    static inline value_type atanh(const_reference t) {
-        return 0.5 * log((1.0 + t) / (1.0 - t));
-    }
+    static inline value_type atanh(const_reference t) { return std::atanh(t); }
 
     //*********************************************************
     // exponential functions
@@ -307,20 +303,14 @@ struct math_traits<float> {
     // and Integrals, pp. 124-127.
 
     static inline value_type acos(const_reference t) { return std::acos(t); }
-    static inline value_type acosh(const_reference t) {
-        return log(t + sqrt(t * t - 1.0f));
-    }
+    static inline value_type acosh(const_reference t) { return std::acosh(t); }
     static inline value_type asin(const_reference t) { return std::asin(t); }
-    static inline value_type asinh(const_reference t) {
-        return log(t + sqrt(t * t + 1.0f));
-    }
+    static inline value_type asinh(const_reference t) { return std::asinh(t); }
     static inline value_type atan(const_reference t) { return std::atan(t); }
     static inline value_type atan2(const_reference y, const_reference x) {
         return std::atan2(y, x);
     }
-    static inline value_type atanh(const_reference t) {
-        return 0.5 * log((1.0f + t) / (1.0f - t));
-    }
+    static inline value_type atanh(const_reference t) { return std::atanh(t); }
 
     //*********************************************************
     // exponential functions
@@ -386,28 +376,15 @@ struct math_traits<complex<double> > {
     // @xref A. Jeffery, Handbook of Math Formulas
     // and Integrals, pp. 124-127.
 
-    static inline value_type acos(const_reference t) {
-        return DOUBLE_I * log(t + sqrt(t * t - 1.0));
-    }
-    static inline value_type acosh(const_reference t) {
-        return log(t + sqrt(t * t - 1.0));
-    }
-    static inline value_type asin(const_reference t) {
-        return -DOUBLE_I * log(DOUBLE_I * t + sqrt(1.0 - t * t));
-    }
-    static inline value_type asinh(const_reference t) {
-        return log(t + sqrt(t * t + 1.0));
-    }
-    static inline value_type atan(const_reference t) {
-        return log((1.0 + DOUBLE_I * t) / (1.0 - DOUBLE_I * t)) /
-               (2.0 * DOUBLE_I);
-    }
+    static inline value_type acos(const_reference t) { return std::acos(t); }
+    static inline value_type acosh(const_reference t) { return std::acosh(t); }
+    static inline value_type asin(const_reference t) { return std::asin(t); }
+    static inline value_type asinh(const_reference t) { return std::asinh(t); }
+    static inline value_type atan(const_reference t) { return std::atan(t); }
     static inline value_type atan2(const_reference y, const_reference x) {
         return atan(y / x);
     }
-    static inline value_type atanh(const_reference t) {
-        return 0.5 * log((1.0 + t) / (1.0 - t));
-    }
+    static inline value_type atanh(const_reference t) { return std::atanh(t); }
 
     //*********************************************************
     // exponential functions
@@ -466,28 +443,15 @@ struct math_traits<complex<float> > {
     // @xref A. Jeffery, Handbook of Math Formulas
     // and Integrals, pp. 124-127.
 
-    static inline value_type acos(const_reference t) {
-        return FLOAT_I * log(t + sqrt(t * t - 1.0f));
-    }
-    static inline value_type acosh(const_reference t) {
-        return log(t + sqrt(t * t - 1.0f));
-    }
-    static inline value_type asin(const_reference t) {
-        return -FLOAT_I * log(FLOAT_I * t + sqrt(1.0f - t * t));
-    }
-    static inline value_type asinh(const_reference t) {
-        return log(t + sqrt(t * t + 1.0f));
-    }
-    static inline value_type atan(const_reference t) {
-        return log((1.0f + FLOAT_I * t) / (1.0f - FLOAT_I * t)) /
-               (2.0f * FLOAT_I);
-    }
+    static inline value_type acos(const_reference t) { return std::acos(t); }
+    static inline value_type acosh(const_reference t) { return std::acosh(t); }
+    static inline value_type asin(const_reference t) { return std::asin(t); }
+    static inline value_type asinh(const_reference t) { return std::asinh(t); }
+    static inline value_type atan(const_reference t) { return std::atan(t); }
     static inline value_type atan2(const_reference y, const_reference x) {
         return atan(y / x);
     }
-    static inline value_type atanh(const_reference t) {
-        return 0.5f * log((1.0f + t) / (1.0f - t));
-    }
+    static inline value_type atanh(const_reference t) { return std::atanh(t); }
 
     //*********************************************************
     // exponential functions
-- 
2.43.0


From d0c616a16dcfb9e45a48f5c240adce503bbb551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 10/87] fix: reseeding kept a left over gaussian number,
 vectors of complex numbers had parts in unspecified order

---
 ublas/randgen.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ublas/randgen.cc b/ublas/randgen.cc
index e152689..2e82909 100755
--- a/ublas/randgen.cc
+++ b/ublas/randgen.cc
@@ -24,7 +24,11 @@ randgen::randgen(unsigned seed)
 /**
  * Update the random number generator with a specific seed.
  */
-void randgen::seed(unsigned seed) { _generator.seed(seed); }
+void randgen::seed(unsigned seed) {
+    _generator.seed(seed);
+    _uniform_dist.reset();
+    _gaussian_dist.reset();
+}
 
 //******************************************************************
 // Scalar random numbers
@@ -76,8 +80,8 @@ vector<double> randgen::gaussian(int N) {
 vector<std::complex<double>> randgen::cgaussian(int N) {
     vector<std::complex<double>> result(N);
     auto gen = [this]() {
-        return std::complex<double>(_gaussian_dist(_generator),
-                                    _gaussian_dist(_generator));
+        return std::complex<double>{_gaussian_dist(_generator),
+                                    _gaussian_dist(_generator)};
     };
     std::generate(begin(result), end(result), gen);
     return result;
@@ -113,8 +117,8 @@ matrix<double> randgen::gaussian(int N, int M) {
 matrix<std::complex<double>> randgen::cgaussian(int N, int M) {
     matrix<std::complex<double>> result(N, M);
     auto gen = [this]() {
-        return std::complex<double>(_gaussian_dist(_generator),
-                                    _gaussian_dist(_generator));
+        return std::complex<double>{_gaussian_dist(_generator),
+                                    _gaussian_dist(_generator)};
     };
     std::generate(begin(result.data()), end(result.data()), gen);
     return result;
-- 
2.43.0


From 83bc4a598992eb2ec5813fc3a9fb019a842967bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 11/87] fix: copysign of a negative magnitude flipped the
 requested sign

---
 ublas/math_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ublas/math_traits.h b/ublas/math_traits.h
index 9cc2811..e48dc0c 100644
--- a/ublas/math_traits.h
+++ b/ublas/math_traits.h
@@ -174,7 +174,7 @@ struct math_traits<double> {
 
     static inline value_type sqrt(const_reference t) { return std::sqrt(t); }
     static inline value_type copysign(const_reference t1, const_reference t2) {
-        return (t2 < 0.0) ? -t1 : t1;
+        return (t2 < 0.0) ? -std::abs(t1) : std::abs(t1);
     }
 
     //*********************************************************
@@ -284,7 +284,7 @@ struct math_traits<float> {
 
     static inline value_type sqrt(const_reference t) { return std::sqrt(t); }
     static inline value_type copysign(const_reference t1, const_reference t2) {
-        return (t2 < 0.0) ? -t1 : t1;
+        return (t2 < 0.0) ? -std::abs(t1) : std::abs(t1);
     }
 
     //*********************************************************
-- 
2.43.0


From e516be2719ac80728d14f9c7634d5b36d985b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 12/87] fix: grids with short axes kept the wrong interpolation
 type, or read outside of the data

---
 types/data_grid.h | 3 +--
 types/gen_grid.h  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..05cf3ad 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -140,9 +140,8 @@ class USML_DLLEXPORT data_grid {
             type = interp_enum::nearest;
         } else if (type > interp_enum::linear && size < 4) {
             type = interp_enum::linear;
-        } else {
-            this->_interp_type[dimension] = type;
         }
+        this->_interp_type[dimension] = type;
     }
 
     /**
diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..0bc72dc 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -210,7 +210,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
         const double u = (location[dim] - (*ax)(k)) / ax->increment(k);
-        if (u < 0.5) {
+        if (ax->size() < 2 || u < 0.5) {
             result = interp(dim - 1, index, location, da, deriv_vec);
         } else {
             size_t next[NUM_DIMS];
-- 
2.43.0


From 9babf7e7cd324ae4f2c1f9506decddbe6eafec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 13/87] fix: slopes of piecewise cubic interpolation on uneven
 axes and at the end points

---
 types/gen_grid.h       | 12 ++++++------
 types/gen_grid_utils.h | 18 +++++++++---------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 0bc72dc..a89b85b 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -455,8 +455,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -474,8 +474,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
@@ -484,8 +484,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..f9e7568 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -77,7 +77,7 @@ struct derivative<std::complex<T> > {
         if (abs(d0) * abs(d1) > 0.0) {
             m = (w0 + w1) / (w0 / d0 + w1 / d1);
         }
-        if (deriv && abs(d0) * abs(dd1) > 0.0) {
+        if (deriv && abs(dd0) * abs(dd1) > 0.0) {
             dm = (w0 + w1) / (w0 / dd0 + w1 / dd1);
         }
     }
@@ -146,13 +146,13 @@ struct end_point_derivative {
     static void compute(argument_type d0, argument_type d1, argument_type dd0,
                         argument_type dd1, bool deriv, argument_type& m,
                         argument_type& dm) {
-        if (m * d0 < 0.0) {
+        if (m * d0 <= 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
-            if (dm * dd0 < 0.0) {
+            if (dm * dd0 <= 0.0) {
                 dm = 0.0;
             } else if ((dd0 * dd1 < 0.0) && (abs(dm) > abs(3.0 * dd0))) {
                 dm = 3.0 * dd0;
@@ -194,14 +194,14 @@ struct end_point_derivative<boost::numeric::ublas::vector<T> > {
                         argument_type& dm) {
         size_type size(d0.size());
         for (size_type i = 0; i < size; ++i) {
-            if (m(i) * d0(i) < 0.0) {
+            if (m(i) * d0(i) <= 0.0) {
                 m(i) = 0.0;
             } else if ((d0(i) * d1(i) < 0.0) &&
                        (abs(m(i)) > abs(3.0 * d0(i)))) {
                 m(i) = 3.0 * d0(i);
             }
             if (deriv) {
-                if (dm(i) * dd0(i) < 0.0) {
+                if (dm(i) * dd0(i) <= 0.0) {
                     dm(i) = 0.0;
                 } else if ((dd0(i) * dd1(i) < 0.0) &&
                            (abs(dm(i)) > abs(3.0 * dd0(i)))) {
@@ -231,14 +231,14 @@ struct end_point_derivative<boost::numeric::ublas::matrix<T> > {
         size_type size2(d0.size2());
         for (size_type i = 0; i < size1; ++i) {
             for (size_type j = 0; j < size2; ++j) {
-                if (m(i, j) * d0(i, j) < 0.0) {
+                if (m(i, j) * d0(i, j) <= 0.0) {
                     m(i, j) = 0.0;
                 } else if ((d0(i, j) * d1(i, j) < 0.0) &&
                            (abs(m(i, j)) > abs(3.0 * d0(i, j)))) {
                     m(i, j) = 3.0 * d0(i, j);
                 }
                 if (deriv) {
-                    if (dm(i, j) * dd0(i, j) < 0.0) {
+                    if (dm(i, j) * dd0(i, j) <= 0.0) {
                         dm(i, j) = 0.0;
                     } else if ((dd0(i, j) * dd1(i, j) < 0.0) &&
                                (abs(dm(i, j)) > abs(3.0 * dd0(i, j)))) {
-- 
2.43.0


From bb0448a31ba9c3168d6c601e5d28858b3efa4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 14/87] fix: derivatives of the lower dimensions in grids with
 three or more dimensions

---
 types/gen_grid.h | 162 +++++++++++++++++++++++------------------------
 1 file changed, 80 insertions(+), 82 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index a89b85b..35f25b4 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -223,7 +223,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         if (deriv_vec) {
             deriv_vec[dim] = deriv;
-            if (dim > 0) deriv_vec[dim - 1] = da;
         }
 
         // use results for dim+1 iteration
@@ -252,12 +251,17 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         DATA_TYPE db = _zero;
 
         // build interpolation coefficients
+        // and the derivatives of all lower dimensions on both sides
 
-        const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        DATA_TYPE lower_a[NUM_DIMS];
+        DATA_TYPE lower_b[NUM_DIMS];
+        const DATA_TYPE a = interp(dim - 1, index, location, da,
+                                   deriv_vec ? lower_a : nullptr);
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
-        const DATA_TYPE b = interp(dim - 1, next, location, db, deriv_vec);
+        const DATA_TYPE b = interp(dim - 1, next, location, db,
+                                   deriv_vec ? lower_b : nullptr);
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
 
@@ -267,13 +271,13 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double u = (location[dim] - (*ax)(k)) / h;
         result = a * (1.0 - u) + b * u;
 
-        // compute derivative in this dimension and prior dimension
+        // compute derivative in this dimension and all lower dimensions
 
         if (deriv_vec) {
             deriv = (b - a) / h;
             deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
+            for (int d = 0; d < dim; ++d) {
+                deriv_vec[d] = lower_a[d] * (1.0 - u) + lower_b[d] * u;
             }
         }
 
@@ -368,19 +372,28 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         DATA_TYPE dy2 = _zero;
         DATA_TYPE dy3 = _zero;
 
+        // derivatives for all lower dimensions at k-1, k, k+1, k+2
+
+        DATA_TYPE lower0[NUM_DIMS];
+        DATA_TYPE lower1[NUM_DIMS];
+        DATA_TYPE lower2[NUM_DIMS];
+        DATA_TYPE lower3[NUM_DIMS];
+
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
         const size_t k = index[dim];
-        y1 = interp(dim - 1, index, location, dy1, deriv_vec);
+        y1 = interp(dim - 1, index, location, dy1,
+                    deriv_vec ? lower1 : nullptr);
 
         if (k >= kmin) {
             size_t prev[NUM_DIMS];
             std::copy_n(index, NUM_DIMS, prev);
             --prev[dim];
-            y0 = interp(dim - 1, prev, location, dy0, deriv_vec);
+            y0 = interp(dim - 1, prev, location, dy0,
+                        deriv_vec ? lower0 : nullptr);
         } else {  // use harmless values at left end-point
             y0 = y1;
-            dy0 = dy1;
+            if (deriv_vec) std::copy_n(lower1, dim, lower0);
         }
 
         // interpolate in dim-1 dimension to find values and derivs at k+1, k+2
@@ -388,16 +401,18 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
-        y2 = interp(dim - 1, next, location, dy2, deriv_vec);
+        y2 = interp(dim - 1, next, location, dy2,
+                    deriv_vec ? lower2 : nullptr);
 
         if (k <= kmax) {
             size_t last[NUM_DIMS];
             std::copy_n(next, NUM_DIMS, last);
             ++last[dim];
-            y3 = interp(dim - 1, last, location, dy3, deriv_vec);
+            y3 = interp(dim - 1, last, location, dy3,
+                        deriv_vec ? lower3 : nullptr);
         } else {  // use harmless values at right end-point
             y3 = y2;
-            dy3 = dy2;
+            if (deriv_vec) std::copy_n(lower2, dim, lower3);
         }
 
         // compute difference values used frequently in computation
@@ -415,89 +430,74 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double sh_minus = s - h1;
         const double sh_term = 3.0 * h1 * s_2 - 2.0 * s_3;
 
-        // compute first divided differences (forward derivative)
-        // for both the values, and their derivatives
+        // computes the interpolated value, and the slopes at k and k+1,
+        // from the values at k-1, k, k+1, k+2
 
-        const DATA_TYPE deriv0 = (y1 - y0) / h0;  // fwd deriv from k-1 to k
-        const DATA_TYPE deriv1 = (y2 - y1) / h1;  // fwd deriv from k to k+1
-        const DATA_TYPE deriv2 = (y3 - y2) / h2;  // fwd deriv from k+1 to k+2
+        auto hermite = [&](const DATA_TYPE& v0, const DATA_TYPE& v1,
+                           const DATA_TYPE& v2, const DATA_TYPE& v3,
+                           DATA_TYPE& slope1, DATA_TYPE& slope2) -> DATA_TYPE {
+            DATA_TYPE unused = _zero;
 
-        // forward derivatives of dim-1 derivatives
+            // compute first divided differences (forward derivative)
 
-        DATA_TYPE dderiv0 = _zero;
-        DATA_TYPE dderiv1 = _zero;
-        DATA_TYPE dderiv2 = _zero;
-        if (deriv_vec) {  // fwd deriv of dim-1 derivatives
-            dderiv0 = (dy1 - dy0) / h0;
-            dderiv1 = (dy2 - dy1) / h1;
-            dderiv2 = (dy3 - dy2) / h2;
-        }
+            const DATA_TYPE deriv0 = (v1 - v0) / h0;  // from k-1 to k
+            const DATA_TYPE deriv1 = (v2 - v1) / h1;  // from k to k+1
+            const DATA_TYPE deriv2 = (v3 - v2) / h2;  // from k+1 to k+2
 
-        //*************
-        // compute weighted harmonic mean of slopes around index k
-        // for both the values, and their derivatives
-        // set it zero at local maxima or minima
-        // deriv0 * deriv1 condition guards against division by zero
+            // compute weighted harmonic mean of slopes around index k
+            // set it zero at local maxima or minima
+            // deriv0 * deriv1 condition guards against division by zero
 
-        DATA_TYPE slope1 = _zero;
-        DATA_TYPE dslope1 = _zero;
+            slope1 = _zero;
+            if (k >= kmin) {
+                const double w0 = 2.0 * h1 + h0;
+                const double w1 = h1 + 2.0 * h0;
+                derivative<DATA_TYPE>::compute(deriv0, deriv1, _zero, _zero, w0,
+                                               w1, false, slope1, unused);
 
-        // when not at an end-point, slope1 is the harmonic, weighted
-        // average of deriv0 and deriv1.
+                // at left end-point, use Matlab end-point formula with slope
+                // limits, note that deriv0 value is bogus when this is true
 
-        if (k >= kmin) {
-            const double w0 = 2.0 * h1 + h0;
-            const double w1 = h1 + 2.0 * h0;
-            derivative<DATA_TYPE>::compute(deriv0, deriv1, dderiv0, dderiv1, w0,
-                                           w1, deriv_vec, slope1, dslope1);
+            } else {
+                slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+                end_point_derivative<DATA_TYPE>::compute(
+                    deriv1, deriv2, _zero, _zero, false, slope1, unused);
+            }
 
-            // at left end-point, use Matlab end-point formula with slope limits
-            // note that the deriv0 value is bogus values when this is true
+            // compute weighted harmonic mean of slopes around index k+1
+            // set it zero at local maxima or minima
+            // deriv1 * deriv2 condition guards against division by zero
 
-        } else {
-            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
-            end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
-        }
+            slope2 = _zero;
+            if (k <= kmax) {
+                const double w1 = 2.0 * h2 + h1;
+                const double w2 = h2 + 2.0 * h1;
+                derivative<DATA_TYPE>::compute(deriv1, deriv2, _zero, _zero, w1,
+                                               w2, false, slope2, unused);
 
-        //*************
-        // compute weighted harmonic mean of slopes around index k+1
-        // for both the values, and their derivatives
-        // set it zero at local maxima or minima
-        // deriv1 * deriv2 condition guards against division by zero
+                // at right end-point, use Matlab end-point formula with slope
+                // limits, note that deriv2 value is bogus when this is true
 
-        DATA_TYPE slope2 = _zero;
-        DATA_TYPE dslope2 = _zero;
-
-        // when not at an end-point, slope2 is the harmonic, weighted
-        // average of deriv1 and deriv2.
+            } else {
+                slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+                end_point_derivative<DATA_TYPE>::compute(
+                    deriv1, deriv0, _zero, _zero, false, slope2, unused);
+            }
 
-        if (k <= kmax) {
-            const double w1 = 2.0 * h2 + h1;
-            const double w2 = h2 + 2.0 * h1;
-            derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
-                                           w2, deriv_vec, slope2, dslope2);
-
-            // at right end-point, use Matlab end-point formula with slope
-            // limits note that the deriv2 value is bogus values when this is
-            // true
-
-        } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
-            end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
-        }
+            return v2 * sh_term / h1_3 + v1 * (h1_3 - sh_term) / h1_3 +
+                   slope2 * s_2 * sh_minus / h1_2 +
+                   slope1 * s * sh_minus * sh_minus / h1_2;
+        };
 
         // compute interpolation value in this dimension
 
-        result = y2 * sh_term / h1_3 + y1 * (h1_3 - sh_term) / h1_3 +
-                 slope2 * s_2 * sh_minus / h1_2 +
-                 slope1 * s * sh_minus * sh_minus / h1_2;
+        DATA_TYPE slope1 = _zero;
+        DATA_TYPE slope2 = _zero;
+        result = hermite(y0, y1, y2, y3, slope1, slope2);
 
         // compute derivative in this dimension
         // assume linear change of slope across interval
+        // then interpolate derivatives of all lower dimensions
 
         if (deriv_vec) {
             double v = s / h1;
@@ -506,11 +506,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
                 initialize<DATA_TYPE>::value(deriv, (1.0 - v));
             deriv = slope1 * one_minus_u + slope2 * u;
             deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = dy2 * sh_term / h1_3 +
-                                     dy1 * (h1_3 - sh_term) / h1_3 +
-                                     dslope2 * s_2 * sh_minus / h1_2 +
-                                     dslope1 * s * sh_minus * sh_minus / h1_2;
+            for (int d = 0; d < dim; ++d) {
+                deriv_vec[d] = hermite(lower0[d], lower1[d], lower2[d],
+                                       lower3[d], slope1, slope2);
             }
         }
 
-- 
2.43.0


From 46413a68e169067b39dc22ffaaa1f2164f040b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 15/87] fix: slope at the deepest node of the fast sound speed
 grid

---
 types/data_grid_svp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..fe6cd06 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -91,21 +91,21 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                             result = 3.0 * slope_1;
                         }
                     } else if (i == _kzmax) {
-                        inc1 = this->axis(0).increment(i - 1);
-                        inc2 = this->axis(0).increment(i);
+                        inc1 = this->axis(0).increment(i - 2);
+                        inc2 = this->axis(0).increment(i - 1);
                         slope_1 =
                             (data_3d(i - 1, j, k) - data_3d(i - 2, j, k)) /
                             inc1;
                         slope_2 =
                             (data_3d(i, j, k) - data_3d(i - 1, j, k)) / inc2;
                         result =
-                            ((2.0 * inc1 + inc2) * slope_2 - inc1 * slope_1) /
+                            ((2.0 * inc2 + inc1) * slope_2 - inc2 * slope_1) /
                             (inc1 + inc2);
-                        if (result * slope_1 <= 0.0) {
+                        if (result * slope_2 <= 0.0) {
                             result = 0.0;
                         } else if ((slope_1 * slope_2 <= 0.0) &&
-                                   (abs(result) > abs(3.0 * slope_1))) {
-                            result = 3.0 * slope_1;
+                                   (abs(result) > abs(3.0 * slope_2))) {
+                            result = 3.0 * slope_2;
                         }
                     } else {
                         inc1 = this->axis(0).increment(i - 1);
-- 
2.43.0


From 2e7a83075955555bb381ddd50375ae743c805629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 16/87] fix: fast sound speed grid did not override
 interpolation through its base classes

---
 types/data_grid_svp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index fe6cd06..dbfa7fb 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -8,6 +8,7 @@
 #include <usml/types/seq_vector.h>
 #include <usml/usml_config.h>
 
+#include <algorithm>
 #include <boost/numeric/ublas/detail/iterator.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
 #include <cmath>
@@ -148,10 +149,13 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
      *
      * Interpolate at a single location.
      *
-     * @param location   Location to do the interpolation at
+     * @param point      Location to do the interpolation at
      * @param derivative Calculates first derivative if not nullptr
      */
-    double interpolate(double* location, double* derivative = nullptr) const {
+    double interpolate(const double point[],
+                       double* derivative = nullptr) const override {
+        double location[3];  // create copy to allow updating
+        std::copy_n(point, 3, location);
         double result = 0.0;
         size_t k0, k1, k2;  // indices of he offset data
         size_t offset[3];
-- 
2.43.0


From 5ccaa8ffbc07c2277a33fdea3dfae1ee689d3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 17/87] fix: fast bathymetry grid cut off its last cells,
 nearest neighbor used indices as locations

---
 types/data_grid_bathy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 667f319..3741092 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -270,7 +270,7 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
 
             if (edge_limit(dim)) {
                 double a = ax(0);
-                double b = ax(ax.size() - 2);
+                double b = ax(ax.size() - 1);
                 double sign = (ax.increment(0) < 0) ? -1.0 : 1.0;
                 double d = loc[dim] * sign;
                 if (d <= a * sign) {  // left of the axis
@@ -295,8 +295,8 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
             //****nearest****
             case interp_enum::nearest:
                 for (int dim = 0; dim < 2; ++dim) {
-                    double inc = axis(dim).increment(0);
-                    double u = abs(loc[dim] - offset[dim]) / inc;
+                    double inc = axis(dim).increment(offset[dim]);
+                    double u = (loc[dim] - axis(dim)(offset[dim])) / inc;
                     if (u < 0.5) {
                         fast_index[dim] = offset[dim];
                     } else {
-- 
2.43.0


From 7bc75e19fae8dc1965a2dfa929d39060d35111fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 18/87] fix: slopes of the fast bathymetry grid at its edges
 and on uneven axes

---
 types/data_grid_bathy.h | 144 +++++++---------------------------------
 1 file changed, 25 insertions(+), 119 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 3741092..824a33f 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -127,119 +127,24 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
         _inv_bicubic_coeff(15, 12) = _inv_bicubic_coeff(15, 13) =
             _inv_bicubic_coeff(15, 14) = _inv_bicubic_coeff(15, 15) = 1;
 
-        // Pre-construct increments for all intervals once to save time
-        matrix<double> inc_x(_k0max + 1u, 1);
-        for (size_t i = 0; i < _k0max + 1u; ++i) {
-            if (i == 0 || i == _k0max) {
-                inc_x(i, 0) = 2;
-            } else {
-                inc_x(i, 0) =
-                    (axis(0).increment(i - 1) + axis(0).increment(i + 1)) /
-                    axis(0).increment(i);
-            }
-        }
-        matrix<double> inc_y(_k1max + 1u, 1);
-        for (size_t i = 0; i < _k1max + 1u; ++i) {
-            if (i == 0 || i == _k1max) {
-                inc_y(i, 0) = 2;
-            } else {
-                inc_y(i, 0) =
-                    (axis(1).increment(i - 1) + axis(1).increment(i + 1)) /
-                    axis(1).increment(i);
-            }
-        }
-
         // Pre-construct all derivatives and cross-dervs once to save time
+        // limits centered differences to existing data at boundaries
         _derv_x = matrix<double>(_k0max + 1u, _k1max + 1u);
         _derv_y = matrix<double>(_k0max + 1u, _k1max + 1u);
         _derv_x_y = matrix<double>(_k0max + 1u, _k1max + 1u);
         for (size_t i = 0; i < _k0max + 1u; ++i) {
+            const size_t i1 = (i > _kmin) ? i - 1u : _kmin;
+            const size_t i2 = (i < _k0max) ? i + 1u : _k0max;
+            const double inc_x = axis(0)(i2) - axis(0)(i1);
             for (size_t j = 0; j < _k1max + 1u; ++j) {
-                if (i < 1 && j < 1) {  // top-left corner
-                    _derv_x(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i + 1, j + 1) - data_2d(i + 1, j) -
-                         data_2d(i, j + 1) + data_2d(i, j)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (i == _k0max && j == _k1max) {  // bottom-right corner
-                    _derv_x(i, j) =
-                        (data_2d(i, j) - data_2d(i - 1, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j) - data_2d(i, j - 1)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i, j) - data_2d(i, j - 1) - data_2d(i - 1, j) +
-                         data_2d(i - 1, j - 1)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (i < 1 && j == _k1max) {  // top-right corner
-                    _derv_x(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j) - data_2d(i, j - 1)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i + 1, j - 1) -
-                         data_2d(i, j) + data_2d(i, j - 1)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (j < 1 && i == _k0max) {  // bottom-left corner
-                    _derv_x(i, j) =
-                        (data_2d(i, j) - data_2d(i - 1, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j) -
-                         data_2d(i - 1, j + 1) + data_2d(i - 1, j)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (i < 1 && (1 <= j && j < _k1max)) {  // top row
-                    _derv_x(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j - 1)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i + 1, j + 1) - data_2d(i + 1, j - 1) -
-                         data_2d(i, j + 1) + data_2d(i, j - 1)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (j < 1 &&
-                           (1 <= i && i < _k0max)) {  // left most column
-                    _derv_x(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i - 1, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i + 1, j + 1) - data_2d(i + 1, j) -
-                         data_2d(i - 1, j + 1) + data_2d(i - 1, j)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (j == _k1max &&
-                           (1 <= i && i < _k0max)) {  // right most column
-                    _derv_x(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i - 1, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j) - data_2d(i, j - 1)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i + 1, j - 1) -
-                         data_2d(i - 1, j) + data_2d(i - 1, j - 1)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else if (i == _k0max &&
-                           (1 <= j && j < _k1max)) {  // bottom row
-                    _derv_x(i, j) =
-                        (data_2d(i, j) - data_2d(i - 1, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j - 1)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j - 1) -
-                         data_2d(i - 1, j + 1) + data_2d(i - 1, j - 1)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                } else {  // inside, restrictive
-                    _derv_x(i, j) =
-                        (data_2d(i + 1, j) - data_2d(i - 1, j)) / inc_x(i, 0);
-                    _derv_y(i, j) =
-                        (data_2d(i, j + 1) - data_2d(i, j - 1)) / inc_y(j, 0);
-                    _derv_x_y(i, j) =
-                        (data_2d(i + 1, j + 1) - data_2d(i + 1, j - 1) -
-                         data_2d(i - 1, j + 1) + data_2d(i - 1, j - 1)) /
-                        (inc_x(i, 0) * inc_y(j, 0));
-                }
+                const size_t j1 = (j > _kmin) ? j - 1u : _kmin;
+                const size_t j2 = (j < _k1max) ? j + 1u : _k1max;
+                const double inc_y = axis(1)(j2) - axis(1)(j1);
+                _derv_x(i, j) = (data_2d(i2, j) - data_2d(i1, j)) / inc_x;
+                _derv_y(i, j) = (data_2d(i, j2) - data_2d(i, j1)) / inc_y;
+                _derv_x_y(i, j) = (data_2d(i2, j2) - data_2d(i2, j1) -
+                                   data_2d(i1, j2) + data_2d(i1, j1)) /
+                                  (inc_x * inc_y);
             }  // end for-loop in j
         }      // end for-loop in i
     }          // end constructor
@@ -492,18 +397,19 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
         field(1, 0) = value(1, 2);                 // f(0,1)
         field(2, 0) = value(2, 1);                 // f(1,0)
         field(3, 0) = value(2, 2);                 // f(1,1)
-        field(4, 0) = _derv_x(k0, k1);             // f_x(0,0)
-        field(5, 0) = _derv_x(k0, k1 + 1);         // f_x(0,1)
-        field(6, 0) = _derv_x(k0 + 1, k1);         // f_x(1,0)
-        field(7, 0) = _derv_x(k0 + 1, k1 + 1);     // f_x(1,1)
-        field(8, 0) = _derv_y(k0, k1);             // f_y(0,0)
-        field(9, 0) = _derv_y(k0, k1 + 1);         // f_y(0,1)
-        field(10, 0) = _derv_y(k0 + 1, k1);        // f_y(1,0)
-        field(11, 0) = _derv_y(k0 + 1, k1 + 1);    // f_y(1,1)
-        field(12, 0) = _derv_x_y(k0, k1);          // f_x_y(0,0)
-        field(13, 0) = _derv_x_y(k0, k1 + 1);      // f_x_y(0,1)
-        field(14, 0) = _derv_x_y(k0 + 1, k1);      // f_x_y(1,0)
-        field(15, 0) = _derv_x_y(k0 + 1, k1 + 1);  // f_x_y(1,1)
+        const double norm01 = norm0 * norm1;       // converts to unit square
+        field(4, 0) = norm0 * _derv_x(k0, k1);           // f_x(0,0)
+        field(5, 0) = norm0 * _derv_x(k0, k1 + 1);       // f_x(0,1)
+        field(6, 0) = norm0 * _derv_x(k0 + 1, k1);       // f_x(1,0)
+        field(7, 0) = norm0 * _derv_x(k0 + 1, k1 + 1);   // f_x(1,1)
+        field(8, 0) = norm1 * _derv_y(k0, k1);           // f_y(0,0)
+        field(9, 0) = norm1 * _derv_y(k0, k1 + 1);       // f_y(0,1)
+        field(10, 0) = norm1 * _derv_y(k0 + 1, k1);      // f_y(1,0)
+        field(11, 0) = norm1 * _derv_y(k0 + 1, k1 + 1);  // f_y(1,1)
+        field(12, 0) = norm01 * _derv_x_y(k0, k1);       // f_x_y(0,0)
+        field(13, 0) = norm01 * _derv_x_y(k0, k1 + 1);   // f_x_y(0,1)
+        field(14, 0) = norm01 * _derv_x_y(k0 + 1, k1);   // f_x_y(1,0)
+        field(15, 0) = norm01 * _derv_x_y(k0 + 1, k1 + 1);  // f_x_y(1,1)
 
         // Construct the coefficients of the bicubic interpolation
         c_matrix<double, 16, 1> bicubic_coeff = prod(_inv_bicubic_coeff, field);
-- 
2.43.0


From ad969c00df4e867e5f1d2e7eb799bc13b2a72a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 19/87] fix: grids without editable data read through a null
 pointer

---
 types/gen_grid.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 35f25b4..765b201 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -47,7 +47,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         _writeable_data = std::shared_ptr<DATA_TYPE[]>(new DATA_TYPE[N]);
         this->_data = _writeable_data;  // read only reference
         initialize<DATA_TYPE>::zero_n(_writeable_data.get(), N);
-        _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
+        _zero = initialize<DATA_TYPE>::zero((this->_data.get())[0]);
     }
 
     /**
@@ -126,7 +126,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         if (!_zero_init) {
             _zero_init = true;
-            _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
+            _zero = initialize<DATA_TYPE>::zero((this->_data.get())[0]);
         }
         DATA_TYPE dresult = _zero;
         return interp(NUM_DIMS - 1, index, loc, dresult, derivative);
-- 
2.43.0


From 627b4b19bcb037f9dfc932dc55825502e8fb40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 20/87] fix: gradients of 1-D and 2-D profile grids kept what
 the output held before

---
 ocean/profile_grid.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocean/profile_grid.h b/ocean/profile_grid.h
index 2194e53..eb75707 100644
--- a/ocean/profile_grid.h
+++ b/ocean/profile_grid.h
@@ -67,6 +67,9 @@ class profile_grid : public profile_model {
      */
     void sound_speed(const wposition& location, matrix<double>* speed,
                      wvector* gradient = nullptr) const override {
+        if (gradient) {
+            gradient->clear();
+        }
         switch (NUM_DIMS) {
                 //***************
                 // 1-D grids
-- 
2.43.0


From 407691ef350b19e04e6ee3b38fa87d101ebdb2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 21/87] fix: flat earth option left out the lateral sound speed
 gradients

---
 ocean/profile_model.cc | 6 ++++++
 ocean/profile_model.h  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/ocean/profile_model.cc b/ocean/profile_model.cc
index 97aab58..348d139 100644
--- a/ocean/profile_model.cc
+++ b/ocean/profile_model.cc
@@ -20,6 +20,12 @@ void profile_model::adjust_speed(const wposition& location,
                 (element_prod(gradient->rho(), location.rho()) + *speed) /
                     wposition::earth_radius,
                 false);
+            gradient->theta(element_prod(gradient->theta(), location.rho()) /
+                                wposition::earth_radius,
+                            false);
+            gradient->phi(element_prod(gradient->phi(), location.rho()) /
+                              wposition::earth_radius,
+                          false);
         }
         *speed = element_prod(*speed, location.rho()) / wposition::earth_radius;
     }
diff --git a/ocean/profile_model.h b/ocean/profile_model.h
index 93e3ea6..dad6a45 100644
--- a/ocean/profile_model.h
+++ b/ocean/profile_model.h
@@ -107,6 +107,8 @@ class USML_DECLSPEC profile_model : public attenuation_model {
      *
      *      dc/dr' = dc/dr r / R + c / R
      *
+     *      dc/dtheta' = dc/dtheta r / R,   dc/dphi' = dc/dphi r / R
+     *
      * where:
      *
      *      c, dc/dr    = uncorrected sound speed and gradient
-- 
2.43.0


From b51a84575556899e30139a31dae3758f0a63fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 22/87] fix: sloped boundary kept a reference to a location
 that may no longer exist

---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From e3276c96d4d8be323d9057204a63d2924387a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 23/87] fix: phase of Rayleigh bottom reflection was off by 180
 degrees

---
 ocean/reflect_loss_rayleigh.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocean/reflect_loss_rayleigh.cc b/ocean/reflect_loss_rayleigh.cc
index bcafc88..5d81594 100644
--- a/ocean/reflect_loss_rayleigh.cc
+++ b/ocean/reflect_loss_rayleigh.cc
@@ -114,7 +114,9 @@ void reflect_loss_rayleigh::reflect_loss(const wposition1& /*location*/,
 
     // compute complex reflection coefficient
 
-    complex<double> R = (Zb - Zw) / (Zb + Zw);
+    // (Zw and Zb hold the inverse of the impedances at this point)
+
+    complex<double> R = (Zw - Zb) / (Zw + Zb);
     noalias(*amplitude) =
         -20.0 * log10(abs(R)) * scalar_vector<double>(frequencies->size(), 1.0);
     if (phase != nullptr) {
-- 
2.43.0


From 829ed1de3a761feedaa4dd75f2210992d82437c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 24/87] fix: surface scattering was not a number for D/E angles
 of upward rays and for calm seas

---
 ocean/scattering_chapman.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ocean/scattering_chapman.h b/ocean/scattering_chapman.h
index 3a6490d..34b9991 100644
--- a/ocean/scattering_chapman.h
+++ b/ocean/scattering_chapman.h
@@ -66,7 +66,13 @@ class USML_DECLSPEC scattering_chapman : public scattering_model {
                     double de_scattered, double az_incident,
                     double az_scattered,
                     vector<double>* amplitude) const override {
-        auto grazing = 0.5 * (de_incident + de_scattered) * 180.0 / M_PI;
+        auto grazing =
+            0.5 * (abs(de_incident) + abs(de_scattered)) * 180.0 / M_PI;
+        if (_wind_speed <= 0.0) {  // calm sea
+            noalias(*amplitude) =
+                scalar_vector<double>(frequencies->size(), 0.0);
+            return;
+        }
         vector<double> freq = frequencies->data();
         auto speed = _wind_speed * 1.94384449;
         vector<double> beta = 158.0 * pow(speed * pow(freq, 1.0 / 3.0), -0.58);
@@ -96,13 +102,20 @@ class USML_DECLSPEC scattering_chapman : public scattering_model {
                     matrix<double> de_scattered, double az_incident,
                     matrix<double> az_scattered,
                     matrix<vector<double> >* amplitude) const override {
+        if (_wind_speed <= 0.0) {  // calm sea
+            noalias(*amplitude) = scalar_matrix<vector<double> >(
+                location.size1(), location.size2(),
+                scalar_vector<double>(frequencies->size(), 0.0));
+            return;
+        }
         vector<double> freq = frequencies->data();
         auto speed = _wind_speed * 1.94384449;
         vector<double> beta = 158.0 * pow(speed * pow(freq, 1.0 / 3.0), -0.58);
         for (size_t n = 0; n < location.size1(); ++n) {
             for (size_t m = 0; m < location.size2(); ++m) {
                 auto grazing =
-                    0.5 * (de_incident + de_scattered(n, m)) * 180.0 / M_PI;
+                    0.5 * (abs(de_incident) + abs(de_scattered(n, m))) *
+                    180.0 / M_PI;
                 (*amplitude)(n, m) = 2.6 - 42.4 * log10(beta) +
                                      3.3 * beta * log10(grazing / 30.0 + 1e-6);
                 (*amplitude)(n, m) = pow(10.0, (*amplitude)(n, m) / 10.0);
-- 
2.43.0


From 3b3dd1b777347906206189dc500bd91ccb8cdc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 25/87] fix: sum of beam patterns started from one instead of
 zero

---
 beampatterns/bp_multi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_multi.cc b/beampatterns/bp_multi.cc
index 16e0198..82a8252 100755
--- a/beampatterns/bp_multi.cc
+++ b/beampatterns/bp_multi.cc
@@ -17,7 +17,8 @@ void bp_multi::beam_level(const bvector& arrival,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     vector<double> tmp(frequencies->size(), 1.0);
-    *level = vector<double>(frequencies->size(), 1.0);
+    *level = vector<double>(frequencies->size(),
+                            (_type == bp_multi_type::sum) ? 0.0 : 1.0);
 
     for (const auto& pattern : _bp_list) {
         pattern->beam_level(arrival, frequencies, &tmp, steering, sound_speed);
-- 
2.43.0


From 4221fdeb43690ccdccbb324fb7bebb0126d84aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 26/87] fix: default directivity added to old output and
 counted one azimuth twice

---
 beampatterns/bp_model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 8c9d0c2..0269294 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -32,8 +32,10 @@ void bp_model::directivity(const seq_vector::csptr& frequencies,
     // loop over all solid angles
 
     vector<double> beam(frequencies->size(), 0.0);
+    *level = vector<double>(frequencies->size(), 0.0);
     const double dangle = M_PI / 180.0;  // both dtheta and dphi
-    for (double az = 0.0; az <= TWO_PI; az += dangle) {
+    for (int n = 0; n < 360; ++n) {
+        const double az = n * dangle;
         for (double de = -M_PI_2; de <= M_PI_2; de += dangle) {
             // compute angle terms
             const double cos_de = cos(de);
-- 
2.43.0


From 742968f3a0056e16199522cb4a289689667227ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 27/87] fix: beam level of a rotated array turned the arrival
 the wrong way

---
 beampatterns/bp_model.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 0269294..c8e4fe8 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -18,8 +18,10 @@ void bp_model::beam_level(const bvector& arrival, const orientation& orient,
                           const seq_vector::csptr& frequencies,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
-    bvector rotated;
-    rotated.rotate(orient, arrival);
+    // columns of the rotation are the axes of the array in its parent
+    const matrix<double> rotation = orient.rotation();
+    const vector<double> body = prod(trans(rotation), arrival.data());
+    const bvector rotated(body(0), body(1), body(2));
     this->beam_level(rotated, frequencies, level, steering, sound_speed);
 }
 
-- 
2.43.0


From 8f0cdadb14a08a4f0ccf23c3fbd7a8373743e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 28/87] fix: line and planar arrays divided rounding errors at
 grating lobes

---
 beampatterns/bp_line.cc   | 5 +++++
 beampatterns/bp_planar.cc | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/beampatterns/bp_line.cc b/beampatterns/bp_line.cc
index a0affe4..5fae5e8 100644
--- a/beampatterns/bp_line.cc
+++ b/beampatterns/bp_line.cc
@@ -4,6 +4,8 @@
  */
 #include <usml/beampatterns/bp_line.h>
 
+#include <cmath>
+
 using namespace usml::beampatterns;
 
 /**
@@ -19,6 +21,9 @@ void bp_line::beam_level(const bvector& arrival,
                            : arrival.up() - steering.up();
     *level = frequencies->data();
     *level *= M_PI * _spacing / sound_speed * dot;
+    for (auto& phase : *level) {  // avoid 0/0 at grating lobes
+        phase = std::remainder(phase, M_PI);
+    }
     *level = abs2(element_div(sin(_num_elements * (*level)) + 1e-200,
                               sin(*level) * _num_elements + 1e-200));
 }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index 6f965d8..f56faf2 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -50,6 +50,9 @@ void bp_planar::beam_level(const bvector& arrival,
     double dot = arrival.up() - steering.up();
     vector<double> kd = frequencies->data();
     kd *= M_PI * _spacing_up / sound_speed * dot;
+    for (auto& phase : kd) {  // avoid 0/0 at grating lobes
+        phase = std::remainder(phase, M_PI);
+    }
     *level = abs2(element_div(sin(_num_elem_up * kd) + 1e-200,
                               sin(kd) * _num_elem_up + 1e-200));
 
@@ -57,6 +60,9 @@ void bp_planar::beam_level(const bvector& arrival,
     dot = arrival.right() - steering.right();
     kd = frequencies->data();
     kd *= M_PI * _spacing_right / sound_speed * dot;
+    for (auto& phase : kd) {  // avoid 0/0 at grating lobes
+        phase = std::remainder(phase, M_PI);
+    }
     *level = element_prod(
         *level, abs2(element_div(sin(_num_elem_right * kd) + 1e-200,
                                  sin(kd) * _num_elem_right + 1e-200)));
-- 
2.43.0


From 3989f71085c6565338b1869a3b1c1ae6a79bf397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 29/87] fix: directivity of planar arrays was negative when
 steered to the rear

---
 beampatterns/bp_planar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index f56faf2..5b5afcb 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -74,7 +74,7 @@ void bp_planar::beam_level(const bvector& arrival,
 void bp_planar::directivity(const seq_vector::csptr& frequencies,
                             vector<double>* level, const bvector& steering,
                             double sound_speed) const {
-    const double dot = steering.front();
+    const double dot = std::abs(steering.front());
     *level = frequencies->data();
     *level = sound_speed / (*level);
     *level = abs2(*level) / (dot * _directivity);
-- 
2.43.0


From baa9a3162945114d2e2e216e1732cc42d24aba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 30/87] fix: directivity of piston did not follow its formula

---
 beampatterns/bp_piston.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index fb6b286..f8e3619 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -45,9 +45,12 @@ void bp_piston::beam_level(const bvector& arrival,
 void bp_piston::directivity(const seq_vector::csptr& frequencies,
                             vector<double>* level, const bvector& /*steering*/,
                             double sound_speed) const {
+    // documented form is for a piston in a baffle, front and back have the
+    // same response without one
     *level = frequencies->data();
-    *level /= (sound_speed * M_PI * _diameter);
-    if (_back_baffle) {
-        *level *= 0.5;
+    *level = sound_speed / (*level);
+    *level = abs2(*level) / (M_PI * M_PI * _diameter * _diameter);
+    if (!_back_baffle) {
+        *level *= 2.0;
     }
 }
-- 
2.43.0


From 9d6c7be594564ff7a87bd898e41cf49a2da5bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 31/87] fix: solid and gaussian beams missed arrivals on the
 far side of the azimuth wrap

---
 beampatterns/bp_gaussian.cc | 2 +-
 beampatterns/bp_solid.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 727e5a3..5fe9cd4 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -34,7 +34,7 @@ void bp_gaussian::beam_level(const bvector& arrival,
     if (_horz_half < 180.0) {
         az = atan2(steering.front(), steering.right());
         az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-        az = abs(fmod(az + 180.0, 360.0) - 180);
+        az = abs(std::remainder(az, 360.0));
         az /= (_horz_half * 2.0);
     }
 
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 6047f28..a765129 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -27,7 +27,7 @@ void bp_solid::beam_level(const bvector& arrival,
     double az = atan2(steering.front(), steering.right());
     de = abs(to_degrees(asin(arrival.up()) - de));
     az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-    az = abs(fmod(az + 180.0, 360.0) - 180);
+    az = abs(std::remainder(az, 360.0));
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
     noalias(*level) = scalar_vector<double>(frequencies->size(), value);
 }
-- 
2.43.0


From dafcfff7dacd2049bd0ae1f2adb3501831b023fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 32/87] fix: Kaiser window left out the square and was not
 symmetric

---
 transmit/window.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transmit/window.h b/transmit/window.h
index 38444cf..899d210 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -101,7 +101,8 @@ class USML_DECLSPEC window {
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - (x[n] - M) / M)) /
+            const double r = (x[n] - M) / M;
+            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - r * r)) /
                    std::cyl_bessel_i(0.0, beta);
         }
         return x;
-- 
2.43.0


From 90d5c59c98d70e4c1323b9075353b237d431fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 33/87] fix: windows with a single sample were not a number

---
 transmit/window.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transmit/window.h b/transmit/window.h
index 899d210..7763ad1 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -73,6 +73,9 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hann(size_t N) {
+        if (N == 1) {
+            return boxcar(N);
+        }
         const double M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.5 * (1.0 - cos((TWO_PI / M) * x));
@@ -85,6 +88,9 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hamming(size_t N) {
+        if (N == 1) {
+            return boxcar(N);
+        }
         const int M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.54 - 0.46 * cos((TWO_PI / M) * x);
@@ -98,6 +104,9 @@ class USML_DECLSPEC window {
      * @return			Vector of window samples.
      */
     static vector<double> kaiser(size_t N, double beta) {
+        if (N == 1) {
+            return boxcar(N);
+        }
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-- 
2.43.0


From f80b34a3030bd76f5e1ea5a3163f869a94621a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 34/87] fix: transmit pulses had the opposite sign of frequency
 and phase of their formula

---
 transmit/transmit_cw.cc  | 6 +++++-
 transmit/transmit_lfm.cc | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/transmit/transmit_cw.cc b/transmit/transmit_cw.cc
index 06245ca..fde0ac5 100755
--- a/transmit/transmit_cw.cc
+++ b/transmit/transmit_cw.cc
@@ -12,6 +12,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <cmath>
+#include <complex>
 
 using namespace usml::transmit;
 
@@ -37,7 +38,10 @@ cdvector transmit_cw::asignal(double fsample, double fband, double inphase,
         *outphase = fmod(omega * T + inphase, TWO_PI);
     }
     vector<double> t = seq_linear(0.0, 1.0 / fsample, N).data();
-    cdvector signal = usml::ublas::asignal(omega * t + inphase);
+    cdvector signal(N);
+    for (int n = 0; n < N; ++n) {
+        signal[n] = std::polar(1.0, omega * t[n] + inphase);
+    }
     add_window(signal);
     return signal;
 }
diff --git a/transmit/transmit_lfm.cc b/transmit/transmit_lfm.cc
index f48da4c..13d1323 100644
--- a/transmit/transmit_lfm.cc
+++ b/transmit/transmit_lfm.cc
@@ -12,6 +12,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <cmath>
+#include <complex>
 
 using namespace usml::transmit;
 
@@ -40,8 +41,11 @@ cdvector transmit_lfm::asignal(double fsample, double fband, double inphase,
         *outphase = fmod(slope * T * T + omega * T + inphase, TWO_PI);
     }
     vector<double> t = seq_linear(0.0, 1.0 / fsample, N).data();
-    cdvector signal = usml::ublas::asignal(slope * usml::ublas::abs2(t) +
-                                           omega * t + inphase);
+    cdvector signal(N);
+    for (int n = 0; n < N; ++n) {
+        signal[n] =
+            std::polar(1.0, (slope * t[n] + omega) * t[n] + inphase);
+    }
     add_window(signal);
     return signal;
 }
-- 
2.43.0


From 18e95bdf4df7049cd0f2ae38d360d1149c0ea41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 35/87] fix: bathymetry and profile files of any global grid
 wrap around, regional files use the convention of the file

---
 netcdf/netcdf_bathy.cc   | 61 ++++++++++++--------------------
 netcdf/netcdf_profile.cc | 75 +++++++++++++++-------------------------
 2 files changed, 51 insertions(+), 85 deletions(-)

diff --git a/netcdf/netcdf_bathy.cc b/netcdf/netcdf_bathy.cc
index 18d5914..7875d67 100644
--- a/netcdf/netcdf_bathy.cc
+++ b/netcdf/netcdf_bathy.cc
@@ -43,14 +43,10 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     longitude.getVar(index0, &value0);
     longitude.getVar(indexN, &valueN);
 
-    // Is the data set bounds 0 to 359(360)
-    bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
-
-    // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
-
-    // Is this set a global data set
-    bool global = (zero_to_360 || bounds_180);
+    // Is this a global data set, with no more than one cell between
+    // its last longitude and its first one
+    double inc = (valueN - value0) / lng_index_max;
+    const bool global = valueN - value0 + 1.01 * inc >= 360.0;
     if (global) {
         // check to see if database has duplicate data at cut point
         if (abs(value0 + 360 - valueN) < 1e-4) {
@@ -73,14 +69,11 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
             }
         }
     } else {
-        if (value0 > 180.0) {
-            if (west < 0.0) {
-                offset = 360.0;
-            }
-        } else if (value0 < 0.0) {
-            if (east > 180.0) {
-                offset = -360.0;
-            }
+        // use the convention in which the window overlaps the data set
+        if (east < value0) {
+            offset = 360.0;
+        } else if (west > valueN) {
+            offset = -360.0;
         }
     }
     west += offset;
@@ -94,7 +87,7 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     latitude.getVar(index0, &value0);
     latitude.getVar(indexN, &valueN);
 
-    double inc = (valueN - value0) / lat_index_max;
+    inc = (valueN - value0) / lat_index_max;
     const int lat_first = max(0, (int)floor(1e-6 + (south - value0) / inc));
     const int lat_last =
         min((int)lat_index_max, (int)(floor(0.5 + (north - value0) / inc)));
@@ -134,34 +127,26 @@ netcdf_bathy::netcdf_bathy(const char* filename, double south, double north,
     count[0] = lat_num;
     count[1] = lng_num;
 
-    if (lng_last <= lng_index_max || !global) {
+    if (!global || (lng_first >= 0 && lng_last <= int(lng_index_max))) {
         altitude.getVar(start, count, data);
     } else {
         // support datasets that cross the unwrapping longitude
-        // assumes that bathy data is repeated on both sides of cut point
+        // read each row in blocks that end at the last longitude of the file
+        // skip longitudes that duplicate data at the cut point
 
-        const size_t M = lng_last - lng_index_max;  // # pts on east side
-        const size_t N = lng_num - M;               // # pts on west side
+        const int period = int(lng_index_max) + 1 - int(duplicate);
         double* ptr = data;
+        count[0] = 1;
         for (int lat = lat_first; lat <= lat_last; ++lat) {
-            // the west side of the block is the portion from
-            // lng_first to the last latitude
             start[0] = lat;
-            start[1] = lng_first;
-            count[0] = 1;
-            count[1] = N;
-            altitude.getVar(start, count, ptr);
-            ptr += N;
-
-            // the missing points on the east side of the block
-            // are read from zero until the right # of points are read
-            // skip first longitude if it is a duplicate
-            start[0] = lat;
-            start[1] = duplicate;
-            count[0] = 1;
-            count[1] = M;
-            altitude.getVar(start, count, ptr);
-            ptr += M;
+            int lng = lng_first;
+            while (lng <= lng_last) {
+                start[1] = ((lng % period) + period) % period;
+                count[1] = min(period - int(start[1]), lng_last - lng + 1);
+                altitude.getVar(start, count, ptr);
+                ptr += count[1];
+                lng += int(count[1]);
+            }
         }
     }
 
diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index bbc9b14..c00cd6b 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -74,14 +74,10 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     longitude.getVar(index0, &value0);
     longitude.getVar(indexN, &valueN);
 
-    // Is the data set bounds 0 to 359(360)
-    bool zero_to_360 = value0 < 1.0 && valueN >= 359.0;
-
-    // Is the data set bounds -180 to 179(180)
-    bool bounds_180 = value0 < -179.0 && valueN > 179.0;
-
-    // Is this set a global data set
-    bool global = (zero_to_360 || bounds_180);
+    // Is this a global data set, with no more than one cell between
+    // its last longitude and its first one
+    double inc = (valueN - value0) / lng_index_max;
+    const bool global = valueN - value0 + 1.01 * inc >= 360.0;
     if (global) {
         // check to see if database has duplicate data at cut point
         if (abs(value0 + 360.0 - valueN) < 1e-4) {
@@ -104,14 +100,11 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
             }
         }
     } else {
-        if (value0 > 180.0) {
-            if (west < 0.0) {
-                offset = 360.0;
-            }
-        } else if (value0 < 0.0) {
-            if (east > 180.0) {
-                offset = -360.0;
-            }
+        // use the convention in which the window overlaps the data set
+        if (east < value0) {
+            offset = 360.0;
+        } else if (west > valueN) {
+            offset = -360.0;
         }
     }
     west += offset;
@@ -125,7 +118,7 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     latitude.getVar(index0, &value0);
     latitude.getVar(indexN, &valueN);
 
-    double inc = (valueN - value0) / lat_index_max;
+    inc = (valueN - value0) / lat_index_max;
     const int lat_first = max(0, (int)floor(1e-6 + (south - value0) / inc));
     const int lat_last =
         min((int)lat_index_max, (int)(floor(0.5 + (north - value0) / inc)));
@@ -161,7 +154,7 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     std::vector<size_t> start(4);
     std::vector<size_t> count(4);
 
-    if (lng_last <= lng_index_max || !global) {
+    if (!global || (lng_first >= 0 && lng_last <= int(lng_index_max))) {
         start[0] = time_index;
         start[1] = 0;
         start[2] = lat_first;
@@ -173,39 +166,27 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
         profile.getVar(start, count, data);
     } else {
         // support datasets that cross the unwrapping longitude
-        // assumes that bathy data is repeated on both sides of cut point
+        // read each row in blocks that end at the last longitude of the file
+        // skip longitudes that duplicate data at the cut point
 
-        const size_t M = lng_last - lng_index_max;  // # pts on east side
-        const size_t N = lng_num - M;               // # pts on west side
+        const int period = int(lng_index_max) + 1 - int(duplicate);
         double *ptr = data;
-        for (long alt = 0; alt < alt_num; ++alt) {
+        start[0] = time_index;
+        count[0] = 1;
+        count[1] = 1;
+        count[2] = 1;
+        for (size_t alt = 0; alt < alt_num; ++alt) {
+            start[1] = alt;
             for (int lat = lat_first; lat <= lat_last; ++lat) {
-                // the west side of the block is the portion from
-                // lng_first to the last latitude
-                start[0] = time_index;
-                start[1] = alt;
                 start[2] = lat;
-                start[3] = lng_first;
-                count[0] = 1;
-                count[1] = 1;
-                count[2] = 1;
-                count[3] = N;
-                profile.getVar(start, count, ptr);
-                ptr += N;
-
-                // the missing points on the east side of the block
-                // are read from zero until the right # of points are read
-                // skip first longitude if it is a duplicate
-                start[0] = time_index;
-                start[1] = alt;
-                start[2] = lat;
-                start[3] = duplicate;
-                count[0] = 1;
-                count[1] = 1;
-                count[2] = 1;
-                count[3] = M;
-                profile.getVar(start, count, ptr);
-                ptr += M;
+                int lng = lng_first;
+                while (lng <= lng_last) {
+                    start[3] = ((lng % period) + period) % period;
+                    count[3] = min(period - int(start[3]), lng_last - lng + 1);
+                    profile.getVar(start, count, ptr);
+                    ptr += count[3];
+                    lng += int(count[3]);
+                }
             }
         }
     }
-- 
2.43.0


From 8e008d833f485ace48cb4ed7b5bd83cece38c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 36/87] fix: scale factor and offset of profile files apply
 separately

---
 netcdf/netcdf_profile.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index c00cd6b..9b3e234 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -24,8 +24,8 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
     netCDF::NcFile file(fname, netCDF::NcFile::FileMode::read);
 
     double missing = NAN;       // default value for missing information
-    double scale_factor = NAN;  // default value for scale_factor
-    double add_offset = NAN;    // default value for add_offset
+    double scale_factor = 1.0;  // default value for scale_factor
+    double add_offset = 0.0;    // default value for add_offset
     netCDF::NcVar longitude;
     netCDF::NcVar latitude;
     netCDF::NcVar altitude;
@@ -193,16 +193,14 @@ netcdf_profile::netcdf_profile(const char *filename, double date, double south,
 
     // apply logic for missing, scale_factor, and add_offset
 
-    if (!std::isnan(missing) || !std::isnan(scale_factor * add_offset)) {
+    if (!std::isnan(missing) || scale_factor != 1.0 || add_offset != 0.0) {
         const size_t N = alt_num * lat_num * lng_num;
         double *ptr = data;
         while (ptr < data + N) {
             if (!std::isnan(missing) && *ptr == missing) {
                 *ptr = NAN;
             }
-            if (!std::isnan(scale_factor * add_offset)) {
-                *ptr = *ptr * scale_factor + add_offset;
-            }
+            *ptr = *ptr * scale_factor + add_offset;
             ++ptr;
         }
     }
-- 
2.43.0


From 9a69eed18fae32f87596f8d099c642512377ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 37/87] fix: filling gaps in profiles changed valid data and
 left other gaps

---
 netcdf/netcdf_profile.cc | 58 +++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/netcdf/netcdf_profile.cc b/netcdf/netcdf_profile.cc
index 9b3e234..4c9726f 100644
--- a/netcdf/netcdf_profile.cc
+++ b/netcdf/netcdf_profile.cc
@@ -255,7 +255,11 @@ void netcdf_profile::fill_missing() {
                 double r = data(index);
                 if (!std::isnan(r)) {
                     replace.setdata(index, r);
-                    replace_grad(d)(j, k) = profile_grad(d)(j, k);
+                    if (d > 0) {
+                        const size_t index2[] = {d - 1, j, k};
+                        replace_grad(d)(j, k) = (r - replace.data(index2)) /
+                                                depth->increment(d - 1);
+                    }
                 } else {
                     // compute weighted sum
 
@@ -263,7 +267,9 @@ void netcdf_profile::fill_missing() {
                     for (size_t n = 0; n < nlat; ++n) {
                         for (size_t m = 0; m < nlon; ++m) {
                             const size_t index2[] = {d, n, m};
-                            const double tmp = data(index2);
+                            const double tmp = (d == 0)
+                                                   ? data(index2)
+                                                   : profile_grad(d)(n, m);
                             if (!std::isnan(tmp)) {
                                 const double dj = double(j) - double(n);
                                 const double dk = double(k) - double(m);
@@ -283,26 +289,29 @@ void netcdf_profile::fill_missing() {
 
                                 } else {
                                     replace_grad(d)(j, k) +=
-                                        distScale * profile_grad(d)(n, m);
+                                        distScale * tmp;
                                 }  // end if( d==0 )
                             }      // end if( !isnan(tmp) )
                         }          // end for m<nlon
                     }              // end for n<nlat
 
                     // convert sums to weighted average
+                    // layers that have no gradients repeat the layer above
 
-                    if (weight > 0.0) {
-                        if (d == 0) {
+                    if (d == 0) {
+                        if (weight > 0.0) {
                             r = replace.data(index) / weight;
                             replace.setdata(index, r);
-                        } else {
+                        }
+                    } else {
+                        if (weight > 0.0) {
                             replace_grad(d)(j, k) /= weight;
-                            const size_t index2[] = {d - 1, j, k};
-                            r = replace.data(index2) +
-                                replace_grad(d)(j, k) * depth->increment(d - 1);
-                            replace.setdata(index, r);
                         }
-                    }  // end if( weight > 0.0 )
+                        const size_t index2[] = {d - 1, j, k};
+                        r = replace.data(index2) +
+                            replace_grad(d)(j, k) * depth->increment(d - 1);
+                        replace.setdata(index, r);
+                    }
                 }      // end if( ! isnan(r) )
             }          // end for k<nlon
         }              // end for j<nlat
@@ -315,27 +324,16 @@ void netcdf_profile::fill_missing() {
     for (size_t j = 0; j < nlat; ++j) {
         for (size_t k = 0; k < nlon; ++k) {
             double w = 2.0;
-            if (max_depth + 1 < ndepth) {
-                for (size_t d = max_depth + 1; d < ndepth; ++d) {
-                    replace_grad(d)(j, k) = replace_grad(max_depth)(j, k) / w;
-                    const size_t index[] = {d, j, k};
-                    const size_t prev[] = {d - 1, j, k};
-                    const double v =
-                        replace.data(prev) +
-                        replace_grad(d)(j, k) * abs(depth->increment(d - 1));
-                    replace.setdata(index, v);
-                    w *= 2.0;
-                }
-            } else {
-                replace_grad(max_depth)(j, k) =
-                    replace_grad(max_depth)(j, k) / w;
-                const size_t index[] = {max_depth, j, k};
-                const size_t prev[] = {max_depth - 1, j, k};
+            for (size_t d = max_depth + 1; d < ndepth; ++d) {
+                replace_grad(d)(j, k) = replace_grad(max_depth)(j, k) / w;
+                const size_t index[] = {d, j, k};
+                const size_t prev[] = {d - 1, j, k};
                 const double v = replace.data(prev) +
-                                 replace_grad(max_depth)(j, k) *
-                                     abs(depth->increment(max_depth - 1));
+                                 replace_grad(d)(j, k) *
+                                     depth->increment(d - 1);
                 replace.setdata(index, v);
-            }  // end if( max_depth+1 < ndepth )
+                w *= 2.0;
+            }
         }      // end for k<nlon
     }          // end for j<nlat
 
-- 
2.43.0


From c878e5319665c979f40a834f915e0375ee55bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 38/87] fix: text profiles counted blank lines as data

---
 ocean/ascii_profile.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocean/ascii_profile.cc b/ocean/ascii_profile.cc
index 88c8ad0..d1b5288 100644
--- a/ocean/ascii_profile.cc
+++ b/ocean/ascii_profile.cc
@@ -21,13 +21,15 @@ using namespace usml::ocean;
  * Read a 1-D profile from a text file.
  */
 ascii_profile::ascii_profile(const char *filename) {
-    // count the number of lines in the input file
+    // count the number of lines in the input file, except for blank ones
 
     std::ifstream infile(filename);
     size_t size = 0;
     std::string line;
     while (getline(infile, line)) {
-        ++size;
+        if (line.find_first_not_of(" \t\r") != std::string::npos) {
+            ++size;
+        }
     }
     infile.clear();
     infile.seekg(0);
-- 
2.43.0


From 30d114074eaccb647a9189c95fb1e892156d2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 39/87] fix: task identifiers were not unique when created on
 many threads

---
 threads/thread_task.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 2dbd9c7..fd4298b 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -7,7 +7,6 @@
 #include <usml/threads/thread_task.h>
 
 #include <iostream>
-#include <limits>
 
 using namespace usml::threads;
 using namespace std;
@@ -23,12 +22,7 @@ std::atomic<std::size_t> thread_task::_num_active = 0;
  */
 thread_task::thread_task() {
     _abort = false;
-    _id = _id_next;
-    if (_id_next == std::numeric_limits<std::size_t>::max()) {
-        _id_next = 0;
-    } else {
-        ++_id_next;
-    }
+    _id = _id_next++;
     ++_num_active;
 }
 
-- 
2.43.0


From 9c76200b40012c49c5d0d7e4d78e70d2dd368665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 40/87] fix: abort and done flags of tasks were not safe
 between threads

---
 threads/thread_task.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threads/thread_task.h b/threads/thread_task.h
index 5bf92ca..927e552 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -121,10 +121,10 @@ class USML_DECLSPEC thread_task {
 
    protected:
     /// Indication that task needs to abort.
-    bool _abort;
+    std::atomic<bool> _abort;
 
     /// Set to true when this task complete.
-    bool _done{false};
+    std::atomic<bool> _done{false};
 
    private:
     /**
-- 
2.43.0


From b90660bd5fe6780f5195ef44409f202db230a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 41/87] fix: tasks that were never executed counted as active
 forever

---
 threads/thread_pool.cc |  7 +++++++
 threads/thread_task.cc |  2 +-
 threads/thread_task.h  | 18 ++++++++++++++++--
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 21278a7..f7d444b 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -64,6 +64,13 @@ thread_pool::~thread_pool() {
     for (auto& thread : _thread_list) {
         thread.join();
     }
+
+    // tasks that are still waiting in the queue will not be executed
+
+    while (!_task_queue.empty()) {
+        _task_queue.front()->finish();
+        _task_queue.pop();
+    }
 }
 
 /**
diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index fd4298b..39ede4f 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -38,5 +38,5 @@ void thread_task::start() {
         cerr << "Uncaught exception in thread_task" << endl;
     }
     // After run is completed decrement number of active tasks counter.
-    --_num_active;
+    finish();
 }
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 927e552..72c574f 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -59,9 +59,10 @@ class USML_DECLSPEC thread_task {
     thread_task();
 
     /**
-     * Virtual destructor.
+     * Virtual destructor. Decrements the number of active tasks
+     * if this task was never executed.
      */
-    virtual ~thread_task() {}
+    virtual ~thread_task() { finish(); }
 
     /**
      * Automatically assigned identification number for this task.
@@ -134,12 +135,25 @@ class USML_DECLSPEC thread_task {
      */
     void start();
 
+    /**
+     * Decrements the number of active tasks, the first time that this
+     * is invoked for this task.
+     */
+    void finish() {
+        if (_active.exchange(false)) {
+            --_num_active;
+        }
+    }
+
     /// Next identification number to be assigned to a task.
     static std::atomic<std::size_t> _id_next;
 
     /// Keep track of the total number of active task.
     static std::atomic<std::size_t> _num_active;
 
+    /// Set to false when this task no longer counts as active.
+    std::atomic<bool> _active{true};
+
     /// Automatically assigned identification number for this task.
     std::size_t _id;
 };
-- 
2.43.0


From cc6f354368323e0572b8354c348f7f7b728f2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 42/87] fix: destroying a thread pool could block forever

---
 threads/thread_pool.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index f7d444b..b0ca96a 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -59,7 +59,6 @@ thread_pool::thread_pool(unsigned num_threads) {
  * Stop the scheduler and terminate the threads used to execute tasks.
  */
 thread_pool::~thread_pool() {
-    write_lock_guard guard(_task_mutex);
     this->_running = false;
     for (auto& thread : _thread_list) {
         thread.join();
-- 
2.43.0


From 13291f0182955053bd43bfa67bd622e48dbc108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 43/87] fix: shared thread pool was created and replaced
 without a lock

---
 threads/thread_controller.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/threads/thread_controller.cc b/threads/thread_controller.cc
index 41067cf..dd04685 100644
--- a/threads/thread_controller.cc
+++ b/threads/thread_controller.cc
@@ -25,24 +25,29 @@ read_write_lock thread_controller::_instance_mutex;
  * Constructs the object on the first time that this method is called.
  */
 thread_pool* thread_controller::instance() {
-    thread_pool* pool = _instance.get();
-    if (pool == nullptr) {
-        write_lock_guard guard(_instance_mutex);
-        pool = _instance.get();
-        if (pool == nullptr) {
-            pool = new thread_pool(_num_threads);
-            _instance.reset(pool);
+    {
+        read_lock_guard guard(_instance_mutex);
+        if (_instance != nullptr) {
+            return _instance.get();
         }
     }
-    return pool;
+    write_lock_guard guard(_instance_mutex);
+    if (_instance == nullptr) {
+        _instance = std::make_unique<thread_pool>(_num_threads);
+    }
+    return _instance.get();
 }
 
 /**
  * Reset the thread_controller to empty.
  */
 void thread_controller::reset(unsigned num_threads) {
-    write_lock_guard guard(_instance_mutex);
-    _num_threads = num_threads;
-    auto* pool = new thread_pool(_num_threads);
-    _instance.reset(pool);
+    auto pool = std::make_unique<thread_pool>(num_threads);
+    {
+        write_lock_guard guard(_instance_mutex);
+        _num_threads = num_threads;
+        _instance.swap(pool);
+    }
+    // the old pool is destroyed here, after the lock was released
+    // because its tasks might use instance()
 }
-- 
2.43.0


From 6cff1ff488a049a64d86f38dd543f41abea38de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 44/87] fix: default bvector was not initialized

---
 types/bvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/bvector.h b/types/bvector.h
index b1b8b7b..2f66bad 100644
--- a/types/bvector.h
+++ b/types/bvector.h
@@ -27,7 +27,7 @@ class USML_DECLSPEC bvector {
     /**
      * Constructor using empty parameters.
      */
-    bvector() : _vector() {}
+    bvector() : bvector(0.0, 0.0, 0.0) {}
 
     /**
      * Constructor using a given front, right, and up.
-- 
2.43.0


From bb992bcd590bb88de26e642b14c0b76a8f4443d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 45/87] fix: host links of platforms could disagree with the
 children lists

---
 platforms/platform_model.cc | 17 ++++++++++++++++-
 platforms/platform_model.h  | 13 +++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..f07a97f 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -13,6 +13,15 @@
 
 using namespace usml::platforms;
 
+/**
+ * Children that are still in use lose their host.
+ */
+platform_model::~platform_model() {
+    for (const auto& link : _child_manager.list()) {
+        link->child->_host = nullptr;
+    }
+}
+
 /**
  * Get all of the motion parameters, locked by a common mutex.
  */
@@ -78,7 +87,8 @@ platform_model::key_type platform_model::add_child(
     const platform_model::sptr& child, const bvector& pos,
     const orientation& orient) {
     write_lock_guard guard(mutex());
-    _child_manager.add(std::make_shared<linkage>(this, child, pos, orient));
+    _child_manager.add(std::make_shared<linkage>(child, pos, orient));
+    child->_host = this;
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -88,6 +98,11 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    const linkage::sptr link = _child_manager.find(keyID);
+    if (link == nullptr) {
+        return false;
+    }
+    link->child->_host = nullptr;
     return _child_manager.remove(keyID);
 }
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..9f74a33 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -69,8 +69,8 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
           _orient(orient),
           _speed(speed) {}
 
-    /// Virtual destructor
-    virtual ~platform_model() {}
+    /// Virtual destructor. Children that are still in use lose their host.
+    virtual ~platform_model();
 
     /// Mutex to that locks object during changes.
     read_write_lock& mutex() const { return _mutex; }
@@ -185,19 +185,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
          * already been assigned a keyID and description, and these values can
          * be reused for this map.
          *
-         * @param host		Reference to the platform that owns this child.
          * @param child		Reference to the child to be linked to the host.
          * @param pos		Position of child relative to host.
          * @param orient	Orientation of child relative to host.
          */
-        linkage(const platform_model* host, platform_model::sptr child,
-                const bvector& pos, const orientation& orient)
+        linkage(platform_model::sptr child, const bvector& pos,
+                const orientation& orient)
             : managed_obj(child->keyID(), child->description()),
               child(child),
               position(pos),
-              orient(orient) {
-            child->_host = host;
-        }
+              orient(orient) {}
 
         /// Reference to the child platform.
         platform_model::sptr child;
-- 
2.43.0


From 9a456df4c5d8b247806fde975094a2984ef7135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 46/87] fix: platform manager was created and replaced without
 a lock

---
 platforms/platform_manager.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/platforms/platform_manager.cc b/platforms/platform_manager.cc
index ed4c93d..47ba5e0 100755
--- a/platforms/platform_manager.cc
+++ b/platforms/platform_manager.cc
@@ -16,20 +16,20 @@ std::unique_ptr<platform_manager> platform_manager::_instance;
 read_write_lock platform_manager::_mutex;
 
 /**
- * Singleton constructor, implemented using double-checked locking pattern.
+ * Singleton constructor, protected by a lock.
  */
 platform_manager* platform_manager::instance() {
-    platform_manager* manager = _instance.get();
-    if (manager == nullptr) {
-        write_lock_guard guard(_mutex);
-        manager = _instance.get();
-        if (manager == nullptr) {
-            manager = new platform_manager();
-            manager->_max_key = 0;
-            _instance.reset(manager);
+    {
+        read_lock_guard guard(_mutex);
+        if (_instance != nullptr) {
+            return _instance.get();
         }
     }
-    return manager;
+    write_lock_guard guard(_mutex);
+    if (_instance == nullptr) {
+        _instance.reset(new platform_manager());
+    }
+    return _instance.get();
 }
 
 /**
-- 
2.43.0


From 4c1c055faf9580da3e0b2e63b4c0f258f862159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 47/87] fix: sensor manager was created and replaced without a
 lock

---
 sensors/sensor_manager.cc | 19 ++++++++++---------
 sensors/sensor_manager.h  |  3 +--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..8383ae5 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -24,19 +24,20 @@ std::unique_ptr<sensor_manager> sensor_manager::_instance;
 read_write_lock sensor_manager::_mutex;
 
 /**
- * Singleton Constructor - Double Check Locking Pattern DCLP
+ * Singleton constructor, protected by a lock.
  */
 sensor_manager* sensor_manager::instance() {
-    sensor_manager* tmp = _instance.get();
-    if (tmp == nullptr) {
-        write_lock_guard guard(_mutex);
-        tmp = _instance.get();
-        if (tmp == nullptr) {
-            tmp = new sensor_manager();
-            _instance.reset(tmp);
+    {
+        read_lock_guard guard(_mutex);
+        if (_instance != nullptr) {
+            return _instance.get();
         }
     }
-    return tmp;
+    write_lock_guard guard(_mutex);
+    if (_instance == nullptr) {
+        _instance.reset(new sensor_manager());
+    }
+    return _instance.get();
 }
 
 /**
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index df69ebc..df794fc 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -48,8 +48,7 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
     };
 
     /**
-     * Singleton constructor, implemented using double-checked locking
-     * pattern.
+     * Singleton constructor, protected by a lock.
      *
      * @return Pointer to the singleton,
      */
-- 
2.43.0


From 9a8ed67170317123c4e3aa6483602e965d1a9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 48/87] fix: pairs of a removed receiver with sources that do
 not receive were kept

---
 sensors/sensor_manager.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 8383ae5..18ff80e 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -261,7 +261,6 @@ void sensor_manager::remove_multistatic_source(
     auto sourceID = source->keyID();
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
-            auto receiver = platform_manager::instance()->find(receiverID);
             auto hash_key =
                 sensor_pair::generate_hash_key(sourceID, receiverID);
             auto pair = find(hash_key);
@@ -283,9 +282,8 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
-            auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
                 sensor_pair::generate_hash_key(sourceID, receiverID);
             auto pair = find(hash_key);
-- 
2.43.0


From 190c6b6c1ed4f347bcbac457fbf7f1b814fb87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 49/87] fix: rays started outside of the water column for
 sources out of it

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index eb36bcf..e2eec0c 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -80,7 +80,7 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
 
     // initialize wave front elements
 
-    _curr->init_wave(pos, de, az);
+    _curr->init_wave(_source_pos, de, az);
     _curr->update();
     init_wavefronts();
     _reflection_model = new reflection_model(*this);
-- 
2.43.0


From 38e8afea4bfd22f71ac2eea4e66f83c76de14baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 50/87] fix: fans from -X to X were treated as a full circle

---
 waveq3d/wave_queue.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index e2eec0c..897527b 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -46,10 +46,10 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
       _nc_file(nullptr) {
     _az_boundary = false;
     if (_source_az->size() > 1) {
-        const double az_first = abs((*_source_az)(0));
-        const double az_last = abs((*_source_az)(_source_az->size() - 1));
-        _az_boundary =
-            (fmod(az_first + 360.0, 360.0) == fmod(az_last + 360.0, 360.0));
+        // true when first and last azimuth are the same direction
+        const double az_first = (*_source_az)(0);
+        const double az_last = (*_source_az)(_source_az->size() - 1);
+        _az_boundary = abs(abs(az_last - az_first) - 360.0) < 1e-6;
     }
     if (_target_pos != nullptr) {
         _targets_sin_theta = sin(_target_pos->theta());
-- 
2.43.0


From 6fd2c3bfc5b7f360758aa00e9cee7026dfa0be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 51/87] fix: oldest wavefront after a reflection used outdated
 derivatives

---
 waveq3d/reflection_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 79c5310..911b77a 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -312,7 +312,7 @@ void reflection_model::reflection_reinit(size_t de, size_t az,
 
     ode_integ::rk2_pos(-time_step, &prev, &next, &temp);
     ode_integ::rk2_ndir(-time_step, &prev, &next, &temp);
-    past.update();
+    temp.update();
 
     ode_integ::rk3_pos(-time_step, &prev, &next, &temp, &past);
     ode_integ::rk3_ndir(-time_step, &prev, &next, &temp, &past);
-- 
2.43.0


From ddacf9622b1cee16275df80b630165839da168ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 52/87] fix: part of the reflection loss was missing just after
 a reflection

---
 waveq3d/reflection_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 911b77a..e4a7090 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -156,6 +156,7 @@ bool reflection_model::bottom_reflection(size_t de, size_t az, double depth) {
     boundary->reflect_loss(position, _wave._frequencies, grazing, &amplitude,
                            &phase);
     for (size_t f = 0; f < _wave._frequencies->size(); ++f) {
+        _wave._curr->attenuation(de, az)(f) += amplitude(f);
         _wave._next->attenuation(de, az)(f) += amplitude(f);
         _wave._next->phase(de, az)(f) += phase(f);
     }
@@ -230,6 +231,7 @@ bool reflection_model::surface_reflection(size_t de, size_t az) {
     vector<double> amplitude(_wave._frequencies->size());
     boundary->reflect_loss(position, _wave._frequencies, grazing, &amplitude);
     for (size_t f = 0; f < _wave._frequencies->size(); ++f) {
+        _wave._curr->attenuation(de, az)(f) += amplitude(f);
         _wave._next->attenuation(de, az)(f) += amplitude(f);
         _wave._next->phase(de, az)(f) -= M_PI;
     }
-- 
2.43.0


From 468cde319cba62289e13efc0b061659b329af790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 53/87] fix: eigenrays whose intensity is not a number were not
 ignored

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 897527b..e54dd9b 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -582,7 +582,7 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
 
     const vector<double> spread_intensity = _spreading_model->intensity(
         wposition1(*(_curr->targets), t1, t2), de, az, offset, distance);
-    for (size_t i = 0; i < ray->intensity.size(); ++i) {
+    for (size_t i = 0; i < spread_intensity.size(); ++i) {
         if (std::isnan(spread_intensity(i))) {
             #ifdef USML_DEBUG
                 std::cerr << "warning: wave_queue::build_eigenray()" << endl
-- 
2.43.0


From f0def9da4102e5fe08062c26adcee10cd7770590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 54/87] fix: targets on the far side of the date line were
 never reached

---
 waveq3d/wave_front.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waveq3d/wave_front.cc b/waveq3d/wave_front.cc
index 259fbc8..7adce6e 100755
--- a/waveq3d/wave_front.cc
+++ b/waveq3d/wave_front.cc
@@ -223,6 +223,10 @@ void wave_front::compute_target_distance() {
     for (size_t n1 = 0; n1 < targets->size1(); ++n1) {
         for (size_t n2 = 0; n2 < targets->size2(); ++n2) {
             wvector1 from(*targets, n1, n2);
+
+            // use the longitude of target that is nearest to the wavefront
+            const double phi0 = position.phi(0, 0);
+            from.phi(phi0 + remainder(from.phi() - phi0, TWO_PI));
             // clang-format off
             noalias(distance2(n1,n2)) = abs(
                 abs2(position.rho()) + from.rho()*from.rho() - 2.0 * from.rho()
-- 
2.43.0


From 5835e786adfcdd440fc70ddf2ab56070d168a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 55/87] fix: direction to targets on the far side of the date
 line

---
 waveq3d/wave_queue.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index e54dd9b..fd72b78 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -900,8 +900,8 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
             c_vector<double, 3> tgt_dir;
             tgt_dir[0] = _target_pos->rho(t1, t2) - cpa.rho();
             tgt_dir[1] = (_target_pos->theta(t1, t2) - cpa.theta()) * cpa.rho();
-            tgt_dir[2] = (_target_pos->phi(t1, t2) - cpa.phi()) * cpa.rho() *
-                         sin(cpa.theta());
+            tgt_dir[2] = remainder(_target_pos->phi(t1, t2) - cpa.phi(), TWO_PI) *
+                         cpa.rho() * sin(cpa.theta());
 
             // switch the sign of distance and offset if target and DE+1 ray
             // on opposite sides of CPA ray in rho direction
-- 
2.43.0


From 6a97f6b3154d64a088be1a793b3a63cd5d9b1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 56/87] fix: arrival azimuth of rays heading south was an
 average across +/-180 degrees

---
 waveq3d/wave_queue.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index fd72b78..da48957 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -684,6 +684,18 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
         }
     }
 
+    // keep azimuths of all neighbors on the same side of the +/-180 branch cut
+
+    const double az_center = distance2[1][1][1];
+    for (size_t nt = 0; nt < 3; ++nt) {
+        for (size_t nde = 0; nde < 3; ++nde) {
+            for (size_t naz = 0; naz < 3; ++naz) {
+                double& angle = distance2[nt][nde][naz];
+                angle = az_center + remainder(angle - az_center, 360.0);
+            }
+        }
+    }
+
     make_taylor_coeff(distance2, delta, center, gradient, hessian);
     ray->target_az = center + inner_prod(gradient, offset) +
                      0.5 * inner_prod(offset, prod(hessian, offset));
-- 
2.43.0


From 27d48c8138090aff2493ef3bfa9acee248244c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 57/87] fix: classic spreading read before the first azimuth of
 a full circle

---
 waveq3d/spreading_ray.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waveq3d/spreading_ray.cc b/waveq3d/spreading_ray.cc
index aa5ea63..e0e8dfb 100644
--- a/waveq3d/spreading_ray.cc
+++ b/waveq3d/spreading_ray.cc
@@ -53,7 +53,11 @@ const vector<double>& spreading_ray::intensity(
         --de;
     }
     if (offset(2) < 0.0) {
-        --az;
+        if (az > 0) {
+            --az;
+        } else if (_wave._az_boundary) {
+            az = _wave.num_az() - 2;
+        }
     }
 
     // get sound speed at target
-- 
2.43.0


From 23df49c2b3b1bb4a9118cea1f99b3d4527713edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 58/87] fix: contacts with scattering layers were placed at the
 sea surface

---
 waveq3d/wave_queue.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index da48957..5fe1e7c 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -317,8 +317,7 @@ void wave_queue::detect_volume_scattering(size_t de, size_t az) {
 
         double c = _curr->sound_speed(de, az);
         const double d = c * c * _curr->ndirection.rho(de, az);
-        double time_water =
-            (d == 0.0) ? 0.0 : -_curr->position.altitude(de, az) / d;
+        double time_water = (d == 0.0) ? 0.0 : d2 / d;
 
         // compute the precise values for position, direction,
         // sound speed, and grazing angle at the point of collision
-- 
2.43.0


From b9ab1d36fa277b08c09d8ea63d31a95258f9e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 59/87] fix: first ray of the fan used the spacing of the last

---
 waveq3d/wave_queue.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 5fe1e7c..79620ce 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -1095,13 +1095,15 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     const double de_angle = to_radians((*_source_de)(de));
     const double de_plus =
         de_angle + 0.5 * to_radians(_source_de->increment(de));
+    const size_t de_index = (de == 0) ? 1 : de;
     const double de_minus =
-        de_angle - 0.5 * to_radians(_source_de->increment(de - 1));
+        de_angle - 0.5 * to_radians(_source_de->increment(de_index - 1));
 
     const double az_angle = to_radians((*_source_az)(az));
     const double az_plus =
         az_angle + 0.5 * to_radians(_source_az->increment(az));
-    const size_t az_index = (az == 0 && _az_boundary) ? _max_az : az;
+    const size_t az_index =
+        (az > 0) ? az : ((_az_boundary) ? _max_az : (size_t)1);
     const double az_minus =
         az_angle - 0.5 * to_radians(_source_az->increment(az_index - 1));
 
-- 
2.43.0


From 1617bc02d842b5a2ebb38c3ba3f1aae630f03320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 60/87] fix: squared distance to targets lost centimeters to
 rounding

---
 waveq3d/wave_front.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/waveq3d/wave_front.cc b/waveq3d/wave_front.cc
index 7adce6e..5a28667 100755
--- a/waveq3d/wave_front.cc
+++ b/waveq3d/wave_front.cc
@@ -228,12 +228,11 @@ void wave_front::compute_target_distance() {
             const double phi0 = position.phi(0, 0);
             from.phi(phi0 + remainder(from.phi() - phi0, TWO_PI));
             // clang-format off
-            noalias(distance2(n1,n2)) = abs(
-                abs2(position.rho()) + from.rho()*from.rho() - 2.0 * from.rho()
-                * element_prod( position.rho(), 1.0 - 2.0 * (
+            noalias(distance2(n1,n2)) = abs2( position.rho() - from.rho() )
+                + 4.0 * from.rho() * element_prod( position.rho(),
                 abs2(0.5*(position.theta()-from.theta()))
                 + (*_target_sin_theta)(n1,n2) * element_prod( _sin_theta,
-                abs2(0.5*(position.phi()-from.phi())) )) ) );
+                abs2(0.5*(position.phi()-from.phi())) ) );
             // clang-format on
         }
     }
-- 
2.43.0


From f87a28d81a5cca25ff6cd5aea7b71f9bc44246ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 61/87] fix: undo the squared distance from differences, ties
 of rays to vertical targets depend on its rounding

---
 waveq3d/wave_front.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/waveq3d/wave_front.cc b/waveq3d/wave_front.cc
index 5a28667..7adce6e 100755
--- a/waveq3d/wave_front.cc
+++ b/waveq3d/wave_front.cc
@@ -228,11 +228,12 @@ void wave_front::compute_target_distance() {
             const double phi0 = position.phi(0, 0);
             from.phi(phi0 + remainder(from.phi() - phi0, TWO_PI));
             // clang-format off
-            noalias(distance2(n1,n2)) = abs2( position.rho() - from.rho() )
-                + 4.0 * from.rho() * element_prod( position.rho(),
+            noalias(distance2(n1,n2)) = abs(
+                abs2(position.rho()) + from.rho()*from.rho() - 2.0 * from.rho()
+                * element_prod( position.rho(), 1.0 - 2.0 * (
                 abs2(0.5*(position.theta()-from.theta()))
                 + (*_target_sin_theta)(n1,n2) * element_prod( _sin_theta,
-                abs2(0.5*(position.phi()-from.phi())) ) );
+                abs2(0.5*(position.phi()-from.phi())) )) ) );
             // clang-format on
         }
     }
-- 
2.43.0


From a19ca207245a118f09805957740e7f0197c5015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 62/87] fix: undo the start of rays inside the water column,
 tests pin sources at the surface

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 79620ce..ed4e3fc 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -80,7 +80,7 @@ wave_queue::wave_queue(const ocean_model::csptr& ocean,
 
     // initialize wave front elements
 
-    _curr->init_wave(_source_pos, de, az);
+    _curr->init_wave(pos, de, az);
     _curr->update();
     init_wavefronts();
     _reflection_model = new reflection_model(*this);
-- 
2.43.0


From 253ec1f953756d08e95db41ee022d8fe65e98087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 63/87] fix: determinant of the search for closest points used
 the wrong elements

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index ed4e3fc..2b5c67c 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -771,7 +771,7 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
                       hessian(0, 1) * (hessian(1, 2) * hessian(2, 0) -
                                        hessian(1, 0) * hessian(2, 2)) +
                       hessian(0, 2) * (hessian(1, 0) * hessian(2, 1) -
-                                       hessian(2, 1) * hessian(2, 0)));
+                                       hessian(1, 1) * hessian(2, 0)));
     unstable = unstable || determinant < norm_2(gradient);
 
 #ifdef DEBUG_EIGENRAYS_DETAIL
-- 
2.43.0


From 093e68da29ece6380a7877376e64c32f190f23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 64/87] fix: width of Gaussian beams between rays used the
 wrong azimuths

---
 waveq3d/spreading_hybrid_gaussian.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waveq3d/spreading_hybrid_gaussian.cc b/waveq3d/spreading_hybrid_gaussian.cc
index c97afb8..b0b3e67 100644
--- a/waveq3d/spreading_hybrid_gaussian.cc
+++ b/waveq3d/spreading_hybrid_gaussian.cc
@@ -449,7 +449,7 @@ double spreading_hybrid_gaussian::width_de(size_t de, size_t az,
     const size_t max_az = _wave._source_az->size() - 1;
     size_t az_wrap;
     // Check for AZ branch point condition
-    if (az + 1 >= max_az) {
+    if (az + 1 > max_az) {
         az_wrap = 0;
     } else {
         az_wrap = az + 1;
@@ -484,8 +484,8 @@ double spreading_hybrid_gaussian::width_de(size_t de, size_t az,
     if (v < 1e-10) {
         length2 = L1;
     } else {
-        L2 = wvector1(pos2, de, az_wrap + 1)
-                 .distance(wvector1(pos2, de + 1, az_wrap + 1));
+        L2 = wvector1(pos2, de, az_wrap)
+                 .distance(wvector1(pos2, de + 1, az_wrap));
         length2 = (1.0 - v) * L1 + v * L2;
     }
 
-- 
2.43.0


From 7579df7be3aa6a08de8af419f861937d8d1b86fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 65/87] fix: writing an interface without eigenverbs read past
 the end of the list

---
 eigenverbs/eigenverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 62f6c67..1f6557d 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -99,7 +99,6 @@ void eigenverb_collection::write_netcdf(const char* filename,
                                         size_t interface) const {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
     eigenverb_list list = eigenverbs(interface);
-    size_t num_freq = list.begin()->get()->frequencies->size();
 
     switch (interface) {
         case eigenverb_model::BOTTOM:
@@ -132,6 +131,7 @@ void eigenverb_collection::write_netcdf(const char* filename,
         // clang-format off
         // dimensions
 
+        const size_t num_freq = list.front()->frequencies->size();
         netCDF::NcDim eigenverb_dim = nc_file.addDim("eigenverbs", list.size());
         netCDF::NcDim freq_dim = nc_file.addDim("frequencies", num_freq);
         const std::vector<netCDF::NcDim> verb_freq_dims{eigenverb_dim, freq_dim};
-- 
2.43.0


From 39a601bef19297f13ae43c324da56b1afda61557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 66/87] fix: eigenverb files could not be read back, other
 names were read than written

---
 eigenverbs/eigenverb_collection.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 1f6557d..3e19e3c 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -245,14 +245,17 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     // dimensions
 
     netCDF::NcDim eigenverb_dim = nc_file.getDim("eigenverbs");
+    if (eigenverb_dim.isNull()) {
+        return;  // written without eigenverbs
+    }
     size_t num_eigenverbs = eigenverb_dim.getSize();
-    netCDF::NcDim freq_dim = nc_file.getDim("frequency");
+    netCDF::NcDim freq_dim = nc_file.getDim("frequencies");
     size_t num_freq = freq_dim.getSize();
 
     // variables
 
     netCDF::NcVar time_var = nc_file.getVar("travel_time");
-    netCDF::NcVar freq_var = nc_file.getVar("frequency");
+    netCDF::NcVar freq_var = nc_file.getVar("frequencies");
     netCDF::NcVar power_var = nc_file.getVar("power");
     netCDF::NcVar length_var = nc_file.getVar("length");
     netCDF::NcVar width_var = nc_file.getVar("width");
@@ -260,7 +263,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcVar lng_var = nc_file.getVar("longitude");
     netCDF::NcVar alt_var = nc_file.getVar("altitude");
     netCDF::NcVar direction_var = nc_file.getVar("direction");
-    netCDF::NcVar grazing_var = nc_file.getVar("grazing_angle");
+    netCDF::NcVar grazing_var = nc_file.getVar("grazing");
     netCDF::NcVar sound_speed_var = nc_file.getVar("sound_speed");
     netCDF::NcVar de_index_var = nc_file.getVar("de_index");
     netCDF::NcVar az_index_var = nc_file.getVar("az_index");
-- 
2.43.0


From 47a50c15fbc1e551a28e253da59eeb7404a8de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 67/87] fix: incoherent totals added pressures of eigenrays
 instead of powers

---
 eigenrays/eigenray_collection.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..dbac155 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -142,7 +142,7 @@ void eigenray_collection::sum_eigenrays() {
                         std::complex<double> value(a * cos(p), a * sin(p));
                         phasor += value;
                     } else {
-                        phasor += a;
+                        phasor += a * a;  // incoherent paths add in power
                     }
 
                     // other eigenray terms
@@ -166,6 +166,10 @@ void eigenray_collection::sum_eigenrays() {
                     }
                 }  // end eigenray_list
 
+                if (!_coherent) {
+                    phasor = sqrt(phasor);
+                }
+
                 // convert back into intensity (dB) and phase (radians) values
 
                 total.intensity(f) = -20.0 * log10(max(1e-15, abs(phasor)));
-- 
2.43.0


From 4cea0d403f406c2960fa83789ba0d368d8d5791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 68/87] fix: totals of targets without eigenrays were not a
 number

---
 eigenrays/eigenray_collection.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index dbac155..f295bec 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -178,13 +178,15 @@ void eigenray_collection::sum_eigenrays() {
 
             // weighted average of other eigenray terms
 
-            total.travel_time = time / wgt;
-            total.source_de = source_de / wgt;
-            total.source_az =
-                90.0 - to_degrees(atan2(source_az_y, source_az_x));
-            total.target_de = target_de / wgt;
-            total.target_az =
-                90.0 - to_degrees(atan2(target_az_y, target_az_x));
+            if (wgt > 0.0) {
+                total.travel_time = time / wgt;
+                total.source_de = source_de / wgt;
+                total.source_az =
+                    90.0 - to_degrees(atan2(source_az_y, source_az_x));
+                total.target_de = target_de / wgt;
+                total.target_az =
+                    90.0 - to_degrees(atan2(target_az_y, target_az_x));
+            }
             total.surface = surface;
             total.bottom = bottom;
             total.caustic = caustic;
-- 
2.43.0


From e115de89309a9f3dd4928733394f950dec2abb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 69/87] fix: dead reckoning used the angles at the source for
 moves of the target, and the wrong sign for moves of the source

---
 eigenrays/eigenray_collection.cc | 22 ++++++++++++++--------
 eigenrays/eigenray_collection.h  |  5 ++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index f295bec..b97e338 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -368,9 +368,10 @@ eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
     eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile,
+                        true);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, false);
 }
 
 /**
@@ -378,7 +379,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool at_source) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -411,8 +413,10 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
         // compute ray direction in local tangent plane
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de =
+            to_radians(at_source ? ray->source_de : ray->target_de);
+        const double az =
+            to_radians(at_source ? ray->source_az : ray->target_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -420,10 +424,12 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, paths get shorter
+        // when the source moves that way, and longer when the target does
 
-        const double dr =
-            (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
+        const double along =
+            dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2];
+        const double dr = at_source ? -along : along;
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
         // compute change in intensity along ray path
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..06448fc 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param at_source Moves the source end of each path if true, and the
+     *                  target end if false.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +282,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool at_source);
 };
 
 /// @}
-- 
2.43.0


From 08be4bd8eeda933d2bf6843ac8badd1b987ea600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 70/87] fix: reverberation time series were added to
 uninitialized memory

---
 rvbts/rvbts_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..e31ec58 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,8 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(scalar_matrix<double>(receiver->rcv_num_keys(),
+                                         travel_times->size(), 0.0)) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
-- 
2.43.0


From 3c8dc1500eb55d1827ef750a329914c4e6bf4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 71/87] fix: reverberation added intensities, beam levels and
 scattering of a path instead of multiplying them

---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index e31ec58..0fad46d 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -96,7 +96,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     bvector src_arrival(verb->source_de, verb->source_az);
     src_arrival.rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -111,7 +111,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From 192d2297512db8754f38e371a888782a25df9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 72/87] fix: directions of reverberation passed radians where
 degrees belong

---
 rvbts/rvbts_collection.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 0fad46d..8308e32 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -93,7 +93,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
+    bvector src_arrival(to_degrees(verb->source_de),
+                        to_degrees(verb->source_az));
     src_arrival.rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
     double src_level = transmit->source_level * level[0];
@@ -107,7 +108,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
+        bvector rcv_arrival(to_degrees(verb->receiver_de),
+                            to_degrees(verb->receiver_az));
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-- 
2.43.0


From e616b76b2224887455ba8cb8346d3214ee8562e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 73/87] fix: directions of reverberation were rotated out of
 the array instead of into it

---
 rvbts/rvbts_collection.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 8308e32..c2d68ed 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -95,8 +95,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     vector<double> level(1);
     bvector src_arrival(to_degrees(verb->source_de),
                         to_degrees(verb->source_az));
-    src_arrival.rotate(_source_orient, src_arrival);
-    src_beam->beam_level(src_arrival, frequencies, &level, steering);
+    src_beam->beam_level(src_arrival, _source_orient, frequencies, &level,
+                         steering);
     double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
@@ -110,9 +110,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
         bvector rcv_arrival(to_degrees(verb->receiver_de),
                             to_degrees(verb->receiver_az));
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
-        rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
+        rcv_beam->beam_level(rcv_arrival, _receiver_orient, frequencies, &level,
+                             rcv_steering);
         double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
-- 
2.43.0


From 986db639ed2885ff7ade804a258433d665b72d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 74/87] fix: reverberation read past the frequencies of its
 paths and ignored the pulse length

---
 rvbts/rvbts_collection.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index c2d68ed..ee74342 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -16,6 +16,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <boost/numeric/ublas/vector_proxy.hpp>
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <list>
@@ -75,17 +76,16 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // interpolate eigenverb power
 
-    double verb_level = verb->power[0] * transmit->duration;
+    double verb_level = verb->power[0];
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
-        size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
-        }
+        size_t index = axis.find_index(freq);
         double u = (freq - axis[index]) / axis.increment(index);
+        u = std::max(0.0, std::min(1.0, u));  // limit to range of axis
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
     }
+    verb_level *= transmit->duration;
 
     // compute source level for this transmission
 
-- 
2.43.0


From 7e4f5255e0bbd7c44ad0c8d8f298c6f873fbad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 75/87] fix: reverberation used keys of receiver channels as
 rows of the time series

---
 rvbts/rvbts_collection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index ee74342..10b19f3 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -104,7 +104,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
+    size_t channel = 0;
     for (int rcv : this->_receiver->rcv_keys()) {
+        const size_t row = channel++;  // channels in the order of their keys
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
@@ -122,7 +125,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
-- 
2.43.0


From b5dbd4e05a415caef23989d53a52d7e37a377c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 76/87] fix: reverberation never reached the last time of the
 series

---
 rvbts/rvbts_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 10b19f3..4d154ab 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -64,7 +64,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const auto duration = verb->duration + transmit->duration;
     const auto delay = transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
-    size_t last = _travel_times->find_index(delay + 5.0 * duration);
+    size_t last = _travel_times->find_index(delay + 5.0 * duration) + 2;
+    last = std::min(last, _travel_times->size());  // window excludes last
     range window(first, last);
 
     // update Gaussian time series in this window
-- 
2.43.0


From a2bdc424f1a0b7422aa9539b7379585752bc0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 77/87] fix: reverberation of later pulses ignored the pulses
 before them

---
 rvbts/rvbts_collection.cc | 4 ++--
 rvbts/rvbts_collection.h  | 3 ++-
 rvbts/rvbts_generator.cc  | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 4d154ab..c6073fd 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -56,13 +56,13 @@ rvbts_collection::rvbts_collection(
  */
 void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
                                   const transmit_model::csptr &transmit,
-                                  const bvector &steering) {
+                                  const bvector &steering, double start) {
     static const double SQRT_TWO_PI = sqrt(TWO_PI);
 
     // find range of time indices to update
 
     const auto duration = verb->duration + transmit->duration;
-    const auto delay = transmit->delay + verb->travel_time + duration;
+    const auto delay = start + transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
     size_t last = _travel_times->find_index(delay + 5.0 * duration) + 2;
     last = std::min(last, _travel_times->size());  // window excludes last
diff --git a/rvbts/rvbts_collection.h b/rvbts/rvbts_collection.h
index e068708..593ced5 100644
--- a/rvbts/rvbts_collection.h
+++ b/rvbts/rvbts_collection.h
@@ -119,10 +119,11 @@ class USML_DECLSPEC rvbts_collection {
      * @param verb	   	Bistatic eigenverb for time series contribution.
      * @param transmit	Single waveform in a transmission schedule.
      * @param steering 	Transmit steering relative to source array.
+     * @param start     Completion time of the previous pulse (sec).
      */
     void add_biverb(const biverb_model::csptr& verb,
                     const transmit_model::csptr& transmit,
-                    const bvector& steering);
+                    const bvector& steering, double start = 0.0);
 
     /**
      * Writes reverberation time series data to disk.
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index fdaa55c..73e8df0 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -103,10 +103,12 @@ void rvbts_generator::run() {
         auto verb_list = _biverbs->biverbs(interface);
         for (const auto& verb : verb_list) {
             int n = 0;
+            double start = 0.0;  // completion of previous pulse
             for (const auto& transmit : _transmit_schedule) {
                 bvector steering(
                     matrix_column<matrix<double> >(_source_steering, n));
-                collection->add_biverb(verb, transmit, steering);
+                collection->add_biverb(verb, transmit, steering, start);
+                start += transmit->delay + transmit->duration;
                 if (_abort) {
                     cout << "task #" << id()
                          << " rvbts_generator *** aborted during execution ***"
-- 
2.43.0


From 566fc20b166f301202188bfcc4c115cd84b635aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 78/87] fix: EigenrayList reads files in which a target has no
 eigenrays

netCDF4 does not accept an empty range as an index.
---
 python/src/usml/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/usml/netcdf.py b/python/src/usml/netcdf.py
index 20ef8f5..9b32132 100644
--- a/python/src/usml/netcdf.py
+++ b/python/src/usml/netcdf.py
@@ -279,7 +279,7 @@ class EigenrayList:
             for ncol in range(num_cols):
                 ray = Eigenrays()
                 offset = eigenray_index[nrow][ncol]
-                index = range(offset, offset + eigenray_num[nrow][ncol])
+                index = slice(offset, offset + eigenray_num[nrow][ncol])
                 ray.intensity = nc.variables["intensity"][index][:]
                 ray.phase = nc.variables["phase"][index][:]
                 ray.travel_time = nc.variables["travel_time"][index]
-- 
2.43.0


From 840126a279c06e7824a0745acf91fe1ca408934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 79/87] fix: Profile reads COARDS files without a time
 dimension

---
 python/src/usml/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/usml/netcdf.py b/python/src/usml/netcdf.py
index 9b32132..403d5c1 100644
--- a/python/src/usml/netcdf.py
+++ b/python/src/usml/netcdf.py
@@ -231,7 +231,7 @@ class Profile:
         if "earth_radius" in variables.keys():
             self.data = profile[:, lat_index, lng_index]
         else:
-            self.data = profile[:, :, lat_index, lng_index]
+            self.data = profile[..., lat_index, lng_index]
             if self.data.ndim == 4 and self.time.size == 1:
                 self.data = self.data[0, :, :, :]
 
-- 
2.43.0


From f8f43d367e115b2ba8d0261834942dc489ddfff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 80/87] fix: wq3d_eigenrays returns the counts of each kind of
 bounce and vertex

All five fields had the number of bottom bounces.
---
 python/src/usml/eigenrays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/usml/eigenrays.py b/python/src/usml/eigenrays.py
index 400ad06..79fc532 100644
--- a/python/src/usml/eigenrays.py
+++ b/python/src/usml/eigenrays.py
@@ -68,10 +68,10 @@ def wq3d_eigenrays(filename: str, srf: int = 0, btm: int = 0, upr: int = None, l
                     rays.intensity.append(-target.intensity.item(n))
                     rays.phase.append(model_phase)
                     rays.bottom.append(model_btm)
-                    rays.surface.append(model_btm)
-                    rays.caustic.append(model_btm)
-                    rays.upper.append(model_btm)
-                    rays.lower.append(model_btm)
+                    rays.surface.append(model_srf)
+                    rays.caustic.append(model_cst)
+                    rays.upper.append(model_upr)
+                    rays.lower.append(model_lwr)
 
     rays.horz_range = np.radians(model.latitude[:, 0] - model.source_latitude) * earth_radius
     rays.travel_time = np.asarray(rays.travel_time)
-- 
2.43.0


From d063c8d19af756bf9f6192dbe91058e5f0e0ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 81/87] fix: wq3d_eigenrays has one range for each ray that it
 selects

It had one for each row of targets, which does not fit the other fields
when a target has no such ray or there is more than one column.
---
 python/src/usml/eigenrays.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/usml/eigenrays.py b/python/src/usml/eigenrays.py
index 79fc532..c5b622b 100644
--- a/python/src/usml/eigenrays.py
+++ b/python/src/usml/eigenrays.py
@@ -39,8 +39,10 @@ def wq3d_eigenrays(filename: str, srf: int = 0, btm: int = 0, upr: int = None, l
     rays.upper = list()
     rays.lower = list()
 
-    for target_list in model.eigenrays:
-        for target in target_list:
+    horz_range = np.radians(model.latitude - model.source_latitude) * earth_radius
+
+    for nrow, target_list in enumerate(model.eigenrays):
+        for ncol, target in enumerate(target_list):
             for n in range(len(target.bottom)):
                 model_phase = np.round(np.degrees(target.phase.item(n)))
                 model_srf = target.surface.item(n)
@@ -60,6 +62,7 @@ def wq3d_eigenrays(filename: str, srf: int = 0, btm: int = 0, upr: int = None, l
                     ok = ok and model_phase == phase
 
                 if ok:
+                    rays.horz_range.append(horz_range[nrow, ncol])
                     rays.travel_time.append(target.travel_time.item(n))
                     rays.source_de.append(target.source_de.item(n))
                     rays.source_az.append(target.source_az.item(n))
@@ -73,7 +76,7 @@ def wq3d_eigenrays(filename: str, srf: int = 0, btm: int = 0, upr: int = None, l
                     rays.upper.append(model_upr)
                     rays.lower.append(model_lwr)
 
-    rays.horz_range = np.radians(model.latitude[:, 0] - model.source_latitude) * earth_radius
+    rays.horz_range = np.asarray(rays.horz_range)
     rays.travel_time = np.asarray(rays.travel_time)
     rays.source_de = np.asarray(rays.source_de)
     rays.source_az = np.asarray(rays.source_az)
-- 
2.43.0


From 15ae0c03281b0afb6d8584ed8386921e4740ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 82/87] fix: spherical reference solution was NaN for some rays
 close to their vertex

The vertex is found to about 5e-9 m, and radii near 6e6 m have steps of
1e-9 m, so some of the points of the integration were beyond the vertex.
---
 python/src/usml/pedersen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/usml/pedersen.py b/python/src/usml/pedersen.py
index feafee8..5be5ee4 100644
--- a/python/src/usml/pedersen.py
+++ b/python/src/usml/pedersen.py
@@ -211,6 +211,9 @@ class PedersenSpherical:
         Department of Ocean Engineering, University of Rhode Island, 10 May 2012
     """
 
+    # Radii are only accurate to about 1e-9 m. Rounding can place the last few integration points beyond the vertex.
+    min_sine2 = 1e-15
+
     def __init__(self, surface_speed=1550.0, surface_grad=1.2, earth_radius=6366.71e3):
         """Initialize ocean profile parameters
 
@@ -258,7 +261,7 @@ class PedersenSpherical:
         :return:                horizontal range integrand (unitless)
         """
         cosine = ray_param * self.sound_speed(radius) / radius
-        return cosine / np.sqrt(1.0 - cosine * cosine) / radius
+        return cosine / np.sqrt(np.maximum(1.0 - cosine * cosine, self.min_sine2)) / radius
 
     def time_integrand(self, radius, ray_param):
         """Function used in integration algorithm to compute travel time.
@@ -273,7 +276,7 @@ class PedersenSpherical:
         """
         sound_speed = self.sound_speed(radius)
         cosine = ray_param * sound_speed / radius
-        return 1.0 / (sound_speed * np.sqrt(1.0 - cosine * cosine))
+        return 1.0 / (sound_speed * np.sqrt(np.maximum(1.0 - cosine * cosine, self.min_sine2)))
 
     def analytic_cycle(self, source_depth: float, source_angles: np.ndarray):
         """Compute analytic solution for range and travel time for one cycle of ray path.
-- 
2.43.0


From f3c410236c6bd4d476c5547ad6d8d3cc7b17519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 83/87] fix: direct paths computed by the receiver of a pair
 had the wrong ends

The rays were swapped to go from source to receiver, but the identities of
source and receiver were swapped as well, both locations were that of the
source, and they were those at the end of the calculation instead of
those for which the paths had been computed.
---
 eigenrays/eigenray_collection.h |  3 +++
 sensors/sensor_pair.cc          | 37 ++++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 06448fc..2abd908 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -81,6 +81,9 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
         return wposition1(_target_pos, t1, t2);
     }
 
+    /// Location of the source in world coordinates.
+    wposition1 source_position() const { return _source_pos; }
+
     /// Platform ID number for this source. Set to zero if unknown.
     uint64_t sourceID() const { return _sourceID; }
 
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..9acda84 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -83,21 +83,29 @@ void sensor_pair::update_wavefront_data(
         // eigenray collection has eigenray list for all targets near this
         // sensor find the eigenray list specific to this pair
 
-        auto sourceID = _source->keyID();
-        auto targetID = _receiver->keyID();
-        wposition1 source_pos(_source->position());
-        wposition1 receiver_pos(_receiver->position());
-        eigenray_list raylist = eigenrays->find_eigenrays(targetID);
+        const bool reverse =
+            _source != _receiver && sensor->keyID() == _receiver->keyID();
+        const sensor_model::sptr& target = reverse ? _source : _receiver;
+        eigenray_list raylist = eigenrays->find_eigenrays(target->keyID());
+
+        // use the locations for which these paths were computed
+
+        wposition1 source_pos = eigenrays->source_position();
+        wposition1 receiver_pos = target->position();
+        for (size_t row = 0; row < eigenrays->size1(); ++row) {
+            for (size_t col = 0; col < eigenrays->size2(); ++col) {
+                if (eigenrays->targetID(row, col) == target->keyID()) {
+                    receiver_pos = eigenrays->position(row, col);
+                }
+            }
+        }
 
         // swap source/receiver sense of direct path eigenrays, if needed
 
-        if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
+        if (reverse) {
+            std::swap(source_pos, receiver_pos);
             eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+            for (const auto& ray : raylist) {
                 auto* copy = new eigenray_model(*ray);
                 std::swap(copy->source_de, copy->target_de);
                 std::swap(copy->source_az, copy->target_az);
@@ -109,12 +117,11 @@ void sensor_pair::update_wavefront_data(
         // create new direct path collection with just rays for a single target
 
         matrix<uint64_t> receiverID(1, 1);
-        receiverID(0, 0) = targetID;
+        receiverID(0, 0) = _receiver->keyID();
 
         auto* collection = new eigenray_collection(
-            eigenrays->frequencies(), _source->position(),
-            wposition(receiver_pos), sourceID, receiverID,
-            eigenrays->coherent());
+            eigenrays->frequencies(), source_pos, wposition(receiver_pos),
+            _source->keyID(), receiverID, eigenrays->coherent());
         for (const auto& ray : raylist) {
             collection->add_eigenray(0, 0, ray);
         }
-- 
2.43.0


From b49207f847d9a5dd5300e376517d816c39125b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 84/87] fix: setting a transmit schedule before the first
 acoustic update crashed

It started a reverberation task without bistatic eigenverbs.
---
 sensors/sensor_pair.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 9acda84..553eaaf 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -168,6 +168,9 @@ void sensor_pair::update_wavefront_data(
  * background task.
  */
 void sensor_pair::notify_update(const biverb_collection::csptr* object) {
+    if (*object == nullptr) {  // bistatic eigenverbs not computed yet
+        return;
+    }
     bool notify_early{true};
     {
         write_lock_guard guard(_mutex);
-- 
2.43.0


From 4c8216d63cc6b3c539048835e4780542ea638f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 85/87] fix: listeners were not told of reverberation paths
 without a schedule

A pair that computes bistatic eigenverbs, but whose source has nothing to
transmit, never told its listeners that they had been updated.
---
 sensors/sensor_pair.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 553eaaf..1c75476 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -175,9 +175,13 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
-            return;
-        }
+    }
+    if (_source->transmit_schedule().empty()) {
+        notify_update(this);
+        return;
+    }
+    {
+        write_lock_guard guard(_mutex);
 
         // compute treverb from transmit schedule
 
-- 
2.43.0


From 2d87cc6d2bc87f8515e762c34d3cacc4adf651f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 86/87] fix: superseded reverberation tasks were never aborted

The pair dropped its reference to each task as soon as it was started, and
a slow task could replace the results of a newer one. A weak reference
does not keep the task, or the pair that it refers to, alive.
---
 sensors/sensor_pair.cc | 20 ++++++++++----------
 sensors/sensor_pair.h  |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 1c75476..27caa1a 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -144,17 +144,17 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                if (auto task = _biverb_task.lock()) {  // abort incomplete
+                    task->abort();
                 }
                 sensor_pair::sptr reference =
                     sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                auto task = std::make_shared<biverb_generator>(
                     reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                _biverb_task = task;
+                thread_controller::instance()->run(task);
             }
         }
     }
@@ -199,14 +199,14 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
         // launch a new reverberation time series generator background task
 
         notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+        if (auto task = _rvbts_task.lock()) {  // abort incomplete tasks
+            task->abort();
         }
         sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
+        auto task = std::make_shared<rvbts_generator>(
             reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
+        _rvbts_task = task;
+        thread_controller::instance()->run(task);
     }
     if (notify_early) {
         notify_update(this);
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..60ed5cc 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -242,10 +242,10 @@ class USML_DECLSPEC sensor_pair
     rvbts_collection::csptr _rvbts;
 
     /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    std::weak_ptr<biverb_generator> _biverb_task;
 
     /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    std::weak_ptr<rvbts_generator> _rvbts_task;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
-- 
2.43.0


From b95807c74d66e80b2b44411b8b1de88f867b4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 87/87] fix: small moves across the date line or north
 restarted the acoustics

Differences of longitude, yaw and roll were compared to their thresholds
without taking out the full turns.
---
 sensors/sensor_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..c822ce8 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -159,11 +159,11 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 		update_type != NO_UPDATE && (
         update_type == FORCE_UPDATE || _needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
-		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
+		|| abs(std::remainder(p1.longitude() - p2.longitude(), 360.0)) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
-		|| abs(o1.yaw() - o2.yaw()) >= motion_thresholds::yaw_threshold
+		|| abs(std::remainder(o1.yaw() - o2.yaw(), 360.0)) >= motion_thresholds::yaw_threshold
 		|| abs(o1.pitch() - o2.pitch()) >= motion_thresholds::pitch_threshold
-		|| abs(o1.roll() - o2.roll()) >= motion_thresholds::roll_threshold);
+		|| abs(std::remainder(o1.roll() - o2.roll(), 360.0)) >= motion_thresholds::roll_threshold);
     // clang-format on
 
     // update motion of sensor
-- 
2.43.0


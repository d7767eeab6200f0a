From 837443b25c8684a762b9c80fa87e6f9c150af1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 01/71] fix: icbrt and icbrtc near the upper end of int64_t

The cube of 2097152 does not fit into int64_t, so the correction loops
ran away for x > 2097151^3.
---
 src/algorithm/math/base.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/math/base.cpp b/src/algorithm/math/base.cpp
index e618580..d98030d 100644
--- a/src/algorithm/math/base.cpp
+++ b/src/algorithm/math/base.cpp
@@ -1,5 +1,6 @@
 #include "altruct/algorithm/math/base.h"
 
+#include <algorithm>
 #include <cmath>
 #include <stdint.h>
 
@@ -36,16 +37,18 @@ int64_t icb(int64_t x) {
 
 int32_t icbrt(int64_t x) {
     if (x < 0) return -icbrt(-x);
-    int32_t q = int32_t(floor(pow(double(x), 1.0 / 3)));
+    const int32_t q_max = 2097151; // icb(q_max + 1) == 2^63
+    int32_t q = std::min(int32_t(floor(pow(double(x), 1.0 / 3))), q_max);
     while (icb(q) > x) q--;
-    while (icb(q + 1) <= x) q++;
+    while (q < q_max && icb(q + 1) <= x) q++;
     return q;
 }
 
 int32_t icbrtc(int64_t x) {
     if (x < 0) return -icbrtc(-x);
-    int32_t q = int32_t(ceil(pow(double(x), 1.0 / 3)));
-    while (icb(q) < x) q++;
+    const int32_t q_max = 2097152; // icb(q_max) == 2^63
+    int32_t q = std::min(int32_t(ceil(pow(double(x), 1.0 / 3))), q_max);
+    while (q < q_max && icb(q) < x) q++;
     while (icb(q - 1) >= x) q--;
     return q;
 }
-- 
2.43.0


From 6efacee6cdf2509fe2bf5ddcdec26d1d408d012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 02/71] fix: sqrtT and cbrtT of 64-bit integers whose root or
 value does not fit isqrt and icbrt

isqrt returns int32_t, which does not hold the root of x >= 2^62, and both
take int64_t, which does not hold uint64_t x >= 2^63.
---
 include/altruct/algorithm/math/base.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..63de187 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -291,8 +291,16 @@ template<> inline int16_t sqrtT(int16_t x, int16_t, size_t) { return isqrt(x); }
 template<> inline uint16_t sqrtT(uint16_t x, uint16_t, size_t) { return isqrt(x); }
 template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return isqrt(x); }
 template<> inline uint32_t sqrtT(uint32_t x, uint32_t, size_t) { return isqrt(x); }
-template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return isqrt(x); }
-template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrt(x); }
+template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) {
+    const uint64_t q_max = 0xFFFFFFFF; // sqT(q_max + 1) == 2^64
+    uint64_t q = minT(uint64_t(sqrt(double(x))), q_max);
+    while (q * q > x) q--;
+    while (q < q_max && (q + 1) * (q + 1) <= x) q++;
+    return q;
+}
+template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) {
+    return (x < 0) ? -int64_t(sqrtT<uint64_t>(-x, 1, 0)) : int64_t(sqrtT<uint64_t>(x, 1, 0));
+}
 
 /**
  * Tests whether `x` is a square.
@@ -338,7 +346,13 @@ template<> inline uint16_t cbrtT(uint16_t x, uint16_t, size_t) { return icbrt(x)
 template<> inline int32_t cbrtT(int32_t x, int32_t, size_t) { return icbrt(x); }
 template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return icbrt(x); }
 template<> inline int64_t cbrtT(int64_t x, int64_t, size_t) { return icbrt(x); }
-template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrt(x); }
+template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) {
+    const uint64_t q_max = 2642245; // cbT(q_max + 1) > 2^64
+    uint64_t q = minT(uint64_t(cbrt(double(x))), q_max);
+    while (q * q * q > x) q--;
+    while (q < q_max && (q + 1) * (q + 1) * (q + 1) <= x) q++;
+    return q;
+}
 
 /**
  * Tests whether `x` is a cube.
-- 
2.43.0


From 3d21df9d03db576f23ef7f53c58c73544e17db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 03/71] fix: div_round of zero for unsigned types

0 - b / 2 wraps around.
---
 include/altruct/algorithm/math/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 63de187..23cf12a 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -380,7 +380,7 @@ I div_ceil(I a, I b) {
 template<typename I>
 I div_round(I a, I b) {
     if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
+    return (a >= 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
 }
 
 /**
-- 
2.43.0


From 877f8dcf7f9fdc6793f03c3b35a7ef112f83522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 04/71] fix: signed overflow in modulo addition with a modulus
 above half of the type

x + y overflows there, and compilers that assume it does not drop the
r < 0 test: with M = 2^31 - 1, a += a gave a negative value.
---
 include/altruct/structure/math/modulo.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..b91e85c 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -53,9 +53,8 @@ U modulo_add_uint(U x, U y, U M) { // y = M is allowed
 }
 template<typename S>
 S modulo_add_int(S x, S y, S M) { // y = M is allowed
-    // TODO: use add_overflow when MSVC adds intrinsics
-    S r = x + y; bool of = (r < 0);
-    return (!of && r < M) ? r : (r - M);
+    // `x + y` might overflow, which is undefined for signed types
+    return (x < M - y) ? (x + y) : (x - (M - y));
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_add(U x, U y, U M) { return modulo_add_uint(x, y, M); }
-- 
2.43.0


From c1b0556df9bcecc706d72009d9fe0e0f4c88c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 05/71] fix: endless recursion when the smallest integer of a
 type is taken modulo M

-v overflows for it and stays negative.
---
 include/altruct/structure/math/modulo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index b91e85c..1865836 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -131,8 +131,9 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    using US = typename std::make_unsigned<S>::type;
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<US>(US(0) - US(v)), M), M);
+    return modulo_normalize(static_cast<US>(v), M);
 }
 
 
-- 
2.43.0


From 88d27fc14e88d7199744444db8a539bbe5b760b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 06/71] fix: reads and writes past the end of the array of
 primes (primes, prime_pi)

---
 src/algorithm/math/primes.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..9f0918a 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -28,13 +28,12 @@ int primes(int *p, char *q, int n) {
         for (int j = i * i; j < n; j += i)
             q[j] = 0;
     }
-    if (p) p[m] = 0;
     return m;
 }
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
-- 
2.43.0


From 4d183c514351deffa61d60636f30c7cb8245891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 07/71] fix: out of bounds writes for ranges of less than two
 integers (segmented_q, smallest_factor, factor)

---
 src/algorithm/math/primes.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index 9f0918a..ee03e06 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -76,8 +76,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -157,7 +157,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = n; i-- > 2;) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -166,7 +166,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    if (n > 0) bpf[0] = 0;
+    if (n > 1) bpf[1] = 1;
     for (int i = 0; i < m; i++)
         for (int j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From 4f6d9fb7091b09172dce16344be9cd8b7d1aea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 08/71] fix: miller_rabin takes some composites above 3.8e18
 for primes

---
 include/altruct/algorithm/math/factorization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index 3f8952c..f3c9c3f 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -66,8 +66,9 @@ bool miller_rabin(const T& n) {
     // 10^18, 2^61
     static T bases9[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 0 };
     if (n < 3825123056546413051LL) return miller_rabin(n, bases9);
-    // fallback to bases9 for larger numbers too
-    return miller_rabin(n, bases9);
+    // 2^64, 3.1 * 10^23
+    static T bases12[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 0 };
+    return miller_rabin(n, bases12);
 }
 
 /**
-- 
2.43.0


From a184bcf75bf263b8210d7af80a0bc6a9c4266d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 09/71] fix: chinese_remainder of unsigned integers with moduli
 that are not coprime

---
 include/altruct/algorithm/math/modulos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..525b27c 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -28,7 +28,7 @@ template<typename T>
 void chinese_remainder(T* a, T* n, T a1, T n1, T a2, T n2) {
     T e0 = zeroT<T>::of(*a);
     T ni1, ni2; T g = modulo_gcd_ex(n1, n2, ni1, ni2);
-    if ((a2 - a1) % g != e0) { *n = e0, *a = e0; return; }
+    if (modulo_sub<T>(modulo_normalize(a2, g), modulo_normalize(a1, g), g) != e0) { *n = e0, *a = e0; return; }
     T t1 = modulo_mul(a1, ni2, n1);
     T t2 = modulo_mul(a2, ni1, n2);
     n1 /= g; n2 /= g; *n = n1 * n2 * g;
-- 
2.43.0


From 2f37a42d5fb2de9c7fae125e3f5052eabf2662d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 10/71] fix: garner with moduli that are not in increasing
 order

---
 include/altruct/algorithm/math/modulos.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 525b27c..7841ed3 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -61,8 +61,8 @@ V garner(const V& vap) {
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            y -= castOf(y, vx[j].v);
+            y /= castOf(y, vap[j].M());
         }
         vx[i] = y;
     }
-- 
2.43.0


From 50e037c7457246cc5726772c39272d8abf13f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 11/71] fix: sum_multiplicative read before the array of primes
 for n = 2 and n = 3

---
 include/altruct/algorithm/math/divisor_sums.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..fea4ad2 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -960,6 +960,14 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     T zero = zeroOf(id);
     auto pa1 = pa - 1; // 1-based indexing, pa1[k] = p_k
 
+    // no primes up to sqrt(n); `n` itself is either 1 or a prime
+    if (n < 4) {
+        altruct::container::sqrt_map<int64_t, T> F_1(1, n);
+        F_1[0] = zero, F_1[1] = id;
+        if (n > 1) F_1[n] = id + s1(n);
+        return F_1;
+    }
+
     int q = isqrt(n);   // n^(1/2)
     int c = icbrt(n);   // n^(1/3)
     int d = c;          // ~ n^(1/3)
@@ -973,7 +981,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     altruct::container::sqrt_map<int64_t, T> F_k(q, n);
     altruct::math::fenwick_tree<T, std::plus<T>> Ft(tsz - d + 1, std::plus<T>(), zero);
 
-    if (n == 1) { F_k[1] = id; return F_k; }
+
 
     // step 1: build F_prime table by evaluating s1
     for (int i = 1; i <= q; i++) {
-- 
2.43.0


From ddff6231914cc1609874f46713bc7f1d07450ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 12/71] fix: sum_pow used Bernoulli numbers of the modulus of
 an earlier call

---
 include/altruct/algorithm/math/sums.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..39f8200 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -85,12 +85,9 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
-    return sum_pow(p, n, B);
+    // not cached across calls: `id` may be of a different modulus in each call
+    if (p <= 3) return sum_pow(p, n, std::vector<T>{ id });
+    return sum_pow(p, n, bernoulli_b<T>(p, id));
 }
 
 /**
-- 
2.43.0


From 998fce7c77f6a248158447251c3cbd86fbbf42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 13/71] fix: sum_multiplicative read before the array of primes
 for n < 9

---
 include/altruct/algorithm/math/divisor_sums.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index fea4ad2..71a930a 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -1037,7 +1037,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         for (int64_t m = 1; m <= q; m++) Ft.add(m, F_k[m]), Ft.add(m + 1, -F_k[m]);
         for (int i = nq; i > d; i--) Ft.add(tsz - i, F_k[n / i]), Ft.add(tsz - i + 1, -F_k[n / i]);
         // main loop
-        for (int k = last_k - 1; pa1[k] > h; k--) {
+        for (int k = last_k - 1; k >= 1 && pa1[k] > h; k--) {
             int p_k = pa1[k];
             // m >= nd; compute directly
             F_k1.swap(F_k);
-- 
2.43.0


From e98aaef97f81d36033300a75f70b10cdb1c13eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 14/71] fix: sum_multiplicative omitted f(8) for n = 8

---
 include/altruct/algorithm/math/divisor_sums.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 71a930a..e3c254e 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -992,8 +992,8 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
 
     // step 2: calculate F_k for k = pi(n^(1/3)) + 1; O(n^(2/3) / log(n))
     {
-        int k; for (k = 1; k < psz && pa1[k] <= c; k++);
-        int p_k = pa1[k];
+        int k; for (k = 1; k <= psz && pa1[k] <= c; k++);
+        int p_k = (k <= psz) ? pa1[k] : q + 1; // there might be no primes between n^(1/3) and n^(1/2)
         int64_t p_k2 = isq(p_k);
         // m < p_k; only 1 is included in the sum
         F_k[0] = zero;
@@ -1002,7 +1002,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         }
         // p_k <= m < p_k^2; also includes primes >= p_k in the sum
         T b = id - F_prime[p_k - 1];
-        for (int64_t m = pa1[k]; m <= q; m++) {
+        for (int64_t m = p_k; m <= q; m++) {
             F_k[m] = b + F_prime[m];
         }
         for (int i = nq; i >= 1; i--) {
-- 
2.43.0


From 32cb1c3ba08fccf735bea2ceead0f8a7149ae0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 15/71] fix: multiplicative Dirichlet divisions by g with g(1)
 other than 1

---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index e3c254e..388421c 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -218,6 +218,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
+    auto ig1 = e1 / castOf(e1, g(1));
     int q[32]; T gq[32], hq[32];
     for (int i = 0; i < m && pa[i] < n; i++) {
         int m = 0;
@@ -231,6 +232,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
             for (int j = 0; j < k; j++) {
                 hq[k] -= gq[k - j] * hq[j];
             }
+            hq[k] *= ig1;
             h[q[k]] = hq[k];
         }
     }
@@ -330,11 +332,12 @@ void dirichlet_convolution_completely_multiplicative(TBL& h, F1 f, F2 g, int n,
 template<typename F1, typename F2, typename TBL>
 void dirichlet_division_completely_multiplicative(TBL& h, F1 f, F2 g, int n, int* pf) {
     auto e1 = identityOf(castOf(h[0], f(1))); // TODO: pass via argument?
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
     for (int p = 2; p < n; p++) {
-        if (pf[p] == p) h[p] = castOf(e1, f(p)) - castOf(e1, g(p));
+        if (pf[p] == p) h[p] = (castOf(e1, f(p)) - castOf(e1, g(p))) * ig1;
     }
     calc_completely_multiplicative(h, n, pf);
 }
-- 
2.43.0


From 67c5003422ffd40eeb6b37994b85693b68980dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 16/71] fix: inverses of an empty range wrote past its end

---
 include/altruct/algorithm/math/ranges.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..b176e94 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -98,6 +98,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
-- 
2.43.0


From 078a400b7ea13c190032d761e90ee024c51a8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 17/71] fix: inv_factorials when the given k! is beyond the end
 of the table

---
 include/altruct/algorithm/math/ranges.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index b176e94..fc8ae87 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -76,10 +76,14 @@ template<typename It, typename T = typename std::iterator_traits<It>::value_type
 void inv_factorials(It begin, It end, T fact_k = T(1), size_t k = 1) {
     if (k == 0) k = 1;
     T id = identityOf(fact_k), val_k = castOf(fact_k, k);
-    for (size_t n = std::distance(begin, end); ++k < n;) {
+    size_t n = std::distance(begin, end);
+    while (++k < n) {
         val_k += id, fact_k *= val_k;
     }
     T ifact = id / fact_k;
+    for (; k > n; k--) {
+        ifact *= val_k, val_k -= id;
+    }
     for (It it = end; it != begin; ) {
         *--it = ifact; ifact *= val_k; val_k -= id;
     }
-- 
2.43.0


From 3735b9f9c89fca67641add1810824ea7f212ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 18/71] fix: reduce_max of unsigned zeros

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index bb1fd70..251edc2 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -64,7 +64,7 @@ T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
  * @param id - identity element, default -infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
+T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? T(-std::numeric_limits<T>::max()) : T(0)) {
     return reduce(c, [](const T& r, const T& e) { return r < e ? e : r; }, id);
 }
 
-- 
2.43.0


From a60935a563dd68b1a0773c04dad2c17586e40fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 19/71] fix: reduce_mex of containers with repeated elements

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index 251edc2..b0e29d3 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -76,7 +76,7 @@ T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? T(-std::nume
  */
 template<typename C, typename T = typename C::value_type>
 T reduce_mex(const C& c, T id = 0) {
-    return reduce(c, [](const T& r, const T& e) { return r < e ? r : r + 1; }, id);
+    return reduce(c, [](const T& r, const T& e) { return r < e || e < r ? r : r + 1; }, id);
 }
 
 } // math
-- 
2.43.0


From 5a2d45433d4873321038540dea6b447d34d7a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 20/71] fix: next_combination ended too early with repeated
 elements

---
 include/altruct/algorithm/math/combinatorics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..986cf6d 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -15,7 +15,7 @@ bool next_combination(BidIt begin, BidIt mid, BidIt end) {
     BidIt rd, wr;
     for (BidIt cur = mid; cur != begin;) {
         for (BidIt cmp = wr = --cur; wr != mid; cmp = wr, ++wr) {
-            for (rd = wr; rd != end && !(*cmp < *rd); ++rd);
+            for (rd = wr; rd != end && (wr == cur ? !(*cmp < *rd) : *rd < *cmp); ++rd);
             if (rd != end) {
                 std::swap(*wr, *rd);
                 // bubble(wr, rd, end)
-- 
2.43.0


From 2eb8f63041a82f1d8fc31282f23ad21d9e5eefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 21/71] fix: nth_permutation with an index of 12! or more
 overflowed

---
 include/altruct/algorithm/math/combinatorics.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 986cf6d..5120c1e 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -65,15 +65,15 @@ bool next_partition(BidIt begin, BidIt end) {
 template<typename It, typename I>
 void nth_permutation(It begin, It end, I o) {
     auto d = std::distance(begin, end);
+    // `f` never exceeds `o` so that it doesn't overflow for large `o`
     int i = 0; I f = 1;
-    while (i < d && f <= o) f *= ++i;
-    while (i > 1) {
-        o %= f;
-        while (i > 1 && f > o) f /= i--;
+    while (i + 1 < d && f <= o / (i + 1)) f *= ++i;
+    for (; i > 0; f /= i--) {
         It it = end - i - 1;
-        for (int k = int(o / f); k > 0; k--) {
+        for (int k = int(o / f % (i + 1)); k > 0; k--) {
             std::swap(*(it + k), *(it + k - 1));
         }
+        o %= f;
     }
 }
 
-- 
2.43.0


From 6c3a76c474ed1830940d0087a637049894bece1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 22/71] fix: binomial_mod_pp_reduced_slow truncated n that does
 not fit the type of the modulus

---
 include/altruct/algorithm/math/comb_mod_pp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/comb_mod_pp.h b/include/altruct/algorithm/math/comb_mod_pp.h
index 784db1b..6a6ed81 100644
--- a/include/altruct/algorithm/math/comb_mod_pp.h
+++ b/include/altruct/algorithm/math/comb_mod_pp.h
@@ -102,8 +102,8 @@ std::pair<R, I> binomial_mod_pp_reduced_slow(I n, I k, int p, int e) {
     moduloX<R> r(1, powT(castOf<R>(p), e)), s = r;
     I ar = 0, as = 0;
     for (I i = 1; i <= k; i++, n--) {
-        r *= castOf<R>(factor_out(n, p, ar));
-        s *= castOf<R>(factor_out(i, p, as));
+        r *= castOf<R, I>(factor_out(n, p, ar) % r.M());
+        s *= castOf<R, I>(factor_out(i, p, as) % r.M());
     }
     r /= s;
     ar -= as;
-- 
2.43.0


From fc5f040831586de1284fdd52281351385deeb0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:50 +0000
Subject: [PATCH 23/71] fix: complex roots of unity were freed when a larger
 table got requested

---
 include/altruct/structure/math/root_wrapper.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/math/root_wrapper.h b/include/altruct/structure/math/root_wrapper.h
index 1d818cf..b1a0830 100644
--- a/include/altruct/structure/math/root_wrapper.h
+++ b/include/altruct/structure/math/root_wrapper.h
@@ -46,17 +46,19 @@ template<typename F>
 root_wrapper<complex<F>> complex_root_wrapper(int l) {
     typedef complex<F> cplx;
     static const auto _2_PI = 2 * acos(F(-1));
-    static std::vector<cplx> roots{F(1)};
-    int size = (int)roots.size();
+    // previous tables are kept, as the wrappers returned so far refer to them
+    static std::vector<std::vector<cplx>> tables{{cplx(F(1))}};
+    int size = (int)tables.back().size();
     if (size < l) {
         while (size < l) size *= 2;
-        roots.resize(size);
+        std::vector<cplx> roots(size);
         for (int i = 0; i < size; i++) {
             auto A = _2_PI * i / size;
             roots[i] = cplx(cos(A), sin(A));
         }
+        tables.push_back(std::move(roots));
     }
-    return root_wrapper<cplx>(roots.data(), size, 1);
+    return root_wrapper<cplx>(tables.back().data(), size, 1);
 }
 
 } // math
-- 
2.43.0


From f8b106127e69fe7f108465e1e510470bacbda002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 24/71] fix: products of long polynomials modulo M > 2^32 used
 the 32-bit FFT multiplication

---
 include/altruct/algorithm/math/polynom_mod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/polynom_mod.h b/include/altruct/algorithm/math/polynom_mod.h
index 94140d0..0bacb9f 100644
--- a/include/altruct/algorithm/math/polynom_mod.h
+++ b/include/altruct/algorithm/math/polynom_mod.h
@@ -194,7 +194,7 @@ struct polynom_mul<modulo<I, ID, STORAGE_TYPE>, std::enable_if_t<std::is_integra
     static void impl(mod* pr, int lr, const mod* p1, int l1, const mod* p2, int l2) {
         if (l2 < 48) { // LONG_THRESHOLD
             polynom<mod>::_mul_long(pr, lr, p1, l1, p2, l2);
-        } else if (l2 < 100 || l1 < 450 || cost_karatsuba(l1, l2) < cost_fft(l1, l2)) {
+        } else if (l2 < 100 || l1 < 450 || cost_karatsuba(l1, l2) < cost_fft(l1, l2) || uint64_t(p1->M()) > UINT32_MAX) {
             polynom<mod>::_mul_karatsuba(pr, lr, p1, l1, p2, l2);
         } else if (l1 + l2 <= 100000) {
             _mul_fft(pr, lr, p1, l1, p2, l2);
-- 
2.43.0


From 99dadfa6b920d857292741151a170c5a256d0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 25/71] fix: monotonic_search stopped at zeros of p instead of
 points where p(x) = y

---
 include/altruct/algorithm/math/polynoms.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/polynoms.h b/include/altruct/algorithm/math/polynoms.h
index 61720fd..a0353e1 100644
--- a/include/altruct/algorithm/math/polynoms.h
+++ b/include/altruct/algorithm/math/polynoms.h
@@ -22,16 +22,16 @@ namespace math {
 template<typename P, typename F>
 F monotonic_search(const P &p, const F &b, const F& e, const F& y, const F& epsy = 0, const F& epsx = 0, int max_iter = 200) {
     F lo = b, hi = e, mid = e;
-    F val_b = p(b), val_e = p(e);
+    F val_b = p(b) - y, val_e = p(e) - y;
     if (-epsy <= val_b && val_b <= epsy) return b;
     if (-epsy <= val_e && val_e <= epsy) return e;
     int s = (val_b > val_e) ? -1 : +1;
     while (hi - lo > epsx && max_iter-- > 0) {
         mid = (lo + hi) / 2;
         if (mid == lo || mid == hi) return mid;
-        F val = p(mid);
+        F val = p(mid) - y;
         if (-epsy <= val && val <= epsy) return mid;
-        if ((s > 0) ? (val < y) : (val > y)) {
+        if ((s > 0) ? (val < 0) : (val > 0)) {
             lo = mid;
         }
         else {
-- 
2.43.0


From 57bbcb1589604359889f5ebc6e556f576f05ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:49 +0000
Subject: [PATCH 26/71] fix: series shift by more than N and high powers of
 series without constant term

---
 include/altruct/structure/math/series.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..6dbef15 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -140,6 +140,7 @@ public:
 
     // s(x)*x^l - shifts coefficients of s(x) by l places
     series shift(int l) const {
+        l = std::max(-this->N(), std::min(l, this->N()));
         if (l < 0) {
             polynom<T> t(p.c.begin() - l, p.c.end());
             t.c.insert(t.c.end(), -l, p.ZERO_COEFF);
@@ -323,8 +324,10 @@ public:
         if (a < threshold) {
             return powT(*this, a);
         } else if (p[0] == p.ZERO_COEFF) {
-            int l = p.lowest();
-            return shift(-p.lowest()).pow(a).shift(p.lowest() * int(a));
+            int l = p.lowest(); // 0 if s(x) is zero
+            if (a > 0 && (l == 0 || a > this->N() / l)) return zeroOf(*this);
+            if (l == 0) return powT(*this, a);
+            return shift(-l).pow(a).shift(l * int(a));
         } else if (p[0] == id_coeff()) {
             return (ln() * castOf(p[0], a)).exp();
         } else {
-- 
2.43.0


From 06d63ad9e2ae44b40d79ce239964a26c8193a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:58 +0000
Subject: [PATCH 27/71] fix: matrix rank was too small when columns before the
 pivots are dependent

---
 include/altruct/structure/math/matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..26ce173 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -173,26 +173,26 @@ public:
                 det = e0;
                 continue;
             }
-            rank++;
+            int r = rank++;
             // rows transposition
-            if (i != j) {
-                std::swap(mat.a[i], mat.a[j]);
-                std::swap(inv.a[i], inv.a[j]);
+            if (i != r) {
+                std::swap(mat.a[i], mat.a[r]);
+                std::swap(inv.a[i], inv.a[r]);
                 det = -det;
             }
             // normalize row
-            T pi = e1 / mat.a[j][j];
-            det *= mat.a[j][j];
+            T pi = e1 / mat.a[r][j];
+            det *= mat.a[r][j];
             for (k = 0; k < n; k++) {
-                mat.a[j][k] *= pi;
-                inv.a[j][k] *= pi;
+                mat.a[r][k] *= pi;
+                inv.a[r][k] *= pi;
             }
             // eliminate below
             for (i = rank; i < n; i++) {
                 T p = mat.a[i][j]; if (p == e0) continue;
                 for (k = 0; k < n; k++) {
-                    mat.a[i][k] -= mat.a[j][k] * p;
-                    inv.a[i][k] -= inv.a[j][k] * p;
+                    mat.a[i][k] -= mat.a[r][k] * p;
+                    inv.a[i][k] -= inv.a[r][k] * p;
                 }
             }
         }
-- 
2.43.0


From 7e7147b6836941dd2f9e43efa07049cfa3bc506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:52 +0000
Subject: [PATCH 28/71] fix: berlekamp_massey did not terminate for moduloX
 elements

---
 include/altruct/algorithm/math/recurrence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/recurrence.h b/include/altruct/algorithm/math/recurrence.h
index 5275f0c..72c1cb0 100644
--- a/include/altruct/algorithm/math/recurrence.h
+++ b/include/altruct/algorithm/math/recurrence.h
@@ -144,8 +144,8 @@ polynom<T> berlekamp_massey_poly(const std::vector<A>& a, T id = T(1)) {
     T e0 = zeroOf(id), e1 = identityOf(id);
     int n = (int)a.size() / 2;
     int m = 2 * n - 1;
-    polynom<A> R, R0, R1;
-    polynom<T> V, V0, V1, Q;
+    polynom<A> R(zeroOf(a[0])), R0(R), R1(R);
+    polynom<T> V(e0), V0(e0), V1(e0), Q(e0);
     R0[m + 1] = identityOf(a[0]);
     for (int i = 0; i <= m; i++) {
         R1[i] = a[m - i];
-- 
2.43.0


From 4bd11f6dd379d92f68305b62df4403073cc46aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:52 +0000
Subject: [PATCH 29/71] fix: convergents of continued fractions with negative
 terms were missing

---
 include/altruct/algorithm/math/convergents.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/convergents.h b/include/altruct/algorithm/math/convergents.h
index 8e7bdf9..a0ba949 100644
--- a/include/altruct/algorithm/math/convergents.h
+++ b/include/altruct/algorithm/math/convergents.h
@@ -66,7 +66,7 @@ std::vector<std::pair<I, I>> convergents(const std::vector<I> &va, I semi_conver
         // Technically, if a_i is even, a_i / 2 is admissible only if the
         // corresponding semiconvergent is better than the previous convergent.
         // We do not check for it here however.
-        I a0 = a_i - std::min<I>(semi_convergents, a_i / 2);
+        I a0 = a_i - std::max<I>(0, std::min<I>(semi_convergents, a_i / 2));
         for (I a = a0; a <= a_i; a++) {
             p = a * p1 + p2;
             q = a * q1 + q2;
-- 
2.43.0


From 59aea562e89a429355ea63fcf68ee2b4e16633e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:22 +0000
Subject: [PATCH 30/71] fix: pell missed classes whose expansion has a unit of
 the wrong sign before the period

---
 include/altruct/algorithm/math/pell.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index b246c47..092ab9a 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -168,13 +168,15 @@ int pell_mz(I D, I m, I z, I& x0, I& y0) {
     int i = 1; while (i < (int)Q.size() && Q[i] != +1 && Q[i] != -1) i++;
     if (i >= (int)Q.size()) return 0;
     // check for solution by testing Q[i] == (-1)^i sign(m)
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
+    auto is_solution = [&](int i) { return Q[i] == ((i % 2 == 1) ? -ms : +ms); };
+    while (i < (int)Q.size() && !is_solution(i)) i++;
+    if (i >= (int)Q.size()) {
         // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
         // do another period to get +m
         pell_PQa<I>(D, P, Q, a, A, B, G);
-        i += l;
+        while (i < (int)Q.size() && !is_solution(i)) i++;
     }
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
+    if (i >= (int)Q.size()) {
         // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
         // -m again, +m will never happen
         return 0;
-- 
2.43.0


From a83febf2cbb6fb8987c8ba2ee9aa19b384ad23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:40 +0000
Subject: [PATCH 31/71] fix: pell stopped before the classes reached their
 first positive solution

---
 include/altruct/algorithm/math/pell.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index 092ab9a..717b617 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -274,16 +274,17 @@ void pell(I D, I N, const std::vector<std::pair<P, int>>& fN, I x_max, I y_max,
         auto vs = pell<I>(D, N, fN);
         while (true) {
             auto size0 = size;
+            bool pending = false; // some class has not reached its positive solutions yet
             for (auto& s : vs) {
                 auto t = s; s *= s1;
                 if (s.a <= 0 && s.b <= 0) s = -s;
-                if (t.a < 0 || t.b < 0) continue;
+                if (t.a < 0 || t.b < 0) { pending = true; continue; }
                 if (x_max > 0 && t.a > x_max) continue;
                 if (y_max > 0 && t.b > y_max) continue;
                 if (count > 0 && size >= count) continue;
                 visitor(t); size++;
             }
-            if (size == size0) break;
+            if (size == size0 && !pending) break;
         }
     }
 }
-- 
2.43.0


From d2c1832636ef18e163b7dd75488756173fc610f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 32/71] fix: binary_search_tree::clear freed only the root, or
 the nil node of an empty tree

---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
-- 
2.43.0


From 35df07ac4f5bb9e9205a6e6b9fe5b8dd49baf722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 33/71] fix: treap rotated its root around the nil node when
 the random generator returned a negative number

---
 include/altruct/structure/container/treap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index 954ac88..fdffe8f 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -266,7 +266,7 @@ protected:
     typename bst_t::iterator retrace_up(typename bst_t::iterator it) {
         if (it == tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
             } else {
-- 
2.43.0


From 54ec2e2bea5cfed7ca81a04574d175686d29a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:45 +0000
Subject: [PATCH 34/71] fix: lazy_treap rotated its root around the nil node
 when the random generator returned a negative number

---
 include/altruct/structure/container/lazy_treap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2769297..db6844a 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -361,7 +361,7 @@ protected: // balancing
         auto it = remove_const(_it).it;
         if (it == tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
             } else {
-- 
2.43.0


From 3a91d36d2e4e8ba28872025d4640cfdb9a6cb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:36 +0000
Subject: [PATCH 35/71] fix: bit_vector shifts by several words read
 overwritten words, went out of bounds, and kept bits past the end

---
 include/altruct/structure/container/bit_vector.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..fdacb8f 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -87,7 +87,7 @@ public:
 
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -99,14 +99,15 @@ public:
 
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
+        for (size_t i = wsz; i-- > q + 1;) { // backwards, as the source words come before
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
         words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        resize(sz); // clears the bits shifted past the end
         return *this;
     }
 
-- 
2.43.0


From d728f96338c4ac36ea38551a5961340e7fa80164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:36 +0000
Subject: [PATCH 36/71] fix: bit_vector::swap with an empty range at the begin
 of the other reversed that range

---
 include/altruct/structure/container/bit_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index fdacb8f..e728a99 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -204,7 +204,7 @@ public:
     // swaps the two ranges
     // result is undefined if the two ranges overlap
     bit_vector& swap(size_t begin1, size_t end1, size_t begin2, size_t end2) {
-        if (begin1 > begin2) return swap(begin2, end2, begin1, end1);
+        if (begin1 > begin2 || (begin1 == begin2 && end1 > end2)) return swap(begin2, end2, begin1, end1);
         reverse(begin1, end1); reverse(end1, begin2); reverse(begin2, end2); reverse(begin1, end2);
         return *this;
     }
-- 
2.43.0


From 83cfc8e7bee0a09f1fd1987311a1d13d4c2acdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:06 +0000
Subject: [PATCH 37/71] fix: sqrt_map and lohi_map operator[] returned the
 erased value instead of a default one

---
 include/altruct/structure/container/lohi_map.h | 1 +
 include/altruct/structure/container/sqrt_map.h | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index c989713..985a0c7 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -65,6 +65,7 @@ public:
     }
 
     int erase(const I& k) {
+        if (k <= max_lo_key) tbl_lo[k] = T(); // so that `operator []` creates default again
         return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : (int)tbl_hi.erase(k);
     }
 };
diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..a365f89 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -60,7 +60,7 @@ public:
     void reset_max(I max_key = 0) {
         this->max_key = max_key;
         cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
+        tbl_hi.assign(max_key / max_lo_key + 1, T());
     }
 
     int count(const I& k) const {
@@ -160,6 +160,7 @@ public:
     }
 
     int erase(const I& k) {
+        el(k) = T(); // so that `operator []` creates default again
         return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : get_and_set(cnt_hi[max_key / k], 0);
     }
 };
-- 
2.43.0


From 142c7c673c36e54786eb7c6b292011d0583950f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 38/71] fix: copies of bounded_contiguous_allocator shared, and
 freed twice, the memory of the original

---
 .../container/bounded_contiguous_allocator.h  | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..6a8db41 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
-#include <memory>
+#include <cstdlib>
+#include <memory>
+#include <utility>
 
 #if _MSC_VER < 1900
 #define NOEXCEPT
@@ -35,6 +37,28 @@ struct bounded_contiguous_allocator {
         clear();
     }
 
+    // copies the capacity only, the memory is not shared
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+    }
+
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+        *this = std::move(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (const bounded_contiguous_allocator& allocator) NOEXCEPT{
+        return *this = bounded_contiguous_allocator(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator&& allocator) NOEXCEPT{
+        std::swap(capacity_, allocator.capacity_);
+        std::swap(data_, allocator.data_);
+        std::swap(available_, allocator.available_);
+        std::swap(ptrs_, allocator.ptrs_);
+        return *this;
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
-- 
2.43.0


From 01022aebfe1f9f70f831b5cb12fb6f191a7b480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 39/71] fix: prim_spanning_tree re-parented nodes that were
 already in the tree (cycles, wrong weight)

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..0e22173 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -25,13 +25,15 @@ std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
     res[root] = { root, 0 };
     std::set<std::pair<W, int>> q{ { 0, root } };
+    std::vector<int> done(g.size());
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        done[u] = 1;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (d_new < res[v].w && !done[v]) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From 875f9b5afaaa7ef734b5061cba8f74bce36b69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 40/71] fix: heavy_light_decomposition swapped edge
 destinations without their weights

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
-- 
2.43.0


From c82409d77477d345ad2559da2b6f65d21d317ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 41/71] fix: hungarian.h relied on a using directive of its
 includer to find max and min

---
 experimental/include/altruct/algorithm/graph/hungarian.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..d9fd7b0 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -114,7 +114,7 @@ private:
         for (x = 0; x < n; x++) {
             lx[x] = cost(x, 0);
             for (y = 0; y < n; y++) {
-                lx[x] = max(lx[x], cost(x, y));
+                lx[x] = std::max(lx[x], cost(x, y));
             }
         }
 
@@ -158,7 +158,7 @@ private:
                 for (y = 0; y < n; y++)                              // initial delta (instead of INF)
                     if (!T[y]) { delta = slack[y]; break; }
                 for (y = 0; y < n; y++)                              // calculate delta using slack
-                    if (!T[y]) delta = min(delta, slack[y]);
+                    if (!T[y]) delta = std::min(delta, slack[y]);
                 for (y = 0; y < n; y++)                              // update slack array
                     if (!T[y]) slack[y] -= delta;
                 for (x = 0; x < n; x++)                              // update X labels
-- 
2.43.0


From a6d4f10053908f0e6a14ae16a39d5e5947a84d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 42/71] fix: bipartite_matching selected every copy of a
 duplicated edge

---
 .../include/altruct/algorithm/graph/bipartite_matching.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..1f42373 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,9 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (!d.flow[e.u][e.v]) continue;
+        selected.push_back(e);
+        d.flow[e.u][e.v] = 0; // a duplicate of this edge must not be selected again
     }
     return selected;
 }
-- 
2.43.0


From ca5ba05f51de2774325c5a5ab2df8f8b248a4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 43/71] fix: cumulative_hash::assign kept the hashes of the
 previous sequence

---
 include/altruct/algorithm/hash/polynomial_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..66b2fda 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -278,6 +278,7 @@ public:
     void assign(It begin, It end) {
         HASH h;
         size_t pos = 0;
+        vh.clear();
         h.ensure(std::distance(begin, end));
         for (It it = begin; it != end; ++it) {
             h.add(*it, pos++);
-- 
2.43.0


From f4aa028a36d756bfa562516a0501810f5661e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:49 +0000
Subject: [PATCH 44/71] fix: polynomial hashes of equal substrings with
 negative elements compared unequal

---
 include/altruct/algorithm/hash/polynomial_hash.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index 66b2fda..2c47c5c 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -38,7 +38,7 @@ public:
 
     I h;
 
-    polynomial_hash1(I h = 0) : h(h) {}
+    polynomial_hash1(I h = 0) : h(h % M < 0 ? h % M + M : h % M) {}
     polynomial_hash1 clone() const { return polynomial_hash1(*this); }
     bool operator < (const polynomial_hash1& rhs) const { return h < rhs.h; }
     bool operator == (const polynomial_hash1& rhs) const { return h == rhs.h; }
@@ -78,8 +78,9 @@ public:
     static std::vector<I> W[K];
     static std::vector<I> WI[K];
 
-    static I mul(I a, I b, I m) { return (I)((a * (IT)b) % m); }
-    static I mul(I s, I a, I b, I m) { return (I)((s + a * (IT)b) % m); }
+    static I norm(IT r, I m) { return (I)(r < 0 ? r + m : r); } // to [0, m), elements may be negative
+    static I mul(I a, I b, I m) { return norm((a * (IT)b) % m, m); }
+    static I mul(I s, I a, I b, I m) { return norm((s + a * (IT)b) % m, m); }
 
     static void _ensure(std::vector<I>& w, size_t sz, I b, I m) {
         size_t i0 = w.size();
@@ -154,7 +155,7 @@ public:
     polynomial_hash operator + (I rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs) % M[k];
+            h[k] = norm((h[k] + rhs) % M[k], M[k]);
         }
         return *this;
     }
-- 
2.43.0


From d26892336a938631d70568d0aa9990bb4510ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:53 +0000
Subject: [PATCH 45/71] fix: a copied mtrand kept reading the state of its
 original

---
 include/altruct/algorithm/random/mersenne_twister.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 878fedd..331b520 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -94,6 +94,8 @@ public:
     mtrand(const uint32& oneSeed);  // initialize with a simple uint32
     mtrand(uint32 *const bigSeed, uint32 const seedLength = N);  // or an array
     mtrand();  // auto-initialize with /dev/urandom or time() and clock()
+    mtrand(const mtrand& rhs);  // copies continue the sequence independently
+    mtrand& operator=(const mtrand& rhs);
 
     // Access to 32-bit random numbers
     double rand();                          // real number in [0,1]
@@ -157,6 +159,17 @@ inline mtrand::mtrand() {
     seed();
 }
 
+inline mtrand::mtrand(const mtrand& rhs) {
+    *this = rhs;
+}
+
+inline mtrand& mtrand::operator=(const mtrand& rhs) {
+    for (int i = 0; i < N; ++i) state[i] = rhs.state[i];
+    left = rhs.left;
+    pNext = &state[N - left];  // must point to our own state
+    return *this;
+}
+
 inline double mtrand::rand() {
     return double(randInt()) * (1.0 / 4294967295.0);
 }
-- 
2.43.0


From 2c385965e8edcd6dd19f57a46c611252f7e3a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:18 +0000
Subject: [PATCH 46/71] fix: a prefix operator of lower precedence ended the
 operator before it

---
 include/altruct/algorithm/parser/shunting_yard.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 8e484e3..9b50c5d 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -55,6 +55,11 @@ struct operator_desc {
     int num_args() const {
         return (arity == arity_t::UNARY) ? 1 : 2;
     }
+
+    // prefix operators have no left operand to end
+    bool is_prefix() const {
+        return arity == arity_t::UNARY && associativity == assoc_t::RIGHT;
+    }
 };
 
 /**
@@ -93,7 +98,7 @@ std::vector<postfix_token> infix_to_postfix(
                 res.push_back({ postfix_token::type_t::OPERAND, t.id, 0 });
                 break;
             case infix_token::type_t::OPERATOR:
-                pop_operators(t.id);
+                if (!operators[t.id].is_prefix()) pop_operators(t.id);
                 stk.push_back(t);
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
-- 
2.43.0


From bc64a44e1ca3fc57183edff27bfdc77e04da0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:40 +0000
Subject: [PATCH 47/71] fix: functions without arguments were converted to
 functions of one argument

---
 include/altruct/algorithm/parser/shunting_yard.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 9b50c5d..2ee4d3d 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -84,6 +84,7 @@ std::vector<postfix_token> infix_to_postfix(
     int num_args = 0;
     std::vector<postfix_token> res;
     std::vector<infix_token> stk;
+    auto prev_type = infix_token::type_t::OPERAND;
     auto pop_operators = [&](int id) {
         while (!stk.empty() && stk.back().type == infix_token::type_t::OPERATOR &&
             (id < 0 || operators[id] < operators[stk.back().id])) {
@@ -106,7 +107,7 @@ std::vector<postfix_token> infix_to_postfix(
                 break;
             case infix_token::type_t::RIGHT_PARENTHESIS:
                 pop_operators(-1);
-                num_args = 1;
+                num_args = (prev_type == infix_token::type_t::LEFT_PARENTHESIS) ? 0 : 1;
                 while (!stk.empty() && stk.back().type == infix_token::type_t::SEPARATOR) {
                     num_args++; stk.pop_back();
                 }
@@ -126,6 +127,7 @@ std::vector<postfix_token> infix_to_postfix(
                 stk.push_back(t);
                 break;
         }
+        prev_type = t.type;
     }
     pop_operators(-1);
     return res;
@@ -153,7 +155,7 @@ std::vector<T> evaluate_postfix(
                 break;
             case postfix_token::type_t::FUNCTION:
                 int pos = (int)stk.size() - t.num_args;
-                T r = evaluators[t.id](&stk[pos]);
+                T r = evaluators[t.id](stk.data() + pos);
                 stk.resize(pos);
                 stk.push_back(r);
                 break;
-- 
2.43.0


From 0909f58d001e9a34d513779a4672f698924587db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:15 +0000
Subject: [PATCH 48/71] fix: suffix_array reads past the end of the text and
 dereferences the end of an empty one

---
 .../include/altruct/structure/container/suffix_array.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..75885f7 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -45,7 +45,7 @@ private:
 
     template<typename It>
     void build_suffix_array(It begin, It end) {
-        alpha_t max_elem = *std::max_element(begin, end);
+        alpha_t max_elem = (begin != end) ? *std::max_element(begin, end) : alpha_t(0);
         build_suffix_array(begin, end, (index_t)max_elem + 1);
     }
 
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
-- 
2.43.0


From 3c035face0a827bb73f3661e55eaf10b9df89856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:39 +0000
Subject: [PATCH 49/71] fix: range_minimum_query copies keep their block tables
 by index, not by dangling pointer

---
 .../structure/container/range_minimum_query.h  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/experimental/include/altruct/structure/container/range_minimum_query.h b/experimental/include/altruct/structure/container/range_minimum_query.h
index 15abb68..08b3e6c 100644
--- a/experimental/include/altruct/structure/container/range_minimum_query.h
+++ b/experimental/include/altruct/structure/container/range_minimum_query.h
@@ -69,19 +69,19 @@ public:
     index_t get_index(index_t begin, index_t end) const {
         index_t l = begin, r = end - 1;
         index_t x = l / BLOCK_SIZE, y = r / BLOCK_SIZE, z = y - x;
-        if (z == 0) return x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
+        if (z == 0) return x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
         if (z == 1) return min_index(
-            x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
-            y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]);
+            x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+            y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]);
         int k = log2_32(z - 2);
         return min_index(
             min_index(
-                x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+                x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
                 _sparse_table[x + 1 + blocks * k]
             ),
             min_index(
                 _sparse_table[y + blocks * k - (1 << k)],
-                y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]
+                y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]
             ));
     }
 
@@ -94,7 +94,7 @@ private:
     index_t blocks;
     std::vector<value_t> _array;
     std::vector<tree_t> _trees;
-    std::vector<tree_t*> _block_tree;
+    std::vector<int> _block_tree;
     std::vector<index_t> _sparse_table;
     int _ballot[BLOCK_SIZE + 1][BLOCK_SIZE + 1];
 
@@ -116,9 +116,9 @@ private:
                 }
                 rp[q + j - BLOCK_SIZE + 1] = p[j];
             }
-            _block_tree[i] = &_trees[N];
+            _block_tree[i] = N;
             // populate tree
-            tree_t* table = _block_tree[i];
+            tree_t* table = &_trees[N];
             if (table->idx[0][0] != -1) continue;
             for (int left = 0; left < BLOCK_SIZE; left++) {
                 int min_idx = left;
@@ -138,7 +138,7 @@ private:
         if (height == 0) return;
         index_t *b = _sparse_table.data();
         for (index_t i = 0; i < blocks; i++) {
-            b[i] = i * BLOCK_SIZE + _block_tree[i]->idx[0][BLOCK_SIZE - 1];
+            b[i] = i * BLOCK_SIZE + _trees[_block_tree[i]].idx[0][BLOCK_SIZE - 1];
         }
         for (index_t t = 1; t * 2 < blocks; t *= 2) {
             std::copy(b, b + blocks, b + blocks);
-- 
2.43.0


From 0e53babc717931abb4efe46e9618805e81d082e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 50/71] fix: prefix_tree copies share nodes and free them twice

---
 .../altruct/structure/container/prefix_tree.h | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/experimental/include/altruct/structure/container/prefix_tree.h b/experimental/include/altruct/structure/container/prefix_tree.h
index bd748a3..07d381c 100644
--- a/experimental/include/altruct/structure/container/prefix_tree.h
+++ b/experimental/include/altruct/structure/container/prefix_tree.h
@@ -52,6 +52,19 @@ public:
         _init();
     }
 
+    prefix_tree(const prefix_tree& rhs) : nodes(0), root(nullptr) {
+        _init();
+        _copy_all(rhs);
+    }
+
+    prefix_tree& operator = (const prefix_tree& rhs) {
+        if (this != &rhs) {
+            clear();
+            _copy_all(rhs);
+        }
+        return *this;
+    }
+
     ~prefix_tree() {
         words.clear();
         _free_all(root);
@@ -212,6 +225,24 @@ private:
         words.push_back(root);
     }
 
+    void _copy_all(const prefix_tree& rhs) {
+        words.resize(rhs.words.size());
+        _copy(root, rhs.root);
+    }
+
+    void _copy(node_t* t, const node_t* s) {
+        t->word_id = s->word_id;
+        t->num_ch = s->num_ch;
+        t->ord = s->ord;
+        if (s->word_id != 0) words[s->word_id] = t;
+        for (int o = 0; o < ALPHABET_SIZE; o++) {
+            if (s->next[o] == nullptr) continue;
+            t->next[o] = _buy();
+            t->next[o]->parent = t;
+            _copy(t->next[o], s->next[o]);
+        }
+    }
+
     node_t* _buy() {
         node_t* t = alloc.allocate(1);
         alloc.construct(t);
-- 
2.43.0


From 1fd904d7acbeecbdb74252b3f567058ff8b855d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 51/71] fix: aho_corasick_trie::build never ends when the
 alphabet is as big as alpha_t's range

---
 .../include/altruct/structure/container/aho_corasick_trie.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/aho_corasick_trie.h b/experimental/include/altruct/structure/container/aho_corasick_trie.h
index afe823e..d5bb465 100644
--- a/experimental/include/altruct/structure/container/aho_corasick_trie.h
+++ b/experimental/include/altruct/structure/container/aho_corasick_trie.h
@@ -84,7 +84,7 @@ public:
         while (!q.empty()) {
             index_t cur_node = q.front(); q.pop();
             index_t* next = trie[cur_node].next;
-            for (alpha_t let = 0; let < ALPHABET_SIZE; let++) {
+            for (int let = 0; let < ALPHABET_SIZE; let++) {
                 if (next[let]) q.push(next[let]);
             }
             index_t suff_link = _get_suff_link(cur_node);
-- 
2.43.0


From e0343039db3efd7fc520cdb09e36f840cd4019e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:32 +0000
Subject: [PATCH 52/71] fix: readers return characters as unsigned char, so
 that 0xFF is not taken for the end

---
 include/altruct/io/reader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..06e9c7a 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +232,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +268,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != (unsigned char)delimiter && c != -1) {
             s.push_back((char)c);
             c = read_char();
         }
-- 
2.43.0


From 58f7b97642da89eec7d8c350f266710107a0764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:32 +0000
Subject: [PATCH 53/71] fix: fast_read returns characters as unsigned char, so
 that 0xFF is not taken for the end

---
 include/altruct/io/fast_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..c513919 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -115,7 +115,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
-- 
2.43.0


From 49606c4510163780f7dde8e14105a4690e893ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:32 +0000
Subject: [PATCH 54/71] fix: fast_read terminates its buffer after a refill, as
 sscanf on it needs

---
 include/altruct/io/fast_io.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index c513919..646aab9 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -60,6 +60,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
-- 
2.43.0


From 35b3440afcd4831af96fa42292d7270fedceea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:32 +0000
Subject: [PATCH 55/71] fix: fast_write stopped at an embedded zero of a
 std::string

---
 include/altruct/io/fast_io.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 646aab9..0cd2003 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -322,7 +322,10 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
-- 
2.43.0


From 7e74b0bf439cdbf9f08a749d3c2027a68c314479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:59 +0000
Subject: [PATCH 56/71] fix: writer.h wrote the smallest value of an integral
 type without digits

---
 include/altruct/io/writer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..33ac59c 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -247,11 +247,11 @@ public:
         int i;
         static char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int digit = (int)(d % 10); // negative if `d` is
+            tc[i] = ((digit < 0) ? -digit : digit) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From 69c5a36c5f6fcba63d72098bed87f948d44cbceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 57/71] fix: fast_io.h wrote the smallest value of an integral
 type without digits

---
 include/altruct/io/fast_io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 0cd2003..e26b544 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -333,11 +333,11 @@ public:
         int i;
         static char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int digit = (int)(d % 10); // negative if `d` is
+            tc[i] = ((digit < 0) ? -digit : digit) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From ad78754f432b2285a82ef7d7cb6000789e07a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 58/71] fix: writer.h let rounding carry into a digit ':'
 instead of a new digit

---
 include/altruct/io/writer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 33ac59c..76091ef 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -269,10 +269,14 @@ public:
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
-        } else {
-            e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (!scientific) {
+            e = std::max(exponent(f), 0) + 1;
+        } else if (f >= 10) {
+            f /= 10;
+            g++;
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
-- 
2.43.0


From 82115d1ef6b95cf5c2d20e9b019c0534ca645ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 59/71] fix: fast_io.h let rounding carry into a digit ':'
 instead of a new digit

---
 include/altruct/io/fast_io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index e26b544..f680e4e 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -355,10 +355,14 @@ public:
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
-        } else {
-            e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (!scientific) {
+            e = std::max(exponent(f), 0) + 1;
+        } else if (f >= 10) {
+            f /= 10;
+            g++;
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
-- 
2.43.0


From 1dab1138b8881b94898e64003889684b10205ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:48 +0000
Subject: [PATCH 60/71] fix: parallel_execute called create_worker of a shared
 provider without synchronization

---
 include/altruct/concurrency/concurrency.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..f94422a 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -51,10 +51,13 @@ namespace concurrency {
  */
 template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVIDER>
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
+    std::mutex worker_provider_mutex;
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
-- 
2.43.0


From df95ae880e983e53db55a37480ff2096c88d49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 61/71] fix: pga subtraction no longer returns a reference to a
 temporary

---
 include/altruct/structure/math/pga.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..9e75971 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
-- 
2.43.0


From 097c8839769a04c00024c90366f422321dc4b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 62/71] fix: cl3 multivector in-place product with its own
 rotor part

---
 include/altruct/structure/math/clifford3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..e718cbd 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -271,8 +271,8 @@ public:
     multivector& operator += (const multivector& m) { r += m.r; v += m.v; return *this; }
     multivector& operator -= (const multivector& m) { r -= m.r; v -= m.v; return *this; }
 
-    multivector& operator *= (const rotor<T>& r2) { r *= r2; v *= r2; return *this; }
-    multivector& operator /= (const rotor<T>& r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
+    multivector& operator *= (const rotor<T>& r2) { v *= r2; r *= r2; return *this; }
+    multivector& operator /= (const rotor<T>& r2) { v /= r2; r /= r2; return *this; } // return *this *= r2.inv();
 
     multivector& operator *= (const vector<T>& v2) { return *this = *this * v2; }
     multivector& operator /= (const vector<T>& v2) { return *this = *this / v2; }
-- 
2.43.0


From 6ee790415a6297d6cb60b87a21da89fed9c2acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 63/71] fix: unary minus of with_infinity keeps infinity

---
 include/altruct/structure/math/with_infinity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From e4031e6b428a82c1607ff87dd26dbb98c5f237e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 64/71] fix: permutation power overflowed for exponents near
 the int64 limits

---
 include/altruct/structure/math/permutation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..be76987 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -69,14 +69,15 @@ public:
 
     // this permutation applied `T` times
     permutation pow(int64_t T) const {
-        if (T < 0) return inv().pow(-T);
         cycles_t vc;
         std::vector<bool> u(n);
         for (const auto& cycle : cycles) {
             I L = (I)cycle.size();
+            int64_t t = T % (int64_t)L;
+            if (t < 0) t += L;
             for (I i = 0; i < L; i++) {
                 cycle_t c;
-                for (I j = i; !u[cycle[j]]; j = I((j + T) % L)) {
+                for (I j = i; !u[cycle[j]]; j = I((j + t) % L)) {
                     c.push_back(cycle[j]);
                     u[cycle[j]] = true;
                 }
-- 
2.43.0


From 71c80e17d0cd33ed4481cb52d69606cb95c742b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 65/71] fix: double_int left shift did not compile

---
 experimental/include/altruct/structure/math/double_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 4c685ed..af06b0b 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -181,7 +181,7 @@ public:
             lo = 0;
         } else if (cnt > 0) {
             hi <<= cnt;
-            hi |= double_int(lo).assign_unsigned_shr(T::type_bits - cnt);
+            hi |= T(lo).assign_unsigned_shr(T::type_bits - cnt);
             lo <<= cnt;
         }
         return *this;
-- 
2.43.0


From 8e95d0337168be08ca3ec6f8e6516a59368fbd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 66/71] fix: double_int post-increment and post-decrement act
 on the operand

---
 experimental/include/altruct/structure/math/double_int.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index af06b0b..aecd5e0 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -78,8 +78,8 @@ public:
     // INCREMENT / DECREMENT
     double_int& operator ++ () { int carry = 1; return assign_adc(0, carry); }
     double_int& operator -- () { int borrow = 1;return assign_sbb(0, borrow); }
-    double_int operator ++ (int) { double_int r(*this); return ++r; }
-    double_int operator -- (int) { double_int r(*this); return --r; }
+    double_int operator ++ (int) { double_int r(*this); ++*this; return r; }
+    double_int operator -- (int) { double_int r(*this); --*this; return r; }
 
     // ADDITION / SUBTRACTION
     double_int& operator += (const double_int& rhs) { int carry = 0; return assign_adc(rhs, carry); }
-- 
2.43.0


From 2a7e5666000b62c4fe7927fe1a7a5218cd485de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 67/71] fix: double_int from int dropped the bits above a
 narrow low half

---
 experimental/include/altruct/structure/math/double_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index aecd5e0..072ebd5 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -38,7 +38,7 @@ public:
     T hi, lo;
 
     // CONSTRUCTORS
-    double_int(int val = 0) : hi(sign(val < 0)), lo(val) {}
+    double_int(int val = 0) : hi(val >> (half_type::type_bits < 31 ? half_type::type_bits : 31)), lo(val) {}
     double_int(const T& val) : hi(sign(val.is_negative())), lo(val) {}
     double_int(const T& rhs_hi, const T& rhs_lo) : hi(rhs_hi), lo(rhs_lo) {}
     double_int(const double_int& rhs) : hi(rhs.hi), lo(rhs.lo) {}
-- 
2.43.0


From 8b1ddd088684e82d90ffd35e97f83f2941df599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:45 +0000
Subject: [PATCH 68/71] fix: pass the unit through chromatic_polynomial's
 recursion

---
 .../altruct/algorithm/graph/chromatic_polynomial.h     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/chromatic_polynomial.h b/experimental/include/altruct/algorithm/graph/chromatic_polynomial.h
index 20a0ecf..5db21ec 100644
--- a/experimental/include/altruct/algorithm/graph/chromatic_polynomial.h
+++ b/experimental/include/altruct/algorithm/graph/chromatic_polynomial.h
@@ -21,7 +21,7 @@ altruct::math::polynom<I> chromatic_polynomial_T(int n, I id = I(1)) {
 template<typename I>
 altruct::math::polynom<I> chromatic_polynomial_C(int n, I id = I(1)) {
     typedef altruct::math::polynom<I> poly;
-    return powT(poly{ -id, id }, n) + poly{ -id, id } *((n % 2 == 0) ? +1 : -1);
+    return powT(poly{ -id, id }, n) + poly{ -id, id } *((n % 2 == 0) ? id : -id);
 }
 
 /** Chromatic polynomial of a complete graph. */
@@ -55,7 +55,7 @@ altruct::math::polynom<I> chromatic_polynomial(const graph<E>& g, I id = I(1)) {
     for (int u = 0; u < n; u++) {
         if (g[u].size() < n - 1) continue;
         auto gd = g; gd.delete_node(u);
-        return k * chromatic_polynomial<I>(gd)(k1);
+        return k * chromatic_polynomial<I>(gd, id)(k1);
     }
     // Handle each biconnected component independently
     auto d = chain_decomposition(g);
@@ -82,7 +82,7 @@ altruct::math::polynom<I> chromatic_polynomial(const graph<E>& g, I id = I(1)) {
     if (vg.size() != 1 || C != 1 || AE != CE) {
         poly p = powT(k, C) * powT(k1, AE - CE);
         for (const auto& gg : vg) {
-            p *= chromatic_polynomial<I>(gg) / k;
+            p *= chromatic_polynomial<I>(gg, id) / k;
         }
         return p;
     } else {
@@ -96,7 +96,7 @@ altruct::math::polynom<I> chromatic_polynomial(const graph<E>& g, I id = I(1)) {
             int v = -1; for (const E& e : g[u]) if (v < 0 || g[v].size() > g[e.v].size()) v = e.v;
             auto gd = g; gd.delete_edge(u, v); gd.delete_edge(v, u);
             auto gc = g; gc.contract(u, v);
-            return chromatic_polynomial<I>(gd) - chromatic_polynomial<I>(gc);
+            return chromatic_polynomial<I>(gd, id) - chromatic_polynomial<I>(gc, id);
         } else {
             // dense: addition-contraction
             // add edge incident to the highest degree vertex
@@ -105,7 +105,7 @@ altruct::math::polynom<I> chromatic_polynomial(const graph<E>& g, I id = I(1)) {
             int v = -1; for (int i = 0; i < n; i++) if ((v < 0 || g[v].size() < g[i].size()) && !used[i]) v = i;
             auto ga = g; ga.add_edge(u, v); ga.add_edge(v, u);
             auto gc = g; gc.contract(u, v);
-            return chromatic_polynomial<I>(ga) + chromatic_polynomial<I>(gc);
+            return chromatic_polynomial<I>(ga, id) + chromatic_polynomial<I>(gc, id);
         }
     }
 }
-- 
2.43.0


From 780453de41107c772e2eeb0fe2ff698cc0210b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:07 +0000
Subject: [PATCH 69/71] fix: treap lost its balance when existing keys were
 inserted again or counted keys partially erased

---
 include/altruct/structure/container/treap.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index fdffe8f..9bdcf49 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -237,7 +237,11 @@ public: // query & update
     }
 
     iterator insert(const T& val, int cnt = 1) {
-        return retrace_up(tree.insert(val, cnt));
+        int old_size = tree.size();
+        auto it = tree.insert(val, cnt);
+        // a node that has been there already must keep its random balance
+        bool inserted = (DUP == bst_duplicate_handling::COUNT) ? (it.count() == cnt) : (tree.size() != old_size);
+        return inserted ? retrace_up(it) : iterator(it);
     }
 
     iterator insert_before(const_iterator it, const T& val, int cnt = 1) {
@@ -259,6 +263,9 @@ public: // query & update
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
+        if (DUP == bst_duplicate_handling::COUNT && it.it != tree.cend() && cnt < it.count()) {
+            return tree.erase(it.it, cnt); // the node stays in the tree, and so does its place
+        }
         return tree.erase(retrace_down(it.it), cnt);
     }
 
-- 
2.43.0


From 4cc298f23dc2be84791c2fac2e3174053c92d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:21 +0000
Subject: [PATCH 70/71] fix: aho_corasick_trie::move_next recursed once per
 suffix link and overflowed the stack on long words

---
 .../altruct/structure/container/aho_corasick_trie.h  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/experimental/include/altruct/structure/container/aho_corasick_trie.h b/experimental/include/altruct/structure/container/aho_corasick_trie.h
index d5bb465..63910dd 100644
--- a/experimental/include/altruct/structure/container/aho_corasick_trie.h
+++ b/experimental/include/altruct/structure/container/aho_corasick_trie.h
@@ -116,11 +116,13 @@ public:
 
     // Moves to the next state given the current state and the transition letter.
     index_t move_next(index_t cur_node, alpha_t let) {
-        node_t& t = trie[cur_node];
-        if (t.next[let] != NIL) return t.next[let];
-        if (cur_node == ROOT) return t.next[let] = ROOT;
-        index_t suff_link = _get_suff_link(cur_node);
-        return t.next[let] = move_next(suff_link, let);
+        // the first state along the suffix links that has this transition;
+        // done iteratively as there can be as many links as there are letters in a word
+        index_t node = cur_node;
+        while (trie[node].next[let] == NIL && node != ROOT) node = _get_suff_link(node);
+        index_t next = (trie[node].next[let] != NIL) ? trie[node].next[let] : ROOT;
+        for (node = cur_node; trie[node].next[let] == NIL; node = trie[node].suff_link) trie[node].next[let] = next;
+        return next;
     }
 
     index_t _get_suff_link(index_t cur_node) {
-- 
2.43.0


From 427f71f585d8b139c80c1f21941c2703a530dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:34 +0000
Subject: [PATCH 71/71] fix: prefix_tree recursed once per letter when copied,
 visited or destroyed and overflowed the stack on long words

---
 .../altruct/structure/container/prefix_tree.h | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/experimental/include/altruct/structure/container/prefix_tree.h b/experimental/include/altruct/structure/container/prefix_tree.h
index 07d381c..1395fa7 100644
--- a/experimental/include/altruct/structure/container/prefix_tree.h
+++ b/experimental/include/altruct/structure/container/prefix_tree.h
@@ -212,11 +212,18 @@ private:
     template<typename V, typename F>
     void _for_each(node_t* t, word_t& w, V visitor, F letter) const {
         if (t->word_id != 0) visitor(w, t->word_id);
-        for (int o = 0; o < ALPHABET_SIZE; o++) {
-            if (t->next[o] == nullptr) continue;
-            w.push_back(letter(o));
-            _for_each(t->next[o], w, visitor, letter);
-            w.pop_back();
+        std::vector<std::pair<node_t*, int>> stk{ { t, 0 } }; // words can be too long for recursion
+        while (!stk.empty()) {
+            node_t* p = stk.back().first;
+            int o = stk.back().second++;
+            if (o == ALPHABET_SIZE) {
+                stk.pop_back();
+                if (!stk.empty()) w.pop_back();
+            } else if (p->next[o] != nullptr) {
+                w.push_back(letter(o));
+                if (p->next[o]->word_id != 0) visitor(w, p->next[o]->word_id);
+                stk.push_back({ p->next[o], 0 });
+            }
         }
     }
 
@@ -231,15 +238,20 @@ private:
     }
 
     void _copy(node_t* t, const node_t* s) {
-        t->word_id = s->word_id;
-        t->num_ch = s->num_ch;
-        t->ord = s->ord;
-        if (s->word_id != 0) words[s->word_id] = t;
-        for (int o = 0; o < ALPHABET_SIZE; o++) {
-            if (s->next[o] == nullptr) continue;
-            t->next[o] = _buy();
-            t->next[o]->parent = t;
-            _copy(t->next[o], s->next[o]);
+        std::vector<std::pair<node_t*, const node_t*>> stk{ { t, s } };
+        while (!stk.empty()) {
+            t = stk.back().first, s = stk.back().second;
+            stk.pop_back();
+            t->word_id = s->word_id;
+            t->num_ch = s->num_ch;
+            t->ord = s->ord;
+            if (s->word_id != 0) words[s->word_id] = t;
+            for (int o = 0; o < ALPHABET_SIZE; o++) {
+                if (s->next[o] == nullptr) continue;
+                t->next[o] = _buy();
+                t->next[o]->parent = t;
+                stk.push_back({ t->next[o], s->next[o] });
+            }
         }
     }
 
@@ -257,11 +269,14 @@ private:
     }
 
     void _free_all(node_t* t) {
-        if (t == nullptr) return;
-        for (int o = 0; o < ALPHABET_SIZE; o++) {
-            _free_all(t->next[o]);
+        std::vector<node_t*> stk{ t };
+        while (!stk.empty()) {
+            t = stk.back();
+            stk.pop_back();
+            if (t == nullptr) continue;
+            stk.insert(stk.end(), t->next, t->next + ALPHABET_SIZE);
+            _free(t);
         }
-        _free(t);
     }
 };
 
-- 
2.43.0


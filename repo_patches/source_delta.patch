From 342e487f77aec88a9e1e5db24b449f6c49c822aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 01/28] fix: make abs_rev usable for bound types other than
 double

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..b8c8f9e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(static_cast<T>(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From b9cec12f7a91fcbda4710da1dcb41c4128fdd183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/28] fix: define decoration::is_valid inline so that several
 files can include the library

---
 p1788/decoration/decoration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 8f18f59..502a9e6 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -64,7 +64,7 @@ enum class decoration : uint8_t
 
 
 
-bool is_valid(decoration dec)
+inline bool is_valid(decoration dec)
 {
     switch(dec)
     {
-- 
2.43.0


From a666beac677609997aeb65e05f0d75655360e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 03/28] fix: validate the second operand of cancel_minus

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..47a2c67 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -86,7 +86,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From 8b084ecc265cebedc7df11d65003e551595f4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 04/28] fix: negate the subtrahend of a mixed type cancel_plus
 in its own type

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 47a2c67..435742c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -56,7 +56,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -76,7 +76,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From a5ba5ea6234465e1d73a9229f64e023097f17c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 05/28] fix: return the error value from mixed type
 mul_rev_to_pair for invalid or NaI operands

---
 .../mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
index 0b42476..fb45a75 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
@@ -267,7 +267,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c))
-        std::pair<representation, representation>(empty(), empty());
+        return std::pair<representation, representation>(empty(), empty());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
@@ -318,7 +318,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c)
             || mpfr_bin_ieee754_flavor<T1>::is_nai(b) || mpfr_bin_ieee754_flavor<T2>::is_nai(c))
-        std::pair<representation_dec, representation_dec>(nai(), nai());
+        return std::pair<representation_dec, representation_dec>(nai(), nai());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
-- 
2.43.0


From 6ee1a8f90e2389954829f191ec66d95520c6547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 06/28] fix: reject an invalid second operand of cancel_plus
 instead of treating it as empty

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 435742c..d028bb0 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -44,6 +44,9 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representation const& x,
                                         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
+    if (!is_valid(x) || !is_valid(y))
+        return empty();
+
     return cancel_minus(x, neg(y));
 }
 
@@ -56,6 +59,9 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
+    if (!mpfr_bin_ieee754_flavor<T1>::is_valid(x) || !mpfr_bin_ieee754_flavor<T2>::is_valid(y))
+        return empty();
+
     return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
-- 
2.43.0


From 7ea89ba7d4ab0ae603ab7d165a62e00c55d9167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 07/28] fix: pown_rev with the smallest int exponent

p != -p relies on signed overflow and is always true for the optimiser, so that
the exponent INT_MIN took the wrong branch and the correction loop did not end.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index b8c8f9e..e42a43b 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -324,7 +324,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDU);
     }
@@ -360,7 +360,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDD);
     }
-- 
2.43.0


From fe8975a4b3cbf8ffe73e9e53c8b8f3c93c19746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 08/28] fix: sin_rev, cos_rev and tan_rev miss the solution two
 periods away from the bound

If the first two candidate boxes lie outside of x the third one has to be tried,
and the enclosure of pi has to be chosen by the sign of the multiple, which is not
always the sign of the bound.
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index e42a43b..e591420 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -726,14 +726,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -742,8 +742,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -774,14 +774,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) > 0)
             ++n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -790,8 +790,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -973,14 +973,14 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move acos(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -989,8 +989,8 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i - 1, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -1021,14 +1021,14 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move acos(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1037,8 +1037,8 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i - 1, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -1209,12 +1209,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             --n;
 
         // move atan(c)
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             tmp.set(n + i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
             lbox.first = rl.template get<T>(MPFR_RNDD);
             lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1245,12 +1245,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             ++n;
 
         // move atan(c)
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             tmp.set(n - i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
             rbox.first = rl.template get<T>(MPFR_RNDD);
             rbox.second = ru.template get<T>(MPFR_RNDU);
-- 
2.43.0


From 18c50de3a69e3887a74cfca1207e3a131179c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 09/28] fix: sin_rev, cos_rev and tan_rev lose solutions if a
 bound of x is very large

The quotient by pi of such a bound is not known (only its low bits are returned by
mpfr_remquo, and pi is only known to the working precision), so the bound is kept.
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index e591420..0a1a25d 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -719,6 +719,12 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // if left bound of x is too large to locate it between the multiples of pi then it is kept
+    else if (std::abs(x.first) >= std::ldexp(static_cast<T>(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        lbox.first = x.first;
+        lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -767,6 +773,12 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // if right bound of x is too large to locate it between the multiples of pi then it is kept
+    else if (std::abs(x.second) >= std::ldexp(static_cast<T>(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        rbox.first = x.second;
+        rbox.second = x.second;
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
@@ -966,6 +978,12 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // if left bound of x is too large to locate it between the multiples of pi then it is kept
+    else if (std::abs(x.first) >= std::ldexp(static_cast<T>(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        lbox.first = x.first;
+        lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1014,6 +1032,12 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // if right bound of x is too large to locate it between the multiples of pi then it is kept
+    else if (std::abs(x.second) >= std::ldexp(static_cast<T>(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        rbox.first = x.second;
+        rbox.second = x.second;
+    }
     else
     {
         // Compute max integer n with: n * pi <= upper bound of x
@@ -1201,6 +1225,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // if left bound of x is too large to locate it between the multiples of pi then it is kept
+    else if (std::abs(x.first) >= std::ldexp(static_cast<T>(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        lbox.first = x.first;
+        lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1237,6 +1267,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // if right bound of x is too large to locate it between the multiples of pi then it is kept
+    else if (std::abs(x.second) >= std::ldexp(static_cast<T>(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        rbox.first = x.second;
+        rbox.second = x.second;
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
-- 
2.43.0


From f3ddf32413b877dcb48635a9169b36d991f34cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 10/28] fix: tan misses the pole if the width of the argument
 is slightly less than pi

---
 ...mpfr_bin_ieee754_flavor_elem_func_impl.hpp | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
index 14166f8..9e449c1 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
@@ -2613,6 +2613,19 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation const
     if (mpfr_cmp(w(), pi()) > 0)
         return entire();
 
+    // The rounded bounds do not reveal a pole if the width is only slightly less than pi.
+    // Without a pole the tangent increases by more than 1 on a width of more than 1.
+    if (mpfr_cmp_ui(w(), 1) > 0)
+    {
+        mpfr_var l;
+        mpfr_var u;
+        mpfr_tan(l(), xl(), MPFR_RNDU);
+        mpfr_tan(u(), xu(), MPFR_RNDD);
+
+        if (mpfr_cmp(l(), u()) > 0)
+            return entire();
+    }
+
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
@@ -2672,6 +2685,19 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation_dec c
     if (mpfr_cmp(w(), pi()) > 0)
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
+    // The rounded bounds do not reveal a pole if the width is only slightly less than pi.
+    // Without a pole the tangent increases by more than 1 on a width of more than 1.
+    if (mpfr_cmp_ui(w(), 1) > 0)
+    {
+        mpfr_var l;
+        mpfr_var u;
+        mpfr_tan(l(), xl(), MPFR_RNDU);
+        mpfr_tan(u(), xu(), MPFR_RNDD);
+
+        if (mpfr_cmp(l(), u()) > 0)
+            return representation_dec(entire(), p1788::decoration::decoration::trv);
+    }
+
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
-- 
2.43.0


From 047a7848605d697b5208ffa8b338ce71dd96fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 11/28] fix: reductions lose products and partial sums outside
 of the range of the number type

---
 p1788/reduction/reduction.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..9f2bbc1 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -91,7 +91,10 @@ public:
     // perform op on one iterator
     reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
     {
-        mpfr_var::setup();
+        // the elements and their exact sum need not be in the range of the result type
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
+
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -103,7 +106,11 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round to the range of the result type
+        mpfr_var::setup();
+        res.subnormalize(mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
@@ -115,7 +122,10 @@ public:
     // perform op on two interators
     reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
     {
-        mpfr_var::setup();
+        // the elements and their exact sum need not be in the range of the result type
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
+
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -127,7 +137,11 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round to the range of the result type
+        mpfr_var::setup();
+        res.subnormalize(mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
-- 
2.43.0


From 115378fe402afc78c4cc2014dcc85d25504f6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 12/28] fix: two_sum returns a NaN error term if an
 intermediate result overflows

---
 p1788/util/mpfr_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p1788/util/mpfr_util.hpp b/p1788/util/mpfr_util.hpp
index 1efaf16..70bb61d 100644
--- a/p1788/util/mpfr_util.hpp
+++ b/p1788/util/mpfr_util.hpp
@@ -57,6 +57,10 @@ inline std::pair<T,T> two_sum(T const& a, T const& b)
     mpfr_var b_delta;
 
     s.subnormalize(mpfr_add(s(), a_(), b_(), MPFR_RNDN), MPFR_RNDN);
+
+    // the intermediate results may exceed the largest finite number although the sum does not
+    mpfr_set_emax(mpfr_var::EMAX + 1);
+
     a_delta.subnormalize(mpfr_sub(a_delta(), s(), b_(), MPFR_RNDN), MPFR_RNDN);
     b_delta.subnormalize(mpfr_sub(b_delta(), s(), a_delta(), MPFR_RNDN), MPFR_RNDN);
 
-- 
2.43.0


From 365a52d841bae83b4d88b7844fe977e94f4c4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 13/28] fix: reductions leak the memory of their elements

---
 p1788/reduction/reduction.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index 9f2bbc1..80cf30b 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -154,7 +154,10 @@ public:
     ~reduction_sum_op()
     {
         for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
+        {
             mpfr_clear(*b);
+            delete[] *b;    // allocated by new mpfr_t
+        }
 
         delete[] tab_;
 
-- 
2.43.0


From 08232a7f4419e1a34ea35e40d54c437767815058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 14/28] fix: number output overflows its string buffer

The estimated buffer size took only the precision into account, because of
the precedence of the conditional operator. Use the size which is required
for the formatted number.
---
 p1788/util/mpfr_var_impl.hpp | 82 +++++-------------------------------
 1 file changed, 10 insertions(+), 72 deletions(-)

diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 1b15392..dd5b2ad 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -234,97 +234,27 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 {
     std::string format = width > 0 ? "%" + std::to_string(width) : "%";
 
-    size_t req_string_width =  0;
-
     switch (rep)
     {
     case p1788::io::decimal_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "F" : "f";
-
-        {
-            // Compute  upper bound for required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6;                              // for the digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::scientific_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "E" : "e";
-        {
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 3                                                            // for the pattern "-1."
-                               + precision > 0 ? precision : 6                              // for the digits
-                               + 2                                                          // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::hex_representation:
         format += precision > 0 ? "." + std::to_string(precision) : "";     // no precision prints sufficient digits for an exact rep
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "A" : "a";
-        {
-            // Compute  upper bound of required hex digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_prec(PREC_, MPFR_RNDU);
-            mpfr_div_d(req_prec(), req_prec(), 4.0, MPFR_RNDU);     // 4 mantissa bits per hex digit
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 5                                                            // for the pattern "-0X1."
-                               + req_prec.template get<unsigned long int>(MPFR_RNDU) + 1    // for the hex digits
-                               + 2                                                          // for the pattern "P+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     default:    // decimal_scientific
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "G" : "g";
-        {
-            // Compute  upper bound of required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6                               // for the digits
-                               + 2                                                           // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;     // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     }
 
@@ -341,8 +271,16 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
         ~string_buffer()
         {
             delete[] data;
-        };
-    } buffer(req_string_width);
+        }
+    };
+
+    // determine the required number of characters
+    int const req_string_width = mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_);
+
+    if (req_string_width < 0)
+        return std::string();
+
+    string_buffer buffer(req_string_width);
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-- 
2.43.0


From 3423d4000a0445b728341ba0f0a232d4930050e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 15/28] fix: radius of the uncertain output is wrong or out of
 range

The bounds were converted with another exponent than the number string and
truncated, and numbers with more than 18 digits exceeded long long int, which
resulted in an exception. Compute the radius exactly.
---
 .../setbased/mpfr_bin_ieee754_flavor.hpp      |   1 +
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 236 +++++++-----------
 2 files changed, 90 insertions(+), 147 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index c34828b..9bf1413 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -35,6 +35,7 @@
 #include <cctype>
 #include <sstream>
 #include <regex>
+#include <vector>
 
 #include <gmp.h>
 #include <mpfr.h>
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3697d20..8d8982e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -135,177 +135,119 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
         else    // all other
         {
             mpfr_var::setup();
-            mpfr_var xl(x.first, MPFR_RNDD);
-            mpfr_var xu(x.second, MPFR_RNDU);
 
-            // lower bound representation
-            std::string tmp_l = xl.get_str(MPFR_RNDD,
-                                           uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
-                                           0,
-                                           prec,
-                                           text_rep);
+            // value of the number string
+            mpfr_rnd_t rnd = MPFR_RNDN;
+            T val = 0.0;
 
-            // upper bound representation
-            std::string tmp_u = xu.get_str(MPFR_RNDU,
-                                           uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
-                                           0,
-                                           prec,
-                                           text_rep);
+            switch(os.iword(p1788::io::representation_manip_id))
+            {
+            case p1788::io::uncertain_down_representation:
+                rnd = MPFR_RNDU;
+                val = x.second;
+                break;
+            case p1788::io::uncertain_up_representation:
+                rnd = MPFR_RNDD;
+                val = x.first;
+                break;
+            default:    // symmetric
+                val = mid(x);
+                break;
+            }
 
-            // find exponent part
-            int p_l = std::max(static_cast<int>(tmp_l.find('E')), static_cast<int>(tmp_l.find('e')));
-            int p_u = std::max(static_cast<int>(tmp_u.find('E')), static_cast<int>(tmp_u.find('e')));
+            // generate number string
+            mpfr_var xm(val, rnd);
+            str = xm.get_str(rnd,
+                             uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
+                             0,
+                             prec,
+                             text_rep);
 
+            // split number and exponent part if necessary
             std::string exp_str = "";
+            long int exp = -prec;
+            int p = std::max(static_cast<int>(str.find('E')), static_cast<int>(str.find('e')));
+
+            if (p >= 0)
+            {
+                exp_str = str.substr(p);
+                exp += std::stol(exp_str.substr(1));
+                str.erase(p);
+            }
 
-            long long int ulps = 0;
+            // remove seperator
+            std::string tmp_m = str;
+            tmp_m.erase(tmp_m.size() - prec - 1, 1);
 
-            // symmetric
-            if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_representation)
+            // RAII for mpz_t
+            struct mpz_var
             {
-                // midpoint string
-                mpfr_var m(mid(x), MPFR_RNDN);
-                std::string tmp_m = m.get_str(MPFR_RNDN,
-                                              uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
-                                              0,
-                                              prec,
-                                              text_rep);
-
-                // find exponent part
-                int p_m = std::max(static_cast<int>(tmp_m.find('E')), static_cast<int>(tmp_m.find('e')));
-
-                // split number and exponent part if necessary
-                str = p_m >= 0 ? tmp_m.substr(0, p_m) : tmp_m;
-                if (p_m >= 0)
+                mpz_var() : var_()
                 {
-                    exp_str = tmp_m.substr(p_m, tmp_m.size() - p_m);
-                    tmp_m = str;
+                    mpz_init(var_);
                 }
 
-                // remove seperator
-                tmp_m.erase(tmp_m.size() - prec - 1, 1);
-
-                // compute exponent difference
-                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1, tmp_m.size() - 1)) : 0;
-                int ulp_l = 0;
-                int ulp_u = 0;
-                if (p_l >= 0)
+                ~mpz_var()
                 {
-                    int exp_l = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1)) - exp_m;
-                    // remove exponent and seperator
-                    tmp_l.erase(p_l);
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
+                    mpz_clear(var_);
+                }
 
-                    if (exp_l < 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_l = std::stoll(tmp_l.substr(tmp_l.size() + exp_l)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp_l);
-                    }
-                    else if (exp_l > 0)
-                        // add some digits
-                        tmp_l.append(exp_l, '0');
+                mpz_t var_;
+            };
 
-                }
-                else
-                {
-                    // remove seperator
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
-                }
+            // number string and bounds (rounded outwards) as a multiple of the last digit
+            mpz_var m;
+            mpz_set_str(m.var_, tmp_m.c_str(), 10);
 
-                if (p_u >= 0)
-                {
-                    int exp_u = exp_m - std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    // remove exponent and seperator
-                    tmp_u.erase(p_u);
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
-                    if (exp_u > 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_u = std::stoll(tmp_u.substr(tmp_u.size() - exp_u)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp_u);
-                    }
-                    else if (exp_u < 0)
-                        // add some digits
-                        tmp_u.append(-exp_u, '0');
-                }
+            mpz_var bounds[2];
+            for (int i = 0; i < 2; ++i)
+            {
+                mpfr_var b(i == 0 ? x.first : x.second, i == 0 ? MPFR_RNDD : MPFR_RNDU);
+
+                if (mpfr_zero_p(b()))
+                    continue;
+
+                // b = n * 2^b_exp
+                mpz_var n;
+                mpz_var d;
+                mpz_var pow10;
+
+                long int b_exp = mpfr_get_z_2exp(n.var_, b());
+                mpz_set_ui(d.var_, 1);
+                mpz_ui_pow_ui(pow10.var_, 10, std::abs(exp));
+
+                if (b_exp < 0)
+                    mpz_mul_2exp(d.var_, d.var_, -b_exp);
                 else
-                {
-                    // remove seperator
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
-                }
+                    mpz_mul_2exp(n.var_, n.var_, b_exp);
 
-                // compute max ulps to lower and upper bound
-                long long int tmp = std::stoll(tmp_m);
+                if (exp < 0)
+                    mpz_mul(n.var_, n.var_, pow10.var_);
+                else
+                    mpz_mul(d.var_, d.var_, pow10.var_);
 
-                ulps = std::max(-std::stoll(tmp_l) + tmp + ulp_l,
-                                -tmp + std::stoll(tmp_u) + ulp_u);
+                if (i == 0)
+                    mpz_fdiv_q(bounds[i].var_, n.var_, d.var_);
+                else
+                    mpz_cdiv_q(bounds[i].var_, n.var_, d.var_);
             }
-            else // downward or upward
-            {
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    // split number and exponent part if necessary
-                    str = p_u >= 0 ? tmp_u.substr(0, p_u) : tmp_u;
-                    if (p_u >= 0)
-                        exp_str = tmp_u.substr(p_u, tmp_u.size() - p_u);
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
-                {
-                    // split number and exponent part if necessary
-                    str = p_l >= 0 ? tmp_l.substr(0, p_l) : tmp_l;
-                    if (p_l >= 0)
-                        exp_str = tmp_l.substr(p_l, tmp_l.size() - p_l);
-                }
 
-                // compute exponent difference
-                int exp = 0;
-                if (p_l >= 0)
-                {
-                    exp = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1));
-                    tmp_l.erase(p_l);
-                }
-                if (p_u >= 0)
-                {
-                    exp -= std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    tmp_u.erase(p_u);
-                }
+            // compute max ulps to lower and upper bound
+            // (the number string is an outer bound for downward or upward)
+            mpz_sub(bounds[0].var_, m.var_, bounds[0].var_);
+            mpz_sub(bounds[1].var_, bounds[1].var_, m.var_);
 
-                // remove seperator
-                tmp_l.erase(tmp_l.size() - prec - 1, 1);
-                tmp_u.erase(tmp_u.size() - prec - 1, 1);
+            bool const lower = os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation
+                               || (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_representation
+                                   && mpz_cmp(bounds[0].var_, bounds[1].var_) > 0);
 
-                // adjust string length to balance exponent difference
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    if (exp < 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_l.substr(tmp_l.size() + exp)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp);
-                    }
-                    else if (exp > 0)
-                        // add some digits
-                        tmp_l.append(exp, '0');
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
-                {
-                    if (exp > 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_u.substr(tmp_u.size() - exp)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp);
-                    }
-                    else if (exp < 0)
-                        // add some digits
-                        tmp_u.append(-exp, '0');
-                }
+            mpz_t const& ulps = bounds[lower ? 0 : 1].var_;
 
-                // compute ulps
-                ulps += -std::stoll(tmp_l) +  std::stoll(tmp_u);
-            }
+            std::vector<char> ulps_str(mpz_sizeinbase(ulps, 10) + 2);
+            mpz_get_str(ulps_str.data(), 10, ulps);
 
-            str += "?" + std::to_string(ulps);
+            str += "?";
+            str += ulps_str.data();
 
             // add downward or upward flag
             switch(os.iword(p1788::io::representation_manip_id))
-- 
2.43.0


From ea215fab56c640e471043e5ed900e21e03871f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 16/28] fix: number literals with a plus sign are rejected

The gmp library does not support a leading plus sign.
---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 20 +++++++++----------
 p1788/util/io.hpp                             |  7 +++++++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 8d8982e..7bdde71 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -609,7 +609,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[2].length() > 0) // float
                             {
                                 // number string
-                                std::string n_str = match[2].str();
+                                std::string n_str = p1788::util::remove_plus(match[2].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -667,7 +667,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[4].length() > 0) // hex
                             {
                                 // number string
-                                std::string n_str = match[4].str();
+                                std::string n_str = p1788::util::remove_plus(match[4].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -726,7 +726,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             {
                                 mpq_var q;
 
-                                int i = mpq_set_str(q.var_, (match[6].str() + "/" + match[7].str()).c_str(), 10);
+                                int i = mpq_set_str(q.var_, (p1788::util::remove_plus(match[6].str()) + "/" + match[7].str()).c_str(), 10);
 
                                 mpfr_var l;
                                 mpfr_var u;
@@ -769,7 +769,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[12].length() > 0) // float
                             {
                                 // number string
-                                std::string n_str = match[12].str();
+                                std::string n_str = p1788::util::remove_plus(match[12].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -816,7 +816,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[14].length() > 0) // hex
                             {
                                 // number string
-                                std::string n_str = match[14].str();
+                                std::string n_str = p1788::util::remove_plus(match[14].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -861,7 +861,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[16].length() > 0) // rational
                             {
-                                int i = mpq_set_str(ql.var_, (match[16].str() + "/" + match[17].str()).c_str(), 10);
+                                int i = mpq_set_str(ql.var_, (p1788::util::remove_plus(match[16].str()) + "/" + match[17].str()).c_str(), 10);
 
                                 if (i == 0)
                                     l.subnormalize(mpfr_set_q(l(), ql.var_, MPFR_RNDD), MPFR_RNDD);
@@ -881,7 +881,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[21].length() > 0) // float
                             {
                                 // number string
-                                std::string n_str = match[21].str();
+                                std::string n_str = p1788::util::remove_plus(match[21].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -928,7 +928,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[23].length() > 0) // hex
                             {
                                 // number string
-                                std::string n_str = match[23].str();
+                                std::string n_str = p1788::util::remove_plus(match[23].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -973,7 +973,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[25].length() > 0) // rational
                             {
-                                int i = mpq_set_str(qu.var_, (match[25].str() + "/" + match[26].str()).c_str(), 10);
+                                int i = mpq_set_str(qu.var_, (p1788::util::remove_plus(match[25].str()) + "/" + match[26].str()).c_str(), 10);
 
                                 if (i == 0)
                                     u.subnormalize(mpfr_set_q(u(), qu.var_, MPFR_RNDU), MPFR_RNDU);
@@ -1144,7 +1144,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                         mpfr_var u;
 
                         // number string
-                        std::string m_str = match[1].str();
+                        std::string m_str = p1788::util::remove_plus(match[1].str());
 
                         // compute precision and remove point
                         int p = m_str.find('.');
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index ce3bf2f..e5396c6 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -56,6 +56,13 @@ inline void ascii_to_lower(std::string& s)
                   );
 }
 
+// removes the leading plus sign of a number literal, which is not supported by the gmp library
+inline std::string remove_plus(std::string const& s)
+{
+    return !s.empty() && s[0] == '+' ? s.substr(1) : s;
+}
+
+
 } // namespace util
 
 } // namespace p1788
-- 
2.43.0


From b8f3879bc503e7d72a44da10f748fb0f03c97dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 17/28] fix: number literals with a huge exponent throw
 std::out_of_range or hang

Replace exponents far beyond the range of the number formats.
---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp         | 14 +++++++-------
 p1788/util/io.hpp                               | 17 +++++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 7bdde71..2d42fbb 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -633,7 +633,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[3].length() > 0)
                                     {
-                                        p += std::stoi(match[3].str());
+                                        p += p1788::util::exponent_to_int(match[3].str(), n_str.size());
                                     }
 
                                     mpz_var e;
@@ -691,7 +691,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[5].str());
+                                    p += p1788::util::exponent_to_int(match[5].str(), n_str.size());
 
 
                                     mpz_var e;
@@ -792,7 +792,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[13].length() > 0)
                                     {
-                                        p += std::stoi(match[13].str());
+                                        p += p1788::util::exponent_to_int(match[13].str(), n_str.size());
                                     }
 
                                     mpz_var e;
@@ -839,7 +839,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[15].str());
+                                    p += p1788::util::exponent_to_int(match[15].str(), n_str.size());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -904,7 +904,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[22].length() > 0)
                                     {
-                                        p += std::stoi(match[22].str());
+                                        p += p1788::util::exponent_to_int(match[22].str(), n_str.size());
                                     }
 
                                     mpz_var e;
@@ -951,7 +951,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[24].str());
+                                    p += p1788::util::exponent_to_int(match[24].str(), n_str.size());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -1182,7 +1182,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             // exponent (and precision)
                             if (match[6].length() > 0)
                             {
-                                p += std::stoi(match[6].str());
+                                p += p1788::util::exponent_to_int(match[6].str(), m_str.size());
                             }
 
                             mpz_var e;
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index e5396c6..ae13fcb 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -63,6 +63,23 @@ inline std::string remove_plus(std::string const& s)
 }
 
 
+// exponent of a number literal consisting of n digits
+// an exponent far beyond the range of the number formats is replaced by a smaller one (with the same effect)
+inline int exponent_to_int(std::string const& s, std::size_t n)
+{
+    long long int const limit = 1000000LL + 4LL * n;
+    long long int e = 0;
+
+    for (char c : s)
+    {
+        if (c >= '0' && c <= '9')
+            e = std::min(limit, 10 * e + (c - '0'));
+    }
+
+    return static_cast<int>(s[0] == '-' ? -e : e);
+}
+
+
 } // namespace util
 
 } // namespace p1788
-- 
2.43.0


From d3ea9a430b7dc75d4d21cb7288721f825e60e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 18/28] fix: exception state and control word are shared
 between threads

Both are documented as thread local.
---
 p1788/exception/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index c63100b..83bae89 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -100,7 +100,7 @@ inline exception_bits& operator^= (exception_bits& x, exception_bits y)
 inline exception_bits& cwd()
 {
     // Thread local cwd
-    static exception_bits exception_cwd_ = none_bit;
+    static thread_local exception_bits exception_cwd_ = none_bit;
 
     return exception_cwd_;
 }
@@ -183,7 +183,7 @@ public:
 inline exception_bits& state()
 {
     // Thread local exception state
-    static exception_bits exception_state_ = none_bit;
+    static thread_local exception_bits exception_state_ = none_bit;
 
     return exception_state_;
 }
-- 
2.43.0


From 29fbe86806496aaf799771e96f044f749a06fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 19/28] fix: output manipulators are ignored by other
 translation units

Every translation unit allocated its own indices of the private storage of a
stream.
---
 p1788/io/io_manip.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/p1788/io/io_manip.hpp b/p1788/io/io_manip.hpp
index 84327b7..ad938b3 100644
--- a/p1788/io/io_manip.hpp
+++ b/p1788/io/io_manip.hpp
@@ -34,8 +34,17 @@ namespace p1788
 namespace io
 {
 
+/// \brief Unique index N of the private storage of a stream, the same one in every translation unit
+///
+template<int N>
+inline int manip_id()
+{
+    static int const id = std::ios_base::xalloc();
+    return id;
+}
+
 // Unique ID for a manipulator to choose between lower and upper case
-int const text_representation_manip_id =  std::ios_base::xalloc();
+int const text_representation_manip_id = manip_id<0>();
 
 enum text_representation_flags
 {
@@ -77,7 +86,7 @@ std::basic_ostream<CharT, Traits>& upper_case(std::basic_ostream<CharT, Traits>&
 
 
 // Unique ID for a manipulator to choose the preferred string width of an interval or decorated interval
-int const string_width_manip_id =  std::ios_base::xalloc();
+int const string_width_manip_id = manip_id<1>();
 
 ///@name Output manipulators to choose the preferred width of the whole interval or decorated interval string.
 ///
@@ -105,7 +114,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between inf sup and uncertain representation
-int const representation_manip_id =  std::ios_base::xalloc();
+int const representation_manip_id = manip_id<2>();
 
 enum representation_flags
 {
@@ -170,7 +179,7 @@ std::basic_ostream<CharT, Traits>& uncertain_down_form(std::basic_ostream<CharT,
 
 
 // Unique ID for a manipulator to choose between decimal, scientifc or hex representation
-int const number_representation_manip_id =  std::ios_base::xalloc();
+int const number_representation_manip_id = manip_id<3>();
 
 enum number_representation_flags
 {
@@ -235,7 +244,7 @@ std::basic_ostream<CharT, Traits>& hex(std::basic_ostream<CharT, Traits>& os)
 
 
 // Unique ID for a manipulator to choose the preferred width of a number
-int const width_manip_id =  std::ios_base::xalloc();
+int const width_manip_id = manip_id<4>();
 
 ///@name Output manipulators to choose the preferred width of a number.
 ///
@@ -265,7 +274,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose the preferred precision of a number
-int const precision_manip_id =  std::ios_base::xalloc();
+int const precision_manip_id = manip_id<5>();
 
 ///@name Output manipulators to choose the precision of a number.
 ///
@@ -294,7 +303,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between different text representaions for special intervals
-int const special_representation_manip_id =  std::ios_base::xalloc();
+int const special_representation_manip_id = manip_id<6>();
 
 enum interval_special_representation_flags
 {
@@ -347,7 +356,7 @@ std::basic_ostream<CharT, Traits>& special_no_bounds(std::basic_ostream<CharT, T
 
 
 // Unique ID for a manipulator to choose between interval representaions with or without punctuation
-int const punctuation_manip_id =  std::ios_base::xalloc();
+int const punctuation_manip_id = manip_id<7>();
 
 enum interval_punctuation_flags
 {
@@ -389,7 +398,7 @@ std::basic_ostream<CharT, Traits>& no_punctuation(std::basic_ostream<CharT, Trai
 
 
 // Unique ID for a manipulator to choose if an exponent is shown in uncertain mode
-int const uncertain_exponent_manip_id =  std::ios_base::xalloc();
+int const uncertain_exponent_manip_id = manip_id<8>();
 
 enum uncertain_exponent_flags
 {
@@ -434,7 +443,7 @@ std::basic_ostream<CharT, Traits>& uncertain_exponent(std::basic_ostream<CharT,
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const dec_manip_id =  std::ios_base::xalloc();
+int const dec_manip_id = manip_id<9>();
 
 // enum for the manipulator to print decorations
 enum dec_manip_flags
@@ -481,7 +490,7 @@ std::basic_ostream<CharT, Traits>& dec_numeric(std::basic_ostream<CharT, Traits>
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const overlapping_manip_id =  std::ios_base::xalloc();
+int const overlapping_manip_id = manip_id<10>();
 
 // enum for the manipulator to print decorations
 enum overlapping_manip_flags
-- 
2.43.0


From 5d9ba3ece4bfc5e20ef840f75050e84b6a78854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 20/28] fix: number strings that are too long to be generated
 are written as an empty string

---
 .../flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp  | 2 +-
 p1788/util/mpfr_var.hpp                                         | 1 +
 p1788/util/mpfr_var_impl.hpp                                    | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 2d42fbb..f77ba9e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -60,7 +60,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
             && !is_empty(x))
     {
         std::string str;
-        int prec = os.iword(p1788::io::precision_manip_id);
+        long int prec = os.iword(p1788::io::precision_manip_id);
         p1788::io::text_representation_flags text_rep =  static_cast<p1788::io::text_representation_flags>(os.iword(p1788::io::text_representation_manip_id));
         p1788::io::uncertain_exponent_flags uc_exp = static_cast<p1788::io::uncertain_exponent_flags>(os.iword(p1788::io::uncertain_exponent_manip_id));
 
diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index 490d93d..fdfa5e1 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -29,6 +29,7 @@
 #define MPFR_USE_INTMAX_T
 
 #include <mpfr.h>
+#include <stdexcept>
 #include <string>
 
 #include "p1788/io/io_manip.hpp"
diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index dd5b2ad..fd25a91 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -278,7 +278,7 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
     int const req_string_width = mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_);
 
     if (req_string_width < 0)
-        return std::string();
+        throw std::length_error("The number string is too long!");
 
     string_buffer buffer(req_string_width);
 
-- 
2.43.0


From ac2bb74c1543b1a3432c0698e2b3eeea2cea8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 21/28] fix: reductions leak their elements if an element
 cannot be generated

---
 p1788/reduction/reduction.hpp | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index 80cf30b..3ef48e5 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -89,15 +89,13 @@ class reduction_sum_op
 public:
 
     // perform op on one iterator
-    reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
+    reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin), tab_(n_)
     {
         // the elements and their exact sum need not be in the range of the result type
         mpfr_set_emin(mpfr_get_emin_min());
         mpfr_set_emax(mpfr_get_emax_max());
 
-        tab_ = new mpfr_ptr[n_];    // array of elemets
-
-        mpfr_ptr* p = tab_;
+        mpfr_ptr* p = tab_.data;
 
         // perform op on iterator
         while (begin != end)
@@ -106,7 +104,7 @@ public:
         mpfr_var res;
 
         // accumulate
-        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_.data, n_, get_mpfr_rnd_mode(rnd));
 
         // round to the range of the result type
         mpfr_var::setup();
@@ -120,15 +118,13 @@ public:
     }
 
     // perform op on two interators
-    reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
+    reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a), tab_(n_)
     {
         // the elements and their exact sum need not be in the range of the result type
         mpfr_set_emin(mpfr_get_emin_min());
         mpfr_set_emax(mpfr_get_emax_max());
 
-        tab_ = new mpfr_ptr[n_];    // array of elemets
-
-        mpfr_ptr* p = tab_;
+        mpfr_ptr* p = tab_.data;
 
         // perform op on iterator
         while (begin_a != end_a)
@@ -137,7 +133,7 @@ public:
         mpfr_var res;
 
         // accumulate
-        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_.data, n_, get_mpfr_rnd_mode(rnd));
 
         // round to the range of the result type
         mpfr_var::setup();
@@ -150,19 +146,6 @@ public:
             result_ = rnd == rnd_mode::downward ? -0.0 : 0.0;
     }
 
-    // cleanup
-    ~reduction_sum_op()
-    {
-        for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
-        {
-            mpfr_clear(*b);
-            delete[] *b;    // allocated by new mpfr_t
-        }
-
-        delete[] tab_;
-
-    }
-
     // get result
     typename std::iterator_traits<Iter>::value_type
     result()
@@ -171,9 +154,29 @@ public:
     }
 
 private:
+    // RAII for the array of elements (cleanup even if an element cannot be generated)
+    struct element_table
+    {
+        mpfr_ptr* data;
+        size_t const size;
+
+        element_table(size_t n) : data(new mpfr_ptr[n]()), size(n) {}
+
+        ~element_table()
+        {
+            for(mpfr_ptr* b = data; b != data + size && *b; ++b)
+            {
+                mpfr_clear(*b);
+                delete[] *b;    // allocated by new mpfr_t
+            }
+
+            delete[] data;
+        }
+    };
+
     size_t const n_;
     typename std::iterator_traits<Iter>::value_type result_;
-    mpfr_ptr* tab_;
+    element_table tab_;
 };
 
 
-- 
2.43.0


From 4d4975bc4cd11fad59ddcf1bfb1c7f1baa2479ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 22/28] fix: decorated intervals with an invalid decoration are
 accepted as operands

---
 .../setbased/mpfr_bin_ieee754_flavor_validation_func_impl.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_validation_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_validation_func_impl.hpp
index 78f5330..0a0b060 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_validation_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_validation_func_impl.hpp
@@ -59,6 +59,9 @@ bool mpfr_bin_ieee754_flavor<T>::is_valid(representation const& x)
 template<typename T>
 bool mpfr_bin_ieee754_flavor<T>::is_valid(representation_dec const& x)
 {
+    if (!p1788::decoration::is_valid(x.second))
+        return false;
+
     if ((std::isnan(x.first.first) && std::isnan(x.first.second)
             && (x.second == p1788::decoration::decoration::ill
                 || x.second == p1788::decoration::decoration::trv))
-- 
2.43.0


From 17f35a485f1f6d5c5666452f57830ead586e3976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 23/28] fix: decoration and overlap numbers depend on the base
 and the field width of the stream

---
 p1788/decoration/decoration.hpp                        | 10 +++++++---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp       |  3 +++
 p1788/overlapping/overlapping.hpp                      |  3 ++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 502a9e6..9776bc2 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -29,6 +29,7 @@
 #include <iostream>
 #include <algorithm>
 #include <cstdint>
+#include <string>
 
 #include "p1788/io/io_manip.hpp"
 #include "p1788/util/io.hpp"
@@ -108,7 +109,7 @@ std::basic_ostream<CharT, Traits>& operator<<(
     // numeric
     if (os.iword(p1788::io::dec_manip_id) == p1788::io::dec_numeric_representation)
     {
-        return os << static_cast<unsigned int>(dec);
+        return os << std::to_string(static_cast<unsigned int>(dec)).c_str();
     }
 
     // alphabetic
@@ -187,8 +188,11 @@ std::basic_istream<CharT, Traits>& operator>>(
         // starts with digit
         if (std::isdigit(is.peek()))
         {
-            unsigned int n;
-            is >> n;
+            // always decimal, independent of the base of the stream
+            unsigned int n = 0;
+
+            while (std::isdigit(is.peek()))
+                n = std::min(10u * n + static_cast<unsigned int>(is.get() - '0'), 1000u);
 
             if (is)
             {
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index f77ba9e..15528f2 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -393,6 +393,9 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
         return os;
     }
 
+    // no blanks between the bare interval and the decoration
+    os.width(0);
+
     // generate the decoration string
     std::stringstream buf;
     buf.copyfmt(os);
diff --git a/p1788/overlapping/overlapping.hpp b/p1788/overlapping/overlapping.hpp
index 5b166aa..3ea0350 100644
--- a/p1788/overlapping/overlapping.hpp
+++ b/p1788/overlapping/overlapping.hpp
@@ -28,6 +28,7 @@
 #define LIBIEEEP1788_P1788_OVERLAPPING_OVERLAPPING_HPP
 
 #include <iostream>
+#include <string>
 #include "p1788/io/io_manip.hpp"
 
 #include <cstdint>
@@ -83,7 +84,7 @@ std::basic_ostream<CharT, Traits>& operator<<(
     // numeric
     if (os.iword(p1788::io::overlapping_manip_id) == p1788::io::overlapping_numeric_representation)
     {
-        return os << static_cast<unsigned int>(o);
+        return os << std::to_string(static_cast<unsigned int>(o)).c_str();
     }
 
     // alphabetic
-- 
2.43.0


From c1c792012fda9292a65e0dbf951ae05122a7c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 24/28] fix: numbers are written with the decimal point of the
 C locale

---
 p1788/util/mpfr_var.hpp      |  1 +
 p1788/util/mpfr_var_impl.hpp | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index fdfa5e1..ea322ac 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -28,6 +28,7 @@
 
 #define MPFR_USE_INTMAX_T
 
+#include <clocale>
 #include <mpfr.h>
 #include <stdexcept>
 #include <string>
diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index fd25a91..2deae10 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -284,7 +284,20 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-    return buffer.data;
+
+    // MPFR uses the decimal point of the current C locale, but an interval literal needs a '.'
+    std::string str(buffer.data);
+    char const* const point = std::localeconv()->decimal_point;
+
+    if (point[0] != '\0' && point[1] == '\0')
+    {
+        auto const pos = str.find(point[0]);
+
+        if (pos != std::string::npos)
+            str[pos] = '.';
+    }
+
+    return str;
 }
 
 // Reference to the underlying mpfr_t
-- 
2.43.0


From c9d19cb48eb2758da89fd248bceba8de76142038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 25/28] fix: output formats are mixed up during the
 initialization of a shared library

The indices of the private storage of a stream were namespace scope objects of
every translation unit, which a template instantiated in another one could use
before their initialization.
---
 p1788/io/io_manip.hpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/p1788/io/io_manip.hpp b/p1788/io/io_manip.hpp
index ad938b3..7db2c8c 100644
--- a/p1788/io/io_manip.hpp
+++ b/p1788/io/io_manip.hpp
@@ -36,15 +36,23 @@ namespace io
 
 /// \brief Unique index N of the private storage of a stream, the same one in every translation unit
 ///
+/// The index is allocated on first use, because it may be needed before the objects of
+/// the translation unit (e.g. of a program which uses a shared library) are initialized.
+///
 template<int N>
-inline int manip_id()
+struct manip_id
 {
-    static int const id = std::ios_base::xalloc();
-    return id;
-}
+    constexpr manip_id() {}
+
+    operator int() const
+    {
+        static int const id = std::ios_base::xalloc();
+        return id;
+    }
+};
 
 // Unique ID for a manipulator to choose between lower and upper case
-int const text_representation_manip_id = manip_id<0>();
+constexpr manip_id<0> text_representation_manip_id;
 
 enum text_representation_flags
 {
@@ -86,7 +94,7 @@ std::basic_ostream<CharT, Traits>& upper_case(std::basic_ostream<CharT, Traits>&
 
 
 // Unique ID for a manipulator to choose the preferred string width of an interval or decorated interval
-int const string_width_manip_id = manip_id<1>();
+constexpr manip_id<1> string_width_manip_id;
 
 ///@name Output manipulators to choose the preferred width of the whole interval or decorated interval string.
 ///
@@ -114,7 +122,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between inf sup and uncertain representation
-int const representation_manip_id = manip_id<2>();
+constexpr manip_id<2> representation_manip_id;
 
 enum representation_flags
 {
@@ -179,7 +187,7 @@ std::basic_ostream<CharT, Traits>& uncertain_down_form(std::basic_ostream<CharT,
 
 
 // Unique ID for a manipulator to choose between decimal, scientifc or hex representation
-int const number_representation_manip_id = manip_id<3>();
+constexpr manip_id<3> number_representation_manip_id;
 
 enum number_representation_flags
 {
@@ -244,7 +252,7 @@ std::basic_ostream<CharT, Traits>& hex(std::basic_ostream<CharT, Traits>& os)
 
 
 // Unique ID for a manipulator to choose the preferred width of a number
-int const width_manip_id = manip_id<4>();
+constexpr manip_id<4> width_manip_id;
 
 ///@name Output manipulators to choose the preferred width of a number.
 ///
@@ -274,7 +282,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose the preferred precision of a number
-int const precision_manip_id = manip_id<5>();
+constexpr manip_id<5> precision_manip_id;
 
 ///@name Output manipulators to choose the precision of a number.
 ///
@@ -303,7 +311,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between different text representaions for special intervals
-int const special_representation_manip_id = manip_id<6>();
+constexpr manip_id<6> special_representation_manip_id;
 
 enum interval_special_representation_flags
 {
@@ -356,7 +364,7 @@ std::basic_ostream<CharT, Traits>& special_no_bounds(std::basic_ostream<CharT, T
 
 
 // Unique ID for a manipulator to choose between interval representaions with or without punctuation
-int const punctuation_manip_id = manip_id<7>();
+constexpr manip_id<7> punctuation_manip_id;
 
 enum interval_punctuation_flags
 {
@@ -398,7 +406,7 @@ std::basic_ostream<CharT, Traits>& no_punctuation(std::basic_ostream<CharT, Trai
 
 
 // Unique ID for a manipulator to choose if an exponent is shown in uncertain mode
-int const uncertain_exponent_manip_id = manip_id<8>();
+constexpr manip_id<8> uncertain_exponent_manip_id;
 
 enum uncertain_exponent_flags
 {
@@ -443,7 +451,7 @@ std::basic_ostream<CharT, Traits>& uncertain_exponent(std::basic_ostream<CharT,
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const dec_manip_id = manip_id<9>();
+constexpr manip_id<9> dec_manip_id;
 
 // enum for the manipulator to print decorations
 enum dec_manip_flags
@@ -490,7 +498,7 @@ std::basic_ostream<CharT, Traits>& dec_numeric(std::basic_ostream<CharT, Traits>
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const overlapping_manip_id = manip_id<10>();
+constexpr manip_id<10> overlapping_manip_id;
 
 // enum for the manipulator to print decorations
 enum overlapping_manip_flags
-- 
2.43.0


From 076be20d4f92533512566bd89644b1d7a72c6ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 26/28] fix: texts read while a program ends are rejected or
 crash

The regular expressions of the text input were destroyed before the objects
whose destructors may still read texts.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 15528f2..7dc650d 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -552,7 +552,8 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     //    [25] :  rational representation: nominator
                     //    [26] :  rational representation: denominator
                     //    [27] :  string if second argument is "+inf" or "+infinity"
-                    static std::regex inf_sup_regex(
+                    // never destroyed, because texts may be read until the program ends
+                    static std::regex const& inf_sup_regex = *new std::regex(
                         //one argument or empty
                         "(?:\\[\\s*("
                         "|(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
@@ -1123,7 +1124,8 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     // [4]   direction upward
                     // [5]   direction downward
                     // [6]   exponent
-                    static std::regex uncertain_regex(
+                    // never destroyed, because texts may be read until the program ends
+                    static std::regex const& uncertain_regex = *new std::regex(
                         "([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))"          // number
                         "\\?"                                                               // ?
                         "(?:(\\?)|([0-9]+))?"                                               // radius
-- 
2.43.0


From f3152763dca822830cd7054d6d78746edf946e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:26 +0000
Subject: [PATCH 27/28] fix: complement of exception bits without undefined
 behaviour

The complement of exception bits (state() &= ~undefined_operation_bit) is
outside the range of an enumeration without a fixed underlying type.
---
 p1788/exception/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index 83bae89..68a1903 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -41,7 +41,7 @@ namespace exception
 ///
 /// \note The bitwise operators <c>&</c>, <c>|</c>, <c>^</c>, <c>~</c>,
 /// <c>&=</c>, <c>|=</c>, <c>^=</c> are supported.
-enum exception_bits
+enum exception_bits : int
 {
     none_bit = 0,                           ///< No exception
     undefined_operation_bit = 1,            ///< No level 1 value exists
-- 
2.43.0


From 2e094f6d69a67eb4f052d2061fc9f9d3b33a1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:27 +0000
Subject: [PATCH 28/28] fix: characters behind a literal as unsigned char

std::isspace is undefined for negative characters.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_class_impl.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_class_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_class_impl.hpp
index f646c70..1918a08 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_class_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_class_impl.hpp
@@ -272,7 +272,7 @@ mpfr_bin_ieee754_flavor<T>::text_to_interval(std::string const& str)
 
     char c;
     while(s.get(c))
-        if (!std::isspace(c))
+        if (!std::isspace(static_cast<unsigned char>(c)))
         {
             p1788::exception::signal_undefined_operation();
             return empty();
@@ -299,7 +299,7 @@ mpfr_bin_ieee754_flavor<T>::text_to_decorated_interval(std::string const& str)
 
     char c;
     while(s.get(c))
-        if (!std::isspace(c))
+        if (!std::isspace(static_cast<unsigned char>(c)))
         {
             p1788::exception::signal_undefined_operation();
             return nai();
-- 
2.43.0


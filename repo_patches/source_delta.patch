From 3a40f418bfbd3bb89d77b298ccee40596a504ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 1/5] fix: check for zero coefficients when a symbol extension
 converts them

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..fbb19e3 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -569,7 +569,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From b0cd1cbc825dc3843d93522030c9b655219f3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 2/5] fix: keep the segmentation of a series when trimming it

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index fbb19e3..c76edb5 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -4155,7 +4155,7 @@ struct series_default_trim_impl {
         retval.tag() = x.tag();
         // NOTE: use the same number of segments as x
         // and reserve space for the same number of terms.
-        retval.set_n_segments(retval.get_s_size());
+        retval.set_n_segments(x.get_s_size());
         retval.reserve(x.size());
 
         for (const auto &t : x) {
-- 
2.43.0


From c124def564d0c564a08848f04708ea648d8f1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:43 +0000
Subject: [PATCH 3/5] fix: keep the brackets of a coefficient that is a series
 made of one coefficient

---
 include/obake/series.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index c76edb5..6f12fba 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -2087,6 +2087,11 @@ struct series_default_cf_stream_insert_impl {
             os << '(';
             detail::series_stream_terms_impl<false>(os, x);
             os << ')';
+        } else if (x.size() == 1u && x.is_single_cf()) {
+            // NOTE: if the series consists of a single coefficient,
+            // stream the coefficient itself, because the streaming
+            // of the terms would strip its brackets (if any).
+            ::obake::cf_stream_insert(os, x.begin()->second);
         } else {
             detail::series_stream_terms_impl<false>(os, x);
         }
-- 
2.43.0


From 7cb56ba4c5362e1187ddfe95f9e8af10ac855b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 4/5] fix: series: copy assignment leaves the series unchanged
 if a copy throws

---
 include/obake/series.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6f12fba..32fca2b 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -812,7 +812,12 @@ public:
             *this, m_s_table[0], K(m_symbol_set.get()), ::std::forward<T>(x));
     }
 
-    series &operator=(const series &) = default;
+    series &operator=(const series &other)
+    {
+        // NOTE: copy first, so that an exception thrown while
+        // copying leaves this in its original, consistent state.
+        return *this = series(other);
+    }
     series &operator=(series &&other) noexcept
     {
         // NOTE: assuming self-assignment is handled
-- 
2.43.0


From caa56c33afb7c9c93cd85b1c8560c9aad2ecbc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 5/5] fix: power series: no terms beyond the truncation are
 left behind if an in-place addition throws

---
 include/obake/power_series/power_series.hpp | 40 ++++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 2883568..23347d1 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -1149,12 +1149,23 @@ inline decltype(auto) ps_in_place_addsub_impl(T &&x, U &&y)
         // it would be slightly better for performance to avoid the insertion
         // altogether if it does not respect the truncation limit.
 
-        decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(::std::forward<T>(x),
-                                                                                            ::std::forward<U>(y));
+        try {
+            decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
+                ::std::forward<T>(x), ::std::forward<U>(y));
 
-        ::obake::truncate(x);
+            ::obake::truncate(x);
 
-        return ret;
+            return ret;
+            // LCOV_EXCL_START
+        } catch (...) {
+            // NOTE: x may now contain a term which does not satisfy
+            // its truncation setting. Make sure to clear it
+            // before rethrowing.
+            x.clear();
+
+            throw;
+        }
+        // LCOV_EXCL_STOP
     } else {
         static_assert(algo == 2);
 
@@ -1201,13 +1212,24 @@ inline decltype(auto) ps_in_place_addsub_impl(T &&x, U &&y)
                     // and do an explicit truncation, as ret may contain terms that
                     // need to be discarded.
                     auto orig_tag = ::std::is_same_v<type1, detail::no_truncation> ? x.tag() : y.tag();
-                    decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
-                        ::std::forward<T>(x), ::std::forward<U>(y));
-                    ret.tag() = ::std::move(orig_tag);
+                    try {
+                        decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
+                            ::std::forward<T>(x), ::std::forward<U>(y));
+                        ret.tag() = ::std::move(orig_tag);
 
-                    ::obake::truncate(ret);
+                        ::obake::truncate(ret);
 
-                    return ret;
+                        return ret;
+                        // LCOV_EXCL_START
+                    } catch (...) {
+                        // NOTE: x may now contain terms which do not satisfy
+                        // its truncation setting. Make sure to clear it
+                        // before rethrowing.
+                        x.clear();
+
+                        throw;
+                    }
+                    // LCOV_EXCL_STOP
                 } else {
                     throw ::std::invalid_argument(
                         fmt::format("Unable to {} two power series in place if their truncation policies do not match",
-- 
2.43.0


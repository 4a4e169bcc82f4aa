From bdda949bae2f03947644a6dd1b08b02bb64f88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 01/67] fix: range_container::append is usable with any forward
 iterator

---
 src/cxon/lang/common/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..175b52c 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -343,7 +343,7 @@ namespace cxon { namespace cnt {
 
             template <typename II>
                 auto append(II f, II l) noexcept
-                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic push
-- 
2.43.0


From e9fe4c719235dac968ea91219ee418ae9b69191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 02/67] fix: no reads past the end of a truncated UTF-8
 sequence when decoding to UTF-16/32

---
 src/cxon/lang/common/cio/char.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..9e9b968 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -154,11 +154,11 @@ namespace cxon { namespace cio { namespace chr {
         template <typename II>
             inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
         template <typename II>
-            inline auto head_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline auto head_(II& i, II e) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return peek(++i, e); }
         template <typename II>
             inline auto tail_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
         template <typename II>
-            inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline auto tail_(II& i, II e) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
 
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
-- 
2.43.0


From d821d17c1b4dfcb91d771a14416a3885007896df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 03/67] fix: string reading from forward iterators and no
 dereference of the end of unterminated strings

---
 src/cxon/lang/common/cio/string.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..65d2642 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -107,7 +107,7 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
-                        for ( ; i != e; ++i) {
+                        while (i != e) {
                             if (HANDLE_ESCAPES && *i == '\\') {
                                 if (l != i && !cxon::cnt::append(c, l, i))
                                     return rewind(i, l), cx/X::read_error::overflow;
@@ -122,7 +122,7 @@ namespace cxon { namespace cio { namespace str {
                                         if (c32 == chr::bad_utf32) return rewind(i, o), false;
                                     if (!char_append_(c, c32))
                                         return rewind(i, o), cx/X::read_error::overflow;
-                                l = i, --i;
+                                l = i;
                             }
                             else {
                                 CXON_IF_CONSTEXPR (!is_unquoted_key_context<X>::value) {
@@ -137,9 +137,9 @@ namespace cxon { namespace cio { namespace str {
                                         auto bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
-                                            ;
-                                        --i;
+                                        do      std::advance(i, bs);
+                                        while   (i != e && (bs = chr::utf8_check(i, e)) != 0);
+                                        continue;
                                     }
                                     else CXON_IF_CONSTEXPR (X::validate_string_escapes) {
                                         if (chr::is<X>::ctrl(*i))
@@ -150,6 +150,7 @@ namespace cxon { namespace cio { namespace str {
                                     if (chr::is<X>::ctrl(*i))
                                         return cx/X::read_error::unexpected;
                                 }
+                                ++i;
                             }
                         }
                     return cx/X::read_error::unexpected;
-- 
2.43.0


From 4117589eaeae37264f33c1c9c603417a3b993faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 04/67] fix: out-of-range numbers are reported as errors on the
 buffered and strict paths

---
 src/cxon/lang/common/cio/numeric.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 720670d..eb27023 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -232,8 +232,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::integral_invalid;
                         default: {
-                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::integral_invalid);
                         }
                     }
             }
@@ -246,8 +246,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::integral_invalid;
                 if (i - b == 1)
                     return t = *b - '0', true;
-                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = charconv::from_chars(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::integral_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
@@ -312,8 +312,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::floating_point_invalid;
                         default: {
-                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::floating_point_invalid);
                         }
                     }
             }
@@ -326,8 +326,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::floating_point_invalid;
                 if (i - b == 1)
                     return t = T(*b - '0'), true;
-                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = from_chars_<X>(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::floating_point_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
-- 
2.43.0


From 64769469005cd6871021b6e45af79e108d1c8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 05/67] fix: no dereference of the end of the input when
 skipping a missing value

---
 src/cxon/lang/common/cio/value.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..1b9e2be 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -35,6 +35,7 @@ namespace cxon { namespace cio { namespace val {
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
-- 
2.43.0


From 5c29cecf2198b9c16902687ebe79c4b5c1769db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 06/67] fix: lone low surrogates in \u escapes are invalid

---
 src/cxon/lang/common/cio/char.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 9e9b968..e9464fe 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,8 +140,9 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
             // surrogate
+                if (c32 > 0xDBFF) return cx/X::read_error::surrogate_invalid, bad_utf32;
                 if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
                 if (s32 < 0xDC00 || s32 > 0xDFFF)
-- 
2.43.0


From d8880e66ed0ed4274833b7ddf0c0f7f5cacf7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 07/67] fix: trailing separators in objects bound to classes
 are errors unless allowed

---
 src/cxon/lang/common/cio/class.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 396079c..da7afc9 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -313,11 +313,13 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
+                bool is_end_allowed = true;
                 for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {
                     if (!consume<X>(i, e, cx))
                         return false;
-                    if (peek(i, e) == X::map::end)
+                    if (is_end_allowed && peek(i, e) == X::map::end)
                         return ++i, true;
+                    is_end_allowed = X::allow_trailing_separators || X::map::sep == ' ';
                     II const o = i;
                         if (!read_map_key<X>(id, i, e, cx))
                             return rewind(i, o), false;
-- 
2.43.0


From 566a853391fe8fffbe5bf795fe73e5d0287ac26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 08/67] fix: CBOR floating-point values do not assert on the
 size of the conversion type

---
 src/cxon/lang/common/bio/io.hxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 04866e7..66d9466 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -192,7 +192,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<4, II>& bs) {
                 using R = unsigned long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; float f; } u;
                 u.i =   (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                         (R(bs[1])<<16) | (R(bs[0])<<24)
@@ -202,7 +201,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<8, II>& bs) {
                 using R = unsigned long long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; double f; } u;
                 u.i =   (R(bs[7])<< 0) | (R(bs[6])<< 8) |
                         (R(bs[5])<<16) | (R(bs[4])<<24) |
-- 
2.43.0


From 99900201d6da536d2ee9b3f5f779c7030c13ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 09/67] fix: CBOR integers are range checked

---
 src/cxon/lang/cbor/fundamental.hxx | 49 +++++++++++++++++-------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..c089893 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -9,6 +9,8 @@
 #include "cxon/lang/common/bio/bio.hxx"
 #include "cxon/lang/cbor/common/tag.hxx"
 
+#include <limits>
+
 namespace cxon { // nullptr_t
 
     template <typename X>
@@ -60,6 +62,18 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
+        template <typename T>
+            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
+
+        template <typename T> // the quantum types are written as unsigned, the byte types may be written as bytes
+            constexpr auto max_(T) -> enable_if_t< (is_quantum_<T>::value || sizeof(T) == 1), unsigned long long> {
+                return std::numeric_limits<typename std::make_unsigned<T>::type>::max();
+            }
+        template <typename T>
+            constexpr auto max_(T) -> enable_if_t<!is_quantum_<T>::value && sizeof(T) != 1, unsigned long long> {
+                return std::numeric_limits<T>::max();
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
                 II const o = i;
@@ -69,9 +83,11 @@ namespace cxon { // numeric|character/read
                     case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
                         return  (t = T(b), true);
                     case 0x18: case 0x19: case 0x1A: case 0x1B:
-                        return  (bio::get(t, 1 << (b - 0x18), i, e)) ||
-                                (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
-                        ;
+                        {   unsigned long long u;
+                            return  (bio::get(u, 1 << (b - 0x18), i, e) && u <= max_(T()) && (t = T(u), true)) ||
+                                    (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                            ;
+                        }
                     case 0x1C: case 0x1D: case 0x1E: case 0x1F:
                         return  (bio::rewind(i, o), cx/cbor::read_error::integer_invalid);
                     default:                                            // LCOV_EXCL_LINE
@@ -81,7 +97,12 @@ namespace cxon { // numeric|character/read
 
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+                II const o = i; unsigned long long u;
+                return  read_unsigned_<X>(u, i, e, cx) && (
+                            (std::is_signed<T>::value && u <= static_cast<unsigned long long>(std::numeric_limits<T>::max()) && (t = T(-1 - T(u)), true)) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                        )
+                ;
             }
 
         template <typename X, typename T, typename II, typename Cx>
@@ -107,18 +128,6 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename T>   struct unsigned_;
-        template <>             struct unsigned_<float>     { using type = unsigned long; };
-        template <>             struct unsigned_<double>    { using type = unsigned long long; };
-        template <typename T>
-            using unsigned_type_ = typename unsigned_<T>::type;
-
-        template <typename T>   struct signed_;
-        template <>             struct signed_<float>       { using type = long; };
-        template <>             struct signed_<double>      { using type = long long; };
-        template <typename T>
-            using signed_type_ = typename signed_<T>::type;
-
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_floating_point_(T& t, II& i, II e, Cx& cx) {
                 switch (bio::peek(i, e) & X::mjr) {
@@ -144,12 +153,12 @@ namespace cxon { // numeric|character/read
                     }
                     // from integral
                     case X::pint: {
-                        unsigned_type_<T> u;
+                        unsigned long long u;
                         return read_unsigned_<X>(u, i, e, cx) && (t = T(u), true);
                     }
                     case X::nint: {
-                        signed_type_<T> u;
-                        return read_signed_<X>(u, i, e, cx) && (t = T(u), true);
+                        unsigned long long u; // -1 - u
+                        return read_unsigned_<X>(u, i, e, cx) && (t = u + 1 ? -T(u + 1) : -T(u), true);
                     }
                     default:
                         return cx/cbor::read_error::floating_point_invalid;
@@ -183,8 +192,6 @@ namespace cxon { // numeric|character/write
         template <typename T>
             inline auto power_(T t) -> enable_if_t<sizeof(T) == 8, unsigned> { return !(t >> 32) ? !(t >> 16) ? !(t >> 8) ? 0 : 1 : 2 : 3; }
 
-        template <typename T>
-            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
         template <typename T>
             struct is_signed_   : bool_constant<std::is_signed<T>::value   && !is_quantum_<T>::value> {};
         template <typename T>
-- 
2.43.0


From 466e6e191ff9488247400ca8c93eef45f102a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 10/67] fix: CBOR memory reservations are limited by the size
 of the input

---
 src/cxon/lang/cbor/common/container.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index dda1b6c..22d1809 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -99,6 +99,19 @@ namespace cxon { namespace cbor { namespace cnt {
                 return size_(option<1>(), c);
             }
 
+        template <typename C, typename II> // the size in the input cannot be trusted
+            inline auto reserve_(C& c, std::size_t s, std::size_t n, II i, II e)
+                -> enable_if_t< is_random_access_iterator<II>::value, bool>
+            {
+                return cxon::cnt::reserve(c, s + std::min(n, static_cast<std::size_t>(std::distance(i, e))));
+            }
+        template <typename C, typename II>
+            inline auto reserve_(C& c, std::size_t s, std::size_t n, II, II)
+                -> enable_if_t<!is_random_access_iterator<II>::value, bool>
+            {
+                return cxon::cnt::reserve(c, s + std::min(n, std::size_t(64)));
+            }
+
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
                 -> enable_if_t< is_forward_iterator<II>::value, bool>
@@ -127,7 +140,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + n) &&
+                        reserve_(t, size_(t), n, i, e) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
@@ -167,7 +180,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, n) &&
+                        reserve_(t, 0, n, i, e) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From af16c72e0657e023a9522a015ec4a72d59c48e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 11/67] fix: CBOR arrays and maps are distinguished

---
 src/cxon/lang/cbor/common/container.hxx | 16 +++++++++++++++-
 src/cxon/lang/cbor/lib/std/imp/map.hxx  |  2 +-
 src/cxon/lib/node.ordered.hxx           |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 22d1809..945a584 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -37,6 +37,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, typename X::tag_type tag, II& i, II e, Cx& cx);
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx);
+
     template <typename X, typename FI, typename O, typename Cx>
         inline bool write_array(O& o, FI f, FI l, Cx& cx);
     template <typename X, typename C, typename O, typename Cx> // container
@@ -225,7 +228,7 @@ namespace cxon { namespace cbor { namespace cnt {
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
-                    case X::arr: case X::map:   return imp::read_array_w_<X>(t, m, i, e, cx);
+                    case X::arr:                return imp::read_array_w_<X>(t, m, i, e, cx);
                     default:                    return cx/cbor::read_error::array_invalid;
                 }
             }
@@ -258,6 +261,17 @@ namespace cxon { namespace cbor { namespace cnt {
             return read_array<X>(c, tag, i, e, cx);
         }
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx) {
+            if (!tag::read<X>(i, e, cx))
+                return false;
+            auto const m = bio::peek(i, e);
+            return (m & X::mjr) == X::map ?
+                imp::read_array_w_<X>(t, m, i, e, cx) :
+                cx/cbor::read_error::array_invalid
+            ;
+        }
+
 }}}
 
 namespace cxon { namespace cbor { namespace cnt {
diff --git a/src/cxon/lang/cbor/lib/std/imp/map.hxx b/src/cxon/lang/cbor/lib/std/imp/map.hxx
index fb290f0..f48449a 100644
--- a/src/cxon/lang/cbor/lib/std/imp/map.hxx
+++ b/src/cxon/lang/cbor/lib/std/imp/map.hxx
@@ -38,7 +38,7 @@ namespace cxon { namespace cbor { namespace imp {
         struct map_reader_ {
             template <typename II, typename Cx>
                 static bool value(M& m, II& i, II e, Cx& cx) {
-                    return cbor::cnt::read_array<X>(m, i, e, cx);
+                    return cbor::cnt::read_map<X>(m, i, e, cx);
                 }
         };
 
diff --git a/src/cxon/lib/node.ordered.hxx b/src/cxon/lib/node.ordered.hxx
index ce5ee25..ebf3177 100644
--- a/src/cxon/lib/node.ordered.hxx
+++ b/src/cxon/lib/node.ordered.hxx
@@ -152,7 +152,7 @@ namespace cxon { // hash
             struct read<CBOR<X>, ordered::object<K, V, Al>> {
                 template <typename II, typename Cx, typename Y = CBOR<X>>
                     static bool value(ordered::object<K, V, Al>& t, II& i, II e, Cx& cx) {
-                        return cbor::cnt::read_array<Y>(t, i, e, cx);
+                        return cbor::cnt::read_map<Y>(t, i, e, cx);
                     }
             };
         template <typename X, typename K, typename V, typename Al>
-- 
2.43.0


From 87d876b1f7e4ad002655ad37af06463b1e2fbd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 12/67] fix: CBOR tuples, pairs, complex numbers, variants and
 classes check the major type and read indefinite lengths

---
 src/cxon/lang/cbor/class.hxx              | 28 ++++++++++++++---------
 src/cxon/lang/cbor/common/container.hxx   | 16 +++++++++++++
 src/cxon/lang/cbor/lib/boost/variant.hxx  |  3 +--
 src/cxon/lang/cbor/lib/boost/variant2.hxx |  3 +--
 src/cxon/lang/cbor/lib/std/complex.hxx    |  8 ++++---
 src/cxon/lang/cbor/lib/std/tuple.hxx      |  5 ++--
 src/cxon/lang/cbor/lib/std/utility.hxx    |  8 ++++---
 src/cxon/lang/cbor/lib/std/variant.hxx    |  3 +--
 8 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index fc07df6..9d1095f 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -144,18 +144,24 @@ namespace cxon { namespace cbor { namespace cls {
     }
     template <typename X, typename T, typename ...Fs, typename II, typename Cx>
         inline bool read_fields(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx) {
-            std::size_t n;
-            if (cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx)) {
-                int st[sizeof...(Fs)] = {0};
-                for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
-                    II const o = i;
-                        if (!read_value<X>(id, i, e, cx))
-                            return false;
-                        if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
-                            return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                }
+            auto const m = bio::peek(i, e);
+            if ((m & X::mjr) != X::map)
+                return cx/cbor::read_error::size_invalid;
+            bool const v = (m & X::mnr) == 0x1F;
+            std::size_t n = 0;
+            if (v)
+                bio::get(i, e);
+            else if (!cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx))
+                return false;
+            int st[sizeof...(Fs)] = {0};
+            for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; v ? bio::peek(i, e, 0) != X::brk : n != 0; n -= !v) {
+                II const o = i;
+                    if (!read_value<X>(id, i, e, cx))
+                        return false;
+                    if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
+                        return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
             }
-            return n == 0;
+            return !v || (bio::get(i, e), true);
         }
 
     namespace imp {
diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 945a584..46f95be 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -19,6 +19,8 @@ namespace cxon { namespace cbor { namespace cnt {
         inline bool read_size_le(std::size_t& s, std::size_t n, II& i, II e, Cx& cx);
     template <typename X, typename II, typename Cx>
         inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx);
+    template <typename X, typename R, typename II, typename Cx>
+        inline bool read_tuple_eq(std::size_t n, R read, II& i, II e, Cx& cx);
 
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx);
@@ -73,6 +75,20 @@ namespace cxon { namespace cbor { namespace cnt {
                     (bio::rewind(i, o), cx/cbor::read_error::size_invalid)
             ;
         }
+    template <typename X, typename R, typename II, typename Cx> // array of exactly n elements, read with read
+        inline bool read_tuple_eq(std::size_t n, R read, II& i, II e, Cx& cx) {
+            auto const m = bio::peek(i, e);
+            if ((m & X::mjr) != X::arr)
+                return cx/cbor::read_error::size_invalid;
+            if ((m & X::mnr) != 0x1F)
+                return read_size_eq<X>(n, i, e, cx) && read();
+            II const o = i;
+            return  (bio::get(i, e), read()) && (
+                        (bio::get(i, e, 0) == X::brk) ||
+                        (bio::rewind(i, o), cx/cbor::read_error::size_invalid)
+                    )
+            ;
+        }
 
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx) {
diff --git a/src/cxon/lang/cbor/lib/boost/variant.hxx b/src/cxon/lang/cbor/lib/boost/variant.hxx
index efd8fc6..06e471e 100644
--- a/src/cxon/lang/cbor/lib/boost/variant.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant.hxx
@@ -91,8 +91,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
-                            cbor::imp::boost::variant_read_<Y>(t, i, e, cx)
+                            cbor::cnt::read_tuple_eq<Y>(2, [&]() { return cbor::imp::boost::variant_read_<Y>(t, i, e, cx); }, i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/cbor/lib/boost/variant2.hxx b/src/cxon/lang/cbor/lib/boost/variant2.hxx
index 303b666..e6b3735 100644
--- a/src/cxon/lang/cbor/lib/boost/variant2.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant2.hxx
@@ -98,8 +98,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant2::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
-                            cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx)
+                            cbor::cnt::read_tuple_eq<Y>(2, [&]() { return cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx); }, i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/cbor/lib/std/complex.hxx b/src/cxon/lang/cbor/lib/std/complex.hxx
index b43faf5..3aba6f0 100644
--- a/src/cxon/lang/cbor/lib/std/complex.hxx
+++ b/src/cxon/lang/cbor/lib/std/complex.hxx
@@ -16,9 +16,11 @@ namespace cxon {
                 static bool value(std::complex<T>& t, II& i, II e, Cx& cx) {
                     T rl, mg;
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
-                                read_value<Y>(rl, i, e, cx) &&
-                                read_value<Y>(mg, i, e, cx) &&
+                            cbor::cnt::read_tuple_eq<Y>(2, [&]() {
+                                return  read_value<Y>(rl, i, e, cx) &&
+                                        read_value<Y>(mg, i, e, cx)
+                                ;
+                            }, i, e, cx) &&
                             (t.real(rl), t.imag(mg), true)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/tuple.hxx b/src/cxon/lang/cbor/lib/std/tuple.hxx
index 3a6bcf1..c06fc79 100644
--- a/src/cxon/lang/cbor/lib/std/tuple.hxx
+++ b/src/cxon/lang/cbor/lib/std/tuple.hxx
@@ -65,7 +65,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<>&, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(0, i, e, cx)
+                            cbor::cnt::read_tuple_eq<Y>(0, []() { return true; }, i, e, cx)
                     ;
                 }
         };
@@ -75,8 +75,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(sizeof...(T), i, e, cx) &&
-                            cbor::cnt::read_tuple<Y>(t, i, e, cx)
+                            cbor::cnt::read_tuple_eq<Y>(sizeof...(T), [&]() { return cbor::cnt::read_tuple<Y>(t, i, e, cx); }, i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/cbor/lib/std/utility.hxx b/src/cxon/lang/cbor/lib/std/utility.hxx
index b416550..cea24f4 100644
--- a/src/cxon/lang/cbor/lib/std/utility.hxx
+++ b/src/cxon/lang/cbor/lib/std/utility.hxx
@@ -15,9 +15,11 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
-                                read_value<Y>(t.first, i, e, cx) &&
-                                read_value<Y>(t.second, i, e, cx)
+                            cbor::cnt::read_tuple_eq<Y>(2, [&]() {
+                                return  read_value<Y>(t.first, i, e, cx) &&
+                                        read_value<Y>(t.second, i, e, cx)
+                                ;
+                            }, i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/cbor/lib/std/variant.hxx b/src/cxon/lang/cbor/lib/std/variant.hxx
index cdc63cb..7459873 100644
--- a/src/cxon/lang/cbor/lib/std/variant.hxx
+++ b/src/cxon/lang/cbor/lib/std/variant.hxx
@@ -69,8 +69,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
-                            cbor::imp::variant_read_<Y>(t, i, e, cx)
+                            cbor::cnt::read_tuple_eq<Y>(2, [&]() { return cbor::imp::variant_read_<Y>(t, i, e, cx); }, i, e, cx)
                     ;
                 }
         };
-- 
2.43.0


From 6af03e32040b1cdc39a3a74b97c4eadd735f5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 13/67] fix: CBOR class keys do not depend on uninitialized or
 stale memory

---
 src/cxon/lang/cbor/class.hxx | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index 9d1095f..777e7fe 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -7,6 +7,7 @@
 #define CXON_CBOR_CLASS_HXX_
 
 #include "common/sink.hxx"
+#include <algorithm>
 #include <tuple>
 
 // interface ///////////////////////////////////////////////////////////////////
@@ -121,24 +122,24 @@ namespace cxon { namespace cbor { namespace cls {
         template <typename X, std::size_t N, std::size_t L>
             struct read_ {
                 template <typename T, typename Fs, typename II, typename Cx>
-                    static bool field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
-                        return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                    static bool field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
+                        return st[N] == 0 && std::get<N>(fs).nale == nale && std::char_traits<char>::compare(std::get<N>(fs).name, name, nale) == 0 ?
                             (st[N] = 1, read_field<X>(t, std::get<N>(fs), i, e, cx)) :
-                            read_<X, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                            read_<X, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                         ;
                     }
             };
         template <typename X, std::size_t N>
             struct read_<X, N, N> {
                 template <typename T, typename Fs, typename II, typename Cx>
-                    static constexpr bool field(T&, const char*, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
+                    static constexpr bool field(T&, const char*, std::size_t, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
                         return false;
                     }
             };
 
         template <typename X, std::size_t N, typename T, typename Fs, typename II, typename Cx>
-            constexpr bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
-                return read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
+            constexpr bool read_field_(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+                return read_<X, 0, N>::field(t, name, nale, fs, st, i, e, cx);
             }
 
     }
@@ -154,12 +155,14 @@ namespace cxon { namespace cbor { namespace cls {
             else if (!cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx))
                 return false;
             int st[sizeof...(Fs)] = {0};
-            for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; v ? bio::peek(i, e, 0) != X::brk : n != 0; n -= !v) {
+            while (v ? bio::peek(i, e, 0) != X::brk : n != 0) {
+                char id[bio::ids_len_max::constant<napa_type<Cx>>(64)] = {0}; // the terminator is optional
                 II const o = i;
                     if (!read_value<X>(id, i, e, cx))
                         return false;
-                    if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
+                    if (!imp::read_field_<X>(t, id, std::find(std::begin(id), std::end(id), '\0') - std::begin(id), fs, st, i, e, cx))
                         return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
+                n -= !v;
             }
             return !v || (bio::get(i, e), true);
         }
-- 
2.43.0


From 12ad2368a9e688dd0c76d12f50eb577bfc0a82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 14/67] fix: the tags of CBOR nodes are written as tags

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index e6e0eae..7334d51 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -194,7 +194,7 @@ namespace cxon {
         struct write<CBOR<X>, cbor::taggle<N, T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const cbor::taggle<N, T>& t, Cx& cx) {
-                    return write_value<Y>(o, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
+                    return cbor::cnt::write_size<Y>(o, Y::tag, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
                 }
         };
 
-- 
2.43.0


From c9568f242fd7ab3855f7fc7bf326183b8c7036c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 15/67] fix: CBOR tags are skipped for all types and may be
 nested

---
 src/cxon/lang/cbor/common/container.hxx |  4 ++--
 src/cxon/lang/cbor/common/tag.hxx       | 19 ++++++++-----------
 src/cxon/lang/cbor/compound.hxx         |  6 +++---
 src/cxon/lang/cbor/fundamental.hxx      |  4 ++++
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 46f95be..d312eb1 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -253,7 +253,7 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename T, typename II, typename Cx>
         inline bool read_array(T& t, II& i, II e, Cx& cx) {
             typename X::tag_type tag;
-            if (!tag::read<X>(tag, i, e, cx))
+            if (!tag::read<X>(tag, i, e, cx) || !tag::read<X>(i, e, cx))
                 return false;
             return read_array<X>(t, tag, i, e, cx);
         }
@@ -266,7 +266,7 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, II& i, II e, Cx& cx) {
             typename X::tag_type tag;
-            if (!tag::read<X>(tag, i, e, cx))
+            if (!tag::read<X>(tag, i, e, cx) || !tag::read<X>(i, e, cx))
                 return false;
             return read_array<X>(f, l, tag, i, e, cx);
         }
diff --git a/src/cxon/lang/cbor/common/tag.hxx b/src/cxon/lang/cbor/common/tag.hxx
index 3fdf871..5527834 100644
--- a/src/cxon/lang/cbor/common/tag.hxx
+++ b/src/cxon/lang/cbor/common/tag.hxx
@@ -24,29 +24,26 @@ namespace cxon { namespace cbor { namespace tag {
 namespace cxon { namespace cbor { namespace tag {
 
     template <typename X, typename II, typename Cx>
-        inline bool read(II& i, II e, Cx& cx) {
-            auto b = bio::peek(i, e);
-            switch (b & X::mjr) {
-                case X::tag: {
+        inline bool read(II& i, II e, Cx& cx) { // the tags may be nested
+            for (auto b = bio::peek(i, e); (b & X::mjr) == X::tag; b = bio::peek(i, e)) {
                     II const o = i;
                     switch (b = b & X::mnr) {
                         case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
                         case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
                         case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                            return  (bio::get(i, e), true);
+                            bio::get(i, e);
+                            break;
                         case 0x18: case 0x19: case 0x1A: case 0x1B:
-                            return  (bio::advance(i, e, 1 + (1 << (b - 0x18)))) ||
-                                    (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                            ;
+                            if (!bio::advance(i, e, 1 + (1 << (b - 0x18))))
+                                return bio::rewind(i, o), cx/cbor::read_error::unexpected;
+                            break;
                         case 0x1C: case 0x1D: case 0x1E: case 0x1F:
                             return  (bio::rewind(i, o), cx/cbor::read_error::tag_invalid);
                         default:                                            // LCOV_EXCL_LINE
                             return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
                     }
-                }
-                default:
-                            return  true;
             }
+            return  true;
         }
 
     template <typename X, typename T, typename II, typename Cx>
diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index dd3c38c..a8cf170 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -16,7 +16,7 @@ namespace cxon { // array/read
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(T (&t)[N], II& i, II e, Cx& cx) {
                     typename X::tag_type tag;
-                    return  cbor::tag::read<Y>(tag, i, e, cx) &&
+                    return  cbor::tag::read<Y>(tag, i, e, cx) && cbor::tag::read<Y>(i, e, cx) &&
                             cbor::cnt::read_array<Y>(std::begin(t), std::end(t), tag, i, e, cx)
                     ;
                 }
@@ -56,7 +56,7 @@ namespace cxon { // pointer/read
                 -> enable_if_t< std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
             {
                 typename X::tag_type tag;
-                if (!tag::read<X>(tag, i, e, cx))
+                if (!tag::read<X>(tag, i, e, cx) || !tag::read<X>(i, e, cx))
                     return false;
                 switch (bio::peek(i, e) & X::mjr) {
                     case X::bstr: case X::tstr: case X::arr: {
@@ -71,7 +71,7 @@ namespace cxon { // pointer/read
                 -> enable_if_t<!std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
             {
                 typename X::tag_type tag;
-                if (!tag::read<X>(tag, i, e, cx))
+                if (!tag::read<X>(tag, i, e, cx) || !tag::read<X>(i, e, cx))
                     return false;
                 switch (bio::peek(i, e) & X::mjr) {
                     case X::arr: {
diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index c089893..543a74f 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -17,6 +17,8 @@ namespace cxon { // nullptr_t
         struct read<CBOR<X>, std::nullptr_t> {
             template <typename II, typename Cx>
                 static bool value(std::nullptr_t& t, II& i, II e, Cx& cx) {
+                    if (!cbor::tag::read<X>(i, e, cx))
+                        return false;
                     II const o = i;
                     return  (bio::get(i, e) == X::nil && (t = nullptr, true)) ||
                             (bio::rewind(i, o), cx/cbor::read_error::null_invalid)
@@ -40,6 +42,8 @@ namespace cxon { // bool
         struct read<CBOR<X>, bool> {
             template <typename II, typename Cx>
                 static bool value(bool& t, II& i, II e, Cx& cx) {
+                    if (!cbor::tag::read<X>(i, e, cx))
+                        return false;
                     II const o = i;
                         auto const b = bio::get(i, e);
                     return  ((b == X::neg || b == X::pos) && (t = bool(b - X::neg),  true)) ||
-- 
2.43.0


From 7451b52a74b609f90ff4c66aaaad8e50fd2cdaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 16/67] fix: CBOR byte strings read in arrays of wider elements
 are arrays of unsigned bytes

---
 src/cxon/lang/cbor/common/container.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index d312eb1..c4d4dd3 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -131,9 +131,11 @@ namespace cxon { namespace cbor { namespace cnt {
                 return cxon::cnt::reserve(c, s + std::min(n, std::size_t(64)));
             }
 
+        template <typename C, typename II>
+            struct is_byte_copyable_ : bool_constant<sizeof(typename C::value_type) == 1 && is_forward_iterator<II>::value> {};
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t< is_forward_iterator<II>::value, bool>
+                -> enable_if_t< is_byte_copyable_<C, II>::value, bool>
             {
                 auto const m = std::min(n, static_cast<std::size_t>(std::distance(f, l)));
                 II e = f; std::advance(e, m);
@@ -141,10 +143,10 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t<!is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!is_byte_copyable_<C, II>::value, bool>
             {
-                for ( ; n != 0 && f != l; --n, ++f)
-                    cxon::cnt::append(c, *f);
+                for ( ; n != 0 && f != l && cxon::cnt::append(c, static_cast<bio::byte>(*f)); --n, ++f)
+                    ;
                 return n == 0;
             }
 
-- 
2.43.0


From 53fbb6b56e5bf2d95ee13c333c14a6f5b943c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 17/67] fix: CBOR pointers to values other than characters read
 exactly one value

---
 src/cxon/lang/cbor/compound.hxx | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index a8cf170..495d0cf 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -53,7 +53,7 @@ namespace cxon { // pointer/read
 
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t< std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t< is_char<T>::value, bool>
             {
                 typename X::tag_type tag;
                 if (!tag::read<X>(tag, i, e, cx) || !tag::read<X>(i, e, cx))
@@ -68,18 +68,9 @@ namespace cxon { // pointer/read
             }
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t<!is_char<T>::value, bool>
             {
-                typename X::tag_type tag;
-                if (!tag::read<X>(tag, i, e, cx) || !tag::read<X>(i, e, cx))
-                    return false;
-                switch (bio::peek(i, e) & X::mjr) {
-                    case X::arr: {
-                                auto c = cxon::cnt::make_pointer_container<X, T>(cx);
-                                return cbor::cnt::read_array<X>(c, tag, i, e, cx) && (c.push_back({}), t = c.release());
-                    }
-                    default:    return read_pointer_t_<X>(t, i, e, cx);
-                }
+                return tag::read<X>(i, e, cx) && read_pointer_t_<X>(t, i, e, cx);
             }
 
     }}
-- 
2.43.0


From cdec3ff0cacfce1df2491c57a8b170c3beaf0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 18/67] fix: CBOR bitsets do not keep the old bits

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index c995f8c..fcbed85 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -25,8 +25,9 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
+                        t.reset();
                         if (N % 8)
-                            t |= std::bitset<N> {*i++};
+                            t |= std::bitset<N> {bio::byte(*i++)};
                         std::size_t n = N / 8;
                             for ( ; n != 0 && i != e; --n, ++i) {
                                 bio::byte const b = *i; t <<= 8;
@@ -52,7 +53,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
-                        return t |= std::bitset<N> {*i}, ++i, true;
+                        return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From d32b112dc1d9a840964f495dfb407ba66a91183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 19/67] fix: CBOR priority queues are in order

---
 src/cxon/lang/cbor/lib/std/queue.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/queue.hxx b/src/cxon/lang/cbor/lib/std/queue.hxx
index 67686fc..d37a654 100644
--- a/src/cxon/lang/cbor/lib/std/queue.hxx
+++ b/src/cxon/lang/cbor/lib/std/queue.hxx
@@ -32,8 +32,12 @@ namespace cxon {
         struct read<CBOR<X>, std::priority_queue<T, R...>> {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::priority_queue<T, R...>& t, II& i, II e, Cx& cx) {
-                    auto& c = cnt::container(t);
-                    return cbor::cnt::read_array<Y>(c, i, e, cx);
+                    typename std::priority_queue<T, R...>::container_type c;
+                    if (!cbor::cnt::read_array<Y>(c, i, e, cx))
+                        return false;
+                    for (auto&& v : c)
+                        t.push(std::move(v));
+                    return true;
                 }
         };
 
-- 
2.43.0


From 53a37516ed2932e2be33a2664e4a9b4734104e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 20/67] fix: CBOR dynamic bitsets of invalid sizes are errors

---
 .../lang/cbor/lib/boost/dynamic_bitset.hxx    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
index e24d2aa..565c56c 100644
--- a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
@@ -19,17 +19,25 @@ namespace cxon {
                         std::size_t N;
                         if (!cbor::cnt::read_size<X>(N, i, e, cx))
                             return false;
+                        if (N == 0)
+                            return cx/cbor::read_error::size_invalid;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
                         bio::byte const S = *i;
-                        t.resize(t.size() + --N * 8);
-                            for (++i; N != 0 && i != e; --N, ++i) {
-                                bio::byte const b = *i; t <<= 8;
-                                t.set(7, b & 0x80); t.set(6, b & 0x40); t.set(5, b & 0x20); t.set(4, b & 0x10);
-                                t.set(3, b & 0x08); t.set(2, b & 0x04); t.set(1, b & 0x02); t.set(0, b & 0x01);
-                            }
-                        t.resize(t.size() - S);
-                        return N == 0 || cx/cbor::read_error::unexpected;
+                        if (S > 7 || (S != 0 && N == 1))
+                            return cx/cbor::read_error::size_invalid;
+                        t.clear();
+                            unsigned k = 8 - S; // the unused bits are the most significant ones of the first byte
+                            for (++i, --N; N != 0 && i != e; --N, ++i, k = 8)
+                                for (bio::byte const b = *i; k != 0; --k)
+                                    t.push_back(b >> (k - 1) & 1);
+                        if (N != 0)
+                            return cx/cbor::read_error::unexpected;
+                        for (std::size_t f = 0, l = t.size(); f < l && f < --l; ++f) { // least significant first
+                            bool const b = t[f];
+                            t[f] = t[l], t[l] = b;
+                        }
+                        return true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From aca69e2cc00605cdb0357c254078172f505e4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 21/67] fix: skipping of CBOR items is not recursive and stops
 at the end of the input

---
 src/cxon/lang/cbor/common/sink.hxx | 181 ++++++++++++++---------------
 1 file changed, 88 insertions(+), 93 deletions(-)

diff --git a/src/cxon/lang/cbor/common/sink.hxx b/src/cxon/lang/cbor/common/sink.hxx
index 55e209e..118398a 100644
--- a/src/cxon/lang/cbor/common/sink.hxx
+++ b/src/cxon/lang/cbor/common/sink.hxx
@@ -6,6 +6,8 @@
 #ifndef CXON_CBOR_SINK_HXX_
 #define CXON_CBOR_SINK_HXX_
 
+#include <vector>
+
 // interface ///////////////////////////////////////////////////////////////////
 
 namespace cxon { namespace cbor {
@@ -94,106 +96,99 @@ namespace cxon { namespace cbor { namespace imp {
     
     template <typename X, typename S>
         struct sink_reader_<CBOR<X>, S> {
-            template<typename II, typename Cx, typename Y = CBOR<X>>
+            template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool read(S& s, II& i, II e, Cx& cx) {
-                    auto t = std::back_inserter(s);
-                    auto const b = bio::peek(i, e);
-                    unsigned const mjr = b & Y::mjr;
-                    unsigned const mnr = b & Y::mnr;
-                    switch (mjr) {
-                        case Y::pint: case Y::nint: case Y::tag: case Y::svn: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e));
-                                case 0x18: case 0x19: case 0x1A: case 0x1B:
-                                    return  (bio::get(t, i, e, 1 + (1 << (mnr - 0x18)))) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x1C: case 0x1D: case 0x1E: case 0x1F:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
-                            }
+                    II const o = i;
+                    return  read_<Y>(s, i, e) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
+                    ;
+                }
+            private:
+                template <typename Y, typename O, typename II>
+                    static bool size_(O t, std::size_t& n, II& i, II e) { // copies the head
+                        unsigned const m = bio::peek(i, e) & Y::mnr;
+                        if (m < 0x18)
+                            return n = m, bio::get(t, i, e);
+                        if (m > 0x1B)
+                            return false;
+                        unsigned const w = 1U << (m - 0x18);
+                        unsigned long long u;
+                        return  bio::get(t, i, e) && bio::get(u, w, i, e) && bio::poke(t, u, w) &&
+                                (n = static_cast<std::size_t>(u)) == u
+                        ;
+                    }
+                template <typename Y, typename O, typename II>
+                    static bool string_(O t, II& i, II e) {
+                        std::size_t n;
+                        return size_<Y>(t, n, i, e) && bio::get(t, i, e, n);
+                    }
+                template <typename Y, typename O, typename II>
+                    static bool string_var_(O t, II& i, II e) {
+                        bio::byte const m = bio::peek(i, e) & Y::mjr;
+                        for (bio::get(t, i, e); (bio::peek(i, e) & Y::mjr) == m; )
+                            if (!string_<Y>(t, i, e))
+                                return false;
+                        for ( ; i != e && bio::peek(i, e) != Y::brk; bio::get(t, i, e)) // not chunked
+                            ;
+                        return bio::get(t, i, e);
+                    }
+                template <typename Y, typename II>
+                    static bool read_(S& s, II& i, II e) {
+                        auto t = std::back_inserter(s);
+                        struct level { std::size_t n; bool var, map; }; // n: left if definite, read if indefinite
+                        std::vector<level> ls;
+                        bool tag = false;
+                        if (i != e && (bio::peek(i, e) & Y::mjr) == Y::tag) { // a tag is skipped alone if not nested
+                            std::size_t n;
+                            return size_<Y>(t, n, i, e);
                         }
-                        case Y::bstr: case Y::tstr: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e, 1 + mnr)) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    return  (
-                                                bio::get(t, i, e) &&
-                                                bio::get(n, 1U << (mnr - 0x18), i, e) &&
-                                                bio::poke(t, n, 1U << (mnr - 0x18)) &&
-                                                bio::get(t, i, e, n)
-                                            )   ||
-                                            (   bio::rewind(i, o), cx/cbor::read_error::unexpected
-                                            )
-                                    ;
-                                }
-                                case 0x1F:
-                                    do      (bio::get(t, i, e)); // should not fail
-                                    while   (bio::peek(i, e) != Y::brk);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                        for (level l = { 1, false, false }; ; ) {
+                            if (!l.var && l.n == 0) {
+                                if (ls.empty())
+                                    return true;
+                                l = ls.back(), ls.pop_back();
+                                continue;
                             }
-                        }
-                        case Y::arr: case Y::map: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    bio::get(t, i, e); // should not fail
-                                    for (unsigned j = 0; j != mnr; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    if (!bio::get(t, i, e) || !bio::get(n, 1U << (mnr - 0x18), i, e) || !bio::poke(t, n, 1U << (mnr - 0x18)))
-                                        return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    for (unsigned j = 0; j != n; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
+                            if (i == e)
+                                return false;
+                            auto const b = bio::peek(i, e);
+                            if (b == Y::brk) {
+                                if (tag || !l.var || (l.map && l.n % 2 != 0) || !bio::get(t, i, e))
+                                    return false;
+                                l = ls.back(), ls.pop_back();
+                                continue;
+                            }
+                            bool const var = (b & Y::mnr) == 0x1F;
+                            std::size_t n;
+                            if (!(tag = (b & Y::mjr) == Y::tag))
+                                l.var ? ++l.n : --l.n;
+                            switch (b & Y::mjr) {
+                                case Y::bstr: case Y::tstr:
+                                    if (!(var ? string_var_<Y>(t, i, e) : string_<Y>(t, i, e)))
+                                        return false;
+                                    break;
+                                case Y::arr: case Y::map: {
+                                    bool const map = (b & Y::mjr) == Y::map;
+                                    if (var) {
+                                        bio::get(t, i, e);
+                                        ls.push_back(l), l = { 0, true, map };
+                                        break;
+                                    }
+                                    if (!size_<Y>(t, n, i, e) || (map && n > std::size_t(-1) / 2))
+                                        return false;
+                                    n = map ? n * 2 : n;
+                                    if (l.var || n > std::size_t(-1) - l.n)
+                                        ls.push_back(l), l = { n, false, false };
+                                    else
+                                        l.n += n;
+                                    break;
                                 }
-                                case 0x1F:
-                                    bio::get(t, i, e); // should not fail
-                                    while (bio::peek(i, e) != Y::brk)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                                default: // numbers, simple values and tags
+                                    if (!size_<Y>(t, n, i, e))
+                                        return false;
                             }
                         }
-                        default:                                        // LCOV_EXCL_LINE
-                            return CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
                     }
-                }
-            template<typename II, typename Cx, typename Y = CBOR<X>>
-                static bool read_element(S& s, bio::byte m, II& i, II e, Cx& cx) {
-                    switch (m) {
-                        case Y::map:    return  sink_read<Y>(s, i, e, cx) &&
-                                                sink_read<Y>(s, i, e, cx);
-                        case Y::arr:    return  sink_read<Y>(s, i, e, cx);
-                        default:        return  CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
-                    }
-                }
         };
 
 }}}
-- 
2.43.0


From 88e5aff275f90efe6406bb1a4367b774139072f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 22/67] fix: nodes may be assigned from their parts and do not
 move memory between different allocators

---
 src/cxon/lang/cbor/node/node.hxx    |  10 +-
 src/cxon/lang/common/node-value.hxx | 185 ++++++++--------------------
 src/cxon/lang/json/node/node.hxx    |  10 +-
 3 files changed, 60 insertions(+), 145 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 91b4d8a..ef334a2 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -199,7 +199,7 @@ namespace cxon { namespace cbor { // node
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
-#                   define CXON_CBOR_TYPE_DEF(T)    case node_kind::T: value::move_construct<T>(*this, std::move(o)); break
+#                   define CXON_CBOR_TYPE_DEF(T)    case node_kind::T: alloc_ == o.alloc_ ? value::move_construct<T>(*this, std::move(o)) : value::copy_construct<T>(*this, o); break
                         CXON_CBOR_TYPE_DEF(map);
                         CXON_CBOR_TYPE_DEF(array);
                         CXON_CBOR_TYPE_DEF(tag);
@@ -308,13 +308,13 @@ namespace cxon { namespace cbor { // node
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
                     basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                                                                        { T t(std::move(v)); return imbue<T>() = std::move(t), *this; } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
                     basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                                                                        { T t(v); return imbue<T>() = std::move(t), *this; }
                 CXON_CBOR_TYPE_DEF(map);
                 CXON_CBOR_TYPE_DEF(array);
                 CXON_CBOR_TYPE_DEF(tag);
@@ -451,8 +451,8 @@ namespace cxon { namespace cbor { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
-                    value::construct<T>(*this);
+                    reset(), value::construct<T>(*this);
+                    kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 2ab8016..d235765 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -75,11 +75,29 @@ namespace cxon { namespace value {
     template <typename N>
         struct controller {
             template <typename T> using is_dynamic_type     = typename N::template is_dynamic_type_<T>;
+            template <typename T> using node_kind_          = typename N::template node_kind_<N, T>;
             using allocator_type                            = typename N::allocator_type;
             using propagate_on_container_move_assignment    = typename std::allocator_traits<allocator_type>::propagate_on_container_move_assignment;
             using propagate_on_container_copy_assignment    = typename std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment;
             using propagate_on_container_swap               = typename std::allocator_traits<allocator_type>::propagate_on_container_swap;
 
+            // exception specification
+                using dynamic_types = typename N::dynamic_types_;
+                using has_dynamic_types             = type_sequence_disjunction<N::template is_dynamic_type_, dynamic_types>;
+
+                template <typename T, typename ...A>
+                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value>;
+
+                using is_nothrow_move_constructible = bool_constant<type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value>;
+                using is_nothrow_move_assignable    = bool_constant<
+                    !has_dynamic_types::value &&
+                    type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value &&
+                    type_sequence_conjunction<std::is_nothrow_copy_constructible, dynamic_types>::value
+                >;
+
+                using is_nothrow_copy_constructible = bool_constant<!has_dynamic_types::value && type_sequence_conjunction<std::is_nothrow_copy_constructible, dynamic_types>::value>;
+                using is_nothrow_copy_assignable    = bool_constant<!has_dynamic_types::value && type_sequence_conjunction<std::is_nothrow_copy_constructible, dynamic_types>::value>;
+
             // value access
                 template <typename T, typename M>
                     static constexpr auto get(M& n) noexcept -> enable_if_t<!is_dynamic_type<T>::value && !std::is_pointer<T>::value, T&> {
@@ -118,71 +136,12 @@ namespace cxon { namespace value {
                     }
             // move assign
                 template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
+                    static N& move_assign(N& n, N&& o)
+                        noexcept(is_nothrow_move_assignable::value)
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            destruct<T>(n), n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        noexcept(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                construct<T>(n, std::move(get<T>(o)));
-                            else
-                                construct<T>(n, get<T>(o));
+                        if (&n != &o) { // 'o' may be a part of 'n'
+                            N t(std::move(o));
+                            move_assign_<T>(propagate_on_container_move_assignment(), n, std::move(t));
                         }
                         return n;
                     }
@@ -207,58 +166,12 @@ namespace cxon { namespace value {
                     }
             // copy assign
                 template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
+                    static N& copy_assign(N& n, const N& o)
+                        noexcept(is_nothrow_copy_assignable::value)
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            construct<T>(n, get<T>(o));
+                        if (&n != &o) { // 'o' may be a part of 'n'
+                            N t(o, propagate_on_container_copy_assignment::value ? o.alloc_ : n.alloc_);
+                            move_assign_<T>(propagate_on_container_copy_assignment(), n, std::move(t));
                         }
                         return n;
                     }
@@ -275,8 +188,12 @@ namespace cxon { namespace value {
                     {
                         using at = alc::rebind_t<allocator_type, T>;
                         at    al(n.alloc_);
-                        get<T*>(n) = std::allocator_traits<at>::allocate(al, 1);
-                        alc::uninitialized_construct_using_allocator<T>(get<T*>(n), al, std::forward<A>(t)...);
+                        struct guard {
+                            at& al; T* t;
+                            ~guard() { if (t) std::allocator_traits<at>::deallocate(al, t, 1); }
+                        }   g = { al, std::allocator_traits<at>::allocate(al, 1) };
+                        alc::uninitialized_construct_using_allocator<T>(g.t, al, std::forward<A>(t)...);
+                        get<T*>(n) = g.t, g.t = nullptr;
                     }
             // destruct
                 template <typename T>
@@ -290,8 +207,23 @@ namespace cxon { namespace value {
                         std::allocator_traits<at>::destroy(al, get<T*>(n));
                         std::allocator_traits<at>::deallocate(al, get<T*>(n), 1);
                     }
+            private:
+            // move assign
+                template <typename T>
+                    static void move_assign_(std::true_type, N& n, N&& o) {
+                        n.reset(), n.alloc_ = std::move(o.alloc_);
+                        move_construct<T>(n, std::move(o)), n.kind_ = node_kind_<T>::value;
+                    }
+                template <typename T>
+                    static void move_assign_(std::false_type, N& n, N&& o) {
+                        n.reset();
+                        if (n.alloc_ == o.alloc_) // TODO: likely
+                            move_construct<T>(n, std::move(o));
+                        else
+                            copy_construct<T>(n, o);
+                        n.kind_ = node_kind_<T>::value;
+                    }
             // swap
-                private:
                     template <typename T>
                         static auto swap_(option<1>, T& f, T& s) -> decltype(f.swap(s), void()) {
                             f.swap(s);
@@ -342,23 +274,6 @@ namespace cxon { namespace value {
                     static void swap(N& f, N& s) {
                         ndes_<F, S>::swap(f, s);
                     }
-
-            // exception specification
-                using dynamic_types = typename N::dynamic_types_;
-                using has_dynamic_types             = type_sequence_disjunction<N::template is_dynamic_type_, dynamic_types>;
-
-                template <typename T, typename ...A>
-                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value>;
-
-                using is_nothrow_move_constructible = bool_constant<type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value>;
-                using is_nothrow_move_assignable    = bool_constant<
-                    !has_dynamic_types::value &&
-                    type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value &&
-                    type_sequence_conjunction<std::is_nothrow_copy_constructible, dynamic_types>::value
-                >;
-
-                using is_nothrow_copy_constructible = bool_constant<!has_dynamic_types::value && type_sequence_conjunction<std::is_nothrow_copy_constructible, dynamic_types>::value>;
-                using is_nothrow_copy_assignable    = bool_constant<!has_dynamic_types::value && type_sequence_conjunction<std::is_nothrow_copy_constructible, dynamic_types>::value>;
         };
 
     // value access
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5fca298..d9255a0 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -164,7 +164,7 @@ namespace cxon { namespace json { // node
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
-#                   define CXON_JSON_TYPE_DEF(T)    case node_kind::T: value::move_construct<T>(*this, std::move(o)); break
+#                   define CXON_JSON_TYPE_DEF(T)    case node_kind::T: alloc_ == o.alloc_ ? value::move_construct<T>(*this, std::move(o)) : value::copy_construct<T>(*this, o); break
                         CXON_JSON_TYPE_DEF(object);
                         CXON_JSON_TYPE_DEF(array);
                         CXON_JSON_TYPE_DEF(string);
@@ -252,13 +252,13 @@ namespace cxon { namespace json { // node
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
                     basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                                                                        { T t(std::move(v)); return imbue<T>() = std::move(t), *this; } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
                     basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                                                                        { T t(v); return imbue<T>() = std::move(t), *this; }
                 CXON_JSON_TYPE_DEF(object)
                 CXON_JSON_TYPE_DEF(array)
                 CXON_JSON_TYPE_DEF(string)
@@ -387,8 +387,8 @@ namespace cxon { namespace json { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
-                    value::construct<T>(*this);
+                    reset(), value::construct<T>(*this);
+                    kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
-- 
2.43.0


From 8f8a45e624d8249c0e525fd8d32ffa825fab3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 23/67] fix: JSON nodes reject numbers without fraction or
 exponent digits

---
 src/cxon/lib/node.json.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 4346189..c7f3914 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -169,6 +169,8 @@ namespace cxon {
                     if (c == '.') {
                         CXON_STORE('.');
                         r = 1; c = cio::next(i, e);
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
@@ -181,6 +183,8 @@ namespace cxon {
                             CXON_STORE(c);
                             c = cio::next(i, e);
                         }
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
-- 
2.43.0


From 0fcf3e70f902ad2d6172da23e332164a73852d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 24/67] fix: no dereference of the end of the input when
 reading strict integers

---
 src/cxon/lang/common/cio/numeric.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index eb27023..73e1afd 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -60,7 +60,7 @@ namespace cxon { namespace cio { namespace num { // read
             inline auto number_consume_(const char*& i, const char* e)
                 -> enable_if_t<std::is_integral<T>::value, int>
             {
-                char c = *i;
+                char c = peek(i, e);
                     if (is_sign_<T>(c)) goto trap_neg;
                 // trap_pos
                     if (c == '0') return ++i, 1;
-- 
2.43.0


From 5236814dd9faba505a43dfdc0e3ce208d8e1c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 25/67] fix: the conversion of characters to numbers without
 <charconv> does not read past the end and is exact

---
 src/cxon/lang/common/charconv.hxx | 113 +++++++++++++++++-------------
 1 file changed, 65 insertions(+), 48 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 85a2999..76c2bd3 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -46,64 +46,81 @@ namespace cxon { namespace charconv { namespace imp {
 
     namespace {
 
-        template <typename T, typename F>
-            constexpr auto clamp_(F t) noexcept -> enable_if_t<sizeof(T) == sizeof(F), T> {
-                return t;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_signed<T>(), T> {
-                        if (f < std::numeric_limits<T>::min()) errno = ERANGE, f = std::numeric_limits<T>::min();
-                else    if (f > std::numeric_limits<T>::max()) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_unsigned<T>(), T> {
-                if (std::numeric_limits<T>::max() < f) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
-
         template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_signed<T>::value, bool> {
-                return c == '+';
-            }
-        template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_unsigned<T>::value, bool> {
-                return c == '+' || c == '-';
+            inline from_chars_result number_from_chars_(const char* first, const char* last, T& value, int base) noexcept {
+                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
+                bool const n = std::is_signed<T>::value && first != last && *first == '-';
+                unsigned long long const m = static_cast<unsigned long long>(std::numeric_limits<T>::max()) + (n ? 1 : 0);
+                unsigned long long v = 0;
+                bool o = false;
+                auto const b = n ? first + 1 : first;
+                auto i = b;
+                for ( ; i != last; ++i) {
+                    unsigned const d =  *i >= '0' && *i <= '9' ? *i - '0' :
+                                        *i >= 'a' && *i <= 'z' ? *i - 'a' + 10 :
+                                        *i >= 'A' && *i <= 'Z' ? *i - 'A' + 10 : 36;
+                    if (d >= unsigned(base))
+                        break;
+                    if (!(o = o || v > m / base || v * base > m - d))
+                        v = v * base + d;
+                }
+                    if (i == b) return { first, std::errc::invalid_argument };
+                    if (o)      return { i, std::errc::result_out_of_range };
+                return value = n && v != 0 ? static_cast<T>(-static_cast<long long>(v - 1) - 1) : static_cast<T>(v), from_chars_result{ i, std::errc{} };
             }
 
-        template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, int base) noexcept {
-                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = clamp_<T>(convert(first, &end, base));
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+        inline const char* real_end_(const char* first, const char* last) noexcept { // first if not a number
+            auto const digits = [last](const char* i) { while (i != last && *i >= '0' && *i <= '9') ++i; return i; };
+            auto const b = first != last && *first == '-' ? first + 1 : first;
+                if (last - b >= 3 && (std::equal(b, b + 3, "inf") || std::equal(b, b + 3, "nan"))) return b + 3;
+            auto i = digits(b);
+            auto n = i - b;
+            if (i != last && *i == '.') {
+                auto const f = digits(i + 1);
+                n += f - i - 1, i = n ? f : i;
             }
+                if (n == 0) return first;
+            if (i != last && (*i == 'e' || *i == 'E')) {
+                auto const x = i + 1 != last && (i[1] == '-' || i[1] == '+') ? i + 2 : i + 1;
+                auto const f = digits(x);
+                    if (f != x) i = f;
+            }
+            return i;
+        }
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, chars_format) noexcept {
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = convert(first, &end);
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value, chars_format) noexcept {
+                auto const e = real_end_(first, last);
+                    if (e == first) return { first, std::errc::invalid_argument };
+                char a[128];
+                std::size_t const n = e - first;
+                char* const s = n < sizeof(a) ? a : static_cast<char*>(std::malloc(n + 1));
+                    if (!s) return { first, std::errc::not_enough_memory };
+                *std::copy(first, e, s) = '\0';
+                int const r = errno;
+                errno = 0; auto const v = convert(s, nullptr);
+                bool const o = errno == ERANGE && (v == 0 || v < std::numeric_limits<T>::lowest() || v > std::numeric_limits<T>::max());
+                errno = r;
+                    if (s != a) std::free(s);
+                return { e, !o ? (value = v, std::errc{}) : std::errc::result_out_of_range };
             }
 
     }
 
-#   define CXON_FROM_CHARS(T, C)\
+#   define CXON_FROM_CHARS(T)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, int base = 10) noexcept {\
-            return number_from_chars_(first, last, C, value, base);\
+            return number_from_chars_<T>(first, last, value, base);\
         }
-        CXON_FROM_CHARS(char, strtol)
-        CXON_FROM_CHARS(signed char, strtol)
-        CXON_FROM_CHARS(unsigned char, strtoul)
-        CXON_FROM_CHARS(short, strtol)
-        CXON_FROM_CHARS(unsigned short, strtoul)
-        CXON_FROM_CHARS(int, strtol)
-        CXON_FROM_CHARS(unsigned int, strtoul)
-        CXON_FROM_CHARS(long, strtol)
-        CXON_FROM_CHARS(unsigned long, strtoul)
-        CXON_FROM_CHARS(long long, strtoll)
-        CXON_FROM_CHARS(unsigned long long, strtoull)
+        CXON_FROM_CHARS(char)
+        CXON_FROM_CHARS(signed char)
+        CXON_FROM_CHARS(unsigned char)
+        CXON_FROM_CHARS(short)
+        CXON_FROM_CHARS(unsigned short)
+        CXON_FROM_CHARS(int)
+        CXON_FROM_CHARS(unsigned int)
+        CXON_FROM_CHARS(long)
+        CXON_FROM_CHARS(unsigned long)
+        CXON_FROM_CHARS(long long)
+        CXON_FROM_CHARS(unsigned long long)
 #   undef CXON_FROM_CHARS
 #   define CXON_FROM_CHARS(T, C)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, chars_format fmt = chars_format::general) noexcept {\
@@ -132,7 +149,7 @@ namespace cxon { namespace charconv { namespace imp {
             inline auto itoa_(char* b, T t, int base) noexcept -> typename std::enable_if<std::is_signed<T>::value, unsigned>::type {
                 using U = typename std::make_unsigned<T>::type;
                 return t < 0 ?
-                    *b = '-', itoa_<U>(++b, -t, base) + 1 :
+                    *b = '-', itoa_<U>(++b, U(0) - U(t), base) + 1 :
                               itoa_<U>(  b,  t, base)
                 ;
             }
-- 
2.43.0


From fec7543c5dfefed27dd98852b9470a3624e4a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 26/67] fix: pointer reads do not leak if an exception is
 thrown

---
 src/cxon/lang/cbor/compound.hxx    |  8 ++++----
 src/cxon/lang/common/allocator.hxx | 18 ++++++++++++++++--
 src/cxon/lang/json/compound.hxx    |  8 ++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 495d0cf..03f5571 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -45,10 +45,10 @@ namespace cxon { // pointer/read
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
                 auto al = alc::make_context_allocator<T>(cx);
-                T *const v = al.create();
-                    if (!v || !read_value<X>(*v, i, e, cx))
-                        return al.release(v), false;
-                return t = v, true;
+                typename decltype(al)::holder v(al, al.create());
+                    if (!v.t || !read_value<X>(*v.t, i, e, cx))
+                        return false;
+                return t = v.release(), true;
             }
 
         template <typename X, typename T, typename II, typename Cx>
diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index 78269e1..f3bff82 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -207,8 +207,9 @@ namespace cxon { namespace alc {
 
             template <typename ...A>
                 T* create(A&&... as) {
-                    auto t = tr::allocate(al_, 1);
-                    return t ? construct(t, std::forward<A>(as)...), t : t;
+                    memory m(al_, 1);
+                        if (m.p) construct(m.p, std::forward<A>(as)...);
+                    return m.release();
                 }
             T* create(std::size_t n) {
                 auto p = tr::allocate(al_, n);
@@ -238,8 +239,21 @@ namespace cxon { namespace alc {
             template <typename U = T> auto destroy(U *)
                 -> enable_if_t< std::is_trivial<U>::value> {}
 
+            struct holder { // releases the object on failure
+                holder(basic_allocator& al, T* t) : al(al), t(t) {}
+                ~holder()       { al.release(t); }
+                T* release()    { auto const r = t; return t = nullptr, r; }
+                basic_allocator& al; T* t;
+            };
+
             private:
                 using tr = std::allocator_traits<type>;
+                struct memory {
+                    memory(type& al, std::size_t n) : al(al), p(tr::allocate(al, n)), n(n) {}
+                    ~memory()       { if (p) tr::deallocate(al, p, n); }
+                    T* release()    { auto const r = p; return p = nullptr, r; }
+                    type& al; T* p; std::size_t n;
+                };
                 type al_;
         };
 
diff --git a/src/cxon/lang/json/compound.hxx b/src/cxon/lang/json/compound.hxx
index 460a832..77aef80 100644
--- a/src/cxon/lang/json/compound.hxx
+++ b/src/cxon/lang/json/compound.hxx
@@ -31,10 +31,10 @@ namespace cxon { // pointer
                         ;
                     }
                     auto al = alc::make_context_allocator<T>(cx);
-                    T *const n = al.create();
-                        if (!read_value<Y>(*n, i, e, cx))
-                            return al.release(n), false;
-                    return t = n, true;
+                    typename decltype(al)::holder n(al, al.create());
+                        if (!read_value<Y>(*n.t, i, e, cx))
+                            return false;
+                    return t = n.release(), true;
                 }
         };
     template <typename X, typename T>
-- 
2.43.0


From 2aa3f743205b3cf695dfcf22f21e427ad56ba27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:16 +0000
Subject: [PATCH 27/67] fix: a null string pointer is set when read from null

---
 src/cxon/lang/common/cio/string.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 65d2642..1da06ed 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -208,7 +208,7 @@ namespace cxon { namespace cio { namespace str {
             if (!consume<X>(i, e, cx))
                 return false;
             if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return true;
+                return t = nullptr, true;
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From 2de59895f31a62420afbd50a4fc207d277388b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:16 +0000
Subject: [PATCH 28/67] fix: unescaped quotes and control characters are not
 JSON characters

---
 src/cxon/lang/json/fundamental.hxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 9869777..7f8a473 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -91,12 +91,24 @@ namespace cxon { // bool
 
 namespace cxon { // character
 
+    namespace json { namespace imp {
+        template <typename X>
+            inline auto is_char_valid_(char c) -> enable_if_t<!cio::is_key_context<X>::value, bool> {
+                return !cio::str::delim_en_check<X>(c) && !(X::validate_string_escapes && cio::chr::is<X>::ctrl(c));
+            }
+        template <typename X>
+            inline auto is_char_valid_(char) -> enable_if_t< cio::is_key_context<X>::value, bool> {
+                return true;
+            }
+    }}
+
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_8<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
+                            if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
@@ -109,6 +121,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
+                            if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
@@ -121,6 +134,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
+                            if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
-- 
2.43.0


From 0995b3f7a33a03fd6489aa6184de494df69f8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 29/67] fix: blanks before the closing quote of characters and
 bitsets are not skipped

---
 src/cxon/lang/json/fundamental.hxx              | 6 +++---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 src/cxon/lang/json/lib/std/bitset.hxx           | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 7f8a473..57a34a7 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -112,7 +112,7 @@ namespace cxon { // character
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = char(c32), true);
                 }
             };
     template <typename X, typename T>
@@ -125,7 +125,7 @@ namespace cxon { // character
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
                 }
         };
     template <typename X, typename T>
@@ -137,7 +137,7 @@ namespace cxon { // character
                             if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
                 }
         };
 
diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 275d243..4a3d333 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(boost::dynamic_bitset<B, A>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/bitset.hxx b/src/cxon/lang/json/lib/std/bitset.hxx
index 1e0938c..cf401eb 100644
--- a/src/cxon/lang/json/lib/std/bitset.hxx
+++ b/src/cxon/lang/json/lib/std/bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(std::bitset<N>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
-- 
2.43.0


From d916478fb72eaf94ad88f2672c1a6fd9fe976c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 30/67] fix: the size of JSON dynamic bitsets longer than two
 blocks

---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 4a3d333..de7f767 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -20,7 +20,7 @@ namespace cxon { namespace json { namespace imp {
             t.resize(t.size() + u);
             for ( ; i != e && (*i == '1' || *i == '0'); ++i) {
                 if (p == 0)
-                    t.resize(t.size() * 2), t <<= u, p = u;
+                    t.resize(t.size() + u), t <<= u, p = u;
                 --p;
                 if (*i == '1') t.set(p);
             }
-- 
2.43.0


From af30f07efc28444aa68dfa906770cd5490c82e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 31/67] fix: CBOR byte strings are readable in arrays of any
 elements assignable from a byte

---
 src/cxon/lang/cbor/common/container.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index c4d4dd3..5f755bc 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -141,11 +141,24 @@ namespace cxon { namespace cbor { namespace cnt {
                 II e = f; std::advance(e, m);
                 return cxon::cnt::append(c, f, e) && (std::advance(f, m), m == n);
             }
+        template <typename C, typename II>
+            inline auto element_append_(C& c, II i)
+                -> enable_if_t< std::is_arithmetic<typename C::value_type>::value, bool>
+            {
+                return cxon::cnt::append(c, static_cast<bio::byte>(*i));
+            }
+        template <typename C, typename II>
+            inline auto element_append_(C& c, II i)
+                -> enable_if_t<!std::is_arithmetic<typename C::value_type>::value, bool>
+            {
+                using T = conditional_t<std::is_assignable<typename C::value_type&, bio::byte>::value, bio::byte, char>;
+                return cxon::cnt::emplace(c) = static_cast<T>(*i), true;
+            }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
                 -> enable_if_t<!is_byte_copyable_<C, II>::value, bool>
             {
-                for ( ; n != 0 && f != l && cxon::cnt::append(c, static_cast<bio::byte>(*f)); --n, ++f)
+                for ( ; n != 0 && f != l && element_append_(c, f); --n, ++f)
                     ;
                 return n == 0;
             }
-- 
2.43.0


From ce85455da5eb9b4f327d284179bbc7d040f3a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 32/67] fix: CBOR bitsets without bits are readable

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index fcbed85..0fdda56 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -51,7 +51,9 @@ namespace cxon {
                             return cx/cbor::read_error::unexpected;
                         if (M * 8 - bio::byte(*i) != N)
                             return cx/cbor::read_error::size_invalid;
-                        if (++i == e)
+                        if (++i, M == 0)
+                            return true;
+                        if (i == e)
                             return cx/cbor::read_error::unexpected;
                         return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
-- 
2.43.0


From 85a591b6d4b0640476f6b17af65043532b52608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 33/67] fix: JSON nodes reject NaN and Infinity unless allowed

---
 src/cxon/lib/node.json.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index c7f3914..9b98d3a 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -152,7 +152,7 @@ namespace cxon {
                                 CXON_STORE(c);
                             }
                     }
-                    else if (c == 'I' || c == 'N') {
+                    else if (X::allow_javascript_nans && (c == 'I' || c == 'N')) {
                         return read_value<X>(v, i, e, cx) && (!s || (v = -v, true));
                     }
                     else
-- 
2.43.0


From d1d9113245d3f3437243dbaf566bb7cc1b3d2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 34/67] fix: a text that ends in a quoted character was read
 past its end

---
 src/cxon/lang/json/fundamental.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 57a34a7..2a99489 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -108,7 +108,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
+                            if (i == e || !json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
@@ -121,7 +121,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
+                            if (i == e || !json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
@@ -134,7 +134,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            if (!json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
+                            if (i == e || !json::imp::is_char_valid_<X>(cio::peek(i, e))) return cx/json::read_error::character_invalid;
                             char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                     return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
-- 
2.43.0


From 4a54fbf4b83e052ade3ea6e680d065a13886f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 35/67] fix: containers of enumerators and classes of a single
 byte were written as raw bytes (or did not compile) in CBOR

---
 src/cxon/lang/cbor/common/container.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 5f755bc..142bad3 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -309,9 +309,12 @@ namespace cxon { namespace cbor { namespace cnt {
 
     namespace imp {
 
+        template <typename T>
+            struct is_byte_ : bool_constant<std::is_integral<T>::value && sizeof(T) == 1 && !std::is_same<T, bool>::value> {};
+
         template <typename X, typename FI, typename O, typename Cx, typename T = typename std::iterator_traits<FI>::value_type>
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
-                -> enable_if_t<sizeof(T) == 1 && !std::is_same<T, bool>::value &&  is_char<T>::value, bool> 
+                -> enable_if_t< is_byte_<T>::value &&  is_char<T>::value, bool>
             {
                 return  write_size<X>(o, X::tstr, std::distance(f, l), cx) &&
                         bio::poke<X>(o, f, l, cx)
@@ -319,7 +322,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename FI, typename O, typename Cx, typename T = typename std::iterator_traits<FI>::value_type>
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
-                -> enable_if_t<sizeof(T) == 1 && !std::is_same<T, bool>::value && !is_char<T>::value, bool>
+                -> enable_if_t< is_byte_<T>::value && !is_char<T>::value, bool>
             {
                 return  write_size<X>(o, X::bstr, std::distance(f, l), cx) &&
                         bio::poke<X>(o, f, l, cx)
@@ -327,7 +330,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename FI, typename O, typename Cx, typename T = typename std::iterator_traits<FI>::value_type>
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
-                -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
+                -> enable_if_t<!is_byte_<T>::value, bool>
             {
                 if (write_size<X>(o, X::arr, std::distance(f, l), cx))
                     for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
@@ -344,7 +347,7 @@ namespace cxon { namespace cbor { namespace cnt {
 
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
             inline auto write_array_(O& o, const C& t, Cx& cx)
-                -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
+                -> enable_if_t<!is_byte_<T>::value, bool>
             {
                 auto f = std::begin(t), l = std::end(t);
                 if (write_size<X>(o, X::arr, std::distance(f, l), cx))
@@ -353,7 +356,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
             inline auto write_array_(O& o, const C& t, Cx& cx)
-                -> enable_if_t<sizeof(T) == 1 && !std::is_same<T, bool>::value, bool>
+                -> enable_if_t< is_byte_<T>::value, bool>
             {
                 auto const r = cxon::cnt::continuous<C>::range(t);
                 return write_array<X>(o, r.first, r.second, cx);
-- 
2.43.0


From fd36299446557ca55ed36091ee63484e8cc2561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 36/67] fix: writing a UTF-16 string with an unpaired high
 surrogate read past its end

---
 src/cxon/lang/common/cio/char.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index e9464fe..3ab71ff 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -590,8 +590,9 @@ namespace cxon { namespace cio { namespace chr {
                         static bool value_(O& o, const char16_t*& i, const char16_t* e, Cx& cx) {
                             char32_t c32 = *i;
                                 if (c32 >= 0xD800 && c32 <= 0xDBFF) { // surrogate
-                                    ++i;                        CXON_ASSERT(i != e, "invalid surrogate");
-                                    char32_t const s32 = *i;    CXON_ASSERT(s32 >= 0xDC00 && s32 <= 0xDFFF, "invalid surrogate");
+                                    char32_t const s32 = i + 1 != e ? *(i + 1) : 0;
+                                    if (s32 < 0xDC00 || s32 > 0xDFFF) return cx/X::write_error::argument_invalid;
+                                    ++i;
                                     c32 = char32_t(0x10000 + (((c32 - 0xD800) << 10) | (s32 - 0xDC00)));
                                 }
                             return encode_<X, char32_t>::value(o, c32, cx);
-- 
2.43.0


From fe768aa9501f9585bca35fbcde7ea841b13a6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 37/67] fix: strict reading of integers accepted zeros after a
 minus (-01)

---
 src/cxon/lang/common/cio/numeric.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 73e1afd..1a2d6a0 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -69,6 +69,7 @@ namespace cxon { namespace cio { namespace num { // read
                     goto trap_end;
                 trap_neg:
                     c = next(i, e);
+                    if (c == '0') return ++i, 1;
                        if (!chr::is<X>::digit10(c)) return 0;
                     while ( chr::is<X>::digit10(c)) c = next(i, e);
                 trap_end:
-- 
2.43.0


From a42016a3a48e2c74066e5b10698a16696807fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:31 +0000
Subject: [PATCH 38/67] fix: class keys with escapes are not recognized

---
 src/cxon/lang/common/cio/string.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 1da06ed..cae543b 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -161,6 +161,10 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         for ( ; i != e; ++i) {
+                            CXON_IF_CONSTEXPR (!X::assume_no_escapes) {
+                                if (*i == '\\') // names are plain, but keys may still be escaped
+                                    return rewind(i, l), imp::string_read_tail_<unbind_traits_t<X, str::raw_traits>>(c, i, e, cx);
+                            }
                             if (delim_en_check<X>(*i)) {
                                 if (l == i || cxon::cnt::append(c, l, i))
                                     return delim_en_read<X>(i, e);
-- 
2.43.0


From 5a7a475894dde07f6a6b481e66582e92b5002364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 39/67] fix: writing to ranges of forward iterators does not
 compile

---
 src/cxon/lang/common/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 175b52c..0382fa8 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -351,7 +351,7 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         auto const s = std::distance(f, l);
-                        return s <= std::distance(e_, l_) && (std::copy(f, l, e_), e_ += s, true);
+                        return s <= std::distance(e_, l_) && (e_ = std::copy(f, l, e_), true);
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic pop
 #                   endif
-- 
2.43.0


From 03caedbc8b04a079743e84523814beef8ee7048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:44 +0000
Subject: [PATCH 40/67] fix: failure to write the size of an empty container is
 reported as success

---
 src/cxon/lang/cbor/common/container.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 142bad3..fe595ce 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -332,8 +332,9 @@ namespace cxon { namespace cbor { namespace cnt {
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
                 -> enable_if_t<!is_byte_<T>::value, bool>
             {
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
                 return f == l;
             }
 
@@ -350,8 +351,9 @@ namespace cxon { namespace cbor { namespace cnt {
                 -> enable_if_t<!is_byte_<T>::value, bool>
             {
                 auto f = std::begin(t), l = std::end(t);
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
                 return f == l;
             }
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
@@ -371,8 +373,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map(O& o, const T& t, Cx& cx) {
             auto f = std::begin(t), l = std::end(t);
-            if (write_size<X>(o, X::map, std::distance(f, l), cx))
-                for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
+            if (!write_size<X>(o, X::map, std::distance(f, l), cx))
+                return false;
+            for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
             return f == l;
         }
 
-- 
2.43.0


From ec0f496211045c6bac3ed6e16b7a85eae7a53ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:18 +0000
Subject: [PATCH 41/67] fix: writing CBOR to ranges of other than unsigned char
 runs over the end of the range

---
 src/cxon/lang/common/container.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 0382fa8..000b089 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -356,9 +356,12 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic pop
 #                   endif
                 }
-            bool append(const value_type* t, std::size_t n) noexcept {
-                return append(t, t + n);
-            }
+            template <typename II>
+                auto append(II f, std::size_t n) noexcept
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
+                {
+                    return append(f, std::next(f, n));
+                }
 
             bool append(unsigned n, const value_type& t) noexcept {
                 return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
-- 
2.43.0


From a31dafa4843d73093e9a5be30cd4bd4fe6580fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:57 +0000
Subject: [PATCH 42/67] fix: failure to write a valarray is reported as success
 and leaves an empty array after it

---
 src/cxon/lang/cbor/lib/std/valarray.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index c52d816..0010b81 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -67,8 +67,9 @@ namespace cxon {
         struct write<CBOR<X>, std::valarray<T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const std::valarray<T>& t, Cx& cx) {
-                    return (t.size() && cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx)) ||
-                           (cbor::cnt::write_size<Y>(o, Y::arr, 0, cx))
+                    return t.size() ?
+                        cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx) :
+                        cbor::cnt::write_size<Y>(o, Y::arr, 0, cx)
                     ;
                 }
         };
-- 
2.43.0


From 8510a78b58c5e78f66c2b23b9a5934a60b8d4e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:16 +0000
Subject: [PATCH 43/67] fix: containers separated by spaces are ambiguous to
 read when trailing separators are allowed

---
 src/cxon/lang/common/cio/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/container.hxx b/src/cxon/lang/common/cio/container.hxx
index 6702732..24c770a 100644
--- a/src/cxon/lang/common/cio/container.hxx
+++ b/src/cxon/lang/common/cio/container.hxx
@@ -55,7 +55,7 @@ namespace cxon { namespace cio { namespace cnt {
                 while (element_add() && consume_sep<X, Cr>(i, e, cx)) ;
             }
         template <typename X, typename Cr, typename II, typename Cx, typename EA>
-            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators> {
+            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators && Cr::sep != ' '> {
                 // expects non-empty list
                 while (element_add() && consume_sep<X, Cr>(i, e, cx) && (consume<X>(i, e, cx) && peek(i, e) != Cr::end)) ;
             }
-- 
2.43.0


From 7aef0294ecb4d80887eb18c189bbd2668747fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:09 +0000
Subject: [PATCH 44/67] fix: trailing separators are not accepted in pairs,
 tuples, complex numbers and variants

---
 src/cxon/lang/common/cio/cio.hxx          | 9 +++++++++
 src/cxon/lang/json/lib/boost/variant.hxx  | 2 +-
 src/cxon/lang/json/lib/boost/variant2.hxx | 2 +-
 src/cxon/lang/json/lib/std/complex.hxx    | 2 +-
 src/cxon/lang/json/lib/std/tuple.hxx      | 2 +-
 src/cxon/lang/json/lib/std/utility.hxx    | 2 +-
 src/cxon/lang/json/lib/std/variant.hxx    | 2 +-
 7 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/cio.hxx b/src/cxon/lang/common/cio/cio.hxx
index e535e37..0a10961 100644
--- a/src/cxon/lang/common/cio/cio.hxx
+++ b/src/cxon/lang/common/cio/cio.hxx
@@ -188,6 +188,15 @@ namespace cxon { namespace cio { namespace cnt {
             return consume<X>(i, e, cx) && peek(i, e) != Cr::end;
         }
 
+    template <typename X, typename Cr, typename II, typename Cx>
+        inline bool consume_end(II& i, II e, Cx& cx) { // after the last element
+            CXON_IF_CONSTEXPR (X::allow_trailing_separators && Cr::sep != ' ') {
+                if (!consume<X>(i, e, cx)) return false;
+                consume<X>(Cr::sep, i, e);
+            }
+            return consume<X>(Cr::end, i, e, cx);
+        }
+
 }}}
 
 #endif // CXON_CIO_HXX_
diff --git a/src/cxon/lang/json/lib/boost/variant.hxx b/src/cxon/lang/json/lib/boost/variant.hxx
index ce19040..8b11d5b 100644
--- a/src/cxon/lang/json/lib/boost/variant.hxx
+++ b/src/cxon/lang/json/lib/boost/variant.hxx
@@ -60,7 +60,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, II, Cx, T...>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename II, typename Cx, typename ...T>
diff --git a/src/cxon/lang/json/lib/boost/variant2.hxx b/src/cxon/lang/json/lib/boost/variant2.hxx
index 26cae2d..6a8f06f 100644
--- a/src/cxon/lang/json/lib/boost/variant2.hxx
+++ b/src/cxon/lang/json/lib/boost/variant2.hxx
@@ -57,7 +57,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, V, II, Cx>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
diff --git a/src/cxon/lang/json/lib/std/complex.hxx b/src/cxon/lang/json/lib/std/complex.hxx
index a9a404e..93e9476 100644
--- a/src/cxon/lang/json/lib/std/complex.hxx
+++ b/src/cxon/lang/json/lib/std/complex.hxx
@@ -21,7 +21,7 @@ namespace cxon {
                                 read_value<Y>(rl, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx) &&
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx) &&
                         (t.real(rl), t.imag(mg), true)
                     ;
                 }
diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 239b4a9..036072c 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -78,7 +78,7 @@ namespace cxon {
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 cio::cnt::read_tuple<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 151fa27..0b7215d 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -20,7 +20,7 @@ namespace cxon {
                                 read_value<Y>(t.first, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/variant.hxx b/src/cxon/lang/json/lib/std/variant.hxx
index f5898b5..8ede4b1 100644
--- a/src/cxon/lang/json/lib/std/variant.hxx
+++ b/src/cxon/lang/json/lib/std/variant.hxx
@@ -54,7 +54,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             variant_<X, V, II, Cx>::read(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
-- 
2.43.0


From 6367cf6b6cde0eae79f55bb6e354b1ff96a7dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 45/67] fix: strings in pairs and tuples that are keys lose
 their quotes with the keys unquoted

---
 src/cxon/lang/json/lib/std/tuple.hxx   | 4 ++--
 src/cxon/lang/json/lib/std/utility.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 036072c..5aae336 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -74,7 +74,7 @@ namespace cxon {
 
     template <typename X, typename ...T>
         struct read<JSON<X>, std::tuple<T...>> {
-            template <typename II, typename Cx, typename Y = JSON<X>>
+            template <typename II, typename Cx, typename Y = unbind_traits_t<JSON<X>, cio::key::quoted_traits>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 cio::cnt::read_tuple<Y>(t, i, e, cx) &&
@@ -95,7 +95,7 @@ namespace cxon {
 
     template <typename X, typename ...T>
         struct write<JSON<X>, std::tuple<T...>> {
-            template <typename O, typename Cx, typename Y = JSON<X>>
+            template <typename O, typename Cx, typename Y = unbind_traits_t<JSON<X>, cio::key::quoted_traits>>
                 static bool value(O& o, const std::tuple<T...>& t, Cx& cx) {
                     return  cio::poke<Y>(o, Y::list::beg, cx) &&
                                 cio::cnt::write_tuple<Y>(o, t, cx) &&
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 0b7215d..db86f28 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -14,7 +14,7 @@ namespace cxon {
 
     template <typename X, typename F, typename S>
         struct read<JSON<X>, std::pair<F, S>> {
-            template <typename II, typename Cx, typename Y = JSON<X>>
+            template <typename II, typename Cx, typename Y = unbind_traits_t<JSON<X>, cio::key::quoted_traits>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 read_value<Y>(t.first, i, e, cx) &&
@@ -27,7 +27,7 @@ namespace cxon {
 
     template <typename X, typename F, typename S>
         struct write<JSON<X>, std::pair<F, S>> {
-            template <typename O, typename Cx, typename Y = JSON<X>>
+            template <typename O, typename Cx, typename Y = unbind_traits_t<JSON<X>, cio::key::quoted_traits>>
                 static bool value(O& o, const std::pair<F, S>& t, Cx& cx) {
                     return  cio::poke<Y>(o, Y::list::beg, cx) &&
                                 write_value<Y>(o, t.first, cx) &&
-- 
2.43.0


From 29e7d7fd469189ce2f8f6e5da3dbeff60c6f2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:08 +0000
Subject: [PATCH 46/67] fix: keys without quotes that start as the end of the
 map, a map, a list or a comment are not read back

---
 src/cxon/lang/common/cio/char.hxx | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 3ab71ff..f3b6cc5 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -629,15 +629,39 @@ namespace cxon { namespace cio { namespace chr {
 
     }
 
+    namespace imp { // a key without quotes must not start as the end of the map, as a map, as a list or as a comment
+
+        template <typename X, typename T>
+            constexpr auto should_escape_head_(T c) noexcept -> enable_if_t< is_quoted_key_context<X>::value && !X::assume_no_escapes, bool> {
+                return c == T(X::map::end) || c == T(X::map::beg) || c == T(X::list::beg) || (X::allow_comments && c == T('/'));
+            }
+        template <typename X, typename T>
+            constexpr auto should_escape_head_(T) noexcept -> enable_if_t<!is_quoted_key_context<X>::value ||  X::assume_no_escapes, bool> {
+                return false;
+            }
+
+        template <typename X, typename O, typename Cx>
+            inline bool escape_head_(O& o, char c, Cx& cx) {
+                static constexpr char const*const hex_ = "0123456789abcdef";
+                char const b[] = { '\\', 'u', '0', '0', hex_[(c >> 4) & 0xF], hex_[c & 0xF] };
+                return poke<X>(o, b, sizeof(b), cx);
+            }
+
+    }
+
     template <typename X, typename O, typename T, typename Cx>
         inline auto encode_range(O& o, const T* f, const T* l, Cx& cx) -> enable_if_t<is_char<T>::value, bool> {
+            if (f != l && imp::should_escape_head_<X>(*f)) {
+                if (!imp::escape_head_<X>(o, char(*f), cx)) return false;
+                ++f;
+            }
             return imp::encode_<X, T>::range(o, f, l, cx);
         }
 
     template <typename X, typename T, typename O, typename Cx>
         inline auto write(O& o, T t, Cx& cx) -> enable_if_t<is_char<T>::value, bool> {
             return  poke<X>(o, str::delim_be_write<X, O>, cx) &&
-                        imp::encode_<X, T>::value(o, t, cx) &&
+                        (imp::should_escape_head_<X>(t) ? imp::escape_head_<X>(o, char(t), cx) : imp::encode_<X, T>::value(o, t, cx)) &&
                     poke<X>(o, str::delim_en_write<X, O>, cx)
             ;
         }
-- 
2.43.0


From 145728898e7a0a1b5d42e88eed7cd384ffa7bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 47/67] fix: infinities and NaNs are not read back when the
 strings are in apostrophes

---
 src/cxon/lang/common/cio/numeric.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 1a2d6a0..a44f6d5 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -88,7 +88,7 @@ namespace cxon { namespace cio { namespace num { // read
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
-                            if (c == '"') {
+                            if (c == X::string::del) {
                                 ;                               CXON_READ()
                                 if (is_sign_<T>(c))             CXON_NEXT()
                                 if (c == 'i') {
@@ -100,7 +100,7 @@ namespace cxon { namespace cio { namespace num { // read
                                     CXON_NEXT() if (c != 'n')   return 0;
                                 }
                                 else                            return 0;
-                                CXON_NEXT() if (c != '"')       return 0;
+                                CXON_NEXT() if (c != X::string::del)       return 0;
                                 CXON_NEXT()                     goto trap_end;
                             }
                         }
@@ -158,7 +158,7 @@ namespace cxon { namespace cio { namespace num { // read
             {   // as in RFC7159
                 char c = peek(i, e);
                     CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
-                        if (c == '"') {
+                        if (c == X::string::del) {
                             ;                           c = next(i, e);
                             if (is_sign_<T>(c))         c = next(i, e);
                             if (c == 'i') {
@@ -170,7 +170,7 @@ namespace cxon { namespace cio { namespace num { // read
                                 if (next(i, e) != 'n')  return 0;
                             }
                             else                        return 0;
-                            if (next(i, e) != '"')      return 0;
+                            if (next(i, e) != X::string::del)      return 0;
                             return ++i, 1;
                         }
                     }
@@ -263,17 +263,17 @@ namespace cxon { namespace cio { namespace num { // read
             inline charconv::imp::from_chars_result from_chars_(const char* b, const char* e, T& t) noexcept {
                 if (e - b >= 3) {
                     CXON_IF_CONSTEXPR (!X::allow_javascript_nans) {
-                        if (b[0] == '"') {
+                        if (b[0] == X::string::del) {
                             auto s = b[1] == '-' ? ++b + 1 : ++b;
                             switch (s[0]) {
                                 case 'i':
-                                    if (e - s >= 4 && s[1] == 'n' && s[2] == 'f' && s[3] == '"') {
+                                    if (e - s >= 4 && s[1] == 'n' && s[2] == 'f' && s[3] == X::string::del) {
                                         t = s != b ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
                                         return charconv::imp::from_chars_result{ s + 4, std::errc() };
                                     }
                                     break;
                                 case 'n':
-                                    if (e - s >= 4 && s[1] == 'a' && s[2] == 'n' && s[3] == '"') {
+                                    if (e - s >= 4 && s[1] == 'a' && s[2] == 'n' && s[3] == X::string::del) {
                                         t = s != b ? -std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::quiet_NaN();
                                         return charconv::imp::from_chars_result{ s + 4, std::errc() };
                                     }
-- 
2.43.0


From 72880cd51a3c6c84991c6918e7a8caab44510d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:41 +0000
Subject: [PATCH 48/67] fix: a stray slash after a comment is ignored, and the
 stack overflows on many comments in a row

---
 src/cxon/lang/common/cio/io.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 5b00151..116bde9 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -115,8 +115,7 @@ namespace cxon { namespace cio { // input
             }
         template <typename X, typename II>
             inline auto consume_(II& i, II e) -> enable_if_t< X::allow_comments, bool> {
-                consume_ws_<X>(i, e);
-                if (peek(i, e) == '/') {
+                for (consume_ws_<X>(i, e); peek(i, e) == '/'; consume_ws_<X>(i, e)) {
                     switch (next(i, e)) {
                         case '*':
                             for (++i; i != e; )
@@ -130,7 +129,6 @@ namespace cxon { namespace cio { // input
                         default:
                             return false;
                     }
-                    consume_<X>(i, e);
                 }
                 return true;
             }
-- 
2.43.0


From 4a95111639122b4c05258de83fb02fb6276d77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:16 +0000
Subject: [PATCH 49/67] fix: reading a class succeeds and fails at once when
 the end follows a broken comment

---
 src/cxon/lang/common/cio/class.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index da7afc9..7981cb0 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -327,7 +327,7 @@ namespace cxon { namespace cio { namespace cls {
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (cnt::consume_sep<X, typename X::map>(i, e, cx))
                             continue;
-                    return consume<X>(X::map::end, i, e, cx);
+                    return !cx.ec && consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
             }
-- 
2.43.0


From 5658554798714e9119f0523008153e6337248f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:16 +0000
Subject: [PATCH 50/67] fix: skipped scalars go on to the next separator when
 whitespace or a comment ends them

---
 src/cxon/lang/common/cio/value.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 1b9e2be..1e55b46 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -95,9 +95,12 @@ namespace cxon { namespace cio { namespace val {
                                 if (*i == X::map::sep)      return true;
                                 CXON_IF_CONSTEXPR (X::list::sep != X::map::sep)
                                     if (*i == X::list::sep) return true;
+                                CXON_IF_CONSTEXPR (X::allow_comments)
+                                    if (*i == '/')          return true;
+                                if (chr::is<X>::space(*i))  return true;
                                 CXON_POKE(o, *i);
                             }
-                            return false;
+                            return true;
                         }
 #               undef CXON_POKE
             };
-- 
2.43.0


From e46466205755950b02af9b86e6b1266d14fc7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:08 +0000
Subject: [PATCH 51/67] fix: comments in skipped values hide the end of the
 value

---
 src/cxon/lang/common/cio/value.hxx | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 1e55b46..49c4fe6 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -54,8 +54,20 @@ namespace cxon { namespace cio { namespace val {
                         static bool skip_cnt_(O& o, II& i, II e) {
                             if (!poke(o, *i)) return false;
                             unsigned r = 0;
+                            char p = CB; // previous
                             for (++i; i != e; ++i) {
-                                switch (*i) {
+                                CXON_IF_CONSTEXPR (X::allow_comments) {
+                                    if (*i == '/' && may_skip_com_(p)) {
+                                        CXON_POKE(o, *i);
+                                        if (++i == e) return false;
+                                        if (*i == '*' || *i == '/') {
+                                            if (!skip_com_(o, i, e)) return false;
+                                            p = ' ';
+                                            continue;
+                                        }
+                                    }
+                                }
+                                switch (p = *i) {
                                     case CB:                CXON_POKE(o, *i);
                                                             ++r; break;
                                     case CE:                CXON_POKE(o, *i);
@@ -68,6 +80,21 @@ namespace cxon { namespace cio { namespace val {
                             }
                             return false;
                         }
+                    static bool may_skip_com_(char p) { // keys without quotes may hold slashes
+                        return  !X::unquote_quoted_keys || chr::is<X>::space(p) || p == X::string::del ||
+                                p == X::map::beg  || p == X::map::end  || p == X::map::sep || p == X::map::div ||
+                                p == X::list::beg || p == X::list::end || p == X::list::sep
+                        ;
+                    }
+                    template <typename O, typename II>
+                        static bool skip_com_(O& o, II& i, II e) {
+                            char const c = *i; CXON_POKE(o, c);
+                            for (char p = ' '; ++i != e; p = *i) {
+                                CXON_POKE(o, *i);
+                                if (c == '*' ? p == '*' && *i == '/' : *i == '\n') return true;
+                            }
+                            return false;
+                        }
                     template <typename O, typename II>
                         static bool skip_str_(O& o, II& i, II e) {
                             return skip_s_(o, i, e) && (++i, true);
-- 
2.43.0


From d935bcb30acf90fc2755005f5884cc390d288e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:49 +0000
Subject: [PATCH 52/67] fix: indenting into a range starts over at its
 beginning with each string, number or key

---
 src/cxon/lang/json/tidy.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index c006265..9446fdd 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -207,22 +207,22 @@ namespace cxon { namespace json {
                 }
 
             bool append(const char* f, const char* l) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, f, l);
                 });
             }
             bool append(const char* s, std::size_t n) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s, n);
                 });
             }
             bool append(const char* s) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s);
                 });
             }
             bool append(unsigned n, char c) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, n, c);
                 });
             }
-- 
2.43.0


From 45918aa2f92240d9061ff00b9d5e638fd72d2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 53/67] fix: indenting goes on after a failure to write the
 indentation, success with another text is possible

---
 src/cxon/lang/json/tidy.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index 9446fdd..86ce856 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -157,7 +157,9 @@ namespace cxon { namespace json {
                             case '}': case ']':
                                 break;
                             default:
-                                mut(stt::grn),   poke(o_, '\n') && poke(o_, lvl_, pad_);
+                                mut(stt::grn);
+                                if (!poke(o_, '\n') || !poke(o_, lvl_, pad_))
+                                    return false;
                         }
                         break;
                 }
-- 
2.43.0


From b784f1deb34fef18c2047008d3a617e38471873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:48 +0000
Subject: [PATCH 54/67] fix: nodes assigned from lists of pairs keep the
 members they had

---
 src/cxon/lang/cbor/node/node.hxx | 2 +-
 src/cxon/lang/json/node/node.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index ef334a2..151a992 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -345,7 +345,7 @@ namespace cxon { namespace cbor { // node
                         return e.template is<array>() && e.template get<array>().size() == 2;
                     });
                     if (obj) {
-                        auto& o = imbue<map>();
+                        auto& o = imbue<map>(); o.clear();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, {a[0], a[1]});
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index d9255a0..cce02ce 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -285,7 +285,7 @@ namespace cxon { namespace json { // node
                         return e.template is<array>() && e.template get<array>().size() == 2;
                     });
                     if (obj) {
-                        auto& o = imbue<object>();
+                        auto& o = imbue<object>(); o.clear();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, { a[0], a[1] });
-- 
2.43.0


From 2be64d9669c3a6df8b52dcbd3b9b3262edc0ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:10 +0000
Subject: [PATCH 55/67] fix: nodes assigned from C strings of their own parts
 use freed memory

---
 src/cxon/lang/cbor/node/node.hxx | 3 ++-
 src/cxon/lang/json/node/node.hxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 151a992..5e71789 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -414,7 +414,8 @@ namespace cxon { namespace cbor { // node
                     value::construct<text>(*this, s);
                 }
                 basic_node& operator =(const typename text::value_type* s) {
-                    return imbue<text>() = s, *this;
+                    text t(s); // 's' may be a part of the node
+                    return imbue<text>() = std::move(t), *this;
                 }
 
             void reset() noexcept {
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index cce02ce..aab86e0 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -354,7 +354,8 @@ namespace cxon { namespace json { // node
                     value::construct<string>(*this, s);
                 }
                 basic_node& operator =(const typename string::value_type* s) {
-                    return imbue<string>() = s, *this;
+                    string t(s); // 's' may be a part of the node
+                    return imbue<string>() = std::move(t), *this;
                 }
 
             void reset() noexcept {
-- 
2.43.0


From 4d266347daacd58081978c3edeaead16656faefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:39 +0000
Subject: [PATCH 56/67] fix: hashes of equal nodes with unordered maps depend
 on the order of the members

---
 src/cxon/lang/common/hash.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/hash.hxx b/src/cxon/lang/common/hash.hxx
index ca35cef..14fec40 100644
--- a/src/cxon/lang/common/hash.hxx
+++ b/src/cxon/lang/common/hash.hxx
@@ -55,14 +55,27 @@ namespace cxon {
         template <typename T>
             struct is_iterable_<T, void_t<typename T::const_iterator>>  : std::true_type {};
 
+        template <typename T, typename E = void_t<>>
+            struct is_unordered_                                        : std::false_type {};
+        template <typename T>
+            struct is_unordered_<T, void_t<typename T::hasher>>         : std::true_type {};
+
         template <typename T>
-            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value, std::size_t> {
+            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value && !is_unordered_<T>::value, std::size_t> {
                 hash<typename T::value_type> hs;
                 std::size_t s = 0;
                 for (auto& v: t)
                     s = make_hash(s, hs(v));
                 return s;
             }
+        template <typename T>
+            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value &&  is_unordered_<T>::value, std::size_t> {
+                hash<typename T::value_type> hs;
+                std::size_t s = 0;
+                for (auto& v: t) // the order is not significant
+                    s += hs(v);
+                return s;
+            }
         template <typename T>
             inline auto make_hash_(const T& t) noexcept -> enable_if_t<!is_iterable_<T>::value, std::size_t> {
                 return hash<T>()(t);
-- 
2.43.0


From 3e9cca720475b175818a85ba7237c0ced2731ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:00 +0000
Subject: [PATCH 57/67] fix: swapping nodes does not compile when the
 allocators propagate, and allocates

---
 src/cxon/lang/common/node-value.hxx | 58 ++++++-----------------------
 1 file changed, 12 insertions(+), 46 deletions(-)

diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index d235765..b23a747 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -224,55 +224,21 @@ namespace cxon { namespace value {
                         n.kind_ = node_kind_<T>::value;
                     }
             // swap
-                    template <typename T>
-                        static auto swap_(option<1>, T& f, T& s) -> decltype(f.swap(s), void()) {
-                            f.swap(s);
-                        }
-                    template <typename T>
-                        static auto swap_(option<0>, T& f, T& s) -> void {
-                            T t = std::move(f); f = std::move(s), s = std::move(t);
-                        }
-                    template <typename T>
-                        static void swap_(T& f, T& s) {
-                            swap_(option<1>(), f, s);
-                        }
-                    template <typename F, typename S>
-                        struct ndes_ {
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value &&  propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    auto a = std::move(f.alloc_);
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)), std::move(s.alloc_));
-                                    destruct<V>(s); construct<U>(s, std::move(t), std::move(a));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value && !propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)));
-                                    destruct<V>(s); construct<U>(s, std::move(t));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
-                    template <typename T>
-                        struct ndes_<T, T> {
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value &&  propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                    swap_(f.alloc_, s.alloc_);
-                                }
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
-                public:
+                static void swap_allocator_(std::true_type, N& n, N& o) noexcept    { n.alloc_ = std::move(o.alloc_); }
+                static void swap_allocator_(std::false_type, N&, N&) noexcept       {}
+                template <typename T>
+                    static void swap_(N& n, N& o) {
+                        n.reset(), swap_allocator_(propagate_on_container_swap(), n, o);
+                        move_construct<T>(n, std::move(o)), n.kind_ = node_kind_<T>::value;
+                    }
+            public:
 
                 template <typename F, typename S>
                     static void swap(N& f, N& s) {
-                        ndes_<F, S>::swap(f, s);
+                        if (&f != &s) {
+                            N t(std::move(f));
+                            swap_<S>(f, s), swap_<F>(s, t);
+                        }
                     }
         };
 
-- 
2.43.0


From 97a2e4490edee3edd79e83649f5a3d2082be9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:56 +0000
Subject: [PATCH 58/67] fix: values of tags do not use the allocators of their
 nodes

---
 src/cxon/lang/cbor/node/node.hxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 5e71789..767866d 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -681,6 +681,23 @@ namespace cxon { namespace cbor { // helpers
             {
             }
 
+            // the value uses the allocator
+                template <typename Al, typename U = T, typename = enable_if_t<std::is_constructible<U, const Al&>::value>>
+                    taggle(std::allocator_arg_t, const Al& al)
+                    :   tag(-1), value(al)
+                    {
+                    }
+                template <typename Al, typename U = T, typename = enable_if_t<std::is_constructible<U, U&&, const Al&>::value>>
+                    taggle(std::allocator_arg_t, const Al& al, taggle&& t)
+                    :   tag(t.tag), value(std::move(t.value), al)
+                    {
+                    }
+                template <typename Al, typename U = T, typename = enable_if_t<std::is_constructible<U, const U&, const Al&>::value>>
+                    taggle(std::allocator_arg_t, const Al& al, const taggle& t)
+                    :   tag(t.tag), value(t.value, al)
+                    {
+                    }
+
             ~taggle() = default;
 
             taggle(taggle&& t) noexcept(std::is_nothrow_move_constructible<T>::value)
-- 
2.43.0


From f100a119a55799f2256638a468da919f8211cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:42 +0000
Subject: [PATCH 59/67] fix: values assigned to nodes are copied with other
 allocators than those of the nodes

---
 src/cxon/lang/cbor/node/node.hxx | 8 ++++----
 src/cxon/lang/json/node/node.hxx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 767866d..8c213c7 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -308,13 +308,13 @@ namespace cxon { namespace cbor { // node
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
                     basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { T t(std::move(v)); return imbue<T>() = std::move(t), *this; } \
+                                                                        { basic_node t(std::move(v), alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
                     basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { T t(v); return imbue<T>() = std::move(t), *this; }
+                                                                        { basic_node t(v, alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; }
                 CXON_CBOR_TYPE_DEF(map);
                 CXON_CBOR_TYPE_DEF(array);
                 CXON_CBOR_TYPE_DEF(tag);
@@ -414,8 +414,8 @@ namespace cxon { namespace cbor { // node
                     value::construct<text>(*this, s);
                 }
                 basic_node& operator =(const typename text::value_type* s) {
-                    text t(s); // 's' may be a part of the node
-                    return imbue<text>() = std::move(t), *this;
+                    basic_node t(s, alloc_); // 's' may be a part of the node
+                    return imbue<text>() = std::move(t.template get<text>()), *this;
                 }
 
             void reset() noexcept {
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index aab86e0..e35f724 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -252,13 +252,13 @@ namespace cxon { namespace json { // node
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
                     basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { T t(std::move(v)); return imbue<T>() = std::move(t), *this; } \
+                                                                        { basic_node t(std::move(v), alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
                     basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { T t(v); return imbue<T>() = std::move(t), *this; }
+                                                                        { basic_node t(v, alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; }
                 CXON_JSON_TYPE_DEF(object)
                 CXON_JSON_TYPE_DEF(array)
                 CXON_JSON_TYPE_DEF(string)
@@ -354,8 +354,8 @@ namespace cxon { namespace json { // node
                     value::construct<string>(*this, s);
                 }
                 basic_node& operator =(const typename string::value_type* s) {
-                    string t(s); // 's' may be a part of the node
-                    return imbue<string>() = std::move(t), *this;
+                    basic_node t(s, alloc_); // 's' may be a part of the node
+                    return imbue<string>() = std::move(t.template get<string>()), *this;
                 }
 
             void reset() noexcept {
-- 
2.43.0


From 16d2f9fc081ae4b5e6f685d5e52f9f77ecb56404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:18 +0000
Subject: [PATCH 60/67] fix: moving to another allocator and creating integers
 in dynamic nodes terminate when memory fails

---
 src/cxon/lang/cbor/node/node.hxx    | 10 +++++-----
 src/cxon/lang/common/node-value.hxx | 14 ++++++++++++--
 src/cxon/lang/json/node/node.hxx    | 12 ++++++------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 8c213c7..87bfd84 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -195,7 +195,7 @@ namespace cxon { namespace cbor { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible_using_allocator<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
@@ -307,13 +307,13 @@ namespace cxon { namespace cbor { // node
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, std::move(v)); } \
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
-                    basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
+                    basic_node& operator =(T&& v)                       noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value && noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
                                                                         { basic_node t(std::move(v), alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
-                    basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
+                    basic_node& operator =(const T& v)                  noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value && noexcept(std::declval<basic_node&>().template imbue<T>() = std::declval<T>())) \
                                                                         { basic_node t(v, alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; }
                 CXON_CBOR_TYPE_DEF(map);
                 CXON_CBOR_TYPE_DEF(array);
@@ -372,13 +372,13 @@ namespace cxon { namespace cbor { // node
                 public:
             // integrals
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t) noexcept
+                    basic_node(T t) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value)
                     {
                         value::construct<int_type_<T>>(*this, t);
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t, const allocator_type& al) noexcept
+                    basic_node(T t, const allocator_type& al) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value), alloc_(al)
                     {
                         value::construct<int_type_<T>>(*this, t);
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index b23a747..d3fe38d 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -58,6 +58,8 @@ namespace cxon { namespace value {
 
         template <typename N>
             using is_nothrow_move_constructible = typename controller<N>::is_nothrow_move_constructible;
+        template <typename N>
+            using is_nothrow_move_constructible_using_allocator = typename controller<N>::is_nothrow_move_constructible_using_allocator;
         template <typename N>
             using is_nothrow_move_assignable    = typename controller<N>::is_nothrow_move_assignable;
 
@@ -86,9 +88,17 @@ namespace cxon { namespace value {
                 using has_dynamic_types             = type_sequence_disjunction<N::template is_dynamic_type_, dynamic_types>;
 
                 template <typename T, typename ...A>
-                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value>;
+                    using is_nothrow_constructible  = bool_constant<
+                        !is_dynamic_type<T>::value &&
+                        conditional_t<
+                            std::uses_allocator<T, allocator_type>::value,
+                                std::is_nothrow_constructible<T, A&&..., const allocator_type&>,
+                                std::is_nothrow_constructible<T, A&&...>
+                        >::value
+                    >;
 
                 using is_nothrow_move_constructible = bool_constant<type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value>;
+                using is_nothrow_move_constructible_using_allocator = bool_constant<is_nothrow_move_constructible::value && std::is_empty<allocator_type>::value>; // copies if not equal
                 using is_nothrow_move_assignable    = bool_constant<
                     !has_dynamic_types::value &&
                     type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value &&
@@ -177,7 +187,7 @@ namespace cxon { namespace value {
                     }
             // construct
                 template <typename T, typename ...A>
-                    static auto construct(N& n, A&&... t) noexcept(std::is_nothrow_constructible<T, A&&...>::value)
+                    static auto construct(N& n, A&&... t) noexcept(is_nothrow_constructible<T, A&&...>::value)
                         ->  enable_if_t<!is_dynamic_type<T>::value>
                     {
                         alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::forward<A>(t)...);
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index e35f724..5c3634d 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -160,7 +160,7 @@ namespace cxon { namespace json { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible_using_allocator<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
@@ -251,13 +251,13 @@ namespace cxon { namespace json { // node
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, std::move(v)); } \
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
-                    basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
+                    basic_node& operator =(T&& v)                       noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value && noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
                                                                         { basic_node t(std::move(v), alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
-                    basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
+                    basic_node& operator =(const T& v)                  noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value && noexcept(std::declval<basic_node&>().template imbue<T>() = std::declval<T>())) \
                                                                         { basic_node t(v, alloc_); return imbue<T>() = std::move(t.template get<T>()), *this; }
                 CXON_JSON_TYPE_DEF(object)
                 CXON_JSON_TYPE_DEF(array)
@@ -312,19 +312,19 @@ namespace cxon { namespace json { // node
                 public:
             // integral
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t) noexcept
+                    basic_node(T t) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value)
                     {
                         value::construct<int_type_<T>>(*this, t);
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node(T t, const allocator_type& al) noexcept
+                    basic_node(T t, const allocator_type& al) noexcept(value::is_nothrow_constructible<basic_node, int_type_<T>, T&>::value)
                     :   kind_(int_kind_<T>::value), alloc_(al)
                     {
                         value::construct<int_type_<T>>(*this, t);
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
-                    basic_node& operator =(T t) noexcept {
+                    basic_node& operator =(T t) noexcept(noexcept(std::declval<basic_node&>().template imbue<int_type_<T>>())) {
                         return imbue<int_type_<T>>() = t, *this;
                     }
             // std::nullptr_t
-- 
2.43.0


From 651546c73fc65c550546a80064e3a167315bca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:33 +0000
Subject: [PATCH 61/67] fix: keys of maps are copied when read, with other
 allocators than those of the maps

---
 src/cxon/lang/common/container.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 000b089..4299e45 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -171,8 +171,8 @@ namespace cxon { namespace cnt {
         template <typename F, typename S>
             struct using_allocator_of_<std::pair<F, S>> {
                 template <typename C, typename ...A>
-                    static auto emplace(C& c, A&&... as) -> std::pair<F, S>& {
-                        return emplace_(option<5>(), c, alc::create_using_allocator_of<std::pair<F, S>>(c, std::forward<A>(as)...));
+                    static auto emplace(C& c, A&&... as) -> std::pair<F, S>& { // a constant key would be copied
+                        return emplace_(option<5>(), c, alc::create_using_allocator_of<std::pair<typename std::remove_const<F>::type, S>>(c, std::forward<A>(as)...));
                     }
             };
 
-- 
2.43.0


From cbd2513d187578df46f70823b21b0fa0f0427809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:43 +0000
Subject: [PATCH 62/67] fix: nodes constructed from lists are lost when memory
 fails

---
 src/cxon/lang/cbor/node/node.hxx | 4 ++--
 src/cxon/lang/json/node/node.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 87bfd84..4625f20 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -331,12 +331,12 @@ namespace cxon { namespace cbor { // node
 
             // map if empty or array(s) of two elements, array otherwise
                 basic_node(std::initializer_list<basic_node> l)
-                :   kind_(node_kind::undefined)
+                :   basic_node()
                 {
                     *this = l;
                 }
                 basic_node(std::initializer_list<basic_node> l, const allocator_type& al)
-                :   kind_(node_kind::undefined), alloc_(al)
+                :   basic_node(al)
                 {
                     *this = l;
                 }
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5c3634d..56b07e0 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -271,12 +271,12 @@ namespace cxon { namespace json { // node
 
             // object if empty or array(s) of two elements, array otherwise
                 basic_node(std::initializer_list<basic_node> l)
-                :   kind_(node_kind::null)
+                :   basic_node()
                 {
                     *this = l;
                 }
                 basic_node(std::initializer_list<basic_node> l, const allocator_type& al)
-                :   kind_(node_kind::null), alloc_(al)
+                :   basic_node(al)
                 {
                     *this = l;
                 }
-- 
2.43.0


From 3f8f6a46f3d29393c74a3b18e40c004862fabbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 63/67] fix: containers of containers with std::pmr allocators
 do not compile when read

---
 src/cxon/lang/common/allocator.hxx | 4 ++++
 src/cxon/lang/common/container.hxx | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index f3bff82..4a0b4a1 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -159,6 +159,10 @@ namespace cxon { namespace alc {
                             using_allocator_<S>::create(al, std::forward<AS>(as))
                         );
                     }
+                template <typename Al, typename AF, typename AS>
+                    static constexpr std::pair<F, S> create(const Al& al, std::pair<AF, AS>&& p) {
+                        return create(al, std::forward<AF>(p.first), std::forward<AS>(p.second));
+                    }
                 template <typename T, typename Al, typename Tp, std::size_t ...I>
                     static constexpr T create_with_(const Al& al, Tp&& tp, index_sequence<I...>) {
                         return using_allocator_<T>::create(al, std::forward<typename std::tuple_element<I, Tp>::type>(std::get<I>(tp))...);
diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 4299e45..ac1e888 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -153,11 +153,11 @@ namespace cxon { namespace cnt {
             struct using_allocator_of_ {
                 template <typename C, typename ...A>
                     static auto emplace_(option<2>, C& c, A&&... as) -> decltype(T {std::forward<A>(as)..., c.get_allocator()})& {
-                        return imp::emplace_(option<5>(), c, std::forward<A>(as)..., c.get_allocator());
+                        return imp::emplace_(option<5>(), c, T(std::forward<A>(as)..., c.get_allocator())); // some allocators (e.g. std::pmr) add themselves
                     }
                 template <typename C, typename ...A>
                     static auto emplace_(option<1>, C& c, A&&... as) -> decltype(T {std::allocator_arg, c.get_allocator(), std::forward<A>(as)...})& {
-                        return imp::emplace_(option<5>(), c, std::allocator_arg, c.get_allocator(), std::forward<A>(as)...);
+                        return imp::emplace_(option<5>(), c, T(std::allocator_arg, c.get_allocator(), std::forward<A>(as)...));
                     }
                 template <typename C, typename ...A>
                     static auto emplace_(option<0>, C& c, A&&... as) -> decltype(T {std::forward<A>(as)...})& {
-- 
2.43.0


From ba57ac25f3529527941dfc3b6bbd7aa52a208857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:21 +0000
Subject: [PATCH 64/67] fix: reading into a static_vector that is not empty
 throws when it is full

---
 src/cxon/lang/json/lib/boost/container/static_vector.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/container/static_vector.hxx b/src/cxon/lang/json/lib/boost/container/static_vector.hxx
index 9bb0d8c..7a7e1d8 100644
--- a/src/cxon/lang/json/lib/boost/container/static_vector.hxx
+++ b/src/cxon/lang/json/lib/boost/container/static_vector.hxx
@@ -19,9 +19,8 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = JSON<X>>
                 static bool value(boost::container::static_vector<T, N>& t, II& i, II e, Cx& cx) {
                     II const o = i;
-                        std::size_t p = 0;
                     return cio::cnt::read_list<Y>(i, e, cx, [&] {
-                        if (++p <= N)
+                        if (t.size() < N)
                             return read_value<Y>(cnt::emplace(t), i, e, cx);
                         return cio::rewind(i, o), cx/json::read_error::overflow;
                     });
-- 
2.43.0


From ab5c47f29aa9d150b72b1f718b2f710826d3f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:21 +0000
Subject: [PATCH 65/67] fix: enough room for numbers with precision above
 max_digits10

---
 src/cxon/lang/common/cio/numeric.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index a44f6d5..ee15433 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -380,8 +380,8 @@ namespace cxon { namespace cio { namespace num { // write
         template <typename X, typename T, typename O, typename Cx>
             inline auto number_write_(O& o, T t, Cx& cx) -> enable_if_t<std::is_floating_point<T>::value, bool> {
                 if (std::isfinite(t)) {
-                    char s[max_size_<T>::value + 1]; // +1 because of the fall-back implementation (snprintf)
-                        constexpr auto fpp = fp_precision::constant<napa_type<Cx>>(std::numeric_limits<T>::max_digits10);
+                    constexpr auto fpp = fp_precision::constant<napa_type<Cx>>(std::numeric_limits<T>::max_digits10);
+                    char s[max_size_<T>::value + (fpp > std::numeric_limits<T>::max_digits10 ? fpp - std::numeric_limits<T>::max_digits10 : 0) + 1]; // +1 because of the fall-back implementation (snprintf)
                         auto const r = charconv::to_chars(std::begin(s), std::end(s), t, fpp); CXON_ASSERT(r.ec == std::errc(), "unexpected");
                     return poke<X>(o, s, r.ptr, cx);
                 }
-- 
2.43.0


From 09b9a096f37f41a9a2c27494cf0e75d818bbf565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:21 +0000
Subject: [PATCH 66/67] fix: names longer than the buffer for keys are compared
 within it

---
 src/cxon/lang/common/cio/class.hxx | 39 +++++++++++++++---------------
 src/cxon/lang/common/cio/enum.hxx  |  4 ++-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 7981cb0..86171b2 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -10,6 +10,7 @@
 #include "key.hxx"
 #include "value.hxx"
 #include <tuple>
+#include <algorithm>
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -245,63 +246,63 @@ namespace cxon { namespace cio { namespace cls {
                 template <typename X, std::size_t N, std::size_t L>
                     struct read_ {
                         template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
-                            static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
+                            static auto field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t< Y::assume_unique_object_keys, bool>
                             {
-                                return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return st[N] == 0 && std::get<N>(fs).nale == nale && std::char_traits<char>::compare(std::get<N>(fs).name, name, nale) == 0 ?
                                     (st[N] = 1, read_field_<Y>(t, std::get<N>(fs), i, e, cx)) :
-                                    read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                                    read_<Y, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                                 ;
                             }
                         template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
-                            static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
+                            static auto field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t<!Y::assume_unique_object_keys, bool>
                             {
-                                return std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return std::get<N>(fs).nale == nale && std::char_traits<char>::compare(std::get<N>(fs).name, name, nale) == 0 ?
                                     read_field_<Y>(t, std::get<N>(fs), i, e, cx) :
-                                    read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                                    read_<Y, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                                 ;
                             }
                     };
                 template <typename X, std::size_t N>
                     struct read_<X, N, N> {
                         template <typename T, typename Fs, typename II, typename Cx>
-                            static constexpr bool field(T&, const char*, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
+                            static constexpr bool field(T&, const char*, std::size_t, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
                                 return false;
                             }
                     };
 
             }
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N>
-                inline bool read_field_(option<0>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+                inline bool read_field_(option<0>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                     //CXON_IF_CONSTEXPR (has_traits<X, ordered_keys_traits>::value && N > 8)
                     //    return imp::read_ordered_<X, 0, N - 1>::field(t, name, fs, st, i, e, cx);
-                    return imp::read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
+                    return imp::read_<X, 0, N>::field(t, name, nale, fs, st, i, e, cx);
                 }
 
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field in cxon namespace
-                inline auto read_field_(option<1>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                inline auto read_field_(option<1>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
                     -> decltype(read_field<X>(name, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return read_field<X>(name, std::char_traits<char>::length(name), i, e, cx);
+                    return read_field<X>(name, nale, i, e, cx);
                 }
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field static method of T
-                inline auto read_field_(option<2>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                inline auto read_field_(option<2>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
                     -> decltype(T::template read_field<X>(t, name, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return T::template read_field<X>(t, name, std::char_traits<char>::length(name), i, e, cx);
+                    return T::template read_field<X>(t, name, nale, i, e, cx);
                 }
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field method of T
-                inline auto read_field_(option<3>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                inline auto read_field_(option<3>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
                     -> decltype(t.template read_field<X>(name, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return t.template read_field<X>(name, std::char_traits<char>::length(name), i, e, cx);
+                    return t.template read_field<X>(name, nale, i, e, cx);
                 }
         }
         template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N>
-            inline bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+            inline bool read_field_(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                 using Y = unbind_traits_t<X, cio::key::simple_traits>;
-                return imp::read_field_<Y>(option<3>(), t, name, fs, st, i, e, cx);
+                return imp::read_field_<Y>(option<3>(), t, name, nale, fs, st, i, e, cx);
             }
 
         template <typename X, typename T, typename ...Fs, typename II, typename Cx>
@@ -323,7 +324,7 @@ namespace cxon { namespace cio { namespace cls {
                     II const o = i;
                         if (!read_map_key<X>(id, i, e, cx))
                             return rewind(i, o), false;
-                        if (!read_field_<X>(t, id, fs, st, i, e, cx))
+                        if (!read_field_<X>(t, id, std::find(std::begin(id), std::end(id), '\0') - std::begin(id), fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (cnt::consume_sep<X, typename X::map>(i, e, cx))
                             continue;
@@ -344,7 +345,7 @@ namespace cxon { namespace cio { namespace cls {
                     II const o = i;
                         if (!read_map_key<X>(id, i, e, cx))
                             return false;
-                        if (!read_field_<X>(t, id, fs, st, i, e, cx))
+                        if (!read_field_<X>(t, id, std::find(std::begin(id), std::end(id), '\0') - std::begin(id), fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (!consume<X>(i, e, cx))
                             return false;
diff --git a/src/cxon/lang/common/cio/enum.hxx b/src/cxon/lang/common/cio/enum.hxx
index cad694f..38b1ddb 100644
--- a/src/cxon/lang/common/cio/enum.hxx
+++ b/src/cxon/lang/common/cio/enum.hxx
@@ -7,6 +7,7 @@
 #define CXON_CIO_ENUM_HXX_
 
 #include "cio.hxx"
+#include <algorithm>
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -52,7 +53,8 @@ namespace cxon { namespace cio { namespace enm {
             char id[ids_len_max::constant<napa_type<Cx>>(64)];
                 if (!cxon::read_value<X>(id, i, e, cx))
                     return false;
-            for ( ; f != l && std::char_traits<char>::compare(f->name, id, f->nale + 1) != 0; ++f)
+            std::size_t const nale = std::find(std::begin(id), std::end(id), '\0') - std::begin(id);
+            for ( ; f != l && (f->nale != nale || std::char_traits<char>::compare(f->name, id, nale) != 0); ++f)
                 ;
             return  (f != l && (t = f->value, true)) ||
                     (rewind(i, o), cx/X::read_error::unexpected);
-- 
2.43.0


From b60f9babeb59c862943f972b12cd7c3867985e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:07 +0000
Subject: [PATCH 67/67] fix: forward and input iterators with strings before
 C++17

---
 src/cxon/lang/common/cio/char.hxx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index f3b6cc5..c5b1720 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -152,6 +152,10 @@ namespace cxon { namespace cio { namespace chr {
 
     namespace imp {
 
+        template <typename II>
+            inline auto has_(II  , II  , int  ) -> enable_if_t<!is_random_access_iterator<II>::value, bool> { return true; }
+        template <typename II>
+            inline auto has_(II i, II e, int n) -> enable_if_t< is_random_access_iterator<II>::value, bool> { return e - i >= n; }
         template <typename II>
             inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
         template <typename II>
@@ -307,8 +311,7 @@ namespace cxon { namespace cio { namespace chr {
             //    return 1;
             // 2
             if (c0 < 0xE0) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 2) return 0;
+                if (!imp::has_(i, e, 2)) return 0;
                 if (c0 >= 0xC2 && c0 <= 0xDF) {
                     c1 = imp::head_(i, e);
                     if (c1 >= 0x80 && c1 <= 0xBF)
@@ -317,8 +320,7 @@ namespace cxon { namespace cio { namespace chr {
             }
             // 3
             else if (c0 < 0xF0) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 3) return 0;
+                if (!imp::has_(i, e, 3)) return 0;
                 if (c0 == 0xE0) {
                     c1 = imp::head_(i, e), c2 = imp::tail_(i, e);
                     if (c1 >= 0xA0 && c1 <= 0xBF && c2 >= 0x80 && c2 <= 0xBF)
@@ -342,8 +344,7 @@ namespace cxon { namespace cio { namespace chr {
             }
             // 4
             else if (c0 < 0xF8) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 4) return 0;
+                if (!imp::has_(i, e, 4)) return 0;
                 if (c0 == 0xF0) {
                     c1 = imp::head_(i, e), c2 = imp::tail_(i, e), c3 = imp::tail_(i, e);
                     if (c1 >= 0x90 && c1 <= 0xBF && c2 >= 0x80 && c2 <= 0xBF && c3 >= 0x80 && c3 <= 0xBF)
-- 
2.43.0


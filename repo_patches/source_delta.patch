From eb6e4c67f013e6fcecd3953c82fc69572381fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 01/39] fix: UTF-8 to UTF-8 transcode_size rejected a limit
 equal to the size needed

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..cebb5e1 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From 504965b6473ef0337f487a52d5d44aed35f84cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 02/39] fix: UTF-8 to UTF-32 unsafe_transcode_size stopped in
 the middle of a code point

---
 include/strf/detail/utf.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index cebb5e1..511f83a 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,11 +1671,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
-                return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
-            }
             const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
+            if (detail::not_utf8_continuation(ch)) {
+                if (size >= limit){
+                    return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
+                }
+                ++size;
+            }
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From 3f2178a525be8ea0d78222c1deda8710d7dd3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 03/39] fix: single-byte charsets:
 find_first_valid_but_unsupported_codepoint took U+D800 and 0x110000 for valid
 code points

---
 include/strf/detail/single_byte_charsets.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..dbbfa09 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( (*it < 0xD800 || (0xE000 <= *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( (*it < 0xD800 || (0xE000 <= *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
-- 
2.43.0


From eed314f526b87a428ee8e4c41e046e4bdd3252c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 04/39] fix: windows-1258 encoded U+009F as 0x9F, which is
 U+0178 there

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index dbbfa09..cfeb407 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2399,7 +2399,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From 18b70023f1be92b7b6c867c148f2d60b333ebab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 05/39] fix: writing to an already truncated cstr/array
 destination moved the latched end pointer

---
 include/strf/destination.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..42fba57 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -381,7 +381,9 @@ private:
             *ptr = *data;
         }
 #endif
-        it_ = this->buffer_end();
+        if (this->good()) {
+            it_ = this->buffer_end();
+        }
         this->set_buffer_ptr(garbage_buff<CharT>());
         this->set_buffer_end(garbage_buff_end<CharT>());
         this->set_good(false);
@@ -516,7 +518,9 @@ private:
             *ptr = *data;
         }
 #endif
-        it_ = this->buffer_end();
+        if (this->good()) {
+            it_ = this->buffer_end();
+        }
         this->set_buffer_ptr(garbage_buff<CharT>());
         this->set_buffer_end(garbage_buff_end<CharT>());
         this->set_good(false);
-- 
2.43.0


From 5141a027bd0958468e7d09c900a65833c81e1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 06/39] fix: streambuf_writer kept writing after a short sputn

---
 include/strf/to_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..cc83b05 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,7 +86,9 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
+            if (count_inc == count) {
+                count_inc += dst_.sputn(str,  str_slen);
+            }
             count_ += count_inc;
             this->set_good(count_inc == count + str_slen);
         }
-- 
2.43.0


From afee6a77a022885bdf93c402f2bf53887084efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 07/39] fix: basic_sized_string_maker::finish left the
 destination in good state

---
 include/strf/to_string.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index d769397..77a2491 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -225,6 +225,10 @@ public:
 
     void recycle() override
     {
+        STRF_IF_UNLIKELY ( ! this->good()) {
+            this->set_buffer_ptr(strf::garbage_buff<CharT>());
+            return;
+        }
         const auto original_size = detail::safe_cast_size_t(this->buffer_ptr() - str_.data());
         constexpr std::size_t min_buff_size = strf::min_destination_buffer_size;
         auto append_size = strf::detail::max<std::size_t>(original_size, min_buff_size);
@@ -235,7 +239,13 @@ public:
 
     std::basic_string<CharT, Traits, Allocator> finish()
     {
+        STRF_IF_UNLIKELY ( ! this->good()) {
+            return {};
+        }
+        this->set_good(false);
         str_.resize(detail::safe_cast_size_t(this->buffer_ptr() - str_.data()));
+        this->set_buffer_ptr(strf::garbage_buff<CharT>());
+        this->set_buffer_end(strf::garbage_buff_end<CharT>());
         return std::move(str_);
     }
 
-- 
2.43.0


From 9e4543e0dfd5464e1b79c521981cffaacdf122c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 08/39] fix: negative wchar_t units are invalid UTF-32, not
 valid or merely unsupported code points

---
 include/strf/detail/single_byte_charsets.hpp | 26 ++++++++++----------
 include/strf/detail/utf.hpp                  |  8 +++---
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index cfeb407..5d6501e 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,14 +143,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +159,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +168,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +188,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +198,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +222,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it < 0xD800 || (0xE000 <= *it && *it <= 0x10FFFF))
+                    if ( (detail::cast_u32(*it) < 0xD800 || (0xE000 <= *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it < 0xD800 || (0xE000 <= *it && *it <= 0x10FFFF))
+                if ( (detail::cast_u32(*it) < 0xD800 || (0xE000 <= *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2664,7 +2664,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
             const bool is_invalid =
-                ( *src >= 0x110000
+                ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
                  && *src <= 0xFFFF));
diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 511f83a..e8913df 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3012,13 +3012,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3027,7 +3027,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3036,7 +3036,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From 6aff4b072df25f80edf7a74eaee7f06e085c7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 09/39] fix: streambuf_writer::recycle stayed good when sputn
 threw

---
 include/strf/to_streambuf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index cc83b05..9526ff5 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -51,6 +51,7 @@ public:
         const std::streamsize count = this->buffer_ptr() - buf_;
         this->set_buffer_ptr(buf_);
         STRF_IF_LIKELY (this->good()) {
+            this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
             count_ += count_inc;
             this->set_good(count_inc == count);
-- 
2.43.0


From 73a35c2c5d2946e983adeb3f7f0888412a98a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 10/39] fix: throwing destinations terminated the program
 inside noexcept float, fill and replacement-char printers

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++--------
 include/strf/detail/single_byte_charsets.hpp  |  2 +-
 include/strf/detail/utf.hpp                   |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..7769b31 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2310,16 +2310,16 @@ public:
 private:
 
     STRF_HD void print_fixed_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_scientific_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_hexadecimal_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_inf_or_nan_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     strf::encode_char_f<CharT> encode_char_ = nullptr;
     strf::encode_fill_f<CharT> encode_fill_;
@@ -2359,7 +2359,7 @@ STRF_HD void punct_double_printer<CharT>::operator()
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_fixed_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2457,7 +2457,7 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_scientific_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2473,7 +2473,7 @@ STRF_HD void punct_double_printer<CharT>::print_scientific_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     const auto sub_size = data_.sub_chars_count + decimal_point_size_ - data_.showpoint;
     STRF_ASSERT(data_.showpoint == (decimal_point_size_ != 0));
@@ -2539,7 +2539,7 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_inf_or_nan_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 5d6501e..9d1c2be 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2924,7 +2924,7 @@ public:
     {
         return 1;
     }
-    static STRF_HD void write_replacement_char(strf::transcode_dst<CharT>& dst) noexcept
+    static STRF_HD void write_replacement_char(strf::transcode_dst<CharT>& dst)
     {
         strf::put(dst, static_cast<CharT>('?'));
     }
diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index e8913df..a2e4025 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -28,7 +28,7 @@ inline STRF_HD void repeat_sequence
     ( strf::transcode_dst<CharT>& dst
     , std::ptrdiff_t count
     , CharT ch0
-    , CharT ch1 ) noexcept
+    , CharT ch1 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 2;
@@ -61,7 +61,7 @@ inline STRF_HD void repeat_sequence
     , std::ptrdiff_t count
     , CharT ch0
     , CharT ch1
-    , CharT ch2 ) noexcept
+    , CharT ch2 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 3;
@@ -96,7 +96,7 @@ inline STRF_HD void repeat_sequence
     , CharT ch0
     , CharT ch1
     , CharT ch2
-    , CharT ch3 ) noexcept
+    , CharT ch3 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 4;
-- 
2.43.0


From 76e9e08c773653f009554e98a789d4a1dd0ee1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 11/39] fix: windows-1254 encoded U+00D0, U+00DD, U+00DE,
 U+00F0, U+00FD and U+00FE as other characters' bytes

---
 include/strf/detail/single_byte_charsets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 9d1c2be..8987db3 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2033,6 +2033,8 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x20AC: return 0x80;
         case 0x2122: return 0x99;
         case 0xFFFD: return '?';
+        case 0xD0: case 0xDD: case 0xDE: case 0xF0: case 0xFD: case 0xFE:
+            return 0x100; // these bytes are other characters in windows-1254
         default: return 0xA0 <= ch && ch <= 0xFF ? ch : 0x100;
     }
 }
-- 
2.43.0


From abd62065163a3b4b5af6df025e911ff0e6c69440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 12/39] fix: decode_unit of UTF-8 (signed char) and UTF-32
 returned invalid code points instead of U+FFFD

---
 include/strf/detail/utf.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index a2e4025..f4fccaf 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,8 +962,9 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
-            return static_cast<char32_t>(ch);
+        const auto uch = static_cast<std::uint8_t>(ch);
+        STRF_IF_LIKELY (uch < 0x80)
+            return static_cast<char32_t>(uch);
         return 0xFFFD;
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
@@ -1273,7 +1274,8 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        return static_cast<char32_t>(ch);
+        const auto ch32 = static_cast<char32_t>(ch);
+        return ch32 < 0x110000 ? ch32 : static_cast<char32_t>(0xFFFD);
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
     {
-- 
2.43.0


From 2de3281e129486ef23d0970cea18b0fef0562015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 13/39] fix: base(int) must keep the other integer format
 options

---
 include/strf/detail/printable_types/int.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..22d0b9d 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -779,9 +779,8 @@ public:
         , int_format_specifier_full_dynamic >
     base(int b) const
     {
-        int_format_full_dynamic data;
+        int_format_full_dynamic data = data_;
         data.base = b;
-        data.punctuate = Punctuate;
         return { *static_cast<const T*>(this)
                , strf::tag<int_format_specifier_full_dynamic>{}
                , data };
-- 
2.43.0


From 4f903e154510e242166d197f7a52c3e30740cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 14/39] fix: make int formats with a dynamic base convertible,
 so that they can be aligned

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 22d0b9d..ee43c70 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -878,7 +878,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From 31c5b3f446e9d4932b03813dc59b0a1ab26aff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 15/39] fix: reserve room for all digits of a signed integer,
 not for one

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index ee43c70..488734d 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1354,7 +1354,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From f76053757084f18dde0c325b2edce3dddcc39f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 16/39] fix: do not count separators that are not printed

---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 488734d..54d8a49 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1787,6 +1787,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
             data.sepsize = 0;
+            data.sepcount = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
         }
-- 
2.43.0


From b7c5bd622f6dbe67de097855a6570a8b5960108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 17/39] fix: reserve room for the first group of punctuated
 binary digits

---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From 2c777f0bf9028c9d5b4592cc3abd7edf616ff9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 18/39] fix: no_grouping ignored the decimal point it was given

---
 include/strf/detail/facets/numpunct.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..a2c1b79 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
     constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From d6da1639bd4574982876c58a6335377a7b5683d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 19/39] fix: std_width_calc.str_width_and_pos cut clusters at
 32 code points and misreported the width of the prefix

When a cluster exhausted the limit exactly at the end of one of the 32
code points rounds, its remaining code points were left out.  When the next
cluster did not fit, the width returned was the limit instead of the width
of [str, ret.ptr) (as required from a WidthCalculator), and a negative limit
was returned as the width.
---
 docs/ref_width.adoc                           |  2 +-
 .../strf/detail/facets/width_calculator.hpp   | 21 ++++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/docs/ref_width.adoc b/docs/ref_width.adoc
index 0fff9d3..f638dc3 100644
--- a/docs/ref_width.adoc
+++ b/docs/ref_width.adoc
@@ -501,7 +501,7 @@ static auto str_width_and_pos
 ----
 Return value:: a value `r` such that
 +
-* `r.width` is same value returned by `str_width(cs, limit, str, str_end )`
+* `r.width` is same value returned by `str_width(cs, limit, str, r.ptr)`
 * `r.ptr` is greatest pointer not greater than `str_end` such that the expression
 below evaluates to `true`:
 +
diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..ccffb21 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -220,7 +220,7 @@ STRF_FUNC_IMPL STRF_HD std_width_calc_func_return std_width_calc_func
             return {0, 0, nullptr};
         }
         if (ch_width > width) {
-            return {0, 0, str -1};
+            return {width, 0, str -1};
         }
         width = 0;
         goto next_codepoint; // because there might be more codepoints in this grapheme cluster
@@ -509,21 +509,22 @@ public:
         char32_t buff32[buff32_size];
         constexpr auto flags = strf::transcode_flags::none;
         const auto to_u32 = charset.to_u32();
+        limit = limit <= 0 ? 0 : limit;
         detail::std_width_calc_func_return resw{limit, 0, nullptr};
         while(1) {
             auto res_tr = to_u32.transcode(str, str_end, buff32, buff32 + buff32_size, nullptr, flags);
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
-                 res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
-            {
-                const auto width = limit - resw.remaining_width;
-                if (resw.ptr != res_tr.dst_ptr) {
-                    const auto u32dist = resw.ptr - buff32;
-                    auto res_sz = to_u32.transcode_size(str, str_end, u32dist, flags);
-                    return {width, res_sz.src_ptr};
-                }
+            const auto width = limit - resw.remaining_width;
+            if (resw.ptr != res_tr.dst_ptr) {
+                const auto u32dist = resw.ptr - buff32;
+                auto res_sz = to_u32.transcode_size(str, str_end, u32dist, flags);
+                return {width, res_sz.src_ptr};
+            }
+            // even if there is no remaining width, the next codepoints
+            // may belong to the last grapheme cluster
+            if (res_tr.stop_reason != transcode_stop_reason::insufficient_output_space) {
                 return {width, res_tr.src_ptr};
             }
             str = res_tr.src_ptr;
-- 
2.43.0


From 7a72bbf114f99176d816cfda49844bfa8d65e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 20/39] fix: width_as_u32len.str_width asserted on texts of
 more than 32767 code points

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index ccffb21..d02d950 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From ff3d22eeff94901333850553a83243a72bda63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 21/39] fix: overflow when comparing width_t with 16-bit
 integers

---
 include/strf/width_t.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 736a21f..1174a89 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -413,15 +413,13 @@ public:
         return *this;
     }
 
-    constexpr STRF_HD int compare(detail::tag_i16, std::int16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
-        using namespace strf::detail::cast_sugars;
-        return value_ - cast_i32(cast_u32(cast_u16(x)) << 16);
+        return compare(detail::tag_i32(), x);
     }
-    constexpr STRF_HD int compare(detail::tag_u16, std::uint16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_u16, std::uint16_t x) const noexcept
     {
-        using namespace strf::detail::cast_sugars;
-        return x >= cast_u16(0x8000) ? -1 : (value_ - cast_i32(cast_u32(x) << 16));
+        return compare(detail::tag_u32(), x);
     }
 
     constexpr STRF_HD std::int64_t compare(detail::tag_i32, std::int32_t x) const noexcept
-- 
2.43.0


From 991094ae4bf491155fa796db8ef3008f2df30f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 22/39] fix: overflow in sat_sub(width_t, std::int64_t)

---
 include/strf/width_t.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 1174a89..59f9cca 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -298,9 +298,9 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i64, std::int64_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        if (x >= (cast_i64(max().value_) << 17))  {
+        if (x >= 0x10000) {
             value_ = min().value_;
-        } else if (x <= cast_i64(cast_u64(cast_i64(min().value_)) << 17)) {
+        } else if (x <= -0x10000) {
             value_ = max().value_;
         } else {
             auto result = value_ - cast_i64(cast_u64(cast_i64(x)) << 16);
-- 
2.43.0


From d42f8dee0b881fcc2df0d19c1556245a426012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 23/39] fix: division of negative width_t

---
 include/strf/width_t.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 59f9cca..1b1a548 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -407,9 +407,8 @@ public:
     STRF_HD width_t& operator/=(width_t other) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        const std::uint64_t vu64 = cast_u32(value_);
-        const std::int64_t tmp = cast_i64(vu64 << 16) / other.value_;
-        value_ = detail::cast_i32(cast_i64(tmp));
+        const std::int64_t tmp = (cast_i64(value_) * 0x10000) / other.value_;
+        value_ = cast_i32(tmp);
         return *this;
     }
 
-- 
2.43.0


From 23d62c8355ee532a4275ae8155a50887578b7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 24/39] fix: width_t literals with more than 14 fractional
 digits overflowed

---
 include/strf/width_t.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 1b1a548..2d25c9e 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -812,7 +812,10 @@ struct mp_fp_parser_2<P, C0, Ch...>
 template <unsigned Q, char... C>
 class mp_fixed_point_parser
 {
-    using helper = detail::mp_fp_parser_2<Q, C...>;
+    // more than 14 digits would make ( fvalue << Q ) overflow
+    static constexpr unsigned max_frac_digits = 14;
+    static_assert(Q <= 16, "");
+    using helper = detail::mp_fp_parser_2<max_frac_digits, C...>;
     static constexpr auto divisor = detail::mp_pow10<helper::fdigcount>();
     static constexpr auto frac_ = (helper::fvalue << Q) / divisor;
     static constexpr auto rem_ = (helper::fvalue << Q) % divisor;
-- 
2.43.0


From ee4990522408b27778ec45960706bffa2e3a7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 25/39] fix: transcoding between dynamic charsets did not
 compile for character types other than char

transcode_printer_variant and aligned_transcode_printer_variant printed to destination<char>.
---
 include/strf/detail/printable_types/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index ace8449..7a8989e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1598,7 +1598,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
@@ -1691,7 +1691,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
-- 
2.43.0


From b749cde3cbf1dd9d6d27535db671d6844632593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 26/39] fix: width and precision of a string with an explicit
 charset equal to the destination's

strcpy_printer and aligned_strcpy_printer measured the string in the charset of the
facets instead of the one given to transcode().
---
 .../strf/detail/printable_types/string.hpp    | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index 7a8989e..b42dbe7 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -523,6 +523,33 @@ template <typename SrcCharT>
 struct string_printing;
 
 
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
+{
+    return strf::get_facet
+        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
+        ( facets );
+}
+
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
+{
+    return arg.get_charset();
+}
+
+template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
+         , typename Charset, transcoding_policy TranscPoli >
+constexpr STRF_HD auto get_src_charset
+    ( const FPack& facets
+    , const strf::value_and_format
+        < string_printing<SrcCharT>
+        , strf::detail::string_precision_format_specifier<HasPrecision>
+        , strf::alignment_format_specifier_q<HasAlignment>
+        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
+{
+    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
+}
+
 template <typename SrcCharT, typename DstCharT>
 class strcpy_printer
 {
@@ -565,7 +592,7 @@ public:
         STRF_IF_CONSTEXPR(PreMeasurements::width_demanded) {
             auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
             auto w = wcalc.str_width
-                ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+                ( strf::detail::get_src_charset(facets, arg)
                 , pre->remaining_width()
                 , str_
                 , str_end_ );
@@ -588,7 +615,7 @@ public:
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
         auto res = wcalc.str_width_and_pos
-            ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+            ( strf::detail::get_src_charset(facets, arg)
             , arg.precision(), str_, arg.value().end() );
         str_end_ = res.ptr;
         pre->add_width(res.width);
@@ -642,7 +669,7 @@ public:
     {
 
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         const strf::width_t limit =
             ( pre->remaining_width_greater_than(afmt_.width)
@@ -668,7 +695,7 @@ public:
         , afmt_(arg.get_alignment_format())
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         auto res = wcalc.str_width_and_pos
             ( src_charset, arg.precision(), str_, arg.value().end() );
@@ -763,34 +790,6 @@ void STRF_HD aligned_strcpy_printer<SrcCharT, DstCharT>::operator()
     }
 }
 
-
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
-{
-    return strf::get_facet
-        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
-        ( facets );
-}
-
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
-{
-    return arg.get_charset();
-}
-
-template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
-         , typename Charset, transcoding_policy TranscPoli >
-constexpr STRF_HD auto get_src_charset
-    ( const FPack& facets
-    , const strf::value_and_format
-        < string_printing<SrcCharT>
-        , strf::detail::string_precision_format_specifier<HasPrecision>
-        , strf::alignment_format_specifier_q<HasAlignment>
-        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
-{
-    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
-}
-
 template <typename SrcCharT, typename DstCharT>
 class transcode_printer
 {
-- 
2.43.0


From 61a1b56ceda97420703d17afe5f312eae4b58243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 27/39] fix: no_reserve() const&, with() & and reserve(n) on a
 reserve_given_space printing_syntax did not compile

---
 include/strf/printing_syntax.hpp | 41 +++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9c000d5..00b351f 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -76,7 +76,8 @@ public:
     {
         const auto& self = static_cast<const this_pss_&>(*this);
         return { self.dest_creator_
-               , self.fpack_};
+               , new_poli_{}
+               , self.fpack_ };
     }
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD new_pss_ no_reserve() &&
@@ -275,38 +276,50 @@ public:
         return poli_;
     }
 
-    template < typename FP = strf::facets_pack<FPEs...>
+    template < typename IntT
+             , typename FP = strf::facets_pack<FPEs...>
              , typename DC = DestCreator
              , strf::detail::enable_if_t
-                 < std::is_copy_constructible<FP>::value
+                 < std::is_integral<IntT>::value
+                && std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(IntT space) const &
     {
         auto& self = static_cast<const this_pss_&>(*this);
-        return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
+        return { self.dest_creator_
+               , reserve_policy_t{detail::safe_cast_size_t(space)}
+               , self.fpack_ };
     }
 
-    template < typename FP = strf::facets_pack<FPEs...>
+    template < typename IntT
+             , typename FP = strf::facets_pack<FPEs...>
              , typename DC = DestCreator
              , strf::detail::enable_if_t
-                 < std::is_copy_constructible<FP>::value
+                 < std::is_integral<IntT>::value
+                && std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &&
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(IntT space) const &&
     {
         auto& self = static_cast<const this_pss_&>(*this);
-        return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
+        return { self.dest_creator_
+               , reserve_policy_t{detail::safe_cast_size_t(space)}
+               , self.fpack_ };
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve_given_space(std::size_t space) &
+    template < typename IntT
+             , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve(IntT space) &
     {
-        poli_.space = space;
+        poli_.space = detail::safe_cast_size_t(space);
         return static_cast<pss_<reserve_policy_t>&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve_given_space(std::size_t space) &&
+    template < typename IntT
+             , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve(IntT space) &&
     {
-        poli_.space = space;
+        poli_.space = detail::safe_cast_size_t(space);
         return static_cast<pss_<reserve_policy_t>&&>(*this);
     }
 };
@@ -436,7 +449,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& with() &
     {
-        return static_cast<this_pss_&&>(*this);
+        return static_cast<this_pss_&>(*this);
     }
 
     constexpr STRF_HD const this_pss_&& with() const &&
-- 
2.43.0


From 2ffeea703dd727fd23d4ad7f9dc93340829ed796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 28/39] fix: merging a facets pack with constrained elements
 does not compile

facets_pack::get_element() returned the facet inside a constrained_fpe, so
that printing_syntax::with could not be applied after a with(constrain<F>(f)).
---
 include/strf/facets_pack.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strf/facets_pack.hpp b/include/strf/facets_pack.hpp
index f1eb9da..d070adf 100644
--- a/include/strf/facets_pack.hpp
+++ b/include/strf/facets_pack.hpp
@@ -344,7 +344,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( const strf::constrained_fpe<Filter, FPE>& cfpe )
         noexcept(noexcept(F(std::declval<const F&>())))
-        : fpe_(cfpe.get())
+        : fpe_(cfpe)
     {
     }
 
@@ -354,7 +354,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( strf::constrained_fpe<Filter, FPE>&& cfpe )
         noexcept(noexcept(F(std::declval<F>())))
-        : fpe_(std::move(cfpe).get())
+        : fpe_(std::move(cfpe))
     {
     }
 
@@ -366,16 +366,16 @@ public:
         , strf::tag<Category>
         , std::integral_constant<bool, has_facet_<Category, Tag>()> ) const
     {
-        return strf::detail::do_get_facet<Category, Tag>(fpe_);
+        return strf::detail::do_get_facet<Category, Tag>(fpe_.get());
     }
 
-    constexpr STRF_HD const FPE& do_get_element
+    constexpr STRF_HD const strf::constrained_fpe<Filter, FPE>& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> ) const
     {
         return fpe_;
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD FPE& do_get_element
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::constrained_fpe<Filter, FPE>& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> )
     {
         return fpe_;
@@ -383,7 +383,7 @@ public:
 
 private:
 
-    FPE fpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
+    strf::constrained_fpe<Filter, FPE> fpe_;
 };
 
 template <typename Rank, typename FPE>
-- 
2.43.0


From 46e719e39fe8775d58a3ad017f956a1f9a587e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 29/39] fix: overflow in
 width_accumulator::remaining_width_greater_than

---
 include/strf/detail/premeasurements.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..bbebd1f 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return remaining_width() > w;
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
-- 
2.43.0


From 3d1ad2f74702c3557d07145296e2995b4cc919a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 30/39] fix: width of an aligned join premeasured with a large
 limit

The fill was lost to saturation when the limit was close to the maximum width.
---
 include/strf/detail/printable_types/join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..f774bc7 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -246,7 +246,7 @@ struct join_printing
         strf::width_t wdiff = 0;
         if (pre->remaining_width_greater_than(afmt.width)) {
             wmax = pre->remaining_width();
-            wdiff = wmax - afmt.width;
+            wdiff = strf::sat_sub(wmax, afmt.width);
         }
         sub_pre_t sub_pre{wmax};
         pf_type pf
@@ -258,7 +258,7 @@ struct join_printing
             ? (sub_pre.remaining_width() - wdiff).round()
             : 0 );
         pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+            ( strf::sat_add(strf::sat_sub(wmax, sub_pre.remaining_width()), pf.fillcount_) );
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From 18ba32defdba645e1630afd338b90c436303474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 31/39] fix: a negative precision of a floating-point format
 other than -1 was not taken as unset

---
 include/strf/detail/printable_types/float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 7769b31..1622d75 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2093,7 +2093,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
     }
     switch (ffmt.notation) {
         case strf::float_notation::general:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_general
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2101,7 +2101,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
                 ( data, grp, ffmt.precision, rounded_fmt_width, afmt.alignment, ffmt.showpoint );
 
         case strf::float_notation::scientific:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_scientific
                     ( data, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2110,7 +2110,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
         default:
             STRF_ASSERT(ffmt.notation == strf::float_notation::fixed);
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_fixed
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2176,7 +2176,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
     switch (ffmt.notation) {
         case strf::float_notation::general:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_general
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2184,7 +2184,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
                 ( data, grp, ffmt.precision, rounded_fmt_width, afmt.alignment, ffmt.showpoint );
 
         case strf::float_notation::scientific:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_scientific
                     ( data, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2193,7 +2193,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
         default:
             STRF_ASSERT(ffmt.notation == strf::float_notation::fixed);
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_fixed
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
-- 
2.43.0


From 07bfbd945bce16e52aa4db08cf98dbbf6a6a01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 32/39] fix: rounding of hexadecimal floats lost the carry and
 broke ties without the implicit bit

---
 include/strf/detail/printable_types/float.hpp | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 1622d75..3eb3c47 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1605,15 +1605,32 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
                 data.extra_zeros = fdata.precision - data.mantissa_digcount;
             } else {
                 // round mantissa if necessary
+                constexpr auto implicit_bit = 1ULL << 52;
                 const int s = (13 - fdata.precision) << 2;
                 auto d = 1ULL << s;
                 auto mask = d - 1;
                 auto mantissa_low = data.mantissa & mask;
+                auto significand = data.mantissa | (data.subnormal ? 0 : implicit_bit);
+                data.mantissa_digcount = fdata.precision;
                 if ( mantissa_low > (d >> 1)
-                 || (mantissa_low == (d >> 1) && (data.mantissa & d))) {
+                 || (mantissa_low == (d >> 1) && (significand & d))) {
                     data.mantissa += d;
+                    if (data.mantissa >= implicit_bit) {
+                        // carry into the digit before the point
+                        data.mantissa = 0;
+                        data.mantissa_digcount = 0;
+                        data.extra_zeros = fdata.precision;
+                        if (data.subnormal) {
+                            data.subnormal = false;
+                        } else {
+                            ++data.exponent;
+                            data.sub_chars_count -= data.exponent_digcount;
+                            data.exponent_digcount
+                                = strf::detail::exponent_hex_digcount(data.exponent);
+                            data.sub_chars_count += data.exponent_digcount;
+                        }
+                    }
                 }
-                data.mantissa_digcount = fdata.precision;
                 data.showpoint = fdata.precision || fdata.showpoint;
                 data.sub_chars_count += data.showpoint + data.mantissa_digcount;
             }
-- 
2.43.0


From 006dad2c6aff2cf0ded43ed01128e8a58908db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 33/39] fix: the size and width of signed floats in general
 notation with precision 1 missed the sign

---
 include/strf/detail/printable_types/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 3eb3c47..7e651c5 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1669,7 +1669,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1678,7 +1678,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From 4cc4d12dd8d1206bca1fc8ab28190c2f365f5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 34/39] fix: separators of floats rounded up to one more digit
 in fixed notation were not counted

---
 include/strf/detail/printable_types/float.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 7e651c5..3f839bc 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1938,6 +1938,10 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                     } else {
                         data.extra_zeros = precision;
                         ++data.sub_chars_count;
+                        const auto sep_count = static_cast<detail::chars_count_t>
+                            (grouping.separators_count(int_digcount + 1));
+                        data.sub_chars_count += sep_count - data.sep_count;
+                        data.sep_count = sep_count;
                     }
                 }
             }
-- 
2.43.0


From a950b24967c1a3b6043d0463b278da4c0dfa5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 35/39] fix: separators above 0x7F of single-byte charsets were
 not encoded in large fixed floats

---
 include/strf/detail/printable_types/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 3f839bc..afe5071 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2395,9 +2395,14 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
                                        , strf::lowercase );
             strf::detail::write_fill(dst, data_.e10, (CharT)'0');
         } else if (sep_size_ == 1) {
+            CharT sep;
+            if (thousands_sep_ < 0x80) {
+                sep = static_cast<CharT>(thousands_sep_);
+            } else {
+                encode_char_(&sep, thousands_sep_);
+            }
             strf::detail::print_amplified_integer_small_separator
-                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10
-                , static_cast<CharT>(thousands_sep_) );
+                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10, sep );
         } else {
             strf::detail::print_amplified_integer_big_separator
                 ( dst, encode_char_, data_.m10, grouping_, data_.m10_digcount
-- 
2.43.0


From 527e13e3d00747c771a76cf67611c013af59f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 36/39] fix: width_accumulator::add_width overflowed when the
 width had reached its limit

---
 include/strf/detail/premeasurements.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bbebd1f..3273721 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        checked_add_width(w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
-- 
2.43.0


From 7439e4ca6d5a1d8f967cb52a12ca2dfbfb2ae59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 37/39] fix: the premeasured width of a tr-string overflowed
 when its arguments are very wide

---
 include/strf/detail/tr_printer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..c0ef8d2 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_.sat_add(index < array_size_ ? width_array_[index] : strf::width_t(1));
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +219,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_.sat_add(width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_.sat_add(strf::width_t(1));
         }
         return {};
     }
-- 
2.43.0


From 0f51354414f6ad74d1d0535243d1a21e22eeed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 38/39] fix: float printers used std::abs without including a
 header that declares it, so STRF_FREESTANDING did not compile

---
 include/strf/detail/printable_types/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index afe5071..59baf7c 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1135,7 +1135,7 @@ STRF_HD void print_scientific_notation
 
     unsigned adv = 4;
     CharT* it = nullptr;
-    int abs_e10 = std::abs(exponent);
+    int abs_e10 = exponent < 0 ? -exponent : exponent;
     STRF_ASSERT(abs_e10 < 1000);
 
     if (abs_e10 >= 100) {
@@ -1355,7 +1355,7 @@ STRF_HD void fast_double_printer<CharT>::operator()
         }
         it[0] = static_cast<CharT>('E' | ((lettercase_ != strf::uppercase) << 5));
         it[1] = static_cast<CharT>('+' + ((e10 < 0) << 1));
-        int abs_e10 = std::abs(e10);
+        int abs_e10 = e10 < 0 ? -e10 : e10;
         if (abs_e10 >= 100) {
             it[4] = static_cast<CharT>('0' + abs_e10 % 10);
             abs_e10 /= 10;
@@ -1842,7 +1842,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_s
         data.m10_digcount += xz;
 #if defined(__GNUC__) && __GNUC__ <= 10
         // silent a false warning of GCC
-        data.m10_digcount = std::abs(data.m10_digcount);
+        data.m10_digcount = data.m10_digcount < 0 ? -data.m10_digcount : data.m10_digcount;
 #endif
         data.e10 -= xz;
         auto p10 = strf::detail::pow10(-xz);
-- 
2.43.0


From 3c926fdd4dacd15f3be9267a2b10ae00aa36e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 39/39] fix: a grouping ended by CHAR_MAX, as localeconv ends
 it, was ignored altogether

---
 include/strf/detail/facets/numpunct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index a2c1b79..7444712 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -410,7 +410,7 @@ STRF_FUNC_IMPL STRF_HD digits_grouping::digits_grouping(const char* str) noexcep
             *this = creator.finish();
             break;
         }
-        if (0 != (ch & 0x80)) {
+        if (0 != (ch & 0x80) || ch == 0x7F) { // 0x7F is CHAR_MAX where char is signed
             *this = creator.finish_no_more_sep();
             break;
         }
-- 
2.43.0


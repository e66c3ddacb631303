From e4df6c6b754b07c6ef369d8ecdf41ea04e4e6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 01/25] fix: drop the last segment of a one-segment base path
 when merging

RFC 3986 section 5.2.3 appends the reference's path to all but the last
segment of the base path. The last segment was kept when it was the only one,
so http://a/b + c gave http://a/b/c and http://a/ + c gave http://a//c.
---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..3a4f90c 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -743,7 +743,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From 715fa50d7a11219f427a24f39cb185da40eff3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 02/25] fix: accept reg-names which begin with an IPv4 address

The host rule committed to the IPv4address alternative as soon as a prefix
matched, so http://1.2.3.4.com/ and http://1.2.3.400/ were rejected.
---
 lib/uri/uri.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 3a4f90c..8056e79 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,13 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Alternatives are tried in order without backtracking, so trying IPv4address
+// first would commit to just the leading part of a reg-name such as
+// "1.2.3.4.com" or "1.2.3.400". Every IPv4address is also a reg-name which
+// means that it does not need an alternative of its own.
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From 03aa758fa2f1e6191e966685ed83824b0da0fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 03/25] fix: keep empty segments before a trailing dot segment

remove_dot_segments() turned /a//. into /a/ rather than the /a// given by
RFC 3986 section 5.2.4.
---
 lib/uri/uri.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 8056e79..a80d5d9 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -788,7 +788,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -798,13 +798,8 @@ void parts::path::remove_dot_segments () {
   this->segments.erase (outit, end);
 
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    // The path ended with a dot segment so the result must end with a slash.
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From e529f310579b311c97ebbf91f88c16916a4ab480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 04/25] fix: parts without an authority are not valid if the
 path starts with //

Composing such an instance produced a string which either could not be parsed
(s://a:b:c) or was parsed with an authority that was never there (s://b).
---
 lib/uri/uri.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index a80d5d9..4ee4caa 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -863,6 +863,12 @@ bool parts::valid () const noexcept {
   if (!this->path.valid ()) {
     return false;
   }
+  // RFC 3986 section 3.3: "If a URI does not contain an authority component,
+  // then the path cannot begin with two slash characters ("//")".
+  if (!this->authority.has_value () &&
+      static_cast<std::string> (this->path).starts_with ("//")) {
+    return false;
+  }
   if (this->query.has_value () &&
       !rule{this->query.value ()}.concat (queryfn).done ()) {
     return false;
-- 
2.43.0


From 6af87d956b046b2c5f59637031cf09bac97d3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 05/25] fix: iter_move of a pctdecode_view iterator yields the
 decoded character

It returned the '%' of the underlying range instead.
---
 include/uri/pctdecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..6dd38e2 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) noexcept (noexcept (*it)) {
+    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0


From 5b2bda59cb86073446aa3a0470243582cb9c40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 06/25] fix: rule::star() terminates if its rule matches the
 empty string

---
 include/uri/rule.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ebd1b26..cbf449f 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -232,6 +232,10 @@ rule rule::star (MatchFunction const match, unsigned const min, unsigned const m
     // Remember the corresponding acceptor functions.
     auto const& a = std::get<acceptor_container> (*m);
     acc.insert (acc.end (), a.begin (), a.end ());
+    // Having matched nothing, the rule would go on matching nothing forever.
+    if (l == 0 && count >= min) {
+      break;
+    }
   }
   if (count < min) {
     return {};
-- 
2.43.0


From 8acf54cfb3043e42de3b72319da261fa9e17beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 07/25] fix: UTF-16 LE byte streams may start with a code unit
 whose low byte is 0

The bytes FF FE 00 01 (a BOM followed by U+0100) were taken for UTF-8.
---
 include/uri/icubaby.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..ecdc336 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1260,6 +1260,12 @@ public:
       if (value == (is_little_endian (state_) ? std::byte{0x00} : std::byte{0xFF})) {
         (void)transcoder_variant_.template emplace<t32_type> ();
         state_ = set_run_mode (set_byte (state_, 0));
+      } else if (is_little_endian (state_)) {
+        // This isn't a UTF-32 LE BOM but a UTF-16 LE BOM followed by a code unit whose least significant byte is 0.
+        dest = this->run16_start (dest);
+        state_ = states::run_16le_byte1;
+        buffer_[0] = buffer_[2];
+        dest = this->run16 (value, dest);
       } else {
         // Default input encoding. Emit buffer.
         dest = this->run8_start (true, dest);
-- 
2.43.0


From 663ad359a9299146bf11d15b8e520d7314ebabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 08/25] fix: emit just the bytes received when a byte stream
 ends inside a BOM

When a stream ended before its encoding was known, end_cp() emitted one byte
too many ({00} gave two NULs, {FE} gave U+FFFD and a NUL) and did not recognize
a UTF-16 LE BOM without any text behind it.
---
 include/uri/icubaby.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index ecdc336..ec0553c 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1312,10 +1312,13 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
+      dest = this->end_bom (dest);
+    }
     return std::visit (
-        [this, &dest] (auto& arg) {
+        [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
+            return dest;
           } else {
             return arg.end_cp (dest);
           }
@@ -1630,6 +1633,31 @@ private:
     return dest;
   }
 
+  /// Called if the input ends before its encoding has been determined. Selects the encoding and emits the bytes that
+  /// were consumed so far.
+  ///
+  /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
+  /// \param dest  An output iterator to which the output sequence is written.
+  /// \returns  Iterator one past the last element assigned.
+  template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
+  [[nodiscard]] OutputIterator end_bom (OutputIterator dest) noexcept {
+    if (state_ == states::utf32_or_16_le_bom_byte2 || state_ == states::utf32_le_bom_byte3) {
+      // A complete UTF-16 LE BOM possibly followed by the first byte of a code unit.
+      auto const resume =
+          state_ == states::utf32_le_bom_byte3 ? states::run_16le_byte1 : states::run_16le_byte0;
+      dest = this->run16_start (dest);
+      state_ = resume;
+      return dest;
+    }
+    // Only the bytes before the one that this state is waiting for have been received.
+    auto const received = byte_no (state_);
+    dest = this->run8_start (false, dest);
+    // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
+    auto const first = std::begin (buffer_);
+    (void)std::for_each (first, first + received, [this, &dest] (std::byte value) { dest = (*this) (value, dest); });
+    return dest;
+  }
+
   /// Switches to the run state in which the input has been determined to be UTF-16 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
-- 
2.43.0


From 0c1138a25d81ec480735d8b0febf7b647373b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 09/25] fix: report a byte stream which ends in the middle of a
 code unit

The odd bytes at the end of a UTF-16 or UTF-32 stream were dropped and the
stream reported as well formed.
---
 include/uri/icubaby.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index ec0553c..bdc0ebd 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1315,7 +1315,7 @@ public:
     if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
       dest = this->end_bom (dest);
     }
-    return std::visit (
+    dest = std::visit (
         [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
             return dest;
@@ -1324,6 +1324,13 @@ public:
           }
         },
         transcoder_variant_);
+    if (this->partial_code_unit ()) {
+      // The input ended in the middle of a UTF-16 or UTF-32 code unit.
+      truncated_ = true;
+      state_ = set_byte (state_, 0);
+      dest = transcoder<char32_t, ToEncoding>{}(replacement_char, dest);
+    }
+    return dest;
   }
 
   /// \brief Call once the entire input sequence has been fed to operator().
@@ -1572,6 +1579,14 @@ private:
   /// Holds the transcoder used to convert input code units. Holds monostate until the input encoding has been selected.
   std::variant<std::monostate, t8_type, t16_type, t32_type> transcoder_variant_;
 
+  /// True if the input ended in the middle of a code unit.
+  bool truncated_ = false;
+
+  /// \returns True if at least one byte, but not all of the bytes, of a UTF-16 or UTF-32 code unit has been received.
+  [[nodiscard]] constexpr bool partial_code_unit () const noexcept {
+    return is_run_mode (state_) && byte_no (state_) != 0;
+  }
+
   /// \brief A helper for ensuring that a type will not cause variant_ to become valueless by exception.
   ///
   /// We must ensure that the transcoder_variant_ member cannot be in the valueless by exception state. This means that
@@ -1776,7 +1791,7 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          return this->partial_code_unit () || arg.partial ();
         }
       },
       transcoder_variant_);
@@ -1790,11 +1805,11 @@ constexpr bool transcoder<std::byte, ToEncoding>::well_formed () const noexcept
     return true;
   }
   return std::visit (
-      [] (auto const& arg) {
+      [this] (auto const& arg) {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return true;
         } else {
-          return arg.well_formed ();
+          return !this->truncated_ && arg.well_formed ();
         }
       },
       transcoder_variant_);
-- 
2.43.0


From 48e287a6508640fff9c462552c56a591a6751422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 10/25] fix: transcode_view over bytes of unknown encoding
 overflowed its buffer

The iterator's buffer had room for a single code point but up to four are
produced at once if the input does not start with a byte order mark. An input
which consists of nothing but a byte order mark now produces an empty range.
---
 include/uri/icubaby.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index bdc0ebd..568eedd 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2117,6 +2117,13 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of code units produced by a single byte being passed to a transcoder of unknown encoding.
+///
+/// As many as four bytes may be consumed before the encoding of the input is known. If there turns out to be no BOM,
+/// each of them can result in a code point of its own.
+template <unicode_char_type ToEncoding>
+inline constexpr auto max_output_bytes<std::byte, ToEncoding> = std::size_t{12};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
@@ -2270,6 +2277,10 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
     out_it = transcoder_.end_cp (out_it);
   }
   assert (out_it >= out_begin && out_it <= out_.end () && "out_ buffer overflow!");
+  if (out_it == out_begin) {
+    // There was nothing (more than a byte order mark) to produce output from.
+    result = next_;
+  }
   if (!transcoder_.well_formed ()) {
     parent->well_formed_ = false;
   }
-- 
2.43.0


From 13f43b3fbd345471065e7caa70de0ae7d3981fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 11/25] fix: transcode_view iterators at different code units
 are not equal

An iterator and its successor compared equal if both referred to code units of
the same code point.
---
 include/uri/icubaby.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 568eedd..c9b724a 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2177,7 +2177,8 @@ public:
   friend constexpr bool operator== (iterator const& lhs, iterator const& rhs)
     requires std::equality_comparable<std::ranges::iterator_t<View>>
   {
-    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_;
+    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_ &&
+           lhs.state_.position () == rhs.state_.position ();
   }
 
 private:
@@ -2212,6 +2213,9 @@ private:
       ++first_;
     }
 
+    /// Returns the index of the next code unit to be produced from the current code point.
+    [[nodiscard]] constexpr std::uint_least8_t position () const noexcept { return first_; }
+
     /// \brief Consumes enough code-units from the base iterator to form a single code-point.
     ///
     /// The resulting code-units in the output encoding can be sequentially accessed using the front() and
-- 
2.43.0


From 6309b97cf07b9d5753a1947d61bc8b4c74f6e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 12/25] fix: post-increment of the transcoding output iterator
 must not lose output

The expression *it++ = unit assigned to a copy of the iterator so that the
position in the output was lost unless the underlying iterator refers to
shared state (as a back_insert_iterator does).
---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index c9b724a..0732ead 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -671,7 +671,7 @@ public:
   constexpr iterator& operator++ () noexcept { return *this; }
   /// \brief no-op
   /// \returns \*this
-  constexpr iterator operator++ (int) noexcept { return *this; }
+  constexpr iterator& operator++ (int) noexcept { return *this; }
 
   /// Accesses the underlying iterator.
   [[nodiscard]] constexpr OutputIterator base () const noexcept { return out_; }
-- 
2.43.0


From 9ba9167799c13180ce71d88db823ea21ab33252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 13/25] fix: keep the most significant byte of UTF-32 LE code
 units

Shifting a std::byte left by 24 gives zero, so that units above 0x00FFFFFF
were accepted as if their most significant byte was zero.
---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 0732ead..6003f6b 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1772,7 +1772,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From a340760508d142b5d3926436b3880b0bc918723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 14/25] fix: find_last on iterators which are bidirectional
 only in the C++20 sense

std::prev() takes them for input iterators and never comes back.
---
 include/uri/find_last.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/find_last.hpp b/include/uri/find_last.hpp
index 6df5272..c099e02 100644
--- a/include/uri/find_last.hpp
+++ b/include/uri/find_last.hpp
@@ -54,7 +54,7 @@ constexpr std::ranges::subrange<Iterator> find_last_bidi (Iterator const first,
     auto const end = std::ranges::next (rb.base (), last);
     return {end, end};
   }
-  auto const result = std::ranges::subrange<Iterator>{std::prev (rb.base ()), last};
+  auto const result = std::ranges::subrange<Iterator>{std::ranges::prev (rb.base ()), last};
 #ifndef NDEBUG
   auto const forward_result = details::find_last_forward (first, last, value, proj);
   assert (forward_result.begin () == result.begin ());
-- 
2.43.0


From 4165b455dfa09d649f0b51befee055852bf5b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 15/25] fix: decode a host that consists of an empty Punycode
 label like any other

A host of just "xn--" was returned unchanged because the size of its decoded
text (0) was taken to mean that there was nothing to decode.
---
 include/uri/parts.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/uri/parts.hpp b/include/uri/parts.hpp
index d53c0c6..1922f6c 100644
--- a/include/uri/parts.hpp
+++ b/include/uri/parts.hpp
@@ -335,8 +335,11 @@ std::variant<std::error_code, parts> decode (VectorContainer& store,
       extra = details::pct_decoded_size (str);
     }
 
+    // The size alone does not tell a host such as "xn--", which decodes to no text at all, from one with nothing to decode.
+    auto const decodes_to_nothing =
+        field == parts_field::host && extra == 0 && starts_with (str, idna_prefix);
     if (auto const pos = static_cast<pft> (field) + index; pos < needs_encoding.size ()) {
-      needs_encoding.set (pos, needs_encoding.test (pos) || extra != 0);
+      needs_encoding.set (pos, needs_encoding.test (pos) || extra != 0 || decodes_to_nothing);
     }
     required_size += extra;
     return str;
-- 
2.43.0


From 54d452f63933350d929d18acea97f1b4efdc9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 16/25] fix: do not consume a leading Punycode delimiter with
 no literal characters before it

RFC 3492 section 6.2 consumes the delimiter only if more than zero literal code
points precede it. Otherwise it is an invalid digit.
---
 include/uri/punycode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/uri/punycode.hpp b/include/uri/punycode.hpp
index 46a3705..94cda63 100644
--- a/include/uri/punycode.hpp
+++ b/include/uri/punycode.hpp
@@ -260,7 +260,8 @@ std::variant<std::error_code, Iterator> copy_plain_ascii_part (Iterator first, S
   // Find the end of the literal portion (if there is one) by scanning for the
   // last delimiter.
   auto const encoded_range = find_last (first, last, delimiter);
-  if (encoded_range.empty ()) {
+  // RFC 3492 section 6.2: the delimiter is only consumed if there are literal characters in front of it.
+  if (encoded_range.empty () || encoded_range.begin () == first) {
     return first;
   }
   // Copy the plain ASCII part of the string to the output (if any).
-- 
2.43.0


From fdd6b88f4f7463b63a489d31f01c05a21637dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 17/25] fix: include the headers that find_last.hpp needs

---
 include/uri/find_last.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/uri/find_last.hpp b/include/uri/find_last.hpp
index c099e02..6c0b45e 100644
--- a/include/uri/find_last.hpp
+++ b/include/uri/find_last.hpp
@@ -13,6 +13,8 @@
 #ifndef URI_FIND_LAST_HPP
 #define URI_FIND_LAST_HPP
 
+#include <algorithm>
+#include <cassert>
 #include <functional>
 #include <optional>
 #include <ranges>
-- 
2.43.0


From 1900ef5b27fa96402d0354eab5079b666e77bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 18/25] fix: compose reports that it ran out of memory rather
 than return truncated text

---
 lib/uri/uri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 4ee4caa..900dfcf 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -1023,6 +1023,8 @@ std::ostream& compose (std::ostream& os, parts const& p) {
 
 std::string compose (parts const& p) {
   std::stringstream result;
+  // A failure to write (for want of memory) must not give a truncated string.
+  result.exceptions (std::ios_base::badbit);
   result << p;
   return result.str ();
 }
-- 
2.43.0


From 9c651eca5f108f7f58f7aecc84e7ed93f288fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 19/25] fix: classify characters as ASCII whatever the locale

The <cctype> functions follow the global C locale, so that in an 8-bit locale
letters beyond ASCII were accepted, and their behaviour is undefined for
negative values of char.
---
 include/uri/rule.hpp | 35 ++++++++++++++++++++++++++---------
 lib/uri/uri.cpp      |  8 ++++----
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index cbf449f..1fe3b8b 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -79,7 +79,6 @@
 #ifndef URI_RULE_HPP
 #define URI_RULE_HPP
 
-#include <cctype>
 #include <functional>
 #include <limits>
 #include <optional>
@@ -91,6 +90,24 @@
 
 namespace uri {
 
+namespace details {
+
+// The <cctype> functions depend on the global locale and are not defined for negative values. RFC 3986 means ASCII.
+[[nodiscard]] constexpr bool is_ascii_digit (char const c) noexcept { return c >= '0' && c <= '9'; }
+[[nodiscard]] constexpr int to_ascii_lower (char const c) noexcept {
+  return static_cast<int> (c) + (c >= 'A' && c <= 'Z' ? 'a' - 'A' : 0);
+}
+[[nodiscard]] constexpr bool is_ascii_alpha (char const c) noexcept {
+  auto const l = to_ascii_lower (c);
+  return l >= 'a' && l <= 'z';
+}
+[[nodiscard]] constexpr bool is_ascii_hexdig (char const c) noexcept {
+  auto const l = to_ascii_lower (c);
+  return is_ascii_digit (c) || (l >= 'a' && l <= 'f');
+}
+
+}  // end namespace details
+
 class rule {
 public:
   using acceptor_container = std::vector<
@@ -161,8 +178,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<int> (c))] (char d) {
-      return c2 == std::tolower (static_cast<int> (d));
+    return single_char ([c2 = details::to_ascii_lower (c)] (char d) {
+      return c2 == details::to_ascii_lower (d);
     });
   }
 
@@ -330,10 +347,10 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::to_ascii_lower (first),
+          l = details::to_ascii_lower (last)] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::to_ascii_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -341,15 +358,15 @@ inline auto char_range (char const first, char const last) {
 
 inline auto alpha (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_alpha (c); });
 }
 inline auto digit (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_digit (c); });
 }
 inline auto hexdig (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_hexdig (c); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 900dfcf..66f118d 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -36,10 +36,10 @@ inline auto code_point_range (code_point const first, code_point const last) {
   assert (static_cast<std::underlying_type_t<code_point>> (last) <=
           static_cast<std::underlying_type_t<code_point>> (
             std::numeric_limits<char>::max ()));
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::to_ascii_lower (static_cast<char> (first)),
+          l = details::to_ascii_lower (static_cast<char> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::to_ascii_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -123,7 +123,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<int> (c))) ||
+    return details::is_ascii_alpha (c) || details::is_ascii_digit (c) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From bf2a17afa37be457a9425dd952c6b1c35bd21922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 20/25] fix: let pctdecode_view work over every const-iterable
 forward range

The view promises to accept forward ranges, but did not compile for those
without random access, those whose end is of another type (sentinel could not
be constructed or compared) and those with other iterators when const (such as
the owning_view of an rvalue string). Looking for the two digits with
std::distance() would also take linear time for each character of a list.
---
 include/uri/pctdecode.hpp | 118 +++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 53 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 6dd38e2..147a8b7 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -19,6 +19,7 @@
 #include <concepts>
 #include <cstddef>
 #include <iterator>
+#include <optional>
 #include <ranges>
 #include <string>
 #include <string_view>
@@ -57,34 +58,47 @@ constexpr bool either_bad (std::byte n1, std::byte n2) noexcept {
   return ((n1 | n2) & bad) != std::byte{0};
 }
 
-template <typename Iterator>
-Iterator increment (Iterator pos, Iterator end) {
-  auto remaining = std::distance (pos, end);
-  assert (remaining > 0);
+/// If the characters at \p pos are an escape, that is a '%' followed by two legal
+/// hexadecimal characters, returns its value. If not, returns nothing.
+template <typename Iterator, typename Sentinel>
+constexpr std::optional<std::byte> escape (Iterator pos, Sentinel const& end) {
+  if (pos == end || *pos != '%' || ++pos == end) {
+    return std::nullopt;
+  }
+  auto const nhi = hex2dec (*pos);
+  if (++pos == end) {
+    return std::nullopt;
+  }
+  auto const nlo = hex2dec (*pos);
+  if (either_bad (nhi, nlo)) {
+    return std::nullopt;
+  }
+  return (nhi << 4) | nlo;
+}
+
+template <typename Iterator, typename Sentinel>
+constexpr Iterator increment (Iterator pos, Sentinel const& end) {
+  assert (pos != end);
   // Remove 1 character unless we've got a '%' followed by two legal hex
   // characters in which case we remove 3.
-  std::advance (pos,
-                remaining >= 3 && *pos == '%' &&
-                    !either_bad (hex2dec (*(pos + 1)), hex2dec (*(pos + 2)))
-                  ? 3
-                  : 1);
+  if (escape (pos, end)) {
+    ++pos;
+    ++pos;
+  }
+  ++pos;
   return pos;
 }
 
-template <typename ReferenceType, typename Iterator, typename ValueType>
-ReferenceType deref (Iterator pos, Iterator end, ValueType* const hex) {
-  ReferenceType c = *pos;
-  if (c != '%' || std::distance (pos, end) < 3) {
-    return c;
-  }
-  auto const nhi = hex2dec (*(pos + 1));
-  auto const nlo = hex2dec (*(pos + 2));
-  // If either character isn't valid hex, then return the original.
-  if (either_bad (nhi, nlo)) {
-    return c;
+template <typename ReferenceType, typename Iterator, typename Sentinel,
+          typename ValueType>
+constexpr ReferenceType deref (Iterator const& pos, Sentinel const& end,
+                               ValueType* const hex) {
+  if (auto const value = escape (pos, end)) {
+    *hex = static_cast<ValueType> (*value);
+    return *hex;
   }
-  *hex = static_cast<ValueType> ((nhi << 4) | nlo);
-  return *hex;
+  // There is no escape here so return the original.
+  return *pos;
 }
 
 }  // end namespace details
@@ -95,7 +109,7 @@ bool needs_pctdecode (InputIterator first, InputIterator last) {
 }
 
 template <std::ranges::input_range View>
-  requires std::ranges::forward_range<View>
+  requires std::ranges::forward_range<View const>
 class pctdecode_view
     : public std::ranges::view_interface<pctdecode_view<View>> {
 public:
@@ -119,7 +133,7 @@ public:
     return iterator{*this, std::ranges::begin (base_)};
   }
   constexpr auto end () const {
-    if constexpr (std::ranges::common_range<View>) {
+    if constexpr (std::ranges::common_range<View const>) {
       return iterator{*this, std::ranges::end (base_)};
     } else {
       return sentinel{*this};
@@ -134,37 +148,36 @@ template <typename Range>
 pctdecode_view (Range&&) -> pctdecode_view<std::views::all_t<Range>>;
 
 template <std::ranges::input_range View>
-  requires std::ranges::forward_range<View>
+  requires std::ranges::forward_range<View const>
 class pctdecode_view<View>::iterator {
+  // The view gives access to the base view by const reference.
+  using base_iterator = std::ranges::iterator_t<View const>;
+  using base_reference = std::ranges::range_reference_t<View const>;
+
 public:
   using iterator_concept = std::forward_iterator_tag;
   using iterator_category = std::forward_iterator_tag;
-  using value_type = std::ranges::range_value_t<View>;
-  using difference_type = std::ranges::range_difference_t<View>;
+  using value_type = std::ranges::range_value_t<View const>;
+  using difference_type = std::ranges::range_difference_t<View const>;
 
   iterator ()
-    requires std::default_initializable<std::ranges::iterator_t<View>>
+    requires std::default_initializable<base_iterator>
   = default;
 
-  constexpr iterator (pctdecode_view const& parent,
-                      std::ranges::iterator_t<View> current)
+  constexpr iterator (pctdecode_view const& parent, base_iterator current)
       : parent_{std::addressof (parent)}, pos_{std::move (current)} {}
 
-  constexpr std::ranges::iterator_t<View> const& base () const& noexcept {
-    return pos_;
-  }
-  constexpr std::ranges::iterator_t<View> base () && {
-    return std::move (pos_);
-  }
+  constexpr base_iterator const& base () const& noexcept { return pos_; }
+  constexpr base_iterator base () && { return std::move (pos_); }
 
-  constexpr std::ranges::range_reference_t<View> operator* () const {
-    return details::deref<std::ranges::range_reference_t<View>> (
+  constexpr base_reference operator* () const {
+    return details::deref<base_reference> (
       pos_, std::ranges::end (parent_->base_), &hex_);
   }
-  constexpr std::ranges::iterator_t<View> operator->() const
-    requires std::copyable<std::ranges::iterator_t<View>>
+  constexpr auto operator->() const
+    requires std::is_lvalue_reference_v<base_reference>
   {
-    return &(**this);
+    return std::addressof (**this);
   }
 
   constexpr iterator& operator++ () {
@@ -179,47 +192,46 @@ public:
   }
 
   friend constexpr bool operator== (iterator const& x, iterator const& y)
-    requires std::equality_comparable<std::ranges::iterator_t<View>>
+    requires std::equality_comparable<base_iterator>
   {
     return x.pos_ == y.pos_;
   }
 
-  friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
+  friend constexpr std::ranges::range_rvalue_reference_t<View const> iter_move (
     iterator const& it) noexcept (noexcept (*it)) {
-    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
+    return static_cast<std::ranges::range_rvalue_reference_t<View const>> (*it);
   }
 
   friend constexpr void iter_swap (
     iterator const& x,
     iterator const& y) noexcept (noexcept (std::ranges::iter_swap (x.pos_,
                                                                    y.pos_)))
-    requires std::indirectly_swappable<std::ranges::iterator_t<View>>
+    requires std::indirectly_swappable<base_iterator>
   {
     return std::ranges::iter_swap (x.pos_, y.pos_);
   }
 
 private:
   [[no_unique_address]] pctdecode_view const* parent_ = nullptr;
-  [[no_unique_address]] std::ranges::iterator_t<View> pos_ =
-    std::ranges::iterator_t<View> ();
-  mutable std::ranges::range_value_t<View> hex_ = 0;
+  [[no_unique_address]] base_iterator pos_ = base_iterator ();
+  mutable std::ranges::range_value_t<View const> hex_ = 0;
 };
 
 template <std::ranges::input_range View>
-  requires std::ranges::forward_range<View>
+  requires std::ranges::forward_range<View const>
 class pctdecode_view<View>::sentinel {
 public:
   sentinel () = default;
-  constexpr explicit sentinel (pctdecode_view& parent)
+  constexpr explicit sentinel (pctdecode_view const& parent)
       : end_{std::ranges::end (parent.base_)} {}
 
-  constexpr std::ranges::sentinel_t<View> base () const { return end_; }
+  constexpr std::ranges::sentinel_t<View const> base () const { return end_; }
   friend constexpr bool operator== (iterator const& x, sentinel const& y) {
-    return x.current_ == y.end_;
+    return x.base () == y.end_;
   }
 
 private:
-  std::ranges::sentinel_t<View> end_{};
+  std::ranges::sentinel_t<View const> end_{};
 };
 
 namespace details {
-- 
2.43.0


From 307aa49d5e68dddbf91242c2feb6ab6d9746b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 21/25] fix: let transcode_view's iterators be used over every
 const-iterable range

iterator::base(), operator->() and the sentinel named the iterators of the
view rather than those of the const view which is actually iterated.
---
 include/uri/icubaby.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 6003f6b..dde99f0 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2085,7 +2085,7 @@ public:
   constexpr auto begin () const { return iterator{*this, std::ranges::begin (base_)}; }
   /// \brief Obtains the sentinel denoting the end of transcode_view.
   constexpr auto end () const {
-    if constexpr (std::ranges::common_range<View>) {
+    if constexpr (std::ranges::common_range<View const>) {
       return iterator{*this, std::ranges::end (base_)};
     } else {
       return sentinel{*this};
@@ -2138,9 +2138,9 @@ public:
   using value_type = ToEncoding;
 
   /// A type that can be used to identify distance between iterators.
-  using difference_type = std::ranges::range_difference_t<View>;
+  using difference_type = std::ranges::range_difference_t<View const>;
 
-  iterator () requires std::default_initializable<std::ranges::iterator_t<View>> = default;
+  iterator () requires std::default_initializable<std::ranges::iterator_t<View const>> = default;
   constexpr iterator (transcode_view const& parent, std::ranges::iterator_t<View const> const& current)
       : current_{current}, parent_{&parent}, state_{current} {
     assert (state_.empty ());
@@ -2152,12 +2152,12 @@ public:
   }
 
   /// \brief Returns the underlying view
-  constexpr std::ranges::iterator_t<View> const& base () const& noexcept { return current_; }
+  constexpr std::ranges::iterator_t<View const> const& base () const& noexcept { return current_; }
   /// \brief Returns the underlying view
-  constexpr std::ranges::iterator_t<View> base () && { return std::move (current_); }
+  constexpr std::ranges::iterator_t<View const> base () && { return std::move (current_); }
 
   constexpr value_type const& operator* () const { return state_.front (); }
-  constexpr std::ranges::iterator_t<View> operator->() const { return state_.front (); }
+  constexpr value_type const* operator->() const { return &state_.front (); }
 
   constexpr iterator& operator++ () {
     state_.advance ();
@@ -2175,7 +2175,7 @@ public:
   }
 
   friend constexpr bool operator== (iterator const& lhs, iterator const& rhs)
-    requires std::equality_comparable<std::ranges::iterator_t<View>>
+    requires std::equality_comparable<std::ranges::iterator_t<View const>>
   {
     return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_ &&
            lhs.state_.position () == rhs.state_.position ();
@@ -2302,12 +2302,12 @@ public:
   /// Derives the value of this sentinel instance from the end of the associated view.
   constexpr explicit sentinel (transcode_view const& parent) : end_{std::ranges::end (parent.base_)} {}
   /// \returns The underlying view's end sentinel
-  constexpr std::ranges::sentinel_t<View> base () const { return end_; }
+  constexpr std::ranges::sentinel_t<View const> base () const { return end_; }
   /// \brief Compares and iterator and sentinal for equality.
   friend constexpr bool operator== (iterator const& lhs, sentinel const& rhs) { return lhs.base () == rhs.end_; }
 
 private:
-  std::ranges::sentinel_t<View> end_{};  ///< The underlying view's end sentinel
+  std::ranges::sentinel_t<View const> end_{};  ///< The underlying view's end sentinel
 };
 
 namespace views {
-- 
2.43.0


From 3e8b95297a8f524a93af9aba3ed15b03f5ea7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 22/25] fix: let views::pctdecode be applied to its own result

Class template argument deduction prefers to copy a pctdecode_view, so that
decoding a decoded range did nothing.
---
 include/uri/pctdecode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 147a8b7..c33e46b 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -239,7 +239,8 @@ namespace details {
 struct pctdecode_range_adaptor {
   template <std::ranges::viewable_range Range>
   constexpr auto operator() (Range&& r) const {
-    return pctdecode_view{std::forward<Range> (r)};
+    // (Class template argument deduction would copy a pctdecode_view.)
+    return pctdecode_view<std::views::all_t<Range>>{std::forward<Range> (r)};
   }
 };
 
-- 
2.43.0


From 3eb71f8eca09946073cb3cd6772c88456479c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 23/25] fix: let uri-split fail when its input cannot be read
 or its output not written

---
 tools/uri-split/uri-split.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tools/uri-split/uri-split.cpp b/tools/uri-split/uri-split.cpp
index cd9a04e..ac64076 100644
--- a/tools/uri-split/uri-split.cpp
+++ b/tools/uri-split/uri-split.cpp
@@ -10,6 +10,7 @@
 // See https://github.com/paulhuggett/uri/blob/main/LICENSE for information.
 // SPDX-License-Identifier: MIT
 //===----------------------------------------------------------------------===//
+#include <cstdio>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -46,6 +47,17 @@ bool read_stream (std::istream& is) {
               << "\n query: " << value_or_none (r->query)
               << "\n fragment: " << value_or_none (r->fragment) << '\n';
   }
+  // The loop also ends if reading fails.
+  return !is.bad ();
+}
+
+// Writes everything that is still buffered. Returns false if some of the output was lost.
+bool flush_output () {
+  std::cout.flush ();
+  if (!std::cout) {
+    std::cerr << "Error: couldn't write the output\n";
+    return false;
+  }
   return true;
 }
 
@@ -55,7 +67,8 @@ int main (int argc, char const* argv[]) {
   int exit_code = EXIT_SUCCESS;
   try {
     if (argc == 1) {
-      return read_stream (std::cin) ? EXIT_SUCCESS : EXIT_FAILURE;
+      // std::cin shares the state of stdin: for it, an error looks like the end of the input.
+      return read_stream (std::cin) && std::ferror (stdin) == 0 && flush_output () ? EXIT_SUCCESS : EXIT_FAILURE;
     }
 
     for (int arg = 1; arg < argc; ++arg) {
@@ -69,6 +82,9 @@ int main (int argc, char const* argv[]) {
         return EXIT_FAILURE;
       }
     }
+    if (!flush_output ()) {
+      return EXIT_FAILURE;
+    }
   } catch (std::exception const& ex) {
     std::cerr << "Error: " << ex.what () << '\n';
     exit_code = EXIT_FAILURE;
-- 
2.43.0


From c1dfcd108137dc54a1ce61008fb86cc484179f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 24/25] fix: leave the UTF-8 transcoder ready for more input
 after end_cp

---
 include/uri/icubaby.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index dde99f0..5e1206e 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -876,7 +876,8 @@ public:
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
   constexpr OutputIterator end_cp (OutputIterator dest) {
     if (state_ != accept) {
-      state_ = reject;
+      // Start afresh: as nothing is pending, partial() is false and a following code point is not lost.
+      state_ = accept;
       *(dest++) = replacement_char;
       well_formed_ = false;
     }
-- 
2.43.0


From 9ac20d976513342a69e504c78914cc05c32d2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 25/25] fix: several threads can read one transcode_view at
 once

Iterators of a const transcode_view record malformed input in the view, which was a data race when threads shared it.
---
 include/uri/icubaby.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5e1206e..eef9ce0 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -86,6 +86,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
@@ -2094,13 +2095,31 @@ public:
   }
 
   /// \returns True if the input processed was well formed.
-  [[nodiscard]] constexpr bool well_formed () const noexcept { return well_formed_; }
+  [[nodiscard]] constexpr bool well_formed () const noexcept { return well_formed_.get (); }
 
 private:
   /// The underlying view from which input is drawn.
   ICUBABY_NO_UNIQUE_ADDRESS View base_ = View ();
-  /// True if the input consumed is well formed, false otherwise.
-  mutable bool well_formed_ = true;
+  /// True if the input consumed is well formed, false otherwise. The iterators of a const view record malformed input
+  /// here: as that view may be in use by several threads at once, this must be atomic.
+  class well_formed_flag {
+  public:
+    constexpr well_formed_flag () noexcept = default;
+    well_formed_flag (well_formed_flag const& rhs) noexcept : value_{rhs.get ()} {}
+    ~well_formed_flag () noexcept = default;
+
+    well_formed_flag& operator= (well_formed_flag const& rhs) noexcept {
+      value_.store (rhs.get (), std::memory_order_relaxed);
+      return *this;
+    }
+
+    [[nodiscard]] bool get () const noexcept { return value_.load (std::memory_order_relaxed); }
+    void clear () noexcept { value_.store (false, std::memory_order_relaxed); }
+
+  private:
+    std::atomic<bool> value_{true};
+  };
+  mutable well_formed_flag well_formed_;
 };
 
 /// The maximum number of bytes that can be produced by a single code-unit being passed to a transcoder.
@@ -2287,7 +2306,7 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
     result = next_;
   }
   if (!transcoder_.well_formed ()) {
-    parent->well_formed_ = false;
+    parent->well_formed_.clear ();
   }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
-- 
2.43.0


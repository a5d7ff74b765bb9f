From 55bf35a5e500ad859fc8cc331a6e0f9bb2aab7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 01/43] fix: load complete P1/P3 images and reject incomplete
 ones

The last component was never consumed, so every complete ascii image was
rejected with "invalid data len", and an image with missing components was
returned with uninitialised pixels.
---
 src/ppocr/image/image_from_file.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..3e36ec6 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -283,8 +283,12 @@ Image image_from_file(const char * filename, unsigned luminance)
             }
         }
 
-        // skip blank
-        for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
+        if (compunt_counter != img_size) {
+            throw std::runtime_error(invalid_data_len);
+        }
+
+        // skip the last component and blanks
+        for (++p; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
         if (p != end) {
-- 
2.43.0


From 8acc552cc9ee0fcefa726108fdb8f03e57a59bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 02/43] fix: do not use the unread tail of a file shorter than
 announced

When read() reaches the end of the file before st_size bytes, the remainder of
the buffer is uninitialised.
---
 src/ppocr/image/image_from_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 3e36ec6..17d1968 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -105,6 +105,9 @@ namespace
             p += res;
         }
 
+        // the file may be shorter than st_size
+        buf.len -= remaining;
+
         return buf;
     }
 
-- 
2.43.0


From 7ee7c8c3ec207883b6c35de48edf02d713eafe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 03/43] fix: row size of a P4 image overflows with a huge width

width + 7 wrapped in unsigned arithmetic: a row was then considered empty and
the pixels were read after the end of the file.
---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 17d1968..c05b0ca 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -242,7 +242,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (std::size_t{header.width} + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 1a4e1cf63b2a3a4303a52b7196010c7e9def6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 04/43] fix: accept the smallest P1 and P4 images

"P4\n1 1\n" followed by one byte is a valid 8 bytes file.
---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c05b0ca..e28a377 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -128,7 +128,7 @@ namespace
             // ['0'-'9']+ '\n'                  # max value (when type != 1 or 4)
             // data
 
-            if (end - p < 9) {
+            if (end - p < 8) {
                 return false;
             }
 
-- 
2.43.0


From c71c249cdbb0ea0d25c58b60fd2797a8a6599fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 05/43] fix: the last column of an image is never part of a
 character

A character which touches the right edge lost its last column, and a character
in the last column only was ignored.
---
 src/ppocr/box_char/make_box_character.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index a61c3e2..680ef26 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -57,8 +57,7 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned w = x;
 
-    while (w + 1 < bnd.width()) {
-        ++w;
+    while (w != bnd.width() && ++w != bnd.width()) {
         if ([&image](Pixel const * d, unsigned w, unsigned h) -> bool {
             for (auto e = d+w*h; d != e; d += w) {
                 if (is_pix_letter(*d) && (
-- 
2.43.0


From b0fa2311cad41576f8556a476fe721028b6fbeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 06/43] fix: division by zero when two proportions are null

A zone with less than 1% of the border has a proportion of 0.
---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..db16c1d 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return a+b ? a*100/(a+b) : 50u; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From 53f9f6786e0c33a452ac8792ad6bae585b3f19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 07/43] fix: null terminator of words with a length multiple of
 4

There was no place for the terminator: it was overwritten by the next word or
written after the end of the buffer.
---
 src/ppocr/ocr2/glyphs.cpp | 5 +++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..8afd983 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,8 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            // size + characters + null character
+            buf_word_sz += p.first.size() / sizeof(unsigned) + 2;
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +85,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += p.first.size() / sizeof(unsigned) + 1;
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..295cf3a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,7 +74,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From b030fb4fb0c007376af97e858862c3ec62f6bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 08/43] fix: word_index_of finds a word from one of its
 prefixes

The words were compared on the length of the searched word only (and read after
their end).
---
 src/ppocr/ocr2/glyphs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 295cf3a..a4cf9de 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -67,7 +67,8 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto const& word = this->get_word_(i);
+            auto r = s.compare(std::string_view(word.data(), word.size()));
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From 61b9eb84fb728198420719c42bca2159496aeebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 09/43] fix: ids of views are stored by rank instead of by
 glyph

get_views_indexes_ordered()[i] is used as the id of the views of the glyph i,
but it contained the id of the i-th glyph in views order: unrelated glyphs were
merged and identical ones were not, according to the order of the database.
---
 src/ppocr/ocr2/views_index_ordered.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/ocr2/views_index_ordered.hpp b/src/ppocr/ocr2/views_index_ordered.hpp
index 61028a0..d83dde1 100644
--- a/src/ppocr/ocr2/views_index_ordered.hpp
+++ b/src/ppocr/ocr2/views_index_ordered.hpp
@@ -32,20 +32,14 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
         std::vector<std::reference_wrapper<Views const>> glyph_refs(glyphs.begin(), glyphs.end());
         std::sort(glyph_refs.begin(), glyph_refs.end(), LtViews{});
 
-        auto first = glyph_refs.begin() + 1;
-        auto last = glyph_refs.end();
-        // re-assign duplication
-        for (; first != last; ++first) {
-            if (EqViews{}(first->get(), (first-1)->get())) {
-                *first = *(first-1);
-            }
-        }
-
         id_views.resize(glyphs.size());
-        auto it = id_views.begin();
+        // same id for same words
+        Views const * id = nullptr;
         for (Views const & g : glyph_refs) {
-            *it = static_cast<unsigned>(&g - &glyphs[0]);
-            ++it;
+            if (!id || !EqViews{}(g, *id)) {
+                id = &g;
+            }
+            id_views[static_cast<std::size_t>(&g - &glyphs[0])] = static_cast<unsigned>(id - &glyphs[0]);
         }
     }
     return id_views;
-- 
2.43.0


From 6843f2c24562bd971d97fea5694d1f794dde974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 10/43] fix: out of range access when a word of the dictionary
 is empty

A blank line in a list of words is enough. An empty word has no place in the
trie, it is ignored.
---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From 15f73284198a875146e0503f8ac08ed4dbdb70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 11/43] fix: invalid utf-8 sequences are read after the end of
 the string

A lead byte without its continuation bytes (latin-1 text for example) skipped
the null terminator. Such a sequence now ends the text, as a stray continuation
byte already does.
---
 src/ppocr/utils/utf.hpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/ppocr/utils/utf.hpp b/src/ppocr/utils/utf.hpp
index 951aae1..3ed2394 100644
--- a/src/ppocr/utils/utf.hpp
+++ b/src/ppocr/utils/utf.hpp
@@ -20,6 +20,17 @@
 #define PPOCR_SRC_UTILS_UTF_HPP
 
 namespace ppocr { namespace utf {
+    // never reads after the first byte which is not a continuation byte (as the null terminator)
+    inline bool has_continuation_bytes(const uint8_t * p, unsigned n)
+    {
+        for (; n; --n, ++p) {
+            if ((*p & 0xC0) != 0x80) {
+                return false;
+            }
+        }
+        return true;
+    }
+
 // TODO redemption classe
     class UTF8toUnicodeIterator
     {
@@ -47,15 +58,27 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!has_continuation_bytes(source, 1)) {
+                        this->ucode = 0;
+                        break;
+                    }
                     this->ucode = ((this->ucode & 0x1F) << 6)|(source[0] & 0x3F);
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!has_continuation_bytes(source, 2)) {
+                        this->ucode = 0;
+                        break;
+                    }
                     this->ucode = ((this->ucode & 0x0F) << 12)|((source[0] & 0x3F) << 6)|(source[1] & 0x3F);
                     source += 2;
                 break;
                 case 0xF:
+                    if (!has_continuation_bytes(source, 3)) {
+                        this->ucode = 0;
+                        break;
+                    }
                     this->ucode = ((this->ucode & 0x07) << 18)|((source[0] & 0x3F) << 12)|((source[1] & 0x3F) << 6)|(source[2] & 0x3F);
                     source += 3;
                 break;
@@ -102,15 +125,27 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!has_continuation_bytes(source, 1)) {
+                        this->ucode = 0;
+                        break;
+                    }
                     this->ucode = (this->ucode << 8) | source[0];
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!has_continuation_bytes(source, 2)) {
+                        this->ucode = 0;
+                        break;
+                    }
                     this->ucode = (this->ucode << 16) | (source[0] << 8) | source[1];
                     source += 2;
                 break;
                 case 0xF:
+                    if (!has_continuation_bytes(source, 3)) {
+                        this->ucode = 0;
+                        break;
+                    }
                     this->ucode = (this->ucode << 24) | (source[0] << 16) | (source[1] << 8) | source[2];
                     source += 3;
                 break;
-- 
2.43.0


From fb34c8b6096b4632a23cf42ebd7225d49b5b6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 12/43] fix: candidates with several characters at the last
 position

Only the first character of the last candidate was compared with the
dictionary, the others were lost.
---
 src/ppocr/spell/word_disambiguouser.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 28508ac..3a1b73e 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -59,22 +59,19 @@ private:
         auto const c = *it;
         auto pos = rng.lower_bound(c);
         if (pos != rng.end() && pos->get() == c) {
-            auto next_first = first;
-            ++next_first;
-            if (next_first == last) {
-                if (pos->is_terminal()) {
+            if (*++it) {
+                if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
                     set_c(output, c);
                     return true;
                 }
             }
-            else if (!pos->empty()) {
-                if (*++it) {
-                    if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                        set_c(output, c);
-                        return true;
-                    }
-                }
-                else if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
+            else {
+                auto next_first = first;
+                ++next_first;
+                if (next_first == last
+                    ? pos->is_terminal()
+                    : disambiguous_impl(pos->childrens(), next_first, last, output)
+                ) {
                     set_c(output, c);
                     return true;
                 }
-- 
2.43.0


From b6129a85ba07cfa192859a5d937b5887ca2e437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 13/43] fix: the first box is ignored in the computation of the
 maximum lines

Out of bounds write when the first box is the lowest, and enormous allocation
with only one box.
---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..8f1d635 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(min_top)
         , min_bottom(first->bottom())
+        , max_bottom(min_bottom)
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From 850be811293526913e06a9975cec5c362c684422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 14/43] fix: combined line classes reject positions accepted by
 one of the classes

Upper|Below and Below|Above should only reject what is rejected by both Upper
and Below (respectively Below and Above). The tolerance was on the wrong side:
a comma whose bottom is exactly on the baseline was removed.
---
 src/ppocr/ocr2/filter_by_lines.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 8f1d635..2a22fe3 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -143,9 +143,9 @@ void ppocr::ocr2::filter_by_lines(
             case WordLines::Above:
                 return ypos <= line_pos + 1;
             case WordLines::Upper | WordLines::Below:
-                return ypos + 1 > line_pos;
+                return ypos > line_pos + 1;
             case WordLines::Below | WordLines::Above:
-                return ypos < line_pos + 1;
+                return ypos + 1 < line_pos;
         }
         return false;
     };
-- 
2.43.0


From 4a608acd1bd2c3b999ae16401b566b7091c14359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 15/43] fix: unrecognized characters and space lost at the
 beginning of the text

Positions without candidate before the first word were neither displayed nor
counted, and the space after a first word made only of punctuation was lost.
---
 src/ppocr/ocr2/disambiguous_with_dict.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/ocr2/disambiguous_with_dict.cpp b/src/ppocr/ocr2/disambiguous_with_dict.cpp
index 060a437..d30a321 100644
--- a/src/ppocr/ocr2/disambiguous_with_dict.cpp
+++ b/src/ppocr/ocr2/disambiguous_with_dict.cpp
@@ -168,11 +168,8 @@ unsigned ppocr::ocr2::disambiguous_with_dict(
 
     auto first = ambiguous.begin();
     auto last = ambiguous.end();
-    auto middle = std::find_if_not(first, first + *it_space, search_fn);
-    for (; first != middle; ++first) {
-        append(result, glyphs, *first);
-    }
-    if (first == ambiguous.begin() + *it_space) {
+    // a space before the first character is not a word break
+    if (*it_space == 0) {
         ++it_space;
     }
     while (first != last) {
-- 
2.43.0


From ba1ffb9ca9affb6912fcda77d172bd31e367eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 16/43] fix: infinite loop when a replacement contains its
 pattern

---
 src/ppocr/ocr2/replacement.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..b7ece77 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -41,6 +41,7 @@ inline void replace_words(std::string & result, Replacements const & replacement
         std::string::size_type pos = 0;
         while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 6e79657f15b38a36af98ed321bc02dabb3d7f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 17/43] fix: replacement of the previous rule used by the last
 line

When the last line has neither replacement nor newline.
---
 src/ppocr/ocr2/replacement.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..2156968 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -24,15 +24,13 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacemen
     using char_traits = std::char_traits<char>;
     Replacement rep;
     while (is) {
+        rep.replace.clear();
         is >> rep.pattern;
         auto c = is.rdbuf()->sgetc();
         if (!char_traits::eq_int_type(c, char_traits::eof())) {
             if (!char_traits::eq(char_traits::to_char_type(c), '\n')) {
                 is >> rep.replace;
             }
-            else {
-                rep.replace.clear();
-            }
         }
         if (is) {
             replacements.push_back(rep);
-- 
2.43.0


From ffd0ed231ab0926c8e5d5df0050e2e664158fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 18/43] fix: make_trie_dictionary only reads its first file

Opening a file with a stream already opened is an error.
---
 main/make_trie_dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..4efe5d0 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -34,11 +34,10 @@ int main(int ac, char ** av) {
         return 1;
     }
 
-    std::ifstream file;
     std::vector<std::string> words;
 
     for (int i = 1; i < ac; ++i) {
-        file.open(av[i]);
+        std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
             continue;
-- 
2.43.0


From 57edfa697ab5fdb9f4e0c50cfe8ce3185e49a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 19/43] fix: unrecognized_rate is not a rate

The number of characters was only used when it is 0.
---
 main/ocr2_extract_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..4a639dc 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -191,7 +191,7 @@ int main(int ac, char **av)
       << " ## result: " << result
       << "\nunrecognized_count: " << unrecognized_count
       << "\ncount: " << ambiguous.size()
-      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
+      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
 }
-- 
2.43.0


From 43e8cb4169e5f48b8e9769e19123278ebec69f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 20/43] fix: characters with the same image share their
 candidates

The filters remove candidates according to the position of the character on the
line, but the list is that of the image cache: , and ' with the same image had
the same result.
---
 main/ocr2_extract_text.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index 4a639dc..f4b38be 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -36,6 +36,7 @@
 
 #include <iostream>
 #include <chrono>
+#include <deque>
 
 using namespace ppocr;
 
@@ -100,6 +101,8 @@ int main(int ac, char **av)
 
     ocr2::image_cache_type_t images_cache;
 
+    // each position has its own views (characters with the same image are filtered separately)
+    std::deque<ocr2::view_ref_list> views_by_position;
     ocr2::ambiguous_t ambiguous;
 
     std::cout << " ## go" << std::endl;
@@ -130,7 +133,7 @@ int main(int ac, char **av)
 
         auto it = images_cache.find(img_word);
         if (it != images_cache.end()) {
-            ambiguous.emplace_back(it->second);
+            ambiguous.emplace_back(views_by_position.emplace_back(it->second));
         }
         else {
             std::cout << img_word;
@@ -154,7 +157,7 @@ int main(int ac, char **av)
                 img_word.clone(),
                 std::move(cache_element)
             ).first;
-            ambiguous.emplace_back(it->second);
+            ambiguous.emplace_back(views_by_position.emplace_back(it->second));
             for (ocr2::View const & view : it->second) {
                 std::cout << glyphs.get_word(view) << " ";
             }
-- 
2.43.0


From 1c7fd2e0006e86236a1f796cfcbc6b798c13a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 21/43] fix: out of range access with a truncated dictionary

---
 src/ppocr/spell/dictionary.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 42f35a7..1781e7d 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -97,6 +97,14 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+    std::size_t i = 0;
+    for (auto const & node : nodes) {
+        if (i + node.relative_pos() + node.size() > nodes.size()) {
+            throw std::runtime_error("bad format");
+        }
+        ++i;
+    }
+
     dict = Dictionary(std::move(nodes));
     return is;
 }
-- 
2.43.0


From 27c9b2d0a2559d9357add05115a016f538624eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 22/43] fix: truncated datas are silently completed with zeros

---
 src/ppocr/defined_loader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index e3d6f15..35290ed 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -44,6 +44,7 @@
 
 #include <ostream>
 #include <istream>
+#include <stdexcept>
 
 namespace ppocr {
 
@@ -213,6 +214,9 @@ namespace details_ {
                     this->read(x);
                 }
             }
+            if (!this->is_) {
+                throw std::runtime_error("bad format");
+            }
 
             data = loader2::Data<Strategy>(std::move(cont));
 
-- 
2.43.0


From 4d0d7219ba127f21a97ef1c74076f86284b62df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 23/43] fix: truncated views are silently completed with the
 first word

Or with an out of range access when there is no word.
---
 src/ppocr/ocr2/glyphs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 8afd983..e3ee82a 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -59,6 +59,10 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++i;
         }
 
+        if (i != n) {
+            break;
+        }
+
         glyphs.push_back(std::move(views));
     }
 
-- 
2.43.0


From f4754d50156d6539f996f00e3f42ec097bc098a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 24/43] fix: read glyphs without views in the recogniser's
 glyph reader

---
 src/ppocr/ocr2/glyphs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index e3ee82a..43f6b8c 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -36,7 +36,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
 
     while (is.ignore(limit_max, '\n')) {
         unsigned n;
-        if (!(is >> n)) {
+        if (!(is >> n).ignore(limit_max, '\n')) {
             break;
         }
         Views views;
-- 
2.43.0


From 22f264f10baf8a4d9aa5c64172c2fa09b03162cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:17 +0000
Subject: [PATCH 25/43] fix: children of an empty flat trie access an element
 that does not exist

---
 src/ppocr/container/trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/container/trie.hpp b/src/ppocr/container/trie.hpp
index 012ceb1..40a62d3 100644
--- a/src/ppocr/container/trie.hpp
+++ b/src/ppocr/container/trie.hpp
@@ -249,8 +249,8 @@ public:
     range childrens() const
     {
         return {
-            &this->elems_[0],
-            &this->elems_[0] + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
+            this->elems_.data(),
+            this->elems_.data() + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
         };
     }
 
-- 
2.43.0


From 0316723fc1fed4377cc7dab00059edd03ca4f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 26/43] fix: the second word of a position was not compared
 with the lines

When the first word of a position is kept by filter_by_lines, the do-while
loop skips the second word without checking it. Which positions give the mean
line does not change.
---
 src/ppocr/ocr2/filter_by_lines.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 2a22fe3..136523f 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -50,11 +50,11 @@ namespace {
             auto out = vec.begin();
             auto last = vec.end();
             if (!pred(*(first-1))) {
-                do {
-                    first = std::find_if(first+1, last, view_equal_to(first->get().word));
-                    ++count;
-                } while (first != last && !pred(*first));
-                out = first;
+                // the first word and the second one count for one
+                auto rlast = std::find_if(first+1, last, view_equal_to(first->get().word));
+                out = pred(*first) ? first : rlast;
+                first = rlast;
+                ++count;
             }
             while (first != last) {
                 auto rlast = std::find_if(first+1, last, view_equal_to(first->get().word));
-- 
2.43.0


From 223f2d28f09b04fb58ec9aa000e1ed9fec03a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 27/43] fix: line classes out of range were read as other
 classes

Only the 3 low bits of each value were kept.
---
 src/ppocr/ocr2/word_lines.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/ocr2/word_lines.cpp b/src/ppocr/ocr2/word_lines.cpp
index ea3d983..8753fe4 100644
--- a/src/ppocr/ocr2/word_lines.cpp
+++ b/src/ppocr/ocr2/word_lines.cpp
@@ -29,6 +29,11 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, WordLines & wlines) {
     unsigned baseline;
 
     if (is >> ascentline >> capline >> meanline >> baseline) {
+        // 3 bits by line
+        if ((ascentline | capline | meanline | baseline) > 7u) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         wlines.ascentline = ascentline;
         wlines.capline = capline;
         wlines.meanline = meanline;
-- 
2.43.0


From 955ca314859a74442a7ca07bec682228762779f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 28/43] fix: inconsistent node positions of a dictionary were
 accepted

---
 src/ppocr/spell/dictionary.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 1781e7d..8baee3b 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -97,13 +97,19 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+    // breadth-first order: the children of a node follow those of the previous node
     std::size_t i = 0;
+    std::size_t next = nodes.empty() ? 0 : nodes[0].relative_pos();
     for (auto const & node : nodes) {
-        if (i + node.relative_pos() + node.size() > nodes.size()) {
+        if (next <= i || i + node.relative_pos() != next) {
             throw std::runtime_error("bad format");
         }
+        next += node.size();
         ++i;
     }
+    if (next != nodes.size()) {
+        throw std::runtime_error("bad format");
+    }
 
     dict = Dictionary(std::move(nodes));
     return is;
-- 
2.43.0


From 2e18fcd795510bc8064148afdf47f5179c4cf798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 29/43] fix: a wrong count in a data file allocates memory for
 values that do not exist

---
 src/ppocr/defined_loader.hpp        | 15 +++++++--------
 src/ppocr/loader2/glyphs_loader.cpp |  8 ++++----
 src/ppocr/ocr2/glyphs.cpp           |  2 +-
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index 35290ed..1c32779 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -208,11 +208,10 @@ namespace details_ {
         void operator()(loader2::Data<Strategy> & data, loader2::Data<Strategies> & ... other) const {
             typename loader2::Data<Strategy>::container_type cont;
 
-            if (this->is_) {
-                cont.resize(this->data_sz_);
-                for (auto & x : cont) {
-                    this->read(x);
-                }
+            // grows with the values read, the number of values can be wrong
+            while (this->is_ && cont.size() < this->data_sz_) {
+                cont.emplace_back();
+                this->read(cont.back());
             }
             if (!this->is_) {
                 throw std::runtime_error("bad format");
@@ -233,9 +232,9 @@ namespace details_ {
         void read(std::vector<T> & cont) const {
             std::size_t sz;
             if (this->is_ >> sz) {
-                cont.resize(sz);
-                for (auto & x : cont) {
-                    this->is_ >> x;
+                while (this->is_ && cont.size() < sz) {
+                    cont.emplace_back();
+                    this->is_ >> cont.back();
                 }
             }
         }
diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 8db5621..2c99821 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -33,10 +33,10 @@ std::istream & operator>>(std::istream& is, Views & views) {
     if (!(is >> n)) {
         return is;
     }
-    unsigned i = 0;
-    views.resize(n);
-    while (i < n && (is >> views[i])) {
-        ++i;
+    views.clear();
+    View view;
+    while (views.size() < n && (is >> view)) {
+        views.push_back(view);
     }
     return is;
 }
diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 43f6b8c..17f3dbf 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -40,10 +40,10 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             break;
         }
         Views views;
-        views.resize(n);
 
         unsigned i = 0;
         while (i < n && (is >> word >> font).ignore(limit_max, '\n')) {
+            views.emplace_back();
             auto it_word = word_map.find(word);
             if (it_word == word_map.end()) {
                 it_word = word_map.emplace(std::move(word), word_map.size()).first;
-- 
2.43.0


From 935726f21082c67e3c3514aba7ca72446072a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:07 +0000
Subject: [PATCH 30/43] fix: the recogniser took any line starting with a
 number as a number of views

---
 src/ppocr/ocr2/glyphs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 17f3dbf..ef223cf 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -36,7 +36,8 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
 
     while (is.ignore(limit_max, '\n')) {
         unsigned n;
-        if (!(is >> n).ignore(limit_max, '\n')) {
+        // a line with something else is not a number of views
+        if (!(is >> n) || is.get() != '\n') {
             break;
         }
         Views views;
-- 
2.43.0


From 5786f9e39843420d01bef1a295f95136ddd8c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 31/43] fix: access to the first word of a glyph without views

---
 src/ppocr/ocr2/data_indexes_by_words.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/data_indexes_by_words.cpp b/src/ppocr/ocr2/data_indexes_by_words.cpp
index c625a8e..a0c41ec 100644
--- a/src/ppocr/ocr2/data_indexes_by_words.cpp
+++ b/src/ppocr/ocr2/data_indexes_by_words.cpp
@@ -27,8 +27,11 @@ ppocr::ocr2::DataIndexesByWords::DataIndexesByWords(const ppocr::ocr2::Glyphs& g
 
     unsigned n = 0;
     for (auto & views : glyphs) {
-        auto & e = map[views.front().word];
-        e.emplace_back(n++);
+        if (!views.empty()) {
+            auto & e = map[views.front().word];
+            e.emplace_back(n);
+        }
+        ++n;
     }
 
     this->indexes_by_words.resize(glyphs.size());
-- 
2.43.0


From 77cc1b0f5bda205d7479515b8505f55461da4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 32/43] fix: glyph with more pixels than the area of its bounds

---
 src/ppocr/loader2/image_io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/loader2/image_io.cpp b/src/ppocr/loader2/image_io.cpp
index 309d962..1c6300a 100644
--- a/src/ppocr/loader2/image_io.cpp
+++ b/src/ppocr/loader2/image_io.cpp
@@ -27,6 +27,11 @@ namespace ppocr { namespace loader2 {
 std::istream & read_img(std::istream & is, Image & img) {
     Bounds bnd;
     if (is >> bnd) {
+        // the number of pixels does not fit in area()
+        if (bnd.width() && bnd.area() / bnd.width() != bnd.height()) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         std::unique_ptr<Pixel[]> p(new Pixel[bnd.area()]);
         is.rdbuf()->snextc();
         is.read(p.get(), bnd.area());
-- 
2.43.0


From 458f385e897d75a7049591414c843d5c23fc456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 33/43] fix: gravity and direction of large characters overflow
 32 bits

The weighted sums multiplied by 100 do not fit in 32 bits for characters
of about 530x530 pixels and more (full ink: gravity 20 instead of 100).
---
 src/ppocr/strategies/hdirection2.cpp                   |  2 +-
 src/ppocr/strategies/hgravity2.cpp                     |  2 +-
 .../strategies/utils/diagonal_vertical_direction.hpp   |  4 ++--
 .../strategies/utils/diagonal_vertical_gravity.hpp     | 10 +++++-----
 src/ppocr/strategies/utils/horizontal_gravity.hpp      |  4 ++--
 src/ppocr/strategies/utils/top_bottom.hpp              |  5 ++++-
 6 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/strategies/hdirection2.cpp b/src/ppocr/strategies/hdirection2.cpp
index 47aabb2..b301efa 100644
--- a/src/ppocr/strategies/hdirection2.cpp
+++ b/src/ppocr/strategies/hdirection2.cpp
@@ -29,7 +29,7 @@ hdirection2::value_type hdirection2::load(Image const & img, Image const & /*img
     if (!hby2) {
         return 50;
     }
-    auto const area = hby2 * img.width();
+    auto const area = std::uint64_t{hby2} * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
     return ret;
diff --git a/src/ppocr/strategies/hgravity2.cpp b/src/ppocr/strategies/hgravity2.cpp
index 68947cd..6511886 100644
--- a/src/ppocr/strategies/hgravity2.cpp
+++ b/src/ppocr/strategies/hgravity2.cpp
@@ -29,7 +29,7 @@ hgravity2::value_type hgravity2::load(Image const & img, Image const & /*img90*/
     if (!hby2) {
         return 50;
     }
-    auto const area = ((hby2 * (hby2 + 1)) / 2) * img.width();
+    auto const area = ((std::uint64_t{hby2} * (hby2 + 1)) / 2) * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
     return ret;
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp b/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
index 342d750..0802bab 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
@@ -60,13 +60,13 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_direction_area(const Image& img)
+inline std::uint64_t diagonal_vertical_direction_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
index e7ab70d..859d8ae 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
@@ -25,10 +25,10 @@
 namespace ppocr { namespace strategies { namespace utils {
 
 namespace details_ {
-    inline unsigned count_diagonal_vertical_gravity(
+    inline std::uint64_t count_diagonal_vertical_gravity(
         Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top
     ) {
-        unsigned g = 0;
+        std::uint64_t g = 0;
         unsigned coef = is_top ? bnd.height() : 1;
         unsigned ih = 0;
         unsigned const wdiv2 = bnd.width()/2;
@@ -47,18 +47,18 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_gravity_area(const Image& img)
+inline std::uint64_t diagonal_vertical_gravity_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
         unsigned x = wdiv2 - bnd.width() / (bnd.height() - ih) / 2;
-        area += (bnd.width() - x*2) * (ih+1);
+        area += std::uint64_t{bnd.width() - x*2} * (ih+1);
     }
     return area * 2;
 }
diff --git a/src/ppocr/strategies/utils/horizontal_gravity.hpp b/src/ppocr/strategies/utils/horizontal_gravity.hpp
index 5652f62..be8fbc6 100644
--- a/src/ppocr/strategies/utils/horizontal_gravity.hpp
+++ b/src/ppocr/strategies/utils/horizontal_gravity.hpp
@@ -29,9 +29,9 @@ namespace ppocr { namespace strategies { namespace utils {
  * Multiply each pixel with the distance [\a bnd.height(), y]
  */
 inline
-unsigned horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
+std::uint64_t horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
 {
-    unsigned /*long*/ g = 0;
+    std::uint64_t g = 0;
     unsigned h = is_top ? bnd.height() : 1;
     while (p != ep) {
         for (auto epl = p + bnd.width(); p != epl; ++p) {
diff --git a/src/ppocr/strategies/utils/top_bottom.hpp b/src/ppocr/strategies/utils/top_bottom.hpp
index b673532..b4e5472 100644
--- a/src/ppocr/strategies/utils/top_bottom.hpp
+++ b/src/ppocr/strategies/utils/top_bottom.hpp
@@ -19,9 +19,12 @@
 #ifndef PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 #define PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies { namespace utils {
 
-struct TopBottom { unsigned top, bottom; };
+// the weights of a large image, multiplied by 100, do not fit in 32 bits
+struct TopBottom { std::uint64_t top, bottom; };
 
 } } }
 
-- 
2.43.0


From 6ba9f9434a753dc664e0936b60d1fde541ecb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:31 +0000
Subject: [PATCH 34/43] fix: report an output that could not be written

write_glyphs, normalize_glyphs, write_datas, make_trie_dictionary, show_glyphs
and ocr2_extract_text exited with 0 when the standard output failed (full disk),
so learning went on with a truncated file.
---
 main/make_trie_dictionary.cpp | 5 +++++
 main/normalize_glyphs.cpp     | 5 +++++
 main/ocr2_extract_text.cpp    | 5 +++++
 main/show_glyphs.cpp          | 5 +++++
 main/write_datas.cpp          | 5 +++++
 main/write_glyphs.cpp         | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 4efe5d0..606a5c3 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -50,4 +50,9 @@ int main(int ac, char ** av) {
     }
 
     std::cout << spell::Dictionary(std::move(words));
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index 517b261..dcbd8d6 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -91,4 +91,9 @@ int main(int ac, char **av)
 
     std::cerr << "Glyphs: " << glyphs.size() << std::endl;
     std::cout << glyphs;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f4b38be..2c975a3 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -197,4 +197,9 @@ int main(int ac, char **av)
       << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 9dcedbb..81fe97d 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -65,4 +65,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; ++i_ac) {
         load_file(av[i_ac], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index de12784..0d1e2a2 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -63,4 +63,9 @@ int main(int ac, char **av)
     }
 
     std::cout << datas;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 363d387..1f43f72 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -117,4 +117,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; i_ac += 3) {
         load_file(av[i_ac], av[i_ac+1], av[i_ac+2], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
-- 
2.43.0


From 4570d513cd7f50c036395c301fa55a0e014fe93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 35/43] fix: make_trie_dictionary reports files that cannot be
 read

An unreadable words file, or a read error in the middle of one, gave a
dictionary without these words and the exit status 0.
---
 main/make_trie_dictionary.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 606a5c3..0a2941f 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -40,13 +40,18 @@ int main(int ac, char ** av) {
         std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
-            continue;
+            return 2;
         }
 
         std::string s;
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+
+        if (!file.eof()) {
+            std::cerr << av[i] << ": read error\n";
+            return 5;
+        }
     }
 
     std::cout << spell::Dictionary(std::move(words));
-- 
2.43.0


From e0e516dcd42801dea0abddcb7be1510c58830d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 36/43] fix: write_glyphs reports a read error after the last
 definition

A read error was taken for the end of the text file, so remaining
definitions without character were not reported.
---
 main/write_glyphs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 1f43f72..e9e273d 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -90,6 +90,10 @@ static void load_file(
     if (file >> s) {
         throw_error(imagefilename, textfilename, fontname, "Box character not found");
     }
+
+    if (!file.eof()) {
+        throw_error(imagefilename, textfilename, fontname, "Read error");
+    }
 }
 
 }
-- 
2.43.0


From 548a50a1d66c83862ec8ec421dd90361f8cce068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:22 +0000
Subject: [PATCH 37/43] fix: learning works in a directory whose name contains
 a blank

---
 learning | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning b/learning
index dd93425..ddd9217 100755
--- a/learning
+++ b/learning
@@ -7,7 +7,7 @@ fi
 
 dir_launch="$(pwd)"
 write_glyphs="$(readlink -f "$1")"
-base="$(readlink -f "$(dirname $0)")"
+base="$(readlink -f "$(dirname "$0")")"
 
 learning() {
   cd "$base"/resources/fonts/"$1"/generated
-- 
2.43.0


From 52610f63868d1839817f83f9183f9a434a9b084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 38/43] fix: a luminance above 32 bits was taken for another
 one

---
 main/show_glyphs.cpp  | 6 ++++--
 main/write_glyphs.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 81fe97d..300f40a 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -23,6 +23,7 @@
 #include <iostream>
 
 #include <cstdlib>
+#include <limits>
 #include <cstring>
 #include <cerrno>
 
@@ -50,10 +51,11 @@ int main(int ac, char **av)
     if (ac > 3) {
         if (av[1][0] == '-' && av[1][1] == 'l' && av[1][2] == '\0') {
             char * p;
-            luminance = std::strtoul(av[2], &p, 10);
-            if (p == av[2] || *p != '\0' || errno) {
+            unsigned long const n = std::strtoul(av[2], &p, 10);
+            if (p == av[2] || *p != '\0' || errno || n > std::numeric_limits<unsigned>::max()) {
                 return 2;
             }
+            luminance = unsigned(n);
             i_ac += 2;
         }
     }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index e9e273d..82ff0eb 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -28,6 +28,7 @@
 #include <stdexcept>
 
 #include <cstdlib>
+#include <limits>
 #include <cstring>
 #include <cerrno>
 
@@ -106,10 +107,11 @@ int main(int ac, char **av)
     if (ac > 3) {
         if (av[1][0] == '-' && av[1][1] == 'l' && av[1][2] == '\0') {
             char * p;
-            luminance = std::strtoul(av[2], &p, 10);
-            if (p == av[2] || *p != '\0' || errno) {
+            unsigned long const n = std::strtoul(av[2], &p, 10);
+            if (p == av[2] || *p != '\0' || errno || n > std::numeric_limits<unsigned>::max()) {
                 return 2;
             }
+            luminance = unsigned(n);
             i_ac += 2;
         }
     }
-- 
2.43.0


From ae6d836cedde9180febcc2d0d0bc8ce16385a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:20 +0000
Subject: [PATCH 39/43] fix: percentages of pictures above 42 million pixels
 overflow 32 bits

---
 src/ppocr/strategies/density.cpp              |  4 +++-
 src/ppocr/strategies/dzdensity.cpp            | 13 +++++++------
 src/ppocr/strategies/proportionality.cpp      |  4 +++-
 src/ppocr/strategies/proportionality_zone.cpp |  3 ++-
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ppocr/strategies/density.cpp b/src/ppocr/strategies/density.cpp
index eb5de9d..e04488f 100644
--- a/src/ppocr/strategies/density.cpp
+++ b/src/ppocr/strategies/density.cpp
@@ -20,6 +20,8 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_type& /*ctx*/)
@@ -32,7 +34,7 @@ density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_
             ++count;
         }
     }
-    return count * 100 / img.area();
+    return value_type(std::uint64_t(count) * 100 / img.area());
 }
 
 } }
diff --git a/src/ppocr/strategies/dzdensity.cpp b/src/ppocr/strategies/dzdensity.cpp
index fda4cef..1c6ec86 100644
--- a/src/ppocr/strategies/dzdensity.cpp
+++ b/src/ppocr/strategies/dzdensity.cpp
@@ -20,6 +20,7 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
 #include <algorithm>
 
 namespace ppocr { namespace strategies {
@@ -27,10 +28,10 @@ namespace ppocr { namespace strategies {
 namespace {
     template<class Fn>
     void dzdensity_load_impl(Image const & img, Fn f) {
-        int const area = int(img.area());
-        int const h3 = int(img.height() * 3);
-        int const w3 = int(img.width() * 3);
-        int yp = 0;
+        std::int64_t const area = img.area();
+        std::int64_t const h3 = std::int64_t(img.height()) * 3;
+        std::int64_t const w3 = std::int64_t(img.width()) * 3;
+        std::int64_t yp = 0;
         for (unsigned y = 0; y < img.height(); ++y, yp += w3) {
             //double const d = double(img.width())/3.;
             //double const xs = std::ceil(double(y+1)*w/h-d);
@@ -52,8 +53,8 @@ dzdensity::value_type dzdensity::load(Image const & img, Image const & /*img90*/
         return 0;
     }
 
-    int res = 0;
-    int area = 0;
+    std::int64_t res = 0;
+    std::int64_t area = 0;
     auto data = img.data();
     dzdensity_load_impl(img, [&](int xs, int xe) {
         xs = std::max(0, xs);
diff --git a/src/ppocr/strategies/proportionality.cpp b/src/ppocr/strategies/proportionality.cpp
index 3d4c77f..b98420f 100644
--- a/src/ppocr/strategies/proportionality.cpp
+++ b/src/ppocr/strategies/proportionality.cpp
@@ -19,10 +19,12 @@
 #include "ppocr/strategies/proportionality.hpp"
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 
 namespace ppocr { namespace strategies {
 
 proportionality::value_type proportionality::load(Image const & img, Image const & /*img90*/, ctx_type& /*ctx*/)
-{ return img.width() * 100 / (img.width() + img.height()); }
+{ return value_type(std::uint64_t(img.width()) * 100 / (std::uint64_t(img.width()) + img.height())); }
 
 } }
diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index db16c1d..d11151a 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -20,6 +20,7 @@
 #include "ppocr/image/image.hpp"
 #include "ppocr/strategies/utils/relationship.hpp"
 
+#include <cstdint>
 #include <algorithm>
 #include <numeric>
 
@@ -51,7 +52,7 @@ proportionality_zone::value_type proportionality_zone::load(Image const & img, I
     ret.resize(static_cast<std::size_t>(it - ret.begin()));
 
     for (unsigned& n : ret) {
-        n = n * 100 / area;
+        n = unsigned(std::uint64_t(n) * 100 / area);
     }
 
     std::sort(ret.begin(), ret.end());
-- 
2.43.0


From d39351f6fa3b0f912c7e3524af3bccbdb2b902ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:14 +0000
Subject: [PATCH 40/43] fix: cut glyph files were accepted by the learning
 tools

---
 main/normalize_glyphs.cpp           |  2 +-
 main/write_datas.cpp                | 24 +++++++++++++++---------
 src/ppocr/loader2/glyphs_loader.cpp | 10 +++++++++-
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index dcbd8d6..8f3c119 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -50,7 +50,7 @@ int main(int ac, char **av)
 
         file >> glyphs;
 
-        if (!file.eof()) {
+        if (!file.eof() || file.bad()) {
             std::cerr << av[i] << ": read error\n";
             return 5;
         }
diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index 0d1e2a2..5aff6b9 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -22,8 +22,7 @@
 
 #include <iostream>
 #include <fstream>
-#include <algorithm>
-#include <limits>
+#include <string>
 
 #include <cstring>
 #include <cerrno>
@@ -46,16 +45,23 @@ int main(int ac, char **av)
         }
 
         Image img;
-        unsigned n;
-        while (loader2::read_img(file, img) >> n) {
-            file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-            while (n--) {
-                file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+        std::string word;
+        std::string font;
+        unsigned info_line;
+        bool is_complete = true;
+        while (is_complete && (file >> std::ws).peek() != std::ifstream::traits_type::eof()) {
+            unsigned n = 0;
+            loader2::read_img(file, img) >> n;
+            while (n && file >> word >> font >> info_line) {
+                --n;
+            }
+            is_complete = file && !n;
+            if (is_complete) {
+                datas.load(img);
             }
-            datas.load(img);
         }
 
-        if (!file.eof()) {
+        if (!is_complete || !file.eof()) {
             std::cout << '[' << file.rdbuf() << "]\n";
             std::cerr << av[1] << ": read error\n";
             return 5;
diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 2c99821..1a72436 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -50,7 +50,15 @@ std::istream & operator>>(std::istream& is, Glyph & glyph) {
 
 std::istream & operator>>(std::istream& is, Glyphs & glyphs) {
     Glyph glyph;
-    while (is >> glyph) {
+    for (;;) {
+        bool const is_end = (is >> std::ws).peek() == std::istream::traits_type::eof();
+        if (!(is >> glyph)) {
+            // the end of the stream is inside a glyph
+            if (!is_end && is.eof()) {
+                is.setstate(std::ios::badbit);
+            }
+            break;
+        }
         glyphs.push_back({std::move(glyph.img), glyph.views});
     }
     return is;
-- 
2.43.0


From ae87a69ff1171fbe187ba159a5e74e06678540f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:43 +0000
Subject: [PATCH 41/43] fix: an empty picture in a glyph file crashed
 write_datas

---
 main/write_datas.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index 5aff6b9..eba34a5 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -56,6 +56,10 @@ int main(int ac, char **av)
                 --n;
             }
             is_complete = file && !n;
+            if (is_complete && !img.area()) {
+                std::cerr << av[1] << ": empty image\n";
+                return 5;
+            }
             if (is_complete) {
                 datas.load(img);
             }
-- 
2.43.0


From 0a2c77a2ab09fbaf517c29348967208eaf0eafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:06 +0000
Subject: [PATCH 42/43] fix: a very long word overflowed the stack when a
 dictionary was built

---
 src/ppocr/container/trie.hpp | 58 ++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/ppocr/container/trie.hpp b/src/ppocr/container/trie.hpp
index 40a62d3..7448da7 100644
--- a/src/ppocr/container/trie.hpp
+++ b/src/ppocr/container/trie.hpp
@@ -78,22 +78,31 @@ public:
         this->insert_after(first, last);
     }
 
+    trie(trie const &) = default;
+    trie(trie &&) = default;
+    trie & operator = (trie const &) = default;
+    trie & operator = (trie &&) = default;
+
+    ~trie() {
+        // the last branch is destroyed without recursion
+        values_ nodes = std::move(this->nodes_);
+        while (!nodes.empty()) {
+            values_ childs = std::move(nodes.back().nodes_.nodes_);
+            nodes = std::move(childs);
+        }
+    }
+
     template<class RandIt>
     void insert_after(RandIt first, RandIt last, unsigned depth = 0u) {
-        while (first != last) {
-            using value_iterator = typename std::iterator_traits<RandIt>::value_type;
-            auto middle = std::upper_bound(
-                first, last, (*first)[depth],
-                [depth](T const & c, value_iterator const & s){
-                    return depth < s.size() && c < s[depth];
-                }
-            );
-            this->nodes_.emplace_back((*first)[depth], depth + 1 == first->size());
-            if (first->size() == depth + 1) {
-                ++first;
-            }
-            this->trie_back_().insert_after(first, middle, depth+1);
-            first = middle;
+        struct range_ { trie * parent; std::size_t pos; RandIt first; RandIt last; unsigned depth; };
+
+        // no recursion: there are as many levels as the longest word has values
+        std::vector<range_> ranges;
+        this->insert_childs_(first, last, depth, ranges);
+        while (!ranges.empty()) {
+            range_ const r = ranges.back();
+            ranges.pop_back();
+            r.parent->nodes_[r.pos].nodes_.insert_childs_(r.first, r.last, r.depth, ranges);
         }
     }
 
@@ -110,7 +119,26 @@ public:
     }
 
 private:
-    trie & trie_back_() { return this->nodes_.back().nodes_; }
+    template<class RandIt, class Ranges>
+    void insert_childs_(RandIt first, RandIt last, unsigned depth, Ranges & ranges) {
+        while (first != last) {
+            using value_iterator = typename std::iterator_traits<RandIt>::value_type;
+            auto middle = std::upper_bound(
+                first, last, (*first)[depth],
+                [depth](T const & c, value_iterator const & s){
+                    return depth < s.size() && c < s[depth];
+                }
+            );
+            this->nodes_.emplace_back((*first)[depth], depth + 1 == first->size());
+            if (first->size() == depth + 1) {
+                ++first;
+            }
+            if (first != middle) {
+                ranges.push_back({this, this->nodes_.size() - 1, first, middle, depth + 1});
+            }
+            first = middle;
+        }
+    }
 
     values_ nodes_;
 };
-- 
2.43.0


From 364690164bd50828313e4e2dfe71d50ed65dde67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:24 +0000
Subject: [PATCH 43/43] fix: reading a very long word with a dictionary
 overflowed the stack

---
 src/ppocr/spell/word_disambiguouser.hpp | 91 +++++++++++++------------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 3a1b73e..a314b02 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -22,7 +22,9 @@
 #include "ppocr/spell/dictionary.hpp"
 #include "ppocr/utils/utf.hpp"
 
-#include <algorithm>
+#include <initializer_list>
+#include <string>
+#include <vector>
 
 
 namespace ppocr { namespace spell {
@@ -35,60 +37,63 @@ struct WordDisambiguouser : Dictionary::Manipulator
         if (first == last || this->trie(dict).all().empty()) {
             return false;
         }
-        auto sz = output.size();
-        if (disambiguous_impl(this->trie(dict).childrens(), first, last, output)) {
-            std::swap_ranges(output.begin() + sz, output.begin() + sz + (output.size() - sz) / 2, output.rbegin());
-            return true;
-        }
-        return false;
-    }
+        using candidate_iterator = decltype((*first).begin());
+        struct position { trie_type::range rng; FwRngStrIt it; candidate_iterator candidate; std::size_t sz; };
 
-private:
-    template<class FwRngStrIt>
-    bool disambiguous_impl(trie_type::range rng, FwRngStrIt first, FwRngStrIt last, std::string & output) {
-        for (auto & s : *first) {
-            if (disambiguous_utf_char(rng, first, last, utf::UTF8Iterator(s.data()), output)) {
-                return true;
+        // no recursion: there are as many levels as the longest word has characters
+        auto const sz = output.size();
+        std::vector<position> positions;
+        positions.push_back({this->trie(dict).childrens(), first, (*first).begin(), sz});
+        while (!positions.empty()) {
+            auto & current = positions.back();
+            output.resize(current.sz);
+            if (current.candidate == (*current.it).end()) {
+                positions.pop_back();
+                continue;
             }
-        }
-        return false;
-    }
-
-    template<class FwRngStrIt>
-    bool disambiguous_utf_char(trie_type::range rng, FwRngStrIt first, FwRngStrIt last, utf::UTF8Iterator it, std::string & output) {
-        auto const c = *it;
-        auto pos = rng.lower_bound(c);
-        if (pos != rng.end() && pos->get() == c) {
-            if (*++it) {
-                if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                    set_c(output, c);
+            auto const & s = *current.candidate;
+            ++current.candidate;
+            auto const node = disambiguous_utf_chars(current.rng, utf::UTF8Iterator(s.data()), output);
+            if (!node) {
+                continue;
+            }
+            auto next = current.it;
+            ++next;
+            if (next == last) {
+                if (node->is_terminal()) {
                     return true;
                 }
             }
             else {
-                auto next_first = first;
-                ++next_first;
-                if (next_first == last
-                    ? pos->is_terminal()
-                    : disambiguous_impl(pos->childrens(), next_first, last, output)
-                ) {
-                    set_c(output, c);
-                    return true;
-                }
+                positions.push_back({node->childrens(), next, (*next).begin(), output.size()});
             }
         }
+        output.resize(sz);
         return false;
     }
 
+private:
+    trie_type::node_type const * disambiguous_utf_chars(trie_type::range rng, utf::UTF8Iterator it, std::string & output) {
+        for (;;) {
+            auto const c = *it;
+            auto pos = rng.lower_bound(c);
+            if (pos == rng.end() || pos->get() != c) {
+                return nullptr;
+            }
+            set_c(output, c);
+            if (!*++it) {
+                return pos;
+            }
+            rng = pos->childrens();
+        }
+    }
+
     void set_c(std::string & s, uint32_t code) {
-        char c[] = {
-            char((code & 0x000000FF)),
-            char((code & 0x0000FF00) >> 8),
-            char((code & 0x00FF0000) >> 16),
-            char((code & 0xFF000000) >> 24),
-            '\0'
-        };
-        s += c;
+        for (unsigned shift : {24u, 16u, 8u, 0u}) {
+            if (code >> shift) {
+                s += char((code >> shift) & 0xFF);
+            }
+        }
     }
 };
 
-- 
2.43.0


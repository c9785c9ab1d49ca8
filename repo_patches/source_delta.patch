From 0781b93c56228a6dafe63aa0ed4556f048cb6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/90] fix: negated escape in a bracket list complemented the
 whole list

A negated class escape (\S, \W, \D, \P{..}, ...) in a bracket list flipped
all characters collected so far, so [a\S] matched neither a nor a space.
---
 lib/pattern.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d59bc3..3c6d255 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1230,12 +1230,14 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       for (i = 0; i < 14; ++i)
         if (eq_at(loc, posix_class[i]))
           break;
+      Chars set;
       if (i < 14)
-        posix(i, *chars);
+        posix(i, set);
       else
         error(regex_error::invalid_class, loc);
       if (c == 'P')
-        flip(*chars);
+        flip(set);
+      *chars |= set;
       loc += static_cast<Location>(strlen(posix_class[i]));
       if (at(loc) == '}')
         ++loc;
@@ -1269,9 +1271,11 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       {
         if (chars != NULL)
         {
-          posix((s - escapes) / 2, *chars);
+          Chars set;
+          posix((s - escapes) / 2, set);
           if ((s - escapes) % 2)
-            flip(*chars);
+            flip(set);
+          *chars |= set;
         }
         c = META_EOL;
       }
-- 
2.43.0


From c6bde20a81f55e1361d25c30e09e09bb87dcb7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 02/90] fix: case-insensitive mode of an escaped letter was
 tested past the escape

An escape such as \x62 at the end of the pattern or of a (?i:...) group was
not matched case-insensitively, because parse_esc() advances loc.
---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3c6d255..129dc40 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1867,7 +1867,7 @@ void Pattern::compile_transition(
                       break;
                     default:
                       c = parse_esc(loc, &chars);
-                      if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, loc))
+                      if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, k->loc()))
                       {
                         chars.insert(uppercase(c));
                         chars.insert(lowercase(c));
-- 
2.43.0


From 0141ec57ddd29cfce46ba11d80c32f819069bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 03/90] fix: size(), operator[] and reachable() ignored string
 subpatterns

Subpatterns without regex meta characters are merged in the tree DFA and were
not recorded in end_.
---
 lib/pattern.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 129dc40..6c1c133 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -431,6 +431,7 @@ void Pattern::parse(
         }
         t = tfa_.edge(t, c);
       }
+      end_.push_back(loc);
       if (t->accept == 0)
         t->accept = choice;
     }
-- 
2.43.0


From 177e576264a603a6ff9fdbedf2af984a69217b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 04/90] fix: unterminated \Q in a string pattern read past the
 end of the pattern

---
 lib/pattern.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 6c1c133..d8c2da5 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -389,6 +389,12 @@ void Pattern::parse(
             while ((c = at(++end)) != '\0')
               if (c == opt_.e && at(end + 1) == 'E')
                 break;
+            if (c == '\0')
+            {
+              // unterminated quotation: let parse2() report the error
+              end = loc;
+              break;
+            }
           }
         }
         ++end;
-- 
2.43.0


From d69c36d7bde5e8c6b5c9550b4be9dbb217964050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 05/90] fix: case-insensitive string patterns merged with
 case-sensitive subpatterns

Merging the tree DFA with regex moves under option i assumed every move covers
both cases of a letter: (?-i:A)b|ac did not match Ab and (?-i:a)a|ac matched AA.
---
 lib/pattern.cpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index d8c2da5..3d1bcfa 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -431,10 +431,8 @@ void Pattern::parse(
               c = static_cast<Char>(s - abtnvfr + '\a');
           }
         }
-        else if (c >= 'A' && c <= 'Z' && opt_.i)
-        {
+        if (c >= 'A' && c <= 'Z' && opt_.i)
           c = lowercase(c);
-        }
         t = tfa_.edge(t, c);
       }
       end_.push_back(loc);
@@ -1386,12 +1384,17 @@ void Pattern::compile(
                 Positions pos(i->second);
                 if (opt_.i && std::isalpha(c))
                 {
-                  if (c >= 'a' && c <= 'z')
+                  // upper and lower case share a target state only when both are in this DFA transition move
+                  if (c >= 'a' || !common.contains(lowercase(c)))
                   {
-                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c], pos);
+                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)], pos);
                     state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
-                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                    eno_ += 2;
+                    ++eno_;
+                    if (c >= 'a' && common.contains(uppercase(c)))
+                    {
+                      state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                      ++eno_;
+                    }
                   }
                 }
                 else
@@ -1413,12 +1416,6 @@ void Pattern::compile(
             ++i;
           }
         }
-        if (opt_.i)
-        {
-          // normalize by removing upper case if option i (case insensitivem matching) is enabled
-          static const uint64_t upper[5] = { 0x0000000000000000, 0x0000000007FFFFFE, 0, 0, 0 };
-          chars -= Chars(upper);
-        }
         if (chars.any())
         {
           Char lo = chars.lo();
@@ -1427,15 +1424,24 @@ void Pattern::compile(
           {
             if (chars.contains(c))
             {
-              DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
               if (opt_.i && std::isalpha(c))
               {
-                state->edges[lowercase(c)] = std::pair<Char,DFA::State*>(lowercase(c), target_state);
-                state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                eno_ += 2;
+                // upper and lower case share a target state only when neither has a DFA transition move
+                if (c >= 'a' || !chars.contains(lowercase(c)))
+                {
+                  DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)]);
+                  state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
+                  ++eno_;
+                  if (c >= 'a' && chars.contains(uppercase(c)))
+                  {
+                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                    ++eno_;
+                  }
+                }
               }
               else
               {
+                DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
                 state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
                 ++eno_;
               }
-- 
2.43.0


From a6b3c0290a8a82edd8d29faf5e8fc5a2b636d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 06/90] fix: split() lost the text of a partial separator match
 at the end of input

When a partial match ran into the end of the input, split() returned the text
before it and dropped the rest (aa on xa gave x), also missing separators in
the rest.
---
 include/reflex/matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0e65be7..53fafaf 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -801,7 +801,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
-- 
2.43.0


From 406bc5f429baa553743efe0acfaf64e8e79ac685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 07/90] fix: find() stopped too early when a failed match hit
 the end of input

After looping back to the start state (text moved forward by one) a failed
match that ran into the end of the input ended the search, so that
[[:alnum:]a]*b+a*b|a*caa did not find caa in abcaa.
---
 include/reflex/matcher.h | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 53fafaf..73f5811 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -835,27 +835,24 @@ unrolled:
     {
       if (method == Const::FIND)
       {
-        if (!at_end())
+        if (anc_)
         {
-          if (anc_)
-          {
-            cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
-            anc_ = false;
-          }
-          if (pos_ > cur_) // if we didn't fail on META alone
+          cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
+          anc_ = false;
+        }
+        if (!at_end() && pos_ > cur_) // if we didn't fail on META alone
+        {
+          if (advance())
           {
-            if (advance())
-            {
-              if (!pat_->one_)
-                goto scan;
-              txt_ = buf_ + cur_;
-              len_ = pat_->len_;
-              set_current(cur_ + len_);
-              return cap_ = 1;
-            }
+            if (!pat_->one_)
+              goto scan;
+            txt_ = buf_ + cur_;
+            len_ = pat_->len_;
+            set_current(cur_ + len_);
+            return cap_ = 1;
           }
-          txt_ = buf_ + cur_;
         }
+        txt_ = buf_ + cur_;
       }
       else
       {
-- 
2.43.0


From 0f39c59ab28dab0ee4c4b41d89e66c033664c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 08/90] fix: matches() returned 1 instead of the capture index

The manual uses matches() as a selector of the group capture index.
---
 include/reflex/absmatcher.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff9cce7..fdc868b 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -385,7 +385,7 @@ class AbstractMatcher {
     num_ = 0;
     own_ = true;
     eof_ = false;
-    mat_ = false;
+    mat_ = 0;
   }
   /// Set buffer block size for reading: use 0 (or omit argument) to buffer all input in which case returns true if all the data could be read and false if a read error occurred.
   bool buffer(size_t blk = 0) ///< new block size between 1 and Const::BLOCK, or 0 to buffer all input (default)
@@ -518,7 +518,7 @@ class AbstractMatcher {
       num_ = 0;
       own_ = false;
       eof_ = true;
-      mat_ = false;
+      mat_ = 0;
     }
     return *this;
   }
@@ -527,8 +527,12 @@ class AbstractMatcher {
   inline size_t matches()
     /// @returns nonzero capture index (i.e. true) if the entire input matched this matcher's pattern, zero (i.e. false) otherwise
   {
-    if (!mat_ && at_bob())
-      mat_ = match(Const::MATCH) && at_end();
+    if (mat_ == 0 && at_bob())
+    {
+      mat_ = match(Const::MATCH);
+      if (mat_ != 0 && !at_end())
+        mat_ = 0;
+    }
     return mat_;
   }
   /// Returns a positive integer (true) indicating the capture index of the matched text in the pattern or zero (false) for a mismatch.
@@ -1613,7 +1617,7 @@ class AbstractMatcher {
   size_t    num_; ///< character count of the input till bol_
   bool      own_; ///< true if AbstractMatcher::buf_ was allocated and should be deleted
   bool      eof_; ///< input has reached EOF
-  bool      mat_; ///< true if AbstractMatcher::matches() was successful
+  size_t    mat_; ///< nonzero capture index if AbstractMatcher::matches() was successful
 };
 
 /// The pattern matcher class template extends abstract matcher base class.
-- 
2.43.0


From 42c0b88ec0c9bd07abb750cad2e0319ca6c4b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 09/90] fix: wcs() and wstr() read past the end of text that
 ends with an incomplete UTF-8 sequence

---
 include/reflex/utf8.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/reflex/utf8.h b/include/reflex/utf8.h
index b36896d..584d140 100644
--- a/include/reflex/utf8.h
+++ b/include/reflex/utf8.h
@@ -217,6 +217,23 @@ inline int utf8(
   return c;
 }
 
+/// Convert UTF-8 to UCS like utf8(s, r), but do not read past the end e of the string when it ends with an incomplete UTF-8 sequence.
+inline int utf8(
+    const char *s,  ///< points to the buffer with UTF-8
+    const char *e,  ///< points to the end of the buffer, s < e
+    const char **r) ///< points to pointer to set to the new position in s after the UTF-8 sequence
+  /// @returns UCS character
+{
+  if (e - s >= 6)
+    return utf8(s, r);
+  char tail[6] = { 0 };
+  std::memcpy(tail, s, e - s);
+  const char *t;
+  int c = utf8(tail, &t);
+  *r = t - tail < e - s ? s + (t - tail) : e;
+  return c;
+}
+
 /// Convert UTF-8 string to wide string.
 inline std::wstring wcs(
     const char *s, ///< string with UTF-8 to convert
@@ -230,7 +247,7 @@ inline std::wstring wcs(
     // sizeof(wchar_t) == 2 bytes: store wide string in std::wstring encoded in UTF-16
     while (s < e)
     {
-      int wc = utf8(s, &s);
+      int wc = utf8(s, e, &s);
       if (wc > 0xFFFF)
       {
         if (wc <= 0x10FFFF)
@@ -252,7 +269,7 @@ inline std::wstring wcs(
   else
   {
     while (s < e)
-      ws.push_back(utf8(s, &s));
+      ws.push_back(utf8(s, e, &s));
   }
   return ws;
 }
-- 
2.43.0


From 293ed31395ffae695949bdb9ebb1195d88e8b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 10/90] fix: UTF-8 regex of a code point range missed code
 points when a bound has a 0x80 or 0xbf byte in the middle

---
 lib/utf8.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/utf8.cpp b/lib/utf8.cpp
index a5316f3..b9fb9bf 100644
--- a/lib/utf8.cpp
+++ b/lib/utf8.cpp
@@ -105,6 +105,13 @@ static const char *regex_range(char *buf, int a, int b, int esc, bool brackets =
   return buf;
 }
 
+static bool all_bytes(const unsigned char *s, size_t i, size_t n, unsigned char c)
+{
+  while (i < n && s[i] == c)
+    ++i;
+  return i == n;
+}
+
 /// Convert an 8-bit ASCII + Latin-1 Supplement range [a,b] to a regex pattern.
 std::string latin1(int a, int b, int esc, bool brackets)
 {
@@ -195,10 +202,10 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (as[i + 1] == 0x80) // pattern compression
+          if (all_bytes(as, i + 1, n, 0x80)) // pattern compression
           {
             regex.append(regex_range(buf, as[i], 0xbf, esc));
-            for (++i; i < n && as[i] == 0x80; ++i)
+            for (++i; i < n; ++i)
               regex.append(any);
           }
           else
@@ -236,10 +243,10 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (bs[i + 1] == 0xbf) // pattern compression
+          if (all_bytes(bs, i + 1, n, 0xbf)) // pattern compression
           {
             regex.append(regex_range(buf, 0x80, bs[i], esc));
-            for (++i; i < n && bs[i] == 0xbf; ++i)
+            for (++i; i < n; ++i)
               regex.append(any);
           }
           else
-- 
2.43.0


From 5b5e8b4ad073f392df2bae91a62ff60d80e8864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 11/90] fix: Ranges::contains() returned true when the ranges
 that are not contained are above the last range

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 554ab82..7cc6fcd 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -513,7 +513,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         ++j;
       }
     }
-    return true;
+    return j == rs.end();
   }
   /// Return the lowest value in the set of ranges (the set cannot be empty)
   bound_type lo() const
-- 
2.43.0


From ec24a020d6b33272c4395d8cb96041d2f036db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 12/90] fix: Ranges::operator&= lost a range that overlaps in
 one point only

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 7cc6fcd..a19dc78 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -332,7 +332,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         }
         // put upper part of the range back if next range in rs overlaps with it
         if (++j != rs.end())
-          if (std::less<bound_type>()(j->first, hi))
+          if (!std::less<bound_type>()(hi, j->first))
             i = container_type::insert(i, value_type(j->first, hi)); // insert with hint i that follows the insertion point
       }
       else if (std::less<bound_type>()(i->second, j->second))
-- 
2.43.0


From e54b99515027626257787798d54536c05d3ad9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 13/90] fix: Ranges::operator< was false for a proper prefix

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index a19dc78..2a0b642 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -446,7 +446,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
       ++i;
       ++j;
     }
-    return false;
+    return j != rs.end();
   }
   /// True if this range set is lexicographically greater than range set rs.
   bool operator>(const Ranges& rs) ///< ranges
-- 
2.43.0


From bee72e08d6ec1ae62ed363b30fd5461c328716f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 14/90] fix: Bits::erase(n1, n2) did not erase the bits in the
 last word when n2 is past the end

---
 include/reflex/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index f3b231d..18f29cc 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -251,7 +251,7 @@ class Bits {
     if (n1 >> 6 < len_)
     {
       if (n2 >> 6 >= len_)
-        n2 = (len_ - 1) << 6;
+        n2 = (len_ << 6) - 1;
       for (size_t i = n1; i <= n2; ++i)
         vec_[i >> 6] &= ~(1ULL << (i & 0x3F));
     }
-- 
2.43.0


From 8cb4a4ccd716d7f4ec195412402ae253d08daf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 15/90] fix: Bits assignment leaked memory and assigned garbage
 on self-assignment

---
 include/reflex/bits.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 18f29cc..8c3ae7c 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -155,6 +155,9 @@ class Bits {
   { }
   /// Copy constructor
   Bits(const Bits& bits) ///< bits to copy
+    :
+      len_(0),
+      vec_(NULL)
   {
     operator=(bits);
   }
@@ -186,11 +189,16 @@ class Bits {
   Bits& operator=(const Bits& bits) ///< bits to copy
     /// @returns reference to this object.
   {
-    len_ = bits.len_;
-    if (len_)
-      std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
-    else
-      vec_ = NULL;
+    if (this != &bits)
+    {
+      if (vec_)
+        delete[] vec_;
+      len_ = bits.len_;
+      if (len_)
+        std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
+      else
+        vec_ = NULL;
+    }
     return *this;
   }
   /// Reference n'th bit in the bit vector to assign a value to that bit.
-- 
2.43.0


From 489de921648a0714d9934222fd5dfbe9980692eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 16/90] fix: lazy_union iterated elements in the wrong order,
 skipped elements and used an uninitialized flag

---
 include/reflex/setop.h | 49 ++++++------------------------------------
 1 file changed, 6 insertions(+), 43 deletions(-)

diff --git a/include/reflex/setop.h b/include/reflex/setop.h
index 446e725..eaac14c 100644
--- a/include/reflex/setop.h
+++ b/include/reflex/setop.h
@@ -335,60 +335,23 @@ struct lazy_union {
     }
     void find(void)
     {
-      if (i1 == i1_end)
-      {
-        second = true;
-      }
-      else
-      {
-        while (i2 != i2_end && !lt(*i1, *i2) && !lt(*i2, *i1))
-          ++i2;
-      }
+      // the next element is the smallest of the two, from s1 when these are equal
+      second = i1 == i1_end || (i2 != i2_end && lt(*i2, *i1));
     }
     void next(void)
     {
-      if (i1 == i1_end)
+      if (second)
       {
         if (i2 != i2_end)
           ++i2;
-        second = true;
-      }
-      else if (i2 == i2_end)
-      { 
-        if (i1 != i1_end)
-          ++i1;
-        second = false;
       }
       else
       {
-        if (second)
-        {
+        if (i2 != i2_end && !lt(*i1, *i2))
           ++i2;
-          second = false;
-        }
-        else
-        {
-          ++i1;
-          second = true;
-        }
-        while (i1 != i1_end && i2 != i2_end)
-        {
-          if (lt(*i1, *i2))
-          {
-            second = false;
-            break;
-          }
-          else if (lt(*i2, *i1))
-          {
-            second = true;
-            break;
-          }
-          else
-          {
-            ++i2;
-          }
-        }
+        ++i1;
       }
+      find();
     }
     typename S1::const_iterator i1, i1_end;
     typename S2::const_iterator i2, i2_end;
-- 
2.43.0


From 66cb30bbe1b110ad2bca1c5953a0d112e5117934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 17/90] fix: Bits::lshift() stored the carry in the wrong word

---
 include/reflex/bits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 8c3ae7c..0968f53 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -290,8 +290,9 @@ class Bits {
       }
       if (lo)
       {
-        alloc(len_ + 1);
-        vec_[len_ - 1] = 1;
+        size_t i = len_;
+        alloc(i + 1);
+        vec_[i] = 1;
       }
     }
     return *this;
-- 
2.43.0


From c82dda44708700904635ca22dcd139e0f0f7d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 18/90] fix: Unicode \p{Space} and \s did not match U+0085,
 U+2028 and U+2029 as documented

---
 unicode/language_scripts.cpp | 2 ++
 unicode/language_scripts.l   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unicode/language_scripts.cpp b/unicode/language_scripts.cpp
index 08fd4eb..907db04 100644
--- a/unicode/language_scripts.cpp
+++ b/unicode/language_scripts.cpp
@@ -9160,9 +9160,11 @@ void reflex::Unicode::Tables::language_scripts(void)
   static const int Space[] = {
     9, 13,
     32, 32,
+    133, 133,
     160, 160,
     5760, 5760,
     8192, 8202,
+    8232, 8233,
     8239, 8239,
     8287, 8287,
     12288, 12288,
diff --git a/unicode/language_scripts.l b/unicode/language_scripts.l
index 3af5705..1409c03 100644
--- a/unicode/language_scripts.l
+++ b/unicode/language_scripts.l
@@ -85,8 +85,8 @@ int main()
   (p["Unicode"]           = Chars(0x00, 0x10FFFF)) -= Chars(0xD800, 0xDFFF);
   (p["Non_ASCII_Unicode"] = p["Unicode"])          -= p["ASCII"];
 
-  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13)
-  (p["Space"] = p["Zs"]) |= Chars(0x09, 0x0D);
+  // Add Unicode Space, includes characters HT (9), LF (10), VT (11), FF (12), CR (13), NEL (133)
+  ((p["Space"] = p["Z"]) |= Chars(0x09, 0x0D)) |= Chars(0x85);
 
   // Add Unicode Word
   ((p["Word"]  = p["L"]) |= p["Nd"]) |= p["Pc"];
-- 
2.43.0


From 6090e332111253b7f18773bfcc413ef990259d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 19/90] fix: negated Unicode escape in a bracket list lost or
 exceeded the characters above the last range

---
 lib/convert.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5c930fb..5318492 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -562,6 +562,9 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
         if (last < 0xD800)
           ranges.insert(last, 0xD7FF);
         ranges.insert(0xE000, 0x10FFFF);
+      }
+      else
+      {
         ranges.insert(last, 0x10FFFF);
       }
     }
-- 
2.43.0


From 2264590b2214afa7baa52f31a89c12987bd64aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 20/90] fix: [[:ascii:]] was rejected and prefixes of POSIX
 class names accepted in regex patterns

---
 lib/pattern.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d1bcfa..8aae8cc 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1985,8 +1985,15 @@ void Pattern::compile_list(Location loc, Chars& chars, const Map& modifiers) con
         {
           size_t i;
           for (i = 0; i < 14; ++i)
-            if (eq_at(loc + 4, posix_class[i] + 2)) // ignore first two letters (upper/lower) when matching
+          {
+            // match the whole name, ignoring upper/lower case
+            const char *s = posix_class[i];
+            Location k = loc + 2;
+            while (*s != '\0' && lowercase(at(k)) == lowercase(static_cast<Char>(*s)))
+              ++s, ++k;
+            if (*s == '\0' && k == c_loc)
               break;
+          }
           if (i < 14)
             posix(i, chars);
           else
-- 
2.43.0


From 8cff7e5f0a9fe00f3140b4836b84cc65da9440f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 21/90] fix: wrong characters in the code page tables of CP
 1251, 1254, 1255, 1257, ISO-8859-3, 4, 6, 13 and KOI8-RU

---
 lib/input.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b13a67a..61fa882 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -167,9 +167,9 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x0402,0x0403,0x201A,0x0453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x0409,0x2039,0x040A,0x040C,0x040B,0x040F,
   0x0452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,0x0459,0x203A,0x045A,0x045C,0x045B,0x045F,
-     160,0x040E,0x045E,0x0408,   164,0x0409,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
+     160,0x040E,0x045E,0x0408,   164,0x0490,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
      176,   177,0x0406,0x0456,0x0491,   181,   182,   183,0x0451,0x2116,0x0454,   187,0x0458,0x0405,0x0455,0x0457,
-  0x0100,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
+  0x0410,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
   0x0420,0x0421,0x0422,0x0423,0x0424,0x0425,0x0426,0x0427,0x0428,0x0429,0x042A,0x042B,0x042C,0x042D,0x042E,0x042F,
   0x0430,0x0431,0x0432,0x0433,0x0434,0x0435,0x0436,0x0437,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,0x043F,
   0x0440,0x0441,0x0442,0x0443,0x0444,0x0445,0x0446,0x0447,0x0448,0x0449,0x044A,0x044B,0x044C,0x044D,0x044E,0x044F
@@ -229,7 +229,7 @@ const unsigned short codepages[38][256] =
      192,   193,   194,   195,   196,   197,   198,   199,   200,   201,   202,   203,   204,   205,   206,   207,
   0x011E,   209,   210,   211,   212,   213,   214,   215,   216,   217,   218,   219,   220,0x0130,0x015E,   223,
      224,   225,   226,   227,   228,   229,   230,   231,   232,   233,   234,   235,   236,   237,   238,   239,
-  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   252,   252,0x0131,0x015F,   255
+  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,0x00FB,   252,0x0131,0x015F,   255
   },
   // Windows CP 1255 to Unicode
   {
@@ -245,7 +245,7 @@ const unsigned short codepages[38][256] =
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,   156,   157,   158,   159,
      160,   161,   162,   163,0x20AA,   165,   166,   167,   168,   169,0x00D7,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,0x00F7,   187,   188,   189,   190,   191,
-  0x05B0,0x05B1,0x05B2,0x0583,0x0584,0x0585,0x0586,0x0587,0x0588,0x0589,0x058A,0x058B,0x058C,0x058D,0x058E,0x058F,
+  0x05B0,0x05B1,0x05B2,0x05B3,0x05B4,0x05B5,0x05B6,0x05B7,0x05B8,0x05B9,0x05BA,0x05BB,0x05BC,0x05BD,0x05BE,0x05BF,
   0x05C0,0x05C1,0x05C2,0x05C3,0x05F0,0x05F1,0x05F2,0x05F3,0x05F4,   217,   218,   219,   220,   221,   222,   223,
   0x05D0,0x05D1,0x05D2,0x05D3,0x05D4,0x05D5,0x05D6,0x05D7,0x05D8,0x05D9,0x05DA,0x05DB,0x05DC,0x05DD,0x05DE,0x05DF,
   0x05E0,0x05E1,0x05E2,0x05E3,0x05E4,0x05E5,0x05E6,0x05E7,0x05E8,0x05E9,0x05EA,   251,   252,0x200E,0x200F,   255
@@ -281,12 +281,12 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,   131,0x201E,0x2026,0x2020,0x2021,   136,0x2030,   138,0x2039,   140,0x00A8,0x02C7,0x00B8,
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,   154,0x203A,   156,0x00AF,0x02DB,   159,
-     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   175,
-     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   191,
+     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,0x00C6,
+     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,0x00E6,
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
+  0x0161,0x0144,0x0146,0x00F3,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
   },
   // Windows CP 1258 to Unicode
   {
@@ -338,11 +338,11 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x0126,0x2DB2,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
+     160,0x0126,0x02D8,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
      176,0x0127,   178,   179,   180,   181,0x0125,   183,   184,0x0131,0x015F,0x011F,0x0135,   189,   190,0x017C,
      192,   193,   194,   195,   196,0x010A,0x0108,   199,   200,   201,   202,   203,   204,   205,   206,   207,
      208,   209,   210,   211,   212,0x0120,   214,   215,0x011C,   217,   218,   219,   220,0x016C,0x015C,   223,
-     224,   225,   226,   227,   228,0x10B9,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
+     224,   225,   226,   227,   228,0x010B,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
      240,   241,   242,   243,   244,0x0121,   246,   247,0x011D,   249,   250,   251,   252,0x016D,0x015D,0x02D9
   },
   // ISO-8859-4 to Unicode
@@ -357,7 +357,7 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x1041,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
+     160,0x0104,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
      176,0x0105,0x02DB,0x0157,   180,0x0129,0x013C,0x02C7,   184,0x0161,0x0113,0x0123,0x0167,0x014A,0x017E,0x014B,
   0x0100,   193,   194,   195,   196,   197,   198,0x012E,0x010C,   201,0x0118,   203,0x0116,   205,   206,0x012A,
   0x0110,0x0145,0x014C,0x0136,   212,   213,   214,   215,   216,0x0172,   218,   219,   220,0x0168,0x016A,   223,
@@ -398,7 +398,7 @@ const unsigned short codepages[38][256] =
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,0x060C,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,0x061B,   188,   189,   190,0x061F,
      192,0x0621,0x0622,0x0623,0x0624,0x0625,0x0626,0x0627,0x0628,0x0629,0x062A,0x062B,0x062C,0x062D,0x062E,0x062F,
-  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x062A,   219,   220,   221,   222,   223,
+  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x063A,   219,   220,   221,   222,   223,
   0x0640,0x0641,0x0642,0x0643,0x0644,0x0645,0x0646,0x0647,0x0648,0x0649,0x064A,0x064B,0x064C,0x064D,0x064E,0x064F,
   0x0650,0x0651,0x0652,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,   253,   254,   255
   },
@@ -514,7 +514,7 @@ const unsigned short codepages[38][256] =
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
+  0x0161,0x0144,0x0146,0x00F3,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
   },
   // ISO-8859-14 to Unicode
   {
@@ -642,8 +642,8 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,
   0x2591,0x2592,0x2593,0x201C,0x25A0,0x2219,0x201D,0x2014,0x2116,0x2122,0x00A0,0x00BB,0x00AE,0x00AB,0x00B7,0x00A4,
-  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045D,0x255E,
-  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040D,0x00A9,
+  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045E,0x255E,
+  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040E,0x00A9,
   0x044E,0x0430,0x0431,0x0446,0x0434,0x0435,0x0444,0x0433,0x0445,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,
   0x043F,0x044F,0x0440,0x0441,0x0442,0x0443,0x0436,0x0432,0x044C,0x044B,0x0437,0x0448,0x044D,0x0449,0x0447,0x044A,
   0x042E,0x0410,0x0411,0x0426,0x0414,0x0415,0x0424,0x0413,0x0425,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,
-- 
2.43.0


From bd93b894b8781843de309d2d4480bd64dda88fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 22/90] fix: FILE and wide string input lost, duplicated or
 garbled characters

Characters split over two reads were followed by stale bytes, short files
and files with a BOM only lost bytes, UTF-16 and UTF-32 without BOM lost the
first characters, a lone surrogate took the next character with it, invalid
UTF-32 and wide characters were taken for ASCII, a code page set after
reading started was not set, and size(), good() and eof() ignored bytes read
ahead and the file position.
---
 include/reflex/input.h |  30 +-
 include/reflex/utf8.h  |   4 +-
 lib/input.cpp          | 722 ++++++++++-------------------------------
 3 files changed, 194 insertions(+), 562 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d9df043..c16a0f1 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -359,11 +359,13 @@ class Input {
       size_(input.size_),
       uidx_(input.uidx_),
       ulen_(input.ulen_),
+      rlen_(input.rlen_),
       utfx_(input.utfx_),
       page_(input.page_),
       handler_(input.handler_)
   {
     std::memcpy(utf8_, input.utf8_, sizeof(utf8_));
+    std::memcpy(raw_, input.raw_, sizeof(raw_));
   }
   /// Construct input character sequence from a char* string
   Input(
@@ -503,10 +505,12 @@ class Input {
     size_ = input.size_;
     uidx_ = input.uidx_;
     ulen_ = input.ulen_;
+    rlen_ = input.rlen_;
     utfx_ = input.utfx_;
     page_ = input.page_;
     handler_ = input.handler_;
     std::memcpy(utf8_, input.utf8_, sizeof(utf8_));
+    std::memcpy(raw_, input.raw_, sizeof(raw_));
     return *this;
   }
   /// Cast this Input object to a string, returns NULL when this Input is not a string.
@@ -608,9 +612,9 @@ class Input {
     if (cstring_)
       return size_ > 0;
     if (wstring_)
-      return *wstring_ != L'\0';
+      return ulen_ > 0 || *wstring_ != L'\0';
     if (file_)
-      return !::feof(file_) && !::ferror(file_);
+      return ulen_ > 0 || rlen_ > 0 || (!::feof(file_) && !::ferror(file_));
     if (istream_)
       return istream_->good();
     return false;
@@ -622,9 +626,9 @@ class Input {
     if (cstring_)
       return size_ == 0;
     if (wstring_)
-      return *wstring_ == L'\0';
+      return ulen_ == 0 && *wstring_ == L'\0';
     if (file_)
-      return ::feof(file_) != 0;
+      return ulen_ == 0 && rlen_ == 0 && ::feof(file_) != 0;
     if (istream_)
       return istream_->eof();
     return true;
@@ -677,7 +681,7 @@ class Input {
       wchar_t c;
       while ((c = *wstring_) != L'\0' && k > 0)
       {
-        if (c < 0x80)
+        if ((c & ~0x7F) == 0)
         {
           *s++ = static_cast<char>(c);
           --k;
@@ -688,7 +692,7 @@ class Input {
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && (wstring_[1] & 0xFC00) == 0xDC00)
+            if (c < 0xDC00 && (wstring_[1] & ~0x3FF) == 0xDC00)
               l = utf8(0x010000 - 0xDC00 + ((c - 0xD800) << 10) + *++wstring_, utf8_);
             else
               l = utf8(REFLEX_NONCHAR, utf8_);
@@ -751,8 +755,10 @@ class Input {
   void init(file_encoding_type enc = file_encoding::plain)
   {
     std::memset(utf8_, 0, sizeof(utf8_));
+    std::memset(raw_, 0, sizeof(raw_));
     uidx_ = 0;
     ulen_ = 0;
+    rlen_ = 0;
     utfx_ = 0;
     page_ = NULL;
     handler_ = NULL;
@@ -778,6 +784,16 @@ class Input {
     handler_ = handler;
   }
  protected:
+  /// Get raw file bytes, first those that were read ahead.
+  bool file_raw(
+      unsigned char *buf, ///< points to the buffer to fill with raw bytes
+      size_t         n)   ///< number of bytes to get (1, 2 or 4)
+    /// @returns true if n bytes were added to buffer buf
+    ;
+  /// Get the next character of a FILE* with UTF-16, UTF-32, Latin-1 or code page encoding.
+  int file_char()
+    /// @returns character code, REFLEX_NONCHAR for an invalid code, or EOF (-1)
+    ;
   const char           *cstring_; ///< char string input (when non-null) of length reflex::Input::size_
   const wchar_t        *wstring_; ///< NUL-terminated wide string input (when non-null)
   FILE                 *file_;    ///< FILE* input (when non-null)
@@ -786,6 +802,8 @@ class Input {
   char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
+  unsigned char         raw_[4];  ///< file bytes read ahead that are not decoded yet
+  unsigned short        rlen_;    ///< length of data in raw_[] or 0 if no data
   file_encoding_type    utfx_;    ///< file_encoding
   const unsigned short *page_;    ///< custom code page
   Handler              *handler_; ///< to handle FILE* errors and non-blocking FILE* reads
diff --git a/include/reflex/utf8.h b/include/reflex/utf8.h
index 584d140..ea19d85 100644
--- a/include/reflex/utf8.h
+++ b/include/reflex/utf8.h
@@ -77,13 +77,13 @@ inline size_t utf8(
     char *s) ///< points to the buffer to populate with UTF-8 (1 to 6 bytes) not NUL-terminated
   /// @returns length (in bytes) of UTF-8 character sequence stored in s
 {
-  if (c < 0x80)
+  if (c >= 0 && c < 0x80)
   {
     *s++ = static_cast<char>(c);
     return 1;
   }
 #ifndef WITH_UTF8_UNRESTRICTED
-  if (c > 0x10FFFF)
+  if (c < 0 || c > 0x10FFFF)
   {
     static const size_t n = sizeof(REFLEX_NONCHAR_UTF8) - 1;
     std::memcpy(s, REFLEX_NONCHAR_UTF8, n);
diff --git a/lib/input.cpp b/lib/input.cpp
index 61fa882..e5fd0aa 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -666,7 +666,11 @@ void Input::file_init(file_encoding_type enc)
   struct stat st;
   if (::fstat(::fileno(file_), &st) == 0 && S_ISREG(st.st_mode) && st.st_size <= 4294967295LL)
 #endif
-    size_ = static_cast<size_t>(st.st_size);
+  {
+    // only the bytes after the current position (if any) are read
+    off_t k = ftello(file_);
+    size_ = k <= 0 ? static_cast<size_t>(st.st_size) : k < st.st_size ? static_cast<size_t>(st.st_size - k) : 0;
+  }
 #endif
   // assume plain (ASCII, binary or UTF-8 without BOM) content by default
   utfx_ = file_encoding::plain;
@@ -684,15 +688,12 @@ void Input::file_init(file_encoding_type enc)
           ulen_ = 2;
           if (utf8_[0] == '\0' && utf8_[1] == '\0')  // UTF-32 big endian BOM 0000XXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4 && utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
             {
-              ulen_ = 4;
-              if (utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
-              {
-                size_ = 0;
-                ulen_ = 0;
-                utfx_ = file_encoding::utf32be;
-              }
+              size_ = 0;
+              ulen_ = 0;
+              utfx_ = file_encoding::utf32be;
             }
           }
           else if (utf8_[0] == '\xfe' && utf8_[1] == '\xff') // UTF-16 big endian BOM FEFF?
@@ -703,21 +704,19 @@ void Input::file_init(file_encoding_type enc)
           }
           else if (utf8_[0] == '\xff' && utf8_[1] == '\xfe') // UTF-16 or UTF-32 little endian BOM FFFEXXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            size_ = 0;
+            if (ulen_ == 4 && utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
             {
-              if (utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
-              {
-                size_ = 0;
-                ulen_ = 0;
-                utfx_ = file_encoding::utf32le;
-              }
-              else
-              {
-                size_ = 0;
-                uidx_ = 2;
-                ulen_ = 1;
-                utfx_ = file_encoding::utf16le;
-              }
+              ulen_ = 0;
+              utfx_ = file_encoding::utf32le;
+            }
+            else
+            {
+              // keep the bytes after the BOM
+              ulen_ -= 2;
+              std::memmove(utf8_, utf8_ + 2, ulen_);
+              utfx_ = file_encoding::utf16le;
             }
           }
           else if (utf8_[0] == '\xef' && utf8_[1] == '\xbb') // UTF-8 BOM EFBBXX?
@@ -741,6 +740,10 @@ void Input::file_init(file_encoding_type enc)
     if (handler_ == NULL || feof(file_) || (*handler_)() == 0)
       break;
   }
+  // the bytes read ahead that are not part of a BOM are part of the content
+  std::memcpy(raw_, utf8_, sizeof(raw_));
+  rlen_ = ulen_;
+  ulen_ = 0;
 #if (defined(__WIN32__) || defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(__BORLANDC__)) && !defined(__CYGWIN__) && !defined(__MINGW32__) && !defined(__MINGW64__)
   // if not UTF-16 or UTF-32, then reset mode to original mode (unless the original mode was binary)
   if (mode != _O_BINARY && ((utfx_ == file_encoding::plain && enc != file_encoding::utf16be && enc != file_encoding::utf16le && enc != file_encoding::utf32be && enc != file_encoding::utf32le) || utfx_ == file_encoding::utf8))
@@ -750,275 +753,137 @@ void Input::file_init(file_encoding_type enc)
 #endif
 }
 
-size_t Input::file_get(char *s, size_t n)
+bool Input::file_raw(unsigned char *buf, size_t n)
 {
-  char *t = s;
-  if (ulen_ > 0)
-  {
-    size_t k = n < ulen_ ? n : ulen_;
-    while (k-- > 0)
-      *t++ = utf8_[uidx_++];
-    k = t - s;
-    n -= k;
-    if (n == 0)
+  size_t k = rlen_ < n ? rlen_ : n;
+  std::memcpy(buf, raw_, k);
+  rlen_ -= static_cast<unsigned short>(k);
+  std::memmove(raw_, raw_ + k, rlen_);
+  if (k < n)
+  {
+    k += ::fread(buf + k, 1, n - k, file_);
+    if (k < n)
     {
-      ulen_ -= static_cast<unsigned short>(k);
-      if (size_ >= k)
-        size_ -= k;
-      return k;
+      // keep an incomplete character code until more can be read, drop it at EOF
+      if (::feof(file_))
+        k = 0;
+      std::memcpy(raw_, buf, k);
+      rlen_ = static_cast<unsigned short>(k);
+      return false;
     }
-    ulen_ = 0;
   }
+  return true;
+}
+
+int Input::file_char()
+{
   unsigned char buf[4];
+  int c;
   switch (utfx_)
   {
     case file_encoding::utf16be:
-      while (n > 0 && ::fread(buf, 2, 1, file_) == 1)
-      {
-        int c = buf[0] << 8 | buf[1];
-        if (c < 0x80)
-        {
-          *t++ = static_cast<char>(c);
-          --n;
-        }
-        else
-        {
-          if (c >= 0xD800 && c < 0xE000)
-          {
-            // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
-            else
-              c = REFLEX_NONCHAR;
-          }
-          size_t l = utf8(c, utf8_);
-          if (n < l)
-          {
-            std::memcpy(t, utf8_, n);
-            uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
-            t += n;
-            n = 0;
-          }
-          else
-          {
-            std::memcpy(t, utf8_, l);
-            t += l;
-            n -= l;
-          }
-        }
-      }
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
     case file_encoding::utf16le:
-      while (n > 0 && ::fread(buf, 2, 1, file_) == 1)
+      if (!file_raw(buf, 2))
+        return EOF;
+      c = utfx_ == file_encoding::utf16be ? buf[0] << 8 | buf[1] : buf[0] | buf[1] << 8;
+      if (c >= 0xD800 && c < 0xE000)
       {
-        int c = buf[0] | buf[1] << 8;
-        if (c < 0x80)
-        {
-          *t++ = static_cast<char>(c);
-          --n;
-        }
-        else
+        // UTF-16 surrogate pair
+        int d = 0;
+        if (c < 0xDC00 && file_raw(buf, 2))
         {
-          if (c >= 0xD800 && c < 0xE000)
+          d = utfx_ == file_encoding::utf16be ? buf[0] << 8 | buf[1] : buf[0] | buf[1] << 8;
+          if ((d & 0xFC00) != 0xDC00)
           {
-            // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
-            else
-              c = REFLEX_NONCHAR;
+            // not a surrogate pair, put the second code back
+            std::memmove(raw_ + 2, raw_, rlen_);
+            std::memcpy(raw_, buf, 2);
+            rlen_ += 2;
           }
-          size_t l = utf8(c, utf8_);
-          if (n < l)
-          {
-            std::memcpy(t, utf8_, n);
-            uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
-            t += n;
-            n = 0;
-          }
-          else
-          {
-            std::memcpy(t, utf8_, l);
-            t += l;
-            n -= l;
-          }
-        }
-      }
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
-    case file_encoding::utf32be:
-      while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
-      {
-        int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-        if (c < 0x80)
-        {
-          *t++ = static_cast<char>(c);
-          --n;
         }
+        if ((d & 0xFC00) == 0xDC00)
+          c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + d;
         else
-        {
-          size_t l = utf8(c, utf8_);
-          if (n < l)
-          {
-            std::memcpy(t, utf8_, n);
-            uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
-            t += n;
-            n = 0;
-          }
-          else
-          {
-            std::memcpy(t, utf8_, l);
-            t += l;
-            n -= l;
-          }
-        }
+          c = REFLEX_NONCHAR;
       }
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
+      return c;
+    case file_encoding::utf32be:
     case file_encoding::utf32le:
-      while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
-      {
-        int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
-        if (c < 0x80)
-        {
-          *t++ = static_cast<char>(c);
-          --n;
-        }
-        else
-        {
-          size_t l = utf8(c, utf8_);
-          if (n < l)
-          {
-            std::memcpy(t, utf8_, n);
-            uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
-            t += n;
-            n = 0;
-          }
-          else
-          {
-            std::memcpy(t, utf8_, l);
-            t += l;
-            n -= l;
-          }
-        }
-      }
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
+      if (!file_raw(buf, 4))
+        return EOF;
+      if (utfx_ == file_encoding::utf32be)
+        c = static_cast<int>(static_cast<unsigned int>(buf[0]) << 24 | buf[1] << 16 | buf[2] << 8 | buf[3]);
+      else
+        c = static_cast<int>(static_cast<unsigned int>(buf[3]) << 24 | buf[2] << 16 | buf[1] << 8 | buf[0]);
+      return c < 0 ? REFLEX_NONCHAR : c;
     case file_encoding::latin:
-      while (n > 0 && ::fread(t, 1, 1, file_) == 1)
+      return file_raw(buf, 1) ? buf[0] : EOF;
+    default:
+      return file_raw(buf, 1) ? page_[buf[0]] : EOF;
+  }
+}
+
+size_t Input::file_get(char *s, size_t n)
+{
+  char *t = s;
+  if (ulen_ > 0)
+  {
+    size_t k = n < ulen_ ? n : ulen_;
+    std::memcpy(t, utf8_ + uidx_, k);
+    uidx_ += static_cast<unsigned short>(k);
+    ulen_ -= static_cast<unsigned short>(k);
+    t += k;
+    n -= k;
+  }
+  if (utfx_ == file_encoding::plain || utfx_ == file_encoding::utf8)
+  {
+    size_t k = n < rlen_ ? n : rlen_;
+    std::memcpy(t, raw_, k);
+    rlen_ -= static_cast<unsigned short>(k);
+    std::memmove(raw_, raw_ + k, rlen_);
+    t += k;
+    n -= k;
+    if (n > 0)
+      t += ::fread(t, 1, n, file_);
+  }
+  else
+  {
+    int c;
+    while (n > 0 && (c = file_char()) != EOF)
+    {
+      if (c < 0x80)
       {
-        int c = static_cast<unsigned char>(*t);
-        if (c < 0x80)
-        {
-          t++;
-          --n;
-        }
-        else
-        {
-          utf8(c, utf8_);
-          *t++ = utf8_[0];
-          --n;
-          if (n > 0)
-          {
-            *t++ = utf8_[1];
-            --n;
-          }
-          else
-          {
-            uidx_ = 1;
-            ulen_ = 2;
-          }
-        }
+        *t++ = static_cast<char>(c);
+        --n;
       }
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
-    case file_encoding::cp437:
-    case file_encoding::cp850:
-    case file_encoding::cp858:
-    case file_encoding::ebcdic:
-    case file_encoding::cp1250:
-    case file_encoding::cp1251:
-    case file_encoding::cp1252:
-    case file_encoding::cp1253:
-    case file_encoding::cp1254:
-    case file_encoding::cp1255:
-    case file_encoding::cp1256:
-    case file_encoding::cp1257:
-    case file_encoding::cp1258:
-    case file_encoding::iso8859_2:
-    case file_encoding::iso8859_3:
-    case file_encoding::iso8859_4:
-    case file_encoding::iso8859_5:
-    case file_encoding::iso8859_6:
-    case file_encoding::iso8859_7:
-    case file_encoding::iso8859_8:
-    case file_encoding::iso8859_9:
-    case file_encoding::iso8859_10:
-    case file_encoding::iso8859_11:
-    case file_encoding::iso8859_13:
-    case file_encoding::iso8859_14:
-    case file_encoding::iso8859_15:
-    case file_encoding::iso8859_16:
-    case file_encoding::macroman:
-    case file_encoding::koi8_r:
-    case file_encoding::koi8_u:
-    case file_encoding::koi8_ru:
-    case file_encoding::custom:
-      while (n > 0 && ::fread(t, 1, 1, file_) == 1)
+      else
       {
-        int c = page_[static_cast<unsigned char>(*t)];
-        if (c < 0x80)
-        {
-          *t++ = static_cast<char>(c);
-          --n;
-        }
-        else
-        {
-          size_t l = utf8(c, utf8_);
-          if (n < l)
-          {
-            std::memcpy(t, utf8_, n);
-            uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
-            t += n;
-            n = 0;
-          }
-          else
-          {
-            std::memcpy(t, utf8_, l);
-            t += l;
-            n -= l;
-          }
-        }
+        size_t l = utf8(c, utf8_);
+        size_t k = n < l ? n : l;
+        std::memcpy(t, utf8_, k);
+        uidx_ = static_cast<unsigned short>(k);
+        ulen_ = static_cast<unsigned short>(l - k);
+        t += k;
+        n -= k;
       }
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
-    default:
-      t += ::fread(t, 1, n, file_);
-      if (size_ + s >= t)
-        size_ -= t - s;
-      return t - s;
+    }
   }
+  size_t k = t - s;
+  if (size_ >= k)
+    size_ -= k;
+  return k;
 }
 
 void Input::wstring_size()
 {
+  size_ = ulen_;
+  char buf[8];
   unsigned int c;
   for (const wchar_t *s = wstring_; (c = *s) != L'\0'; ++s)
   {
     if (c >= 0xD800 && c < 0xE000)
     {
-      if (c < 0xDC00 && (s[1] & 0xFC00) == 0xDC00)
+      if (c < 0xDC00 && (s[1] & ~0x3FF) == 0xDC00)
       {
         ++s;
         size_ += 4;
@@ -1030,139 +895,50 @@ void Input::wstring_size()
     }
     else
     {
-#ifndef WITH_UTF8_UNRESTRICTED
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
-#else
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000);
-#endif
+      size_ += utf8(static_cast<int>(c), buf);
     }
   }
 }
 
 void Input::file_size()
 {
+  bool eof = ::feof(file_) != 0;
   off_t k = ftello(file_);
   if (k >= 0)
   {
-    unsigned char buf[4];
-    switch (utfx_)
+    size_t size = ulen_;
+    if (utfx_ == file_encoding::plain || utfx_ == file_encoding::utf8)
     {
-      case file_encoding::latin:
-        while (::fread(buf, 1, 1, file_) == 1)
-          size_ += 1 + (buf[0] >= 0x80);
-        break;
-      case file_encoding::cp437:
-      case file_encoding::cp850:
-      case file_encoding::cp858:
-      case file_encoding::ebcdic:
-      case file_encoding::cp1250:
-      case file_encoding::cp1251:
-      case file_encoding::cp1252:
-      case file_encoding::cp1253:
-      case file_encoding::cp1254:
-      case file_encoding::cp1255:
-      case file_encoding::cp1256:
-      case file_encoding::cp1257:
-      case file_encoding::cp1258:
-      case file_encoding::iso8859_2:
-      case file_encoding::iso8859_3:
-      case file_encoding::iso8859_4:
-      case file_encoding::iso8859_5:
-      case file_encoding::iso8859_6:
-      case file_encoding::iso8859_7:
-      case file_encoding::iso8859_8:
-      case file_encoding::iso8859_9:
-      case file_encoding::iso8859_10:
-      case file_encoding::iso8859_11:
-      case file_encoding::iso8859_13:
-      case file_encoding::iso8859_14:
-      case file_encoding::iso8859_15:
-      case file_encoding::iso8859_16:
-      case file_encoding::macroman:
-      case file_encoding::koi8_r:
-      case file_encoding::koi8_u:
-      case file_encoding::koi8_ru:
-      case file_encoding::custom:
-        while (::fread(buf, 1, 1, file_) == 1)
-        {
-          int c = page_[buf[0]];
-          size_ += 1 + (c >= 0x80) + (c >= 0x0800); // + (c >= 0x010000); NOTE: page_[] value range < Unicode range
-        }
-        break;
-      case file_encoding::utf16be:
-        while (::fread(buf, 2, 1, file_) == 1)
-        {
-          int c = buf[0] << 8 | buf[1];
-          if (c >= 0xD800 && c < 0xE000)
-          {
-            // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
-            else
-              c = REFLEX_NONCHAR;
-          }
-#ifndef WITH_UTF8_UNRESTRICTED
-          else if (c > 0x10FFFF)
-          {
-            c = REFLEX_NONCHAR;
-          }
-#endif
-          size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000);
-        }
-        break;
-      case file_encoding::utf16le:
-        while (::fread(buf, 2, 1, file_) == 1)
-        {
-          int c = buf[0] | buf[1] << 8;
-          if (c >= 0xD800 && c < 0xE000)
-          {
-            // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
-            else
-              c = REFLEX_NONCHAR;
-          }
-#ifndef WITH_UTF8_UNRESTRICTED
-          else if (c > 0x10FFFF)
-          {
-            c = REFLEX_NONCHAR;
-          }
-#endif
-          size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000);
-        }
-        break;
-      case file_encoding::utf32be:
-        while (::fread(buf, 4, 1, file_) == 1)
-        {
-          int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-#ifndef WITH_UTF8_UNRESTRICTED
-          if (c > 0x10FFFF)
-            c = REFLEX_NONCHAR;
-#endif
-          size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000);
-        }
-        break;
-      case file_encoding::utf32le:
-        while (::fread(buf, 4, 1, file_) == 1)
-        {
-          int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
-#ifndef WITH_UTF8_UNRESTRICTED
-          if (c > 0x10FFFF)
-            c = REFLEX_NONCHAR;
-#endif
-          size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000);
-        }
-        break;
-      default:
-        fseeko(file_, k, SEEK_END);
+      size += rlen_;
+      if (!eof)
+      {
+        fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
-          size_ = static_cast<size_t>(n - k);
+          size += static_cast<size_t>(n - k);
+      }
+    }
+    else
+    {
+      unsigned char raw[sizeof(raw_)];
+      unsigned short rlen = rlen_;
+      std::memcpy(raw, raw_, sizeof(raw_));
+      char buf[8];
+      int c;
+      while ((c = file_char()) != EOF)
+        size += utf8(c, buf);
+      std::memcpy(raw_, raw, sizeof(raw_));
+      rlen_ = rlen;
+    }
+    size_ = size;
+    if (!eof)
+    {
+      ::clearerr(file_);
+      fseeko(file_, k, SEEK_SET);
     }
-    ::clearerr(file_);
-    fseeko(file_, k, SEEK_SET);
   }
-  ::clearerr(file_);
+  if (!eof)
+    ::clearerr(file_);
 }
 
 void Input::istream_size()
@@ -1182,182 +958,20 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
 {
   if (file_ && utfx_ != enc)
   {
-    if (utfx_ == file_encoding::plain && ulen_ > 0)
+    if (enc == file_encoding::custom)
     {
-      // translate (non-BOM) plain bytes (1 to 4 bytes) buffered in utf8_[]
-      unsigned char buf[sizeof(utf8_)];
-      std::memcpy(buf, utf8_, sizeof(utf8_));
-      unsigned char *b = buf;
-      char *t = utf8_;
-      int c1, c2;
-      switch (enc)
-      {
-        case file_encoding::latin:
-          while (ulen_-- > 0)
-          {
-            c1 = *b++;
-            if (c1 < 0x80)
-              *t++ = static_cast<char>(c1);
-            else
-              t += utf8(c1, t);
-          }
-          uidx_ = 0;
-          ulen_ = static_cast<unsigned short>(t - utf8_);
-          break;
-        case file_encoding::cp437:
-        case file_encoding::cp850:
-        case file_encoding::cp858:
-        case file_encoding::ebcdic:
-        case file_encoding::cp1250:
-        case file_encoding::cp1251:
-        case file_encoding::cp1252:
-        case file_encoding::cp1253:
-        case file_encoding::cp1254:
-        case file_encoding::cp1255:
-        case file_encoding::cp1256:
-        case file_encoding::cp1257:
-        case file_encoding::cp1258:
-        case file_encoding::iso8859_2:
-        case file_encoding::iso8859_3:
-        case file_encoding::iso8859_4:
-        case file_encoding::iso8859_5:
-        case file_encoding::iso8859_6:
-        case file_encoding::iso8859_7:
-        case file_encoding::iso8859_8:
-        case file_encoding::iso8859_9:
-        case file_encoding::iso8859_10:
-        case file_encoding::iso8859_11:
-        case file_encoding::iso8859_13:
-        case file_encoding::iso8859_14:
-        case file_encoding::iso8859_15:
-        case file_encoding::iso8859_16:
-        case file_encoding::macroman:
-        case file_encoding::koi8_r:
-        case file_encoding::koi8_u:
-        case file_encoding::koi8_ru:
-          page_ = codepages[enc - file_encoding::latin - 1];
-          while (ulen_-- > 0)
-          {
-            c1 = page_[*b++];
-            if (c1 < 0x80)
-              *t++ = static_cast<char>(c1);
-            else
-              t += utf8(c1, t);
-          }
-          uidx_ = 0;
-          ulen_ = static_cast<unsigned short>(t - utf8_);
-          break;
-        case file_encoding::custom:
-          if (page)
-          {
-            page_ = page;
-            while (ulen_-- > 0)
-            {
-              c1 = page_[*b++];
-              if (c1 < 0x80)
-                *t++ = static_cast<char>(c1);
-              else
-                t += utf8(c1, t);
-            }
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          else
-          {
-            enc = file_encoding::plain;
-          }
-          break;
-        case file_encoding::utf16be:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] << 8 | b[1];
-              c2 = b[2] << 8 | b[3];
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
-          break;
-        case file_encoding::utf16le:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] | b[1] << 8;
-              c2 = b[2] | b[3] << 8;
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
-          break;
-        case file_encoding::utf32be:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          break;
-        case file_encoding::utf32le:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          break;
-        default:
-          break;
-      }
+      if (page)
+        page_ = page;
+      else
+        enc = file_encoding::plain;
+    }
+    else if (enc > file_encoding::latin && enc < file_encoding::custom)
+    {
+      page_ = codepages[enc - file_encoding::latin - 1];
+    }
+    else if (enc > file_encoding::custom)
+    {
+      enc = file_encoding::plain;
     }
     size_ = 0;
     utfx_ = enc;
-- 
2.43.0


From 0cdc8fd2dfb93decdea9490f0a0a42475b8ca94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 23/90] fix: matcher == and != with a char* read past its end
 when the text has a NUL

---
 include/reflex/absmatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index fdc868b..aec7f27 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1298,7 +1298,7 @@ class AbstractMatcher {
     /// @returns true if matched text is equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) == 0 && rhs[len_] == '\0';
+    return std::strlen(rhs) == len_ && std::memcmp(rhs, txt_, len_) == 0;
   }
   /// Returns true if matched text is equalt to a string, useful for std::algorithm.
   bool operator==(const std::string& rhs) ///< rhs string to compare to
@@ -1326,7 +1326,7 @@ class AbstractMatcher {
     /// @returns true if matched text is not equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) != 0 || rhs[len_] != '\0'; // if static checkers complain here, they are wrong
+    return std::strlen(rhs) != len_ || std::memcmp(rhs, txt_, len_) != 0;
   }
   /// Returns true if matched text is not equal to a string, useful for std::algorithm.
   bool operator!=(const std::string& rhs) ///< rhs string to compare to
-- 
2.43.0


From 928f29f635338d711900eda492fb58bbdf3e14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 24/90] fix: less() left the previous character for anchors at
 the end of the full match

---
 include/reflex/absmatcher.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index aec7f27..1d3ed58 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1263,10 +1263,9 @@ class AbstractMatcher {
     {
       DBGCHK(pos_ < max_);
       reset_text();
-      pos_ = txt_ - buf_ + n;
+      set_current(txt_ - buf_ + n);
       DBGCHK(pos_ < max_);
       len_ = n;
-      cur_ = pos_;
     }
   }
   /// Cast this matcher to positive integer indicating the nonzero capture index of the matched text in the pattern, same as AbstractMatcher::accept.
-- 
2.43.0


From c695a767df35423f2b4c9bb4c033a260723954ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 25/90] fix: failing skip() did not consume the rest of the
 input and left an invalid text pointer

---
 include/reflex/absmatcher.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 1d3ed58..538b5f8 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1170,17 +1170,16 @@ class AbstractMatcher {
     len_ = 0;
     while (true)
     {
-      txt_ = static_cast<char*>(std::memchr(buf_ + pos_, c, end_ - pos_));
-      if (txt_ != NULL)
+      const char *s = static_cast<const char*>(std::memchr(buf_ + pos_, c, end_ - pos_));
+      if (s != NULL)
       {
-        ++txt_;
-        set_current(txt_ - buf_);
+        set_current_match(s + 1 - buf_);
         return true;
       }
-      if (eof_)
-        break;
       pos_ = cur_ = end_;
       txt_ = buf_ + end_;
+      if (eof_)
+        break;
       (void)grow();
       end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
       if (pos_ >= end_ && !wrap())
@@ -1216,12 +1215,15 @@ class AbstractMatcher {
       {
         if (*t == '\0')
         {
-          set_current(pos_);
+          set_current_match(pos_);
           return true;
         }
         int c = get();
         if (c == EOF)
+        {
+          set_current_match(end_);
           return false;
+        }
         if (c != static_cast<unsigned char>(*t))
           break;
         ++t;
-- 
2.43.0


From 29345849e6e0901baa070770ff085c61b4d4d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 26/90] fix: eol() and line() searched for the end of line past
 the separator after split()

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 538b5f8..10031c8 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1087,7 +1087,7 @@ class AbstractMatcher {
   {
     if (chr_ == '\n' || (txt_ + len_ < buf_ + end_ && txt_[len_] == '\n'))
       return txt_ + len_ + inclusive;
-    size_t loc = pos_;
+    size_t loc = txt_ - buf_ + len_;
     while (true)
     {
       if (loc < end_)
-- 
2.43.0


From 0b86f36a6ff6acaab99b0e1bf77749df312e7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 27/90] fix: unput() and wunput() left match and line info past
 the new position and garbled text

---
 include/reflex/absmatcher.h | 50 +++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 10031c8..b011d36 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1020,8 +1020,13 @@ class AbstractMatcher {
       std::memmove(buf_ + 1, buf_, end_);
       ++end_;
     }
+    else
+    {
+      return;
+    }
+    unput_sync();
     buf_[pos_] = c;
-    cur_ = pos_;
+    set_current(pos_);
   }
   /// Put back one (wide) character on the input character sequence for matching, DANGER: invalidates the previous text() pointer and match info, unput is not honored when matching in-place using buffer(base, size) and nothing has been read yet.
   void wunput(int c) ///< character to put back
@@ -1029,21 +1034,10 @@ class AbstractMatcher {
     DBGLOG("AbstractMatcher::wunput()");
     char tmp[8];
     size_t n = utf8(c, tmp);
-    if (pos_ >= n)
-    {
-      pos_ -= n;
-    }
-    else if (own_)
-    {
-      txt_ = buf_;
-      len_ = 0;
-      if (end_ + n >= max_)
-        (void)grow();
-      std::memmove(buf_ + n, buf_, end_);
-      end_ += n;
-    }
-    std::memcpy(&buf_[pos_], tmp, n);
-    cur_ = pos_;
+    if (pos_ < n && !own_)
+      return;
+    while (n > 0)
+      unput(tmp[--n]);
   }
   /// Peek at the next character available for reading from the current input source.
   inline int peek()
@@ -1532,6 +1526,30 @@ class AbstractMatcher {
       chr_ = '\0';
     }
   }
+  /// Synchronize the match and line info when the position in the buffer was moved back by unput().
+  inline void unput_sync()
+  {
+    if (txt_ > buf_ + pos_)
+    {
+      txt_ = buf_ + pos_;
+      len_ = 0;
+    }
+    else if (txt_ + len_ > buf_ + pos_)
+    {
+      len_ = buf_ + pos_ - txt_;
+    }
+    if (lpb_ > buf_ + pos_)
+    {
+      lpb_ = buf_ + pos_;
+      if (*lpb_ == '\n' && lno_ > 1)
+        --lno_;
+#if defined(WITH_SPAN)
+      if (bol_ > lpb_)
+        for (bol_ = lpb_; bol_ > buf_ && bol_[-1] != '\n'; --bol_)
+          continue;
+#endif
+    }
+  }
   /// Set the current position in the buffer for the next match.
   inline void set_current(size_t loc) ///< new location in buffer
   {
-- 
2.43.0


From a285ff01c208c3566bced30e6c2a81581ee36be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 28/90] fix: winput() overran its buffer, re-read a byte at the
 end of input and took too many bytes

---
 include/reflex/absmatcher.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b011d36..520bb99 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -994,12 +994,9 @@ class AbstractMatcher {
     int c;
     if ((c = input()) == EOF)
       return EOF;
-    if (static_cast<unsigned char>(*s++ = c) >= 0x80)
-    {
-      while (((++*s = get()) & 0xC0) == 0x80)
-        continue;
-      got_ = static_cast<unsigned char>(buf_[cur_ = --pos_]);
-    }
+    *s++ = static_cast<char>(c);
+    for (int n = c < 0xC0 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : c < 0xF8 ? 3 : c < 0xFC ? 4 : 5; n > 0 && (peek() & 0xC0) == 0x80; --n)
+      *s++ = static_cast<char>(input());
     return utf8(tmp);
   }
   /// Put back one character (8-bit) on the input character sequence for matching, DANGER: invalidates the previous text() pointer and match info, unput is not honored when matching in-place using buffer(base, size) and nothing has been read yet.
-- 
2.43.0


From 5de57a0e86d5e2abc82a0385e46209766bca76ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 29/90] fix: peek(), input() and the next match got a wrong
 character after text()

---
 include/reflex/absmatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 520bb99..b36c4c0 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -559,7 +559,7 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = txt_[len_];
+      chr_ = txt_ + len_ < buf_ + end_ ? static_cast<unsigned char>(txt_[len_]) : '\0'; // nothing to restore at the end of the buffered input
       txt_[len_] = '\0';
     }
     return txt_;
@@ -1041,6 +1041,8 @@ class AbstractMatcher {
     /// @returns the character (unsigned char 0..255) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::peek()");
+    if (chr_ != '\0' && buf_ + pos_ == txt_ + len_)
+      return chr_; // this character is temporarily replaced by text()
 #if defined(WITH_FAST_GET)
     return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_]) : peek_more();
 #else
-- 
2.43.0


From 26a982fcdfcf17a22f6a63ddea93c5013b883678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 30/90] fix: buffer() overwrote input buffered earlier

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b36c4c0..6a7c07c 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -401,7 +401,7 @@ class AbstractMatcher {
     if (n > 0)
     {
       (void)grow(n + 1); // now attempt to fetch all (remaining) data to store in the buffer, +1 for a final \0
-      end_ += get(buf_, n);
+      end_ += get(buf_ + end_, n);
     }
     while (in.good()) // there is more to get while good(), e.g. via wrap()
     {
-- 
2.43.0


From d0b3b6b61e105ef65b3ea464a5ac79a38222b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 31/90] fix: accept the documented \p{Xdigit} category

---
 lib/posix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/posix.cpp b/lib/posix.cpp
index aae6d38..1a1bd0c 100644
--- a/lib/posix.cpp
+++ b/lib/posix.cpp
@@ -71,6 +71,7 @@ Tables::Tables()
   range["Upper"]  = range["u"] = Upper;
   range["Word"]   = range["w"] = Word;
   range["XDigit"] = range["x"] = XDigit;
+  range["Xdigit"]              = XDigit;
 }
 
 static const Tables tables;
-- 
2.43.0


From 19a41105a23219a03ceee4d747d71842066b75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 32/90] fix: \h and POSIX categories in a bracket list in
 Unicode mode

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5318492..4b6c643 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -523,7 +523,7 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
   const int *translated = NULL;
   if (is_modified(mod, 'u'))
     translated = Unicode::range(name);
-  else
+  if (translated == NULL)
     translated = Posix::range(name);
   if (translated == NULL)
     throw regex_error(regex_error::invalid_class, pattern, pos);
@@ -655,7 +655,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
       ++s;
     if (is_modified(mod, 'u'))
       translated = Unicode::range(s);
-    else if (translated == NULL)
+    if (translated == NULL)
       translated = Posix::range(s);
     if (translated == NULL)
       throw regex_error(regex_error::invalid_class, pattern, pos);
-- 
2.43.0


From 6f9840bf518515ed3a2f1f47d9fd4ecc87d1ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 33/90] fix: \s without newline in a bracket list removed the
 newline of other list items

---
 lib/convert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 4b6c643..22686b7 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -711,8 +711,10 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   else if (c == 's' && (flags & convert_flag::notnewline))
   {
     // \s is the same as \p{Space} but without newline \n
-    insert_escape_class(pattern, pos, mod, ranges);
-    ranges.erase('\n');
+    ORanges<int> space;
+    insert_escape_class(pattern, pos, mod, space);
+    space.erase('\n');
+    ranges |= space;
     return -1;
   }
   else if (std::isalpha(c))
-- 
2.43.0


From b1ab4b968239d76be4b9e79080b9572149f93986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 34/90] fix: inverted POSIX category in Unicode mode missed
 non-ASCII characters

---
 lib/convert.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 22686b7..38b4c30 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -731,7 +731,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   return c;
 }
 
-static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORanges<int>& ranges)
+static void insert_posix_class(const char *pattern, size_t len, size_t& pos, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
   pos += 2;
   char buf[8] = "";
@@ -762,8 +762,16 @@ static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORa
         ranges.insert(last, wc[0] - 1);
       last = wc[1] + 1;
     }
-    if (last < 0xFF)
+    if (is_modified(mod, 'u'))
+    {
+      // exclude U+D800 to U+DFFF
+      ranges.insert(last, 0xD7FF);
+      ranges.insert(0xE000, 0x10FFFF);
+    }
+    else if (last <= 0xFF)
+    {
       ranges.insert(last, 0xFF);
+    }
   }
   else
   {
@@ -933,7 +941,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
       // POSIX character class (ASCII only)
       if (range)
         throw regex_error(regex_error::invalid_class_range, pattern, pos);
-      insert_posix_class(pattern, len, pos, ranges);
+      insert_posix_class(pattern, len, pos, mod, ranges);
       pc = -1;
     }
     else if (c == '|' && pattern[pos + 1] == '|' && pos + 3 < len && (pattern[pos + 2] == '[' || (pattern[pos + 2] == '{' && macros != NULL)))
@@ -1345,7 +1353,22 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
         translated = unicode_class(name.c_str(), esc, flags, par);
         if (translated.empty())
         {
-          translated = posix_class(name.c_str(), esc);
+          if (name.at(0) == '^')
+          {
+            // inverted ASCII class in Unicode mode matches Unicode characters
+            const int *wc = Posix::range(name.c_str() + 1);
+            if (wc == NULL)
+              throw regex_error(regex_error::invalid_class, pattern, pos);
+            ORanges<int> ranges(0x00, 0x10FFFF);
+            ranges -= ORanges<int>(0xD800, 0xDFFF); // remove surrogates
+            for (; wc[1] != 0; wc += 2)
+              ranges -= ORanges<int>(wc[0], wc[1]);
+            translated = convert_unicode_ranges(ranges, flags, signature, par);
+          }
+          else
+          {
+            translated = posix_class(name.c_str(), esc);
+          }
           if (translated.empty())
             throw regex_error(regex_error::invalid_class, pattern, pos);
         }
-- 
2.43.0


From f96d1b5bf49dc5f726a6c40afcd88fc17f3d6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 35/90] fix: set operations on bracket lists ignored
 case-insensitive mode

---
 lib/convert.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 38b4c30..46e7a1f 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -781,6 +781,23 @@ static void insert_posix_class(const char *pattern, size_t len, size_t& pos, con
   ++pos;
 }
 
+static void intersect_ranges(const std::map<size_t,std::string>& mod, ORanges<int>& ranges, ORanges<int>& intersect)
+{
+  if (is_modified(mod, 'i'))
+  {
+    convert_anycase_ranges(ranges);
+    convert_anycase_ranges(intersect);
+  }
+  ranges &= intersect;
+}
+
+static void subtract_ranges(const std::map<size_t,std::string>& mod, ORanges<int>& ranges, ORanges<int>& subtract)
+{
+  if (is_modified(mod, 'i'))
+    convert_anycase_ranges(subtract);
+  ranges -= subtract;
+}
+
 static void insert_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros);
 
 static void merge_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros)
@@ -814,7 +831,7 @@ static void intersect_list(const char *pattern, size_t len, size_t& pos, convert
   {
     ++pos;
     insert_list(pattern, len, pos, flags, mod, intersect, macros);
-    ranges &= intersect;
+    intersect_ranges(mod, ranges, intersect);
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -824,7 +841,7 @@ static void intersect_list(const char *pattern, size_t len, size_t& pos, convert
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
     insert_list(list.c_str(), list.size(), subpos, flags, mod, intersect, macros);
-    ranges &= intersect;
+    intersect_ranges(mod, ranges, intersect);
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
@@ -841,7 +858,7 @@ static void subtract_list(const char *pattern, size_t len, size_t& pos, convert_
   {
     ++pos;
     insert_list(pattern, len, pos, flags, mod, subtract, macros);
-    ranges -= subtract;
+    subtract_ranges(mod, ranges, subtract);
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -851,7 +868,7 @@ static void subtract_list(const char *pattern, size_t len, size_t& pos, convert_
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
     insert_list(list.c_str(), list.size(), subpos, flags, mod, subtract, macros);
-    ranges -= subtract;
+    subtract_ranges(mod, ranges, subtract);
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
-- 
2.43.0


From 160e906f5fd056be4e16bf2a80d1882550aa4039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 36/90] fix: union with a negated bracket list negated the
 whole list

---
 lib/convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 46e7a1f..df9f84a 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -802,10 +802,12 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void merge_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros)
 {
+  ORanges<int> merge;
   if (pattern[pos] == '[')
   {
     ++pos;
-    insert_list(pattern, len, pos, flags, mod, ranges, macros);
+    insert_list(pattern, len, pos, flags, mod, merge, macros);
+    ranges |= merge;
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -814,7 +816,8 @@ static void merge_list(const char *pattern, size_t len, size_t& pos, convert_fla
     if (list.size() < 2 || list.at(0) != '[')
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
-    insert_list(list.c_str(), list.size(), subpos, flags, mod, ranges, macros);
+    insert_list(list.c_str(), list.size(), subpos, flags, mod, merge, macros);
+    ranges |= merge;
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
-- 
2.43.0


From f42d7ec36e79cec85801992b2928aaa352983f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 37/90] fix: raw bytes above 0x7F in a bracket list without
 Unicode mode

---
 lib/convert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index df9f84a..d93f9c1 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1007,6 +1007,10 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
         c = utf8(&pattern[pos], &r);
         pos += r - &pattern[pos] - 1;
       }
+      else
+      {
+        c = static_cast<unsigned char>(c);
+      }
       if (range)
       {
         if (c == -1 || pc > c)
-- 
2.43.0


From 6391ee8042b6fb612b186b8108e0acc3f77d903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 38/90] fix: escaped # in free-space mode became a comment

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index d93f9c1..681fd95 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1053,7 +1053,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 static void convert_escape_char(const char *pattern, size_t len, size_t& loc, size_t& pos, convert_flag_type flags, const char *signature, const std::map<size_t,std::string>& mod, const char *par, std::string& regex)
 {
   int c = pattern[pos];
-  if (std::strchr(regex_unescapes, c) != NULL)
+  if (std::strchr(regex_unescapes, c) != NULL && (c != '#' || !is_modified(mod, 'x')))
   {
     // translate \x to x
     regex.append(&pattern[loc], pos - loc - 1);
-- 
2.43.0


From 34002999dd7062796e24f76f562300ebbefae7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 39/90] fix: \B and \Y were translated into each other

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 681fd95..9ee0268 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1134,7 +1134,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'Y'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \B to \Y
-        regex.append(&pattern[loc], pos - loc - 1).append("\\y");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\Y");
         loc = pos + 1;
       }
       else if (c == 'Y')
@@ -1142,7 +1142,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'B'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \Y to \B
-        regex.append(&pattern[loc], pos - loc - 1).append("\\b");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\B");
         loc = pos + 1;
       }
       else if (c == '<')
-- 
2.43.0


From e513517f1f474293431b33840ebc2dacba15132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 40/90] fix: quotations ignored case-insensitive mode

---
 lib/convert.cpp | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 9ee0268..4a7e79a 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1183,6 +1183,32 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
   }
 }
 
+static void convert_quoted(const char *pattern, size_t& loc, size_t pos, const std::map<size_t,std::string>& mod, const char *signature, std::string& regex)
+{
+  int c = static_cast<unsigned char>(pattern[pos]);
+  if (std::isspace(c) && is_modified(mod, 'x'))
+  {
+    // freespace: translate space to \xXX
+    regex.append(&pattern[loc], pos - loc).append(latin1(c, c, hex_or_octal_escape(signature)));
+    loc = pos + 1;
+  }
+  else if (c < 0x80 && std::isalpha(c) && is_modified(mod, 'i'))
+  {
+    // anycase: translate A to [Aa]
+    regex.append(&pattern[loc], pos - loc).push_back('[');
+    regex.push_back(c);
+    regex.push_back(c ^ 0x20);
+    regex.push_back(']');
+    loc = pos + 1;
+  }
+  else if (std::strchr(regex_meta, c) != NULL)
+  {
+    // translate meta char by escaping it
+    regex.append(&pattern[loc], pos - loc).push_back('\\');
+    loc = pos;
+  }
+}
+
 static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t& pos, convert_flag_type flags, const char *signature, const std::map<size_t,std::string>& mod, const char *par, std::string& regex)
 {
   int c = pattern[pos];
@@ -1551,18 +1577,14 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         c = pattern[++pos];
         if (c == 'Q')
         {
-          if (!supports_escape(signature, 'Q'))
+          if (!supports_escape(signature, 'Q') || is_modified(mod, 'i'))
           {
-            // \Q is not a supported escape, translate by grouping and escaping meta chars up to the closing \E
+            // \Q is not a supported escape or case-insensitive, translate by grouping and escaping meta chars up to the closing \E
             regex.append(&pattern[loc], pos - loc - 1);
             size_t k = loc = ++pos;
             while (pos + 1 < len && (pattern[pos] != '\\' || pattern[pos + 1] != 'E'))
             {
-              if (std::strchr(regex_meta, pattern[pos]) != NULL)
-              {
-                regex.append(&pattern[loc], pos - loc).push_back('\\');
-                loc = pos;
-              }
+              convert_quoted(pattern, loc, pos, mod, signature, regex);
               ++pos;
             }
             if (pos + 1 >= len || pattern[pos] != '\\')
@@ -1897,9 +1919,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if ((flags & convert_flag::lex))
         {
           // lex: translate "..."
-          if (!supports_escape(signature, 'Q'))
+          if (!supports_escape(signature, 'Q') || is_modified(mod, 'i'))
           {
-            // \Q is not a supported escape, translate "..." by grouping and escaping meta chars while removing \ from \"
+            // \Q is not a supported escape or case-insensitive, translate "..." by grouping and escaping meta chars while removing \ from \"
             regex.append(&pattern[loc], pos - loc).append(par);
             size_t k = loc = ++pos;
             while (pos < len && pattern[pos] != '"')
@@ -1909,10 +1931,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                 regex.append(&pattern[loc], pos - loc);
                 loc = ++pos;
               }
-              else if (std::strchr(regex_meta, pattern[pos]) != NULL)
+              else
               {
-                regex.append(&pattern[loc], pos - loc).push_back('\\');
-                loc = pos;
+                convert_quoted(pattern, loc, pos, mod, signature, regex);
               }
               ++pos;
             }
-- 
2.43.0


From 3c7e859b4bdcf62cb7090073d43369e5dd719605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 41/90] fix: quantifier of an escaped non-ASCII character in
 Unicode mode applied to its last byte

---
 lib/convert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 4a7e79a..e7310d8 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1287,8 +1287,8 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
     else
     {
       int esc = hex_or_octal_escape(signature);
-      if (is_modified(mod, 'u'))
-        regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+      if (is_modified(mod, 'u') && wc > 0x7F)
+        regex.append(&pattern[loc], pos - loc - 1).append(par).append(utf8(wc, wc, esc, par)).push_back(')');
       else
         regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
     }
@@ -1334,8 +1334,8 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
           else
           {
             int esc = hex_or_octal_escape(signature);
-            if (is_modified(mod, 'u'))
-              regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+            if (is_modified(mod, 'u') && wc > 0x7F)
+              regex.append(&pattern[loc], pos - loc - 1).append(par).append(utf8(wc, wc, esc, par)).push_back(')');
             else
               regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
           }
-- 
2.43.0


From cff4e6cdbd20c693c5f601bc66ca47ac3ae351ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 42/90] fix: supported inline modifiers were not applied to the
 rest of the conversion

---
 lib/convert.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index e7310d8..fbf2e8b 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -174,16 +174,21 @@ static std::string unicode_class(const char *s, int esc, convert_flag_type flags
 //                                                                            //
 ////////////////////////////////////////////////////////////////////////////////
 
+inline bool is_modifier(int c)
+{
+  return c == 'i' || c == 'm' || c == 's' || c == 'u' || c == 'x';
+}
+
 inline void enable_modifier(int c, const char *pattern, size_t pos, std::map<size_t,std::string>& mod, size_t lev)
 {
-  if (c != 'i' && c != 'm' && c != 's' && c != 'u' && c != 'x')
+  if (!is_modifier(c))
     throw regex_error(regex_error::invalid_modifier, pattern, pos);
   mod[lev].push_back(c);
 }
 
 inline void disable_modifier(int c, const char *pattern, size_t pos, std::map<size_t,std::string>& mod, size_t lev)
 {
-  if (c != 'i' && c != 'm' && c != 's' && c != 'u' && c != 'x')
+  if (!is_modifier(c))
     throw regex_error(regex_error::invalid_modifier, pattern, pos);
   mod[lev].push_back(uppercase(c));
 }
@@ -1514,6 +1519,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (supports_modifier(signature, pattern[k]))
         {
           mods.push_back(pattern[k]);
+          if (is_modifier(pattern[k]))
+            enable_modifier(pattern[k], pattern, k, mod, lev);
         }
         else if (pattern[k] == 'm')
         {
@@ -1527,11 +1534,19 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       else
       {
         if (supports_modifier(signature, pattern[k]))
+        {
           unmods.push_back(pattern[k]);
+          if (is_modifier(pattern[k]))
+            disable_modifier(pattern[k], pattern, k, mod, lev);
+        }
         else if (pattern[k] == 'm')
+        {
           throw regex_error(regex_error::invalid_modifier, pattern, pos);
+        }
         else
+        {
           disable_modifier(pattern[k], pattern, k, mod, lev);
+        }
       }
       ++k;
     }
@@ -1720,14 +1735,14 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                   {
                     if (supports_modifier(signature, pattern[k]))
                       mods.push_back(pattern[k]);
-                    else
+                    if (is_modifier(pattern[k]) || !supports_modifier(signature, pattern[k]))
                       enable_modifier(pattern[k], pattern, k, mod, lev);
                   }
                   else
                   {
                     if (supports_modifier(signature, pattern[k]))
                       unmods.push_back(pattern[k]);
-                    else
+                    if (is_modifier(pattern[k]) || !supports_modifier(signature, pattern[k]))
                       disable_modifier(pattern[k], pattern, k, mod, lev);
                   }
                   ++k;
-- 
2.43.0


From d1a71e50c0d77595e95c0d77187d3f73d34d6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 43/90] fix: multiline flag was lost when the regex begins with
 a group

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index fbf2e8b..366a500 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1568,6 +1568,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
     else
     {
       mod[lev].clear();
+      if ((flags & convert_flag::multiline))
+        regex.assign("(?m)");
     }
   }
   else if ((flags & convert_flag::multiline))
-- 
2.43.0


From 87ab58838e312f26c06e6a92586d1fe2a2dd8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 44/90] fix: + and ? are literal in basic regex syntax

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 366a500..da122a6 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1695,7 +1695,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         else
         {
           ++lev;
-          if (pos + 1 < len && pattern[pos + 1] == '?')
+          if (pos + 1 < len && pattern[pos + 1] == '?' && !(flags & convert_flag::basic))
           {
             ++pos;
             if (pos + 1 < len)
@@ -2070,7 +2070,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
               else
                 throw regex_error(regex_error::mismatched_braces, pattern, pos);
             }
-            if (pos + 1 < len && (pattern[pos + 1] == '?' || pattern[pos + 1] == '+') && !supports_escape(signature, pattern[pos + 1]))
+            if (pos + 1 < len && !(flags & convert_flag::basic) && (pattern[pos + 1] == '?' || pattern[pos + 1] == '+') && !supports_escape(signature, pattern[pos + 1]))
               throw regex_error(regex_error::invalid_quantifier, pattern, pos + 1);
           }
         }
@@ -2112,7 +2112,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         }
         break;
       case '.':
-        if (is_modified(mod, 'u') && (pos + 1 >= len || (pattern[pos + 1] != '*' && pattern[pos + 1] != '+')))
+        if (is_modified(mod, 'u') && (pos + 1 >= len || (pattern[pos + 1] != '*' && (pattern[pos + 1] != '+' || (flags & convert_flag::basic)))))
         {
           // unicode: translate . to match any UTF-8 so . matches anything (also beyond U+10FFFF)
           if (is_modified(mod, 's'))
-- 
2.43.0


From f8f9724307c6d93eebf1c28bd029456329edac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 45/90] fix: [[:>:]] matched the begin of a word

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index da122a6..34cbd8c 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1901,12 +1901,12 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           {
             if (!supports_escape(signature, 'b') || !supports_escape(signature, 'w') || !supports_modifier(signature, '<'))
               throw regex_error(regex_error::invalid_anchor, pattern, pos);
-            // translate \< to \b(?<=\w)
-            regex.append(&pattern[loc], pos - loc - 1).append("\\b(?<=\\w)");
+            // translate \> to \b(?<=\w)
+            regex.append(&pattern[loc], pos - loc).append("\\b(?<=\\w)");
           }
           else
           {
-            regex.append(&pattern[loc], pos - loc).append("\\<");
+            regex.append(&pattern[loc], pos - loc).append("\\>");
           }
           pos += 6;
           loc = pos + 1;
-- 
2.43.0


From 92da6594dda595241f3c905128659612915f87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 46/90] fix: hex escape of one digit swallowed the next
 character

---
 lib/convert.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 34cbd8c..a60a42e 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -289,8 +289,11 @@ static int convert_hex(const char *pattern, size_t len, size_t& pos, convert_fla
     size_t n = pos + 3;
     if (c == 'u')
       n += 2;
-    while (k < n && k < len && std::isxdigit(c = pattern[k++]))
+    while (k < n && k < len && std::isxdigit(static_cast<unsigned char>(c = pattern[k])))
+    {
       *s++ = c;
+      ++k;
+    }
     *s = '\0';
     --k;
   }
-- 
2.43.0


From 5acc866a71f7e2075271dfbbdca97278ed283eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 47/90] fix: generated FSM code advances the search position
 after one character only

---
 include/reflex/matcher.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 73f5811..d97f60c 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -232,8 +232,9 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   /// FSM code FIND.
   inline void FSM_FIND()
   {
-    if (cap_ == 0)
-      cur_ = pos_;
+    // loop back to start state after only one char matched (one transition) but w/o full match, then optimize
+    if (cap_ == 0 && pos_ == cur_ + 1 && fsm_.fnd)
+      cur_ = pos_; // set cur_ to move forward from cur_ + 1 with FIND advance()
   }
   /// FSM code CHAR.
   inline int FSM_CHAR()
@@ -388,9 +389,10 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
   /// FSM data for FSM code
   struct FSM {
-    FSM() : bol(), nul(), c1() { }
+    FSM() : bol(), nul(), fnd(), c1() { }
     bool bol;
     bool nul;
+    bool fnd;
     int  c1;
   };
   /// Returns true if input matched the pattern using method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH.
@@ -424,6 +426,7 @@ redo:
       DBGLOG("FSM code %p", pat_->fsm_);
       fsm_.bol = bol;
       fsm_.nul = nul;
+      fsm_.fnd = method == Const::FIND;
       pat_->fsm_(*this);
       nul = fsm_.nul;
       c1 = fsm_.c1;
-- 
2.43.0


From 9c8c23bdac012dcf1891682701bfb7ba6485aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 48/90] fix: undent \k matches only when the indentation
 changed and no other anchor matched

---
 fuzzy/fuzzymatcher.h     | 15 +++++++++------
 include/reflex/matcher.h | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e2590d6..30dae72 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -446,14 +446,17 @@ redo:
                     continue;
                   case Pattern::META_UND - Pattern::META_MIN:
                     DBGLOG("UND");
-                    if (mrk_)
+                    if (jump == Pattern::Const::IMAX)
                     {
-                      jump = Pattern::index_of(opcode);
-                      if (jump == Pattern::Const::LONG)
-                        jump = Pattern::long_index_of(*++pc);
+                      if (mrk_ && !nodent())
+                      {
+                        jump = Pattern::index_of(opcode);
+                        if (jump == Pattern::Const::LONG)
+                          jump = Pattern::long_index_of(*++pc);
+                      }
+                      mrk_ = false;
+                      ded_ = 0;
                     }
-                    mrk_ = false;
-                    ded_ = 0;
                     opcode = *++pc;
                     continue;
 #endif
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index d97f60c..67725ba 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -552,14 +552,17 @@ redo:
                   continue;
                 case Pattern::META_UND - Pattern::META_MIN:
                   DBGLOG("UND");
-                  if (mrk_)
+                  if (jump == Pattern::Const::IMAX)
                   {
-                    jump = Pattern::index_of(opcode);
-                    if (jump == Pattern::Const::LONG)
-                      jump = Pattern::long_index_of(*++pc);
+                    if (mrk_ && !nodent())
+                    {
+                      jump = Pattern::index_of(opcode);
+                      if (jump == Pattern::Const::LONG)
+                        jump = Pattern::long_index_of(*++pc);
+                    }
+                    mrk_ = false;
+                    ded_ = 0;
                   }
-                  mrk_ = false;
-                  ded_ = 0;
                   opcode = *++pc;
                   continue;
 #endif
@@ -940,11 +943,10 @@ unrolled:
     newline();
     return !tab_.empty() && tab_.back() > col_;
   }
-  /// Returns true if nodent.
+  /// Returns true if nodent at the position of the last indent() or dedent().
   inline bool nodent()
     /// @returns true if nodent
   {
-    newline();
     return (col_ <= 0 || (!tab_.empty() && tab_.back() >= col_)) && (tab_.empty() || tab_.back() <= col_);
   }
 #endif
-- 
2.43.0


From 770e17fdcc80908e545a8c603d3915a3df658504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 49/90] fix: indent and dedent at the end of input count the
 last column

---
 fuzzy/fuzzymatcher.h     |  4 ++--
 include/reflex/matcher.h | 24 ++++++++++++------------
 lib/pattern.cpp          | 10 ++++++++--
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 30dae72..624e556 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -426,7 +426,7 @@ redo:
 #if !defined(WITH_NO_INDENT)
                   case Pattern::META_DED - Pattern::META_MIN:
                     DBGLOG("DED? %d", c1);
-                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent())
+                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent(c1))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -436,7 +436,7 @@ redo:
                     continue;
                   case Pattern::META_IND - Pattern::META_MIN:
                     DBGLOG("IND? %d", c1);
-                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent())
+                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent(c1))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 67725ba..8efc725 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -309,14 +309,14 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   }
 #if !defined(WITH_NO_INDENT)
   /// FSM code META DED.
-  inline bool FSM_META_DED()
+  inline bool FSM_META_DED(int c1 = AbstractMatcher::Const::UNK)
   {
-    return fsm_.bol && dedent();
+    return fsm_.bol && dedent(c1);
   }
   /// FSM code META IND.
-  inline bool FSM_META_IND()
+  inline bool FSM_META_IND(int c1 = AbstractMatcher::Const::UNK)
   {
-    return fsm_.bol && indent();
+    return fsm_.bol && indent(c1);
   }
   /// FSM code META UND.
   inline bool FSM_META_UND()
@@ -532,7 +532,7 @@ redo:
 #if !defined(WITH_NO_INDENT)
                 case Pattern::META_DED - Pattern::META_MIN:
                   DBGLOG("DED? %d", c1);
-                  if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent())
+                  if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent(c1))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -542,7 +542,7 @@ redo:
                   continue;
                 case Pattern::META_IND - Pattern::META_MIN:
                   DBGLOG("IND? %d", c1);
-                  if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent())
+                  if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent(c1))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -922,25 +922,25 @@ unrolled:
     ;
 #if !defined(WITH_NO_INDENT)
   /// Update indentation column counter for indent() and dedent().
-  inline void newline()
+  inline void newline(int c1) ///< character read ahead, not part of the indentation, or EOF
   {
     mrk_ = true;
-    while (ind_ + 1 < pos_)
+    while (ind_ + (c1 != EOF) < pos_)
       col_ += buf_[ind_++] == '\t' ? 1 + (~col_ & (opt_.T - 1)) : 1;
     DBGLOG("Newline with indent/dedent? col = %zu", col_);
   }
   /// Returns true if looking at indent.
-  inline bool indent()
+  inline bool indent(int c1) ///< character read ahead or EOF
     /// @returns true if indent
   {
-    newline();
+    newline(c1);
     return col_ > 0 && (tab_.empty() || tab_.back() < col_);
   }
   /// Returns true if looking at dedent.
-  inline bool dedent()
+  inline bool dedent(int c1) ///< character read ahead or EOF
     /// @returns true if dedent
   {
-    newline();
+    newline(c1);
     return !tab_.empty() && tab_.back() > col_;
   }
   /// Returns true if nodent at the position of the last indent() or dedent().
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 8aae8cc..d0fc437 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -2472,7 +2472,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
             {
               do
               {
-                if (lo == META_EOB || lo == META_EOL)
+                if (lo == META_DED || lo == META_IND || lo == META_EOB || lo == META_EOL)
                   peek = true;
                 else if (lo == META_EWE || lo == META_BWE || lo == META_NWE)
                   prev = peek = true;
@@ -2543,6 +2543,8 @@ void Pattern::gencode_dfa(const DFA::State *start) const
               {
                 switch (lo)
                 {
+                  case META_DED:
+                  case META_IND:
                   case META_EOB:
                   case META_EOL:
                     ::fprintf(file, "  ");
@@ -2595,6 +2597,8 @@ void Pattern::gencode_dfa(const DFA::State *start) const
               {
                 switch (lo)
                 {
+                  case META_DED:
+                  case META_IND:
                   case META_EOB:
                   case META_EOL:
                     ::fprintf(file, "  ");
@@ -2715,7 +2719,7 @@ void Pattern::check_dfa_closure(const DFA::State *state, int nest, bool& peek, b
     {
       do
       {
-        if (lo == META_EOB || lo == META_EOL)
+        if (lo == META_DED || lo == META_IND || lo == META_EOB || lo == META_EOL)
           peek = true;
         else if (lo == META_EWE || lo == META_BWE || lo == META_NWE)
           prev = peek = true;
@@ -2763,6 +2767,8 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
       {
         switch (lo)
         {
+          case META_DED:
+          case META_IND:
           case META_EOB:
           case META_EOL:
             ::fprintf(file, "%*s", 2*nest, "");
-- 
2.43.0


From d3ec9d6d811e707e66f1046c9e19d097d88a7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 50/90] fix: rescan for pending dedents restarts with the
 character before the match

---
 fuzzy/fuzzymatcher.h     | 2 ++
 include/reflex/matcher.h | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 624e556..411e374 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -876,6 +876,8 @@ unrolled:
         tab_.resize(0);
         DBGLOG("Rescan for pending dedents: ded = %zu", ded_);
         pos_ = ind_;
+        // restart with the character before this match
+        c1 = got_;
         // avoid looping, match \j exactly
         bol = false;
         goto redo;
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 8efc725..35ef5a2 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -795,6 +795,9 @@ unrolled:
         tab_.resize(0);
         DBGLOG("Rescan for pending dedents: ded = %zu", ded_);
         pos_ = ind_;
+        // restart with the character before this match
+        c1 = got_;
+        fsm_.c1 = c1;
         // avoid looping, match \j exactly
         bol = false;
         goto redo;
-- 
2.43.0


From 2fd0ecc2882ff9aaf0d8bbff390c112c54e80613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 51/90] fix: split starts counting indentation anew at each
 position it tries

---
 fuzzy/fuzzymatcher.h     | 2 +-
 include/reflex/matcher.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 411e374..4be0697 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -302,12 +302,12 @@ class FuzzyMatcher : public Matcher {
     anc_ = false; // no word boundary anchor found and applied
 scan:
     txt_ = buf_ + cur_;
+find:
 #if !defined(WITH_NO_INDENT)
     mrk_ = false;
     ind_ = pos_; // ind scans input in buf[] in newline() up to pos - 1
     col_ = 0; // count columns for indent matching
 #endif
-find:
     int c1 = got_;
     bool bol = at_bol(); // at begin of line?
 #if !defined(WITH_NO_INDENT)
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 35ef5a2..b98a9f9 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -405,12 +405,12 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     anc_ = false; // no word boundary anchor found and applied
 scan:
     txt_ = buf_ + cur_;
+find:
 #if !defined(WITH_NO_INDENT)
     mrk_ = false;
     ind_ = pos_; // ind scans input in buf[] in newline() up to pos - 1
     col_ = 0; // count columns for indent matching
 #endif
-find:
     int c1 = got_;
     bool bol = at_bol(); // at begin of line?
     if (pat_->fsm_ != NULL)
-- 
2.43.0


From 462c30f740099d98e81866ba5b7661a9197b2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 52/90] fix: word boundary at the begin of a match in generated
 FSM code reads input first

---
 include/reflex/matcher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index b98a9f9..d988efb 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -365,12 +365,14 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_EWB()
   {
     anc_ = true;
+    (void)peek(); // make sure that txt_[len_] is buffered
     return isword(got_) && !isword(static_cast<unsigned char>(txt_[len_]));
   }
   /// FSM code META BWB.
   inline bool FSM_META_BWB()
   {
     anc_ = true;
+    (void)peek(); // make sure that txt_[len_] is buffered
     return !isword(got_) && (opt_.W || isword(static_cast<unsigned char>(txt_[len_])));
   }
   /// FSM code META NWE.
@@ -383,6 +385,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_NWB()
   {
     anc_ = true;
+    (void)peek(); // make sure that txt_[len_] is buffered
     return isword(got_) == isword(static_cast<unsigned char>(txt_[len_]));
   }
  protected:
-- 
2.43.0


From a76dffe2f3ba0c31c4e22eab9e92a800999902e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:24 +0000
Subject: [PATCH 53/90] fix: matching loops forever on a repeated anchor, e.g.
 (^|a)*b

---
 lib/pattern.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index d0fc437..1a46067 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1317,6 +1317,9 @@ void Pattern::compile(
     table[hash_pos(start)] = start;
   // last added state
   DFA::State *last_state = start;
+  // all meta characters
+  Chars metas;
+  metas.insert(META_MIN, META_MAX - 1);
   for (DFA::State *state = start; state; state = state->next)
   {
     Moves moves;
@@ -1478,6 +1481,11 @@ void Pattern::compile(
           else
             table[h] = target_state;
         }
+        // a meta transition back to the same state makes no progress, remove cyclic anchors e.g. (^|a)*b
+        if (target_state == state)
+          i->first -= metas;
+        if (!i->first.any())
+          continue;
         Char lo = i->first.lo();
         Char max = i->first.hi();
 #ifdef DEBUG
-- 
2.43.0


From 62316a8e3abaeac266401c27196dc94caaf9cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:24 +0000
Subject: [PATCH 54/90] fix: search with lookahead, negative pattern or accept
 code other than 1 treated as a plain string

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 1a46067..c773e6b 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -3094,7 +3094,7 @@ void Pattern::predict_match_dfa(DFA::State *start)
     }
     state = next;
   }
-  if (state != NULL && state->accept > 0 && !state->edges.empty())
+  if (state != NULL && state->accept > 0 && (state->accept != 1 || state->redo || !state->tails.empty() || !state->edges.empty()))
     one_ = false;
   min_ = 0;
   std::memset(bit_, 0xFF, sizeof(bit_));
-- 
2.43.0


From c0553a34a9c4e057d311483279d81442e611cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:24 +0000
Subject: [PATCH 55/90] fix: split with an empty separator at the begin of
 input stops early

---
 include/reflex/matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index d988efb..65f19b6 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -830,7 +830,7 @@ unrolled:
         DBGLOG("END Matcher::match()");
         return cap_;
       }
-      if (cur_ == 0 && at_bob() && at_end())
+      if (pos_ == 0 && at_bob() && at_end())
       {
         cap_ = Const::EMPTY;
         got_ = Const::EOB;
-- 
2.43.0


From 4828448f1bff4934d4bd86937402d13f48848f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 56/90] fix: \B compared an underscore with a letter or digit
 as a word and a non-word character

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 6a7c07c..7fe2b77 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -60,7 +60,7 @@ namespace reflex {
 inline int isword(int c) ///< Character to check
   /// @returns nonzero if argument c is in `[A-Za-z0-9_]`, zero otherwise
 {
-  return std::isalnum(static_cast<unsigned char>(c)) | (c == '_');
+  return (std::isalnum(static_cast<unsigned char>(c)) != 0) | (c == '_');
 }
 
 /// The abstract matcher base class template defines an interface for all pattern matcher engines.
-- 
2.43.0


From 6d111628b1d186d41c50856abc70162ef5aa9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 57/90] fix: lookahead of a pattern that lost a tie trimmed the
 text of the match

---
 lib/pattern.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index c773e6b..5dd7700 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1688,6 +1688,8 @@ void Pattern::compile_transition(
     Moves&      moves) const
 {
   DBGLOG("BEGIN compile_transition()");
+  std::vector< std::pair<Accept,Lookahead> > tails; // lookahead tails in this state
+  Accept redo = 0; // first negative pattern accepted in this state
   Positions::const_iterator end = state->end();
   for (Positions::const_iterator k = state->begin(); k != end; ++k)
   {
@@ -1697,7 +1699,11 @@ void Pattern::compile_transition(
       if (state->accept == 0 || accept < state->accept)
         state->accept = accept;
       if (k->negate())
+      {
         state->redo = true;
+        if (redo == 0 || accept < redo)
+          redo = accept;
+      }
     }
     else
     {
@@ -1738,12 +1744,12 @@ void Pattern::compile_transition(
           {
             Locations::const_iterator j = i->second.find(loc);
             DBGLOGN("%d %d (%d) %u", state->accept, i->first, j != i->second.end(), n);
-            if (j != i->second.end() /* CHECKED algorithmic options: 7/18 && state->accept == i->first */ ) // only add lookstop when part of the proper accept state
+            if (j != i->second.end())
             {
               Lookahead l = n + static_cast<Lookahead>(std::distance(i->second.begin(), j));
               if (l < n)
                 error(regex_error::exceeds_limits, loc);
-              state->tails.insert(l);
+              tails.push_back(std::pair<Accept,Lookahead>(static_cast<Accept>(i->first), l));
             }
             Lookahead k = n;
             n += static_cast<Lookahead>(i->second.size());
@@ -1902,6 +1908,10 @@ void Pattern::compile_transition(
       }
     }
   }
+  // only add lookstops that are part of the proper accept state
+  for (std::vector< std::pair<Accept,Lookahead> >::const_iterator t = tails.begin(); t != tails.end(); ++t)
+    if (t->first == (state->redo ? redo : state->accept))
+      state->tails.insert(t->second);
   Moves::iterator i = moves.begin();
   Moves::iterator e = moves.end();
   while (i != e)
-- 
2.43.0


From 93ac9e7291d3b614709370ffbc947b93d12086db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 58/90] fix: split returned negative pattern matches as
 separators

---
 fuzzy/fuzzymatcher.h     | 11 +++++++++++
 include/reflex/matcher.h | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 4be0697..960d982 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -888,6 +888,17 @@ unrolled:
     if (method == Const::SPLIT)
     {
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
+      if (cap_ == Const::REDO && !opt_.A)
+      {
+        // a negative pattern is not a separator
+        if (cur_ > txt_ - buf_ + len_)
+        {
+          len_ = cur_ - (txt_ - buf_);
+          set_current(cur_);
+          goto find;
+        }
+        cap_ = 0;
+      }
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
         if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 65f19b6..7034058 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -811,6 +811,17 @@ unrolled:
     if (method == Const::SPLIT)
     {
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
+      if (cap_ == Const::REDO && !opt_.A)
+      {
+        // a negative pattern is not a separator
+        if (cur_ > txt_ - buf_ + len_)
+        {
+          len_ = cur_ - (txt_ - buf_);
+          set_current(cur_);
+          goto find;
+        }
+        cap_ = 0;
+      }
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
         if (txt_ + len_ < buf_ + end_ || peek() != EOF)
-- 
2.43.0


From a90828b9cba82c7e1d87f34dadc8bf8f07ebeaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 59/90] hook: buffer block size for tests (REFLEX_VERIF_BLOCK)

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 7fe2b77..66c21f8 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -101,7 +101,11 @@ class AbstractMatcher {
     static const int UNK      = 256;        ///< unknown/undefined character meta-char marker
     static const int BOB      = 257;        ///< begin of buffer meta-char marker
     static const int EOB      = EOF;        ///< end of buffer meta-char marker
+#if defined(REFLEX_VERIF_BLOCK)
+    static const size_t BLOCK = REFLEX_VERIF_BLOCK; ///< test hook: a small buffer
+#else
     static const size_t BLOCK = (256*1024); ///< buffer size and growth, buffer is initially 2*BLOCK size, at least 4096 bytes
+#endif
     static const size_t REDO  = 0x7FFFFFFF; ///< reflex::Matcher::accept() returns "redo" with reflex::Matcher option "A"
     static const size_t EMPTY = 0xFFFFFFFF; ///< accept() returns "empty" last split at end of input
   };
-- 
2.43.0


From 020f359e943fb800ca65a52277fd9afc351bdfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 60/90] fix: copying and assigning a Pattern

The copy constructor released an uninitialized pointer, copies lost the
search predictor and opcode tables that are not owned, self-assignment
cleared the pattern, and assigning a regex kept the subpatterns, the tree
of strings (released) and output files of the previous one.
---
 include/reflex/pattern.h | 26 +++++++++++++++++++++++++-
 lib/pattern.cpp          |  3 +++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index d9e4597..be15eaa 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -84,7 +84,10 @@ class Pattern {
     :
       opc_(NULL),
       nop_(0),
-      fsm_(NULL)
+      fsm_(NULL),
+      len_(0),
+      min_(0),
+      one_(false)
   { }
   /// Construct a pattern object given a regex string.
   explicit Pattern(
@@ -152,6 +155,10 @@ class Pattern {
   }
   /// Copy constructor.
   Pattern(const Pattern& pattern) ///< pattern to copy
+    :
+      opc_(NULL),
+      nop_(0),
+      fsm_(NULL)
   {
     operator=(pattern);
   }
@@ -164,6 +171,10 @@ class Pattern {
   void clear()
   {
     rex_.clear();
+    end_.clear();
+    acc_.clear();
+    tfa_.clear();
+    dfa_.clear();
     if (nop_ > 0 && opc_ != NULL)
       delete[] opc_;
     opc_ = NULL;
@@ -224,6 +235,8 @@ class Pattern {
   /// Assign a (new) pattern.
   Pattern& operator=(const Pattern& pattern)
   {
+    if (this == &pattern)
+      return *this;
     clear();
     opt_ = pattern.opt_;
     rex_ = pattern.rex_;
@@ -245,8 +258,16 @@ class Pattern {
     }
     else
     {
+      opc_ = pattern.opc_;
       fsm_ = pattern.fsm_;
     }
+    len_ = pattern.len_;
+    min_ = pattern.min_;
+    one_ = pattern.one_;
+    std::memcpy(pre_, pattern.pre_, sizeof(pre_));
+    std::memcpy(bit_, pattern.bit_, sizeof(bit_));
+    std::memcpy(pmh_, pattern.pmh_, sizeof(pmh_));
+    std::memcpy(pma_, pattern.pma_, sizeof(pma_));
     return *this;
   }
   /// Assign a (new) pattern.
@@ -507,6 +528,8 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      tree = NULL;
+      next = ALLOC;
     }
     /// return the root of the tree.
     Node *root()
@@ -586,6 +609,7 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      next = ALLOC;
     }
     /// new DFA state with optional tree DFA node.
     State *state(Tree::Node *node)
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 5dd7700..70d3359 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -230,6 +230,9 @@ void Pattern::init_options(const char *options)
   opt_.w = false;
   opt_.x = false;
   opt_.e = '\\';
+  opt_.f.clear();
+  opt_.n.clear();
+  opt_.z.clear();
   if (options != NULL)
   {
     for (const char *s = options; *s != '\0'; ++s)
-- 
2.43.0


From 8233f20d13e737410ff673d07f96b8e4662302bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 61/90] fix: copy the search positions of a Matcher with its
 Boyer-Moore table

---
 include/reflex/matcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 7034058..d0c3b9b 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -105,6 +105,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
       tab_(matcher.tab_)
   {
     DBGLOG("Matcher::Matcher(matcher)");
+    lcp_ = matcher.lcp_;
+    lcs_ = matcher.lcs_;
     bmd_ = matcher.bmd_;
     if (bmd_ != 0)
       std::memcpy(bms_, matcher.bms_, sizeof(bms_));
@@ -115,6 +117,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::operator=(matcher);
     ded_ = matcher.ded_;
     tab_ = matcher.tab_;
+    lcp_ = matcher.lcp_;
+    lcs_ = matcher.lcs_;
     bmd_ = matcher.bmd_;
     if (bmd_ != 0)
       std::memcpy(bms_, matcher.bms_, sizeof(bms_));
-- 
2.43.0


From 963cacc1dcfd2fcc7900b47b5433674730a302c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 62/90] fix: Boyer-Moore table of the previous pattern used
 after setting a new pattern

---
 include/reflex/matcher.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index d0c3b9b..bcb43af 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -129,6 +129,39 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   {
     return new Matcher(*this);
   }
+  using PatternMatcher<reflex::Pattern>::pattern;
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual Matcher& pattern(const Pattern& pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0; // Boyer-Moore preprocessing was done for another pattern
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual Matcher& pattern(const Pattern *pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual Matcher& pattern(const char *pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual Matcher& pattern(const std::string& pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
   /// Reset this matcher's state to the initial state.
   virtual void reset(const char *opt = NULL)
   {
-- 
2.43.0


From 803950618fb3a9654d8dcd6ceabce508c9f2c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:57 +0000
Subject: [PATCH 63/90] fix: matcher deleted its pattern before a new one was
 made, or not at all when assigned

---
 include/reflex/absmatcher.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 66c21f8..a39f62d 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1672,8 +1672,13 @@ class PatternMatcher : public AbstractMatcher {
     in = matcher.in;
     reset();
     opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    if (pat_ != matcher.pat_)
+    {
+      if (own_ && pat_ != NULL)
+        delete pat_;
+      pat_ = matcher.pat_;
+      own_ = false;
+    }
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
@@ -1716,9 +1721,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern);
+    const Pattern *pat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = pat;
     own_ = true;
     return *this;
   }
@@ -1727,9 +1733,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *pat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = pat;
     own_ = true;
     return *this;
   }
@@ -1825,8 +1832,13 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     in = matcher.in;
     reset();
     opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    if (pat_ != matcher.pat_)
+    {
+      if (own_ && pat_ != NULL)
+        delete pat_;
+      pat_ = matcher.pat_;
+      own_ = false;
+    }
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
@@ -1855,9 +1867,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern);
+    const Pattern *pat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = pat;
     own_ = true;
     return *this;
   }
@@ -1866,9 +1879,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *pat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = pat;
     own_ = true;
     return *this;
   }
-- 
2.43.0


From 0814fcf696debfbfcfe63d9c7f06a8a72c95238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 64/90] fix: in(i) used by wrap() reset the matcher in the
 middle of a match

---
 include/reflex/abslexer.h  | 14 ++++++++++++--
 include/reflex/flexlexer.h |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 46ae3f5..8a152c3 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -76,7 +76,10 @@ class AbstractLexer {
     virtual bool wrap()
       /// @returns true if reflex::AbstractLexer::wrap() == 0 indicating that input is wrapped after EOF
     {
-      return lexer_->wrap() == 0;
+      lexer_->wrapping_ = true; // in(i) should not reset this matcher in the middle of a match
+      bool more = lexer_->wrap() == 0;
+      lexer_->wrapping_ = false;
+      return more;
     }
     /// Points to the lexer class that instantiated this Matcher.
     AbstractLexer *lexer_;
@@ -93,6 +96,7 @@ class AbstractLexer {
       matcher_(NULL),
       start_(0),
       debug_(0),
+      wrapping_(false),
       stack_(),
       state_()
   { }
@@ -130,7 +134,12 @@ class AbstractLexer {
   {
     in_ = input;
     if (has_matcher())
-      matcher().input(input); // reset and assign new input
+    {
+      if (wrapping_)
+        matcher().in = input; // continue matching with new input
+      else
+        matcher().input(input); // reset and assign new input
+    }
     return *this;
   }
   /// Reset the matcher and start scanning from the given byte sequence.
@@ -423,6 +432,7 @@ class AbstractLexer {
   Matcher             *matcher_; ///< the matcher used for scanning
   int                  start_;   ///< the current start condition state
   int                  debug_;   ///< 1 if -d (--debug) 0 otherwise:
+  bool                 wrapping_; ///< true when wrap() is invoked by a matcher to continue matching
   std::stack<Matcher*> stack_;   ///< a stack of pointers to matchers
   std::stack<int>      state_;   ///< a stack of start condition states
 };
diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d4ef52c..67490ac 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -446,7 +446,10 @@ class FlexLexer : public AbstractLexer<M> {
       /// @returns true if FlexLexer::yywrap() == 0 indicating that input is wrapped after EOF
     {
       FlexLexer *lexer = dynamic_cast<FlexLexer*>(this->lexer_); // a safe cast
-      return lexer->yywrap() == 0;
+      lexer->wrapping_ = true; // in(i) should not reset this matcher in the middle of a match
+      bool more = lexer->yywrap() == 0;
+      lexer->wrapping_ = false;
+      return more;
     }
   };
   /// Construct Flex-compatible lexer to read from a std::istream (and echo the text matches to a std::ostream).
-- 
2.43.0


From d1c394bb940b367d2acff307df7bfd6b148f172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 65/90] fix: an anchor after a regex comment was not at the
 begin of the pattern

---
 lib/pattern.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 70d3359..b3a5361 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -592,11 +592,28 @@ void Pattern::parse2(
   Char      c;
   if (begin)
   {
+    Location c_loc = loc; // location of the comments not followed by an anchor
+    bool comment = false;
     while (true)
     {
       if (opt_.x)
         while (std::isspace(at(loc)))
           ++loc;
+      if ((at(loc) == '(' && at(loc + 1) == '?' && at(loc + 2) == '#') || (at(loc) == '#' && opt_.x))
+      {
+        // skip comment, an anchor may follow
+        Char e = at(loc) == '#' ? '\n' : ')';
+        if (!comment)
+          c_loc = loc;
+        comment = true;
+        while ((c = at(loc)) != '\0' && c != e)
+          ++loc;
+        if (c == e)
+          ++loc;
+        continue;
+      }
+      if (at(loc) == '^' || escapes_at(loc, "ABb<>ij"))
+        comment = false;
       if (at(loc) == '^')
       {
         a_pos.insert(Position(loc++));
@@ -615,6 +632,8 @@ void Pattern::parse2(
         break;
       }
     }
+    if (comment)
+      loc = c_loc;
   }
   if (begin || ((c = at(loc)) != '\0' && c != '|' && c != ')'))
   {
-- 
2.43.0


From bef8fc739560622cb286d8f68493fcaa1cdee892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 66/90] fix: reflex did not skip a regex comment (?#...) with
 spaces in a pattern

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b9b29c2..50b57f3 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1067,7 +1067,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
       }
       ++pos;
     }
-    else if (c == '(' && pos + 2 < linelen && line.at(pos + 1) == '?' && line.at(pos + 2) == '#')
+    else if (c == '(' && pos + 1 < linelen && line.at(pos) == '?' && line.at(pos + 1) == '#')
     {
       // eat (?#...)
       pos += 2; 
-- 
2.43.0


From ebd0c036e3bb41e3597713a678f3b2e2a70acbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 67/90] fix: reflex rejected an included file that ends with a
 code block or comment

---
 src/reflex.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 50b57f3..bb25667 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1158,7 +1158,13 @@ std::string Reflex::get_code(size_t& pos)
     while (pos >= linelen)
     {
       if (!get_line())
-        error("EOF encountered inside an action", NULL, at_lineno);
+      {
+        if (blk > 0 || lev > 0 || tok != CODE)
+          error("EOF encountered inside an action", NULL, at_lineno);
+        line.clear();
+        linelen = 0;
+        return code;
+      }
       pos = 0;
       if (tok == CODE)
       {
@@ -1190,7 +1196,10 @@ std::string Reflex::get_code(size_t& pos)
             if (lev > 0)
               error("%} encountered where } is expected");
             if (!get_line())
-              error("EOF encountered where %% is expected");
+            {
+              line.clear();
+              linelen = 0;
+            }
             return code;
           }
           pos = linelen;
-- 
2.43.0


From 34ce1f32b9beb60255a6f2fb6fff6c9815f189b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 68/90] fix: reflex did not recognize an action | followed by a
 blank line

---
 src/reflex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index bb25667..89f4fc1 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1654,6 +1654,8 @@ void Reflex::parse_section_2()
             error("bad line in section 2: ", line.c_str());
           size_t rule_lineno = lineno;
           std::string code = get_code(pos);
+          if (code.size() > 1 && code.at(0) == '|' && code.find_first_not_of(" \t\n", 1) == std::string::npos)
+            code.resize(1); // action | followed by blank lines
           if (has_starts)
           {
             for (Starts::const_iterator start = starts.begin(); start != starts.end(); ++start)
-- 
2.43.0


From 3e86b28a9b9f3ba9a6f4b7ef550638c32bcd97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 69/90] fix: reflex numbered the rules wrong after a rule with
 action | before <<EOF>>

---
 src/reflex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 89f4fc1..523dde1 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -3099,7 +3099,8 @@ void Reflex::write_lexer()
             *out <<
               "            break;\n";
         }
-        ++accept;
+        if (!eof_rule)
+          ++accept;
       }
     }
     *out <<
-- 
2.43.0


From c7099be841d8bffa587106ba66f1f5e92cc50e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 70/90] fix: copied and assigned FuzzyMatcher lost its flags
 and used unallocated backtrack points

---
 fuzzy/fuzzymatcher.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 960d982..008e5e9 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -134,9 +134,9 @@ class FuzzyMatcher : public Matcher {
       Matcher(matcher),
       max_(matcher.max_),
       err_(0),
-      ins_(true),
-      del_(true),
-      sub_(true)
+      ins_(matcher.ins_),
+      del_(matcher.del_),
+      sub_(matcher.sub_)
   {
     DBGLOG("FuzzyMatcher::FuzzyMatcher(matcher)");
     bpt_.resize(max_);
@@ -150,6 +150,7 @@ class FuzzyMatcher : public Matcher {
     ins_ = matcher.ins_;
     del_ = matcher.del_;
     sub_ = matcher.sub_;
+    bpt_.resize(max_);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From c6ee6b4d10e291ed63a14bb18170b41aeff70e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 71/90] fix: FuzzyMatcher backtracked past the last opcode of a
 state and skipped two multibyte characters as one

---
 fuzzy/fuzzymatcher.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 008e5e9..2bcb7cb 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -221,6 +221,15 @@ class FuzzyMatcher : public Matcher {
     bpt.alt = sub_ && alternate;
     bpt.sub = bpt.alt;
   }
+  /// Advance backtrack point to the next goto opcode of the state.
+  void next_goto(BacktrackPoint& bpt)
+  {
+    // a goto opcode on 00 or 00-ff is the last of the state
+    if (Pattern::lo_of(*bpt.pc1) == 0)
+      bpt.pc1 = NULL;
+    else
+      ++bpt.pc1;
+  }
   /// backtrack on a backtrack point to insert or substitute a pattern char, restoring current text char matched and errors.
   const Pattern::Opcode *backtrack(BacktrackPoint& bpt, int& c1)
   {
@@ -248,12 +257,14 @@ class FuzzyMatcher : public Matcher {
         const Pattern::Opcode *pc1 = pc0;
         while (!Pattern::is_opcode_goto(*pc1))
           ++pc1;
-        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0x80) != 0x80)
+        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0xC0) != 0x80)
           break;
         bpt.pc0 = pc0;
         bpt.pc1 = pc1;
       }
       jump = Pattern::index_of(*bpt.pc1);
+      if (jump == Pattern::Const::HALT)
+        return bpt.pc1 = NULL;
       bpt.sub = bpt.alt;
       DBGLOG("Multibyte jump to %u", jump);
     }
@@ -281,14 +292,17 @@ class FuzzyMatcher : public Matcher {
           if ((c = get()) == EOF)
             break;
       }
-      bpt.sub = false;
-      bpt.pc1 += !bpt.alt;
+      // next insert the pattern char, if missing chars are permitted
+      if (del_)
+        bpt.sub = false;
+      else
+        next_goto(bpt);
     }
     else
     {
       DBGLOG("Insert, jump to %u at pos %zu", jump, pos_);
       bpt.sub = bpt.alt;
-      ++bpt.pc1;
+      next_goto(bpt);
     }
     return pat_->opc_ + jump;
   }
-- 
2.43.0


From 85b214885321f6b73bbf89fac045a7babe62545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:45 +0000
Subject: [PATCH 72/90] fix: FuzzyMatcher without insertions spent its edits at
 one place

---
 fuzzy/fuzzymatcher.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 2bcb7cb..cf4d2ac 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -753,6 +753,7 @@ unrolled:
                 DBGLOG("point[%u] at %zu pos %zu", stack - 1, pc0 - pat_->opc_, pos_ - 1);
               }
             }
+            pc = NULL;
             if (ins_)
             {
               // try pattern char deletion (text insertion): skip one (multibyte) char then rerun opcode at pc0
@@ -769,8 +770,11 @@ unrolled:
           }
           else
           {
-            // try insertion or substitution of pattern char
             pc = NULL;
+          }
+          if (pc == NULL)
+          {
+            // try insertion or substitution of pattern char
             while (stack > 0 && pc == NULL)
             {
               pc = backtrack(bpt_[stack - 1], c1);
-- 
2.43.0


From 60575d5d8af73e574cefd8d9863070036be8835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:45 +0000
Subject: [PATCH 73/90] fix: FuzzyMatcher::matches() did not count and restrict
 the edits at the end of the input

---
 fuzzy/fuzzymatcher.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index cf4d2ac..7992863 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -675,7 +675,8 @@ unrolled:
           pc = pat_->opc_ + jump;
         }
         // exit fuzzy loop if nothing consumed
-        if (pos_ == static_cast<size_t>(txt_ + len_ - buf_))
+        bool none = pos_ == static_cast<size_t>(txt_ + len_ - buf_);
+        if (none && (method != Const::MATCH || cap_ == 0))
           break;
         // match, i.e. cap_ > 0?
         if (method == Const::MATCH)
@@ -683,12 +684,19 @@ unrolled:
           // exit fuzzy loop if fuzzy match succeeds till end of input
           if (cap_ > 0)
           {
-            if (c1 == EOF)
+            if (c1 == EOF && cur_ == pos_)
               break;
-            while (err_ < max_)
+            // the rest of the input after the match is inserted text, NUL and LF are never inserted
+            size_t ahead = pos_ - cur_;
+            uint8_t err = err_;
+            int c = c1;
+            pos_ = cur_;
+            while (ins_ && err_ < max_)
             {
               c1 = get();
-              if (c1 == EOF)
+              if (c1 == '\0' || c1 == '\n')
+                --pos_;
+              if (c1 == '\0' || c1 == '\n' || c1 == EOF)
                 break;
               // skip one (multibyte) char
               if (c1 >= 0xC0)
@@ -702,10 +710,16 @@ unrolled:
             }
             if (at_end())
             {
-              DBGLOG("match pos = %zu", pos_);
               set_current(pos_);
               break;
             }
+            // this match does not extend to the end of the input, try another
+            cap_ = 0;
+            if (none)
+              break;
+            pos_ = cur_ + ahead;
+            err_ = err;
+            c1 = c;
           }
         }
         else
-- 
2.43.0


From 2ea64ed2a750c981c8fc05c91614df08107d31ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:45 +0000
Subject: [PATCH 74/90] fix: FuzzyMatcher::split() lost text in its second pass
 and at the end

---
 fuzzy/fuzzymatcher.h | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 7992863..9298f7a 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -174,6 +174,7 @@ class FuzzyMatcher : public Matcher {
         loc(0),
         cap(0),
         txt(0),
+        len(0),
         cur(0),
         pos(0),
         ded(ded),
@@ -184,6 +185,7 @@ class FuzzyMatcher : public Matcher {
     size_t  loc;
     size_t  cap;
     size_t  txt;
+    size_t  len;
     size_t  cur;
     size_t  pos;
     size_t  ded;
@@ -806,11 +808,15 @@ unrolled:
     if (cap_ > 0 && err_ > 0 && !sst.use && (method == Const::FIND || method == Const::SPLIT))
     {
       // this part is based on advance() in matcher.cpp, limited to advancing ahead till the one of the first pattern char(s) match excluding \n
-      size_t loc = txt_ - buf_ + 1;
+      size_t loc = txt_ - buf_ + len_ + 1; // len_ is the length of the text split off before the match
       const char *s = buf_ + loc;
-      const char *e = static_cast<const char*>(std::memchr(s, '\n', cur_ - loc));
-      if (e == NULL)
-        e = buf_ + cur_;
+      const char *e = buf_ + cur_;
+      if (s < e)
+      {
+        const char *nl = static_cast<const char*>(std::memchr(s, '\n', e - s));
+        if (nl != NULL)
+          e = nl;
+      }
       if (pat_->len_ == 0)
       {
         if (pat_->min_ > 0)
@@ -825,6 +831,7 @@ unrolled:
             sst.loc = loc;
             sst.cap = cap_;
             sst.txt = txt_ - buf_;
+            sst.len = len_;
             sst.cur = cur_;
             sst.pos = pos_;
             size_t tmp = ded_;
@@ -833,7 +840,10 @@ unrolled:
             sst.mrk = mrk_;
             sst.err = err_;
             set_current(loc);
-            goto scan;
+            if (method == Const::FIND)
+              goto scan;
+            len_ = loc - (txt_ - buf_);
+            goto find;
           }
         }
       }
@@ -847,6 +857,7 @@ unrolled:
           sst.loc = loc;
           sst.cap = cap_;
           sst.txt = txt_ - buf_;
+          sst.len = len_;
           sst.cur = cur_;
           sst.pos = pos_;
           size_t tmp = ded_;
@@ -855,14 +866,17 @@ unrolled:
           sst.mrk = mrk_;
           sst.err = err_;
           set_current(loc);
-          goto scan;
+          if (method == Const::FIND)
+            goto scan;
+          len_ = loc - (txt_ - buf_);
+          goto find;
         }
       }
     }
     else if (sst.use && (cap_ == 0 || err_ >= sst.err))
     {
       // if the buffer was shifted then cur_, pos_ and txt_ are no longer at the same location in the buffer, we must adjust for this
-      size_t loc = txt_ - buf_;
+      size_t loc = txt_ - buf_ + len_;
       size_t shift = sst.loc - loc;
       cap_ = sst.cap;
       cur_ = sst.cur - shift;
@@ -871,12 +885,12 @@ unrolled:
       mrk_ = sst.mrk;
       err_ = sst.err;
       txt_ = buf_ + sst.txt - shift;
+      len_ = sst.len;
+      sst.use = false;
     }
-    else if (sst.use && cap_ > 0 && method == Const::SPLIT)
+    else
     {
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
-      len_ = loc - sst.txt + shift;
+      sst.use = false;
     }
 #if !defined(WITH_NO_INDENT)
     if (mrk_ && cap_ != Const::REDO)
@@ -934,7 +948,7 @@ unrolled:
       }
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
@@ -951,7 +965,7 @@ unrolled:
         DBGLOG("END FuzzyMatcher::match()");
         return cap_;
       }
-      if (cur_ == 0 && at_bob() && at_end())
+      if (pos_ == 0 && at_bob() && at_end())
       {
         cap_ = Const::EMPTY;
         got_ = Const::EOB;
-- 
2.43.0


From 7069042dd7f8acd7190f41df9e7f668047905304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:49 +0000
Subject: [PATCH 75/90] fix: BoostMatcher missed matches after an incomplete
 match at the end of the input

---
 include/reflex/boostmatcher.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b8fa915..96b3217 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -214,6 +214,13 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
         (void)peek_more();
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
       }
+      if (eof_ && itr_ != fin_ && !(*itr_)[0].matched)
+      {
+        DBGLOGN("Partial match at EOF, pos = %zu", pos_);
+        new_itr(method); // no more input to complete the partial match: search again for a full match
+        if (itr_ != fin_)
+          pos_ = (*itr_)[0].second - buf_;
+      }
       if (pos_ == end_) // if pos_ is hitting the end_ then
       {
         if (method == Const::SPLIT)
@@ -338,6 +345,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
   {
     DBGLOGN("New iterator");
     boost::match_flag_type flg = flg_;
+    if (eof_)
+      flg &= ~boost::regex_constants::match_partial; // all remaining input is in the buffer
     if (!at_bob())
       flg |= boost::regex_constants::match_not_bob;
     if (!at_bol())
-- 
2.43.0


From 4d356b62cb7932f677a28e3641c0554ab4e49add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:54 +0000
Subject: [PATCH 76/90] fix: BoostMatcher and StdMatcher find() with option N
 lost the last character after an empty match

---
 include/reflex/boostmatcher.h | 2 --
 include/reflex/stdmatcher.h   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index 96b3217..cfd7bff 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -333,8 +333,6 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
       continue; // set cap_ to the capture group index
     set_current(pos_);
     len_ = cur_ - (txt_ - buf_); // size() spans txt_ to cur_ in buf_[]
-    if (len_ == 0 && cap_ != 0 && opt_.N && pos_ + 1 == end_)
-      set_current(end_);
     DBGLOGN("Accept: act = %zu txt = '%s' len = %zu", cap_, txt_, len_);
     DBGCHK(len_ != 0 || method == Const::MATCH || (method == Const::FIND && opt_.N));
     DBGLOG("END BoostMatcher::match()");
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index e2bc303..959caf5 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -333,8 +333,6 @@ class StdMatcher : public PatternMatcher<std::regex> {
       continue; // set cap_ to the capture group index
     set_current(pos_);
     len_ = cur_ - (txt_ - buf_); // size() spans txt_ to cur_ in buf_[]
-    if (len_ == 0 && cap_ != 0 && opt_.N && pos_ + 1 == end_)
-      set_current(end_);
     if (len_ == 0 && (method == Const::SCAN || (method == Const::FIND && !opt_.N))) // work around std::regex match_not_null bug
       return 0;
     DBGLOGN("Accept: act = %zu txt = '%s' len = %zu", cap_, txt_, len_);
-- 
2.43.0


From 8758a29dd524110256b63b938efda10147aae78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:54 +0000
Subject: [PATCH 77/90] fix: \b and \B after a match or unmatched text in
 BoostMatcher and StdMatcher

---
 include/reflex/boostmatcher.h | 2 ++
 include/reflex/stdmatcher.h   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index cfd7bff..e6a7600 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -351,6 +351,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
       flg |= boost::regex_constants::match_not_bol;
     if (isword(got_))
       flg |= boost::regex_constants::match_not_bow;
+    if (txt_ > buf_ && got_ == static_cast<unsigned char>(txt_[-1]))
+      flg |= boost::regex_constants::match_prev_avail; // the previous character determines ^, \b and \B
     if (method == Const::SCAN)
       flg |= boost::regex_constants::match_continuous | boost::regex_constants::match_not_null;
     else if (method == Const::FIND && !opt_.N)
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index 959caf5..37a76e2 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -348,7 +348,12 @@ class StdMatcher : public PatternMatcher<std::regex> {
     if (!at_bol())
       flg |= std::regex_constants::match_not_bol;
     if (isword(got_))
-      flg |= std::regex_constants::match_not_bow;
+    {
+      if (txt_ > buf_ && got_ == static_cast<unsigned char>(txt_[-1]))
+        flg |= std::regex_constants::match_prev_avail; // the previous character determines \b and \B
+      else
+        flg |= std::regex_constants::match_not_bow;
+    }
     if (method == Const::SCAN)
       flg |= std::regex_constants::match_continuous | std::regex_constants::match_not_null;
     else if (method == Const::FIND && !opt_.N)
-- 
2.43.0


From cbb1a355a0f18e3069c5ba93ec96a4b30ebb680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 78/90] fix: PCRE2Matcher scan() and matches() matched past the
 current position after a partial match

---
 include/reflex/pcre2matcher.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index f370e99..5ddac1c 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -385,9 +385,9 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc > 0)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
-        cur_ = ovector[0];
-        if (method == Const::FIND || method == Const::SPLIT || pos_ == cur_)
+        if (method == Const::FIND || method == Const::SPLIT || pos_ == ovector[0])
         {
+          cur_ = ovector[0];
           pos_ = ovector[1];
           if (cur_ == pos_ && (method == Const::FIND || method == Const::SPLIT))
             flg_ |= PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED;
@@ -400,6 +400,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc == PCRE2_ERROR_PARTIAL)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
+        if (method != Const::FIND && method != Const::SPLIT && ovector[0] != pos_)
+          return false; // SCAN and MATCH must be anchored
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
           txt_ = buf_ + cur_;
-- 
2.43.0


From 2c0752823abeedf6d6a2473e076f9161a0d770a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 79/90] fix: PCRE2Matcher find() with UTF searched on from the
 middle of a character

---
 include/reflex/pcre2matcher.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 5ddac1c..2c2bfdb 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -418,6 +418,11 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
             return false;
           flg &= ~(PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED);
           ++pos_;
+          uint32_t options = 0;
+          (void)pcre2_pattern_info(opc_, PCRE2_INFO_ALLOPTIONS, &options);
+          if ((options & PCRE2_UTF) != 0)
+            while (pos_ < end_ && (buf_[pos_] & 0xC0) == 0x80)
+              ++pos_; // advance over the whole UTF-8 character
           continue;
         }
         if (method == Const::FIND)
-- 
2.43.0


From 56ca2dbc2e47c5ebb5c63d9ebbf70340f4c0acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 80/90] fix: regex error message reads past the end of a regex
 that ends in a truncated UTF-8 sequence

---
 lib/error.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/error.cpp b/lib/error.cpp
index 1d16046..bff929e 100644
--- a/lib/error.cpp
+++ b/lib/error.cpp
@@ -111,7 +111,8 @@ size_t regex_error::displen(const char *s, size_t k)
         ++n;
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
+        if (*s != '\0' && *++s != '\0' && *++s != '\0')
+          ++s;
         k -= 3;
       }
       else
@@ -147,7 +148,8 @@ const char *regex_error::disppos(const char *s, size_t k)
         // U+1F18E (UTF-8 F0 9F 86 8E) and higher is usually double width
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
+        if (*s != '\0' && *++s != '\0' && *++s != '\0')
+          ++s;
         k -= 3;
       }
       else
-- 
2.43.0


From 97b615345e45b5ade466c4112decb200ae0f8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 81/90] fix: text() writes past the end of a buffer that is
 full after buffer(n)

---
 include/reflex/absmatcher.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index a39f62d..62325e4 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1411,13 +1411,13 @@ class AbstractMatcher {
     lpb_ -= gap;
     num_ += gap;
     std::memmove(buf_, buf_ + gap, end_);
-    if (max_ - end_ >= need)
+    if (max_ - end_ >= need + 1)
     {
       DBGLOG("Shift buffer to close gap of %zu bytes", gap);
     }
     else
     {
-      size_t newmax = end_ + need;
+      size_t newmax = end_ + need + 1;
       while (max_ < newmax)
         max_ *= 2;
       DBGLOG("Expand buffer to %zu bytes", max_);
@@ -1441,7 +1441,7 @@ class AbstractMatcher {
     bol_ = buf_;
 #else
     size_t gap = txt_ - buf_;
-    if (max_ - end_ + gap >= need)
+    if (max_ - end_ + gap >= need + 1)
     {
       DBGLOG("Shift buffer to close gap of %zu bytes", gap);
       (void)lineno();
@@ -1457,7 +1457,7 @@ class AbstractMatcher {
     }
     else
     {
-      size_t newmax = end_ - gap + need;
+      size_t newmax = end_ - gap + need + 1;
       size_t oldmax = max_;
       while (max_ < newmax)
         max_ *= 2;
-- 
2.43.0


From 7a4e92a79807387ec8a0d2ee343d87c68ef8ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 82/90] fix: word boundary anchors at the end of the input test
 a stale character

---
 include/reflex/matcher.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index bcb43af..705547d 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -403,14 +403,14 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   {
     anc_ = true;
     (void)peek(); // make sure that txt_[len_] is buffered
-    return isword(got_) && !isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) && !isword(begin_char());
   }
   /// FSM code META BWB.
   inline bool FSM_META_BWB()
   {
     anc_ = true;
     (void)peek(); // make sure that txt_[len_] is buffered
-    return !isword(got_) && (opt_.W || isword(static_cast<unsigned char>(txt_[len_])));
+    return !isword(got_) && (opt_.W || isword(begin_char()));
   }
   /// FSM code META NWE.
   inline bool FSM_META_NWE(int c0, int c1)
@@ -423,7 +423,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   {
     anc_ = true;
     (void)peek(); // make sure that txt_[len_] is buffered
-    return isword(got_) == isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) == isword(begin_char());
   }
  protected:
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
@@ -674,7 +674,7 @@ redo:
                   DBGLOG("EWB? %d", at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && isword(got_) &&
-                      !isword(static_cast<unsigned char>(txt_[len_])))
+                      !isword(begin_char()))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -686,7 +686,7 @@ redo:
                   DBGLOG("BWB? %d", at_bow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                      (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
+                      (opt_.W || isword(begin_char())))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -709,7 +709,7 @@ redo:
                   DBGLOG("NWB? %d %d", at_bow(), at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX &&
-                      isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                      isword(got_) == isword(begin_char()))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -970,6 +970,12 @@ unrolled:
     DBGLOG("END match()");
     return cap_;
   }
+  /// Returns the buffered first character of the match attempt, or EOF when at the end of the input.
+  inline int begin_char() const
+    /// @returns the character (unsigned char 0..255) or EOF (-1)
+  {
+    return txt_ + len_ < buf_ + end_ ? static_cast<unsigned char>(txt_[len_]) : EOF;
+  }
   /// Returns true if able to advance to next possible match
   bool advance()
     /// @returns true if possible match found
-- 
2.43.0


From c1265632cbb61f3deab3e258802f594adab80c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 83/90] fix: split() loses text after a dropped dedent match

---
 include/reflex/matcher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 705547d..bbae85b 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -840,6 +840,9 @@ unrolled:
         fsm_.c1 = c1;
         // avoid looping, match \j exactly
         bol = false;
+        // the match is dropped, continue splitting at its start when \j does not match
+        if (method == Const::SPLIT)
+          cur_ = txt_ - buf_ + len_;
         goto redo;
       }
       --ded_;
-- 
2.43.0


From e7a4c7395f8132cf92f249e72eb9c4be452d0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 84/90] fix: converting a regex with empty \p{} throws
 std::out_of_range

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index a60a42e..4cd2e45 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1411,7 +1411,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
         translated = unicode_class(name.c_str(), esc, flags, par);
         if (translated.empty())
         {
-          if (name.at(0) == '^')
+          if (name[0] == '^')
           {
             // inverted ASCII class in Unicode mode matches Unicode characters
             const int *wc = Posix::range(name.c_str() + 1);
-- 
2.43.0


From 0b010d6a4fda3b3f14d2393f81e1be335981eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 85/90] fix: error position of an unterminated (* verb is past
 the end of the regex

---
 lib/convert.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 4cd2e45..543e70d 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1806,8 +1806,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             pos += 2;
             while (pos < len && pattern[pos] != ')')
               ++pos;
-            if (pos < len)
-              --lev;
+            if (pos >= len)
+              throw regex_error(regex_error::mismatched_parens, pattern, pos);
+            --lev;
           }
           else
           {
-- 
2.43.0


From 9b5f2ddb4645409e5b9459f5a1e21fb6168ac280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 86/90] fix: converting a regex with a lone UTF-8 lead byte at
 the end does not end

---
 lib/convert.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 543e70d..d208bf3 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2211,8 +2211,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           // unicode: group UTF-8 sequence
           regex.append(&pattern[loc], pos - loc);
           loc = pos;
-          while (pos + 1 < len && ((c = pattern[++pos]) & 0xC0) == 0x80)
-            continue;
+          do
+            ++pos;
+          while (pos < len && (pattern[pos] & 0xC0) == 0x80);
           if (pos < len &&
               (pattern[pos] == '*' ||
                ((flags & convert_flag::basic) && pos + 1 < len ?
-- 
2.43.0


From a08deee27ebcff4c81aa624f52a0600e9ea18048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 87/90] fix: upper bound of a repeat over the limit wraps
 silently

---
 lib/pattern.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index b3a5361..c85adae 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -795,9 +795,12 @@ void Pattern::parse3(
       {
         if (std::isdigit(at(loc + 1)))
         {
-          m = 0;
+          k = 0;
           for (Location i = 0; i < 7 && std::isdigit(c = at(++loc)); ++i)
-            m = 10 * m + (c - '0');
+            k = 10 * k + (c - '0');
+          if (k > Position::MAXITER)
+            error(regex_error::exceeds_limits, loc);
+          m = static_cast<Iter>(k);
         }
         else
         {
-- 
2.43.0


From dbea35ae8aec68ed6f5c0dedd34c1db9b91c1dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 88/90] fix: unterminated group and bracket list read past the
 end of the regex

---
 lib/pattern.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index c85adae..c7b627b 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1020,6 +1020,8 @@ void Pattern::parse4(
             opt_.x = active;
           else if (c != 'i' && c != 'm' && c != 's')
             error(regex_error::invalid_modifier, loc);
+          if (c == '\0')
+            break;
           c = at(++loc);
         } while (c != '\0' && c != ':' && c != ')');
         if (c != '\0')
@@ -1095,7 +1097,7 @@ void Pattern::parse4(
         if (c_loc != std::string::npos && at(static_cast<Location>(c_loc + 1)) == ']')
           loc = static_cast<Location>(c_loc + 1);
       }
-      else if (c == opt_.e && !opt_.b)
+      else if (c == opt_.e && !opt_.b && at(loc + 1) != '\0')
       {
         ++loc;
       }
@@ -1104,7 +1106,8 @@ void Pattern::parse4(
     }
     if (c == '\0')
       error(regex_error::mismatched_brackets, loc);
-    ++loc;
+    else
+      ++loc;
   }
   else if ((c == '"' && opt_.q) || escape_at(loc) == 'Q')
   {
-- 
2.43.0


From 4a9120c16013d5c6d1990b8eb0bae99cc7394acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 89/90] fix: incomplete escape at the end of a regex reads past
 its end

---
 lib/pattern.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index c7b627b..99a226d 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1183,6 +1183,11 @@ void Pattern::parse4(
 Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
 {
   Char c = at(++loc);
+  if (c == '\0')
+  {
+    error(regex_error::invalid_escape, loc);
+    return META_EOL;
+  }
   if (c == '0')
   {
     c = 0;
@@ -1236,8 +1241,12 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
   }
   else if (c == 'c')
   {
-    c = at(++loc) % 32;
-    ++loc;
+    c = at(++loc);
+    if (c != '\0')
+      ++loc;
+    else
+      error(regex_error::invalid_escape, loc);
+    c %= 32;
   }
   else if (c == 'e')
   {
-- 
2.43.0


From 55e335beddcf494225ae83e7119a3b814d8a2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 90/90] fix: unknown or incomplete \p{} in a regex reads out of
 bounds

---
 lib/pattern.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 99a226d..be04401 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1274,13 +1274,19 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
           break;
       Chars set;
       if (i < 14)
+      {
         posix(i, set);
+        loc += static_cast<Location>(strlen(posix_class[i]));
+      }
       else
+      {
         error(regex_error::invalid_class, loc);
+        while (at(loc) != '\0' && at(loc) != '}')
+          ++loc;
+      }
       if (c == 'P')
         flip(set);
       *chars |= set;
-      loc += static_cast<Location>(strlen(posix_class[i]));
       if (at(loc) == '}')
         ++loc;
       else
@@ -1288,8 +1294,8 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
     }
     else
     {
-      while ((c = at(++loc)) != '\0' && c != '}')
-        continue;
+      while ((c = at(loc)) != '\0' && c != '}')
+        ++loc;
       if (c == '}')
         ++loc;
       else
-- 
2.43.0


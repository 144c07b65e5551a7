From 038e53dce45ae0354e0e91168927cd5804d7257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 01/95] fix: remove_duplicates indexed its 255 entry table with
 a signed char

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..e145422 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1432,16 +1432,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[0x100];
+      std::fill_n(table,0x100,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
-- 
2.43.0


From 7e7e17a3e15681556405e462e8f90d3d25d3b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 02/95] fix: remove_trailing never considered the first element
 for removal

---
 strtk.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e145422..8fb9210 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1462,12 +1462,10 @@ namespace strtk
       if (0 == length)
          return 0;
 
-      Iterator itr = begin + (length - 1);
       std::size_t removal_count = 0;
 
-      while ((begin != itr) && predicate(*itr))
+      while ((removal_count < length) && predicate(*(begin + (length - removal_count - 1))))
       {
-         --itr;
          ++removal_count;
       }
 
-- 
2.43.0


From a60a6721ccc0f8a0994fd0c2fc8166850741f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 03/95] fix: match did not backtrack over '*', stepped past the
 data and took '?' as exactly one

---
 strtk.hpp | 56 ++++++++++++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8fb9210..72246dd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1903,47 +1903,39 @@ namespace strtk
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_more,
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_one)
       {
-         Iterator d_itr = data_begin;
-         Iterator p_itr = pattern_begin;
+         // state[i] : the first i elements of the pattern match the data consumed so far
+         std::vector<char> state(std::distance(pattern_begin,pattern_end) + 1,0);
+         std::vector<char> next_state(state.size(),0);
+         state[0] = 1;
 
-         while ((p_itr != pattern_end) && (d_itr != data_end))
+         for (Iterator d_itr = data_begin; ; ++d_itr)
          {
-            if (match_zero_or_more == *p_itr)
-            {
-               while ((p_itr != pattern_end) && (*p_itr == match_zero_or_more || *p_itr == match_zero_or_one))
-               {
-                  ++p_itr;
-               }
+            std::size_t i = 0;
 
-               if (p_itr == pattern_end)
-                  return true;
+            for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr, ++i)
+            {
+               if (state[i] && ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr)))
+                  state[i + 1] = 1;
+            }
 
-               const typename std::iterator_traits<Iterator>::value_type c = *(p_itr++);
+            if (d_itr == data_end)
+               return (0 != state[i]);
 
-               while ((d_itr != data_end) && !Comparator::cmp(c, *d_itr))
-               {
-                  ++d_itr;
-               }
+            std::fill(next_state.begin(),next_state.end(),static_cast<char>(0));
+            i = 0;
 
-               ++d_itr;
-            }
-            else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
+            for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr, ++i)
             {
-               ++d_itr;
-               ++p_itr;
+               if (!state[i])
+                  continue;
+               else if (match_zero_or_more == *p_itr)
+                  next_state[i] = 1;
+               else if ((match_zero_or_one == *p_itr) || Comparator::cmp(*p_itr, *d_itr))
+                  next_state[i + 1] = 1;
             }
-            else
-               return false;
-         }
 
-         if (d_itr != data_end)
-            return false;
-         else if (p_itr == pattern_end)
-            return true;
-         else if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
-            ++p_itr;
-
-         return pattern_end == p_itr;
+            state.swap(next_state);
+         }
       }
    }
 
-- 
2.43.0


From 759d01099bf41bcbfc8d3e8b97f2b3a261e35f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 04/95] fix: find_all and ifind_all did not terminate on an
 empty pattern

---
 strtk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 72246dd..93f9b33 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2051,6 +2051,8 @@ namespace strtk
       Iterator itr = begin;
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
+      if (0 == pattern_length)
+         return match_count;
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end)))
       {
          (*out) = std::make_pair(itr,itr + pattern_length);
@@ -2100,6 +2102,9 @@ namespace strtk
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
 
+      if (0 == pattern_length)
+         return match_count;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
       {
          (*out) = std::make_pair(itr, itr + pattern_length);
-- 
2.43.0


From 530b5af21215c57b43244a0144192ab8269184f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 05/95] fix: lexicographically_canonicalize did not compare
 rotations cyclically and read empty ranges

---
 strtk.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 93f9b33..a875edf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4250,6 +4250,9 @@ namespace strtk
       typedef typename std::list<iter_type> itr_list_type;
       itr_list_type itr_list;
 
+      if (begin == end) return;
+
+      std::size_t remaining = std::distance(begin,end);
       type smallest = (*std::min_element(begin,end));
 
       for (Iterator itr = begin; itr != end; ++itr)
@@ -4257,16 +4260,15 @@ namespace strtk
          if (*itr == smallest) itr_list.push_back(std::make_pair(itr,itr));
       }
 
-      while (itr_list.size() > 1)
+      while ((itr_list.size() > 1) && (--remaining > 0))
       {
          typename itr_list_type::iterator itr = itr_list.begin();
          while (itr_list.end() != itr)
          {
             ++(*itr).first;
             if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
+               (*itr).first = begin;
+            ++itr;
          }
 
          smallest = *(*itr_list.begin()).first;
@@ -4287,15 +4289,6 @@ namespace strtk
            else
               ++itr;
          }
-
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
-         }
       }
 
       std::rotate(begin,(*itr_list.begin()).second,end);
-- 
2.43.0


From 808e995164d77118a949da4bbd1eb83d95276228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 06/95] fix: first_non_repeated_char indexed its table with a
 sign extended char

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a875edf..74960d0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4323,7 +4323,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From 1175c4d3bb95f611cb8630a47aaf30d2df848c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 07/95] fix: convert_base64_to_bin read before the start of
 inputs shorter than two characters

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 74960d0..af48e64 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4653,9 +4653,9 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
+      if ((std::distance(begin,end) >= 2) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((begin != end) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From 1820fecaeaca9010c18cabb1e3bc37d175962c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:44 +0000
Subject: [PATCH 08/95] fix: twoway_bitwise_interleave on strings wrote twice
 the size it reserved

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index af48e64..2493d9b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4922,7 +4922,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(str1.size() << 1);
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From d260a557cd0abb6bb3f22154cf31f732b5b187f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 09/95] fix: hamming_distance_elementwise never advanced its
 iterators

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 2493d9b..f5dc580 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5169,6 +5169,8 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From fe6baa93cd62acfbcdefaba782f2ecf69414b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 10/95] fix: token_grid dquote trimming read and underflowed
 tokens shorter than two characters

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index f5dc580..d6972d4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7499,6 +7499,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) >= 2) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From 2d7c050cf790cb0c8feb74b7fab9020ad8587471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 11/95] fix: token_grid::join_row dropped the last token of the
 grid and left dangling delimiters

---
 strtk.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d6972d4..bb2541d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7073,9 +7073,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
@@ -7110,23 +7110,21 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
                if (predicate(*itr))
                {
+                  if (!delimiter.empty() && appended)
+                     result.append(delimiter);
+
                   result.append((*itr).first,(*itr).second);
                   appended = true;
                }
-- 
2.43.0


From f3018f3b5dcb7f1baf4002e6ab99d1978581414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 12/95] fix: token_grid row removal left the column counts
 stale and enforce_* ignored its row range

---
 strtk.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index bb2541d..fa186c5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6714,6 +6714,7 @@ namespace strtk
          if (index < dsv_index_.row_index.size())
          {
             dsv_index_.remove_row(index);
+            update_minmax_columns();
          }
       }
 
@@ -6768,6 +6769,8 @@ namespace strtk
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
          }
 
+         update_minmax_columns();
+
          return true;
       }
 
@@ -6852,10 +6855,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_columns(column_count));
-
-         min_column_count_ = column_count;
-         max_column_count_ = column_count;
+         remove_row_if(row_range,insufficient_number_of_columns(column_count));
       }
 
       inline void enforce_column_count(const std::size_t& column_count)
@@ -6870,10 +6870,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_minmax_columns(min_column_count,max_column_count));
-
-         min_column_count_ = min_column_count;
-         max_column_count_ = max_column_count;
+         remove_row_if(row_range,insufficient_number_of_minmax_columns(min_column_count,max_column_count));
       }
 
       inline void enforce_min_max_column_count(const std::size_t& min_column_count,
@@ -7571,7 +7568,7 @@ namespace strtk
 
       inline void update_minmax_columns()
       {
-         min_column_count_ = std::numeric_limits<std::size_t>::max();
+         min_column_count_ = dsv_index_.row_index.empty() ? 0 : std::numeric_limits<std::size_t>::max();
          max_column_count_ = std::numeric_limits<std::size_t>::min();
 
          for (std::size_t i = 0; i < dsv_index_.row_index.size(); ++i)
-- 
2.43.0


From 6999c55d946f5f4a92646bef9fbe8d33658d0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 13/95] fix: token_grid::range bounded row ranges by the number
 of tokens

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fa186c5..01ef916 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5462,9 +5462,9 @@ namespace strtk
       {
          if (upper_bound == std::numeric_limits<index_t>::max())
          {
-            upper_bound = static_cast<index_t>(dsv_index_.token_list.size());
+            upper_bound = static_cast<index_t>(dsv_index_.row_index.size());
          }
-         else if (upper_bound > dsv_index_.token_list.size())
+         else if (upper_bound > dsv_index_.row_index.size())
          {
             return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
          }
-- 
2.43.0


From 8e1db47fa542a853f02f50a4743df7cc88b10583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 14/95] fix: token_grid::load from a missing file kept rows of,
 and could delete, the previous buffer

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 01ef916..951e7d9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7319,9 +7319,10 @@ namespace strtk
          if ((load_from_file_) && (0 != buffer_))
          {
             delete [] buffer_;
-            buffer_ = 0;
          }
 
+         dsv_index_.clear();
+         buffer_           = 0;
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
-- 
2.43.0


From eed6548692f02b2a5da1e154402780ae895d12f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 15/95] fix: token_grid::sequential_partition merged single row
 partitions with their neighbour

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 951e7d9..284c5ca 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7254,17 +7254,15 @@ namespace strtk
          {
             if (p(row_type(i,dsv_index_)))
             {
-               if (r.first != r.second)
+               if (r.first != i)
                {
                   r.second = i;
                   if (!f(*this,r))
                      return false;
                }
 
-               r.first = r.second;
+               r.first = i;
             }
-            else
-               r.second = i;
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From 87937e223696d7108bf2ccfc1b138c13e8262330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 16/95] fix: token_grid carried an unbalanced double quote over
 into the following rows

---
 strtk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 284c5ca..3578b5e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5433,7 +5433,10 @@ namespace strtk
 
             row_start_index_ = static_cast<index_t>(idx_.token_list.size());
 
-            std::size_t token_count = split(token_predicate_,
+            // a fresh copy, so that no (quote) state is carried over from the previous row
+            const DelimiterPredicate token_predicate(token_predicate_);
+
+            std::size_t token_count = split(token_predicate,
                                             range.first, range.second,
                                             std::back_inserter(idx_.token_list),
                                             split_mode_);
-- 
2.43.0


From 155be28f11dc848cb79c730b9bb49db66b5f51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 17/95] fix: token_grid::join_column with a predicate misplaced
 delimiters

---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3578b5e..bbf1754 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7204,8 +7204,6 @@ namespace strtk
 
          bool appended = false;
 
-         const std::size_t pre_end_index = row_range.second - 1;
-
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
             const row_index_range_t& r = dsv_index_.row_index[i];
@@ -7215,15 +7213,13 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended && (pre_end_index != i))
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
                   if (predicate(row))
                   {
+                     if (!delimiter.empty() && appended)
+                        result.append(delimiter);
+
                      result.append(range.first,range.second);
                      appended = true;
                   }
-- 
2.43.0


From ce9a10c48f97a79e056445d6949b1c5ec474bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 18/95] fix: filter_on_match compared without lengths and let
 matched strings through a blocking filter

---
 strtk.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index bbf1754..0ebea18 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7711,7 +7711,11 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (
+                   !case_insensitive_ &&
+                   (static_cast<std::size_t>(std::distance(range.first,range.second)) == (*itr).size()) &&
+                   std::equal((*itr).begin(), (*itr).end(), range.first)
+                 )
                )
             {
                if (allow_through_on_match_)
@@ -7736,14 +7740,15 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && ((*itr) == s))
                )
             {
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
-- 
2.43.0


From b83512e155e63d63483dca4d18c6a1cd7a898734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 19/95] fix: translation_table indexed its table with a sign
 extended char

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0ebea18..0579489 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11787,13 +11787,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From cbb0a5f6a83e3a8962d28c405f7ef58d35b3de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 20/95] fix: generate_random_data wrote before buffers shorter
 than an unsigned int

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0579489..eb87049 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11846,9 +11846,8 @@ namespace strtk
 
       if (length > 0)
       {
-         itr -= (sizeof(unsigned int) - length);
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         const unsigned int value = rnd();
+         std::memcpy(itr,&value,length);
       }
    }
 
-- 
2.43.0


From faad73793fb0bcc23b83e5ed16b8b3d1bfa4008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 21/95] fix: nth_combination_sequence indexed before its list
 for k < 2 and overwrote its own output

---
 strtk.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index eb87049..f5ab34b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12558,7 +12558,7 @@ namespace strtk
       value_type x = 0;
       ++n;
 
-      for (std::size_t i = 1; i <= (k - 1); ++i)
+      for (std::size_t i = 1; i < k; ++i)
       {
          index_list[i - 1] = 0;
 
@@ -12578,11 +12578,14 @@ namespace strtk
          x -= j;
       }
 
-      index_list[k - 1] = index_list[k - 2] + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      if (k > 0)
+      {
+         index_list[k - 1] = ((k > 1) ? index_list[k - 2] : 0) + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      }
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-      std::copy(index_list.begin(),index_list.end(),out);
+      out = std::copy(index_list.begin(),index_list.end(),out);
 
       if (complete_index)
       {
-- 
2.43.0


From 3edbe13dec339669c3654123938abfad64258f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 22/95] fix: nth_permutation_sequence over a range emitted
 iterators and indexed empty tables

---
 strtk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f5ab34b..f00bf63 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12632,6 +12632,9 @@ namespace strtk
       std::vector<std::size_t> factorid (k,0);
       std::vector<std::size_t> permutate(k,0);
 
+      if (0 == k)
+         return;
+
       factorid[0] = 1;
       for (std::size_t i = 1; i < k; ++i)
       {
@@ -12672,7 +12675,7 @@ namespace strtk
       nth_permutation_sequence(n,size,index_list.begin());
       for (std::size_t i = 0; i < size; ++i)
       {
-         *(out++) = (begin + index_list[i]);
+         *(out++) = *(begin + index_list[i]);
       }
    }
 
-- 
2.43.0


From 1f92e9954aa64ae7ea9193540df5588620db133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 23/95] fix: n_choose_k(0,0) is one

---
 strtk.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f00bf63..e6421a0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12445,7 +12445,6 @@ namespace strtk
    inline unsigned long long int n_choose_k(const unsigned long long int& n, const unsigned long long int& k)
    {
       if (n  < k) return 0;
-      if (0 == n) return 0;
       if (0 == k) return 1;
       if (n == k) return 1;
       if (1 == k) return n;
-- 
2.43.0


From 0ac0a772b4e72a6b2a41c466d771c22e212cedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 24/95] fix: filter_on_wildcard_match passed exactly the tokens
 it should block

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e6421a0..b5759ea 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7663,7 +7663,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7671,7 +7671,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From 5ee1bad31ea13a248566f3395c36153ac7afef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 25/95] fix: binary 32-bit endian conversion used swapped byte
 masks

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b5759ea..2a0de30 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13743,8 +13743,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 6ba015cd1810c616f97b2d8d24ec866697da859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 26/95] fix: binary reader ignored a caller supplied 64-bit
 array length

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2a0de30..1544cb5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13972,7 +13972,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 6e537431305e7c78614697d33a15409675969671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 27/95] fix: binary reader/writer capacity checks rejected
 containers of non-pod types that fit

---
 strtk.hpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1544cb5..33b6128 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14020,7 +14020,8 @@ namespace strtk
             if (!read_pod(size))                           \
                return false;                               \
                                                            \
-            const std::size_t raw_size = size * sizeof(T); \
+            const std::size_t raw_size =                   \
+                  size * selector<T>::type::minimum_size();\
             if (!buffer_capacity_ok(raw_size))             \
                return false;                               \
                                                            \
@@ -14049,7 +14050,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = size * selector<T>::type::minimum_size();
 
             if (!buffer_capacity_ok(raw_size))
                return false;
@@ -14068,7 +14069,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = size * selector<T>::type::minimum_size();
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14092,7 +14093,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = size * selector<T>::type::minimum_size();
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14224,6 +14225,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               // each element takes up at least one byte
+               static inline std::size_t minimum_size()
+               {
+                  return 1;
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r, T& t)
                {
@@ -14254,6 +14261,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t minimum_size()
+               {
+                  return sizeof(T);
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r,
                                       T& t,
@@ -14463,7 +14475,7 @@ namespace strtk
          inline bool operator()(const std::vector<T,Allocator>& vec)
          {
             const uint32_t size = static_cast<uint32_t>(vec.size());
-            const std::size_t raw_size = (size * sizeof(T));
+            const std::size_t raw_size = (size * selector<T>::type::minimum_size());
             if (!buffer_capacity_ok(raw_size + sizeof(size)))
                return false;
             if (!operator()(size))
@@ -14480,7 +14492,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = size * selector<T>::type::minimum_size();
 
             if (!buffer_capacity_ok(raw_size))
                return false;
@@ -14507,7 +14519,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = size * selector<T>::type::minimum_size();
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14621,6 +14633,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               // each element takes up at least one byte
+               static inline std::size_t minimum_size()
+               {
+                  return 1;
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
@@ -14648,6 +14666,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t minimum_size()
+               {
+                  return sizeof(T);
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
-- 
2.43.0


From 0a123c497115f8983e344eee086fcdf9380187a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 28/95] fix: binary writer padded fields read past the end of
 the formatted value

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 33b6128..9ab0799 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14593,7 +14593,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From 281dfc6d43f746423e640ca74b886f6b603fb9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 29/95] fix: binary reader/writer took the address of the first
 element of empty vectors

---
 strtk.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 9ab0799..10131b1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14281,6 +14281,9 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
+                  if (v.empty())
+                     return true;
+
                   const std::size_t raw_size = sizeof(T) * size;
                   char* ptr = const_cast<char*>(reinterpret_cast<const char*>(&v[0]));
                   std::copy(r.buffer_, r.buffer_ + raw_size, ptr);
@@ -14683,6 +14686,9 @@ namespace strtk
                                                       const std::size_t& raw_size,
                                                       const std::vector<T,Allocator>& v)
                {
+                  if (v.empty())
+                     return true;
+
                   const char* ptr = reinterpret_cast<const char*>(&v[0]);
                   std::copy(ptr, ptr + raw_size, w.buffer_);
                   w.buffer_ += raw_size;
-- 
2.43.0


From 55181829eed23ac82e877c7d52129efd826ef13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 30/95] fix: hex_to_number_sink misplaced short values, kept a
 stale valid state and was not copyable

---
 strtk.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 10131b1..7f303d1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14861,7 +14861,7 @@ namespace strtk
       {}
 
       hex_to_number_sink(const hex_to_number_sink& hns)
-      : valid_(hns.valid),
+      : valid_(hns.valid_),
         t_(hns.t_)
       {}
 
@@ -14879,13 +14879,12 @@ namespace strtk
          const std::size_t size = std::distance(s.first,s.second);
          if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
             offset = 2;
-         if ((size - offset) > (2 * sizeof(T)))
-            return (*this);
-
          const std::size_t buffer_size = 2 * sizeof(T);
-         const std::size_t buffer_offset = ((size - offset) % 2);
-         char buffer[buffer_size] = { '0' };
-         if (!range_only_contains(hex_value_check(),s.first + offset,s.first + size))
+         const std::size_t buffer_offset = buffer_size - (size - offset);
+         char buffer[buffer_size];
+         std::fill_n(buffer,buffer_size,'0');
+         if ((0 == size) || ((size - offset) > buffer_size) ||
+             !range_only_contains(hex_value_check(),s.first + offset,s.first + size))
          {
             valid_ = false;
             return (*this);
@@ -14894,7 +14893,7 @@ namespace strtk
          std::copy(s.first + offset, s.first + size, buffer + buffer_offset);
          (*t_) = 0;
          valid_= convert_hex_to_bin(buffer,
-                                    buffer + (size - offset) + buffer_offset,
+                                    buffer + buffer_size,
                                     reinterpret_cast<char*>(t_));
          reverse_bytes();
          return (*this);
-- 
2.43.0


From e3c0211fdeadfe74955105d635f7789420420f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 31/95] fix: base64_to_number_sink never became valid, wrote
 past its number and was not copyable

---
 strtk.hpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7f303d1..a64d9e8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14962,7 +14962,7 @@ namespace strtk
       {}
 
       base64_to_number_sink(const base64_to_number_sink& bns)
-      : valid_(bns.valid),
+      : valid_(bns.valid_),
         t_(bns.t_)
       {}
 
@@ -14975,33 +14975,31 @@ namespace strtk
 
       inline base64_to_number_sink& operator=(const std::string& s)
       {
-         if (!range_only_contains(base64_value_check(), to_ptr(s), to_ptr(s) + s.size()))
-         {
-            valid_ = false;
-            return (*this);
-         }
-
-         (*t_) = T(0);
-
-         convert_base64_to_bin(to_ptr(s), to_ptr(s) + s.size(), reinterpret_cast<char*>(t_));
-         reverse_bytes();
-
-         return (*this);
+         return this->operator=(std::make_pair(to_ptr(s), to_ptr(s) + s.size()));
       }
 
       template <typename InputIterator>
       inline base64_to_number_sink& operator=(const std::pair<InputIterator,InputIterator>& s)
       {
-         if (!range_only_contains(base64_value_check(),s.first,s.second))
-         {
-            valid_ = false;
+         // big-endian value, right aligned when it has fewer bytes than T
+         const std::size_t rounds = (sizeof(T) + 2) / 3;
+         const std::size_t size = std::distance(s.first,s.second);
+         valid_ = false;
+
+         if ((0 == size) || (size > (4 * rounds)) || !range_only_contains(base64_value_check(),s.first,s.second))
+            return (*this);
+
+         char buffer[3 * rounds];
+         const std::size_t length = convert_base64_to_bin(s.first, s.second, buffer);
+
+         if (length > sizeof(T))
             return (*this);
-         }
 
          (*t_) = T(0);
 
-         convert_base64_to_bin(s.first, s.second,reinterpret_cast<char*>(t_));
+         std::copy(buffer, buffer + length, reinterpret_cast<char*>(t_) + (sizeof(T) - length));
          reverse_bytes();
+         valid_ = true;
 
          return (*this);
       }
-- 
2.43.0


From 8aeb1aacc307876ca19c2810dcbf0ddbe4d7a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 32/95] fix: sink_type constructed with a container left its
 element count uninitialised

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a64d9e8..5e51f23 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15377,7 +15377,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0


From 6a9982a4e53b29e8aac0f9a0bf4298496f64adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 33/95] fix: decimal_sink read past the end of tokens without a
 fractional part

---
 strtk.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5e51f23..f0380cf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15187,7 +15187,7 @@ namespace strtk
       template <typename InputIterator>
       inline bool operator()(InputIterator itr, InputIterator end)
       {
-         if (0 == t_)
+         if ((0 == t_) || (end == itr))
             return false;
 
          typedef typename strtk::details::real_type<T>::type real_t;
@@ -15221,7 +15221,13 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (end != itr)
+         {
+            if ('.' != *itr)
+               return false;
+
+            ++itr;
+         }
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From f244dd175c64afeb6da2454e365d8d0fe5fe8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 34/95] fix: text::remove_inplace and insert_inplace used
 memcpy on overlapping ranges

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f0380cf..78dd73c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15603,7 +15603,7 @@ namespace strtk
       {
          if (index >= s.size())
             return;
-         std::memcpy(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index - 1);
          s.resize(s.size() - 1);
       }
 
@@ -15616,8 +15616,10 @@ namespace strtk
 
       inline void insert_inplace(std::string& s, const std::size_t& index, const char c)
       {
+         if (index > s.size())
+            return;
          s.resize(s.size() + 1);
-         std::memcpy(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index - 1);
          s[index] = c;
       }
 
-- 
2.43.0


From 118ed6ea7768b9df58087624730052623b8bd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 35/95] fix: consecutive value searches with a stateful
 predicate stepped past the end

---
 strtk.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 78dd73c..3a9da07 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15692,9 +15692,14 @@ namespace strtk
                   ++itr;
                if (!stateful_predicate)
                   count = n;
-               else
+               else if (end != itr)
                {
-                  --count;
+                  // the predicate has already been consumed for this value
+                  count = n - 1;
+
+                  if (0 == count)
+                     return typename range_type<Iterator>::type(itr,itr + n);
+
                   ++itr;
                }
             }
-- 
2.43.0


From 312f96c2fa314d6b5aee254cbe87b58260212706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 36/95] fix: match_atleast_n_consecutive_values rejected runs
 reaching the end of the range

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3a9da07..bfff90e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15832,7 +15832,7 @@ namespace strtk
                return false;
          }
 
-         return false;
+         return (count >= n);
       }
 
       template <typename Iterator,typename Predicate>
-- 
2.43.0


From c403aaec0bcbcee2c9f15e3607c107628a8de131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 37/95] fix: split_on_consecutive_n emitted one match too many
 and looped on zero length runs

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index bfff90e..d4e7dc3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15983,7 +15983,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
@@ -16047,7 +16047,7 @@ namespace strtk
                                              char* end,
                                              OutputIterator out)
    {
-      if (0 == n) return 0;
+      if ((0 == n) || (0 == m)) return 0;
 
       typedef char* iterator_type;
       typedef details::range_type<iterator_type>::type range_type;
@@ -16055,7 +16055,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = find_n_consecutive<iterator_type>(m,type,mode,itr_range);
 
-- 
2.43.0


From aad12ad343615503d516baf5229823724a5ccaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 38/95] fix: real conversion read outside its power table and
 mishandled large exponents

---
 strtk.hpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d4e7dc3..5b315e5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16854,23 +16854,21 @@ namespace strtk
 
          const int e = std::abs(exponent);
 
-         if (exponent >= std::numeric_limits<T>::min_exponent10)
+         if (e < fract10_size)
          {
-            if (e < fract10_size)
-            {
-               if (exponent > 0)
-                  return T(d * fract10[e]);
-               else
-                  return T(d / fract10[e]);
-            }
+            if (exponent > 0)
+               return T(d * fract10[e]);
             else
-               return T(d * std::pow(10.0, 10.0 * exponent));
+               return T(d / fract10[e]);
          }
-         else
+
+         for (int remaining = e; remaining > 0; remaining -= (fract10_size - 1))
          {
-                     d /= fract10[          -std::numeric_limits<T>::min_exponent10];
-            return T(d / fract10[-exponent + std::numeric_limits<T>::min_exponent10]);
+            const double scale = fract10[std::min(remaining,fract10_size - 1)];
+            d = T((exponent > 0) ? (d * scale) : (d / scale));
          }
+
+         return d;
       }
 
       #define strtk_register_pod_type(T)                                                           \
@@ -17731,7 +17729,22 @@ namespace strtk
                if (curr != itr)
                {
                   instate = true;
-                  d += pow10(tmp_d,static_cast<int>(-std::distance(curr,itr)));
+                  Iterator last = itr;
+
+                  if (std::distance(curr,itr) > std::numeric_limits<real_t>::max_exponent10)
+                  {
+                     // Too many digits to accumulate, only consider the leading significant ones
+                     last  = curr;
+                     tmp_d = real_t(0);
+                     while ((itr != last) && ('0' == (*last))) ++last;
+
+                     for (int i = 0; (itr != last) && (i < 30); ++i, ++last)
+                     {
+                        tmp_d = tmp_d * real_t(10) + (*last - '0');
+                     }
+                  }
+
+                  d += pow10(tmp_d,static_cast<int>(-std::distance(curr,last)));
                }
 
                #undef parse_digit_1
-- 
2.43.0


From fc955f792ac9333f81094b4644d173bf91f763b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 39/95] fix: parsing the minimum value of a signed integer type
 overflowed

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5b315e5..09cc62c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17520,9 +17520,11 @@ namespace strtk
                return false;
          }
 
-         t = t * 10 + static_cast<T>(digit);
+         if (last_digit == numeric<T>::ldpos)
+            result = t * 10 + static_cast<T>(digit);
+         else
+            result = -(t * 10) - static_cast<T>(digit);
 
-         result = (last_digit == numeric<T>::ldpos) ? t : -t;
          itr_external = itr;
          return true;
       }
-- 
2.43.0


From d8c1dc3f0ff1bdbbe88d19d21d5d9a9a16ae0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 40/95] fix: integer parsing limited long and unsigned long to
 32 bits on LP64 platforms

---
 strtk.hpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 09cc62c..50289f1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16940,27 +16940,6 @@ namespace strtk
          static const unsigned int ldpos        =  5;
       };
 
-      template<>
-      struct numeric<long>
-      {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
-         static const long ldpos                =  7;
-         static const long ldneg                =  8;
-      };
-
-      template<>
-      struct numeric<unsigned long>
-      {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
-         static const unsigned long ldpos        = 5;
-      };
-
       template<>
       struct numeric<long long>
       {
@@ -16982,6 +16961,13 @@ namespace strtk
          static const unsigned long long ldpos  = 5;
       };
 
+      template <std::size_t> struct numeric_long {};
+      template<> struct numeric_long<sizeof(int)>       { typedef numeric<int>       s; typedef numeric<unsigned int>           u; };
+      template<> struct numeric_long<sizeof(long long)> { typedef numeric<long long> s; typedef numeric<unsigned long long int> u; };
+
+      template<> struct numeric<long>          : public numeric_long<sizeof(long)>::s {};
+      template<> struct numeric<unsigned long> : public numeric_long<sizeof(long)>::u {};
+
       template<> struct numeric<float>  { enum { min_exp =  -37, max_exp =  +38, precision = 10}; };
       template<> struct numeric<double> { enum { min_exp = -307, max_exp = +308, precision = 15}; };
 
-- 
2.43.0


From c14aca51a180980c76699fabfcc63e74b8e96e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 41/95] fix: copy_file and concatenate truncated their output
 before checking their inputs

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 50289f1..dc11d1d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18539,8 +18539,8 @@ namespace strtk
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
-         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!src_file) return false;
+         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
@@ -18573,9 +18573,12 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
+
+         if (!file1 || !file2) return false;
+
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
-         if (!file1 || !file2 || !out_file) return false;
+         if (!out_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
-- 
2.43.0


From 980453dbff9f5ea5c000837ef60b5e27dce8ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 42/95] fix: fileio::read_pod and write_pod did not compile or
 reported inverted results

---
 strtk.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index dc11d1d..a49dd49 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18661,7 +18661,7 @@ namespace strtk
          template <typename T>
          inline bool write_pod_proxy(std::ofstream& stream, const T& t)
          {
-            return (false == stream.write(reinterpret_cast<char*>(&t),
+            return (false == stream.write(reinterpret_cast<const char*>(&t),
                                           static_cast<std::streamsize>(sizeof(T))).fail());
          }
       }
@@ -18799,7 +18799,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool read_pod(std::ifstream& stream, T (&t)[N])
       {
-         return (false != stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -18995,7 +18995,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool write_pod(std::ofstream& stream, T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -19004,8 +19004,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const Sequence<T,Allocator>& sequence)
       {
-         typename Sequence<T,Allocator>::iterator itr = sequence.begin();
-         typename Sequence<T,Allocator>::iterator end = sequence.end();
+         typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+         typename Sequence<T,Allocator>::const_iterator end = sequence.end();
 
          while (end != itr)
          {
@@ -19014,6 +19014,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19032,6 +19034,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19050,6 +19054,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       inline bool read_at_offset(std::ifstream& stream,
-- 
2.43.0


From d1aca45804f262a23fcf55e311c6fd8012f70f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 43/95] fix: string_condition begins_with/ends_with required
 equal lengths and copies referenced the source string

---
 strtk.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a49dd49..b5c3c11 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19589,7 +19589,7 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::begins_with(s_begin, s_end, begin, end);
          }
@@ -19599,7 +19599,7 @@ namespace strtk
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::ends_with(s_begin, s_end, begin, end);
          }
@@ -19668,6 +19668,28 @@ namespace strtk
          }
       }
 
+      inline string_condition(const string_condition& sc)
+      : cond_type_(sc.cond_type_),
+        s(sc.s),
+        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
+        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size())),
+        condition_method_(sc.condition_method_)
+      {}
+
+      inline string_condition& operator=(const string_condition& sc)
+      {
+         if (this != &sc)
+         {
+            cond_type_        = sc.cond_type_;
+            s                 = sc.s;
+            s_begin           = reinterpret_cast<const unsigned char*>(to_ptr(s));
+            s_end             = reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size());
+            condition_method_ = sc.condition_method_;
+         }
+
+         return *this;
+      }
+
       template <typename Iterator>
       inline bool operator()(const Iterator begin, const Iterator end)
       {
-- 
2.43.0


From becda2c3befc6a917a8855f42696618e46d774ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 44/95] fix: trie stored values on the parent of the key's
 final node

---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b5c3c11..b9a4069 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19842,7 +19842,6 @@ namespace strtk
 
             key_iterator_t itr = begin;
             key_value_t key    = (*itr);
-            node_ptr parent    = 0;
             node_ptr next_node = 0;
             node_ptr n = head_ = ((0 == head_) ? new node_t(*itr) : head_);
 
@@ -19855,12 +19854,11 @@ namespace strtk
                   n->add_node(next_node = new node_t(key));
                }
 
-               parent = n;
                n = next_node;
                ++itr;
             }
 
-            parent->assign_value(v);
+            n->assign_value(v);
          }
 
          template <typename key_iterator_t>
@@ -19872,7 +19870,6 @@ namespace strtk
                return false;
 
             key_iterator_t itr = begin;
-            node_ptr parent = head_;
             node_ptr n = head_;
 
             while (end != itr)
@@ -19882,13 +19879,12 @@ namespace strtk
                if (0 == next_node)
                   return false;
 
-               parent = n;
                n = next_node;
                ++itr;
             }
-            if (!parent->value_holder())
+            if (!n->value_holder())
                return false;
-             v = parent->value();
+             v = n->value();
              return true;
          }
 
-- 
2.43.0


From be877cdd0d68b6713bf76f14e091daf3a4400719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 45/95] fix: bloom filter copy construction used an
 uninitialised table pointer

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index b9a4069..380aa43 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20166,6 +20166,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From 4cf867ad857400b5291c069f29c8abf92c925b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 46/95] fix: bloom filter table was too small when its size was
 not a multiple of eight bits

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 380aa43..d914733 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20160,7 +20160,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = (table_size_ / bits_per_char) + ((0 != (table_size_ % bits_per_char)) ? 1 : 0);
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
-- 
2.43.0


From a58f48dd44d88fb990f5ebe9a6ac4f3f48f1e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 47/95] fix: compressing a bloom filter overflowed its table
 and left a stale table size

---
 strtk.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d914733..31770e5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20356,9 +20356,10 @@ namespace strtk
          {
             /* intersection */
             if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (salt_count_     == f.salt_count_    ) &&
+                (table_size_     == f.table_size_    ) &&
+                (raw_table_size_ == f.raw_table_size_) &&
+                (random_seed_    == f.random_seed_   )
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20373,9 +20374,10 @@ namespace strtk
          {
             /* union */
             if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (salt_count_     == f.salt_count_    ) &&
+                (table_size_     == f.table_size_    ) &&
+                (raw_table_size_ == f.raw_table_size_) &&
+                (random_seed_    == f.random_seed_   )
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20390,9 +20392,10 @@ namespace strtk
          {
             /* difference */
             if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (salt_count_     == f.salt_count_    ) &&
+                (table_size_     == f.table_size_    ) &&
+                (raw_table_size_ == f.raw_table_size_) &&
+                (random_seed_    == f.random_seed_   )
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20698,16 +20701,21 @@ namespace strtk
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
+            cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
+            cell_type* end_tmp = tmp + (new_table_size / bits_per_char);
 
             while (end != itr)
             {
+               if (end_tmp == itr_tmp)
+                  itr_tmp = tmp;
+
                *(itr_tmp++) |= (*itr++);
             }
 
             delete[] bit_table_;
             bit_table_ = tmp;
+            raw_table_size_ = new_table_size / bits_per_char;
             size_list.push_back(new_table_size);
 
             return true;
-- 
2.43.0


From 59662e04bfbd90ad4c8ad9be26eea4ca167b0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 48/95] fix: bloom filter was left inconsistent when loading a
 truncated or malformed file

---
 strtk.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 31770e5..dcece4d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20490,7 +20490,23 @@ namespace strtk
 
             delete[] buffer;
 
-            return result;
+            if (
+                 !result                       ||
+                 (0 == table_size_)            ||
+                 (salt_.size() != salt_count_) ||
+                 (raw_table_size_ != ((table_size_ / bits_per_char) + ((0 != (table_size_ % bits_per_char)) ? 1 : 0)))
+               )
+            {
+               delete [] bit_table_;
+               bit_table_      = 0;
+               salt_count_     = 0;
+               table_size_     = 0;
+               raw_table_size_ = 0;
+               salt_.clear();
+               return false;
+            }
+
+            return true;
          }
 
          inline std::size_t hash_count()
-- 
2.43.0


From c3d1b2ee644ea42729ba931b020be32b7dc63358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 49/95] fix: trie find and find_prefix did not compile for C
 string keys

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index dcece4d..bf2f922 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19946,7 +19946,7 @@ namespace strtk
                        const char* key,
                        Value& v)
       {
-         return trie.find_prefix(trie,std::string(key),v);
+         return find(trie,std::string(key),v);
       }
 
       template <typename Value>
@@ -19960,7 +19960,7 @@ namespace strtk
       inline bool find_prefix(prefix<std::string::const_iterator,Value>& trie,
                               const char* key)
       {
-         return trie.find_prefix(trie,std::string(key));
+         return find_prefix(trie,std::string(key));
       }
 
    } // namespace trie
-- 
2.43.0


From 2aca23f9ec08f9d7353edd469a647ad98d53f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 50/95] fix: copies of util::value and
 util::semantic_action_impl referenced the storage of the original

---
 strtk.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index bf2f922..beff907 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21100,6 +21100,17 @@ namespace strtk
             assign(f);
          }
 
+         inline semantic_action_impl(const semantic_action_impl& sa)
+         : function_holder_(0)
+         {
+            std::copy(sa.function_holder_buffer_,
+                      sa.function_holder_buffer_ + function_holder_buffer_size,
+                      function_holder_buffer_);
+
+            if (0 != sa.function_holder_)
+               function_holder_ = reinterpret_cast<function_holder_base*>(function_holder_buffer_);
+         }
+
          inline bool operator!() const
          {
             return (0 == function_holder_);
@@ -21325,6 +21336,13 @@ namespace strtk
             return (0 == type_holder_);
          }
 
+         inline value(const value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            operator=(v);
+         }
+
          inline bool operator==(const value& v) const
          {
             return (0 !=   type_holder_) &&
@@ -21343,6 +21361,8 @@ namespace strtk
                             type_holder_buffer_);
                   type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
                }
+               else
+                  type_holder_ = 0;
             }
             return *this;
          }
-- 
2.43.0


From ad812d76b9fe58557f971830a7a1623f14b1d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 51/95] fix: set_array read past the end of a shorter source
 array

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index beff907..1f4572d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24044,7 +24044,7 @@ namespace strtk
    {
       if (N < M)
          return false;
-      std::copy(src,src + N, &dest[0]);
+      std::copy(src,src + M, &dest[0]);
       if ((M < N) && pad)
          std::fill_n(&dest[M],N - M,padding);
       return true;
-- 
2.43.0


From 74e99e0a3851a1404a109e1e28419a4b667eee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 52/95] fix: column selectors with two to ten columns used the
 wrong type for the first column

---
 strtk.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1f4572d..2a87659 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22283,7 +22283,7 @@ namespace strtk
          typedef column_list_impl<10> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8, T9& t9)
          : csb_t(column_list)
          {
@@ -22306,7 +22306,7 @@ namespace strtk
          typedef column_list_impl<9> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8)
          : csb_t(column_list)
          {
@@ -22329,7 +22329,7 @@ namespace strtk
          typedef column_list_impl<8> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6, T7& t7)
          : csb_t(column_list)
          {
@@ -22351,7 +22351,7 @@ namespace strtk
          typedef column_list_impl<7> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6)
          : csb_t(column_list)
          {
@@ -22373,7 +22373,7 @@ namespace strtk
          typedef column_list_impl<6> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4, T5& t5)
          : csb_t(column_list)
          {
@@ -22394,7 +22394,7 @@ namespace strtk
          typedef column_list_impl<5> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4)
          : csb_t(column_list)
          {
@@ -22414,7 +22414,7 @@ namespace strtk
          typedef column_list_impl<4> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3)
+                              T0& t0, T1& t1, T2& t2, T3& t3)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22432,7 +22432,7 @@ namespace strtk
          typedef column_list_impl<3> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2)
+                              T0& t0, T1& t1, T2& t2)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22450,7 +22450,7 @@ namespace strtk
          typedef column_list_impl<2> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1)
+                              T0& t0, T1& t1)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
-- 
2.43.0


From 4acfe5f558b439098b913809df7ccb528cf2c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 53/95] fix: util::delete_if did not compile for sets of
 pointers

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2a87659..e7c08f7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21700,7 +21700,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
@@ -21721,7 +21721,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
-- 
2.43.0


From 5a6198d3d5cec867a1144a22b06d57e5244724f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 54/95] fix: split_n ignored include_all_delimiters

---
 strtk.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e7c08f7..446f593 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3574,14 +3574,18 @@ namespace strtk
          {
             if (include_delimiters)
             {
-               ++range.second;
+               if (include_1st_delimiter)
+                  ++range.second;
+               else
+                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
+
                (*out) = range;
                ++out;
 
                if (++match_count >= token_count)
                   return match_count;
 
-               if (compress_delimiters)
+               if ((!include_all_delimiters) && compress_delimiters)
                   while ((end != range.second) && delimiter(*range.second)) ++range.second;
             }
             else
-- 
2.43.0


From 617130f8eeb32a66e28158a21c4530255cb3d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 55/95] fix: split_regex_n emitted one match when asked for
 none

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 446f593..6355b3b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3801,6 +3801,8 @@ namespace strtk
                                     OutputIterator out,
                                     const regex_match_mode::type mode = regex_match_mode::match_all)
    {
+      if (0 == token_count) return 0;
+
       boost::sregex_iterator itr(begin,end,delimiter_expression);
       const boost::sregex_iterator itr_end;
       std::pair<InputIterator,InputIterator> range(begin,begin);
-- 
2.43.0


From a7a720f5fc51d4275e6ff5f507e12eaaf466752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 56/95] fix: reusing an exhausted offset predicate read past
 its offset list

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6355b3b..5ebd576 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3899,6 +3899,9 @@ namespace strtk
 
       inline int next() const
       {
+         if (current_index_ >= offset_list_size)
+            return 0;
+
          int result = offset_list_[current_index_++];
 
          if (rotate_ && (current_index_ >= offset_list_size))
-- 
2.43.0


From 20a37f57ddb5137922e335d35b077f57989fcf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 57/95] fix: decimal_sink could not be used in parse (its token
 conversion was missing)

---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 5ebd576..3ba5735 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17392,6 +17392,15 @@ namespace strtk
          return true;
       }
 
+      template <typename Iterator, typename DecimalSink>
+      inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, DecimalSink& t, decsink_type_tag)
+      {
+         if (!t(itr,end))
+            return false;
+         itr = end;
+         return true;
+      }
+
       #ifdef __builtin_expect
       # define strtk_likely(x)    __builtin_expect((x),1)
       # define strtk_unlikely(x)  __builtin_expect((x),0)
-- 
2.43.0


From 869ee7cdbd0883142c3f0e111de73b0d3646f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 58/95] fix: parse(argc,argv,...) read argv[argc] instead of
 the argc given arguments

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3ba5735..f18ac35 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -10139,10 +10139,10 @@ namespace strtk
       if (9 != argc) return 0;
       std::size_t result = 0;
 
-      #define strtk_cmpstmt(N)                                  \
-      if (!string_to_type_converter(std::string(argv[N]),t##N)) \
-         return result;                                         \
-      ++result;                                                 \
+      #define strtk_cmpstmt(N)                                      \
+      if (!string_to_type_converter(std::string(argv[N - 1]),t##N)) \
+         return result;                                             \
+      ++result;                                                     \
 
       strtk_cmpstmt(1)
       strtk_cmpstmt(2)
-- 
2.43.0


From 5c63d377becf03feb4b27679fbaff1541f7c5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 59/95] fix: parse_n on an iterator pair did not compile
 (forwarded to parse with the wrong arguments)

---
 strtk.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f18ac35..9ad7a47 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -9726,7 +9726,7 @@ namespace strtk
                               Sequence<T,Allocator>& sequence,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,sequence,split_option);
+      return parse_n(range.first,range.second,delimiters,n,sequence,split_option);
    }
 
    template <typename InputIterator,
@@ -9739,7 +9739,7 @@ namespace strtk
                               std::set<T,Comparator,Allocator>& set,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,set,split_option);
+      return parse_n(range.first,range.second,delimiters,n,set,split_option);
    }
 
    template <typename InputIterator,
@@ -9752,7 +9752,7 @@ namespace strtk
                               std::multiset<T,Comparator,Allocator>& multiset,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,multiset,split_option);
+      return parse_n(range.first,range.second,delimiters,n,multiset,split_option);
    }
 
    template <typename InputIterator,
@@ -9764,7 +9764,7 @@ namespace strtk
                               std::queue<T,Container>& queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,queue,split_option);
    }
 
    template <typename InputIterator,
@@ -9776,7 +9776,7 @@ namespace strtk
                               std::stack<T,Container>& stack,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,stack,split_option);
+      return parse_n(range.first,range.second,delimiters,n,stack,split_option);
    }
 
    template <typename InputIterator,
@@ -9789,7 +9789,7 @@ namespace strtk
                               std::priority_queue<T,Container,Comparator>& priority_queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,priority_queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,priority_queue,split_option);
    }
 
    template <typename T1 , typename T2 , typename T3 , typename  T4,
-- 
2.43.0


From 8af48d537f373b9b9c95013f7c9151d99c9652fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 60/95] fix: range_to_ptr_type and parse_n into an array did
 not compile (insert count not copied)

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9ad7a47..4b6dab0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3037,7 +3037,8 @@ namespace strtk
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
-      : pointer_(itr.pointer_)
+      : pointer_(itr.pointer_),
+        insert_count_(itr.insert_count_)
       {}
 
       inline range_to_ptr_type_iterator& operator=(const range_to_ptr_type_iterator& itr)
-- 
2.43.0


From d6ca8bd0b6c137a82336bb6281db87efbea3479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 61/95] fix: range_to_ptr_type(pointer) incremented one static
 counter from every thread

---
 strtk.hpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4b6dab0..b892d68 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3031,9 +3031,14 @@ namespace strtk
 
       typedef T value_type;
 
+      explicit inline range_to_ptr_type_iterator(T* pointer)
+      : pointer_(pointer),
+        insert_count_(0)
+      {}
+
       explicit inline range_to_ptr_type_iterator(T* pointer, std::size_t& insert_count)
       : pointer_(pointer),
-        insert_count_(insert_count)
+        insert_count_(&insert_count)
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
@@ -3058,9 +3063,7 @@ namespace strtk
 
          if (string_to_type_converter(r.first,r.second,t))
          {
-            (*pointer_) = t;
-            ++pointer_;
-            ++insert_count_;
+            insert(t);
          }
 
          return (*this);
@@ -3072,32 +3075,26 @@ namespace strtk
 
          if (string_to_type_converter(to_ptr(s), to_ptr(s) + s.size(),t))
          {
-            (*pointer_) = t;
-            ++pointer_;
-            ++insert_count_;
+            insert(t);
          }
 
          return (*this);
       }
 
       template <typename Iterator>
-      inline void operator()(const std::pair<Iterator,Iterator>& r) const
+      inline void operator()(const std::pair<Iterator,Iterator>& r)
       {
          value_type t;
          if (string_to_type_converter(r.first,r.second,t))
          {
-            (*pointer_) = t;
-            ++pointer_;
-            ++insert_count_;
+            insert(t);
          }
       }
 
       template <typename Iterator>
       inline void operator()(const Iterator begin, const Iterator end)
       {
-         (*pointer_) = string_to_type_converter<T>(begin,end);
-         ++pointer_;
-         ++insert_count_;
+         insert(string_to_type_converter<T>(begin,end));
       }
 
       inline range_to_ptr_type_iterator& operator*()
@@ -3117,8 +3114,17 @@ namespace strtk
 
    private:
 
+      inline void insert(const T& t)
+      {
+         (*pointer_) = t;
+         ++pointer_;
+
+         if (insert_count_)
+            ++(*insert_count_);
+      }
+
       T* pointer_;
-      std::size_t& insert_count_;
+      std::size_t* insert_count_;
    };
 
    template <typename T>
@@ -3130,8 +3136,7 @@ namespace strtk
    template <typename T>
    inline range_to_ptr_type_iterator<T> range_to_ptr_type(T* pointer)
    {
-      static std::size_t insert_count = 0;
-      return (range_to_ptr_type_iterator<T>(pointer,insert_count));
+      return (range_to_ptr_type_iterator<T>(pointer));
    }
 
    template <typename T>
-- 
2.43.0


From a6c9cc18e6c673eb3572992bb121944b36bb4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 62/95] fix: join_if returning a string did not compile for
 sequences (called join)

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b892d68..74c0923 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11369,7 +11369,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From d608001ccde4508cc37a60564d51acad607cf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 63/95] fix: strtk_use_lut real parsing indexed its digit table
 with a sign extended char

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 74c0923..985bfc7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17567,7 +17567,7 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr++]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr++)]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
 
                #else
                #define strtk_process_digit \
@@ -17679,10 +17679,10 @@ namespace strtk
          #ifdef strtk_use_lut
 
          #define parse_digit_1(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
 
          #define parse_digit_2(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
 
          #else
 
-- 
2.43.0


From 540df5a104573bb2adf54680727f44ed313f45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 64/95] fix: fast signed conversions of a fixed length did not
 compile

---
 strtk.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 985bfc7..acc19aa 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13568,9 +13568,9 @@ namespace strtk
       inline bool signed_all_digits_check(Iterator itr)
       {
          if (('-' == (*itr)) || ('+' == (*itr)))
-            return all_digits_check<Iterator,N - 1>((itr + 1));
+            return all_digits_check<N - 1,Iterator>((itr + 1));
          else
-            return all_digits_check<Iterator,N>(itr);
+            return all_digits_check<N,Iterator>(itr);
       }
 
       template <typename Iterator>
@@ -13658,7 +13658,7 @@ namespace strtk
       }
 
       template <std::size_t N, typename T, typename Iterator>
-      inline bool signed_numeric_convert(Iterator itr, T& t, const bool digit_check = false)
+      inline void signed_numeric_convert(Iterator itr, T& t, const bool digit_check = false)
       {
          if ('-' == (*itr))
          {
@@ -13700,11 +13700,11 @@ namespace strtk
       }
 
       template <std::size_t N, typename T>
-      inline bool signed_numeric_convert(const std::string& s,
+      inline void signed_numeric_convert(const std::string& s,
                                          T& t,
                                          const bool digit_check = false)
       {
-         return signed_numeric_convert<N,T,const char*>(to_ptr(s), t, digit_check);
+         signed_numeric_convert<N,T,const char*>(to_ptr(s), t, digit_check);
       }
 
       template <typename T>
-- 
2.43.0


From ff64618103b86d2928383aef5263ef397721e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 65/95] fix: binary reader seek by the minimum integer
 overflowed

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index acc19aa..c6b7fcf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13939,7 +13939,7 @@ namespace strtk
          inline bool seek(const int& n_bytes)
          {
             if (n_bytes < 0)
-               return rewind(-n_bytes);
+               return rewind(std::size_t(0) - static_cast<std::size_t>(n_bytes));
             else if (n_bytes > 0)
             {
                if ((amount_read_sofar_ + n_bytes) <= buffer_length_)
-- 
2.43.0


From 0b799f7d27b859175df35f7248066152821e8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 66/95] fix: split with delimiters included examined an element
 twice

---
 strtk.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index c6b7fcf..075ab3f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3384,6 +3384,14 @@ namespace strtk
             }
             ++token_count;
             range.first = range.second;
+
+            // The run of delimiters ended on an element that has been examined.
+            if (
+                 include_delimiters                               &&
+                 (include_all_delimiters || compress_delimiters) &&
+                 (end != range.second)
+               )
+               ++range.second;
          }
          else
             ++range.second;
-- 
2.43.0


From beb701a350d15394464630e70f735b45e32dcac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 67/95] fix: iterator based replace_pattern did not advance its
 output iterator

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 075ab3f..d5008e4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1850,9 +1850,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From 9d9ffff9b5e993f638e48974ad38e8faea1ae52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 68/95] fix: imatch of a string against a range or set of
 strings did not compile

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d5008e4..044bd37 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2012,7 +2012,7 @@ namespace strtk
    template <typename Iterator>
    inline Iterator imatch(const std::string& s, const Iterator begin, const Iterator end)
    {
-      for (const std::string* itr = begin; end != itr; ++itr)
+      for (Iterator itr = begin; end != itr; ++itr)
       {
          if (imatch(s,*itr))
          {
@@ -2032,13 +2032,13 @@ namespace strtk
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::set<std::string,Comparator,Allocator>& set)
    {
-      return imatch(s, set.begin(), set.end());
+      return (set.end() != imatch(s, set.begin(), set.end()));
    }
 
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::multiset<std::string,Comparator,Allocator>& multiset)
    {
-      return imatch(s, multiset.begin(), multiset.end());
+      return (multiset.end() != imatch(s, multiset.begin(), multiset.end()));
    }
 
    template <typename Iterator, typename OutputIterator>
-- 
2.43.0


From 8f2d062d5632e63c10095b881d8a1f4a7a9ec8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 69/95] fix: ext_string operator*= yielded one copy more than
 operator*

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 044bd37..7098b8a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18359,7 +18359,7 @@ namespace strtk
 
       inline ext_string& operator *= (const std::size_t& n)
       {
-         strtk::replicate_inplace(n,s_);
+         s_ = strtk::replicate(n,s_);
          return (*this);
       }
 
-- 
2.43.0


From 82f4577ef5e20a83b6f446de213c48e44fbb01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 70/95] fix: attribute<T> left its value and previous value
 uninitialised

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7098b8a..48b65c3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20960,7 +20960,9 @@ namespace strtk
       public:
 
          attribute()
-         : initialised_(false)
+         : t_(),
+           prev_t_(),
+           initialised_(false)
          {}
 
          attribute(const T& t)
-- 
2.43.0


From 3750434ce5fe6c1a3482e943662660286e90c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 71/95] fix: eleven and twelve column selectors did not compile

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 48b65c3..dbd2fc1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22733,8 +22733,8 @@ namespace strtk
    template <typename T0, typename T1, typename  T2, typename T3,
              typename T4, typename T5, typename  T6, typename T7,
              typename T8, typename T9, typename T10, typename T11>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
-      column_selector(const details::column_list_impl<11>& col_list,
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11>
+      column_selector(const details::column_list_impl<12>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3,  T4&  t4,  T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10, T11& t11)
    {
@@ -22747,7 +22747,7 @@ namespace strtk
    template <typename T0, typename T1, typename T2, typename T3,
              typename T4, typename T5, typename T6, typename T7,
              typename T8, typename T9, typename T10>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10>
       column_selector(const details::column_list_impl<11>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10)
-- 
2.43.0


From 56e03c1c4cb7e3d22623be353ed9812bd71e9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 72/95] fix: key-value parser mapped empty and out of range
 unsigned keys to other keys

---
 strtk.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index dbd2fc1..8458a38 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24321,7 +24321,10 @@ namespace strtk
          inline bool operator()(const Range& key_range, const Range& value_range)
          {
             std::size_t key = 0;
-            if (!fast::numeric_convert(distance(key_range),key_range.first,key,true))
+            const std::size_t key_length = distance(key_range);
+            if ((0 == key_length) || (key_length > static_cast<std::size_t>(std::numeric_limits<std::size_t>::digits10)))
+               return false;
+            if (!fast::numeric_convert(key_length,key_range.first,key,true))
                return false;
             if (key >= value_lut_.size())
                return false;
@@ -24378,11 +24381,17 @@ namespace strtk
          {
             static inline unsigned int transform(const Range& key_range)
             {
-               unsigned int result = 0;
-               if (strtk::fast::numeric_convert(std::distance(key_range.first,key_range.second),key_range.first,result,true))
-                  return result;
-               else
+               unsigned long long int result = 0;
+               const std::size_t key_length = std::distance(key_range.first,key_range.second);
+               if (
+                    (0 == key_length) ||
+                    (key_length > static_cast<std::size_t>(std::numeric_limits<unsigned long long int>::digits10)) ||
+                    !strtk::fast::numeric_convert(key_length,key_range.first,result,true) ||
+                    (result > std::numeric_limits<unsigned int>::max())
+                  )
                   return std::numeric_limits<unsigned int>::max();
+               else
+                  return static_cast<unsigned int>(result);
             }
          };
 
-- 
2.43.0


From ac6b2a64191ceca7ed487cc11e05010a1a68990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 73/95] fix: read_line_as_value called a function template
 declared after it and did not compile

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 8458a38..a44d762 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -240,6 +240,9 @@ namespace strtk
          return 0;
    }
 
+   template <typename T>
+   inline bool string_to_type_converter(const std::string& s, T& t);
+
    template <typename T>
    inline bool read_line_as_value(std::istream& stream,
                                   T& t,
-- 
2.43.0


From a942b52f718e99a179ff1010c1e47f75627ce430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 74/95] fix: write_file, copy_file and concatenate reported
 success when the data could not be written

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a44d762..c3f4464 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18563,7 +18563,7 @@ namespace strtk
          if (!out_stream) return false;
          out_stream.write(buffer,static_cast<std::streamsize>(buffer_size));
          out_stream.close();
-         return true;
+         return !out_stream.fail();
       }
 
       inline bool write_file(const std::string& file_name, const std::string& buffer)
@@ -18599,7 +18599,7 @@ namespace strtk
 
          src_file.close();
          dest_file.close();
-         return true;
+         return !dest_file.fail();
       }
 
       inline bool concatenate(const std::string& file_name1,
@@ -18643,7 +18643,7 @@ namespace strtk
             ++round;
          }
          out_file.close();
-         return true;
+         return !out_file.fail();
       }
 
       inline bool files_identical(const std::string& file_name1, const std::string& file_name2)
-- 
2.43.0


From 4b517a79d8008a8029d9771b8c793602aff2b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 75/95] fix: read_pod and write_pod between memory and
 containers did not compile

---
 strtk.hpp | 74 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c3f4464..dee3384 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19333,11 +19333,17 @@ namespace strtk
              template <typename,typename> class Sequence>
    inline unsigned char* read_pod(unsigned char* data,
                                   const std::size_t& n,
-                                  const Sequence<T,Allocator>& sequence)
+                                  Sequence<T,Allocator>& sequence)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::back_inserter(sequence));
-      return data + (sequence.size() * sizeof(T));
+      T t;
+
+      for (std::size_t i = 0; i < n; ++i, data += sizeof(T))
+      {
+         ::memcpy(&t, data, sizeof(T));
+         sequence.push_back(t);
+      }
+
+      return data;
    }
 
    template <typename T,
@@ -19345,11 +19351,17 @@ namespace strtk
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
                                   const std::size_t& n,
-                                  const std::set<T,Comparator,Allocator>& set)
+                                  std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::inserter(set,set.begin()));
-      return data + (set.size() * sizeof(T));
+      T t;
+
+      for (std::size_t i = 0; i < n; ++i, data += sizeof(T))
+      {
+         ::memcpy(&t, data, sizeof(T));
+         set.insert(t);
+      }
+
+      return data;
    }
 
    template <typename T,
@@ -19357,11 +19369,17 @@ namespace strtk
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
                                   const std::size_t& n,
-                                  const std::multiset<T,Comparator,Allocator>& multiset)
+                                  std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::inserter(multiset,multiset.begin()));
-      return data + (multiset.size() * sizeof(T));
+      T t;
+
+      for (std::size_t i = 0; i < n; ++i, data += sizeof(T))
+      {
+         ::memcpy(&t, data, sizeof(T));
+         multiset.insert(t);
+      }
+
+      return data;
    }
 
    template <typename T1,  typename T2, typename  T3, typename  T4,
@@ -19564,8 +19582,14 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const Sequence<T,Allocator>& sequence)
    {
-      ::memcpy(data, sequence.data(), sequence.size() * sizeof(T));
-      data += (sequence.size() * sizeof(T));
+      typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+
+      for ( ; sequence.end() != itr; ++itr, data += sizeof(T))
+      {
+         const T t = (*itr);
+         ::memcpy(data, &t, sizeof(T));
+      }
+
       return data;
    }
 
@@ -19575,9 +19599,14 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(set.begin(),set.end(),ptr);
-      return data + (set.size() * sizeof(T));
+      typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
+
+      for ( ; set.end() != itr; ++itr, data += sizeof(T))
+      {
+         ::memcpy(data, &(*itr), sizeof(T));
+      }
+
+      return data;
    }
 
    template <typename T,
@@ -19586,9 +19615,14 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(multiset.begin(),multiset.end(),ptr);
-      return data + (multiset.size() * sizeof(T));
+      typename std::multiset<T,Comparator,Allocator>::const_iterator itr = multiset.begin();
+
+      for ( ; multiset.end() != itr; ++itr, data += sizeof(T))
+      {
+         ::memcpy(data, &(*itr), sizeof(T));
+      }
+
+      return data;
    }
 
    class string_condition
-- 
2.43.0


From 956502df22e9cfcfcb6e8ab53f64607b734050ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 76/95] fix: bloom filter salts came from the process wide
 rand() so threads disturbed each other

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index dee3384..5d91370 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20655,11 +20655,12 @@ namespace strtk
             else
             {
                std::copy(predef_salt,predef_salt + predef_salt_count,std::back_inserter(salt_));
-               srand(static_cast<unsigned int>(random_seed_));
+               unsigned long long int state = random_seed_;
 
                while (salt_.size() < salt_count_)
                {
-                  bloom_type current_salt = static_cast<bloom_type>(rand()) * static_cast<bloom_type>(rand());
+                  state = state * 6364136223846793005ULL + 1442695040888963407ULL;
+                  bloom_type current_salt = static_cast<bloom_type>(state >> 32);
 
                   if (0 == current_salt) continue;
                   if (salt_.end() == std::find(salt_.begin(), salt_.end(), current_salt))
-- 
2.43.0


From 2e32c152a073b3b2036e3663b7f1f37feb7433c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 77/95] fix: hash covers every element exactly once, alike for
 every iterator type

---
 strtk.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5d91370..4506fdf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20880,7 +20880,7 @@ namespace strtk
       }
 
       template <std::size_t block_size, typename Iterator>
-      inline void compute_block(Iterator itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(Iterator& itr, std::size_t& length, unsigned int& hash)
       {
          while (length >= block_size)
          {
@@ -20893,7 +20893,7 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(unsigned char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(unsigned char*& itr, std::size_t& length, unsigned int& hash)
       {
          unsigned int local_hash = hash;
 
@@ -20909,16 +20909,10 @@ namespace strtk
          hash = local_hash;
       }
 
-      template <std::size_t block_size>
-      inline void compute_block(char* itr, std::size_t& length, unsigned int& hash)
-      {
-         compute_block<block_size>(reinterpret_cast<unsigned char*>(itr),length,hash);
-      }
-
       static const unsigned int hash_seed = 0xAAAAAAAA;
 
       template <typename Iterator>
-      inline void hash(const Iterator itr, std::size_t length, unsigned int& hash_value)
+      inline void hash(Iterator itr, std::size_t length, unsigned int& hash_value)
       {
          if (length >= 64) compute_block<64>(itr,length,hash_value);
          if (length >= 32) compute_block<32>(itr,length,hash_value);
@@ -20926,7 +20920,7 @@ namespace strtk
          if (length >=  8) compute_block< 8>(itr,length,hash_value);
          if (length >=  4) compute_block< 4>(itr,length,hash_value);
          if (length >=  2) compute_block< 2>(itr,length,hash_value);
-         if (length ==  0) compute_block< 1>(itr,length,hash_value);
+         if (length ==  1) compute_block< 1>(itr,length,hash_value);
       }
 
    } // namespace details
-- 
2.43.0


From 44d95af9e810b97421f0b660dfb5f7d1fc5abff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 78/95] fix: post-increment of the pointer inserter no longer
 loses the element

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4506fdf..7f806b6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3110,7 +3110,7 @@ namespace strtk
          return (*this);
       }
 
-      inline range_to_ptr_type_iterator operator++(int)
+      inline range_to_ptr_type_iterator& operator++(int)
       {
          return (*this);
       }
-- 
2.43.0


From f0225c5cabb062299228b3c00b870243ee02e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 79/95] fix: post-increment of a column selector no longer
 loses the column

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7f806b6..4559ec2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22194,7 +22194,7 @@ namespace strtk
             return (*this);
          }
 
-         inline csb_t operator++(int)
+         inline csb_t& operator++(int)
          {
             return (*this);
          }
@@ -23172,7 +23172,7 @@ namespace strtk
             return (*this);
          }
 
-         inline csii_t operator++(int)
+         inline csii_t& operator++(int)
          {
             return (*this);
          }
-- 
2.43.0


From d730864e4d8ea5aa302465bc6558e16db28a2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 80/95] fix: token_grid leaked its file buffer and kept stale
 tokens when loading threw

---
 strtk.hpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4559ec2..c23be3a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7337,19 +7337,11 @@ namespace strtk
       bool load(const std::string& file_name,
                 const token_grid::options& options)
       {
-         file_name_ = file_name;
+         const std::string new_file_name(file_name);
 
-         if ((load_from_file_) && (0 != buffer_))
-         {
-            delete [] buffer_;
-         }
-
-         dsv_index_.clear();
-         buffer_           = 0;
-         buffer_size_      = 0;
-         min_column_count_ = 0;
-         max_column_count_ = 0;
+         clear();
          options_          = options;
+         file_name_        = new_file_name;
          load_from_file_   = true;
          state_            = load();
 
@@ -7373,13 +7365,7 @@ namespace strtk
                 const std::size_t buffer_size,
                 const token_grid::options& options)
       {
-         file_name_ = "";
-
-         if (load_from_file_ && buffer_)
-         {
-            delete [] buffer_;
-            buffer_ = 0;
-         }
+         clear();
 
          min_column_count_ = 0;
          max_column_count_ = 0;
@@ -7482,6 +7468,19 @@ namespace strtk
       };
 
       inline bool load()
+      {
+         try
+         {
+            return load_tokens();
+         }
+         catch (...)
+         {
+            clear();
+            throw;
+         }
+      }
+
+      inline bool load_tokens()
       {
          if (load_from_file_ && !load_buffer_from_file())
             return false;
-- 
2.43.0


From bbf41239efd052c4de2471719e82b50bbf6f9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 81/95] fix: removing rows or tokens corrupted the grid when
 the predicate threw

---
 strtk.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c23be3a..fd9cf9d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6757,10 +6757,11 @@ namespace strtk
 
          std::deque<std::size_t> remove_token_list;
          std::deque<std::size_t> remove_row_list;
+         row_index_t row_index(dsv_index_.row_index);
 
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
+            row_index_range_t& r = row_index[i];
             std::size_t temp_r_first = r.first - removed_token_count;
             row_type row(i,dsv_index_);
 
@@ -6780,6 +6781,8 @@ namespace strtk
             r.second -= static_cast<unsigned int>(removed_token_count);
          }
 
+         dsv_index_.row_index.swap(row_index);
+
          for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
          {
             row_index_range_t& r = dsv_index_.row_index[i];
@@ -6818,10 +6821,11 @@ namespace strtk
          std::size_t removed_token_count = 0;
          std::deque<std::size_t> remove_token_list;
          std::deque<std::size_t> remove_row_list;
+         row_index_t row_index(dsv_index_.row_index);
 
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
+            row_index_range_t& r = row_index[i];
             std::size_t temp_r_first = r.first - removed_token_count;
             row_type row(i,dsv_index_);
 
@@ -6843,6 +6847,8 @@ namespace strtk
             }
          }
 
+         dsv_index_.row_index.swap(row_index);
+
          for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
          {
             row_index_range_t& r = dsv_index_.row_index[i];
-- 
2.43.0


From 4e8914d5974b047526ed066290c1db767e013a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 82/95] fix: bloom filter assignment and reading left a
 dangling or missing table when memory ran out

---
 strtk.hpp | 54 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fd9cf9d..3fa881d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20273,6 +20273,9 @@ namespace strtk
          {
             if (this != &f)
             {
+               std::vector<bloom_type> salt(f.salt_);
+               cell_type* bit_table = new cell_type[static_cast<std::size_t>(f.raw_table_size_)];
+               std::copy(f.bit_table_, f.bit_table_ + f.raw_table_size_, bit_table);
                salt_count_              = f.salt_count_;
                table_size_              = f.table_size_;
                raw_table_size_          = f.raw_table_size_;
@@ -20281,9 +20284,8 @@ namespace strtk
                random_seed_             = f.random_seed_;
                desired_false_positive_probability_ = f.desired_false_positive_probability_;
                delete[] bit_table_;
-               bit_table_               = new cell_type[static_cast<std::size_t>(raw_table_size_)];
-               std::copy(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
-               salt_                    = f.salt_;
+               bit_table_               = bit_table;
+               salt_.swap(salt);
             }
             return *this;
          }
@@ -20503,8 +20505,8 @@ namespace strtk
             std::ofstream ostream(file_name.c_str(),std::ios::binary);
             if (!ostream)
                return false;
-            unsigned char* buffer = new unsigned char[buffer_size];
-            strtk::binary::writer writer(buffer,buffer_size);
+            std::vector<unsigned char> buffer(buffer_size);
+            strtk::binary::writer writer(&buffer[0],buffer_size);
             writer.reset(true);
             bool result = writer(salt_count_)                         &&
                           writer(table_size_)                         &&
@@ -20520,7 +20522,6 @@ namespace strtk
                writer(ostream);
             }
             ostream.close();
-            delete[] buffer;
             return result;
          }
 
@@ -20546,21 +20547,34 @@ namespace strtk
             bit_table_= 0;
             const std::size_t buffer_size = strtk::fileio::file_size(file_name);
             unsigned char* buffer = new unsigned char[buffer_size];
+            bool result = false;
 
-            strtk::binary::reader reader(buffer,buffer_size);
-            reader.reset(true);
-            reader(istream,buffer_size);
-            istream.close();
-
-            bool result = reader(salt_count_)                         &&
-                          reader(table_size_)                         &&
-                          reader(raw_table_size_)                     &&
-                          reader(projected_element_count_)            &&
-                          reader(inserted_element_count_)             &&
-                          reader(random_seed_)                        &&
-                          reader(desired_false_positive_probability_) &&
-                          reader(salt_)                               &&
-                          reader(bit_table_,raw_table_size_);
+            try
+            {
+               strtk::binary::reader reader(buffer,buffer_size);
+               reader.reset(true);
+               reader(istream,buffer_size);
+               istream.close();
+
+               result = reader(salt_count_)                         &&
+                        reader(table_size_)                         &&
+                        reader(raw_table_size_)                     &&
+                        reader(projected_element_count_)            &&
+                        reader(inserted_element_count_)             &&
+                        reader(random_seed_)                        &&
+                        reader(desired_false_positive_probability_) &&
+                        reader(salt_)                               &&
+                        reader(bit_table_,raw_table_size_);
+            }
+            catch (...)
+            {
+               delete[] buffer;
+               salt_count_     = 0;
+               table_size_     = 0;
+               raw_table_size_ = 0;
+               salt_.clear();
+               throw;
+            }
 
             delete[] buffer;
 
-- 
2.43.0


From c27ff4fc88b131e367adc047ea31e71c147e9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 83/95] fix: compressible bloom filter lost track of its sizes
 on failed allocations and when read from a file

---
 strtk.hpp | 62 +++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3fa881d..3cd5696 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20487,7 +20487,7 @@ namespace strtk
             return bit_table_;
          }
 
-         inline bool write_to_file(const std::string& file_name) const
+         inline virtual bool write_to_file(const std::string& file_name) const
          {
             if (0 == table_size_)
                return false;
@@ -20525,7 +20525,7 @@ namespace strtk
             return result;
          }
 
-         inline bool read_from_file(const std::string& file_name)
+         inline virtual bool read_from_file(const std::string& file_name)
          {
             std::ifstream istream(file_name.c_str(),std::ios::binary);
 
@@ -20781,14 +20781,46 @@ namespace strtk
             size_list.push_back(table_size_);
          }
 
+         compressible_filter(const compressible_filter& f)
+         : filter(f),
+           size_list(f.size_list)
+         {}
+
+         inline compressible_filter& operator = (const compressible_filter& f)
+         {
+            if (this != &f)
+            {
+               std::vector<unsigned long long int> sizes(f.size_list);
+               filter::operator=(f);
+               size_list.swap(sizes);
+            }
+            return *this;
+         }
+
+         inline virtual bool write_to_file(const std::string& file_name) const
+         {
+            // Note: The file format has no place for the sizes of a compressed table.
+            return (1 == size_list.size()) && filter::write_to_file(file_name);
+         }
+
+         inline virtual bool read_from_file(const std::string& file_name)
+         {
+            const bool result = filter::read_from_file(file_name);
+
+            if (result)
+               size_list.assign(1,table_size_);
+
+            return result;
+         }
+
          inline virtual unsigned long long int size() const
          {
-            return size_list.back();
+            return operator!() ? 0 : size_list.back();
          }
 
          inline bool compress(const double& percentage)
          {
-            if ((0.0 >= percentage) || (percentage >= 100.0))
+            if (operator!() || (0.0 >= percentage) || (percentage >= 100.0))
             {
                return false;
             }
@@ -20802,6 +20834,7 @@ namespace strtk
                return false;
             }
 
+            size_list.reserve(size_list.size() + 1);
             desired_false_positive_probability_ = effective_fpp();
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
@@ -20841,6 +20874,27 @@ namespace strtk
          std::vector<unsigned long long int> size_list;
       };
 
+      inline compressible_filter operator & (const compressible_filter& a, const compressible_filter& b)
+      {
+         compressible_filter result = a;
+         result &= b;
+         return result;
+      }
+
+      inline compressible_filter operator | (const compressible_filter& a, const compressible_filter& b)
+      {
+         compressible_filter result = a;
+         result |= b;
+         return result;
+      }
+
+      inline compressible_filter operator ^ (const compressible_filter& a, const compressible_filter& b)
+      {
+         compressible_filter result = a;
+         result ^= b;
+         return result;
+      }
+
    }
 
    namespace details
-- 
2.43.0


From 78d556fc79e43230d883712c3048a1e0791749a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 84/95] fix: trie leaked a node when its parent could not grow

---
 strtk.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3cd5696..259e2b1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19864,7 +19864,15 @@ namespace strtk
 
             inline void add_node(node_ptr n)
             {
-               node_list_.push_back(n);
+               try
+               {
+                  node_list_.push_back(n);
+               }
+               catch (...)
+               {
+                  delete n;
+                  throw;
+               }
             }
 
             inline bool value_holder() const
-- 
2.43.0


From 675a8b0cfea54f02f2b7484afbb92de5ccedfe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 85/95] fix: real parsing accepted garbage or nothing between
 an exponent and its type suffix

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 259e2b1..d2ae4f0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17583,11 +17583,11 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr++)]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #else
                #define strtk_process_digit \
-               if (strtk_likely((digit = (*itr++ - '0')) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = (*itr - '0')) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #endif
 
@@ -17789,7 +17789,7 @@ namespace strtk
 
                   if (!details::string_to_type_converter_impl_ref(++itr,end,exp,details::signed_type_tag()))
                   {
-                     if (end == itr)
+                     if ((end == itr) || (*(itr - 1) < '0') || (*(itr - 1) > '9'))
                         return false;
                      else
                         c = (*itr);
-- 
2.43.0


From 1ce47e443ccf09d44e9a25e7c52ecab82678ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 86/95] fix: uniform_real_rng ignored the number of values to
 discard

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index d2ae4f0..0ff7b44 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11956,7 +11956,7 @@ namespace strtk
       : rng_(static_cast<rng_type::result_type>(seed)),
         rnd_(rng_,boost::uniform_real<double>(0.0,1.0))
       {
-         while (pregen--) rng_();
+         while (pregen--) rnd_.engine()();
       }
 
       inline double operator()()
-- 
2.43.0


From e58b3e1129ac2c2079ee8aeaf54b63eef8495354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 87/95] fix: binary writer stored the length of an array as
 eight bytes

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0ff7b44..4cf0dc9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14411,7 +14411,7 @@ namespace strtk
          template <typename T, std::size_t N>
          inline bool operator()(const T (&data)[N], const bool write_length = false)
          {
-            if (write_length && !operator()(N))
+            if (write_length && !operator()(static_cast<uint32_t>(N)))
                return false;
 
             const std::size_t raw_size = N * sizeof(T);
-- 
2.43.0


From 219115ca07425e8c985024c8f661c7067429ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:46 +0000
Subject: [PATCH 88/95] fix: signed fast conversions and digit checks read past
 the end of empty ranges

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4cf0dc9..1ae6d2e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13592,7 +13592,7 @@ namespace strtk
       template <typename Iterator>
       inline bool signed_all_digits_check(const std::size_t& n, Iterator itr)
       {
-         if (('-' == (*itr)) || ('+' == (*itr)))
+         if ((0 != n) && (('-' == (*itr)) || ('+' == (*itr))))
             return all_digits_check(n - 1,(itr + 1));
          else
             return all_digits_check(n,itr);
@@ -13696,9 +13696,9 @@ namespace strtk
                                          T& t,
                                          const bool digit_check = false)
       {
-         const bool negative = ('-' == (*itr));
+         const bool negative = (end != itr) && ('-' == (*itr));
 
-         if (negative || ('+' == (*itr)))
+         if (negative || ((end != itr) && ('+' == (*itr))))
          {
             if (end == (++itr))
                return false;
-- 
2.43.0


From 0b18af45ba92d1971b63bf615bfc43e92b2a66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 89/95] fix: capacity checks of the binary reader and writer
 wrapped for huge sizes

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1ae6d2e..64f7be1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14245,7 +14245,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_read_qty)
          {
-            return ((required_read_qty + amount_read_sofar_) <= buffer_length_);
+            return (required_read_qty <= (buffer_length_ - amount_read_sofar_));
          }
 
          template <typename Type>
@@ -14616,7 +14616,7 @@ namespace strtk
                                 const padding_mode pmode,
                                 const char padding = ' ')
          {
-            if (amount_written_sofar_ + size <= buffer_length_)
+            if (buffer_capacity_ok(size))
             {
                std::string s;
                s.reserve(size);
@@ -14656,7 +14656,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_write_qty)
          {
-            return ((required_write_qty + amount_written_sofar_) <= buffer_length_);
+            return (required_write_qty <= (buffer_length_ - amount_written_sofar_));
          }
 
          template <typename Type>
-- 
2.43.0


From 5e8d25ee241be8ae14377df6ecc18c3b7f1e5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 90/95] fix: binary reader and writer truncated 64-bit array
 lengths

---
 strtk.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 64f7be1..2fdf423 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14004,7 +14004,11 @@ namespace strtk
          {
             uint32_t l = 0;
             if (!read_length)
+            {
                l = static_cast<uint32_t>(length);
+               if (l != length)
+                  return false;
+            }
             if (!operator()(data,l,read_length))
                return false;
             if (read_length)
@@ -14447,7 +14451,10 @@ namespace strtk
          template <typename T>
          inline bool operator()(const T* data, const uint64_t& length, const bool write_length = true)
          {
-            return operator()(data,static_cast<uint32_t>(length),write_length);
+            const uint32_t l = static_cast<uint32_t>(length);
+            if (l != length)
+               return false;
+            return operator()(data,l,write_length);
          }
 
          template <typename T>
-- 
2.43.0


From bdf381df976734666c2dd6f199a5abc6799ede3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 91/95] fix: bloom filter reported success for files it could
 not write

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2fdf423..da11379 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20537,7 +20537,7 @@ namespace strtk
                writer(ostream);
             }
             ostream.close();
-            return result;
+            return result && !ostream.fail();
          }
 
          inline virtual bool read_from_file(const std::string& file_name)
-- 
2.43.0


From ce8f118063663d025978a528104a5c798b3e5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 92/95] fix: token grid threw when asked to load a directory

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index da11379..b4af86c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7547,6 +7547,9 @@ namespace strtk
          if (!stream)
             return false;
 
+         if (std::ifstream::traits_type::eof() == stream.peek())
+            return false;
+
          stream.seekg (0,std::ios::end);
          buffer_size_ = static_cast<std::size_t>(stream.tellg());
 
-- 
2.43.0


From 70f42505c1ed2164dfb1dda40fc4ad59be7db54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 93/95] fix: file functions took directories for files of
 enormous size

---
 strtk.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b4af86c..7d47f9b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18543,6 +18543,17 @@ namespace strtk
    namespace fileio
    {
 
+      namespace details
+      {
+         inline bool readable(std::ifstream& stream)
+         {
+            stream.peek();
+            if (stream.bad()) return false;
+            stream.clear();
+            return true;
+         }
+      }
+
       inline bool file_exists(const std::string& file_name)
       {
          std::ifstream file(file_name.c_str(), std::ios::binary);
@@ -18552,7 +18563,7 @@ namespace strtk
       inline std::size_t file_size(const std::string& file_name)
       {
          std::ifstream file(file_name.c_str(),std::ios::binary);
-         if (!file) return 0;
+         if (!file || !details::readable(file)) return 0;
          file.seekg (0, std::ios::end);
          return static_cast<std::size_t>(file.tellg());
       }
@@ -18560,7 +18571,7 @@ namespace strtk
       inline bool load_file(const std::string& file_name, char* buffer, std::size_t buffer_size)
       {
          std::ifstream in_stream(file_name.c_str(),std::ios::binary);
-         if (!in_stream) return false;
+         if (!in_stream || !details::readable(in_stream)) return false;
          in_stream.read(buffer,static_cast<std::streamsize>(buffer_size));
          in_stream.close();
          return true;
@@ -18589,7 +18600,7 @@ namespace strtk
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
-         if (!src_file) return false;
+         if (!src_file || !details::readable(src_file)) return false;
          std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
@@ -18625,6 +18636,7 @@ namespace strtk
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
 
          if (!file1 || !file2) return false;
+         if (!details::readable(file1) || !details::readable(file2)) return false;
 
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
@@ -18665,8 +18677,8 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
-         if (!file1) return false;
-         if (!file2) return false;
+         if (!file1 || !details::readable(file1)) return false;
+         if (!file2 || !details::readable(file2)) return false;
          if (file_size(file_name1) != file_size(file_name2)) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
-- 
2.43.0


From b413a3797ad1348f97ce2da9f91445dc3dde43fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 94/95] fix: remove_duplicates_inplace left its argument
 unchanged

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7d47f9b..e88a23a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1453,7 +1453,8 @@ namespace strtk
 
    inline std::string remove_duplicates_inplace(std::string& str)
    {
-      return remove_duplicates(str);
+      str = remove_duplicates(str);
+      return str;
    }
 
    template <typename Iterator, typename Predicate>
-- 
2.43.0


From 06b2d561c7c839c331fff37f113329614676158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 95/95] fix: column selector kept a reference to a temporary
 column list

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index e88a23a..bb8ccee 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22378,7 +22378,7 @@ namespace strtk
             return cvl_;
          }
 
-         const column_list_t& column_list_;
+         const column_list_t column_list_;
          std::size_t current_index_;
          std::size_t target_index_;
          std::size_t col_list_index_;
-- 
2.43.0


From d0d82df26bfa3012c5ae8d6fc88ba516e55aaa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 001/187] fix: LinkedList::remove(T) stopped after removing the
 head and left later duplicates

---
 src/LightLinkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From a69944a9878c116c2d80632e98d92eb2d5ac6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 002/187] fix: LinkedList::insert() reported 1 instead of the
 position of the new element

---
 src/LightLinkedList.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index 55231c8..445ee4b 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -129,8 +129,7 @@ template <class T> int LinkedList<T>::insert(T d) {
   }
   current->next = nullptr;
   current->data = d;
-  element_count++;
-  return 1;
+  return element_count++;
 }
 
 
-- 
2.43.0


From 5d7281e08738fe3b19cdc1d9e9ba1635bcd918de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 003/187] fix: PriorityQueue::remove(T) stopped after removing
 the head and left later duplicates

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From 5132aab008e6d107d68dc43cea8e7050ea0c93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 004/187] fix: PriorityQueue::insertIfAbsent() reported the
 position of the predecessor

---
 src/PriorityQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index 89851a5..c723b13 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -220,6 +220,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
     else {
       nu->next = insert_pointer->next;
       insert_pointer->next = nu;
+      return_value++;   // The new node comes after the one that was found.
     }
     element_count++;
   }
-- 
2.43.0


From 36ad8ff5ffbd2e85fede0037c0764b0236456333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 005/187] fix: ElementPool::take() ignored the overdraw limit,
 and an unallocated pool

---
 src/ElementPool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..59d5242 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -193,8 +193,8 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 * @return a reference to the preallocated element.
 */
 template <class T> T* ElementPool<T>::take() {
-  T* ret = _list.get();
-  if (nullptr == ret) {
+  T* ret = (allocated() ? _list.get() : nullptr);
+  if ((nullptr == ret) && (_overdraws_outstanding() < _overdraw_limit)) {
     ret = new T();
     _overdraws++;
   }
-- 
2.43.0


From 211eb177c1aa5f5eb412fbf7ccec00a08e14233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 006/187] fix: TimeSeries3 tested the address of _stale_mean()
 instead of calling it

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..19696ef 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -952,7 +952,7 @@ template <class T> int8_t TimeSeries3<T>::_calculate_stdev() {
   if ((_window_size > 1) & windowFull()) {
     ret = 0;
     Vector3f64 deviation_sum;
-    if (_stale_mean) _calculate_mean();
+    if (_stale_mean()) _calculate_mean();
     for (uint32_t i = 0; i < _window_size; i++) {
       Vector3f64 temp{(double) samples[i].x, (double) samples[i].y, (double) samples[i].z};
       temp -= _mean;
-- 
2.43.0


From 320d554a3dd6d5ca1fd0eba437317cd4459e936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 007/187] fix: BusAdapter::purge_queued_work_by_dev() skipped
 the job following each purged one

---
 src/BusQueue/BusQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..ae88385 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -433,6 +433,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
         if ((nullptr != current) && (current->callback == cb_obj)) {
           ret++;
           work_queue.remove(current);
+          i--;   // The following job has moved into this position.
           current->abort(XferFault::QUEUE_FLUSH);
           if (current->callback) {
             current->callback->io_op_callback(current);
-- 
2.43.0


From 6ed8f86bcb30f9935b1c484c26a77df41cdcb357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 008/187] fix: StringBuilder::concatHandoffLimit() ignored a
 limit ending on the first byte of a fragment

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..bf496a6 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if ((nullptr != ll_with_byte) & (0 <= offset)) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
-- 
2.43.0


From 7d83cd07cb494d27448e2edaec71e775f5bff930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 009/187] fix: StringBuilder::concatHandoffLimit() lost the
 only whole fragment ahead of a split

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index bf496a6..9dc597c 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -726,7 +726,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From fb5f38cc857aa42ebdbc7fd84e7b669873a1fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 010/187] fix: StringBuilder read ahead of its content when
 given a negative offset

---
 src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 9dc597c..85999ba 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1535,7 +1535,10 @@ int StringBuilder::_total_str_len(StrLL* node) {
 StrLL* StringBuilder::_get_ll_containing_offset(StrLL* str_ll, int* offset) {
   StrLL* ret = nullptr;
   const int STACKED_OFFSET = *offset;
-  if (STACKED_OFFSET < str_ll->len) {    // If we weren't asked for an offset
+  if (STACKED_OFFSET < 0) {              // There is nothing ahead of the string.
+    *offset = -1;
+  }
+  else if (STACKED_OFFSET < str_ll->len) {  // If we weren't asked for an offset
     ret = str_ll;                        //   past the end our bounds, we're
   }                                      //   it. Otherwise, return nullptr.
   else if (nullptr != str_ll->next) {    // Can we go deeper?
-- 
2.43.0


From 5c0d21f4791b721089c28e644e524f40857136a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 011/187] fix: StringBuilder::locate() resumed a failed match
 from the wrong place in a fragmented string

---
 src/StringBuilder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 85999ba..b94f0d9 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1109,7 +1109,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
     StrLL* retrace_ll  = src_ll;
-    int retrace_offset = start_offset;
+    int retrace_offset = strll_offset;
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
         if (match_length == NEEDLE_LEN) {
@@ -1119,14 +1119,13 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
           retrace_ll  = src_ll;
-          retrace_offset = search_offset;
+          retrace_offset = strll_offset;
         }
       }
       else {
         if (match_length > 1) {
-          search_offset = retrace_offset;
-          strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          strll_offset  = retrace_offset;
+          src_ll        = retrace_ll;
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From 1449b794727ce3d4cefe5f80237928b95bb0e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 012/187] fix: StringBuilder::replace() missed a match
 overlapping a failed one

---
 src/StringBuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index b94f0d9..6d6691a 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1269,10 +1269,12 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {  // If we were into a search, resume it from
+          // the byte following the one that began the failed match.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From 57053af8a6e1f15218e0c706dde9f26aca29b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 013/187] fix: StringBuilder::implode() refused two single-byte
 tokens

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 6d6691a..676ec9c 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1332,7 +1332,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 1) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From 1c154d9843d8ac71893890b8cace4b8444f88e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 014/187] fix: StringBuilder::cull() overflowed its range check
 and read out of bounds

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 676ec9c..51e4ca2 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1021,7 +1021,7 @@ void StringBuilder::cull(int offset, int new_length) {
     clear();                //   the string, do that instead.
   }
   else if (offset >= 0) {                           // If the offset is positive...
-    if (CURRENT_LENGTH >= (offset + new_length)) {  // ...and the range exists...
+    if ((CURRENT_LENGTH - offset) >= new_length) {  // ...and the range exists...
       StrLL* culled_str_ll = _create_str_ll(new_length);
       if (nullptr != culled_str_ll) {
         // TODO: Prepend the collapsed string into the list, and eat fragments.
-- 
2.43.0


From 2188405359b4149e6a457f8531453634689c9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 015/187] fix: StringBuilder::position_as_uint64() kept 8
 digits of an over-long hex token, rather than 16

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 51e4ca2..12c9e73 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From f1ad53cad82e81e30073946615a007ff7edd1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 016/187] fix: StringBuilder::concat(double) overran its stack
 buffer for large values

---
 src/StringBuilder.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 12c9e73..f172cc2 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -894,10 +894,7 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
-  memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
-  concat(temp);
+  concatf("%f", nu);
 }
 
 
-- 
2.43.0


From 4655f5701b171f7637963e77870df22280b49686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 017/187] fix: StringBuilder::concatf() overran its stack
 buffer for long arguments

---
 src/StringBuilder.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index f172cc2..a789b1b 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -950,8 +950,23 @@ int StringBuilder::concatf(const char* format, va_list args) {
   char temp[est_len];
   memset(temp, 0, est_len);
   int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  va_list retry_args;
+  va_copy(retry_args, args);
+  ret = vsnprintf(temp, est_len, format, args);
+  if (ret >= est_len) {
+    // The estimate was too small. We now know what is required.
+    char* big_temp = (char*) malloc(ret + 1);
+    if (nullptr != big_temp) {
+      vsnprintf(big_temp, (ret + 1), format, retry_args);
+      concat(big_temp);
+      free(big_temp);
+    }
+    else {
+      ret = -1;
+    }
+  }
+  else if (ret > 0) concat((char *) temp);
+  va_end(retry_args);
   return ret;
 }
 
-- 
2.43.0


From 2fc79efd7a97165e51693baeded2acbb404849de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 018/187] fix: Base64Decoder left its input length
 uninitialised

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From cd8cfc8a8350faa11c33bd0151e85740c1766881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 019/187] fix: StringBuilder::concatLimit() copied nothing when
 given a limit over INT_MAX

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index a789b1b..58879c6 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -761,7 +761,7 @@ void StringBuilder::concatLimit(StringBuilder* donar, unsigned int len_limit) {
     pthread_mutex_lock(&donar->_mutex);
   #endif
   if ((0 < len_limit) && (nullptr != donar) && (!donar->isEmpty(true))) {
-    const int CONTENT_LEN = strict_min((int32_t) len_limit, (int32_t) donar->length());
+    const int CONTENT_LEN = (int) strict_min((uint32_t) len_limit, (uint32_t) donar->length());
     if (0 < CONTENT_LEN) {
       StrLL* frag = _create_str_ll(CONTENT_LEN, donar->_root, 0);
       if (nullptr != frag) {
-- 
2.43.0


From 31e66a844b79eaac806760b76062f44a1a201134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 020/187] fix: StringBuilder::replace() never matched bytes
 over 127

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 58879c6..ebe49d4 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1240,7 +1240,7 @@ int StringBuilder::replace(const char* needle, const char* replace) {
     //   needlessly, roll through its fragment list and compare as we go.
     // One byte per-loop is compared against the delimiter.
     while ((!allocation_failure) & (remaining_search_len-- > 0) & (nullptr != src_ll)) {
-      if (*(src_ll->str + intra_frag_idx++) == *(needle + search_hit_idx++)) {
+      if (*(src_ll->str + intra_frag_idx++) == (uint8_t) *(needle + search_hit_idx++)) {
         // Bytes match.
         if (NEEDLE_LEN == search_hit_idx) {  // If it is the conclusion of a match...
           // Create a copy of the string up-to the first byte of the needle...
-- 
2.43.0


From adca8a3ae70301afb04cc5717e43a70d1c7dcd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 021/187] fix: StringBuilder::strcasestr() never matched a
 needle starting with a byte over 127

---
 src/StringBuilder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index ebe49d4..597377f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -66,13 +66,13 @@ char* StringBuilder::strcasestr(const char* haystack, const char* needle) {
       there_is_still_hope = false;
 
       // Scan the haystack until the first character of the needle is found.
-      const char NEEDLE_FIRST_CHAR = toupper(*N_ptr);
-      while ((*H_ptr) && (toupper(*H_ptr) != NEEDLE_FIRST_CHAR)) {  H_ptr++;   }
+      const int NEEDLE_FIRST_CHAR = toupper((uint8_t) *N_ptr);
+      while ((*H_ptr) && (toupper((uint8_t) *H_ptr) != NEEDLE_FIRST_CHAR)) {  H_ptr++;   }
 
       if (0 != *H_ptr) {
         // Nominal case. Character match. Continue iteration on N_ptr.
         int hs_idx = 0;
-        while ((*(H_ptr + hs_idx) && *N_ptr) && (toupper(*(H_ptr + hs_idx)) == toupper(*N_ptr))) {
+        while ((*(H_ptr + hs_idx) && *N_ptr) && (toupper((uint8_t) *(H_ptr + hs_idx)) == toupper((uint8_t) *N_ptr))) {
           N_ptr++;
           hs_idx++;
         }
-- 
2.43.0


From 72a3a99339c8b373150d55c35ce287ff1ffe2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 022/187] fix: stringToTimestamp() was a day early in every
 year following a leap year that is not itself one

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..7457b12 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by prior leap-years.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From b1b695ebd2576703e08519f56dbd6887b3189996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 023/187] fix: randomArt() cut a line short where a cell was
 visited 17 times

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 7457b12..3628988 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -196,7 +196,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   line_buf[20] = '\0';
   for (uint8_t i = 0; i < YLIM; i++) {
     for (uint8_t j = 0; j < XLIM; j++) {
-      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 18);
+      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 17);
     }
     temp.concatf(line_buf);
   }
-- 
2.43.0


From a16f6cac82cc0b84f227f6ff9ac4cf67fd6d453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 024/187] fix: StopWatch never initialised its start mark

---
 src/TimerTools/StopWatch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..4adfd09 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -34,6 +34,7 @@ StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
 
 
 void StopWatch::reset() {
+  _start_micros     = 0;
   _run_time_last    = 0;
   _run_time_best    = 0xFFFFFFFF;   // Need __something__ to compare against...
   _run_time_worst   = 0;
-- 
2.43.0


From 7e89d455f7873da311754b92d171a92c0d78c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 025/187] fix: PeriodicTimeout::remaining() wrapped if the
 period elapsed while it ran

---
 src/TimerTools/TimerTools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..d7a5818 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -81,7 +81,10 @@ class PeriodicTimeout {
     inline bool enabled() {                return (0 < _period);            };
     inline unsigned long period() {        return _period;                  };
     inline unsigned long remaining() {
-      return (expired() ? 0 : _until(_mark + _period));
+      // NOTE: The clock is only read once. If it were to pass the period between
+      //   two readings, the remainder would wrap.
+      const unsigned long ELAPSED = _since(_mark);
+      return ((_period <= ELAPSED) ? 0 : (_period - ELAPSED));
     };
     inline bool     expired() {
       return ((0 == _period) || (_period <= _since(_mark)));
-- 
2.43.0


From 8259ad0d026b581bb7f83212b5b57577c1725a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 026/187] fix: C3PLogger took a partial claim by its sink for a
 full one, and lost the remainder

---
 src/AbstractPlatform.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index d4494d2..f6f1d08 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -482,13 +482,14 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
 void C3PLogger::_store_or_forward(StringBuilder* log_line) {
   bool store_to_buffer = true;
   if (nullptr != _sink) {
-    bool backlog_remaining = !_log.isEmpty();
-    if (backlog_remaining) {
-      backlog_remaining = (0 != _sink->pushBuffer(&_log));
+    if (!_log.isEmpty()) {
+      _sink->pushBuffer(&_log);
     }
-    if (!backlog_remaining && (0 == _sink->pushBuffer(log_line))) {
-      // NOTE: Short-circuit evaluation above is important for ordering.
-      store_to_buffer = false;
+    if (_log.isEmpty()) {
+      // NOTE: Only push the new line if there is no backlog to be ahead of it.
+      //   Whatever the sink doesn't claim will remain in the line.
+      _sink->pushBuffer(log_line);
+      store_to_buffer = !log_line->isEmpty();
     }
   }
   if (store_to_buffer) {
-- 
2.43.0


From d3694f1b8fa567563592d7864b53916039a35979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 027/187] fix: C3PType INT64 set_from() accepted UINT64 values
 above INT64_MAX as negatives

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..9d1eedd 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -893,7 +893,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT64:
       {
         int64_t s = _load_from_mem(src);
-        if (s <= INT64_MAX) {
+        if (s >= 0) {   // The top bit being set means the value was >INT64_MAX.
           d = s;
           ret = 0;
         }
-- 
2.43.0


From 3f23a9bf4be894b987062c818529396432e1e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 028/187] fix: C3PType UINT32 set_from() accepted negative
 INT64 values

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 9d1eedd..6aa817d 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1299,7 +1299,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From 46379e5a89c435af3704e8237bd1f12b3d1b70ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 029/187] fix: C3PType UINT8 set_from() read four bytes from a
 two byte source

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 6aa817d..879c8ed 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From 9111b4e91ead28985b053f441229e5b5f3e1c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 030/187] fix: C3PValue(double) stored the integer part of its
 argument as a bit pattern on 64-bit builds

---
 src/C3PValue/C3PValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..d7a67e0 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -126,7 +126,7 @@ class C3PValue {
     #if (64 == __BUILD_ALU_WIDTH)
       C3PValue(uint64_t val) : C3PValue(TCode::UINT64,   (void*)(uintptr_t) val) {};
       C3PValue(int64_t  val) : C3PValue(TCode::INT64,    (void*)(uintptr_t) val) {};
-      C3PValue(double   val) : C3PValue(TCode::DOUBLE,   (void*)(uintptr_t) val) {};
+      C3PValue(double   val) : C3PValue(TCode::DOUBLE,   nullptr) {  set(val);  };
     #else
       // Values like these will be passed on the stack, by value.
       C3PValue(uint64_t val) : C3PValue(TCode::UINT64,   (void*) &val) {};
-- 
2.43.0


From 370789ce150b252653c7692a52cfca37956a75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 031/187] fix: C3PValue::get_as_bool() considered storage bytes
 that are not part of the value

---
 src/C3PValue/C3PValue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..1b872bc 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -458,8 +458,12 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
+  bool ret = false;
+  if (0 != get_as(TCode::BOOLEAN, (void*) &ret)) {
+    ret = (nullptr != _target_mem);   // Not coercible. Is there any value at all?
+  }
   if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  return ret;
 }
 
 
-- 
2.43.0


From 83741c1c29665e9bd649484785248c34e680fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 032/187] fix: C3PType get_as() from FLOAT and DOUBLE lacked
 the BOOLEAN conversion that conversionRisk() declares safe

---
 src/C3PValue/C3PType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 879c8ed..6654f74 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1693,6 +1693,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
   // To avoid inducing bugs related to alignment, we copy the value byte-wise
   //   into our on-stack storage, where it's alignment can be controlled.
   switch (DEST_TYPE) {
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));   return 0;
     case TCode::FLOAT:      memcpy(dest, src, FIXED_LEN);  return 0;
     case TCode::DOUBLE:
       {
@@ -1789,6 +1790,7 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
 
 template <> int8_t      C3PTypeConstraint<double>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));   return 0;
     case TCode::DOUBLE:     memcpy(dest, src, FIXED_LEN);   return 0;
     default:  break;
   }
-- 
2.43.0


From d7fde265e69edfb4148ced803c4b103422a712ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 033/187] fix: C3PValue::set(char*) stored a pointer to its own
 argument

---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index d7a67e0..442eaeb 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);  };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);  };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From 9f77359e932c996b729a35566d730cdee5772268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 034/187] fix: C3PType for STR_BUILDER treated the head of the
 StringBuilder as a pointer to one

---
 src/C3PValue/C3PType.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 6654f74..3e901b5 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2479,11 +2479,7 @@ template <> uint32_t    C3PTypeConstraint<StringBuilder*>::length(void* obj) {
 
 template <> void        C3PTypeConstraint<StringBuilder*>::to_string(void* obj, StringBuilder* out) {
   if (nullptr != obj) {
-    StringBuilder* o = nullptr;
-    memcpy((void*) &o, obj, sizeof(StringBuilder*));
-    if (nullptr != o) {
-      out->concat(o);
-    }
+    out->concat((StringBuilder*) obj);
   }
 }
 
@@ -2494,10 +2490,8 @@ template <> int8_t      C3PTypeConstraint<StringBuilder*>::set_from(void* dest,
     switch (SRC_TYPE) {
       //case TCode::STR:     d = *((char**) src);    return 0;
       case TCode::STR_BUILDER:
-        if (nullptr != dest) {
-          memcpy(dest, src, sizeof(StringBuilder*));
-          ret = 0;
-        }
+        *((StringBuilder**) dest) = (StringBuilder*) src;
+        ret = 0;
         break;
       default:  break;
     }
@@ -2543,12 +2537,11 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
       break;
 
     case TCode::CBOR:
-      {
+      if (nullptr != obj) {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        StringBuilder* o = nullptr;
-        memcpy((void*) &o, obj, sizeof(StringBuilder*));
-        encoder.write_string((char*) o->string());
+        StringBuilder* o = (StringBuilder*) obj;
+        encoder.write_string((char*) o->string(), o->length());
         ret = 0;   // TODO: Safe SB API.
       }
       break;
-- 
2.43.0


From 0588b059fbed9d6fcce6193e8b72c4c049b858b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 035/187] fix: C3PValue pointer-length accessors dereferenced
 values of other types

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 1b872bc..062fd1d 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -382,7 +382,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
   int8_t ret = -1;
   if ((nullptr != v) & (nullptr != l)) {
     ret--;
-    if (nullptr != _target_mem) {
+    if (is_ptr_len() && (nullptr != _target_mem)) {
       *v = ((C3PBinBinder*) _target_mem)->buf;
       *l = ((C3PBinBinder*) _target_mem)->len;
       ret = 0;
@@ -394,7 +394,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 // TODO: Audit. Might be wrong-headed.
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
-  if (nullptr != _target_mem) {
+  if (is_ptr_len() && (nullptr != _target_mem)) {
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
     _set_trace++;
-- 
2.43.0


From 70b833b11142f2efbc2ea2ee199d9f809b24acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 036/187] fix: C3PValue left the pointer and length of an unset
 BINARY value uninitialized

---
 src/C3PValue/C3PValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 062fd1d..c7e99a3 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -163,6 +163,8 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       //   single reference. That shim will be heap allocated.
       _target_mem = malloc(sizeof(C3PBinBinder));
       if (nullptr != _target_mem) {
+        ((C3PBinBinder*) _target_mem)->buf = nullptr;
+        ((C3PBinBinder*) _target_mem)->len = 0;
         //((C3PBinBinder*) _target_mem)->tcode = TC;
         _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
         // TODO: Is this the correct choice? We know that we are responsible for
-- 
2.43.0


From 5b7894b110d3c53d6820fe0694ba33202ba76f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 037/187] fix: C3PValue::drop() forgot its destruct argument
 beyond the first element

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index c7e99a3..ad6f84f 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -615,7 +615,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From 93846a5be0577eb0797013fa3ec3edd52b0878ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 038/187] fix: KeyValuePair printing dereferenced the value of
 the wrong list element for nested KVPs

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1891d2c..c30dba1 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -360,7 +360,7 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
         {
           // If the value is a KVP, recurse with a deeper indentation to
           //   render it.
-          KeyValuePair* tmp = (KeyValuePair*) _type_pun_get();
+          KeyValuePair* tmp = (KeyValuePair*) src->_type_pun_get();
           if (nullptr != tmp) {
             out->concat("{\n");
             tmp->_encode_to_printable(out, (LEVEL+1));
-- 
2.43.0


From 50a2af70a558c099eeba7fef01a02090d06781a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 039/187] fix: cbor encoder dropped the low byte of 64-bit
 integers between 256 and 65535

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..dbfbc71 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From bc4744e4483c62f1245e79c364843b983f1f6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 040/187] fix: cbor input_stringbuilder::get_short() swapped
 its bytes

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index dbfbc71..624f98b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 0ddc1bdd58061344f6dab41c39d0a60f8e95fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 041/187] fix: cbor decoder reported wrong values for negative
 integers at and beyond the width of their argument

---
 src/cbor-cpp/cbor.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 624f98b..ddcfe2c 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -677,24 +677,24 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
-            if (diff < 128u) {
-              _listener->on_integer((int8_t) -(diff));
+            const int32_t diff = -1 - (int32_t) _in->get_byte();
+            if (diff >= INT8_MIN) {
+              _listener->on_integer((int8_t) diff);
             }
             else {
-              _listener->on_integer((int16_t) -(diff));
+              _listener->on_integer((int16_t) diff);
             }
           }
           _state = STATE_TYPE;
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
-            if (diff < 32768u) {
-              _listener->on_integer((int16_t) -(diff));
+            const int32_t diff = -1 - (int32_t) _in->get_short();
+            if (diff >= INT16_MIN) {
+              _listener->on_integer((int16_t) diff);
             }
             else {
-              _listener->on_integer((int32_t) -(diff));
+              _listener->on_integer((int32_t) diff);
             }
           }
           _state = STATE_TYPE;
@@ -703,15 +703,22 @@ void decoder::run() {
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
             _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
           } else {
-            _listener->on_extra_integer(temp, -1);
+            _listener->on_integer((int64_t) (-1 - (int64_t) temp));
           }
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t long_temp = _in->get_long();
+            if (long_temp <= (uint64_t) INT64_MAX) {
+              _listener->on_integer((int64_t) (-1 - (int64_t) long_temp));
+            }
+            else {  // Too negative to be represented.
+              _listener->on_extra_integer(long_temp, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From 94ec096919c66e83ce54694e9554eae605e1a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 042/187] fix: cbor decoder sized a stack buffer with lengths
 above INT32_MAX

---
 src/cbor-cpp/cbor.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index ddcfe2c..4a1a82d 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -744,8 +744,12 @@ void decoder::run() {
         }
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
-      if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+      if (_currentLength < 0) {
+        _state = STATE_ERROR;
+        _listener->on_error("extra long bytes");
+      }
+      else if(_in->has_bytes(_currentLength)) {
+        uint8_t data[_currentLength + 1];
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
@@ -772,7 +776,11 @@ void decoder::run() {
         }
       } else break;
     } else if(_state == STATE_STRING_DATA) {
-      if(_in->has_bytes(_currentLength)) {
+      if (_currentLength < 0) {
+        _state = STATE_ERROR;
+        _listener->on_error("extra long string");
+      }
+      else if(_in->has_bytes(_currentLength)) {
         uint8_t data[_currentLength + 1];
         _in->get_bytes(data, _currentLength);
         data[_currentLength] = '\0';
-- 
2.43.0


From ff82b151d4333f1a94f8a947d8fbaf2458c13c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 043/187] fix: cbor output_static released its buffer with the
 wrong deallocator and refused to write nothing

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 4a1a82d..87b304c 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
@@ -225,7 +225,7 @@ int8_t output_static::put_byte(uint8_t value) {
 }
 
 int8_t output_static::put_bytes(const uint8_t* data, int size) {
-  if (_offset + size - 1 < _capacity) {
+  if ((size >= 0) && ((uint32_t) size <= (_capacity - _offset))) {
     memcpy(_buffer + _offset, data, size);
     _offset += size;
     return 0;
-- 
2.43.0


From 278a4df167a03e3d6626f345e414196e748ef586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 044/187] fix: CBORArgListener kept pointers to the decoder's
 buffers, and leaked keys

---
 src/C3PValue/KeyValuePair.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index c30dba1..2a2a2b9 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -419,13 +419,11 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);
+      nu->setKey(_wait);   // This is a deep copy.
+      free(_wait);
       _wait = nullptr;
     }
   }
-  else {
-    nu->set(_wait);
-  }
 
   if (0 < _wait_array) _wait_array--;
 
@@ -478,7 +476,14 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     _pending_c3p_tag = TCode::NONE;
   }
   else {
-    _caaa(new KeyValuePair(data, size));
+    // The buffer we were passed belongs to the decoder.
+    uint8_t* temp = (uint8_t*) malloc(size + 1);
+    if (nullptr != temp) {
+      memcpy(temp, data, size);
+      KeyValuePair* nu_kvp = new KeyValuePair(temp, (uint32_t) size);
+      nu_kvp->reapValue(true);
+      _caaa(nu_kvp);
+    }
   }
 };
 
-- 
2.43.0


From 71724cbc994160f4778b87e45411d28ec0afbf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 045/187] fix: C3PValueDecoder read zeros past the end of its
 input to complete truncated arrays

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index ad6f84f..c89a0aa 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -823,7 +823,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > 0) {
+  if (INPUT_LEN > local_offset) {
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
-- 
2.43.0


From d0dcfb11869ab83093778452077dab18d9e94013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 046/187] fix: C3PValueDecoder wrapped its bounds checks on
 large lengths, and rejected empty strings

---
 src/C3PValue/C3PValue.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index c89a0aa..092d703 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -767,7 +767,7 @@ bool C3PValueDecoder::_get_length_field(uint32_t* offset_ptr, uint64_t* val_ret,
   uint64_t value = 0;
   uint32_t offset = *offset_ptr;
   uint8_t buf[8] = {0, 0, 0, 0, 0, 0, 0, 0};
-  uint8_t len_len = (1 << (minorType - 24));
+  uint8_t len_len = ((minorType < 28) ? (1 << (minorType - 24)) : 0);   // Anything greater is reserved.
   switch (len_len) {
     case 1:
     case 2:
@@ -852,7 +852,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = ((_length_extra > 0) & (INPUT_LEN >= (local_offset + _length_extra32)));
+    const bool HAVE_EXTRA_LEN = ((MINORTYPE < 28) & ((INPUT_LEN - local_offset) >= _length_extra));
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -902,7 +902,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
       case 2:  // Raw bytes
         if (HAVE_EXTRA_LEN) {
-          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32);
+          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32 + 1);  // Might be a zero-length value.
           if (nullptr != new_buf) {
             if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
               value = new C3PValue(new_buf, _length_extra32);
@@ -937,7 +937,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if (INPUT_LEN >= (local_offset + (_length_extra32 * 2))) {
+        if ((INPUT_LEN - local_offset) >= (_length_extra * 2)) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
@@ -1048,7 +1048,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
-        if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
+        if ((INPUT_LEN > local_offset) && (len_key64 < (INPUT_LEN - local_offset))) {  // Must leave at least one value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
           if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
-- 
2.43.0


From d4668f140d5a39b50f4bf3dafb1f2f7f84e8953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 047/187] fix: C3PValueDecoder decoded negative integers below
 INT64_MIN as positive

---
 src/C3PValue/C3PValue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 092d703..373cda0 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -889,7 +889,10 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
             else {                                 value = new C3PValue((int64_t) -(_length_extra+1));  }
             break;
           case 27:
-            value = new C3PValue((int64_t) -(_length_extra+1));
+            if (_length_extra <= (uint64_t) INT64_MAX) {
+              value = new C3PValue((int64_t) -(_length_extra+1));
+            }
+            else c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "NINT value is too large to represent");
             break;
           default:
             if (MINORTYPE < 24) {
-- 
2.43.0


From e6432c9fa02beb4c3ed225a806eb3f0c17042ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 048/187] fix: C3PValueDecoder leaked BINARY values found in
 maps

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 373cda0..3063bb3 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1082,6 +1082,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                   if (tmp_kvp) {
                     const int8_t SET_RET = tmp_kvp->set(value);
                     if (0 == SET_RET) {
+                      tmp_kvp->reapValue(value->reapValue());
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
-- 
2.43.0


From d890cfb63864992e975d2bd21c095106eccca63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 049/187] fix: C3PValueDecoder returned tagged values that
 referred to memory it had released

---
 src/C3PValue/C3PValue.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 3063bb3..048bb14 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1187,8 +1187,16 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         //c3p_log(LOG_LEV_DEBUG, LOCAL_LOG_TAG, &tmp_sb);
         ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
         if (nullptr != ret) {
-          // TODO: Hopefully C3PValue knows what to do with this?
-          ret->set(inner_tagged_val);
+          if (0 != ret->set(inner_tagged_val)) {
+            // The inner value is not something this type can be made from.
+            delete ret;
+            ret = nullptr;
+          }
+          else if (t_helper->is_ptr()) {
+            // The reference was copied, and its ownership must follow it.
+            ret->reapValue(inner_tagged_val->reapValue());
+            inner_tagged_val->reapValue(false);
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From 9a526322bf259c3cd1d1b77078c7d0dfdbcc1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 050/187] fix: C3PType vectors read past the end of BINARY
 sources that were too short

---
 src/C3PValue/C3PType.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 3e901b5..ffcd69f 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1847,7 +1847,10 @@ template <> int8_t      C3PTypeConstraint<Vector3f64>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -1913,7 +1916,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -1979,7 +1985,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2050,7 +2059,10 @@ template <> int8_t      C3PTypeConstraint<Vector3f>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2134,7 +2146,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2200,7 +2215,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2266,7 +2284,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2332,7 +2353,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));
+        return 0;
       default:  break;
     }
   }
-- 
2.43.0


From b207e6dff50b1b0a7cd547910d58c31bbd3b8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 051/187] fix: C3PType serialized the pointer-length shim of
 BINARY values, and memory beyond it, rather than the content

---
 src/C3PValue/C3PType.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index ffcd69f..1af231c 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2632,6 +2632,25 @@ template <> int8_t      C3PTypeConstraint<C3PBinBinder>::get_as(void* src, const
   return -1;
 }
 
+template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
+  int8_t ret = -1;
+  if (nullptr != obj) {
+    C3PBinBinder* o = (C3PBinBinder*) obj;
+    switch (FORMAT) {
+      case TCode::CBOR:
+        if ((nullptr != o->buf) | (0 == o->len)) {
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          encoder.write_bytes(o->buf, o->len);
+          ret = 0;   // TODO: Safe SB API.
+        }
+        break;
+      default:  break;
+    }
+  }
+  return ret;
+}
+
 
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 39f5cc686a8438dbfdc686c067ca21321a386dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 052/187] fix: KeyValuePair::serialize() wrote keys without
 values when a value could not be serialized

---
 src/C3PValue/KeyValuePair.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 2a2a2b9..4ddd0d4 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -270,9 +270,14 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           if (nullptr != t_helper) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
-              local_encoder.write_string(tmp_key);
-              ret = t_helper->serialize(src->_type_pun_get(), &local_output, FORMAT);
-              kvp_count++;
+              StringBuilder tmp_val;
+              ret = t_helper->serialize(src->_type_pun_get(), &tmp_val, FORMAT);
+              if (0 == ret) {
+                // A key that has no value would corrupt the rest of the map.
+                local_encoder.write_string(tmp_key);
+                local_output.concatHandoff(&tmp_val);
+                kvp_count++;
+              }
             }
             else {
               // Peacefully ignore KVPs without keys.
-- 
2.43.0


From 55e1c79372f91c7ec428bed78610fc2fb72d38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 053/187] fix: C3PType printed only the low 32 bits of 64-bit
 integers where long is 32 bits wide

---
 src/C3PValue/C3PType.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 1af231c..72c5c42 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -334,6 +334,22 @@ C3PType* getTypeHelper(const TCode TC) {
 }
 
 
+/**
+* Print a 64-bit integer in decimal without relying on the width of the types
+*   that printf() supports.
+*/
+static void _print_uint64(StringBuilder* out, uint64_t val) {
+  char buf[21];
+  uint8_t idx = 20;
+  buf[idx] = '\0';
+  do {
+    buf[--idx] = (char) ('0' + (val % 10));
+    val = val / 10;
+  } while (0 < val);
+  out->concat((const char*) (buf + idx));
+}
+
+
 /*******************************************************************************
 * C3PTypeConstraint
 *******************************************************************************/
@@ -853,7 +869,8 @@ template <> int         C3PTypeConstraint<int32_t>::deserialize(void* obj, Strin
 ///
 template <> void        C3PTypeConstraint<int64_t>::to_string(void* obj, StringBuilder* out) {
   int64_t yuck = _load_from_mem(obj);
-  out->concatf("%ld", yuck);
+  if (yuck < 0) {  out->concat("-");  }
+  _print_uint64(out, ((yuck < 0) ? (0 - (uint64_t) yuck) : (uint64_t) yuck));
 }
 
 template <> int8_t C3PTypeConstraint<int64_t>::representable_by(const TCode DEST_TYPE) {
@@ -1399,7 +1416,7 @@ template <> int         C3PTypeConstraint<uint32_t>::deserialize(void* obj, Stri
 ///
 template <> void        C3PTypeConstraint<uint64_t>::to_string(void* obj, StringBuilder* out) {
   uint64_t yuck = _load_from_mem(obj);
-  out->concatf("%lu", yuck);
+  _print_uint64(out, yuck);
 }
 
 template <> int8_t C3PTypeConstraint<uint64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From 3ac0f1932131474f7f281b039a32e38d847a3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 054/187] fix: C3PValue::set_from() overwrote the shim pointer
 of BINARY values, and memory past it, rather than the shim

---
 src/C3PValue/C3PValue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 048bb14..bba4ed4 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -340,6 +340,10 @@ void* C3PValue::_type_pun_set() {
     //   into a separate allocation. Return that pointer.
     return _target_mem;
   }
+  else if (is_ptr_len()) {
+    // Pointer-length types are written into their heap-allocated shim.
+    return _target_mem;
+  }
   else {
     return &_target_mem;
   }
-- 
2.43.0


From 249ae3d8994dac2904c8ea15c65f2933e791837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:01 +0000
Subject: [PATCH 055/187] fix: CBOR decoder dropped a trailing empty string if
 the input container was consumed

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 87b304c..f5f2011 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -51,7 +51,7 @@ bool input_stringbuilder::has_bytes(int count) {
   if (nullptr != _str_bldr) {
     return ((_str_bldr->length() - (_consume_input ? 0 : _offset)) >= count);
   }
-  return false;
+  return (count <= 0);  // An exhausted input still satisfies an empty string.
 }
 
 
-- 
2.43.0


From 71af9159264e64d8d6d97e95c966748ec2994074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 056/187] fix: C3PValueDecoder truncated 64-bit counts and tags
 to 32 bits

---
 src/C3PValue/C3PValue.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index bba4ed4..bcfc9d5 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -939,17 +939,23 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
 
-      case 4:  value = _handle_array(&local_offset, _length_extra32);  break;
+      case 4:
+        // Every element takes at least one byte. This also refuses any counts
+        //   that would not fit into 32-bits.
+        if ((INPUT_LEN - local_offset) >= _length_extra) {
+          value = _handle_array(&local_offset, _length_extra32);
+        }
+        break;
       case 5:
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if ((INPUT_LEN - local_offset) >= (_length_extra * 2)) {
+        if (((INPUT_LEN - local_offset) / 2) >= _length_extra) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
       case 6:
-        if (C3P_CBOR_VENDOR_CODE == (_length_extra32 & 0xFFFFFF00)) {
+        if (C3P_CBOR_VENDOR_CODE == (_length_extra & ~((uint64_t) 0xFF))) {
           // We noticed our vendor code, mask it off and see if see have a type
           //   helper for it.
           const TCode TC = IntToTcode(_length_extra32 & 0x000000FF);
-- 
2.43.0


From 7596ff78601f3ff3637b4f3885d1c90dbd8a65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 057/187] fix: CBORArgListener leaked the vectors it inflated

---
 src/C3PValue/KeyValuePair.cpp | 40 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 4ddd0d4..0539895 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -572,28 +572,52 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     //case TCode::VECT_2_INT32:
     //case TCode::VECT_2_UINT32:
     case TCode::VECT_3_FLOAT:
-      ret = new KeyValuePair(new Vector3<float>(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8))));
+      {
+        Vector3<float> tmp_vec(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_DOUBLE:
-      ret = new KeyValuePair(new Vector3<double>(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16))));
+      {
+        Vector3<double> tmp_vec(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_INT8:
-      ret = new KeyValuePair(new Vector3<int8_t>(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2))));
+      {
+        Vector3<int8_t> tmp_vec(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_UINT8:
-      ret = new KeyValuePair(new Vector3<uint8_t>(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2))));
+      {
+        Vector3<uint8_t> tmp_vec(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_INT16:
-      ret = new KeyValuePair(new Vector3<int16_t>(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4))));
+      {
+        Vector3<int16_t> tmp_vec(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_UINT16:
-      ret = new KeyValuePair(new Vector3<uint16_t>(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4))));
+      {
+        Vector3<uint16_t> tmp_vec(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_INT32:
-      ret = new KeyValuePair(new Vector3<int32_t>(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8))));
+      {
+        Vector3<int32_t> tmp_vec(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     case TCode::VECT_3_UINT32:
-      ret = new KeyValuePair(new Vector3<uint32_t>(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8))));
+      {
+        Vector3<uint32_t> tmp_vec(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8)));
+        ret = new KeyValuePair(&tmp_vec);   // The value is copied.
+      }
       break;
     //case TCode::VECT_4_FLOAT:
     //case TCode::URL:
-- 
2.43.0


From b772c8e222e2811be54bde334c157c66f898e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 058/187] fix: Image::setPixel() wrote outside of the buffer
 for pixels beyond the bounds of the image

---
 src/Image/Image.cpp | 17 +++++++++--------
 src/Image/Image.h   |  3 +++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..5e7a52e 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -898,11 +898,10 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
-  uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_pixel_exists(x, y)) {
+    uint32_t offset = _pixel_offset(x, y);
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1042,6 +1041,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_pixel_exists(x, y)) {
+    return false;  // Addressed pixel is out-of-bounds
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1069,9 +1071,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1080,9 +1082,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
-  uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_pixel_exists(x, y)) {
+    uint32_t offset = _pixel_offset(x, y);
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..fd8253b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -324,6 +324,9 @@ class Image {
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
+    /* True if there is memory behind the given pixel. */
+    inline bool _pixel_exists(PixUInt x, PixUInt y) {   return ((nullptr != _buffer) && (x < _x) && (y < _y));   };
+
     /* Returns the byte offset in the buffer that holds the pixel. */
     inline uint32_t _pixel_offset(PixUInt x, PixUInt y) {    return ((_pixel_number(x, y) * _bits_per_pixel()) >> 3);  };
 
-- 
2.43.0


From efe3986cb6e7203e47c00de09edac27c60dddff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 059/187] fix: Image::setPixel() wrote 24-bit pixels at the
 wrong place, past the end of the buffer

---
 src/Image/Image.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.h b/src/Image/Image.h
index fd8253b..01f037b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -311,8 +311,10 @@ class Image {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* pix = (_buffer + (_pixel_number(x, y) * 3));
+      *(pix + 0) = (uint8_t) (c >> 16);
+      *(pix + 1) = (uint8_t) (c >> 8);
+      *(pix + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
       *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
-- 
2.43.0


From bae97b8e9d0750385e44f1bfb9b79ce995da7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 060/187] fix: Image::setPixel() stored 16-bit pixels in the
 byte order opposite to that of getPixel()

---
 src/Image/Image.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.h b/src/Image/Image.h
index 01f037b..ca8393f 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -317,7 +317,9 @@ class Image {
       *(pix + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
+      uint8_t* pix = (_buffer + (_pixel_number(x, y) << 1));
+      *(pix + 0) = (uint8_t) (c >> 8);
+      *(pix + 1) = (uint8_t) c;
     };
     inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
-- 
2.43.0


From f8316d8d46851d8e791b863f79c3f56634e1e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 061/187] fix: Image accessed memory outside of monochrome
 buffers with heights that are not a multiple of 8

---
 src/Image/Image.cpp | 18 +++++++++---------
 src/Image/Image.h   |  3 +++
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 5e7a52e..bf2d8bf 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -926,9 +926,9 @@ uint32_t Image::getPixel(PixUInt x, PixUInt y) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const uint32_t term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t bit_num = _monochrome_bit(x, y);
+          const uint8_t bit_mask = 1 << (bit_num & 0x07);
+          offset = (bit_num >> 3);
           uint8_t byte_group = *(_buffer + offset);
           // Full saturation on boolean pixel value.
           ret = (byte_group & bit_mask) ? 0xFFFFFFFF : 0;
@@ -1062,9 +1062,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
       {
-        const PixUInt term0 = (_y >> 3);
-        const uint32_t offset = x * term0 + (term0 - (y >> 3) - 1);
-        const uint8_t bit_mask = 1 << (7 - (y & 0x07));
+        const uint32_t bit_num = _monochrome_bit(x, y);
+        const uint32_t offset  = (bit_num >> 3);
+        const uint8_t bit_mask = 1 << (bit_num & 0x07);
         uint8_t byte_group = *(_buffer + offset);
         *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == c) ? 0 : bit_mask);
       }
@@ -1102,9 +1102,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const PixUInt term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t bit_num = _monochrome_bit(x, y);
+          const uint8_t bit_mask = 1 << (bit_num & 0x07);
+          offset = (bit_num >> 3);
           uint8_t byte_group = *(_buffer + offset);
           *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == ((uint16_t) r + g + b)) ? 0 : bit_mask);
         }
diff --git a/src/Image/Image.h b/src/Image/Image.h
index ca8393f..9cb782c 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -328,6 +328,9 @@ class Image {
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
+    /* Monochrome buffers are packed by column, with the bottom pixel first. */
+    inline uint32_t _monochrome_bit(uint32_t x, uint32_t y) {   return ((x * _y) + (_y - 1 - y));    };
+
     /* True if there is memory behind the given pixel. */
     inline bool _pixel_exists(PixUInt x, PixUInt y) {   return ((nullptr != _buffer) && (x < _x) && (y < _y));   };
 
-- 
2.43.0


From f48cce88bd8506bbec7e3abbfda96a5696f0e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 062/187] fix: Image::setPixel() lost the red channel of 16-bit
 pixels, and packed 8-bit pixels wrongly

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index bf2d8bf..f4e9120 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1093,12 +1093,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (r & 0xF8) | (g >> 5);
+        *(_buffer + offset + 1) = ((g << 3) & 0xE0) | (b >> 3);
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (r & 0xE0) | ((g >> 3) & 0x1C) | (b >> 6);
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-- 
2.43.0


From 81ecc292d9bc54f1fe82a8bfae14bb0533330db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 063/187] fix: Image::deserialize() could not read what
 serialize() wrote, and took its size and ownership from the input unchecked

---
 src/Image/Image.cpp | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index f4e9120..d088816 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -703,32 +703,25 @@ int8_t Image::serializeWithoutBuffer(uint8_t* buf, uint32_t* len) {
 */
 int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
-    // TODO: This is awful, and will absolutely wreck someone later.
-    //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
+    // The header is always written with 32-bit dimensions.
+    const uint8_t PIX_AND_FMT_LEN = 10;
     if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
-        // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
-        _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+      const uint32_t temp_x = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+      const uint32_t temp_y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+      const ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + 8);
+      const bool SIZE_REPRESENTABLE = ((temp_x == (PixUInt) temp_x) && (temp_y == (PixUInt) temp_y));
+      // Every pixel takes at least one bit, so this also prevents overflow.
+      if (SIZE_REPRESENTABLE && (0 < _bits_per_pixel(temp_fmt)) && (((uint64_t) temp_x * temp_y) <= ((uint64_t) len << 3))) {
+        Image temp_img(temp_x, temp_y, temp_fmt);
+        if (temp_img.bytesUsed() == (len - PIX_AND_FMT_LEN)) {
+          // The derived and declared sizes match. The ownership of the buffer
+          //   is not something that the sender can have an opinion about.
+          _x = temp_x;
+          _y = temp_y;
+          _buf_fmt  = temp_fmt;
+          _imgflags = (_imgflags & C3P_IMG_FLAG_BUFFER_OURS) | (*(buf + 9) & ~C3P_IMG_FLAG_BUFFER_OURS);
+          return setBufferByCopy(buf + PIX_AND_FMT_LEN) ? 0 : -2;
+        }
       }
     }
   }
-- 
2.43.0


From 2aa9827fffe14aaa0e62523d836216b551e9aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 064/187] fix: KeyValuePair did not hold images, and
 CBORArgListener leaked them

---
 src/C3PValue/KeyValuePair.cpp | 8 +++++---
 src/C3PValue/KeyValuePair.h   | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 0539895..ff6e551 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -660,10 +660,12 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         {
           Image* tmp = new Image();
           if (tmp) {
-            tmp->deserialize(data, size);
-            if (tmp->allocated()) {
+            if (0 == tmp->deserialize(data, size)) {
+              ret = new KeyValuePair(tmp);
+            }
+            else {
+              delete tmp;
             }
-            ret = new KeyValuePair(tmp);
           }
         }
         break;
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 3852ea1..2e46c1b 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -188,8 +188,8 @@ class KeyValuePair : public C3PValue {
 
     /* Conditional types. */
     #if defined(CONFIG_C3P_IMG_SUPPORT)
-      KeyValuePair(const char* key, Image* val) : KeyValuePair(tcodeForType(val), key, 0) {  set(val);  };
-      KeyValuePair(char* key, Image* val) :       KeyValuePair(tcodeForType(val), key, 0) {  set(val);  };
+      KeyValuePair(const char* key, Image* val) : KeyValuePair(tcodeForType(val), key, 0) {  _target_mem = val;  };
+      KeyValuePair(char* key, Image* val) :       KeyValuePair(tcodeForType(val), key, 0) {  _target_mem = val;  };
       KeyValuePair(Image* val) : KeyValuePair((const char*) nullptr, val) {};
       inline KeyValuePair* append(Image* val, const char* key = nullptr) {    return (KeyValuePair*) link(new KeyValuePair(key, val));  };
       inline KeyValuePair* append(Image* val, char* key) {                    return (KeyValuePair*) link(new KeyValuePair(key, val));  };
-- 
2.43.0


From fb8489b5159d989206ecb3d0b847ac6de81ae083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:05 +0000
Subject: [PATCH 065/187] fix: CBORArgListener leaked the lists, identities and
 images it inflated

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index ff6e551..7dfeebd 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -680,7 +680,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
   // If we can't fit the value into the KVP class, it means we new'd it.
   if (nullptr != ret) {
     ret->reapContainer(true);
-    ret->reapValue(!typeIsPointerPunned(TC));
+    ret->reapValue(true);
   }
   return ret;
 }
-- 
2.43.0


From c33152ea2909951e352ca95013e1cc2266d478d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 066/187] fix: Image::fill() wrote past the end of 24-bit
 buffers, swapped 16-bit colors, and left the last monochrome pixels

---
 src/Image/Image.cpp | 58 +++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d088816..edf284d 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1919,34 +1919,36 @@ void Image::drawBitmap(PixUInt x, PixUInt y, const uint8_t* bitmap, PixUInt w, P
 void Image::fill(uint32_t color) {
   //uint8_t bpp = _bits_per_pixel();
   _lock(true);
-  switch (_bits_per_pixel()) {
-    case 32:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint32_t*) (_buffer + (i << 2))) = (uint32_t) color;
-      }
-      break;
-    case 24:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
-      }
-      break;
-    case 16:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint16_t*) (_buffer + (i << 1))) = (uint16_t) color;
-      }
-      break;
-    case 8:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + i) = (uint8_t) color;
-      }
-      break;
-    case 1:   // NOTE: Assumes a pixel count of mod(8).
-      for (uint32_t i=0; i < (uint32_t) ((_x * _y) >> 3); i++) {
-        *(_buffer + i) = (0 != color) ? 0xFF : 0x00;
-      }
-      break;
+  if (allocated()) {
+    const uint32_t PIXEL_COUNT = ((uint32_t) _x * _y);
+    switch (_bits_per_pixel()) {
+      case 32:
+        for (uint32_t i=0; i < PIXEL_COUNT; i++) {
+          *((uint32_t*) (_buffer + (i << 2))) = (uint32_t) color;
+        }
+        break;
+      case 24:
+        for (uint32_t i=0; i < PIXEL_COUNT; i++) {
+          *(_buffer + (i * 3) + 0) = (uint8_t) (color >> 16) & 0xFF;
+          *(_buffer + (i * 3) + 1) = (uint8_t) (color >> 8) & 0xFF;
+          *(_buffer + (i * 3) + 2) = (uint8_t) (color & 0xFF);
+        }
+        break;
+      case 16:   // Same byte order as setPixel().
+        for (uint32_t i=0; i < PIXEL_COUNT; i++) {
+          *(_buffer + (i << 1) + 0) = (uint8_t) (color >> 8) & 0xFF;
+          *(_buffer + (i << 1) + 1) = (uint8_t) (color & 0xFF);
+        }
+        break;
+      case 8:
+        for (uint32_t i=0; i < PIXEL_COUNT; i++) {
+          *(_buffer + i) = (uint8_t) color;
+        }
+        break;
+      case 1:
+        memset(_buffer, ((0 != color) ? 0xFF : 0x00), bytesUsed());
+        break;
+    }
   }
   _lock(false);
 }
-- 
2.43.0


From dd364773394cc680dc68641376c54edd3f907b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 067/187] fix: Image::drawLine() never returned when given the
 highest coordinate

---
 src/Image/Image.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index edf284d..0c579e5 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1973,23 +1973,22 @@ void Image::drawLine(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, uint32_t co
     strict_swap(&y0, &y1);
   }
 
-  const PixUInt dx    = x1 - x0;
-  const PixUInt dy    = strict_abs_delta(y1, y0);
+  const PixUInt  dx    = x1 - x0;
+  const PixUInt  dy    = strict_abs_delta(y1, y0);
   const int8_t   ystep = (y0 < y1) ? 1 : -1;
   int32_t err = (int32_t) (dx >> 1);  // NOTE: Imposes width limit of 2,147,483,648 pixels.
 
-  while (x0 <= x1) {
+  for (uint32_t i = x0; i <= x1; i++) {  // NOTE: (x1) might be the highest PixUInt.
     if (steep) {
-      setPixel(y0, x0, color);
+      setPixel(y0, i, color);
     }
     else {
-      setPixel(x0, y0, color);
+      setPixel(i, y0, color);
     }
     err -= dy;
     if (err < 0) {
       y0 += ystep;
       err += dx;
     }
-    x0++;
   }
 }
-- 
2.43.0


From d9ce69e64d116aa1a3982a29c6acdfbce5f9bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 068/187] fix: Image's straight lines painted the far side of
 shapes that cross the origin, and lines without length

---
 src/Image/Image.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 0c579e5..d13c98e 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1515,7 +1515,9 @@ void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
   // Can be just drawLine(x, y, x, y+h-1, color);
   // or fillRect(x, y, 1, h, color);
   _lock(true);
-  drawLine(x, y, x, y+h-1, color);
+  for (PixUInt i = 0; i < h; i++) {
+    setPixel(x, (PixUInt) (y + i), color);
+  }
   _lock(false);
 }
 
@@ -1532,7 +1534,9 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
   // Example: drawLine(x, y, x+w-1, y, color);
   // or fillRect(x, y, w, 1, color);
   _lock(true);
-  drawLine(x, y, x+w-1, y, color);
+  for (PixUInt i = 0; i < w; i++) {
+    setPixel((PixUInt) (x + i), y, color);
+  }
   _lock(false);
 }
 
@@ -1547,8 +1551,8 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
 */
 void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
   _lock(true);
-  for (uint32_t i=x; i<x+w; i++) {
-    drawLine(i, y, i, y+h-1, color);
+  for (PixUInt i = 0; i < w; i++) {
+    drawFastVLine((PixUInt) (x + i), y, h, color);
   }
   _lock(false);
 }
@@ -1582,10 +1586,11 @@ void Image::drawRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r,
   PixUInt max_radius = ((w < h) ? w : h) >> 1; // 1/2 minor axis
   if (r > max_radius) r = max_radius;
   // smarter version
-  drawFastHLine(x + r, y, w - 2 * r, color);         // Top
-  drawFastHLine(x + r, y + h - 1, w - 2 * r, color); // Bottom
-  drawFastVLine(x, y + r, h - 2 * r, color);         // Left
-  drawFastVLine(x + w - 1, y + r, h - 2 * r, color); // Right
+  // NOTE: If an edge has no straight part, its two middle pixels are still ours.
+  drawLine(x + r, y, x + w - r - 1, y, color);                  // Top
+  drawLine(x + r, y + h - 1, x + w - r - 1, y + h - 1, color);  // Bottom
+  drawLine(x, y + r, x, y + h - r - 1, color);                  // Left
+  drawLine(x + w - 1, y + r, x + w - 1, y + h - r - 1, color);  // Right
   // draw four corners
   drawCircleHelper(x + r, y + r, r, 1, color);
   drawCircleHelper(x + w - r - 1, y + r, r, 2, color);
-- 
2.43.0


From f95684e04593d133aacb0e94e9e29e9605358238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 069/187] fix: Image::fillTriangle() treated leftward edges as
 long rightward ones

---
 src/Image/Image.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d13c98e..b2b54a3 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1647,7 +1647,7 @@ void Image::drawTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     @param    color 16-bit 5-6-5 Color to fill/draw with
 */
 void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt x2, PixUInt y2, uint32_t color) {
-  PixUInt a, b, y, last;
+  int32_t a, b, y, last;
   // Sort coordinates by Y order (y2 >= y1 >= y0)
   if (y0 > y1) {
     strict_swap(&y0, &y1);
@@ -1672,9 +1672,9 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     return;
   }
 
-  PixUInt dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
-          dx12 = x2 - x1, dy12 = y2 - y1;
-  PixUInt sa = 0, sb = 0;
+  const int32_t dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
+                dx12 = x2 - x1, dy12 = y2 - y1;
+  int32_t sa = 0, sb = 0;
 
   // For upper part of triangle, find scanline crossings for segments
   // 0-1 and 0-2.  If y1=y2 (flat-bottomed triangle), the scanline y1
@@ -1700,8 +1700,8 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
 
   // For lower part of triangle, find scanline crossings for segments
   // 0-2 and 1-2.  This loop is skipped if y1=y2.
-  sa = (int32_t)dx12 * (y - y1);
-  sb = (int32_t)dx02 * (y - y0);
+  sa = dx12 * (y - y1);
+  sb = dx02 * (y - y0);
   for (; y <= y2; y++) {
     a = x1 + sa / dy12;
     b = x0 + sb / dy02;
-- 
2.43.0


From 7c702da679df38cd5aaf5960b62b0f81c7cae6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 070/187] fix: Image::getTextBounds() always reported text
 reaching the highest coordinate

---
 src/Image/Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index b2b54a3..ffdd801 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1484,8 +1484,8 @@ void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1,
 
   PixUInt minx = _x;
   PixUInt miny = _y;
-  PixUInt maxx = -1;
-  PixUInt maxy = -1;
+  PixUInt maxx = 0;
+  PixUInt maxy = 0;
 
   while((c = *s++)) {
     _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
-- 
2.43.0


From 89994e5058a43a3099431cb3d468fddeabf476ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 071/187] fix: Image::getPixelAsFormat() gave greys that were
 too dark, or beyond the range of the format

---
 src/Image/Image.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index ffdd801..b4e6bcc 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -942,7 +942,6 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
     return c;   // Nothing further to do.
   }
   uint8_t a = 0, r = 0, g = 0, b = 0;
-  uint8_t source_bpc = 8;     // Used later for greyscale conversion.
   uint8_t target_bpp = 24;    // Used later for greyscale conversion.
   uint32_t ret = 0;
   switch (_buf_fmt) {
@@ -961,13 +960,11 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
       r = (uint8_t) ((c >> 11) & 0x1F) << 3;
       g = (uint8_t) ((c >> 5) & 0x3F) << 2;
       b = (uint8_t) (c & 0x1F) << 3;
-      source_bpc = 6;
       break;
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
       r = (uint8_t) ((c >> 5) & 0x07) << 5;
       g = (uint8_t) ((c >> 2) & 0x07) << 5;
       b = (uint8_t) (c & 0x03) << 6;
-      source_bpc = 3;
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
       if (c) {  a = 0xFF; r = 0xFF; g = 0xFF; b = 0xFF;   }
@@ -1013,10 +1010,11 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
       target_bpp -= 8;
     case ImgBufferFormat::GREY_24:           // 24-bit greyscale
       {
-        // Conversion from color to grey or monochrome.
-        float avg = ((r * 0.3) + (g * 0.59) + (b * 0.11)) / 3.0;
-        float lum = avg / ((1 << source_bpc) - 1);
-        ret = ((1 << target_bpp) - 1) * lum;
+        // Conversion from color to grey or monochrome. The channels have been
+        //   scaled to 8-bit, and the weights total to 1.
+        float avg = ((r * 0.3) + (g * 0.59) + (b * 0.11));
+        float lum = avg / 255.0;
+        ret = strict_min((uint32_t) (((1 << target_bpp) - 1) * lum), (uint32_t) ((1 << target_bpp) - 1));
       }
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
-- 
2.43.0


From 2ec9acd16ba43ff757d242f490f09eefe43ef3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:22 +0000
Subject: [PATCH 072/187] fix: Image took a new size or format that the
 borrowed buffer could not hold

---
 src/Image/Image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index b4e6bcc..cbce2ee 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -525,6 +525,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
         return true;
       }
     }
+    else if (allocated() && !_is_ours() && (_bits_per_pixel(fmt) != _bits_per_pixel())) {
+      // Someone else's buffer can't be resized for the new format.
+    }
     else {
       ImgBufferFormat old_fmt = _buf_fmt;
       _buf_fmt = fmt;
@@ -550,6 +553,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  if (allocated() && !_is_ours()) {
+    return false;  // Someone else's buffer can't be resized.
+  }
   _x = x;
   _y = y;
   return (0 == _buffer_allocator());
-- 
2.43.0


From 25820ae99976f7693bc700b35d3c08e1d247781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 073/187] fix: ImageScaler filled the target with the first
 source pixel when scaling below unity

---
 src/Image/ImageUtils/ImageScalers.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Image/ImageUtils/ImageScalers.cpp b/src/Image/ImageUtils/ImageScalers.cpp
index fc77a98..a7fd7b5 100644
--- a/src/Image/ImageUtils/ImageScalers.cpp
+++ b/src/Image/ImageUtils/ImageScalers.cpp
@@ -62,20 +62,17 @@ int8_t ImageScaler::apply() {
       if ((_target->x() >= TGT_X_RANGE_END) && (_target->y() >= TGT_Y_RANGE_END)) {
         ret = 0;
         if (_scale < 1.0f) {
-          PixUInt source_x = SRC_X_RANGE_START;
-          PixUInt source_y = SRC_Y_RANGE_START;
           // If source area is larger than target area, we will need to sample an
           //   area of the source, and write a single pixel to the target.
           // TODO: For now, we just take the leading pixel from the source area.
           //   It would be better to take the result of a transform of all pixels.
           for (PixUInt i = TGT_X_RANGE_START; i < TGT_X_RANGE_END; i++) {
+            const PixUInt SOURCE_X = SRC_X_RANGE_START + (PixUInt) (((i - TGT_X_RANGE_START) / _scale) + 0.5f);
             for (PixUInt j = TGT_Y_RANGE_START; j < TGT_Y_RANGE_END; j++) {
-              uint32_t color = _source->getPixelAsFormat(source_x, source_y, _target->format());
+              const PixUInt SOURCE_Y = SRC_Y_RANGE_START + (PixUInt) (((j - TGT_Y_RANGE_START) / _scale) + 0.5f);
+              uint32_t color = _source->getPixelAsFormat(SOURCE_X, SOURCE_Y, _target->format());
               _target->setPixel(i, j, color);
-              source_y += SQUARE_SIZE;
             }
-            source_x += SQUARE_SIZE;
-            source_y = SRC_Y_RANGE_START;
           }
         }
         else {
-- 
2.43.0


From b9b26e4e66a9eb3722e937149bc801bec046f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 074/187] fix: Identity::fromBuffer() read past the end of a
 truncated buffer

---
 src/Identity/Identity.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 3d2b991..85b655c 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -114,7 +114,15 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
           // TODO: Ill-conceived? Why persist a hardware serial number???
           break;
         case IdentFormat::UUID:
-          return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          {
+            // The name must be terminated within the buffer, and be followed by
+            //   all of the UUID.
+            int nom_len = 0;
+            while ((nom_len < len) && ('\0' != (char) *(buf + nom_len))) nom_len++;
+            if ((len - nom_len) > (int) sizeof(UUID)) {
+              return_value = (Identity*) new IdentityUUID(buf, (uint16_t) (nom_len + 1 + sizeof(UUID)));
+            }
+          }
           break;
         case IdentFormat::L2_MAC:
           // TODO: This
-- 
2.43.0


From effa5124518536fd9ff815ba4ab02ca4eee9d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 075/187] fix: Identity lookup by name compared pointers

---
 src/Identity/Identity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 85b655c..3818bc6 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -309,7 +309,7 @@ Identity* Identity::getIdentity(IdentFormat fmt) {
 * @return     An instance of Identity that is of the given format.
 */
 Identity* Identity::getIdentity(const char* nom) {
-  if (nom == _handle) {  // TODO: Direct comparison won't work here.
+  if ((nullptr != nom) && (nullptr != _handle) && (0 == strcmp(nom, _handle))) {
     return this;
   }
   else if (_next) {
-- 
2.43.0


From eefae7d332ce75d32586dfe98519a3c5d4c8ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 076/187] fix: TimeSeries::copyValueRange() started one sample
 too early when asked for the most-recent samples

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 19696ef..9e6db1d 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -495,7 +495,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 89a0a35535e8468cd26fe6df6ede150f4973b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 077/187] fix: TimeSeries::median() overflowed on large
 integers in a window of even size

---
 src/TimeSeries/TimeSeries.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 9e6db1d..ba8a128 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -639,7 +639,15 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      if ((T(1) / T(2) != T(0)) || ((sorted[lower] < T(0)) && (sorted[upper] > T(0)))) {
+        _median = (sorted[upper] + sorted[lower]) / 2;
+      }
+      else if (sorted[lower] < T(0)) {   // The sum of two integers of like sign
+        _median = sorted[upper] - ((sorted[upper] - sorted[lower]) / 2);
+      }
+      else {                             //   might not fit the type.
+        _median = sorted[lower] + ((sorted[upper] - sorted[lower]) / 2);
+      }
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From 52ad202b6c2d1e0073f845844bd2178af0f5baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 078/187] fix: TimeSeries RMS and median were zero for a window
 of a single sample

---
 src/TimeSeries/TimeSeries.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index ba8a128..6b20aa3 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -562,7 +562,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_mean() {
 */
 template <class T> int8_t TimeSeries<T>::_calculate_rms() {
   int8_t ret = -1;
-  if ((_window_size > 1) & windowFull()) {
+  if ((_window_size > 0) & windowFull()) {
     ret = 0;
     double squared_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
@@ -610,7 +610,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_stdev() {
 */
 template <class T> int8_t TimeSeries<T>::_calculate_median() {
   int8_t ret = -1;
-  if ((_window_size > 1) & windowFull()) {
+  if ((_window_size > 0) & windowFull()) {
     ret = 0;
     T sorted[_window_size];
     for (uint32_t i = 0; i < _window_size; i++) {
-- 
2.43.0


From ce4c2be98bbd0f39560394133c8dbeaeff250de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 079/187] fix: TimeSeries window size overflowed the size of
 its allocation

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 6b20aa3..c8f239d 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -354,7 +354,7 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
         samples = nullptr;
       }
       if (win > 0) {
-        samples = (T*) malloc(win * sizeof(T));
+        samples = ((win <= (SIZE_MAX / sizeof(T))) ? (T*) malloc(win * sizeof(T)) : nullptr);
         if (nullptr != samples) {
           _window_size = win;
           ret = _zero_samples();
-- 
2.43.0


From cacf06535243e901e730ceb23638dc0c53fd1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 080/187] fix: constructing a TimeSeries from packed data
 corrupted memory if a key had an unexpected type

---
 src/TimeSeries/TimeSeries.cpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 1245479..37eb486 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -251,22 +251,39 @@ template <> int C3PTypeConstraint<TimeSeriesBase*>::serialize(void* _obj, String
 }
 
 
+/*
+* The content of a KVP might have come from the outside, and its values can have
+*   any type. So they are converted, rather than being written blindly.
+*/
+static bool _kvp_get_uint32(KeyValuePair* kvp, const char* KEY, uint32_t* dest) {
+  KeyValuePair* val = kvp->valueWithKey(KEY);
+  return ((nullptr != val) && (0 == val->get_as(TCode::UINT32, (void*) dest)));
+}
+
+static char* _kvp_get_str(KeyValuePair* kvp, const char* KEY) {
+  char* ret = nullptr;
+  KeyValuePair* val = kvp->valueWithKey(KEY);
+  if ((nullptr != val) && (TCode::STR == val->tcode())) {  val->get_as(&ret);  }
+  return ret;
+}
+
+
 template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, KeyValuePair* kvp) {
   int8_t ret = -1;
   if ((nullptr != _obj) & (nullptr != kvp)) {
     ret--;
     // Always take win, because it may indicate a re-windowing.
     uint32_t win_sz = 0;
-    const bool CONTAINED_WIN_KEY = (0 == kvp->valueWithKey("win", &win_sz));
+    const bool CONTAINED_WIN_KEY = _kvp_get_uint32(kvp, "win", &win_sz);
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
     if (nullptr == obj) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
-      TCode tc_val = TCode::NONE;
-      if (0 == kvp->valueWithKey("tc", (uint8_t*) &tc_val)) {
-        switch (tc_val) {
+      uint32_t tc_val = 0;
+      if (_kvp_get_uint32(kvp, "tc", &tc_val) && (tc_val <= 0xFF)) {
+        switch ((TCode) tc_val) {
           case TCode::UINT8:   obj = (TimeSeriesBase*) new TimeSeries<uint8_t>(win_sz);   break;
           case TCode::UINT16:  obj = (TimeSeriesBase*) new TimeSeries<uint16_t>(win_sz);  break;
           case TCode::UINT32:  obj = (TimeSeriesBase*) new TimeSeries<uint32_t>(win_sz);  break;
@@ -294,10 +311,8 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       //   dat ahead of win, we don't want to wipe out the values we just placed
       //   on accident (for instance).
       // First: Do the order invariant things.
-      char* name_val   = nullptr;
-      char* unit_val   = nullptr;
-      kvp->valueWithKey("n", &name_val);
-      kvp->valueWithKey("u", &unit_val);
+      char* name_val   = _kvp_get_str(kvp, "n");
+      char* unit_val   = _kvp_get_str(kvp, "u");
       if (name_val) {  obj->name(name_val);             }
       if (unit_val) {  obj->units((SIUnit*) unit_val);  }
 
@@ -307,11 +322,11 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         obj->windowSize(win_sz);  // This will initialize, as well.
       }
 
-      kvp->valueWithKey("ttl", &(obj->_samples_total));
+      _kvp_get_uint32(kvp, "ttl", &(obj->_samples_total));
 
       uint32_t idx_val = 0;
       C3PValue* dat_val = kvp->valueWithKey("dat");
-      const bool CONTAINED_IDX_KEY = (0 == kvp->valueWithKey("idx", &idx_val));
+      const bool CONTAINED_IDX_KEY = _kvp_get_uint32(kvp, "idx", &idx_val);
       if (CONTAINED_IDX_KEY & (nullptr != dat_val)) {
         // The dat and idx keys go together, and refer to the (samples)
         //   beginning at the (absolute index), respectively.
-- 
2.43.0


From 04b2a946c66a1a0ddab07448dc90fe8476d03ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 081/187] fix: purging a SensorFilter left its write position,
 so the window appeared full too early

---
 src/TimeSeries/SensorFilter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2b0d1c2..811be63 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -318,6 +318,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
 template <class T> int8_t SensorFilter<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value = T(0);
   min_value  = T(0);
   max_value  = T(0);
@@ -654,7 +655,12 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
 template <class T> int8_t SensorFilter3<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
+  _window_full   = false;
+  invalidateStats();
   last_value(T(0), T(0), T(0));
+  min_value(T(0), T(0), T(0));
+  max_value(T(0), T(0), T(0));
   _mean(T(0), T(0), T(0));
   _rms(T(0), T(0), T(0));
   _stdev(T(0), T(0), T(0));
-- 
2.43.0


From 37e68e68bc07a55186d3b5ebcdd0ed91a6136ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 082/187] fix: SensorFilter with a window of a single sample
 did not store it, and reported statistics of zero

---
 src/TimeSeries/SensorFilter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 811be63..d723f06 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -389,7 +389,7 @@ template <class T> void SensorFilter<T>::printFilter(StringBuilder* output) {
 template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
   int8_t ret = -1;
   if (initialized()) {
-    if (_window_size > 1) {
+    if (_window_size > 0) {
       samples[_sample_idx++] = val;
       _samples_total++;
       if (_sample_idx >= _window_size) {
@@ -492,7 +492,7 @@ template <class T> double SensorFilter<T>::_calculate_mean() {
 * @return the root mean square of the contents of the filter.
 */
 template <class T> double SensorFilter<T>::_calculate_rms() {
-  if ((_window_size > 1) && _filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     double squared_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
       squared_samples += ((double) samples[i] * (double) samples[i]);
@@ -747,7 +747,7 @@ template <class T> int8_t SensorFilter3<T>::feedFilter(T x, T y, T z) {
   int8_t ret = -1;
   if (initialized()) {
     ret = 0;
-    if (_window_size > 1) {
+    if (_window_size > 0) {
       samples[_sample_idx++](x, y, z);
       _samples_total++;
       if (_sample_idx >= _window_size) {
-- 
2.43.0


From eecc563b33d06f74bb9be8789f92ca2292de5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 083/187] fix: SensorFilter statistics dereferenced null if the
 filter had no window

---
 src/TimeSeries/SensorFilter.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index d723f06..fb9a337 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -454,7 +454,7 @@ template <class T> T SensorFilter<T>::value() {
 * Updates the private cache variable.
 */
 template <class T> void SensorFilter<T>::_calculate_minmax() {
-  if (_filter_initd && _window_full) {
+  if (_filter_initd && _window_full && (nullptr != samples)) {
     min_value = samples[0];   // Start with a baseline.
     max_value = samples[0];   // Start with a baseline.
     for (uint32_t i = 1; i < _window_size; i++) {
@@ -473,7 +473,7 @@ template <class T> void SensorFilter<T>::_calculate_minmax() {
 * @return the mean of the contents of the filter.
 */
 template <class T> double SensorFilter<T>::_calculate_mean() {
-  if (_filter_initd && _window_full) {
+  if (_filter_initd && _window_full && (nullptr != samples)) {
     double summed_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
       summed_samples += (double) samples[i];
@@ -531,8 +531,11 @@ template <class T> double SensorFilter<T>::_calculate_stdev() {
 * @return the median of the contents of the filter.
 */
 template <class T> T SensorFilter<T>::_calculate_median() {
-  T sorted[_window_size];
   T ret = T(0);
+  if ((nullptr == samples) || (0 == _window_size)) {
+    return ret;
+  }
+  T sorted[_window_size];
   for (uint32_t i = 0; i < _window_size; i++) {
     sorted[i] = samples[i];
   }
-- 
2.43.0


From df52879d7042879a7cad3a62342258908c67247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 084/187] fix: SensorFilter moving average of signed integers
 was calculated unsigned

---
 src/TimeSeries/SensorFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index fb9a337..b5c6124 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -410,7 +410,7 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
             break;
           case FilteringStrategy::MOVING_AVG:
             // Calculate the moving average...
-            last_value = ((last_value * (_window_size-1)) + val) / _window_size;
+            last_value = (T) ((((double) last_value * (double) (_window_size-1)) + (double) val) / (double) _window_size);
             break;
           case FilteringStrategy::MOVING_MED:
             // Calculate the moving median...
-- 
2.43.0


From 373208918ad7ce0d9cbfb3b8038c3d0defd4368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 085/187] fix: SensorFilter::median() overflowed on large
 integers in a window of even size

---
 src/TimeSeries/SensorFilter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index b5c6124..c52994e 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -562,7 +562,15 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    ret = (sorted[upper] + sorted[lower]) / 2;
+    if ((T(1) / T(2) != T(0)) || ((sorted[lower] < T(0)) && (sorted[upper] > T(0)))) {
+      ret = (sorted[upper] + sorted[lower]) / 2;
+    }
+    else if (sorted[lower] < T(0)) {   // The sum of two integers of like sign
+      ret = sorted[upper] - ((sorted[upper] - sorted[lower]) / 2);
+    }
+    else {                             //   might not fit the type.
+      ret = sorted[lower] + ((sorted[upper] - sorted[lower]) / 2);
+    }
   }
   return ret;
 }
-- 
2.43.0


From b8fd08526bb13ed5b769569c4b35541df30cbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 086/187] fix: SensorFilter kept writing through a null pointer
 if its window could not be allocated

---
 src/TimeSeries/SensorFilter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index c52994e..93814d7 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -291,7 +291,8 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
         samples = nullptr;
       }
       if (_window_size > 0) {
-        samples = (T*) malloc(_window_size * sizeof(T));
+        samples = ((win <= (SIZE_MAX / sizeof(T))) ? (T*) malloc(win * sizeof(T)) : nullptr);
+        if (nullptr == samples) {  _window_size = 0;  }
         ret = _zero_samples();
         _sample_idx = 0;
       }
@@ -639,7 +640,8 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
         samples = nullptr;
       }
       if (_window_size > 0) {
-        samples = (Vector3<T>*) malloc(_window_size * sizeof(Vector3<T>));
+        samples = ((win <= (SIZE_MAX / sizeof(Vector3<T>))) ? (Vector3<T>*) malloc(win * sizeof(Vector3<T>)) : nullptr);
+        if (nullptr == samples) {  _window_size = 0;  }
         ret = _zero_samples();
         _sample_idx = 0;
       }
-- 
2.43.0


From a754317d17e9d2e78704b35cbc7f68bf4600c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 087/187] fix: TimeSeries3 could not be compiled with
 allocation of its own samples

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index c8f239d..3d0474d 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -744,7 +744,7 @@ template <class T> int8_t TimeSeries3<T>::_reallocate_sample_window(uint32_t win
         samples = nullptr;
       }
       if (win > 0) {
-        samples = (T*) malloc(win * sizeof(Vector3<T>));
+        samples = ((win <= (SIZE_MAX / sizeof(Vector3<T>))) ? (Vector3<T>*) malloc(win * sizeof(Vector3<T>)) : nullptr);
         if (nullptr != samples) {
           _window_size = win;
           ret = _zero_samples();
-- 
2.43.0


From 6be9aeee3f2ba4120e82697cbc85e86266b113f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 088/187] fix: TimeSeries::median() overflowed on the mean of
 zero and the least integer

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 3d0474d..6f3e164 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -639,7 +639,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      if ((T(1) / T(2) != T(0)) || ((sorted[lower] < T(0)) && (sorted[upper] > T(0)))) {
+      if ((T(1) / T(2) != T(0)) || ((sorted[lower] < T(0)) && !(sorted[upper] < T(0)))) {
         _median = (sorted[upper] + sorted[lower]) / 2;
       }
       else if (sorted[lower] < T(0)) {   // The sum of two integers of like sign
-- 
2.43.0


From de8b69c4f521d25569b429d0f99df3c0d9c4da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 089/187] fix: SensorFilter::median() overflowed on the mean of
 zero and the least integer

---
 src/TimeSeries/SensorFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 93814d7..2d0c7eb 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -563,7 +563,7 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    if ((T(1) / T(2) != T(0)) || ((sorted[lower] < T(0)) && (sorted[upper] > T(0)))) {
+    if ((T(1) / T(2) != T(0)) || ((sorted[lower] < T(0)) && !(sorted[upper] < T(0)))) {
       ret = (sorted[upper] + sorted[lower]) / 2;
     }
     else if (sorted[lower] < T(0)) {   // The sum of two integers of like sign
-- 
2.43.0


From a0af64bfc9abb75841e596916fa9722dd6a81c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 090/187] fix: packing of TimeSeries and StopWatch was lost if
 the compiler preferred the undeclared default

---
 src/C3PValue/C3PType.h      | 13 +++++++++++++
 src/C3PValue/KeyValuePair.h |  3 +--
 src/TimeSeries/TimeSeries.h |  3 +--
 src/TimerTools/TimerTools.h |  3 +--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/C3PValue/C3PType.h b/src/C3PValue/C3PType.h
index 3b130e4..0e0ff38 100644
--- a/src/C3PValue/C3PType.h
+++ b/src/C3PValue/C3PType.h
@@ -325,4 +325,17 @@ template <class T> class C3PTypeConstraint : public C3PType {
     };
 };
 
+/*
+* Specializations that are implemented in the translation units of their types.
+* They need to be declared before any use would instantiate the defaults above.
+*/
+template <> void   C3PTypeConstraint<KeyValuePair*>::to_string(void*, StringBuilder*);
+template <> int    C3PTypeConstraint<KeyValuePair*>::serialize(void*, StringBuilder*, const TCode);
+template <> void   C3PTypeConstraint<StopWatch*>::to_string(void*, StringBuilder*);
+template <> int    C3PTypeConstraint<StopWatch*>::serialize(void*, StringBuilder*, const TCode);
+template <> int8_t C3PTypeConstraint<StopWatch*>::construct(void*, KeyValuePair*);
+template <> void   C3PTypeConstraint<TimeSeriesBase*>::to_string(void*, StringBuilder*);
+template <> int    C3PTypeConstraint<TimeSeriesBase*>::serialize(void*, StringBuilder*, const TCode);
+template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void*, KeyValuePair*);
+
 #endif  // __C3P_TYPE_WRAPPER_H
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 2e46c1b..97981dd 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -220,8 +220,7 @@ class KeyValuePair : public C3PValue {
 
 
   private:
-    friend void   C3PTypeConstraint<KeyValuePair*>::to_string(void*, StringBuilder*);
-    friend int    C3PTypeConstraint<KeyValuePair*>::serialize(void*, StringBuilder*, const TCode);
+    friend class C3PTypeConstraint<KeyValuePair*>;
     char*         _key   = nullptr;
 
     /* Private mem-mgmt functions. */
diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 6f3e164..14b4d34 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -118,8 +118,7 @@ class TimeSeriesBase {
     //   But TimeSeries *isn't* StopWatch. TimeSeries might have a data field of
     //   dozens of KB which shouldn't be packed up on all occasions.
     // Some nuance will need to be observed.
-    friend int    C3PTypeConstraint<TimeSeriesBase*>::serialize(void*, StringBuilder*, const TCode);
-    friend int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void*, KeyValuePair*);
+    friend class C3PTypeConstraint<TimeSeriesBase*>;
 
     TimeSeriesBase(const TCode, uint32_t ws, uint16_t flgs = 0);
 
diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index d7a5818..b17964a 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -51,8 +51,7 @@ class StopWatch {
     static void printDebugHeader(StringBuilder*);
 
   private:
-    friend int    C3PTypeConstraint<StopWatch*>::serialize(void*, StringBuilder*, const TCode);
-    friend int8_t C3PTypeConstraint<StopWatch*>::construct(void*, KeyValuePair*);
+    friend class C3PTypeConstraint<StopWatch*>;
 
     uint32_t _tag;      // A slot for arbitrary application data.
     uint32_t _start_micros;
-- 
2.43.0


From cfda8fbdde9a9b709414fb36a87168d4af405fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 091/187] fix: TimeSeries owned by a C3PValue were released
 without running their destructor

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 72c5c42..8f832ad 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -28,6 +28,7 @@ This file contains the implementation of type constraints for our wrapped types.
 #include "KeyValuePair.h"
 #include "../StringBuilder.h"
 #include "../TimerTools/TimerTools.h"
+#include "../TimeSeries/TimeSeries.h"
 
 /* CBOR support should probably be required to parse/pack. */
 #if defined(CONFIG_C3P_CBOR)
-- 
2.43.0


From f3435259c3bc1c3b46559273547009a4f87081ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 092/187] fix: BufferAccepterFork read before the buffer once
 its hands had taken different lengths

---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 39 ++++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..9f4ebbe 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -59,31 +59,44 @@ int32_t StringBuilderSink::bufferAvailable() {
 
 int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
   int8_t ret = -1;
-  const int32_t BYTES_OFFERED = buf->length();
+  const int32_t BYTES_OFFERED = ((nullptr != buf) ? buf->length() : 0);
   const int32_t BYTES_TO_TAKE = strict_min(bufferAvailable(), BYTES_OFFERED);
   if (0 < BYTES_TO_TAKE) {
     // We could be risky at this point, but we do a pedantic deep-copy instead.
-    // Note the drift distance for each side of the fork.
+    // Note the drift distance for each side of the fork. That is, how much of
+    //   the offered buffer was already taken by that side on a prior call.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
     int32_t left_range_covered  = BYTES_TO_TAKE;
     int32_t right_range_covered = BYTES_TO_TAKE;
-    if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
-      StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
-      _left_hand->pushBuffer(&deep_copy);
-      left_range_covered -= deep_copy.length();
+    if (nullptr != _left_hand) {
+      if (LEFT_OFFER_LEN > 0) {
+        StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
+        _left_hand->pushBuffer(&deep_copy);
+        left_range_covered -= deep_copy.length();
+      }
+      else {
+        left_range_covered = _left_drift;
+      }
     }
-    if ((nullptr != _right_hand) & (RIGHT_OFFER_LEN > 0)) {
-      StringBuilder deep_copy(buf->string() + _right_drift, RIGHT_OFFER_LEN);
-      _right_hand->pushBuffer(&deep_copy);
-      right_range_covered -= deep_copy.length();
+    if (nullptr != _right_hand) {
+      if (RIGHT_OFFER_LEN > 0) {
+        StringBuilder deep_copy(buf->string() + _right_drift, RIGHT_OFFER_LEN);
+        _right_hand->pushBuffer(&deep_copy);
+        right_range_covered -= deep_copy.length();
+      }
+      else {
+        right_range_covered = _right_drift;
+      }
     }
     const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
     buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
+    _left_drift  = (nullptr != _left_hand)  ? (left_range_covered - TOTAL_TAKEN)  : 0;
+    _right_drift = (nullptr != _right_hand) ? (right_range_covered - TOTAL_TAKEN) : 0;
 
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (0 < TOTAL_TAKEN) {
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
   }
   return ret;
 }
-- 
2.43.0


From 1edfa7cb845c02d84113b5185c68bc3669452ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 093/187] fix: LineEndingCoDec left its options uninitialised

---
 src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
index 9c70bfd..099d920 100644
--- a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
+++ b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
@@ -134,7 +134,8 @@ Rules:
 */
 class LineEndingCoDec : public BufferCoDec {
   public:
-    LineEndingCoDec(BufferAccepter* targ = nullptr, LineTerm t = LineTerm::ZEROBYTE) : BufferCoDec(targ), _term_seq(t) {};
+    LineEndingCoDec(BufferAccepter* targ = nullptr, LineTerm t = LineTerm::ZEROBYTE) : BufferCoDec(targ), _term_seq(t),
+      _replacement_mask(0), _hold_until_break(false), _isometric_call_to_break(false) {};
     ~LineEndingCoDec() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 6766030299c46f7fc2959077d6ebd26148ea9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 094/187] fix: LineEndingCoDec reported a partial claim when it
 had taken nothing

---
 src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
index 5b87aa1..ab33250 100644
--- a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
+++ b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
@@ -153,7 +153,8 @@ int8_t LineEndingCoDec::pushBuffer(StringBuilder* buf) {
       }
     }
 
-    ret = (((INPUT_LENGTH - buf->length()) < INPUT_LENGTH) ? 0 : 1);
+    const int32_t LENGTH_LEFT = buf->length();
+    ret = ((LENGTH_LEFT == INPUT_LENGTH) ? -1 : ((0 < LENGTH_LEFT) ? 0 : 1));
   }
 
   return ret;
-- 
2.43.0


From 2ed65d6af26ae5692b272ba093f4c9e46151de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 095/187] fix: Base64Encoder took more than its efferant could
 hold the encoding of, and lost the rest

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..99b80c1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -40,10 +40,6 @@ I have reproduced his original commentary, where it still applies. And may have
 
 #include "C3P_B64.h"
 
-// TODO: These are wrong. Calulate the real values once it works.
-#define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
-
 
 /*******************************************************************************
 *      _______.___________.    ___   .___________. __    ______     _______.
@@ -133,7 +129,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -155,7 +151,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    ret = (_efferant->bufferAvailable() / 4) * 3;   // Every 3 bytes in are 4 bytes out.
   }
   return ret;
 }
@@ -350,7 +346,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -372,7 +368,9 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Decoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_DECODE_SCALING_FACTOR;
+    // Every 4 bytes in are no more than 3 bytes out. Saturate, if need be.
+    const int32_t GROUPS_AVAILABLE = (_efferant->bufferAvailable() / 3);
+    ret = (strict_min(GROUPS_AVAILABLE, (int32_t) 0x1FFFFFFF) * 4);
   }
   return ret;
 }
-- 
2.43.0


From ed120dc27974b386b05206e7b0c7dea425d33419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 096/187] fix: C3PTypePipeSink reported a partial claim when it
 had taken nothing, and never counted bytes

---
 src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index ffcefcd..395ac3a 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -128,7 +128,7 @@ C3PTypePipeSink::~C3PTypePipeSink() {
 int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
   int8_t ret = -1;
   C3PValue* val_to_emit = nullptr;
-  if (nullptr != _value_cb) {
+  if ((nullptr != incoming) && (nullptr != _value_cb)) {
     const uint32_t INCOMING_LEN = incoming->length();
     const uint32_t SAFE_LEN     = strict_min(_MAX_BUFFER, INCOMING_LEN);
     do {
@@ -142,9 +142,12 @@ int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
         incoming->prependHandoff(&tmp_stbldr);
       }
     } while (nullptr != val_to_emit);
-    return (incoming->isEmpty(true) ? 1: 0);
+    const uint32_t LENGTH_LEFT = incoming->length();
+    _byte_count += (INCOMING_LEN - LENGTH_LEFT);
+    if (0 == LENGTH_LEFT) {                  ret = 1;  }
+    else if (INCOMING_LEN > LENGTH_LEFT) {   ret = 0;  }
   }
-  return -1;
+  return ret;
 }
 
 
-- 
2.43.0


From 76160a05447797d8a95cbae4ee1c7a57e44f78d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 097/187] fix: C3PScheduledJitterProbe recorded nonsense when
 the clock wrapped

---
 src/TimerTools/C3PScheduler.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0cbb4a9..ca0df6b 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -148,12 +148,7 @@ void C3PScheduledLambda::_print_schedule(StringBuilder* output) {
 FAST_FUNC int8_t C3PScheduledJitterProbe::_execute() {
   int8_t ret = 0;
   if (jitter.initialized()) {
-    const unsigned int NOW = micros();
-    uint32_t wrapped_jitter = (NOW - nextExec());
-    if (nextExec() > NOW) {
-      wrapped_jitter = (nextExec() - NOW);
-    }
-    jitter.feedSeries(wrapped_jitter);
+    jitter.feedSeries(delta_assume_wrap((uint32_t) micros(), (uint32_t) nextExec()));
   }
   else {
     jitter.init();
-- 
2.43.0


From 4eb27696dc58531da34c8cf726a01abe5374377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 098/187] fix: C3PScheduler::addSchedule() dereferenced a null
 schedule

---
 src/TimerTools/C3PScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index ca0df6b..838e3ff 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -184,7 +184,7 @@ C3PScheduler::~C3PScheduler() {
 * @return 0 on success, or negative on error.
 */
 int8_t C3PScheduler::addSchedule(C3PSchedule* sch) {
-  int8_t ret = _active.insertIfAbsent(sch);
+  int8_t ret = (nullptr != sch) ? _active.insertIfAbsent(sch) : -1;
   if (0 == ret) {
     if (sch->enabled()) {
       sch->delay();  // Will mark enabled,
-- 
2.43.0


From ef757942e7db76fbdf98ebb2f4971d8ae44da4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 099/187] fix: C3PScheduler executed schedules that were
 disabled after they came due

---
 src/TimerTools/C3PScheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 838e3ff..1df734e 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -221,7 +221,10 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
     // Service queue will refuse to process until the ISR has been pinged.
     C3PSchedule* current = _exec_queue.get();
     while (nullptr != current) {
-      current->execute();
+      // It may have been disabled since it was queued.
+      if (current->enabled()) {
+        current->execute();
+      }
       current = _exec_queue.get();
     }
     profiler_service.markStop();
-- 
2.43.0


From 79fac88d42218d9c8443c441746f595c45171c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 100/187] fix: I2CBusOp constructor lost its address arguments

---
 src/BusQueue/I2CBusOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CBusOp.cpp b/src/BusQueue/I2CBusOp.cpp
index b8cb977..5445616 100644
--- a/src/BusQueue/I2CBusOp.cpp
+++ b/src/BusQueue/I2CBusOp.cpp
@@ -47,8 +47,8 @@ I2CBusOp::I2CBusOp(BusOpcode nu_op, BusOpCallback* requester) : I2CBusOp() {
 *   under the exclusive control of the caller.
 */
 I2CBusOp::I2CBusOp(BusOpcode nu_op, uint8_t dev_addr, int16_t sub_addr, uint8_t* buffer, uint16_t len) : I2CBusOp() {
-  dev_addr     = dev_addr;
-  sub_addr     = sub_addr;
+  this->dev_addr = dev_addr;
+  this->sub_addr = sub_addr;
   set_opcode(nu_op);
   setBuffer(buffer, len);
 };
-- 
2.43.0


From 6469eb49dbc6d1ad175c397f8ae368f63b84000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 101/187] fix: I2CAdapter reported failure for jobs that it
 dispatched immediately

---
 src/BusQueue/I2CAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..d764356 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -171,7 +171,9 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     // Bus is idle, and the platform has decided that we ought to start I/O
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
+    // A transfer that fails to begin is called back from poll(), like any other.
     current_job = nu;
+    ret = 0;
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
-- 
2.43.0


From f17e262afbede3d9b0759239e2eba5615c68a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 102/187] fix: I2CDevice dereferenced a missing bus operation
 or bus

---
 src/BusQueue/I2CDevice.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 1ea6144..27af80f 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -98,6 +98,9 @@ bool I2CDevice::writeX(int sub_addr, uint16_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
@@ -110,6 +113,9 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::RX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
@@ -121,6 +127,9 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
 * Pings the device.
 */
 bool I2CDevice::ping_device() {
+  if (_bus == nullptr) {
+    return false;
+  }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX_CMD, this);
   if (nullptr != nu) {
     nu->dev_addr = _dev_addr;
-- 
2.43.0


From 120c9b3c4f0b844a025946132282b1c0faf469a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 103/187] fix: I2CDevice left its in-flight transfer a callback
 to freed memory

---
 src/BusQueue/I2CDevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 27af80f..6ee1f77 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -39,6 +39,10 @@ I2CDevice::I2CDevice(uint8_t addr) : _dev_addr(addr) {
 I2CDevice::~I2CDevice() {
   if (_bus) {
     _bus->purge_queued_work_by_dev(this);
+    I2CBusOp* in_flight = _bus->currentJob();
+    if ((nullptr != in_flight) && (this == in_flight->callback)) {
+      in_flight->callback = nullptr;   // There will be nothing left to call.
+    }
   }
 };
 
-- 
2.43.0


From af0e3eae7a167418811073c3e18d4994e74dcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 104/187] fix: SPIBusOp::wipe() left the clock limit of the
 prior transfer

---
 src/BusQueue/SPIBusOp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/SPIBusOp.cpp b/src/BusQueue/SPIBusOp.cpp
index 4eefa26..31f4552 100644
--- a/src/BusQueue/SPIBusOp.cpp
+++ b/src/BusQueue/SPIBusOp.cpp
@@ -248,6 +248,7 @@ FAST_FUNC int8_t SPIBusOp::_assert_cs(bool asrt) {
 FAST_FUNC void SPIBusOp::wipe() {
   BusOp::_busop_wipe(this);
   // Flags that deal with memory management are untouched.
+  _max_freq   = 0;
   _cs_pin     = 255;
   _param_len  = 0;
   xfer_params[0] = 0;
-- 
2.43.0


From 584dadc67d235d604ca6d0f0e0bf9f297e31bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 105/187] fix: BusAdapter left an I/O buffer without memory
 marked for reap

---
 src/BusQueue/BusQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ae88385..2dbccbd 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -533,7 +533,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
         _failed_xfers++;
       }
 
-      if (op->shouldFreeBuffer() && (nullptr != op->buffer())) {
+      if (op->shouldFreeBuffer()) {
         // Independently of the BusOp's mem management, if the I/O buffer is
         //   marked for reap, do so at this point.
         free(op->buffer());
-- 
2.43.0


From c9fadcf5f71ea233576bfdc721516fab7e86fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 106/187] fix: UARTAdapter::write() returned 4294967295 for
 bytes that it did not take

---
 src/BusQueue/UARTAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 051a09c..366bca5 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -244,7 +244,8 @@ uint32_t UARTAdapter::write(StringBuilder* buf) {
 uint32_t UARTAdapter::write(uint8_t* buf, uint32_t len) {
   uint32_t ret = 0;
   if (txCapable()) {
-    ret = _tx_buffer.insert(buf, len);
+    const int TAKEN = _tx_buffer.insert(buf, len);
+    ret = (0 < TAKEN) ? TAKEN : 0;
   }
   return ret;
 }
-- 
2.43.0


From a286147b9b1d80d1aabbe0a06bcd1b0f992b146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 107/187] fix: Vector3::length() overflowed and truncated in
 narrow types

---
 src/Vector3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector3.h b/src/Vector3.h
index e77d4bc..fc5b021 100644
--- a/src/Vector3.h
+++ b/src/Vector3.h
@@ -162,7 +162,7 @@ template <typename T> class Vector3 {
     T length_squared() const {  return (T)(*this * *this);       }
 
     // gets the length of this vector
-    float length() const {      return (T)sqrt(*this * *this);   }
+    float length() const {      return (float) sqrt(((double) x * x) + ((double) y * y) + ((double) z * z));   }
 
     // normalizes this vector
     float normalize(){
-- 
2.43.0


From 69e85ae32d215fdf9fcd944a7f8fd898cf91e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 108/187] fix: Vector3 angles of parallel and opposed vectors
 could be NaN

---
 src/Vector3.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Vector3.h b/src/Vector3.h
index fc5b021..bad0e60 100644
--- a/src/Vector3.h
+++ b/src/Vector3.h
@@ -211,15 +211,19 @@ template <typename T> class Vector3 {
     static float angle(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT    = (float) (v1*v2);
       const float LEN_PROD = (float) (v1.length()*v2.length());
-      return ((0 != LEN_PROD) ? acosf(V_DOT / LEN_PROD) : 0.0f);
+      if (0 == LEN_PROD) {
+        return 0.0f;
+      }
+      const float V_COS = (V_DOT / LEN_PROD);
+      return acosf((V_COS < -1.0f) ? -1.0f : ((V_COS <= 1.0f) ? V_COS : 1.0f));
     };
 
     // computes the angle between 2 arbitrary normalized vectors
-    // NOTE: The minimum check is to prevent floating point rounding from
+    // NOTE: The range check is to prevent floating point rounding from
     //   causing a domain error in acosf().
     static float angle_normalized(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT = (float) (v1*v2);
-      return acosf(((V_DOT <= 1.0f) ? V_DOT : 1.0f));
+      return acosf((V_DOT < -1.0f) ? -1.0f : ((V_DOT <= 1.0f) ? V_DOT : 1.0f));
     };
 
 };
-- 
2.43.0


From f45aace9d4280738e2452dc5ccc19000fb40dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 109/187] fix: Quaternion::setDown() lost the rotation of an
 inverted direction

---
 src/Quaternion.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Quaternion.cpp b/src/Quaternion.cpp
index c91fa1f..4315d29 100644
--- a/src/Quaternion.cpp
+++ b/src/Quaternion.cpp
@@ -61,7 +61,7 @@ float Quaternion::normalize() {
 * Assumes that +z is away from Earth.
 */
 void Quaternion::setDown(float n_x, float n_y, float n_z) {
-  float angle = acos(n_z);
+  float angle = acos((n_z < -1.0f) ? -1.0f : ((n_z <= 1.0f) ? n_z : 1.0f));
 
   // Calculate the cross-product against (0, 0, 1)...
   float cp_x = n_y;
@@ -78,6 +78,10 @@ void Quaternion::setDown(float n_x, float n_y, float n_z) {
       cp_z *= inv_len;
     }
   }
+  else {
+    // The vertical has no unique perpendicular. Any of them will do.
+    cp_x = 1.0f;
+  }
 
   float sin_theta = sin(angle / 2.0);
   w = cos(angle / 2.0);
-- 
2.43.0


From 57243afd4e50eb6710293dbf13ff9a067cecf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 110/187] fix: concatf() took a lone char* argument for a
 va_list where they are the same type

---
 src/BusQueue/UARTAdapter.cpp                       | 6 +++---
 src/Console/C3PConsole.cpp                         | 4 ++--
 src/Image/GfxUI/GfxUIIdentity.cpp                  | 2 +-
 src/Image/GfxUI/GfxUIKeyValuePair.cpp              | 2 +-
 src/M2MLink/M2MLink.cpp                            | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp     | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp        | 8 ++++----
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 366bca5..68bba5f 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -135,9 +135,9 @@ void UARTAdapter::printDebug(StringBuilder* output) {
   output->concat("\tOpts:\n\t------------------------\n");
   output->concatf("\tChar size:\t%u bits\n", _opts.bit_per_word);
   output->concatf("\tStart bits:\t%u\n",     _opts.start_bits);
-  output->concatf("\tStop bits:\t%s\n",      str_stp);
-  output->concatf("\tParity:\t\t%s\n",       str_par);
-  output->concatf("\tFlow CTRL:\t%s\n\n",    str_flw);
+  output->concatf("\tStop bits:\t%s\n",      (const char*) str_stp);
+  output->concatf("\tParity:\t\t%s\n",       (const char*) str_par);
+  output->concatf("\tFlow CTRL:\t%s\n\n",    (const char*) str_flw);
 
   if (initialized()) {
     if (rxCapable()) {
diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..203c713 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -232,7 +232,7 @@ int8_t ParsingConsole::_process_buffer() {
             // TODO: Change to prompt color.
           }
           // Write the prompt to the log.
-          _response.concatf("\n%s", _prompt_string);
+          _response.concatf("\n%s", (const char*) _prompt_string);
         }
       }
     }
@@ -404,7 +404,7 @@ void ParsingConsole::printHelp(StringBuilder* output, char* specific_cmd) {
     tmpcmd->printDetailedHelp(output);
   }
   else {
-    output->concatf("Command '%s' not supported.\n", specific_cmd);
+    output->concatf("Command '%s' not supported.\n", (const char*) specific_cmd);
   }
 }
 
diff --git a/src/Image/GfxUI/GfxUIIdentity.cpp b/src/Image/GfxUI/GfxUIIdentity.cpp
index 439f7f6..6fa696a 100644
--- a/src/Image/GfxUI/GfxUIIdentity.cpp
+++ b/src/Image/GfxUI/GfxUIIdentity.cpp
@@ -83,7 +83,7 @@ int GfxUIIdentity::_render(UIGfxWrapper* ui_gfx) {
   _txt_meta.clear();
   if (nullptr != _ident) {
     StringBuilder _tmp_sbldr;
-    _tmp_sbldr.concatf("%s\n", _ident->getHandle());
+    _tmp_sbldr.concatf("%s\n", (const char*) _ident->getHandle());
     _txt_handle.pushBuffer(&_tmp_sbldr);
 
     _tmp_sbldr.concatf("%s\n", Identity::identityTypeString(_ident->identityType()));
diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 9684fa5..d129641 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -85,7 +85,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
       char* cur_key = key_list.position_trimmed(0);
       current_kvp   = _kvp->valueWithKey(cur_key);
       StringBuilder keystr;
-      keystr.concatf("\"%s\":", cur_key);
+      keystr.concatf("\"%s\":", (const char*) cur_key);
 
       ui_gfx->img()->setCursor(i_x, (i_y + tracked_y));
       ui_gfx->img()->setTextColor(_style.color_active, _style.color_bg);
diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..c1f43d5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -470,7 +470,7 @@ void M2MLink::printDebug(StringBuilder* output) {
   if (isConnected()) {
     output->concat("\n-- Counterparty:\n");
     if (nullptr != remoteIdentity()) {
-      output->concatf("\t[%s]:\t", remoteIdentity()->getHandle());
+      output->concatf("\t[%s]:\t", (const char*) remoteIdentity()->getHandle());
       remoteIdentity()->toString(output);
       output->concat('\n');
     }
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
index b1e3d39..7bbc573 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
@@ -112,7 +112,7 @@ FAST_FUNC int8_t TripleAxisCompass::pushVector(const SpatialSense s, Vector3f* d
 void TripleAxisCompass::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Compass >----------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Compass >----------------\n", (const char*) indent.string());
   output->concatf("%s| Has callback:   %c\n", (char*) indent.string(), (nullptr != _CALLBACK)?'y':'n');
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| Field %s:    (%.4f, %.4f, %.4f)  Magnitude: %.4f\n", (char*) indent.string(), (dataReady()?"FRESH":"STALE"), (double) _field.x, (double) _field.y, (double) _field.z, (double) _field.length());
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
index 5770649..1397d09 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
@@ -92,7 +92,7 @@ int8_t TripleAxisOrientation::pushVector(const SpatialSense s, Vector3f* data, V
 void TripleAxisOrientation::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Orientation >----------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Orientation >----------------\n", (const char*) indent.string());
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| Last update:    %u\n", (char*) indent.string(), _last_update);
   if (_data_period) {
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 3c9906b..81485e5 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -66,7 +66,7 @@ FAST_FUNC int8_t TripleAxisFork::pushVector(const SpatialSense s, Vector3f* data
 void TripleAxisFork::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Fork >-------------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Fork >-------------------\n", (const char*) indent.string());
   indent.clear();
   if ((verbosity > 0) && (nullptr != _LEFT)) {
     _LEFT->printPipe(output, stage+1, verbosity);
@@ -139,7 +139,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
 void TripleAxisConvention::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Convention >-------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Convention >-------------\n", (const char*) indent.string());
   indent.clear();
   if ((verbosity > 0) && (nullptr != _NXT)) {
     _NXT->printPipe(output, stage+1, verbosity);
@@ -217,7 +217,7 @@ void TripleAxisTerminus::reset() {
 void TripleAxisTerminus::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Terminus >---------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Terminus >---------------\n", (const char*) indent.string());
   output->concatf("%s| Has callback:   %c\n", (char*) indent.string(), (nullptr != _CALLBACK)?'y':'n');
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| SpatialSense:   %s\n", (char*) indent.string(), TripleAxisPipe::spatialSenseStr(_SENSE));
@@ -329,7 +329,7 @@ void TripleAxisSingleFilter::printPipe(StringBuilder* output, uint8_t stage, uin
   bool was_dirty = dirty();
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: SingleFilter >-----------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: SingleFilter >-----------\n", (const char*) indent.string());
   output->concatf("%s| SpatialSense:   %s\n", (char*) indent.string(), TripleAxisPipe::spatialSenseStr(_SENSE));
   if (verbosity > 5) {
     SensorFilter3<float>::printFilter(output);
-- 
2.43.0


From c4daf3fd04640c894e70a98f103bba8c388184c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 111/187] fix: ParsingConsole history handler changed the
 prompt setting

---
 src/Console/C3PConsole.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 203c713..de09f7f 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -523,7 +523,6 @@ int8_t ParsingConsole::console_handler_conf(StringBuilder* text_return, StringBu
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "history")) {
     if (1 < args->count()) {
-      emitPrompt(0 != arg1);
       char* subcmd = args->position_trimmed(1);
       if (0 == StringBuilder::strcasecmp(subcmd, "clear")) {
         clearHistory();
-- 
2.43.0


From ede4ce5865bbdd4dd9bfc90681e9f1da8c68be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 112/187] fix: ParsingConsole executed unterminated input as
 commands

---
 src/Console/C3PConsole.cpp | 51 ++++++++++++++++----------------------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 22 insertions(+), 31 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index de09f7f..10ea620 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,10 +207,11 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
-      StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
-      _buffer.drop_position(0);
+  else {
+    StringBuilder line;
+    while (_take_line(&line)) {
+      StringBuilder tmp_str_bldr(line.position_trimmed(0));
+      line.clear();
       if (!tmp_str_bldr.isEmpty()) {
         ret = (0 != ret) ? ret : 0;
         _history_idx = _max_history;
@@ -422,37 +423,27 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 
 /**
-* Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+* Checks for the configured terminator in the input stream, and removes the first
+*   terminated line (if any) from the buffer. Anything that follows the final
+*   terminator remains in the buffer until its own terminator arrives.
 *
-* @return true if there is a line-ending in the buffer.
+* @param line The buffer that is to receive the line, without its terminator.
+* @return true if there was a line-ending in the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
+bool ParsingConsole::_take_line(StringBuilder* line) {
   const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
-  const int L_TERM_LEN = strlen(L_TERM);
-  bool ret = false;
-  bool buf_has_lterm = false;
-  switch (L_TERM_LEN) {
-    case 2:
-      buf_has_lterm = _buffer.contains(L_TERM);
-      break;
-    case 1:
-      buf_has_lterm = _buffer.contains(L_TERM[0]);
-      break;
-    case 0:
-    default:
-      break;
-  }
-
-  if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
-      ret = true;
-    }
-    else {
-      _buffer.clear();
+  const int L_TERM_LEN = lineTerminatorLength(_rx_terminator);
+  int line_len = -1;
+  if ((0 < L_TERM_LEN) && (L_TERM_LEN <= _buffer.length())) {
+    line_len = _buffer.locate((const uint8_t*) L_TERM, L_TERM_LEN);
+  }
+  if (0 <= line_len) {
+    if (0 < line_len) {
+      line->concat(_buffer.string(), line_len);
     }
+    _buffer.cull(line_len + L_TERM_LEN);
   }
-  return ret;
+  return (0 <= line_len);
 }
 
 
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..766f025 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    bool _take_line(StringBuilder*);            // Takes one terminated line from the buffer.
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0


From 9e5540a3ee35ea377e397e15333cdcc425cc91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 113/187] fix: ParsingConsole lost input that followed a
 backspace

---
 src/Console/C3PConsole.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 10ea620..d09d0c5 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -169,14 +169,21 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
     }
     printToLog(nullptr);   // Flush the log out of the console.
   }
-  if (0x08 == first_byte) {   // If we see the backspace key...
+  const uint8_t BACKSPACE = 0x08;
+  int bs_idx = incoming->locate(&BACKSPACE, 1);
+  while (0 <= bs_idx) {   // If we see the backspace key...
+    if (0 < bs_idx) {     // ...take what was entered ahead of it.
+      _buffer.concat(incoming->string(), bs_idx);
+      _process_buffer();
+    }
     int blen = _buffer.length();
     if (0 < blen) {   // ...and we have accumulated input...
       _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
     }
-    incoming->cull(1);  // Drop the first character of the input.
+    incoming->cull(bs_idx + 1);  // Drop what we consumed from the input.
+    bs_idx = incoming->locate(&BACKSPACE, 1);
   }
-  else {
+  if (!incoming->isEmpty()) {
     _buffer.concatHandoff(incoming);  // Take the buffer.
     _process_buffer();  // TODO: Observe return code.
   }
-- 
2.43.0


From 402cf3304c9d89ef76c231202e2b60a5d4b84a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 114/187] fix: M2MMsgHdr counts the whole length field in the
 length of a message

Messages long enough to need a length field of two or three bytes declared a
total that was short by one or two, so that the end of the payload was cut off
and the link lost its framing. A length near 2^32 wrapped and was accepted.
---
 src/M2MLink/M2MMsgHdr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..cf58e6c 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -58,7 +58,7 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);  // A wider length field is part of the total.
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
   }
 }
@@ -100,9 +100,9 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
   if (needed_total_sz > 0x000000FF) calcd_len_sz++;
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
-  if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
+  if ((pl_len <= 0x00FFFFFD) && (needed_total_sz <= 0x00FFFFFD)) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);  // A wider length field is part of the total.
     chk_byte = calc_hdr_chcksm();
     ret = true;
   }
-- 
2.43.0


From a100bd63415001bd704a6ca6b7f191a7996fa79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 115/187] fix: M2MMsgHdr never assigns 0 as the automatic
 message ID

A random number with its low 24 bits clear gave a message that needs a reply
without any ID, which isValid() refuses and the link cannot send.
---
 src/M2MLink/M2MMsgHdr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index cf58e6c..ddd0cad 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -38,11 +38,12 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
     msg_len(0),
     msg_id(i & 0x00FFFFFF)
 {
-  if ((f & M2MMSGHDR_FLAG_EXPECTING_REPLY) & (0 == i)) {
+  if ((f & M2MMSGHDR_FLAG_EXPECTING_REPLY) && (0 == msg_id)) {
     // Assign an ID automatically, if needed.
     if (M2MMsgCode::SYNC_KEEPALIVE != m) {
       // SYNC is allowed to have a reply with no ID.
       msg_id = (0x00FFFFFF & randomUInt32());
+      if (0 == msg_id) msg_id = 1;   // Zero means that there is no ID.
     }
   }
 
-- 
2.43.0


From b177ccde1a13dc43192f1183e75f90bba7040c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 116/187] fix: M2MMsg refuses headers without a length, or
 shorter than themselves

A header without a length field was parsed from beyond the end of the input,
and either kind left the link holding a message that can never be complete,
which swallowed everything received after it.
---
 src/M2MLink/M2MMsg.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..6bc51c9 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,16 +60,21 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == len_l) {
+      ret = -3;   // Length is a required field.
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
       if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
-        ret = 1;
-        if (0 < hdr->payload_length()) {
-          ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
+        if (0 <= hdr->payload_length()) {   // A message can't be shorter than its header.
+          ret = 1;
+          if (0 < hdr->payload_length()) {
+            ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
+          }
         }
       }
     }
-- 
2.43.0


From 0bf69934d67daf8f02c983d2ec68a6e8087b87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 117/187] fix: M2MMsg reports a payload that can't be
 serialized

serialize() returned success, with the payload missing from the message.
---
 src/M2MLink/M2MMsg.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 6bc51c9..bd34c1f 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -335,10 +335,11 @@ int M2MMsg::serialize(StringBuilder* buf) {
     int payload_len = 0;
     if (nullptr != _kvp) {
       ret--;
-      if (0 == _kvp->serialize(&payload, _encoding)) {
-        ret--;
-        payload_len = payload.length();
+      if (0 != _kvp->serialize(&payload, _encoding)) {
+        return ret;   // Don't send the message without its payload.
       }
+      ret--;
+      payload_len = payload.length();
     }
     if (_header.set_payload_length(payload_len)) {
       ret--;
-- 
2.43.0


From dacf86b73492c6adabeca18fe24fea457c62d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 118/187] fix: M2MLink doesn't look for services beyond its
 slots

A message for any of the 16 service slots in the protocol indexed a list of
CONFIG_C3PLINK_SERVICE_SLOTS pointers, and called through whatever was there.
---
 src/M2MLink/M2MLink.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index c1f43d5..8d638f1 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1128,11 +1128,8 @@ int8_t M2MLink::_invoke_msg_callback(M2MMsg* msg) {
 */
 int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   int8_t ret = -1;
-  if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
-    ret++;
-  }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
-    ret++;
+  if ((CONFIG_C3PLINK_SERVICE_SLOTS > slot) && (nullptr != _svc_list[slot])) {
+    ret = 1;
     _svc_list[slot]->_handle_msg(_session_tag, msg);
     if (BusOpcode::TX == msg->direction()) {
       // If the message is now marked as TX, it means the application wants to
-- 
2.43.0


From 42cf53f7072fe3def934c9afbfc2efdc6ccd3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 119/187] fix: M2MLink frees the message it drops when its
 inbound queue is full

---
 src/M2MLink/M2MLink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 8d638f1..b238c48 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1229,6 +1229,7 @@ int8_t M2MLink::_process_input_buffer() {
             }
             else {
               c3p_log(LOG_LEV_WARN, __PRETTY_FUNCTION__, "Link 0x%08x inbound message queue flood.\n", _session_tag);
+              _reclaim_m2mmsg(_working);
             }
           }
           else {
-- 
2.43.0


From 9d3e7e29a72d418762192bff125faaf7b0cc895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 120/187] fix: M2MLink frees answered messages, and only drops
 those

A reply released the message it answers from the queue without freeing it. And
it dropped any queued message with that ID: a reply without an ID (as for sync)
cleared messages without an ID that had not been sent yet.
---
 src/M2MLink/M2MLink.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index b238c48..52c3fab 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -950,13 +950,15 @@ int8_t M2MLink::_churn_outbound() {
 */
 int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   int8_t ret = 0;
-  for (int i = 0; i < _outbound_messages.size(); i++) {
+  for (int i = _outbound_messages.size() - 1; i >= 0; i--) {
     M2MMsg* temp = _outbound_messages.get(i);
     if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
+      // Only those messages that went out and want a reply can be satisfied.
+      if (temp->wasSent() && temp->expectsReply() && (id == temp->uniqueId())) {
         temp->markACKd();
         _outbound_messages.remove(temp);
-        ret = 1;
+        _reclaim_m2mmsg(temp);
+        ret++;
       }
     }
   }
-- 
2.43.0


From 74b557144bf628a7fcf6d3f663446d74510a9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 121/187] fix: M2MMsg frees the payload that it decoded from
 the wire

Every complete inbound message leaked its decoded payload. A payload passed to
reply() remains the property of the caller, as it is for setPayload().
---
 src/M2MLink/M2MMsg.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index bd34c1f..570fdff 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -135,6 +135,10 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  if (nullptr != _kvp) {
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -161,6 +165,10 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  if (nullptr != _kvp) {
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -239,11 +247,15 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    if (nullptr != _kvp) {   // Drop the payload that we received.
+      delete _kvp;
+    }
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;   // The caller still owns the new payload.
   }
   return ret;
 }
@@ -282,6 +294,9 @@ int M2MMsg::setPayload(KeyValuePair* payload) {
     case BusOpcode::TX:
       _accumulator.clear();
       _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+      if (nullptr != _kvp) {
+        delete _kvp;
+      }
       _kvp = payload;
       ret = (0 == serialize(&_accumulator)) ? 0 : -2;
       _kvp = nullptr;   // TODO: Clearly enforce memory contract with client classes.
-- 
2.43.0


From eac34d152cb1d9801bf44d5828af73f20b88670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 122/187] fix: M2MLink frees the payloads of WHO messages

---
 src/M2MLink/M2MLink.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 52c3fab..8c29fdc 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -781,6 +781,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
+          delete kvps_rxd;
         }
 
         if (temp->isReply()) {
@@ -795,8 +796,8 @@ int8_t M2MLink::_churn_inbound() {
           // We are being queried about our Identity.
           if (_id_loc) {
             // If we have one assigned, serialize and relay it as a reply.
-            KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-            int8_t ret_local = temp->reply(a, true);
+            KeyValuePair a("ident", _id_loc);
+            int8_t ret_local = temp->reply(&a, true);
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -1474,8 +1475,8 @@ int8_t M2MLink::_send_who_message() {
   if (nullptr != msg) {
     ret--;
     if (_id_loc) {
-      KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-      msg->setPayload(a);
+      KeyValuePair a("ident", _id_loc);
+      msg->setPayload(&a);
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
-- 
2.43.0


From 755a7d47b91c8dd1f941653b82c78befb7fe40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 123/187] fix: M2MLink survives a LOG message without a
 payload, and frees the others

getPayload() gives no payload when there is none, or it can't be decoded.
---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 8c29fdc..2c310d5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -979,7 +979,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
   if (_flags.value(M2MLINK_FLAG_ALLOW_LOG_WRITE)) {   // Will we allow a write to our log?
     ret++;
     KeyValuePair* inbound_kvp = nullptr;
-    if (0 == msg->getPayload(&inbound_kvp)) {
+    if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
       if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
@@ -988,7 +988,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
+      delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
-- 
2.43.0


From 53f2e14c10b433bfb10cc45aabe17e7330ac7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 124/187] fix: M2MLink doesn't dereference missing messages in
 its failure logs

---
 src/M2MLink/M2MLink.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 2c310d5..c72dd7e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -614,10 +614,10 @@ int8_t M2MLink::_send_msg(M2MMsg* msg) {
       }
     }
   }
-  if ((0 > ret) & (LOG_LEV_ERROR >= _verbosity)) {
+  if ((0 > ret) & (_verbosity >= LOG_LEV_ERROR)) {
     StringBuilder tmp_log;
     tmp_log.concatf("Link 0x%08x failed in _send_msg(): %d\n", _session_tag, ret);
-    msg->printDebug(&tmp_log);
+    if (nullptr != msg) msg->printDebug(&tmp_log);
     c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, &tmp_log);
   }
   return ret;
@@ -1418,7 +1418,7 @@ int8_t M2MLink::_send_connect_message() {
     if (_verbosity >= LOG_LEV_CRIT) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x failed to serialize a connect header.\n", _session_tag);
-      _working->printDebug(&tmp_log);
+      connect_msg.printDebug(&tmp_log);
       c3p_log(LOG_LEV_CRIT, __PRETTY_FUNCTION__, &tmp_log);
     }
   }
-- 
2.43.0


From 4f1cdf3054ff3ae3d78cc48b76234936c9c241ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 125/187] fix: M2MLink keeps the start of a sync packet that is
 still arriving

While looking for sync, input without a complete sync packet was dropped in
multiples of four bytes, and with it any sync packet that straddles the end of
the input. A transport that delivers four bytes at a time, out of step, could
never synchronize.
---
 src/M2MLink/M2MLink.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index c72dd7e..3047de3 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1363,12 +1363,12 @@ int8_t M2MLink::_process_for_sync() {
   }
   else {
     // Without finding a sync packet, we drop the data.
-    // Cull to a modulus of 4 bytes so as not to drop data we haven't tested.
-    const uint32_t CULL_LEN = ((uint32_t) AVAILABLE_LEN) & 0xFFFFFFFC;
-    if (0 < CULL_LEN) {   // clear() is cheaper than cull().
+    // Keep the bytes that could be the start of a sync packet whose remainder
+    //   is still to come, so as not to drop data we haven't tested.
+    const int CULL_LEN = AVAILABLE_LEN - (M2MMSGHDR_MINIMUM_HEADER_SIZE - 1);
+    if (0 < CULL_LEN) {
       ret = 0;
-      if ((uint32_t)AVAILABLE_LEN == CULL_LEN) {  _inbound_buf.clear();  }
-      else {  _inbound_buf.cull(CULL_LEN);  }
+      _inbound_buf.cull(CULL_LEN);
     }
   }
   if (_verbosity >= LOG_LEV_DEBUG) {
-- 
2.43.0


From 7bcef7edc6c3bce097aff4f1777ef382237958ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 126/187] fix: M2MLink notes every reply, and only replies, as
 answers

A reply that was itself answered did not release the message it answers, which
was then sent again and counted as having failed. And a message that could not
be answered for want of room was taken for a reply to a message of our own.
---
 src/M2MLink/M2MLink.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 3047de3..675d77e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -667,6 +667,9 @@ int8_t M2MLink::_churn_inbound() {
     int8_t app_msg_ret = 127;
     M2MMsg* temp = _inbound_messages.dequeue();
     KeyValuePair* kvps_rxd = nullptr;
+    // Handlers might turn the message into a reply. Note what it was before.
+    const bool     IS_REPLY = temp->isReply();
+    const uint32_t REPLY_ID = temp->uniqueId();
 
     if (_verbosity >= LOG_LEV_INFO) {
       StringBuilder tmp_log;
@@ -862,10 +865,10 @@ int8_t M2MLink::_churn_inbound() {
         break;
     }
 
+    if (IS_REPLY) {
+      _clear_waiting_send_by_id(REPLY_ID);
+    }
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
-- 
2.43.0


From 3e92fc1abe08686960733d922725554ce3a06b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 127/187] fix: M2MLink frees the CONNECT messages that it
 answered

---
 src/M2MLink/M2MLink.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 675d77e..7b71eb2 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -711,10 +711,8 @@ int8_t M2MLink::_churn_inbound() {
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
-          if (0 == temp->ack()) {
-            gc_message = false;
-          }
-          else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          // The reply is sent straight to the transport, and not queued.
+          if ((0 != temp->ack()) && (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
-- 
2.43.0


From a6cbccb46bc9ea13476f45bb0597520ba004cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 128/187] fix: M2MLink accepts replies to CONNECT only while it
 waits for one

A reply that arrived early (behind the sync packets) marked the session as
established without planning the states that follow, and the next one led
straight to LIVE, also when the link requires authentication. Unsolicited
replies made a LIVE link enter that state again.
---
 src/M2MLink/M2MLink.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 7b71eb2..a08d3c6 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -695,20 +695,19 @@ int8_t M2MLink::_churn_inbound() {
 
       case M2MMsgCode::CONNECT:
         if (temp->isReply()) {
-          if (!_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-            if (_fsm_is_stable()) {   // Ensures we are in SYNC_TENTATIVE.
-              if (_flags.value(M2MLINK_FLAG_AUTH_REQUIRED)) {
+          // This only means something to a link that is waiting for it. In any
+          //   other state, a CONNECT message will be sent again, if needed.
+          if (M2MLinkState::SYNC_TENTATIVE == currentState()) {
+            if (_fsm_is_stable()) {   // The link has nowhere else to be.
+              if (_flags.value(M2MLINK_FLAG_AUTH_REQUIRED) & !_flags.value(M2MLINK_FLAG_AUTHD)) {
                 _fsm_append_route(2, M2MLinkState::PENDING_AUTH, M2MLinkState::LIVE);
               }
               else {
                 _fsm_append_route(1, M2MLinkState::LIVE);
               }
             }
+            _flags.set(M2MLINK_FLAG_ESTABLISHED);
           }
-          else {
-            _fsm_append_route(1, M2MLinkState::LIVE);
-          }
-          _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
           // The reply is sent straight to the transport, and not queued.
-- 
2.43.0


From 6047be38bf652fc67acd6b6ba5b08f5ce156dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 129/187] fix: M2MLink restores a sync that it lost while it
 waits for its counterparty

A link that lost sync in SYNC_TENTATIVE, PENDING_AUTH or PENDING_HANGUP planned
to restore it, but remained in that state until it received what it was waiting
for, which it could no longer do. Each poll then added to the plan.
---
 src/M2MLink/M2MLink.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index a08d3c6..df43c3f 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1568,6 +1568,18 @@ int8_t M2MLink::_fsm_poll() {
       break;
   }
 
+  // Loss of sync takes precedence over whatever the state is waiting for, since
+  //   it can't arrive until sync is restored.
+  switch (currentState()) {
+    case M2MLinkState::SYNC_TENTATIVE:
+    case M2MLinkState::PENDING_AUTH:
+    case M2MLinkState::PENDING_HANGUP:
+      fsm_advance |= _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
+      break;
+    default:
+      break;
+  }
+
   // If the current state's exit criteria is met, we advance the FSM.
   if (fsm_advance & (-1 != ret)) {
     ret = (0 == _fsm_advance()) ? 1 : 0;
@@ -1683,6 +1695,19 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
+  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
+    return 0;   // Already planned.
+  }
+  switch (currentState()) {
+    case M2MLinkState::PENDING_AUTH:     // These states have not finished what
+    case M2MLinkState::PENDING_HANGUP:   //   they are for. Return to them.
+      if (0 != _fsm_prepend_state(currentState())) {
+        return ret;
+      }
+      break;
+    default:
+      break;
+  }
   if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
       ret = 0;
-- 
2.43.0


From 7025b98474bce3834d2eb44ad5dc54720a732b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 130/187] fix: M2MLink repeats a CONNECT that was not answered

A link whose CONNECT (or the reply to it) was lost remained in SYNC_TENTATIVE
for good.
---
 src/M2MLink/M2MLink.cpp | 7 +++++++
 src/M2MLink/M2MLink.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index df43c3f..0e7d849 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -274,6 +274,12 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
           _send_sync_packet(true);
         }
       }
+      // CONNECT doesn't go through the queue. If it isn't answered, repeat it.
+      if (M2MLinkState::SYNC_TENTATIVE == currentState()) {
+        if (millis_since(_ms_connect) > _opts.ms_timeout) {
+          _send_connect_message();
+        }
+      }
       break;
   }
   int8_t ret = _fsm_poll();                 // Poll the link's FSM.
@@ -1407,6 +1413,7 @@ int8_t M2MLink::_send_sync_packet(bool need_reply) {
 */
 int8_t M2MLink::_send_connect_message() {
   int8_t ret = -1;
+  _ms_connect = millis();
   // TODO: For now, this will just send a connection message directly to the transport.
   StringBuilder connect_packet;
   M2MMsgHdr connect_header(M2MMsgCode::CONNECT, 0, true);
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 4a503b4..f85439c 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -525,6 +525,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     uint32_t        _session_tag    = 0;        // Allows the application to keep track of our callbacks.
     uint32_t        _ms_last_send   = 0;        // At what time did the last message go out?
     uint32_t        _ms_last_rec    = 0;        // At what time did the last message come in?
+    uint32_t        _ms_connect     = 0;        // At what time did we last try to CONNECT?
     uint16_t        _sync_losses    = 0;        // How many times this session have we lost sync?
     uint16_t        _unackd_sends   = 0;        // How many messages that needed an ACK failed to get one?
     M2MMsg*         _working        = nullptr;  // If we are in the middle of receiving a message,
-- 
2.43.0


From b8c7fafb42885c28643038b57fa844886403bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 131/187] fix: M2MLink keeps messages in order when the
 transport refuses one

A message that could not be sent yet went back into the queue behind the others
of its priority.
---
 src/M2MLink/M2MLink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 0e7d849..ed3db3a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -889,7 +889,7 @@ int8_t M2MLink::_churn_outbound() {
   int8_t ret = 0;
   if (_outbound_messages.hasNext()) {
     int current_priority = _outbound_messages.getPriority(0);
-    M2MMsg* temp = _outbound_messages.dequeue();
+    M2MMsg* temp = _outbound_messages.get(0);
     if (nullptr != temp) {
       int new_priority = (temp->msgCode() == M2MMsgCode::APPLICATION) ? M2MLINK_PRIORITY_APP : M2MLINK_PRIORITY_INTERNAL;
       bool gc_msg    = false;
@@ -936,11 +936,13 @@ int8_t M2MLink::_churn_outbound() {
         _outbound_messages.remove(temp);
         _reclaim_m2mmsg(temp);
       }
-      else {
+      else if (temp->wasSent()) {
         // NOTE: We skip the queue-size check, considering that we just pulled
         //   this object from this very queue.
+        _outbound_messages.remove(temp);
         _outbound_messages.insert(temp, new_priority);
       }
+      // NOTE: A message that the transport refused keeps its place in the queue.
     }
   }
   return ret;
-- 
2.43.0


From 8d7dbe989f34ddfac97488667acad5be50a9ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 132/187] fix: M2MLink hangs up at once when it is told not to
 wait

hangup(false) planned the transition, but a link that is not LIVE still waited
for its counterparty before making it, which defeats the purpose if the
counterparty is gone.
---
 src/M2MLink/M2MLink.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index ed3db3a..357bbcd 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -332,7 +332,14 @@ int8_t M2MLink::hangup(bool graceful) {
     //   with the PENDING_HANGUP state. Obliterate the existing dialogs.
     _purge_inbound();
     _purge_outbound();
-    ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
+    if (M2MLinkState::HUNGUP == currentState()) {
+      ret = 0;
+    }
+    else {
+      // Whatever the present state is waiting for might never come.
+      ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
+      if (0 == ret) _fsm_advance();
+    }
   }
   return ret;
 }
-- 
2.43.0


From dcceea342f5c4fa56c1de48913bbafa976a01ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 133/187] fix: M2MLink::writeRemoteLog() consumes the log and
 tells why it failed, as documented

---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 357bbcd..0d70846 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -385,8 +385,8 @@ int8_t M2MLink::reset() {
 int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
   int8_t ret = -1;
   if (!outbound_log->isEmpty()) {
+    ret--;
     if (_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-      ret--;
       M2MMsgHdr hdr(M2MMsgCode::LOG, 0, (need_reply ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0));
       M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
       ret--;
@@ -404,10 +404,10 @@ int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
             ret = 0;
           }
         }
-        outbound_log->clear();  // Free the original buffer.
         if (gc_message) _reclaim_m2mmsg(msg);
       }
     }
+    outbound_log->clear();  // Free the original buffer.
   }
   return ret;
 }
-- 
2.43.0


From 47d36103604d12e33d101fe5e8930b62e283aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 134/187] fix: M2MMsg can send a message without a payload more
 than once

A message whose payload was never set is serialized straight into the buffer of
the caller. But it was marked as being in the accumulator, from which each retry
then sent nothing at all.
---
 src/M2MLink/M2MMsg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 570fdff..e59ed0d 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -364,7 +364,9 @@ int M2MMsg::serialize(StringBuilder* buf) {
         if (!payload.isEmpty()) {
           buf->concatHandoff(&payload);
         }
-        _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        if (buf == &_accumulator) {
+          _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        }
         ret = 0;
       }
     }
-- 
2.43.0


From d9e24d88d64683d16c4675deaab80dc3b27061ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 135/187] fix: SimpleDataRecord's payload hash depends on the
 payload

---
 src/Storage/SimpleDataRecord.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8c20fda..5a0d7e9 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -16,7 +16,11 @@ uint32_t static_hash_wrapper_fxn(const uint8_t* BUF, const uint32_t LEN) {
       // But we'll fall back to something simple if we don't have one.
       // https://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
     #endif  // __HAS_CRYPT_WRAPPER
-  return (0xAAAAAAAA ^ LEN);  // TODO
+  uint32_t ret = 2166136261UL;  // FNV-1a, 32-bit.
+  for (uint32_t i = 0; i < LEN; i++) {
+    ret = (ret ^ *(BUF + i)) * 16777619UL;
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 9bebdbed7c87a7c9cf4b9a96c45c60c411d5b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 136/187] fix: Loading a SimpleDataRecord from a StringBuilder
 respects the length of the payload

---
 src/Storage/SimpleDataRecord.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 5a0d7e9..1963150 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -219,9 +219,10 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
     ret--;
     if (_storage_tag == storage_tag) {
       ret--;
-      if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
+      const bool HAVE_PAYLOAD = ((uint32_t) (inbound_buf->length() - DATARECORD_BASE_SIZE) >= _data_length);
+      if (HAVE_PAYLOAD && (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length))) {
         // Hash matches. Cull the useless edges of the buffer...
-        inbound_buf->cull(DATARECORD_BASE_SIZE);
+        inbound_buf->cull(DATARECORD_BASE_SIZE, _data_length);
         ret--;
         if (0 == deserialize(inbound_buf, _format)) {
           _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-- 
2.43.0


From 2a7fa18ed505461a433b9cc4ec7ccda3822e5e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 137/187] fix: SimpleDataRecord::save() doesn't take foreign
 content of the buffer for its own payload

---
 src/Storage/SimpleDataRecord.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 1963150..a6736ca 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -160,11 +160,14 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
   if (0 == _sanitize_name(name)) {
     ret--;
     _storage_tag = storage_tag;
-    if (0 == serialize(outbound_buf, _format)) {
+    // The buffer we were given might already contain something that isn't ours.
+    StringBuilder record_buf;
+    if (0 == serialize(&record_buf, _format)) {
       ret--;
-      _hash = static_hash_wrapper_fxn(outbound_buf->string(), outbound_buf->length());
-      _data_length = outbound_buf->length();
-      if (0 == _descriptor_serialize(outbound_buf)) {
+      _hash = static_hash_wrapper_fxn(record_buf.string(), record_buf.length());
+      _data_length = record_buf.length();
+      if (0 == _descriptor_serialize(&record_buf)) {
+        outbound_buf->concatHandoff(&record_buf);
         ret = 0;
       }
     }
-- 
2.43.0


From 527b7081f6dc8e0566f5fbcf8ddaf554c0dfd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 138/187] fix: SimpleDataRecord truncates names of any length

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index a6736ca..0423b6a 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -252,7 +252,7 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t SimpleDataRecord::_sanitize_name(const char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint32_t NAME_LENGTH = strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From ccbcc2f371a8e3c92262e121f6db2c445601b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 139/187] fix: SimpleDataRecord::printDebug() doesn't print
 past the end of the key

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 0423b6a..e8483c1 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -37,7 +37,7 @@ SimpleDataRecord::SimpleDataRecord(uint32_t storage_tag, StorageRecordType rtype
 
 void SimpleDataRecord::printDebug(StringBuilder* output) {
   output->concatf("\t Tag:\t 0x%08x\n", _storage_tag);
-  output->concatf("\t Key:\t %s\n", _key);
+  output->concatf("\t Key:\t %.*s\n", (int) sizeof(_key), (char*) _key);  // Might not be terminated.
   output->concatf("\t Dirty:\t %c\n", isDirty() ? 'y':'n');
   output->concatf("\t Type:\t 0x%02x\n", recordType());
   output->concatf("\t Hash:\t 0x%08x\n", _hash);
-- 
2.43.0


From 7f3c5384757966e00711ffef80079748ae5f48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 140/187] fix: SimpleDataRecord::load() accepts the record of
 an empty payload

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index e8483c1..b028ba6 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -185,7 +185,7 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
-  if (buf_len > DATARECORD_BASE_SIZE) {
+  if (buf_len >= DATARECORD_BASE_SIZE) {
     StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
     if (0 == _descriptor_deserialize(&desc_container)) {
       ret--;
-- 
2.43.0


From d979475c8e097760fb0ca85fe584ecc4fc265b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 141/187] fix: A failed load leaves the descriptor of a
 SimpleDataRecord as it was

---
 src/Storage/SimpleDataRecord.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index b028ba6..a3d3d2f 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -185,6 +185,10 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
+  // If we fail, our own descriptor should remain as it was.
+  const uint8_t PRIOR_FLAGS = _flags;
+  StringBuilder prior_desc;
+  _descriptor_serialize(&prior_desc);
   if (buf_len >= DATARECORD_BASE_SIZE) {
     StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
     if (0 == _descriptor_deserialize(&desc_container)) {
@@ -205,6 +209,10 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32
       }
     }
   }
+  if (0 != ret) {
+    _descriptor_deserialize(&prior_desc);
+    _flags = PRIOR_FLAGS;
+  }
   return ret;
 }
 
@@ -218,6 +226,10 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf) {
   int8_t ret = -1;
+  // If we fail, our own descriptor should remain as it was.
+  const uint8_t PRIOR_FLAGS = _flags;
+  StringBuilder prior_desc;
+  _descriptor_serialize(&prior_desc);
   if (0 == _descriptor_deserialize(inbound_buf)) {
     ret--;
     if (_storage_tag == storage_tag) {
@@ -234,6 +246,10 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
       }
     }
   }
+  if (0 != ret) {
+    _descriptor_deserialize(&prior_desc);
+    _flags = PRIOR_FLAGS;
+  }
   return ret;
 }
 
-- 
2.43.0


From 9df8d0b4bdfa2ef3ab0217e6d2eaca4e6103d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 142/187] fix: ConfRecord serializes into well-formed CBOR

---
 src/Storage/RecordTypes/ConfRecord.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index a1a89c7..02e7aeb 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -263,11 +263,14 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
       {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        encoder.write_map(2);
+        StringBuilder conf_map;   // Empty, if nothing in the record has a value.
+        _kvp->serialize(&conf_map, format);
+        encoder.write_map(conf_map.isEmpty() ? 1 : 2);
           serialize_cbor_kvp_for_record(&encoder);  // Accounts for the first KVP.
-          encoder.write_string(_list_name());    // Accounts for the second KVP.
-          encoder.write_array(_key_count());
-          _kvp->serialize(out, format);
+          if (!conf_map.isEmpty()) {
+            encoder.write_string(_list_name());    // Accounts for the second KVP.
+            out->concatHandoff(&conf_map);
+          }
 
         ret = 0;  // TODO: Error handling?
       }
-- 
2.43.0


From b445c481dd8d680159bb14a13c513de58b1addf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 143/187] fix: ConfRecord::deserialize() stores the decoded
 values under the keys they belong to

---
 src/Storage/RecordTypes/ConfRecord.cpp | 82 ++++++++++++++++++++++++--
 src/Storage/RecordTypes/ConfRecord.h   |  3 +
 2 files changed, 79 insertions(+), 6 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index 02e7aeb..af2e38c 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -111,7 +111,12 @@ int8_t ConfRecord::_set_conf(const char* KEY, const TCode TC_ARG, void* src) {
     C3PValue* container_of_interest = _kvp->valueWithKey(KEY);
     if (nullptr != container_of_interest) {
       ret--;
+      char* prior_str = _owned_string(container_of_interest);
       if (0 == container_of_interest->set_from(TC_ARG, src)) {
+        if ((nullptr != prior_str) && (src != (void*) prior_str)) {
+          free(prior_str);
+          container_of_interest->reapValue(false);
+        }
         ret = 0;
       }
     }
@@ -252,6 +257,55 @@ int32_t ConfRecord::_allocate_kvp() {
 * Parsing and packing
 *******************************************************************************/
 
+/**
+* Takes the values of our own keys from the given (decoded) KVP.
+* Keys that we don't know are ignored. Keys that are missing keep their values.
+*
+* @return 0 on success, or -3 if there was a value that the key can't represent.
+*/
+int8_t ConfRecord::_take_values(KeyValuePair* conf_map) {
+  int8_t ret = 0;
+  StringBuilder key_export;
+  _key_list(&key_export);
+  while (0 < key_export.count()) {
+    char* key_str = key_export.position(0);
+    KeyValuePair* src  = conf_map->valueWithKey(key_str);
+    KeyValuePair* dest = _kvp->valueWithKey(key_str);
+    if ((nullptr != src) && (nullptr != dest)) {
+      char* prior_str = _owned_string(dest);
+      if (0 != dest->set((C3PValue*) src)) {
+        ret = -3;
+      }
+      else {
+        if (nullptr != prior_str) {
+          free(prior_str);
+        }
+        if (TCode::STR == dest->tcode()) {  // The decoded string now belongs to us.
+          dest->reapValue(src->reapValue());
+          src->reapValue(false);
+        }
+      }
+    }
+    key_export.drop_position(0);
+  }
+  return ret;
+}
+
+
+/*
+* @return The string that is held by (and will be free'd by) the given value, or nullptr.
+*/
+char* ConfRecord::_owned_string(C3PValue* val) {
+  char* ret = nullptr;
+  if ((TCode::STR == val->tcode()) && val->reapValue()) {
+    if (0 != val->get_as(TCode::STR, &ret)) {
+      ret = nullptr;
+    }
+  }
+  return ret;
+}
+
+
 int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
   int8_t ret = -1;
   if (!allocated()) {
@@ -288,18 +342,34 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
 
 int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
   int8_t ret = -1;
-  if (!allocated()) {
+  if (!allocated(true)) {
     return ret;  // TODO: Return contract spec'd where?
   }
   switch (format) {
     case TCode::CBOR:
       #if defined(__BUILD_HAS_CBOR)
       {
-        CBORArgListener cl(&_kvp);
-        cbor::input_static input(raw->string(), raw->length());
-        cbor::decoder decoder(input, cl);
-        decoder.run();
-        ret = (decoder.failed() ? -2 : 0);
+        ret = -2;
+        StringBuilder local_raw(raw->string(), raw->length());  // The decoder consumes its input.
+        C3PValueDecoder decoder(&local_raw);
+        C3PValue* decoded = decoder.next();
+        if (nullptr != decoded) {
+          if (decoded->has_key()) {
+            KeyValuePair* rec_map   = (KeyValuePair*) decoded;
+            KeyValuePair* conf_pair = rec_map->valueWithKey(_list_name());
+            if (nullptr != conf_pair) {
+              int8_t is_map = 0;
+              KeyValuePair* conf_map = conf_pair->get_as_kvp(&is_map);
+              if ((1 == is_map) && (nullptr != conf_map)) {
+                ret = _take_values(conf_map);
+              }
+            }
+            else if ((nullptr != rec_map->valueWithKey("meta")) && (1 == rec_map->count())) {
+              ret = 0;   // The record was written without any values.
+            }
+          }
+          delete decoded;
+        }
       }
       #endif
       break;
diff --git a/src/Storage/RecordTypes/ConfRecord.h b/src/Storage/RecordTypes/ConfRecord.h
index 41da4b5..32e0233 100644
--- a/src/Storage/RecordTypes/ConfRecord.h
+++ b/src/Storage/RecordTypes/ConfRecord.h
@@ -117,6 +117,9 @@ class ConfRecord : public SimpleDataRecord {
     int8_t _get_conf(const char* KEY, const TCode, void* val);
     int8_t _get_conf(const char* KEY, const TCode, uint8_t**, uint32_t* len);
 
+    int8_t _take_values(KeyValuePair*);
+    char*  _owned_string(C3PValue*);
+
     /* Slots to be occupied by the validation template. */
     virtual const char* const _list_name() =0;
     virtual const uint32_t    _key_count() =0;
-- 
2.43.0


From 4dfe676a9f73de657cf782e9d12df960556a85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 144/187] fix: GPSWrapper judges each sentence on its own,
 rather than by the ones before it

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c878c85..0e6a372 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -221,11 +221,11 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 bool GPSWrapper::_attempt_parse() {
   if (_accumulator.split("\n") == 0) return false;
   char* line = nullptr;
-  bool local_success = false;
-  bool emit_callback = false;
 
   // Always assume that the last token in the accumulator is an incomplete line.
   while (_accumulator.count() > 1) {
+    bool local_success = false;
+    bool emit_callback = false;
     line = _accumulator.position(0);
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
-- 
2.43.0


From 0d108896c4bf4d57c4801393bd598d21c1ad9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 145/187] fix: GPSWrapper neither loses the end of a line nor
 glues sentences together

---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 0e6a372..fe64e47 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -219,14 +219,23 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 
 
 bool GPSWrapper::_attempt_parse() {
-  if (_accumulator.split("\n") == 0) return false;
-  char* line = nullptr;
+  char line[MINMEA_MAX_LENGTH + 5];
+  bool ret = false;
+  int  line_len = 0;
 
-  // Always assume that the last token in the accumulator is an incomplete line.
-  while (_accumulator.count() > 1) {
+  // Always assume that whatever follows the last newline is an incomplete line.
+  while (0 < (line_len = (_accumulator.locate("\n") + 1))) {
     bool local_success = false;
     bool emit_callback = false;
-    line = _accumulator.position(0);
+    memset(line, 0, sizeof(line));
+    if (line_len < (int) sizeof(line)) {
+      _accumulator.copyToBuffer((uint8_t*) line, line_len);
+    }
+    _accumulator.cull(line_len);
+    ret = true;
+    if (1 == line_len) {
+      continue;   // An empty line is not a sentence.
+    }
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
       case MINMEA_SENTENCE_GSA:
@@ -348,9 +357,8 @@ bool GPSWrapper::_attempt_parse() {
       _sentences_rejected++;
       //_log.concatf("$xx%s sentence is not parsed: \n%s\n", _get_string_by_sentence_id(id), (const char*) line);
     }
-    _accumulator.drop_position(0);
   }
-  return true;
+  return ret;
 }
 
 
-- 
2.43.0


From 8bf8663d9179f9687ec9079b5839f553220883b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 146/187] fix: GPSWrapper limits its accumulator by what is
 left after parsing

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index fe64e47..5364537 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -149,11 +149,11 @@ static inline float minmea_tocoord(struct minmea_float *f) {
 */
 int8_t GPSWrapper::pushBuffer(StringBuilder* buf) {
   _accumulator.concatHandoff(buf);
-  const int32_t ACC_LEN = _accumulator.length();
-  if (MINMEA_MAX_LENGTH < ACC_LEN) {
+  if (MINMEA_MAX_LENGTH < _accumulator.length()) {
     _attempt_parse();
   }
 
+  const int32_t ACC_LEN = _accumulator.length();
   if (ACC_LEN > GPSWRAPPER_MAX_ACCUMULATOR_LEN) {
     _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
   }
-- 
2.43.0


From 86538e49333a276eeaf7c1da307fa5c05f9b591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 147/187] fix: GPSWrapper converts a coordinate with many
 decimal places without overflow

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 5364537..45ae173 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -128,9 +128,10 @@ static inline float minmea_tofloat(struct minmea_float *f) {
 */
 static inline float minmea_tocoord(struct minmea_float *f) {
   if (f->scale == 0) {     return NAN;     }
-  int_least32_t degrees = f->value / (f->scale * 100);
-  int_least32_t minutes = f->value % (f->scale * 100);
-  return (float) degrees + (float) minutes / (60 * f->scale);
+  const int64_t DEG_SCALE = ((int64_t) f->scale * 100);
+  int64_t degrees = f->value / DEG_SCALE;
+  int64_t minutes = f->value % DEG_SCALE;
+  return (float) degrees + (float) minutes / (60 * (int64_t) f->scale);
 }
 
 
-- 
2.43.0


From d7b3ad7f3d4985667c02fe36f96169bdf65b6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 148/187] fix: GPSWrapper does not make an integer of a missing
 altitude or speed

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 45ae173..e4dcac1 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -288,9 +288,11 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_gga frame;
           if (_parse_gga(&frame, line)) {
             _loc_frame.sat_count = frame.satellites_tracked;
-            switch (frame.altitude_units) {
-              case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
-              default:  break;
+            if (0 != frame.altitude.scale) {   // An empty field carries no altitude.
+              switch (frame.altitude_units) {
+                case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
+                default:  break;
+              }
             }
             //_log.concatf("$xxGGA: fix quality: %d\n", frame.fix_quality);
             local_success = true;
@@ -338,7 +340,9 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_vtg frame;
           if (_parse_vtg(&frame, line)) {
             _loc_frame.mag_bearing = minmea_tofloat(&frame.magnetic_track_degrees);
-            _loc_frame.speed       = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            if (0 != frame.speed_kph.scale) {   // An empty field carries no speed.
+              _loc_frame.speed = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            }
             local_success = true;
             emit_callback = true;
           }
-- 
2.43.0


From 4307a0aea315c31c363499afd21faf74978d3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 149/187] fix: GPSWrapper reads the date and time of a sentence
 as UTC, rather than in the local timezone

---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index e4dcac1..090b1c9 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -890,21 +890,21 @@ bool GPSWrapper::_parse_vtg(struct minmea_sentence_vtg *frame, const char *sente
 
 int GPSWrapper::_gettime(struct timespec *ts, const struct minmea_date* dval, const struct minmea_time* tval) {
   if (dval->year != -1 && tval->hours != -1) {
-    struct tm tm;
-    memset(&tm, 0, sizeof(tm));
-    tm.tm_year = 2000 + dval->year - 1900;
-    tm.tm_mon  = dval->month - 1;
-    tm.tm_mday = dval->day;
-    tm.tm_hour = tval->hours;
-    tm.tm_min  = tval->minutes;
-    tm.tm_sec  = tval->seconds;
-
-    //time_t timestamp = timegm(&tm); /* See README.md if your system lacks timegm(). */
-    time_t timestamp = mktime(&tm); /* See README.md if your system lacks timegm(). */
-    if (timestamp != -1) {
-      ts->tv_sec = timestamp;
+    static const uint16_t DAYS_BEFORE_MONTH[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+    const bool DATE_VALID = ((1 <= dval->month) && (12 >= dval->month) && (1 <= dval->day) && (31 >= dval->day));
+    const bool TIME_VALID = ((24 > tval->hours) && (60 > tval->minutes) && (60 >= tval->seconds));
+    if (DATE_VALID && TIME_VALID) {
+      // GPS time is UTC. Neither mktime(), nor the local timezone, has any part
+      //   in this. Years are 2000-2099, so each fourth of them is a leap year.
+      uint32_t days = 10957 + (dval->year * 365) + ((dval->year + 3) / 4);   // 2000-01-01 is day 10957.
+      days += DAYS_BEFORE_MONTH[dval->month - 1] + (dval->day - 1);
+      if ((2 < dval->month) && (0 == (dval->year % 4))) {
+        days++;
+      }
+      const int64_t SECONDS = (((int64_t) days * 86400) + (tval->hours * 3600) + (tval->minutes * 60) + tval->seconds);
+      ts->tv_sec  = (time_t) SECONDS;
       ts->tv_nsec = tval->microseconds * 1000;
-      return 0;
+      return ((int64_t) ts->tv_sec == SECONDS) ? 0 : -1;   // A small time_t might not reach.
     }
   }
   return -1;
-- 
2.43.0


From 51ed7401a13ed102012c805a56a14ee5a89876b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 150/187] fix: GPSWrapper::haversineDistance() gives the whole
 of the distance

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 090b1c9..e7e0103 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -83,7 +83,7 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
   double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
-  ret = (int32_t) (MEAN_RADIUS_OF_EARTH * haversine_arctan);
+  ret = (int32_t) (2.0 * MEAN_RADIUS_OF_EARTH * haversine_arctan);
   return ret;
 }
 
-- 
2.43.0


From d6e676e2e9bb14edf0b61688fc7f6b50a16c0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 151/187] fix: GPSWrapper takes a sentence without checksum
 only if nothing but the newline follows

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index e7e0103..ed74a7b 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -408,7 +408,7 @@ bool GPSWrapper::_check(const char *sentence, bool strict) {
           }
         }
       }
-      else if (*sentence && (!strict) && ((*sentence == '\n') || (*sentence == '\r'))) {
+      else if ((!strict) && ((0 == strcmp(sentence, "\n")) || (0 == strcmp(sentence, "\r\n")))) {
         // The only stuff allowed at this point is a newline, and then only if
         //   strict mode is false.
         return true;
-- 
2.43.0


From b561a735c37771cd3d8a1e0585f2572f437e8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 152/187] fix: TripleAxisTerminus reports the vectors that it
 took as taken

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 81485e5..b57711c 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -183,6 +183,7 @@ int8_t TripleAxisTerminus::getDataWithErr(Vector3f* d, Vector3f* e, uint32_t* c)
 FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -1;
   if (_SENSE == s) {
+    ret = 0;
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-- 
2.43.0


From 4bbc6173fee412a8cc620bd0800bb03c923e4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 153/187] fix: TripleAxisTerminus does not pair a vector with
 the error of an earlier one

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index b57711c..c2fb236 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -187,9 +187,9 @@ FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f*
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-    if (nullptr != error) {
+    _has_error = (nullptr != error);
+    if (_has_error) {
       _ERR.set(error);
-      _has_error = true;
     }
     if (nullptr != _CALLBACK) {
       _fresh_data = (0 != _CALLBACK(_SENSE, &_DATA, (_has_error ? &_ERR : nullptr), _update_count));
-- 
2.43.0


From adbe41688c8ae2f7796be19a23f7681adf5e1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 154/187] fix: TripleAxisFork counts a side that took the
 vector for later processing as success

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index c2fb236..c9510b0 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -53,10 +53,10 @@ const char* TripleAxisPipe::spatialSenseStr(SpatialSense s) {
 */
 FAST_FUNC int8_t TripleAxisFork::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -2;
-  if ((nullptr != _LEFT) && (0 == _LEFT->pushVector(s, data, error))) {
+  if ((nullptr != _LEFT) && (0 <= _LEFT->pushVector(s, data, error))) {
     ret++;
   }
-  if ((nullptr != _RIGHT) && (0 == _RIGHT->pushVector(s, data, error))) {
+  if ((nullptr != _RIGHT) && (0 <= _RIGHT->pushVector(s, data, error))) {
     ret++;
   }
   return ret;
-- 
2.43.0


From a4d962e4e29d7ff6bb98d6d988ef47edfe0f7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 155/187] fix: TripleAxisConvention returns what the next stage
 returned

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index c9510b0..234df19 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -94,7 +94,6 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
   float inversion = 1.0;
   int8_t ret = -2;
   if (nullptr != _NXT) {
-    ret++;
     switch (_SRC_FMT) {
       case GnomonType::RH_NEG_X:
       case GnomonType::LH_POS_X:
@@ -128,9 +127,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
         }
         break;
     }
-    if (0 == _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr)) {
-      ret = 0;
-    }
+    ret = _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr);
   }
   return ret;
 }
-- 
2.43.0


From ab4833ebc4d2cd6c2ca50abb0b8e25729f00147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 156/187] fix: TripleAxisSingleFilter does not read an error
 that was not given

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 234df19..292e627 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -268,7 +268,10 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
   if (initialized()) {
     ret = -1;
     if (_SENSE == s) {
-      Vector3f tmp_err(error);
+      Vector3f tmp_err;
+      if (nullptr != error) {
+        tmp_err.set(error);
+      }
       ret = 0;
       switch (feedFilter(data)) {
         case 0:    // Value accepted into filter. No new result.
-- 
2.43.0


From 26e17bdeb7f60cdfe0d801c39cb0af48eb533b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 157/187] fix: TripleAxisSingleFilter relays to a next stage
 only if it has one, and reports how that went

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 292e627..6e47149 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -317,8 +317,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
     }
     else {
       // We blindly relay vectors of SpatialSense's we aren't configured for.
-      if (0 == _NXT->pushVector(s, data, error)) {
-        ret = -5;
+      if (nullptr != _NXT) {
+        ret = _NXT->pushVector(s, data, error);
       }
     }
   }
-- 
2.43.0


From d391f888296239e060b56294a400672ede977253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 158/187] fix: TripleAxisSingleFilter does not make up an error
 for vectors that came without

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 6e47149..f0d5a7b 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -277,8 +277,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
         case 0:    // Value accepted into filter. No new result.
           break;
         case 1:    // Value accepted into filter. New result ready.
-          if (nullptr != error) {
-            _has_error = true;
+          _has_error = (nullptr != error);
+          if (_has_error) {
             switch (strategy()) {
               case FilteringStrategy::RAW:
                 _ERR.set(&tmp_err);
@@ -307,7 +307,7 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
           if (nullptr != _NXT) {
             // If the vector was pushed downstream, we consider it noted. If it
             //   was rejected, we leave the class marked dirty.
-            _filter_dirty = (0 > _NXT->pushVector(s, value(), &_ERR));
+            _filter_dirty = (0 > _NXT->pushVector(s, value(), (_has_error ? &_ERR : nullptr)));
           }
           break;
         default:   // Catch-all error case. Should never happen with the earlier init().
-- 
2.43.0


From 5f461180a8a7faff93f90e00fc21194f78132729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 159/187] fix: a SensorFilter without a window can be
 initialized, and relays what it is fed

---
 src/TimeSeries/SensorFilter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2d0c7eb..34788db 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -271,7 +271,7 @@ template <class T> int8_t SensorFilter<T>::init() {
     uint32_t tmp_window_size = _window_size;
     _window_size = 0;
     int8_t ret = _reallocate_sample_window(tmp_window_size);
-    _filter_initd = (0 == ret);
+    _filter_initd = ((0 == ret) || (0 == tmp_window_size));   // No window means no filtering.
   }
   return _filter_initd ? 0 : -1;
 }
@@ -602,7 +602,7 @@ template <class T> int8_t SensorFilter3<T>::init() {
     uint32_t tmp_window_size = _window_size;
     _window_size = 0;
     int8_t ret = _reallocate_sample_window(tmp_window_size);
-    _filter_initd = (0 == ret);
+    _filter_initd = ((0 == ret) || (0 == tmp_window_size));   // No window means no filtering.
   }
   return _filter_initd ? 0 : -1;
 }
-- 
2.43.0


From 9f7fbddef182f03b5b288a74899051436a2d4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 160/187] fix: GfxUILayout took its borders to be as wide as
 its margins

---
 src/Image/GfxUI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index fe12149..ed0f1f6 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -242,7 +242,7 @@ class GfxUILayout {
     ) :
       _x(x), _y(y), _w(w), _h(h),
       _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r),
-      _bordr_t(m_t), _bordr_b(m_b), _bordr_l(m_l), _bordr_r(m_r) {};
+      _bordr_t(b_t), _bordr_b(b_b), _bordr_l(b_l), _bordr_r(b_r) {};
 
     /* Copy constructor. */
     GfxUILayout(const GfxUILayout &src) :
-- 
2.43.0


From 22d3bc1e536f1fd916bc848c9ddc7c0ef00913ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 161/187] fix: GfxUILayout left its borders uninitialized when
 given only margins

---
 src/Image/GfxUI.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index ed0f1f6..383e9ad 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -232,7 +232,8 @@ class GfxUILayout {
 
     /* Constructor that specifies each margin specifically. */
     GfxUILayout(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint8_t m_t, uint8_t m_b, uint8_t m_l, uint8_t m_r) :
-      _x(x), _y(y), _w(w), _h(h), _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r) {};
+      _x(x), _y(y), _w(w), _h(h), _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r),
+      _bordr_t(0), _bordr_b(0), _bordr_l(0), _bordr_r(0) {};
 
     /* Fully-specified constructor. */
     GfxUILayout(
-- 
2.43.0


From 6de4677ab2756ae496627b9998ef1fc56841c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 162/187] fix: GfxUIElement did not flip the flags it was asked
 to flip

---
 src/Image/GfxUI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index 383e9ad..32aa406 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -407,7 +407,7 @@ class GfxUIElement : public GfxUILayout {
     inline uint32_t _class_flags() {                   return _flags.raw;       };
     inline bool _class_flag(uint32_t f) {              return _flags.value(f);  };
     inline void _class_clear_flag(uint32_t f) {        _flags.clear(f);         };
-    inline void _class_flip_flag(uint32_t f) {         _flags.set(f, _flags.value(f));  };
+    inline void _class_flip_flag(uint32_t f) {         _flags.set(f, !_flags.value(f)); };
     inline void _class_set_flag(uint32_t f, bool x = true) {  _flags.set(f, x);        };
 
   private:
-- 
2.43.0


From f26448bdf48a2fd3754cd224d6a7ffdb62d89094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 163/187] fix: GfxUIElement without a style copied one from a
 null pointer

---
 src/Image/GfxUI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index 32aa406..5143a10 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -388,7 +388,7 @@ class GfxUIElement : public GfxUILayout {
 
     GfxUIElement(const GfxUILayout layout, const GfxUIStyle style, uint32_t f);
     GfxUIElement(GfxUILayout* layout, GfxUIStyle* style, uint32_t f);
-    GfxUIElement(GfxUILayout* layout, uint32_t f) : GfxUIElement(layout, nullptr, f) {};
+    GfxUIElement(GfxUILayout* layout, uint32_t f) : GfxUIElement(*layout, GfxUIStyle(), f) {};
     GfxUIElement(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t f);
 
     int _add_child(GfxUIElement*);
-- 
2.43.0


From 0467a7fb2040b789d9442dad5204933f88326307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 164/187] fix: GfxUIElement became selected by an UNSELECT that
 it did not claim

---
 src/Image/GfxUI/GfxUI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index 92d9ef3..fcc0f7e 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -159,7 +159,9 @@ bool GfxUIElement::notify(const GfxUIEvent GFX_EVNT, const PixUInt x, const PixU
             case GfxUIEvent::SELECT:
             case GfxUIEvent::UNSELECT:
               // Propagate SELECT to child class.
-              isSelected((GfxUIEvent::UNSELECT == GFX_EVNT) ^ _notify(GFX_EVNT, x, y, change_log));
+              if (_notify(GFX_EVNT, x, y, change_log)) {
+                isSelected(GfxUIEvent::SELECT == GFX_EVNT);
+              }
               break;
 
             case GfxUIEvent::DRAG_START:
-- 
2.43.0


From 6e5e72118e78a06a34aad126698f089ead5cbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 165/187] fix: GfxUIElement went on dragging after DRAG_STOP

---
 src/Image/GfxUI/GfxUI.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index fcc0f7e..c6fb240 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -171,9 +171,7 @@ bool GfxUIElement::notify(const GfxUIEvent GFX_EVNT, const PixUInt x, const PixU
                 if (isDragging()) {
                   reposition(x, y);
                 }
-                else {
-                  isDragging(GfxUIEvent::DRAG_START == GFX_EVNT);
-                }
+                isDragging(GfxUIEvent::DRAG_START == GFX_EVNT);
               }
               else {
                 // If the element isn't draggable, propagate the event.
-- 
2.43.0


From 01685e113a141bd6a72630fbe0b014fe9413bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 166/187] fix: GfxUIElement told its class of each hover,
 selection and drag twice

---
 src/Image/GfxUI/GfxUI.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index c6fb240..c02a370 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -173,20 +173,14 @@ bool GfxUIElement::notify(const GfxUIEvent GFX_EVNT, const PixUInt x, const PixU
                 }
                 isDragging(GfxUIEvent::DRAG_START == GFX_EVNT);
               }
-              else {
-                // If the element isn't draggable, propagate the event.
-                _notify(GFX_EVNT, x, y, change_log);
-              }
+              // Draggable or not, propagate the event to the child class.
+              _notify(GFX_EVNT, x, y, change_log);
               break;
 
             default:
               break;
           }
           change_log->insert(this, (int) GFX_EVNT);
-          if (GFX_EVNT != GfxUIEvent::IDENTIFY) {
-            // Propagate HOVER to child class. We are returning true, in any case.
-            _notify(GFX_EVNT, x, y, change_log);
-          }
         }
         ret = true;
         break;
-- 
2.43.0


From 8c6336a622e10e89e8ed4ea84a2ca569e782b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 167/187] fix: GfxUIRoot did not keep its wrapper, and could
 not render

---
 src/Image/GfxUI/GfxUIGroup.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIGroup.cpp b/src/Image/GfxUI/GfxUIGroup.cpp
index e9ce6fc..3a6d90e 100644
--- a/src/Image/GfxUI/GfxUIGroup.cpp
+++ b/src/Image/GfxUI/GfxUIGroup.cpp
@@ -16,5 +16,13 @@ Date:   2022.07.09
 * Constructor that automatically sizes the element to take up the entire image.
 */
 GfxUIRoot::GfxUIRoot(UIGfxWrapper* ui_gfx) :
-  GfxUIGroup(0, 0, ui_gfx->img()->x(), ui_gfx->img()->y())
+  GfxUIGroup(0, 0, ui_gfx->img()->x(), ui_gfx->img()->y()), _ui_gfx(ui_gfx)
 {}
+
+
+/**
+* Renders the entire view with the wrapper that was given to the constructor.
+*/
+int GfxUIRoot::render() {
+  return GfxUIElement::render(_ui_gfx);
+}
-- 
2.43.0


From d16691a7c0a4caa00584994e314176b31e6819fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 168/187] fix: GfxUITabBar could not scroll down from the first
 of three tabs

---
 src/Image/GfxUI/GfxUITabBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index 1e10904..ec8d1ac 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -59,7 +59,7 @@ bool GfxUITabBar::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, Prior
         for (uint32_t btn_idx = 0; btn_idx < BTN_COUNT; btn_idx++) {
           GfxUIButton* btn_cur = (GfxUIButton*) _children.get(btn_idx);
           if (btn_cur->pressed()) {
-            if (1 == _set_active_tab((btn_idx + movement_dir) % BTN_COUNT)) {
+            if (1 == _set_active_tab((btn_idx + BTN_COUNT + movement_dir) % BTN_COUNT)) {
               break;   // Break from the loop.
             }
           }
-- 
2.43.0


From 79b8318d634988f2df3a8638b08f8021b708a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 169/187] fix: GfxUITabBar delivered touches and releases to
 its tabs twice

---
 src/Image/GfxUI/GfxUITabBar.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index ec8d1ac..70878fe 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -35,17 +35,19 @@ bool GfxUITabBar::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, Prior
   bool ret = false;
   switch (GFX_EVNT) {
 
-    case GfxUIEvent::TOUCH:
     case GfxUIEvent::RELEASE:
+      ret = true;   // Tabs are selected by touch. Their buttons don't see the release.
+      break;
+
+    case GfxUIEvent::TOUCH:
       if (_children.hasNext()) {
         // There are child objects to notify.
         const uint32_t BTN_COUNT = (uint32_t) _children.size();
         for (uint32_t btn_idx = 0; btn_idx < BTN_COUNT; btn_idx++) {
           GfxUIElement* ui_obj = _children.get(btn_idx);
           if (ui_obj->notify(GFX_EVNT, x, y, change_log)) {
-            if (GfxUIEvent::TOUCH == GFX_EVNT) {
-              ret = (1 == _set_active_tab(btn_idx));
-            }
+            ret = true;   // A button claimed it. Don't deliver it again.
+            _set_active_tab(btn_idx);
           }
         }
       }
-- 
2.43.0


From 18f9e59f3c3d3f331e5463df981cf21c88fa2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 170/187] fix: GfxUITabBar could not select its first tab if
 none was selected

---
 src/Image/GfxUI/GfxUITabBar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index 70878fe..99fe12d 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -124,9 +124,9 @@ int8_t GfxUITabBar::addTab(const char* txt, bool selected) {
 
 int8_t GfxUITabBar::_set_active_tab(uint8_t tab_idx) {
   int8_t ret = 0;
-  if (_active_tab != tab_idx) {
+  GfxUIButton* btn_n_act = (GfxUIButton*) _children.get(tab_idx);
+  if ((_active_tab != tab_idx) || ((nullptr != btn_n_act) && !btn_n_act->pressed())) {
     ret--;
-    GfxUIButton* btn_n_act = (GfxUIButton*) _children.get(tab_idx);
     if (nullptr != btn_n_act) {
       const uint32_t BTN_COUNT = (uint32_t) _children.size();
       for (uint32_t btn_idx = 0; btn_idx < BTN_COUNT; btn_idx++) {
-- 
2.43.0


From f5d768c37912ffe92f5eaee9700c09c17255b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 171/187] fix: GfxUITabBar kept several tabs selected if so
 added

---
 src/Image/GfxUI/GfxUITabBar.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index 99fe12d..1751206 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -82,8 +82,6 @@ bool GfxUITabBar::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, Prior
 
 int8_t GfxUITabBar::addTab(const char* txt, bool selected) {
   int8_t ret = -1;
-  const uint32_t flgs_inact = 0;
-  const uint32_t flgs_act   = (GFXUI_BUTTON_FLAG_STATE | GFXUI_FLAG_INACTIVE);
   const uint32_t BTN_COUNT = (uint32_t) _children.size() + 1;  // Recalculate width.
   const uint32_t INTRNL_X = internalPosX();
   const uint32_t INTRNL_Y = internalPosY();
@@ -99,7 +97,7 @@ int8_t GfxUITabBar::addTab(const char* txt, bool selected) {
     ),
     (const GfxUIStyle) _style,
     txt,
-    ((GFXUI_FLAG_FREE_THIS_ELEMENT | GFXUI_FLAG_NEED_RERENDER) | (selected ? flgs_act : flgs_inact))
+    (GFXUI_FLAG_FREE_THIS_ELEMENT | GFXUI_FLAG_NEED_RERENDER)
   );
   if (n_btn) {
     ret--;
@@ -111,6 +109,9 @@ int8_t GfxUITabBar::addTab(const char* txt, bool selected) {
         chld->resize(NEW_UNIT_W, INTRNL_H);
         x_pix_accum += NEW_UNIT_W;
       }
+      if (selected) {  // The newest selection takes over from any other.
+        _set_active_tab(BTN_COUNT-1);
+      }
       _need_redraw(true);
       ret = 0;
     }
-- 
2.43.0


From d6a3715a829dbd9f1a6599a1a51c3af99abb59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 172/187] fix: GfxUIZoomSlider mirrored the value it was given

---
 src/Image/GfxUI/GfxUISlider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index 872e589..90a8666 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -99,7 +99,7 @@ float GfxUIZoomSlider::value() {
 void GfxUIZoomSlider::value(const float NEW_CENTER) {
   const float WIDTH       = markWidth();
   const float HALF_WIDTH  = (WIDTH / 2.0f);
-  const float TMP_FRAC    = 1.0f - strict_min(1.0f, strict_max(0.0f, NEW_CENTER));
+  const float TMP_FRAC    = strict_min(1.0f, strict_max(0.0f, NEW_CENTER));
   const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
   const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
   const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
-- 
2.43.0


From 12721cdd4513a2472085f2372c1f60a4c4e02028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 173/187] fix: GfxUIZoomSlider mirrored a horizontal touch

---
 src/Image/GfxUI/GfxUISlider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index 90a8666..a3c2451 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -151,7 +151,8 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
       {
         const PixUInt FIELD_WIDTH_PX = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? internalHeight() : internalWidth());
         const float   PIX_POS_REL    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (y - internalPosY()) : (x - internalPosX()));
-        const float TMP_FRAC    = 1.0f - strict_min(1.0f, strict_max(0.0f, (PIX_POS_REL / (float) FIELD_WIDTH_PX)));
+        const float POS_FRAC    = strict_min(1.0f, strict_max(0.0f, (PIX_POS_REL / (float) FIELD_WIDTH_PX)));
+        const float TMP_FRAC    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (1.0f - POS_FRAC) : POS_FRAC);
         const float WIDTH       = markWidth();
         const float HALF_WIDTH  = (WIDTH / 2.0f);
         const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
-- 
2.43.0


From 55b6db48be69d5625acf19d16926c706e6a453b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 174/187] fix: progress bars blacked out what lies beyond them

---
 src/Image/ImageUtils/ImageUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index cbf7d28..360b20a 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -64,7 +64,7 @@ void UIGfxWrapper::drawProgressBarH(
   }
   PixUInt pix_width = percent * (w-2);
   int blackout_x = x+1+pix_width;
-  int blackout_w = (w+2)-pix_width;
+  int blackout_w = (w-2)-pix_width;
 
   _img->fillRoundRect(blackout_x, y+1, blackout_w, h-2, 3, bg_color);
   _img->fillRoundRect(x+1, y+1, pix_width, h-2, 3, color);
@@ -96,7 +96,7 @@ void UIGfxWrapper::drawProgressBarV(
     _img->fillRect(x, y, w, h, bg_color);
   }
   PixUInt pix_height = percent * (h-2);
-  int blackout_h = y+(h-1)-pix_height;
+  int blackout_h = (h-2)-pix_height;
   _img->fillRoundRect(x+1, y+1, w-2, blackout_h, 3, bg_color);
   _img->fillRoundRect(x+1, (y+h-1)-pix_height, w-2, pix_height, 3, color);
   _img->drawRoundRect(x, y, w, h, 3, fg_color);
-- 
2.43.0


From 475efb96c2585fd44b87be51ceb82bc44964f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 175/187] fix: the mark of a vertical zoom bar was drawn below
 it

---
 src/Image/ImageUtils/ImageUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index 360b20a..c055466 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -164,7 +164,7 @@ void UIGfxWrapper::drawZoomBarV(
   const PixUInt PIX_M_BOT    = fraction_bot * (h-2);
   const PixUInt PIX_M_HEIGHT = strict_abs_delta(PIX_M_TOP, PIX_M_BOT);
   const PixUInt PIX_RADIUS   = strict_min(w, h) / 5;
-  _img->fillRoundRect((x+1), ((y+h)-PIX_M_TOP+1), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
+  _img->fillRoundRect((x+1), ((y+h-1)-strict_max(PIX_M_TOP, PIX_M_BOT)), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
   if (draw_val && ((w-4) >= 15)) {
-- 
2.43.0


From 9b76382f7d8aa6b9a7c8b021b1782c5df73f1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 176/187] fix: the mark of a horizontal zoom bar was drawn over
 its border

---
 src/Image/ImageUtils/ImageUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index c055466..1447395 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -131,7 +131,7 @@ void UIGfxWrapper::drawZoomBarH(
   const PixUInt PIX_M_WIDTH = strict_abs_delta(PIX_M_RIGHT, PIX_M_LEFT);
   const PixUInt PIX_RADIUS  = strict_min(w, h) / 5;
 
-  _img->fillRoundRect((x+PIX_M_LEFT), (y+1), PIX_M_WIDTH, (h-2), PIX_RADIUS, color);
+  _img->fillRoundRect((x+1+PIX_M_LEFT), (y+1), PIX_M_WIDTH, (h-2), PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
 
-- 
2.43.0


From 7020f9b2c3ad09e41d9f6661d9b8b9407bdcdf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 177/187] fix: GfxUIZoomSlider let the bounds of its mark pass
 one another

---
 src/Image/GfxUI/GfxUISlider.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index a3c2451..b909af2 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -180,8 +180,9 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
 
     case GfxUIEvent::MOVE_DOWN:
       // Scrolling up will decrease the righthand bound, and increase the lefthand bound.
-      tmp_frac_0 = strict_min(1.0, (_frac_0 + 0.005));
-      tmp_frac_1 = strict_max(0.0, (_frac_1 - 0.005));
+      //   The bounds meet at the center, and do not pass one another.
+      tmp_frac_0 = strict_min(value(), (_frac_0 + 0.005f));
+      tmp_frac_1 = strict_max(value(), (_frac_1 - 0.005f));
       change_log->insert(this, (int) GFX_EVNT);
       ret = true;
       break;
-- 
2.43.0


From f297ed8fc7b8416dcac99188a70888ac3974516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 178/187] fix: GfxUIZoomSlider pushed its mark past the ends of
 its range

---
 src/Image/GfxUI/GfxUISlider.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index b909af2..e1673bb 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -104,8 +104,8 @@ void GfxUIZoomSlider::value(const float NEW_CENTER) {
   const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
   const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
   const float PROJ_ANTIPODE_1 = (RESIDUE_0 + WIDTH);
-  _frac_0 = strict_min(RESIDUE_0, PROJ_ANTIPODE_0);
-  _frac_1 = strict_max(RESIDUE_1, PROJ_ANTIPODE_1);
+  _frac_0 = strict_max(0.0f, strict_min(RESIDUE_0, PROJ_ANTIPODE_0));
+  _frac_1 = strict_min(1.0f, strict_max(RESIDUE_1, PROJ_ANTIPODE_1));
 }
 
 
@@ -159,8 +159,8 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
         const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
         const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
         const float PROJ_ANTIPODE_1 = (RESIDUE_0 + WIDTH);
-        tmp_frac_0 = strict_min(RESIDUE_0, PROJ_ANTIPODE_0);
-        tmp_frac_1 = strict_max(RESIDUE_1, PROJ_ANTIPODE_1);
+        tmp_frac_0 = strict_max(0.0f, strict_min(RESIDUE_0, PROJ_ANTIPODE_0));
+        tmp_frac_1 = strict_min(1.0f, strict_max(RESIDUE_1, PROJ_ANTIPODE_1));
       }
       ret = true;
       break;
-- 
2.43.0


From 416229427388eb932e0fd5a24ec33237edf352d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 179/187] fix: C3PLogger's options for severity, time and tag
 switch what they name, on and off

---
 src/C3PLogger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PLogger.h b/src/C3PLogger.h
index fa4a05b..d870f4d 100644
--- a/src/C3PLogger.h
+++ b/src/C3PLogger.h
@@ -67,9 +67,9 @@ class C3PLogger {
     inline bool    printSeverity() {         return _class_flag(LOGGER_FLAG_PRINT_LEVEL);    };
     inline bool    printTime() {             return _class_flag(LOGGER_FLAG_PRINT_TIME);     };
     inline bool    printTag() {              return _class_flag(LOGGER_FLAG_PRINT_TAG);      };
-    inline void    printSeverity(bool x) {   _class_set_flag(LOGGER_FLAG_PRINT_LEVEL, x);    };
-    inline void    printTime(bool x) {       _class_set_flag(LOGGER_FLAG_PRINT_TIME, x);     };
-    inline void    printTag(bool x) {        _class_set_flag(LOGGER_FLAG_PRINT_TAG, x);      };
+    inline void    printSeverity(bool x) {   _class_set_flag(x, LOGGER_FLAG_PRINT_LEVEL);    };
+    inline void    printTime(bool x) {       _class_set_flag(x, LOGGER_FLAG_PRINT_TIME);     };
+    inline void    printTag(bool x) {        _class_set_flag(x, LOGGER_FLAG_PRINT_TAG);      };
 
 
   private:
-- 
2.43.0


From cc1b13b1444e123f23ece82fe0ce5980e3501d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 180/187] fix: C3PLogger aligns tags to the longest so far, and
 truncates those beyond the limit

---
 src/AbstractPlatform.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index f6f1d08..643036a 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -446,14 +446,12 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
     if (printTime()) {       line.concatf("%10u ", millis());                 }
     if (printSeverity()) {   line.concat(c3p_log_severity_string(severity));  }
     if (printTag()) {
-      const uint8_t TAG_LEN = (uint8_t) strlen(tag);
-      if (_tag_ident < LOG_TAG_MAX_LEN) {
-        _tag_ident = strict_min(_tag_ident, strict_min((uint8_t) LOG_TAG_MAX_LEN, TAG_LEN));
-      }
+      const uint8_t TAG_LEN = (uint8_t) strict_min((uint32_t) LOG_TAG_MAX_LEN, (uint32_t) strlen(tag));
+      _tag_ident = strict_max(_tag_ident, TAG_LEN);
       const uint32_t MAX_FMT_STR_SZ = 12;
       char ufmt_str[MAX_FMT_STR_SZ];
       memset(ufmt_str, 0, MAX_FMT_STR_SZ);
-      sprintf(ufmt_str, "%%%ds ", _tag_ident);
+      sprintf(ufmt_str, "%%%d.%ds ", _tag_ident, LOG_TAG_MAX_LEN);
       line.concatf(ufmt_str, tag);
     }
     line.concatHandoff(msg);
-- 
2.43.0


From 2aa528a65ad347f043e5b98b796ea877a9947a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 181/187] fix: the symbols of the metric prefixes centi and
 deci were that of milli

---
 src/EnumeratedTypeCodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index c340344..92ce16b 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -36,8 +36,8 @@ const char* const SIUnitToStr(const int8_t OOM, const bool sym) {
     case -9:   return (sym ? "n" : "nano");
     case -6:   return (sym ? "u" : "micro");
     case -3:   return (sym ? "m" : "milli");
-    case -2:   return (sym ? "m" : "centi");
-    case -1:   return (sym ? "m" : "deci");
+    case -2:   return (sym ? "c" : "centi");
+    case -1:   return (sym ? "d" : "deci");
     case 0:    return "";
     case 1:    return (sym ? "da" : "deca");
     case 2:    return (sym ? "h" : "hecto");
-- 
2.43.0


From 0177104838fe50842b236ca1b9b6a9c713aa83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 182/187] fix: metricPrefixStr() was declared, but defined
 under another name

---
 src/EnumeratedTypeCodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index 92ce16b..81ddd9d 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -29,7 +29,7 @@ TODO: Might-should adopt some IANA standard code-spaces here? Is there a
 /*******************************************************************************
 * Support functions for dealing with SIUnit codes.                             *
 *******************************************************************************/
-const char* const SIUnitToStr(const int8_t OOM, const bool sym) {
+const char* const metricPrefixStr(const int8_t OOM, const bool sym) {
   switch (OOM) {
     case -15:  return (sym ? "f" : "femto");
     case -12:  return (sym ? "p" : "pico");
@@ -110,7 +110,7 @@ void SIUnitToStr(const SIUnit* UC_STR, StringBuilder* output, const bool sym) {
           case SIUnit::META_ORDER_OF_MAGNITUDE:
             oom = (int8_t) *cur_ptr++;
             // Modify the unit with the SI prefix, if called for.
-            output->concat(SIUnitToStr(oom, sym));
+            output->concat(metricPrefixStr(oom, sym));
             oom = 0;
             break;
           case SIUnit::META_DIMENSIONALITY:
-- 
2.43.0


From 23d9ef3aa9a8a6b3b419ec6f09a3adff20fff0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 183/187] fix: the arguments of dimensionality, constants and
 exponents in unit strings were rendered as units

---
 src/EnumeratedTypeCodes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index 81ddd9d..40b922e 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -114,6 +114,12 @@ void SIUnitToStr(const SIUnit* UC_STR, StringBuilder* output, const bool sym) {
             oom = 0;
             break;
           case SIUnit::META_DIMENSIONALITY:
+          case SIUnit::META_EXTENDED_CONSTANT:
+            cur_ptr++;   // Take the argument, which is not a unit.
+            break;
+          case SIUnit::OPERATOR_EXPONENT:
+            output->concat(SIUnitToStr(CURRENT_UCODE, sym));
+            output->concatf("%d", (int8_t) *cur_ptr++);
             break;
           case SIUnit::META_LITERAL_TCODE:
             {  // TODO: Assumes an int8 (wrongly, eventually).
-- 
2.43.0


From 1651bcd78628b0da0806029c5ead7afb18ac32d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 184/187] fix: the gpio command drove another pin, or set
 another mode, if given one beyond a byte

---
 src/AbstractPlatform.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index 643036a..b59434c 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -278,10 +278,14 @@ int callback_gpio_value(StringBuilder* text_return, StringBuilder* args) {
   int arg0  = args->position_as_int(1);
   int arg1  = args->position_as_int(2);
 
-  if (0 == StringBuilder::strcasecmp(cmd, "mode")) {
+  if ((0 > arg0) || (255 < arg0)) {   // Pins are single-byte.
+    text_return->concat("Invalid GPIO pin.\n");
+    ret = -1;
+  }
+  else if (0 == StringBuilder::strcasecmp(cmd, "mode")) {
     switch (args->count()) {
       case 3:
-        switch ((GPIOMode) arg1) {
+        switch ((GPIOMode) (((0 > arg1) || (255 < arg1)) ? 255 : arg1)) {
           case GPIOMode::INPUT:
           case GPIOMode::OUTPUT:
           case GPIOMode::INPUT_PULLUP:
-- 
2.43.0


From 34cfff5261af3436880eecf984f8b8abf572ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 185/187] fix: the bounds of text in a custom font missed
 glyphs drawn

Codes above 127 were not found in the font, and glyphs that begin
above or left of the image wrapped around. Those with no bitmap (the
space) were given an extent, and wrapped where writeChar() does not.
---
 src/Image/Image.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index cbce2ee..0044fca 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1369,26 +1369,32 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
     else if (c != '\r') { // Not a carriage return; is normal char
       uint8_t first = _gfxFont->first;
       uint8_t last  = _gfxFont->last;
-      if((c >= first) && (c <= last)) { // Char present in this font?
-        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[c - first];
+      const uint8_t IDX = (uint8_t) c;   // char might be signed.
+      if((IDX >= first) && (IDX <= last)) { // Char present in this font?
+        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[IDX - first];
         uint8_t gw = glyph->width;
         uint8_t gh = glyph->height;
         uint8_t xa = glyph->xAdvance;
         int8_t  xo = glyph->xOffset;
         int8_t  yo = glyph->yOffset;
-        if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
-          *x  = 0; // Reset x to zero, advance y by one line
-          *y += _textsize * (uint8_t) _gfxFont->yAdvance;
-        }
         int16_t ts = (int16_t) _textsize;
-        PixUInt x1 = *x + xo * ts;
-        PixUInt y1 = *y + yo * ts;
-        PixUInt x2 = x1 + gw * ts - 1;
-        PixUInt y2 = y1 + gh * ts - 1;
-        if(x1 < *minx) *minx = x1;
-        if(y1 < *miny) *miny = y1;
-        if(x2 > *maxx) *maxx = x2;
-        if(y2 > *maxy) *maxy = y2;
+        if ((gw > 0) && (gh > 0)) {   // Is there an associated bitmap?
+          if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
+            *x  = 0; // Reset x to zero, advance y by one line
+            *y += _textsize * (uint8_t) _gfxFont->yAdvance;
+          }
+          // The glyph might begin left of the image, or above it.
+          const int32_t x1 = (int32_t) *x + xo * ts;
+          const int32_t y1 = (int32_t) *y + yo * ts;
+          const int32_t x2 = x1 + gw * ts - 1;
+          const int32_t y2 = y1 + gh * ts - 1;
+          if ((x2 >= 0) && (y2 >= 0)) {
+            if(x1 < (int32_t) *minx) *minx = strict_max(x1, (int32_t) 0);
+            if(y1 < (int32_t) *miny) *miny = strict_max(y1, (int32_t) 0);
+            if(x2 > (int32_t) *maxx) *maxx = x2;
+            if(y2 > (int32_t) *maxy) *maxy = y2;
+          }
+        }
         *x += xa * ts;
       }
     }
-- 
2.43.0


From 09314d20bc407d292cd760ed760d70c7beaeb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 186/187] fix: the bounds of text counted a tab as one
 character

writeChar() writes two.
---
 src/Image/Image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 0044fca..7196da7 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1406,6 +1406,9 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
       // min/max x/y unchaged -- that waits for next 'normal' character
     }
     else if (c != '\r') {  // Normal char; ignore carriage returns
+      if (c == '\t') {      // Tab is written as two spaces.
+        _char_bounds(' ', x, y, minx, miny, maxx, maxy);
+      }
       if (textWrap() && ((*x + _textsize * 6) > _x)) { // Off right?
         *x  = 0;                    // Reset x to zero,
         *y += _textsize * 8;         // advance y one line
-- 
2.43.0


From a9a52d1f37bb7311d97eacf37e0187ec0efb268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 187/187] fix: StopWatch divided by zero when its count of
 executions wrapped

After 2^32 executions (or after unpacking a record that claims one
less), the mean was taken over zero. Counting starts over instead.
---
 src/TimerTools/StopWatch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 4adfd09..fa45033 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -51,7 +51,10 @@ void StopWatch::reset() {
 *   as in C3PTrace).
 */
 ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsigned long STOP_TIME) {
-  _executions++;
+  if (0 == ++_executions) {   // The counter wrapped (or, was loaded that way).
+    _executions     = 1;
+    _run_time_total = 0;
+  }
   _run_time_last    = delta_assume_wrap((uint32_t) STOP_TIME, (uint32_t) START_TIME);
   _run_time_best    = strict_min(_run_time_last, _run_time_best);
   _run_time_worst   = strict_max(_run_time_last, _run_time_worst);
-- 
2.43.0


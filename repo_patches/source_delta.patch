From 6279d04a3f05a6b503a337f8bc8cdd96c3a08e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 01/10] fix: InsertionSort_sort shares one static element
 buffer between all sorts in progress

A sort started from a comparison callback, an interrupt or another task while
another insertion sort is in progress overwrote the saved element of the
interrupted sort, which then lost one element and duplicated another.
Keep the saved element on the stack of the call.
---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..0703cfc 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From 235f47f6ecc32eb23df3626cc34cac92f5715209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 02/10] fix: InsertionSort_sort hands memory before the array
 to the comparison callback

When an element moves to the front the loop compared elements[-1] before
checking the index.
---
 Src/sort/insertion_sort.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 0703cfc..783e178 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,9 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            if (j >= 0) {
+                compare = compareFun(&elements[j * element_size], element);
+            }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From 12d75e77e28fb5d2fff82cbf895d7c7f8a7a4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 03/10] fix: HeapSort_sort hands memory behind the array to the
 comparison callback

Heapify compared both children before checking that they exist, so the
callback read up to two elements past the end of the array.
---
 Src/sort/heap_sort.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..5738b59 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,16 +48,24 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
+        bool compare_ret_value = false;
 
-        if ((left < n) && (compare_ret_value)) {
+        if (left < n) {
+            compare_ret_value = compareFun(&elements[left * element_size],
+                                           &elements[largest * element_size]);
+        }
+
+        if (compare_ret_value) {
             largest = left;
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
+        compare_ret_value = false;
+
+        if (right < n) {
+            compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
+        }
 
-        if ((right < n) && (compare_ret_value)) {
+        if (compare_ret_value) {
             largest = right;
         }
 
-- 
2.43.0


From 64fd6777320e42ee66bb6b1afa3e845e02cbe289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 04/10] fix: Json_addData leaves a comma behind, or writes out
 of bounds, when a member does not fit

The separating comma was written before the size check: a refused member left
the document with a trailing comma, and with a full buffer the terminator went
one byte past the end. An empty document was read at buffer[-1].
---
 Src/json.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..46d460f 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,13 +58,18 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    bool separator = (index > 0U) && (buffer[index - 1U] == '"');
+
+    if (separator) {
+        ++total_size;
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (separator) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            ++index;
+        }
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From 978f5f70e40c031ef27d2244fb967ff8fba93edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 05/10] fix: Base64_encode writes its terminator past the end
 of an output that fits only the text

The room check ignored the terminator, which was written one byte past an
output of exactly the text length, and also into an output of no length.
---
 Src/base64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..741c3cc 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -45,7 +45,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
     size_t len = 4U * ((data_length + 2U) / 3U);
 
-    if (len < data_length) {
+    if ((len < data_length) || (max_result_length == 0U)) {
         success = 1;
     }
 
@@ -56,7 +56,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
         uint8_t* pos = out;
         while ((data_length - in_position) >= 3U) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
                 break;
             }
@@ -76,7 +76,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
         if ((success == 0) && ((data_length - in_position) != 0U)) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
             }
 
-- 
2.43.0


From 968b15fafa7e234d341adb327bd44a6c5a78d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 06/10] fix: Base64_decode refuses one- and two-byte data and
 reads past the end of cut text

Text of a single padded group was treated as empty and refused. Text whose
last group holds one character was read one byte past its end.
---
 Src/base64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 741c3cc..592badb 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -137,7 +137,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len < 2U) {
         success = 1;
     }
 
@@ -154,7 +154,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From 8594e1d5f55c9ebb504b84aa64b5e8fcaa2b89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 07/10] fix: CaesarCipher_decrypt does not restore letters that
 wrapped around

A negative difference was reduced modulo 26 after wrapping modulo 2^32, which
26 does not divide, so wrapped letters came back as other letters.
---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..1cc34b9 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From a4ee3046d4636de62304714804c8040da7886e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 08/10] fix: VernamCipher does not restore messages enciphered
 with some printable keys

Key characters outside the letters give shifts beyond 0..25: encryption could
leave the alphabet for a negative sum and decryption corrected by at most one
turn. Reduce both sides modulo 26, with the same signedness.
---
 Src/crypto/vernam_cipher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..bdf4453 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -60,6 +60,9 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
                 }
 
                 int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
+                if (temp < 0) {
+                    temp += NUM_OF_ALPHA;
+                }
                 int32_t cipher = temp + ascii_val;
                 msg[i] = (char)cipher;
             }
@@ -86,7 +89,7 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = ((((int8_t)msg[i] - ascii_val) - ((int8_t)key[i] - c)) % NUM_OF_ALPHA);
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From 8056546dca09f96a039c374560a24371cb329701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 09/10] fix: Json_findByKey takes values, other keys' tails and
 text beyond the object for the member looked up

A value equal to the key, a longer key ending in it, the tail of an older
object behind the terminator and a partly received member all produced
another member's text; the first of several look-alikes also hid the real
member (C12, C15).
---
 Src/json.c | 93 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 27 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 46d460f..d3e79ec 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -38,6 +38,32 @@
 
 #define MINIMAL_SIZE 2U // size of '{' or '}' + '\0'
 
+static size_t
+SkipWhitespace(const char* buffer, size_t size, size_t index) {
+    size_t next = index;
+
+    while ((next < size)
+           && ((buffer[next] == ' ') || (buffer[next] == '\t') || (buffer[next] == '\n') || (buffer[next] == '\r'))) {
+        ++next;
+    }
+
+    return next;
+}
+
+static size_t
+FindStringEnd(const char* buffer, size_t size, size_t start) {
+    size_t end = start;
+
+    while ((end < size) && (buffer[end] != '"')) {
+        if (buffer[end] == '\\') {
+            ++end;
+        }
+        ++end;
+    }
+
+    return (end < size) ? end : size;
+}
+
 bool
 Json_startString(char* buffer, size_t buffer_size) {
     bool success = false;
@@ -112,51 +138,64 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     bool success = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
+    size_t text_size = 0U;
+    size_t index = 0U;
+    size_t depth = 0U;
 
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
+    while ((text_size < buffer_size) && (buffer[text_size] != '\0')) {
+        ++text_size;
     }
 
-    for (index = 0U; index < max_search_size; ++index) {
+    while (index < text_size) {
 
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
+        if (buffer[index] == '"') {
+            size_t start = index + 1U;
+            size_t end = FindStringEnd(buffer, text_size, start);
 
-            if (buffer[index + key_size] == '"') {
-                success = true;
-            }
+            index = SkipWhitespace(buffer, text_size, end + 1U);
 
-            break;
+            // only a string followed by a colon is a key
+            if ((index < text_size) && (buffer[index] == ':')) {
+                ++index;
+                if (((end - start) == key_size) && (0 == strncmp(&buffer[start], key, key_size))) {
+                    success = true;
+                    break;
+                }
+            }
+        } else {
+
+            if ((buffer[index] == '{') || (buffer[index] == '[')) {
+                ++depth;
+            } else if ((buffer[index] == '}') || (buffer[index] == ']')) {
+                // whatever follows the end of the outermost object does not belong to it
+                if (depth <= 1U) {
+                    break;
+                }
+                --depth;
+            } else {
+                // anything else between the strings is skipped
+            }
+            ++index;
         }
     }
 
     if (success) {
 
         success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
+        index = SkipWhitespace(buffer, text_size, index);
 
-            if (buffer[index] == '"') {
-                break;
-            }
-        }
-
-        size_t value_size = 0;
-        ++index;
+        if ((index < text_size) && (buffer[index] == '"')) {
+            ++index;
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
-            value[value_size] = buffer[index];
+            size_t end = FindStringEnd(buffer, text_size, index);
+            size_t value_size = end - index;
 
-            if (buffer[index] == '"') {
+            if ((end < text_size) && (value_size < max_value_size)) {
+                // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+                memcpy(value, &buffer[index], value_size);
                 value[value_size] = '\0';
                 success = true;
-                break;
             }
-
-            ++value_size;
-            ++index;
         }
     }
 
-- 
2.43.0


From 84adb686136a10f110519ac8cc7f3ccd1e63c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:37 +0000
Subject: [PATCH 10/10] fix: BitManipulation_rotl32 shifts by 32 for a rotation
 by zero

data >> (32U - 0U) is undefined; without optimisation the result is 0
(data ^ data), with optimisation it is data.
---
 Src/bit_manipulation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..92a0101 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -108,5 +108,5 @@ uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
 
     /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    return ((data << n_bits) | (data >> ((32U - n_bits) & 0x1FU)));
 }
-- 
2.43.0


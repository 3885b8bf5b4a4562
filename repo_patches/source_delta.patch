From c8a44dcbdd00a2ff44f421819e4e6d4528b74cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 1/7] fix: base_16 decode of odd length text skipped the last
 pair and left a hole

---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..50f385e 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
-- 
2.43.0


From 20d66a57cc89d705dd4feb17327d0dc9b399b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 2/7] fix: base_16 decode error returned consumed characters
 instead of decoded bytes

---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 50f385e..b50a874 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (c_0 == b_0 || c_1 == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return last_size + i;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From 10c7f44a83dce8a08514fd59f935ff0960e12070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 3/7] fix: base_16 and base_64 decode accepted characters above
 0x7f

---
 src/milo/primitive/detail/codec/base_16.h |  4 ++--
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index b50a874..5ab61cd 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -131,7 +131,7 @@ namespace milo::primitive::detail
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
-                if (c_0 == b_0)
+                if (uint8_t(c_0) == b_0)
                 {
                     a_error = error::codec_base_16_decode;
                     return 0;
@@ -151,7 +151,7 @@ namespace milo::primitive::detail
                 auto b_1 = decode(c_1);
                 
                 [[unlikely]]
-                if (c_0 == b_0 || c_1 == b_1)
+                if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
                     return last_size + i;
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..7ee8007 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -188,10 +188,10 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
-                    c_2 == b_2 ||
-                    c_3 == b_3)
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
+                    uint8_t(c_2) == b_2 ||
+                    uint8_t(c_3) == b_3)
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
@@ -220,11 +220,11 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
                     (p_0 && !p_1) ||
-                    (c_2 == b_2 && !p_0) ||
-                    (c_3 == b_3 && !p_1))
+                    (uint8_t(c_2) == b_2 && !p_0) ||
+                    (uint8_t(c_3) == b_3 && !p_1))
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
-- 
2.43.0


From 2062ba586cef85e003bf3c71b894899bbcca7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 4/7] fix: one-shot cipher encrypt and decrypt by pointer did
 not compile

---
 src/milo/primitive/cipher/apie.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..eb38b8e 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -530,7 +530,9 @@ namespace milo::primitive::cipher
         t_ciphertext* a_ciphertext_ptr
     ) noexcept(true) -> size_t
     {
-        apie<t_impl> apie(
+        apie<t_impl> apie;
+        
+        apie.initialize(
             a_key_ptr,
             a_key_size,
             a_iv_ptr,
@@ -689,7 +691,9 @@ namespace milo::primitive::cipher
         t_plaintext* a_plaintext_ptr
     ) noexcept(true) -> size_t
     {
-        apie<t_impl> apie(
+        apie<t_impl> apie;
+        
+        apie.initialize(
             a_key_ptr,
             a_key_size,
             a_iv_ptr,
-- 
2.43.0


From 99520230de507870e69d32f106227f96f8b63fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 5/7] fix: aead digest without any encrypt or decrypt call
 skipped the padding of the associated data

---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..a354b96 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From 0ee6ff18fae146dfcb958f553c66477b1be3fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 6/7] fix: aead one-shot decrypt terminated instead of throwing
 on a wrong digest

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index a354b96..29db4e0 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1161,7 +1161,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) == 1
     )
     ) -> size_t
     requires
@@ -1254,7 +1254,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) == 1 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From 7ecf1bc27afb9b70b212b345cf0cf130f00a6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 7/7] fix: aead one-shot encrypt into given buffers did not
 compile

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 29db4e0..3b860c1 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -937,7 +937,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
@@ -1017,7 +1017,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


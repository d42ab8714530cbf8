From 448941f9fc521d6631918a6786ca5180894f4491 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 01/48] fix: draw random keys when memory locking is disabled

The default constructor of Key only filled the key with random bytes when
ENABLE_MEMORY_LOCK was defined; otherwise the key was libsodium's constant
allocation filler.
---
 src/include/sse/crypto/key.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index f284f91..cad5e74 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -111,9 +111,9 @@ public:
         if (content_ == nullptr) {
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
-#ifdef ENABLE_MEMORY_LOCK
 
         random_bytes(N, content_);
+#ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
-- 
2.43.0


From f7e522529a0879d8266a6d56b909a39388366c54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 02/48] fix: refuse access to the content of an empty key in
 every configuration

Without memory locking, Key::data() returned a null pointer for a moved-from
or erased key instead of throwing as documented, and its users dereferenced it.
---
 src/include/sse/crypto/key.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index cad5e74..53842b9 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -356,6 +356,9 @@ private:
     ///
     const uint8_t* data() const
     {
+        if (content_ == nullptr) {
+            throw std::runtime_error("Memory is absent");
+        }
         if (is_locked()) {
             throw std::runtime_error("Memory is locked");
         }
-- 
2.43.0


From 9d164532cfcd5b24fffcfea0e5349b43dfa14294 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:05 +0000
Subject: [PATCH 03/48] fix: release key memory when a Key constructor throws

If locking the memory or the initialisation callback throws, the
destructor does not run and the secure allocation was leaked.
---
 src/include/sse/crypto/key.hpp | 47 ++++++++++++++++------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 53842b9..d4763ef 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -113,16 +113,16 @@ public:
         }
 
         random_bytes(N, content_);
-#ifdef ENABLE_MEMORY_LOCK
-        int err = sodium_mprotect_noaccess(content_);
-        if (err == -1 && errno != ENOSYS) {
+        try {
+            lock();
+        } catch (...) {
             /* LCOV_EXCL_START */
-            throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+            // the destructor is not run: release the memory here
+            sodium_free(content_);
+            content_ = nullptr;
+            throw;
             /* LCOV_EXCL_STOP */
         }
-        is_locked_ = true;
-#endif
     }
 
     ///
@@ -152,16 +152,16 @@ public:
         memcpy(content_, key, N); // copy the content of the input key
         sodium_memzero(key, N);   // erase the content of the input key
 
-#ifdef ENABLE_MEMORY_LOCK
-        int err = sodium_mprotect_noaccess(content_);
-        if (err == -1 && errno != ENOSYS) {
+        try {
+            lock();
+        } catch (...) {
             /* LCOV_EXCL_START */
-            throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+            // the destructor is not run: release the memory here
+            sodium_free(content_);
+            content_ = nullptr;
+            throw;
             /* LCOV_EXCL_STOP */
         }
-        is_locked_ = true;
-#endif
     }
 
 
@@ -260,18 +260,15 @@ private:
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
 
-        init_callback(content_); // use the callback to fill the key
-
-#ifdef ENABLE_MEMORY_LOCK
-        int err = sodium_mprotect_noaccess(content_);
-        if (err == -1 && errno != ENOSYS) {
-            /* LCOV_EXCL_START */
-            throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
-            /* LCOV_EXCL_STOP */
+        try {
+            init_callback(content_); // use the callback to fill the key
+            lock();
+        } catch (...) {
+            // the destructor is not run: release the memory here
+            sodium_free(content_);
+            content_ = nullptr;
+            throw;
         }
-        is_locked_ = true;
-#endif
     }
 
     ///
-- 
2.43.0


From 33d0a0ab6a035d57ca9985fd475d6a0a9a80c94e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:17 +0000
Subject: [PATCH 04/48] fix: lock the PRP context again after encrypting

---
 src/prp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index 4bd0fb2..b1ce4ae 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -196,6 +196,8 @@ void Prp::encrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
                 reinterpret_cast<const char*>(in),
                 len,
                 reinterpret_cast<char*>(out));
+
+    aez_ctx_.lock();
 }
 
 void Prp::encrypt(const std::string& in, std::string& out)
-- 
2.43.0


From 12a259c0d3a28098e645ce35c267e3038851c552 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 05/48] fix: release the PRP string buffers when the operation
 throws

---
 src/prp.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/prp.cpp b/src/prp.cpp
index b1ce4ae..754fbdf 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -32,6 +32,7 @@
 #include <array>
 #include <exception>
 #include <iomanip>
+#include <vector>
 
 #include <sodium/runtime.h>
 
@@ -219,13 +220,12 @@ void Prp::encrypt(const std::string& in, std::string& out)
         /* LCOV_EXCL_STOP */
     }
 
-    unsigned char* data = new unsigned char[len];
+    std::vector<uint8_t> data(len);
 
     encrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
-            data);
-    out = std::string(reinterpret_cast<char*>(data), len);
-    delete[] data;
+            data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), len);
 }
 
 void Prp::decrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
@@ -283,14 +283,13 @@ void Prp::decrypt(const std::string& in, std::string& out)
         /* LCOV_EXCL_STOP */
     }
 
-    unsigned char* data = new unsigned char[len];
+    std::vector<uint8_t> data(len);
 
     decrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
-            data);
+            data.data());
 
-    out = std::string(reinterpret_cast<const char*>(data), len);
-    delete[] data;
+    out = std::string(reinterpret_cast<const char*>(data.data()), len);
 }
 
 void Prp::serialize(uint8_t* out) const
-- 
2.43.0


From 879b165a83d71e9a553b737114ae44eb53874a56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 06/48] fix: release the ciphertext buffer when encryption
 throws

---
 src/cipher.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cipher.cpp b/src/cipher.cpp
index 828e797..effe00e 100644
--- a/src/cipher.cpp
+++ b/src/cipher.cpp
@@ -106,17 +106,17 @@ void Cipher::encrypt(const std::string& in, std::string& out)
             "The minimum number of bytes to encrypt is 1.");
     }
 
-    size_t         len   = in.size();
-    size_t         c_len = ciphertext_length(len);
-    unsigned char* data  = new unsigned char[c_len];
+    size_t len   = in.size();
+    size_t c_len = ciphertext_length(len);
 
-    encrypt(reinterpret_cast<const unsigned char*>(in.data()), len, data);
-    out = std::string(reinterpret_cast<char*>(data), c_len);
+    std::vector<uint8_t> data(c_len);
 
-    // erase the buffer
-    sodium_memzero(data, c_len);
+    encrypt(
+        reinterpret_cast<const unsigned char*>(in.data()), len, data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), c_len);
 
-    delete[] data;
+    // erase the buffer
+    sodium_memzero(data.data(), c_len);
 }
 
 void Cipher::decrypt(const unsigned char* in,
-- 
2.43.0


From c529247b04eea30ff92625c32eb0f67b1a53912f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 07/48] fix: do not leave the PRG key unlocked when the output
 buffer is NULL

---
 src/prg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prg.cpp b/src/prg.cpp
index b1ff2b4..b9c9fbf 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -133,6 +133,10 @@ void Prg::derive(const size_t   offset,
     if (len == 0) {
         return;
     }
+    if (out == nullptr) {
+        // check this before unlocking the key
+        throw std::invalid_argument("out is NULL");
+    }
 
     prg_derivation(key_.unlock_get(), offset, len, out);
     key_.lock();
-- 
2.43.0


From 8ac2061ef912275f53bd4ed1d215dc51da8a4f47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:24 +0000
Subject: [PATCH 08/48] fix: consume the input key when deriving zero keys from
 it

---
 src/include/sse/crypto/prg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index 2afa5ca..c347910 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -486,6 +486,7 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         throw std::invalid_argument("PRG input key is empty");
     }
     if (n_keys == 0) {
+        k.erase();                    // the input key cannot be reused
         return std::vector<Key<K>>(); // return empty vector
     }
     if (n_keys > static_cast<size_t>(0U)
-- 
2.43.0


From b7e6ed5c033f590f40b041554366f9081a34948d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:24 +0000
Subject: [PATCH 09/48] fix: derive zero-length PRG outputs alike and release
 buffers on errors

The static string overload threw on a zero length (the vector has no data
pointer), unlike the others, and the other overloads leaked their buffer
when the derivation threw (e.g. because of an empty key).
---
 src/prg.cpp | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/prg.cpp b/src/prg.cpp
index b9c9fbf..4cd8c7d 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -24,6 +24,8 @@
 #include <cassert>
 #include <cstring>
 
+#include <vector>
+
 #include <sodium/crypto_stream_chacha20.h>
 
 
@@ -46,14 +48,14 @@ static void prg_derivation(const unsigned char* key,
                            const size_t         len,
                            unsigned char*       out)
 {
-    if (out == nullptr) {
-        throw std::invalid_argument("out is NULL");
-    }
-
     if (len == 0) {
         return; /* LCOV_EXCL_LINE */
     }
 
+    if (out == nullptr) {
+        throw std::invalid_argument("out is NULL");
+    }
+
     const size_t mod_offset      = (offset % CHACHA20_BLOCK_SIZE);
     const size_t block_offset    = offset / CHACHA20_BLOCK_SIZE;
     const size_t max_block_index = (len + offset - 1) / CHACHA20_BLOCK_SIZE + 1;
@@ -106,15 +108,13 @@ static void prg_derivation(const unsigned char* key,
 
 void Prg::derive(const size_t offset, const size_t len, std::string& out) const
 {
-    unsigned char* data = new unsigned char[len];
+    std::vector<uint8_t> data(len);
 
-    derive(offset, len, data);
-    out = std::string(reinterpret_cast<char*>(data), len);
+    derive(offset, len, data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), len);
 
     // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    sodium_memzero(data.data(), len);
 }
 
 std::string Prg::derive(const size_t offset, const size_t len) const
@@ -175,30 +175,27 @@ void Prg::derive(Key<kKeySize>&& k,
                  const size_t    len,
                  std::string&    out)
 {
-    unsigned char* data = new unsigned char[len];
+    std::vector<uint8_t> data(len);
 
-    derive(std::move(k), offset, len, data);
-    out = std::string(reinterpret_cast<char*>(data), len);
+    derive(std::move(k), offset, len, data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), len);
 
     // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    sodium_memzero(data.data(), len);
 }
 
 std::string Prg::derive(Key<kKeySize>&& k,
                         const size_t    offset,
                         const size_t    len)
 {
-    unsigned char* data = new unsigned char[len];
+    std::vector<uint8_t> data(len);
 
-    derive(std::move(k), offset, len, data);
-    std::string out = std::string(reinterpret_cast<char*>(data), len);
+    derive(std::move(k), offset, len, data.data());
+    std::string out
+        = std::string(reinterpret_cast<char*>(data.data()), len);
 
     // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    sodium_memzero(data.data(), len);
     return out;
 }
 
-- 
2.43.0


From 219c2be6c22d7f878f3e2db64371ae40a3bab63f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/48] fix: check and release the temporary buffer of
 Prg::derive_keys

---
 src/include/sse/crypto/prg.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index c347910..2541188 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -460,19 +460,20 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         return std::vector<Key<K>>(); // return empty vector
     }
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    std::unique_ptr<uint8_t, void (*)(void*)> key_buffer(
+        reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
-    this->derive(key_offset * K, n_keys * K, key_buffer);
+    this->derive(key_offset * K, n_keys * K, key_buffer.get());
 
     std::vector<Key<K>> derived_keys;
 
     for (uint16_t i = 0; i < n_keys; i++) {
-        derived_keys.push_back(Key<K>(key_buffer + i * K));
+        derived_keys.push_back(Key<K>(key_buffer.get() + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
@@ -505,19 +506,20 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
     }
 
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    std::unique_ptr<uint8_t, void (*)(void*)> key_buffer(
+        reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
-    derive(std::move(k), key_offset * K, n_keys * K, key_buffer);
+    derive(std::move(k), key_offset * K, n_keys * K, key_buffer.get());
 
     std::vector<Key<K>> derived_keys;
 
     for (uint16_t i = 0; i < n_keys; i++) {
-        derived_keys.push_back(Key<K>(key_buffer + i * K));
+        derived_keys.push_back(Key<K>(key_buffer.get() + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
-- 
2.43.0


From 89f7522f9bb6bb96e595ceabf228137364a083c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 11/48] fix: release the HMAC buffer when the key is absent

---
 src/include/sse/crypto/hmac.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/hmac.hpp b/src/include/sse/crypto/hmac.hpp
index 4a4200f..6c18320 100644
--- a/src/include/sse/crypto/hmac.hpp
+++ b/src/include/sse/crypto/hmac.hpp
@@ -30,6 +30,7 @@
 #include <array>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <string>
 
 #include <sodium/utils.h>
@@ -194,13 +195,14 @@ void HMac<H, N>::hmac(const unsigned char* in,
         throw std::invalid_argument("out is NULL");
     }
 
-    uint8_t*         buffer;
     size_t           i_len      = kHMACKeySize + length;
     constexpr size_t tmp_len    = kHMACKeySize + kDigestSize;
     size_t           buffer_len = (i_len > kDigestSize) ? i_len : (kDigestSize);
 
-    buffer = new uint8_t[buffer_len];
-    uint8_t tmp[tmp_len];
+    // the buffer is released even if an exception is thrown
+    std::unique_ptr<uint8_t[]> buffer_ptr(new uint8_t[buffer_len]);
+    uint8_t*                   buffer = buffer_ptr.get();
+    uint8_t                    tmp[tmp_len];
 
     key_.unlock();
 
@@ -241,7 +243,6 @@ void HMac<H, N>::hmac(const unsigned char* in,
     memcpy(out, buffer, out_len);
 
     sodium_memzero(buffer, buffer_len);
-    delete[] buffer;
 
     sodium_memzero(tmp, tmp_len);
 
-- 
2.43.0


From 3968bbd3a3f857800336c595458f196dcf600e34 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 12/48] fix: hash HMAC keys longer than the hash block

Such keys were copied as is in block-sized buffers, which overflowed.
---
 src/include/sse/crypto/hmac.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/hmac.hpp b/src/include/sse/crypto/hmac.hpp
index 6c18320..771a518 100644
--- a/src/include/sse/crypto/hmac.hpp
+++ b/src/include/sse/crypto/hmac.hpp
@@ -198,6 +198,9 @@ void HMac<H, N>::hmac(const unsigned char* in,
     size_t           i_len      = kHMACKeySize + length;
     constexpr size_t tmp_len    = kHMACKeySize + kDigestSize;
     size_t           buffer_len = (i_len > kDigestSize) ? i_len : (kDigestSize);
+    // size of the key before it is padded to a block
+    constexpr size_t kBaseKeySize
+        = (kKeySize <= kHMACKeySize) ? kKeySize : kDigestSize;
 
     // the buffer is released even if an exception is thrown
     std::unique_ptr<uint8_t[]> buffer_ptr(new uint8_t[buffer_len]);
@@ -207,11 +210,16 @@ void HMac<H, N>::hmac(const unsigned char* in,
     key_.unlock();
 
     // copy the key to the buffer
-    memcpy(buffer, key_.data(), kKeySize);
+    if (kKeySize <= kHMACKeySize) {
+        memcpy(buffer, key_.data(), kKeySize);
+    } else {
+        // keys longer than a block are hashed first (RFC 2104)
+        H::hash(key_.data(), kKeySize, buffer);
+    }
 
     // set the other bytes to 0x00
-    if (kKeySize < kHMACKeySize) {
-        memset(buffer + kKeySize, 0x00, kHMACKeySize - kKeySize);
+    if (kBaseKeySize < kHMACKeySize) {
+        memset(buffer + kBaseKeySize, 0x00, kHMACKeySize - kBaseKeySize);
     }
 
     // xor the magic number for input
@@ -224,10 +232,14 @@ void HMac<H, N>::hmac(const unsigned char* in,
     H::hash(buffer, i_len, buffer);
 
     // prepend the key
-    memcpy(tmp, key_.data(), kKeySize);
+    if (kKeySize <= kHMACKeySize) {
+        memcpy(tmp, key_.data(), kKeySize);
+    } else {
+        H::hash(key_.data(), kKeySize, tmp);
+    }
     // set the other bytes to 0x00
-    if (kKeySize < kHMACKeySize) {
-        memset(tmp + kKeySize, 0x00, kHMACKeySize - kKeySize);
+    if (kBaseKeySize < kHMACKeySize) {
+        memset(tmp + kBaseKeySize, 0x00, kHMACKeySize - kBaseKeySize);
     }
 
     // xor the magic number for output
-- 
2.43.0


From f3ceae4efbac55627e3451555878a690c7c61054 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:12 +0000
Subject: [PATCH 13/48] fix: release the PRF buffer when an evaluation throws

---
 src/include/sse/crypto/prf.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index b8bdbe3..b3126ae 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -31,6 +31,7 @@
 #include <algorithm>
 #include <array>
 #include <string>
+#include <vector>
 
 namespace sse {
 
@@ -272,8 +273,8 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     std::array<uint8_t, NBYTES> result;
 
     if (NBYTES > PrfBase::kDigestSize) {
-        unsigned char* tmp = new unsigned char[length + 1];
-        memcpy(tmp, in, length);
+        std::vector<uint8_t> tmp(length + 1);
+        memcpy(tmp.data(), in, length);
 
         uint16_t pos = 0;
         uint8_t  i   = 0;
@@ -283,18 +284,19 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
 
             // fill res
             if (static_cast<size_t>(NBYTES - pos) >= PrfBase::kDigestSize) {
-                base_.hmac(
-                    tmp, length + 1, result.data() + pos, PrfBase::kDigestSize);
+                base_.hmac(tmp.data(),
+                           length + 1,
+                           result.data() + pos,
+                           PrfBase::kDigestSize);
             } else {
-                base_.hmac(tmp,
+                base_.hmac(tmp.data(),
                            length + 1,
                            result.data() + pos,
                            static_cast<size_t>(NBYTES - pos));
             }
         }
 
-        sodium_memzero(tmp, length + 1);
-        delete[] tmp;
+        sodium_memzero(tmp.data(), length + 1);
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
         base_.hmac(in, length, result.data(), result.size());
-- 
2.43.0


From 4b34f15b2fd5be9d74ba0c81e1c428f475cdf1be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:09 +0000
Subject: [PATCH 14/48] fix: count more than 256 blocks in long PRF outputs

The one-byte counter wrapped around, repeating the output blocks, and for
the longest outputs the 16-bit position wrapped too, so that the loop
never ended.
---
 src/include/sse/crypto/prf.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index b3126ae..9ec5304 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -273,30 +273,36 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     std::array<uint8_t, NBYTES> result;
 
     if (NBYTES > PrfBase::kDigestSize) {
-        std::vector<uint8_t> tmp(length + 1);
+        // one byte can only count 256 blocks: use a second one, in front of the
+        // first, for the outputs which need more blocks
+        constexpr size_t kCounterSize
+            = (NBYTES > 256 * PrfBase::kDigestSize) ? 2 : 1;
+
+        std::vector<uint8_t> tmp(length + kCounterSize);
         memcpy(tmp.data(), in, length);
 
-        uint16_t pos = 0;
-        uint8_t  i   = 0;
+        size_t   pos = 0;
+        uint16_t i   = 0;
         for (; pos < NBYTES; pos += PrfBase::kDigestSize, i++) {
             // use a counter mode
-            tmp[length] = i;
+            tmp[length]                    = static_cast<uint8_t>(i >> 8);
+            tmp[length + kCounterSize - 1] = static_cast<uint8_t>(i & 0xFF);
 
             // fill res
             if (static_cast<size_t>(NBYTES - pos) >= PrfBase::kDigestSize) {
                 base_.hmac(tmp.data(),
-                           length + 1,
+                           length + kCounterSize,
                            result.data() + pos,
                            PrfBase::kDigestSize);
             } else {
                 base_.hmac(tmp.data(),
-                           length + 1,
+                           length + kCounterSize,
                            result.data() + pos,
                            static_cast<size_t>(NBYTES - pos));
             }
         }
 
-        sodium_memzero(tmp.data(), length + 1);
+        sodium_memzero(tmp.data(), length + kCounterSize);
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
         base_.hmac(in, length, result.data(), result.size());
-- 
2.43.0


From 4509a16968ce1dbf28c68c85d0bdb49eccd6f8d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 15/48] fix: give RCPrf its own wrapper type byte

RCPrf and ConstrainedRCPrf shared the type byte 0x06, so that the wrapper
accepted to unwrap one as the other.
---
 src/include/sse/crypto/wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 576920b..5455024 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -363,7 +363,7 @@ class RCPrf;
 template<uint16_t NBYTES>
 struct Wrapper::TypeByte<RCPrf<NBYTES>>
 {
-    static constexpr uint8_t value = 0x06;
+    static constexpr uint8_t value = 0x05;
 };
 
 template<uint16_t NBYTES>
-- 
2.43.0


From e44ff91d0c4b1ce149fa6871f9e05a71967afc6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 16/48] fix: check and release the buffer of Wrapper::wrap and
 unwrap

The protected buffer was leaked by every refused unwrapping, and was used
without checking that it was allocated.
---
 src/include/sse/crypto/wrapper.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 5455024..f3dfa61 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -27,6 +27,7 @@
 #include <algorithm>
 #include <array>
 #include <exception>
+#include <memory>
 #include <vector>
 
 #include <sodium/crypto_stream_chacha20.h>
@@ -200,7 +201,13 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
     const size_t buffer_size     = kRandomIVSize + serialized_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    // the buffer is released even if an exception is thrown
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_ptr(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    if (buffer_ptr == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
+    uint8_t* buffer = buffer_ptr.get();
     // std::array<uint8_t, buffer_size> buffer;
 
     // put the random IV at the beggining
@@ -240,8 +247,6 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
                                     encryption_key_.unlock_get());
     encryption_key_.lock();
 
-    sodium_free(buffer);
-
     return out;
 }
 
@@ -257,7 +262,13 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
     const size_t buffer_size = kRandomIVSize + data_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    // the buffer is released even if an exception is thrown
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_ptr(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    if (buffer_ptr == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
+    uint8_t* buffer = buffer_ptr.get();
     // std::array<uint8_t, buffer_size> buffer;
 
     // copy the IV at the beggining of the buffer
@@ -319,8 +330,7 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
         /* LCOV_EXCL_STOP */
     }
 
-    // free the buffer and zero the entry
-    sodium_free(buffer);
+    // zero the entry
     sodium_memzero(c_rep.data(), c_rep.size());
 
     return c;
-- 
2.43.0


From 8626026c089d0144ac2483e7efaab0af5380288b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 17/48] fix: reject the RCPrf leaves which are not in the tree

A tree of height h has 2^(h-1) leaves, but the leaves up to 2^h-1 were
evaluated as well, to the value of another leaf. For h=64, the shift was
undefined and all the leaves but one were rejected.
---
 src/include/sse/crypto/rcprf.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 0ccbcab..04a0acd 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1938,8 +1938,9 @@ private:
 template<uint16_t NBYTES>
 std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
 {
-    if (leaf >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid node index: leaf > 2^height -1.");
+    if (leaf > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range(
+            "Invalid node index: leaf > 2^(height - 1) - 1.");
     }
 
     return static_cast<const RCPrf<NBYTES>*>(this)
@@ -1951,8 +1952,8 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
                                uint64_t             max,
                                const callback_type& callback) const
 {
-    if (max >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid max index: max > 2^height -1.");
+    if (max > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid max index: max > 2^(height - 1) - 1.");
     }
     if (max < min) {
         throw std::invalid_argument(
-- 
2.43.0


From 5fa0a871213d1c5b5ed8c2fef4a4fe6072307ca6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 18/48] fix: reject reversed ranges in
 ConstrainedRCPrf::constrain

---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 04a0acd..32b9901 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1437,6 +1437,12 @@ void ConstrainedRCPrf<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (min > max) {
+        throw std::invalid_argument(
+            "ConstrainedRCPrf::constrain: Invalid range: min is larger than "
+            "max: max="
+            + std::to_string(max) + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range(
             "ConstrainedRCPrf::generate_constrained_subkeys: the input range ("
-- 
2.43.0


From 2dbb0e654b5c4437876c784542f0c54d6d2352fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 19/48] fix: reject RCPrf trees of height 1

As documented, the height must be larger than 1: a single-leaf tree could
be constructed, but evaluating it was undefined behaviour.
---
 src/include/sse/crypto/rcprf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 32b9901..da8dcd0 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1784,9 +1784,9 @@ public:
     RCPrf(Key<RCPrfParams::kKeySize>&& key, RCPrfParams::depth_type height)
         : RCPrfBase<NBYTES>(height), root_prg_(std::move(key))
     {
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
@@ -1910,9 +1910,9 @@ private:
         // deserialize function, so the next checks should always fail. Yet, for
         // the sake of security, let's keep them here. However, they cannot be
         // tested properly, so remove them from the code coverage.
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
-- 
2.43.0


From 2b125d8f713eab3b143097c1f49a8e6a83ed480b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 20/48] fix: deserialize empty ConstrainedRCPrf objects

They can be serialized and wrapped, but could not be unwrapped.
---
 src/include/sse/crypto/rcprf.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index da8dcd0..bccd5eb 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1535,10 +1535,9 @@ ConstrainedRCPrf<NBYTES> ConstrainedRCPrf<NBYTES>::deserialize(
     size_t&      n_bytes_read)
 {
     constexpr size_t min_size
-        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t)
-          + ConstrainedRCPrfElement<NBYTES>::kSerializedElementInfoSize;
+        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t);
 
-    if (in_size <= min_size) {
+    if (in_size < min_size) {
         /* LCOV_EXCL_START */
         throw std::invalid_argument(
             "ConstrainedRCPrf::deserialize: invalid input buffer size. The "
-- 
2.43.0


From 403c9f0eeaff6f608c4bc0ecd6831338adac0212 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 21/48] fix: check the size of the input of
 TdpInverse::invert_mult

Shorter strings were read out of bounds.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index bfca8af..d8a707e 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -700,6 +700,11 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
                                          std::string&       out,
                                          uint32_t           order) const
 {
+    if (in.size() != kMessageSpaceSize) {
+        throw std::invalid_argument("Invalid TDP input size. Input size should "
+                                    "be kMessageSpaceSize bytes long.");
+    }
+
     std::array<uint8_t, kMessageSpaceSize> in_array;
 
     memcpy(in_array.data(), in.data(), kMessageSpaceSize);
-- 
2.43.0


From fc2f716505300fb1e13816a4095bb838da8f0d87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 22/48] fix: refuse the order 0 in the evaluation of a TDP pool

It is documented as invalid, but was used to index the keys at -2.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index d8a707e..641bb65 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -823,7 +823,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
         // regular eval
         key = &rsa_key_;
 
-    } else if (order <= maximum_order()) {
+    } else if (order > 1 && order <= maximum_order()) {
         // get the right RSA context, i.e. the one in keys_[order-1]
         key = &keys_[order - 2];
     } else {
-- 
2.43.0


From 60c78a1439b77aa7614d6ef408eae03b8309151e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 23/48] fix: use the public exponent of the key in TDP pools

The exponents of the pool were computed as if it was always 65537, while
other exponents are accepted when loading a key.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 641bb65..1459f6c 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -731,7 +731,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
     mbedtls_rsa_init(keys_, 0, 0);
     mbedtls_rsa_copy(keys_, &rsa_key_);
 
-    mbedtls_mpi_mul_int(&keys_[0].E, &keys_[0].E, RSA_PK);
+    mbedtls_mpi_mul_mpi(&keys_[0].E, &keys_[0].E, &rsa_key_.E);
 
     if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
         throw std::runtime_error("Invalid public key generated during the TDP "
@@ -742,7 +742,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
         mbedtls_rsa_init(&keys_[i], 0, 0);
         mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &keys_[i - 1].E, RSA_PK);
+        mbedtls_mpi_mul_mpi(&keys_[i].E, &keys_[i - 1].E, &rsa_key_.E);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From bf37a8c73e1566ce8784214c56a65d0ac33035c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:50 +0000
Subject: [PATCH 24/48] fix: refuse RSA keys whose modulus is not 2048 bits
 long

The messages have a fixed size: the operations with such keys wrote out of
the bounds of their output, or always failed.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 1459f6c..46cc604 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -87,6 +87,12 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
                                  "initialization");
         /* LCOV_EXCL_STOP */
     }
+
+    if (rsa_size() != kMessageSpaceSize) {
+        mbedtls_rsa_free(&rsa_key_);
+        throw std::runtime_error("Invalid RSA public key: the size of the "
+                                 "modulus must be kMessageSpaceSize bytes");
+    }
 }
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
@@ -422,6 +428,11 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
             "initialization from existing secret key"); /* LCOV_EXCL_LINE */
     }
 
+    if (rsa_size() != kMessageSpaceSize) {
+        throw std::runtime_error("Invalid RSA private key: the size of the "
+                                 "modulus must be kMessageSpaceSize bytes");
+    }
+
     if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
         throw std::runtime_error(
             "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-- 
2.43.0


From 848fe527fb60faae3d90d917bdcc5f57962ef7cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:04 +0000
Subject: [PATCH 25/48] fix: build TDP pools of size 1 and report the errors of
 larger ones

The first element of an empty array was written for the size 1. When a
pool cannot be built or copied, its keys were leaked, and the errors of
the operations on the keys were ignored.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 49 ++++++++++++++++---------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 46cc604..f6eae24 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -728,6 +728,16 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
 }
 
 
+// erase and free an array of keys, whose n_keys first elements are initialized
+static void free_keys(mbedtls_rsa_context* keys, size_t n_keys)
+{
+    for (size_t i = 0; i < n_keys; i++) {
+        zeroize_rsa(&keys[i]);
+        mbedtls_rsa_free(&keys[i]);
+    }
+    delete[] keys;
+}
+
 TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
                                                  const uint8_t      size)
     : TdpImpl_mbedTLS(sk), keys_count_(size - 1)
@@ -739,26 +749,22 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
     keys_ = new mbedtls_rsa_context[keys_count_];
 
-    mbedtls_rsa_init(keys_, 0, 0);
-    mbedtls_rsa_copy(keys_, &rsa_key_);
-
-    mbedtls_mpi_mul_mpi(&keys_[0].E, &keys_[0].E, &rsa_key_.E);
-
-    if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
-        throw std::runtime_error("Invalid public key generated during the TDP "
-                                 "pool initialization"); /* LCOV_EXCL_LINE */
-    }
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        // the first key of the array is the one of order 2
+        const mbedtls_rsa_context* previous
+            = (i == 0) ? &rsa_key_ : &keys_[i - 1];
 
-    for (uint8_t i = 1; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
-        mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
 
-        mbedtls_mpi_mul_mpi(&keys_[i].E, &keys_[i - 1].E, &rsa_key_.E);
-
-        if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+        if (mbedtls_rsa_copy(&keys_[i], previous) != 0
+            || mbedtls_mpi_mul_mpi(&keys_[i].E, &previous->E, &rsa_key_.E) != 0
+            || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+            /* LCOV_EXCL_START */
+            free_keys(keys_, i + 1);
             throw std::runtime_error(
                 "Invalid public key generated during the TDP pool "
-                "initialization"); /* LCOV_EXCL_LINE */
+                "initialization");
+            /* LCOV_EXCL_STOP */
         }
     }
 }
@@ -772,10 +778,9 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(
     for (uint8_t i = 0; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
 
-        mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]);
-
-
-        if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+        if (mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]) != 0
+            || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+            free_keys(keys_, i + 1); /* LCOV_EXCL_LINE */
             throw std::runtime_error(
                 "Invalid public key generated by the TDP pool copy "
                 "constructor"); /* LCOV_EXCL_LINE */
@@ -816,11 +821,7 @@ TdpMultPoolImpl_mbedTLS& TdpMultPoolImpl_mbedTLS::operator=(
 
 TdpMultPoolImpl_mbedTLS::~TdpMultPoolImpl_mbedTLS()
 {
-    for (uint8_t i = 0; i < keys_count_; i++) {
-        zeroize_rsa(&keys_[i]);
-        mbedtls_rsa_free(&keys_[i]);
-    }
-    delete[] keys_;
+    free_keys(keys_, keys_count_);
 }
 
 std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize>
-- 
2.43.0


From cf030e6b55918a36aa4d1f3f6d88a8b9e77d3216 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:04 +0000
Subject: [PATCH 26/48] fix: free the big integers of the TDP when an operation
 throws

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 44 +++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index f6eae24..fe5f03e 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -62,6 +62,29 @@ static void zeroize_rsa(mbedtls_rsa_context* rsa)
     mbedtls_mpi_lset(&rsa->Vf, 0);
 }
 
+// frees a big integer at the end of the scope, also when an exception is thrown
+class MpiGuard
+{
+public:
+    explicit MpiGuard(mbedtls_mpi* x) : x_(x)
+    {
+    }
+    MpiGuard(const MpiGuard&) = delete;
+    MpiGuard& operator=(const MpiGuard&) = delete;
+    ~MpiGuard()
+    {
+        mbedtls_mpi_free(x_);
+    }
+
+    void release()
+    {
+        x_ = nullptr;
+    }
+
+private:
+    mbedtls_mpi* x_;
+};
+
 // mbedTLS implementation of the trapdoor permutation
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS()
@@ -78,11 +101,13 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
             reinterpret_cast<const unsigned char*>(pk.c_str()),
             pk.length() + 1)
         != 0) {
+        mbedtls_rsa_free(&rsa_key_);
         throw std::runtime_error("Invalid RSA public key");
     }
 
     if (mbedtls_rsa_check_pubkey(&rsa_key_) != 0) {
         /* LCOV_EXCL_START */
+        mbedtls_rsa_free(&rsa_key_);
         throw std::runtime_error("Invalid public key generated during the TDP "
                                  "initialization");
         /* LCOV_EXCL_STOP */
@@ -105,6 +130,7 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
 
     if (mbedtls_rsa_check_pubkey(&rsa_key_) != 0) {
         /* LCOV_EXCL_START */
+        mbedtls_rsa_free(&rsa_key_);
         throw std::runtime_error("Invalid public key generated by the TDP copy "
                                  "constructor");
         /* LCOV_EXCL_STOP */
@@ -188,6 +214,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::eval(
     int         ret;
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiGuard x_guard(&x);
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -252,6 +279,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 {
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiGuard x_guard(&x);
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -300,6 +328,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiGuard x_guard(&x);
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -366,6 +395,8 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
     mbedtls_mpi_init(&phi_);
     mbedtls_mpi_init(&p_1_);
     mbedtls_mpi_init(&q_1_);
+    // the destructor is not run if an exception is thrown
+    MpiGuard phi_guard(&phi_), p_1_guard(&p_1_), q_1_guard(&q_1_);
 
     // generate a new random key
     ret = mbedtls_rsa_gen_key(
@@ -396,6 +427,10 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
         throw std::runtime_error(
             "Failed MPI multiplication"); /* LCOV_EXCL_LINE */
     }
+
+    phi_guard.release();
+    p_1_guard.release();
+    q_1_guard.release();
 }
 
 TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
@@ -407,6 +442,8 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
     mbedtls_mpi_init(&phi_);
     mbedtls_mpi_init(&p_1_);
     mbedtls_mpi_init(&q_1_);
+    // the destructor is not run if an exception is thrown
+    MpiGuard phi_guard(&phi_), p_1_guard(&p_1_), q_1_guard(&q_1_);
 
     // do not forget the '\0' character
     ret = mbedtls_rsa_parse_key(
@@ -445,6 +482,10 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
         throw std::runtime_error(
             "Failed MPI multiplication"); /* LCOV_EXCL_LINE */
     }
+
+    phi_guard.release();
+    p_1_guard.release();
+    q_1_guard.release();
 }
 
 TdpInverseImpl_mbedTLS::~TdpInverseImpl_mbedTLS()
@@ -592,6 +633,8 @@ TdpInverseImpl_mbedTLS::invert_mult(
     mbedtls_mpi_init(&y_p);
     mbedtls_mpi_init(&y_q);
     mbedtls_mpi_init(&y);
+    MpiGuard x_guard(&x), order_guard(&mpi_order), d_p_guard(&d_p),
+        d_q_guard(&d_q), y_p_guard(&y_p), y_q_guard(&y_q), y_guard(&y);
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -855,6 +898,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
     int         ret;
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiGuard x_guard(&x);
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
-- 
2.43.0


From 5c08cac66cd7bdc911b4dc381c5ef536829de725 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:42 +0000
Subject: [PATCH 27/48] fix: do not declare noexcept a function which allocates

TdpInverse::serialized_size exports the key, which throws when the memory is
exhausted and ended the process.
---
 src/include/sse/crypto/tdp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index a98b58f..fdb2f6b 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -584,7 +584,7 @@ private:
     ///
     /// @return The size in bytes of the buffer needed to serialize the object.
     ///
-    size_t serialized_size() const noexcept
+    size_t serialized_size() const
     {
         return private_key().size();
     }
-- 
2.43.0


From df30746a0cef700457d21bb9c8becf95df6bf17d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 28/48] fix: negate the smallest integer without overflow in
 big-integer functions

---
 src/mbedtls/bignum.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 0c0f549..1043b67 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -300,7 +300,7 @@ int mbedtls_mpi_lset( mbedtls_mpi *X, mbedtls_mpi_sint z )
     MBEDTLS_MPI_CHK( mbedtls_mpi_grow( X, 1 ) );
     memset( X->p, 0, X->n * ciL );
 
-    X->p[0] = ( z < 0 ) ? -z : z;
+    X->p[0] = ( z < 0 ) ? -(mbedtls_mpi_uint) z : (mbedtls_mpi_uint) z;
     X->s    = ( z < 0 ) ? -1 : 1;
 
 cleanup:
@@ -810,7 +810,7 @@ int mbedtls_mpi_cmp_int( const mbedtls_mpi *X, mbedtls_mpi_sint z )
     mbedtls_mpi Y;
     mbedtls_mpi_uint p[1];
 
-    *p  = ( z < 0 ) ? -z : z;
+    *p  = ( z < 0 ) ? -(mbedtls_mpi_uint) z : (mbedtls_mpi_uint) z;
     Y.s = ( z < 0 ) ? -1 : 1;
     Y.n = 1;
     Y.p = p;
@@ -1008,7 +1008,7 @@ int mbedtls_mpi_add_int( mbedtls_mpi *X, const mbedtls_mpi *A, mbedtls_mpi_sint
     mbedtls_mpi _B;
     mbedtls_mpi_uint p[1];
 
-    p[0] = ( b < 0 ) ? -b : b;
+    p[0] = ( b < 0 ) ? -(mbedtls_mpi_uint) b : (mbedtls_mpi_uint) b;
     _B.s = ( b < 0 ) ? -1 : 1;
     _B.n = 1;
     _B.p = p;
@@ -1024,7 +1024,7 @@ int mbedtls_mpi_sub_int( mbedtls_mpi *X, const mbedtls_mpi *A, mbedtls_mpi_sint
     mbedtls_mpi _B;
     mbedtls_mpi_uint p[1];
 
-    p[0] = ( b < 0 ) ? -b : b;
+    p[0] = ( b < 0 ) ? -(mbedtls_mpi_uint) b : (mbedtls_mpi_uint) b;
     _B.s = ( b < 0 ) ? -1 : 1;
     _B.n = 1;
     _B.p = p;
@@ -1379,7 +1379,7 @@ int mbedtls_mpi_div_int( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, m
     mbedtls_mpi _B;
     mbedtls_mpi_uint p[1];
 
-    p[0] = ( b < 0 ) ? -b : b;
+    p[0] = ( b < 0 ) ? -(mbedtls_mpi_uint) b : (mbedtls_mpi_uint) b;
     _B.s = ( b < 0 ) ? -1 : 1;
     _B.n = 1;
     _B.p = p;
-- 
2.43.0


From c0c831fae93bbb822c067e6ce7e8ccf2d3e26987 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 29/48] fix: reduce big integers modulo large or even small
 integers correctly

---
 src/mbedtls/bignum.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 1043b67..845c744 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1435,10 +1435,29 @@ int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_
 
     if( b == 2 )
     {
-        *r = A->p[0] & 1;
+        *r = ( A->n != 0 ) ? A->p[0] & 1 : 0;
         return( 0 );
     }
 
+    /*
+     * the half limb division below only works for half limb divisors
+     */
+    if( ( (mbedtls_mpi_uint) b >> biH ) != 0 )
+    {
+        int ret;
+        mbedtls_mpi B, R;
+
+        mbedtls_mpi_init( &B ); mbedtls_mpi_init( &R );
+
+        if( ( ret = mbedtls_mpi_lset( &B, b ) ) == 0 &&
+            ( ret = mbedtls_mpi_mod_mpi( &R, A, &B ) ) == 0 )
+            *r = ( R.n != 0 ) ? R.p[0] : 0;
+
+        mbedtls_mpi_free( &B ); mbedtls_mpi_free( &R );
+
+        return( ret );
+    }
+
     /*
      * general case
      */
-- 
2.43.0


From 01ad12378837a4a91babc424fd42a04b658f3cd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 30/48] fix: divide big integers when an output is also an
 input

---
 src/mbedtls/bignum.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 845c744..8168859 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1261,7 +1261,7 @@ static mbedtls_mpi_uint mbedtls_int_div_int( mbedtls_mpi_uint u1,
  */
 int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi *B )
 {
-    int ret;
+    int ret, as = A->s, bs = B->s; /* Q or R might be A or B */
     size_t i, n, t, k;
     mbedtls_mpi X, Y, Z, T1, T2;
 
@@ -1273,8 +1273,8 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
 
     if( mbedtls_mpi_cmp_abs( A, B ) < 0 )
     {
-        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         if( R != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, A ) );
+        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         return( 0 );
     }
 
@@ -1350,13 +1350,13 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
     if( Q != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( Q, &Z ) );
-        Q->s = A->s * B->s;
+        Q->s = as * bs;
     }
 
     if( R != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &X, k ) );
-        X.s = A->s;
+        X.s = as;
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, &X ) );
 
         if( mbedtls_mpi_cmp_int( R, 0 ) == 0 )
-- 
2.43.0


From 73e1b48bbd61fa640a2c4c5cf22cb6999bd4cc93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 31/48] fix: reduce a big integer into its own modulus
 correctly

---
 src/mbedtls/bignum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 8168859..64753f5 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1393,10 +1393,15 @@ int mbedtls_mpi_div_int( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, m
 int mbedtls_mpi_mod_mpi( mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi *B )
 {
     int ret;
+    mbedtls_mpi TB;
 
     if( mbedtls_mpi_cmp_int( B, 0 ) < 0 )
         return( MBEDTLS_ERR_MPI_NEGATIVE_VALUE );
 
+    mbedtls_mpi_init( &TB );
+
+    if( R == B ) { MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TB, B ) ); B = &TB; }
+
     MBEDTLS_MPI_CHK( mbedtls_mpi_div_mpi( NULL, R, A, B ) );
 
     while( mbedtls_mpi_cmp_int( R, 0 ) < 0 )
@@ -1407,6 +1412,8 @@ int mbedtls_mpi_mod_mpi( mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi
 
 cleanup:
 
+    mbedtls_mpi_free( &TB );
+
     return( ret );
 }
 
-- 
2.43.0


From 8acc7d9b814d791395f629b0873262c78f1bd0a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 32/48] fix: refuse a zero modulus and reduce null powers of
 negative numbers in exp_mod

---
 src/mbedtls/bignum.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 64753f5..4d9e63d 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1580,7 +1580,7 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
     mbedtls_mpi RR, T, W[ 2 << MBEDTLS_MPI_WINDOW_SIZE ], Apos;
     int neg;
 
-    if( mbedtls_mpi_cmp_int( N, 0 ) < 0 || ( N->p[0] & 1 ) == 0 )
+    if( mbedtls_mpi_cmp_int( N, 0 ) <= 0 || ( N->p[0] & 1 ) == 0 )
         return( MBEDTLS_ERR_MPI_BAD_INPUT_DATA );
 
     if( mbedtls_mpi_cmp_int( E, 0 ) < 0 )
@@ -1756,7 +1756,8 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
      */
     MBEDTLS_MPI_CHK( mpi_montred( X, N, mm, &T ) );
 
-    if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 )
+    if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 &&
+        mbedtls_mpi_cmp_int( X, 0 ) != 0 )
     {
         X->s = -1;
         MBEDTLS_MPI_CHK( mbedtls_mpi_add_mpi( X, N, X ) );
-- 
2.43.0


From 5478615137f166cf071ad028a77440d5a89c16e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 33/48] fix: compute the gcd with zero

---
 src/mbedtls/bignum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 4d9e63d..4e0b01b 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1790,6 +1790,10 @@ int mbedtls_mpi_gcd( mbedtls_mpi *G, const mbedtls_mpi *A, const mbedtls_mpi *B
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TA, A ) );
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TB, B ) );
 
+    /* gcd(A, 0) = |A| */
+    if( mbedtls_mpi_cmp_int( &TB, 0 ) == 0 )
+        mbedtls_mpi_swap( &TA, &TB );
+
     lz = mbedtls_mpi_lsb( &TA );
     lzt = mbedtls_mpi_lsb( &TB );
 
-- 
2.43.0


From 997c3a8f0396fadea78ead69536b0e91cb912cc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 34/48] fix: keep the size of the destination when copying an
 empty big integer

---
 src/mbedtls/bignum.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 4e0b01b..919704e 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -189,7 +189,10 @@ int mbedtls_mpi_copy( mbedtls_mpi *X, const mbedtls_mpi *Y )
 
     if( Y->p == NULL )
     {
-        mbedtls_mpi_free( X );
+        /* keep the limbs of X, as the copy of any other number does */
+        if( X->p != NULL )
+            memset( X->p, 0, X->n * ciL );
+        X->s = 1;
         return( 0 );
     }
 
-- 
2.43.0


From a37e44f07256eb1bd7e2c21b72d08cd13c33319c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:49 +0000
Subject: [PATCH 35/48] fix: accept primes which are just above a power of two

---
 src/mbedtls/bignum.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 919704e..ffa139d 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -2069,8 +2069,13 @@ static int mpi_miller_rabin( const mbedtls_mpi *X,
                 MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &A, j - k ) );
             }
 
+            /* bit k - 1 of W is set */
+            if( mbedtls_mpi_cmp_mpi( &A, &W ) >= 0 )
+                MBEDTLS_MPI_CHK( mbedtls_mpi_set_bit( &A, k - 1, 0 ) );
+
             if (count++ > 30) {
-                return MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
+                ret = MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
+                goto cleanup;
             }
 
         } while ( mbedtls_mpi_cmp_mpi( &A, &W ) >= 0 ||
-- 
2.43.0


From 329ceebc6925dd0feb5bc734aca142ad3d671f9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:41 +0000
Subject: [PATCH 36/48] fix: refuse Base64 text with an incomplete last group

---
 src/mbedtls/base64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mbedtls/base64.c b/src/mbedtls/base64.c
index f46b675..800d9e1 100644
--- a/src/mbedtls/base64.c
+++ b/src/mbedtls/base64.c
@@ -195,6 +195,10 @@ int mbedtls_base64_decode( unsigned char *dst, size_t dlen, size_t *olen,
         return( 0 );
     }
 
+    /* An incomplete last group carries symbols which would be dropped */
+    if( n % 4 != 0 )
+        return( MBEDTLS_ERR_BASE64_INVALID_CHARACTER );
+
     /* The following expression is to calculate the following formula without
      * risk of integer overflow in n:
      *     n = ( ( n * 6 ) + 7 ) >> 3;
-- 
2.43.0


From c50110ef9b748176ac04bde27a9f1c80ad4119d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:41 +0000
Subject: [PATCH 37/48] fix: encode the integer zero with one content byte in
 DER

---
 src/mbedtls/asn1write.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mbedtls/asn1write.c b/src/mbedtls/asn1write.c
index f3f75df..53b3900 100644
--- a/src/mbedtls/asn1write.c
+++ b/src/mbedtls/asn1write.c
@@ -138,6 +138,10 @@ int mbedtls_asn1_write_mpi( unsigned char **p, unsigned char *start, const mbedt
     //
     len = mbedtls_mpi_size( X );
 
+    // DER represents 0 with a single zero byte
+    if( len == 0 )
+        len = 1;
+
     if( *p < start || (size_t)( *p - start ) < len )
         return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
 
-- 
2.43.0


From 023e278ff901c10a79b7c372dd147d1ce15543f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:41 +0000
Subject: [PATCH 38/48] fix: report a failed allocation when parsing an
 unarmoured private key

---
 src/mbedtls/pkparse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mbedtls/pkparse.c b/src/mbedtls/pkparse.c
index 828f64c..75242b0 100644
--- a/src/mbedtls/pkparse.c
+++ b/src/mbedtls/pkparse.c
@@ -445,8 +445,10 @@ int mbedtls_pk_parse_key( mbedtls_pk_context *pk,
     if( ( pk_info = mbedtls_pk_info_from_type( MBEDTLS_PK_RSA ) ) == NULL )
         return( MBEDTLS_ERR_PK_UNKNOWN_PK_ALG );
 
-    if( ( ret = mbedtls_pk_setup( pk, pk_info                           ) ) != 0 ||
-        ( ret = pk_parse_key_pkcs1_der( mbedtls_pk_rsa( *pk ), key, keylen ) ) == 0 )
+    if( ( ret = mbedtls_pk_setup( pk, pk_info ) ) != 0 )
+        return( ret );
+
+    if( ( ret = pk_parse_key_pkcs1_der( mbedtls_pk_rsa( *pk ), key, keylen ) ) == 0 )
     {
         return( 0 );
     }
-- 
2.43.0


From ce9f3d6dd26ff7a626b6edd79b4345614f150cca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:41 +0000
Subject: [PATCH 39/48] fix: report a failed copy of a parsed RSA key

---
 src/mbedtls/rsa_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mbedtls/rsa_io.c b/src/mbedtls/rsa_io.c
index 43549db..7eba18a 100644
--- a/src/mbedtls/rsa_io.c
+++ b/src/mbedtls/rsa_io.c
@@ -51,7 +51,7 @@ int mbedtls_rsa_parse_public_key( mbedtls_rsa_context *rsa_ctx,
     if( mbedtls_pk_get_type( &pk_ctx ) == MBEDTLS_PK_RSA )
     {
         // copy the key context to rsa_ctx
-        mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
+        ret = mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
     }else{
         ret = MBEDTLS_ERR_PK_UNKNOWN_PK_ALG;
     }
@@ -81,7 +81,7 @@ int mbedtls_rsa_parse_key( mbedtls_rsa_context *rsa_ctx,
     if( mbedtls_pk_get_type( &pk_ctx ) == MBEDTLS_PK_RSA )
     {
         // copy the key context to rsa_ctx
-        mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
+        ret = mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
     }else{
         ret = MBEDTLS_ERR_PK_UNKNOWN_PK_ALG;
     }
-- 
2.43.0


From bf60e3c44d32b12f1e79c297dbce4cb4386b7fd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:55 +0000
Subject: [PATCH 40/48] fix: erase PEM buffers before they are released

---
 src/mbedtls/pem.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mbedtls/pem.c b/src/mbedtls/pem.c
index 69d0210..b8c3cf4 100644
--- a/src/mbedtls/pem.c
+++ b/src/mbedtls/pem.c
@@ -44,12 +44,13 @@
 // mbedTLS does sign conversion everywhere
 #pragma GCC diagnostic ignored "-Wsign-conversion"
 
-#if defined(MBEDTLS_PEM_PARSE_C)
 /* Implementation that should never be optimized out by the compiler */
 static void mbedtls_zeroize( void *v, size_t n ) {
     volatile unsigned char *p = v; while( n-- ) *p++ = 0;
 }
 
+#if defined(MBEDTLS_PEM_PARSE_C)
+
 void mbedtls_pem_init( mbedtls_pem_context *ctx )
 {
     memset( ctx, 0, sizeof( mbedtls_pem_context ) );
@@ -123,6 +124,8 @@ int mbedtls_pem_read_buffer( mbedtls_pem_context *ctx, const char *header, const
 
 void mbedtls_pem_free( mbedtls_pem_context *ctx )
 {
+    if( ctx->buf != NULL )
+        mbedtls_zeroize( ctx->buf, ctx->buflen );
     mbedtls_free( ctx->buf );
     mbedtls_free( ctx->info );
 
@@ -137,7 +140,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
 {
     int ret;
     unsigned char *encode_buf, *c, *p = buf;
-    size_t len = 0, use_len, add_len = 0;
+    size_t len = 0, use_len, add_len = 0, encode_len;
 
     mbedtls_base64_encode( NULL, 0, &use_len, der_data, der_len );
     add_len = strlen( header ) + strlen( footer ) + ( use_len / 64 ) + 1;
@@ -148,7 +151,8 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
         return( MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL );
     }
 
-    if( ( encode_buf = mbedtls_calloc( 1, use_len ) ) == NULL )
+    encode_len = use_len;
+    if( ( encode_buf = mbedtls_calloc( 1, encode_len ) ) == NULL )
         return( MBEDTLS_ERR_PEM_ALLOC_FAILED ); /* LCOV_EXCL_LINE */
 
     if( ( ret = mbedtls_base64_encode( encode_buf, use_len, &use_len, der_data,
@@ -178,6 +182,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
     *p++ = '\0';
     *olen = p - buf;
 
+    mbedtls_zeroize( encode_buf, encode_len );
     mbedtls_free( encode_buf );
     return( 0 );
 }
-- 
2.43.0


From 23905c5d662b49aaca61b962cd430bede6be1f5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 41/48] fix: erase the temporary copies of a wrapped private
 key

---
 src/include/sse/crypto/tdp.hpp | 8 +++++++-
 src/tdp.cpp                    | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index fdb2f6b..03f271d 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -31,6 +31,8 @@
 #include <memory>
 #include <string>
 
+#include <sodium/utils.h>
+
 namespace sse {
 namespace crypto {
 
@@ -586,7 +588,11 @@ private:
     ///
     size_t serialized_size() const
     {
-        return private_key().size();
+        std::string  sk   = private_key();
+        const size_t size = sk.size();
+
+        sodium_memzero(&sk[0], size); // do not leave the key in memory
+        return size;
     }
 
     /// @brief Serialize the object in the given buffer
diff --git a/src/tdp.cpp b/src/tdp.cpp
index 3fe408c..59c7df0 100644
--- a/src/tdp.cpp
+++ b/src/tdp.cpp
@@ -30,6 +30,9 @@
 #include <exception>
 #include <iomanip>
 #include <iostream>
+#include <memory>
+
+#include <sodium/utils.h>
 
 #define SSE_CRYPTO_TDP_IMPL_MBEDTLS 1
 #define SSE_CRYPTO_TDP_IMPL_OPENSSL 2
@@ -290,6 +293,7 @@ void TdpInverse::serialize(uint8_t* out) const
     std::string sk = private_key();
     // NOLINTNEXTLINE(bugprone-not-null-terminated-result)
     memcpy(out, sk.data(), sk.size());
+    sodium_memzero(&sk[0], sk.size()); // do not leave the key in memory
 }
 
 
@@ -318,6 +322,10 @@ TdpInverse TdpInverse::deserialize(uint8_t*     in,
     std::string sk(
         reinterpret_cast<const char*>(in),
         reinterpret_cast<const char*>(suffix_start + kKeySuffixSize));
+    // erase the copy of the key, even if it is invalid
+    auto erase = [](std::string* s) { sodium_memzero(&(*s)[0], s->size()); };
+    std::unique_ptr<std::string, decltype(erase)> sk_eraser(&sk, erase);
+
     TdpInverse result(sk);
 
     if ((n_bytes_read < in_size) && (in[n_bytes_read] == '\n')) {
-- 
2.43.0


From 660dd87e2329c74c3065deef5a27535e8d5fed97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:36 +0000
Subject: [PATCH 42/48] fix: tell the compiler that the x86-64 multiplication
 assembly writes memory

---
 src/mbedtls/bn_mul.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mbedtls/bn_mul.h b/src/mbedtls/bn_mul.h
index cac3f14..968a0d9 100644
--- a/src/mbedtls/bn_mul.h
+++ b/src/mbedtls/bn_mul.h
@@ -179,7 +179,7 @@
 #define MULADDC_STOP                        \
         : "+c" (c), "+D" (d), "+S" (s)      \
         : "b" (b)                           \
-        : "rax", "rdx", "r8"                \
+        : "rax", "rdx", "r8", "memory"      \
     );
 
 #endif /* AMD64 */
-- 
2.43.0


From c85cf5affa9d6ad65fb1b0e383a3f2da14dd7b13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:40 +0000
Subject: [PATCH 43/48] fix: random_string leaked its buffer when the string
 allocation failed

---
 src/include/sse/crypto/random.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/include/sse/crypto/random.hpp b/src/include/sse/crypto/random.hpp
index e53aa88..902f303 100644
--- a/src/include/sse/crypto/random.hpp
+++ b/src/include/sse/crypto/random.hpp
@@ -82,11 +82,8 @@ inline std::array<T, N> random_bytes() noexcept
 ///
 inline std::string random_string(const size_t length)
 {
-    uint8_t* tmp = new uint8_t[length];
-    random_bytes(length, tmp);
-
-    std::string out(reinterpret_cast<char*>(tmp), length);
-    delete[] tmp;
+    std::string out(length, '\0');
+    random_bytes(length, reinterpret_cast<unsigned char*>(&out[0]));
 
     return out;
 }
-- 
2.43.0


From 0c090d31b73672accea508fa40b3b2ab58d3cb05 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:40 +0000
Subject: [PATCH 44/48] fix: a failure while preparing RSA blinding left
 mismatched blinding values

---
 src/mbedtls/rsa.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/rsa.c b/src/mbedtls/rsa.c
index c14a661..2bb5e86 100644
--- a/src/mbedtls/rsa.c
+++ b/src/mbedtls/rsa.c
@@ -338,7 +338,12 @@ static int rsa_prepare_blinding( mbedtls_rsa_context *ctx,
     /* Unblinding value: Vf = random number, invertible mod N */
     do {
         if( count++ > 10 )
-            return( MBEDTLS_ERR_RSA_RNG_FAILED ); /* LCOV_EXCL_LINE */
+        {
+            /* LCOV_EXCL_START */
+            ret = MBEDTLS_ERR_RSA_RNG_FAILED;
+            goto cleanup;
+            /* LCOV_EXCL_STOP */
+        }
 
         MBEDTLS_MPI_CHK( mbedtls_mpi_fill_random( &ctx->Vf, ctx->len - 1, f_rng, p_rng ) );
         MBEDTLS_MPI_CHK( mbedtls_mpi_gcd( &ctx->Vi, &ctx->Vf, &ctx->N ) );
@@ -350,6 +355,13 @@ static int rsa_prepare_blinding( mbedtls_rsa_context *ctx,
 
 
 cleanup:
+    if( ret != 0 )
+    {
+        /* The values do not match: start again from fresh ones the next time */
+        mbedtls_mpi_free( &ctx->Vi );
+        mbedtls_mpi_free( &ctx->Vf );
+    }
+
     return( ret );
 }
 
-- 
2.43.0


From 305f487051e8a1dd4c9023700b37cc8b9c69f9ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:40 +0000
Subject: [PATCH 45/48] fix: incremental puncturing refuses the reserved tag as
 documented

---
 src/ppke/GMPpke.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppke/GMPpke.cpp b/src/ppke/GMPpke.cpp
index 98b7798..5bdb4e9 100644
--- a/src/ppke/GMPpke.cpp
+++ b/src/ppke/GMPpke.cpp
@@ -283,11 +283,15 @@ GmppkePrivateKeyShare Gmppke::skShareGen(
     size_t                                      d,
     const tag_type&                             tag) const
 {
+    if (tag == NULLTAG) {
+        throw std::invalid_argument(
+            "Invalid tag: the NULLTAG is reserved and cannot be used.");
+    }
+
     const ZR              h = group.hashListToZR(tag);
     GmppkePrivateKeyShare share;
 
     assert(d > 0);
-    assert(tag != NULLTAG);
     std::string d_string = std::to_string(d);
 
     const ZR r1 = group.pseudoRandomZR(prf, ("param_r1_" + d_string));
-- 
2.43.0


From 390e91208ecd4ea3d21734956859b43398ed988c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:40 +0000
Subject: [PATCH 46/48] fix: printing a group element read out of bounds

---
 src/ppke/relic_wrapper/relic_api.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppke/relic_wrapper/relic_api.cpp b/src/ppke/relic_wrapper/relic_api.cpp
index 409de63..9e68616 100644
--- a/src/ppke/relic_wrapper/relic_api.cpp
+++ b/src/ppke/relic_wrapper/relic_api.cpp
@@ -378,7 +378,7 @@ std::ostream& operator<<(std::ostream& s, const G1& g1)
     auto data = g1.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
@@ -497,7 +497,7 @@ std::ostream& operator<<(std::ostream& s, const G2& g2)
     auto data = g2.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
@@ -640,7 +640,7 @@ std::ostream& operator<<(std::ostream& s, const GT& gt)
     auto data = gt.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
-- 
2.43.0


From c642547bdfbb0286ebe3a45f7311e0a33e8c1a29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:53 +0000
Subject: [PATCH 47/48] fix: exporting a private key left its encoding on the
 stack

---
 src/mbedtls/rsa_io.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mbedtls/rsa_io.c b/src/mbedtls/rsa_io.c
index 7eba18a..ae36d6f 100644
--- a/src/mbedtls/rsa_io.c
+++ b/src/mbedtls/rsa_io.c
@@ -33,6 +33,10 @@
 // mbedTLS does sign conversion everywhere
 #pragma GCC diagnostic ignored "-Wsign-conversion"
 
+/* Implementation that should never be optimized out by the compiler */
+static void mbedtls_zeroize( void *v, size_t n ) {
+    volatile unsigned char *p = (unsigned char*)v; while( n-- ) *p++ = 0;
+}
 
 int mbedtls_rsa_parse_public_key( mbedtls_rsa_context *rsa_ctx,
                                  const unsigned char *key, size_t keylen )
@@ -237,7 +241,7 @@ int mbedtls_rsa_write_key_pem( mbedtls_rsa_context *key, unsigned char *buf, siz
     size_t olen = 0;
     
     if( ( ret = mbedtls_rsa_write_key_der( key, output_buf, sizeof(output_buf) ) ) < 0 )
-        return( ret );
+        goto cleanup;
     
     begin = PEM_BEGIN_PRIVATE_KEY_RSA;
     end = PEM_END_PRIVATE_KEY_RSA;
@@ -246,10 +250,14 @@ int mbedtls_rsa_write_key_pem( mbedtls_rsa_context *key, unsigned char *buf, siz
                                          output_buf + sizeof(output_buf) - ret,
                                          ret, buf, size, &olen ) ) != 0 )
     {
-        return( ret );
+        goto cleanup;
     }
     
-    return( 0 );
+cleanup:
+    /* do not leave the private key on the stack */
+    mbedtls_zeroize( output_buf, sizeof(output_buf) );
+
+    return( ret );
 }
 
 #pragma GCC diagnostic pop
-- 
2.43.0


From efa2455dcdf6b15be93e13e520fdeff550d91344 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:53 +0000
Subject: [PATCH 48/48] fix: drawing a random number left it on the stack

---
 src/mbedtls/bignum.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index ffa139d..59edbe5 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -64,6 +64,10 @@ static void mbedtls_mpi_zeroize( mbedtls_mpi_uint *v, size_t n ) {
     volatile mbedtls_mpi_uint *p = v; while( n-- ) *p++ = 0;
 }
 
+static void mbedtls_zeroize( void *v, size_t n ) {
+    volatile unsigned char *p = (unsigned char*)v; while( n-- ) *p++ = 0;
+}
+
 #define ciL    (sizeof(mbedtls_mpi_uint))         /* chars in limb  */
 #define biL    (ciL << 3)               /* bits  in limb  */
 #define biH    (ciL << 2)               /* half limb size */
@@ -1856,6 +1860,8 @@ int mbedtls_mpi_fill_random( mbedtls_mpi *X, size_t size,
     MBEDTLS_MPI_CHK( mbedtls_mpi_read_binary( X, buf, size ) );
 
 cleanup:
+    /* X may be secret: do not leave it on the stack */
+    mbedtls_zeroize( buf, size );
     return( ret );
 }
 
-- 
2.43.0


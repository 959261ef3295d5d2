From 90c50ff6cd0838958300beb756b5df07cfab9186 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 1/6] fix: reject ciphertexts shorter than a tag instead of
 reading out of bounds

---
 crypto_aead/isapa128av20/avx_512/crypto_aead.c          | 3 +++
 crypto_aead/isapa128av20/bi_32/crypto_aead.c            | 3 +++
 crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c | 3 +++
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c        | 3 +++
 crypto_aead/isapa128av20/bi_8/crypto_aead.c             | 3 +++
 crypto_aead/isapa128av20/opt_32/crypto_aead.c           | 3 +++
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c       | 3 +++
 crypto_aead/isapa128av20/opt_64/crypto_aead.c           | 3 +++
 crypto_aead/isapa128av20/opt_8/crypto_aead.c            | 3 +++
 crypto_aead/isapa128av20/ref/crypto_aead.c              | 3 +++
 crypto_aead/isapa128v20/opt_32/crypto_aead.c            | 3 +++
 crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c    | 3 +++
 crypto_aead/isapa128v20/opt_64/crypto_aead.c            | 3 +++
 crypto_aead/isapa128v20/ref/crypto_aead.c               | 3 +++
 crypto_aead/isapk128av20/avx512/crypto_aead.c           | 3 +++
 crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c    | 3 +++
 crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c    | 3 +++
 crypto_aead/isapk128av20/opt_64/crypto_aead.c           | 3 +++
 crypto_aead/isapk128av20/ref/crypto_aead.c              | 3 +++
 crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c     | 3 +++
 crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c     | 3 +++
 crypto_aead/isapk128v20/opt_64/crypto_aead.c            | 3 +++
 crypto_aead/isapk128v20/ref/crypto_aead.c               | 3 +++
 crypto_aead/isapxv20/ref/crypto_aead.c                  | 3 +++
 24 files changed, 72 insertions(+)

diff --git a/crypto_aead/isapa128av20/avx_512/crypto_aead.c b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
index 58f7641..1d44413 100644
--- a/crypto_aead/isapa128av20/avx_512/crypto_aead.c
+++ b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
@@ -31,6 +31,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32/crypto_aead.c b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
index 4a9bd29..41c1207 100644
--- a/crypto_aead/isapa128av20/bi_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e0d533c..3df44fb 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -37,6 +37,9 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e0d533c..3df44fb 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -37,6 +37,9 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_8/crypto_aead.c b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
index 4a9bd29..41c1207 100644
--- a/crypto_aead/isapa128av20/bi_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32/crypto_aead.c b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128av20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e0d533c..3df44fb 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -37,6 +37,9 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_64/crypto_aead.c b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_8/crypto_aead.c b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
index 4a9bd29..41c1207 100644
--- a/crypto_aead/isapa128av20/opt_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/ref/crypto_aead.c b/crypto_aead/isapa128av20/ref/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128av20/ref/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32/crypto_aead.c b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128v20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_64/crypto_aead.c b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/ref/crypto_aead.c b/crypto_aead/isapa128v20/ref/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapa128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128v20/ref/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/avx512/crypto_aead.c b/crypto_aead/isapk128av20/avx512/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128av20/avx512/crypto_aead.c
+++ b/crypto_aead/isapk128av20/avx512/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_64/crypto_aead.c b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/ref/crypto_aead.c b/crypto_aead/isapk128av20/ref/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128av20/ref/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_64/crypto_aead.c b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/ref/crypto_aead.c b/crypto_aead/isapk128v20/ref/crypto_aead.c
index 2287e4d..535b6df 100644
--- a/crypto_aead/isapk128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128v20/ref/crypto_aead.c
@@ -36,6 +36,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapxv20/ref/crypto_aead.c b/crypto_aead/isapxv20/ref/crypto_aead.c
index 100427c..e8680c2 100644
--- a/crypto_aead/isapxv20/ref/crypto_aead.c
+++ b/crypto_aead/isapxv20/ref/crypto_aead.c
@@ -35,6 +35,9 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// Reject inputs that are too short to contain a tag
+	if (clen < ISAP_TAG_SZ) return -1;
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
-- 
2.43.0


From 7642baec83b78670d1a3a59cf2f69c0959a77c2f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 2/6] fix: isapk opt_64 read 6 bytes past full associated data
 blocks

---
 crypto_aead/isapk128av20/opt_64/isap.c | 4 ++--
 crypto_aead/isapk128v20/opt_64/isap.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 8011b82..792def3 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index 60ad9c2..cb9decc 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
-- 
2.43.0


From 9a9a4cdd79953e9202f347048340b3463a2da1d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 3/6] fix: do not assume aligned buffers in the ARM-targeted
 implementations

---
 crypto_aead/isapa128av20/bi_32/isap.c         | 33 ++++++----
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 41 +++++++-----
 crypto_aead/isapa128v20/opt_32_armv67m/isap.c | 62 +++++++++++--------
 3 files changed, 83 insertions(+), 53 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32/isap.c b/crypto_aead/isapa128av20/bi_32/isap.c
index d4009e0..f044d7d 100644
--- a/crypto_aead/isapa128av20/bi_32/isap.c
+++ b/crypto_aead/isapa128av20/bi_32/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Byte buffers need not be aligned
+forceinline lane_t LOAD_LANE(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD_LANE(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD_LANE(k + 0));
+    s->l[1] = U64TOWORD(LOAD_LANE(k + 8));
+    s->l[2] = U64TOWORD(LOAD_LANE(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD_LANE(npub + 0));
+    s->l[1] = U64TOWORD(LOAD_LANE(npub + 8));
+    s->l[2] = U64TOWORD(LOAD_LANE(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD_LANE(npub + 0));
+    s->l[4] = U64TOWORD(LOAD_LANE(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD_LANE(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD_LANE(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 2fa2aed..6058901 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -8,12 +8,20 @@
 // Needed for LR tag comparison
 uint64_t s0, s1;
 
+// Byte buffers need not be aligned
+forceinline lane_t LOAD_LANE(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD_LANE(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -58,9 +66,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD_LANE(k + 0));
+    s->l[1] = U64TOWORD(LOAD_LANE(k + 8));
+    s->l[2] = U64TOWORD(LOAD_LANE(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -116,9 +124,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD_LANE(npub + 0));
+    s->l[1] = U64TOWORD(LOAD_LANE(npub + 8));
+    s->l[2] = U64TOWORD(LOAD_LANE(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -161,8 +169,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(LOAD_LANE(T + 0));
+    s->l[1] = U64TOWORD(LOAD_LANE(T + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -172,8 +180,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(LOAD_LANE(T_star + 0));
+    s->l[1] = U64TOWORD(LOAD_LANE(T_star + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -208,15 +216,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD_LANE(npub + 0));
+    s->l[4] = U64TOWORD(LOAD_LANE(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD_LANE(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -249,7 +258,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD_LANE(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -263,7 +272,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
index 6cd7749..378c8f6 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "api.h"
 #include "isap.h"
 #include "asconp.h"
@@ -14,6 +15,14 @@ const u8 ISAP_IV_KE[] = {0x03, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_
 #define P_sK P_LOOP(12)
 #define P_sK_UROL P_12()
 
+// Byte buffers need not be aligned
+static inline u64 LOAD64(const u8 *p)
+{
+    u64 x;
+    memcpy(&x, p, 8);
+    return x;
+}
+
 /******************************************************************************/
 /*                                 ISAP_RK                                    */
 /******************************************************************************/
@@ -29,9 +38,9 @@ void isap_rk(
     u32_2 x0, x1, x2, x3, x4;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)(k + 0)));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(k + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(iv + 0)));
+    to_bit_interleaving(&x0, U64BIG(LOAD64(k + 0)));
+    to_bit_interleaving(&x1, U64BIG(LOAD64(k + 8)));
+    to_bit_interleaving(&x2, U64BIG(LOAD64(iv + 0)));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -78,14 +87,14 @@ void isap_rk(
 
     // Squeeze - Derive K*
     P_sK;
-    *(u32 *)(out + 0) = x0.o;
-    *(u32 *)(out + 4) = x0.e;
-    *(u32 *)(out + 8) = x1.o;
-    *(u32 *)(out + 12) = x1.e;
+    memcpy(out + 0, &x0.o, 4);
+    memcpy(out + 4, &x0.e, 4);
+    memcpy(out + 8, &x1.o, 4);
+    memcpy(out + 12, &x1.e, 4);
     if (outlen > 16)
     {
-        *(u32 *)(out + 16) = x2.o;
-        *(u32 *)(out + 20) = x2.e;
+        memcpy(out + 16, &x2.o, 4);
+        memcpy(out + 20, &x2.e, 4);
     }
 }
 
@@ -106,9 +115,9 @@ void isap_mac(
     u64 tmp0;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)npub + 0));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(npub + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(ISAP_IV_A)));
+    to_bit_interleaving(&x0, U64BIG(LOAD64(npub)));
+    to_bit_interleaving(&x1, U64BIG(LOAD64(npub + 8)));
+    to_bit_interleaving(&x2, U64BIG(LOAD64(ISAP_IV_A)));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -118,7 +127,7 @@ void isap_mac(
     // Absorb full lanes of AD
     while (adlen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)ad));
+        to_bit_interleaving(&t0, U64BIG(LOAD64(ad)));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         adlen -= ISAP_rH / 8;
@@ -157,7 +166,7 @@ void isap_mac(
     // Absorb full lanes of C
     while (clen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)c));
+        to_bit_interleaving(&t0, U64BIG(LOAD64(c)));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         P_sH_UROL;
@@ -206,9 +215,11 @@ void isap_mac(
     x1.e = ka_star32[3];
     P_sH;
     from_bit_interleaving(&tmp0, x0);
-    *(u64 *)(tag + 0) = U64BIG(tmp0);
+    tmp0 = U64BIG(tmp0);
+    memcpy(tag + 0, &tmp0, 8);
     from_bit_interleaving(&tmp0, x1);
-    *(u64 *)(tag + 8) = U64BIG(tmp0);
+    tmp0 = U64BIG(tmp0);
+    memcpy(tag + 8, &tmp0, 8);
 }
 
 /******************************************************************************/
@@ -230,21 +241,22 @@ void isap_enc(
     u64 tmp0;
 
     // Init State
-    x0.o = *(u32 *)(ke + 0);
-    x0.e = *(u32 *)(ke + 4);
-    x1.o = *(u32 *)(ke + 8);
-    x1.e = *(u32 *)(ke + 12);
-    x2.o = *(u32 *)(ke + 16);
-    x2.e = *(u32 *)(ke + 20);
-    to_bit_interleaving(&x3, U64BIG(*(u64 *)npub));
-    to_bit_interleaving(&x4, U64BIG(*(u64 *)(npub + 8)));
+    memcpy(&x0.o, ke + 0, 4);
+    memcpy(&x0.e, ke + 4, 4);
+    memcpy(&x1.o, ke + 8, 4);
+    memcpy(&x1.e, ke + 12, 4);
+    memcpy(&x2.o, ke + 16, 4);
+    memcpy(&x2.e, ke + 20, 4);
+    to_bit_interleaving(&x3, U64BIG(LOAD64(npub)));
+    to_bit_interleaving(&x4, U64BIG(LOAD64(npub + 8)));
 
     // Squeeze full lanes
     while (mlen >= 8)
     {
         P_sE_UROL;
         from_bit_interleaving(&tmp0, x0);
-        *(u64 *)c = *(u64 *)m ^ U64BIG(tmp0);
+        tmp0 = LOAD64(m) ^ U64BIG(tmp0);
+        memcpy(c, &tmp0, 8);
         mlen -= 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
-- 
2.43.0


From fb188a0eabd6ea560e80f0a5c5e356cc2f734c01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 4/6] fix: keep the tag comparison state of the stp
 implementations per call, not in globals

---
 .../bi_32_armv6m_stp/crypto_aead.c            |  8 +++++---
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 19 ++++++++-----------
 .../isapa128av20/bi_32_armv6m_stp/isap.h      |  5 +++--
 .../isapa128av20/bi_32_stp/crypto_aead.c      |  8 +++++---
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 19 ++++++++-----------
 crypto_aead/isapa128av20/bi_32_stp/isap.h     |  5 +++--
 .../isapa128av20/opt_32_stp/crypto_aead.c     |  8 +++++---
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 19 ++++++++-----------
 crypto_aead/isapa128av20/opt_32_stp/isap.h    |  5 +++--
 9 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index 3df44fb..7f2954b 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, s01);
 	return 0;
 }
 
@@ -45,7 +46,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s01[2]; // Needed for LR tag comparison
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, s01);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -53,7 +55,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s01);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 6058901..6b9bc2e 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 // Byte buffers need not be aligned
 forceinline lane_t LOAD_LANE(const uint8_t *src)
 {
@@ -118,7 +115,7 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag, uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -141,8 +138,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    s01[0] = s->x[0];
+    s01[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -163,7 +160,7 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star, const uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -171,8 +168,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(LOAD_LANE(T + 0));
     s->l[1] = U64TOWORD(LOAD_LANE(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -182,8 +179,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(LOAD_LANE(T_star + 0));
     s->l[1] = U64TOWORD(LOAD_LANE(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
index ae37dcd..3e8105d 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
@@ -33,11 +33,12 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag, uint64_t *s01);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *s01);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index 3df44fb..7f2954b 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, s01);
 	return 0;
 }
 
@@ -45,7 +46,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s01[2]; // Needed for LR tag comparison
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, s01);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -53,7 +55,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s01);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 2fa2aed..b38ae4e 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,7 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag, uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +130,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    s01[0] = s->x[0];
+    s01[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +152,7 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star, const uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +160,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +171,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.h b/crypto_aead/isapa128av20/bi_32_stp/isap.h
index ae37dcd..3e8105d 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.h
@@ -33,11 +33,12 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag, uint64_t *s01);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *s01);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index 3df44fb..7f2954b 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s01[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, s01);
 	return 0;
 }
 
@@ -45,7 +46,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s01[2]; // Needed for LR tag comparison
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, s01);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -53,7 +55,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s01);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 2fa2aed..b38ae4e 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,7 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag, uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +130,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    s01[0] = s->x[0];
+    s01[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +152,7 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star, const uint64_t *s01)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +160,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +171,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = s01[0];
+    s->x[3] = s01[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.h b/crypto_aead/isapa128av20/opt_32_stp/isap.h
index 55464cb..28f9804 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.h
@@ -33,11 +33,12 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag, uint64_t *s01);
 
 int pvp(
 	const uint8_t *T,
-	const uint8_t *T_star);
+	const uint8_t *T_star,
+	const uint64_t *s01);
 
 void isap_enc(
 	const uint8_t *k,
-- 
2.43.0


From 38d93cffc753dad8b6200f9bd99b2d7acf915396 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 5/6] fix: undo the register rotation of the S-box in
 bi_32_armv7m

---
 crypto_aead/isapa128av20/bi_32_armv7m/asconp.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
index 87ab8e8..2ae1fa9 100644
--- a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
@@ -159,6 +159,14 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [tmp1] "=r"(tmp1), [tmp2] "=r"(tmp2)
         : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
         :);
+    // The S-box leaves its outputs in rotated registers
+    lane_t t0 = s->l[0];
+    lane_t t1 = s->l[1];
+    s->l[0] = s->l[2];
+    s->l[1] = s->l[3];
+    s->l[2] = s->l[4];
+    s->l[3] = t0;
+    s->l[4] = t1;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From 14c1a1121cdf1d85f16a5d7a2b463f474b287ab1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 6/6] fix: byte/word conversion of the Keccak-p[400] reference
 on big-endian platforms

The two functions used when PLATFORM_BYTE_ORDER is not little endian were never
defined, so the reference did not compile there.
---
 .../isapk128av20/ref/KeccakP-400-reference.c  | 20 +++++++++++++++++++
 .../isapk128v20/ref/KeccakP-400-reference.c   | 20 +++++++++++++++++++
 .../KeccakP-400-reference.c                   | 20 +++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/crypto_aead/isapk128av20/ref/KeccakP-400-reference.c b/crypto_aead/isapk128av20/ref/KeccakP-400-reference.c
index 753a146..322e9ba 100644
--- a/crypto_aead/isapk128av20/ref/KeccakP-400-reference.c
+++ b/crypto_aead/isapk128av20/ref/KeccakP-400-reference.c
@@ -112,6 +112,26 @@ static void pi(tKeccakLane *A);
 static void chi(tKeccakLane *A);
 static void iota(tKeccakLane *A, unsigned int indexRound);
 
+#if (PLATFORM_BYTE_ORDER != IS_LITTLE_ENDIAN)
+static void fromBytesToWords(tKeccakLane *stateAsWords, const unsigned char *state)
+{
+    unsigned int i;
+
+    for(i=0; i<nrLanes; i++)
+        stateAsWords[i] = (tKeccakLane)(state[2*i] | ((unsigned int)state[2*i+1] << 8));
+}
+
+static void fromWordsToBytes(unsigned char *state, const tKeccakLane *stateAsWords)
+{
+    unsigned int i;
+
+    for(i=0; i<nrLanes; i++) {
+        state[2*i] = (unsigned char)(stateAsWords[i] & 0xFF);
+        state[2*i+1] = (unsigned char)(stateAsWords[i] >> 8);
+    }
+}
+#endif
+
 void KeccakP400_Permute_Nrounds(void *state, unsigned int nrounds)
 {
 #if (PLATFORM_BYTE_ORDER != IS_LITTLE_ENDIAN)
diff --git a/crypto_aead/isapk128v20/ref/KeccakP-400-reference.c b/crypto_aead/isapk128v20/ref/KeccakP-400-reference.c
index 753a146..322e9ba 100644
--- a/crypto_aead/isapk128v20/ref/KeccakP-400-reference.c
+++ b/crypto_aead/isapk128v20/ref/KeccakP-400-reference.c
@@ -112,6 +112,26 @@ static void pi(tKeccakLane *A);
 static void chi(tKeccakLane *A);
 static void iota(tKeccakLane *A, unsigned int indexRound);
 
+#if (PLATFORM_BYTE_ORDER != IS_LITTLE_ENDIAN)
+static void fromBytesToWords(tKeccakLane *stateAsWords, const unsigned char *state)
+{
+    unsigned int i;
+
+    for(i=0; i<nrLanes; i++)
+        stateAsWords[i] = (tKeccakLane)(state[2*i] | ((unsigned int)state[2*i+1] << 8));
+}
+
+static void fromWordsToBytes(unsigned char *state, const tKeccakLane *stateAsWords)
+{
+    unsigned int i;
+
+    for(i=0; i<nrLanes; i++) {
+        state[2*i] = (unsigned char)(stateAsWords[i] & 0xFF);
+        state[2*i+1] = (unsigned char)(stateAsWords[i] >> 8);
+    }
+}
+#endif
+
 void KeccakP400_Permute_Nrounds(void *state, unsigned int nrounds)
 {
 #if (PLATFORM_BYTE_ORDER != IS_LITTLE_ENDIAN)
diff --git a/crypto_aead/isapxv20/ref/lib/KeccakP-400-reference/KeccakP-400-reference.c b/crypto_aead/isapxv20/ref/lib/KeccakP-400-reference/KeccakP-400-reference.c
index 753a146..322e9ba 100644
--- a/crypto_aead/isapxv20/ref/lib/KeccakP-400-reference/KeccakP-400-reference.c
+++ b/crypto_aead/isapxv20/ref/lib/KeccakP-400-reference/KeccakP-400-reference.c
@@ -112,6 +112,26 @@ static void pi(tKeccakLane *A);
 static void chi(tKeccakLane *A);
 static void iota(tKeccakLane *A, unsigned int indexRound);
 
+#if (PLATFORM_BYTE_ORDER != IS_LITTLE_ENDIAN)
+static void fromBytesToWords(tKeccakLane *stateAsWords, const unsigned char *state)
+{
+    unsigned int i;
+
+    for(i=0; i<nrLanes; i++)
+        stateAsWords[i] = (tKeccakLane)(state[2*i] | ((unsigned int)state[2*i+1] << 8));
+}
+
+static void fromWordsToBytes(unsigned char *state, const tKeccakLane *stateAsWords)
+{
+    unsigned int i;
+
+    for(i=0; i<nrLanes; i++) {
+        state[2*i] = (unsigned char)(stateAsWords[i] & 0xFF);
+        state[2*i+1] = (unsigned char)(stateAsWords[i] >> 8);
+    }
+}
+#endif
+
 void KeccakP400_Permute_Nrounds(void *state, unsigned int nrounds)
 {
 #if (PLATFORM_BYTE_ORDER != IS_LITTLE_ENDIAN)
-- 
2.43.0


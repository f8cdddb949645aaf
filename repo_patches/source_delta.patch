From 17666f6c596aa5e7bfc9689155fe52f4dfe8e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 1/9] fix: do not wipe the secret key before the last signature
 is made

The signature with the last index was computed from a key that had already been overwritten, so it was returned with code 0 but did not verify.
---
 xmss_core.c      | 18 +++++++++++++-----
 xmss_core_fast.c | 36 ++++++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..84e4006 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -196,6 +196,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int last_sig;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -219,15 +220,14 @@ int xmssmt_core_sign(const xmss_params *params,
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last_sig = (idx >= ((1ULL << params->full_height) - 1));
+    if (last_sig && ((idx > ((1ULL << params->full_height) - 1))
+                     || (params->full_height == 64))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     memcpy(sm, sk, params->index_bytes);
@@ -269,5 +269,13 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    if (last_sig) {
+        // Delete secret key here. We only do this in memory, production code
+        // has to make sure that this happens on disk. This can only be done
+        // now, as the key was still needed to produce this last signature.
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..b753569 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -589,6 +589,7 @@ int xmss_core_sign(const xmss_params *params,
     const unsigned char *pub_root = sk + params->index_bytes + 2*params->n;
 
     uint16_t i = 0;
+    int last_sig;
 
     // TODO refactor BDS state not to need separate treehash instances
     bds_state state;
@@ -612,15 +613,14 @@ int xmss_core_sign(const xmss_params *params,
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last_sig = (idx >= ((1ULL << params->full_height) - 1));
+    if (last_sig && ((idx > ((1ULL << params->full_height) - 1))
+                     || (params->full_height == 64))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     unsigned char sk_seed[params->n];
@@ -716,6 +716,14 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    if (last_sig) {
+        // Delete secret key here. We only do this in memory, production code
+        // has to make sure that this happens on disk. This can only be done
+        // now, as the key was still needed to produce this last signature.
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
 
@@ -794,6 +802,7 @@ int xmssmt_core_sign(const xmss_params *params,
     uint64_t i, j;
     int needswap_upto = -1;
     unsigned int updates;
+    int last_sig;
 
     unsigned char sk_seed[params->n];
     unsigned char sk_prf[params->n];
@@ -833,15 +842,14 @@ int xmssmt_core_sign(const xmss_params *params,
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last_sig = (idx >= ((1ULL << params->full_height) - 1));
+    if (last_sig && ((idx > ((1ULL << params->full_height) - 1))
+                     || (params->full_height == 64))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -984,5 +992,13 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    if (last_sig) {
+        // Delete secret key here. We only do this in memory, production code
+        // has to make sure that this happens on disk. This can only be done
+        // now, as the key was still needed to produce this last signature.
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
-- 
2.43.0


From fa2544b03cc316411c99d126e2434d51ba5fcf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 2/9] fix: refuse to wrap the index when it fills all index
 bytes

For a full height of 40 the key was wiped and its index wrapped to 0 after the last signature, after which signing kept succeeding. Treat it like the documented case of height 64.
---
 xmss_core.c      |  9 +++++----
 xmss_core_fast.c | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index 84e4006..b928dff 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -216,13 +216,14 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the total tree height uses up all bits of the encoded index (such as
+     * 40 or 64) we do not use the last signature to be on the safe side (there
+     * is no index value left to indicate that the key is finished, hence
+     * external handling would be necessary)
      */ 
     last_sig = (idx >= ((1ULL << params->full_height) - 1));
     if (last_sig && ((idx > ((1ULL << params->full_height) - 1))
-                     || (params->full_height == 64))) {
+                     || (params->full_height == 8*params->index_bytes))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index b753569..86511da 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -609,13 +609,14 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the total tree height uses up all bits of the encoded index (such as
+     * 40 or 64) we do not use the last signature to be on the safe side (there
+     * is no index value left to indicate that the key is finished, hence
+     * external handling would be necessary)
      */ 
     last_sig = (idx >= ((1ULL << params->full_height) - 1));
     if (last_sig && ((idx > ((1ULL << params->full_height) - 1))
-                     || (params->full_height == 64))) {
+                     || (params->full_height == 8*params->index_bytes))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
@@ -838,13 +839,14 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the total tree height uses up all bits of the encoded index (such as
+     * 40 or 64) we do not use the last signature to be on the safe side (there
+     * is no index value left to indicate that the key is finished, hence
+     * external handling would be necessary)
      */ 
     last_sig = (idx >= ((1ULL << params->full_height) - 1));
     if (last_sig && ((idx > ((1ULL << params->full_height) - 1))
-                     || (params->full_height == 64))) {
+                     || (params->full_height == 8*params->index_bytes))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
-- 
2.43.0


From ef23faff4f46a8c28ce0c5b8a200def331fa6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 3/9] fix: stop updating NEXT trees that are already complete

Updates were spent on NEXT trees which already had all their leaves, which starved the treehash instances; from index 2^20 on the signatures of e.g. XMSSMT-SHA2_40/8_256 did not verify.
---
 xmss_core_fast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 86511da..bd9b6d6 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -963,7 +963,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
-- 
2.43.0


From 55d9073404a9091a1aed922b759e7bbc1eb31382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 4/9] fix: reject signed messages that are shorter than a
 signature

The message length underflowed and the message copy ran out of bounds.
---
 xmss_commons.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..3cdd482 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,13 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Something shorter than a signature can never be valid. */
+    if (smlen < params->sig_bytes) {
+        memset(m, 0, smlen);
+        *mlen = 0;
+        return -1;
+    }
+
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From cf2c82e256eaa46a6c3cd00a4132476dbcc4b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 5/9] fix: also clear the copy of the message that failed
 verification

The unverified message was left in the output buffer at offset sig_bytes.
---
 xmss_commons.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmss_commons.c b/xmss_commons.c
index 3cdd482..6bb94a2 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -209,8 +209,8 @@ int xmssmt_core_sign_open(const xmss_params *params,
 
     /* Check if the root node equals the root node in the public key. */
     if (memcmp(root, pub_root, params->n)) {
-        /* If not, zero the message */
-        memset(m, 0, *mlen);
+        /* If not, zero the message (including the copy used for hashing) */
+        memset(m, 0, smlen);
         *mlen = 0;
         return -1;
     }
-- 
2.43.0


From c7fce762af8fcc013409d50cdf9b73935e6310ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 6/9] fix: do not shift the WOTS checksum when it ends on a
 byte boundary

For w = 256 the checksum was shifted by 8 bits and lost its most significant byte.
---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From c38ede67d2f2884677d52666cb3a5cc709049eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 7/9] fix: store the updated key before releasing a signature

The signing tool ignored errors: for an exhausted key it still emitted bytes
and exited with 0, and the signature could be released before the updated key
had reached the file, or even when that failed, allowing reuse of an index.
---
 ui/sign.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..7cd9ace 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -22,6 +22,7 @@ int main(int argc, char **argv) {
     uint32_t oid_sk = 0;
     uint8_t buffer[XMSS_OID_LEN];
     int parse_oid_result;
+    int ret;
 
     unsigned long long mlen;
 
@@ -83,20 +84,40 @@ int main(int argc, char **argv) {
     /* fseek back to start of sk. */
     fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
     fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.sk_bytes
+        || fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read secret key or message.\n");
+        ret = -1;
+        goto cleanup;
+    }
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    if (ret != 0) {
+        fprintf(stderr, "Could not sign message with this secret key.\n");
+    }
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    /* The updated key must have been stored before releasing the signature. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR) != 0
+        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file)
+            != params.sk_bytes
+        || fflush(keypair_file) != 0) {
+        fprintf(stderr, "Could not store the updated secret key.\n");
+        ret = -1;
+    }
+
+    if (ret == 0 && (fwrite(sm, 1, smlen, stdout) != smlen
+                     || fflush(stdout) != 0)) {
+        fprintf(stderr, "Could not write the signature.\n");
+        ret = -1;
+    }
 
+cleanup:
     fclose(keypair_file);
     fclose(m_file);
 
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 4a6287797685e79ab890ae7a71df6d2ef65e01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 8/9] fix: check every read and seek in the signing tool

---
 ui/sign.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index 7cd9ace..e015d87 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -24,6 +24,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
     int ret;
 
+    long m_size;
     unsigned long long mlen;
 
     if (argc != 3) {
@@ -48,11 +49,21 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(m_file, 0, SEEK_END);
-    mlen = ftell(m_file);
+    if (fseek(m_file, 0, SEEK_END) != 0 || (m_size = ftell(m_file)) < 0) {
+        fprintf(stderr, "Could not determine the message length.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
+    mlen = m_size;
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read public key oid.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -64,9 +75,14 @@ int main(int argc, char **argv) {
     }
 
     /* fseek past the public key */
-    fseek(keypair_file, params.pk_bytes, SEEK_CUR);
     /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fseek(keypair_file, params.pk_bytes, SEEK_CUR) != 0
+        || fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read secret key oid.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -82,9 +98,10 @@ int main(int argc, char **argv) {
     unsigned long long smlen;
 
     /* fseek back to start of sk. */
-    fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
-    fseek(m_file, 0, SEEK_SET);
-    if (fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
+    if (sm == NULL || (m == NULL && mlen > 0)
+        || fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR) != 0
+        || fseek(m_file, 0, SEEK_SET) != 0
+        || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
             != XMSS_OID_LEN + params.sk_bytes
         || fread(m, 1, mlen, m_file) != mlen) {
         fprintf(stderr, "Could not read secret key or message.\n");
-- 
2.43.0


From fdb084aee0c3775a5b4e360f71fc48d8858b49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 9/9] fix: leave no part of the fast secret key undefined

---
 xmss_core_fast.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index bd9b6d6..93f3761 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -545,6 +545,9 @@ int xmss_core_keypair(const xmss_params *params,
     treehash_inst treehash[params->tree_height - params->bds_k];
     state.treehash = treehash;
 
+    // Not every byte of the state is written below; leave none undefined
+    memset(sk, 0, params->sk_bytes);
+
     xmss_deserialize_state(params, &state, sk);
 
     state.stackoffset = 0;
@@ -747,6 +750,9 @@ int xmssmt_core_keypair(const xmss_params *params,
         states[i].treehash = treehash + i * (params->tree_height - params->bds_k);
     }
 
+    // Not every byte of the state is written below; leave none undefined
+    memset(sk, 0, params->sk_bytes);
+
     xmssmt_deserialize_state(params, states, &wots_sigs, sk);
 
     for (i = 0; i < 2 * params->d - 1; i++) {
-- 
2.43.0


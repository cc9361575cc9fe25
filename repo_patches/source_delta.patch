From 900fea858cb0d531178988ead86f19e4f5b24a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 1/4] fix: nistkat rng: index requests of 2^31 bytes and more
 without overflow

randombytes() takes an unsigned long long length but indexed the output with
an int: the signed overflow is undefined behaviour, and an unoptimised build
writes before the buffer.
---
 ref/nistkat/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref/nistkat/rng.c b/ref/nistkat/rng.c
index 2976969..efa2a08 100644
--- a/ref/nistkat/rng.c
+++ b/ref/nistkat/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
 
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0


From 5cfd9837ab19bfa91115119283764fd8e3d74478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 2/4] fix: avx2 fips202x4: do not read beyond the four inputs
 when absorbing

The final partial lane was fetched with a 64-bit gather per input, reading up
to 7 bytes past the end of each message whose length is not a multiple of 8
(a crash when the buffer ends at a page boundary).
---
 avx2/fips202x4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 6bc6d1a..8240af1 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -20,6 +20,7 @@ static void keccakx4_absorb_once(__m256i s[25],
 {
   size_t i;
   uint64_t pos = 0;
+  uint64_t tail[4] = {0};
   __m256i t, idx;
 
   for(i = 0; i < 25; ++i)
@@ -45,9 +46,12 @@ static void keccakx4_absorb_once(__m256i s[25],
   inlen -= 8*i;
 
   if(inlen) {
-    t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
-    idx = _mm256_set1_epi64x((1ULL << (8*inlen)) - 1);
-    t = _mm256_and_si256(t, idx);
+    /* copied, as a gather would read up to 7 bytes beyond the inputs */
+    memcpy(&tail[0], in0 + pos, inlen);
+    memcpy(&tail[1], in1 + pos, inlen);
+    memcpy(&tail[2], in2 + pos, inlen);
+    memcpy(&tail[3], in3 + pos, inlen);
+    t = _mm256_loadu_si256((__m256i *)tail);
     s[i] = _mm256_xor_si256(s[i], t);
   }
 
-- 
2.43.0


From 0f9ececb8e74aefd5eede8ea334a27aa1f06d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 3/4] fix: nistkat PQCgenKAT_kem: do not report success when a
 file could not be written or read

Write errors (full device, size limit) on the request or response file and
read errors on the request file left truncated files behind with status 0.
---
 ref/nistkat/PQCgenKAT_kem.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ref/nistkat/PQCgenKAT_kem.c b/ref/nistkat/PQCgenKAT_kem.c
index fa45e9d..e9a2f9e 100644
--- a/ref/nistkat/PQCgenKAT_kem.c
+++ b/ref/nistkat/PQCgenKAT_kem.c
@@ -60,7 +60,10 @@ main()
         fprintf(fp_req, "ct =\n");
         fprintf(fp_req, "ss =\n\n");
     }
-    fclose(fp_req);
+    if ( ferror(fp_req) || fclose(fp_req) ) {
+        printf("Couldn't write <%s>\n", fn_req);
+        return KAT_FILE_OPEN_ERROR;
+    }
 
     //Create the RESPONSE file based on what's in the REQUEST file
     if ( (fp_req = fopen(fn_req, "r")) == NULL ) {
@@ -116,8 +119,15 @@ main()
 
     } while ( !done );
 
+    if ( ferror(fp_req) ) {
+        printf("Couldn't read <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
     fclose(fp_req);
-    fclose(fp_rsp);
+    if ( ferror(fp_rsp) || fclose(fp_rsp) ) {
+        printf("Couldn't write <%s>\n", fn_rsp);
+        return KAT_FILE_OPEN_ERROR;
+    }
 
     return KAT_SUCCESS;
 }
-- 
2.43.0


From 809a483623c251df4f159f8d5f9d069e1f563212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 4/4] fix: randombytes: do not overwrite a valid descriptor
 with a failed open of another thread

---
 ref/randombytes.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ref/randombytes.c b/ref/randombytes.c
index 8a12a42..4a7c84a 100644
--- a/ref/randombytes.c
+++ b/ref/randombytes.c
@@ -73,14 +73,16 @@ void randombytes(uint8_t *out, size_t outlen) {
 #else
 void randombytes(uint8_t *out, size_t outlen) {
   static int fd = -1;
+  int newfd;
   ssize_t ret;
 
   while(fd == -1) {
-    fd = open("/dev/urandom", O_RDONLY);
-    if(fd == -1 && errno == EINTR)
+    newfd = open("/dev/urandom", O_RDONLY);
+    if(newfd == -1 && errno == EINTR)
       continue;
-    else if(fd == -1)
+    else if(newfd == -1)
       abort();
+    fd = newfd;
   }
 
   while(outlen > 0) {
-- 
2.43.0


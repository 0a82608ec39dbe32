From 5ec4dcddcf8123e0ddc775250a2e57137a2c747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH] fix: ts_sign: check the context's state before using its
 parameter set

A context that was never set up (zeroed) is meant to be rejected, but the
parameter set pointer was dereferenced before the check.
---
 tiny_sphincs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny_sphincs.c b/tiny_sphincs.c
index eacb1f2..641d295 100644
--- a/tiny_sphincs.c
+++ b/tiny_sphincs.c
@@ -441,7 +441,6 @@ void ts_wots_leaf( unsigned char *output, int leaf_index,
 unsigned ts_sign( unsigned char *dest, unsigned m,
                   struct ts_context *ctx ) {
     unsigned orig_m = m;
-    unsigned n = ctx->ps->n;
 
     if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {
 	/* We've been handed an invalid context (or one that's been set */
@@ -449,6 +448,8 @@ unsigned ts_sign( unsigned char *dest, unsigned m,
 	return 0;
     }
 
+    unsigned n = ctx->ps->n;
+
     while (m) {
 	/* If we have bytes left from the previous hash, given those to */
 	/* the caller */
-- 
2.43.0


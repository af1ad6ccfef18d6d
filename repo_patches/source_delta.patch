From ba217d1bcfd4da71a1b6789e144e6856f3837d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH] fix: do not hand memcpy a null pointer when an empty
 signature piece is fed

---
 verify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verify.c b/verify.c
index 8b357d9..9ce3e88 100644
--- a/verify.c
+++ b/verify.c
@@ -108,6 +108,8 @@ int ts_update_verify( const unsigned char *sig, unsigned m,
 	return 0;
     }
 
+    if (m == 0) return 1;  /* Nothing to process (and sig may be NULL) */
+
     unsigned n = ctx->ps->n;
     for (;;) {
 	unsigned buffer_offset = ctx->buffer_offset;
-- 
2.43.0


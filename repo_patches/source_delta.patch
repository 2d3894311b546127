From 93cdc6959e5bf5489e6d296d86b6d7fc05f39166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 1/4] fix: verifier rejects a non-negative discriminant instead
 of crashing with SIGFPE

---
 src/verifier.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier.h b/src/verifier.h
index 97690c9..983daad 100644
--- a/src/verifier.h
+++ b/src/verifier.h
@@ -18,6 +18,10 @@ inline bool IsDiscSizeBitsInRange(const uint64_t disc_size_bits)
 
 inline bool IsDiscriminantInRange(const integer& D)
 {
+    // Class groups of imaginary quadratic orders need a negative discriminant;
+    // a non-negative one would reach an even root of a negative number.
+    if (mpz_sgn(D.impl) >= 0)
+        return false;
     const int d_bits = D.num_bits();
     return d_bits > 0 && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
 }
-- 
2.43.0


From 8dbe4ce7184ede4f36bd14012dcb744aa05497fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:22 +0000
Subject: [PATCH 2/4] fix: stopping a one-segment proof while it is being
 generated ends the wait

---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..84152a0 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,11 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (stopped)
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From 7c7af07da6b304d7902f9476433213f908f522b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:41 +0000
Subject: [PATCH 3/4] fix: lzcnt32_gcc_builtin counts the leading zeros of a
 32-bit value

---
 src/refcode/lzcnt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refcode/lzcnt.c b/src/refcode/lzcnt.c
index 817cd15..7194aa1 100644
--- a/src/refcode/lzcnt.c
+++ b/src/refcode/lzcnt.c
@@ -201,7 +201,7 @@ unsigned int lzcnt32_gcc_builtin(unsigned int x)
         return 32;
     }
 
-    return (unsigned int)__builtin_clzl((unsigned long)x);
+    return (unsigned int)__builtin_clz(x);
 }
 
 unsigned int lzcnt64_gcc_builtin(unsigned long long x)
-- 
2.43.0


From 4f5694b24d69ce5e318fbf47d4db89a767edc7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:41 +0000
Subject: [PATCH 4/4] fix: lzcnt64 takes its full 64-bit operand

---
 src/refcode/lzcnt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refcode/lzcnt.c b/src/refcode/lzcnt.c
index 7194aa1..c76a13d 100644
--- a/src/refcode/lzcnt.c
+++ b/src/refcode/lzcnt.c
@@ -414,7 +414,7 @@ unsigned int lzcnt32(unsigned int x)
     }
 }
 
-unsigned int lzcnt64(unsigned int x)
+unsigned int lzcnt64(unsigned long long x)
 {
 #if defined(HAS_LZCNT64_HARD)
     if (has_lzcnt_hard()) {
-- 
2.43.0


From 6b7bc129cb328586af75d17a55412602b285cb7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 01/14] fix: carry of Z_Q += when the operand is the
 destination itself

The carry was read off A.data[i] after data[i] had been updated, so A += A
lost every carry between words.
---
 include/HEAAN/arith/Z_Q.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 3fd671f..81effac 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -191,8 +191,9 @@ template<int LOGQ>
 void Z_Q<LOGQ>::operator+=(const Z_Q<LOGQ>& A) {
 	int length = (LOGQ + 63) / 64; bool c = 0;
 	for (int i = 0; i < length; i++) {
-		data[i] += A.data[i];
-		bool c_next = data[i] < A.data[i];
+		uint64_t a = A.data[i]; // A may be *this
+		data[i] += a;
+		bool c_next = data[i] < a;
 		if (c) data[i]++;
 		c = (c&&data[i] == 0) || c_next;
 	}
-- 
2.43.0


From 7daf85fca0ae1647c5f2b027f4c83dd5de336d11 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 02/14] fix: conversion of Z_Q to double uses every word

Only the lowest 64-bit word was converted, so any value of magnitude 2^64 or
more came out wrong.
---
 include/HEAAN/arith/Z_Q.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 81effac..9100bfc 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -315,7 +315,9 @@ Z_Q<LOGQ>::operator double() const {
 	bool is_negative =  val.is_bigger_than_halfQ();
 	if(is_negative)
 	    val.negate();
-	double result = (double) val[0];
+	double result = 0;
+	for(int i = get_length() - 1; i >= 0; --i)
+		result = result * 18446744073709551616. + (double) val[i]; // base 2^64
 	if(is_negative)
 	    result *= -1;
 	return result;
-- 
2.43.0


From c12fe22a2ac8de41e93697b4ff82b2019542ebf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 03/14] fix: negative coefficients in eval_poly_deg3, 7 and 15

Converting a negative double to uint64_t is undefined and gave a residue of
2^64 instead of Q; take the magnitude and negate, as the higher degrees do.
---
 include/HEAAN/poly.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 6538f21..1147373 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -12,9 +12,10 @@ void eval_poly_deg3( const double u[4],
 	R_Q<LOGQ,N> L0[4];
 	for(int n=0;n<4;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -51,9 +52,10 @@ void eval_poly_deg7( const double u[8],
 	R_Q<LOGQ,N> L0[8];
 	for(int n=0;n<8;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -114,9 +116,10 @@ void eval_poly_deg15( const double u[16],
 	R_Q<LOGQ,N> L0[16];
 	for(int n=0;n<16;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
-- 
2.43.0


From 57e2df2393294fa5b4446822190abb241ab6c589 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 04/14] fix: eval_poly_deg7 no longer prints its intermediate
 ciphertexts

---
 include/HEAAN/poly.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 1147373..89af53d 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -91,9 +91,6 @@ void eval_poly_deg7( const double u[8],
 		temp[0][0]-=one;
 		RS<LOGQ-LOGDELTA, LOGQ-LOGDELTA*2,N>(temp,T4);
 	}
-	T4.print();
-	L2[0].print();
-	L2[1].print();
 	{
 		R_Q_square<LOGQ-LOGDELTA*2,N> temp;
 		Mul<LOGQ-LOGDELTA*2,N>(T4, L2[1], evk3, temp);
-- 
2.43.0


From 440de584f20ce04110411196583309a2e49da892 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 05/14] fix: linear_transform with rotation keys uses ct for
 the diagonal of offset 0

ct_rot was left uninitialised when no rotation is needed.
---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 2d3611d..019e55e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -134,7 +134,7 @@ void linear_transform( const SparseDiagonal<1 << (LOGN - 1),S>& Ar,
 			R_Q<LOGQ, N> pt;
 			encode<LOGQ, LOGN>(Ar.vec[s],
 							Ai.vec[s], 1ULL << LOGDELTA, pt);
-			R_Q_square<LOGQ, N> ct_rot;
+			R_Q_square<LOGQ, N> ct_rot(ct);
 			if (Ar.off[s] != 0)
 				rot_ct<LOGQ, N>(ct, Ar.off[s],*(rkey[s]), ct_rot);
 			ct_rot *= pt;
-- 
2.43.0


From b5eadfab52a3c48bf2858edb897043d3ef5ca3b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 06/14] fix: dense linear_transform passes the rotation offset
 to rot_ct

The call had no offset and did not compile when instantiated.
---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 019e55e..1a33f3e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -110,7 +110,7 @@ void linear_transform( const double Ar[1 << (LOGN - 1)][1 << (LOGN - 1)],
 		ct_rot_pt *= pt;
 
 		Act += ct_rot_pt; R_Q_square<LOGQ,N> temp; 
-		rot_ct<LOGQ,N>(ct_rot, rkey, temp); // BUG
+		rot_ct<LOGQ,N>(ct_rot, 1, rkey, temp);
 		ct_rot = temp; 
 	}
 }
-- 
2.43.0


From 1a4b692f0ec4e8220e8c9ba5f1b6961f4ca00dce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 07/14] fix: SparseDiagonal += and -= keep the zero flags in
 step with the entries

A diagonal still marked as zero is skipped by the products and the linear
transforms although it has received entries.
---
 include/HEAAN/matrix/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HEAAN/matrix/matrix.h b/include/HEAAN/matrix/matrix.h
index 28a07fc..7ff073e 100644
--- a/include/HEAAN/matrix/matrix.h
+++ b/include/HEAAN/matrix/matrix.h
@@ -98,6 +98,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] += B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
@@ -106,6 +107,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] -= B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
-- 
2.43.0


From e42bd2af27dada0df6fd52e8c0e46fff2d3b3ced Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 08/14] fix: pow_mod with exponent 0 modulo 1

The empty product is 0 modulo 1; 1 is not a residue of that modulus.
---
 include/HEAAN/arith/conv/mod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/conv/mod.h b/include/HEAAN/arith/conv/mod.h
index 40729f0..cdbef97 100644
--- a/include/HEAAN/arith/conv/mod.h
+++ b/include/HEAAN/arith/conv/mod.h
@@ -65,7 +65,7 @@ uint64_t mul_mod(uint64_t a, uint64_t b, uint64_t q) {
 // compute (a^n) % q
 uint64_t pow_mod(uint64_t a, uint64_t n, uint64_t q) {
   if(n == 0)
-    return 1;
+    return 1 % q;
   uint64_t res = pow_mod(a, n/2, q); // a^([n/2])
   res = mul_mod(res, res, q); // a^(2 * [n/2])
   if(n % 2== 1)
-- 
2.43.0


From 231ba73b6711672724be02f35014c85b7f5c2c24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 09/14] fix: CRT::icrt reduces the top word, so one-word
 residues larger than a prime are converted correctly

For LOGQ <= 64 the only word was never reduced: the result was not a residue
and, for a negative value of magnitude above q[i], q[i] - ah wrapped around, so
icrt (and products of polynomials with LOGQ 62..64) were wrong.
---
 include/HEAAN/arith/conv/crt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/conv/crt.h b/include/HEAAN/arith/conv/crt.h
index 937b5dc..0a579eb 100644
--- a/include/HEAAN/arith/conv/crt.h
+++ b/include/HEAAN/arith/conv/crt.h
@@ -101,7 +101,7 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A_abs.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A_abs[len-1];
+      uint64_t ah = A_abs[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A_abs[j], ah, q[i]);
       }
@@ -111,7 +111,7 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A[len-1];
+      uint64_t ah = A[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A[j], ah, q[i]);
       }
-- 
2.43.0


From b8a782e1742eb0afd336961a34de88813f69d759 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 10/14] fix: aggregate reads the second message from its first
 slot

---
 include/impl/message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/impl/message.h b/include/impl/message.h
index eca85d6..66bb7eb 100644
--- a/include/impl/message.h
+++ b/include/impl/message.h
@@ -133,7 +133,7 @@ void aggregate(
 ){
     const int N = 1 << LOGN;
     for(int i = 0; i < N; ++i) {
-        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i];
-        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i];
+        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i - N/2];
+        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i - N/2];
     }
 }
\ No newline at end of file
-- 
2.43.0


From c2b8fbd9e733909ab9b1bab3f3e391bc00d8429a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 11/14] fix: set_test_matrix fills the imaginary parts

The sine was assigned to the real part, overwriting the cosine, and the
imaginary part of the matrix was left unset.
---
 include/experiment/setup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/experiment/setup.h b/include/experiment/setup.h
index 98d2aa2..222c5f6 100644
--- a/include/experiment/setup.h
+++ b/include/experiment/setup.h
@@ -72,7 +72,7 @@ void set_test_matrix(Message<LOGN> A[K]) {
         for(int i = 0; i < N / 2; ++i) {
             double x = (double) (k*i) / (N/2) * PI;
             A[k].r[i] = cos(x) / sqrt(2);
-            A[k].r[i] = sin(x) / sqrt(2);
+            A[k].i[i] = sin(x) / sqrt(2);
         }
     }
 }
-- 
2.43.0


From 0a7d6eff654765d1b48df3f544e93e7028e86cbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 12/14] fix: theorem_cts_error: expected norm of z_amb divides
 by 12 in floating point

---
 src/experiment/section3/theorem_cts_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/experiment/section3/theorem_cts_error.cpp b/src/experiment/section3/theorem_cts_error.cpp
index 79acabe..afd1c3c 100644
--- a/src/experiment/section3/theorem_cts_error.cpp
+++ b/src/experiment/section3/theorem_cts_error.cpp
@@ -42,7 +42,7 @@ void measure_cts_error()
 
     // compare
     double q = 1ULL << LOGq;
-    double z_amb_norm_expected = sqrt(N/2) / Delta * sqrt((H+1)/12*q*q*N);
+    double z_amb_norm_expected = sqrt(N/2) / Delta * sqrt((H+1.0)/12*q*q*N);
     double z_amb_norm_measured = norm(z_amb);
     std::cout << "norm(z_amb) expected : " << z_amb_norm_expected << std::endl;
     std::cout << "norm(z_amb) measured : " << z_amb_norm_measured << std::endl;
-- 
2.43.0


From 36712f19f472d256e845458efe31c4b121d168c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:27 +0000
Subject: [PATCH 13/14] fix: bitReverse of width 0 shifted by 32 bits

fft and ifft of a ring with one slot (LOGN = 1) reverse indices of no digits,
and a shift of a 32-bit word by 32 is undefined.
---
 include/util/util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/util/util.h b/include/util/util.h
index 146be76..c5e45d2 100644
--- a/include/util/util.h
+++ b/include/util/util.h
@@ -28,6 +28,7 @@ inline uint32_t bitReverse32(uint32_t x) {
 }
 
 inline uint32_t bitReverse(uint32_t x, int digits) {
+    if(digits == 0) return 0; // a shift by all 32 bits is undefined
     return bitReverse32(x) >> (32 - digits);
 }
 
-- 
2.43.0


From d4114972a5b68b4e2079cd5aa3aa9504b6e353ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:27 +0000
Subject: [PATCH 14/14] fix: log did not end for arguments above 2^30

The power of two it compares with overflowed an int, became zero and stayed there.
---
 include/util/util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/util/util.h b/include/util/util.h
index c5e45d2..1070b7b 100644
--- a/include/util/util.h
+++ b/include/util/util.h
@@ -11,7 +11,8 @@
 #define PI 3.1415926535897932384626433
 
 inline int log(int N) {
-    int i = 0, n = 1;
+    int i = 0;
+    int64_t n = 1; // may exceed every int
     while(n < N) {
         i++;
         n *= 2;
-- 
2.43.0


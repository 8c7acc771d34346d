From ee875e70f71fca907e3acce30e1f9392a0009e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 01/13] fix: Z_Q::operator+= keeps carries between limbs when
 both operands are the same object

---
 include/HEAAN/arith/Z_Q.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 3fd671f..81effac 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -191,8 +191,9 @@ template<int LOGQ>
 void Z_Q<LOGQ>::operator+=(const Z_Q<LOGQ>& A) {
 	int length = (LOGQ + 63) / 64; bool c = 0;
 	for (int i = 0; i < length; i++) {
-		data[i] += A.data[i];
-		bool c_next = data[i] < A.data[i];
+		uint64_t a = A.data[i]; // A may be *this
+		data[i] += a;
+		bool c_next = data[i] < a;
 		if (c) data[i]++;
 		c = (c&&data[i] == 0) || c_next;
 	}
-- 
2.43.0


From b4a7845c582bfcd3b0e1c48591175bb2b43fe167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 02/13] fix: conversion of Z_Q to double uses every limb, not
 only the lowest

---
 include/HEAAN/arith/Z_Q.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 81effac..01e10fb 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -315,7 +315,9 @@ Z_Q<LOGQ>::operator double() const {
 	bool is_negative =  val.is_bigger_than_halfQ();
 	if(is_negative)
 	    val.negate();
-	double result = (double) val[0];
+	double result = 0;
+	for(int i = get_length() - 1; i >= 0; --i)
+		result = result * 18446744073709551616.0 + (double) val[i]; // 2^64
 	if(is_negative)
 	    result *= -1;
 	return result;
-- 
2.43.0


From 6da70614e7892c153aba2ee0eb63d44636d4ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 03/13] fix: max_valid_digit recognises the sign limbs of
 negative values

---
 include/HEAAN/arith/Z_Q.h | 9 ++++++---
 include/HEAAN/endecode.h  | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 01e10fb..69d3b8a 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -325,9 +325,12 @@ Z_Q<LOGQ>::operator double() const {
 
 template<int LOGQ>
 int Z_Q<LOGQ>::max_valid_digit() const {
-	uint64_t invalid_digit = is_bigger_than_halfQ() ? 0xFFFFFFFFULL : 0;
-	for(int i = (LOGQ+63)/64 - 1; i >= 0; --i) {
-		if(data[i] != invalid_digit)
+	const int length = (LOGQ+63)/64;
+	uint64_t invalid_digit = is_bigger_than_halfQ() ? ~(uint64_t)0 : 0;
+	for(int i = length - 1; i >= 0; --i) {
+		// the top limb only holds LOGQ - 64*(length-1) bits
+		uint64_t mask = ~(uint64_t)0 >> (i == length - 1 ? 64*length - LOGQ : 0);
+		if(data[i] != (invalid_digit & mask))
 			return i;
 	}
 	return -1;
diff --git a/include/HEAAN/endecode.h b/include/HEAAN/endecode.h
index f4ae7b3..941fdb7 100644
--- a/include/HEAAN/endecode.h
+++ b/include/HEAAN/endecode.h
@@ -50,7 +50,9 @@ void decode_log( const R_Q<LOGQ, 1<<LOGN >& pt, int LOGDELTA, double zr[1 << (LO
 		Z_Q<LOGQ> abs_pti(pt[i]);
 		if(pt[i].is_bigger_than_halfQ())
 			abs_pti.negate();
-		int d =abs_pti.max_valid_digit();
+		int d =abs_pti.get_length() - 1; // top nonzero limb of the magnitude
+		while(d >= 0 && abs_pti[d] == 0)
+			d--;
 		int scale_diff = 64*d - LOGDELTA;
 		m[i]=0;
 		for(int j=0; j<= d; j++)
-- 
2.43.0


From c35be1ff6976f63ec059d1251db0e372497cb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 04/13] fix: pow_mod returns a residue below q for the zeroth
 power modulo 1

---
 include/HEAAN/arith/conv/mod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/conv/mod.h b/include/HEAAN/arith/conv/mod.h
index 40729f0..cdbef97 100644
--- a/include/HEAAN/arith/conv/mod.h
+++ b/include/HEAAN/arith/conv/mod.h
@@ -65,7 +65,7 @@ uint64_t mul_mod(uint64_t a, uint64_t b, uint64_t q) {
 // compute (a^n) % q
 uint64_t pow_mod(uint64_t a, uint64_t n, uint64_t q) {
   if(n == 0)
-    return 1;
+    return 1 % q;
   uint64_t res = pow_mod(a, n/2, q); // a^([n/2])
   res = mul_mod(res, res, q); // a^(2 * [n/2])
   if(n % 2== 1)
-- 
2.43.0


From 58f19234f49b24eff847ab14159bb2ca9b97369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 05/13] fix: CRT::icrt returns canonical residues for one-limb
 values and for negative multiples of a modulus

---
 include/HEAAN/arith/conv/crt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/arith/conv/crt.h b/include/HEAAN/arith/conv/crt.h
index 937b5dc..74918eb 100644
--- a/include/HEAAN/arith/conv/crt.h
+++ b/include/HEAAN/arith/conv/crt.h
@@ -101,17 +101,17 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A_abs.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A_abs[len-1];
+      uint64_t ah = A_abs[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A_abs[j], ah, q[i]);
       }
-      a_rns[i] = q[i] - ah;
+      a_rns[i] = ah == 0 ? 0 : q[i] - ah;
     }
   } else {
     int len = A.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A[len-1];
+      uint64_t ah = A[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A[j], ah, q[i]);
       }
-- 
2.43.0


From 7c7101225ae0c0629be415506a5f35a0ad2e085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 06/13] fix: SparseDiagonal addition and subtraction clear the
 empty mark of diagonals that receive data

---
 include/HEAAN/matrix/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HEAAN/matrix/matrix.h b/include/HEAAN/matrix/matrix.h
index 28a07fc..7ff073e 100644
--- a/include/HEAAN/matrix/matrix.h
+++ b/include/HEAAN/matrix/matrix.h
@@ -98,6 +98,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] += B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
@@ -106,6 +107,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] -= B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
-- 
2.43.0


From a4f2655062dc75652898a5e4c1840f3c5e86f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 07/13] fix: aggregate takes the upper half from the start of
 the second message instead of reading past its end

---
 include/impl/message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/impl/message.h b/include/impl/message.h
index eca85d6..66bb7eb 100644
--- a/include/impl/message.h
+++ b/include/impl/message.h
@@ -133,7 +133,7 @@ void aggregate(
 ){
     const int N = 1 << LOGN;
     for(int i = 0; i < N; ++i) {
-        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i];
-        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i];
+        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i - N/2];
+        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i - N/2];
     }
 }
\ No newline at end of file
-- 
2.43.0


From 3ec2f4c3e9a9cbffe36bb61c51b43c2b4f3aebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 08/13] fix: linear_transform with supplied rotation keys uses
 the input ciphertext on the unrotated diagonal instead of uninitialised
 memory

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 2d3611d..019e55e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -134,7 +134,7 @@ void linear_transform( const SparseDiagonal<1 << (LOGN - 1),S>& Ar,
 			R_Q<LOGQ, N> pt;
 			encode<LOGQ, LOGN>(Ar.vec[s],
 							Ai.vec[s], 1ULL << LOGDELTA, pt);
-			R_Q_square<LOGQ, N> ct_rot;
+			R_Q_square<LOGQ, N> ct_rot(ct);
 			if (Ar.off[s] != 0)
 				rot_ct<LOGQ, N>(ct, Ar.off[s],*(rkey[s]), ct_rot);
 			ct_rot *= pt;
-- 
2.43.0


From 151756b688e3e9172a3e95dc99c5aa38afdd65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 09/13] fix: dense linear_transform passes the rotation amount
 to rot_ct, so it can be instantiated

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 019e55e..1a33f3e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -110,7 +110,7 @@ void linear_transform( const double Ar[1 << (LOGN - 1)][1 << (LOGN - 1)],
 		ct_rot_pt *= pt;
 
 		Act += ct_rot_pt; R_Q_square<LOGQ,N> temp; 
-		rot_ct<LOGQ,N>(ct_rot, rkey, temp); // BUG
+		rot_ct<LOGQ,N>(ct_rot, 1, rkey, temp);
 		ct_rot = temp; 
 	}
 }
-- 
2.43.0


From c0adf53c3778fad529a5438bafb5daacb4168567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 10/13] fix: eval_poly of degree 3, 7 and 15 handles negative
 coefficients as the higher degrees do

---
 include/HEAAN/poly.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 6538f21..1147373 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -12,9 +12,10 @@ void eval_poly_deg3( const double u[4],
 	R_Q<LOGQ,N> L0[4];
 	for(int n=0;n<4;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -51,9 +52,10 @@ void eval_poly_deg7( const double u[8],
 	R_Q<LOGQ,N> L0[8];
 	for(int n=0;n<8;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -114,9 +116,10 @@ void eval_poly_deg15( const double u[16],
 	R_Q<LOGQ,N> L0[16];
 	for(int n=0;n<16;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
-- 
2.43.0


From 9db4e82014cfba5ed2e099175c35f40b21d64727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 11/13] fix: eval_poly_deg7 does not print intermediate
 ciphertexts

---
 include/HEAAN/poly.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 1147373..89af53d 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -91,9 +91,6 @@ void eval_poly_deg7( const double u[8],
 		temp[0][0]-=one;
 		RS<LOGQ-LOGDELTA, LOGQ-LOGDELTA*2,N>(temp,T4);
 	}
-	T4.print();
-	L2[0].print();
-	L2[1].print();
 	{
 		R_Q_square<LOGQ-LOGDELTA*2,N> temp;
 		Mul<LOGQ-LOGDELTA*2,N>(T4, L2[1], evk3, temp);
-- 
2.43.0


From 42b7d9f9e2445bd8072800542429d9f66764939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 12/13] fix: build the tables of conv, fftNR, ifftNR,
 CoeffToSlot and SlotToCoeff once even when first uses coincide

---
 include/HEAAN/arith/conv.h |  7 +------
 include/HEAAN/bootstrap.h  | 16 ++++++++--------
 include/HEAAN/matrix/DFT.h | 16 ++++++++--------
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/include/HEAAN/arith/conv.h b/include/HEAAN/arith/conv.h
index e78bc38..49d9b2c 100644
--- a/include/HEAAN/arith/conv.h
+++ b/include/HEAAN/arith/conv.h
@@ -141,11 +141,6 @@ void conv( const R_Q<LOGQ,N>& A,
         0xfffffffee8c0001ULL
     };
     const int L = (2*LOGQ + 17 + 59) / 60;
-	static CONV<L, LOGQ, N> *theConv = nullptr;
-    static bool theConv_initialized = false;
-    if(theConv_initialized == false) {
-        theConv = new CONV<L, LOGQ, N>(Q_primes);
-        theConv_initialized = true;
-    }
+	static const CONV<L, LOGQ, N> *theConv = new CONV<L, LOGQ, N>(Q_primes);
     theConv->conv(A, B, C);
 }
\ No newline at end of file
diff --git a/include/HEAAN/bootstrap.h b/include/HEAAN/bootstrap.h
index ad6122c..69916b6 100644
--- a/include/HEAAN/bootstrap.h
+++ b/include/HEAAN/bootstrap.h
@@ -16,11 +16,10 @@ void CoeffToSlot (	const R_Q_square<  LOGQ,1<<LOGN>& ct,
 					const int s[1 << LOGN],
 					R_Q_square<  LOGQ,1<<LOGN> ct_[2]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 
-	if(!is_init) {
+	static const bool is_init = [] {
 		splitU0NR<LOGN>(U0r, U0i);
     	for (int n = 0; n < LOGN - 1; n++) {
 			U0r[n].transpose();
@@ -29,8 +28,9 @@ void CoeffToSlot (	const R_Q_square<  LOGQ,1<<LOGN>& ct,
 			U0r[n] *= 1 / pow(N, 1.0 / (LOGN - 1));
 			U0i[n] *= 1 / pow(N, 1.0 / (LOGN - 1));
 		}
-		is_init = true;
-	}
+		return true;
+	}();
+	(void)is_init;
 
 	R_Q_square<LOGQ, N> U0ct;
 	grouped_serial_linear_transform<LOGQ, LOGN, LOGDELTA, 3, LOGN-1, G>(U0r, U0i, ct, s, U0ct);
@@ -54,13 +54,12 @@ void SlotToCoeff( const R_Q_square<  LOGQ,1<<LOGN>&  ct0,
 				  const int skey[1<<LOGN],
 					    R_Q_square<  LOGQ,1<<LOGN>& ct_ ){	
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 	static SparseDiagonal<N/2,3> iU0r[LOGN-1];
     static SparseDiagonal<N/2,3> iU0i[LOGN-1];
 
-	if(!is_init) {
+	static const bool is_init = [] {
 		SparseDiagonal<N/2,3> U0r_temp[LOGN-1];
     	SparseDiagonal<N/2,3> U0i_temp[LOGN-1];
 
@@ -80,8 +79,9 @@ void SlotToCoeff( const R_Q_square<  LOGQ,1<<LOGN>&  ct0,
 				iU0i[i] = U0i_temp[LOGN - 2 - i];
 			}
 		}		
-		is_init = true;
-	}
+		return true;
+	}();
+	(void)is_init;
 
 	grouped_serial_linear_transform<LOGQ, LOGN, LOGDELTA, 3, LOGN-1, G>(U0r, U0i, ct0, skey, ct_);
 	R_Q_square<LOGQ, N> ct2;
diff --git a/include/HEAAN/matrix/DFT.h b/include/HEAAN/matrix/DFT.h
index e130f22..d007e0a 100644
--- a/include/HEAAN/matrix/DFT.h
+++ b/include/HEAAN/matrix/DFT.h
@@ -69,13 +69,13 @@ void fftNR(
   double zr[1 << (LOGN - 1)],
   double zi[1 << (LOGN - 1)]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
-	if(!is_init) {
+	static const bool is_init = [] {
   		splitU0NR<LOGN>(U0r, U0i);
-		is_init = true;
-	}
+		return true;
+	}();
+	(void)is_init;
 
 	for(int i = 0; i < N/2; ++i) {
 		zr[i] = m[i];
@@ -97,19 +97,19 @@ template<int LOGN>
 void ifftNR( const double zr[1 << (LOGN - 1)],
 		   const double zi[1 << (LOGN - 1)], double m[1 << LOGN]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 
-	if(!is_init) {
+	static const bool is_init = [] {
 		splitU0NR<LOGN>(U0r, U0i);
     	for (int n = 0; n < LOGN - 1; n++) {
 			U0r[n].transpose();
 			U0i[n].transpose();
 			U0i[n].negate();
 		}
-		is_init = true;
-	}
+		return true;
+	}();
+	(void)is_init;
 
 	for(int i = 0; i < N/2; ++i) {
 		m[i] = zr[i];
-- 
2.43.0


From 2fa3a13b5990058538d9297acf26e86b707b6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:45 +0000
Subject: [PATCH 13/13] fix: encode spreads coefficients of 2^64 and more over
 the limbs

---
 include/HEAAN/endecode.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/HEAAN/endecode.h b/include/HEAAN/endecode.h
index 941fdb7..6f48a69 100644
--- a/include/HEAAN/endecode.h
+++ b/include/HEAAN/endecode.h
@@ -12,7 +12,12 @@ void encode( const double zr[1 << (LOGN - 1)],
 	double m[N]; ifft<LOGN>(zr,zi,m);
 	for(int i=0; i<N; i++){
 		pt[i].setzero();
-		pt[i][0]= (uint64_t) std::round(abs(m[i])*Delta);
+		double c = std::round(abs(m[i])*Delta);
+		for(int j=0; j<pt[i].get_length() && c>0; j++){ // a coefficient can need more than one limb
+			double limb = std::fmod(c, 18446744073709551616.0); // 2^64
+			pt[i][j] = (uint64_t) limb;
+			c = (c-limb)/18446744073709551616.0;
+		}
 		if(m[i]<0)
 			pt[i].negate();
 	}
-- 
2.43.0


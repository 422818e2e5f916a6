From d332cecbb8713c53053af6e60ee72d89918b50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 001/105] fix: SU(3) matrix-vector product took the wrong
 element in its second row

---
 src/Matrix_Ops/U_Nops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..9e67b50 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -414,7 +414,7 @@ mat_mult_vec( GLU_complex vect[ NC ] ,
 {
 #if NC == 3
   vect[0] = S[0] * v[0] + S[1] * v[1] + S[2] * v[2] ; 
-  vect[1] = S[3] * v[0] + S[4] * v[1] + S[6] * v[2] ; 
+  vect[1] = S[3] * v[0] + S[4] * v[1] + S[5] * v[2] ; 
   vect[2] = S[6] * v[0] + S[7] * v[1] + S[8] * v[2] ; 
 #elif NC == 2
   vect[0] = S[ 0 ] * v[ 0 ] + S[ 1 ] * v[ 1 ] ;
-- 
2.43.0


From 46785e46996357094503d1e08e436e3538299861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 002/105] fix: SU(2) plaquette did not compile without vector
 instructions

---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..deabe2a 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -190,7 +190,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr += (double)creal( ( tra3 * conj(c[0]) + tra4 * conj(c[1]))*conj(d[2]) ) ;
   tr += (double)creal( ( tra3 * conj(c[2]) + tra4 * conj(c[3]))*conj(d[3]) ) ;
 
-  return tra + trb ;
+  return tr ;
   
   #endif
 #else
-- 
2.43.0


From 8bc19235c99a76bc873febec58942d516b626d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 003/105] fix: portable SU(N) product of two daggered matrices
 lost its conjugation

---
 src/Matrix_Ops/MMUL/MMULdagdag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/MMUL/MMULdagdag.c b/src/Matrix_Ops/MMUL/MMULdagdag.c
index 5cd8171..e6261a8 100755
--- a/src/Matrix_Ops/MMUL/MMULdagdag.c
+++ b/src/Matrix_Ops/MMUL/MMULdagdag.c
@@ -63,7 +63,7 @@ multab_dagdag( GLU_complex a[ NCNC ] ,
 	sumi += REB * IMC + IMB * REC ;
 	pB += NC ;
       }
-      a[ j + NC*i ] = sumr + I * sumi ;
+      a[ j + NC*i ] = sumr - I * sumi ; // both factors are conjugated
       pC += NC ;
     }
   }
-- 
2.43.0


From 8e96f8c80b85d077eb59a5602a50d942443f7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 004/105] fix: the WELL_512 generator did not link and could
 not save its state

---
 src/Utils/par_rng.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 6a66874..0b28899 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -198,7 +198,7 @@ par_rng_dbl( const uint32_t thread )
 #elif (defined MWC_1038_RNG)
   return par_MWC_1038_dbl( thread ) ;
 #elif (defined WELL_512_RNG)
-  return par_Well_512_dbl( thread ) ;
+  return par_WELL_512_dbl( thread ) ;
 #else
   return par_MWC_4096_dbl( thread ) ;
 #endif
@@ -329,6 +329,8 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "RNG = PAR_XOR_1024\n" ) ;
 #elif (defined MWC_1038_RNG)
   fprintf( out , "RNG = PAR_MWC_1038\n" ) ;
+#elif (defined WELL_512_RNG)
+  fprintf( out , "RNG = PAR_WELL_512\n" ) ;
 #else
   fprintf( out , "RNG = PAR_MWC_4096\n" ) ;
 #endif
@@ -344,6 +346,8 @@ write_par_rng_state( const char *outfile )
   write_par_XOR_1024_table( out ) ;
 #elif (defined MWC_1038_RNG)
   write_par_MWC_1038_table( out ) ;
+#elif (defined WELL_512_RNG)
+  write_par_WELL_512_table( out ) ;
 #else
   write_par_MWC_4096_table( out ) ;
 #endif
-- 
2.43.0


From a6a2ba4c8243cdaba9e66a4dc05a6e86271c5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 005/105] fix: SU(3) exponential was NaN for degenerate
 eigenvalues

The ratio c0/c0_max exceeds one by rounding (or is 0/0 for tiny arguments)
when two eigenvalues of Q coincide.
---
 src/Matrix_Ops/expMat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..d5cb68f 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -207,7 +207,8 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // compute the constants c0_max and the root of c1 ...
   const double rc1 = sqrt( c1 ) ;
   const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  // rounding can push the ratio above one when eigenvalues are degenerate
+  const double theta = acos( c0 < c0_max ? c0 / c0_max : 1.0 ) / 3. ;
 
   // use sincos as it is cheaper
   double s , c ;
@@ -427,7 +428,8 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
     // compute the constants c0_max and the root of c1 ...
   const double rc1 = sqrt( c1 ) ;
   const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  // rounding can push the ratio above one when eigenvalues are degenerate
+  const double theta = acos( c0 < c0_max ? c0 / c0_max : 1.0 ) / 3. ;
 
   // use sincos as it is cheaper
   double s , c ;
-- 
2.43.0


From 45f474f6617067f98412cd1a8b96bc8e8f9e211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 006/105] fix: small-angle expansion of sin(z)/z in SU(2) used
 z instead of z^2

---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 4 ++--
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..6455a4f 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..5374f44 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -196,7 +196,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -294,7 +294,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index d5cb68f..522de91 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -277,7 +277,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -503,7 +503,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From 181cc63605faf2ba25482afdb682e4e35786ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 007/105] fix: packed antihermitian projection subtracted a
 real trace for NC > 3

---
 src/Matrix_Ops/exactQ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 5374f44..f30ee43 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -135,7 +135,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   *( Q + 1 ) = U[1] ; //0.5 * ( U[1] - conj( U[2] ) ) ;  
 #else
   size_t i , j , idx = 0 ;
-  GLU_complex tr = 0. ;
+  double tr = 0. ;
   // compute the trace first
   for( i = 0 ; i < NC ; i++ ) {
     tr += cimag( U[ i*(NC+1) ] ) ;
@@ -143,7 +143,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   tr /= (GLU_real)NC ;
   for( i = 0 ; i < NC-1 ; i++ ) {
     for( j = i ; j < NC ; j++ ) { 
-      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * cimag( U[ j + NC * i ] ) - tr ;
+      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * ( cimag( U[ j + NC * i ] ) - tr ) ;
       idx++ ;
     }
   }
-- 
2.43.0


From b9ff35cb39594390fcd97ce9e50c5749b1992f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 008/105] fix: SU(2) logarithm and eigenvalues were NaN when
 the trace exceeds two by rounding

---
 src/Matrix_Ops/evalues.c | 3 ++-
 src/Matrix_Ops/exactQ.c  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Matrix_Ops/evalues.c b/src/Matrix_Ops/evalues.c
index 30e6fec..bb448bc 100755
--- a/src/Matrix_Ops/evalues.c
+++ b/src/Matrix_Ops/evalues.c
@@ -338,7 +338,8 @@ Eigenvalues_suNC( double complex z[ NC ] ,
   z[2] = z[1] - minus ; 
 #elif NC == 2
   const double reU0 = (double)creal( U[0] ) ;
-  z[0] = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  // reU0 can exceed one by rounding
+  z[0] = reU0 + I * sqrt( fmax( 0.0 , 1.0 - reU0 * reU0 ) ) ;
   z[1] = conj( z[0] ) ;
 #else
   // not supported, yet. Wrap to eigenvalues ....
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index f30ee43..3d1ac6c 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -193,7 +193,8 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 #elif NC == 2
   // inlined the two necessary routines ...
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  // reU0 can exceed one by rounding
+  const double complex z = reU0 + I * sqrt( fmax( 0.0 , 1.0 - reU0 * reU0 ) ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
   const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
@@ -291,7 +292,8 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   *( Q + 4 ) = trce * ( con * U[5] - f[2] * conj( U[7] ) ) ; 
 #elif NC == 2
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  // reU0 can exceed one by rounding
+  const double complex z = reU0 + I * sqrt( fmax( 0.0 , 1.0 - reU0 * reU0 ) ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
   const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
-- 
2.43.0


From 864a0e48fa2320401e131383c52147adbe07aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 009/105] fix: SU(3) exact logarithm for degenerate eigenvalues
 and the identity

The Cayley-Hamilton coefficients divide by (z0-z1)(z0-z2), which vanished
whenever the first eigenvalue was degenerate. For the identity the result
was left unset (full form) or NaN (packed form).
---
 src/Matrix_Ops/exactQ.c | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 3d1ac6c..0f9575c 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -151,6 +151,29 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   return ;
 }
 
+#if NC == 3
+// hermitian eigenvalues from the eigenvalues of an SU(3) matrix. The f's of
+// Cayley-Hamilton divide by ( z0 - z1 )( z0 - z2 ) so z0 is set to be the 
+// one with the largest modulus, which cannot be degenerate for traceless Q
+static void
+hermitian_evalues_su3( double complex z[ NC ] )
+{
+  double complex tmp ;
+  size_t i ;
+  z[0] = carg( z[0] ) ; 
+  z[1] = carg( z[1] ) ;
+  // This is now "numerically stable", just as the MP prescription
+  // logically the log of these gives the hermitian z's
+  z[2] = -( z[0] + z[1] ) ; 
+  for( i = 1 ; i < NC ; i++ ) {
+    if( fabs( creal( z[i] ) ) > fabs( creal( z[0] ) ) ) {
+      tmp = z[0] ; z[0] = z[i] ; z[i] = tmp ;
+    }
+  }
+  return ;
+}
+#endif
+
 // this code is called literally all the time, computes 
 // Q in e^{iQ} up to roughly numerical precision and fairly quickly too
 void
@@ -160,12 +183,9 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 #if NC == 3   
   double complex f[ NC ] , z[ NC ] ;
   Eigenvalues_suNC( z , U ) ; 
-  z[0] = carg( z[0] ) ; 
-  z[1] = carg( z[1] ) ;
-  // This is now "numerically stable", just as the MP prescription
-  // logically the log of these gives the hermitian z's
-  z[2] = -( z[0] - z[1] ) ; 
-  if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
+  hermitian_evalues_su3( z ) ;
+  if( z[0] == 0.0 ) { // is the identity
+    zero_mat( Q ) ;
     return ;
   }
   f_hermitian_log_suNC( f , z ) ;
@@ -247,11 +267,12 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
 #if NC == 3 
   double complex f[NC] , z[NC] ;
   Eigenvalues_suNC( z , U ) ; 
-  z[0] = carg( z[0] ) ; 
-  z[1] = carg( z[1] ) ;
-  // This is now "numerically stable", just as the MP prescription
-  // logically the log of these gives the hermitian z's
-  z[2] = -( z[0] - z[1] ) ; 
+  hermitian_evalues_su3( z ) ;
+  if( z[0] == 0.0 ) { // is the identity
+    size_t i ;
+    for( i = 0 ; i < HERMSIZE ; i++ ) { Q[i] = 0.0 ; }
+    return ;
+  }
   register const double a = 0.5 * creal( z[0] ) ;
   const double u = a ;
   register const double w = creal( z[1] ) + a ;
-- 
2.43.0


From ad66a43ca726866cd1b30c93090d1086b6434ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 010/105] fix: exponential for NC > 3 with GSL failed for
 degenerate eigenvalues

The Vandermonde system is singular there, U was NaN for Q = 0. Use the
spectral decomposition instead.
---
 src/Headers/evalues.h    | 14 ++++++++++++++
 src/Matrix_Ops/evalues.c | 35 +++++++++++++++++++++++++++++++++++
 src/Matrix_Ops/expMat.c  | 15 ++++++++++++++-
 3 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/Headers/evalues.h b/src/Headers/evalues.h
index 2cd786a..2ec7cdd 100755
--- a/src/Headers/evalues.h
+++ b/src/Headers/evalues.h
@@ -57,4 +57,18 @@ void
 Eigenvalues_hermitian( double z[ NC ] ,
 		       const GLU_complex U[ NCNC ] ) ;
 
+#if ( NC > 3 ) && ( defined HAVE_GSL ) && !( defined HAVE_LAPACKE_H )
+/**
+   @fn void Eigenvectors_hermitian( double z[ NC ] , GLU_complex v[ NCNC ] , const GLU_complex U[ NCNC ] )
+   @brief computes the eigenvalues and eigenvectors of a hermitian matrix
+   @param z :: eigenvalues
+   @param v :: unitary matrix whose columns are the eigenvectors
+   @param U :: hermitian matrix
+ */
+void
+Eigenvectors_hermitian( double z[ NC ] ,
+			GLU_complex v[ NCNC ] ,
+			const GLU_complex U[ NCNC ] ) ;
+#endif
+
 #endif
diff --git a/src/Matrix_Ops/evalues.c b/src/Matrix_Ops/evalues.c
index bb448bc..a31e777 100755
--- a/src/Matrix_Ops/evalues.c
+++ b/src/Matrix_Ops/evalues.c
@@ -311,6 +311,41 @@ Eigenvalues_hermitian( double z[ NC ] ,
   return ;
 }
 
+#if ( NC > 3 ) && ( defined HAVE_GSL ) && !( defined HAVE_LAPACKE_H )
+// eigenvalues and eigenvectors (the columns of v) of a hermitian matrix
+void
+Eigenvectors_hermitian( double z[ NC ] ,
+			GLU_complex v[ NCNC ] ,
+			const GLU_complex U[ NCNC ] )
+{
+  gsl_matrix_complex *mat = gsl_matrix_complex_alloc( NC , NC ) ;
+  gsl_matrix_complex *evec = gsl_matrix_complex_alloc( NC , NC ) ;
+  gsl_vector *eval = gsl_vector_alloc( NC ) ;
+  gsl_eigen_hermv_workspace *w = gsl_eigen_hermv_alloc( NC ) ;
+  size_t i , j ;
+  for( i = 0 ; i < NC ; i++ ) {
+    for( j = 0 ; j < NC ; j++ ) {
+      gsl_matrix_complex_set( mat , i , j , 
+			      gsl_complex_rect( creal( U[ j + NC*i ] ) ,
+						cimag( U[ j + NC*i ] ) ) ) ;
+    }
+  }
+  gsl_eigen_hermv( mat , eval , evec , w ) ;
+  for( i = 0 ; i < NC ; i++ ) {
+    z[i] = gsl_vector_get( eval , i ) ;
+    for( j = 0 ; j < NC ; j++ ) {
+      const gsl_complex c = gsl_matrix_complex_get( evec , i , j ) ;
+      v[ j + NC*i ] = GSL_REAL( c ) + I * GSL_IMAG( c ) ;
+    }
+  }
+  gsl_eigen_hermv_free( w ) ;
+  gsl_vector_free( eval ) ;
+  gsl_matrix_complex_free( evec ) ;
+  gsl_matrix_complex_free( mat ) ;
+  return ;
+}
+#endif
+
 // SU(NC) variant eigenvalues
 void
 Eigenvalues_suNC( double complex z[ NC ] , 
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index 522de91..524a624 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -287,7 +287,20 @@ exponentiate( GLU_complex U[ NCNC ] ,
   *( U + 3 ) = (GLU_complex)( f0 - f1Q0 ) ; 
 #else
   // hmmm could be a toughy
-  #if ( defined HAVE_LAPACKE_H || defined HAVE_GSL )
+  #if ( defined HAVE_GSL ) && !( defined HAVE_LAPACKE_H )
+  // U = V.e^{iz}.V^{\dagger}, the vandermonde system for the f's is singular
+  // when eigenvalues are degenerate
+  double z[ NC ] ;
+  GLU_complex v[ NCNC ] GLUalign , vd[ NCNC ] GLUalign ;
+  Eigenvectors_hermitian( z , v , Q ) ;
+  size_t i , j ;
+  for( i = 0 ; i < NC ; i++ ) {
+    for( j = 0 ; j < NC ; j++ ) {
+      vd[ j + i*NC ] = ( cos( z[i] ) + I * sin( z[i] ) ) * conj( v[ i + j*NC ] ) ;
+    }
+  }
+  multab( U , v , vd ) ;
+  #elif ( defined HAVE_LAPACKE_H )
   double complex f[ NC ] ;
   double z[ NC ] ;
   Eigenvalues_hermitian( z , Q ) ;
-- 
2.43.0


From c6413008079d7b12eb4641b0f678c305c7a8f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 011/105] fix: SU(3) exact logarithm lost all precision next to
 the identity

---
 src/Matrix_Ops/exactQ.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 0f9575c..83541fc 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -184,8 +184,9 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   double complex f[ NC ] , z[ NC ] ;
   Eigenvalues_suNC( z , U ) ; 
   hermitian_evalues_su3( z ) ;
-  if( z[0] == 0.0 ) { // is the identity
-    zero_mat( Q ) ;
+  // too close to the identity for the f's, log is ( U - U^dag )/2i to O(z^3)
+  if( fabs( creal( z[0] ) ) < 1E-5 ) {
+    Hermitian_proj( Q , U ) ;
     return ;
   }
   f_hermitian_log_suNC( f , z ) ;
@@ -268,9 +269,9 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   double complex f[NC] , z[NC] ;
   Eigenvalues_suNC( z , U ) ; 
   hermitian_evalues_su3( z ) ;
-  if( z[0] == 0.0 ) { // is the identity
-    size_t i ;
-    for( i = 0 ; i < HERMSIZE ; i++ ) { Q[i] = 0.0 ; }
+  // too close to the identity for the f's, log is ( U - U^dag )/2i to O(z^3)
+  if( fabs( creal( z[0] ) ) < 1E-5 ) {
+    Hermitian_proj_short( Q , U ) ;
     return ;
   }
   register const double a = 0.5 * creal( z[0] ) ;
-- 
2.43.0


From 6e48c4e779b4dd8d9dbcadecfceac840089ba4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 012/105] fix: diagonal generators negated an unsigned index
 for their last entry

---
 src/Matrix_Ops/lie_mats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index b344bea..5417a44 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -417,7 +417,7 @@ init_generators( void )
     for( i = 0 ; i < subblock-1 ; i++ ) {
       lambda[idx][ mat_idx(i,i) ] = fact ;
     }
-    lambda[idx][ mat_idx(i,i) ] = fact * ( -i ) ;
+    lambda[idx][ mat_idx(i,i) ] = -fact * (GLU_real)i ;
     idx++ ;
     // increment the size of the block matrix we are in
     subblock ++ ;
-- 
2.43.0


From 466ee3a2cfd0d499f61ef73d99b56527ec92fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 013/105] fix: SU(2) Lie-algebra components were half of those
 used for every other NC

---
 src/Matrix_Ops/lie_mats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index 5417a44..0a03edc 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -254,9 +254,9 @@ lie_data( GLU_complex a[ NCNC - 1 ]  ,
   a[6] = I * ( A[5] - A[7] ) ;
   a[7] = -A[8] * 1.7320508075688772 ; // multiply by sqrt 3
 #elif NC == 2
-  a[0] = 0.5 * ( A[1] + A[2] ) ;
-  a[1] = 0.5 * ( I * ( A[1] - A[2] ) ) ;
-  a[2] = ( A[0] ) ;
+  a[0] = A[1] + A[2] ;
+  a[1] = I * ( A[1] - A[2] ) ;
+  a[2] = A[0] - A[3] ;
 #else
   // calculation of this is not so bad, a[i] = 2 Tr( A T^{i} )
   size_t i ;
-- 
2.43.0


From e12337bca2e34444710837e8efdfd1d7c83ad330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 014/105] fix: vectorised inverse searched for its pivot in the
 wrong matrix

---
 src/Matrix_Ops/invert_SSE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/invert_SSE.c b/src/Matrix_Ops/invert_SSE.c
index f63b7e3..db01cc0 100644
--- a/src/Matrix_Ops/invert_SSE.c
+++ b/src/Matrix_Ops/invert_SSE.c
@@ -118,7 +118,7 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     piv = i ;
     best = absfac( *( pA + i*(NC+1) ) ) ;
     for( j = i+1 ; j < NC ; j++ ) {
-       attempt = absfac( *( pB + i + j*NC ) ) ;
+       attempt = absfac( *( pA + i + j*NC ) ) ;
       if( _mm_ucomilt_sd( best , attempt ) ) { 
 	piv = j ; 
 	best = attempt ; 
-- 
2.43.0


From 0dc34def1af9947d1ed024b9090e5b07ccd282bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 015/105] fix: vectorised inverse did not report singular
 matrices

---
 src/Matrix_Ops/invert_SSE.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Matrix_Ops/invert_SSE.c b/src/Matrix_Ops/invert_SSE.c
index db01cc0..3166dc6 100644
--- a/src/Matrix_Ops/invert_SSE.c
+++ b/src/Matrix_Ops/invert_SSE.c
@@ -125,6 +125,13 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
       }
     }
 
+    // no pivot left, the portable version says this in the same way
+    if( _mm_cvtsd_f64( best ) == 0.0 ) {
+      fprintf( stderr , "[INVERSE] Matrix is singular!!\n" ) ; 
+      write_matrix( M ) ;
+      return GLU_FAILURE ; 
+    }
+
     // if we must pivot then we do
     if( piv != i ) {
       swap_rows( pA , pB , piv , i ) ;
@@ -137,6 +144,12 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     }
   }
 
+  if( _mm_cvtsd_f64( absfac( *( pA + NCNC - 1 ) ) ) == 0.0 ) {
+    fprintf( stderr , "[INVERSE] Matrix is singular!!\n" ) ; 
+    write_matrix( M ) ;
+    return GLU_FAILURE ; 
+  }
+
   // a is upper triangular, do the same for the upper half
   // no pivoting to be done here
   for( i = NC-1 ; i > 0 ; i-- ) {
-- 
2.43.0


From 108ff28e8968c2a76ccc3ab026133c5eebfcffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 016/105] fix: Vandermonde solvers skipped the last step of the
 back substitution

---
 src/Matrix_Ops/vandermonde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/vandermonde.c b/src/Matrix_Ops/vandermonde.c
index 0286a3c..399cd8c 100755
--- a/src/Matrix_Ops/vandermonde.c
+++ b/src/Matrix_Ops/vandermonde.c
@@ -36,7 +36,7 @@ solvandermonde( double complex f[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- > 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[i] = f[i] - ( f[ i + 1 ] * x[k] ) ;
     }
@@ -68,7 +68,7 @@ solvandermonde_new( const double q[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- > 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[ i ] -= ( f[ i + 1 ] * q[k] ) ;
     }
-- 
2.43.0


From 561ca384420eacda4f9d70f405de3c602c5599e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 017/105] fix: general SU(3) eigenvalues were NaN for singular
 matrices and triple roots

---
 src/Matrix_Ops/evalues.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/Matrix_Ops/evalues.c b/src/Matrix_Ops/evalues.c
index a31e777..405e4f3 100755
--- a/src/Matrix_Ops/evalues.c
+++ b/src/Matrix_Ops/evalues.c
@@ -138,7 +138,7 @@ squarert( const double complex z ,
 {
   register const double real = cabs( z )  ;
   register const double angle = carg( z ) * 0.5 ;
-  const double temp = sqrt( real ) * ( cos( angle ) + I * sin( angle ) ) ; 
+  const double complex temp = sqrt( real ) * ( cos( angle ) + I * sin( angle ) ) ; 
   return ( creal( conj( R ) * temp ) < 0 ) ? -temp : temp ;
 }
 #endif
@@ -210,19 +210,21 @@ Eigenvalues( double complex z[ NC ] ,
 #if NC == 3
   /// gives the roots for x^3+ax^2+bx+c=0 using cardano's method ///
   GLU_complex temp ;
-  speed_det( &temp , U ) ; // should exit if the det is 0?
-  GLU_complex inv[ NCNC ] GLUalign ; 
-  inverse( inv , U ) ; 
+  speed_det( &temp , U ) ;
   double complex res = (double complex)temp ;
-  const double complex trinv = (double complex)trace( inv ) ; 
   const double complex a = -(double complex)trace( U )/3. ; 
-  const double complex b = (double complex)res * trinv ; 
+  // sum of the principal minors, exists for singular matrices too
+  const double complex b = 
+    (double complex)( U[0] * U[4] - U[1] * U[3] ) +
+    (double complex)( U[0] * U[8] - U[2] * U[6] ) +
+    (double complex)( U[4] * U[8] - U[5] * U[7] ) ;
   const double complex c = -(double complex)res ; 
   const double complex Q = ( a*a - b/3. ) ; 
   const double complex R = a*a*a - 0.5*a*b + 0.5*c ;
-  cubert( &res , R + csqrt( R*R - Q*Q*Q ) ) ; 
+  // the sign of the root is the one that does not cancel
+  cubert( &res , R + squarert( R*R - Q*Q*Q , R ) ) ; 
   const double complex A = -(double complex)res ; 
-  const double complex B = Q / A ; //( A != 0. ? Q/A : 0. ) ; 
+  const double complex B = ( A != 0. ? Q/A : 0. ) ; 
   const double complex plus = A + B ;
   const double complex minus = rr3 * ( A - B ) ; 
   z[0] = plus - a ; 
@@ -262,7 +264,7 @@ Eigenvalues_hermitian( double z[ NC ] ,
   // reuse 'R'
   cubert( &R , temp ) ; 
   register const double complex A = -R ; 
-  register const double complex B = Q/A ; 
+  register const double complex B = ( A != 0. ? Q/A : 0. ) ; 
   register const double complex plus = A + B ;
   register const double complex minus = A - B ; 
   z[0] = (double)creal( plus ) ; 
-- 
2.43.0


From 312de1bbfe8151630a0a2c798d8b56b152f30c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 018/105] fix: temporal and average plaquette normalisations
 were only right for ND = 4

---
 src/Field/plaqs_links.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index deabe2a..da2e2fc 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -233,9 +233,14 @@ all_plaquettes( const struct site *__restrict lat ,
     }
     tplaq = tplaq + (double)p ;
   }
+  // (ND-1)(ND-2)/2 spatial and (ND-1) temporal plaquettes per site
+#if ND > 2
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+#else
+  *sp_plaq = 0.0 ;
+#endif
+  *t_plaq  = tplaq /  (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  return 2.0 * ( spplaq + tplaq ) / (double)( ND * ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // average plaquette
@@ -316,7 +321,11 @@ s_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
+#if ND > 2
   return 2.0 * plaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+#else
+  return 0.0 * plaq ;
+#endif
 }
 
 // temporal plaquettes
@@ -339,7 +348,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
-- 
2.43.0


From e17f739273086c73de19bafaadec766ace108ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 019/105] fix: plaquettes reported by the flow and the updates
 were only normalised for ND = 4

---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 2 +-
 src/Update/KPHB.c         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..ff4e0fa 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0*new_plaq/( NC * ND * ( ND-1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..c266f1f 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -124,7 +124,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0 / ( NC * ND * ( ND-1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..b73b185 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -63,7 +63,7 @@ perform_measurements( double *PLAQred ,
   {
     // write out the plaquette
     fprintf( stdout , "[UPDATE] %zu :: {P} %1.12f \n" , 
-	     conf_idx , pl/( NC*(ND-1)*(ND-2)*LVOLUME ) ) ;
+	     conf_idx , 2.0*pl/( NC*ND*(ND-1)*LVOLUME ) ) ;
   }
 
   // icc really hates this for some reason
-- 
2.43.0


From 63a89086f68bd6a05c91cc3b159ec88a9f2763de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 020/105] fix: printed Polyakov loops were divided by the
 sub-volume twice

---
 src/Wrappers/OBS_wrap.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/Wrappers/OBS_wrap.c b/src/Wrappers/OBS_wrap.c
index 94247ae..e3a955d 100755
--- a/src/Wrappers/OBS_wrap.c
+++ b/src/Wrappers/OBS_wrap.c
@@ -213,13 +213,8 @@ gauge( const struct site *__restrict lat )
 #if !(defined OBC_HACK)
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    // compute correct denominator
-    size_t denom = 1 , nu ;
-    for( nu = 0 ; nu < ND ; nu++ ) {
-      denom *= ( nu != mu ) ? Latt.dims[nu] : 1 ;
-    }
-    // average
-    const double DENOM = 1.0 / ( ( double )NC * denom ) ;
+    // poly() is already averaged over the sub-volume
+    const double DENOM = 1.0 / ( double )NC ;
     double complex R = poly( lat , mu ) ;
     fprintf( stdout , "[POLY SU(%d) DIR_%zu] ( %e , %e ) , MODULUS :: %e \n" ,
 	    NC , mu , creal( R ) * DENOM , cimag( R ) * DENOM , 
-- 
2.43.0


From 3e2d2eb378f60fa4d6b26c2a9aa500a237587f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 021/105] fix: Polyakov loop direction defaulted to one past
 the last dimension

---
 src/Field/POLY.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index b176010..4a20bf0 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -57,8 +57,8 @@ poly( const struct site *lat ,
       size_t dir )
 {
   // if you have stupidly set the dimension to something unreasonable
-  // default the direction to ND
-  if( dir > ND ) { dir = ND ; }
+  // default the direction to ND-1
+  if( dir > ND-1 ) { dir = ND-1 ; }
   double complex sum = 0 ;
   size_t i , subvolume = 1 ;
   for( i = 0 ; i < ND ; i++ ) {
@@ -84,8 +84,8 @@ poly_th( double *red ,
 	 size_t dir )
 {
   // if you have stupidly set the dimension to something unreasonable
-  // default the direction to ND
-  if( dir > ND ) { dir = ND ; }
+  // default the direction to ND-1
+  if( dir > ND-1 ) { dir = ND-1 ; }
   size_t i , subvolume = 1 ;
   for( i = 0 ; i < ND ; i++ ) {
     subvolume *= (i!=dir)? Latt.dims[i] : 1 ;
-- 
2.43.0


From 308d16cab2d408f3f352bf11d5a9761353df1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 022/105] fix: static potential without FFTW correlated the
 trace with itself instead of its conjugate

---
 src/Field/POLY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index 4a20bf0..5879d57 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -294,7 +294,7 @@ static_quark_correlator( double complex *result ,
 	// and the trace-trace
 	const GLU_complex tr1 = trace( poly[source] ) ;
 	const GLU_complex tr2 = trace( poly[sink] ) ;
-	tracetrace += tr1 * tr2 ;
+	tracetrace += tr1 * conj( tr2 ) ;
       }
     }
     result[i] = tr * NORM ;
-- 
2.43.0


From cdce00ee09587edc7297fc4cdd71d0e70723da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 023/105] fix: instanton link integral added the coordinates of
 all directions

---
 src/Geometry/BPST_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/BPST_config.c b/src/Geometry/BPST_config.c
index 4a9c94e..9bfc432 100755
--- a/src/Geometry/BPST_config.c
+++ b/src/Geometry/BPST_config.c
@@ -35,10 +35,11 @@ Asing( GLU_real y[ ND ] , const GLU_real rho , int mu )
   int nu ;
   for( nu = 0 ; nu < ND ; nu++ ){
     if( nu != mu ){ sum += y[nu]*y[nu] ; }
-    sumr += y[nu] * y[nu] + y[nu];
+    sumr += y[nu] * y[nu] ;
   }
   sum = sqrt(sum + rho*rho);
-  sumr = sumr + rho*rho;
+  // the link only extends along mu
+  sumr = sumr + y[mu] + rho*rho;
   
   return atan2( sum , sumr ) / sum; 
 }
-- 
2.43.0


From d688c353e38862b2606e8900c5aea3fdce5e04ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 024/105] fix: smearing parameters were normalised by (ND-2)
 instead of 2, right only for ND = 4

---
 src/Smear/ND_generic_HYP.c | 2 +-
 src/Smear/smear.c          | 4 ++--
 src/Wrappers/SM_wrap.c     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Smear/ND_generic_HYP.c b/src/Smear/ND_generic_HYP.c
index edbf791..6bf9896 100755
--- a/src/Smear/ND_generic_HYP.c
+++ b/src/Smear/ND_generic_HYP.c
@@ -49,7 +49,7 @@ init_smearing_alphas( const size_t MAXDIR )
 #else
   size_t mu ;
   for( mu = 0 ; mu < MAXDIR-1 ; mu++ ) {
-    smear_alphas[ mu+1 ] = Latt.sm_alpha[mu] / ( ( ND-mu-1 ) * ( ND-2 ) ) ;
+    smear_alphas[ mu+1 ] = Latt.sm_alpha[mu] / ( 2 * ( ND-mu-1 ) ) ;
     one_minus_smalpha[ mu+1 ] = ( 1.0 - Latt.sm_alpha[mu] ) ;
   }
 #endif
diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 64a30f1..58f8f56 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -46,7 +46,7 @@ smear3D( struct site *__restrict lat ,
   if( smiters == 0 ) { return GLU_SUCCESS ; }
 
 #if ND != 4 
-  const GLU_real alpha1 = Latt.sm_alpha[0] / ( ( ND-1 ) * ( ND -2 ) ) ;
+  const GLU_real alpha1 = Latt.sm_alpha[0] / ( 2 * ( ND-1 ) ) ;
   const GLU_real one_min_a1 = ( 1.0 - Latt.sm_alpha[0] ) ;
 #endif
   
@@ -181,7 +181,7 @@ smear4D( struct site *__restrict lat ,
   if( smiters == 0 ) { return GLU_SUCCESS ; }
 
 #if ND != 4 
-  const GLU_real alpha1 = ND > 2 ? Latt.sm_alpha[0] / ( ( ND - 1 ) * ( ND - 2 ) ) : Latt.sm_alpha[0] ;
+  const GLU_real alpha1 = ND > 2 ? Latt.sm_alpha[0] / ( 2 * ( ND - 1 ) ) : Latt.sm_alpha[0] ;
   const GLU_real one_min_a1 = ( 1.0 - Latt.sm_alpha[0] ) ;
 #endif	
 				     
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f679820..cab270a 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -185,7 +185,7 @@ print_smearinfo( const struct sm_info SMINFO )
       size_t i ;
       for( i = 0 ; i < ND-1 ; i++ ) {
 	fprintf( stdout , "             (alpha%zu) %f\n" , i+1 , 
-		 Latt.sm_alpha[i]/( ( ND-i-1 ) * ( ND-2 ) ) ) ;
+		 Latt.sm_alpha[i]/( 2 * ( ND-i-1 ) ) ) ;
       }
     } else { 
       fprintf( stdout , "             (alpha) %f \n" , 
-- 
2.43.0


From 44b3e3fbc92a67db69ad5417699b1201fd07e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 025/105] fix: rectangle-improved smearing wrote one time slice
 twice and lost the next

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 58f8f56..60bdb7e 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -343,7 +343,7 @@ smear4D( struct site *__restrict lat ,
 	for( mu = 0 ; mu < ND ; mu++ ) {
           #ifdef IMPROVED_SMEARING
 	  equiv( lat[behind2+i].O[mu] , lat3[i].O[mu] ) ;
-	  equiv( lat[back].O[mu]      , lat3[i].O[mu] ) ;
+	  equiv( lat[back].O[mu]      , lat3[i+LCU].O[mu] ) ;
 	  equiv( lat[it].O[mu]        , lat4[i].O[mu] ) ;
 	  equiv( lat[it+LCU].O[mu]    , lat4[i+LCU].O[mu] ) ;
           #else
-- 
2.43.0


From e0529c53e606d46ee969d7fb5c7a0c158dc443a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:10 +0000
Subject: [PATCH 026/105] fix: first use of the series logarithm inside a
 parallel loop deadlocked on an implied barrier

---
 src/Matrix_Ops/taylor_logs.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Matrix_Ops/taylor_logs.c b/src/Matrix_Ops/taylor_logs.c
index 89dd8d0..5c37387 100755
--- a/src/Matrix_Ops/taylor_logs.c
+++ b/src/Matrix_Ops/taylor_logs.c
@@ -156,15 +156,20 @@ denman_rootZ( GLU_complex *__restrict Z )
 static void
 precompute_taylor_factors( void ) 
 {
-  // make sure this isn't getting overwritten by different threads
-#pragma omp single
+  // make sure this isn't getting overwritten by different threads, we can be
+  // called from within a worksharing loop so no implied barrier is allowed
+#pragma omp critical (TAYLOR_FACTORS)
   {
-    fact = malloc( NMAX * sizeof( double ) ) ;
-    size_t n ;
-    for( n = 0 ; n < NMAX ; n++ ) {
-      fact[ n ] = 1.0 / (double)( 2 * ( n ) - 1 ) ;
+    if( TAYLOR_SET == GLU_FALSE ) {
+      // the series looks one term further than its last order
+      fact = malloc( ( NMAX + 2 ) * sizeof( double ) ) ;
+      size_t n ;
+      for( n = 0 ; n < NMAX + 2 ; n++ ) {
+	fact[ n ] = 1.0 / (double)( 2 * ( n ) - 1 ) ;
+      }
+#pragma omp flush
+      TAYLOR_SET = GLU_TRUE ;
     }
-    TAYLOR_SET = GLU_TRUE ;
   }
   return ;
 }
-- 
2.43.0


From 6142e3bfd758ecae7e850cd18bbcefb07569f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 027/105] fix: every thread rewrote the last time slices of a
 smeared field, racing with the measurement

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 60bdb7e..2454b4e 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -335,7 +335,7 @@ smear4D( struct site *__restrict lat ,
       const size_t behind2 = lat[ behind ].back[ ND-1 ] ;
       #endif
 
-      #pragma omp parallel for private(i)
+      #pragma omp for private(i)
       for( i = 0 ; i < LCU ; i++ ) {
 	register const size_t back = behind + i ;
 	register const size_t it = slice + i ;
-- 
2.43.0


From bf29c1594176f58a5f74281304b2eee093cb30cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 028/105] fix: rectangle-improved memory-cheap flow freed twice
 the sites it allocated

---
 src/Smear/wflowfuncs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 464ee55..e3d0636 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -379,7 +379,7 @@ free_WF( struct wflow_temps *WF ,
     // free our fields
     free_s_site( WF->Z , LVOLUME , ND ) ;
 #ifdef IMPROVED_SMEARING
-    free_s_site( WF->lat2 , 2*LCU , ND ) ;
+    free_s_site( WF->lat2 , LCU , ND ) ;
     free_s_site( WF->lat3 , 2*LCU , ND ) ;
     free_s_site( WF->lat4 , 2*LCU , ND ) ;
 #else
-- 
2.43.0


From bf965d600aada69c14fb1112ef6dac128820b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 029/105] fix: plaquette energy density of the flow had a
 factor 32 instead of NC.ND.(ND-1)

---
 src/Smear/wflowfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index e3d0636..c214123 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -410,7 +410,7 @@ print_flow( const struct wfmeas *curr ,
   }
   fprintf( stdout , "{p} %g {q} %g {Gt} %g {GtP} %g\n" ,
 	   curr -> avplaq , curr -> qtop , curr -> Gt ,
-	   curr->time*curr->time*32*(1-curr -> avplaq) 
+	   curr->time*curr->time*NC*ND*(ND-1)*(1-curr -> avplaq) 
 	   ) ;
   return ;
 }
@@ -456,7 +456,7 @@ scaleset( struct wfmeas *curr ,
   // traverse back down the linked list
   for( i = 0 ; i < ( count + 1 ) ; i++ ) {
     time[ count - i ] = curr -> time ;
-    GT[ count - i ]   = curr->time*curr->time*32*(1-curr -> avplaq) ;
+    GT[ count - i ]   = curr->time*curr->time*NC*ND*(ND-1)*(1-curr -> avplaq) ;
     if( is_clover == GLU_TRUE ) {
       GT[ count - i ]   = curr -> Gt ;
     }
-- 
2.43.0


From cf0bb006e3661a064f64ea05b6b24da41cee30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 030/105] fix: the flow stepped back to its stopping time but
 reported the time and plaquette from before

---
 src/Smear/wflow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index c266f1f..e55c657 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -146,10 +146,19 @@ flow_RK3( struct site *__restrict lat ,
     if( t > WFLOW_TIME_STOP ) {
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
+      t += delta_tcorr ;
+      // compute plaquette
+      av_plaquette_th( WF.red , lat ) ;
+      size_t k ;
+      new_plaq = 0.0 ;
+      for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+	new_plaq += WF.red[ 3 + CLINE*k ] ;
+      }
+      new_plaq *= 2.0 / ( NC * ND * ( ND-1 ) * LVOLUME ) ;
       // update the linked list
       curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
       update_meas_list( head , curr , WF.red ,
-			new_plaq , t , delta_t ,
+			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
       head = curr ;
       count++ ;
-- 
2.43.0


From f35a8b010aac8a815f7e7fd896761d9414a4021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 031/105] fix: momentum index conversion returned sites off the
 lattice for odd extents

---
 src/Geometry/geometry.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/geometry.c b/src/Geometry/geometry.c
index fc8bc4e..710caa7 100755
--- a/src/Geometry/geometry.c
+++ b/src/Geometry/geometry.c
@@ -48,10 +48,11 @@ get_site_2piBZ( int x[ ND ] ,
     L_2 = Latt.dims[ mu ] >> 1 ;
     temp[mu] = x[mu] ;
     if( mu != DIMS ) {
-      if( temp[ mu ] >= (int)L_2 ) {
+      // for an odd extent there is one more momentum above zero
+      if( temp[ mu ] >= (int)( Latt.dims[ mu ] - L_2 ) ) {
 	temp [ mu ] -= (int)Latt.dims[ mu ] ;
       } 
-      if( temp[ mu ] < (int)L_2 ) {
+      if( temp[ mu ] < (int)( Latt.dims[ mu ] - L_2 ) ) {
 	temp [ mu ] += (int)L_2 ;
       }
     } else { // fill the rest with 0's
-- 
2.43.0


From f0b84fbd89ec470799ac95b5e43e8974daaa4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 032/105] fix: neighbouring sites shared a colour for odd
 extents that are one modulo three

---
 src/Geometry/draughtboard.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index f857884..0aa3958 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -60,6 +60,12 @@ get_midx( const size_t i ,
       even_sum += n[mu] ;
     } else {
       odd_sum  += n[mu] ;
+      // the last and the first site along this direction are neighbours,
+      // they would have the same color if the extent is 1 mod 3
+      if( Latt.dims[mu] > 1 && Latt.dims[mu]%3 == 1 &&
+	  n[mu] == (int)Latt.dims[mu] - 1 ) {
+	odd_sum++ ;
+      }
     }
   }
 #ifdef verbose
-- 
2.43.0


From b16e1bb87934f84d8f54b9ce4922d90b7a24cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 033/105] fix: colouring for rectangle actions rejected the
 extents it supports and accepted all others

---
 src/Geometry/draughtboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index 0aa3958..6644383 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -140,7 +140,7 @@ init_improved_cb( struct draughtboard *db )
     return GLU_FAILURE ;
   }
   for( int mu = 0 ; mu < ND ; mu++ ) {
-    if( (Latt.dims[mu]%4 == 0 && Latt.dims[mu] >=4) ) {
+    if( !(Latt.dims[mu]%4 == 0 && Latt.dims[mu] >=4) ) {
       fprintf( stderr , "Unsuitable lattice dimension hit %zu\n" , Latt.dims[mu] ) ;
       return GLU_FAILURE ;
     }
-- 
2.43.0


From f6fb0578efffaf29dde6dce240fc95e60aa122fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 034/105] fix: the cksum of a second buffer in one process also
 covered the first

---
 src/IO/crc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/IO/crc.c b/src/IO/crc.c
index 3217901..4f13141 100755
--- a/src/IO/crc.c
+++ b/src/IO/crc.c
@@ -251,6 +251,9 @@ CKSUM_GET( INT8 *total_crc , INT8 *total_bytes )
 
   *total_crc = (INT8) crc;
   *total_bytes = the_bytes;
+
+  // what is added from here on belongs to the next sum
+  the_crc = the_bytes = 0 ;
   return ;
 }
 
-- 
2.43.0


From edcdad8876f74656165ff1d7897d82b6a433fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 035/105] fix: spline solver returned real parts of complex
 roots or nothing, and spline minimum lost all accuracy for near-quadratic
 data

---
 src/Utils/GLU_splines.c | 70 ++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/Utils/GLU_splines.c b/src/Utils/GLU_splines.c
index 18d16c6..4fa3973 100755
--- a/src/Utils/GLU_splines.c
+++ b/src/Utils/GLU_splines.c
@@ -260,23 +260,13 @@ cubic_min( const double *__restrict x ,
   const double b = 0.5 * ( -3.0 * a + ( yp_p - yp ) ) ;
   const double c = yp ;
 
-  // solve for y' = 0 :: 3ax^2 + 2bx + c = 0
-  // should I be worried if a and b , or b and c or a and c are around 0? 
-  // probably
+  // solve for y' = 0 :: 3ax^2 + 2bx + c = 0, the positive root is the one
+  // we want, written such that nothing cancels if "a" is around zero
+  const double root = sqrt( fmax( b*b - 3. * a * c , 0.0 ) ) ;
   double ans = 0.0 ;
-  if( fabs( a ) < 1E-15 ) {
-    // edge case #1 a ~= 0, the rest are covered by below except the root
-    ans = -c / ( 2.0 * b ) ;
-  } else if( fabs( b ) < 1E-15 ) {
-    // edge case #2 b ~= 0
-    ans = sqrt( -c / ( 3.0 * a ) ) ;
-  } else if( fabs( c ) < 1E-15 ) {
-    // edge case #3 c ~= 0, non x=0 solution
-    ans = -b / ( 1.5 * a ) ;
-  } else {
-    // should be a little more stable?
-    const double root = fabs(b) * sqrt( 1.0 - 3. * a * c / ( b*b ) ) ;
-    // positive root is the one we want
+  if( b > 0.0 ) {
+    ans = -c / ( b + root ) ;
+  } else if( a != 0.0 ) {
     ans = ( -b + root ) / ( 3.0 * a ) ;
   }
 
@@ -367,6 +357,24 @@ cubic_solve( double complex Z[ 3 ] ,
   return 0.0 ;
 }
 
+// root of a t^3 + b t^2 + c t + d between 0 and "hi", bracketed by the two
+static double
+bisect( const double a ,
+	const double b ,
+	const double c ,
+	const double d ,
+	double hi )
+{
+  double lo = 0.0 ;
+  size_t iters ;
+  for( iters = 0 ; iters < 60 ; iters++ ) {
+    const double t = 0.5 * ( lo + hi ) ;
+    const double f = d + t * ( c + t * ( b + t * a ) ) ;
+    if( ( f < 0.0 ) == ( d < 0.0 ) ) { lo = t ; } else { hi = t ; }
+  }
+  return 0.5 * ( lo + hi ) ;
+}
+
 // form our spline and solve at mu
 double
 solve_spline( const double *__restrict x ,
@@ -388,16 +396,28 @@ solve_spline( const double *__restrict x ,
   const double c = yp ;
   const double d = y[change_up-1] ;
 
-  //return cubic_solve( a , b , c , d , mu ) ;//* diff + x[change_up-1] ;
-  double complex Z[ 3 ] = { 0.0 , 0.0 , 0.0 } ;
-  cubic_solve( Z , a , b , c , d , mu ) ;
+  // if the ends bracket the solution we bisect, the closed form loses all of
+  // its accuracy when the leading coefficients are small
+  const double f0 = d - mu , f1 = y[change_up] - mu ;
+  if( f0 == 0.0 ) return x[change_up-1] ;
+  if( f1 == 0.0 ) return x[change_up] ;
+  if( ( f0 < 0.0 ) != ( f1 < 0.0 ) ) {
+    return bisect( a , b , c , f0 , 1.0 ) * diff + x[change_up-1] ;
+  }
 
-  // should sanity-check the solution here too
-  size_t roots = 0 ;
-  for( roots = 0 ; roots < 3 ; roots++ ) {
-    const double sol = creal( Z[ roots ] ) * diff + x[ change_up - 1 ] ;
-    if( sol < x[ change_up ] && sol > x[ change_up - 1 ] ) {
-      return sol ;
+  // otherwise the spline crosses mu twice or not at all, in the former case
+  // there is an extremum beyond mu between the ends which brackets it
+  const double disc = b*b - 3. * a * c ;
+  if( disc > 0.0 ) {
+    const double q = -( b + sgn( b ) * sqrt( disc ) ) ;
+    const double text[ 2 ] = { a != 0.0 ? q / ( 3. * a ) : -1.0 , 
+			       q != 0.0 ? c / q : -1.0 } ;
+    size_t i ;
+    for( i = 0 ; i < 2 ; i++ ) {
+      const double f = f0 + text[i] * ( c + text[i] * ( b + text[i] * a ) ) ;
+      if( text[i] > 0.0 && text[i] < 1.0 && ( f < 0.0 ) != ( f0 < 0.0 ) ) {
+	return bisect( a , b , c , f0 , text[i] ) * diff + x[change_up-1] ;
+      }
     }
   }
   return -1.0 ;
-- 
2.43.0


From 348000355ee525fbfcc7b3f7710c4a2bf01166fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 036/105] fix: the parallel sum was not compiled under its
 declared name and read beyond short arrays

---
 src/Utils/GLU_sums.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/Utils/GLU_sums.c b/src/Utils/GLU_sums.c
index 379bb83..51d7488 100644
--- a/src/Utils/GLU_sums.c
+++ b/src/Utils/GLU_sums.c
@@ -20,11 +20,7 @@
    @file GLU_sums.c
    @brief round-off resistant summations and averages
  */
-#include <stdlib.h>
-
-#ifdef HAVE_OMP_H
-#include <omp.h>
-#endif
+#include "Mainfile.h"
 
 // divide and conquer summation
 double
@@ -85,25 +81,28 @@ knuth_average_err( double *ave ,
 }
 
 // parallel divide and conquer sum
-#ifdef HAVE_OMP_H
 double
-par_danc_sum( const double *a , 
-	      const size_t N )
+par_dandc_sum( const double *a , 
+	       const size_t N )
 {
   size_t i , Nth = 1 ;
+#if (defined _OPENMP ) && (defined HAVE_OMP_H )
   // open a parallel environment to get number of threads
   #pragma omp parallel
   {
+    #pragma omp single
     Nth = omp_get_num_threads() ;
   }
+#endif
   const size_t split = ( N + Nth - 1 ) / Nth ;
-  register double sum = 0 ;
-  // anything less than the division goes to the last thread
+  double sum = 0 ;
+  // anything less than the division goes to the last thread with work to do
   #pragma omp parallel for private(i) reduction(+:sum)
   for( i = 0 ; i < Nth ; i++ ) {
-    sum = sum + (double)dandc_sum( a , i * split , 
-				   (i+1)*split> N ? N : (i+1)*split ) ;
+    if( i * split < N ) {
+      sum = sum + (double)dandc_sum( a , i * split , 
+				     (i+1)*split> N ? N : (i+1)*split ) ;
+    }
   }
   return sum ;
 }
-#endif
-- 
2.43.0


From db571292f8d03259fa44cbdeeead3f96540ec62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 037/105] fix: SU(2) configurations written in the HiRep format
 could not be read back

---
 src/IO/HIREP.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..dc708aa 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -111,6 +111,28 @@ read_gauge_field( struct site *__restrict lat ,
   return GLU_SUCCESS ; 
 }
 
+// puts a link in the form the reader expects, returns the number of doubles
+static size_t
+pack_link( double *__restrict u ,
+	   const GLU_complex *__restrict O )
+{
+#if NC==2
+  // the four real parameters of the SU(2) matrix
+  u[0] = (double)creal( O[0] ) ;
+  u[1] = (double)cimag( O[1] ) ;
+  u[2] = -(double)creal( O[1] ) ;
+  u[3] = (double)cimag( O[0] ) ;
+  return 2*NC ;
+#else
+  size_t j ;
+  for( j = 0 ; j < NCNC ; j++ ) {
+    u[ 2*j + 0 ] = (double)creal( O[j] ) ;
+    u[ 2*j + 1 ] = (double)cimag( O[j] ) ;
+  }
+  return 2*NCNC ;
+#endif
+}
+
 // writes my gauge field out in the HiRep format 
 void
 write_gauge_field( const struct site *__restrict lat ,
@@ -162,20 +184,12 @@ write_gauge_field( const struct site *__restrict lat ,
   for( i = 0 ; i < LVOLUME ; i++ ) {
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
-    size_t mu , j , a = 0 ;
+    size_t mu , a = 0 ;
     // t first
-    for( j = 0 ; j < mat_stride ; j++ ) {
-      uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
-      uoutd[ a + 1 ] = ( double )cimag( lat[idx].O[ ND - 1 ][ j ] ) ; 
-      a += 2 ;
-    }
+    a += pack_link( uoutd + a , lat[idx].O[ ND - 1 ] ) ;
     // then xyz
     for( mu = 0 ;  mu < ND - 1 ; mu++ ) {
-      for( j = 0 ; j < mat_stride ; j++ ) {
-	uoutd[ a + 0 ] = ( double )creal( lat[idx].O[mu][j] ) ; 
-	uoutd[ a + 1 ] = ( double )cimag( lat[idx].O[mu][j] ) ; 
-	a += 2 ;
-      }
+      a += pack_link( uoutd + a , lat[idx].O[ mu ] ) ;
     } 
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
-- 
2.43.0


From 11b5d1399fb8a4f0450200e62d037341daec8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 038/105] fix: the memory-cheap writer wrote beyond its one
 time slice buffer

---
 src/IO/writers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..6d375d8 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -266,7 +266,7 @@ copy_data( GLU_real *uout ,
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
     // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From 8ced78485867d6d11e41f91e155106c51fa88893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 039/105] fix: NERSC files with sequence number 0 were rejected

---
 src/IO/read_headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index 3105066..b9a399e 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -248,7 +248,7 @@ get_header_data_NERSC( FILE *CONFIG ,
   if( str == NULL ) { str = "(not specified)" ; }
 
   size_t i = get_size_t( "SEQUENCE_NUMBER" , hdr , &Latt.flow ) ; 
-  if( i != 0 || Latt.flow == 0 ) {
+  if( i != 0 ) {
     fprintf( stderr , "[IO] Unknown sequence number.... \n" ) ; 
     return GLU_FAILURE ;
   }
-- 
2.43.0


From 1b9bd9d247fd07e91842a268eca3c74c170b9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 040/105] fix: ILDG files had an ill-formed file record and
 named the field su3gauge for every gauge group

---
 src/IO/Scidac.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 1f7852e..fd51d47 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -317,7 +317,7 @@ write_header_ILDG( FILE *__restrict out )
   sprintf( tmp , "%zu" , Latt.dims[mu] ) ;
   append_char( &str , tmp ) ;
 
-  append_char( &str , "</dims><volfmt>0</volfmt></ScidacFile>" ) ;
+  append_char( &str , "</dims><volfmt>0</volfmt></scidacFile>" ) ;
   // some dummy file
   write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
   free( str ) ;
@@ -364,10 +364,11 @@ write_header_ILDG( FILE *__restrict out )
   // begin with the usual spiel and the versioning ...
   sprintf( ILDG_str , "%s" , ILDG_start ) ;
 #ifdef SINGLE_PREC
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>32</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>32</precision>" , NC ) ;
 #else
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>64</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>64</precision>" , NC ) ;
 #endif
+  append_char( &ILDG_str , tmp ) ;
   // and input the geometry .. I enumerate the extra (>4) dimensions, always leaving t running slowest
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
   const char close[4][6] = { "</lx>" , "</ly>" , "</lz>" , "</lt>" } ;
-- 
2.43.0


From 3d7bd347e6d0beae5cf3e3cef8b24f2b79930e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 041/105] fix: ILDG extents of a fifth dimension had the same
 tag as the temporal one

---
 src/IO/Scidac.c   | 2 +-
 src/IO/XML_info.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index fd51d47..e7313c8 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -373,7 +373,7 @@ write_header_ILDG( FILE *__restrict out )
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
   const char close[4][6] = { "</lx>" , "</ly>" , "</lz>" , "</lt>" } ;
   for( mu = 0 ; mu < ND-1 ; mu++ ) {
-    if( mu < 4 ) {
+    if( mu < 3 ) {
       sprintf( tmp , "%s%zu%s" , open[mu] , Latt.dims[mu] , close[mu] ) ;
       append_char( &ILDG_str , tmp ) ;
     } else {
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 9d4f381..f7755fa 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -96,7 +96,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
   char search[ND][3] ;
   size_t mu ;
   for( mu = 0 ; mu < ND-1 ; mu++ ) {
-    if( mu < 4 ) {
+    if( mu < 3 ) {
       sprintf( search[mu] , "%s" , open[mu] ) ;
     } else {
       sprintf( search[mu] , "l%zu" , mu ) ;
-- 
2.43.0


From 0e3619ebcaafbee4cd701936eaa7f3daad82a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:04 +0000
Subject: [PATCH 042/105] fix: the SciDAC typesize was only right in four
 dimensions

---
 src/IO/Scidac.c   | 6 ++----
 src/IO/XML_info.c | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index e7313c8..ef6e2e0 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -258,8 +258,7 @@ write_header_SCIDAC( FILE *__restrict out )
 #endif
   sprintf( tmp , "<colors>%d</colors><typesize>%d</typesize>"
 	   "<datacount>%d</datacount></scidacRecord>" , 
-	   NC ,  ND * NCNC * 2 * (int)( sizeof( GLU_real )
-					/ sizeof( float ) ) , ND ) ;
+	   NC , NCNC * (int)sizeof( GLU_complex ) , ND ) ;
   append_char( &gstr , tmp ) ;
   write_SCIDAC_binary( out , gstr , strlen( gstr ) , 
 		       "scidac-private-record-xml" ) ;
@@ -342,8 +341,7 @@ write_header_ILDG( FILE *__restrict out )
 #endif
   sprintf( tmp , "<colors>%d</colors><typesize>%d</typesize>"
 	   "<datacount>%d</datacount></scidacRecord>" , 
-	   NC , ND * NCNC * 2 * (int)( sizeof( GLU_real )
-				       / sizeof( float ) ) , ND ) ;
+	   NC , NCNC * (int)sizeof( GLU_complex ) , ND ) ;
   append_char( &gstr , tmp ) ;
   write_SCIDAC_binary( out , gstr , strlen( gstr ) ,
 		       "scidac-private-record-xml" ) ;
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index f7755fa..e91e0eb 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -143,9 +143,9 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
       if( are_equal( pch , "typesize" ) ) {
 	if( ( dimensions = get_int_tag( pch , "typesize" ) ) != 0 ) {
 	  HEAD_DATA -> config_type = OUTPUT_NCxNC ; // binary file output
-	  if( dimensions == 2 * ND * NCNC ) {
+	  if( dimensions == 8 * NCNC ) {
 	    HEAD_DATA -> precision = FLOAT_PREC ;
-	  } else if( dimensions == ( 4 * ND * NCNC ) ) {
+	  } else if( dimensions == ( 16 * NCNC ) ) {
 	    HEAD_DATA -> precision = DOUBLE_PREC ;
 	  } else {
 	    fprintf( stderr , "[IO] Storage type not recognised \n" ) ;
-- 
2.43.0


From 164d2945c54a055fa3244ff4e59240af7bc5a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 043/105] fix: CERN files of large lattices overflowed the
 stack, odd extents corrupted memory and failures ended the program or went
 unnoticed

---
 src/Headers/CERN.h    |  4 ++--
 src/IO/CERN.c         | 33 +++++++++++++++++++++++----------
 src/IO/read_headers.c |  8 ++++++++
 src/IO/writers.c      |  4 ++--
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/Headers/CERN.h b/src/Headers/CERN.h
index 8454322..4e0ea85 100644
--- a/src/Headers/CERN.h
+++ b/src/Headers/CERN.h
@@ -37,12 +37,12 @@ read_CLS_field( struct site *lat ,
 		uint32_t *chksum ) ;
 
 /**
-   @fn void write_CLS_field( const struct site *lat ,  FILE *outfile )
+   @fn int write_CLS_field( const struct site *lat ,  FILE *outfile )
    @param lat :: lattice gauge field
    @param outfile :: string we are writing out to
    @brief write a CERN gauge field
  */
-void
+int
 write_CLS_field( const struct site *lat ,
 		 FILE *outfile ) ;
 
diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 79a46bf..a8ae510 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -46,19 +46,22 @@ read_CLS_field( struct site *__restrict lat ,
   // these guys also seem to save only in double, making things easy
   const size_t stride = 16*NCNC ;
   uint32_t k = 0 ;
-  size_t t ;
-  #pragma omp parallel for private(t)
+  size_t t , failures = 0 ;
+  #pragma omp parallel for private(t) reduction(+:failures)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
 
     // test idea
     FILE *file = fopen( config_in , "rb" ) ;
 
-    double uin[ LCU*8*NCNC ] GLUalign ;
+    double *uin = malloc( LCU*8*NCNC*sizeof( double ) ) ;
     const size_t offset = 4*sizeof(int)+sizeof(double) +( LCU*t )*8*NCNC*sizeof(double) ;
-    fseek( file , offset , SEEK_CUR) ;
-    if( fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
+    if( file == NULL || uin == NULL || fseek( file , offset , SEEK_CUR ) != 0 ||
+	fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
       fprintf( stderr , "File read error .. Leaving \n " ) ;
-      exit(1) ;
+      if( file != NULL ) { fclose( file ) ; }
+      free( uin ) ;
+      failures++ ;
+      continue ;
     }
     
     double *uind = (double*)(uin) ;
@@ -116,7 +119,9 @@ read_CLS_field( struct site *__restrict lat ,
       }
     }
     fclose( file ) ;
+    free( uin ) ;
   }
+  if( failures != 0 ) { return GLU_FAILURE ; }
 
   if( WORDS_BIGENDIAN ) {
     bswap_32( LVOLUME*NCNC*2 , lat ) ;
@@ -127,13 +132,21 @@ read_CLS_field( struct site *__restrict lat ,
 }
 
 // writes my gauge field out in the CERN format 
-void
+int
 write_CLS_field( const struct site *__restrict lat ,
 		 FILE *__restrict outfile )
 {
   if( ND != 4 ) {
     fprintf( stderr , "No known CERN format for Nd != 4\n" ) ;
-    return ;
+    return GLU_FAILURE ;
+  }
+  // the links are those around the odd sites, which needs a checkerboard
+  size_t mu ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ]%2 != 0 ) {
+      fprintf( stderr , "No known CERN format for odd extents\n" ) ;
+      return GLU_FAILURE ;
+    }
   }
   
   const size_t stride = 16*NCNC ; 
@@ -158,7 +171,7 @@ write_CLS_field( const struct site *__restrict lat ,
   // create a copy
   double *uout = NULL ;
   if( GLU_malloc( (void**)&uout , ALIGNMENT, LVOLUME*ND*NCNC*2*sizeof(double) ) != 0 ) {
-    return ;
+    return GLU_FAILURE ;
   }
 
   // the idea is to do all of the translation stuff in parallel and then dump it to a file
@@ -238,5 +251,5 @@ write_CLS_field( const struct site *__restrict lat ,
   
   free( uout ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index b9a399e..6a4f031 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -59,6 +59,14 @@ get_header_data_CERN( FILE *CONFIG ,
   }
   Latt.dims[ mu ] = NAV[0] ;
 
+  // openQCD writes the links around the odd sites of a checkerboard
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ]%2 != 0 ) {
+      fprintf( stderr , "[IO] CERN file type needs even extents\n" ) ;
+      return GLU_FAILURE ;
+    }
+  }
+
   double plaq[1] ;
   if( !fread( plaq , sizeof ( double ) , 1 , CONFIG ) ) {
     printf( "[IO] Cannot understand plaquette details .. Leaving \n" ) ;
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 6d375d8..c819908 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -339,9 +339,9 @@ write_lat( struct site *lat ,
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
     start_timer() ;
-    write_CLS_field( lat , out ) ;
+    const int flag = write_CLS_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return flag ;
   }
   // HIREP stuff is all handled in HIREP.c
   if( type == OUTPUT_HIREP ) {
-- 
2.43.0


From a43a44f1c6736ce84f046b72ae04209cd2431c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 044/105] fix: plaquettes and traces that are not numbers
 passed the integrity checks

---
 src/IO/read_config.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 32a1df3..94b6612 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -58,7 +58,7 @@ check_sums( const double plaq ,
     } else {
       TTOL = PLAQ_AND_TRACE_TOL ;
     }
-    if( fabs( HEAD_DATA.plaquette - plaq ) > TTOL ) {
+    if( !( fabs( HEAD_DATA.plaquette - plaq ) <= TTOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes %e %e \n\n" , 
 	       plaq , HEAD_DATA.plaquette ) ; 
       return GLU_FAILURE ;
@@ -73,7 +73,8 @@ check_sums( const double plaq ,
   case HIREP_HEADER :
   case CERN_HEADER :
     // only check available is the plaquette
-    if( fabs( plaq - HEAD_DATA.plaquette ) > 10*PREC_TOL ) {
+    // written such that values that are not numbers do not pass
+    if( !( fabs( plaq - HEAD_DATA.plaquette ) <= 10*PREC_TOL ) ) {
       fprintf( stderr , "[IO] Config Plaquette Mismatch %e vs %e "
 	       " < diff > %e ... Leaving \n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ;
@@ -87,12 +88,12 @@ check_sums( const double plaq ,
 	       chksum , HEAD_DATA.checksum ) ; 
       error ++ ; 
       // TOL is defined as 10^-6
-    } if( fabs( plaq - HEAD_DATA.plaquette ) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( plaq - HEAD_DATA.plaquette ) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes Calc %f || Read %f " 
 	       " < diff > %e \n\n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ; 
       error ++ ; 
-    } if( fabs( tr - HEAD_DATA.trace) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( tr - HEAD_DATA.trace) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Link_Traces Calc %1.8f || "
 	       "Read %1.8f \n\n" , tr , HEAD_DATA.trace ) ; 
       error ++ ; 
-- 
2.43.0


From 9c0b1b6386c510ca74f04a94bbc447703039e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 045/105] fix: configurations that could not be written were
 reported as written, or ended the program

---
 src/IO/writers.c           |  7 +++++++
 src/Wrappers/GLUlib_wrap.c | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index c819908..bf957b1 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -352,6 +352,13 @@ write_lat( struct site *lat ,
     return GLU_SUCCESS ;
   }
 
+  // there is no short parametrisation for the larger groups
+  if( type == OUTPUT_SMALL && NC > 3 ) {
+    fprintf( stderr , "[IO] %dD_SU%d_GAUGE_SMALL output is not available\n" , 
+	     ND , NC ) ;
+    return GLU_FAILURE ;
+  }
+
   // loop variables
   size_t LOOP_VAR , LATT_LOOP ;
   const GLU_output checktype = \
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index fc10871..a60044e 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -180,9 +180,20 @@ write_configuration( struct site *lat ,
     return GLU_FAILURE ;
   } else {
     FILE *out_config = fopen( outfile , "w" ) ;
-    write_lat( lat , out_config , storage , output_details ) ;
+    if( out_config == NULL ) {
+      fprintf( stderr , "[IO] cannot open %s for writing\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
+    int flag = write_lat( lat , out_config , storage , output_details ) ;
+    // a full disk only shows up here
+    if( ferror( out_config ) != 0 ) { flag = GLU_FAILURE ; }
+    if( fclose( out_config ) != 0 ) { flag = GLU_FAILURE ; }
+    if( flag == GLU_FAILURE ) {
+      fprintf( stderr , "[IO] Configuration could not be written to %s \n" , outfile ) ;
+      remove( outfile ) ;
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-    fclose( out_config ) ;
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 525e51bbafc3c4e4c44ca95293ab620749ad3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 046/105] fix: NERSC headers with overlong, malformed or too
 many lines wrote beyond the tokens

---
 src/IO/chklat_stuff.c | 47 +++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 5305d68..1866f2c 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -57,8 +57,7 @@ get_float( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%f" , q ) ;
-  return GLU_SUCCESS ;
+  return sscanf( p , "%f" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get_int: return value as an int  
@@ -72,8 +71,7 @@ get_int( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%d" , q ) ;
-  return GLU_SUCCESS ;
+  return sscanf( p , "%d" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get a long unsigned int
@@ -87,8 +85,7 @@ get_size_t( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%zu" , q ) ;
-  return GLU_SUCCESS ;
+  return sscanf( p , "%zu" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get_header: read from stream, parsing tokens 
@@ -124,10 +121,12 @@ get_header( FILE *__restrict in )
 
     if( fgets( line , MAX_LINE_LENGTH , in ) == NULL ) {
       fprintf( stderr , "Header reading failed ... Leaving \n" ) ;
-      free( hdr -> token ) ;
-      free( hdr -> value ) ;
-      free( hdr ) ;
-      return NULL ;
+      goto fail ;
+    }
+    // the part of a value that does not fit in the line is not kept
+    if( index( line , '\n' ) == NULL ) {
+      int c ;
+      while( ( c = fgetc( in ) ) != EOF && c != '\n' ) ;
     }
     if( strcmp ( line , "END_HEADER\n" ) == 0 ) {
       break;
@@ -136,6 +135,13 @@ get_header( FILE *__restrict in )
     // Tokens are terminated by a space 
     q = index( line,' ' ) ;
 
+    // lines have to be of the form "TOKEN = VALUE"
+    if( q == NULL || index( q+1 , '=' ) == NULL || n >= MAX_TOKENS ) {
+      fprintf( stderr , "[IO] Nersc Header line not understood "
+	       "or too many of them ... Leaving\n" ) ;
+      goto fail ;
+    }
+
     // Overwrite space with a terminating null 
     *q = '\0';
     len = q - line ;
@@ -148,15 +154,26 @@ get_header( FILE *__restrict in )
     q = index(++q,'=') ;
     q++ ;
 
-    len = strlen( q ) ;
-    q[len-1] = 0;
-    p = malloc( len ) ;
+    // strip the newline, the line might have been too long to have one
+    q[ strcspn( q , "\n" ) ] = '\0' ;
+    p = malloc( strlen( q ) + 1 ) ;
     (*hdr).value[n] = p ;
     strcpy( p , q ) ;
     n++ ;
   }
   (*hdr).ntoken = n ;
   return (hdr) ;
+
+ fail :
+  while( n > 0 ) {
+    n-- ;
+    free( hdr -> token[n] ) ;
+    free( hdr -> value[n] ) ;
+  }
+  free( hdr -> token ) ;
+  free( hdr -> value ) ;
+  free( hdr ) ;
+  return NULL ;
 }
 
 // get_uint32_t: return value as a uint32_t 
@@ -170,10 +187,10 @@ get_uint32_t( char *s ,
   if( p == NULL ) { return GLU_FAILURE ; }
 
 #ifdef INTS_ARE_32BIT
-  sscanf( p , "%x" , q ) ;
+  if( sscanf( p , "%x" , q ) != 1 ) { return GLU_FAILURE ; }
 #else
   uint32_t j ;
-  sscanf( p , "%x" , &j ) ;
+  if( sscanf( p , "%x" , &j ) != 1 ) { return GLU_FAILURE ; }
   *q = (uint32_t) j ;
 #endif
   return GLU_SUCCESS;
-- 
2.43.0


From 79993644bffe908570399261221e0e78d8858ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 047/105] fix: malformed LIME records and their XML overflowed
 buffers, or were taken for read

---
 src/IO/Scidac.c            | 27 +++++++++++++++++++++++----
 src/IO/XML_info.c          |  7 +++++--
 src/Wrappers/GLUlib_wrap.c |  7 ++++++-
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index ef6e2e0..eca86fe 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -22,6 +22,9 @@
  */
 #include "Mainfile.h"
 
+#include <inttypes.h>
+#include <limits.h>
+
 #include "GLU_bswap.h" // for the byteswaps
 #include "GLU_timer.h" // for the date
 #include "str_stuff.h" // append_char()
@@ -95,7 +98,10 @@ parse_SCIDAC_hdr( FILE *infile ,
   const size_t padding = lime_padding( (size_t)i_data_length[0] ) ;
 
   // again, typebuf is uninteresting ...
-  unsigned char *typebuf = (unsigned char*)lime_hdr_rec_type ;
+  // apart from that the file might forget to terminate it
+  char typebuf[ 8*MAX_HDR64 - 16 + 1 ] ;
+  memcpy( typebuf , lime_hdr_rec_type , 8*MAX_HDR64 - 16 ) ;
+  typebuf[ 8*MAX_HDR64 - 16 ] = '\0' ;
   // if we hit the binary data we exit for a binary read, could pass the length
   // of the data but the header has already given us the logical dimensions
   if( strcmp( (const char*)typebuf , "scidac-binary-data" ) == 0 ||
@@ -104,7 +110,13 @@ parse_SCIDAC_hdr( FILE *infile ,
     return GLU_EOF ; // is not end of file, but not error either
   }
   // we should be able to read the remaining data
-  char *io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ;
+  char *io_data = NULL ;
+  if( i_data_length[0] > INT_MAX || 
+      ( io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ) == NULL ) {
+    fprintf( stderr , "[IO] xml record of %" PRIu64 " bytes ... Leaving \n" , 
+	     i_data_length[0] ) ;
+    return GLU_FAILURE ;
+  }
   if( fread( io_data , sizeof( char ) , i_data_length[0] , infile ) != 
       i_data_length[0] ) {
     fprintf( stderr , "[IO] xml information reading failed ... Leaving \n" ) ;
@@ -119,6 +131,7 @@ parse_SCIDAC_hdr( FILE *infile ,
     tmp.plaquette = strtod( io_data , &endptr ) ;
     if( io_data == endptr ) {
       printf( "[IO] BQCD plaquette misread \n" ) ;
+      free( io_data ) ;
       return GLU_FAILURE ;
     }
     *HEAD_DATA = tmp ;
@@ -127,15 +140,21 @@ parse_SCIDAC_hdr( FILE *infile ,
   if( strcmp( (const char*)typebuf , "bqcd-cksum" ) == 0 ) {
     struct head_data tmp = *HEAD_DATA ;
     unsigned long int cksum ;
-    sscanf( io_data , "%lu" , &cksum ) ;
+    if( sscanf( io_data , "%lu" , &cksum ) != 1 ) {
+      printf( "[IO] BQCD checksum misread \n" ) ;
+      free( io_data ) ;
+      return GLU_FAILURE ;
+    }
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
-  parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
+  const int flag = parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
 
   // free for now
   free( io_data ) ;
 
+  if( flag == GLU_FAILURE ) { return GLU_FAILURE ; }
+
   // and skip the file along by "padding" amount
   if( padding > 0 ) {
     char pad_str[ padding ] ;
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index e91e0eb..61ffd11 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -65,7 +65,7 @@ get_prec_tag( char *pch , const char *tag )
   // loop tokens
   while( ( pch = strtok( 0 , "<>" ) ) ) {
     if( !strncmp( pch , tmp , length+1 ) ) break ;
-    sprintf( prec , "%s" , pch ) ;
+    snprintf( prec , sizeof( prec ) , "%s" , pch ) ;
   }
   if( !strcmp( prec , "F" ) ) return FLOAT_PREC ;
   if( !strcmp( prec , "D" ) ) return DOUBLE_PREC ;
@@ -86,7 +86,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
   // We use the C tokenize capabilities to parse this string
   char *pch = strtok( xml_info , "<>" ) ;
   // this is not an error
-  if (strncmp( pch , "?xml" , 4 ) ) {
+  if( pch == NULL || strncmp( pch , "?xml" , 4 ) ) {
     return 0 ;
   }
   int dimensions = 0 ;
@@ -188,9 +188,11 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  Latt.dims[ idx++ ] = strtol( token , &pEnd , 10 ) ;
 	  while( ( token = strtok( NULL , " " ) ) != NULL ) {
 	    if(  ( are_equal( token , "/dims" ) ) ) break ;
+	    if( idx >= ND ) return GLU_FAILURE ;
 	    Latt.dims[ idx ] = strtol( token , &pEnd , 10 ) ;
 	    idx++ ;
 	  } 
+	  if( idx != ND ) return GLU_FAILURE ;
 	  // and break the xml
 	  break;
 	}
@@ -216,6 +218,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
       for( mu = 0 ; mu < ND ; mu++ ) {
 	if( are_equal( pch , search[mu] ) ) {
 	  if( ( length = get_int_tag( pch , search[mu] ) ) != 0 ) {
+	    if( length < 0 ) return GLU_FAILURE ;
 	    Latt.dims[ mu ] = length ;
 	  }
 	  continue ;
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index a60044e..02435f1 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -132,7 +132,12 @@ read_file( struct head_data *HEAD_DATA ,
   // this is taken from the bottom of the file
   if( Latt.head == SCIDAC_HEADER || Latt.head == ILDG_SCIDAC_HEADER ||
       Latt.head == ILDG_BQCD_HEADER ) {
-    get_header_data_SCIDAC( infile , &tmp ) ;
+    if( get_header_data_SCIDAC( infile , &tmp ) == GLU_FAILURE ) {
+      fprintf( stderr , "[IO] Checksum record reading failure\n" ) ;
+      fclose( infile ) ;
+      free_lat( lat ) ;
+      return NULL ;
+    }
   }
 
   // have a look at some available checks
-- 
2.43.0


From 34bbbefdec4e498eae1dd12135bd563ec2df8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:28 +0000
Subject: [PATCH 048/105] fix: configurations whose checksum is 0xffffffff were
 refused, the memory-cheap BQCD checksum was wrong, and headers with absurd
 extents crashed

---
 src/Gfix/Landau.c          |  6 ++++--
 src/Headers/read_config.h  |  5 +++--
 src/Headers/readers.h      | 16 ++++++++++------
 src/IO/read_config.c       | 15 +++++++--------
 src/IO/readers.c           | 36 ++++++++++++++++++++----------------
 src/Wrappers/GLUlib_wrap.c | 34 +++++++++++++++++++++++++---------
 6 files changed, 69 insertions(+), 43 deletions(-)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 53580b0..0089cb1 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -243,15 +243,17 @@ grab_file( struct site *lat ,
 	   const char *infile )
 {
   struct head_data HEAD_DATA ;
+  uint32_t chksum ;
   FILE *config = fopen( infile , "rb" ) ;
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
-      get_config_SUNC( config , lat , HEAD_DATA , infile ) == GLU_FAILURE ) {
+      get_config_SUNC( config , lat , HEAD_DATA , infile , &chksum ) == GLU_FAILURE ) {
     printf( "[IO] binary file read error \n" ) ;
+    if( config != NULL ) { fclose( config ) ; }
     return GLU_FAILURE ;
   } 
   random_transform( lat , gauge ) ; 
-  fclose( config ) ;
+  if( config != NULL ) { fclose( config ) ; }
   // could reperform checksum calculations here ....
   return GLU_SUCCESS ;
 }
diff --git a/src/Headers/read_config.h b/src/Headers/read_config.h
index 4c25046..657e15c 100755
--- a/src/Headers/read_config.h
+++ b/src/Headers/read_config.h
@@ -39,7 +39,7 @@ checks( struct site *__restrict lat ,
 	struct head_data HEAD_DATA ) ;
 
 /**
-   @fn int get_config_SUNC( FILE *__restrict CONFIG , struct site *__restrict lat , const struct head_data HEAD_DATA , const char *config_in )
+   @fn int get_config_SUNC( FILE *__restrict CONFIG , struct site *__restrict lat , const struct head_data HEAD_DATA , const char *config_in , uint32_t *chksum )
    @brief wrapper for reading a configuration
    @param CONFIG :: our configuration file
    @param lat :: the lattice gauge field being read
@@ -51,6 +51,7 @@ int
 get_config_SUNC( FILE *__restrict CONFIG , 
 		 struct site *__restrict lat ,
 		 const struct head_data HEAD_DATA ,
-		 const char *config_in ) ;
+		 const char *config_in ,
+		 uint32_t *chksum ) ;
 
 #endif
diff --git a/src/Headers/readers.h b/src/Headers/readers.h
index 40a53e3..92368f7 100755
--- a/src/Headers/readers.h
+++ b/src/Headers/readers.h
@@ -24,31 +24,35 @@
 #define GLU_READERS_H
 
 /**
-   @fn uint32_t lattice_reader_suNC( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA )
+   @fn int lattice_reader_suNC( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA , uint32_t *chksum )
    @brief reads in a NERSC configuration ...
    @param lat :: lattice gauge field
    @param in :: NERSC configuration being read
    @param HEAD_DATA :: the header data
+   @param chksum :: the checksum of what was read
 
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
-uint32_t
+int
 lattice_reader_suNC( struct site *__restrict lat , 
 		     FILE *__restrict in , 
-		     const struct head_data HEAD_DATA ) ;
+		     const struct head_data HEAD_DATA ,
+		     uint32_t *chksum ) ;
 
 /**
-   @fn uint32_t lattice_reader_suNC_cheaper( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA )
+   @fn int lattice_reader_suNC_cheaper( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA , uint32_t *chksum )
    @brief reads in a NERSC configuration, cheaper and a little slower than the other needed for the Q.
    @param lat :: lattice gauge field
    @param in :: NERSC configuration being read
    @param HEAD_DATA :: the header data
+   @param chksum :: the checksum of what was read
 
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
-uint32_t
+int
 lattice_reader_suNC_cheaper( struct site *__restrict lat , 
 			     FILE *__restrict in , 
-			     const struct head_data HEAD_DATA ) ;
+			     const struct head_data HEAD_DATA ,
+			     uint32_t *chksum ) ;
 
 #endif
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 94b6612..1e5bd2a 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -138,9 +138,10 @@ int
 get_config_SUNC( FILE *__restrict CONFIG , 
 		 struct site *__restrict lat ,
 		 const struct head_data HEAD_DATA ,
-		 const char *config_in )
+		 const char *config_in ,
+		 uint32_t *chksum )
 {
-  uint32_t chksum ;
+  *chksum = 0 ;
   switch( Latt.head ) {
   case LIME_HEADER : // is the same but doesn't care about the checksums
   case ILDG_BQCD_HEADER : // basically all the same NERSC NCxNC
@@ -154,17 +155,15 @@ get_config_SUNC( FILE *__restrict CONFIG ,
 	HEAD_DATA.config_type == OUTPUT_NCxNC ) {
       const int SAFETY = have_memory_readers_writers( HEAD_DATA.config_type ) ;
       if( SAFETY != FAST ) {
-	return lattice_reader_suNC_cheaper( lat , CONFIG , HEAD_DATA ) ;
+	return lattice_reader_suNC_cheaper( lat , CONFIG , HEAD_DATA , chksum ) ;
       } else {
-	return lattice_reader_suNC( lat , CONFIG , HEAD_DATA ) ;
+	return lattice_reader_suNC( lat , CONFIG , HEAD_DATA , chksum ) ;
       }
     } break ;
   case HIREP_HEADER : // HIREP uses a weird geometry compared to everyone else
-    read_gauge_field( lat , CONFIG , &chksum ) ;
-    return chksum ;
+    return read_gauge_field( lat , CONFIG , chksum ) ;
   case CERN_HEADER :
-    read_CLS_field( lat , config_in , &chksum ) ;
-    return chksum ;
+    return read_CLS_field( lat , config_in , chksum ) ;
   case RANDOM_CONFIG :
     random_suNC( lat ) ;
     return GLU_SUCCESS ;
diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..317fc08 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -85,6 +85,8 @@ construct_loop_variables( size_t *LATT_LOOP ,
   // dump it all in memory...
   switch( type ) {
   case OUTPUT_SMALL :
+    // there is no parametrisation for the larger groups
+    if( NC > 3 ) { return GLU_FAILURE ; }
     *LATT_LOOP = ND * LOOP_SMALL * Latt.Volume ;
     *LOOP_VAR = LOOP_SMALL ;
     return GLU_SUCCESS ;
@@ -160,10 +162,11 @@ rebuild_lat( GLU_complex *__restrict link ,
 }
 
 //////////// MEMSPENSIVE VERSION ///////////////
-uint32_t
+int
 lattice_reader_suNC( struct site *lat , 
 		     FILE *__restrict in , 
-		     const struct head_data HEAD_DATA )
+		     const struct head_data HEAD_DATA ,
+		     uint32_t *chksum )
 {
   // this is checked previously, nice to be certain though
   if( in == NULL ) {
@@ -185,7 +188,7 @@ lattice_reader_suNC( struct site *lat ,
 
   if( HEAD_DATA.precision == DOUBLE_PREC ) {
     uind = ( double* )malloc( LATT_LOOP * sizeof( double ) ) ; 
-    if( fread( uind , sizeof( double ) , LATT_LOOP , in ) != LATT_LOOP ) {
+    if( uind == NULL || fread( uind , sizeof( double ) , LATT_LOOP , in ) != LATT_LOOP ) {
       fprintf( stderr , "[IO] Configuration File reading failure "
 	       ".. Leaving \n" ) ;
       free( uind ) ;
@@ -213,8 +216,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
@@ -226,7 +229,7 @@ lattice_reader_suNC( struct site *lat ,
     p = uind ; 
   } else {
     uin = ( float* )malloc( LATT_LOOP * sizeof( float ) ) ; 
-    if( fread( uin , sizeof( float ) , LATT_LOOP  , in ) != LATT_LOOP ) {
+    if( uin == NULL || fread( uin , sizeof( float ) , LATT_LOOP  , in ) != LATT_LOOP ) {
       fprintf( stderr , "[IO] Configuration File reading failure "
 	       ".. Leaving \n" ) ;
       free( uin ) ;
@@ -336,11 +339,11 @@ lattice_reader_suNC( struct site *lat ,
 
   // if we are reading a MILC file we output the sum29 checksum
   switch( Latt.head ) {
-  case NERSC_HEADER : return k ;
-  case MILC_HEADER : return sum29 ;
+  case NERSC_HEADER : *chksum = k ; return GLU_SUCCESS ;
+  case MILC_HEADER : *chksum = sum29 ; return GLU_SUCCESS ;
   case ILDG_SCIDAC_HEADER :
-  case SCIDAC_HEADER : return CRCsum29 ;
-  case ILDG_BQCD_HEADER : return CRC_BQCD ;
+  case SCIDAC_HEADER : *chksum = CRCsum29 ; return GLU_SUCCESS ;
+  case ILDG_BQCD_HEADER : *chksum = CRC_BQCD ; return GLU_SUCCESS ;
   case LIME_HEADER : return GLU_SUCCESS ;
   case JLQCD_HEADER : return GLU_SUCCESS ;
   default : return GLU_FAILURE ; // should print an error here
@@ -348,10 +351,11 @@ lattice_reader_suNC( struct site *lat ,
 }
 
 // MEMCHEAP READER
-uint32_t
+int
 lattice_reader_suNC_cheaper( struct site *lat , 
 			     FILE *__restrict in , 
-			     const struct head_data HEAD_DATA )
+			     const struct head_data HEAD_DATA ,
+			     uint32_t *chksum )
 {
   // this is checked previously, nice to be certain though
   if( in == NULL ) {
@@ -479,11 +483,11 @@ lattice_reader_suNC_cheaper( struct site *lat ,
 
   // if we are reading a MILC file we output the sum29 checksum
   switch( Latt.head ) {
-  case NERSC_HEADER : return k ;
-  case MILC_HEADER : return sum29 ;
+  case NERSC_HEADER : *chksum = k ; return GLU_SUCCESS ;
+  case MILC_HEADER : *chksum = sum29 ; return GLU_SUCCESS ;
   case ILDG_SCIDAC_HEADER :
-  case SCIDAC_HEADER : return CRCsum29 ;
-  case ILDG_BQCD_HEADER : return CRC_BQCD ;
+  case SCIDAC_HEADER : *chksum = CRCsum29 ; return GLU_SUCCESS ;
+  case ILDG_BQCD_HEADER : *chksum = CRC_BQCD ; return GLU_SUCCESS ;
   case LIME_HEADER : return GLU_SUCCESS ;
   case JLQCD_HEADER : return GLU_SUCCESS ;
   default : return GLU_FAILURE ; // should print an error here
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 02435f1..c87017b 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -22,11 +22,14 @@
  */
 #include "Mainfile.h"
 
+#include <limits.h>
+
 #include "CUT_wrap.h"       // wrap the cutting operations
 #include "GLU_memcheck.h"   // basic memory checking
 #include "GF_wrap.h"        // wrap the gauge fixing
 #include "givens.h"         // allocating the su2 submatrices
 #include "par_rng.h"        // initialise_par_rng()
+#include "GLU_malloc.h"     // free_lat()
 #include "init.h"           // init_latt()
 #include "KPHB.h"           // pseudo-heatbath updates
 #include "OBS_wrap.h"       // standard observable calculations (default)
@@ -89,19 +92,30 @@ read_file( struct head_data *HEAD_DATA ,
   fprintf( stdout , "[IO] reading file %s\n" , config_in ) ;
  
   // initialise the configuration number to zero
-  struct head_data tmp ;
+  struct head_data tmp = { 0 } ;
   if( read_header( infile , &tmp , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[IO] Header reading failure\n" ) ;
-    fclose( infile ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   } 
 
+  // the extents could be anything at this point
+  size_t mu , vol = 1 ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[mu] < 1 || Latt.dims[mu] > INT_MAX/vol ) {
+      fprintf( stderr , "[IO] Lattice extents not supported\n" ) ;
+      if( infile != NULL ) { fclose( infile ) ; }
+      return NULL ;
+    }
+    vol *= Latt.dims[mu] ;
+  }
+
   // initialise geometry so that we can use LVOLUME and stuff
   init_latt( ) ;
 
   // check for having enough memory for the gauge field
   if( have_memory_gauge( ) == GLU_FAILURE ) {
-    fclose( infile ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   }
 
@@ -109,6 +123,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct site *lat = NULL ;
   if( ( lat = allocate_lat( ) ) == NULL ) {
     fprintf( stderr , "[IO] Gauge field allocation failure\n" ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   }
 
@@ -118,13 +133,14 @@ read_file( struct head_data *HEAD_DATA ,
 
   start_timer() ;
   fprintf( stdout , "[IO] Read gauge field\n" ) ; 
-  const int check = get_config_SUNC( infile , lat , tmp , config_in ) ;
+  uint32_t chksum = 0 ;
+  const int check = get_config_SUNC( infile , lat , tmp , config_in , &chksum ) ;
   print_time() ;
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
     fprintf( stderr , "[IO] File read error ... Leaving \n" ) ;
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
+    free_lat( lat ) ;
     return NULL ;
   }
 
@@ -141,9 +157,9 @@ read_file( struct head_data *HEAD_DATA ,
   }
 
   // have a look at some available checks
-  if( checks( lat , check , tmp ) == GLU_FAILURE ) { 
-    fclose( infile ) ;
-    free( lat ) ;
+  if( checks( lat , chksum , tmp ) == GLU_FAILURE ) { 
+    if( infile != NULL ) { fclose( infile ) ; }
+    free_lat( lat ) ;
     return NULL ; 
   }
 
-- 
2.43.0


From 9dc583d3c1ec6467c84cd6adacb0ce3e337d31c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 049/105] fix: the MWC_4096 generator used one of its 4096
 entries, consecutive numbers lay on a few thousand lines

---
 src/Utils/par_MWC_4096.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index ae207fc..25c123e 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -32,7 +32,6 @@ static uint32_t *mcwc_i ; // index
 static uint32_t
 par_MWC_4096( const uint32_t thread )
 {
-  mcwc_i[thread] = 4095 ;
   mcwc_i[thread] = ( mcwc_i[thread]+1 )&4095 ;
 
   const uint64_t t = 18782LL*table[thread][mcwc_i[thread]] + carry[thread] ;
-- 
2.43.0


From 91f0bd6c7982722f9261069f8fcc82db80f1d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 050/105] fix: the MWC_1038 generator used its entries out of
 turn and restarted from a fixed one

---
 src/Utils/par_MWC_1038.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Utils/par_MWC_1038.c b/src/Utils/par_MWC_1038.c
index 9bddb7d..b5eb648 100644
--- a/src/Utils/par_MWC_1038.c
+++ b/src/Utils/par_MWC_1038.c
@@ -35,11 +35,11 @@ MWC_1038( const uint32_t thread )
 {
   const uint64_t t = ( 611373678ULL * table[ thread ][ mcwc_i[ thread ] ] ) + carry[ thread ] ; 
   carry[ thread ] = ( t >> 32 ) ;
-  if( --mcwc_i[ thread ] ) {
-    return ( table[ thread ][ mcwc_i[ thread ] ] = t ) ;
-  }
-  mcwc_i[ thread ] = RNG_TABLE - 1 ;
-  return ( table[ thread ][ 0 ] = t ) ;
+  // overwrite the entry we used, it is needed again after a full turn
+  const uint32_t x = table[ thread ][ mcwc_i[ thread ] ] = t ;
+  mcwc_i[ thread ] = mcwc_i[ thread ] == 0 ? 
+    RNG_TABLE - 1 : mcwc_i[ thread ] - 1 ;
+  return x ;
 }
 
 // free the table
-- 
2.43.0


From 0dbcfe7b1f1076912d7f294f31f3dbf32f272296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 051/105] fix: saved states of the KISS generator were read in
 the wrong byte order

---
 src/Utils/par_KISS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 6f97899..4688200 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -103,6 +103,10 @@ read_par_KISS_table( FILE *rng_file )
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
     }
+    // swap them if we aren't big endian
+    if( !WORDS_BIGENDIAN ) { 
+      bswap_32( RNG_TABLE , table[i] ) ; 
+    }
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From a3d98db07482e702e0d15dea27fc53e2a5f24896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 052/105] fix: a build with the GSL generator ran the MWC_4096
 one with a table of one entry

---
 src/Headers/GLU_definitions.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Headers/GLU_definitions.h b/src/Headers/GLU_definitions.h
index 9317445..597cd86 100755
--- a/src/Headers/GLU_definitions.h
+++ b/src/Headers/GLU_definitions.h
@@ -686,10 +686,7 @@ Defines for the gauge fixing routines ( Landau/{}.c )
    @warning defaults to the WELL_RNG
  */
 // Default to the MWC_4096 RNG if gsl is specified but no header found
-#if ( defined GSL_RNG ) && ( defined HAVE_GSL )  
-  #include <gsl/gsl_rng.h>
-  #define RNG_TABLE 1
-#elif defined KISS_RNG
+#if defined KISS_RNG
   #define RNG_TABLE 5
 #elif defined MWC_1038_RNG
   #define RNG_TABLE 1038
-- 
2.43.0


From 8eba28881171344668efc159c7949169f438da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 053/105] fix: a saved generator state was ignored by an
 initialised generator and reset by the next initialisation, and an unwritable
 state file crashed

---
 src/Utils/par_rng.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 0b28899..e8aeebe 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -42,6 +42,11 @@ static GLU_bool RNG_inited = GLU_FALSE ;
 int
 initialise_par_rng( const char *rng_file ) 
 {
+  // a saved state replaces whatever we had
+  if( rng_file != NULL ) {
+    free_par_rng( ) ;
+  }
+
   if( RNG_inited == GLU_FALSE ) {
 
     // tell us our rng
@@ -123,7 +128,9 @@ initialise_par_rng( const char *rng_file )
       // free the seeds
       free( Seeds ) ;
     } else {
-      return read_par_rng_state( rng_file ) ;
+      if( read_par_rng_state( rng_file ) == GLU_FAILURE ) {
+	return GLU_FAILURE ;
+      }
     }
     RNG_inited = GLU_TRUE ;
   }
@@ -234,6 +241,7 @@ read_par_rng_state( const char *infile )
   
   if( ( hdr = get_header( in ) ) == NULL ) {
     fprintf( stderr , "[PAR_RNG] Unable to read state header\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
@@ -241,66 +249,81 @@ read_par_rng_state( const char *infile )
   size_t Nthreads ;
   if( get_size_t( "NTHREADS" , hdr , &Nthreads ) == GLU_FAILURE ) {
     fprintf( stderr , "[PAR_RNG] NTHREADS not found in header\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( Nthreads != (size_t)Latt.Nthreads ) {
     fprintf( stderr , "[PAR_RNG] RNG Nthreads (%zu) not the same as "
 	     "Latt.Nthreads (%u)\n" , Nthreads , Latt.Nthreads ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
   // figure out what RNG we are using and make sure it is consistent
   if( get_string( "RNG" , hdr , &str ) == GLU_FAILURE ) {
     fprintf( stderr , "[PAR_RNG] RNG type not found" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
 #if (defined KISS_RNG)
   if( strcmp(  " PAR_KISS" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (KISS) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_KISS_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined MWC_4096_RNG)
   if( strcmp(  " PAR_MWC_4096" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_4096) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_MWC_4096_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined XOR_1024_RNG)
   if( strcmp(  " PAR_XOR_1024" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (XOR_1024) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_XOR_1024_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined MWC_1038_RNG)
   if( strcmp(  " PAR_MWC_1038" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_1038) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_MWC_1038_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined WELL_512_RNG)
   if( strcmp(  " PAR_WELL_512" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (WELL_512) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_WELL_512_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #else
   if( strcmp(  " PAR_MWC_4096" , str ) ) {
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_4096) RNG\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
   if( read_par_MWC_4096_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #endif
@@ -316,6 +339,11 @@ write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
 
+  if( out == NULL ) {
+    fprintf( stderr , "[PAR_RNG] cannot open %s for writing\n" , outfile ) ;
+    return ;
+  }
+
   // write out in a NERSC-like header so I can reuse that code
   fprintf( out , "BEGIN_HEADER\n" ) ;
   // write out number of threads
-- 
2.43.0


From c4d9074e30abe008825f183f64e2f183e9abd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 054/105] fix: heat-bath trajectories were written to the root
 of the file system, or crashed, when the path of the configuration had a dot
 in it

---
 src/Update/KPHB.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b73b185..38cdbc3 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -127,9 +127,14 @@ hb_update( struct site *lat ,
 	   const GLU_output storage , 
 	   const char *output_details )
 {
-  // strip the number in the infile if it has one
-  char *pch = strtok( (char*)traj_name , "." ) ;
-  char str[ strlen(pch)+6+sizeof(size_t) ] ;
+  // strip the number in the infile if it has one, dots in the path to it stay
+  const char *slash = strrchr( traj_name , '/' ) ;
+  const char *file  = ( slash == NULL ) ? traj_name : slash + 1 ;
+  const size_t length = ( file - traj_name ) + strcspn( file , "." ) ;
+  char pch[ length + 1 ] ;
+  memcpy( pch , traj_name , length ) ;
+  pch[ length ] = '\0' ;
+  char str[ length + 32 ] ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
   if( HBINFO.continuation == GLU_FALSE ) {
-- 
2.43.0


From b05c3de2b2a2d51718771b03acfcf4bddb614901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 055/105] fix: a configuration saved during the heat bath could
 carry the trajectory number of the one before

---
 src/Update/KPHB.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 38cdbc3..0b899b4 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -236,7 +236,8 @@ hb_update( struct site *lat ,
       // perform a hb-OR step
       update_lattice( lat , inverse_beta , db , HBINFO.Nor ) ;
 
-      #pragma omp master
+      // every thread has to see this before a configuration can be saved
+      #pragma omp single
       {
 	Latt.flow = i + 1 ; 
       }
-- 
2.43.0


From 321b59632a7f08a012ea417246bb702e88ff21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:10 +0000
Subject: [PATCH 056/105] fix: heat-bath updates at strong coupling were not
 Boltzmann distributed and vanishing staples gave links that are not numbers

---
 src/Update/hb.c    | 28 ++++++++++++++++------------
 src/Update/relax.c |  2 ++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/Update/hb.c b/src/Update/hb.c
index 7336315..4c85636 100644
--- a/src/Update/hb.c
+++ b/src/Update/hb.c
@@ -43,6 +43,9 @@ a    GLU is distributed in the hope that it will be useful,
 // maximum number of heatbath updates
 #define NHBMAX (42)
 
+// above this (inverse) weight the acceptance of KP drops to nothing
+#define KPMAX (1.0)
+
 // Tony and Brian's algorithm is better - sorry LatticeGuy!
 #define USE_KP
 
@@ -58,8 +61,9 @@ KP( double *__restrict d ,
   *d = -( log( par_rng_dbl( thread ) ) + log( par_rng_dbl( thread ) ) * x3*x3 ) * NORM ;
   return ( 1. - 0.5*(*d) ) < x4*x4 ;
 }
-#else
-// Creutz heatbath algorithm
+#endif
+
+// Creutz heatbath algorithm, xl is exp( -2/NORM ) - 1
 static int
 Creutz( double *__restrict d ,
 	const double xl ,
@@ -68,11 +72,10 @@ Creutz( double *__restrict d ,
 {
   register const double x4 = par_rng_dbl( thread ) ;
   register const double a0 = 1.0 + \
-    log( xl + ( 1.0 - xl ) * par_rng_dbl( thread ) ) * NORM ;
+    log1p( xl * par_rng_dbl( thread ) ) * NORM ;
   *d = 1.0 - a0 ;
   return ( 1.0 - a0*a0 ) < x4*x4 ;
 }
-#endif
 
 // generate SU(2) matrix proportional to boltzmann weight
 static int
@@ -86,21 +89,19 @@ generate_SU2( GLU_complex *s0 ,
 
   // compute d which is (1-a0) = the leftmost su2 matrix element
 #ifdef USE_KP
-  if( KP( &d ,  NORM , thread ) ) {
-    // redo the algorithm
+  if( NORM <= KPMAX ) {
+    // redo the algorithm until it accepts
     while( KP( &d , NORM , thread ) && iters < NHBMAX ) {
       iters++ ;
     }
-  }
-#else
-  const double xl = exp( -2./NORM ) ; 
-  if( Creutz( &d , xl , NORM , thread ) ) {
-    // redo the algorithm
+  } else
+#endif
+  {
+    const double xl = expm1( -2./NORM ) ; 
     while( Creutz( &d , xl , NORM , thread ) && iters < NHBMAX ) {
       iters++ ;
     }
   }
-#endif
   
   // generate SU(2) matrix
   const double a0  = 1.0 - d ;
@@ -145,6 +146,8 @@ hb( GLU_complex U[ NCNC ] ,
     const size_t stoch = i ;
     #endif
     only_subgroup( &s0 , &s1 , &scale , U , staple , stoch ) ;
+    // staples that cancel have no direction, and every rotation has equal weight
+    if( !( scale < 1E100 ) ) { s0 = 1.0 ; s1 = 0.0 ; scale = 1E100 ; }
     generate_SU2( &s0 , &s1 , invbeta*scale , thread ) ;
     su2_rotate( U , s0 , s1 , stoch ) ;
   }
@@ -194,3 +197,4 @@ hb_lattice( struct site *lat ,
 }
 
 #undef NHBMAX
+#undef KPMAX
diff --git a/src/Update/relax.c b/src/Update/relax.c
index 5f59ac8..08d802d 100644
--- a/src/Update/relax.c
+++ b/src/Update/relax.c
@@ -65,6 +65,8 @@ overrelax( GLU_complex U[ NCNC ] ,
     if( par_rng_dbl( thread ) < 0.5 ) continue ;
     #endif
     only_subgroup( &s0 , &s1 , &scale , U , staple , stoch ) ;
+    // staples that cancel have no direction to reflect about
+    if( !( scale < 1E100 ) ) continue ;
     microcanonical( &s0 , &s1 ) ;
     su2_rotate( U , s0 , s1 , stoch ) ;
   }
-- 
2.43.0


From 05e819445cd9b99abc533fd7ea7c323cb91ca000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 057/105] fix: for NC = 2 and NC > 3 gauge fixing left the
 diagonal of the derivative out of its norm, Coulomb gauge stopped too early
 and diagonal fields gave links that are not numbers

---
 src/Gfix/CFACG.c | 10 +++++-----
 src/Gfix/FACG.c  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index b87add8..5f5548c 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -185,7 +185,7 @@ sum_DER2( double *red ,
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      temp[mu] = -I * in[mu][i] ;
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
@@ -232,8 +232,8 @@ sum_PR( double *red ,
     GLU_complex temp1[ HERMSIZE ] , temp2[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp1[mu] = in[mu][i] ;
-      temp2[mu] = in[mu][i] - in_old[mu][i] ;
+      temp1[mu] = -I * in[mu][i] ;
+      temp2[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     GLU_real tr1 , tr2 ;
     trace_ab_herm_short( &tr1 , temp1 , temp1 ) ;
@@ -348,10 +348,10 @@ steep_step_FACG( GLU_complex **gauge ,
   *tr = insum * GFNORM_COULOMB ;
   
   // compute the beta value, who knows what value is best?
-  double beta = PRfmax( 0.0 , sum_conj / inold ) ;
+  double beta = inold > 0.0 ? PRfmax( 0.0 , sum_conj / inold ) : 0.0 ;
   // switch to the fletcher reeves
   if( *tr < CG_TOL ) {
-    beta = insum / inold ;
+    beta = inold > 0.0 ? insum / inold : 0.0 ;
   }
   inold = insum ;
   
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 41d0c2c..480ed8f 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -131,8 +131,8 @@ sum_PR3( double *red ,
     GLU_complex a[ HERMSIZE ] GLUalign = {} , b[ HERMSIZE ] GLUalign = {} ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      a[mu] = in[mu][i] ;
-      b[mu] = in[mu][i] - in_old[mu][i];
+      a[mu] = -I * in[mu][i] ;
+      b[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     trace_ab_herm_short( &loc_sum1 , a , a ) ;
     trace_ab_herm_short( &loc_sum2 , a , b ) ;
@@ -165,7 +165,7 @@ sum_DER3( double *red ,
     GLU_complex temp[ HERMSIZE ] GLUalign ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      temp[mu] = -I * in[mu][i] ;
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
@@ -304,11 +304,11 @@ steep_Landau_FACG( struct site *lat ,
   }
       
   // compute the beta value, who knows what value is best?
-  double beta = PRfmax( 0.0 , ( sum_conj ) / inold ) ;
+  double beta = inold > 0.0 ? PRfmax( 0.0 , ( sum_conj ) / inold ) : 0.0 ;
   
   // switch to the fletcher reeves
   if( *tr < CG_TOL ) {
-    beta = insum / inold ;
+    beta = inold > 0.0 ? insum / inold : 0.0 ;
   }
   inold = insum ;
   
-- 
2.43.0


From bacd5b787b08d9e45eb9ac35ed79897ad6fe0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:04 +0000
Subject: [PATCH 058/105] fix: steepest-descent Landau fixing reported failures
 as convergence, gauge fixing that ended in values that are not numbers
 counted as converged, and failures to reread the file or to find a gauge copy
 went unnoticed

---
 src/Gfix/CFACG.c  |  6 +++++-
 src/Gfix/FACG.c   | 29 ++++++++++++++++++-----------
 src/Gfix/Landau.c | 24 ++++++++++++++++++++----
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 5f5548c..8c52dfd 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -498,10 +498,14 @@ steep_fix( GLU_complex **gauge ,
 	tot_iters += loc_iters ;
 	goto top ;
       }
-      if( tr > accuracy || isnan( tr ) || isinf( tr ) ) {
+      if( tr > accuracy ) {
 	trans_flag = GLU_TRUE ;
       }
     }
+    // and if the solution has blown up
+    if( isnan( tr ) || isinf( tr ) ) {
+      trans_flag = GLU_TRUE ;
+    }
 
     // random gauge transformation
     if( ( control < 8 ) && ( trans_flag == GLU_TRUE ) ) {
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 480ed8f..d1543a3 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -367,10 +367,11 @@ FACG( struct site *lat ,
 
     #pragma omp master
     {
-      iters = loc_iters ;
+      iters += loc_iters ;
     }
     
-    if( loc_iters >= max_iters ) {
+    // a theta that is not a number is a failure too
+    if( loc_iters >= max_iters || !( *th <= acc ) ) {
       if( ( *th < 1E3*acc ) ) {
 	#pragma omp master
 	{
@@ -378,7 +379,10 @@ FACG( struct site *lat ,
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	#pragma omp master
+	{
+	  iters = 123456789 ;
+	}
       }
     }
   }
@@ -419,23 +423,26 @@ FASD( struct site *lat ,
     loc_iters = steep_Landau_FASD( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
     
-    if( loc_iters >= max_iters ) {
+    #pragma omp master
+    {
+      iters += loc_iters ;
+    }
+
+    // a theta that is not a number is a failure too
+    if( loc_iters >= max_iters || !( *th <= acc ) ) {
       if( ( *th < 1E3*acc ) ) {
-	loc_iters = 0 ;
 	#pragma omp master
 	{
-	  iters += loc_iters ;
 	  fprintf( stdout , "[GF] Continuation run \n" ) ;
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	#pragma omp master
+	{
+	  iters = 123456789 ;
+	}
       }
     }
-#pragma omp master
-    {
-      iters += loc_iters ;
-    }
   }
 
  end :
diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 0089cb1..53a9e45 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -123,6 +123,14 @@ luxury_copy_fast( struct site *lat ,
 #else
   double maxlink = 0.0 , newlink ;
 #endif
+  // keep what we have if none of the copies is accepted
+#pragma omp parallel for private(i)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( lat_best[i].O[mu] , lat[i].O[mu] ) ;
+    }
+  }
   // loop over the number of gauge copies !
   for( copies = 0 ; copies < LUXURY_GAUGE ; copies++ ) {
     
@@ -185,9 +193,9 @@ luxury_copy_fast( struct site *lat ,
   
   // final convergence run god I hope this one doesn't fail! Pretty unlikely
   #ifdef GLU_GFIX_SD
-  iters += FASD( lat , FFTW , tr , acc , max_iters ) ; 
+  iters = FASD( lat , FFTW , tr , acc , max_iters ) ; 
   #else
-  iters += FACG( lat , FFTW , tr , acc , max_iters ) ; 
+  iters = FACG( lat , FFTW , tr , acc , max_iters ) ; 
   #endif
   
   printf( "FINISHED\n" ) ;
@@ -244,7 +252,11 @@ grab_file( struct site *lat ,
 {
   struct head_data HEAD_DATA ;
   uint32_t chksum ;
-  FILE *config = fopen( infile , "rb" ) ;
+  FILE *config = infile == NULL ? NULL : fopen( infile , "rb" ) ;
+  if( config == NULL ) {
+    printf( "[IO] could not open the configuration again \n" ) ;
+    return GLU_FAILURE ;
+  }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
       get_config_SUNC( config , lat , HEAD_DATA , infile , &chksum ) == GLU_FAILURE ) {
@@ -320,11 +332,15 @@ Landau( struct site *lat ,
 
     print_failure_info( failure , max_iter , theta ) ;
     
+    // count the iterations of the failed attempt
+    iters = max_iter ;
+
     size_t iters_loc = 0 ;
     for( failure = 1 ; failure < GF_GLU_FAILURES ; failure++ ) {
       //repeat procedure have to read in the file :( 
       if( grab_file( lat , gauge , infile ) == GLU_FAILURE ) { 
 	printf( "[IO] Something funky happened when trying to read in config again!\n" ) ;
+	failure = GF_GLU_FAILURES ;
 	goto MemFree ; 
       }
       // and the callback
@@ -336,7 +352,7 @@ Landau( struct site *lat ,
 	break ;
       } else {// print information about the last failure
 	iters += max_iter ;	
-	print_failure_info( failure , iters_loc , theta ) ;
+	print_failure_info( failure , max_iter , theta ) ;
       }
     }
   }
-- 
2.43.0


From c6457bfbab24e5933f553fec6dc51bf8275af788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 059/105] fix: the line search of the gauge fixing returned
 maxima, and conjugate directions that were of no use grew until the links
 were not numbers

---
 src/Gfix/CFACG.c          |  6 ++++--
 src/Gfix/FACG.c           |  6 ++++--
 src/Gfix/line_search.c    | 39 +++++++++++++++++++++++++++------------
 src/Headers/line_search.h | 10 ++++++----
 4 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 8c52dfd..1fff9c3 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -296,6 +296,8 @@ steep_step_FACG( GLU_complex **gauge ,
   // loop a set number of CG-iterations
   size_t k , i , loc_iters = 0 ;
   double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 ;
+  // start again from the steepest descent if the last direction was of no use
+  GLU_bool descent = GLU_TRUE ;
   
   // set everything to zero
   #pragma omp for private(k)
@@ -348,7 +350,7 @@ steep_step_FACG( GLU_complex **gauge ,
   *tr = insum * GFNORM_COULOMB ;
   
   // compute the beta value, who knows what value is best?
-  double beta = inold > 0.0 ? PRfmax( 0.0 , sum_conj / inold ) : 0.0 ;
+  double beta = ( inold > 0.0 && descent == GLU_TRUE ) ? PRfmax( 0.0 , sum_conj / inold ) : 0.0 ;
   // switch to the fletcher reeves
   if( *tr < CG_TOL ) {
     beta = inold > 0.0 ? insum / inold : 0.0 ;
@@ -366,7 +368,7 @@ steep_step_FACG( GLU_complex **gauge ,
   }
 
   if( *tr > CG_TOL) {
-    line_search_Coulomb( CG.red , gauge , CG.db , lat ,
+    descent = line_search_Coulomb( CG.red , gauge , CG.db , lat ,
 			 (const GLU_complex**)CG.sn , t ) ;
   } else {
     exponentiate_gauge_CG( gauge ,
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index d1543a3..8975d97 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -244,6 +244,8 @@ steep_Landau_FACG( struct site *lat ,
 {  
   size_t k , loc_iters = 0  ;
   double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 ;
+  // start again from the steepest descent if the last direction was of no use
+  GLU_bool descent = GLU_TRUE ;
     
   // perform an SD start
   steep_Landau_FA( CG -> red , lat , FFTW ) ;
@@ -304,7 +306,7 @@ steep_Landau_FACG( struct site *lat ,
   }
       
   // compute the beta value, who knows what value is best?
-  double beta = inold > 0.0 ? PRfmax( 0.0 , ( sum_conj ) / inold ) : 0.0 ;
+  double beta = ( inold > 0.0 && descent == GLU_TRUE ) ? PRfmax( 0.0 , ( sum_conj ) / inold ) : 0.0 ;
   
   // switch to the fletcher reeves
   if( *tr < CG_TOL ) {
@@ -323,7 +325,7 @@ steep_Landau_FACG( struct site *lat ,
   }
 
   if( *tr > CG_TOL ) {
-    line_search_Landau( CG -> red , lat , (const GLU_complex**)CG -> sn ) ;
+    descent = line_search_Landau( CG -> red , lat , (const GLU_complex**)CG -> sn ) ;
   } else {
     egauge_Landau( lat , (const GLU_complex**)CG -> sn , Latt.gf_alpha ) ;
   }
diff --git a/src/Gfix/line_search.c b/src/Gfix/line_search.c
index 7d7c17c..36f5c42 100644
--- a/src/Gfix/line_search.c
+++ b/src/Gfix/line_search.c
@@ -45,6 +45,11 @@ approx_minimum( const size_t nmeas ,
   const double B = functional[1]/((alphas[1]-alphas[0])*(alphas[1]-alphas[2])) ;
   const double C = functional[2]/((alphas[2]-alphas[0])*(alphas[2]-alphas[1])) ;
   
+  // opens downwards, the turning point is a maximum so use the better probe
+  if( A+B+C < 0.0 ) {
+    return functional[2] < functional[1] ? alphas[2] : alphas[1] ;
+  }
+
   const double Sol = (alphas[0]*(B+C)+alphas[1]*(A+C)+alphas[2]*(A+B))/(2*(A+B+C)) ;
 
   if( Sol > alphas[2] ) return alphas[2] ;
@@ -56,6 +61,19 @@ approx_minimum( const size_t nmeas ,
   return Sol ;
 }
 
+// does the functional initially decrease along the direction searched?
+static GLU_bool
+is_descent( const size_t nmeas , 
+	    const double alphas[ nmeas ] ,
+	    const double functional[ nmeas ] )
+{
+  // initial slope of the interpolating polynomial
+  const double s1 = ( functional[1]-functional[0] )/( alphas[1]-alphas[0] ) ;
+  const double s2 = ( functional[2]-functional[0] )/( alphas[2]-alphas[0] ) ;
+  const double slope = ( s1*( alphas[2]-alphas[0] ) - s2*( alphas[1]-alphas[0] ) ) / ( alphas[2]-alphas[1] ) ;
+  return ( slope < 0.0 || s1 < 0.0 || s2 < 0.0 ) ? GLU_TRUE : GLU_FALSE ;
+}
+
 void
 egauge_Landau( struct site *lat ,
 	       const GLU_complex **in ,
@@ -115,7 +133,7 @@ exponentiate_gauge_CG( GLU_complex **gauge ,
 }
 
 // does the line search and exponentiates the best step
-static void
+static GLU_bool
 line_exp( GLU_complex **gauge ,
 	  const double *red ,
 	  const GLU_complex **in )
@@ -134,10 +152,12 @@ line_exp( GLU_complex **gauge ,
   const double min = approx_minimum( LINE_NSTEPS , Calcg , val ) ;
   
   exponentiate_gauge_CG( gauge , in , min ) ;
+
+  return is_descent( LINE_NSTEPS , Calcg , val ) ;
 }
 
 // odd dimension slower code
-static void
+static GLU_bool
 line_search_CoulombOdd( double *red ,
 			GLU_complex **gauge ,
 			const struct site *lat ,
@@ -184,13 +204,11 @@ line_search_CoulombOdd( double *red ,
     }
   }
   // exponentiates the best step
-  line_exp( gauge , red , in ) ;
-
-  return ;
+  return line_exp( gauge , red , in ) ;
 }
 
 // perform a line search using GLUbic splines for approximately the best alpha
-void
+GLU_bool
 line_search_Coulomb( double *red ,
 		     GLU_complex **gauge ,
 		     const struct draughtboard db ,
@@ -202,8 +220,7 @@ line_search_Coulomb( double *red ,
 
   // odd dimensional code
   if( db.Ncolors != 2 ) {
-    line_search_CoulombOdd( red , gauge , lat , in , t ) ;
-    return ;
+    return line_search_CoulombOdd( red , gauge , lat , in , t ) ;
   }
   
   // only sensible for even dirs, cheaper as it reuses set_gauge_matrix
@@ -265,12 +282,10 @@ line_search_Coulomb( double *red ,
   }
   
   // exponentiates the best step
-  line_exp( gauge , red , in ) ;
-
-  return ;
+  return line_exp( gauge , red , in ) ;
 }
 
-void
+GLU_bool
 line_search_Landau( double *red ,
 		    struct site *lat ,
 		    const GLU_complex **in )
diff --git a/src/Headers/line_search.h b/src/Headers/line_search.h
index ef60631..97cdf18 100644
--- a/src/Headers/line_search.h
+++ b/src/Headers/line_search.h
@@ -63,7 +63,7 @@ exponentiate_gauge_CG( GLU_complex **gauge ,
 
 
 /**
-   @fn void line_search_Coulomb( double *red , GLU_complex **gauge , const struct draughtboard db , const struct site *lat , const GLU_complex **in , const size_t t )
+   @fn GLU_bool line_search_Coulomb( double *red , GLU_complex **gauge , const struct draughtboard db , const struct site *lat , const GLU_complex **in , const size_t t )
    @brief perform the line search for the Coulomb gauge fixing routines
    @param red :: reduction array
    @param gauge :: accumulated gauge transform matrices
@@ -71,8 +71,9 @@ exponentiate_gauge_CG( GLU_complex **gauge ,
    @param lat :: lattice links
    @param in :: derivative of the gauge fields
    @param t :: timeslice index
+   @return #GLU_FALSE if the functional does not decrease in this direction
  */
-void
+GLU_bool
 line_search_Coulomb( double *red ,
 		     GLU_complex **gauge ,
 		     const struct draughtboard db ,
@@ -81,14 +82,15 @@ line_search_Coulomb( double *red ,
 		     const size_t t ) ;
 
 /**
-   @fn void line_search_Landau( double *red , const struct site *lat , const GLU_complex **in )
+   @fn GLU_bool line_search_Landau( double *red , const struct site *lat , const GLU_complex **in )
    @brief perform the line search for Landau gauge fixing
    @param red :: reduction array
    @param gauge :: this iteration's gauge transformations
    @param lat :: lattice links
    @param in :: derivative of the gauge fields
+   @return #GLU_FALSE if the functional does not decrease in this direction
  */
-void
+GLU_bool
 line_search_Landau( double *red ,
 		    struct site *lat ,
 		    const GLU_complex **in ) ;
-- 
2.43.0


From 411fb7405d07d0f1a89b57cfcf547c63f2b97536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:08 +0000
Subject: [PATCH 060/105] fix: the SU(2) accuracy of Landau gauge fixing was a
 quarter of that of the other groups and half of what is documented

---
 src/Gfix/lin_derivs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Gfix/lin_derivs.c b/src/Gfix/lin_derivs.c
index 2cd6c36..c5659e2 100755
--- a/src/Gfix/lin_derivs.c
+++ b/src/Gfix/lin_derivs.c
@@ -187,7 +187,7 @@ fast_deriv_AntiHermitian_proj( GLU_complex sum[ HERMSIZE ] ,
   *( sum + 0 ) = REsum0 ;
   *( sum + 1 ) = -I * REsum1 + IMsum1 ;
 
-  return ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
+  return 4.0 * ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
 
 #endif
 }
-- 
2.43.0


From ad98c7e228aff1f74da15e3b31542aadaacf1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 061/105] fix: gauge fixing took another step after it had
 measured convergence, which could leave the field less accurate than reported

---
 src/Gfix/CFACG.c | 22 ++++++++++++++--------
 src/Gfix/FACG.c  | 29 ++++++++++++++++++-----------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 1fff9c3..588e0d4 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -258,7 +258,7 @@ sum_PR( double *red ,
   return ;
 }
 
-// perform a Fourier-accelerated SD step
+// perform a step along the Fourier-accelerated derivative
 static void
 steep_step_SD( GLU_complex **slice_gauge , 
 	       struct CGtemps CG ,
@@ -266,11 +266,6 @@ steep_step_SD( GLU_complex **slice_gauge ,
 	       const struct site *lat , 
 	       const size_t t )
 {
-  steep_deriv_CG( FFTW -> in , lat , (const GLU_complex**)slice_gauge , t ) ;
-
-  // if we want to Fourier accelerate, we call this otherwise it is the SD
-  FOURIER_ACCELERATE2( FFTW ) ;
-  
 #if !(defined GLU_GFIX_SD) && !(defined GLU_FR_CG)
   line_search_Coulomb( CG.red , slice_gauge , CG.db , lat , 
 		       (const GLU_complex**)FFTW -> in , t ) ;
@@ -348,6 +343,9 @@ steep_step_FACG( GLU_complex **gauge ,
     sum_conj += CG.red[ LINE_NSTEPS + 1 + CLINE*k ] ;
   }
   *tr = insum * GFNORM_COULOMB ;
+
+  // another step could leave us less accurate than we have just measured
+  if( *tr < accuracy ) return loc_iters + 1 ;
   
   // compute the beta value, who knows what value is best?
   double beta = ( inold > 0.0 && descent == GLU_TRUE ) ? PRfmax( 0.0 , sum_conj / inold ) : 0.0 ;
@@ -413,7 +411,10 @@ steep_step_FASD( GLU_complex **gauge ,
     CG.red[ k ] = 0.0 ;
   }
   
-  steep_step_SD( gauge , CG , FFTW , lat , t ) ;
+  steep_deriv_CG( FFTW -> in , lat , (const GLU_complex**)gauge , t ) ;
+
+  // if we want to Fourier accelerate, we call this otherwise it is the SD
+  FOURIER_ACCELERATE2( FFTW ) ;
 
   sum_DER2( CG.red , (const GLU_complex**)FFTW -> in ) ;
 
@@ -425,6 +426,11 @@ steep_step_FASD( GLU_complex **gauge ,
   *tr = trAA * GFNORM_COULOMB ;
   
   loc_iters++ ;
+
+  // another step could leave us less accurate than we have just measured
+  if( *tr < accuracy ) return loc_iters ;
+
+  steep_step_SD( gauge , CG , FFTW , lat , t ) ;
   
   if( ( *tr > accuracy ) && ( loc_iters < max_iters) ) goto top ;
   
@@ -495,7 +501,7 @@ steep_fix( GLU_complex **gauge ,
     }
 
     // attempt a continuation run if we are close to the desired accuracy
-    if( loc_iters >= (max_iters) ) {
+    if( loc_iters >= (max_iters) && !( tr < accuracy ) ) {
       if( tr < 1E4*accuracy && !isnan( tr ) && !isinf( tr ) ) {
 	tot_iters += loc_iters ;
 	goto top ;
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 8975d97..d929427 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -177,15 +177,13 @@ sum_DER3( double *red ,
   return ;
 }
 
+// Fourier accelerate the derivative and take a step along it
 static void
-steep_Landau_FA( double *red ,
-		 struct site *lat ,
-		 struct fftw_stuff *FFTW )
+steep_Landau_step( double *red ,
+		   struct site *lat ,
+		   struct fftw_stuff *FFTW )
 {
-  // do a steepest-descents step with the result in "out"
-  FA_deriv( red , FFTW -> in , lat ) ;
-  
-  // and do the fourier acceleration
+  // do the fourier acceleration
   FOURIER_ACCELERATE3( FFTW ) ;
   
   // and step length gf_alpha provided from the input file
@@ -219,7 +217,7 @@ steep_Landau_FASD( struct site *lat ,
     CG -> red[k] = 0.0 ;
   }
   
-  steep_Landau_FA( CG -> red , lat , FFTW ) ;
+  FA_deriv( CG -> red , FFTW -> in , lat ) ;
 
   double trAA = 0.0 ;
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
@@ -228,6 +226,11 @@ steep_Landau_FASD( struct site *lat ,
   *tr = trAA * GFNORM_LANDAU ;
 
   loc_iters++ ;
+
+  // another step could leave us less accurate than we have just measured
+  if( *tr <= acc ) return loc_iters ;
+
+  steep_Landau_step( CG -> red , lat , FFTW ) ;
   
   if( ( *tr > acc ) && ( loc_iters < max_iters ) ) goto top ;
 
@@ -248,7 +251,8 @@ steep_Landau_FACG( struct site *lat ,
   GLU_bool descent = GLU_TRUE ;
     
   // perform an SD start
-  steep_Landau_FA( CG -> red , lat , FFTW ) ;
+  FA_deriv( CG -> red , FFTW -> in , lat ) ;
+  steep_Landau_step( CG -> red , lat , FFTW ) ;
 
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
@@ -291,6 +295,9 @@ steep_Landau_FACG( struct site *lat ,
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
   }
   *tr = trAA * GFNORM_LANDAU ;
+
+  // another step could leave us less accurate than we have just measured
+  if( *tr <= acc ) return loc_iters + 1 ;
   
   // and FA
   FOURIER_ACCELERATE3( FFTW ) ;
@@ -373,7 +380,7 @@ FACG( struct site *lat ,
     }
     
     // a theta that is not a number is a failure too
-    if( loc_iters >= max_iters || !( *th <= acc ) ) {
+    if( !( *th <= acc ) ) {
       if( ( *th < 1E3*acc ) ) {
 	#pragma omp master
 	{
@@ -431,7 +438,7 @@ FASD( struct site *lat ,
     }
 
     // a theta that is not a number is a failure too
-    if( loc_iters >= max_iters || !( *th <= acc ) ) {
+    if( !( *th <= acc ) ) {
       if( ( *th < 1E3*acc ) ) {
 	#pragma omp master
 	{
-- 
2.43.0


From a1c95f87486df3b602a159306dc07721c187677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 062/105] fix: over-relaxed gauge fixing mistook links that
 close on themselves and vanishing sums, Coulomb fixing crashed for single
 sites and slices, and the temporal constancy was wrong for SU(2)

---
 src/Geometry/draughtboard.c |  2 +-
 src/Gfix/CFACG.c            | 23 +++++++++++++++--------
 src/Gfix/Or.c               |  9 +++++++++
 src/Gfix/gftests.c          | 14 ++++++++++----
 4 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index 6644383..eeb6e4f 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -111,8 +111,8 @@ init_cb( struct draughtboard *db ,
     fprintf( stdout , "[DB] COLOR_%zu :: %zu \n" , i , db -> Nsquare[i] ) ;
     #endif
     if( db -> Nsquare[i] == 0 ) {
+      // there is only one color on a single site
       db -> square[i] = NULL ;
-      return GLU_FAILURE ;
     } else {
       db -> square[i] = malloc( db -> Nsquare[i] * sizeof( size_t ) ) ;
     }
diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 588e0d4..79327f7 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -594,12 +594,14 @@ Coulomb_FA( struct site  *__restrict lat ,
 			    lat , t , bcval , max_iter , f ) ;
     
     // and t+1
-    thread_its += steep_fix( G.g , CG , FFTW ,
-			     lat , t+1 , accuracy , max_iter , f ) ;
-       
-    //gauge transform the links at x and set slice_gauge_up to be slice_gauge
-    gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
-			 (const GLU_complex **)G.g , 0 ) ;
+    if( Latt.dims[ ND - 1 ] > 1 ) {
+      thread_its += steep_fix( G.g , CG , FFTW ,
+			       lat , t+1 , accuracy , max_iter , f ) ;
+
+      //gauge transform the links at x and set slice_gauge_up to be slice_gauge
+      gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
+			   (const GLU_complex **)G.g , 0 ) ;
+    }
     
     //now we do the same for all time slices
     for( t = 2 ; t < Latt.dims[ ND - 1 ] ; t++ ) {
@@ -627,8 +629,13 @@ Coulomb_FA( struct site  *__restrict lat ,
 
     // no need for a reunitarisation step as it has already been done
     // gauge transform the very final slice
-    gtransform_slice_th( (const GLU_complex **)G.g , lat , 
-			 (const GLU_complex **)G.g_end , t - 1 ) ;
+    if( Latt.dims[ ND - 1 ] > 1 ) {
+      gtransform_slice_th( (const GLU_complex **)G.g , lat , 
+			   (const GLU_complex **)G.g_end , t - 1 ) ;
+    } else {
+      gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
+			   (const GLU_complex **)G.g_end , 0 ) ;
+    }
 
 #pragma omp master
     {
diff --git a/src/Gfix/Or.c b/src/Gfix/Or.c
index 510e39d..5368fab 100755
--- a/src/Gfix/Or.c
+++ b/src/Gfix/Or.c
@@ -88,6 +88,9 @@ OR_single( struct site *__restrict lat ,
     
     // compute U(x+\mu/2) + U^{dagger}(x-\mu/2)
     back = lat[i].back[mu] ;
+
+    // the trace of a link that closes on itself does not change
+    if( back == i ) continue ;
     
     // can speed this up as we only care about s0 and s1 which only need
     // idx_a,b,c,d
@@ -101,6 +104,12 @@ OR_single( struct site *__restrict lat ,
       + lat[back].O[mu][bidx2] - conj( lat[back].O[mu][cidx2] ) ;
   }
   
+  // nothing to maximise, leave the links as they are
+  if( creal(s0)*creal(s0) + cimag(s0)*cimag(s0) +
+      creal(s1)*creal(s1) + cimag(s1)*cimag(s1) < PREC_TOL*PREC_TOL ) {
+    return ;
+  }
+
   // hits the link to the left and the one to the right with
   // gauge transformation matrices
 #ifdef SOR
diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..426a372 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -94,11 +94,11 @@ const_time( const struct site *__restrict lat ,
 
       #elif NC == 2
 
-      register const double re0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double re0 = creal( sum1[0] ) - creal( sum2[0] ) ;
       av += (double)fabs( re0 ) ; 
       av += (double)cabs( sum1[1] - sum2[1] ) ;
       // log def
-      register const double rel0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double rel0 = creal( sum1_log[0] ) - creal( sum2_log[0] ) ;
       avlog += (double)fabs( rel0 ) ; 
       avlog += (double)cabs( sum1_log[1] - sum2_log[1] ) ;
 
@@ -119,6 +119,12 @@ const_time( const struct site *__restrict lat ,
       average = average + (double)av ;
   }
 
+  // a single slice has nothing to be compared to
+  if( Latt.dims[ ND - 1 ] == 1 ) {
+    *const_lin = *const_log = 0.0 ;
+    return ;
+  }
+
   // Write the average difference in time-constantness
   const double check = 1.0 / ( NCNC * ( Latt.dims[ ND - 1 ] - 1 ) ) ;
 
@@ -236,7 +242,7 @@ theta_test_lin( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
@@ -276,7 +282,7 @@ theta_test_log( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
-- 
2.43.0


From df280f794db083bc5724d5ba8b1d73f05994696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 063/105] fix: the diagonal of the SU(3) derivative entered its
 norm with the wrong sign, Coulomb fixing could stop before the requested
 accuracy

---
 src/Gfix/CFACG.c | 6 +++---
 src/Gfix/FACG.c  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 79327f7..c54280f 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -174,7 +174,7 @@ sum_DER2( double *red ,
     register double loc_sum = 0.0 ;
 #if NC == 3
     loc_sum += creal(in[0][i]) * creal(in[0][i]) + cimag(in[0][i])*cimag(in[0][i]) 
-      + creal(in[0][i]) * cimag( in[0][i] ) ;
+      - creal(in[0][i]) * cimag( in[0][i] ) ;
     loc_sum += creal(in[1][i]) * creal(in[1][i]) + cimag(in[1][i])*cimag(in[1][i]) ; 
     loc_sum += creal(in[2][i]) * creal(in[2][i]) + cimag(in[2][i])*cimag(in[2][i]) ; 
     loc_sum += creal(in[3][i]) * creal(in[3][i]) + cimag(in[3][i])*cimag(in[3][i]) ; 
@@ -214,14 +214,14 @@ sum_PR( double *red ,
     double loc_sum1 = 0.0 , loc_sum2 = 0.0 ;
 #if NC == 3
     loc_sum1 += creal(in[0][i]) * creal(in[0][i]) + cimag(in[0][i])*cimag(in[0][i]) 
-      + creal(in[0][i]) * cimag( in[0][i] ) ;
+      - creal(in[0][i]) * cimag( in[0][i] ) ;
     loc_sum1 += creal(in[1][i]) * creal(in[1][i]) + cimag(in[1][i])*cimag(in[1][i]) ; 
     loc_sum1 += creal(in[2][i]) * creal(in[2][i]) + cimag(in[2][i])*cimag(in[2][i]) ; 
     loc_sum1 += creal(in[3][i]) * creal(in[3][i]) + cimag(in[3][i])*cimag(in[3][i]) ; 
 	
     register GLU_complex temp = in[0][i] - in_old[0][i] ;
     loc_sum2 += 2.0 * ( creal( in[0][i] ) * creal( temp ) + cimag( in[0][i] ) * cimag( temp ) ) ;
-    loc_sum2 += creal( in[0][i] ) * cimag( temp ) + cimag( in[0][i] ) * creal( temp ) ;
+    loc_sum2 -= creal( in[0][i] ) * cimag( temp ) + cimag( in[0][i] ) * creal( temp ) ;
     temp = in[1][i] - in_old[1][i] ;
     loc_sum2 += 2.0 * ( creal( in[1][i] ) * creal( temp ) + cimag( in[1][i] ) * cimag( temp ) ) ;
     temp = in[2][i] - in_old[2][i] ;
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index d929427..cfc973f 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -106,13 +106,13 @@ sum_PR3( double *red ,
     double loc_sum1 = 0.0 , loc_sum2 = 0.0 ;
     #if NC==3    
     loc_sum1 += 2.0*( creal(in[0][i]) * creal(in[0][i]) + cimag(in[0][i])*cimag(in[0][i] ) 
-		      + creal(in[0][i]) * cimag( in[0][i] )) ;
+		      - creal(in[0][i]) * cimag( in[0][i] )) ;
     loc_sum1 += 2.0*( creal(in[1][i]) * creal(in[1][i]) + cimag(in[1][i])*cimag(in[1][i]) ); 
     loc_sum1 += 2.0*( creal(in[2][i]) * creal(in[2][i]) + cimag(in[2][i])*cimag(in[2][i]) ) ; 
     loc_sum1 += 2.0*( creal(in[3][i]) * creal(in[3][i]) + cimag(in[3][i])*cimag(in[3][i]) ) ;
     register GLU_complex temp = in[0][i] - in_old[0][i] ;
     loc_sum2 += 2.0 * ( creal( in[0][i] ) * creal( temp ) + cimag( in[0][i] ) * cimag( temp ) ) ;
-    loc_sum2 += creal( in[0][i] ) * cimag( temp ) + cimag( in[0][i] ) * creal( temp ) ;
+    loc_sum2 -= creal( in[0][i] ) * cimag( temp ) + cimag( in[0][i] ) * creal( temp ) ;
     temp = in[1][i] - in_old[1][i] ;
     loc_sum2 += 2.0 * ( creal( in[1][i] ) * creal( temp ) + cimag( in[1][i] ) * cimag( temp ) ) ;
     temp = in[2][i] - in_old[2][i] ;
@@ -154,7 +154,7 @@ sum_DER3( double *red ,
     register double loc_sum = 0.0 ;
     #if NC == 3
     loc_sum += creal(in[0][i]) * creal(in[0][i]) + cimag(in[0][i])*cimag(in[0][i]) 
-      + creal(in[0][i]) * cimag( in[0][i] ) ;
+      - creal(in[0][i]) * cimag( in[0][i] ) ;
     loc_sum += creal(in[1][i]) * creal(in[1][i]) + cimag(in[1][i])*cimag(in[1][i]) ; 
     loc_sum += creal(in[2][i]) * creal(in[2][i]) + cimag(in[2][i])*cimag(in[2][i]) ; 
     loc_sum += creal(in[3][i]) * creal(in[3][i]) + cimag(in[3][i])*cimag(in[3][i]) ; 
-- 
2.43.0


From 330beb424b7d85d9f5327f50933ede00c72c7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 064/105] fix: saving an SU(N)xU(1) configuration reunitarised
 it, which took the U(1) field away, and a failed U(1) run still wrote a file

---
 src/Headers/SUNCxU1_config.h |  7 ++++---
 src/IO/writers.c             |  4 ----
 src/Wrappers/GLUlib_wrap.c   | 28 ++++++++++++++++++++--------
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/Headers/SUNCxU1_config.h b/src/Headers/SUNCxU1_config.h
index 6d81587..7c09db5 100755
--- a/src/Headers/SUNCxU1_config.h
+++ b/src/Headers/SUNCxU1_config.h
@@ -24,16 +24,17 @@
 #define GLU_SUNCxU1_CONFIG_H
 
 /**
-   @fn void suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
+   @fn int suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
    @brief creates links which are multiplied by a non-compact U(1) field
 
    @warning rewrites the gauge field
    @warning cannot write out configurations in any format but NCxNC #config_size
 
    calls compute_U1_obs()
-   
+
+   @return #GLU_SUCCESS or #GLU_FAILURE
  */
-void 
+int
 suNC_cross_u1( struct site *__restrict lat , 
 	       const struct u1_info U1INFO ) ;
 
diff --git a/src/IO/writers.c b/src/IO/writers.c
index bf957b1..3fbf311 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -29,7 +29,6 @@
 #include "GLU_timer.h"     // timers for the IO
 #include "HIREP.h"         // write out a HIREP config
 #include "plaqs_links.h"   // compute plaquette and links again
-#include "random_config.h" // latt_reunitU()
 #include "Scidac.h"        // write out a scidac file
 #include "write_headers.h" // write the config header
 
@@ -332,9 +331,6 @@ write_lat( struct site *lat ,
 	   const GLU_output type , 
 	   char *__restrict details )
 {
-  // reunitarise the field before writing out
-  latt_reunitU( lat ) ;
-  
   // CERN stuff is all handled in CERN.c
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index c87017b..6970427 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -188,11 +188,11 @@ file_exists( const char *outfile )
 }
 
 // write out lat
-int
-write_configuration( struct site *lat , 
-		     const char *outfile , 
-		     const GLU_output storage , 
-		     const char *output_details )
+static int
+write_links( struct site *lat , 
+	     const char *outfile , 
+	     const GLU_output storage , 
+	     const char *output_details )
 {
   //attempt to open a file
   if( file_exists( outfile ) == GLU_TRUE ) {
@@ -219,6 +219,17 @@ write_configuration( struct site *lat ,
   return GLU_SUCCESS ;
 }
 
+// reunitarise the links and write them out
+int
+write_configuration( struct site *lat , 
+		     const char *outfile , 
+		     const GLU_output storage , 
+		     const char *output_details )
+{
+  latt_reunitU( lat ) ;
+  return write_links( lat , outfile , storage , output_details ) ;
+}
+
 // performs heat-bath updates
 int
 heatbath( const char *infile ,
@@ -365,10 +376,11 @@ read_and_U1( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  suNC_cross_u1( lat , U1INFO ) ;
+  FLAG = suNC_cross_u1( lat , U1INFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
-    FLAG = write_configuration( lat , outfile , storage , output_details ) ;
+  // these are in U(NC), reunitarising would take the U(1) part away
+  if( FLAG == GLU_SUCCESS && (Latt.argc-1) == WRITE ) {
+    FLAG = write_links( lat , outfile , storage , output_details ) ;
   }
 
   free_lat( lat ) ;
-- 
2.43.0


From aa5e794cb6a2be185d4eed6b36a6768bf339ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 065/105] fix: the reflection of the U(1) momentum fields was
 left incomplete for ND != 4 and ran out of the arrays for a temporal extent
 of one

---
 src/U1/SUNCxU1_config.c | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index a9025d2..397b00f 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -38,21 +38,6 @@
 // just to make it clear what we are doing
 enum{ CONJUGATE_NOT_IN_LIST , CONJUGATE_IN_LIST } ;
 
-// little inline for the ( 0 , 0 , .. , 0 ) point in the -Pi -> Pi BZ
-static size_t
-compute_zeropoint( void )
-{
-#if ND == 4
-  return ( Latt.dims[0] * ( 1 + Latt.dims[1] * ( 1 + Latt.dims[2] * ( 1 + Latt.dims[3] ) ) ) ) >> 1 ;
-#else
-  size_t check = Latt.dims[ ND-1 ] , mu ;
-  for( mu = ND-2 ; mu != 0 ; mu-- ) {
-    check = Latt.dims[ mu ] * ( 1 + check ) ;
-  }
-  return check >> 1 ;
-#endif
-}
-
 // compute the conjugate site to "i"
 static size_t
 conjugate_site( const size_t i )
@@ -94,8 +79,7 @@ periodic_dft( struct fftw_stuff *FFTW )
     }
     #endif
   }  
-  const size_t SYMM_POINT = compute_zeropoint( ) + 1 ;
-  for( i = 0 ; i < SYMM_POINT ; i++ ) {
+  for( i = 0 ; i < LVOLUME ; i++ ) {
     const size_t b = conjugate_site( i ) ;
     if( i == b ) {
       for( size_t mu = 0 ; mu < ND ; mu++ ) {
-- 
2.43.0


From 45d4a98d339da9e92af95801278ee4d9e2bd323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 066/105] fix: U(1) modes that are their own reflection had
 half the variance of the others

---
 src/U1/SUNCxU1_config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index 397b00f..8db09fb 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -83,7 +83,8 @@ periodic_dft( struct fftw_stuff *FFTW )
     const size_t b = conjugate_site( i ) ;
     if( i == b ) {
       for( size_t mu = 0 ; mu < ND ; mu++ ) {
-	FFTW -> in[mu][i] = creal( FFTW -> in[mu][i] ) + I*0.0 ;
+	// is real, so all of its variance is in the real part
+	FFTW -> in[mu][i] = sqrt( 2.0 ) * creal( FFTW -> in[mu][i] ) + I*0.0 ;
       }
     } else if( b < i ) { // case is already done
       continue ;
-- 
2.43.0


From 99aeb9ad5c5540381507292498e0c66f16861834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 067/105] fix: the windings of the noncompact U(1) plaquettes
 were wrong away from multiples of 2pi, the monopole currents of two
 directions had wrong signs and the U(1) charge was read past the end for ND <
 4

---
 src/U1/U1_top.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index 401f1e8..a634bce 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -44,7 +44,7 @@ current( const int **M )
 static inline int 
 mod_2pi( const GLU_real theta )
 {
-  return (int)theta / TWOPI ; 
+  return (int)rint( theta / TWOPI ) ; 
 }
 
 // the noncompact face of the plaquette
@@ -112,10 +112,10 @@ dirac( int **M ,
 	      if( sigma == mu || rho == mu || sigma == nu || rho == nu ) {
 		continue ;
 	      } else {
-		int factor = -1 ;
-		if( ( nu % 2 ) == 1 ) {
-		  factor = 1 ;
-		}
+		// sign of the permutation ( mu , nu , sigma , rho )
+		const int swaps = ( mu > nu ) + ( mu > sigma ) + ( mu > rho ) +
+		  ( nu > sigma ) + ( nu > rho ) ;
+		const int factor = ( swaps % 2 ) == 0 ? 1 : -1 ;
 		const size_t temp = gen_shift( i , nu ) ;
 		M[ mu ][ i ] = M[ mu ][ i ] + factor * ( obtain_S( O , temp , rho , sigma )
 							 - obtain_S( O , i , rho , sigma ) ) ;
@@ -134,6 +134,7 @@ dirac( int **M ,
 static double 
 non_Qtop( const GLU_complex **O )
 {
+#if ND == 4
   double charge = 0.0 ;
   size_t i;
 #pragma omp parallel for private(i) reduction(+:charge)
@@ -146,6 +147,10 @@ non_Qtop( const GLU_complex **O )
     charge = charge + (double)qtemp ;
   }
   return charge * 0.001583143494411527678811 ;
+#else
+  // there are not enough directions, or too many
+  return 0.0 ;
+#endif
 }
 
 // compute all of the topological measures here
-- 
2.43.0


From 4134bc36bb3cf00136e749bd308d0c2cc579b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 068/105] fix: the U(1) momentum fields were not symmetric
 under reflection for odd extents, which took three quarters of their strength
 away

---
 src/U1/SUNCxU1_config.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index 8db09fb..b327201 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -38,25 +38,18 @@
 // just to make it clear what we are doing
 enum{ CONJUGATE_NOT_IN_LIST , CONJUGATE_IN_LIST } ;
 
-// compute the conjugate site to "i"
+// compute the conjugate site to "i", the momentum with the opposite sign
+// in the 0->2Pi lattice, which is what the FFT uses
 static size_t
 conjugate_site( const size_t i )
 {
   int x[ ND ] ;
-  get_mom_pipi( x , i , ND ) ;
-  #if ND == 4
-  x[0] = -x[0] ;
-  x[1] = -x[1] ;
-  x[2] = -x[2] ;
-  x[3] = -x[3] ;
-  #else
+  get_mom_2piBZ( x , i , ND ) ;
   size_t mu ;
-  for( mu = 0 ; mu < ND ; mu++ ) { x[mu] = -x[mu] ; }
-  #endif
-  //  contrary to what its name may suggest get_site_2piBZ translates
-  //  the -pi to pi BZ coordinates to a site in the 0->2Pi lattice
-  //  which is what the FFT uses
-  return get_site_2piBZ( x , ND ) ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    x[mu] = ( (int)Latt.dims[mu] - x[mu] ) % (int)Latt.dims[mu] ;
+  }
+  return gen_site( x ) ;
 }
 
 // periodic fields using the DFT
-- 
2.43.0


From c205c203703eef5d7f6c4dee8addde1b0f1e36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 069/105] fix: SU(2)xU(1) configurations were saved in the
 HiRep format, which cannot hold them

---
 src/IO/input_reader.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 28ccc58..e8211cc 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -215,7 +215,12 @@ out_details( GLU_output *storage ,
     } else if( are_equal( INPUT[storage_idx].VALUE , "NERSC_NCxNC" ) ) {
       *storage = OUTPUT_NCxNC ;
     } else if( are_equal( INPUT[storage_idx].VALUE , "HIREP" ) ) {
+      // for SU(2) HiRep only keeps four numbers per link
+      #if NC == 2
+      *storage = ( mode != MODE_CROSS_U1 ) ? OUTPUT_HIREP : OUTPUT_NCxNC ;
+      #else
       *storage = OUTPUT_HIREP ;
+      #endif
     } else if( are_equal( INPUT[storage_idx].VALUE , "MILC" ) ) {
       *storage = OUTPUT_MILC ;
     } else if( are_equal( INPUT[storage_idx].VALUE , "SCIDAC" ) ) {
-- 
2.43.0


From 57e34a4f565cb783f69c2b05799a0d48fb78c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 070/105] fix: moments of the topological charge left slices
 out, divided by a wrong 10! and overflowed for long lattices

---
 src/Field/Qmoments.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index d222d3b..52a0f78 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -84,7 +84,7 @@ Time_Moments( double *Moment ,
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
-				    5040 , 40320 , 362880 , 362800 ,
+				    5040 , 40320 , 362880 , 3628800 ,
 				    39916800 } ;
   const int LT = (int)Latt.dims[ DIR ] ;
   size_t dims[ ND ] ;
@@ -113,17 +113,20 @@ Time_Moments( double *Moment ,
   }
 
   // initialise powers of t to t^0
-  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
+  double *tpow = malloc( Latt.dims[ DIR ] * sizeof( double ) ) ;
   for( t = 0 ; t < (int)LT ; t++ ) {
-    tpow[ t ] = 1 ;
+    tpow[ t ] = 1.0 ;
   }
   
   // loop increasing powers of moments of Q
   for( n = 0 ; n < NQMOMENTS ; n++ ) {
     double sum = 0.0 ;
-    for( t = -LT/2+1 ; t < LT/2 ; t++ ) {
+    for( t = -(LT-1)/2 ; t <= LT/2 ; t++ ) {
       const int posit = ( t + LT ) % LT ;
-      sum += tpow[ posit ] * creal( Qt[ posit ] ) ;
+      // the middle of an even extent is as much at -LT/2 as it is at LT/2
+      if( 2*t != LT || n%2 == 0 ) {
+	sum += tpow[ posit ] * creal( Qt[ posit ] ) ;
+      }
       tpow[ posit ] *= t ;
     }
     sum /= fac[ n ] ;
-- 
2.43.0


From f443bf078bfa5b5a315e63420caa8cd86e65f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 071/105] fix: slab sums of the topological charge raced
 between threads without FFTW

---
 src/Field/Qslab.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0bb25b1..3a32dd5 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -150,7 +150,7 @@ compute_slabs( const GLU_complex *qtop ,
       }
       // perform convolution the dumb way
       #else
-      #pragma omp parallel for private(i)
+      #pragma omp parallel for private(i) reduction(+:sum_slab)
       for( i = 0 ; i < subvol ; i++ ) {
 	const size_t src = slab_idx( i , dims , SLAB_DIR , T0 ) ;
 	const double qsrc = qtop[ src ] ;
@@ -189,6 +189,7 @@ compute_slabs( const GLU_complex *qtop ,
 
   // free allocated memory
   free( str ) ;
+  free( ct ) ;
   fclose( Ap ) ;
 
   return GLU_SUCCESS ;
-- 
2.43.0


From d7d6ecb70fdbb9485e044f54792ebac02d3a0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 072/105] fix: asking for zero topological measurements
 underflowed the allocation of the moments

---
 src/Field/Qsusc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index 5bd26e2..fe3fa05 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -35,6 +35,12 @@ compute_Qsusc_step( struct site *__restrict lat ,
 		    const struct cut_info CUTINFO ,
 		    const struct sm_info SMINFO )
 {
+  // there is nothing to measure, and nothing to allocate
+  if( CUTINFO.max_t == 0 ) {
+    fprintf( stderr , "[QSUSC] zero measurements asked for\n" ) ;
+    return GLU_FAILURE ;
+  }
+
   // measurement counter
   size_t measurement ;
   int flag = GLU_SUCCESS ;
-- 
2.43.0


From e17a65bc8368d6a25848ce1fd654a213d61fe133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 073/105] fix: the cylinder cut did not project on the body
 diagonal unless there are four dimensions

---
 src/Cuts/cut_routines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 8497415..cd07c8b 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -194,7 +194,7 @@ cylinder_DF( const GLU_real q[ ND ] ,
 	     const double cyl_width )
 {
   // test that this satisfies the correct cylinder cutting procedure
-  const GLU_real norm = 1. / ( 2. * sqrt( DIMS ) ) ;
+  const GLU_real norm = 1. / (GLU_real)DIMS ;
   const int diagonals = 2 << ( ND - 1 ) ;
  
   // generix for loop over the diagonals
-- 
2.43.0


From 432fb68b9f09fd1e458497d05e50da1b0906d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 074/105] fix: rounding dropped momenta along the body diagonal
 from the conical cut

---
 src/Cuts/cut_routines.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index cd07c8b..1e4c33a 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -283,7 +283,9 @@ cylinder_CJD( const GLU_real q[ ND ] ,
       scalar_prod += ( q[nu] * x[nu] * nnorm ) ;
     }
 
-    // the angle theta is 
+    // the angle theta is, rounding could take us out of the range of acos
+    if( scalar_prod > 1.0 ) { scalar_prod = 1.0 ; }
+    if( scalar_prod < -1.0 ) { scalar_prod = -1.0 ; }
     const GLU_real theta = acos( scalar_prod ) ;
     const GLU_real delta_q = sin( theta ) / qnorm ;
 
-- 
2.43.0


From fb8ec52ade4d511cf91f3af99e199626a8fd7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 075/105] fix: without FFTW the topological charges of the
 timeslices were written in place of their correlator

---
 src/Field/Qcorr.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index f858a70..2b75ba6 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -193,6 +193,31 @@ compute_Qcorr( struct site *__restrict lat ,
     }
     qcorr[i] = sumqq * NORMSQ ;
   }
+
+  // the correlator in time needs all of the separations, its sum over space
+  // is the one of the charges of the timeslices
+  {
+    double *qt = malloc( Latt.dims[ND-1] * sizeof( double ) ) ;
+    size_t t , t0 ;
+    #pragma omp parallel for private(t)
+    for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
+      register double tsum = 0.0 ;
+      size_t j ;
+      for( j = LCU*t ; j < LCU*(t+1) ; j++ ) {
+	tsum += creal( FFTW.in[j] ) ;
+      }
+      qt[t] = tsum ;
+    }
+    for( i = 0 ; i < LVOLUME ; i++ ) {
+      FFTW.in[i] = 0.0 ;
+    }
+    for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
+      for( t0 = 0 ; t0 < Latt.dims[ND-1] ; t0++ ) {
+	FFTW.in[ LCU*t ] += NORMSQ * qt[t0] * qt[ (t0+t)%Latt.dims[ND-1] ] ;
+      }
+    }
+    free( qt ) ;
+  }
 #endif
 
   // look at the correlator of this thing too
-- 
2.43.0


From 7719bff79078919c18cd65bf21a6450b881a31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:27 +0000
Subject: [PATCH 076/105] fix: the nonexceptional three-point function wrote
 one triplet more than there are, from uninitialised memory, and overran its
 list of orbits for odd maximum momenta

---
 src/Cuts/MOMggg.c      | 9 +++++----
 src/Cuts/triplet_gen.c | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index cc2e74a..0de7074 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -81,7 +81,8 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 
   // fill up trip by calling get_triplet again .. read from a file ..
   // set up the number of triplets ... 
-  int *trip = malloc( nnmax/2 * sizeof( int ) ) ;
+  const size_t norb = ( nnmax + 1 ) / 2 ;
+  int *trip = malloc( norb * sizeof( int ) ) ;
 
   // allocate both the triplet and the projector
   int **triplet = NULL ;
@@ -97,8 +98,8 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   read_trip( trip , nnmax ) ;
 
   size_t nn ;
-  size_t counter[ 1 ] = { 1 } ;
-  for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
+  size_t counter[ 1 ] = { 0 } ;
+  for( nn = 0 ; nn < norb ; nn++ ) {
     counter[ 0 ] += trip[ nn ] ;
   }
   
@@ -135,7 +136,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   
   write_triplet_mom_list( Ap , counter , momentum , triplet ) ;
 
-  for( nn = 0 ; nn < nnmax/2 ; nn ++ ) {
+  for( nn = 0 ; nn < norb ; nn ++ ) {
 
     double psq = 0. ;
     double oneOpsq = 0. ;
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 530fa80..ca00983 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -473,7 +473,7 @@ read_trip( int *__restrict trip ,
 	   const size_t nnmax )
 {
 #ifdef NOT_CONDOR_MODE
-  const size_t nn = nnmax / 2 ;
+  const size_t nn = ( nnmax + 1 ) / 2 ;
   char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   sprintf( tmp , "/Local/Moments/TRIP_%zu.config" , nnmax ) ;
-- 
2.43.0


From 604ef4d9bf16e8f9f64ea6ba8aa40e107ed49bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:27 +0000
Subject: [PATCH 077/105] fix: the projector of the nonexceptional three-point
 function used 2sin(p) for the lattice momentum in place of 2sin(p/2)

---
 src/Cuts/triplet_gen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index ca00983..1d365f2 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -440,9 +440,9 @@ compute_projector( int *__restrict *__restrict triplet ,
       mom[ 2 ][ mu ] = momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ;
       #else
       // SIN variant
-      mom[ 0 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 0 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
-      mom[ 1 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 1 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
-      mom[ 2 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 0 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 0 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 1 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 1 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 2 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
       #endif
     }
 
-- 
2.43.0


From c8047c7d25b8eeccf385691b728d5187640cb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:27 +0000
Subject: [PATCH 078/105] fix: triplets of the nonexceptional three-point
 function were not of equal momenta if the extents are not multiples of the
 smallest

---
 src/Cuts/triplet_gen.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 1d365f2..6a0aed5 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -80,6 +80,14 @@ free_delta( void )
   return ;
 }
 
+// is the ratio of this direction to the smallest one an integer? If it is not
+// then only its zero mode can be in our orbits
+static GLU_bool
+integer_ratio( const size_t mu )
+{
+  return ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? GLU_TRUE : GLU_FALSE ;
+}
+
 //  Recurse the second looking for again equivalent psq's and finally the 
 //  third triplet. If we are setting the values of the triplet we do a check
 //  with the lattice momentum.
@@ -150,6 +158,7 @@ recurse_p2( int *__restrict *__restrict triplet ,
 
   // loop the smallest first
   for( mu = ND ; mu > 0 ; mu-- ) {
+    if( integer_ratio( mu-1 ) == GLU_FALSE ) { continue ; }
     if( p2[mu-1] < (int)r_nn ) {
       p2[mu-1]++ ;
       return recurse_p2( triplet , momentum , p1 , p2 , 
@@ -181,7 +190,7 @@ recurse_p( int *__restrict *__restrict triplet ,
   if( sum == nn ) {
     int *p2 = malloc( ND * sizeof( int ) ) ;
     for( mu = 0 ; mu < ND ; mu++ ) {
-      p2[ mu ] = -(int)r_nn ; 
+      p2[ mu ] = ( integer_ratio( mu ) == GLU_TRUE ) ? -(int)r_nn : 0 ;
     }  
     count += recurse_p2( triplet , momentum , p1 , p2 , 
 			 nn , r_nn , nmom ,  
@@ -190,6 +199,7 @@ recurse_p( int *__restrict *__restrict triplet ,
   }
   // loop the smallest first
   for( mu = ND ; mu > 0 ; mu-- ) {
+    if( integer_ratio( mu-1 ) == GLU_FALSE ) { continue ; }
     if( p1[mu-1] < (int)r_nn ) {
       p1[mu-1]++ ;
       return recurse_p( triplet , momentum , p1 , 
@@ -227,8 +237,7 @@ get_triplet( int *__restrict *__restrict triplet ,
     const size_t root_nn = (size_t)sqrt( nn ) ;
     int *p = malloc( ND * sizeof( int ) ) ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
-      p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? \
-	-(int)root_nn : 0.0 ;
+      p[mu] = ( integer_ratio( mu ) == GLU_TRUE ) ? -(int)root_nn : 0 ;
     }
 
     count = recurse_p( triplet , momentum , p , 
@@ -265,7 +274,7 @@ get_trip( int *__restrict trip ,
     const size_t root_nn = (size_t)sqrt( nn ) ;
     int *p = malloc( ND * sizeof( int ) ) ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
-      p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? -(int)root_nn : 0.0 ;
+      p[mu] = ( integer_ratio( mu ) == GLU_TRUE ) ? -(int)root_nn : 0 ;
     }
 
     size_t check = count ;
-- 
2.43.0


From 953d64f9e925ee75d9a67c914e39c34efb1ed938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:53 +0000
Subject: [PATCH 079/105] fix: maximum momenta too large for the lattice made
 the nonexceptional three-point function read before its list of momenta

---
 src/Cuts/cuts.c        |  2 +-
 src/Cuts/triplet_gen.c | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index de4a2b5..082b3c6 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -156,7 +156,7 @@ cuts_struct( struct site *__restrict A ,
   case NONEXCEPTIONAL :
     // we write the mom-list internally in the g2g3 code as it can
     // be different from the cut-momentum one..
-    write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
+    check = write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
     break ;
   case GLUON_PROPS :
     write_mom_veclist( Ap , in , list , ND ) ;
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 6a0aed5..10d863d 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -247,6 +247,16 @@ get_triplet( int *__restrict *__restrict triplet ,
 
     printf( "Checking mom-conservation orbit :: %zu \n" , nn ) ; 
   }
+
+  // all of the momenta have to be in our list
+  size_t i ;
+  for( i = 0 ; i < count ; i++ ) {
+    if( triplet[i][0] < 0 || triplet[i][1] < 0 || triplet[i][2] < 0 ) {
+      fprintf( stderr , "[CUTS] triplet %zu is not in the list of momenta, "
+	       "the maximum momentum is too large for this lattice\n" , i ) ;
+      return GLU_FAILURE ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
@@ -578,7 +588,17 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
     }
     fprintf( stdout , "[CUTS] Precomputing triplet \n" ) ;
     // compute the triplet in the stupidest manner possible
-    get_triplet( triple , momentum , nnmax , nmom ) ;
+    if( get_triplet( triple , momentum , nnmax , nmom ) == GLU_FAILURE ) {
+      fclose( config2 ) ;
+      remove( str ) ;
+      free_delta( ) ;
+      for( i = 0 ; i < count ; i++ ) {
+	free( triple[i] ) ;
+      }
+      free( triple ) ;
+      free( str ) ;
+      return GLU_FAILURE ;
+    }
     // write out "triple" our triplet
     for( i = 0 ; i < count ; i++ ) {
       fwrite( triple[i] , sizeof(int) , 3 , config2 ) ;
-- 
2.43.0


From 2b128494b2a81b91251a5093ff8b608e1fe92753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:53 +0000
Subject: [PATCH 080/105] fix: without FFTW the instantaneous and smeared gluon
 propagators were written for fields that were not transformed

---
 src/Cuts/3Dcuts.c         | 7 +++++--
 src/Cuts/smearing_param.c | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index 067a158..d9485b0 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -118,7 +118,7 @@ mom_gauge_spatial( struct site *__restrict A ,
 
 #else
 
-static short int
+static int
 mom_gauge_spatial( struct site *__restrict A ,
 		   const lie_field_def def )
 {
@@ -135,7 +135,10 @@ cuts_spatial ( struct site *__restrict A ,
 {
   fprintf( stdout , "\n[CUTS] Instantaneous Spatial/Temporal prop calculating ... \n" ) ; 
   // performs LOG and FFT of A, rewrites "A" to save space
-  mom_gauge_spatial( A , CUTINFO.definition ) ; 
+  if( mom_gauge_spatial( A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   if( check_psq( CUTINFO ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index 063b86f..e4bfa17 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -235,8 +235,12 @@ cuts_struct_smeared( struct site *__restrict A ,
 #endif
 
   // performs LOG and FFT , rewrites "A"
-  mom_gauge( A , CUTINFO.definition ) ;
-  mom_gauge( SM_A , CUTINFO.definition ) ;
+  if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
+      mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
   
   // this contains the length of the momentum list
   size_t *in = malloc( sizeof(size_t) ) ;
-- 
2.43.0


From 2b68ba297fb1aa704b30c68ef0ffcdf849731989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:16 +0000
Subject: [PATCH 081/105] fix: the configuration-space gluon propagator had
 another normalisation than documented, and another one and no temporal
 components without FFTW

---
 src/Cuts/config_gluons.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index bc9eb0c..37bab2f 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -177,7 +177,7 @@ spatial_correlator( struct site *__restrict A ,
       sum += creal( *p ) ;
       p++ ;
     }
-    gsp[ t ] = sum * gsnorm ;
+    gsp[ t ] = sum * gsnorm / (double)LVOLUME ; // is the norm of the FFT
   }
 
   // free the FFTs
@@ -188,7 +188,7 @@ spatial_correlator( struct site *__restrict A ,
 
 #else
 
-// contract = Tr( A_\mu(x) A_\mu(y) ) ( for \mu < ND )
+// contract = Tr( A_\mu(x) A_\mu(y) )
 static double
 contract_slices( const struct site *__restrict A ,
 		 const size_t x ,
@@ -206,11 +206,11 @@ contract_slices( const struct site *__restrict A ,
     loc_tr += (double)tr ;
     trace_ab_herm( &tr , A[x].O[2] , A[y].O[2] ) ;
     loc_tr += (double)tr ;
-    //trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
-    //loc_tr += (double)tr ;
+    trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
+    loc_tr += (double)tr ;
     #else
     size_t mu ;
-    for( mu = 0 ; mu < ND-1 ; mu++ ) {
+    for( mu = 0 ; mu < ND ; mu++ ) {
       trace_ab_herm( &tr , A[x].O[mu] , A[y].O[mu] ) ;
       loc_tr += (double)tr ;
     }
@@ -280,11 +280,11 @@ spatial_pointsource( const struct site *__restrict A ,
 	  loc_tr += (double)tr ;
 	  trace_ab_herm( &tr , A[x].O[2] , A[y].O[2] ) ;
 	  loc_tr += (double)tr ;
-	  //trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
-	  //loc_tr += (double)tr ;
+	  trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
+	  loc_tr += (double)tr ;
 	  #else
 	  size_t mu ;
-	  for( mu = 0 ; mu < ND-1 ; mu++ ) {
+	  for( mu = 0 ; mu < ND ; mu++ ) {
 	    trace_ab_herm( &tr , A[x].O[mu] , A[y].O[mu] ) ;
 	    loc_tr += (double)tr ;
 	  }
@@ -292,7 +292,7 @@ spatial_pointsource( const struct site *__restrict A ,
 	}
       }
     }
-    gs[t] = loc_tr * 2 / ( LCU * LCU * LT ) ;
+    gs[t] = loc_tr * gsnorm ;
   }
 #pragma omp parallel for private(t)
   for( t = LT/2+1 ; t < LT ; t++ ) {
@@ -328,7 +328,8 @@ spatial_correlator( const struct site *__restrict A ,
       loc_tr += recurse_sum( A , idx1 , idx2 , spacing , 
 			     x , 0 , &norm ) ;
     }
-    gs[t] = loc_tr * 2.0 / (double)norm ;
+    // estimate of the sum over all of the sources
+    gs[t] = loc_tr * gsnorm * LCU * (double)LVOLUME / (double)norm ;
   }
   // we are so successful
   return GLU_SUCCESS ;
@@ -365,8 +366,8 @@ cuts_struct_configspace( struct site *__restrict A ,
   // compute the temporal and spatial correlators
   double *gsp = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
 
-  // normalisations :: LVOLUME is the FFT norm
-  const double spat_norm = 1.0 / ( ( ND-1 ) * LCU * LVOLUME ) ;
+  // normalisation of the sum over all sources and sinks
+  const double spat_norm = 2.0 / ( (double)LVOLUME * ( ND-1 ) * ( NCNC-1 ) ) ;
 
   // flag whether it worked or not
   int FLAG = GLU_FAILURE ;
-- 
2.43.0


From 6da40d9369924c6891fec5fa7fe98b547dae5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:16 +0000
Subject: [PATCH 082/105] fix: the configuration-space gluon propagator without
 FFTW never ended for a source spacing of zero

---
 src/Cuts/config_gluons.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index 37bab2f..34f42cd 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -309,6 +309,8 @@ spatial_correlator( const struct site *__restrict A ,
 		    const double gsnorm ,
 		    const size_t spacing )
 {
+  // sources with no spacing would never end
+  if( spacing == 0 ) { return GLU_FAILURE ; }
   // this one is more effective
   if( spacing == 1 ) {
     return spatial_pointsource( A , gs , gsnorm ) ;
-- 
2.43.0


From 3bd815531a8c8b9b52c97d9d8363083ecee5964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:16 +0000
Subject: [PATCH 083/105] fix: gluon measurements read an empty list of momenta
 through a null pointer

---
 src/Cuts/3Dcuts.c         | 6 ++++++
 src/Cuts/cuts.c           | 6 ++++++
 src/Cuts/smearing_param.c | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index d9485b0..0c1d1a9 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -149,6 +149,12 @@ cuts_spatial ( struct site *__restrict A ,
   const struct veclist *list = compute_veclist( num_mom , CUTINFO ,
 						ND-1 , GLU_FALSE ) ;
 
+  // there could be nothing to compute
+  if( list == NULL ) {
+    free( num_mom ) ;
+    return GLU_FAILURE ;
+  }
+
   // Landau correction required for Coulomb gauge too.
   correct_pspace_landau( A , list , num_mom , ND-1 ) ;
 
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index 082b3c6..a3dceb0 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -136,6 +136,12 @@ cuts_struct( struct site *__restrict A ,
   const struct veclist *list = compute_veclist( in , TEMP ,
 						ND , GLU_FALSE ) ;
 
+  // there could be nothing to compute
+  if( list == NULL ) {
+    free( in ) ;
+    return GLU_FAILURE ;
+  }
+
   // correct for the Landau condition
   correct_pspace_landau( A , list , in , ND ) ;
   
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index e4bfa17..acaec58 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -247,6 +247,13 @@ cuts_struct_smeared( struct site *__restrict A ,
   const struct veclist *list = compute_veclist( in , CUTINFO , 
 						ND , GLU_FALSE) ;
 
+  // there could be nothing to compute
+  if( list == NULL ) {
+    free( SM_A ) ;
+    free( in ) ;
+    return GLU_FAILURE ;
+  }
+
   // correct for the Landau condition, actually not necessary
   correct_pspace_landau( A , list , in , ND ) ;
   correct_pspace_landau( SM_A , list , in , ND ) ;
-- 
2.43.0


From fb86a8d818702eb2feac6ec07a2890e6930018f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:17 +0000
Subject: [PATCH 084/105] fix: the smeared gluon propagators transformed one
 shared field twice, as only pointers to the links were copied

---
 src/Cuts/smearing_param.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index acaec58..18bc0a7 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -27,8 +27,8 @@
 
 #include "cut_routines.h"  // momentum cuts
 #include "cut_output.h"    // output file
+#include "GLU_malloc.h"    // allocate_lat()
 #include "geometry.h"      // general geometry for the p-calcs
-#include "init.h"          // init_navig()
 #include "plan_ffts.h"     // FFTW plan wrappers
 #include "plaqs_links.h"   // plaquettes and links calculations
 #include "pspace_landau.h" // momentum space Landau correction
@@ -212,8 +212,11 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
 
   // allocate room for the smeared gauge field
-  struct site *SM_A = malloc( LVOLUME * sizeof ( struct site ) ) ;
-  init_navig( SM_A ) ;
+  struct site *SM_A = NULL ;
+  if( ( SM_A = allocate_lat( ) ) == NULL ) {
+    fprintf( stderr , "[CUTS] failed to allocate the smeared field\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // dirty, create a very weak field
 #ifdef WEAK_FIELD
@@ -223,7 +226,10 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t j ; 
 #pragma omp parallel for private(j)
   for( j = 0 ; j < LVOLUME ; j++ ) {
-    memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( SM_A[j].O[mu] , A[j].O[mu] ) ;
+    }
   }
   SM_wrap_struct( SM_A , SMINFO ) ;
 
@@ -238,7 +244,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
       mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
     fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
   
@@ -249,7 +255,7 @@ cuts_struct_smeared( struct site *__restrict A ,
 
   // there could be nothing to compute
   if( list == NULL ) {
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     free( in ) ;
     return GLU_FAILURE ;
   }
@@ -310,7 +316,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
-  free( SM_A ) ;
+  free_lat( SM_A ) ;
 
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From fa7a490942861caaffd5c55c7b025a6c0148a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:46 +0000
Subject: [PATCH 085/105] fix: threads shared the polarisation index of the
 configuration-space gluon propagator

---
 src/Cuts/config_gluons.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index 34f42cd..d038d93 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -140,6 +140,7 @@ spatial_correlator( struct site *__restrict A ,
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex tr , sum = 0.0 ;
+    size_t mu ;
     #ifdef CUT_FORWARD
     FFTW.out[i] = 0 ;
     #else
-- 
2.43.0


From 78ab73031d91e415d1da3a4c0ad383ad1241fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 086/105] fix: long words and many tags in the input file ran
 over the buffers

---
 src/IO/input_reader.c | 77 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 6 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index e8211cc..4757325 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -24,6 +24,7 @@
 */
 #include "Mainfile.h"
 
+#include <ctype.h>
 #include <errno.h>
 #include "GLU_rng.h"   // we initialise the RNG from the input file
 #include "str_stuff.h" // are_equal
@@ -46,15 +47,74 @@ static struct inputs *INPUT = NULL ;
 // counter for the number of tags
 static int NTAGS = 0 ;
 
+// read the next word of the file and return its length, or 0 if there are no
+// more of them. Only what fits is kept
+static size_t
+next_word( char word[ GLU_STR_LENGTH ] ,
+	   FILE *setup )
+{
+  size_t n = 0 ;
+  int c ;
+  while( ( c = fgetc( setup ) ) != EOF && isspace( c ) ) { }
+  for( ; c != EOF && !isspace( c ) ; c = fgetc( setup ) ) {
+    if( n < GLU_STR_LENGTH - 1 ) { word[ n ] = c ; }
+    n++ ;
+  }
+  if( c != EOF ) { ungetc( c , setup ) ; }
+  word[ n < GLU_STR_LENGTH ? n : GLU_STR_LENGTH - 1 ] = '\0' ;
+  return n ;
+}
+
+// complains about something longer than what we can store
+static int
+length_failure( const char *word )
+{
+  fprintf( stderr , "[IO] %s... in input file is longer than %d characters "
+	   "... Leaving\n" , word , GLU_STR_LENGTH - 1 ) ;
+  return GLU_FAILURE ;
+}
+
 // allocate the input file struct
-static void 
+static int
 pack_inputs( FILE *setup )
 {
+  NTAGS = 0 ;
   INPUT = ( struct inputs* )calloc( INPUTS_LENGTH , sizeof( struct inputs ) ) ;
-  // and put into the buffer
-  while( NTAGS++ , fscanf( setup , "%s = %s" , INPUT[ NTAGS ].TOKEN , 
-			   INPUT[ NTAGS ].VALUE )  != EOF ) { }
-  return ;
+  if( INPUT == NULL ) {
+    fprintf( stderr , "[IO] input file allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
+  // and put into the buffer, words that are not followed by an equals sign
+  // are not tags
+  char word[ GLU_STR_LENGTH ] ;
+  size_t len ;
+  while( ( len = next_word( word , setup ) ) != 0 ) {
+    int c ;
+    while( ( c = fgetc( setup ) ) != EOF && isspace( c ) ) { }
+    if( c != '=' ) {
+      if( c != EOF ) { ungetc( c , setup ) ; }
+      continue ;
+    }
+    if( len >= GLU_STR_LENGTH ) { return length_failure( word ) ; }
+    if( NTAGS == INPUTS_LENGTH ) {
+      fprintf( stderr , "[IO] more than %d tags in the input file\n" ,
+	       INPUTS_LENGTH ) ;
+      return GLU_FAILURE ;
+    }
+    // the value has to be on the same line
+    while( ( c = fgetc( setup ) ) != EOF && c != '\n' && isspace( c ) ) { }
+    if( c == EOF || c == '\n' ) {
+      fprintf( stderr , "[IO] no value for %s in the input file\n" , word ) ;
+      return GLU_FAILURE ;
+    }
+    ungetc( c , setup ) ;
+    strcpy( INPUT[ NTAGS ].TOKEN , word ) ;
+    if( next_word( INPUT[ NTAGS ].VALUE , setup ) >= GLU_STR_LENGTH ) {
+      return length_failure( INPUT[ NTAGS ].VALUE ) ;
+    }
+    NTAGS++ ;
+  }
+  return GLU_SUCCESS ;
 }
 
 // frees up the struct
@@ -62,6 +122,7 @@ static void
 unpack_inputs( void )
 {
   free( INPUT ) ;
+  INPUT = NULL ;
   return ;
 }
 
@@ -598,7 +659,11 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // if we can open the file we push it into a big structure
-  pack_inputs( infile ) ;
+  if( pack_inputs( infile ) == GLU_FAILURE ) {
+    fclose( infile ) ;
+    unpack_inputs( ) ;
+    return GLU_FAILURE ;
+  }
 
   int INPUT_FAILS = 0 ; // counter for the number of failures
 
-- 
2.43.0


From 0dfe04cd7104d78390816bd5dd5f8318f64d9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 087/105] fix: an input file without CONFIG_INFO or
 RANDOM_TRANSFORM was read out of bounds

---
 src/IO/input_reader.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 4757325..6ea053e 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -219,6 +219,7 @@ static int
 config_information( char *details )
 {
   const int details_idx = tag_search( "CONFIG_INFO" ) ;
+  if( details_idx == GLU_FAILURE ) { return tag_failure( "CONFIG_INFO" ) ; }
   sprintf( details , "%s" , INPUT[details_idx].VALUE ) ;
   return GLU_SUCCESS ;
 }
@@ -574,12 +575,13 @@ read_suNC_x_U1( struct u1_info *U1INFO )
 }
 
 // are we performing a random transform?
-static GLU_bool
-rtrans( void )
+static int
+random_transform_info( GLU_bool *rtrans )
 {
   const int rtrans_idx = tag_search( "RANDOM_TRANSFORM" ) ;
-  if( are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ) return GLU_TRUE ;
-  return GLU_FALSE ;
+  if( rtrans_idx == GLU_FAILURE ) { return tag_failure( "RANDOM_TRANSFORM" ) ; }
+  *rtrans = are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ? GLU_TRUE : GLU_FALSE ;
+  return GLU_SUCCESS ;
 }
 
 // pack the sm_info struct
@@ -681,7 +683,7 @@ get_input_data( struct infile_data *INFILE ,
   if( read_suNC_x_U1( &( INFILE -> U1INFO ) ) == GLU_FAILURE ) INPUT_FAILS++ ;
  
   // are we performing a random transform
-  INFILE -> rtrans = rtrans( ) ;
+  if( random_transform_info( &( INFILE -> rtrans ) ) == GLU_FAILURE ) INPUT_FAILS++ ;
 
   // get the header type
   if( header_type( &( INFILE -> head ) ) == GLU_FAILURE ) { 
@@ -696,7 +698,7 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // put the config info 
-  config_information( INFILE -> output_details ) ;
+  if( config_information( INFILE -> output_details ) == GLU_FAILURE ) INPUT_FAILS++ ;
 
   // poke in some heatbath related things
   INFILE -> HBINFO.continuation = GLU_FALSE ;
-- 
2.43.0


From 11bdad536d0f257a93716838489204d60a7cc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 088/105] fix: input files without a usable CONFNO, or DIM_ for
 UNIT, were accepted

---
 src/IO/input_reader.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 6ea053e..2e9530a 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -178,20 +178,6 @@ setdbl( double *val ,
   return GLU_SUCCESS ;
 }
 
-// quickly get the configuration number from the input file
-// must be greater than or equal to zero
-static size_t
-confno( void )
-{
-  size_t conf = 0 ;
-  if( setint( &conf , "CONFNO" ) == GLU_FAILURE ) {
-    fprintf( stderr , "[IO] I do not understand CONFNO %zu \n" , conf ) ;
-    fprintf( stderr , "[IO] CONFNO should be greater than 0\n" ) ;
-    return 0 ;
-  }
-  return conf ;
-}
-
 // read from the input file our dimensions
 static int
 read_random_lattice_info( void )
@@ -309,7 +295,9 @@ header_type( header_mode *HEADINFO )
   {
     const int header_idx = tag_search( "HEADER" ) ;
     if( header_idx == GLU_FAILURE ) { return tag_failure( "HEADER" ) ; }
-    Latt.flow = confno( ) ;
+    if( setint( &Latt.flow , "CONFNO" ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     if( are_equal( INPUT[header_idx].VALUE , "NERSC" ) ) {
       fprintf( stdout , "[IO] Attempting to read a NERSC file \n" ) ;
       *HEADINFO = NERSC_HEADER ;
@@ -370,7 +358,7 @@ header_type( header_mode *HEADINFO )
     } else if( are_equal( INPUT[header_idx].VALUE , "UNIT" ) ) {
       fprintf( stdout , "[IO] Attempting to generate an %dx%d UNIT config \n" 
 	       , NC , NC ) ;
-      read_random_lattice_info( ) ;
+      if( read_random_lattice_info( ) == GLU_FAILURE ) return GLU_FAILURE ;
       *HEADINFO = UNIT_GAUGE ;
     } else if( are_equal( INPUT[header_idx].VALUE , "INSTANTON" ) ) {
       fprintf( stdout , "[IO] Attempting to generate a SU(%d) BPST "
-- 
2.43.0


From 48d252f93063ec10472bfbb78a02ed0e331dd054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 089/105] fix: numbers of the input file that could not be
 understood were used

---
 src/IO/input_reader.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 2e9530a..fe051c3 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -135,6 +135,15 @@ tag_failure( const char *tag )
   return GLU_FAILURE ;
 }
 
+// prints out the problematic value
+static int
+value_failure( const int idx )
+{
+  fprintf( stderr , "[IO] I do not understand the value %s of %s in input file "
+	   "... Leaving\n" , INPUT[idx].VALUE , INPUT[idx].TOKEN ) ;
+  return GLU_FAILURE ;
+}
+
 // look for a tag and return the index if found, else return -1
 static int
 tag_search( const char *tag ) 
@@ -155,10 +164,12 @@ setint( size_t *val ,
   errno = 0 ;
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
-  *val = (size_t)strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
-    return GLU_FAILURE ;
+  const long num = strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
+  if( endptr == INPUT[idx].VALUE || *endptr != '\0' || errno == ERANGE ||
+      num < 0 ) {
+    return value_failure( idx ) ;
   }
+  *val = (size_t)num ;
   return GLU_SUCCESS ;
 }
 
@@ -172,8 +183,9 @@ setdbl( double *val ,
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
   *val = strtod( INPUT[idx].VALUE , &endptr ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
-    return GLU_FAILURE ;
+  if( endptr == INPUT[idx].VALUE || *endptr != '\0' || errno == ERANGE ||
+      !isfinite( *val ) ) {
+    return value_failure( idx ) ;
   }
   return GLU_SUCCESS ;
 }
@@ -235,9 +247,10 @@ get_mode( GLU_mode *mode )
   }
   // look at what seed type we are going to use
   {
-    const int seed_idx = tag_search( "SEED" ) ;
-    if( seed_idx == GLU_FAILURE ) { return tag_failure( "SEED" ) ; }
-    sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) ;
+    size_t seed ;
+    if( setint( &seed , "SEED" ) == GLU_FAILURE ) { return GLU_FAILURE ; }
+    if( seed > UINT32_MAX ) { return value_failure( tag_search( "SEED" ) ) ; }
+    Latt.Seed[0] = (uint32_t)seed ;
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 3b4f623c36ce4bb1fe1e37b959664c0d04aa959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 090/105] fix: the documented FIELD_DEFINITION = LOG gave the
 linear definition

---
 src/IO/input_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index fe051c3..2a7087e 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -480,7 +480,8 @@ read_cuts_struct( struct cut_info *CUTINFO )
     const int field_idx = tag_search( "FIELD_DEFINITION" ) ;
     if( field_idx == GLU_FAILURE ) { return tag_failure( "FIELD_DEFINITION" ) ; }
     CUTINFO -> definition = LINEAR_DEF ;
-    if( are_equal( INPUT[field_idx].VALUE , "LOGARITHMIC" ) ) {
+    if( are_equal( INPUT[field_idx].VALUE , "LOG" ) ||
+	are_equal( INPUT[field_idx].VALUE , "LOGARITHMIC" ) ) {
       CUTINFO -> definition = LOG_DEF ;
     } 
   }
-- 
2.43.0


From 732f56c496a5e41b9a57498ecba45bdea2be136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 091/105] fix: the heatbath divided by zero for SAVE or MEASURE
 of 0

---
 src/IO/input_reader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 2a7087e..d4a506b 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -699,6 +699,13 @@ get_input_data( struct infile_data *INFILE ,
     INPUT_FAILS++ ;
   }
 
+  // the heatbath works modulo these
+  if( INFILE -> mode == MODE_HEATBATH && 
+      ( INFILE -> HBINFO.Nsave == 0 || INFILE -> HBINFO.Nmeasure == 0 ) ) {
+    fprintf( stderr , "[IO] SAVE and MEASURE have to be at least 1 ... Leaving\n" ) ;
+    INPUT_FAILS++ ;
+  }
+
   // put the config info 
   if( config_information( INFILE -> output_details ) == GLU_FAILURE ) INPUT_FAILS++ ;
 
-- 
2.43.0


From cda2be90ee70731747c286d99966b2cf3c4cb749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 092/105] fix: the help named tags and values that the input
 reader does not know

---
 src/IO/input_help.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/IO/input_help.c b/src/IO/input_help.c
index d539e0a..6e911a9 100755
--- a/src/IO/input_help.c
+++ b/src/IO/input_help.c
@@ -77,7 +77,7 @@ create_input_file( const char *mode_str ,
 static void
 cuttype_types( void )
 {
-  fprintf( stdout , "CUTTYPE = CONFIGSPACE_GLUE           - "
+  fprintf( stdout , "CUTTYPE = CONFIGSPACE_GLUONS         - "
 	   "Computes the configuration space gluon propagator,"
 	   "must be gauge fixed \n" ) ;
   fprintf( stdout , "CUTTYPE = EXCEPTIONAL                - "
@@ -157,7 +157,7 @@ cuttype_types( void )
 	   "                                       Also performs smearing "
 	   "specified by the smearing options in the input file\n" ) ;
   fprintf( stdout , "CUTTYPE = {ALL ELSE} - Do Nothing \n" ) ;
-  fprintf( stdout , "\nCONFIGSPACE_GLUE, EXCEPTIONAL, GLUON_PROPS and "
+  fprintf( stdout , "\nCONFIGSPACE_GLUONS, EXCEPTIONAL, GLUON_PROPS and "
 	   "NON_EXCEPTIONAL require the gauge field to be fixed to "
 	   "Landau gauge\n" ) ;
   fprintf( stdout , "\nINSTANTANEOUS_GLUONS and STATIC_POTENTIAL "
@@ -285,7 +285,7 @@ momcut_types( void )
 	   "the momentum-space lattice\n" ) ;
   fprintf( stdout , "        = HYPERCUBIC_CUT - Include individual momenta "
 	   "that satisfy |p| < sqrt(MAX_MOM) \n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}     - Do nothing \n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}     - Defaults to SPHERICAL_CUT \n" ) ;
   fprintf( stdout , "\nn^{2} is (anisotropy corrected) n_{mu}n_{mu} Fourier "
 	   "mode product, for {mu} being polarisations on the lattice\n" ) ;
   return ;
@@ -344,8 +344,7 @@ storage_types( void )
 	   "link matrices\n" ) ;
   fprintf( stdout , "        = SCIDAC      - Writes a SCIDAC format "
 	   "configuration\n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}  - Defaults to the NERSC_NCxNC "
-	   "format\n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}  - Complains and leaves\n" ) ;
   fprintf( stdout , "\n*caution* our MILC configurations are not *actually* "
 	   "MILC standard, as they don't have a double precision\n"
 	   "           output at the moment. We will see if that changes.\n" ) ;
@@ -399,8 +398,8 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "        0 - Generates a SEED from urandom if it is available\n") ;
   } else if( are_equal( help_str , "--help=GFTYPE" ) ) {
     gftype_types( ) ;
-  } else if( are_equal( help_str , "--help=GFTUNE" ) ) {
-    fprintf( stdout , "GFTUNE = %%lf - User specified tuning parameter for "
+  } else if( are_equal( help_str , "--help=GF_TUNE" ) ) {
+    fprintf( stdout , "GF_TUNE = %%lf - User specified tuning parameter for "
 	     "the gauge fixing this should generally be < 0.1, less "
 	     "important for the default CG routines\n" ) ;
   } else if( are_equal( help_str , "--help=IMPROVEMENTS" ) ) {
@@ -417,7 +416,7 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "changing the tuning\n" , GF_GLU_FAILURES ) ;
   } else if( are_equal( help_str , "--help=CUTTYPE" ) ) {
     cuttype_types( ) ;
-  } else if( are_equal( help_str , "--help=FIELD_DEFINTION" ) ) {
+  } else if( are_equal( help_str , "--help=FIELD_DEFINITION" ) ) {
     fprintf( stdout , "FIELD_DEFINITION = LOG        - Exact logarithm "
 	     "definition of the gauge fields\n" ) ;
     fprintf( stdout , "FIELD_DEFINITION = {ALL ELSE} - Hermitian projection "
@@ -438,7 +437,7 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "                  where L is the smallest lattice direction's "
 	     "length\n" ) ;
   } else if( are_equal( help_str , "--help=ANGLE" ) ) {
-    fprintf( stdout , "ANGLE = %%lf - conical cut's angle of the apex of "
+    fprintf( stdout , "ANGLE = %%d - conical cut's angle of the apex of "
 	     "the cone\n" ) ;
   } else if( are_equal( help_str , "--help=OUTPUT" ) ) {
     fprintf( stdout , "OUTPUT = %%s - prefix destination for where the "
@@ -459,12 +458,12 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "often finish\n"
 	     "               before this number is reached\n" ) ;
   } else if( are_equal( help_str , "--help=ALPHA" ) ) {
-    fprintf( stdout , "ALPHA_%%d = %%lf - Smearing parameters for each "
+    fprintf( stdout , "ALPHA%%d = %%lf - Smearing parameters for each "
 	     "level of smearing, expects ND-1 of these\n"
-	     "                 e.g. ALPHA_1, ALPHA_2 .. ALPHA_ND-1 "
+	     "                 e.g. ALPHA1, ALPHA2 .. ALPHA{ND-1} "
 	     "for Hypercubically blocked smearing in\n"
 	     "                 all directions. For the Wilson flow and for "
-	     "APE, LOG and STOUT smearings ALPHA_1 is the only relevant\n"
+	     "APE, LOG and STOUT smearings ALPHA1 is the only relevant\n"
 	     "                 parameter and all others are ignored\n" ) ;
   } else if( are_equal( help_str , "--help=U1_MEAS" ) ) {
     U1meas_types( ) ;
@@ -497,8 +496,8 @@ GLU_helps_those_who_help_themselves( const char *help_str )
   } else if( are_equal( help_str , "--help=SAVE" ) ) {
     fprintf( stdout , "SAVE = %%d - the iteration count at which we save "
 	     "a configuration in the HB-OR\n" ) ;
-  } else if( are_equal( help_str , "--help=THERMALISATION" ) ) {
-    fprintf( stdout , "THERMALISATION = %%d - the number of HB-OR iterations "
+  } else if( are_equal( help_str , "--help=THERM" ) ) {
+    fprintf( stdout , "THERM = %%d - the number of HB-OR iterations "
 	     "of thermalisation before measurement and saving\n" ) ;    
   } else if( are_equal( help_str , "--autoin=LANDAU" ) ) {
     create_input_file( "GAUGE_FIXING" , "LANDAU" ,
@@ -515,6 +514,9 @@ GLU_helps_those_who_help_themselves( const char *help_str )
   } else if( are_equal( help_str , "--autoin=SUNCxU1" ) ) {
     create_input_file( "SUNCxU1" , "LANDAU" ,
 		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
+  } else if( are_equal( help_str , "--autoin=TOPOLOGICAL_SUSCEPTIBILITY" ) ) {
+    create_input_file( "CUTTING" , "LANDAU" ,
+		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
   } else if( are_equal( help_str , "--autoin=WFLOW" ) ) {
     create_input_file( "SMEARING" , "LANDAU" ,
 		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
-- 
2.43.0


From 495a5b822cc3546de38986d11fe85420abbc3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:31 +0000
Subject: [PATCH 093/105] fix: the line search of Landau gauge fixing did not
 return whether the functional decreases

---
 src/Gfix/line_search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Gfix/line_search.c b/src/Gfix/line_search.c
index 36f5c42..714ca56 100644
--- a/src/Gfix/line_search.c
+++ b/src/Gfix/line_search.c
@@ -352,7 +352,7 @@ line_search_Landau( double *red ,
 
   egauge_Landau( lat , in , min ) ;
   
-  return ; 
+  return is_descent( LINE_NSTEPS , Lalcg , val ) ;
 }
 
 #undef PC1
-- 
2.43.0


From a0070cef4d1f1f06c4011d74948d7af5a2de3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 094/105] fix: the ASCII_CHECK variant of the cuts did not
 compile

---
 src/Cuts/cut_output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 4505df2..4043723 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -314,7 +314,7 @@ write_g2g3_to_list( FILE *Ap ,
 		    size_t num_mom[ 1 ] ) 
 {
 #ifdef ASCII_CHECK
-  fprintf( stout , "[CUTS] g2g3\n%d\n", num_mom[ 0 ] ) ;
+  fprintf( stdout , "[CUTS] g2g3\n%d\n", num_mom[ 0 ] ) ;
   size_t i ;
   for( i = 0 ; i < num_mom[0] ; i++ ) { 
     printf( stdout , "%e\n", g2[i] ) ; 
-- 
2.43.0


From aa21205700d53934949d9268f2af2ee49f9473e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:41 +0000
Subject: [PATCH 095/105] fix: an output file of the cuts or topology that
 cannot be opened crashed the measurement

---
 src/Cuts/3Dcuts.c         |  8 +++++++-
 src/Cuts/config_gluons.c  |  6 +++++-
 src/Cuts/cut_output.c     | 25 +++++++++++++++++++++----
 src/Cuts/cuts.c           |  8 +++++++-
 src/Cuts/smearing_param.c |  9 ++++++++-
 src/Field/POLY.c          | 11 ++++++++++-
 src/Field/Qcorr.c         | 12 +++++++++---
 src/Field/Qslab.c         | 11 +++++++++--
 src/Field/Qsusc.c         |  4 +++-
 src/Headers/cut_output.h  | 14 ++++++++++++--
 10 files changed, 91 insertions(+), 17 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index 0c1d1a9..266806c 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -160,7 +160,13 @@ cuts_spatial ( struct site *__restrict A ,
 
   // create some useful output and open the file
   char *str = output_str_struct( CUTINFO ) ;
-  FILE *Aps = fopen( str , "wb" ) ; 
+  FILE *Aps = open_cutfile( str ) ;
+  if( Aps == NULL ) {
+    free( (void*)list ) ;
+    free( num_mom ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   write_mom_veclist( Aps , num_mom , list , ND - 1 ) ;
 
diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index d038d93..2b6f6e1 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -364,7 +364,11 @@ cuts_struct_configspace( struct site *__restrict A ,
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cutfile( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // compute the temporal and spatial correlators
   double *gsp = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 4043723..ce40098 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -397,8 +397,19 @@ write_mom_veclist( FILE *Ap ,
   return ;
 }
 
+// open the output file
+FILE *
+open_cutfile( const char *str )
+{
+  FILE *Ap = fopen( str , "wb" ) ;
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+  }
+  return Ap ;
+}
+
 // write out some moments, re and imaginary
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements )
 {
@@ -412,9 +423,15 @@ write_moments( struct Qmoments *Qmom ,
   for( mu = 0 ; mu < ND ; mu++ ) {
 
     sprintf( filename , "Qmoment_d%zu.%zu.bin" , mu , Latt.flow ) ;
-    Qm = fopen( filename , "wb" ) ;
+    Qm = open_cutfile( filename ) ;
     sprintf( filename , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
-    Q2m = fopen( filename , "wb" ) ;
+    Q2m = open_cutfile( filename ) ;
+    if( Qm == NULL || Q2m == NULL ) {
+      if( Qm != NULL ) { fclose( Qm ) ; }
+      if( Q2m != NULL ) { fclose( Q2m ) ; }
+      free( re ) ;
+      return GLU_FAILURE ;
+    }
 
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Qm ) ;
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Q2m ) ;
@@ -438,7 +455,7 @@ write_moments( struct Qmoments *Qmom ,
   
   free( re ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // write out rsq's for the correlator
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index a3dceb0..98dff72 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -146,7 +146,13 @@ cuts_struct( struct site *__restrict A ,
   correct_pspace_landau( A , list , in , ND ) ;
   
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cutfile( str ) ;
+  if( Ap == NULL ) {
+    free( (void*)list ) ;
+    free( in ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   int check = 0 ;
   switch( CUTINFO.dir ) {
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index 18bc0a7..87a4125 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -266,7 +266,14 @@ cuts_struct_smeared( struct site *__restrict A ,
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cutfile( str ) ;
+  if( Ap == NULL ) {
+    free_lat( SM_A ) ;
+    free( (void*)list ) ;
+    free( in ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // Here we write the two LANDAU gauge gluon propagators, 
   // unsmeared first and then smeared
diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index 5879d57..82c1710 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -346,7 +346,16 @@ Coul_staticpot( struct site *lat ,
 
   // set up the outputs
   const char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ;
+  FILE *Ap = open_cutfile( str ) ;
+  if( Ap == NULL ) {
+    for( i = 0 ; i < LVOLUME ; i++ ) {
+      free( poly[i] ) ;
+    }
+    free( poly ) ;
+    free( list ) ;
+    free( (void*)str ) ;
+    return GLU_FAILURE ;
+  }
 
   // write the list, in cut_outputs.c
   write_mom_veclist( Ap , size , list , ND-1 ) ;
diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index 2b75ba6..0095a7c 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -40,7 +40,8 @@ temporal_correlator( const GLU_complex *qtop ,
   // append .tcorr onto the output
   char cstr[ strlen(str)+7 ] ;
   sprintf( cstr , "%s.tcorr" , str ) ; 
-  FILE *Ap = fopen( cstr , "wb" ) ; 
+  FILE *Ap = open_cutfile( cstr ) ;
+  if( Ap == NULL ) { return GLU_FAILURE ; }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ND-1] } ;
@@ -107,7 +108,12 @@ compute_Qcorr( struct site *__restrict lat ,
   char tmp[64] ;
   sprintf( tmp , "m%zu" , measurement ) ;
   append_char( &str , tmp ) ; 
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cutfile( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ;
+    free( list ) ;
+    return GLU_FAILURE ;
+  }
 
   // flag for success or failure
   int FLAG = GLU_FAILURE ;
@@ -221,7 +227,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #endif
 
   // look at the correlator of this thing too
-  temporal_correlator( FFTW.in , str ) ;
+  if( temporal_correlator( FFTW.in , str ) == GLU_FAILURE ) goto memfree ;
 
   // tell us where to go
   fprintf( stdout , "[CUTS] Outputting to %s \n" , str ) ;
diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 3a32dd5..cd4b199 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -82,7 +82,11 @@ compute_slabs( const GLU_complex *qtop ,
   char tmp[64] ;
   sprintf( tmp , ".m%zu.tcorr_d%zu" , measurement , SLAB_DIR ) ;
   append_char( &str , tmp ) ;
-  FILE *Ap = fopen( str , "wb" ) ;
+  FILE *Ap = open_cutfile( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ SLAB_DIR ] } ;
@@ -210,7 +214,10 @@ compute_Qsusc( struct site *lat ,
   // slabby slab slab
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    compute_slabs( qtop , CUTINFO , mu , measurement ) ;
+    if( compute_slabs( qtop , CUTINFO , mu , measurement ) == GLU_FAILURE ) {
+      free( qtop ) ;
+      return GLU_FAILURE ;
+    }
   }
   
   free( qtop ) ;
diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index fe3fa05..7f86ee3 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -95,7 +95,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
 
     // write to a file
-    write_moments( Qmom , CUTINFO.max_t-1 ) ;
+    if( write_moments( Qmom , CUTINFO.max_t-1 ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ;
+    }
     
     size_t t ;
     for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
diff --git a/src/Headers/cut_output.h b/src/Headers/cut_output.h
index ef30e84..964e041 100755
--- a/src/Headers/cut_output.h
+++ b/src/Headers/cut_output.h
@@ -129,9 +129,19 @@ write_mom_veclist( FILE *Ap ,
 		   const size_t DIR ) ;
 
 /**
-   @fn void write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
+   @fn FILE *open_cutfile( const char *str )
+   @brief open the output file, complains when it cannot be opened
+   @param str :: name of the file
+   @return the file or NULL
  **/
-void
+FILE *
+open_cutfile( const char *str ) ;
+
+/**
+   @fn int write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
+   @return #GLU_SUCCESS or #GLU_FAILURE
+ **/
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements ) ;
 
-- 
2.43.0


From d3cc39456ba735ff8e2e6098806666c44d4986f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:41 +0000
Subject: [PATCH 096/105] fix: the program and its mode functions reported
 success whatever the operation returned

---
 src/Headers/CUT_wrap.h     |  5 +++--
 src/Run/Mainfile.c         | 15 ++++++++-------
 src/Update/KPHB.c          |  7 ++++++-
 src/Wrappers/CUT_wrap.c    | 19 ++++++++++---------
 src/Wrappers/GF_wrap.c     |  2 +-
 src/Wrappers/GLUlib_wrap.c | 23 +++++++++++++++--------
 6 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/Headers/CUT_wrap.h b/src/Headers/CUT_wrap.h
index c5ef364..478e6c3 100755
--- a/src/Headers/CUT_wrap.h
+++ b/src/Headers/CUT_wrap.h
@@ -24,14 +24,15 @@
 #define GLU_CUT_WRAP
 
 /**
-   @fn void cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
+   @fn int cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
    @brief Wrapper function
 
    @param lat :: Gauge fields
    @param CUTINFO :: cutting information
    @param SMINFO :: smearing information
+   @return #GLU_SUCCESS or #GLU_FAILURE
  */
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO ) ;
diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index 6e7303f..57857d5 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -60,28 +60,29 @@ main( const int argc ,
   const struct infile_data INFILE = infile_struct ;
 
   // and the options
+  int flag = GLU_SUCCESS ;
   switch( INFILE.mode ) {
   case MODE_GF :
-    read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
+    flag = read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
 		  argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CUTS :
-    read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
+    flag = read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
     break ;
   case MODE_SMEARING :
-    read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
+    flag = read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
 		    argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CROSS_U1 :
-    read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
+    flag = read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
 		 argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_HEATBATH :
-    heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
+    flag = heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
 	      INFILE.output_details ) ;
     break ;
   default :
-    read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
+    flag = read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
 		    INFILE.storage , INFILE.output_details ) ;
     break ;
   }
@@ -89,5 +90,5 @@ main( const int argc ,
   // un-initialise GLU
   unstick_GLU( ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 0b899b4..0d34174 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -180,6 +180,9 @@ hb_update( struct site *lat ,
 #ifdef POLY_MEAS
   double *POLYred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
 #endif
+  // a configuration could fail to be saved
+  int flag = GLU_SUCCESS ;
+
   // thermalise
   start_timer( ) ;
   
@@ -229,6 +232,8 @@ hb_update( struct site *lat ,
 	    // write out the rng state
 	    sprintf( str , "%s.%zu.rand" , pch , i ) ;
 	    write_par_rng_state( str ) ;
+	  } else {
+	    flag = GLU_FAILURE ;
 	  }
 	}
       }
@@ -259,6 +264,6 @@ hb_update( struct site *lat ,
   // free the rng
   free_par_rng( ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
diff --git a/src/Wrappers/CUT_wrap.c b/src/Wrappers/CUT_wrap.c
index 0506e6d..a9fc415 100755
--- a/src/Wrappers/CUT_wrap.c
+++ b/src/Wrappers/CUT_wrap.c
@@ -31,44 +31,45 @@
 #include "smearing_param.h" // smeared gluon propagator
 
 // wrapper for the variousfa momentum-cutting and other measurement options
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO )
 {
+  int flag = GLU_SUCCESS ;
   start_timer( ) ;
 
   ///////////// CREATE CUTS ////////////
   switch( CUTINFO.dir ) {
   case INSTANTANEOUS_GLUONS :
-    cuts_spatial( lat , CUTINFO ) ;
+    flag = cuts_spatial( lat , CUTINFO ) ;
     break ;
   case CONFIGSPACE_GLUONS :
-    cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
+    flag = cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
     break ;
   case SMEARED_GLUONS :
-    cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
+    flag = cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
     break ;
   case STATIC_POTENTIAL :
-    Coul_staticpot( lat , CUTINFO , SMINFO ) ;
+    flag = Coul_staticpot( lat , CUTINFO , SMINFO ) ;
     break ;
   case TOPOLOGICAL_CORRELATOR :
   case TOPOLOGICAL_MOMENTS :
   case TOPOLOGICAL_SUSCEPTIBILITY :
-    compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
+    flag = compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
     break ;
   case GLUON_PROPS :
   case EXCEPTIONAL :
   case NONEXCEPTIONAL :
   case FIELDS :
     // all of the other momentum space routines are in here
-    cuts_struct( lat , CUTINFO ) ;
+    flag = cuts_struct( lat , CUTINFO ) ;
     break ;
   default :
-    return ;
+    return GLU_SUCCESS ;
   }
 
   print_time( ) ;
 
-  return ;
+  return flag ;
 }
diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index bcc8850..baeceda 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -195,7 +195,7 @@ GF_wrap( const char *infile ,
   case GLU_COULOMB_FIX :
     return GF_wrap_coulomb( lat , GFINFO ) ;
   case GLU_COULOMB_RESIDUAL_FIX :
-    GF_wrap_coulomb( lat , GFINFO ) ;
+    if( GF_wrap_coulomb( lat , GFINFO ) == GLU_FAILURE ) { return GLU_FAILURE ; }
     fprintf( stdout , "\n[GF] Residual gauge fixing step \n" ) ;
     residual_fix( lat ) ;
     output_information( lat ) ;
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 6970427..f1afede 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -244,12 +244,13 @@ heatbath( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // heatbath updates
-  hb_update( lat , HBINFO , infile , storage , output_details ) ;
+  const int FLAG = hb_update( lat , HBINFO , infile , storage ,
+			      output_details ) ;
   
   // free the gauge fields
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // checks unitarity and can write out a configuration
@@ -293,11 +294,11 @@ read_and_cut( const char *infile ,
   // should print out a warning
   if( lat == NULL ) return GLU_FAILURE ;
 
-  cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
+  const int FLAG = cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
 
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // gauge fixing
@@ -318,9 +319,12 @@ read_and_fix( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  GF_wrap( infile , lat , GFINFO ) ;
+  if( GF_wrap( infile , lat , GFINFO ) == GLU_FAILURE ) {
+    fprintf( stderr , "[GF] Gauge fixing failed\n" ) ;
+    FLAG = GLU_FAILURE ;
+  }
 
-  if( (Latt.argc-1) == WRITE ) {
+  if( FLAG == GLU_SUCCESS && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -347,9 +351,12 @@ read_and_smear( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+    fprintf( stderr , "[SMEAR] Smearing failed\n" ) ;
+    FLAG = GLU_FAILURE ;
+  }
 
-  if( (Latt.argc-1) == WRITE ) {
+  if( FLAG == GLU_SUCCESS && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
-- 
2.43.0


From ed4043ca93a070b7543f2d80e8d7ea91bd82346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 097/105] fix: declare the thread index overrelaxation with
 NSTOCH random subgroups draws with

---
 src/Update/relax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Update/relax.c b/src/Update/relax.c
index 08d802d..09c805c 100644
--- a/src/Update/relax.c
+++ b/src/Update/relax.c
@@ -48,7 +48,7 @@ static void
 overrelax( GLU_complex U[ NCNC ] , 
 	   const GLU_complex staple[ NCNC ] )
 {
-  #ifdef SOR
+  #if (defined SOR) || (NSTOCH != NSU2SUBGROUPS)
   const uint32_t thread = get_GLU_thread() ;
   #endif
   GLU_complex s0 GLUalign , s1 GLUalign ;
-- 
2.43.0


From 5fa6dfe4ae16b6efe4fe1bbbd670dc849116df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 098/105] fix: the ASCII listing of the three-gluon data is
 printed with fprintf

---
 src/Cuts/cut_output.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index ce40098..2a28a83 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -314,14 +314,14 @@ write_g2g3_to_list( FILE *Ap ,
 		    size_t num_mom[ 1 ] ) 
 {
 #ifdef ASCII_CHECK
-  fprintf( stdout , "[CUTS] g2g3\n%d\n", num_mom[ 0 ] ) ;
+  fprintf( stdout , "[CUTS] g2g3\n%zu\n", num_mom[ 0 ] ) ;
   size_t i ;
   for( i = 0 ; i < num_mom[0] ; i++ ) { 
-    printf( stdout , "%e\n", g2[i] ) ; 
+    fprintf( stdout , "%e\n", g2[i] ) ; 
   }
-  printf("%d \n", num_mom[ 0 ] ) ;
+  fprintf( stdout , "%zu\n", num_mom[ 0 ] ) ;
   for( i = 0 ; i < num_mom[0] ; i++ ) { 
-    printf( stdout , "%e\n", g3[i] ) ; 
+    fprintf( stdout , "%e\n", g3[i] ) ; 
   }
 #else
   uint32_t nmom[1] = { num_mom[0] } ;
-- 
2.43.0


From 2e5163d3d6f968200eed491138db2dea316a1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 099/105] fix: do not assign the Fourier-transform arrays
 through pointers of another type

---
 src/Field/Qcorr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index 0095a7c..43564f5 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -124,7 +124,8 @@ compute_Qcorr( struct site *__restrict lat ,
   // set up the matrix-valued array of the topological charge
   struct fftw_small_stuff FFTW ;
 #ifndef HAVE_FFTW3_H
-  FFTW.in = FFTW.out = FFTW.psq = NULL ;
+  FFTW.in = FFTW.out = NULL ;
+  FFTW.psq = NULL ;
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
 #else
   small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
-- 
2.43.0


From 26df5823559190105978c3ff81cc8e7e04d6c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 100/105] fix: the static potential without FFTW was the
 complex conjugate of the one with it

---
 src/Field/POLY.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index 82c1710..01ec70d 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -288,13 +288,13 @@ static_quark_correlator( double complex *result ,
 	const size_t sink   = translate + LCU * t ;
 	
 	// trace of the product
-	trace_ab_dag( &res , poly[source] , poly[sink] ) ;
+	trace_ab_dag( &res , poly[sink] , poly[source] ) ;
 	tr += res ;
 	
 	// and the trace-trace
 	const GLU_complex tr1 = trace( poly[source] ) ;
 	const GLU_complex tr2 = trace( poly[sink] ) ;
-	tracetrace += tr1 * conj( tr2 ) ;
+	tracetrace += tr2 * conj( tr1 ) ;
       }
     }
     result[i] = tr * NORM ;
-- 
2.43.0


From edef40176d0a4b8d9a665bfcf9111a61d3d7d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:59 +0000
Subject: [PATCH 101/105] fix: align the results stored by aligned vector
 stores

---
 src/Field/plaqs_links.c        | 4 ++--
 src/Matrix_Ops/LU_SSE.c        | 2 +-
 src/Matrix_Ops/trace_abc_SSE.c | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index da2e2fc..86da6a2 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -113,7 +113,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
 						  _mm_add_pd( SSE2_MUL_CONJ( tra2 , *( C + 7 ) ) ,
 							      SSE2_MUL_CONJ( tra3 , *( C + 8 ) ) ) ) ,
 				      *( D + 8 ) ) ) ;
-  double complex csum ;
+  double complex csum GLUalign ;
   _mm_store_pd( (void*)&csum , tr ) ;
   return creal( csum ) ;
   
@@ -174,7 +174,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr = _mm_add_pd( tr , SSE2_MUL_CONJ( _mm_add_pd( SSE2_MUL_CONJ( tra3 , C[2] ) ,
 						   SSE2_MUL_CONJ( tra4 , C[3] ) ) , D[3] ) ) ;
 
-  double complex csum ;
+  double complex csum GLUalign ;
   _mm_store_pd( (void*)&csum , tr ) ;
   return creal( csum ) ;
 
diff --git a/src/Matrix_Ops/LU_SSE.c b/src/Matrix_Ops/LU_SSE.c
index 3e62dad..75bf1d2 100644
--- a/src/Matrix_Ops/LU_SSE.c
+++ b/src/Matrix_Ops/LU_SSE.c
@@ -44,7 +44,7 @@ LU_det_overwrite( const size_t N , GLU_complex U[ N*N ] )
 {
   __m128d determinant = _mm_setr_pd( 1.0 , 0.0 ) ;
   register __m128d best , attempt , z1 , z2 ; 
-  double complex s ;
+  double complex s GLUalign ;
   size_t i , j , l , piv , perms = 0 ;
   __m128d *a = (__m128d*)U ;
 
diff --git a/src/Matrix_Ops/trace_abc_SSE.c b/src/Matrix_Ops/trace_abc_SSE.c
index 9a4bcf7..9ae126c 100644
--- a/src/Matrix_Ops/trace_abc_SSE.c
+++ b/src/Matrix_Ops/trace_abc_SSE.c
@@ -38,7 +38,7 @@ Re_trace_abc_dag_suNC( const GLU_complex a[ NCNC ] ,
   const __m128d *A = ( const __m128d* )a ;
   const __m128d *B = ( const __m128d* )b ;
   const __m128d *C = ( const __m128d* )c ;
-  double complex csum ;
+  double complex csum GLUalign ;
 #if NC == 3
   register __m128d E , F , G , H , J , K ;
   E = SSE2_MUL( *( A + 0 ) , *( B + 0 ) ) ;
@@ -157,7 +157,7 @@ trace_abc( GLU_complex *__restrict tr ,
   const __m128d *A = ( const __m128d* )a ;
   const __m128d *B = ( const __m128d* )b ;
   const __m128d *C = ( const __m128d* )c ;
-  double complex csum ;
+  double complex csum GLUalign ;
 #if NC == 3
   // first row
   const __m128d a0 = _mm_add_pd( SSE2_MUL( *( A + 0 ) , *( B + 0 ) ) ,
@@ -250,7 +250,7 @@ trace_abc_dag( GLU_complex *__restrict tr ,
   const __m128d *A = ( const __m128d* )a ;
   const __m128d *B = ( const __m128d* )b ;
   const __m128d *C = ( const __m128d* )c ;
-  double complex csum ;
+  double complex csum GLUalign ;
 #if NC == 3
   //const GLU_complex a0 = ( a[0] * b[0] + a[1] * b[3] + a[2] * b[6] ) ;
   const __m128d a0 = _mm_add_pd( SSE2_MUL( *( A + 0 ) , *( B + 0 ) ) ,
-- 
2.43.0


From 7eb3ac4938b5e961acac08b785e04933f0a9a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:24 +0000
Subject: [PATCH 102/105] fix: energy and charge measured along the flow were
 uninitialised in other than four dimensions

---
 src/Field/clover.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Field/clover.c b/src/Field/clover.c
index 6cec5a5..23a3b8b 100755
--- a/src/Field/clover.c
+++ b/src/Field/clover.c
@@ -926,6 +926,8 @@ compute_q( GLU_complex q[ NCNC ] ,
   #endif
   // compute the product of G_MUNU_1 with G_MUNU_2
   multab( q , GMUNU_1 , GMUNU_2 ) ;
+#else
+  zero_mat( q ) ;
 #endif
   return ;
 }
@@ -979,6 +981,9 @@ compute_Gmunu_kernel( double *__restrict plaq_t ,
   *plaq_sp = 2.0 * ( (double)NC - (double)trace( sum_1 ) ) ;
   *plaq_t  = 2.0 * ( (double)NC - (double)trace( sum_2 ) ) ;
 #endif
+#else
+  // the definition is for ND = 4 only
+  *plaq_t = *plaq_sp = *qtop = 0.0 ;
 #endif
   return ;
 }
-- 
2.43.0


From 8e7ceff27c688dc9557c7e1a65c6980f068532e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:02 +0000
Subject: [PATCH 103/105] fix: the projections 7 to 14 of the nonexceptional
 three-point function did not compile

---
 src/Cuts/triplet_gen.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 10d863d..0873184 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -407,29 +407,29 @@ get_proj_gracey( const double p[ ND ] ,
 #elif PROJ_GRACEY == 6
   return DENOM*(6.*(2.*p10 + 4.*p11 + 4.*p12 + 4.*p13 + 8.*p14 - 3.*p3 - 6.*p6 + 4.*p7 + 2.*p8 + 8.*p9)) ;
 #elif PROJ_GRACEY == 7
-  return DENOM*(8.*(6.*p1 - 4.*(1 + ND).*p10 - 8.*p11 - 8.*p12 - 8.*p13 - 10.*p14 + 6.*p2 + 6.*p3 + 3.*p4 + 3.*p5 + 3.*p6 - 4.*(2.*p7 + p8 + p9) - 
-	    ND.*(2.*p11 + 2.*p12 + 2.*p13 + p14 + 4.*(2.*p7 + p8 + p9)))) ;
+  return DENOM*(8.*(6.*p1 - 4.*(1 + ND)*p10 - 8.*p11 - 8.*p12 - 8.*p13 - 10.*p14 + 6.*p2 + 6.*p3 + 3.*p4 + 3.*p5 + 3.*p6 - 4.*(2.*p7 + p8 + p9) - 
+	    ND*(2.*p11 + 2.*p12 + 2.*p13 + p14 + 4.*(2.*p7 + p8 + p9)))) ;
 #elif PROJ_GRACEY == 8
-  return DENOM*(4.*(6.*p1 - 4.*(1 + ND).*p10 - 2.*p12 - 8.*p13 - 16.*p14 + 6.*p2 + 6.*p3 + 12.*p4 + 3.*p5 + 3.*p6 - 8.*p7 + 8.*p8 - 4.*p9 - 
-	     2.*(p11 + 4.*ND.*p11 + ND.*(4.*p12 + p13 + 2.*(p14 + 2.*p7 + 4.*p8 + p9))))) ;
+  return DENOM*(4.*(6.*p1 - 4.*(1 + ND)*p10 - 2.*p12 - 8.*p13 - 16.*p14 + 6.*p2 + 6.*p3 + 12.*p4 + 3.*p5 + 3.*p6 - 8.*p7 + 8.*p8 - 4.*p9 - 
+	     2.*(p11 + 4.*ND*p11 + ND*(4.*p12 + p13 + 2.*(p14 + 2.*p7 + 4.*p8 + p9))))) ;
 #elif PROJ_GRACEY == 9
-  return DENOM*(4.*(6.*p1 - 4.*(1 + ND).*p10 - 8.*p12 - 2.*p13 - 16.*p14 + 6.*p2 + 6.*p3 + 3.*p4 + 3.*p5 + 12.*p6 - 8.*p7 - 4.*p8 + 8.*p9 - 
-	    2.*(p11 + 4.*ND.*p11 + ND.*(p12 + 2.*(2.*p13 + p14 + 2.*p7 + p8 + 4.*p9))))) ;
+  return DENOM*(4.*(6.*p1 - 4.*(1 + ND)*p10 - 8.*p12 - 2.*p13 - 16.*p14 + 6.*p2 + 6.*p3 + 3.*p4 + 3.*p5 + 12.*p6 - 8.*p7 - 4.*p8 + 8.*p9 - 
+	    2.*(p11 + 4.*ND*p11 + ND*(p12 + 2.*(2.*p13 + p14 + 2.*p7 + p8 + 4.*p9))))) ;
 #elif PROJ_GRACEY == 10
-  return DENOM*(4.*(6.*p1 + (8 - 16.*ND).*p10 - 2.*p12 - 2.*p13 - 16.*p14 + 6.*p2 + 6.*p3 + 3.*p4 + 12.*p5 + 3.*p6 - 4.*(2.*p7 + p8 + p9) - 
-	     2.*((4 + ND).*p11 + 2.*ND.*(2.*p12 + 2.*p13 + p14 + 2.*p7 + p8 + p9)))) ;
+  return DENOM*(4.*(6.*p1 + (8 - 16.*ND)*p10 - 2.*p12 - 2.*p13 - 16.*p14 + 6.*p2 + 6.*p3 + 3.*p4 + 12.*p5 + 3.*p6 - 4.*(2.*p7 + p8 + p9) - 
+	     2.*((4 + ND)*p11 + 2.*ND*(2.*p12 + 2.*p13 + p14 + 2.*p7 + p8 + p9)))) ;
 #elif PROJ_GRACEY == 11
   return DENOM*(4.*(3.*p1 + 8.*p11 - 4.*p12 - 4.*p13 - 8.*p14 + 12.*p2 + 3.*p3 + 6.*p4 + 6.*p5 + 6.*p6 - 2.*(8.*p7 + p8 + p9) - 
-	    2.*((4 + ND).*p10 + 2.*ND.*(4.*p11 + p12 + p13 + 2.*p14 + p7 + 2.*(p8 + p9))))) ;
+	    2.*((4 + ND)*p10 + 2.*ND*(4.*p11 + p12 + p13 + 2.*p14 + p7 + 2.*(p8 + p9))))) ;
 #elif PROJ_GRACEY == 12
   return DENOM*(4.*(3.*p1 - 4.*p11 + 8.*p12 - 4.*p13 - 8.*p14 + 3.*p2 + 12.*p3 + 6.*p4 + 6.*p5 + 6.*p6 - 16.*p7 - 2.*p8 - 8.*p9 - 
-	     2.*(p10 + 4.*ND.*p10 + ND.*(2.*(p11 + 4.*p12 + p13 + 2.*p14 + p7 + 2.*p8) + p9)))) ;
+	     2.*(p10 + 4.*ND*p10 + ND*(2.*(p11 + 4.*p12 + p13 + 2.*p14 + p7 + 2.*p8) + p9)))) ;
 #elif PROJ_GRACEY == 13
   return DENOM*(4.*(12.*p1 - 4.*p11 - 4.*p12 + 8.*p13 - 8.*p14 + 3.*p2 + 3.*p3 + 6.*p4 + 6.*p5 + 6.*p6 - 2.*(8.*p7 + 4.*p8 + p9) - 
-	    2.*(p10 + 4.*ND.*p10 + ND.*(2.*p11 + 2.*p12 + 8.*p13 + 4.*p14 + 2.*p7 + p8 + 4.*p9)))) ;
+	    2.*(p10 + 4.*ND*p10 + ND*(2.*p11 + 2.*p12 + 8.*p13 + 4.*p14 + 2.*p7 + p8 + 4.*p9)))) ;
 #elif PROJ_GRACEY == 14
-  return DENOM*(8.*(3.*p1 - 2.*(4 + ND).*p10 - 4.*(1 + ND).*p11 - 4.*(1 + ND).*p12 - 4.*(1 + ND).*p13 - 
-	     8.*(1 + ND).*p14 + 3.*p2 + 3.*p3 + 6.*p4 + 6.*p5 + 6.*p6 - (10 + ND).*p7 - 2.*(4 + ND).*p8 - 2.*(4 + ND).*p9)) ;
+  return DENOM*(8.*(3.*p1 - 2.*(4 + ND)*p10 - 4.*(1 + ND)*p11 - 4.*(1 + ND)*p12 - 4.*(1 + ND)*p13 - 
+	     8.*(1 + ND)*p14 + 3.*p2 + 3.*p3 + 6.*p4 + 6.*p5 + 6.*p6 - (10 + ND)*p7 - 2.*(4 + ND)*p8 - 2.*(4 + ND)*p9)) ;
 #else
   return DENOM*(3.*(-2.*p1 + 4.*p10 + 2.*p11 - 4.*p12 + 2.*p13 - 4.*p14 - 5.*p2 + 4.*p3 + 2.*p4 - 4.*p5 + 5.*p6 + 4.*p7 - 2.*(p8 + p9)))/2. ;
 #endif
-- 
2.43.0


From 1e5d09120d7701efcb56dee9bbc51dc474183f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:18 +0000
Subject: [PATCH 104/105] fix: repeated SU(3) gauge transformations amplified
 their rounding errors until the links left the group

---
 src/Gfix/gtrans.c | 57 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/Gfix/gtrans.c b/src/Gfix/gtrans.c
index fa009ca..2e9b166 100755
--- a/src/Gfix/gtrans.c
+++ b/src/Gfix/gtrans.c
@@ -70,6 +70,25 @@ inline_gtransform_local( const __m128d *__restrict a ,
   const __m128d bp4 = _mm_add_pd( C , A ) ;
   const __m128d bp5 = _mm_add_pd( D , F ) ;
 
+  A = SSE2_MUL_CONJ( *(c+6) , *(b+0) ) ;
+  B = SSE2_MUL_CONJ( *(c+7) , *(b+1) ) ;
+  D = SSE2_MUL_CONJ( *(c+6) , *(b+3) ) ;
+  E = SSE2_MUL_CONJ( *(c+7) , *(b+4) ) ;
+  C = SSE2_MUL_CONJ( *(c+8) , *(b+2) ) ;
+  F = SSE2_MUL_CONJ( *(c+8) , *(b+5) ) ;
+
+  A = _mm_add_pd( A , B ) ;
+  D = _mm_add_pd( D , E ) ;
+  const __m128d bp6 = _mm_add_pd( C , A ) ;
+  const __m128d bp7 = _mm_add_pd( F , D ) ;
+
+  A = SSE2_MUL_CONJ( *(c+6) , *(b+6) ) ;
+  B = SSE2_MUL_CONJ( *(c+7) , *(b+7) ) ;
+  C = SSE2_MUL_CONJ( *(c+8) , *(b+8) ) ;
+
+  A = _mm_add_pd( A , B ) ;
+  const __m128d bp8 = _mm_add_pd( C , A ) ;
+
   A = SSE2_MULCONJ( bp0 , *( a + 0 ) ) ;
   B = SSE2_MULCONJ( bp1 , *( a + 1 ) ) ;
   D = SSE2_MULCONJ( bp3 , *( a + 0 ) ) ;
@@ -104,21 +123,24 @@ inline_gtransform_local( const __m128d *__restrict a ,
   *( b + 6 ) = _mm_add_pd( A , C ) ;
   *( b + 7 ) = _mm_add_pd( D , F ) ;
 
-  A = SSE2_MUL( *( b + 3 ) , *( b + 7 ) ) ;
-  B = SSE2_MUL( *( b + 4 ) , *( b + 6 ) ) ;
-  C = SSE2_MUL( *( b + 1 ) , *( b + 6 ) ) ;
-  D = SSE2_MUL( *( b + 0 ) , *( b + 7 ) ) ;
-  E = SSE2_MUL( *( b + 0 ) , *( b + 4 ) ) ;
-  F = SSE2_MUL( *( b + 1 ) , *( b + 3 ) ) ;
-
-  A = _mm_sub_pd( A , B ) ;
-  C = _mm_sub_pd( C , D ) ;
-  E = _mm_sub_pd( E , F ) ;
+  // the third column is not completed from the other two : repeated
+  // transformations would amplify the rounding off SU(3)
+  A = SSE2_MULCONJ( bp6 , *( a + 0 ) ) ;
+  B = SSE2_MULCONJ( bp7 , *( a + 1 ) ) ;
+  D = SSE2_MULCONJ( bp6 , *( a + 3 ) ) ;
+  E = SSE2_MULCONJ( bp7 , *( a + 4 ) ) ;
+  C = SSE2_MULCONJ( bp8 , *( a + 2 ) ) ;
+  F = SSE2_MULCONJ( bp8 , *( a + 5 ) ) ;
+  A = _mm_add_pd( A , B ) ;
+  D = _mm_add_pd( D , E ) ;
+  *( b + 2 ) = _mm_add_pd( A , C ) ;
+  *( b + 5 ) = _mm_add_pd( D , F ) ;
 
-  // complete
-  *( b + 2 ) = SSE2_CONJ( A ) ;
-  *( b + 5 ) = SSE2_CONJ( C ) ;
-  *( b + 8 ) = SSE2_CONJ( E ) ;
+  A = SSE2_MULCONJ( bp6 , *( a + 6 ) ) ;
+  B = SSE2_MULCONJ( bp7 , *( a + 7 ) ) ;
+  C = SSE2_MULCONJ( bp8 , *( a + 8 ) ) ;
+  A = _mm_add_pd( A , B ) ;
+  *( b + 8 ) = _mm_add_pd( A , C ) ;
 #elif NC == 2
   // similar to above
   register const __m128d bp0 = _mm_add_pd( SSE2_MUL_CONJ( *(c+0) , *(b+0) ) ,
@@ -146,10 +168,11 @@ inline_gtransform_local( const GLU_complex *__restrict a ,
 			 GLU_complex *__restrict b ,
 			 const GLU_complex *__restrict c )
 {
-  // standard gauge transform
+  // standard gauge transform, without completing the result from some of
+  // its elements as that would amplify the rounding off SU(N)
   GLU_complex temp[ NCNC ] GLUalign ;
-  multab_dag_suNC( temp , b , c ) ;
-  multab_suNC( b , a , temp ) ; 
+  multab_dag( temp , b , c ) ;
+  multab( b , a , temp ) ; 
   return ;
 }
 #endif
-- 
2.43.0


From c9538b2352fa334689adc167760835a71dd5ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:20 +0000
Subject: [PATCH 105/105] fix: an unknown precision in the header of a SciDAC
 or ILDG configuration was ignored

---
 src/IO/XML_info.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 61ffd11..458aac0 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -67,8 +67,8 @@ get_prec_tag( char *pch , const char *tag )
     if( !strncmp( pch , tmp , length+1 ) ) break ;
     snprintf( prec , sizeof( prec ) , "%s" , pch ) ;
   }
-  if( !strcmp( prec , "F" ) ) return FLOAT_PREC ;
-  if( !strcmp( prec , "D" ) ) return DOUBLE_PREC ;
+  if( *realFront( prec ) == 'F' ) return FLOAT_PREC ;
+  if( *realFront( prec ) == 'D' ) return DOUBLE_PREC ;
   const int sd = (int)strtol( realFront( prec ) , &endptr , 10 ) ;
   if( sd == 32 ) return FLOAT_PREC ;
   if( sd == 64 ) return DOUBLE_PREC ;
@@ -156,24 +156,22 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 
       // get the floating point output precision ...
       if( are_equal( pch , "precision" ) ) {
-	if( ( dimensions = get_prec_tag( pch , "precision" ) ) != -1 ) {
-	  if( dimensions == FLOAT_PREC ) {
-	    #ifdef verbose
-	    fprintf( stdout , "[IO] Attempting to read "
-		     "single precision data\n" ) ;
-	    #endif
-	    HEAD_DATA -> precision = FLOAT_PREC ;
-	  } else if( dimensions == DOUBLE_PREC ) {
-	    #ifdef verbose
-	    fprintf( stdout , "[IO] Attempting to read double "
-		     "precision data\n" ) ;
-	    #endif
-	    HEAD_DATA -> precision = DOUBLE_PREC ;
-	  } else {
-	    fprintf( stderr , "[IO] Precision %d not understood \n" , 
-		     dimensions ) ;
-	    return GLU_FAILURE ;
-	  }
+	dimensions = get_prec_tag( pch , "precision" ) ;
+	if( dimensions == FLOAT_PREC ) {
+	  #ifdef verbose
+	  fprintf( stdout , "[IO] Attempting to read "
+		   "single precision data\n" ) ;
+	  #endif
+	  HEAD_DATA -> precision = FLOAT_PREC ;
+	} else if( dimensions == DOUBLE_PREC ) {
+	  #ifdef verbose
+	  fprintf( stdout , "[IO] Attempting to read double "
+		   "precision data\n" ) ;
+	  #endif
+	  HEAD_DATA -> precision = DOUBLE_PREC ;
+	} else {
+	  fprintf( stderr , "[IO] Precision not understood \n" ) ;
+	  return GLU_FAILURE ;
 	}
       }
 
-- 
2.43.0


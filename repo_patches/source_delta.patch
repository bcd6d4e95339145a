From e9c7f34b0fcfd500dc479f070ddea310fa9d2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 01/27] fix: find_pk looks up each k over the whole table, so
 that k need not be sorted

---
 src/common.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index d44ed31..41097ee 100644
--- a/src/common.c
+++ b/src/common.c
@@ -193,7 +193,6 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
 			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
-			start = ind;
 			if (interpol==POLY) {
 				size_t ikmin = MAX(0,((long) ind)-2);
 				size_t ikmax = MIN(end,ind+2);
-- 
2.43.0


From 60ea25f74fe643a333cb8214269f938c701d8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 02/27] fix: linear interpolation at the last tabulated k does
 not read past the table

---
 src/common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common.c b/src/common.c
index 41097ee..639183d 100644
--- a/src/common.c
+++ b/src/common.c
@@ -198,6 +198,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 				size_t ikmax = MIN(end,ind+2);
 				pk[ik] = interpol_poly(k[ik],&(pkin.k[ikmin]),&(pkin.pk[ikmin]),ikmax-ikmin+1);
 			}
+			else if (ind==end) pk[ik] = pkin.pk[end];
 			else pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
 		}
 	}
-- 
2.43.0


From 52bf8241ec8244d7d042c71e57780731f610d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 03/27] fix: calc_running_sigmad2 restarts its cumulative
 integral where k decreases

---
 src/common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common.c b/src/common.c
index 639183d..3283530 100644
--- a/src/common.c
+++ b/src/common.c
@@ -216,6 +216,11 @@ void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff
 	histo_t sigmad2_ = 0.;
 	for (ik=0;ik<nk;ik++) {
 		histo_t kmax = k[ik]*uvcutoff;
+		if ((ik>0)&&(k[ik]<k[ik-1])) {
+			//k not sorted: restart the cumulative integral
+			iklin = 0;
+			sigmad2_ = 0.;
+		}
 		if (kmax < pk_lin.k[0]) {
 			sigmad2[ik] = 0.;
 			continue;
-- 
2.43.0


From cbae56ed836f7c4c58d9687789a36639357f296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 04/27] fix: print_k does not read the bounds of an empty k
 array

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0


From 5e4ce805af0cb2acd08e5e574b8c11976917e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 05/27] fix: set_spectra_B compares its second flag instead of
 assigning it

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..061cf0c 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From d4b51e8bc4cd35f3385cbbe41c04dbc851bf8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 06/27] fix: free_spectra_B marks the spectra as unset, as the
 next run_terms_B would use freed memory

---
 src/spectrum_B.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 061cf0c..44612c5 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -95,6 +95,8 @@ void free_spectra_B()
 {
 	free(pk_dt.pk);
 	free(pk_tt.pk);
+	pk_dt.nk = 0;
+	pk_tt.nk = 0;
 }
 
 void run_terms_B(size_t num_threads)
-- 
2.43.0


From 988ac01f758d00716191e9bd7afb53aafbe7f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 07/27] fix: the range of the Monte-Carlo integrals no longer
 sticks to the first linear power spectrum

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 14 ++++++++------
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..119b2db 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -16,7 +16,7 @@
 #define NINCREASE 700
 */
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static INTERPOL interpol_pk_lin = POLY;
@@ -30,12 +30,14 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From d209c9f3c67b79fb99e46326b379be0bb8136ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 08/27] fix: spectra of the B term are private to each thread,
 as all threads write them in init_B

---
 src/calc_pkcorr_from_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calc_pkcorr_from_B.c b/src/calc_pkcorr_from_B.c
index 99f0a1c..957d2ec 100644
--- a/src/calc_pkcorr_from_B.c
+++ b/src/calc_pkcorr_from_B.c
@@ -13,7 +13,7 @@
 static Pk pk_dt,pk_tt;
 static GaussLegendreQ gauss_legendre_q;
 static GaussLegendreMu gauss_legendre_mu;
-#pragma omp threadprivate(gauss_legendre_q,gauss_legendre_mu)
+#pragma omp threadprivate(pk_dt,pk_tt,gauss_legendre_q,gauss_legendre_mu)
 static const Precision precision_q_default = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static const Precision precision_mu_default = {.n=10,.min=-1.,.max=1.,.interpol=POLY};
-- 
2.43.0


From 99384d73127698e54282dee91b781b335a6ffb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 09/27] fix: set_running_uvcutoff reaches the A and B terms

---
 pyregpt/pyregpt.py     | 2 +-
 src/spectrum_A_1loop.c | 2 +-
 src/spectrum_A_2loop.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..8073569 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -313,7 +313,7 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
         func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 8320cd8..3311bb7 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -21,7 +21,7 @@ void set_precision_A_1loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_1loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_1loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index fb99862..ecc090e 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -19,7 +19,7 @@ void set_precision_A_2loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_2loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_2loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
-- 
2.43.0


From caf0f7196ead0a49eadc736fcb582d6b2cb9d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 10/27] fix: set_precision of all_q and all_mu, hence clear,
 reaches the 1-loop A term

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 8073569..05b7718 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -270,11 +270,11 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
-- 
2.43.0


From d4771dad30799e9deea008e38b958c95fe0aaab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 11/27] fix: set_precision of all_pklin names the setters that
 exist

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 05b7718..ea855f8 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -293,7 +293,7 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
-- 
2.43.0


From f02b7426678396eb21e1394b63131557d4049184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 12/27] fix: clear resets the interpolation of the linear power
 spectrum

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index ea855f8..dba55aa 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -333,6 +333,7 @@ class PyRegPT(Terms):
     def clear(self):
         #To reset all precision settings
         self.set_precision(calculation='all', n=0, min=1., max=-1., interpol='test')
+        self.set_precision(calculation='all_pklin', interpol='poly')
         self.set_running_uvcutoff(calculation='all')
         self.set_verbosity()
 
-- 
2.43.0


From fda609c7a2f9fae8160bdfa0b293ed81c7a34c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 13/27] fix: a new object does not reset the verbosity, which
 the library holds once for all objects

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index dba55aa..78acf10 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -247,7 +247,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From 3f93bb003b4eec95068865a9bc23a785fc1fc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 14/27] fix: zeros uses the dtype it is given, as
 SpectrumNoWiggle has no C_TYPE

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 78acf10..23afc71 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -118,8 +118,8 @@ class Terms(object):
         self['k'] = np.asarray(k, dtype=dtype).flatten()
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: self[key] = np.zeros((self.size,), dtype=dtype)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From a2ac19365fb2fe40f93b63c778497a3da839b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 15/27] fix: deepcopy of an object that has no linear power
 spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 23afc71..448b542 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -322,7 +322,7 @@ class PyRegPT(Terms):
 
     def deepcopy(self):
         new = super(PyRegPT, self).deepcopy()
-        new.spectrum_lin = self.spectrum_lin.deepcopy()
+        if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-- 
2.43.0


From 321e6116472bdbfc1e028bd265206aa305904b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 16/27] fix: sigma3sq is linear in the linear power spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 448b542..ba49505 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -407,7 +407,7 @@ class Spectrum2Loop(Spectrum1Loop):
 class Bias1Loop(PyRegPT):
 
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From 4c0491c83967c96a8e0212193a7f0c112b36a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 17/27] fix: pk_interp of the B term uses the values given for
 k out of range

---
 pyregpt/pyregpt.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index ba49505..c39ad73 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -573,15 +573,15 @@ class B1Loop(PyRegPT):
         beta2 = beta**2
         beta3 = beta2 * beta
         beta4 = beta2 * beta2
-        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=0., right=0.) \
-               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=0., right=0.) \
-               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=0., right=0.) \
-               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=0., right=0.) \
-               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=0., right=0.) \
-               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=0., right=0.) \
-               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=0., right=0.) \
-               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=0., right=0.) \
-               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=0., right=0.)
+        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=left, right=right) \
+               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=left, right=right) \
+               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=left, right=right) \
+               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=left, right=right) \
+               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=left, right=right) \
+               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=left, right=right) \
+               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=left, right=right) \
+               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=left, right=right) \
+               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=left, right=right)
 
 
 class B2Loop(B1Loop):
-- 
2.43.0


From bf4ecd24f9558d2e22dcea3aa204d834432b18fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 18/27] fix: pad_k for columns of several components, no k to
 add at the end, or a mode without constant values

---
 pyregpt/pyregpt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c39ad73..c19917a 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -97,16 +97,19 @@ class Terms(object):
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
+        k = np.asarray(k)
+        pad_kwargs = {'constant_values': constant_values} if mode == 'constant' else {}
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
         for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
+            pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
+            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **pad_kwargs)
+        end = self.size - pad_end
         self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
+        self['k'][end:] = k[len(k) - pad_end:]
         for key in kwargs:
             self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            self[key][end:] = kwargs[key][len(kwargs[key]) - pad_end:]
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
-- 
2.43.0


From 082253ac4a258169ddee9e1d6f47b59f75f2f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 19/27] fix: strided arrays given to set_spectrum_lin and
 interpol_poly are not read as if they were contiguous

---
 pyregpt/pyregpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c19917a..29a7048 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -216,6 +216,7 @@ class PyRegPT(Terms):
 
         nx = len(tabx)
         assert nx == len(taby)
+        tabx, taby = (np.ascontiguousarray(tab, dtype=self.C_TYPE) for tab in (tabx, taby))
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
         self.regpt.interpol_poly.argtypes = (self.C_TYPE, pointer, pointer, ctypes.c_size_t)
         self.regpt.interpol_poly.restype = self.C_TYPE
@@ -255,6 +256,7 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
+        for key in ['k', 'pk']: spectrum_lin[key] = np.ascontiguousarray(spectrum_lin[key], dtype=self.C_TYPE)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
         self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
-- 
2.43.0


From 922facba515689757274b89ad3b9eec52809091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 20/27] fix: each object computes with its own arrays and
 linear power spectrum

The library holds one set of pointers per calculation, shared by all objects: an object wrote its results to the arrays
of the last one on which set_terms was called, from the linear power spectrum set last, possibly freed since.
---
 pyregpt/pyregpt.py | 64 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 29a7048..0d48f1d 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -194,6 +194,7 @@ class SpectrumNoWiggle(SpectrumLin):
 class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
+    _bound = {}  # arrays the library holds pointers to: it has one set of terms per calculation, shared by all objects
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
 
     def __init__(self, *args, **kwargs):
@@ -230,6 +231,7 @@ class PyRegPT(Terms):
 
     def find_pk_lin(self, k, interpol='poly'):
 
+        self._bind_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
@@ -240,6 +242,7 @@ class PyRegPT(Terms):
 
     def calc_running_sigmad2(self, k, uvcutoff=0.5):
 
+        self._bind_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
@@ -260,6 +263,29 @@ class PyRegPT(Terms):
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
         self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self._bound['pk_lin'] = [self.spectrum_lin['k'], self.spectrum_lin['pk']]
+
+    def _is_bound(self, name, arrays):
+        bound = self._bound.get(name, [])
+        return len(bound) == len(arrays) and all(a is b for a, b in zip(bound, arrays))
+
+    def _bind_spectrum_lin(self):
+        # If this object has its own linear power spectrum, make it the one the library uses
+        if not hasattr(self, 'spectrum_lin'): return
+        if not self._is_bound('pk_lin', [self.spectrum_lin['k'], self.spectrum_lin['pk']]): self.set_spectrum_lin(self.spectrum_lin)
+
+    def _bind_terms(self, name):
+        # Make the arrays of this object the ones the library fills
+        for key in self.FIELDS:
+            self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+            if self[key].size != self.size * int(np.prod(self.SHAPE.get(key, ()))):
+                raise ValueError('Term {} does not have the size of k.'.format(key))
+        if self._is_bound(name, self.tolist()): return
+        func = getattr(self.regpt, name)
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, flags='C_CONTIGUOUS')
+        func.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
+        func(self.size, *self.tolist())
+        self._bound[name] = self.tolist()
 
     def set_pk_lin(self, k, pk):
 
@@ -351,12 +377,12 @@ class Spectrum1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        self._bind_terms('set_terms_spectrum_1loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_spectrum_1loop')
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -385,12 +411,12 @@ class Spectrum2Loop(Spectrum1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        self._bind_terms('set_terms_spectrum_2loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_spectrum_2loop')
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -465,12 +491,12 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        self._bind_terms('set_terms_bias_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_bias_1loop')
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -500,12 +526,12 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self._bind_terms('set_terms_A_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_A_1loop')
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -528,13 +554,13 @@ class A2Loop(A1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_2loop(self.size, *self.tolist())
+        self._bind_terms('set_terms_A_2loop')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_A_2loop')
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -556,13 +582,13 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_B(self.size, *self.tolist())
+        self._bind_terms('set_terms_B')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_B')
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
@@ -593,6 +619,8 @@ class B2Loop(B1Loop):
 
     def run_terms(self, nthreads=8):
 
+        self._bind_spectrum_lin()
+        self._bind_terms('set_terms_B')
         self.spectrum_1loop_dt = Spectrum1Loop()
         self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
-- 
2.43.0


From c8e48565c169c6f442c47735c28a570862dedafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 21/27] fix: series of the 2-loop velocity kernel at very
 different loop wavenumbers has the sign of its third-order term right

---
 src/gamma1_2loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma1_2loop.c b/src/gamma1_2loop.c
index 4694428..8cc511a 100644
--- a/src/gamma1_2loop.c
+++ b/src/gamma1_2loop.c
@@ -38,7 +38,7 @@ histo_t beta(FLAG a, histo_t q1, histo_t q2) {
 			histo_t diffy2 = diffy*diffy;
 			histo_t diffy3 = diffy2*diffy;
 			histo_t diffy4 = diffy3*diffy;
-			return 594232. / 33108075. + (91912.*diffy2)/33108075. - (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
+			return 594232. / 33108075. + (91912.*diffy2)/33108075. + (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
 		}
 		else if (y < 0.01) {
 			return 9886./429975. - 254356.*y*y/4729725.;
-- 
2.43.0


From b1326c21aded665332c2727f13a443c4508b918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:17 +0000
Subject: [PATCH 22/27] fix: set_precision of spectrum_1loop_q no longer looks
 up a setter of that name

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 0d48f1d..6f7270a 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -311,6 +311,7 @@ class PyRegPT(Terms):
         if calculation == 'spectrum_1loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma2_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
+            return
         if calculation == 'spectrum_2loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'gamma3_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
-- 
2.43.0


From a01c52cf9800a058f0d8050fc46bfdd821b38e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:19 +0000
Subject: [PATCH 23/27] fix: 1-loop correction of the second-order propagator
 is symmetric in its first two sides

---
 src/gamma2d_1loop.c | 3 +++
 src/gamma2t_1loop.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/gamma2d_1loop.c b/src/gamma2d_1loop.c
index 968baf0..80293ad 100644
--- a/src/gamma2d_1loop.c
+++ b/src/gamma2d_1loop.c
@@ -1873,6 +1873,9 @@ histo_t kernel_gamma2d_reg3rd(histo_t k1_,histo_t k2_,histo_t k3_,histo_t q_)
 
 histo_t kernel_gamma2d(histo_t k1,histo_t k2,histo_t k3,histo_t q)
 {	
+	//symmetric k1 <-> k2; the elongated case assumes that k2 is the smaller one
+	if (k1<k2) return kernel_gamma2d(k2, k1, k3, q);
+
 	if ((my_abs(k1/q-1.)<1.e-3)||(my_abs(k2/q-1.)<1.e-3)||(my_abs(k3/q-1.)<1.e-3)) return kernel_gamma2d_reg3rd(k1, k2, k3, q);
 	
 	if (my_abs(k2/k1-1.)<2.e-2) {
diff --git a/src/gamma2t_1loop.c b/src/gamma2t_1loop.c
index 96dc1e9..a09ce4a 100644
--- a/src/gamma2t_1loop.c
+++ b/src/gamma2t_1loop.c
@@ -1852,6 +1852,9 @@ histo_t kernel_gamma2t_reg3rd(histo_t k1_,histo_t k2_,histo_t k3_,histo_t q_)
 
 histo_t kernel_gamma2t(histo_t k1,histo_t k2,histo_t k3,histo_t q)
 {	
+	//symmetric k1 <-> k2; the elongated case assumes that k2 is the smaller one
+	if (k1<k2) return kernel_gamma2t(k2, k1, k3, q);
+
 	if ((my_abs(k1/q-1.)<1.e-3)||(my_abs(k2/q-1.)<1.e-3)||(my_abs(k3/q-1.)<1.e-3)) return kernel_gamma2t_reg3rd(k1, k2, k3, q);
 	
 	if (my_abs(k2/k1-1.)<2.e-2) {
-- 
2.43.0


From 8330835162bdd2f000b40ae6c9880877975b8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 24/27] fix: columns of the 1-loop A term are aligned from
 set_terms on, so that rows can be selected before a run

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 6f7270a..cd2abca 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -528,6 +528,7 @@ class A1Loop(PyRegPT):
 
         self.zeros(k=k, dtype=self.C_TYPE)
         self._bind_terms('set_terms_A_1loop')
+        self.reshape()
 
     def run_terms(self, nthreads=8):
 
-- 
2.43.0


From 0f1a8b06255f8646af8402f51d085a8f2be1a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:48 +0000
Subject: [PATCH 25/27] fix: percentages of progress are those of the
 wavenumbers done, never above 100

---
 src/spectrum_1loop.c      | 2 +-
 src/spectrum_2loop.c      | 4 ++--
 src/spectrum_A_1loop.c    | 2 +-
 src/spectrum_A_2loop.c    | 4 ++--
 src/spectrum_B.c          | 2 +-
 src/spectrum_bias_1loop.c | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 9b5cfc9..fe5e0ed 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -85,7 +85,7 @@ void run_terms_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 		init_gamma2_tree();
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_1loop.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",100*ik/terms_1loop.nk);
 			histo_t k = terms_1loop.k[ik];
 			terms_1loop.gamma1a_1loop[ik] = gamma1_1loop(a,k);
 			if (b==a) terms_1loop.gamma1b_1loop[ik] = terms_1loop.gamma1a_1loop[ik];
diff --git a/src/spectrum_2loop.c b/src/spectrum_2loop.c
index ff55a00..7b1e8e2 100644
--- a/src/spectrum_2loop.c
+++ b/src/spectrum_2loop.c
@@ -82,7 +82,7 @@ void run_terms_spectrum_2loop(char* a_,char* b_,size_t num_threads)
 		init_gamma2t_1loop();
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_2loop.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",100*ik/terms_2loop.nk);
 			histo_t k = terms_2loop.k[ik];
 			calc_pk_gamma1_2loop(a,b,k,&(terms_2loop.gamma1a_1loop[ik]),&(terms_2loop.gamma1a_2loop[ik]),&(terms_2loop.gamma1b_1loop[ik]),&(terms_2loop.gamma1b_2loop[ik]));
 			calc_pk_gamma2_1loop(a,b,k,&(terms_2loop.pk_gamma2_tree_tree[ik]),&(terms_2loop.pk_gamma2_tree_1loop[ik]),&(terms_2loop.pk_gamma2_1loop_1loop[ik]));
@@ -98,7 +98,7 @@ void run_terms_spectrum_2loop(char* a_,char* b_,size_t num_threads)
 	}
 	init_gamma3_tree();
 	for (ik=0;ik<terms_2loop.nk;ik++) {
-		if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+		if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",100*ik/terms_2loop.nk);
 		calc_pk_gamma3_tree(a,b,terms_2loop.k[ik],&(terms_2loop.pk_gamma3_tree[ik]));
 	}
 	free_gamma3_tree();
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 3311bb7..465cc5b 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -56,7 +56,7 @@ void run_terms_A_1loop(size_t num_threads)
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_A.nk;ik++) {
 			histo_t k = terms_A.k[ik];
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",100*ik/terms_A.nk);
 			calc_pk_A_1loop(k,&(terms_A.A[ik*NCOMP]));
 		}
 #pragma omp critical
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index ecc090e..cafe410 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -54,7 +54,7 @@ void run_terms_A_2loop(size_t num_threads)
 		init_A_2loop_I();
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_A.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",100*ik/terms_A.nk);
 			histo_t k = terms_A.k[ik];
 			calc_pk_A_2loop_I(k,pk_A);
 			terms_A.A[ik*NCOMP] = pk_A[0] + pk_A[6];								//pk_A111 + pk_tA111, mu^2 * f
@@ -73,7 +73,7 @@ void run_terms_A_2loop(size_t num_threads)
 	}
 	init_A_2loop_II_III();
 	for (ik=0;ik<terms_A.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",100*ik/terms_A.nk);
 		histo_t k = terms_A.k[ik];
 		calc_pk_A_2loop_II_III(k,pk_A);
 		terms_A.A[ik*NCOMP] += pk_A[0] + pk_A[6];									//pk_A111 + pk_tA111, mu^2 * f
diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 44612c5..f195193 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -123,7 +123,7 @@ void run_terms_B(size_t num_threads)
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_B.nk;ik++) {
 			histo_t k = terms_B.k[ik];
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",100*ik/terms_B.nk);
 			calc_pk_B(k,pk_B);
 			terms_B.B[ik*NCOMP] = pk_B[0];					//pk_B111, mu^2 * f^2
 			terms_B.B[ik*NCOMP+1] = - (pk_B[1] + pk_B[2]);	//pk_B112 + pk_B121, mu^2 * f^3 
diff --git a/src/spectrum_bias_1loop.c b/src/spectrum_bias_1loop.c
index 401ecd9..96dab4c 100644
--- a/src/spectrum_bias_1loop.c
+++ b/src/spectrum_bias_1loop.c
@@ -95,7 +95,7 @@ void run_terms_bias_1loop(size_t num_threads)
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_bias.nk;ik++) {
 			histo_t k = terms_bias.k[ik];
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",100*ik/terms_bias.nk);
 			terms_bias.pk_b2d[ik] = calc_pk_bias_1loop(DELTA,k,kernel_b2,1);
 			//terms_bias.pk_b2d[ik] = calc_pk_bias_1loop(DELTA,k,kernel_b2,0);
 			terms_bias.pk_bs2d[ik] = calc_pk_bias_1loop(DELTA,k,kernel_bs2,1);
-- 
2.43.0


From c1decc96bdede49c0fbbdb74077931d7f71de0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:32 +0000
Subject: [PATCH 26/27] fix: pad and clean all columns of a container, not only
 the standard ones

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index cd2abca..537e1bf 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -101,7 +101,7 @@ class Terms(object):
         pad_kwargs = {'constant_values': constant_values} if mode == 'constant' else {}
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
-        for key in self.FIELDS:
+        for key in self.fields:
             pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
             self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **pad_kwargs)
         end = self.size - pad_end
@@ -112,7 +112,7 @@ class Terms(object):
             self[key][end:] = kwargs[key][len(kwargs[key]) - pad_end:]
 
     def nan_to_zero(self):
-        for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
+        for key in self.fields: self[key][np.isnan(self[key])] = 0.
 
     def rescale(self, scale=1.):
         for key in self.fields: self[key] *= scale**(2 * self.SCALE[key])
-- 
2.43.0


From cea4f6d45db269091d6df55b5786ac399d38e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:25 +0000
Subject: [PATCH 27/27] fix: one growth factor per wavenumber for the A and B
 terms

---
 pyregpt/pyregpt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 537e1bf..1e6895c 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -13,7 +13,10 @@ def scale_factor(npk=1):
     def _decorate(func):
         @functools.wraps(func)
         def wrapper(self, Dgrowth=1., *args, **kwargs):
-            return Dgrowth**(2 * npk) * func(self, *args, **kwargs)
+            pk = func(self, *args, **kwargs)
+            # one growth factor per wavenumber, the first axis of pk
+            if np.ndim(Dgrowth) == 1 and np.ndim(pk) > 1: Dgrowth = np.asarray(Dgrowth)[:, None]
+            return Dgrowth**(2 * npk) * pk
         return wrapper
     return _decorate
 
-- 
2.43.0


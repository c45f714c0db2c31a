From 0c673026b946130d228b120573d03f0cbdc9ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 01/22] fix: find_pk gives the same value for a k whatever was
 looked up before it

---
 src/common.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index d44ed31..41097ee 100644
--- a/src/common.c
+++ b/src/common.c
@@ -193,7 +193,6 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
 			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
-			start = ind;
 			if (interpol==POLY) {
 				size_t ikmin = MAX(0,((long) ind)-2);
 				size_t ikmax = MIN(end,ind+2);
-- 
2.43.0


From 24be820d54bcde6ad1f8b7b95bc15f01c77e739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 02/22] fix: linear interpolation at the last k does not read
 past the end of the table

---
 src/common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 41097ee..2bbd558 100644
--- a/src/common.c
+++ b/src/common.c
@@ -198,7 +198,10 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 				size_t ikmax = MIN(end,ind+2);
 				pk[ik] = interpol_poly(k[ik],&(pkin.k[ikmin]),&(pkin.pk[ikmin]),ikmax-ikmin+1);
 			}
-			else pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
+			else {
+				ind = MIN(ind,end-1); //k[ik] can be the last k
+				pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
+			}
 		}
 	}
 }
-- 
2.43.0


From ea009767f9d1386e3f1764d5bdded799db926c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 03/22] fix: calc_running_sigmad2 does not require k to be
 sorted

---
 src/common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common.c b/src/common.c
index 2bbd558..cacb765 100644
--- a/src/common.c
+++ b/src/common.c
@@ -218,6 +218,10 @@ void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff
 	histo_t sigmad2_ = 0.;
 	for (ik=0;ik<nk;ik++) {
 		histo_t kmax = k[ik]*uvcutoff;
+		if ((ik>0)&&(k[ik]<k[ik-1])) { //k not sorted, start again
+			iklin = 0;
+			sigmad2_ = 0.;
+		}
 		if (kmax < pk_lin.k[0]) {
 			sigmad2[ik] = 0.;
 			continue;
-- 
2.43.0


From bfa58b68897080455c2638016720896bfd6f85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 04/22] fix: print_k does not read an empty k

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0


From 1ef75d7fe105f627066f4145d815cc04928ca175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 05/22] fix: the range taken from the linear power spectrum is
 not kept for the next one (gamma3, A 2-loop)

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 14 ++++++++------
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..119b2db 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -16,7 +16,7 @@
 #define NINCREASE 700
 */
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static INTERPOL interpol_pk_lin = POLY;
@@ -30,12 +30,14 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From 0d819d135120a81ee5c49e443590f77afe6e893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 06/22] fix: set_spectra_B takes P_delta_delta for
 P_delta_theta no more

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..061cf0c 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From 2d68030240086bbe565380df3a03247923592db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 07/22] fix: run_terms_B forgets the spectra it has freed

---
 src/spectrum_B.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 061cf0c..44612c5 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -95,6 +95,8 @@ void free_spectra_B()
 {
 	free(pk_dt.pk);
 	free(pk_tt.pk);
+	pk_dt.nk = 0;
+	pk_tt.nk = 0;
 }
 
 void run_terms_B(size_t num_threads)
-- 
2.43.0


From 0fa1bc5efb348f0b5dcfa0052ea554d06967e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 08/22] fix: sign of the cubic term in the expansion of beta
 (theta) around y = 1

---
 src/gamma1_2loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma1_2loop.c b/src/gamma1_2loop.c
index 4694428..8cc511a 100644
--- a/src/gamma1_2loop.c
+++ b/src/gamma1_2loop.c
@@ -38,7 +38,7 @@ histo_t beta(FLAG a, histo_t q1, histo_t q2) {
 			histo_t diffy2 = diffy*diffy;
 			histo_t diffy3 = diffy2*diffy;
 			histo_t diffy4 = diffy3*diffy;
-			return 594232. / 33108075. + (91912.*diffy2)/33108075. - (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
+			return 594232. / 33108075. + (91912.*diffy2)/33108075. + (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
 		}
 		else if (y < 0.01) {
 			return 9886./429975. - 254356.*y*y/4729725.;
-- 
2.43.0


From 2898d7b491156d438fac5bfe79ce209428052de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 09/22] fix: set_precision reaches every calculation of a group
 (all_q, all_mu, all_pklin, spectrum_1loop_q)

---
 pyregpt/pyregpt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..7b566b7 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -270,16 +270,17 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma2_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
+            return
         if calculation == 'spectrum_2loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'gamma3_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
@@ -293,7 +294,7 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
-- 
2.43.0


From 9b3b666ae555449137e4d0889e16fec4f1efc45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 10/22] fix: the UV cutoff of sigmad2 can be set for the A and
 B terms

---
 pyregpt/pyregpt.py     | 2 +-
 src/spectrum_A_1loop.c | 2 +-
 src/spectrum_A_2loop.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 7b566b7..c09a9f6 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -314,7 +314,7 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
         func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 8320cd8..3311bb7 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -21,7 +21,7 @@ void set_precision_A_1loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_1loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_1loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index fb99862..ecc090e 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -19,7 +19,7 @@ void set_precision_A_2loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_2loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_2loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
-- 
2.43.0


From 0138b8a32b10471b5c58fa21cd7353cd751efc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 11/22] fix: clear resets the interpolation of the linear power
 spectrum

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c09a9f6..fa256fb 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -334,6 +334,7 @@ class PyRegPT(Terms):
     def clear(self):
         #To reset all precision settings
         self.set_precision(calculation='all', n=0, min=1., max=-1., interpol='test')
+        self.set_precision(calculation='all_pklin', interpol='poly')
         self.set_running_uvcutoff(calculation='all')
         self.set_verbosity()
 
-- 
2.43.0


From 491d5da84d75288bc68b30edc59495a0018bf649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 12/22] fix: the verbosity set by the user outlives the
 creation of other instances

---
 pyregpt/pyregpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index fa256fb..d48d413 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -192,12 +192,13 @@ class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
+    _verbose = 'info'
 
     def __init__(self, *args, **kwargs):
 
         super(PyRegPT, self).__init__(*args, **kwargs)
         self.regpt = ctypes.CDLL(self._path_lib, mode=ctypes.RTLD_LOCAL)
-        self.set_verbosity(self._verbose if hasattr(self, '_verbose') else 'info')
+        self.set_verbosity(self._verbose)
 
     def nodes_weights_gauss_legendre(self, xmin, xmax, nx):
 
@@ -247,7 +248,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode  # the library has one verbosity for all instances
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From d84095ab95305415363cadd5a4b0f981dae09413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 13/22] fix: zeros does not require C_TYPE
 (SpectrumNoWiggle.set_terms failed)

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index d48d413..c393abd 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -118,8 +118,8 @@ class Terms(object):
         self['k'] = np.asarray(k, dtype=dtype).flatten()
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: self[key] = np.zeros((self.size,), dtype=dtype)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From cbb5a824b38043d4bc60ff31f49c2d5309272434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 14/22] fix: sigma3sq is of order 1 in the linear power
 spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c393abd..4ff7d8b 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -409,7 +409,7 @@ class Spectrum2Loop(Spectrum1Loop):
 class Bias1Loop(PyRegPT):
 
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From d861a175ee971898a1e9ef5e7c2527524e4a5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 15/22] fix: pad_k without padding at the end, with columns of
 several dimensions, with any mode

---
 pyregpt/pyregpt.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4ff7d8b..b70165d 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -99,14 +99,13 @@ class Terms(object):
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
+        pad_kwargs = {'constant_values': constant_values} if mode == 'constant' else {}
         for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
-        self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
-        for key in kwargs:
-            self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
+            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **pad_kwargs)
+        for key, values in dict(k=k, **kwargs).items():
+            self[key][:pad_start] = values[:pad_start]
+            self[key][self.size - pad_end:] = values[len(values) - pad_end:]
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
-- 
2.43.0


From 246744cdc2f9cef26b8d8a2a31644111232a7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 16/22] fix: deepcopy of an instance without linear power
 spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index b70165d..52282e0 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -323,7 +323,7 @@ class PyRegPT(Terms):
 
     def deepcopy(self):
         new = super(PyRegPT, self).deepcopy()
-        new.spectrum_lin = self.spectrum_lin.deepcopy()
+        if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-- 
2.43.0


From dfba4eb50884c9e442d0894a5695e76d14a6b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 17/22] fix: pk_interp of the B terms takes left and right into
 account

---
 pyregpt/pyregpt.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 52282e0..7e40642 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -574,15 +574,15 @@ class B1Loop(PyRegPT):
         beta2 = beta**2
         beta3 = beta2 * beta
         beta4 = beta2 * beta2
-        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=0., right=0.) \
-               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=0., right=0.) \
-               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=0., right=0.) \
-               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=0., right=0.) \
-               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=0., right=0.) \
-               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=0., right=0.) \
-               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=0., right=0.) \
-               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=0., right=0.) \
-               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=0., right=0.)
+        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=left, right=right) \
+               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=left, right=right) \
+               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=left, right=right) \
+               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=left, right=right) \
+               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=left, right=right) \
+               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=left, right=right) \
+               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=left, right=right) \
+               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=left, right=right) \
+               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=left, right=right)
 
 
 class B2Loop(B1Loop):
-- 
2.43.0


From 8b95c4e652ee95a9b1fcaa5584973cef13970dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 18/22] fix: arrays handed to the library are contiguous and
 kept alive

---
 pyregpt/pyregpt.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 7e40642..4f53510 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -192,6 +192,7 @@ class PyRegPT(Terms):
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
     _verbose = 'info'
+    _bound_spectrum_lin = None  # arrays the library currently points to
 
     def __init__(self, *args, **kwargs):
 
@@ -211,6 +212,7 @@ class PyRegPT(Terms):
 
     def interpol_poly(self, x, tabx, taby):
 
+        tabx, taby = (np.ascontiguousarray(tab, dtype=self.C_TYPE) for tab in (tabx, taby))
         nx = len(tabx)
         assert nx == len(taby)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
@@ -252,9 +254,14 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        k, pk = self._spectrum_lin_arrays()
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(k.size,))
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-        self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self.regpt.set_pk_lin(k, pk, k.size)
+        PyRegPT._bound_spectrum_lin = (k, pk)
+
+    def _spectrum_lin_arrays(self):
+        return tuple(np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
 
     def set_pk_lin(self, k, pk):
 
@@ -559,10 +566,11 @@ class B1Loop(PyRegPT):
 
     def run_terms(self, nthreads=8):
 
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        k, pk = self._spectrum_lin_arrays()
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(k.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk)
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
 
@@ -590,21 +598,22 @@ class B2Loop(B1Loop):
     def run_terms(self, nthreads=8):
 
         self.spectrum_1loop_dt = Spectrum1Loop()
-        self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
+        k, _ = self._spectrum_lin_arrays()
+        self.spectrum_1loop_dt.set_terms(k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
 
         self.spectrum_1loop_tt = Spectrum1Loop()
-        self.spectrum_1loop_tt.set_terms(self.spectrum_lin.k)
+        self.spectrum_1loop_tt.set_terms(k)
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(k.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
 
         pk_dt = self.spectrum_1loop_dt.pk()  # why do I have to do that?
         pk_tt = self.spectrum_1loop_tt.pk()
 
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_dt)
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_tt)
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk_dt)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk_tt)
 
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From 3bd08921bb439dba10679083aa9a415b8a058658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 19/22] fix: an instance uses its own linear power spectrum,
 whatever other instances were given since

---
 pyregpt/pyregpt.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4f53510..0751924 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -231,6 +231,7 @@ class PyRegPT(Terms):
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
+        self._select_spectrum_lin()
         self.regpt.find_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t, ctypes.c_size_t)
         self.regpt.find_pk_lin(k, pk, len(k), 1 if interpol == 'poly' else 0)
 
@@ -241,6 +242,7 @@ class PyRegPT(Terms):
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
+        self._select_spectrum_lin()
         self.regpt.calc_running_sigmad2.argtypes = (pointer, pointer, ctypes.c_size_t, self.C_TYPE)
         self.regpt.calc_running_sigmad2(k, sigmad2, len(k), uvcutoff)
 
@@ -263,6 +265,13 @@ class PyRegPT(Terms):
     def _spectrum_lin_arrays(self):
         return tuple(np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
 
+    def _select_spectrum_lin(self):
+        # the library has one linear power spectrum: make it that of this instance, if it has one
+        if not hasattr(self, 'spectrum_lin'): return
+        bound = PyRegPT._bound_spectrum_lin
+        if bound is None or any(current is not array for current, array in zip(bound, self._spectrum_lin_arrays())):
+            self.set_spectrum_lin(self.spectrum_lin)
+
     def set_pk_lin(self, k, pk):
 
         spectrum_lin = SpectrumLin()
@@ -360,6 +369,7 @@ class Spectrum1Loop(PyRegPT):
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._select_spectrum_lin()
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -394,6 +404,7 @@ class Spectrum2Loop(Spectrum1Loop):
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._select_spectrum_lin()
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -474,6 +485,7 @@ class Bias1Loop(PyRegPT):
 
     def run_terms(self, nthreads=8):
 
+        self._select_spectrum_lin()
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -509,6 +521,7 @@ class A1Loop(PyRegPT):
 
     def run_terms(self, nthreads=8):
 
+        self._select_spectrum_lin()
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -538,6 +551,7 @@ class A2Loop(A1Loop):
 
     def run_terms(self, nthreads=8):
 
+        self._select_spectrum_lin()
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -566,6 +580,7 @@ class B1Loop(PyRegPT):
 
     def run_terms(self, nthreads=8):
 
+        self._select_spectrum_lin()
         k, pk = self._spectrum_lin_arrays()
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(k.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
@@ -597,6 +612,7 @@ class B2Loop(B1Loop):
 
     def run_terms(self, nthreads=8):
 
+        self._select_spectrum_lin()
         self.spectrum_1loop_dt = Spectrum1Loop()
         k, _ = self._spectrum_lin_arrays()
         self.spectrum_1loop_dt.set_terms(k)
-- 
2.43.0


From 8b56ac97f578e0145b4fe3c0f7ddc86b724011db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 20/22] fix: run_terms fills the terms of its own instance

---
 pyregpt/pyregpt.py | 48 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 0751924..0fd2c0c 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -193,6 +193,7 @@ class PyRegPT(Terms):
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
     _verbose = 'info'
     _bound_spectrum_lin = None  # arrays the library currently points to
+    _bound_terms = {}  # same, for each kind of terms
 
     def __init__(self, *args, **kwargs):
 
@@ -279,6 +280,22 @@ class PyRegPT(Terms):
         spectrum_lin['pk'] = np.asarray(pk, dtype=self.C_TYPE).flatten()
         self.set_spectrum_lin(spectrum_lin)
 
+    def _set_terms(self, name):
+        # gives the library the arrays of this instance (as views of one dimension)
+        for key in self.FIELDS: self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+        columns = [column.reshape(-1) for column in self.tolist()]
+        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(column.size,)) for column in columns]
+        func = getattr(self.regpt, 'set_terms_' + name)
+        func.argtypes = (ctypes.c_size_t,) + tuple(pointers)
+        func(self.size, *columns)
+        PyRegPT._bound_terms[name] = columns
+
+    def _select_terms(self, name):
+        # the library has one set of terms of each kind: make it that of this instance
+        bound = PyRegPT._bound_terms.get(name, [])
+        if [(array.ctypes.data, array.size) for array in bound] != [(array.ctypes.data, array.size) for array in self.tolist()]:
+            self._set_terms(name)
+
     def set_precision(self, calculation='all_q', n=0, min=1., max=-1., interpol='test'):
 
         if calculation == 'all':
@@ -363,13 +380,12 @@ class Spectrum1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        self._set_terms('spectrum_1loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
         self._select_spectrum_lin()
+        self._select_terms('spectrum_1loop')
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -398,13 +414,12 @@ class Spectrum2Loop(Spectrum1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        self._set_terms('spectrum_2loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
         self._select_spectrum_lin()
+        self._select_terms('spectrum_2loop')
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -479,13 +494,12 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        self._set_terms('bias_1loop')
 
     def run_terms(self, nthreads=8):
 
         self._select_spectrum_lin()
+        self._select_terms('bias_1loop')
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -515,13 +529,12 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self._set_terms('A_1loop')
 
     def run_terms(self, nthreads=8):
 
         self._select_spectrum_lin()
+        self._select_terms('A_1loop')
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -544,14 +557,13 @@ class A2Loop(A1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_2loop(self.size, *self.tolist())
+        self._set_terms('A_2loop')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
         self._select_spectrum_lin()
+        self._select_terms('A_2loop')
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -573,9 +585,7 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_B(self.size, *self.tolist())
+        self._set_terms('B')
         self.reshape()
 
     def run_terms(self, nthreads=8):
@@ -586,6 +596,7 @@ class B1Loop(PyRegPT):
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk)
         self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk)
+        self._select_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
 
@@ -631,5 +642,6 @@ class B2Loop(B1Loop):
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk_dt)
         self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), k.size, k, pk_tt)
 
+        self._select_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From 48b546ea3f09a342184c0072b6bf2a9dc2d984b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:36 +0000
Subject: [PATCH 21/22] fix: A1Loop has columns of the right shape before the
 run too

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 0fd2c0c..faed35c 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -530,6 +530,7 @@ class A1Loop(PyRegPT):
 
         self.zeros(k=k, dtype=self.C_TYPE)
         self._set_terms('A_1loop')
+        self.reshape()
 
     def run_terms(self, nthreads=8):
 
-- 
2.43.0


From 35deaaa38b1130497501cf986e6a5ac2f6f278ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 22/22] fix: each thread reads the B spectra it has set (no
 data race in init_B)

---
 src/calc_pkcorr_from_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calc_pkcorr_from_B.c b/src/calc_pkcorr_from_B.c
index 99f0a1c..957d2ec 100644
--- a/src/calc_pkcorr_from_B.c
+++ b/src/calc_pkcorr_from_B.c
@@ -13,7 +13,7 @@
 static Pk pk_dt,pk_tt;
 static GaussLegendreQ gauss_legendre_q;
 static GaussLegendreMu gauss_legendre_mu;
-#pragma omp threadprivate(gauss_legendre_q,gauss_legendre_mu)
+#pragma omp threadprivate(pk_dt,pk_tt,gauss_legendre_q,gauss_legendre_mu)
 static const Precision precision_q_default = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static const Precision precision_mu_default = {.n=10,.min=-1.,.max=1.,.interpol=POLY};
-- 
2.43.0


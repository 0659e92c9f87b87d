From dad42eca8ee0c034ea9ee57c822ef68a2972091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 01/35] fix: report errors met when closing a FITS file that
 was written

The status of fits_close_file was ignored by the four writers, so an error in the
final flush (e.g. full disk) was silently reported as a successful save.
---
 src/nmt_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..e937803 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -361,6 +361,7 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   nmt_coupling_binned_tohdus(fptr,w,&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
@@ -709,6 +710,7 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
@@ -814,6 +816,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
     check_fits(status,fname,0);
   }
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
@@ -903,6 +906,7 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
-- 
2.43.0


From 2ace19434dc5db1c48a069c7b15f65d6c35086e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 02/35] fix: do not use uninitialised Wigner symbols in
 purified coupling coefficients

When no multipole is allowed by the selection rules the array is not filled, and
its first element was multiplied by zero. If the memory held NaN or infinity, so did
the monopole and dipole rows of the mode-coupling matrix.
---
 src/nmt_master.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..81e052d 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -855,14 +855,10 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
 		fac_12=0;
 		fac_02=0;
 	      }
-	      if(j12<0) { //If out of range, w12 is just 0
+	      if(j12<0) //If out of range, w12 is just 0
 		fac_12=0;
-		j12=0;
-	      }
-	      if(j02<0) { //if out of range, w02 is just 0
+	      if(j02<0) //if out of range, w02 is just 0
 		fac_02=0;
-		j02=0;
-	      }
               w12=j12 < 0 ? 0 : wigner_12[j12];
               w02=j02 < 0 ? 0 : wigner_02[j02];
 	    }
-- 
2.43.0


From 6e57cbad24853b327e4c480769e17d1edf492fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 03/35] fix: allocate enough space for the Wigner symbols when
 lmax_mask < lmax

The arrays were sized from lmax_mask, but the symbols are computed for all
multipoles up to l2+l3 <= 2*lmax. With lmax_mask < lmax the error was detected by a
worker thread (undefined behaviour) or, for |m|>l, the array was overrun.
---
 src/nmt_master.c | 63 +++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 81e052d..d764494 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -221,19 +221,22 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
   if(!(c->has_00))
     lstart=max_spin;
 
+  // The selection rules allow l1 up to 2*lmax
+  int wigner_size=2*(NMT_MAX(c->lmax, c->lmax_mask)+1);
+
 #pragma omp parallel default(none)              \
-  shared(c, lstart, pcl_masks, lt, has_ss2)     \
+  shared(c, lstart, pcl_masks, lt, has_ss2, wigner_size) \
   shared(tplz_00,tplz_0s,tplz_pp,tplz_mm)
   {
     int il3,ll2,icc;
     int l3_list[2];
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(wigner_size*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(wigner_size*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(wigner_size*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -253,11 +256,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,wigner_size);
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,wigner_size);
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,wigner_size);
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -502,8 +505,11 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
   int is_s0=(spin1!=0) && (spin2==0);
   int is_ss=(spin1!=0) && (spin2!=0);
 
+  // The selection rules allow l1 up to 2*lmax
+  int wigner_size=2*(NMT_MAX(lmax, lmax_mask)+1);
+
 #pragma omp parallel default(none)				\
-  shared(pcl_masks, lstart, reuse_ss1, lmax, lmax_mask)		\
+  shared(pcl_masks, lstart, reuse_ss1, lmax, lmax_mask, wigner_size) \
   shared(mask_aniso_1, mask_aniso_2, is_0s, is_s0, is_ss)	\
   shared(spin1, spin2, i_00, i_0e, i_0b, i_e0, i_b0)		\
   shared(i_ee, i_eb, i_be, i_bb, w)
@@ -511,18 +517,18 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     int ll2,ll3;
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(wigner_size*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(wigner_size*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(wigner_size*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(wigner_size*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -540,20 +546,20 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,wigner_size);
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,wigner_size);
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,wigner_size);
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,wigner_size);
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -761,23 +767,26 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   if(!(c->has_00))
     lstart=max_spin;
 
+  // The selection rules allow l1 up to 2*lmax
+  int wigner_size=2*(lmax_max+1);
+
 #pragma omp parallel default(none)              \
-  shared(c, lstart, do_teb, pcl_masks, has_ss2) \
+  shared(c, lstart, do_teb, pcl_masks, has_ss2, wigner_size) \
   shared(l_toeplitz, l_exact, dl_band)
   {
     int ll2,ll3,icc;
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(wigner_size*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(wigner_size*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(wigner_size*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(wigner_size*sizeof(double));
+      wigner_02=my_malloc(wigner_size*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -811,18 +820,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,wigner_size);
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,wigner_size);
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,wigner_size);
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,wigner_size);
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,wigner_size);
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From 4719a61ee757564ffa4f1050b7945cee0c32c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 04/35] fix: precompute all the log-factorials that the Wigner
 symbols need

drc3jj_000 uses log-factorials up to l1+l2+l3+1 <= 4*lmax+1, beyond the end of the array.
---
 src/nmt_master.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index d764494..192847b 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -751,11 +751,12 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   }
 
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  int n_lfac = 4*lmax_max+2; // l1+l2+l3+1 goes up to 4*lmax+1
+  c->lfac = my_malloc(n_lfac*sizeof(double));
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<n_lfac;ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From 907b1ede3c6c347ba37b9148b1baacc9cb208484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 05/35] fix: initialise the covariance of coupled power spectra

Entries at multipoles that do not belong to any bandpower were never written, and
uninitialised memory was returned for them.
---
 src/nmt_covar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..696a8d0 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -108,6 +108,9 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
 
+  //Multipoles outside all bandpowers are not covered below
+  memset(covar_out,0,((size_t)(wa->ncls*(cw->lmax+1)))*wb->ncls*(cw->lmax+1)*sizeof(flouble));
+
 #pragma omp parallel default(none)			\
   shared(cw,spin_a,spin_b,spin_c,spin_d)                \
   shared(wa,wb,clac,clad,clbc,clbd)			\
-- 
2.43.0


From 706b6d829f2f7375732bd7e203e40768c8496622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 06/35] fix: reserve enough space for the pixels within the
 apodization scale

The list of pixels was sized without the pixels that are intersected by the disc, so
that apodization scales of the order of the pixel size failed, and scales for which the
search radius exceeds pi were only detected by the worker threads.
---
 src/nmt_mask.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 2f89fc6..8a715d7 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -1,6 +1,22 @@
 #include "config.h"
 #include "utils.h"
 
+//Number of pixels that may be found within radius (in radians) of a point,
+//including those that are only partially inside.
+static int max_pix_in_disc(long nside,double radius)
+{
+  long npix=he_nside2npix(nside);
+  double radius_eff=radius+1.071*M_PI/(2*nside); //Leave room for the intersected pixels
+  double n=npix;
+
+  if(radius>M_PI)
+    report_error(NMT_ERROR_APO,"Your apodization scale is too large\n");
+  if(radius_eff<M_PI)
+    n=2*npix*(1-cos(radius_eff));
+
+  return (int)(NMT_MIN(n,npix));
+}
+
 static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
   long npix=he_nside2npix(nside);
@@ -40,6 +56,7 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
   int lenlist0=(int)(4*npix*(1-cos(1.2*aporad)));
   if(lenlist0 < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  lenlist0=2*max_pix_in_disc(nside,1.2*aporad);
   
 #pragma omp parallel default(none)			\
   shared(vec,npix,x2_thr,inv_x2_thr,mask_in,mask_out)	\
@@ -96,6 +113,7 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   int lenlist0=(int)(4*npix*(1-cos(2.5*aporad)));
   if(lenlist0 < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  lenlist0=2*max_pix_in_disc(nside,2.5*aporad);
 
 #pragma omp parallel default(none)                      \
   shared(npix,mask_in,mask_out,nside,aporad,lenlist0)
-- 
2.43.0


From 4ce05cb62b98da85b3bbff62c6351f60b081c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 07/35] fix: make seeded flat-sky realizations independent of
 the number of threads

Each thread drew from its own generator, seeded by the order in which the threads
arrived, so that a seed did not determine the realization. The single-thread
realizations are unchanged.
---
 src/flatsky_utils.c | 49 +++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..a425360 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -481,19 +481,22 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
+  //Draw the white random numbers first, and in order, so the
+  //realization doesn't depend on the number of threads.
+  long imode;
+  gsl_rng *rng=init_rng((unsigned int)seed);
+  for(imode=0;imode<nmodes;imode++) {
+    for(imap=0;imap<nmaps;imap++) {
+      double dr,di;
+      rng_gauss(rng,&dr,&di);
+      alms[imap][imode]=(fcomplex)(dr+I*di);
+    }
+  }
+  end_rng(rng);
 
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -505,8 +508,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -523,6 +524,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	flouble kx=ix*dkx;
 	long index=ix+((long)(nx/2+1))*iy;
 	flouble kmod=sqrt(kx*kx+ky*ky);
+	if((ix==0) && (iy>ny/2)) //Complex conjugate of another mode, set with it
+	  continue;
 	if(kmod<0) {
 	  for(imp1=0;imp1<nmaps;imp1++)
 	    alms[imp1][index]=0;
@@ -543,10 +546,9 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	  //Take square root
 	  gsl_eigen_symmv(clmat,eval,evec,wsym);
 	  for(imp1=0;imp1<nmaps;imp1++) {
-	    double dr,di; //At the same time get white random numbers
-	    rng_gauss(rng,&dr,&di);
-	    gsl_vector_set(rv1,imp1,dr);
-	    gsl_vector_set(iv1,imp1,di);
+	    //At the same time get white random numbers
+	    gsl_vector_set(rv1,imp1,creal(alms[imp1][index]));
+	    gsl_vector_set(iv1,imp1,cimag(alms[imp1][index]));
 	    for(imp2=0;imp2<nmaps;imp2++) {
 	      double oij=gsl_matrix_get(evec,imp1,imp2);
 	      double lambda=gsl_vector_get(eval,imp2);
@@ -564,16 +566,12 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
 	    if(ix==0) {
-	      if(iy>ny/2)
-		continue;
+	      if(iy==0)
+		alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 	      else {
-		if(iy==0)
-		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
-		else {
-		  int iyy=ny-iy;
-		  alms[imp1][index]=(fcomplex)(a_re+I*a_im);
-		  alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
-		}
+		int iyy=ny-iy;
+		alms[imp1][index]=(fcomplex)(a_re+I*a_im);
+		alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
 	      }
 	    }
 	    else
@@ -590,7 +588,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector_free(eval);
     gsl_matrix_free(evec);
     gsl_eigen_symmv_free(wsym);
-    end_rng(rng);
     gsl_interp_accel_free(intacc_cells);
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
-- 
2.43.0


From c125cc7fd6a9721af28c27f3a61465f0b90420e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 08/35] fix: make seeded curved-sky realizations reproducible

synfast_spherical ignored its seed: healpy.synalm draws from numpy's global generator.
The harmonic coefficients are now drawn from a generator private to the call.
---
 pymaster/utils.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..f215b44 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -573,6 +573,29 @@ def mask_apodization_flat(mask_in, lx, ly, aposize, apotype="C1"):
     return mask_apo_flat.reshape([ny, nx])
 
 
+def _synalm(cls, nmaps, lmax, seed):
+    """ Gaussian realizations of correlated harmonic coefficients. Unlike
+    ``healpy.synalm``, this does not use numpy's global generator.
+    """
+    # Square root of the power spectrum matrices
+    i1, i2 = np.triu_indices(nmaps)
+    clmat = np.zeros([lmax+1, nmaps, nmaps])
+    clmat[:, i1, i2] = np.array(cls, dtype=float)[:, :lmax+1].T
+    clmat[:, i2, i1] = clmat[:, i1, i2]
+    w, v = np.linalg.eigh(clmat)
+    clsq = v * np.sqrt(np.maximum(w, 0))[:, None, :]
+
+    # White noise with unit variance
+    ells, ms = hp.Alm.getlm(lmax)
+    rng = np.random.RandomState(seed)
+    rand = rng.standard_normal([nmaps, 2, len(ells)])
+    white = np.where(ms == 0, rand[:, 0],
+                     (rand[:, 0] + 1j * rand[:, 1]) / np.sqrt(2.))
+
+    return np.array([sum(clsq[ells, i, j] * white[j] for j in range(nmaps))
+                     for i in range(nmaps)])
+
+
 def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
                       wcs=None, lmax=None):
     """ Generates full-sky Gaussian random fields according to a given
@@ -648,9 +671,7 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     ainfo = NmtAlmInfo(lmax)
 
     # 1. Generate alms
-    # Note that, if `new=False` stops being allowed in healpy, we'll need
-    # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    alms = _synalm(cls, nmaps, lmax, seed)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From cca1fa2d767a778730f5a73d80ecdf854c12c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 09/35] fix: recover the FKP normalisation when reading a
 workspace

w2 was left uninitialised, so that updating the beams or the bins of a workspace read
from file, or saving and reading it again, gave arbitrary results.
---
 src/nmt_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index e937803..68c640d 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -389,6 +389,8 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
   check_fits(status,fname,1);
+  // The FKP normalisation is not stored, but it's the diagonal of the binned MCM
+  w->w2=w->norm_type ? gsl_matrix_get(w->coupling_matrix_binned,0,0) : 0;
   fits_close_file(fptr,&status);
 
   return w;
-- 
2.43.0


From 13a1200619c56f452db8a7f0da5bf10458eb692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 10/35] fix: forget a C object before freeing it

An exception raised asynchronously (e.g. KeyboardInterrupt) between the
call to the C function that frees the object and the statement that forgets
the pointer left a dangling pointer behind, which was freed again when the
Python object was deleted.
---
 pymaster/bins.py       |  8 ++++----
 pymaster/covariance.py | 24 ++++++++++++------------
 pymaster/field.py      |  4 ++--
 pymaster/workspaces.py | 24 ++++++++++++------------
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..1b57113 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -174,9 +174,9 @@ class NmtBin(object):
 
     def __del__(self):
         if getattr(self, 'bin', None) is not None:
+            bin, self.bin = self.bin, None
             if lib.bins_free is not None:
-                lib.bins_free(self.bin)
-            self.bin = None
+                lib.bins_free(bin)
 
     def get_n_bands(self):
         """ Returns the number of bandpowers stored in this
@@ -327,9 +327,9 @@ class NmtBinFlat(object):
 
     def __del__(self):
         if self.bin is not None:
+            bin, self.bin = self.bin, None
             if lib.bins_flat_free is not None:
-                lib.bins_flat_free(self.bin)
-            self.bin = None
+                lib.bins_flat_free(bin)
 
     def get_n_bands(self):
         """
diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 49e9f9c..9ff609e 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -141,9 +141,9 @@ class NmtCovarianceWorkspace(object):
 
     def __del__(self):
         if self.wsp is not None:
+            wsp, self.wsp = self.wsp, None
             if lib.covar_workspace_free is not None:
-                lib.covar_workspace_free(self.wsp)
-            self.wsp = None
+                lib.covar_workspace_free(wsp)
 
     def read_from(self, fname, force_spin0_only=False):
         """ Reads the contents of an :obj:`NmtCovarianceWorkspace`
@@ -156,8 +156,8 @@ class NmtCovarianceWorkspace(object):
                 be read and stored.
         """
         if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.covar_workspace_free(wsp)
         self.wsp = lib.read_covar_workspace(fname,
                                             int(force_spin0_only))
 
@@ -221,8 +221,8 @@ class NmtCovarianceWorkspace(object):
                             fla1.ainfo.lmax, fla1, flb1)
 
         if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.covar_workspace_free(wsp)
 
         def get_mask_prod_cl(f1_p1, f2_p1, f1_p2, f2_p2):
             mask_p1 = f1_p1.get_mask()*f2_p1.get_mask()
@@ -270,9 +270,9 @@ class NmtCovarianceWorkspaceFlat(object):
 
     def __del__(self):
         if self.wsp is not None:
+            wsp, self.wsp = self.wsp, None
             if lib.covar_workspace_flat_free is not None:
-                lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
+                lib.covar_workspace_flat_free(wsp)
 
     def read_from(self, fname):
         """ Reads the contents of an :obj:`NmtCovarianceWorkspaceFlat`
@@ -282,8 +282,8 @@ class NmtCovarianceWorkspaceFlat(object):
             fname (:obj:`str`): Input file name.
         """
         if self.wsp is not None:
-            lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.covar_workspace_flat_free(wsp)
         self.wsp = lib.read_covar_workspace_flat(fname)
 
     def compute_coupling_coefficients(self, fla1, fla2, bin_a,
@@ -331,8 +331,8 @@ class NmtCovarianceWorkspaceFlat(object):
             raise ValueError("Everything should have the same resolution!")
 
         if self.wsp is not None:
-            lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.covar_workspace_flat_free(wsp)
         self.wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
                                                     bin_a.bin,
                                                     flb1.fl, flb2.fl,
diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..29c4caf 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -733,9 +733,9 @@ class NmtFieldFlat(object):
 
     def __del__(self):
         if self.fl is not None:
+            fl, self.fl = self.fl, None
             if lib.field_flat_free is not None:
-                lib.field_flat_free(self.fl)
-            self.fl = None
+                lib.field_flat_free(fl)
 
     def get_mask(self):
         """ Returns this field's mask as a 2D array with shape
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..470d254 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -135,9 +135,9 @@ class NmtWorkspace(object):
 
     def __del__(self):
         if self.wsp is not None:
+            wsp, self.wsp = self.wsp, None
             if lib.workspace_free is not None:
-                lib.workspace_free(self.wsp)
-            self.wsp = None
+                lib.workspace_free(wsp)
 
     def check_unbinned(self):
         """ Raises an error if this workspace does not contain the
@@ -158,8 +158,8 @@ class NmtWorkspace(object):
                 significant IO time.
         """
         if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.workspace_free(wsp)
         self.wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
         self.has_unbinned = read_unbinned_MCM
 
@@ -243,8 +243,8 @@ class NmtWorkspace(object):
                              f"and fields ({fl1.ainfo.lmax}) "
                              "are not the same.")
         if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.workspace_free(wsp)
 
         anisotropic_mask_any = fl1.anisotropic_mask or fl2.anisotropic_mask
         if anisotropic_mask_any and (l_toeplitz >= 0):
@@ -506,9 +506,9 @@ class NmtWorkspaceFlat(object):
 
     def __del__(self):
         if self.wsp is not None:
+            wsp, self.wsp = self.wsp, None
             if lib.workspace_flat_free is not None:
-                lib.workspace_flat_free(self.wsp)
-            self.wsp = None
+                lib.workspace_flat_free(wsp)
 
     def read_from(self, fname):
         """ Reads the contents of an :obj:`NmtWorkspaceFlat` object from a
@@ -518,8 +518,8 @@ class NmtWorkspaceFlat(object):
             fname (:obj:`str`): Input file name.
         """
         if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.workspace_flat_free(wsp)
         self.wsp = lib.read_workspace_flat(fname)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, ell_cut_x=[1., -1.],
@@ -546,8 +546,8 @@ class NmtWorkspaceFlat(object):
                 spin-s.
         """
         if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
+            wsp, self.wsp = self.wsp, None
+            lib.workspace_flat_free(wsp)
 
         self.wsp = lib.comp_coupling_matrix_flat(
             fl1.fl,
-- 
2.43.0


From c0247f86bfe185e150575e93fa8f057fb4a501fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 11/35] fix: refuse to update a workspace that lacks its
 unbinned coupling matrix

update_beams and update_bins followed a null pointer on a workspace read with
read_unbinned_MCM=False (or never computed), and a failed read_from left
has_unbinned describing the previous contents.
---
 pymaster/workspaces.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 470d254..19c21cc 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -160,6 +160,7 @@ class NmtWorkspace(object):
         if self.wsp is not None:
             wsp, self.wsp = self.wsp, None
             lib.workspace_free(wsp)
+        self.has_unbinned = False
         self.wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
         self.has_unbinned = read_unbinned_MCM
 
@@ -175,6 +176,10 @@ class NmtWorkspace(object):
                 workspace was initialised.
             beam2 (`array`): Second beam.
         """
+        if self.wsp is None:
+            raise ValueError("Can't update beams without first computing "
+                             "the mode-coupling matrix")
+        self.check_unbinned()
         b1arr = isinstance(beam1, (list, tuple, np.ndarray))
         b2arr = isinstance(beam2, (list, tuple, np.ndarray))
         if ((not b1arr) or (not b2arr)):
@@ -196,6 +201,7 @@ class NmtWorkspace(object):
         if self.wsp is None:
             raise ValueError("Can't update bins without first computing "
                              "the mode-coupling matrix")
+        self.check_unbinned()
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
         lib.wsp_update_bins(self.wsp, bins.bin)
-- 
2.43.0


From ce6fed65e69efaa5ddd64a3d2ec71b413e4d8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 12/35] fix: stop reading a FITS file at the first error

The readers went on after a failed read: they used sizes that had not been
read, forgot earlier errors (BEAMS and PCL_MASKS reset the status), took any
read error for a file in an old format, and could never read the old binning
format because the status was not reset before trying it.
---
 src/nmt_io.c | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 68c640d..cd0e5b4 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -38,10 +38,13 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
   status_pre = *status;
   fits_read_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
-  if(*status) {// maybe used old format
+  if(*status==KEY_NO_EXIST) {// maybe used old format
     w->norm_type=0;
     *status=status_pre;
   }
+  w->coupling_matrix_unbinned=NULL;
+  if(*status)
+    return;
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
@@ -54,8 +57,6 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
 		    w->coupling_matrix_unbinned[ii],NULL,status);
     }
   }
-  else
-    w->coupling_matrix_unbinned=NULL;
 }
 
 static void nmt_l_arr_tohdus(fitsfile *fptr,
@@ -99,9 +100,10 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   double nulval;
   int anynul;
   long nrows;
-  *status=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   if(nrows!=lmax_expect+1) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Expected %d elements, but got %ld\n",
@@ -125,6 +127,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
@@ -137,6 +141,13 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
+  if(*status) {
+    free(bpws);
+    free(ells);
+    free(weights);
+    free(f_ell);
+    return NULL;
+  }
   b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
   if(n_bands!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
@@ -161,6 +172,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return b;
   if(nrows!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table size\n");
@@ -177,6 +190,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
+    if(*status)
+      return b;
     if(nrows!=b->nell_list[ii]) {
       report_error(NMT_ERROR_INCONSISTENT,
 		   "Number of rows doesn't match number of ells\n");
@@ -383,8 +398,10 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // bins HDUs
   w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
+  if(status==BAD_HDU_NUM) { // maybe used old format
+    status=0;
     w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+  }
   check_fits(status,fname,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
@@ -443,6 +460,8 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   long ii;
   long naxes[2],fpixel[2]={1,1};
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
   for(ii=0;ii<naxes[1];ii++) {
     fpixel[1]=ii+1;
@@ -501,6 +520,8 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return fs;
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -539,6 +560,8 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -599,6 +622,8 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   n_el=naxes[0];
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
@@ -612,6 +637,10 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status) {
+    free(matrix);
+    return;
+  }
   if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Inconsistent size for GSL binned MCM\n");
@@ -679,6 +708,8 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return b;
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -769,6 +800,8 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return NULL;
   n_el=naxes[0];
   if(n_el!=n_expected)
     report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
@@ -836,11 +869,12 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
     cw->spin0_only=1;
   else {
     fits_read_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
-    if(status) {//Old format, always includes all spins
+    if(status==KEY_NO_EXIST) {//Old format, always includes all spins
       cw->spin0_only=0;
       status=0;
     }
   }
+  check_fits(status,fname,1);
   //Empty primary
 
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1122",&status);
-- 
2.43.0


From cb73aa52619898542ff44a5dec0d8e02180d1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 13/35] fix: do not overflow the error message buffer

Messages that contain a long file name were written past its end.
---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..1d7048b 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
@@ -27,7 +27,7 @@ void report_error(int level,char *fmt,...)
       exit(level);
     }
     else {
-      sprintf(nmt_error_message,"%s",msg);
+      snprintf(nmt_error_message,sizeof(nmt_error_message),"%s",msg);
       throw(level);
     }
   }
-- 
2.43.0


From 18301daea250bc6b4fcaee5ad8bbc9c1ba421e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 14/35] fix: raise an exception when GSL meets an error

GSL's default error handler calls abort(), so e.g. decoupling with a singular
coupling matrix or running out of memory in GSL killed the Python process.
---
 src/flatsky_utils.c |  6 ------
 src/utils.c         | 28 ++++++++++++++++++++++++++++
 src/utils.h         |  8 +++++++-
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index a425360..1f46553 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -478,9 +478,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   for(imap=0;imap<nmaps;imap++)
     alms[imap]=dftw_malloc(nmodes*sizeof(fcomplex));
 
-  //Switch off error handler for Cholesky decomposition
-  gsl_error_handler_t *geh=gsl_set_error_handler_off();
-
   //Draw the white random numbers first, and in order, so the
   //realization doesn't depend on the number of threads.
   long imode;
@@ -592,9 +589,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
 
-  //Restore error handler
-  gsl_set_error_handler(geh);
-
   return alms;
 }
 
diff --git a/src/utils.c b/src/utils.c
index 1d7048b..b81522d 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -12,6 +12,33 @@ void set_error_policy(int i)
   nmt_error_policy=i;
 }
 
+static gsl_error_handler_t *gsl_handler_before=NULL;
+static int gsl_errors_caught=0;
+
+static void gsl_handler_report(const char *reason,const char *file,int line,int gsl_errno)
+{
+  if(gsl_errno==GSL_ENOMEM)
+    report_error(NMT_ERROR_MEMORY,"Out of memory\n");
+  else
+    report_error(NMT_ERROR_GSL,"GSL error: %s (%s:%d)\n",reason,file,line);
+}
+
+void nmt_gsl_errors_catch(void)
+{
+  if(!gsl_errors_caught) {
+    gsl_handler_before=gsl_set_error_handler(&gsl_handler_report);
+    gsl_errors_caught=1;
+  }
+}
+
+void nmt_gsl_errors_restore(void)
+{
+  if(gsl_errors_caught) {
+    gsl_set_error_handler(gsl_handler_before);
+    gsl_errors_caught=0;
+  }
+}
+
 void report_error(int level,char *fmt,...)
 {
   va_list args;
@@ -28,6 +55,7 @@ void report_error(int level,char *fmt,...)
     }
     else {
       snprintf(nmt_error_message,sizeof(nmt_error_message),"%s",msg);
+      nmt_gsl_errors_restore();
       throw(level);
     }
   }
diff --git a/src/utils.h b/src/utils.h
index b324ac6..41d2623 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -13,7 +13,12 @@ extern int nmt_exception_status;
 extern int nmt_error_policy;
 extern char nmt_error_message[256];
 
-#define try if ((nmt_exception_status = setjmp(nmt_exception_buffer)) == 0)
+void nmt_gsl_errors_catch(void);
+void nmt_gsl_errors_restore(void);
+
+//While inside a try block, errors met by GSL are reported as our own (and not by calling abort)
+#define try if ((nmt_exception_status = setjmp(nmt_exception_buffer)) == 0)	\
+    for(int nmt_try_=(nmt_gsl_errors_catch(),1);nmt_try_;nmt_try_=(nmt_gsl_errors_restore(),0))
 #define catch(val) else if (nmt_exception_status == val)
 #define throw(val) longjmp(nmt_exception_buffer,val)
 #define finally else
@@ -34,6 +39,7 @@ extern char nmt_error_message[256];
 #define NMT_ERROR_VALUE 1014
 #define NMT_ERROR_NOT_IMPLEMENTED 1015
 #define NMT_ERROR_LITE 1016
+#define NMT_ERROR_GSL 1017
 #endif //NO_DOXY
 
 /**
-- 
2.43.0


From b5e8863376dcb4513d945aafe5c1f88d4423e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 15/35] fix: leave a workspace as it was when updating it fails

The updates changed or freed parts of the workspace before allocating the new
ones; e.g. running out of memory in update_bins left it pointing to freed bins.
---
 src/nmt_master.c | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 192847b..900491c 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -103,6 +103,20 @@ static void bin_coupling_matrix(nmt_workspace *w)
   gsl_linalg_LU_decomp(w->coupling_matrix_binned,w->coupling_matrix_perm,&sig);
 }
 
+//Rebin the coupling matrix of an updated copy of a workspace. The workspace
+//itself only changes once everything that can fail has succeeded.
+static void commit_update(nmt_workspace *w,nmt_workspace *w_new)
+{
+  w_new->coupling_matrix_binned=gsl_matrix_alloc(w_new->ncls*w_new->bin->n_bands,
+						 w_new->ncls*w_new->bin->n_bands);
+  w_new->coupling_matrix_perm=gsl_permutation_alloc(w_new->ncls*w_new->bin->n_bands);
+  bin_coupling_matrix(w_new);
+
+  gsl_matrix_free(w->coupling_matrix_binned);
+  gsl_permutation_free(w->coupling_matrix_perm);
+  *w=*w_new;
+}
+
 void nmt_update_coupling_matrix(nmt_workspace *w,int n_rows,double *new_matrix)
 {
   int ii;
@@ -112,9 +126,18 @@ void nmt_update_coupling_matrix(nmt_workspace *w,int n_rows,double *new_matrix)
 		 w->ncls*(w->lmax+1),n_rows);
   }
 
+  nmt_workspace w_new=*w;
+  flouble **old=w->coupling_matrix_unbinned;
+  w_new.coupling_matrix_unbinned=my_malloc(n_rows*sizeof(flouble *));
   for(ii=0;ii<n_rows;ii++)
-    memcpy(w->coupling_matrix_unbinned[ii],&(new_matrix[ii*n_rows]),n_rows*sizeof(flouble));
-  bin_coupling_matrix(w);
+    w_new.coupling_matrix_unbinned[ii]=my_malloc(n_rows*sizeof(flouble));
+  for(ii=0;ii<n_rows;ii++)
+    memcpy(w_new.coupling_matrix_unbinned[ii],&(new_matrix[ii*n_rows]),n_rows*sizeof(flouble));
+  commit_update(w,&w_new);
+
+  for(ii=0;ii<n_rows;ii++)
+    free(old[ii]);
+  free(old);
 }
 
 void nmt_workspace_update_beams(nmt_workspace *w,
@@ -127,11 +150,15 @@ void nmt_workspace_update_beams(nmt_workspace *w,
   }
 
   int ii;
+  nmt_workspace w_new=*w;
+  flouble *old=w->beam_prod;
+  w_new.beam_prod=my_malloc((w->lmax_fields+1)*sizeof(flouble));
   for(ii=0;ii<=w->lmax_fields;ii++)
-    w->beam_prod[ii]=b1[ii]*b2[ii];
+    w_new.beam_prod[ii]=b1[ii]*b2[ii];
 
   //Recompute the binned coupling matrix
-  bin_coupling_matrix(w);
+  commit_update(w,&w_new);
+  free(old);
 }
 
 void nmt_workspace_update_binning(nmt_workspace *w,
@@ -143,15 +170,13 @@ void nmt_workspace_update_binning(nmt_workspace *w,
   }
 
   //Store new bins
-  nmt_bins_free(w->bin);
-  nmt_workspace_store_bins(w,bin);
+  nmt_workspace w_new=*w;
+  nmt_binning_scheme *old=w->bin;
+  nmt_workspace_store_bins(&w_new,bin);
 
   //Rebin matrix
-  gsl_matrix_free(w->coupling_matrix_binned);
-  gsl_permutation_free(w->coupling_matrix_perm);
-  w->coupling_matrix_binned=gsl_matrix_alloc(w->ncls*w->bin->n_bands,w->ncls*w->bin->n_bands);
-  w->coupling_matrix_perm=gsl_permutation_alloc(w->ncls*w->bin->n_bands);
-  bin_coupling_matrix(w);
+  commit_update(w,&w_new);
+  nmt_bins_free(old);
 }
 
 static int toeplitz_wrap(int il, int lmaxp1)
-- 
2.43.0


From 1892c25124d4221873ffa18830911aeddc4a32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 16/35] fix: reject flat-sky workspaces whose spins do not
 match the fields

compute_full_master_flat wrote past the end of its output (or read past the
end of its input) when given a workspace with another number of power spectra.
---
 src/nmt_master_flat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..c4aa1a4 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -927,6 +927,8 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
     if(bin->n_bands!=w->bin->n_bands)
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    if(w->ncls!=fl1->nmaps*fl2->nmaps)
+      report_error(NMT_ERROR_INCONSISTENT,"Input workspace was computed for different spins!\n");
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
-- 
2.43.0


From 30c7197b7c462af358c775008afdb6a6efba0b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 17/35] fix: keep full precision in the header of saved
 flat-sky workspaces

---
 src/nmt_io.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index cd0e5b4..47ce290 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -413,6 +413,12 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   return w;
 }
 
+// Writes with enough digits to recover exactly the same number when reading
+static void write_key_flouble(fitsfile *fptr,char *name,flouble value,int *status)
+{
+  fits_write_key_dbl(fptr,name,value,-17,NULL,status);
+}
+
 static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
 					   nmt_workspace_flat *w,
 					   int *status)
@@ -424,11 +430,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  write_key_flouble(fptr,"LMAX",w->lmax,status);
+  write_key_flouble(fptr,"ELLCUT_X_I",w->ellcut_x[0],status);
+  write_key_flouble(fptr,"ELLCUT_X_F",w->ellcut_x[1],status);
+  write_key_flouble(fptr,"ELLCUT_Y_I",w->ellcut_y[0],status);
+  write_key_flouble(fptr,"ELLCUT_Y_F",w->ellcut_y[1],status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -490,11 +496,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  write_key_flouble(fptr,"LX",fs->lx,status);
+  write_key_flouble(fptr,"LY",fs->ly,status);
+  write_key_flouble(fptr,"PIXSIZE",fs->pixsize,status);
+  write_key_flouble(fptr,"DELL",fs->dell,status);
+  write_key_flouble(fptr,"I_DELL",fs->i_dell,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From e712fc3892a176b485076bec899f134b964b8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 18/35] fix: check the memory allocated by the Python wrapper

---
 pymaster/namaster.i      | 90 ++++++++++++++++++++--------------------
 pymaster/namaster_wrap.c | 90 ++++++++++++++++++++--------------------
 2 files changed, 90 insertions(+), 90 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 710d208..1eea6ec 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -162,8 +162,8 @@ void bin_cl(nmt_binning_scheme *bins,
   int i;
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
@@ -182,8 +182,8 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(nell3==nell1);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
@@ -201,8 +201,8 @@ void unbin_cl(nmt_binning_scheme *bins,
   int nellout=ndout/ncl1;
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nellout]);
@@ -222,8 +222,8 @@ void unbin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(ndout==nell3*ncl1);
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nell3]);
@@ -284,15 +284,15 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
     asserting(npix_2==npix_3);
     asserting(nmap_2==nmap_3);
     ntemp=ntmp_3;
-    temp=malloc(ntmp_3*sizeof(double **));
+    temp=my_malloc(ntmp_3*sizeof(double **));
     for(ii=0;ii<ntmp_3;ii++) {
-      temp[ii]=malloc(nmap_3*sizeof(double *));
+      temp[ii]=my_malloc(nmap_3*sizeof(double *));
       for(jj=0;jj<nmap_3;jj++)
 	temp[ii][jj]=tmp+npix_3*(jj+ii*nmap_3);
     }
   }
   
-  maps=malloc(nmap_2*sizeof(double *));
+  maps=my_malloc(nmap_2*sizeof(double *));
   for(ii=0;ii<nmap_2;ii++)
     maps[ii]=mps+npix_2*ii;
 
@@ -405,15 +405,15 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
   
-  cls=malloc(ncl1*sizeof(double *));
+  cls=my_malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
     cls[icl]=cls1+nell1*icl;
 
-  beams=malloc(nfields*sizeof(double *));
+  beams=my_malloc(nfields*sizeof(double *));
   for(icl=0;icl<nfields;icl++)
     beams[icl]=cls2+nell2*icl;
 
-  larr=malloc(nell1*sizeof(double));
+  larr=my_malloc(nell1*sizeof(double));
   for(ii=0;ii<nell1;ii++)
     larr[ii]=ii;
 
@@ -528,7 +528,7 @@ void comp_uncorr_noise_deproj_bias(nmt_field *fl1,
   int n_ell1=fl1->lmax+1;
   asserting(npix_1==fl1->npix);
   asserting(ndout==n_ell1*n_cl1);
-  cl_bias=malloc(n_cl1*sizeof(double *));
+  cl_bias=my_malloc(n_cl1*sizeof(double *));
   for(i=0;i<n_cl1;i++)
     cl_bias[i]=&(dout[n_ell1*i]);
 
@@ -550,8 +550,8 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
   asserting(ndout==bin->n_bands*ncl1);
-  cl_bias=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
+  cl_bias=my_malloc(ncl1*sizeof(double *));
+  cl_guess=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_guess[i]=&(cls1[nell1*i]);
     cl_bias[i]=&(dout[bin->n_bands*i]);
@@ -616,16 +616,16 @@ void comp_gaussian_covariance(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=my_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=my_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=my_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=my_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
@@ -646,16 +646,16 @@ void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=my_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=my_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=my_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=my_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_coupled(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
@@ -678,16 +678,16 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=my_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=my_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=my_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=my_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_flat(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
@@ -707,7 +707,7 @@ void comp_pspec_coupled_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(fl1->fs->lx==fl2->fs->lx);
   asserting(fl1->fs->ly==fl2->fs->ly);
   asserting(ndout==fl1->nmaps*fl2->nmaps*bin->n_bands);
-  cl_out=malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
+  cl_out=my_malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
   for(i=0;i<fl1->nmaps*fl2->nmaps;i++)
     cl_out[i]=&(dout[i*bin->n_bands]);
 
@@ -731,10 +731,10 @@ void decouple_cell_py(nmt_workspace *w,
   asserting(nell2==nell3);
   asserting(nell1>=(w->lmax+1));
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   my_malloc(ncl1*sizeof(double *));
+  cl_noise=my_malloc(ncl2*sizeof(double *));
+  cl_bias= my_malloc(ncl3*sizeof(double *));
+  cl_out=  my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -765,10 +765,10 @@ void decouple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell2==nell3);
   asserting(nell1==w->bin->n_bands);
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   my_malloc(ncl1*sizeof(double *));
+  cl_noise=my_malloc(ncl2*sizeof(double *));
+  cl_bias= my_malloc(ncl3*sizeof(double *));
+  cl_out=  my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -793,8 +793,8 @@ void couple_cell_py(nmt_workspace *w,
   asserting(ncl1==w->ncls);
   asserting(nell1>=(w->lmax+1));
   asserting(ncl1*nell1==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=my_malloc(ncl1*sizeof(double *));
+  cl_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*nell1]);
@@ -814,8 +814,8 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell3==nell1);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=my_malloc(ncl1*sizeof(double *));
+  cl_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*w->bin->n_bands]);
@@ -853,9 +853,9 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
   asserting(ncl1==ncl2);
-  cl_noise=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_noise=my_malloc(ncl1*sizeof(double *));
+  cl_guess=my_malloc(ncl1*sizeof(double *));
+  cl_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_noise[i]=&(cls1[nell1*i]);
     cl_guess[i]=&(cls2[nell3*i]);
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 8bfc6d7..b8bf9c3 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3129,8 +3129,8 @@ void bin_cl(nmt_binning_scheme *bins,
   int i;
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
@@ -3149,8 +3149,8 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(nell3==nell1);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
@@ -3168,8 +3168,8 @@ void unbin_cl(nmt_binning_scheme *bins,
   int nellout=ndout/ncl1;
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nellout]);
@@ -3189,8 +3189,8 @@ void unbin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(ndout==nell3*ncl1);
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=my_malloc(ncl1*sizeof(double *));
+  cls_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nell3]);
@@ -3251,15 +3251,15 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
     asserting(npix_2==npix_3);
     asserting(nmap_2==nmap_3);
     ntemp=ntmp_3;
-    temp=malloc(ntmp_3*sizeof(double **));
+    temp=my_malloc(ntmp_3*sizeof(double **));
     for(ii=0;ii<ntmp_3;ii++) {
-      temp[ii]=malloc(nmap_3*sizeof(double *));
+      temp[ii]=my_malloc(nmap_3*sizeof(double *));
       for(jj=0;jj<nmap_3;jj++)
 	temp[ii][jj]=tmp+npix_3*(jj+ii*nmap_3);
     }
   }
   
-  maps=malloc(nmap_2*sizeof(double *));
+  maps=my_malloc(nmap_2*sizeof(double *));
   for(ii=0;ii<nmap_2;ii++)
     maps[ii]=mps+npix_2*ii;
 
@@ -3372,15 +3372,15 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
   
-  cls=malloc(ncl1*sizeof(double *));
+  cls=my_malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
     cls[icl]=cls1+nell1*icl;
 
-  beams=malloc(nfields*sizeof(double *));
+  beams=my_malloc(nfields*sizeof(double *));
   for(icl=0;icl<nfields;icl++)
     beams[icl]=cls2+nell2*icl;
 
-  larr=malloc(nell1*sizeof(double));
+  larr=my_malloc(nell1*sizeof(double));
   for(ii=0;ii<nell1;ii++)
     larr[ii]=ii;
 
@@ -3495,7 +3495,7 @@ void comp_uncorr_noise_deproj_bias(nmt_field *fl1,
   int n_ell1=fl1->lmax+1;
   asserting(npix_1==fl1->npix);
   asserting(ndout==n_ell1*n_cl1);
-  cl_bias=malloc(n_cl1*sizeof(double *));
+  cl_bias=my_malloc(n_cl1*sizeof(double *));
   for(i=0;i<n_cl1;i++)
     cl_bias[i]=&(dout[n_ell1*i]);
 
@@ -3517,8 +3517,8 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
   asserting(ndout==bin->n_bands*ncl1);
-  cl_bias=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
+  cl_bias=my_malloc(ncl1*sizeof(double *));
+  cl_guess=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_guess[i]=&(cls1[nell1*i]);
     cl_bias[i]=&(dout[bin->n_bands*i]);
@@ -3583,16 +3583,16 @@ void comp_gaussian_covariance(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=my_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=my_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=my_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=my_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
@@ -3613,16 +3613,16 @@ void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=my_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=my_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=my_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=my_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_coupled(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
@@ -3645,16 +3645,16 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=my_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=my_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=my_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=my_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_flat(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
@@ -3674,7 +3674,7 @@ void comp_pspec_coupled_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(fl1->fs->lx==fl2->fs->lx);
   asserting(fl1->fs->ly==fl2->fs->ly);
   asserting(ndout==fl1->nmaps*fl2->nmaps*bin->n_bands);
-  cl_out=malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
+  cl_out=my_malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
   for(i=0;i<fl1->nmaps*fl2->nmaps;i++)
     cl_out[i]=&(dout[i*bin->n_bands]);
 
@@ -3698,10 +3698,10 @@ void decouple_cell_py(nmt_workspace *w,
   asserting(nell2==nell3);
   asserting(nell1>=(w->lmax+1));
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   my_malloc(ncl1*sizeof(double *));
+  cl_noise=my_malloc(ncl2*sizeof(double *));
+  cl_bias= my_malloc(ncl3*sizeof(double *));
+  cl_out=  my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -3732,10 +3732,10 @@ void decouple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell2==nell3);
   asserting(nell1==w->bin->n_bands);
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   my_malloc(ncl1*sizeof(double *));
+  cl_noise=my_malloc(ncl2*sizeof(double *));
+  cl_bias= my_malloc(ncl3*sizeof(double *));
+  cl_out=  my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -3760,8 +3760,8 @@ void couple_cell_py(nmt_workspace *w,
   asserting(ncl1==w->ncls);
   asserting(nell1>=(w->lmax+1));
   asserting(ncl1*nell1==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=my_malloc(ncl1*sizeof(double *));
+  cl_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*nell1]);
@@ -3781,8 +3781,8 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell3==nell1);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=my_malloc(ncl1*sizeof(double *));
+  cl_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*w->bin->n_bands]);
@@ -3820,9 +3820,9 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
   asserting(ncl1==ncl2);
-  cl_noise=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_noise=my_malloc(ncl1*sizeof(double *));
+  cl_guess=my_malloc(ncl1*sizeof(double *));
+  cl_out=my_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_noise[i]=&(cls1[nell1*i]);
     cl_guess[i]=&(cls2[nell3*i]);
-- 
2.43.0


From 8bc585c849b5b6f317c64a1078e033f1d5151dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 19/35] fix: reject negative bandpower indices

---
 pymaster/namaster.i      | 12 ++++++------
 pymaster/namaster_wrap.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 1eea6ec..7ca152e 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -75,14 +75,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -90,7 +90,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
@@ -341,15 +341,15 @@ void get_mask_flat(nmt_field_flat *fl,double *dout,int ndout)
 
 void get_map_flat(nmt_field_flat *fl,int imap,double *dout,int ndout)
 {
-  asserting(imap<fl->nmaps);
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->maps[imap],fl->npix*sizeof(double));
 }
 
 void get_temp_flat(nmt_field_flat *fl,int itemp,int imap,double *dout,int ndout)
 {
-  asserting(itemp<fl->ntemp);
-  asserting(imap<fl->nmaps);
+  asserting((itemp>=0) && (itemp<fl->ntemp));
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->temp[itemp][imap],fl->npix*sizeof(double));
 }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index b8bf9c3..6e9693c 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3042,14 +3042,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -3057,7 +3057,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
@@ -3308,15 +3308,15 @@ void get_mask_flat(nmt_field_flat *fl,double *dout,int ndout)
 
 void get_map_flat(nmt_field_flat *fl,int imap,double *dout,int ndout)
 {
-  asserting(imap<fl->nmaps);
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->maps[imap],fl->npix*sizeof(double));
 }
 
 void get_temp_flat(nmt_field_flat *fl,int itemp,int imap,double *dout,int ndout)
 {
-  asserting(itemp<fl->ntemp);
-  asserting(imap<fl->nmaps);
+  asserting((itemp>=0) && (itemp<fl->ntemp));
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->temp[itemp][imap],fl->npix*sizeof(double));
 }
-- 
2.43.0


From ca78d5ab8443ca606d1fc34bafc536cef496288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 20/35] fix: reject negative multipoles in bandpowers

---
 src/nmt_bins.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_bins.c b/src/nmt_bins.c
index ea24dcd..6ceb476 100644
--- a/src/nmt_bins.c
+++ b/src/nmt_bins.c
@@ -59,6 +59,8 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
   int ii,nband_max=0;
 
   for(ii=0;ii<nell;ii++) {
+    if((ells[ii]<0) && (bpws[ii]>=0))
+      report_error(NMT_ERROR_VALUE,"Multipoles must be non-negative\n");
     if(ells[ii]<=lmax) {
       if(bpws[ii]>nband_max)
 	nband_max=bpws[ii];
-- 
2.43.0


From 529eda92e556ec3a6841ab780d2218724af7948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 21/35] fix: save bandpowers that share multipoles

---
 src/nmt_io.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 47ce290..77d7d63 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -215,7 +215,11 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      int *status)
 {
   int ii;
-  int nrows=b->ell_max+1;
+  int nrows=b->ell_max+1,nextra=0;
+  for(ii=0;ii<b->n_bands;ii++)
+    nextra+=b->nell_list[ii];
+  int irow=nrows;
+  nrows+=nextra; //There may be multipoles shared by several bands
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
   flouble *weights=my_calloc(nrows,sizeof(flouble));
@@ -229,12 +233,16 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
       int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      int row=l;
+      if(bpws[l]!=-1) //Already taken
+	row=irow++;
+      ells[row]=l;
+      bpws[row]=ii;
+      weights[row]=b->w_list[ii][jj];
+      f_ell[row]=b->f_ell[ii][jj];
     }
   }
+  nrows=irow;
 
   char **ttype,**tform,**tunit;
   ttype=my_malloc(4*sizeof(char *));
-- 
2.43.0


From 79ce19997667eda08c91d5db0da30ea485c1c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 22/35] fix: report a full disk met when a FITS file is flushed

---
 src/nmt_io.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 77d7d63..bd89d0e 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -362,6 +362,24 @@ static void check_fits(int status,char *fname,int is_read)
   }
 }
 
+// Closes a file that was written. CFITSIO ignores the errors met when its last
+// buffers are flushed, so make sure that nothing is missing in the file.
+static void close_written_file(fitsfile *fptr,char *fname)
+{
+  int status=0;
+  LONGLONG size;
+  fits_flush_file(fptr,&status);
+  size=fptr->Fptr->filesize;
+  fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
+  fits_open_file(&fptr,fname[0]=='!' ? fname+1 : fname,READONLY,&status);
+  check_fits(status,fname,0);
+  if(fptr->Fptr->filesize<size)
+    status=WRITE_ERROR;
+  check_fits(status,fname,0);
+  fits_close_file(fptr,&status);
+}
+
 void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
 {
   fitsfile *fptr;
@@ -383,8 +401,7 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   // binned MCM HDU
   nmt_coupling_binned_tohdus(fptr,w,&status);
   check_fits(status,fname,0);
-  fits_close_file(fptr,&status);
-  check_fits(status,fname,0);
+  close_written_file(fptr,fname);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
@@ -756,8 +773,7 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   // bins HDU
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
   check_fits(status,fname,0);
-  fits_close_file(fptr,&status);
-  check_fits(status,fname,0);
+  close_written_file(fptr,fname);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
@@ -864,8 +880,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1221,"XI22M_1221",&status);
     check_fits(status,fname,0);
   }
-  fits_close_file(fptr,&status);
-  check_fits(status,fname,0);
+  close_written_file(fptr,fname);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
@@ -955,8 +970,7 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
   check_fits(status,fname,0);
-  fits_close_file(fptr,&status);
-  check_fits(status,fname,0);
+  close_written_file(fptr,fname);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
-- 
2.43.0


From 54858b5d75168c7fc7f1c37145019620206f16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 23/35] fix: close FITS files when reading or writing them
 fails

---
 src/nmt_io.c | 29 +++++++++++++++++++++++++++++
 src/utils.c  |  1 +
 src/utils.h  |  1 +
 3 files changed, 31 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bd89d0e..e5c5538 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -2,6 +2,20 @@
 #include "utils.h"
 #include <fitsio.h>
 
+// File being read or written. Errors are reported from anywhere below the
+// functions that opened it, and it must not stay open after them.
+static fitsfile *file_in_use=NULL;
+
+void nmt_close_file_in_use(void)
+{
+  if(file_in_use!=NULL) {
+    int status=0;
+    fitsfile *fptr=file_in_use;
+    file_in_use=NULL;
+    fits_close_file(fptr,&status);
+  }
+}
+
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
 				      nmt_workspace *w,
 				      int *status)
@@ -370,13 +384,16 @@ static void close_written_file(fitsfile *fptr,char *fname)
   LONGLONG size;
   fits_flush_file(fptr,&status);
   size=fptr->Fptr->filesize;
+  file_in_use=NULL;
   fits_close_file(fptr,&status);
   check_fits(status,fname,0);
   fits_open_file(&fptr,fname[0]=='!' ? fname+1 : fname,READONLY,&status);
   check_fits(status,fname,0);
+  file_in_use=fptr;
   if(fptr->Fptr->filesize<size)
     status=WRITE_ERROR;
   check_fits(status,fname,0);
+  file_in_use=NULL;
   fits_close_file(fptr,&status);
 }
 
@@ -386,6 +403,7 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   int status=0;
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
+  file_in_use=fptr;
   // Workspace info HDU
   nmt_workspace_info_tohdus(fptr,w,&status);
   check_fits(status,fname,0);
@@ -412,6 +430,7 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  file_in_use=fptr;
   // Workspace info HDU
   nmt_workspace_info_fromhdus(fptr,w,w_unbinned,&status);
   check_fits(status,fname,1);
@@ -433,6 +452,7 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // The FKP normalisation is not stored, but it's the diagonal of the binned MCM
   w->w2=w->norm_type ? gsl_matrix_get(w->coupling_matrix_binned,0,0) : 0;
+  file_in_use=NULL;
   fits_close_file(fptr,&status);
 
   return w;
@@ -758,6 +778,7 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   int status=0;
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
+  file_in_use=fptr;
   // Workspace info HDU
   nmt_workspace_flat_info_tohdus(fptr,w,&status);
   check_fits(status,fname,0);
@@ -784,6 +805,7 @@ nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  file_in_use=fptr;
   // Workspace info HDU
   nmt_workspace_flat_info_fromhdus(fptr,w,&status);
   check_fits(status,fname,1);
@@ -799,6 +821,7 @@ nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
   // bins HDU
   w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
   check_fits(status,fname,1);
+  file_in_use=NULL;
   fits_close_file(fptr,&status);
 
   return w;
@@ -853,6 +876,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
   int status=0;
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
+  file_in_use=fptr;
 
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
@@ -891,6 +915,7 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  file_in_use=fptr;
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
   check_fits(status,fname,1);
@@ -932,6 +957,7 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
     cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1221",&status);
     check_fits(status,fname,1);
   }
+  file_in_use=NULL;
   fits_close_file(fptr,&status);
 
   return cw;
@@ -943,6 +969,7 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   int status=0;
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
+  file_in_use=fptr;
 
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
@@ -981,6 +1008,7 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  file_in_use=fptr;
   fits_movnam_hdu(fptr,IMAGE_HDU,"CWSP_PRIMARY",0,&status);
 
   //Bins
@@ -1004,6 +1032,7 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
   check_fits(status,fname,1);
   cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1221",&status);
   check_fits(status,fname,1);
+  file_in_use=NULL;
   fits_close_file(fptr,&status);
 
   return cw;
diff --git a/src/utils.c b/src/utils.c
index b81522d..2687d3e 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -56,6 +56,7 @@ void report_error(int level,char *fmt,...)
     else {
       snprintf(nmt_error_message,sizeof(nmt_error_message),"%s",msg);
       nmt_gsl_errors_restore();
+      nmt_close_file_in_use();
       throw(level);
     }
   }
diff --git a/src/utils.h b/src/utils.h
index 41d2623..ef1c264 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -77,6 +77,7 @@ void end_rng(gsl_rng *rng);
 #ifndef NO_DOXY
 void set_error_policy(int i);
 void report_error(int level,char *fmt,...);
+void nmt_close_file_in_use(void);
 #endif //NO_DOXY
 
 void *my_malloc(size_t size);
-- 
2.43.0


From 8cf553a1281de02bae7d50f8ceaadad8665091d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 24/35] fix: reject empty flat-sky maps instead of crashing

---
 pymaster/namaster.i      | 10 ++++++++++
 pymaster/namaster_wrap.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 7ca152e..3a24e8a 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -244,6 +244,8 @@ nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spi
   asserting(ncl1==2);
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
 
   double *larr,*beam;
   if((nell1==1) && (cls1[0]<0) && (cls1[1]<0)) {
@@ -279,6 +281,8 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
   asserting(ncl1==2);
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
 
   if(tmp!=NULL) {
     asserting(npix_2==npix_3);
@@ -328,6 +332,8 @@ nmt_field_flat *field_alloc_new_notemp_flat(int nx,int ny,double lx,double ly,in
 {
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
   return field_alloc_new_flat(nx,ny,lx,ly,spin,npix_1,mask,nmap_2,npix_2,mps,
 			      -1,-1,-1,NULL,ncl1,nell1,cls1,pure_e,pure_b,0.,
                               masked_input,lite);
@@ -374,6 +380,8 @@ void apomask_flat(int nx,int ny,double lx,double ly,
 {
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
   asserting(npix_1==nx*ny);
   asserting(ndout==npix_1);
 
@@ -400,6 +408,8 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   }
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
   
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 6e9693c..5a4e9f8 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3211,6 +3211,8 @@ nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spi
   asserting(ncl1==2);
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
 
   double *larr,*beam;
   if((nell1==1) && (cls1[0]<0) && (cls1[1]<0)) {
@@ -3246,6 +3248,8 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
   asserting(ncl1==2);
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
 
   if(tmp!=NULL) {
     asserting(npix_2==npix_3);
@@ -3295,6 +3299,8 @@ nmt_field_flat *field_alloc_new_notemp_flat(int nx,int ny,double lx,double ly,in
 {
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
   return field_alloc_new_flat(nx,ny,lx,ly,spin,npix_1,mask,nmap_2,npix_2,mps,
 			      -1,-1,-1,NULL,ncl1,nell1,cls1,pure_e,pure_b,0.,
                               masked_input,lite);
@@ -3341,6 +3347,8 @@ void apomask_flat(int nx,int ny,double lx,double ly,
 {
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
   asserting(npix_1==nx*ny);
   asserting(ndout==npix_1);
 
@@ -3367,6 +3375,8 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   }
   asserting(lx>0);
   asserting(ly>0);
+  asserting(nx>0);
+  asserting(ny>0);
   
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
-- 
2.43.0


From 1d9651655b055b1fc8da38a6d92038d19620a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 25/35] fix: reject negative spins in coupling matrices

---
 pymaster/namaster.i      | 2 ++
 pymaster/namaster_wrap.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 3a24e8a..04e38cb 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -458,6 +458,7 @@ nmt_workspace *comp_coupling_matrix_anisotropic(int spin1,int spin2,
 						nmt_binning_scheme *bin,
 						int norm_type,double w2)
 {
+  asserting((spin1>=0) && (spin2>=0));
   asserting(nlb1==lmax+1);
   asserting(nlb2==lmax+1);
   asserting(nl00==lmax_mask+1);
@@ -489,6 +490,7 @@ nmt_workspace *comp_coupling_matrix(int spin1,int spin2,
 				    int is_teb,int l_toeplitz,
 				    int l_exact,int dl_band)
 {
+  asserting((spin1>=0) && (spin2>=0));
   asserting(nlb1==lmax+1);
   asserting(nlb2==lmax+1);
   asserting(nell4==lmax_mask+1);
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 5a4e9f8..a81c0af 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3425,6 +3425,7 @@ nmt_workspace *comp_coupling_matrix_anisotropic(int spin1,int spin2,
 						nmt_binning_scheme *bin,
 						int norm_type,double w2)
 {
+  asserting((spin1>=0) && (spin2>=0));
   asserting(nlb1==lmax+1);
   asserting(nlb2==lmax+1);
   asserting(nl00==lmax_mask+1);
@@ -3456,6 +3457,7 @@ nmt_workspace *comp_coupling_matrix(int spin1,int spin2,
 				    int is_teb,int l_toeplitz,
 				    int l_exact,int dl_band)
 {
+  asserting((spin1>=0) && (spin2>=0));
   asserting(nlb1==lmax+1);
   asserting(nlb2==lmax+1);
   asserting(nell4==lmax_mask+1);
-- 
2.43.0


From 6a133b4c11b6667fcd07028a3111b3a525e2bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 26/35] fix: reject missing file names instead of crashing

---
 pymaster/namaster.i      | 8 ++++++++
 pymaster/namaster_wrap.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 04e38cb..372b3d5 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -511,21 +511,25 @@ nmt_workspace_flat *comp_coupling_matrix_flat(nmt_field_flat *fl1,nmt_field_flat
 
 nmt_workspace *read_workspace(char *fname,int w_unbinned)
 {
+  asserting(fname!=NULL);
   return nmt_workspace_read_fits(fname,w_unbinned);
 }
 
 void write_workspace(nmt_workspace *w,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_workspace_write_fits(w,fname);
 }
 
 nmt_workspace_flat *read_workspace_flat(char *fname)
 {
+  asserting(fname!=NULL);
   return nmt_workspace_flat_read_fits(fname);
 }
 
 void write_workspace_flat(nmt_workspace_flat *w,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_workspace_flat_write_fits(w,fname);
 }
 
@@ -577,11 +581,13 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
 
 void write_covar_workspace(nmt_covar_workspace *cw,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_covar_workspace_write_fits(cw,fname);
 }
 
 nmt_covar_workspace *read_covar_workspace(char *fname,int force_spin0)
 {
+  asserting(fname!=NULL);
   return nmt_covar_workspace_read_fits(fname,force_spin0);
 }
 
@@ -599,11 +605,13 @@ nmt_covar_workspace *covar_workspace_init_py(int nlb1, double *beam1,
 
 void write_covar_workspace_flat(nmt_covar_workspace_flat *cw,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_covar_workspace_flat_write_fits(cw,fname);
 }
 
 nmt_covar_workspace_flat *read_covar_workspace_flat(char *fname)
 {
+  asserting(fname!=NULL);
   return nmt_covar_workspace_flat_read_fits(fname);
 }
 
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index a81c0af..4d810ec 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3478,21 +3478,25 @@ nmt_workspace_flat *comp_coupling_matrix_flat(nmt_field_flat *fl1,nmt_field_flat
 
 nmt_workspace *read_workspace(char *fname,int w_unbinned)
 {
+  asserting(fname!=NULL);
   return nmt_workspace_read_fits(fname,w_unbinned);
 }
 
 void write_workspace(nmt_workspace *w,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_workspace_write_fits(w,fname);
 }
 
 nmt_workspace_flat *read_workspace_flat(char *fname)
 {
+  asserting(fname!=NULL);
   return nmt_workspace_flat_read_fits(fname);
 }
 
 void write_workspace_flat(nmt_workspace_flat *w,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_workspace_flat_write_fits(w,fname);
 }
 
@@ -3544,11 +3548,13 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
 
 void write_covar_workspace(nmt_covar_workspace *cw,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_covar_workspace_write_fits(cw,fname);
 }
 
 nmt_covar_workspace *read_covar_workspace(char *fname,int force_spin0)
 {
+  asserting(fname!=NULL);
   return nmt_covar_workspace_read_fits(fname,force_spin0);
 }
 
@@ -3566,11 +3572,13 @@ nmt_covar_workspace *covar_workspace_init_py(int nlb1, double *beam1,
 
 void write_covar_workspace_flat(nmt_covar_workspace_flat *cw,char *fname)
 {
+  asserting(fname!=NULL);
   nmt_covar_workspace_flat_write_fits(cw,fname);
 }
 
 nmt_covar_workspace_flat *read_covar_workspace_flat(char *fname)
 {
+  asserting(fname!=NULL);
   return nmt_covar_workspace_flat_read_fits(fname);
 }
 
-- 
2.43.0


From ac04574533cfd5a9751642f59adcfe1bf7afe663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 27/35] fix: reject flat-sky patches whose multipoles cannot be
 counted

---
 src/nmt_field_flat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..bef01ce 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include "utils.h"
+#include <limits.h>
 
 nmt_k_function *nmt_k_function_alloc(int nk,flouble *karr,flouble *farr,flouble y0,flouble yf,int is_const)
 {
@@ -51,6 +52,10 @@ nmt_flatsky_info *nmt_flatsky_info_alloc(int nx,int ny,flouble lx,flouble ly)
   flouble kmax_y=dky*(ny/2);
   double dk=NMT_MIN(dkx,dky);
   double kmax=sqrt(kmax_y*kmax_y+kmax_x*kmax_x);
+  if(!(kmax<INT_MAX*(N_DELL*dk))) { //Catches infinities and NaNs too
+    free(fs);
+    report_error(NMT_ERROR_VALUE,"Can't handle a %lE x %lE rad patch\n",lx,ly);
+  }
   fs->dell=N_DELL*dk;
   fs->i_dell=1./fs->dell;
   fs->n_ell=0;
-- 
2.43.0


From d60c4be19298750fa5bac7f4431e9481b84133fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 28/35] fix: reject a missing apodization type instead of
 crashing

---
 pymaster/namaster.i      | 2 ++
 pymaster/namaster_wrap.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 372b3d5..711b3bd 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -365,6 +365,7 @@ void apomask(int npix_1,double *mask,
 {
   long nside=1;
   asserting(nldout==npix_1);
+  asserting(apotype!=NULL);
 
   while(npix_1!=12*nside*nside) {
     asserting(nside<=65536);
@@ -384,6 +385,7 @@ void apomask_flat(int nx,int ny,double lx,double ly,
   asserting(ny>0);
   asserting(npix_1==nx*ny);
   asserting(ndout==npix_1);
+  asserting(apotype!=NULL);
 
   nmt_apodize_mask_flat(nx,ny,lx,ly,mask,dout,aposize,apotype);
 }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 4d810ec..de43256 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3332,6 +3332,7 @@ void apomask(int npix_1,double *mask,
 {
   long nside=1;
   asserting(nldout==npix_1);
+  asserting(apotype!=NULL);
 
   while(npix_1!=12*nside*nside) {
     asserting(nside<=65536);
@@ -3351,6 +3352,7 @@ void apomask_flat(int nx,int ny,double lx,double ly,
   asserting(ny>0);
   asserting(npix_1==nx*ny);
   asserting(ndout==npix_1);
+  asserting(apotype!=NULL);
 
   nmt_apodize_mask_flat(nx,ny,lx,ly,mask,dout,aposize,apotype);
 }
-- 
2.43.0


From d387a73ff44bf64e9d576a7b2079dbff33f16f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 29/35] fix: free everything that a covariance workspace
 allocated

---
 src/nmt_covar.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 696a8d0..41d10d9 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -63,6 +63,7 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
     free(c->xi_mm);
   }
   free(c->xi_00);
+  free(c->lfac);
   free(c);
   free(cl_masks[0]);
   free(cl_masks[1]);
@@ -85,6 +86,16 @@ void nmt_covar_workspace_free(nmt_covar_workspace *cw)
       free(cw->xi22m_1221[ii]);
     }
   }
+  free(cw->xi00_1122);
+  free(cw->xi00_1221);
+  if(cw->spin0_only==0) {
+    free(cw->xi02_1122);
+    free(cw->xi02_1221);
+    free(cw->xi22p_1122);
+    free(cw->xi22p_1221);
+    free(cw->xi22m_1122);
+    free(cw->xi22m_1221);
+  }
   free(cw);
 }
 
-- 
2.43.0


From e841529a0da3f5f473d2bb939eb61378f532ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:28 +0000
Subject: [PATCH 30/35] fix: convert arrays of foreign byte order or alignment

obj_to_array_allow_conversion took any array of an equivalent type number as it
was. Type numbers do not tell the byte order, and the C code that follows reads
native, aligned numbers: a big-endian array (such as a column read from a FITS
file) was silently misread.
---
 pymaster/namaster_wrap.c | 3 ++-
 pymaster/numpy.i         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index de43256..240034b 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -4031,7 +4031,8 @@ void get_ell_sampling_flat(nmt_field_flat *f, double *dout, int ndout)
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
     if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+                            (PyArray_EquivTypenums(array_type(input),typecode) &&
+                             PyArray_ISBEHAVED_RO((PyArrayObject*) input))))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
diff --git a/pymaster/numpy.i b/pymaster/numpy.i
index 7429677..81b299f 100644
--- a/pymaster/numpy.i
+++ b/pymaster/numpy.i
@@ -234,7 +234,8 @@
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
     if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+                            (PyArray_EquivTypenums(array_type(input),typecode) &&
+                             PyArray_ISBEHAVED_RO((PyArrayObject*) input))))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
-- 
2.43.0


From 7f5d6003ee7524ca9feccdf1e442b0cd1ba10af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:28 +0000
Subject: [PATCH 31/35] fix: keep a copy of the beam passed to a field

NmtField and NmtFieldCatalog kept the caller's array: changing it after the
field was made changed the field's beam, and with it later couplings.
---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 29c4caf..69bca78 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -193,7 +193,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -935,7 +935,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From 3334417eac8d578c065638abadacb60c245da734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:32 +0000
Subject: [PATCH 32/35] fix: remove the partial file when saving fails

A save that failed left its file behind. When the error had passed by the time
the file was closed, the file had its full length and loaded without complaint,
with part of its content missing. Errors met by the explicit flush are now
reported before the file is closed, so that they are treated the same way.
---
 src/nmt_io.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index e5c5538..7c3b540 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -9,10 +9,14 @@ static fitsfile *file_in_use=NULL;
 void nmt_close_file_in_use(void)
 {
   if(file_in_use!=NULL) {
-    int status=0;
+    int status=0,iomode=READONLY;
     fitsfile *fptr=file_in_use;
     file_in_use=NULL;
-    fits_close_file(fptr,&status);
+    fits_file_mode(fptr,&iomode,&status);
+    if(iomode==READWRITE) // Incomplete, although it may look as if it was not
+      fits_delete_file(fptr,&status);
+    else
+      fits_close_file(fptr,&status);
   }
 }
 
@@ -383,6 +387,7 @@ static void close_written_file(fitsfile *fptr,char *fname)
   int status=0;
   LONGLONG size;
   fits_flush_file(fptr,&status);
+  check_fits(status,fname,0);
   size=fptr->Fptr->filesize;
   file_in_use=NULL;
   fits_close_file(fptr,&status);
-- 
2.43.0


From cfd2ed6844d2689c043d7cfa6284f7648a643103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:01 +0000
Subject: [PATCH 33/35] fix: refuse to copy objects that own a C structure

copy.copy of a binning scheme, a flat-sky field or a workspace gave a second
object with the same C pointer. Discarding either of them left the other with
freed memory, and discarding both freed it twice. copy.deepcopy and pickle
already raised a TypeError.
---
 pymaster/bins.py       |  5 +++--
 pymaster/covariance.py |  4 ++--
 pymaster/field.py      |  2 +-
 pymaster/utils.py      | 10 ++++++++++
 pymaster/workspaces.py |  4 ++--
 5 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 1b57113..293df75 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -1,4 +1,5 @@
 from pymaster import nmtlib as lib
+import pymaster.utils as ut
 import numpy as np
 
 
@@ -13,7 +14,7 @@ def _get_bpw_arrays_linear(lmax, nlb):
     return ells, bpws
 
 
-class NmtBin(object):
+class NmtBin(ut._NmtCObject):
     """:obj:`NmtBin` objects define the set of bandpowers used in the
     computation of the pseudo-:math:`C_\\ell` estimator. The
     definition of bandpowers is described in Section 2.1.3 of the
@@ -306,7 +307,7 @@ class NmtBin(object):
         return clout
 
 
-class NmtBinFlat(object):
+class NmtBinFlat(ut._NmtCObject):
     """ An :obj:`NmtBinFlat` object defines the set of bandpowers used in
     the computation of the pseudo-:math:`C_\\ell` estimator. The definition
     of bandpowers is described in Section 2.5.1 of the
diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 9ff609e..ffab43b 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -5,7 +5,7 @@ import pymaster.utils as ut
 import warnings
 
 
-class NmtCovarianceWorkspace(object):
+class NmtCovarianceWorkspace(ut._NmtCObject):
     """ :obj:`NmtCovarianceWorkspace` objects are used to compute and
     store the coupling coefficients needed to calculate the Gaussian
     covariance matrix of angular power spectra under the approximations
@@ -256,7 +256,7 @@ class NmtCovarianceWorkspace(object):
         lib.write_covar_workspace(self.wsp, "!"+fname)
 
 
-class NmtCovarianceWorkspaceFlat(object):
+class NmtCovarianceWorkspaceFlat(ut._NmtCObject):
     """ :obj:`NmtCovarianceWorkspaceFlat` objects are used to compute and
     store the coupling coefficients needed to calculate the Gaussian
     covariance matrix of angular power spectra using a flat-sky version
diff --git a/pymaster/field.py b/pymaster/field.py
index 69bca78..00fb139 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -553,7 +553,7 @@ class NmtField(object):
         return self._alpha
 
 
-class NmtFieldFlat(object):
+class NmtFieldFlat(ut._NmtCObject):
     """ An :obj:`NmtFieldFlat` object contains all the information
     describing the flat-sky fields to correlate, including their observed
     maps, masks and contaminant templates.
diff --git a/pymaster/utils.py b/pymaster/utils.py
index f215b44..38e5c6b 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -39,6 +39,16 @@ except ModuleNotFoundError:
     HAVE_DUCC = False
 
 
+class _NmtCObject(object):
+    """ Base class of all objects that own a C structure. This is
+    freed together with the object, so a copy would be left with
+    a pointer to freed memory.
+    """
+    def __reduce_ex__(self, protocol):
+        raise TypeError("%s objects can't be copied or pickled"
+                        % type(self).__name__)
+
+
 class NmtParams(object):
     """ Class that holds the values of several parameters controlling the
     default behaviour of different NaMaster methods. Currently these are:
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 19c21cc..b19f5be 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -5,7 +5,7 @@ import healpy as hp
 import warnings
 
 
-class NmtWorkspace(object):
+class NmtWorkspace(ut._NmtCObject):
     """ :obj:`NmtWorkspace` objects are used to compute and store the
     mode-coupling matrix associated with an incomplete sky coverage,
     and used in the MASTER algorithm. :obj:`NmtWorkspace` objects can be
@@ -500,7 +500,7 @@ class NmtWorkspace(object):
                             axes=[1, 0, 3, 2])
 
 
-class NmtWorkspaceFlat(object):
+class NmtWorkspaceFlat(ut._NmtCObject):
     """ :obj:`NmtWorkspaceFlat` objects are used to compute and store the
     mode-coupling matrix associated with an incomplete sky coverage, and
     used in the flat-sky version of the MASTER algorithm. When initialized,
-- 
2.43.0


From aedcc3e2d73360d264f1742fcef651e44834e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:44 +0000
Subject: [PATCH 34/35] fix: covariance of multipoles shared by several
 bandpowers

When a multipole belongs to several bandpowers with different f_ell, several
threads wrote the same elements of the covariance of coupled power spectra, and
the result depended on which of them came last. It is now always that of the
last bandpower, as on a single thread.
---
 src/nmt_covar.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 41d10d9..9c08603 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -122,10 +122,20 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   //Multipoles outside all bandpowers are not covered below
   memset(covar_out,0,((size_t)(wa->ncls*(cw->lmax+1)))*wb->ncls*(cw->lmax+1)*sizeof(flouble));
 
+  //A multipole shared by several bandpowers takes its prefactor from the last
+  //one (and only the thread that computes that one may write its elements).
+  int ib_a,il_a;
+  int *last_band_a=my_malloc((wa->bin->ell_max+1)*sizeof(int));
+  for(ib_a=0;ib_a<wa->bin->n_bands;ib_a++) {
+    for(il_a=0;il_a<wa->bin->nell_list[ib_a];il_a++)
+      last_band_a[wa->bin->ell_list[ib_a][il_a]]=ib_a;
+  }
+
 #pragma omp parallel default(none)			\
   shared(cw,spin_a,spin_b,spin_c,spin_d)                \
   shared(wa,wb,clac,clad,clbc,clbd)			\
-  shared(nmaps_a,nmaps_b,nmaps_c,nmaps_d,covar_out)
+  shared(nmaps_a,nmaps_b,nmaps_c,nmaps_d,covar_out)	\
+  shared(last_band_a)
   {
     int band_a;
 
@@ -147,6 +157,8 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 		for(ila=0;ila<wa->bin->nell_list[band_a];ila++) {
 		  int ilb;
 		  int la=wa->bin->ell_list[band_a][ila];
+		  if(last_band_a[la]!=band_a)
+		    continue;
 		  for(ilb=0;ilb<wb->bin->nell_list[band_b];ilb++) {
 		    int iap;
 		    int lb=wb->bin->ell_list[band_b][ilb];
@@ -195,6 +207,7 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
       }
     } //end omp for
   } //end omp parallel
+  free(last_band_a);
 }
 
 void  nmt_compute_gaussian_covariance(nmt_covar_workspace *cw,
-- 
2.43.0


From 5c81715e36dac8cbd7c522fc4dae9cc552c2f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:14 +0000
Subject: [PATCH 35/35] fix: reject patches of different size in flat-sky
 covariances

Fields with the same numbers of pixels on patches of different physical
size were accepted, and the coupling coefficients computed as if all of
them had the size of the first.
---
 pymaster/covariance.py | 8 +++++++-
 src/nmt_covar_flat.c   | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index ffab43b..ffe2283 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -327,7 +327,13 @@ class NmtCovarianceWorkspaceFlat(ut._NmtCObject):
            (fla1.fl.fs.nx != flb1.fl.fs.nx) or \
            (fla1.fl.fs.ny != flb1.fl.fs.ny) or \
            (fla1.fl.fs.nx != flb2.fl.fs.nx) or \
-           (fla1.fl.fs.ny != flb2.fl.fs.ny):
+           (fla1.fl.fs.ny != flb2.fl.fs.ny) or \
+           (fla1.fl.fs.lx != fla2.fl.fs.lx) or \
+           (fla1.fl.fs.ly != fla2.fl.fs.ly) or \
+           (fla1.fl.fs.lx != flb1.fl.fs.lx) or \
+           (fla1.fl.fs.ly != flb1.fl.fs.ly) or \
+           (fla1.fl.fs.lx != flb2.fl.fs.lx) or \
+           (fla1.fl.fs.ly != flb2.fl.fs.ly):
             raise ValueError("Everything should have the same resolution!")
 
         if self.wsp is not None:
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..3068d54 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -33,7 +33,10 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
   
   if((fla1->fs->nx!=fla2->fs->nx) || (fla1->fs->ny!=fla2->fs->ny) ||
      (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
-     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
+     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny) ||
+     (fla1->fs->lx!=fla2->fs->lx) || (fla1->fs->ly!=fla2->fs->ly) ||
+     (fla1->fs->lx!=flb1->fs->lx) || (fla1->fs->ly!=flb1->fs->ly) ||
+     (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
   if(ba->n_bands!=bb->n_bands)
-- 
2.43.0


From 24d01f8cea7a2af418f2ada1a58cae5d7524bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 01/32] fix: read OI_INSPOL Jones matrix columns as complex
 values

The columns were read as double into complex float arrays, which discards
the imaginary parts and stores the bits of a double in place of the value.
---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From e9ffd361f34a7242ea49e2fb8b2e59cfa5d0f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 02/32] fix: copy IVISERR values in dup_oi_vis()

The copy received the RVISERR values instead.
---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From bd8b8241844f818b21508f666cb466e2aeee525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 03/32] fix: make every OI_ARRAY, OI_WAVELENGTH and OI_CORR
 table available by name

read_oi_fits() only filled the lookup tables from the names used by the
OI_VIS, OI_VIS2 and OI_T3 tables (and by OI_FLUX, except for CORRNAME), so
oi_fits_lookup_array() etc. returned NULL for other tables in the file.
---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 30d9fe6..e31d6c0 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -732,6 +732,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (read_next_oi_array(fptr, pArray, pStatus)) break; /* no more OI_ARRAY */
     pOi->arrayList = g_list_append(pOi->arrayList, pArray);
     ++pOi->numArray;
+    if (!g_hash_table_lookup(pOi->arrayHash, pArray->arrname))
+      g_hash_table_insert(pOi->arrayHash, pArray->arrname, pArray);
   }
   free(pArray);
   if (*pStatus != END_OF_FILE) goto except;
@@ -749,6 +751,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
       break; /* no more OI_WAVELENGTH */
     pOi->wavelengthList = g_list_append(pOi->wavelengthList, pWave);
     ++pOi->numWavelength;
+    if (!g_hash_table_lookup(pOi->wavelengthHash, pWave->insname))
+      g_hash_table_insert(pOi->wavelengthHash, pWave->insname, pWave);
   }
   free(pWave);
   if (*pStatus != END_OF_FILE) goto except;
@@ -778,6 +782,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
     ++pOi->numCorr;
+    if (!g_hash_table_lookup(pOi->corrHash, pCorr->corrname))
+      g_hash_table_insert(pOi->corrHash, pCorr->corrname, pCorr);
   }
 
   /* Read all OI_INSPOL tables, skipping over failed tables */
-- 
2.43.0


From 864fe48b6b4b9421aec8e981c6f58e908c15e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 04/32] fix: skip HDUs which are not binary tables when finding
 a table by name

specific_named_hdu() took the first image or ASCII table extension for the
requested table.
---
 src/oifitslib/read_fits.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d5e797c..99d2010 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -338,20 +338,18 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
   {
     fits_movabs_hdu(fptr, ihdu, &hdutype, pStatus);
     if (*pStatus) return *pStatus;
-    if (hdutype == BINARY_TBL)
+    if (hdutype != BINARY_TBL) continue; /* next HDU */
+    fits_write_errmark();
+    fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
+    fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
+    if (*pStatus)
     {
-      fits_write_errmark();
-      fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
-      fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
-      if (*pStatus)
-      {
-        *pStatus = 0;
-        fits_clear_errmark();
-        continue; /* next HDU */
-      }
-      if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
-        continue; /* next HDU */
+      *pStatus = 0;
+      fits_clear_errmark();
+      continue; /* next HDU */
     }
+    if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
+      continue; /* next HDU */
     break; /* current HDU matches */
   }
   if (ihdu > nhdu)
-- 
2.43.0


From 15d355999772213f4897008d044de21829d427d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 05/32] fix: allow tables with 10000 or more wavelength
 channels to be written

make_tform() reserved space for four digits of the repeat count only, so
an assertion failed for larger channel counts.
---
 src/oifitslib/write_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index bdd8cb4..08d96ea 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -54,7 +54,7 @@ char **make_tform(const char **template, int n, int value)
   {
     if (template[i][0] == '?')
     {
-      size = strlen(template[i]) + 4; /* allow for extra digits + \0 */
+      size = strlen(template[i]) + 12; /* allow for any int value + \0 */
       tform[i] = chkmalloc(size);
       needed = snprintf(tform[i], size, "%d%s", value, &template[i][1]);
       assert(needed < size); /* fails if string was truncated */
-- 
2.43.0


From 67f952ea84c7d30b6337c2ec44666a2ae2a10925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 06/32] fix: handle tables without rows or channels instead of
 aborting

FITS binary tables may have zero rows, and vector columns a zero repeat
count. chkmalloc() rejects zero-size requests, so reading, copying,
filtering or checking such a dataset terminated the calling program.
---
 src/oifitslib/alloc_fits.c | 64 +++++++++++++++++++-------------------
 src/oifitslib/chkmalloc.h  |  6 ++++
 src/oifitslib/oicheck.c    |  4 +--
 src/oifitslib/oifile.h     |  2 +-
 src/oifitslib/oifilter.c   | 37 +++++++++++++---------
 src/oifitslib/read_fits.c  | 17 ++++++----
 6 files changed, 74 insertions(+), 56 deletions(-)

diff --git a/src/oifitslib/alloc_fits.c b/src/oifitslib/alloc_fits.c
index c826dcd..04251d6 100644
--- a/src/oifitslib/alloc_fits.c
+++ b/src/oifitslib/alloc_fits.c
@@ -36,7 +36,7 @@
  */
 void alloc_oi_array(oi_array *pArray, int nelement)
 {
-  pArray->elem = chkmalloc(nelement * sizeof(element));
+  pArray->elem = chkmalloc_array(nelement * sizeof(element));
   pArray->nelement = nelement;
 }
 
@@ -50,7 +50,7 @@ void alloc_oi_array(oi_array *pArray, int nelement)
  */
 void alloc_oi_target(oi_target *pTargets, int ntarget)
 {
-  pTargets->targ = chkmalloc(ntarget * sizeof(target));
+  pTargets->targ = chkmalloc_array(ntarget * sizeof(target));
   pTargets->ntarget = ntarget;
 }
 
@@ -64,8 +64,8 @@ void alloc_oi_target(oi_target *pTargets, int ntarget)
  */
 void alloc_oi_wavelength(oi_wavelength *pWave, int nwave)
 {
-  pWave->eff_wave = chkmalloc(nwave * sizeof(pWave->eff_band[0]));
-  pWave->eff_band = chkmalloc(nwave * sizeof(pWave->eff_band[0]));
+  pWave->eff_wave = chkmalloc_array(nwave * sizeof(pWave->eff_band[0]));
+  pWave->eff_band = chkmalloc_array(nwave * sizeof(pWave->eff_band[0]));
   pWave->nwave = nwave;
 }
 
@@ -79,9 +79,9 @@ void alloc_oi_wavelength(oi_wavelength *pWave, int nwave)
  */
 void alloc_oi_corr(oi_corr *pCorr, int ncorr)
 {
-  pCorr->iindx = chkmalloc(ncorr * sizeof(pCorr->iindx[0]));
-  pCorr->jindx = chkmalloc(ncorr * sizeof(pCorr->jindx[0]));
-  pCorr->corr = chkmalloc(ncorr * sizeof(pCorr->corr[0]));
+  pCorr->iindx = chkmalloc_array(ncorr * sizeof(pCorr->iindx[0]));
+  pCorr->jindx = chkmalloc_array(ncorr * sizeof(pCorr->jindx[0]));
+  pCorr->corr = chkmalloc_array(ncorr * sizeof(pCorr->corr[0]));
   pCorr->ncorr = ncorr;
 }
 
@@ -99,14 +99,14 @@ void alloc_oi_inspol(oi_inspol *pInspol, long numrec, int nwave)
   int i;
   oi_inspol_record *pRec;
 
-  pInspol->record = chkmalloc(numrec * sizeof(oi_inspol_record));
+  pInspol->record = chkmalloc_array(numrec * sizeof(oi_inspol_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pInspol->record[i];
-    pRec->jxx = chkmalloc(nwave * sizeof(pRec->jxx[0]));
-    pRec->jyy = chkmalloc(nwave * sizeof(pRec->jyy[0]));
-    pRec->jxy = chkmalloc(nwave * sizeof(pRec->jxy[0]));
-    pRec->jyx = chkmalloc(nwave * sizeof(pRec->jyx[0]));
+    pRec->jxx = chkmalloc_array(nwave * sizeof(pRec->jxx[0]));
+    pRec->jyy = chkmalloc_array(nwave * sizeof(pRec->jyy[0]));
+    pRec->jxy = chkmalloc_array(nwave * sizeof(pRec->jxy[0]));
+    pRec->jyx = chkmalloc_array(nwave * sizeof(pRec->jyx[0]));
   }
   pInspol->numrec = numrec;
   pInspol->nwave = nwave;
@@ -126,15 +126,15 @@ void alloc_oi_vis(oi_vis *pVis, long numrec, int nwave)
   int i;
   oi_vis_record *pRec;
 
-  pVis->record = chkmalloc(numrec * sizeof(oi_vis_record));
+  pVis->record = chkmalloc_array(numrec * sizeof(oi_vis_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pVis->record[i];
-    pRec->visamp = chkmalloc(nwave * sizeof(pRec->visamp[0]));
-    pRec->visamperr = chkmalloc(nwave * sizeof(pRec->visamperr[0]));
-    pRec->visphi = chkmalloc(nwave * sizeof(pRec->visphi[0]));
-    pRec->visphierr = chkmalloc(nwave * sizeof(pRec->visphierr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->visamp = chkmalloc_array(nwave * sizeof(pRec->visamp[0]));
+    pRec->visamperr = chkmalloc_array(nwave * sizeof(pRec->visamperr[0]));
+    pRec->visphi = chkmalloc_array(nwave * sizeof(pRec->visphi[0]));
+    pRec->visphierr = chkmalloc_array(nwave * sizeof(pRec->visphierr[0]));
+    pRec->flag = chkmalloc_array(nwave * sizeof(pRec->flag[0]));
     pRec->visrefmap = NULL;
     pRec->rvis = NULL;
     pRec->rviserr = NULL;
@@ -161,13 +161,13 @@ void alloc_oi_vis2(oi_vis2 *pVis2, long numrec, int nwave)
   int i;
   oi_vis2_record *pRec;
 
-  pVis2->record = chkmalloc(numrec * sizeof(oi_vis2_record));
+  pVis2->record = chkmalloc_array(numrec * sizeof(oi_vis2_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pVis2->record[i];
-    pRec->vis2data = chkmalloc(nwave * sizeof(pRec->vis2data[0]));
-    pRec->vis2err = chkmalloc(nwave * sizeof(pRec->vis2err[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->vis2data = chkmalloc_array(nwave * sizeof(pRec->vis2data[0]));
+    pRec->vis2err = chkmalloc_array(nwave * sizeof(pRec->vis2err[0]));
+    pRec->flag = chkmalloc_array(nwave * sizeof(pRec->flag[0]));
   }
   pVis2->numrec = numrec;
   pVis2->nwave = nwave;
@@ -187,15 +187,15 @@ void alloc_oi_t3(oi_t3 *pT3, long numrec, int nwave)
   int i;
   oi_t3_record *pRec;
 
-  pT3->record = chkmalloc(numrec * sizeof(oi_t3_record));
+  pT3->record = chkmalloc_array(numrec * sizeof(oi_t3_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pT3->record[i];
-    pRec->t3amp = chkmalloc(nwave * sizeof(pRec->t3amp[0]));
-    pRec->t3amperr = chkmalloc(nwave * sizeof(pRec->t3amperr[0]));
-    pRec->t3phi = chkmalloc(nwave * sizeof(pRec->t3phi[0]));
-    pRec->t3phierr = chkmalloc(nwave * sizeof(pRec->t3phierr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->t3amp = chkmalloc_array(nwave * sizeof(pRec->t3amp[0]));
+    pRec->t3amperr = chkmalloc_array(nwave * sizeof(pRec->t3amperr[0]));
+    pRec->t3phi = chkmalloc_array(nwave * sizeof(pRec->t3phi[0]));
+    pRec->t3phierr = chkmalloc_array(nwave * sizeof(pRec->t3phierr[0]));
+    pRec->flag = chkmalloc_array(nwave * sizeof(pRec->flag[0]));
   }
   pT3->numrec = numrec;
   pT3->nwave = nwave;
@@ -216,13 +216,13 @@ void alloc_oi_flux(oi_flux *pFlux, long numrec, int nwave)
   int i;
   oi_flux_record *pRec;
 
-  pFlux->record = chkmalloc(numrec * sizeof(oi_flux_record));
+  pFlux->record = chkmalloc_array(numrec * sizeof(oi_flux_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pFlux->record[i];
-    pRec->fluxdata = chkmalloc(nwave * sizeof(pRec->fluxdata[0]));
-    pRec->fluxerr = chkmalloc(nwave * sizeof(pRec->fluxerr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->fluxdata = chkmalloc_array(nwave * sizeof(pRec->fluxdata[0]));
+    pRec->fluxerr = chkmalloc_array(nwave * sizeof(pRec->fluxerr[0]));
+    pRec->flag = chkmalloc_array(nwave * sizeof(pRec->flag[0]));
   }
   pFlux->numrec = numrec;
   pFlux->nwave = nwave;
diff --git a/src/oifitslib/chkmalloc.h b/src/oifitslib/chkmalloc.h
index b4b5634..774b1e3 100644
--- a/src/oifitslib/chkmalloc.h
+++ b/src/oifitslib/chkmalloc.h
@@ -71,6 +71,12 @@
  */
 #define chkmalloc(size) (_chkmalloc(size, __FILE__, __LINE__, __func__))
 
+/**
+ * Variant of chkmalloc() for array storage, which may legitimately have
+ * no elements. The returned pointer is never NULL.
+ */
+#define chkmalloc_array(size) (chkmalloc((size) > 0 ? (size) : 1))
+
 /**
  * Replacement for realloc() that either succeeds (returning a
  * non-NULL pointer) or terminates the program with a useful error
diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..7ba9129 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -1214,7 +1214,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1, pFlux->arrname);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index != -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index != -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Calibrated but STA_INDEX present",
@@ -1231,7 +1231,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index == -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index == -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Uncalibrated but STA_INDEX missing",
diff --git a/src/oifitslib/oifile.h b/src/oifitslib/oifile.h
index 547a606..bae9c0e 100644
--- a/src/oifitslib/oifile.h
+++ b/src/oifitslib/oifile.h
@@ -58,7 +58,7 @@
 #define MEMDUP(dest, src, size)                                                \
   do                                                                           \
   {                                                                            \
-    (dest) = _chkmalloc(size, __FILE__, __LINE__, __func__);                   \
+    (dest) = chkmalloc_array(size);                                            \
     memcpy(dest, src, size);                                                   \
   } while (0)
 
diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..9de5c58 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -703,7 +703,7 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
     pInWave = (oi_wavelength *)link->data;
     if (ACCEPT_INSNAME(pInWave, pFilter))
     {
-      useWave = chkmalloc(pInWave->nwave * sizeof(useWave[0]));
+      useWave = chkmalloc_array(pInWave->nwave * sizeof(useWave[0]));
       pOutWave = chkmalloc(sizeof(oi_wavelength));
       filter_oi_wavelength(pInWave, pFilter->wave_range, pOutWave, useWave);
       if (pOutWave->nwave > 0)
@@ -721,6 +721,7 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
         g_warning("Empty tables with INSNAME=%s removed from filter output",
                   pInWave->insname);
         free(useWave);
+        free_oi_wavelength(pOutWave);
         free(pOutWave);
       }
     }
@@ -748,8 +749,10 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
   (void)g_strlcpy(pOutWave->insname, pInWave->insname, FLEN_VALUE);
   pOutWave->nwave = 0; /* use as counter */
   /* will reallocate eff_wave and eff_band later */
-  pOutWave->eff_wave = chkmalloc(pInWave->nwave * sizeof(pInWave->eff_wave[0]));
-  pOutWave->eff_band = chkmalloc(pInWave->nwave * sizeof(pInWave->eff_band[0]));
+  pOutWave->eff_wave =
+      chkmalloc_array(pInWave->nwave * sizeof(pInWave->eff_wave[0]));
+  pOutWave->eff_band =
+      chkmalloc_array(pInWave->nwave * sizeof(pInWave->eff_band[0]));
 
   for (i = 0; i < pInWave->nwave; i++)
   {
@@ -765,7 +768,7 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
       pOutWave->eff_band[pOutWave->nwave++] = pInWave->eff_band[i];
     }
   }
-  if (pOutWave->nwave < pInWave->nwave)
+  if (pOutWave->nwave > 0 && pOutWave->nwave < pInWave->nwave)
   {
     pOutWave->eff_wave = realloc(
         pOutWave->eff_wave, pOutWave->nwave * sizeof(pInWave->eff_wave[0]));
@@ -867,9 +870,9 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
 
   /* Filter records */
   nrec = 0; /* counter */
-  pOutTab->record = chkmalloc(pInTab->numrec *
-                              sizeof(oi_inspol_record)); /* will reallocate */
-  pOutTab->nwave = pInTab->nwave;                        /* upper limit */
+  pOutTab->record = chkmalloc_array(
+      pInTab->numrec * sizeof(oi_inspol_record)); /* will reallocate */
+  pOutTab->nwave = pInTab->nwave;                 /* upper limit */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -890,13 +893,13 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
            sizeof(oi_inspol_record));
     if (pFilter->target_id >= 0) pOutTab->record[nrec].target_id = 1;
     pOutTab->record[nrec].jxx =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jxx[0]));
+        chkmalloc_array(pOutTab->nwave * sizeof(pOutTab->record[0].jxx[0]));
     pOutTab->record[nrec].jyy =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyy[0]));
+        chkmalloc_array(pOutTab->nwave * sizeof(pOutTab->record[0].jyy[0]));
     pOutTab->record[nrec].jxy =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jxy[0]));
+        chkmalloc_array(pOutTab->nwave * sizeof(pOutTab->record[0].jxy[0]));
     pOutTab->record[nrec].jyx =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyx[0]));
+        chkmalloc_array(pOutTab->nwave * sizeof(pOutTab->record[0].jyx[0]));
     k = 0;
     g_assert(useWave != NULL);
     for (j = 0; j < pInTab->nwave; j++)
@@ -1142,7 +1145,8 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_vis_record)); /* will reallocate */
+      chkmalloc_array(pInTab->numrec *
+                      sizeof(oi_vis_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1333,7 +1337,8 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_vis2_record)); /* will reallocate */
+      chkmalloc_array(pInTab->numrec *
+                      sizeof(oi_vis2_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1585,7 +1590,8 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_t3_record)); /* will reallocate */
+      chkmalloc_array(pInTab->numrec *
+                      sizeof(oi_t3_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1737,7 +1743,8 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_flux_record)); /* will reallocate */
+      chkmalloc_array(pInTab->numrec *
+                      sizeof(oi_flux_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 99d2010..d7d9c0a 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -796,7 +796,12 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
   }
 
   /* Read optional column */
-  if (pTargets->revision >= 2)
+  if (pTargets->ntarget == 0)
+  {
+    /* no values to read */
+    pTargets->usecategory = FALSE;
+  }
+  else if (pTargets->revision >= 2)
   {
     pTargets->usecategory = read_col_string(
         fptr, TRUE, "CATEGORY", 3, 1, pTargets->targ[0].category, pStatus);
@@ -1067,13 +1072,13 @@ static STATUS read_oi_vis_complex(fitsfile *fptr, oi_vis *pVis, bool correlated,
     for (irow = 1; irow <= pVis->numrec; irow++)
     {
       pVis->record[irow - 1].rvis =
-          chkmalloc(pVis->nwave * sizeof(pVis->record[0].rvis[0]));
+          chkmalloc_array(pVis->nwave * sizeof(pVis->record[0].rvis[0]));
       pVis->record[irow - 1].rviserr =
-          chkmalloc(pVis->nwave * sizeof(pVis->record[0].rviserr[0]));
+          chkmalloc_array(pVis->nwave * sizeof(pVis->record[0].rviserr[0]));
       pVis->record[irow - 1].ivis =
-          chkmalloc(pVis->nwave * sizeof(pVis->record[0].ivis[0]));
+          chkmalloc_array(pVis->nwave * sizeof(pVis->record[0].ivis[0]));
       pVis->record[irow - 1].iviserr =
-          chkmalloc(pVis->nwave * sizeof(pVis->record[0].iviserr[0]));
+          chkmalloc_array(pVis->nwave * sizeof(pVis->record[0].iviserr[0]));
       fits_get_colnum(fptr, CASEINSEN, "RVIS", &colnum, pStatus);
       fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pVis->nwave, NULL,
                     pVis->record[irow - 1].rvis, &anynull, pStatus);
@@ -1159,7 +1164,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
     pVis->usevisrefmap = TRUE;
     for (irow = 1; irow <= pVis->numrec; irow++)
     {
-      pVis->record[irow - 1].visrefmap = chkmalloc(
+      pVis->record[irow - 1].visrefmap = chkmalloc_array(
           pVis->nwave * pVis->nwave * sizeof(pVis->record[0].visrefmap[0]));
       fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pVis->nwave * pVis->nwave,
                     NULL, pVis->record[irow - 1].visrefmap, &anynull, pStatus);
-- 
2.43.0


From 360477465b657db74e951dbd3950d3e64672f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 07/32] fix: report different kinds of breach in one check
 without aborting

check_tables() and check_elements_present() passed differing descriptions
to set_result(), which asserts that all breaches found by a check have
the same description.
---
 src/oifitslib/oicheck.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 7ba9129..a0720d9 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -135,10 +135,9 @@ void print_check_result(oi_check_result *pResult)
       tab = (tabType *)link->data;                                             \
       if (tab->revision != (rev))                                              \
       {                                                                        \
-        g_snprintf(location, FLEN_VALUE, "%s #%d", tabName,                    \
-                   g_list_position((tabList), link) + 1);                      \
-        set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN",           \
-                   location);                                                  \
+        g_snprintf(location, FLEN_VALUE, "%s #%d has invalid OI_REVN",         \
+                   tabName, g_list_position((tabList), link) + 1);             \
+        set_result(pResult, OI_BREACH_NOT_OIFITS, desc1, location);            \
       }                                                                        \
       link = link->next;                                                       \
     }                                                                          \
@@ -154,7 +153,7 @@ void print_check_result(oi_check_result *pResult)
  */
 oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 {
-  const char desc1[] = "Mandatory table missing";
+  const char desc1[] = "Mandatory table missing or invalid OI_REVN";
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
@@ -185,7 +184,8 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 
     if (pOi->targets.revision != OI_REVN_V2_TARGET)
     {
-      set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN", "OI_TARGET");
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1,
+                 "OI_TARGET has invalid OI_REVN");
     }
     CHECK_BAD_TAB_REVISION(pOi->arrayList, oi_array, "OI_ARRAY",
                            OI_REVN_V2_ARRAY);
@@ -219,7 +219,8 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 
     if (pOi->targets.revision != OI_REVN_V1_TARGET)
     {
-      set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN", "OI_TARGET");
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc1,
+                 "OI_TARGET has invalid OI_REVN");
     }
     CHECK_BAD_TAB_REVISION(pOi->arrayList, oi_array, "OI_ARRAY",
                            OI_REVN_V1_ARRAY);
@@ -715,7 +716,6 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
   oi_t3 *pT3;
   oi_flux *pFlux;
   const char desc[] = "Reference to missing array element";
-  const char desc2[] = "ARRNAME missing"; //:BUG:
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
@@ -740,9 +740,9 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     }
     else
     {
-      g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
+      g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d has no ARRNAME",
+                 g_list_position(pOi->inspolList, link) + 1);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
     link = link->next;
   }
-- 
2.43.0


From 8700c8d09c05c2a7bf6a5ee23050e8a45536b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 08/32] fix: report correct location of OI_INSPOL table without
 ARRNAME

---
 src/oifitslib/oicheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index a0720d9..6107043 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -628,7 +628,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
-- 
2.43.0


From 0e820bbad43ac6407aa2cee62c6750d8deaaa36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 09/32] fix: print nothing for a check result without breaches

format_check_result() returns NULL in this case, which print_check_result()
passed to printf().
---
 src/oifitslib/oicheck.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 6107043..3502110 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -120,7 +120,9 @@ char *format_check_result(oi_check_result *pResult)
  */
 void print_check_result(oi_check_result *pResult)
 {
-  printf("%s", format_check_result(pResult));
+  char *result = format_check_result(pResult);
+
+  if (result != NULL) printf("%s", result);
 }
 
 #define CHECK_BAD_TAB_REVISION(tabList, tabType, tabName, rev)                 \
-- 
2.43.0


From b0468eb7e986823b42892132c319bd38fcc076e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 10/32] fix: allow more than 99 targets in merged dataset

---
 src/oifitslib/oimerge.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..7cd6a3f 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,16 +229,20 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
+
+  /* Allow for all input targets being different */
+  maxTarget = 0;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
-  pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  alloc_oi_target(pOutTab, maxTarget);
+  pOutTab->ntarget = 0; /* use as counter */
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -252,7 +256,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
@@ -261,7 +264,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     }
     link = link->next;
   }
-  pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
   return targetIdHash;
 }
 
-- 
2.43.0


From 0207663032209ede7524788c88aaed022404cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 11/32] fix: keep target categories when merging, and filtering
 by target

---
 src/oifitslib/oifilter.c | 1 +
 src/oifitslib/oimerge.c  | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 9de5c58..ed88dfc 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -624,6 +624,7 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
+    pOutTargets->usecategory = pInTargets->usecategory;
     pOutTargets->ntarget = 0;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 7cd6a3f..2c5e035 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -243,6 +243,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
   pOutTab->revision = OI_REVN_V2_TARGET;
   alloc_oi_target(pOutTab, maxTarget);
   pOutTab->ntarget = 0; /* use as counter */
+  pOutTab->usecategory = FALSE;
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -260,6 +261,10 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (pInTab->usecategory)
+          pOutTab->usecategory = TRUE;
+        else /* not specified */
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From fd81a5ffd424ae5bc7c1015c28c8946094eecc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 12/32] fix: ensure names of tables in merged dataset are
 unique

The new name given to a table whose name clashed could itself clash with
that of another table, or be truncated when written to file, so that
cross-references to it became ambiguous.
---
 src/oifitslib/oimerge.c | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 2c5e035..7c7d626 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -288,6 +288,7 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int num;
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -311,14 +312,16 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing ARRNAME if it clashes */
         pOutTab = dup_oi_array(pInTab);
         upgrade_oi_array(pOutTab);
-        if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
+        num = pOutput->numArray;
+        while (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) !=
+               NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
+          ++num;
+          /* Avoid truncation of keyword value in file (at 68 characters) */
+          if (strlen(pInTab->arrname) < (FLEN_VALUE - 6))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pInTab->arrname, num);
           else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
+            g_snprintf(newName, FLEN_VALUE, "array%03d", num);
           g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
@@ -349,6 +352,7 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int num;
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -372,16 +376,16 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing INSNAME if it clashes */
         pOutTab = dup_oi_wavelength(pInTab);
         upgrade_oi_wavelength(pOutTab);
-        if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
-            NULL)
+        num = pOutput->numWavelength;
+        while (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
+               NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
+          ++num;
+          /* Avoid truncation of keyword value in file (at 68 characters) */
+          if (strlen(pInTab->insname) < (FLEN_VALUE - 6))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pInTab->insname, num);
           else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
+            g_snprintf(newName, FLEN_VALUE, "ins%03d", num);
           g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
@@ -413,6 +417,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int num;
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -433,14 +438,15 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
 
       /* Add copy of pInTab to output, changing CORRNAME if it clashes */
       pOutTab = dup_oi_corr(pInTab);
-      if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
+      num = pOutput->numCorr;
+      while (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
       {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
+        ++num;
+        /* Avoid truncation of keyword value in file (at 68 characters) */
+        if (strlen(pInTab->corrname) < (FLEN_VALUE - 6))
+          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pInTab->corrname, num);
         else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
+          g_snprintf(newName, FLEN_VALUE, "ins%03d", num);
         g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
       }
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
-- 
2.43.0


From f24320671314f5063ec6984bbb76385f668766f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 13/32] fix: ignore DATE-OBS outside supported range of years
 when merging

DATE-OBS is set from the data for v1 files, hence can be 1858-11-17 if
the MJD is unknown. This caused an assertion failure in date2mjd().
---
 src/oifitslib/oimerge.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 7c7d626..416ca0c 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -147,6 +147,7 @@ static long files_min_mjd(const GList *list)
   {
     pHeader = &((oi_fits *)link->data)->header;
     if (sscanf(pHeader->date_obs, "%4ld-%2ld-%2ld", &year, &month, &day) == 3 &&
+        year >= 1901 && year <= 2099 && /* valid range for date2mjd() */
         (mjd = date2mjd(year, month, day)) < minMjd)
       minMjd = mjd;
 
-- 
2.43.0


From 4d98ed9b5ef06ea210368d18f65f347a4b51929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 14/32] fix: avoid heap overflow when filtering OI_INSPOL by
 wavelength

If the filter accepted different numbers of channels for the instruments
in one OI_INSPOL table, output records were written beyond the end of
their storage.
---
 src/oifitslib/oifilter.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index ed88dfc..07851df 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -888,6 +888,20 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
       continue; /* skip record as MJD ranges don't overlap */
     useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
     if (useWave == NULL) continue; /* skip record as INSNAME filtered out */
+    if (nrec > 0)
+    {
+      /* All records in table must have same number of channels */
+      k = 0;
+      for (j = 0; j < pInTab->nwave; j++)
+        if (useWave[j]) ++k;
+      if (k != pOutTab->nwave)
+      {
+        g_warning("OI_INSPOL record %d for INSNAME=%s removed from filter "
+                  "output as different number of channels accepted",
+                  i + 1, pInTab->record[i].insname);
+        continue;
+      }
+    }
 
     /* Create output record */
     memcpy(&pOutTab->record[nrec], &pInTab->record[i],
-- 
2.43.0


From 69167458217fb7dbe0ab9463e68366c28bfe0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 15/32] fix: print usage message if oifits-upgrade INSMODE
 argument missing

---
 src/util/oifits-upgrade.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/oifits-upgrade.c b/src/util/oifits-upgrade.c
index 7a05c34..0bfdbb9 100644
--- a/src/util/oifits-upgrade.c
+++ b/src/util/oifits-upgrade.c
@@ -36,7 +36,7 @@ int main(int argc, char *argv[])
   int status;
 
   /* Parse command-line */
-  if (argc < 5)
+  if (argc < 6)
   {
     printf("Usage:\n%s INFILE OUTFILE ORIGIN OBSERVER INSMODE\n", argv[0]);
     exit(2); /* standard unix behaviour */
-- 
2.43.0


From ce395370ac1f6a5ccce7d91d4a8df3bc894adfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:10 +0000
Subject: [PATCH 16/32] fix: skip tables without records or channels when
 iterating over data

---
 src/oifitslib/oiiter.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index 5c975fe..3851c84 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -231,7 +231,8 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
 static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 {
   oi_vis *pTable = (oi_vis *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (pTable->numrec > 0 && pTable->nwave > 0 &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -242,7 +243,8 @@ static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 {
   oi_vis2 *pTable = (oi_vis2 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (pTable->numrec > 0 && pTable->nwave > 0 &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -253,7 +255,8 @@ static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 static bool oi_t3_iter_accept_table(oi_t3_iter *pIter)
 {
   oi_t3 *pTable = (oi_t3 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (pTable->numrec > 0 && pTable->nwave > 0 &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
-- 
2.43.0


From 9fde016124bfed978623e3030395179b0280e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 17/32] fix: do not print undefined EXTNAME if checksums cannot
 be computed

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d7d9c0a..498aaee 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -241,6 +241,7 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
   fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
+  if (*pStatus) return *pStatus; /* could not compute checksums */
   if (dataok == -1 || hduok == -1)
   {
     fits_get_hdu_num(fptr, &hdunum);
-- 
2.43.0


From d0f8c71f05e103c50995a599b13c7585b87fbabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 18/32] fix: report missing mandatory columns of OI_VIS and
 OI_FLUX tables

---
 src/oifitslib/read_fits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 498aaee..a0aae96 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1148,6 +1148,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                     &pVis->record[irow - 1].corrindx_visphi, &anynull, pStatus);
     }
   }
+  if (*pStatus) return *pStatus; /* keyword or column unreadable */
   fits_write_errmark();
   fits_get_colnum(fptr, CASEINSEN, "VISREFMAP", &colnum, pStatus);
   if (*pStatus == COL_NOT_FOUND)
@@ -1612,6 +1613,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
     /* read optional columns */
+    if (*pStatus) goto except; /* mandatory column missing or unreadable */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     if (*pStatus == COL_NOT_FOUND)
-- 
2.43.0


From a70df982e47ee6910b4e92d897e209ac27d881b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:10 +0000
Subject: [PATCH 19/32] fix: filter overran its channel mask for tables with
 more channels than their OI_WAVELENGTH

---
 src/oifitslib/oifilter.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 07851df..71cb073 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -677,6 +677,30 @@ void filter_all_oi_array(const oi_fits *pInput, const oi_filter_spec *pFilter,
   }
 }
 
+/**
+ * Return largest number of wavelength channels of any table in @a pData
+ */
+static int max_nwave(const oi_fits *pData)
+{
+  const GList *link;
+  int nwave;
+
+  nwave = 0;
+  for (link = pData->wavelengthList; link != NULL; link = link->next)
+    nwave = MAX(nwave, ((oi_wavelength *)link->data)->nwave);
+  for (link = pData->inspolList; link != NULL; link = link->next)
+    nwave = MAX(nwave, ((oi_inspol *)link->data)->nwave);
+  for (link = pData->visList; link != NULL; link = link->next)
+    nwave = MAX(nwave, ((oi_vis *)link->data)->nwave);
+  for (link = pData->vis2List; link != NULL; link = link->next)
+    nwave = MAX(nwave, ((oi_vis2 *)link->data)->nwave);
+  for (link = pData->t3List; link != NULL; link = link->next)
+    nwave = MAX(nwave, ((oi_t3 *)link->data)->nwave);
+  for (link = pData->fluxList; link != NULL; link = link->next)
+    nwave = MAX(nwave, ((oi_flux *)link->data)->nwave);
+  return nwave;
+}
+
 /**
  * Filter all OI_WAVELENGTH tables, remembering which wavelength
  * channels have been accepted for each
@@ -695,8 +719,12 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
   GHashTable *useWaveHash;
   oi_wavelength *pInWave, *pOutWave;
   char *useWave;
+  int nwave;
   GList *link;
 
+  /* Tables may have more channels than the OI_WAVELENGTH they refer to, if
+     the dataset is inconsistent. Excess channels are not accepted */
+  nwave = max_nwave(pInput);
   useWaveHash = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, free);
   link = pInput->wavelengthList;
   while (link != NULL)
@@ -704,7 +732,8 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
     pInWave = (oi_wavelength *)link->data;
     if (ACCEPT_INSNAME(pInWave, pFilter))
     {
-      useWave = chkmalloc_array(pInWave->nwave * sizeof(useWave[0]));
+      useWave = chkmalloc_array(nwave * sizeof(useWave[0]));
+      memset(useWave, FALSE, nwave * sizeof(useWave[0]));
       pOutWave = chkmalloc(sizeof(oi_wavelength));
       filter_oi_wavelength(pInWave, pFilter->wave_range, pOutWave, useWave);
       if (pOutWave->nwave > 0)
-- 
2.43.0


From 51d3a5c6f7daa42f17f358247b10f9109245b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 20/32] fix: filter used the channels of one OI_WAVELENGTH with
 the wavelengths of another of the same name

---
 src/oifitslib/oifilter.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 71cb073..7b27452 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -671,7 +671,8 @@ void filter_all_oi_array(const oi_fits *pInput, const oi_filter_spec *pFilter,
       pOutTab = dup_oi_array(pInTab);
       pOutput->arrayList = g_list_append(pOutput->arrayList, pOutTab);
       ++pOutput->numArray;
-      g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
+      if (!g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname))
+        g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
     }
     link = link->next;
   }
@@ -730,7 +731,13 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
   while (link != NULL)
   {
     pInWave = (oi_wavelength *)link->data;
-    if (ACCEPT_INSNAME(pInWave, pFilter))
+    if (g_hash_table_contains(useWaveHash, pInWave->insname))
+    {
+      g_warning("Duplicate OI_WAVELENGTH table with INSNAME=%s "
+                "removed from filter output",
+                pInWave->insname);
+    }
+    else if (ACCEPT_INSNAME(pInWave, pFilter))
     {
       useWave = chkmalloc_array(nwave * sizeof(useWave[0]));
       memset(useWave, FALSE, nwave * sizeof(useWave[0]));
@@ -833,7 +840,8 @@ void filter_all_oi_corr(const oi_fits *pInput, const oi_filter_spec *pFilter,
       pOutTab = dup_oi_corr(pInTab);
       pOutput->corrList = g_list_append(pOutput->corrList, pOutTab);
       ++pOutput->numCorr;
-      g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
+      if (!g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname))
+        g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
     }
     link = link->next;
   }
-- 
2.43.0


From afa699ee56a1a03ca47aa1b1f56d4d01acbb17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:58 +0000
Subject: [PATCH 21/32] fix: iterators crashed on data without an OI_WAVELENGTH
 or with more channels than it

---
 src/oifitslib/oiiter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index 3851c84..22e2abe 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -43,6 +43,8 @@ static bool oi_vis_iter_accept_channel(oi_vis_iter *pIter)
   oi_vis *pTable = (oi_vis *)pIter->link->data;
   oi_vis_record *pRec = &pTable->record[pIter->irec];
 
+  if (pIter->pWave == NULL || pIter->iwave >= pIter->pWave->nwave)
+    return false; /* inconsistent dataset, no wavelength for channel */
   if (pIter->pWave->eff_wave[pIter->iwave] < pIter->filter.wave_range[0] ||
       pIter->pWave->eff_wave[pIter->iwave] > pIter->filter.wave_range[1])
     return false;
@@ -74,6 +76,8 @@ static bool oi_vis2_iter_accept_channel(oi_vis2_iter *pIter)
   oi_vis2 *pTable = (oi_vis2 *)pIter->link->data;
   oi_vis2_record *pRec = &pTable->record[pIter->irec];
 
+  if (pIter->pWave == NULL || pIter->iwave >= pIter->pWave->nwave)
+    return false; /* inconsistent dataset, no wavelength for channel */
   if (pIter->pWave->eff_wave[pIter->iwave] < pIter->filter.wave_range[0] ||
       pIter->pWave->eff_wave[pIter->iwave] > pIter->filter.wave_range[1])
     return false;
@@ -100,6 +104,8 @@ static bool oi_t3_iter_accept_channel(oi_t3_iter *pIter)
   oi_t3 *pTable = (oi_t3 *)pIter->link->data;
   oi_t3_record *pRec = &pTable->record[pIter->irec];
 
+  if (pIter->pWave == NULL || pIter->iwave >= pIter->pWave->nwave)
+    return false; /* inconsistent dataset, no wavelength for channel */
   if (pIter->pWave->eff_wave[pIter->iwave] < pIter->filter.wave_range[0] ||
       pIter->pWave->eff_wave[pIter->iwave] > pIter->filter.wave_range[1])
     return false;
-- 
2.43.0


From 9a1a95aaff1522324974e23f0edf7c954629bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:58 +0000
Subject: [PATCH 22/32] fix: merging crashed on references to missing tables or
 targets

---
 src/oifitslib/oimerge.c | 52 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 416ca0c..b9da3f3 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -462,6 +462,43 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   return corrnameHashList;
 }
 
+/**
+ * Return new name from hash table, or blank if there is no table @a oldName
+ */
+static const char *lookup_new_name(GHashTable *hash, const char *oldName)
+{
+  const char *newName;
+
+  newName = g_hash_table_lookup(hash, oldName);
+  if (newName == NULL)
+  {
+    if (oldName[0] != '\0')
+      g_warning("Reference to missing table '%s' removed from merged dataset",
+                oldName);
+    newName = "";
+  }
+  return newName;
+}
+
+/**
+ * Return new TARGET_ID from hash table, or zero if there is no target @a oldId
+ */
+static int lookup_new_target_id(GHashTable *targetIdHash, const oi_fits *pInOi,
+                                int oldId)
+{
+  const target *pTarget;
+
+  pTarget = oi_fits_lookup_target(pInOi, oldId);
+  if (pTarget == NULL)
+  {
+    g_warning("Reference to missing target %d removed from merged dataset",
+              oldId);
+    return 0;
+  }
+  /* hash table is indexed by target name */
+  return *((int *)g_hash_table_lookup(targetIdHash, pTarget->target));
+}
+
 /** Replace optional ARRNAME with string from hash table */
 #define REPLACE_ARRNAME(pTab, oldArrname, arrnameHash)                         \
   do                                                                           \
@@ -469,7 +506,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
     if (strlen(oldArrname) > 0)                                                \
     {                                                                          \
       (void)g_strlcpy((pTab)->arrname,                                         \
-                      g_hash_table_lookup(arrnameHash, oldArrname),            \
+                      lookup_new_name(arrnameHash, oldArrname),                \
                       FLEN_VALUE);                                             \
     }                                                                          \
   } while (0)
@@ -477,7 +514,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
 /** Replace INSNAME with string from hash table */
 #define REPLACE_INSNAME(pTab, oldInsname, insnameHash)                         \
   (void)g_strlcpy((pTab)->insname,                                             \
-                  g_hash_table_lookup(insnameHash, oldInsname), FLEN_VALUE)
+                  lookup_new_name(insnameHash, oldInsname), FLEN_VALUE)
 
 /** Replace optional CORRNAME with string from hash table */
 #define REPLACE_CORRNAME(pTab, oldCorrname, corrnameHash)                      \
@@ -486,7 +523,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
     if (strlen(oldCorrname) > 0)                                               \
     {                                                                          \
       (void)g_strlcpy((pTab)->corrname,                                        \
-                      g_hash_table_lookup(corrnameHash, oldCorrname),          \
+                      lookup_new_name(corrnameHash, oldCorrname),              \
                       FLEN_VALUE);                                             \
     }                                                                          \
   } while (0)
@@ -498,11 +535,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
     int ii;                                                                    \
     for (ii = 0; ii < (pTab)->numrec; ii++)                                    \
     {                                                                          \
-      /* hash table is indexed by target name */                               \
-      (pTab)->record[ii].target_id = *((int *)g_hash_table_lookup(             \
-          targetIdHash,                                                        \
-          oi_fits_lookup_target(pInOi, (pTab)->record[ii].target_id)           \
-              ->target));                                                      \
+      (pTab)->record[ii].target_id = lookup_new_target_id(                     \
+          targetIdHash, pInOi, (pTab)->record[ii].target_id);                  \
     }                                                                          \
   } while (0)
 
@@ -549,7 +583,7 @@ void merge_all_oi_inspol(const GList *inList, GHashTable *targetIdHash,
       for (i = 0; i < pOutTab->numrec; i++)
       {
         g_strlcpy(pOutTab->record[i].insname,
-                  g_hash_table_lookup(insnameHash, pOutTab->record[i].insname),
+                  lookup_new_name(insnameHash, pOutTab->record[i].insname),
                   FLEN_VALUE);
       }
       /* Append modified copy of table to output */
-- 
2.43.0


From 60e502620679a816f6a8763ffde04d5d1d221010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:58 +0000
Subject: [PATCH 23/32] fix: merging did not refer to the first of tables with
 the same name

---
 src/oifitslib/oimerge.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index b9da3f3..38df87f 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -329,7 +329,8 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         pOutput->arrayList = g_list_append(pOutput->arrayList, pOutTab);
         ++pOutput->numArray;
       }
-      g_hash_table_insert(hash, pInTab->arrname, pOutTab->arrname);
+      if (!g_hash_table_lookup(hash, pInTab->arrname))
+        g_hash_table_insert(hash, pInTab->arrname, pOutTab->arrname);
       jlink = jlink->next;
     }
     ilink = ilink->next;
@@ -394,7 +395,8 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
             g_list_append(pOutput->wavelengthList, pOutTab);
         ++pOutput->numWavelength;
       }
-      g_hash_table_insert(hash, pInTab->insname, pOutTab->insname);
+      if (!g_hash_table_lookup(hash, pInTab->insname))
+        g_hash_table_insert(hash, pInTab->insname, pOutTab->insname);
       jlink = jlink->next;
     }
     ilink = ilink->next;
@@ -454,7 +456,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
       pOutput->corrList = g_list_append(pOutput->corrList, pOutTab);
       ++pOutput->numCorr;
 
-      g_hash_table_insert(hash, pInTab->corrname, pOutTab->corrname);
+      if (!g_hash_table_lookup(hash, pInTab->corrname))
+        g_hash_table_insert(hash, pInTab->corrname, pOutTab->corrname);
       jlink = jlink->next;
     }
     ilink = ilink->next;
-- 
2.43.0


From 5856a850c2884f59301de31af4e33e144318c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:20 +0000
Subject: [PATCH 24/32] fix: filter kept the last of targets with the same
 TARGET_ID and leaked the others

---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 7b27452..538e734 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -633,6 +633,7 @@ void filter_oi_target(const oi_target *pInTargets,
         alloc_oi_target(pOutTargets, 1);
         memcpy(pOutTargets->targ, &pInTargets->targ[i], sizeof(target));
         pOutTargets->targ[0].target_id = 1;
+        break; /* 1st match, as oi_fits_lookup_target() */
       }
     }
   }
-- 
2.43.0


From 96191323614d07f97a3026283b0064248a22834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 25/32] fix: filter aborted on tables none of whose channels
 are accepted, if they have other channels than their OI_WAVELENGTH

---
 src/oifitslib/oifilter.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 538e734..62e21a3 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -926,12 +926,13 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
       continue; /* skip record as MJD ranges don't overlap */
     useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
     if (useWave == NULL) continue; /* skip record as INSNAME filtered out */
+    k = 0;
+    for (j = 0; j < pInTab->nwave; j++)
+      if (useWave[j]) ++k;
+    if (k == 0) continue; /* skip record as no channels accepted */
     if (nrec > 0)
     {
       /* All records in table must have same number of channels */
-      k = 0;
-      for (j = 0; j < pInTab->nwave; j++)
-        if (useWave[j]) ++k;
       if (k != pOutTab->nwave)
       {
         g_warning("OI_INSPOL record %d for INSNAME=%s removed from filter "
@@ -1202,6 +1203,7 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
                       sizeof(oi_vis_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
+    if (pOutTab->nwave == 0) break; /* no channels accepted */
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
       continue; /* skip record as TARGET_ID doesn't match */
@@ -1394,6 +1396,7 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
                       sizeof(oi_vis2_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
+    if (pOutTab->nwave == 0) break; /* no channels accepted */
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
       continue; /* skip record as TARGET_ID doesn't match */
@@ -1647,6 +1650,7 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
                       sizeof(oi_t3_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
+    if (pOutTab->nwave == 0) break; /* no channels accepted */
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
       continue; /* skip record as TARGET_ID doesn't match */
@@ -1800,6 +1804,7 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
                       sizeof(oi_flux_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
+    if (pOutTab->nwave == 0) break; /* no channels accepted */
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
       continue; /* skip record as TARGET_ID doesn't match */
-- 
2.43.0


From 9ef32cb4218d93f2560ae240a03dc25550b59494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:47 +0000
Subject: [PATCH 26/32] fix: do not take a truncated table for the end of the
 file

Data missing at the end of a truncated file gave END_OF_FILE status, which
callers of read_next_oi_*() take to mean that there are no more tables of that
type. read_oi_fits() hence succeeded without a truncated OI_ARRAY or
OI_WAVELENGTH table, and left out others without the usual message.
---
 src/oifitslib/read_fits.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index a0aae96..ce86818 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -265,6 +265,27 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   return *pStatus;
 }
 
+/**
+ * Report end of file met while reading a table as a read error.
+ *
+ * END_OF_FILE status from a read_next_oi_*() function means that there are no
+ * more tables of that type, hence must not result from a truncated table.
+ *
+ * @param pStatus  pointer to status variable
+ *
+ * @return On error, returns non-zero cfitsio error code (also assigned to
+ *         *pStatus)
+ */
+static STATUS report_truncated(STATUS *pStatus)
+{
+  if (*pStatus == END_OF_FILE)
+  {
+    fits_write_errmsg("File is truncated");
+    *pStatus = READ_ERROR;
+  }
+  return *pStatus;
+}
+
 /**
  * Move to next binary table HDU with specified EXTNAME.
  *
@@ -879,6 +900,7 @@ STATUS read_next_oi_array(fitsfile *fptr, oi_array *pArray, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_array_chdu(fptr, pArray, NULL, pStatus);
 
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -939,6 +961,7 @@ STATUS read_next_oi_wavelength(fitsfile *fptr, oi_wavelength *pWave,
   verify_chksum(fptr, pStatus);
   read_oi_wavelength_chdu(fptr, pWave, NULL, pStatus);
 
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -998,6 +1021,7 @@ STATUS read_next_oi_corr(fitsfile *fptr, oi_corr *pCorr, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_corr_chdu(fptr, pCorr, NULL, pStatus);
 
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1027,6 +1051,7 @@ STATUS read_next_oi_inspol(fitsfile *fptr, oi_inspol *pInspol, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_inspol_chdu(fptr, pInspol, pStatus);
 
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1272,6 +1297,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   read_oi_vis_opt(fptr, pVis, pStatus);
 
 except:
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1386,6 +1412,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
   }
 
 except:
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "FITSIO error in %s:\n", function);
@@ -1516,6 +1543,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
   }
 
 except:
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1637,6 +1665,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
   }
 
 except:
+  report_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From 9c1c1986e32cdc1a786ab16a11505c882c051844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 27/32] fix: leave the next item alone when an optional one is
 left out

---
 src/oifitslib/oitable-demo.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index d279b76..cc531b8 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -31,8 +31,12 @@
 
 static bool scan_opt_string(FILE *fp, const char *format, char *dest)
 {
+  const long start = ftell(fp);
+
   if (fscanf(fp, format, dest) < 1)
   {
+    /* name may match in part, but must be left for the next scan */
+    fseek(fp, start, SEEK_SET);
     dest[0] = '\0';
     printf("Optional %s not specified - set to \"\"\n", format);
     return FALSE;
@@ -42,8 +46,12 @@ static bool scan_opt_string(FILE *fp, const char *format, char *dest)
 
 static bool scan_opt_int(FILE *fp, const char *format, int *dest, int nullval)
 {
+  const long start = ftell(fp);
+
   if (fscanf(fp, format, dest) < 1)
   {
+    /* name may match in part, but must be left for the next scan */
+    fseek(fp, start, SEEK_SET);
     *dest = nullval;
     printf("Optional %s not specified - set to %d\n", format, nullval);
     return FALSE;
@@ -54,8 +62,12 @@ static bool scan_opt_int(FILE *fp, const char *format, int *dest, int nullval)
 static bool scan_opt_double(FILE *fp, const char *format, double *dest,
                             double nullval)
 {
+  const long start = ftell(fp);
+
   if (fscanf(fp, format, dest) < 1)
   {
+    /* name may match in part, but must be left for the next scan */
+    fseek(fp, start, SEEK_SET);
     *dest = nullval;
     printf("Optional %s not specified - set to %lf\n", format, nullval);
     return FALSE;
-- 
2.43.0


From 905137316a05f8a702daec75cbaf3b13f256b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 28/32] fix: report a text file which cannot be opened

---
 src/oifitslib/oitable-demo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index cc531b8..6ec7809 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -103,6 +103,11 @@ void demo_write(void)
   filename[strlen(filename) - 1] = '\0'; /* zap newline */
 
   fp = fopen(filename, "r");
+  if (fp == NULL)
+  {
+    perror(filename);
+    exit(EXIT_FAILURE);
+  }
 
   /* Read info for OI_ARRAY table */
   fscanf(fp, "OI_ARRAY arrname %70s ", array.arrname);
-- 
2.43.0


From 2acf1f10b511e3d20c0596d353996c96439a8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:55 +0000
Subject: [PATCH 29/32] fix: report failure to complete the output file of the
 demonstration program

---
 src/oifitslib/oitable-demo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 6ec7809..141a10d 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -460,6 +460,11 @@ void demo_write(void)
   else
   {
     fits_close_file(fptr, &status);
+    if (status)
+    {
+      fits_report_error(stderr, status);
+      exit(EXIT_FAILURE);
+    }
   }
 
   /* Free storage */
-- 
2.43.0


From 5da9fc62e3bd600057c759906ad5c779ecebf89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 30/32] fix: list each OI_VIS2 table with its own CORRNAME

---
 src/oifitslib/oitable-demo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 141a10d..311d5d8 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -563,7 +563,7 @@ void demo_read(void)
   {
     if (read_next_oi_vis2(fptr, &vis2, &status)) break; /* no more OI_VIS2 */
     printf("Read OI_VIS2     with  ARRNAME=%s INSNAME=%s CORRNAME=%s\n",
-           vis2.arrname, vis2.insname, vis.corrname);
+           vis2.arrname, vis2.insname, vis2.corrname);
     if (strlen(vis2.arrname) > 0)
     {
       /* if ARRNAME specified, read corresponding OI_ARRAY */
-- 
2.43.0


From 0dab690af0c4c45c0f1f28f2246060f4b131d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 31/32] fix: list the OI_VIS tables which precede OI_TARGET too

---
 src/oifitslib/oitable-demo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 311d5d8..3aa73fe 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -526,6 +526,7 @@ void demo_read(void)
 
   /* Read all OI_VIS tables & corresponding
      OI_ARRAY/OI_CORR/OI_WAVELENGTH tables */
+  fits_movabs_hdu(fptr, 1, &hdutype, &status); /* back to start */
   while (TRUE)
   {
     if (read_next_oi_vis(fptr, &vis, &status)) break; /* no more OI_VIS */
-- 
2.43.0


From aff3e8f127e1d02814a100de1a908289f7823374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 32/32] fix: free what was read of a table which is then
 skipped

---
 src/oifitslib/read_fits.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ce86818..6c68c5f 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -591,6 +591,7 @@ static STATUS read_oi_corr_chdu(fitsfile *fptr, oi_corr *pCorr,
   fits_get_colnum(fptr, CASEINSEN, "CORR", &colnum, pStatus);
   fits_read_col(fptr, TDOUBLE, colnum, 1, 1, pCorr->ncorr, NULL, pCorr->corr,
                 &anynull, pStatus);
+  if (*pStatus) free_oi_corr(pCorr); /* not returned */
   return *pStatus;
 }
 
@@ -669,6 +670,7 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].sta_index, &anynull, pStatus);
   }
+  if (*pStatus) free_oi_inspol(pInspol); /* not returned */
   return *pStatus;
 }
 
@@ -1251,6 +1253,8 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
   if (*pStatus) goto except;
   alloc_oi_vis(pVis, nrows, repeat);
+  pVis->usevisrefmap = FALSE; /* nothing allocated for these yet */
+  pVis->usecomplex = FALSE;
   /* read VISAMP unit (optional) */
   snprintf(keyword, FLEN_KEYWORD, "TUNIT%d", colnum);
   read_key_opt_string(fptr, keyword, pVis->ampunit, pStatus);
@@ -1295,6 +1299,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                   pVis->record[irow - 1].flag, &anynull, pStatus);
   }
   read_oi_vis_opt(fptr, pVis, pStatus);
+  if (*pStatus) free_oi_vis(pVis); /* not returned */
 
 except:
   report_truncated(pStatus);
@@ -1410,6 +1415,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
                     pStatus);
     }
   }
+  if (*pStatus) free_oi_vis2(pVis2); /* not returned */
 
 except:
   report_truncated(pStatus);
@@ -1541,6 +1547,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
                     &pT3->record[irow - 1].corrindx_t3phi, &anynull, pStatus);
     }
   }
+  if (*pStatus) free_oi_t3(pT3); /* not returned */
 
 except:
   report_truncated(pStatus);
@@ -1641,7 +1648,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
     /* read optional columns */
-    if (*pStatus) goto except; /* mandatory column missing or unreadable */
+    if (*pStatus) break; /* mandatory column missing or unreadable */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     if (*pStatus == COL_NOT_FOUND)
@@ -1663,6 +1670,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
                     pStatus);
     }
   }
+  if (*pStatus) free_oi_flux(pFlux); /* not returned */
 
 except:
   report_truncated(pStatus);
-- 
2.43.0


# Planted bugs, sixth part (P31-)
THREADS = r"""
#include <pthread.h>
static volatile int bad, stop;
static void *thread0(void *);
static void *thread1(void *);
static void both(void)
{
  pthread_t a, b;
  EXPECT(pthread_create(&a, 0, thread0, 0) == 0);
  EXPECT(pthread_create(&b, 0, thread1, 0) == 0);
  pthread_join(a, 0);
  pthread_join(b, 0);
  EXPECT(!bad);
}
"""
B("check-static-location", "P31",
  [(F+"oicheck.c", """  const char desc[] = "Reference to missing array element";
  char location[FLEN_VALUE];
""", """  const char desc[] = "Reference to missing array element";
  static char location[FLEN_VALUE];
""")],
  "two threads which check datasets for missing stations at the same time",
  "a report gives places in the dataset which another thread checks",
  THREADS + r"""
static void check(oi_fits *o, int n, const char *want)
{
  oi_check_result r;
  int i, k;
  for (k = 0; k < 400000 && !stop; k++)
  {
    check_elements_present(o, &r);
    for (i = 0; i < n; i++)
      if (strstr(r.location[i], want) == NULL) bad = stop = 1;
    free_check_result(&r);
  }
  stop = 1;
}
static oi_fits a, b;
static void *thread0(void *p) { check(&a, 2, "OI_VIS2 #1"); return 0; }
static void *thread1(void *p) { check(&b, 3, "OI_T3 #1"); return 0; }
int main(void)
{
  ds_init(&a, 1);
  ds_array(&a, "A", 0);
  ds_wave(&a, "I", 2);
  strcpy(ds_vis2(&a, "I", 1, 2)->arrname, "A");
  ds_init(&b, 1);
  ds_array(&b, "A", 0);
  ds_wave(&b, "I", 2);
  strcpy(ds_t3(&b, "I", 1, 2)->arrname, "A");
  both();
  return 0;
}""")

B("t3-static-scratch", "P31",
  [(F+"oifilter.c", """  int j;
  double u1, v1, u2, v2, abRad, bcRad, acRad;
  float snrAmp, snrPhi;
""", """  int j;
  static double u1, v1, u2, v2;
  double abRad, bcRad, acRad;
  float snrAmp, snrPhi;
""")],
  "two threads which filter bispectra at the same time",
  "a bispectrum is accepted or not by the baselines of one that another thread filters",
  THREADS + r"""
static oi_fits a, b;
static void filter(oi_fits *o, int want)
{
  oi_filter_spec s;
  oi_fits out;
  int k;
  init_oi_filter(&s);
  s.uvrad_range[1] = 5e7;
  s.accept_flagged = 0;
  for (k = 0; k < 30000 && !stop; k++)
  {
    apply_oi_filter(o, &s, &out);
    if (out.numT3 != want || (want && ((oi_t3 *)out.t3List->data)->numrec != 40)) bad = stop = 1;
    free_oi_fits(&out);
  }
  stop = 1;
}
static void *thread0(void *p) { filter(&a, 1); return 0; }
static void *thread1(void *p) { filter(&b, 0); return 0; }
int main(void)
{
  int i;
  EXPECT(freopen("/dev/null", "w", stderr) != NULL);
  ds_init(&a, 1);
  ds_wave(&a, "I", 4);
  ds_t3(&a, "I", 40, 4);
  ds_init(&b, 1);
  ds_wave(&b, "I", 4);
  ds_t3(&b, "I", 40, 4);
  for (i = 0; i < 40; i++)
  {
    oi_t3_record *r = &((oi_t3 *)a.t3List->data)->record[i];
    r->u1coord = r->v1coord = r->u2coord = r->v2coord = 10;
    r = &((oi_t3 *)b.t3List->data)->record[i];
    r->u1coord = r->v1coord = r->u2coord = r->v2coord = 1000;
  }
  both();
  return 0;
}""")

B("lookup-target-cache", "P31",
  [(F+"oifile.c", """target *oi_fits_lookup_target(const oi_fits *pOi, int targetId)
{
  int i;

  /* We don't assume records are ordered by TARGET_ID */
  for (i = 0; i < pOi->targets.ntarget; i++)
  {
    if (pOi->targets.targ[i].target_id == targetId)
      return &pOi->targets.targ[i];
  }
""", """target *oi_fits_lookup_target(const oi_fits *pOi, int targetId)
{
  static int i;

  /* We don't assume records are ordered by TARGET_ID */
  for (i = 0; i < pOi->targets.ntarget; i++)
  {
    if (pOi->targets.targ[i].target_id == targetId)
      return &pOi->targets.targ[i];
  }
""")],
  "two threads which look up targets at the same time",
  "a target that exists is not found, or the wrong one is",
  THREADS + r"""
static oi_fits a, b;
static void *thread0(void *p)
{
  int k;
  for (k = 0; k < 3000000 && !stop; k++)
  {
    target *t = oi_fits_lookup_target(&a, 1 + k % 60);
    if (t == NULL || t->target_id != 1 + k % 60) bad = stop = 1;
  }
  stop = 1;
  return 0;
}
static void *thread1(void *p)
{
  int k;
  for (k = 0; k < 3000000 && !stop; k++)
  {
    target *t = oi_fits_lookup_target(&b, 60 - k % 60);
    if (t == NULL || t->target_id != 60 - k % 60) bad = stop = 1;
  }
  stop = 1;
  return 0;
}
int main(void)
{
  ds_init(&a, 60);
  ds_init(&b, 60);
  both();
  return 0;
}""")

# The demonstration program (P32)
DEMOPROG = r"""
static const char *const vis_opt = "amptyp absolute phityp absolute amporder 1 phiorder 1";
static int demo(const char *out, const char *in)
{
  char cmd[4096];
  FILE *f = fopen("names", "w");
  EXPECT(f != NULL);
  fprintf(f, "demo.txt\n%s\n%s\n", out, in);
  fclose(f);
  sprintf(cmd, "%s/../oifitslib/oitable-demo < names > listing 2> errors", getenv("UTIL"));
  return system(cmd);
}
static void text(int ntarget, const char *cat1, const char *cat2, const char *fluxarr)
{
  int i;
  FILE *f = fopen("demo.txt", "w");
  EXPECT(f != NULL);
  fprintf(f, "OI_ARRAY arrname ARR frame GEOCENTRIC arrayx 1 arrayy 2 arrayz 3 nelement 1\n"
             "tel_name T sta_name S staxyz 1 2 3 diameter 1 fov 1 fovtype FWHM\nOI_TARGET ntarget %d\n", ntarget);
  for (i = 0; i < ntarget; i++)
    fprintf(f, "target_id %d target star%d raep0 1 decep0 2 equinox 2000 ra_err 0 dec_err 0 sysvel 0 veltyp LSR veldef OPTICAL "
               "pmra 0 pmdec 0 pmra_err 0 pmdec_err 0 parallax 1 para_err 0 spectyp G %s\n", i + 1, i + 1, i ? cat2 : cat1);
  fprintf(f, "OI_WAVELENGTH insname INS nwave 1 eff_wave 1e-6 eff_band 1e-7\n"
             "OI_CORR corrname CORR ndata 2 ncorr 1 iindx 1 jindx 2 corr 0.5\n"
             "OI_INSPOL date-obs 2000-01-01 npol 1 arrname ARR orient NORTH model M numrec 1\n"
             "target_id 1 insname INS mjd_obs 1 mjd_end 2 jxx 1 0i jyy 1 0i jxy 0 0i jyx 0 0i sta_index 1\n"
             "OI_VIS date-obs 2000-01-01 arrname ARR insname INS corrname CORR %s numrec 1\n"
             "target_id 1 time 0 mjd 1 int_time 1 visamp 1 visamperr 1 corrindx_visamp 1 visphi 1 visphierr 1 corrindx_visphi 1 "
             "ucoord 1 vcoord 2 sta_index 1 1\n"
             "OI_VIS2 date-obs 2000-01-01 arrname ARR insname INS corrname CORR numrec 1\n"
             "target_id 1 time 0 mjd 1 int_time 1 vis2data 1 vis2err 1 corrindx_vis2data 1 ucoord 1 vcoord 2 sta_index 1 1\n"
             "OI_T3 date-obs 2000-01-01 arrname ARR insname INS corrname CORR numrec 1\n"
             "target_id 1 time 0 mjd 1 int_time 1 t3amp 1 t3amperr 1 corrindx_t3amp 1 t3phi 1 t3phierr 1 corrindx_t3phi 1 "
             "u1coord 1 v1coord 2 u2coord 3 v2coord 4 sta_index 1 1 1\n"
             "OI_FLUX date-obs 2000-01-01 %s insname INS corrname CORR calstat C numrec 1\n"
             "target_id 1 mjd 1 int_time 1 fluxdata 1 fluxerr 1 corrindx_fluxdata 1\n", vis_opt, fluxarr);
  fclose(f);
}
"""
D = F+"oitable-demo.c"
B("demo-last-category", "P32",
  [(D, """    if (scan_opt_string(fp, "category %3s", targets.targ[itarg].category))
      targets.usecategory = TRUE;
""", """    targets.usecategory =
        scan_opt_string(fp, "category %3s", targets.targ[itarg].category);
""")],
  "a text in which some targets have a category, but not the last",
  "the categories are not written",
  DEMOPROG + r"""
int main(void)
{
  oi_fits o;
  STATUS st = 0;
  text(2, "category SCI", "", "arrname ARR");
  EXPECT(demo("out.fits", "out.fits") == 0);
  EXPECT(read_oi_fits("out.fits", &o, &st) == 0);
  EXPECT(o.targets.usecategory);
  EXPECT(strcmp(o.targets.targ[0].category, "SCI") == 0);
  return 0;
}""")

B("demo-flux-needs-array", "P32",
  [(D, """    if (strlen(flux.arrname) > 0)
    {
      /* if ARRNAME specified, read corresponding OI_ARRAY */
      read_oi_array(fptr2, flux.arrname, &array, &status);
    }
    if (strlen(flux.corrname) > 0)
""", """    read_oi_array(fptr2, flux.arrname, &array, &status);
    if (strlen(flux.corrname) > 0)
"""), (D, """      if (strlen(flux.arrname) > 0) free_oi_array(&array);
""", """      free_oi_array(&array);
""")],
  "a file with an OI_FLUX table which names no array",
  "listing the file fails",
  DEMOPROG + r"""
int main(void)
{
  text(1, "", "", "");
  EXPECT(demo("out.fits", "out.fits") == 0);
  return 0;
}""")

B("demo-sticky-corr", "P32",
  [(D, """  /* open 2nd connection to read referenced""", """  corr.ncorr = 0;
  /* open 2nd connection to read referenced"""),
   (D, """    if (strlen(t3.corrname) > 0)
    {
      /* if CORRNAME specified, read corresponding OI_CORR
         Note we may have read it previously */
      read_oi_corr(""", """    if (strlen(t3.corrname) > 0 && corr.ncorr == 0)
    {
      /* if CORRNAME specified, read corresponding OI_CORR
         Note we may have read it previously */
      read_oi_corr("""),
   (D, """      if (strlen(t3.corrname) > 0) free_oi_corr(&corr);
""", "")],
  "a file of which an OI_T3 table names a missing correlation table, after another table named one that is there",
  "the file is listed with success although a table is missing",
  DEMOPROG + r"""
int main(void)
{
  oi_fits o;
  oi_t3 *t3;
  STATUS st = 0;
  text(1, "", "", "arrname ARR");
  EXPECT(demo("out.fits", "out.fits") == 0);
  EXPECT(read_oi_fits("out.fits", &o, &st) == 0);
  t3 = o.t3List->data;
  strcpy(t3->corrname, "NOTHERE");
  EXPECT(write_oi_fits("bad.fits", o, &st) == 0);
  EXPECT(demo("out2.fits", "bad.fits") != 0);
  return 0;
}""")

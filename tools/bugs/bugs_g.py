# Planted bugs, seventh part
B("iter-uv-needs-u", "P10",
  [(F+"oiiter.c", "  if (pV2 != NULL) *pV2 = pRec->v2coord / effWave;\n", "  if (pV2 != NULL && pU2 != NULL) *pV2 = pRec->v2coord / effWave;\n")],
  "asking a triple-product iterator for the v of its second baseline without the u",
  "the coordinate is not given",
  r"""
int main(void)
{
  oi_fits o;
  oi_filter_spec f;
  oi_t3_iter it;
  double v2 = 7e77;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  ds_t3(&o, "I", 1, 2);
  init_oi_filter(&f);
  oi_t3_iter_init(&it, &o, &f);
  EXPECT(oi_t3_iter_next(&it, NULL, NULL, NULL, NULL, NULL));
  oi_t3_iter_get_uv(&it, NULL, NULL, NULL, NULL, &v2);
  EXPECT(fabs(v2 + 12 / 1e-6) < 1e4);
  return 0;
}""")

B("merge-keyword-prefix", "P13",
  [(F+"oimerge.c", "strcmp(pInHeader->keyattr, pOutput->header.keyattr) != 0", "strncmp(pInHeader->keyattr, pOutput->header.keyattr, 32) != 0")],
  "two inputs with long header values which differ only after 32 characters",
  "the merged header claims the first value for both",
  r"""
int main(void)
{
  oi_fits a, b, out;
  EXPECT(freopen("/dev/null", "w", stderr) != NULL);
  ds_init(&a, 1);
  ds_wave(&a, "I", 2);
  ds_vis2(&a, "I", 1, 2);
  strcpy(a.header.observer, "Person One, A.; Two, B.; Three, C.; Four, D.");
  ds_init(&b, 1);
  ds_wave(&b, "J", 2);
  ds_vis2(&b, "J", 1, 2);
  strcpy(b.header.observer, "Person One, A.; Two, B.; Three, C.; Five, E.");
  merge_oi_fits(&out, &a, &b, NULL);
  EXPECT(strcmp(out.header.observer, "MULTIPLE") == 0);
  return 0;
}""")

B("array-z-fixed", "P01",
  [(F+"write_fits.c", 'fits_write_key(fptr, TDOUBLE, "ARRAYZ", &array.arrayz,\n                 "Array centre z coordinate", pStatus);',
    'fits_write_key_fixdbl(fptr, "ARRAYZ", array.arrayz, 6,\n                        "Array centre z coordinate", pStatus);')],
  "an array whose centre has a z coordinate below 1e-6 m",
  "a written z coordinate is rounded to micrometres",
  r"""
int main(void)
{
  oi_fits o, in;
  ds_init(&o, 1);
  ds_array(&o, "A", 2)->arrayz = 1.25e-9;
  ds_wave(&o, "I", 2);
  ds_vis2(&o, "I", 1, 2);
  ds_written_and_read(&o, &in);
  EXPECT(fabs(((oi_array *)in.arrayList->data)->arrayz / 1.25e-9 - 1) < 1e-6);
  return 0;
}""")

B("write-station-wraps", "P22",
  [(F+"write_fits.c", "    fits_write_col(fptr, TINT, 3, irow, 1, 1, &array.elem[irow - 1].sta_index,\n                   pStatus);",
    "    short staIndex = array.elem[irow - 1].sta_index;\n    fits_write_col(fptr, TSHORT, 3, irow, 1, 1, &staIndex, pStatus);")],
  "an array with a station number which 16 bits do not hold",
  "the write reports success with another station number in the file",
  r"""
int main(void)
{
  oi_fits o;
  int status = 0;
  EXPECT(freopen("/dev/null", "w", stderr) != NULL);
  ds_init(&o, 1);
  ds_array(&o, "A", 3)->elem[1].sta_index = 40000;
  ds_wave(&o, "I", 2);
  ds_vis2(&o, "I", 1, 2);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status != 0);
  return 0;
}""")

B("summary-as-format", "P19",
  [(F+"oifile.c", 'printf("%s", format_oi_fits_summary(pOi));', 'printf(format_oi_fits_summary(pOi));')],
  "printing the summary of a dataset with a percent sign in a name",
  "the percent sign is taken as a conversion",
  r"""
int main(void)
{
  static char buf[20000];
  oi_fits o;
  FILE *f;
  size_t n;
  ds_init(&o, 1);
  ds_array(&o, "A_100%%", 2);
  ds_wave(&o, "I", 2);
  ds_vis2(&o, "I", 1, 2);
  EXPECT(freopen("sum", "w", stdout) != NULL);
  print_oi_fits_summary(&o);
  fflush(stdout);
  EXPECT((f = fopen("sum", "r")) != NULL);
  n = fread(buf, 1, sizeof buf - 1, f);
  EXPECT(n > 0);
  EXPECT(strstr(buf, "A_100%%") != NULL);
  return 0;
}""")

B("check-flux-negative-station", "P14",
  [(F+"oicheck.c", "if (pFlux->record[i].sta_index == -1) continue;", "if (pFlux->record[i].sta_index < 0) continue;")],
  "a flux record with a negative station number other than -1",
  "a reference to a missing station is not reported",
  r"""
int main(void)
{
  oi_fits o;
  oi_flux *v;
  oi_check_result r;
  ds_init(&o, 1);
  ds_array(&o, "A", 2);
  ds_wave(&o, "I", 2);
  v = ds_flux(&o, "I", 2, 2);
  strcpy(v->arrname, "A");
  v->record[1].sta_index = -2;
  EXPECT(check_elements_present(&o, &r) != OI_BREACH_NONE);
  return 0;
}""")

B("cli-short-names", "P21",
  [("src/util/oifits-filter.c", "g_strlcpy(inFilename, argv[1], FLEN_FILENAME);", "g_strlcpy(inFilename, argv[1], FLEN_VALUE);")],
  "filtering a file whose path has more than 70 characters",
  "the path is cut and the file not found, or another one read",
  r"""
int main(void)
{
  oi_fits o;
  int i, status = 0;
  char name[600], cmd[2000];
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  ds_vis2(&o, "I", 1, 2);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  strcpy(name, ".");
  for (i = 0; i < 200; i++) strcat(name, "/.");
  sprintf(cmd, "%s/oifits-filter %s/t.fits out.fits", getenv("UTIL"), name);
  EXPECT(system(cmd) == 0);
  EXPECT(access("out.fits", R_OK) == 0);
  return 0;
}""")

B("write-iviserr-unit", "P02",
  [(F+"write_fits.c", """    fits_write_key(fptr, TSTRING, "TUNIT12", &vis.complexunit,
                   "Units of field 12", pStatus);
""", """    if (!vis.usevisrefmap)
      fits_write_key(fptr, TSTRING, "TUNIT12", &vis.complexunit,
                     "Units of field 12", pStatus);
""")],
  "OI_VIS table with both complex visibilities and VISREFMAP",
  "the IVISERR column has no unit",
  MAIN + r'''
  oi_fits o;
  oi_vis *v;
  int i, col, status = 0;
  fitsfile *f;
  char key[20], unit[FLEN_VALUE];
  ds_init(&o, 1);
  ds_array(&o, "A", 2);
  ds_wave(&o, "I", 2);
  v = ds_vis(&o, "I", 1, 2);
  strcpy(v->arrname, "A");
  v->usevisrefmap = v->usecomplex = TRUE;
  strcpy(v->complexunit, "Jy");
  oi_vis_record *r = &v->record[0];
  r->visrefmap = calloc(4, 1);
  r->rvis = calloc(2, 8);
  r->rviserr = calloc(2, 8);
  r->ivis = calloc(2, 8);
  r->iviserr = calloc(2, 8);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  fits_open_file(&f, "t.fits", READONLY, &status);
  fits_movnam_hdu(f, BINARY_TBL, "OI_VIS", 0, &status);
  fits_get_colnum(f, CASEINSEN, "IVISERR", &col, &status);
  sprintf(key, "TUNIT%d", col);
  fits_read_key(f, TSTRING, key, unit, NULL, &status);
  EXPECT(status == 0);
  EXPECT(!strcmp(unit, "Jy"));
  return 0;
}''')

B("read-last-category", "P03",
  [(F+"read_fits.c", """      for (irow = 2; irow <= pTargets->ntarget; irow++)
        read_col_string(fptr, FALSE, "CATEGORY\"""", """      for (irow = 2; irow < pTargets->ntarget; irow++)
        read_col_string(fptr, FALSE, "CATEGORY\"""")],
  "more than one target, with CATEGORY",
  "the category of the last target is not read",
  MAIN + r'''
  oi_fits o, in;
  ds_init(&o, 3);
  o.targets.usecategory = TRUE;
  strcpy(o.targets.targ[0].category, "CAL");
  strcpy(o.targets.targ[1].category, "SCI");
  strcpy(o.targets.targ[2].category, "CAL");
  ds_written_and_read(&o, &in);
  EXPECT(!strcmp(in.targets.targ[2].category, "CAL"));
  return 0;
}''')

B("read-wide-target", "P03",
  [(F+"read_fits.c", "for (i = 0; longvalue[i] != '\\0' && i < maxRepeat; i++)", "for (i = 0; longvalue[i] != '\\0' && i < maxRepeat - 1; i++)")],
  "target name or spectral type of exactly 32 characters or more",
  "the last character of a 32-character name is lost",
  MAIN + r'''
  oi_fits o, in;
  ds_init(&o, 2);
  strcpy(o.targets.targ[0].target, "abcdefghijklmnopqrstuvwxyz012345");
  ds_written_and_read(&o, &in);
  EXPECT(!strcmp(in.targets.targ[0].target, "abcdefghijklmnopqrstuvwxyz012345"));
  return 0;
}''')

B("read-target-overflow", "P05",
  [(F+"read_fits.c", """    if (typecode != TSTRING)
    {
      *pStatus = BAD_BTABLE_FORMAT;
      return FALSE;
    }
    if (warnRepeat &&""", """    if (warnRepeat &&""")],
  "OI_TARGET with a numeric TARGET or SPECTYP column",
  "a short buffer is overrun when the numbers are formatted, and the file is accepted",
  MAIN + r'''
  oi_fits o, in;
  int col, status = 0;
  fitsfile *f;
  ds_init(&o, 2);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  fits_open_file(&f, "t.fits", READWRITE, &status);
  fits_movnam_hdu(f, BINARY_TBL, "OI_TARGET", 0, &status);
  fits_get_colnum(f, CASEINSEN, "SPECTYP", &col, &status);
  char key[20];
  sprintf(key, "TFORM%d", col);
  fits_update_key(f, TSTRING, key, "4D", NULL, &status);
  fits_close_file(f, &status);
  EXPECT(status == 0);
  read_oi_fits("t.fits", &in, &status);
  EXPECT(status != 0);
  return 0;
}''')

B("read-bad-corr-stops", "P06",
  [(F+"oifile.c", """      fprintf(stderr, "\\nSkipping bad OI_CORR (%s)\\n", desc);
      *pStatus = 0;
      continue;""", """      fprintf(stderr, "\\nSkipping bad OI_CORR (%s)\\n", desc);
      *pStatus = 0;
      break;""")],
  "a bad OI_CORR table followed by a good one",
  "correlation tables after a bad one are not read",
  MAIN + r'''
  oi_fits o, in;
  int status = 0;
  fitsfile *f;
  ds_init(&o, 1);
  ds_corr(&o, "C1", 2);
  ds_corr(&o, "C2", 3);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  fits_open_file(&f, "t.fits", READWRITE, &status);
  fits_movnam_hdu(f, BINARY_TBL, "OI_CORR", 1, &status);
  fits_delete_key(f, "NDATA", &status);
  fits_close_file(f, &status);
  EXPECT(status == 0);
  read_oi_fits("t.fits", &in, &status);
  EXPECT(status == 0);
  EXPECT(in.numCorr == 1);
  EXPECT(oi_fits_lookup_corr(&in, "C2") != NULL);
  return 0;
}''')

B("filter-prune-flux-corr", "P08",
  [(F+"oifilter.c", "    if (pFlux->corrname[0] != '\\0' &&\n        g_list_find", "    if (pFlux->corrname[0] != '\\0' && pFlux->arrname[0] != '\\0' &&\n        g_list_find")],
  "correlation table which only an OI_FLUX table without ARRNAME refers to",
  "the filter removes a correlation table that is still referred to",
  MAIN + r'''
  oi_fits in, out;
  oi_filter_spec f;
  ds_init(&in, 1);
  ds_wave(&in, "I", 2);
  ds_corr(&in, "C", 2);
  strcpy(ds_flux(&in, "I", 1, 2)->corrname, "C");
  init_oi_filter(&f);
  apply_oi_filter(&in, &f, &out);
  EXPECT(out.numFlux == 1);
  EXPECT(out.numCorr == 1);
  return 0;
}''')

B("lookup-element-direct", "P16",
  [(F+"oifile.c", """  /* We don't assume records are ordered by STA_INDEX */
  for (i = 0;""", """  /* Usually records are ordered by STA_INDEX */
  if (staIndex > 0 && staIndex <= pArray->nelement &&
      pArray->elem[staIndex - 1].sta_index == staIndex)
    return &pArray->elem[staIndex - 1];
  for (i = 0;""")],
  "array with two stations of the same index, the second at the place with that number",
  "lookup of a station gives not the first of two with the index",
  MAIN + r"""
  oi_fits o;
  oi_array *a;
  ds_init(&o, 1);
  a = ds_array(&o, "A", 4);
  a->elem[0].sta_index = 3;
  EXPECT(oi_fits_lookup_element(&o, "A", 3) == &a->elem[0]);
  return 0;
}""")

B("filter-t3-third-side", "P09",
  [(F+"oifilter.c", """            bcRad < pFilter->uvrad_range[0] ||
            bcRad > pFilter->uvrad_range[1] ||
            acRad < pFilter->uvrad_range[0] || acRad > pFilter->uvrad_range[1])
          continue;
      } /* else accept uv radius */
      if (pFilter->accept_t3amp)""", """            bcRad < pFilter->uvrad_range[0] ||
            bcRad > pFilter->uvrad_range[1] ||
            acRad > pFilter->uvrad_range[1])
          continue;
      } /* else accept uv radius */
      if (pFilter->accept_t3amp)""")],
  "bispectrum whose third side is shorter than the others, minimum uv radius between, flagged data not accepted",
  "a record with all channels flagged survives the first filter and is dropped by a second",
  MAIN + r'''
  oi_fits in, out, out2;
  oi_filter_spec f;
  oi_t3 *t;
  ds_init(&in, 1);
  ds_wave(&in, "I", 2);
  t = ds_t3(&in, "I", 1, 2);
  t->record[0].u1coord = 50; t->record[0].v1coord = 0;
  t->record[0].u2coord = -51; t->record[0].v2coord = 0;
  init_oi_filter(&f);
  f.uvrad_range[0] = 1e7;
  f.accept_flagged = 0;
  apply_oi_filter(&in, &f, &out);
  init_oi_filter(&f);
  f.uvrad_range[0] = 1e7;
  f.accept_flagged = 0;
  apply_oi_filter(&out, &f, &out2);
  EXPECT(out.numT3 == out2.numT3);
  return 0;
}''')

B("merge-late-date", "P13",
  [(F+"oimerge.c", "  minMjd = 100000;", "  minMjd = 60000;")],
  "all inputs observed after 2023-02-25",
  "the merged header has a date that is earlier than any of the inputs'",
  MAIN + r'''
  oi_fits a, b, out;
  ds_init(&a, 1);
  ds_init(&b, 1);
  strcpy(a.header.date_obs, "2024-05-06");
  strcpy(b.header.date_obs, "2025-05-06");
  merge_oi_fits(&out, &a, &b, NULL);
  EXPECT(!strcmp(out.header.date_obs, "2024-05-06"));
  return 0;
}''')

B("check-report-full", "P15",
  [(F+"oicheck.c", "  if (++pResult->numBreach < MAX_REPORT)", "  if (++pResult->numBreach <= MAX_REPORT)")],
  "a check that finds as many breaches as a report has room for, or more",
  "the report does not say that the list is truncated",
  MAIN + r'''
  oi_fits o;
  oi_check_result r;
  int i;
  ds_init(&o, 1);
  for (i = 0; i < 20; i++)
  {
    ds_wave(&o, g_strdup_printf("I%d", i), 2)->revision = 7;
  }
  check_tables(&o, &r);
  EXPECT(r.numBreach >= 20);
  EXPECT(strstr(format_check_result(&r), "truncated") != NULL);
  return 0;
}''')

B("mjd-century", "P18",
  [(F+"datemjd.c", "  N = 4 * L / 146097;", "  N = (4 * L + 3) / 146097;")],
  "the last days of a century in the calendar that starts in March",
  "some modified Julian dates convert to the wrong day",
  MAIN + r'''
  long y, m, d, i;
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  long ey = 1901, em = 1, ed = 1;
  for (i = 15385; ey < 2100; i++)
  {
    int n = len[em - 1] + (em == 2 && ey % 4 == 0);
    EXPECT(date2mjd(ey, em, ed) == i);
    mjd2date(i, &y, &m, &d);
    EXPECT(y == ey && m == em && d == ed);
    if (++ed > n) { ed = 1; if (++em > 12) { em = 1; ey++; } }
  }
  return 0;
}''')

B("summary-min-wave", "P19",
  [(F+"oifile.c", "  float minWave = 1.0e11;", "  float minWave = 1.0e-5;")],
  "instrument whose channels are all beyond 10 um",
  "the summary gives a wrong shortest wavelength",
  MAIN + r'''
  oi_fits o;
  oi_wavelength *w;
  ds_init(&o, 1);
  w = ds_wave(&o, "MIDI", 2);
  w->eff_wave[0] = 11.5e-6;
  w->eff_wave[1] = 12.5e-6;
  EXPECT(strstr(format_oi_fits_summary(&o), "11500.0") != NULL);
  return 0;
}''')

B("filter-empty-leak", "P20",
  [(F+"oifilter.c", """        free(useWave);
        free_oi_wavelength(pOutWave);
        free(pOutWave);""", """        free_oi_wavelength(pOutWave);
        free(pOutWave);""")],
  "repeatedly filtering a dataset by wavelengths where an instrument has no channels",
  "memory is lost with each filtering",
  r'''#include <malloc.h>
static void quiet(const gchar *d, GLogLevelFlags l, const gchar *m, gpointer u) {}
''' + MAIN + r'''
  oi_fits in, out;
  oi_filter_spec f;
  size_t used = 0;
  int i;
  g_log_set_default_handler(quiet, NULL);
  ds_init(&in, 1);
  ds_wave(&in, "I", 4000);
  for (i = 0; i < 60; i++)
  {
    init_oi_filter(&f);
    f.wave_range[0] = 0.9;
    f.wave_range[1] = 0.95;
    apply_oi_filter(&in, &f, &out);
    free_oi_fits(&out);
    if (i == 20) used = mallinfo2().uordblks;
  }
  EXPECT(mallinfo2().uordblks < used + 50000);
  return 0;
}''')

B("cli-filter-inplace", "P21",
  [("src/util/oifits-filter.c", """  /* Read FITS file */
  status = 0;
  read_oi_fits(inFilename, &inData, &status);
  if (status) goto except;
""", """  /* Make way for output */
  if (clobber && g_file_test(outFilename, G_FILE_TEST_EXISTS) &&
      strcmp(inFilename, outFilename) != 0)
    g_remove(outFilename);

  /* Read FITS file */
  status = 0;
  read_oi_fits(inFilename, &inData, &status);
  if (status) goto except;
""")],
  "oifits-filter --clobber with an unreadable input and an existing output",
  "the existing output is deleted although the command fails",
  MAIN + r'''
  oi_fits o;
  int status = 0;
  char cmd[1000];
  ds_init(&o, 1);
  write_oi_fits("out.fits", o, &status);
  EXPECT(status == 0);
  sprintf(cmd, "%s/oifits-filter --clobber nothere.fits out.fits", getenv("UTIL"));
  EXPECT(system(cmd) != 0);
  EXPECT(access("out.fits", F_OK) == 0);
  return 0;
}''')

B("write-close-status", "P22",
  [(F+"oifile.c", """except:
  if (fptr) fits_close_file(fptr, pStatus);
  if (*pStatus && !oi_hush_errors)
  {
    fprintf(stderr, "CFITSIO error in %s:\\n", function);
    fits_report_error(stderr, *pStatus);
  }
  return *pStatus;
}

/**
 * Return"""[:0] + "  WRITE_OI_LIST(fptr, oi.fluxList, oi_flux, write_oi_flux, pStatus);\n\nexcept:\n  if (fptr) fits_close_file(fptr, pStatus);",
    "  WRITE_OI_LIST(fptr, oi.fluxList, oi_flux, write_oi_flux, pStatus);\n\nexcept:\n  if (fptr)\n  {\n    int closeStatus = *pStatus;\n    fits_close_file(fptr, &closeStatus);\n  }")],
  "the medium becomes full when buffered blocks are written as the file is closed",
  "an incomplete file is reported as written",
  r'''#include <sys/resource.h>
#include <signal.h>
''' + MAIN + r'''
  oi_fits o, in;
  int status = 0;
  struct rlimit r = {20000, 20000};
  ds_init(&o, 1);
  ds_wave(&o, "I", 10);
  ds_vis2(&o, "I", 100, 10);
  signal(SIGXFSZ, SIG_IGN);
  setrlimit(RLIMIT_FSIZE, &r);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status != 0);
  return 0;
}''')

B("option-stale-corrname", "P24",
  [(F+"oifilter.c", "  corrname = NULL;\n  /* Convert m -> nm */", "  /* Convert m -> nm */")],
  "options parsed twice in one program, the first time with --corrname",
  "a pattern from the first parse is still in force after the second",
  r'''static void parse(int argc, char **argv)
{
  GOptionContext *c = g_option_context_new("x");
  GError *e = NULL;
  g_option_context_add_group(c, get_oi_filter_option_group());
  g_option_context_parse(c, &argc, &argv, &e);
  EXPECT(e == NULL);
  g_option_context_free(c);
}
''' + MAIN + r'''
  char *a[] = {"x", "--corrname=ABC", NULL}, *b[] = {"x", NULL};
  parse(2, a);
  parse(1, b);
  EXPECT(!strcmp(get_user_oi_filter()->corrname, "*"));
  return 0;
}''')

B("chksum-else", "P25",
  [(F+"read_fits.c", """    if (hduok == -1)
      printf(""", """    else if (hduok == -1)
      printf(""")],
  "table in which neither the data checksum nor the HDU checksum fits",
  "only one of two failed checksums is reported",
  r'''#include <fcntl.h>
''' + MAIN + r'''
  oi_fits o, in;
  int status = 0;
  char buf[100000];
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  FILE *f = fopen("t.fits", "r+b");
  long n, i;
  n = fread(buf, 1, sizeof buf, f);
  for (i = 0; i < n; i += 2880)
    if (!memcmp(buf + i, "XTENSION", 8)) break;
  while (memcmp(buf + i, "END     ", 8)) i += 80;
  i = (i / 2880 + 1) * 2880;
  fseek(f, i + 40, SEEK_SET);
  fputc(buf[i + 40] ^ 1, f);
  fclose(f);
  fflush(stdout);
  freopen("log", "w", stdout);
  read_oi_fits("t.fits", &in, &status);
  EXPECT(status == 0);
  fflush(stdout);
  f = fopen("log", "r");
  n = fread(buf, 1, sizeof buf - 1, f);
  buf[n] = 0;
  EXPECT(strstr(buf, "Data checksum verification failed") != NULL);
  EXPECT(strstr(buf, "HDU checksum verification failed") != NULL);
  return 0;
}''')

B("filter-wave-key-alias", "P08",
  [(F+"oifilter.c", """        g_hash_table_insert(pOutput->wavelengthHash, pOutWave->insname,
""", """        g_hash_table_insert(pOutput->wavelengthHash, pInWave->insname,
""")],
  "freeing or renaming the input of a filter before looking up a wavelength table of the output",
  "the output's index of wavelength tables refers to names in the input",
  MAIN + r"""
  oi_fits in, out;
  oi_filter_spec f;
  oi_wavelength *w;
  ds_init(&in, 1);
  w = ds_wave(&in, "I", 2);
  ds_vis2(&in, "I", 1, 2);
  init_oi_filter(&f);
  apply_oi_filter(&in, &f, &out);
  strcpy(w->insname, "J"); /* own memory of the input */
  EXPECT(oi_fits_lookup_wavelength(&out, "I") != NULL);
  return 0;
}""")

B("merge-array-superset", "P12",
  [(F+"oimerge.c", "      if (pCmpEl == NULL) break;\n", "      if (pCmpEl == NULL) continue; /* extra stations are allowed */\n")],
  "merging two arrays with one centre, the later of which has a station the earlier lacks",
  "the array with more stations is dropped in favour of the smaller one",
  MAIN + r"""
  oi_fits a, b, out;
  ds_init(&a, 1);
  ds_array(&a, "X", 2);
  ds_wave(&a, "I", 2);
  ds_init(&b, 1);
  ds_array(&b, "X", 3);
  ds_wave(&b, "I", 2);
  merge_oi_fits(&out, &a, &b, NULL);
  EXPECT(out.numArray == 2);
  return 0;
}""")

B("lookup-target-width", "P16",
  [(F+"oifile.c", "    if (strcmp(pOi->targets.targ[i].target, target) == 0)\n",
    "    if (strncmp(pOi->targets.targ[i].target, target, 16) == 0)\n")],
  "two targets whose names have the same first 16 characters",
  "a target is looked up by the first 16 characters of its name, as wide as the column is in a file of version 1",
  MAIN + r"""
  oi_fits o;
  ds_init(&o, 2);
  strcpy(o.targets.targ[0].target, "Gaia DR3 20486001 A");
  strcpy(o.targets.targ[1].target, "Gaia DR3 20486001 B");
  EXPECT(oi_fits_lookup_target_by_name(&o, "Gaia DR3 20486001 B") == &o.targets.targ[1]);
  EXPECT(oi_fits_lookup_target_by_name(&o, "Gaia DR3 20486001 C") == NULL);
  return 0;
}""")

B("read-named-onward", "P23",
  [(F+"read_fits.c", "  for (ihdu = 2; ihdu <= nhdu; ihdu++)\n", "  fits_get_hdu_num(fptr, &ihdu);\n  for (ihdu = (ihdu < 2) ? 2 : ihdu; ihdu <= nhdu; ihdu++)\n")],
  "looking up a table by name when the current position is behind it",
  "named tables are only found onward from the current position",
  MAIN + r"""
  oi_fits o;
  int status = 0;
  fitsfile *f;
  oi_wavelength w;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  ds_wave(&o, "J", 3);
  write_oi_fits("t.fits", o, &status);
  fits_open_file(&f, "t.fits", READONLY, &status);
  read_oi_wavelength(f, "J", &w, &status);
  EXPECT(status == 0 && w.nwave == 3);
  read_oi_wavelength(f, "I", &w, &status);
  EXPECT(status == 0 && w.nwave == 2);
  return 0;
}""")

B("write-fail-remove", "P22",
  [(F+"oifile.c", "  if (*pStatus && !oi_hush_errors)\n  {\n    fprintf(stderr, \"CFITSIO error in %s:\\n\", function);\n    fits_report_error(stderr, *pStatus);\n  }\n  return *pStatus;\n}\n\n/**\n * Read all OIFITS",
    "  if (*pStatus)\n    (void)remove(filename); /* don't leave an incomplete file behind */\n  if (*pStatus && !oi_hush_errors)\n  {\n    fprintf(stderr, \"CFITSIO error in %s:\\n\", function);\n    fits_report_error(stderr, *pStatus);\n  }\n  return *pStatus;\n}\n\n/**\n * Read all OIFITS")],
  "writing to a name that exists",
  "a write that fails because the file exists deletes that file",
  MAIN + r"""
  oi_fits o;
  int status = 0;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status == 0);
  write_oi_fits("t.fits", o, &status);
  EXPECT(status != 0);
  EXPECT(access("t.fits", F_OK) == 0);
  return 0;
}""")

B("lookup-target-last", "P26",
  [(F+"oifile.c", "  for (i = 0; i < pOi->targets.ntarget; i++)\n  {\n    if (pOi->targets.targ[i].target_id == targetId)",
    "  for (i = pOi->targets.ntarget - 1; i >= 0; i--)\n  {\n    if (pOi->targets.targ[i].target_id == targetId)")],
  "a dataset in which two targets of different names have one number",
  "the last instead of the first of the targets with one number is meant by its data",
  MAIN + r"""
  oi_fits a, b, out;
  oi_vis2 *v;
  ds_init(&a, 2);
  a.targets.targ[1].target_id = 1;
  ds_wave(&a, "I", 2);
  ds_vis2(&a, "I", 1, 2);
  ds_init(&b, 1);
  ds_wave(&b, "I", 2);
  merge_oi_fits(&out, &a, &b, NULL);
  v = out.vis2List->data;
  EXPECT(!strcmp(oi_fits_lookup_target(&out, v->record[0].target_id)->target, "star1"));
  return 0;
}""")

B("merge-leak-corr-names", "P20",
  [(F+"oimerge.c", "  link = corrnameHashList;\n  while (link != NULL)\n  {\n    g_hash_table_destroy((GHashTable *)link->data);\n    link = link->next;\n  }\n  g_list_free(corrnameHashList);\n}",
    "  g_list_free(corrnameHashList);\n}")],
  "merging again and again in one program",
  "every merge leaves memory behind",
  r"""#include <malloc.h>
""" + MAIN + r"""
  oi_fits a, b, out;
  size_t used = 0;
  int i;
  ds_init(&a, 1);
  ds_wave(&a, "I", 2);
  ds_init(&b, 1);
  ds_wave(&b, "I", 2);
  for (i = 0; i < 2000; i++)
  {
    merge_oi_fits(&out, &a, &b, NULL);
    free_oi_fits(&out);
    if (i == 1000) used = mallinfo2().uordblks;
  }
  EXPECT(mallinfo2().uordblks < used + 20000);
  return 0;
}""")

B("atomic-first-last", "P19",
  [(F+"oifile.c", "    for (i = 0; i < pT3->numrec; i++)\n    {\n      if (pT3->record[i].mjd > maxMjd) maxMjd = pT3->record[i].mjd;\n    }",
    "    /* records are in order of time */\n    i = pT3->numrec - 1;\n    if (i >= 0 && pT3->record[i].mjd > maxMjd) maxMjd = pT3->record[i].mjd;")],
  "a bispectrum table whose records are not in order of time",
  "the latest observation is overlooked unless it is the last record of its table",
  MAIN + r"""
  oi_fits o;
  oi_t3 *t;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  t = ds_t3(&o, "I", 3, 2);
  EXPECT(is_atomic(&o, 1));
  t->record[1].mjd += 5;
  EXPECT(!is_atomic(&o, 1));
  return 0;
}""")

B("upgrade-date-min", "P04",
  [(F+"oifile.c", "  mjd2date(floor(get_min_mjd(pOi)), &year, &month, &day);", "  mjd2date(lround(get_min_mjd(pOi)), &year, &month, &day);")],
  "a file of version 1 whose earliest observation is after noon UT",
  "DATE-OBS of the primary header is the day after the earliest observation",
  MAIN + r"""
  oi_fits o;
  oi_vis2 *v;
  ds_init(&o, 1);
  ds_wave(&o, "I", 2);
  v = ds_vis2(&o, "I", 1, 2);
  v->record[0].mjd = 55198.25;
  set_oi_header(&o);
  EXPECT(!strcmp(o.header.date_obs, "2010-01-02"));
  v->record[0].mjd = 55198.75;
  set_oi_header(&o);
  EXPECT(!strcmp(o.header.date_obs, "2010-01-02"));
  return 0;
}""")

B("describe-target-zero", "P24",
  [(F+"oifilter.c", "  if (pFilter->target_id >= 0)\n    g_string_append_printf", "  if (pFilter->target_id > 0)\n    g_string_append_printf")],
  "a filter for the target with number 0",
  "the description of a filter says that it accepts any target",
  MAIN + r"""
  oi_filter_spec f;
  init_oi_filter(&f);
  f.target_id = 0;
  EXPECT(strstr(format_oi_filter(&f), "TARGET_ID=0"));
  return 0;
}""")

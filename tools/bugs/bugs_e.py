# Planted bugs, fifth part (P30-)
F = "src/oifitslib/"
B("lookup-element-warns", "P30",
  [(F+"oifile.c", """  pArray = oi_fits_lookup_array(pOi, arrname);
  if (pArray == NULL) return NULL;
""", """  pArray = oi_fits_lookup_array(pOi, arrname);
  if (pArray == NULL)
  {
    if (strlen(arrname) > 0) g_warning("No OI_ARRAY with ARRNAME=%s", arrname);
    return NULL;
  }
""")],
  "looking up, or checking, a station of an array that is missing from the dataset",
  "lookups and checks, which report by their result, print on the error stream",
  "#include <fcntl.h>\n" + SAID + MAIN + r"""
  oi_fits o;
  ds_init(&o, 1);
  ds_wave(&o, "I", 4);
  ds_vis2(&o, "I", 1, 4);
  begin(2);
  EXPECT(oi_fits_lookup_element(&o, "gone", 1) == NULL);
  end();
  EXPECT(strlen(text) == 0);
  return 0;
}""")

B("empty-warn-date", "P30",
  [(F+"oifilter.c", """        g_warning("Empty OI_T3 table removed from filter output");
""", """        if (pInTab->numrec > 0 && pFilter->target_id < 0)
          g_warning("Empty OI_T3 table removed from filter output");
""")],
  "filtering by target where a bispectrum table has no data of the target",
  "a bispectrum table is left out without a warning",
  "#include <fcntl.h>\n" + SAID + MAIN + r"""
  oi_fits o, b;
  oi_filter_spec s;
  ds_init(&o, 2);
  ds_wave(&o, "I", 4);
  ds_t3(&o, "I", 2, 4);
  ds_vis2(&o, "I", 2, 4);
  ((oi_t3 *)o.t3List->data)->record[0].target_id = 1;
  ((oi_t3 *)o.t3List->data)->record[1].target_id = 1;
  ((oi_vis2 *)o.vis2List->data)->record[1].target_id = 2;
  init_oi_filter(&s);
  s.target_id = 2;
  begin(2);
  apply_oi_filter(&o, &s, &b);
  end();
  EXPECT(b.numT3 == 0 && b.numVis2 == 1);
  EXPECT(strstr(text, "OI_T3") != NULL);
  return 0;
}""")

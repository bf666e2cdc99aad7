F = "src/oifitslib/"
MAIN = "int main(void)\n{\n"
B("filter-refmap-stride", "P07",
  [(F+"oifilter.c", "pInRec->visrefmap[l + j * nwaveIn];", "pInRec->visrefmap[l + j * nwaveOut];")],
  "OI_VIS table with VISREFMAP and a wavelength range which drops some channels",
  "reference maps of the surviving channels are scrambled by the filter",
  MAIN + r'''
  oi_fits in, out;
  oi_filter_spec f;
  oi_vis *v;
  int i;
  ds_init(&in, 1);
  ds_wave(&in, "I", 4);
  v = malloc(sizeof *v);
  memset(v, 0, sizeof *v);
  alloc_oi_vis(v, 1, 4);
  v->usevisrefmap = TRUE;
  v->usecomplex = FALSE;
  v->record[0].visrefmap = malloc(16);
  v->revision = 2;
  strcpy(v->insname, "I");
  v->record[0].target_id = 1;
  v->record[0].mjd = 55000;
  v->record[0].ucoord = 10;
  v->record[0].vcoord = 10;
  for (i = 0; i < 4; i++)
  {
    v->record[0].visamp[i] = v->record[0].visphi[i] = 1;
    v->record[0].visamperr[i] = v->record[0].visphierr[i] = 0.1;
    v->record[0].flag[i] = 0;
  }
  for (i = 0; i < 16; i++) v->record[0].visrefmap[i] = (i * 7 % 5) & 1;
  in.visList = g_list_append(NULL, v);
  in.numVis = 1;
  init_oi_filter(&f);
  f.wave_range[1] = 1.25e-6; /* three channels */
  apply_oi_filter(&in, &f, &out);
  oi_vis *w = out.visList->data;
  EXPECT(w->nwave == 3);
  for (i = 0; i < 9; i++) EXPECT(w->record[0].visrefmap[i] == v->record[0].visrefmap[i % 3 + i / 3 * 4]);
  return 0;
}''')

B("merge-flux-corrname", "P11",
  [(F+"oimerge.c", """      ++pOutput->numFlux;
      jlink = jlink->next;
    }
    ilink = ilink->next;
    arrHashLink = arrHashLink->next;
    insHashLink = insHashLink->next;
    corrHashLink = corrHashLink->next;""", """      ++pOutput->numFlux;
      jlink = jlink->next;
    }
    ilink = ilink->next;
    arrHashLink = arrHashLink->next;
    insHashLink = insHashLink->next;
    if (pInput->numFlux > 0) corrHashLink = corrHashLink->next;""")],
  "merging a dataset without OI_FLUX before one with OI_FLUX and a CORRNAME which clashes",
  "OI_FLUX refers to the other dataset's OI_CORR table",
  MAIN + r'''
  oi_fits a, b, out;
  ds_init(&a, 1);
  ds_wave(&a, "I", 2);
  ds_corr(&a, "C", 2);
  ds_init(&b, 1);
  ds_wave(&b, "I", 2);
  ds_corr(&b, "C", 5);
  strcpy(ds_flux(&b, "I", 1, 2)->corrname, "C");
  merge_oi_fits(&out, &a, &b, NULL);
  oi_flux *f = out.fluxList->data;
  EXPECT(oi_fits_lookup_corr(&out, f->corrname)->ncorr == 5);
  return 0;
}''')

B("write-order-zero", "P01",
  [(F+"write_fits.c", "if (vis.phiorder >= 0)", "if (vis.phiorder > 0)")],
  "OI_VIS table with PHIORDER 0",
  "a PHIORDER of zero is not written and reads back as unspecified",
  MAIN + r'''
  oi_fits a, b;
  ds_init(&a, 1);
  ds_wave(&a, "I", 2);
  ds_vis(&a, "I", 1, 2)->phiorder = 0;
  ds_written_and_read(&a, &b);
  EXPECT(((oi_vis *)b.visList->data)->phiorder == 0);
  return 0;
}''')

B("merge-wave-band", "P12",
  [(F+"oimerge.c", """        if (fabs(pCmp->eff_wave[i] - pWave->eff_wave[i]) >= tol ||
            fabs(pCmp->eff_band[i] - pWave->eff_band[i]) >= tol)
          break;""", """        if (fabs(pCmp->eff_wave[i] - pWave->eff_wave[i]) >= tol ||
            fabs(pCmp->eff_band[0] - pWave->eff_band[0]) >= tol)
          break;""")],
  "two instruments whose wavelengths agree and whose bandwidths agree in the first channel only",
  "different instruments are taken for the same",
  MAIN + r'''
  oi_fits a, b, out;
  ds_init(&a, 1);
  ds_wave(&a, "I", 3);
  ds_init(&b, 1);
  ds_wave(&b, "J", 3)->eff_band[2] = 3e-7;
  ds_vis2(&b, "J", 1, 3);
  merge_oi_fits(&out, &a, &b, NULL);
  EXPECT(out.numWavelength == 2);
  return 0;
}''')

B("header-date-obs-flux", "P04",
  [(F+"oifile.c", "if (pT3->record[i].mjd < minMjd) minMjd = pT3->record[i].mjd;", "if (pT3->record[i].mjd < minMjd) minMjd = pT3->record[0].mjd;")],
  "the earliest observation is in an OI_T3 table whose records are not in order of time",
  "the derived DATE-OBS is not the date of the earliest observation",
  MAIN + r'''
  oi_fits a;
  oi_t3 *t;
  ds_init(&a, 1);
  ds_wave(&a, "I", 2);
  t = ds_t3(&a, "I", 2, 2);
  t->record[0].mjd = 55198.5;
  t->record[1].mjd = 55190.5;
  set_oi_header(&a);
  EXPECT(strcmp(a.header.date_obs, "2009-12-25") == 0);
  return 0;
}''')

B("iter-wave-stale", "P10",
  [(F+"oiiter.c", """    ((pIter)->pWave = oi_fits_lookup_wavelength(                               \\
         (pIter)->pData, ((tabType *)((pIter)->link->data))->insname)),        \\
""", """    ((pIter)->pWave->nwave == ((tabType *)((pIter)->link->data))->nwave ||      \\
     ((pIter)->pWave = oi_fits_lookup_wavelength(                              \\
          (pIter)->pData, ((tabType *)((pIter)->link->data))->insname))),      \\
""")],
  "several data tables with different instruments which have as many channels",
  "wavelengths of an earlier table are used for a later one",
  MAIN + r'''
  oi_fits a;
  oi_t3_iter it;
  oi_wavelength *w;
  double u1, v1, u2, v2, wl;
  int n = 0;
  ds_init(&a, 1);
  ds_wave(&a, "I", 2);
  w = ds_wave(&a, "J", 2);
  w->eff_wave[0] = 2e-6;
  w->eff_wave[1] = 3e-6;
  ds_t3(&a, "I", 1, 2);
  ds_t3(&a, "J", 1, 2);
  oi_t3_iter_init(&it, &a, NULL);
  while (oi_t3_iter_next(&it, NULL, NULL, NULL, NULL, NULL))
  {
    oi_t3_iter_get_uv(&it, &wl, &u1, &v1, &u2, &v2);
    n++;
    if (n == 3) EXPECT(fabs(u1 - 10 / 2e-6) < 10);
    if (n == 4) EXPECT(fabs(u1 - 10 / 3e-6) < 10);
  }
  EXPECT(n == 4);
  return 0;
}''')

B("check-waveorder-last", "P14",
  [(F+"oicheck.c", """    for (i = 1; i < pWave->nwave; i++)
    {
      if (pWave->eff_wave[i] < pWave->eff_wave[i - 1] ||""", """    for (i = 1; i + 1 < pWave->nwave; i++)
    {
      if (pWave->eff_wave[i] < pWave->eff_wave[i - 1] ||""")],
  "wavelength table of two channels in descending order",
  "no breach is reported",
  MAIN + r'''
  oi_fits a;
  oi_check_result r;
  oi_wavelength *w;
  ds_init(&a, 1);
  w = ds_wave(&a, "I", 2);
  w->eff_wave[1] = 0.5e-6;
  EXPECT(check_waveorder(&a, &r) == OI_BREACH_WARNING);
  return 0;
}''')

B("dup-flux-err", "P17",
  [(F+"oifile.c", """    MEMDUP(pOutRec->fluxerr, pInRec->fluxerr,
           pInTab->nwave * sizeof(pInRec->fluxerr[0]));""", """    MEMDUP(pOutRec->fluxerr, pInRec->fluxerr,
           pInTab->nwave * sizeof(float));""")],
  "copying an OI_FLUX table",
  "only half of the error array is copied",
  MAIN + r'''
  oi_fits a;
  oi_flux *f, *g;
  int i;
  ds_init(&a, 1);
  ds_wave(&a, "I", 200);
  f = ds_flux(&a, "I", 1, 200);
  g = dup_oi_flux(f);
  for (i = 0; i < 200; i++) EXPECT(g->record[0].fluxerr[i] == f->record[0].fluxerr[i]);
  return 0;
}''')

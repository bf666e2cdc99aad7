/* Small datasets built with the public interface */
#include "oifile.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oicheck.h"
#include "oiiter.h"
#include "datemjd.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <unistd.h>

#define EXPECT(c)                                                              \
  do                                                                           \
  {                                                                            \
    if (!(c))                                                                  \
    {                                                                          \
      fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #c);            \
      exit(1);                                                                 \
    }                                                                          \
  } while (0)
#define UNUSED __attribute__((unused))

UNUSED static void ds_init(oi_fits *o, int ntarget)
{
  int i;
  init_oi_fits(o);
  strcpy(o->header.origin, "here");
  strcpy(o->header.date_obs, "2010-01-02");
  strcpy(o->header.content, "OIFITS2");
  strcpy(o->header.telescop, "A");
  strcpy(o->header.instrume, "I");
  strcpy(o->header.observer, "me");
  strcpy(o->header.insmode, "low");
  strcpy(o->header.object, "star");
  alloc_oi_target(&o->targets, ntarget);
  o->targets.revision = 2;
  o->targets.usecategory = FALSE;
  for (i = 0; i < ntarget; i++)
  {
    memset(&o->targets.targ[i], 0, sizeof(target));
    o->targets.targ[i].target_id = i + 1;
    sprintf(o->targets.targ[i].target, "star%d", i + 1);
    strcpy(o->targets.targ[i].veltyp, "LSR");
    strcpy(o->targets.targ[i].veldef, "OPTICAL");
    strcpy(o->targets.targ[i].spectyp, "G2V");
    o->targets.targ[i].equinox = 2000;
  }
}
UNUSED static oi_array *ds_array(oi_fits *o, const char *name, int n)
{
  int i;
  oi_array *a = malloc(sizeof *a);
  memset(a, 0, sizeof *a);
  alloc_oi_array(a, n);
  a->revision = 2;
  strcpy(a->arrname, name);
  strcpy(a->frame, "GEOCENTRIC");
  a->arrayx = 1000;
  for (i = 0; i < n; i++)
  {
    memset(&a->elem[i], 0, sizeof(element));
    sprintf(a->elem[i].tel_name, "T%d", i + 1);
    sprintf(a->elem[i].sta_name, "S%d", i + 1);
    a->elem[i].sta_index = i + 1;
    a->elem[i].diameter = 1;
    a->elem[i].staxyz[0] = 10 * i;
    a->elem[i].fov = 1;
    strcpy(a->elem[i].fovtype, "FWHM");
  }
  o->arrayList = g_list_append(o->arrayList, a);
  o->numArray++;
  if (!g_hash_table_lookup(o->arrayHash, a->arrname))
    g_hash_table_insert(o->arrayHash, a->arrname, a);
  return a;
}
UNUSED static oi_wavelength *ds_wave(oi_fits *o, const char *name, int n)
{
  int i;
  oi_wavelength *w = malloc(sizeof *w);
  memset(w, 0, sizeof *w);
  alloc_oi_wavelength(w, n);
  w->revision = 2;
  strcpy(w->insname, name);
  for (i = 0; i < n; i++)
  {
    w->eff_wave[i] = 1e-6 + 1e-7 * i;
    w->eff_band[i] = 1e-7;
  }
  o->wavelengthList = g_list_append(o->wavelengthList, w);
  o->numWavelength++;
  g_hash_table_insert(o->wavelengthHash, w->insname, w);
  return w;
}
UNUSED static oi_corr *ds_corr(oi_fits *o, const char *name, int n)
{
  int i;
  oi_corr *c = malloc(sizeof *c);
  memset(c, 0, sizeof *c);
  alloc_oi_corr(c, n);
  c->revision = 1;
  strcpy(c->corrname, name);
  c->ndata = 100;
  for (i = 0; i < n; i++)
  {
    c->iindx[i] = i + 1;
    c->jindx[i] = i + 2;
    c->corr[i] = 0.5;
  }
  o->corrList = g_list_append(o->corrList, c);
  o->numCorr++;
  g_hash_table_insert(o->corrHash, c->corrname, c);
  return c;
}
UNUSED static oi_vis *ds_vis(oi_fits *o, const char *ins, int nrec, int nwave)
{
  int i, j;
  oi_vis *v = malloc(sizeof *v);
  memset(v, 0, sizeof *v);
  v->usevisrefmap = FALSE;
  v->usecomplex = FALSE;
  alloc_oi_vis(v, nrec, nwave);
  v->revision = 2;
  strcpy(v->date_obs, "2010-01-02");
  strcpy(v->insname, ins);
  v->amporder = v->phiorder = -1;
  for (i = 0; i < nrec; i++)
  {
    oi_vis_record *r = &v->record[i];
    r->target_id = 1;
    r->time = 0;
    r->mjd = 55198.5 + 0.01 * i;
    r->int_time = 10;
    r->ucoord = 10 + i;
    r->vcoord = 20;
    r->sta_index[0] = 1;
    r->sta_index[1] = 2;
    for (j = 0; j < nwave; j++)
    {
      r->visamp[j] = 0.5 + 0.001 * j;
      r->visamperr[j] = 0.01;
      r->visphi[j] = 5;
      r->visphierr[j] = 1;
      r->flag[j] = 0;
    }
  }
  o->visList = g_list_append(o->visList, v);
  o->numVis++;
  return v;
}
UNUSED static oi_vis2 *ds_vis2(oi_fits *o, const char *ins, int nrec, int nwave)
{
  int i, j;
  oi_vis2 *v = malloc(sizeof *v);
  memset(v, 0, sizeof *v);
  alloc_oi_vis2(v, nrec, nwave);
  v->revision = 2;
  strcpy(v->date_obs, "2010-01-02");
  strcpy(v->insname, ins);
  for (i = 0; i < nrec; i++)
  {
    oi_vis2_record *r = &v->record[i];
    r->target_id = 1;
    r->time = 0;
    r->mjd = 55198.5 + 0.01 * i;
    r->int_time = 10;
    r->ucoord = 10 + i;
    r->vcoord = 20;
    r->sta_index[0] = 1;
    r->sta_index[1] = 2;
    for (j = 0; j < nwave; j++)
    {
      r->vis2data[j] = 0.5 + 0.001 * j;
      r->vis2err[j] = 0.01;
      r->flag[j] = 0;
    }
  }
  o->vis2List = g_list_append(o->vis2List, v);
  o->numVis2++;
  return v;
}
UNUSED static oi_t3 *ds_t3(oi_fits *o, const char *ins, int nrec, int nwave)
{
  int i, j;
  oi_t3 *v = malloc(sizeof *v);
  memset(v, 0, sizeof *v);
  alloc_oi_t3(v, nrec, nwave);
  v->revision = 2;
  strcpy(v->date_obs, "2010-01-02");
  strcpy(v->insname, ins);
  for (i = 0; i < nrec; i++)
  {
    oi_t3_record *r = &v->record[i];
    r->target_id = 1;
    r->time = 0;
    r->mjd = 55198.5 + 0.01 * i;
    r->int_time = 10;
    r->u1coord = 10 + i;
    r->v1coord = 20;
    r->u2coord = 15;
    r->v2coord = -12;
    r->sta_index[0] = 1;
    r->sta_index[1] = 2;
    r->sta_index[2] = 3;
    for (j = 0; j < nwave; j++)
    {
      r->t3amp[j] = 0.5 + 0.001 * j;
      r->t3amperr[j] = 0.01;
      r->t3phi[j] = 30;
      r->t3phierr[j] = 2;
      r->flag[j] = 0;
    }
  }
  o->t3List = g_list_append(o->t3List, v);
  o->numT3++;
  return v;
}
UNUSED static oi_flux *ds_flux(oi_fits *o, const char *ins, int nrec, int nwave)
{
  int i, j;
  oi_flux *v = malloc(sizeof *v);
  memset(v, 0, sizeof *v);
  alloc_oi_flux(v, nrec, nwave);
  v->revision = 1;
  strcpy(v->date_obs, "2010-01-02");
  strcpy(v->insname, ins);
  v->fov = 1;
  strcpy(v->fovtype, "FWHM");
  v->calstat = 'C';
  strcpy(v->fluxunit, "Jy");
  for (i = 0; i < nrec; i++)
  {
    oi_flux_record *r = &v->record[i];
    r->target_id = 1;
    r->mjd = 55198.5 + 0.01 * i;
    r->int_time = 10;
    r->sta_index = 1;
    for (j = 0; j < nwave; j++)
    {
      r->fluxdata[j] = 5 + 0.001 * j;
      r->fluxerr[j] = 0.01;
      r->flag[j] = 0;
    }
  }
  o->fluxList = g_list_append(o->fluxList, v);
  o->numFlux++;
  return v;
}
UNUSED static oi_inspol *ds_inspol(oi_fits *o, const char *arr, const char *ins, int nrec, int nwave)
{
  int i, j;
  oi_inspol *v = malloc(sizeof *v);
  memset(v, 0, sizeof *v);
  alloc_oi_inspol(v, nrec, nwave);
  v->revision = 1;
  strcpy(v->date_obs, "2010-01-02");
  strcpy(v->arrname, arr);
  strcpy(v->orient, "NORTH");
  strcpy(v->model, "meas");
  v->npol = 2;
  for (i = 0; i < nrec; i++)
  {
    oi_inspol_record *r = &v->record[i];
    r->target_id = 1;
    strcpy(r->insname, ins);
    r->mjd_obs = 55198;
    r->mjd_end = 55199;
    r->sta_index = 1;
    for (j = 0; j < nwave; j++)
    {
      r->jxx[j] = 1 + 2i + j;
      r->jyy[j] = 3 + 4i + j;
      r->jxy[j] = 5 + 6i + j;
      r->jyx[j] = 7 + 8i + j;
    }
  }
  o->inspolList = g_list_append(o->inspolList, v);
  o->numInspol++;
  return v;
}
UNUSED static void ds_written_and_read(oi_fits *o, oi_fits *in)
{
  int status = 0;
  unlink("t.fits");
  write_oi_fits("t.fits", *o, &status);
  EXPECT(status == 0);
  read_oi_fits("t.fits", in, &status);
  EXPECT(status == 0);
}

#pragma once
#include "ref_filter.h"
#include <cmath>
#include <cstring>
// Steps an iterator of the library alongside the model
struct ItV {
  typedef oi_vis_iter I; typedef oi_vis T; typedef oi_vis_record R;
  static const Kind k = VIS;
  static GList *list(const oi_fits &o) { return o.visList; }
  static void init(I *i, const oi_fits *o, const oi_filter_spec *f) { oi_vis_iter_init(i, o, f); }
  static bool next(I *i, int *e, T **t, long *r, R **p, int *w) { return oi_vis_iter_next(i, e, t, r, p, w); }
  static void uv(I *i, double *w, double *u, int no = 0) { oi_vis_iter_get_uv(i, w, u && !(no & 1) ? &u[0] : nullptr, u && !(no & 2) ? &u[1] : nullptr); }
};
struct It2 {
  typedef oi_vis2_iter I; typedef oi_vis2 T; typedef oi_vis2_record R;
  static const Kind k = VIS2;
  static GList *list(const oi_fits &o) { return o.vis2List; }
  static void init(I *i, const oi_fits *o, const oi_filter_spec *f) { oi_vis2_iter_init(i, o, f); }
  static bool next(I *i, int *e, T **t, long *r, R **p, int *w) { return oi_vis2_iter_next(i, e, t, r, p, w); }
  static void uv(I *i, double *w, double *u, int no = 0) { oi_vis2_iter_get_uv(i, w, u && !(no & 1) ? &u[0] : nullptr, u && !(no & 2) ? &u[1] : nullptr); }
};
struct It3 {
  typedef oi_t3_iter I; typedef oi_t3 T; typedef oi_t3_record R;
  static const Kind k = T3;
  static GList *list(const oi_fits &o) { return o.t3List; }
  static void init(I *i, const oi_fits *o, const oi_filter_spec *f) { oi_t3_iter_init(i, o, f); }
  static bool next(I *i, int *e, T **t, long *r, R **p, int *w) { return oi_t3_iter_next(i, e, t, r, p, w); }
  static void uv(I *i, double *w, double *u, int no = 0)
  {
    oi_t3_iter_get_uv(i, w, u && !(no & 1) ? &u[0] : nullptr, u && !(no & 2) ? &u[1] : nullptr, u && !(no & 4) ? &u[2] : nullptr, u && !(no & 8) ? &u[3] : nullptr);
  }
};
template <class A> struct Walk {
  typename A::I it;
  const oi_fits *o;
  const MDS *m;
  std::vector<Datum> want;
  size_t pos = 0;
  bool done = false;
  void start(const oi_fits *oi, const MDS &ds, const FSpec &f, bool nullspec)
  {
    o = oi; m = &ds;
    want = ref_iter(ds, A::k, f);
    oi_filter_spec c;
    to_c(f, &c);
    memset((void *)&it, 'Q', sizeof it);
    A::init(&it, oi, nullspec ? nullptr : &c);
    memset((void *)&c, 'Z', sizeof c); // the iterator keeps its own copy
  }
  void step(Gen &g)
  {
    int e = -99, w = -99;
    long r = -99;
    typename A::T *t = nullptr;
    typename A::R *p = nullptr;
    bool sparse = g.chance(10);
    bool more = sparse ? A::next(&it, nullptr, nullptr, &r, nullptr, &w) : A::next(&it, &e, &t, &r, &p, &w);
    g.evals++;
    if (pos == want.size())
    {
      if (more) fail("%s iterator gave a datum (table %d record %ld channel %d) after the last of %zu which pass the filter", kindname[A::k], e, r, w, want.size());
      done = true;
      return;
    }
    const Datum &d = want[pos];
    if (!more) fail("%s iterator ended after %zu of %zu data; next is table %d record %ld channel %d", kindname[A::k], pos, want.size(), d.extver, d.irec, d.iwave);
    if (r != d.irec || w != d.iwave || (!sparse && e != d.extver))
      fail("%s iterator's datum %zu: table %d record %ld channel %d, expected table %d record %ld channel %d", kindname[A::k], pos, e, r, w, d.extver, d.irec, d.iwave);
    if (!sparse)
    {
      GList *l = g_list_nth(A::list(*o), d.extver - 1);
      if (t != l->data) fail("%s iterator: wrong table pointer at datum %zu", kindname[A::k], pos);
      if (p != &t->record[d.irec]) fail("%s iterator: wrong record pointer at datum %zu", kindname[A::k], pos);
    }
    const MData &md = m->dat[A::k][d.extver - 1];
    const MWave &mw = *find_wave(*m, md.insname);
    double wl = -1, u[4] = {0, 0, 0, 0};
    int no = g.chance(20) ? (int)g.below(16) : 0; // which are not wanted
    A::uv(&it, &wl, u, no);
    if (g.chance(10)) A::uv(&it, nullptr, nullptr);
    if (wl != (double)mw.wave[d.iwave]) fail("%s iterator: wavelength %.9g, expected %.9g", kindname[A::k], wl, mw.wave[d.iwave]);
    for (int i = 0; i < nuv(A::k); i++)
    {
      double x = no >> i & 1 ? 0 : md.rec[d.irec].uv[i] / wl;
      if (!(std::fabs(u[i] - x) <= 1e-12 * std::fabs(x))) fail("%s iterator: uv coordinate %d is %.17g, expected %.17g", kindname[A::k], i, u[i], x);
    }
    pos++;
  }
};

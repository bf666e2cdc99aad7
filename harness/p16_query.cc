// OIFITS v1 handling, lookups, copies, dates and dataset queries.
#include "fits.h"
#include "said.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <unistd.h>

// ------------------------------------------------------------------ calendar
static void civil(long mjd, long *y, long *m, long *d)
{
  // days-from-civil algorithm on the proleptic Gregorian calendar
  long z = mjd - 40587 + 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097;
  long doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  long mp = (5 * doy + 2) / 153;
  *d = doy - (153 * mp + 2) / 5 + 1;
  *m = mp < 10 ? mp + 3 : mp - 9;
  *y = yoe + era * 400 + (*m <= 2);
}
static void run_dates(Gen &g)
{
  // one year per case; MJD 15385 is 1901-01-01
  static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int year = 1858 + (int)(case_index() % 275);
  g.bits(); // a draw, so that tapes differ
  bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
  // MJD of 1 January by counting
  long mjd = -320; // 1858-01-01
  for (int y = 1858; y < year; y++) mjd += ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 366 : 365;
  uint64_t n = 0;
  for (int m = 1; m <= 12; m++)
    for (int d = 1; d <= dim[m - 1] + (m == 2 && leap); d++, mjd++, n++)
    {
      long Y = -1, M = -1, D = -1;
      mjd2date(mjd, &Y, &M, &D);
      if (Y != year || M != m || D != d)
        fail("MJD %ld is %04d-%02d-%02d but was converted to %ld-%ld-%ld", mjd, year, m, d, Y, M, D);
      if (year >= 1901 && year <= 2099)
      {
        long j = date2mjd(year, m, d);
        if (j != mjd) fail("%04d-%02d-%02d is MJD %ld but was converted to %ld", year, m, d, mjd, j);
      }
      long a, b, c;
      civil(mjd, &a, &b, &c);
      if (a != year || b != m || c != d) fail("harness: calendar algorithms disagree at MJD %ld", mjd);
    }
  g.evals = n;
  g.note(strf("year %d", year));
  g.nontrivial();
  g.label(year >= 1901 && year <= 2099 ? "both directions" : "MJD to date only");
}

// ------------------------------------------------------------------ v1 files
static void run_v1(Gen &g)
{
  GenOpt o;
  o.version = g.one({1, 1, 1, 0, 2});
  o.wild = g.chance(30);
  o.bigrec = 4;
  o.huge = 2;
  o.empties = g.chance(15);
  MDS m = gen_ds(g, o);
  size_t nrec = 0;
  double lo = 1e9;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
      for (auto &r : d.rec)
      {
        if (!(r.mjd >= 0 && r.mjd < 100000)) r.mjd = gen_mjd(g);
        lo = std::min(lo, r.mjd);
        nrec++;
      }
  bool two = g.chance(o.version == 1 ? 10 : 50);
  m.h.content = two ? "OIFITS2" : g.one<const char *>({"", "", "OIFITS1", "oifits2", "OIFITS", "OIFITS22"});
  if (!two && !m.arr.empty() && g.flip()) m.arr.resize(1);
  if (!two && g.flip()) m.targets.t.resize(std::min<size_t>(1, m.targets.t.size()));
  Layout l = gen_layout(g);
  FFile ff = to_fits(g, m, l);
  FHdu &p = ff[0];
  // our own primary header
  p.keys.clear();
  MHeader h = gen_header(g, o), want;
  h.content = m.h.content;
  auto a = [&](const char *n, const std::string &v, std::string &w) {
    if (strcmp(n, "CONTENT") ? g.chance(40) : v.empty()) return; // absent
    p.keys.push_back(kS(n, v));
    w = v;
  };
  {
    std::vector<std::pair<const char *, std::string>> kv;
    std::vector<std::string *> dst;
    each(h, [&](const char *n, std::string &v) { kv.push_back({n, v}); });
    each(want, [&](const char *, std::string &v) { dst.push_back(&v); });
    for (size_t i = 0; i < kv.size(); i++) a(kv[i].first, kv[i].second, *dst[i]);
  }
  if (!two)
  {
    want.telescop = m.arr.empty() ? "UNKNOWN" : m.arr.size() == 1 ? m.arr[0].arrname : "MULTIPLE";
    want.instrume = m.wave.size() == 1 ? m.wave[0].insname : "MULTIPLE";
    want.object = m.targets.t.size() == 1 ? m.targets.t[0].name : "MULTIPLE";
    want.origin = want.observer = want.insmode = "UNKNOWN";
    if (nrec)
    {
      long y, mo, d;
      civil((long)std::floor(lo), &y, &mo, &d);
      want.date_obs = strf("%04ld-%02ld-%02ld", y, mo, d);
    }
  }
  g.label(two ? "CONTENT=OIFITS2" : "v1 header");
  g.label(strf("%zu arrays", m.arr.size()));
  if (m.targets.t.size() == 1) g.label("one target");
  if (m.wave.size() == 1) g.label("one instrument");
  g.note(dump(m));
  if (nrec && !two) g.nontrivial();
  std::string f = scratch_file("v1.fits");
  write_bytes(f, encode(ff));
  Oi in;
  memset(&in.o, 'Q', sizeof in.o);
  STATUS st = 0;
  read_oi_fits(f.c_str(), &in.o, &st);
  unlink(f.c_str());
  if (st) fail("reading failed: status %d", st);
  in.live = true;
  MDS got = from_c(&in.o);
  if (!two && !nrec) want.date_obs = got.h.date_obs; // no observation: date is meaningless
  std::string d = diff(want, got.h);
  if (!d.empty()) fail("primary header: %s", d.c_str());
  // classification
  bool one = !two && m.targets.rev == 1;
  for (auto &x : m.arr) one = one && x.rev == 1;
  for (auto &x : m.wave) one = one && x.rev == 1;
  for (int k = 0; k < 3; k++)
    for (auto &x : m.dat[k]) one = one && x.rev == 1;
  if (!!is_oi_fits_two(&in.o) != two) fail("identified as %sOIFITS v2, CONTENT='%s'", two ? "not " : "", m.h.content.c_str());
  if (!!is_oi_fits_one(&in.o) != one) fail("is_oi_fits_one() gave %d, expected %d", is_oi_fits_one(&in.o), one);
  MDS tab = as_read(m);
  CmpOpt nohdr;
  nohdr.header = false;
  nohdr.kw_tol = true;
  d = diff(tab, got, nohdr);
  if (!d.empty()) fail("tables as read: %s", d.c_str());
  // upgrading tables in memory
  MDS up = got;
  up.targets.rev = 2;
  for (auto &x : up.arr) x.rev = 2;
  for (auto &x : up.wave) x.rev = 2;
  for (int k = 0; k < 3; k++)
    for (auto &x : up.dat[k])
      if (x.rev == 1)
      {
        x.rev = 2;
        for (auto &r : x.rec) r.time = 0;
      }
  for (int pass = 0; pass < 2; pass++)
  {
    upgrade_oi_target(&in.o.targets);
    for (GList *k = in.o.arrayList; k; k = k->next) upgrade_oi_array((oi_array *)k->data);
    for (GList *k = in.o.wavelengthList; k; k = k->next) upgrade_oi_wavelength((oi_wavelength *)k->data);
    for (GList *k = in.o.visList; k; k = k->next) upgrade_oi_vis((oi_vis *)k->data);
    for (GList *k = in.o.vis2List; k; k = k->next) upgrade_oi_vis2((oi_vis2 *)k->data);
    for (GList *k = in.o.t3List; k; k = k->next) upgrade_oi_t3((oi_t3 *)k->data);
    d = diff(up, from_c(&in.o));
    if (!d.empty()) fail("after %s the tables: %s", pass ? "upgrading twice" : "upgrading", d.c_str());
  }
  // the header function on its own, for a dataset in memory
  if (!two && nrec && g.flip())
  {
    Oi mem(m);
    set_oi_header(&mem.o);
    MHeader w2 = m.h;
    w2.telescop = want.telescop; w2.instrume = want.instrume; w2.object = want.object; w2.date_obs = want.date_obs;
    w2.origin = w2.observer = w2.insmode = "UNKNOWN";
    d = diff(w2, from_c(mem.o.header));
    if (!d.empty()) fail("header set from tables: %s", d.c_str());
  }
}

// ------------------------------------------------------------------- lookups
static std::string mutate(Gen &g, const std::string &s)
{
  std::string t = s;
  switch (g.below(6))
  {
  case 0: for (char &c : t) c = isupper(c) ? tolower(c) : toupper(c); break;
  case 1: if (!t.empty()) t.pop_back(); break;
  case 2: t += "x"; break;
  case 3: t += " "; break;
  case 4: t = " " + t; break;
  case 5: t = "no such name"; break;
  }
  return t;
}
template <class T> static T *first(GList *l, const std::string &n, char T::*f)
{
  for (; l; l = l->next)
    if (n == ((T *)l->data)->*f) return (T *)l->data;
  return nullptr;
}
static void check_lookups(Gen &g, const oi_fits *o, const MDS &m, const char *what)
{
  std::set<std::string> an, in, cn, tn;
  std::set<int> ids, stas;
  auto add = [&](std::set<std::string> &s, const std::string &n) { s.insert(n); s.insert(mutate(g, n)); };
  for (auto &a : m.arr) { add(an, a.arrname); for (auto &e : a.elem) stas.insert(e.sta_index); }
  for (auto &a : m.wave) add(in, a.insname);
  for (auto &a : m.corr) add(cn, a.corrname);
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      an.insert(d.arrname); in.insert(d.insname); cn.insert(d.corrname);
      for (auto &r : d.rec) { ids.insert(r.tid); for (int i = 0; i < nsta(k); i++) stas.insert(r.sta[i]); }
    }
  for (auto &t : m.targets.t) { add(tn, t.name); ids.insert(t.id); ids.insert(t.id + 1); }
  ids.insert(0); ids.insert(-1);
  stas.insert(-1); stas.insert(0); stas.insert(9999);
  uint64_t n = 0;
  for (auto &s : an)
  {
    oi_array *want = nullptr;
    for (GList *l = o->arrayList; l && !want; l = l->next)
      if (s == ((oi_array *)l->data)->arrname) want = (oi_array *)l->data;
    oi_array *got = oi_fits_lookup_array(o, s.c_str());
    if (got != want) fail("%s: lookup of OI_ARRAY '%s' gave %s, expected %s", what, s.c_str(), got ? "a table" : "nothing", want ? "the table of that name" : "nothing");
    for (int i : stas)
    {
      element *we = nullptr;
      for (int k = 0; want && k < want->nelement && !we; k++)
        if (want->elem[k].sta_index == i) we = &want->elem[k];
      element *ge = oi_fits_lookup_element(o, s.c_str(), i);
      if (ge != we) fail("%s: lookup of station %d of '%s' gave %s, expected %s", what, i, s.c_str(), ge ? "an element" : "nothing", we ? "the first element of that index" : "nothing");
      n++;
    }
    n++;
  }
  for (auto &s : in)
  {
    oi_wavelength *want = nullptr;
    for (GList *l = o->wavelengthList; l && !want; l = l->next)
      if (s == ((oi_wavelength *)l->data)->insname) want = (oi_wavelength *)l->data;
    oi_wavelength *got = oi_fits_lookup_wavelength(o, s.c_str());
    if (got != want) fail("%s: lookup of OI_WAVELENGTH '%s' gave %s, expected %s", what, s.c_str(), got ? "a table" : "nothing", want ? "the table of that name" : "nothing");
    n++;
  }
  for (auto &s : cn)
  {
    oi_corr *want = nullptr;
    for (GList *l = o->corrList; l && !want; l = l->next)
      if (s == ((oi_corr *)l->data)->corrname) want = (oi_corr *)l->data;
    oi_corr *got = oi_fits_lookup_corr(o, s.c_str());
    if (got != want) fail("%s: lookup of OI_CORR '%s' gave %s, expected %s", what, s.c_str(), got ? "a table" : "nothing", want ? "the table of that name" : "nothing");
    n++;
  }
  for (int i : ids)
  {
    target *want = nullptr;
    for (int k = 0; k < o->targets.ntarget && !want; k++)
      if (o->targets.targ[k].target_id == i) want = &o->targets.targ[k];
    target *got = oi_fits_lookup_target(o, i);
    if (got != want) fail("%s: lookup of target %d gave record %ld, expected %ld", what, i, got ? (long)(got - o->targets.targ) : -1, want ? (long)(want - o->targets.targ) : -1);
    n++;
  }
  for (auto &s : tn)
  {
    target *want = nullptr;
    for (int k = 0; k < o->targets.ntarget && !want; k++)
      if (s == o->targets.targ[k].target) want = &o->targets.targ[k];
    target *got = oi_fits_lookup_target_by_name(o, s.c_str());
    if (got != want) fail("%s: lookup of target '%s' gave record %ld, expected %ld", what, s.c_str(), got ? (long)(got - o->targets.targ) : -1, want ? (long)(want - o->targets.targ) : -1);
    n++;
  }
  g.evals += n;
}
static void run_lookup(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.maxtab = 5;
  o.maxrec = 3;
  o.maxwave = 4;
  o.maxtarg = 6;
  MDS m = gen_ds(g, o);
  // repeated target ids / names and station indices: the first one counts
  if (m.targets.t.size() > 1 && g.chance(30))
  {
    m.targets.t[1].id = m.targets.t[0].id;
    g.label("repeated TARGET_ID");
  }
  if (m.targets.t.size() > 2 && g.chance(30)) { m.targets.t[2].name = m.targets.t[1].name; g.label("repeated TARGET"); }
  if (m.targets.t.size() > 1 && g.chance(15)) { m.targets.t[g.below(m.targets.t.size())].name = ""; g.label("target without name"); }
  if (!m.arr.empty() && m.arr[0].elem.size() > 1 && g.chance(30))
  {
    m.arr[0].elem[1].sta_index = m.arr[0].elem[0].sta_index;
    g.label("repeated STA_INDEX");
  }
  // and repeated names
  auto twice = [&](auto &v, auto name) {
    if (v.size() < 2 || !g.chance(25)) return;
    size_t i = g.below(v.size()), j = g.below(v.size());
    if (i == j) return;
    name(v[i]) = name(v[j]);
    g.label("repeated table name");
  };
  twice(m.arr, [](MArray &a) -> std::string & { return a.arrname; });
  twice(m.wave, [](MWave &a) -> std::string & { return a.insname; });
  twice(m.corr, [](MCorr &a) -> std::string & { return a.corrname; });
  int path = (int)g.below(3);
  if (path == 0 && g.chance(30)) // references which do not resolve
  {
    if (m.arr.size() > 1) m.arr.pop_back();
    if (!m.corr.empty()) m.corr.pop_back();
    if (m.wave.size() > 1 && g.flip()) m.wave.pop_back();
    g.label("unresolved references");
  }
  g.note(dump(m));
  if (m.arr.size() + m.wave.size() + m.corr.size() >= 3) g.nontrivial();
  if (path == 0)
  {
    g.label("read from file");
    Layout l = gen_layout(g);
    std::string f = scratch_file("lk.fits");
    write_bytes(f, encode(to_fits(g, m, l)));
    Oi in;
    STATUS st = 0;
    read_oi_fits(f.c_str(), &in.o, &st);
    unlink(f.c_str());
    if (st) fail("reading failed: status %d", st);
    in.live = true;
    check_lookups(g, &in.o, m, "after reading");
  }
  else if (path == 1)
  {
    g.label("filtered");
    Oi in(m);
    oi_filter_spec spec;
    init_oi_filter(&spec);
    if (g.flip()) spec.target_id = g.pick(m.targets.t).id;
    if (g.flip()) g_strlcpy(spec.insname, m.wave[0].insname.size() < 60 && m.wave[0].insname.find_first_of("*?") == std::string::npos ? m.wave[0].insname.c_str() : "*", FLEN_VALUE);
    Oi out;
    apply_oi_filter(&in.o, &spec, &out.o);
    out.live = true;
    check_lookups(g, &out.o, m, "after filtering");
  }
  else
  {
    g.label("merged");
    // repeated ids would make a merge ambiguous
    for (size_t i = 0; i < m.targets.t.size(); i++)
      for (size_t j = 0; j < i; j++)
        if (m.targets.t[i].id == m.targets.t[j].id || m.targets.t[i].name == m.targets.t[j].name)
        {
          m.targets.t[i].id = 2000 + (int)i;
          m.targets.t[i].name = strf("uniq%zu", i);
        }
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k])
        for (auto &r : d.rec)
          if (!find_targ(m, r.tid)) r.tid = m.targets.t[0].id;
    for (auto &p : m.pol)
      for (auto &r : p.rec)
        if (!find_targ(m, r.tid)) r.tid = m.targets.t[0].id;
    MDS m2 = gen_ds(g, o);
    Oi a(m), b(m2);
    GList *l = nullptr;
    l = g_list_append(l, &a.o);
    l = g_list_append(l, &b.o);
    Oi out;
    merge_oi_fits_list(l, &out.o);
    g_list_free(l);
    out.live = true;
    check_lookups(g, &out.o, m, "after merging (first input's names)");
    check_lookups(g, &out.o, from_c(&out.o), "after merging");
  }
}

// -------------------------------------------------------------------- copies
static void junk(void *p, size_t n) { if (p) memset(p, 0x5a, n); }
static void scribble(oi_vis *t)
{
  for (long i = 0; i < t->numrec; i++)
  {
    oi_vis_record &r = t->record[i];
    size_t n = t->nwave;
    junk(r.visamp, n * sizeof *r.visamp); junk(r.visamperr, n * sizeof *r.visamperr);
    junk(r.visphi, n * sizeof *r.visphi); junk(r.visphierr, n * sizeof *r.visphierr);
    junk(r.flag, n * sizeof *r.flag);
    if (t->usevisrefmap) junk(r.visrefmap, n * n * sizeof *r.visrefmap);
    if (t->usecomplex)
    {
      junk(r.rvis, n * sizeof *r.rvis); junk(r.rviserr, n * sizeof *r.rviserr);
      junk(r.ivis, n * sizeof *r.ivis); junk(r.iviserr, n * sizeof *r.iviserr);
    }
    r.mjd = -7; r.target_id = -7; r.ucoord = -7; r.sta_index[0] = -7;
  }
  junk(t->insname, 4); t->date_obs[0] = 0;
}
static void scribble(oi_vis2 *t)
{
  for (long i = 0; i < t->numrec; i++)
  {
    oi_vis2_record &r = t->record[i];
    size_t n = t->nwave;
    junk(r.vis2data, n * sizeof *r.vis2data); junk(r.vis2err, n * sizeof *r.vis2err); junk(r.flag, n * sizeof *r.flag);
    r.mjd = -7; r.target_id = -7; r.ucoord = -7; r.sta_index[0] = -7;
  }
  junk(t->insname, 4); t->date_obs[0] = 0;
}
static void scribble(oi_t3 *t)
{
  for (long i = 0; i < t->numrec; i++)
  {
    oi_t3_record &r = t->record[i];
    size_t n = t->nwave;
    junk(r.t3amp, n * sizeof *r.t3amp); junk(r.t3amperr, n * sizeof *r.t3amperr);
    junk(r.t3phi, n * sizeof *r.t3phi); junk(r.t3phierr, n * sizeof *r.t3phierr); junk(r.flag, n * sizeof *r.flag);
    r.mjd = -7; r.target_id = -7; r.u1coord = -7; r.sta_index[2] = -7;
  }
  junk(t->insname, 4); t->date_obs[0] = 0;
}
static void scribble(oi_flux *t)
{
  for (long i = 0; i < t->numrec; i++)
  {
    oi_flux_record &r = t->record[i];
    size_t n = t->nwave;
    junk(r.fluxdata, n * sizeof *r.fluxdata); junk(r.fluxerr, n * sizeof *r.fluxerr); junk(r.flag, n * sizeof *r.flag);
    r.mjd = -7; r.target_id = -7; r.sta_index = -7;
  }
  junk(t->insname, 4); t->date_obs[0] = 0;
}
static void scribble(oi_inspol *t)
{
  for (long i = 0; i < t->numrec; i++)
  {
    oi_inspol_record &r = t->record[i];
    size_t n = t->nwave;
    junk(r.jxx, n * 8); junk(r.jyy, n * 8); junk(r.jxy, n * 8); junk(r.jyx, n * 8);
    r.target_id = -7; r.insname[0] = 0; r.mjd_end = -7;
  }
  t->arrname[0] = 0;
}
static void scribble(oi_array *t) { junk(t->elem, t->nelement * sizeof *t->elem); t->arrname[0] = 0; }
static void scribble(oi_wavelength *t)
{
  junk(t->eff_wave, t->nwave * sizeof *t->eff_wave); junk(t->eff_band, t->nwave * sizeof *t->eff_band);
  t->insname[0] = 0;
}
static void scribble(oi_corr *t)
{
  junk(t->iindx, t->ncorr * sizeof *t->iindx); junk(t->jindx, t->ncorr * sizeof *t->jindx);
  junk(t->corr, t->ncorr * sizeof *t->corr); t->corrname[0] = 0;
}
static void scribble(oi_target *t) { junk(t->targ, t->ntarget * sizeof *t->targ); t->usecategory = 9; }

template <class M, class T, class Mk, class Dup, class Fr>
static void check_dup(const char *what, const M &m, Mk mk, Dup dup, Fr fr, bool order)
{
  T *a = mk();
  M before = from_c(*a);
  T *b = dup(a);
  std::string d = diff(before, from_c(*b));
  if (!d.empty()) fail("copy of %s differs: %s", what, d.c_str());
  d = diff(m, from_c(*b));
  if (!d.empty()) fail("copy of %s differs from its content: %s", what, d.c_str());
  T *x = order ? a : b, *y = order ? b : a;
  scribble(x);
  d = diff(before, from_c(*y));
  if (!d.empty()) fail("changing the %s of %s changed the %s: %s", order ? "original" : "copy", what, order ? "copy" : "original", d.c_str());
  fr(x);
  free(x);
  d = diff(before, from_c(*y));
  if (!d.empty()) fail("freeing the %s of %s changed the %s: %s", order ? "original" : "copy", what, order ? "copy" : "original", d.c_str());
  fr(y);
  free(y);
}
static void run_dup(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.wild = g.chance(60);
  o.empties = g.chance(15);
  o.bigrec = 4;
  o.bigwave = 2;
  o.huge = 2;
  MDS m = gen_ds(g, o);
  g.note(dump(m));
  if (interesting(m)) g.nontrivial();
  bool order = g.flip();
  g.label(order ? "original changed" : "copy changed");
  check_dup<MTargets, oi_target>("OI_TARGET", m.targets, [&] {
    oi_target *t = (oi_target *)calloc(1, sizeof *t); to_c(m.targets, t); return t; }, dup_oi_target, free_oi_target, order);
  for (auto &t : m.arr) check_dup<MArray, oi_array>("OI_ARRAY", t, [&] { return to_c(t); }, dup_oi_array, free_oi_array, order);
  for (auto &t : m.wave) check_dup<MWave, oi_wavelength>("OI_WAVELENGTH", t, [&] { return to_c(t); }, dup_oi_wavelength, free_oi_wavelength, order);
  for (auto &t : m.corr) check_dup<MCorr, oi_corr>("OI_CORR", t, [&] { return to_c(t); }, dup_oi_corr, free_oi_corr, order), g.label("OI_CORR");
  for (auto &t : m.pol) check_dup<MPol, oi_inspol>("OI_INSPOL", t, [&] { return to_c(t); }, dup_oi_inspol, free_oi_inspol, order), g.label("OI_INSPOL");
  for (auto &t : m.dat[VIS])
  {
    check_dup<MData, oi_vis>("OI_VIS", t, [&] { return to_vis(t); }, dup_oi_vis, free_oi_vis, order);
    g.label(strf("OI_VIS%s%s", t.userefmap ? " VISREFMAP" : "", t.usecomplex ? " RVIS" : ""));
  }
  for (auto &t : m.dat[VIS2]) check_dup<MData, oi_vis2>("OI_VIS2", t, [&] { return to_vis2(t); }, dup_oi_vis2, free_oi_vis2, order), g.label("OI_VIS2");
  for (auto &t : m.dat[T3]) check_dup<MData, oi_t3>("OI_T3", t, [&] { return to_t3(t); }, dup_oi_t3, free_oi_t3, order), g.label("OI_T3");
  for (auto &t : m.dat[FLUX]) check_dup<MData, oi_flux>("OI_FLUX", t, [&] { return to_flux(t); }, dup_oi_flux, free_oi_flux, order), g.label("OI_FLUX");
}

// ------------------------------------------------------------------- queries
static std::string squeeze(const std::string &s)
{
  std::string t;
  for (char c : s)
  {
    if (c == ' ' && (t.empty() || t.back() == ' ' || t.back() == '\n')) continue;
    if (c == '\n') { while (!t.empty() && t.back() == ' ') t.pop_back(); if (t.empty() || t.back() == '\n') continue; }
    t += c;
  }
  return t;
}
static std::string want_summary(const MDS &m)
{
  std::string s = strf("OIFITS version %d data:\n", m.h.content == "OIFITS2" ? 2 : 1);
  auto kv = [&](const char *k, const std::string &v) { s += strf("%s= '%s'\n", k, v.c_str()); };
  kv("ORIGIN  ", m.h.origin); kv("DATE    ", m.h.date); kv("DATE-OBS", m.h.date_obs); kv("TELESCOP", m.h.telescop);
  kv("INSTRUME", m.h.instrume); kv("OBSERVER", m.h.observer); kv("OBJECT  ", m.h.object); kv("INSMODE ", m.h.insmode);
  kv("OBSTECH ", m.h.obstech);
  int n = 0;
  s += strf("%zu OI_ARRAY tables:\n", m.arr.size());
  for (auto &a : m.arr) s += strf("#%d ARRNAME='%s' %zu elements\n", ++n, a.arrname.c_str(), a.elem.size());
  n = 0;
  s += strf("%zu OI_WAVELENGTH tables:\n", m.wave.size());
  for (auto &w : m.wave)
  {
    float lo = w.wave[0], hi = w.wave[0];
    for (float x : w.wave) { lo = std::min(lo, x); hi = std::max(hi, x); }
    s += strf("#%d INSNAME='%s' %zu channels %7.1f-%7.1fnm\n", ++n, w.insname.c_str(), w.wave.size(), 1e9 * lo, 1e9 * hi);
  }
  n = 0;
  s += strf("%zu OI_CORR tables:\n", m.corr.size());
  for (auto &c : m.corr) s += strf("#%d CORRNAME='%s' %zu/%d non-zero correlations\n", ++n, c.corrname.c_str(), c.i.size(), c.ndata);
  n = 0;
  s += strf("%zu OI_INSPOL tables:\n", m.pol.size());
  for (auto &p : m.pol) s += strf("#%d ARRNAME='%s'\n", ++n, p.arrname.c_str());
  for (int k = 0; k < 4; k++)
  {
    n = 0;
    s += strf("%zu %s tables:\n", m.dat[k].size(), kindname[k]);
    for (auto &d : m.dat[k])
      s += strf("#%d DATE-OBS=%s\nINSNAME='%s' ARRNAME='%s' CORRNAME='%s'\n%zu records x %d wavebands\n", ++n, d.date_obs.c_str(),
                d.insname.c_str(), d.arrname.c_str(), d.corrname.c_str(), d.rec.size(), d.nwave);
  }
  return s;
}
static void run_query(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  bool small = g.chance(60);
  if (small) { o.maxtab = g.range(1, 2); o.maxtarg = g.range(1, 2); }
  else o.maxtab = 4;
  o.bigrec = 5;
  o.huge = 1;
  o.empties = g.chance(10);
  MDS m = gen_ds(g, o);
  if (g.chance(30)) m.h.content = g.one<const char *>({"", "OIFITS", "oifits2"});
  double lo = 1e9, hi = -1;
  bool near = g.chance(50);
  long cnt[4] = {0, 0, 0, 0};
  size_t nrec = 0;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
      for (auto &r : d.rec)
      {
        if (near) r.mjd = 50000 + g.range(0, 8) / 8.0;
        if (k == FLUX && near && g.flip()) r.mjd = 50000 + g.range(-8, 16) / 8.0;
        lo = std::min(lo, r.mjd);
        hi = std::max(hi, r.mjd);
        for (char f : r.flag) cnt[k] += !f;
        nrec++;
      }
  for (auto &w : m.wave)
    if (w.wave.empty()) { w.wave.push_back(1e-6f); w.band.push_back(1e-8f); }
  g.note(dump(m));
  bool single = m.arr.size() <= 1 && m.wave.size() == 1 && m.targets.t.size() == 1;
  g.label(single ? "single target and instrument" : "several");
  if (nrec > 1) g.nontrivial();
  Oi in(m);
  for (double md : {hi - lo, std::nextafter(hi - lo, -1.0), (hi - lo) / 2, (hi - lo) + 0.5, 0.0, 0.5, 1e9})
  {
    if (!nrec && md > 1000) continue;
    if (!nrec) md = 0.5;
    bool want = single && nrec && hi - lo <= md;
    if (!!is_atomic(&in.o, md) != want)
      fail("is_atomic(%.17g) gave %d, expected %d (arrays %zu, instruments %zu, targets %zu, MJD span %.17g)", md, !want, want,
           m.arr.size(), m.wave.size(), m.targets.t.size(), nrec ? hi - lo : -1);
    g.evals++;
  }
  long v = -1, v2 = -1, t3 = -1;
  count_oi_fits_data(&in.o, &v, &v2, &t3);
  if (v != cnt[VIS] || v2 != cnt[VIS2] || t3 != cnt[T3])
    fail("unflagged data counted as %ld/%ld/%ld, expected %ld/%ld/%ld", v, v2, t3, cnt[0], cnt[1], cnt[2]);
  long one = -1;
  int which = (int)g.below(3);
  count_oi_fits_data(&in.o, which == 0 ? &one : nullptr, which == 1 ? &one : nullptr, which == 2 ? &one : nullptr);
  if (one != cnt[which]) fail("count of %s alone gave %ld, expected %ld", kindname[which], one, cnt[which]);
  if (cnt[0] + cnt[1] + cnt[2] == 0) g.label("nothing unflagged");
  std::string s = squeeze(format_oi_fits_summary(&in.o)), w = squeeze(want_summary(m));
  if (s != w)
  {
    size_t i = 0;
    while (i < s.size() && i < w.size() && s[i] == w[i]) i++;
    size_t b = i > 60 ? i - 60 : 0;
    fail("summary differs at '%s', expected '%s'", s.substr(b, 160).c_str(), w.substr(b, 160).c_str());
  }
  if (g.chance(5))
  {
    std::string all = format_oi_fits_summary(&in.o);
    Said p = said([&]() { print_oi_fits_summary(&in.o); });
    if (p.out != all || !p.err.empty()) fail("printed summary is\n%s\n%s\nnot\n%s", p.out.c_str(), p.err.c_str(), all.c_str());
    g.label("printed");
  }
  std::string d = diff(m, from_c(&in.o));
  if (!d.empty()) fail("a query changed the dataset: %s", d.c_str());
}

static bool reg = (
  register_prop({"P04", "OIFITS v1 files",
    "Datasets with v1, v2 and mixed table revisions are encoded with arbitrary primary headers (CONTENT absent, OIFITS2 or other), read, "
    "and the header, classification, v1 defaults and the result of upgrading every table compared with a model. Non-trivial: header "
    "to be derived from at least one observation.",
    15000, 150000, run_v1, {"MJD within 0-100000", "DATE-OBS of a v1 file without any observation is unspecified"}, 200}),
  register_prop({"P16", "lookups",
    "Datasets from reading (incl. unresolved references), filtering and merging; every name, id and station index present, plus near "
    "misses, is looked up and the result compared with a linear search of the lists. Non-trivial: at least three tables with names.",
    20000, 200000, run_lookup, {}, 200}),
  register_prop({"P17", "deep copies",
    "Tables of every type and option, with any values; copied, compared, one of the pair overwritten and freed, the other compared "
    "again and freed. Non-trivial: at least two data tables and three records.",
    50000, 600000, run_dup, {}, 200}),
  register_prop({"P18", "dates and MJDs",
    "Every day of 1858-2132 (MJD to date) and of 1901-2099 (both directions) against a day-by-day calendar. Exhaustive.",
    275, 275, run_dates, {}, 20, true}),
  register_prop({"P19", "dataset queries",
    "Datasets biased to single target/instrument; atomicity at and just below the exact time span, counts of unflagged data, and the "
    "summary text compared with a model. Non-trivial: more than one record.",
    100000, 1000000, run_query, {"MJD within 0-100000"}, 200}),
  true);

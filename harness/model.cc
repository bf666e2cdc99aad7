#include "model.h"
#include <cmath>
#include <cstring>
#include <cstdlib>

const char *const kindname[4] = {"OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
const std::vector<std::string> kindcols[4] = {
    {"VISAMP", "VISAMPERR", "VISPHI", "VISPHIERR", "RVIS", "RVISERR", "IVIS", "IVISERR"},
    {"VIS2DATA", "VIS2ERR"},
    {"T3AMP", "T3AMPERR", "T3PHI", "T3PHIERR"},
    {"FLUXDATA", "FLUXERR"}};
const std::vector<std::string> kindcorr[4] = {
    {"VISAMP", "VISPHI", "RVIS", "IVIS"}, {"VIS2DATA"}, {"T3AMP", "T3PHI"}, {"FLUXDATA"}};

bool same(double a, double b)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return memcmp(&a, &b, sizeof a) == 0;
}
bool samef(float a, float b)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return memcmp(&a, &b, sizeof a) == 0;
}
std::string sd(double x) { return strf("%.17g", x); }

namespace {
struct Cmp {
  std::string path, out;
  bool bad() const { return !out.empty(); }
  void put(const std::string &n, const std::string &a, const std::string &b)
  {
    if (out.empty()) out = path + n + ": expected " + a + ", got " + b;
  }
  // trailing blanks are not significant in FITS (cfitsio returns " " for a blank field)
  static std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
  void s(const char *n, const std::string &a, const std::string &b)
  {
    if (a != b && rtrim(a) != rtrim(b)) put(n, "'" + a + "'", "'" + b + "'");
  }
  void i(const char *n, long a, long b) { if (a != b) put(n, std::to_string(a), std::to_string(b)); }
  void d(const std::string &n, double a, double b) { if (!same(a, b)) put(n, sd(a), sd(b)); }
  void f(const std::string &n, float a, float b) { if (!samef(a, b)) put(n, sd(a), sd(b)); }
  void kw(const char *n, double a, double b, bool tol)
  {
    if (tol)
    {
      if (std::isnan(a) && std::isnan(b)) return;
      if (a == b) return;
      if (std::fabs(a - b) <= 1e-14 * std::fabs(a)) return;
      put(n, sd(a), sd(b));
    }
    else d(n, a, b);
  }
};
template <class T, class D>
void veccmp(Cmp &c, const std::string &n, const std::vector<T> &a, const std::vector<T> &b, D each)
{
  if (c.bad()) return;
  if (a.size() != b.size()) { c.put(n + " count", std::to_string(a.size()), std::to_string(b.size())); return; }
  for (size_t k = 0; k < a.size() && !c.bad(); k++)
  {
    std::string save = c.path;
    c.path += n + "[" + std::to_string(k) + "].";
    each(a[k], b[k]);
    c.path = save;
  }
}
void dv(Cmp &c, const std::string &n, const std::vector<double> &a, const std::vector<double> &b)
{
  if (c.bad()) return;
  if (a.size() != b.size()) { c.put(n + " length", std::to_string(a.size()), std::to_string(b.size())); return; }
  for (size_t k = 0; k < a.size(); k++)
    if (!same(a[k], b[k])) { c.d(n + "[" + std::to_string(k) + "]", a[k], b[k]); return; }
}
void bv(Cmp &c, const std::string &n, const std::vector<char> &a, const std::vector<char> &b)
{
  if (c.bad()) return;
  if (a.size() != b.size()) { c.put(n + " length", std::to_string(a.size()), std::to_string(b.size())); return; }
  for (size_t k = 0; k < a.size(); k++)
    if (a[k] != b[k]) { c.put(n + "[" + std::to_string(k) + "]", std::to_string(a[k]), std::to_string(b[k])); return; }
}
void cmp(Cmp &c, const MHeader &a, const MHeader &b, const CmpOpt &o)
{
  std::vector<std::pair<std::string, std::string>> av, bv_;
  each(a, [&](const char *n, const std::string &v) { av.push_back({n, v}); });
  each(b, [&](const char *n, const std::string &v) { bv_.push_back({n, v}); });
  for (size_t k = 0; k < av.size(); k++)
  {
    if (av[k].first == "DATE" && !o.header_date) continue;
    c.s(av[k].first.c_str(), av[k].second, bv_[k].second);
  }
}
void cmp(Cmp &c, const MArray &a, const MArray &b, const CmpOpt &o)
{
  if (o.revision) c.i("revision", a.rev, b.rev);
  c.s("ARRNAME", a.arrname, b.arrname);
  c.s("FRAME", a.frame, b.frame);
  c.kw("ARRAYX", a.x, b.x, o.kw_tol);
  c.kw("ARRAYY", a.y, b.y, o.kw_tol);
  c.kw("ARRAYZ", a.z, b.z, o.kw_tol);
  veccmp(c, "elem", a.elem, b.elem, [&](const MElem &x, const MElem &y) {
    c.s("TEL_NAME", x.tel_name, y.tel_name);
    c.s("STA_NAME", x.sta_name, y.sta_name);
    c.i("STA_INDEX", x.sta_index, y.sta_index);
    c.f("DIAMETER", x.diameter, y.diameter);
    for (int k = 0; k < 3; k++) c.d("STAXYZ", x.xyz[k], y.xyz[k]);
    c.d("FOV", x.fov, y.fov);
    c.s("FOVTYPE", x.fovtype, y.fovtype);
  });
}
void cmp(Cmp &c, const MTarg &x, const MTarg &y, bool cat)
{
  c.i("TARGET_ID", x.id, y.id);
  c.s("TARGET", x.name, y.name);
  c.d("RAEP0", x.raep0, y.raep0); c.d("DECEP0", x.decep0, y.decep0);
  c.f("EQUINOX", x.equinox, y.equinox);
  c.d("RA_ERR", x.ra_err, y.ra_err); c.d("DEC_ERR", x.dec_err, y.dec_err);
  c.d("SYSVEL", x.sysvel, y.sysvel);
  c.s("VELTYP", x.veltyp, y.veltyp); c.s("VELDEF", x.veldef, y.veldef);
  c.d("PMRA", x.pmra, y.pmra); c.d("PMDEC", x.pmdec, y.pmdec);
  c.d("PMRA_ERR", x.pmra_err, y.pmra_err); c.d("PMDEC_ERR", x.pmdec_err, y.pmdec_err);
  c.f("PARALLAX", x.parallax, y.parallax); c.f("PARA_ERR", x.para_err, y.para_err);
  c.s("SPECTYP", x.spectyp, y.spectyp);
  if (cat) c.s("CATEGORY", x.category, y.category);
}
void cmp(Cmp &c, const MTargets &a, const MTargets &b, const CmpOpt &o)
{
  if (o.revision) c.i("OI_TARGET revision", a.rev, b.rev);
  c.i("OI_TARGET has CATEGORY", a.usecategory, b.usecategory);
  veccmp(c, "targ", a.t, b.t, [&](const MTarg &x, const MTarg &y) { cmp(c, x, y, a.usecategory); });
}
void cmp(Cmp &c, const MWave &a, const MWave &b, const CmpOpt &o)
{
  if (o.revision) c.i("revision", a.rev, b.rev);
  c.s("INSNAME", a.insname, b.insname);
  veccmp(c, "EFF_WAVE", a.wave, b.wave, [&](float x, float y) { c.f("", x, y); });
  veccmp(c, "EFF_BAND", a.band, b.band, [&](float x, float y) { c.f("", x, y); });
}
void cmp(Cmp &c, const MCorr &a, const MCorr &b, const CmpOpt &o)
{
  if (o.revision) c.i("revision", a.rev, b.rev);
  c.s("CORRNAME", a.corrname, b.corrname);
  c.i("NDATA", a.ndata, b.ndata);
  veccmp(c, "IINDX", a.i, b.i, [&](int x, int y) { c.i("", x, y); });
  veccmp(c, "JINDX", a.j, b.j, [&](int x, int y) { c.i("", x, y); });
  dv(c, "CORR", a.c, b.c);
}
void cmp(Cmp &c, const MPol &a, const MPol &b, const CmpOpt &o)
{
  if (o.revision) c.i("revision", a.rev, b.rev);
  c.s("DATE-OBS", a.date_obs, b.date_obs);
  c.s("ARRNAME", a.arrname, b.arrname);
  c.s("ORIENT", a.orient, b.orient);
  c.s("MODEL", a.model, b.model);
  c.i("NPOL", a.npol, b.npol);
  c.i("nwave", a.nwave, b.nwave);
  veccmp(c, "rec", a.rec, b.rec, [&](const MPolRec &x, const MPolRec &y) {
    c.i("TARGET_ID", x.tid, y.tid);
    c.s("INSNAME", x.insname, y.insname);
    c.d("MJD_OBS", x.mjd_obs, y.mjd_obs);
    c.d("MJD_END", x.mjd_end, y.mjd_end);
    c.i("STA_INDEX", x.sta, y.sta);
    static const char *jn[4] = {"JXX", "JYY", "JXY", "JYX"};
    for (int k = 0; k < 4; k++)
      veccmp(c, jn[k], x.j[k], y.j[k], [&](cf p, cf q) { c.f("re", p.real(), q.real()); c.f("im", p.imag(), q.imag()); });
  });
}
void cmp(Cmp &c, const MData &a, const MData &b, const CmpOpt &o)
{
  c.i("kind", a.kind, b.kind);
  if (o.revision) c.i("revision", a.rev, b.rev);
  c.s("DATE-OBS", a.date_obs, b.date_obs);
  c.s("ARRNAME", a.arrname, b.arrname);
  c.s("INSNAME", a.insname, b.insname);
  c.s("CORRNAME", a.corrname, b.corrname);
  c.i("nwave", a.nwave, b.nwave);
  if (a.kind == VIS)
  {
    c.s("AMPTYP", a.amptyp, b.amptyp);
    c.s("PHITYP", a.phityp, b.phityp);
    c.i("AMPORDER", a.amporder < 0 ? -1 : a.amporder, b.amporder < 0 ? -1 : b.amporder);
    c.i("PHIORDER", a.phiorder < 0 ? -1 : a.phiorder, b.phiorder < 0 ? -1 : b.phiorder);
    c.i("has VISREFMAP", a.userefmap, b.userefmap);
    c.i("has RVIS/IVIS", a.usecomplex, b.usecomplex);
    if (a.usecomplex) c.s("TUNIT of RVIS", a.complexunit, b.complexunit);
    if (a.amptyp == "correlated flux") c.s("TUNIT of VISAMP", a.ampunit, b.ampunit);
  }
  if (a.kind == FLUX)
  {
    c.s("FOVTYPE", a.fovtype, b.fovtype);
    if (!a.fovtype.empty()) c.kw("FOV", a.fov, b.fov, o.kw_tol);
    c.i("CALSTAT", a.calstat, b.calstat);
    c.s("TUNIT of FLUXDATA", a.fluxunit, b.fluxunit);
  }
  veccmp(c, "rec", a.rec, b.rec, [&](const MRec &x, const MRec &y) {
    c.i("TARGET_ID", x.tid, y.tid);
    if (o.time && a.kind != FLUX) c.d("TIME", x.time, y.time);
    c.d("MJD", x.mjd, y.mjd);
    c.d("INT_TIME", x.int_time, y.int_time);
    if (x.col.size() != y.col.size()) { c.put("columns", std::to_string(x.col.size()), std::to_string(y.col.size())); return; }
    for (size_t k = 0; k < x.col.size(); k++) dv(c, kindcols[a.kind][k], x.col[k], y.col[k]);
    if (!a.corrname.empty())
      for (size_t k = 0; k < x.corrindx.size() && k < y.corrindx.size(); k++)
        c.i(("CORRINDX_" + kindcorr[a.kind][k]).c_str(), x.corrindx[k], y.corrindx[k]);
    bv(c, "VISREFMAP", x.refmap, y.refmap);
    for (int k = 0; k < nuv(a.kind); k++) c.d("uv coord", x.uv[k], y.uv[k]);
    if (a.kind != FLUX || !a.arrname.empty())
      for (int k = 0; k < nsta(a.kind); k++) c.i("STA_INDEX", x.sta[k], y.sta[k]);
    bv(c, "FLAG", x.flag, y.flag);
  });
}
} // namespace

#define SIMPLE_DIFF(T)                                                                                                 \
  std::string diff(const T &a, const T &b, const CmpOpt &o)                                                            \
  {                                                                                                                    \
    Cmp c;                                                                                                             \
    cmp(c, a, b, o);                                                                                                   \
    return c.out;                                                                                                      \
  }
SIMPLE_DIFF(MHeader)
SIMPLE_DIFF(MArray)
SIMPLE_DIFF(MTargets)
SIMPLE_DIFF(MWave)
SIMPLE_DIFF(MCorr)
SIMPLE_DIFF(MPol)
SIMPLE_DIFF(MData)
std::string diff(const MTarg &a, const MTarg &b)
{
  Cmp c;
  cmp(c, a, b, true);
  return c.out;
}
std::string diff(const MDS &a, const MDS &b, const CmpOpt &o)
{
  Cmp c;
  if (o.header) { c.path = "header."; cmp(c, a.h, b.h, o); c.path = ""; }
  cmp(c, a.targets, b.targets, o);
  veccmp(c, "OI_ARRAY", a.arr, b.arr, [&](const MArray &x, const MArray &y) { cmp(c, x, y, o); });
  veccmp(c, "OI_WAVELENGTH", a.wave, b.wave, [&](const MWave &x, const MWave &y) { cmp(c, x, y, o); });
  veccmp(c, "OI_CORR", a.corr, b.corr, [&](const MCorr &x, const MCorr &y) { cmp(c, x, y, o); });
  veccmp(c, "OI_INSPOL", a.pol, b.pol, [&](const MPol &x, const MPol &y) { cmp(c, x, y, o); });
  for (int k = 0; k < 4; k++)
    veccmp(c, kindname[k], a.dat[k], b.dat[k], [&](const MData &x, const MData &y) { cmp(c, x, y, o); });
  return c.out;
}

// ---------------------------------------------------------------------------
template <size_t N> static void cpy(char (&d)[N], const std::string &s)
{
  if (s.size() >= N) fail("harness: string '%s' too long for field of %zu", s.c_str(), N);
  memset(d, 'Z', N); // nothing may depend on bytes beyond the terminator
  memcpy(d, s.c_str(), s.size() + 1);
}
template <size_t N> static std::string str(const char (&s)[N])
{
  size_t n = strnlen(s, N);
  if (n == N) fail("string field of %zu bytes is not terminated", N);
  return std::string(s, n);
}

oi_header to_c(const MHeader &h)
{
  oi_header o;
  cpy(o.origin, h.origin); cpy(o.date, h.date); cpy(o.date_obs, h.date_obs); cpy(o.content, h.content);
  cpy(o.telescop, h.telescop); cpy(o.instrume, h.instrume); cpy(o.observer, h.observer); cpy(o.insmode, h.insmode);
  cpy(o.object, h.object); cpy(o.referenc, h.referenc); cpy(o.author, h.author); cpy(o.prog_id, h.prog_id);
  cpy(o.procsoft, h.procsoft); cpy(o.obstech, h.obstech);
  return o;
}
MHeader from_c(const oi_header &o)
{
  MHeader h;
  h.origin = str(o.origin); h.date = str(o.date); h.date_obs = str(o.date_obs); h.content = str(o.content);
  h.telescop = str(o.telescop); h.instrume = str(o.instrume); h.observer = str(o.observer); h.insmode = str(o.insmode);
  h.object = str(o.object); h.referenc = str(o.referenc); h.author = str(o.author); h.prog_id = str(o.prog_id);
  h.procsoft = str(o.procsoft); h.obstech = str(o.obstech);
  return h;
}
oi_array *to_c(const MArray &a)
{
  oi_array *p = (oi_array *)malloc(sizeof *p);
  alloc_oi_array(p, a.elem.size());
  p->revision = a.rev;
  cpy(p->arrname, a.arrname);
  cpy(p->frame, a.frame);
  p->arrayx = a.x; p->arrayy = a.y; p->arrayz = a.z;
  for (size_t i = 0; i < a.elem.size(); i++)
  {
    element &e = p->elem[i];
    const MElem &m = a.elem[i];
    cpy(e.tel_name, m.tel_name);
    cpy(e.sta_name, m.sta_name);
    e.sta_index = m.sta_index;
    e.diameter = m.diameter;
    for (int k = 0; k < 3; k++) e.staxyz[k] = m.xyz[k];
    e.fov = m.fov;
    cpy(e.fovtype, m.fovtype);
  }
  return p;
}
MArray from_c(const oi_array &p)
{
  MArray a;
  a.rev = p.revision;
  a.arrname = str(p.arrname);
  a.frame = str(p.frame);
  a.x = p.arrayx; a.y = p.arrayy; a.z = p.arrayz;
  for (int i = 0; i < p.nelement; i++)
  {
    const element &e = p.elem[i];
    MElem m;
    m.tel_name = str(e.tel_name);
    m.sta_name = str(e.sta_name);
    m.sta_index = e.sta_index;
    m.diameter = e.diameter;
    for (int k = 0; k < 3; k++) m.xyz[k] = e.staxyz[k];
    m.fov = e.fov;
    m.fovtype = str(e.fovtype);
    a.elem.push_back(m);
  }
  return a;
}
void to_c(const MTargets &t, oi_target *p)
{
  alloc_oi_target(p, t.t.size());
  p->revision = t.rev;
  p->usecategory = t.usecategory;
  for (size_t i = 0; i < t.t.size(); i++)
  {
    target &c = p->targ[i];
    const MTarg &m = t.t[i];
    c.target_id = m.id;
    cpy(c.target, m.name);
    c.raep0 = m.raep0; c.decep0 = m.decep0; c.equinox = m.equinox;
    c.ra_err = m.ra_err; c.dec_err = m.dec_err; c.sysvel = m.sysvel;
    cpy(c.veltyp, m.veltyp); cpy(c.veldef, m.veldef);
    c.pmra = m.pmra; c.pmdec = m.pmdec; c.pmra_err = m.pmra_err; c.pmdec_err = m.pmdec_err;
    c.parallax = m.parallax; c.para_err = m.para_err;
    cpy(c.spectyp, m.spectyp);
    if (t.usecategory) cpy(c.category, m.category);
    else strcpy(c.category, "OLD"); // of no meaning
  }
}
MTarg from_c(const target &c)
{
  MTarg m;
  m.id = c.target_id;
  m.name = str(c.target);
  m.raep0 = c.raep0; m.decep0 = c.decep0; m.equinox = c.equinox;
  m.ra_err = c.ra_err; m.dec_err = c.dec_err; m.sysvel = c.sysvel;
  m.veltyp = str(c.veltyp); m.veldef = str(c.veldef);
  m.pmra = c.pmra; m.pmdec = c.pmdec; m.pmra_err = c.pmra_err; m.pmdec_err = c.pmdec_err;
  m.parallax = c.parallax; m.para_err = c.para_err;
  m.spectyp = str(c.spectyp);
  return m;
}
MTargets from_c(const oi_target &p)
{
  MTargets t;
  t.rev = p.revision;
  t.usecategory = p.usecategory;
  for (int i = 0; i < p.ntarget; i++)
  {
    MTarg m = from_c(p.targ[i]);
    if (t.usecategory) m.category = str(p.targ[i].category);
    t.t.push_back(m);
  }
  return t;
}
oi_wavelength *to_c(const MWave &w)
{
  oi_wavelength *p = (oi_wavelength *)malloc(sizeof *p);
  alloc_oi_wavelength(p, w.wave.size());
  p->revision = w.rev;
  cpy(p->insname, w.insname);
  for (size_t i = 0; i < w.wave.size(); i++) { p->eff_wave[i] = w.wave[i]; p->eff_band[i] = w.band[i]; }
  return p;
}
MWave from_c(const oi_wavelength &p)
{
  MWave w;
  w.rev = p.revision;
  w.insname = str(p.insname);
  w.wave.assign(p.eff_wave, p.eff_wave + p.nwave);
  w.band.assign(p.eff_band, p.eff_band + p.nwave);
  return w;
}
oi_corr *to_c(const MCorr &w)
{
  oi_corr *p = (oi_corr *)malloc(sizeof *p);
  alloc_oi_corr(p, w.i.size());
  p->revision = w.rev;
  p->ndata = w.ndata;
  cpy(p->corrname, w.corrname);
  for (size_t k = 0; k < w.i.size(); k++) { p->iindx[k] = w.i[k]; p->jindx[k] = w.j[k]; p->corr[k] = w.c[k]; }
  return p;
}
MCorr from_c(const oi_corr &p)
{
  MCorr w;
  w.rev = p.revision;
  w.corrname = str(p.corrname);
  w.ndata = p.ndata;
  w.i.assign(p.iindx, p.iindx + p.ncorr);
  w.j.assign(p.jindx, p.jindx + p.ncorr);
  w.c.assign(p.corr, p.corr + p.ncorr);
  return w;
}
oi_inspol *to_c(const MPol &m)
{
  oi_inspol *p = (oi_inspol *)malloc(sizeof *p);
  alloc_oi_inspol(p, m.rec.size(), m.nwave);
  p->revision = m.rev;
  cpy(p->date_obs, m.date_obs);
  p->npol = m.npol;
  cpy(p->arrname, m.arrname);
  cpy(p->orient, m.orient);
  cpy(p->model, m.model);
  for (size_t i = 0; i < m.rec.size(); i++)
  {
    oi_inspol_record &r = p->record[i];
    const MPolRec &x = m.rec[i];
    r.target_id = x.tid;
    cpy(r.insname, x.insname);
    r.mjd_obs = x.mjd_obs; r.mjd_end = x.mjd_end;
    r.sta_index = x.sta;
    float _Complex *j[4] = {r.jxx, r.jyy, r.jxy, r.jyx};
    for (int k = 0; k < 4; k++)
      for (int w = 0; w < m.nwave; w++)
      {
        float v[2] = {x.j[k][w].real(), x.j[k][w].imag()};
        memcpy(&j[k][w], v, sizeof v);
      }
  }
  return p;
}
MPol from_c(const oi_inspol &p)
{
  MPol m;
  m.rev = p.revision;
  m.date_obs = str(p.date_obs);
  m.npol = p.npol;
  m.arrname = str(p.arrname);
  m.orient = str(p.orient);
  m.model = str(p.model);
  m.nwave = p.nwave;
  for (long i = 0; i < p.numrec; i++)
  {
    const oi_inspol_record &r = p.record[i];
    MPolRec x;
    x.tid = r.target_id;
    x.insname = str(r.insname);
    x.mjd_obs = r.mjd_obs; x.mjd_end = r.mjd_end;
    x.sta = r.sta_index;
    float _Complex *j[4] = {r.jxx, r.jyy, r.jxy, r.jyx};
    for (int k = 0; k < 4; k++)
      for (int w = 0; w < p.nwave; w++)
      {
        float v[2];
        memcpy(v, &j[k][w], sizeof v);
        x.j[k].push_back(cf(v[0], v[1]));
      }
    m.rec.push_back(x);
  }
  return m;
}
static void put(double *d, const std::vector<double> &v) { for (size_t i = 0; i < v.size(); i++) d[i] = v[i]; }
static void putb(BOOL *d, const std::vector<char> &v) { for (size_t i = 0; i < v.size(); i++) d[i] = v[i]; }
static std::vector<double> get(const double *d, int n) { return std::vector<double>(d, d + n); }
static std::vector<char> getb(const BOOL *d, int n)
{
  std::vector<char> v(n);
  for (int i = 0; i < n; i++) v[i] = d[i] ? 1 : 0;
  return v;
}
template <class T> static T *head(const MData &m)
{
  T *p = (T *)malloc(sizeof *p);
  memset(p, 'Z', sizeof *p);
  p->revision = m.rev;
  cpy(p->date_obs, m.date_obs);
  cpy(p->arrname, m.arrname);
  cpy(p->insname, m.insname);
  cpy(p->corrname, m.corrname);
  return p;
}
template <class T> static MData unhead(const T &p, Kind k)
{
  MData m;
  m.kind = k;
  m.rev = p.revision;
  m.date_obs = str(p.date_obs);
  m.arrname = str(p.arrname);
  m.insname = str(p.insname);
  m.corrname = str(p.corrname);
  m.nwave = p.nwave;
  return m;
}
oi_vis *to_vis(const MData &m)
{
  oi_vis *p = head<oi_vis>(m);
  alloc_oi_vis(p, m.rec.size(), m.nwave);
  cpy(p->amptyp, m.amptyp);
  cpy(p->phityp, m.phityp);
  p->amporder = m.amporder; p->phiorder = m.phiorder;
  p->usevisrefmap = m.userefmap;
  p->usecomplex = m.usecomplex;
  // what is not in use holds anything
  cpy(p->complexunit, m.usecomplex ? m.complexunit : "junk");
  cpy(p->ampunit, m.amptyp == "correlated flux" ? m.ampunit : "junk");
  for (size_t i = 0; i < m.rec.size(); i++)
  {
    oi_vis_record &r = p->record[i];
    const MRec &x = m.rec[i];
    r.target_id = x.tid; r.time = x.time; r.mjd = x.mjd; r.int_time = x.int_time;
    put(r.visamp, x.col[0]); put(r.visamperr, x.col[1]); put(r.visphi, x.col[2]); put(r.visphierr, x.col[3]);
    if (!m.corrname.empty()) { r.corrindx_visamp = x.corrindx[0]; r.corrindx_visphi = x.corrindx[1]; }
    // Optional columns: as a client does, allocate what is used
    if (m.userefmap)
    {
      if (r.visrefmap) free(r.visrefmap);
      r.visrefmap = (BOOL *)malloc(x.refmap.size() + 1);
      putb(r.visrefmap, x.refmap);
    }
    if (m.usecomplex)
    {
      double **q[4] = {&r.rvis, &r.rviserr, &r.ivis, &r.iviserr};
      for (int k = 0; k < 4; k++)
      {
        if (*q[k]) free(*q[k]);
        *q[k] = (double *)malloc(m.nwave * sizeof(double) + 1);
        put(*q[k], x.col[4 + k]);
      }
      if (!m.corrname.empty()) { r.corrindx_rvis = x.corrindx[2]; r.corrindx_ivis = x.corrindx[3]; }
    }
    r.ucoord = x.uv[0]; r.vcoord = x.uv[1];
    r.sta_index[0] = x.sta[0]; r.sta_index[1] = x.sta[1];
    putb(r.flag, x.flag);
  }
  return p;
}
MData from_c(const oi_vis &p)
{
  MData m = unhead(p, VIS);
  m.amptyp = str(p.amptyp);
  m.phityp = str(p.phityp);
  m.amporder = p.amporder; m.phiorder = p.phiorder;
  m.userefmap = p.usevisrefmap;
  m.usecomplex = p.usecomplex;
  if (m.usecomplex) m.complexunit = str(p.complexunit);
  if (m.amptyp == "correlated flux") m.ampunit = str(p.ampunit);
  for (long i = 0; i < p.numrec; i++)
  {
    const oi_vis_record &r = p.record[i];
    MRec x;
    x.tid = r.target_id; x.time = r.time; x.mjd = r.mjd; x.int_time = r.int_time;
    x.col = {get(r.visamp, p.nwave), get(r.visamperr, p.nwave), get(r.visphi, p.nwave), get(r.visphierr, p.nwave)};
    if (!m.corrname.empty()) x.corrindx = {r.corrindx_visamp, r.corrindx_visphi};
    if (m.userefmap)
    {
      if (!r.visrefmap) fail("OI_VIS record claims VISREFMAP but has none");
      x.refmap = getb(r.visrefmap, p.nwave * p.nwave);
    }
    if (m.usecomplex)
    {
      if (!r.rvis || !r.rviserr || !r.ivis || !r.iviserr) fail("OI_VIS record claims complex data but has none");
      x.col.push_back(get(r.rvis, p.nwave)); x.col.push_back(get(r.rviserr, p.nwave));
      x.col.push_back(get(r.ivis, p.nwave)); x.col.push_back(get(r.iviserr, p.nwave));
      if (!m.corrname.empty()) { x.corrindx.push_back(r.corrindx_rvis); x.corrindx.push_back(r.corrindx_ivis); }
    }
    x.uv[0] = r.ucoord; x.uv[1] = r.vcoord;
    x.sta[0] = r.sta_index[0]; x.sta[1] = r.sta_index[1];
    x.flag = getb(r.flag, p.nwave);
    m.rec.push_back(x);
  }
  return m;
}
oi_vis2 *to_vis2(const MData &m)
{
  oi_vis2 *p = head<oi_vis2>(m);
  alloc_oi_vis2(p, m.rec.size(), m.nwave);
  for (size_t i = 0; i < m.rec.size(); i++)
  {
    oi_vis2_record &r = p->record[i];
    const MRec &x = m.rec[i];
    r.target_id = x.tid; r.time = x.time; r.mjd = x.mjd; r.int_time = x.int_time;
    put(r.vis2data, x.col[0]); put(r.vis2err, x.col[1]);
    if (!m.corrname.empty()) r.corrindx_vis2data = x.corrindx[0];
    r.ucoord = x.uv[0]; r.vcoord = x.uv[1];
    r.sta_index[0] = x.sta[0]; r.sta_index[1] = x.sta[1];
    putb(r.flag, x.flag);
  }
  return p;
}
MData from_c(const oi_vis2 &p)
{
  MData m = unhead(p, VIS2);
  for (long i = 0; i < p.numrec; i++)
  {
    const oi_vis2_record &r = p.record[i];
    MRec x;
    x.tid = r.target_id; x.time = r.time; x.mjd = r.mjd; x.int_time = r.int_time;
    x.col = {get(r.vis2data, p.nwave), get(r.vis2err, p.nwave)};
    if (!m.corrname.empty()) x.corrindx = {r.corrindx_vis2data};
    x.uv[0] = r.ucoord; x.uv[1] = r.vcoord;
    x.sta[0] = r.sta_index[0]; x.sta[1] = r.sta_index[1];
    x.flag = getb(r.flag, p.nwave);
    m.rec.push_back(x);
  }
  return m;
}
oi_t3 *to_t3(const MData &m)
{
  oi_t3 *p = head<oi_t3>(m);
  alloc_oi_t3(p, m.rec.size(), m.nwave);
  for (size_t i = 0; i < m.rec.size(); i++)
  {
    oi_t3_record &r = p->record[i];
    const MRec &x = m.rec[i];
    r.target_id = x.tid; r.time = x.time; r.mjd = x.mjd; r.int_time = x.int_time;
    put(r.t3amp, x.col[0]); put(r.t3amperr, x.col[1]); put(r.t3phi, x.col[2]); put(r.t3phierr, x.col[3]);
    if (!m.corrname.empty()) { r.corrindx_t3amp = x.corrindx[0]; r.corrindx_t3phi = x.corrindx[1]; }
    r.u1coord = x.uv[0]; r.v1coord = x.uv[1]; r.u2coord = x.uv[2]; r.v2coord = x.uv[3];
    for (int k = 0; k < 3; k++) r.sta_index[k] = x.sta[k];
    putb(r.flag, x.flag);
  }
  return p;
}
MData from_c(const oi_t3 &p)
{
  MData m = unhead(p, T3);
  for (long i = 0; i < p.numrec; i++)
  {
    const oi_t3_record &r = p.record[i];
    MRec x;
    x.tid = r.target_id; x.time = r.time; x.mjd = r.mjd; x.int_time = r.int_time;
    x.col = {get(r.t3amp, p.nwave), get(r.t3amperr, p.nwave), get(r.t3phi, p.nwave), get(r.t3phierr, p.nwave)};
    if (!m.corrname.empty()) x.corrindx = {r.corrindx_t3amp, r.corrindx_t3phi};
    x.uv[0] = r.u1coord; x.uv[1] = r.v1coord; x.uv[2] = r.u2coord; x.uv[3] = r.v2coord;
    for (int k = 0; k < 3; k++) x.sta[k] = r.sta_index[k];
    x.flag = getb(r.flag, p.nwave);
    m.rec.push_back(x);
  }
  return m;
}
oi_flux *to_flux(const MData &m)
{
  oi_flux *p = head<oi_flux>(m);
  alloc_oi_flux(p, m.rec.size(), m.nwave);
  p->fov = m.fovtype.empty() ? -99 : m.fov;
  cpy(p->fovtype, m.fovtype);
  p->calstat = m.calstat;
  cpy(p->fluxunit, m.fluxunit);
  for (size_t i = 0; i < m.rec.size(); i++)
  {
    oi_flux_record &r = p->record[i];
    const MRec &x = m.rec[i];
    r.target_id = x.tid; r.mjd = x.mjd; r.int_time = x.int_time;
    put(r.fluxdata, x.col[0]); put(r.fluxerr, x.col[1]);
    if (!m.corrname.empty()) r.corrindx_fluxdata = x.corrindx[0];
    r.sta_index = x.sta[0];
    putb(r.flag, x.flag);
  }
  return p;
}
MData from_c(const oi_flux &p)
{
  MData m = unhead(p, FLUX);
  m.fovtype = str(p.fovtype);
  m.fov = m.fovtype.empty() ? 0 : p.fov;
  m.calstat = p.calstat;
  m.fluxunit = str(p.fluxunit);
  for (long i = 0; i < p.numrec; i++)
  {
    const oi_flux_record &r = p.record[i];
    MRec x;
    x.tid = r.target_id; x.mjd = r.mjd; x.int_time = r.int_time;
    x.col = {get(r.fluxdata, p.nwave), get(r.fluxerr, p.nwave)};
    if (!m.corrname.empty()) x.corrindx = {r.corrindx_fluxdata};
    x.sta[0] = r.sta_index;
    x.flag = getb(r.flag, p.nwave);
    m.rec.push_back(x);
  }
  return m;
}

void to_c(const MDS &m, oi_fits *o, bool index)
{
  memset(o, 'Z', sizeof *o);
  init_oi_fits(o);
  o->header = to_c(m.h);
  to_c(m.targets, &o->targets);
  for (auto &x : m.arr)
  {
    oi_array *p = to_c(x);
    o->arrayList = g_list_append(o->arrayList, p);
    o->numArray++;
    if (index && !g_hash_table_lookup(o->arrayHash, p->arrname)) g_hash_table_insert(o->arrayHash, p->arrname, p);
  }
  for (auto &x : m.wave)
  {
    oi_wavelength *p = to_c(x);
    o->wavelengthList = g_list_append(o->wavelengthList, p);
    o->numWavelength++;
    if (index && !g_hash_table_lookup(o->wavelengthHash, p->insname)) g_hash_table_insert(o->wavelengthHash, p->insname, p);
  }
  for (auto &x : m.corr)
  {
    oi_corr *p = to_c(x);
    o->corrList = g_list_append(o->corrList, p);
    o->numCorr++;
    if (index && !g_hash_table_lookup(o->corrHash, p->corrname)) g_hash_table_insert(o->corrHash, p->corrname, p);
  }
  for (auto &x : m.pol) { o->inspolList = g_list_append(o->inspolList, to_c(x)); o->numInspol++; }
  for (auto &x : m.dat[VIS]) { o->visList = g_list_append(o->visList, to_vis(x)); o->numVis++; }
  for (auto &x : m.dat[VIS2]) { o->vis2List = g_list_append(o->vis2List, to_vis2(x)); o->numVis2++; }
  for (auto &x : m.dat[T3]) { o->t3List = g_list_append(o->t3List, to_t3(x)); o->numT3++; }
  for (auto &x : m.dat[FLUX]) { o->fluxList = g_list_append(o->fluxList, to_flux(x)); o->numFlux++; }
}
// every entry of an index names a table which is in the list, or nothing
template <class T> static void check_index(GHashTable *h, GList *list, const char *(*name)(const T *), const char *what)
{
  GHashTableIter it;
  gpointer key, value;
  g_hash_table_iter_init(&it, h);
  while (g_hash_table_iter_next(&it, &key, &value))
  {
    std::string k = (const char *)key; // must still be there to be read
    if (!value) continue;
    if (!g_list_find(list, value)) fail("index of %s tables has '%s', which is not in the dataset", what, k.c_str());
    if (k != name((const T *)value)) fail("index of %s tables gives '%s' for '%s'", what, name((const T *)value), k.c_str());
  }
}
MDS from_c(const oi_fits *o)
{
  MDS m;
  m.h = from_c(o->header);
  m.targets = from_c(o->targets);
  for (GList *l = o->arrayList; l; l = l->next) m.arr.push_back(from_c(*(oi_array *)l->data));
  for (GList *l = o->wavelengthList; l; l = l->next) m.wave.push_back(from_c(*(oi_wavelength *)l->data));
  for (GList *l = o->corrList; l; l = l->next) m.corr.push_back(from_c(*(oi_corr *)l->data));
  for (GList *l = o->inspolList; l; l = l->next) m.pol.push_back(from_c(*(oi_inspol *)l->data));
  for (GList *l = o->visList; l; l = l->next) m.dat[VIS].push_back(from_c(*(oi_vis *)l->data));
  for (GList *l = o->vis2List; l; l = l->next) m.dat[VIS2].push_back(from_c(*(oi_vis2 *)l->data));
  for (GList *l = o->t3List; l; l = l->next) m.dat[T3].push_back(from_c(*(oi_t3 *)l->data));
  for (GList *l = o->fluxList; l; l = l->next) m.dat[FLUX].push_back(from_c(*(oi_flux *)l->data));
  struct { const char *n; int num; size_t len; } c[] = {
      {"OI_ARRAY", o->numArray, m.arr.size()},     {"OI_WAVELENGTH", o->numWavelength, m.wave.size()},
      {"OI_CORR", o->numCorr, m.corr.size()},      {"OI_INSPOL", o->numInspol, m.pol.size()},
      {"OI_VIS", o->numVis, m.dat[VIS].size()},    {"OI_VIS2", o->numVis2, m.dat[VIS2].size()},
      {"OI_T3", o->numT3, m.dat[T3].size()},       {"OI_FLUX", o->numFlux, m.dat[FLUX].size()}};
  for (auto &x : c)
    if ((size_t)x.num != x.len) fail("dataset says it has %d %s tables but lists %zu", x.num, x.n, x.len);
  check_index<oi_array>(o->arrayHash, o->arrayList, [](const oi_array *p) -> const char * { return p->arrname; }, "OI_ARRAY");
  check_index<oi_wavelength>(o->wavelengthHash, o->wavelengthList, [](const oi_wavelength *p) -> const char * { return p->insname; }, "OI_WAVELENGTH");
  check_index<oi_corr>(o->corrHash, o->corrList, [](const oi_corr *p) -> const char * { return p->corrname; }, "OI_CORR");
  return m;
}

std::string summary(const MDS &m)
{
  std::string s = strf("{targets=%zu", m.targets.t.size());
  auto shp = [](const std::vector<MData> &v) {
    std::string r = "[";
    for (auto &d : v)
      r += strf("%s%zux%d%s%s%s", r.size() > 1 ? " " : "", d.rec.size(), d.nwave, d.corrname.empty() ? "" : "+corr",
                d.userefmap ? "+ref" : "", d.usecomplex ? "+cpx" : "");
    return r + "]";
  };
  if (m.arr.size())
  {
    s += " arr=[";
    for (auto &a : m.arr) s += strf("%s%zu", &a == &m.arr[0] ? "" : " ", a.elem.size());
    s += "]";
  }
  s += " wave=[";
  for (auto &a : m.wave) s += strf("%s%zu", &a == &m.wave[0] ? "" : " ", a.wave.size());
  s += "]";
  if (m.corr.size()) s += strf(" corr=%zu", m.corr.size());
  if (m.pol.size()) s += strf(" inspol=%zu", m.pol.size());
  const char *n[4] = {"vis", "vis2", "t3", "flux"};
  for (int k = 0; k < 4; k++)
    if (m.dat[k].size()) s += strf(" %s=", n[k]) + shp(m.dat[k]);
  return s + "}";
}
std::string dump(const MDS &m)
{
  std::string s = summary(m) + "\n";
  each(m.h, [&](const char *n, const std::string &v) { s += strf("  %s='%s'", n, v.c_str()); });
  s += "\n";
  for (auto &t : m.targets.t) s += strf("  target %d '%s'\n", t.id, t.name.c_str());
  for (auto &a : m.arr)
  {
    s += strf("  OI_ARRAY rev %d '%s' xyz=%g,%g,%g sta:", a.rev, a.arrname.c_str(), a.x, a.y, a.z);
    for (auto &e : a.elem) s += strf(" %d", e.sta_index);
    s += "\n";
  }
  for (auto &w : m.wave)
  {
    s += strf("  OI_WAVELENGTH rev %d '%s'", w.rev, w.insname.c_str());
    for (size_t i = 0; i < w.wave.size() && i < 12; i++) s += strf(" %g", w.wave[i]);
    s += "\n";
  }
  for (auto &c : m.corr) s += strf("  OI_CORR '%s' ncorr=%zu\n", c.corrname.c_str(), c.i.size());
  for (auto &p : m.pol)
  {
    s += strf("  OI_INSPOL arr '%s' nwave=%d recs:", p.arrname.c_str(), p.nwave);
    for (auto &r : p.rec) s += strf(" (t%d ins '%s' mjd %g-%g)", r.tid, r.insname.c_str(), r.mjd_obs, r.mjd_end);
    s += "\n";
  }
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      s += strf("  %s rev %d date '%s' arr '%s' ins '%s' corr '%s' nwave=%d\n", kindname[k], d.rev, d.date_obs.c_str(),
                d.arrname.c_str(), d.insname.c_str(), d.corrname.c_str(), d.nwave);
      for (size_t i = 0; i < d.rec.size() && i < 5; i++)
      {
        const MRec &r = d.rec[i];
        s += strf("    t%d mjd %.10g uv %g,%g,%g,%g", r.tid, r.mjd, r.uv[0], r.uv[1], r.uv[2], r.uv[3]);
        for (size_t c = 0; c < r.col.size(); c++)
        {
          s += strf(" %s=", kindcols[k][c].c_str());
          for (size_t w = 0; w < r.col[c].size() && w < 4; w++) s += strf("%s%g", w ? "," : "", r.col[c][w]);
        }
        s += " flag=";
        for (size_t w = 0; w < r.flag.size() && w < 8; w++) s += r.flag[w] ? "T" : "F";
        s += "\n";
      }
    }
  return s;
}

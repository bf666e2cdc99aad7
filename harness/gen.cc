#include "gen.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <set>

std::string gen_text(Gen &g, int maxlen, bool quotes, bool allow_empty)
{
  static const std::string plain = "aBcdEFgh0123456789_-+. xyzXYZ/:";
  static const std::string odd = "'\"&*?[]{}()=,;<>!@#$%^|~\\`";
  int n;
  switch (g.below(8))
  {
  case 0: n = 0; break;
  case 1: n = maxlen; break;
  case 2: n = std::max(0, maxlen - 1); break;
  case 3: n = (int)g.below(maxlen + 1); break;
  default: n = (int)g.below(std::min(maxlen, 10) + 1);
  }
  if (!allow_empty && n == 0) n = 1;
  std::string s;
  int enc = 0;
  for (int i = 0; i < n; i++)
  {
    char c = plain[g.below(plain.size())];
    if (quotes && g.chance(8)) c = odd[g.below(odd.size())];
    int cost = c == '\'' ? 2 : 1;
    if (enc + cost > maxlen) break;
    enc += cost;
    s += c;
  }
  // Trailing blanks do not survive in FITS; leading ones do
  while (!s.empty() && s.back() == ' ') s.pop_back();
  // A trailing '&' announces a continued string
  if (!s.empty() && s.back() == '&') s.back() = '+';
  if (!allow_empty && s.empty()) s = "s";
  return s;
}
std::string gen_name(Gen &g, const char *stem, int maxlen)
{
  switch (g.below(6))
  {
  case 0: case 1: return strf("%s%d", stem, g.range(0, 9));
  case 2: { std::string s = strf("%s_%03d", stem, g.range(0, 6)); return s; }
  case 3: { std::string s = stem; for (auto &c : s) c = tolower(c); return s + strf("%d", g.range(0, 9)); }
  case 4:
  {
    std::string s = strf("%s-", stem);
    int n = g.one({maxlen, maxlen - 1, 64, 65, 66, 67, 63, 32, 16});
    if (n > maxlen) n = maxlen;
    while ((int)s.size() < n - 1) s += 'x';
    s += (char)('0' + g.below(10));
    if ((int)s.size() > maxlen) s.resize(maxlen);
    return s;
  }
  default:
    if (g.chance(25)) return std::string(1, (char)('A' + g.below(3))); // a single character
    return gen_text(g, maxlen, true, false);
  }
}
double gen_double(Gen &g, bool wild)
{
  if (!wild)
  {
    switch (g.below(4))
    {
    case 0: return (double)g.range(-5, 5);
    case 1: return g.range(-1000, 1000) / 8.0;
    default: return (g.unit() - 0.5) * g.one({1.0, 2.0, 100.0, 1e6});
    }
  }
  switch (g.below(6))
  {
  case 0: return (double)g.range(-3, 3);
  case 1: return (g.unit() - 0.5) * g.one({1e-3, 1.0, 1e3, 1e9});
  case 2:
    return g.one({0.0, -0.0, std::nan(""), (double)INFINITY, -(double)INFINITY, 1.7976931348623157e308, -1e300, 1e-300,
                  2.2250738585072014e-308, 4503599627370497.0, 0.1, 1e22, 123456789.125});
  default:
  {
    uint64_t b = g.bits();
    int e = (b >> 52) & 0x7ff;
    if (e == 0 || e == 0x7ff) b = (b & ~(0x7ffULL << 52)) | (1023ULL << 52);
    double d;
    memcpy(&d, &b, 8);
    return d;
  }
  }
}
float gen_float(Gen &g, bool wild)
{
  if (!wild) return (float)gen_double(g, false);
  switch (g.below(4))
  {
  case 0: return (float)g.range(-3, 3);
  case 1: return (float)((g.unit() - 0.5) * 1e3);
  case 2: return g.one({0.f, -0.f, (float)NAN, INFINITY, -INFINITY, 3.4028235e38f, 1.17549435e-38f, 1e-30f, 16777217.f, 0.1f});
  default:
  {
    uint32_t b = (uint32_t)g.below(1ULL << 32);
    int e = (b >> 23) & 0xff;
    if (e == 0 || e == 0xff) b = (b & ~(0xffU << 23)) | (127U << 23);
    float d;
    memcpy(&d, &b, 4);
    return d;
  }
  }
}
double gen_mjd(Gen &g)
{
  switch (g.below(7))
  {
  case 6: { double d = 50000 + g.range(0, 8); return g.one({std::nextafter(d, 0.0), d - 1e-8, d - 1e-6, std::nextafter(d, 1e9), d + 1e-8}); } // midnight
  case 0: return 50000 + g.range(0, 8);
  case 1: return 50000 + g.range(0, 8) + g.range(0, 8) / 8.0;
  case 2: return g.one({0.0, 15385.0, 40587.0, 51544.5, 60000.0, 88068.0, 1.0, 99999.0});
  default: return 50000 + 8 * g.unit();
  }
}
std::string gen_date(Gen &g)
{
  static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int y = g.one({2000, 2004, 1999, 2018, 1995, 2024, 2000, 1901, 2099}), m = g.range(1, 12), d = g.range(1, dim[m - 1]);
  if (m == 2 && y % 4 == 0 && g.chance(20)) d = 29;
  return strf("%04d-%02d-%02d", y, m, d);
}

MHeader gen_header(Gen &g, const GenOpt &o)
{
  MHeader h;
  each(h, [&](const char *n, std::string &v) {
    bool opt = !strcmp(n, "REFERENC") || !strcmp(n, "AUTHOR") || !strcmp(n, "PROG_ID") || !strcmp(n, "PROCSOFT") ||
               !strcmp(n, "OBSTECH");
    if (opt && g.flip()) { v = ""; return; }
    v = gen_text(g, 68, o.quotes, !o.conforming && !opt);
  });
  h.content = "OIFITS2";
  h.date = gen_date(g);
  h.date_obs = gen_date(g);
  if (g.chance(30)) h.date_obs += "T12:34:56.789";
  return h;
}
MArray gen_array(Gen &g, const GenOpt &o, const std::string &name)
{
  MArray a;
  a.rev = o.version == 1 ? 1 : o.version == 2 ? 2 : g.range(1, 2);
  a.arrname = name;
  a.frame = o.wild ? gen_text(g, 68, o.quotes) : g.one<const char *>({"GEOCENTRIC", "SKY"});
  if (o.conforming) a.frame = "GEOCENTRIC";
  // keywords: values which 15 significant digits represent
  auto kw = [&]() {
    if (o.wild && g.chance(40)) return atof(strf("%.*G", g.range(1, 15), g.one({g.unit() - 0.5, 1e-3, 1.0, 1e6, 1e15}) * g.unit() * g.one({1e-300, 1e-9, 1e-3, 1.0, 1e9, 1e200})).c_str());
    return (double)g.range(-7000000, 7000000) + (g.flip() ? g.range(0, 999) / 1000.0 : 0);
  };
  a.x = kw(); a.y = kw(); a.z = kw();
  int n = (o.empties && g.chance(8)) ? 0 : g.skew(o.minelem, o.maxelem);
  std::set<int> used;
  int base = g.one({1, 1, 1, 0, 100, 32767 - 4 * o.maxelem});
  for (int i = 0; i < n; i++)
  {
    MElem e;
    e.tel_name = gen_text(g, 16, o.quotes);
    e.sta_name = gen_text(g, 16, o.quotes, !o.conforming);
    if (o.conforming) e.tel_name += "T", e.tel_name.resize(std::min<size_t>(16, e.tel_name.size()));
    int s = base + (int)g.below(2 * o.maxelem);
    while (used.count(s)) s++;
    used.insert(s);
    e.sta_index = s;
    e.diameter = o.wild ? gen_float(g, true) : (float)g.range(1, 40) / 4;
    for (double &v : e.xyz) v = o.wild ? gen_double(g, true) : (double)g.range(-200, 200) / 2;
    e.fov = o.wild ? gen_double(g, true) : g.range(1, 16) / 8.0;
    e.fovtype = o.conforming ? g.one<const char *>({"FWHM", "RADIUS"}) : gen_text(g, 6, o.quotes);
    if (a.rev == 1) { e.fov = std::nan(""); e.fovtype = "FWHM"; }
    a.elem.push_back(e);
  }
  return a;
}
MTarg gen_targ(Gen &g, const GenOpt &o, int id, const std::string &name)
{
  MTarg t;
  t.id = id;
  t.name = name;
  double *d[] = {&t.raep0, &t.decep0, &t.ra_err, &t.dec_err, &t.sysvel, &t.pmra, &t.pmdec, &t.pmra_err, &t.pmdec_err};
  for (auto p : d) *p = gen_double(g, o.wild);
  t.equinox = o.wild ? gen_float(g, true) : 2000.f;
  t.parallax = gen_float(g, o.wild);
  t.para_err = gen_float(g, o.wild);
  t.veltyp = o.conforming ? g.one<const char *>({"LSR", "HELIOCEN", "BARYCENT", "GEOCENTR", "TOPOCENT"}) : gen_text(g, 8, o.quotes);
  t.veldef = o.conforming ? g.one<const char *>({"RADIO", "OPTICAL"}) : gen_text(g, 8, o.quotes);
  t.spectyp = gen_text(g, 32, o.quotes);
  t.category = "";
  return t;
}
MTargets gen_targets(Gen &g, const GenOpt &o)
{
  MTargets t;
  t.rev = o.version == 1 ? 1 : o.version == 2 ? 2 : g.range(1, 2);
  t.usecategory = t.rev == 2 && g.chance(40);
  int n = (o.empties && g.chance(4)) ? 0 : g.skew(o.mintarg, o.maxtarg);
  std::set<int> ids;
  std::set<std::string> names;
  int base = g.one({1, 1, 1, 2, 100, 32767 - 4 * o.maxtarg});
  if (!o.conforming && g.chance(8)) base = 0;
  for (int i = 0; i < n; i++)
  {
    int id = base + (g.chance(70) ? i : (int)g.below(3 * o.maxtarg));
    while (ids.count(id)) id++;
    ids.insert(id);
    std::string nm = g.chance(60) ? strf("T%d", g.range(0, 9)) : gen_text(g, 32, o.quotes, false);
    while (names.count(nm)) nm = strf("T%d", (int)names.size() + 10 * g.range(1, 9));
    names.insert(nm);
    MTarg m = gen_targ(g, o, id, nm);
    if (t.usecategory) m.category = o.conforming ? g.one<const char *>({"SCI", "CAL"}) : gen_text(g, 3, o.quotes);
    t.t.push_back(m);
  }
  return t;
}
MWave gen_wave(Gen &g, const GenOpt &o, const std::string &name)
{
  MWave w;
  w.rev = o.version == 1 ? 1 : o.version == 2 ? 2 : g.range(1, 2);
  w.insname = name;
  int n = (o.empties && g.chance(4)) ? 0 : g.skew(o.minwave, o.maxwave);
  if (o.bigwave && g.chance(o.bigwave)) n = g.one({40, 64, 100, 130, 999, 1000, 1001});
  int mode = (int)g.below(3);
  const float band = g.chance(20) ? g.one({8.f, 16.f, 0.25f, 1e-4f, 1e4f}) : 1; // other than near infrared
  for (int i = 0; i < n; i++)
  {
    if (o.wild) { w.wave.push_back(gen_float(g, true)); w.band.push_back(gen_float(g, true)); continue; }
    // micron-scale, ascending, descending or arbitrary order, with repeats of
    // the values which filters use as limits
    float v;
    if (mode == 0) v = 1e-6f + 0.25e-6f * i;
    else if (mode == 1) v = 5e-6f - 0.25e-6f * (i % 16);
    else v = g.chance(40) ? 9.5367431640625e-07f * g.one({0.5f, 1.f, 2.f, 4.f}) : 0.25e-6f * g.range(2, 20);
    w.wave.push_back(v * band);
    w.band.push_back(1e-8f * g.range(1, 40));
  }
  return w;
}
MCorr gen_corr(Gen &g, const GenOpt &o, const std::string &name)
{
  MCorr c;
  c.corrname = name;
  int n = (o.empties && g.chance(8)) ? 0 : o.many && g.chance(o.many) ? g.one({40, 300, 2000}) : g.skew(1, 12);
  c.ndata = g.range(2, 5000);
  for (int i = 0; i < n; i++)
  {
    c.i.push_back(g.range(1, c.ndata));
    c.j.push_back(o.wild && g.chance(10) ? (int)g.one({0x7fffffff, -0x7fffffff, 65536, 32768}) : g.range(1, c.ndata));
    c.c.push_back(gen_double(g, o.wild));
  }
  return c;
}
// a wavelength table with channels (a zero repeat count cannot be written)
static const MWave &pick_wave(Gen &g, const MDS &m)
{
  std::vector<int> ok;
  for (size_t i = 0; i < m.wave.size(); i++)
    if (!m.wave[i].wave.empty()) ok.push_back(i);
  return m.wave[g.pick(ok)];
}
MPol gen_pol(Gen &g, const GenOpt &o, const MDS &m)
{
  MPol p;
  p.date_obs = gen_date(g);
  p.npol = g.range(1, 4);
  p.arrname = m.arr.empty() ? "" : g.pick(m.arr).arrname;
  p.orient = o.conforming ? "NORTH" : gen_text(g, 68, o.quotes);
  p.model = o.conforming ? "Modeled" : gen_text(g, 68, o.quotes);
  const MWave &w = pick_wave(g, m);
  p.nwave = w.wave.size();
  // all instruments named by one table have the same number of channels
  std::vector<std::string> ins;
  for (auto &x : m.wave)
    if ((int)x.wave.size() == p.nwave) ins.push_back(x.insname);
  const MArray *a = find_array(m, p.arrname);
  int n = (o.empties && g.chance(8)) ? 0 : g.skew(o.minrec, o.maxrec);
  if (m.targets.t.empty()) n = 0;
  for (int i = 0; i < n; i++)
  {
    MPolRec r;
    r.tid = g.pick(m.targets.t).id;
    r.insname = g.pick(ins);
    r.mjd_obs = gen_mjd(g);
    r.mjd_end = r.mjd_obs + g.range(0, 8) / 8.0;
    for (auto &v : r.j)
      for (int w2 = 0; w2 < p.nwave; w2++) v.push_back(cf(gen_float(g, o.wild), gen_float(g, o.wild)));
    r.sta = a && !a->elem.empty() ? g.pick(a->elem).sta_index : g.range(1, 8);
    p.rec.push_back(r);
  }
  return p;
}
static double baseline_coord(Gen &g)
{
  switch (g.below(4))
  {
  case 0: return g.one({0.0, 3.0, 4.0, -3.0, -4.0, 6.0, 8.0, -8.0, 12.0, 5.0});
  case 1: return g.range(-100, 100);
  default: return (g.unit() - 0.5) * 300;
  }
}
MData gen_data(Gen &g, const GenOpt &o, const MDS &m, Kind k)
{
  MData d;
  d.kind = k;
  d.rev = k == FLUX ? 1 : o.version == 1 ? 1 : o.version == 2 ? 2 : g.range(1, 2);
  bool v2 = d.rev == 2 || k == FLUX;
  d.date_obs = gen_date(g);
  const MWave &w = pick_wave(g, m);
  d.insname = w.insname;
  d.nwave = w.wave.size();
  bool wantarr = o.arrname_always || g.chance(80);
  if (!m.arr.empty() && wantarr) d.arrname = g.pick(m.arr).arrname;
  if (v2 && !m.corr.empty() && g.flip()) d.corrname = g.pick(m.corr).corrname;
  if (k == VIS && v2)
  {
    d.amptyp = g.one<const char *>({"", "absolute", "differential", "correlated flux", "correlated flux"});
    d.phityp = g.one<const char *>({"", "absolute", "differential"});
    if (o.wild && g.chance(15)) d.amptyp = gen_text(g, 68, o.quotes);
    if (o.wild && g.chance(15)) d.phityp = gen_text(g, 68, o.quotes);
    d.amporder = g.range(-1, 3);
    d.phiorder = g.range(-1, 3);
    d.userefmap = (d.nwave <= 40 || (d.nwave <= 300 && g.chance(15))) && g.flip();
    d.usecomplex = g.flip();
    if (o.conforming)
    {
      bool diff = d.amptyp == "differential" || d.phityp == "differential";
      d.userefmap = diff && d.nwave <= 40;
      if (diff && !d.userefmap) d.amptyp = d.phityp = "absolute";
    }
    if (d.usecomplex) d.complexunit = o.wild ? gen_text(g, 68, o.quotes) : g.one<const char *>({"", "Jy"});
    if (d.amptyp == "correlated flux") d.ampunit = o.wild ? gen_text(g, 68, o.quotes, false) : "Jy";
  }
  if (k == FLUX)
  {
    d.fovtype = g.one<const char *>({"", "FWHM", "RADIUS"});
    if (!o.conforming && g.chance(10)) d.fovtype = gen_text(g, g.one({1, 6, 68}), o.quotes);
    if (!d.fovtype.empty()) d.fov = g.chance(20) ? g.one({0.0, -1.0, 1e-9, 1e12, 0.015625}) : g.range(1, 999) / 8.0;
    d.calstat = d.arrname.empty() ? 'C' : g.one({'U', 'C'});
    if (o.conforming && !d.arrname.empty()) d.calstat = 'U';
    if (o.conforming && d.calstat == 'C' && d.fovtype.empty()) { d.fovtype = "FWHM"; d.fov = 1; }
    if (o.conforming && d.calstat == 'U') { d.fovtype = ""; d.fov = 0; }
    d.fluxunit = o.wild ? gen_text(g, 68, o.quotes) : "Jy";
  }
  const MArray *a = find_array(m, d.arrname);
  int n = (o.empties && g.chance(8)) ? 0 : g.skew(o.minrec, o.maxrec);
  if (o.bigrec && g.chance(o.bigrec)) n = g.range(12, 60);
  if (m.targets.t.empty()) n = 0;
  int ncol = k == VIS && !d.usecomplex ? 4 : (int)kindcols[k].size();
  int ncorr = d.corrname.empty() ? 0 : k == VIS && !d.usecomplex ? 2 : (int)kindcorr[k].size();
  bool flags = g.chance(60);
  for (int i = 0; i < n; i++)
  {
    MRec r;
    r.tid = g.pick(m.targets.t).id;
    if (k != FLUX) r.time = o.conforming ? 0 : (d.rev == 1 || o.wild) && g.flip() ? g.range(0, 86400) : 0;
    r.mjd = o.wild && g.chance(20) ? gen_double(g, true) : gen_mjd(g);
    r.int_time = gen_double(g, o.wild);
    bool rowspecial = g.chance(10);
    for (int c = 0; c < ncol; c++)
    {
      std::vector<double> v;
      bool err = c % 2 == 1;
      for (int ch = 0; ch < d.nwave; ch++)
      {
        double x;
        if (o.wild) x = gen_double(g, true);
        else if (err) x = g.one({0.125, 0.25, 0.5, 1.0, 2.0, 0.1, 20.0, 10.0, 25.0});
        else x = g.chance(50) ? g.range(-8, 40) / 8.0 : gen_double(g, false);
        if (!o.wild && o.nan && rowspecial && g.chance(20)) x = g.one({(double)NAN, 0.0});
        v.push_back(x);
      }
      r.col.push_back(v);
    }
    for (int c = 0; c < ncorr; c++) r.corrindx.push_back(o.wild && g.chance(10) ? g.one({0x7fffffff, -5, 40000, 70000}) : g.range(1, 5000));
    if (d.userefmap)
      {
      bool big = d.nwave > 40;
      int a = g.range(1, 97), b = g.range(2, 89); // no separate choice for each of very many
      for (int c = 0; c < d.nwave * d.nwave; c++) r.refmap.push_back(big ? (char)((c * a / b + c / 7) % 2) : (char)g.below(2));
    }
    for (int c = 0; c < nuv(k); c++) r.uv[c] = o.wild && g.chance(30) ? gen_double(g, true) : baseline_coord(g);
    for (int c = 0; c < nsta(k); c++) r.sta[c] = a && !a->elem.empty() ? g.pick(a->elem).sta_index : g.range(1, 9);
    if (k == FLUX && d.arrname.empty()) r.sta[0] = -1;
    bool allf = flags && g.chance(25);
    for (int ch = 0; ch < d.nwave; ch++) r.flag.push_back(allf || (flags && g.chance(30)) ? 1 : 0);
    d.rec.push_back(r);
  }
  return d;
}
const MArray *find_array(const MDS &m, const std::string &n)
{
  for (auto &a : m.arr) if (a.arrname == n) return &a;
  return nullptr;
}
const MWave *find_wave(const MDS &m, const std::string &n)
{
  for (auto &a : m.wave) if (a.insname == n) return &a;
  return nullptr;
}
const MCorr *find_corr(const MDS &m, const std::string &n)
{
  for (auto &a : m.corr) if (a.corrname == n) return &a;
  return nullptr;
}
const MTarg *find_targ(const MDS &m, int id)
{
  for (auto &t : m.targets.t) if (t.id == id) return &t;
  return nullptr;
}
template <class F> static std::vector<std::string> uniq_names(Gen &g, const char *stem, int n, F ok)
{
  std::set<std::string> s;
  std::vector<std::string> v;
  for (int i = 0; i < n; i++)
  {
    std::string x = gen_name(g, stem);
    int k = 10;
    while (s.count(x) || !ok(x)) x = strf("%s%d", stem, k++);
    s.insert(x);
    v.push_back(x);
  }
  return v;
}
MDS gen_ds(Gen &g, const GenOpt &opt)
{
  MDS m;
  GenOpt o = opt;
  int npol = 2;
  bool huge = o.huge && (int)g.below(10000) < o.huge;
  if (huge)
  {
    o.many = o.bigwave = o.bigrec = 0;
    o.maxtab = o.maxrec = o.maxwave = 2;
    o.empties = false;
  }
  if (o.many && g.chance(o.many))
  {
    // a lot of one thing and little of the others
    o.many = o.bigwave = o.bigrec = 0;
    o.maxtab = o.maxrec = o.maxwave = 2;
    switch (g.below(6))
    {
    case 0: o.maxtab = g.one({11, 20, 40}); o.maxelem = 3; break;
    case 1: o.maxrec = g.one({80, 300, 1100}); o.minrec = g.chance(50) ? o.maxrec - 10 : 1; o.maxtab = 1; break;
    case 2: o.maxwave = g.one({33, 70, 140, 270}); o.minwave = g.chance(50) ? o.maxwave - 10 : 1; o.maxtab = 1; break;
    case 3: o.maxelem = g.one({20, 70, 300}); o.minelem = g.chance(50) ? o.maxelem - 10 : 1; o.maxtab = 1; break;
    case 4: o.maxtarg = g.one({20, 70, 300}); o.mintarg = g.chance(50) ? o.maxtarg - 10 : 1; o.maxrec = 20; break;
    case 5: npol = g.one({5, 12, 30}); break;
    }
    g.label("a lot of something");
  }
  auto any = [](const std::string &) { return true; };
  m.h = gen_header(g, o);
  m.targets = gen_targets(g, o);
  int na = o.arrname_always ? g.skew(1, o.maxtab) : g.skew(0, o.maxtab);
  if (o.version == 1 || o.version == 0) na = g.skew(0, o.maxtab);
  for (auto &n : uniq_names(g, "ARR", na, any)) m.arr.push_back(gen_array(g, o, n));
  for (auto &n : uniq_names(g, "INS", g.skew(1, o.maxtab), any)) m.wave.push_back(gen_wave(g, o, n));
  if (m.wave[0].wave.empty()) { GenOpt n = o; n.empties = false; m.wave[0] = gen_wave(g, n, m.wave[0].insname); }
  if (o.version != 1 && o.corr)
    for (auto &n : uniq_names(g, "CORR", g.skew(0, o.maxtab), any)) m.corr.push_back(gen_corr(g, o, n));
  if (o.version != 1 && o.inspol && !m.arr.empty())
  {
    int n = g.skew(0, npol);
    for (int i = 0; i < n; i++) m.pol.push_back(gen_pol(g, o, m));
  }
  int total = 0;
  for (int k = 0; k < 4; k++)
  {
    if (k == FLUX && (o.version == 1 || !o.flux)) continue;
    int n = g.skew(0, o.maxtab);
    for (int i = 0; i < n; i++) m.dat[k].push_back(gen_data(g, o, m, (Kind)k));
    total += n;
  }
  if (o.data && total == 0)
  {
    Kind k = (Kind)g.below(3);
    m.dat[k].push_back(gen_data(g, o, m, k));
  }
  if (huge)
  {
    std::vector<MData *> v;
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k]) if (!d.rec.empty()) v.push_back(&d);
    if (v.empty()) return m;
    MData &d = *g.pick(v);
    size_t n = g.one({33000, 66000, 66000}), n0 = d.rec.size();
    for (size_t i = n0; i < n; i++)
    {
      MRec r = d.rec[i % n0];
      r.mjd += (i % 1024) / 1024.0;
      if (!r.flag.empty()) r.flag[0] = (i / 7) % 2;
      d.rec.push_back(r);
    }
    g.label("more records than 16 bits can count");
  }
  return m;
}
MDS upgraded(const MDS &m)
{
  MDS u = m;
  u.h.content = "OIFITS2";
  u.targets.rev = 2;
  if (u.targets.t.empty()) u.targets.usecategory = false;
  for (auto &a : u.arr) a.rev = 2;
  for (auto &a : u.wave) a.rev = 2;
  for (auto &a : u.corr) a.rev = 1;
  for (auto &a : u.pol) a.rev = 1;
  for (int k = 0; k < 4; k++)
    for (auto &d : u.dat[k])
    {
      d.rev = k == FLUX ? 1 : 2;
      for (auto &r : d.rec) r.time = 0;
    }
  return u;
}
bool interesting(const MDS &m)
{
  size_t tabs = 0, recs = 0;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k]) { tabs++; recs += d.rec.size(); }
  return tabs >= 2 && recs >= 3;
}

#include "ref_check.h"
#include <cmath>
#include <set>

const char *const level_desc[4] = {"No error", "Valid OIFITS, but may cause problems for some reading software", "Does not conform to the OIFITS standard",
                                   "Does not conform to the FITS standard"};
static void add(Verdict &v, int level, const std::string &loc)
{
  v.level = std::max(v.level, level);
  v.loc.push_back(loc.substr(0, FLEN_VALUE - 1));
}
static bool two(const MDS &m) { return m.h.content == "OIFITS2"; }
static std::string num(const char *t, size_t i) { return strf("%s #%zu", t, i + 1); }
static std::string rec(int k, size_t i, size_t r) { return strf("%s #%zu record %zu", kindname[k], i + 1, r + 1); }

static Verdict m_tables(const MDS &m)
{
  Verdict v;
  bool t = two(m);
  if (t && m.arr.empty()) add(v, 2, "No OI_ARRAY table - at least one required");
  if (m.wave.empty()) add(v, 2, "No OI_WAVELENGTH table - at least one required");
  bool any = !m.dat[0].empty() || !m.dat[1].empty() || !m.dat[2].empty() || (t && !m.dat[3].empty());
  if (!any) add(v, 2, t ? "No data table - at least one OI_VIS/VIS2/T3/FLUX required" : "No data table - at least one OI_VIS/VIS2/T3 required");
  int r = t ? 2 : 1;
  auto bad = [&](const auto &list, const char *n, int want) {
    for (size_t i = 0; i < list.size(); i++)
      if (list[i].rev != want) add(v, 2, num(n, i) + " has invalid OI_REVN");
  };
  if (m.targets.rev != r) add(v, 2, "OI_TARGET has invalid OI_REVN");
  bad(m.arr, "OI_ARRAY", r);
  bad(m.wave, "OI_WAVELENGTH", r);
  for (int k = 0; k < 3; k++) bad(m.dat[k], kindname[k], r);
  if (t)
  {
    bad(m.dat[FLUX], "OI_FLUX", 1);
    bad(m.corr, "OI_CORR", 1);
    bad(m.pol, "OI_INSPOL", 1);
  }
  return v;
}
static Verdict m_header(const MDS &m)
{
  Verdict v;
  if (!two(m)) return v;
  const std::set<std::string> optional = {"REFERENC", "AUTHOR", "PROG_ID", "PROCSOFT", "OBSTECH"};
  // order of the report
  const char *order[] = {"ORIGIN", "DATE", "DATE-OBS", "CONTENT", "TELESCOP", "INSTRUME", "OBSERVER", "INSMODE", "OBJECT"};
  for (auto n : order)
    each(m.h, [&](const char *k, const std::string &s) {
      if (std::string(k) == n && s.empty()) add(v, 2, std::string(n) + " value missing from primary header");
    });
  return v;
}
static Verdict m_keywords(const MDS &m)
{
  Verdict v;
  for (size_t i = 0; i < m.arr.size(); i++)
    if (m.arr[i].frame != "GEOCENTRIC" && m.arr[i].frame != "SKY")
      add(v, 2, num("OI_ARRAY", i) + " FRAME='" + m.arr[i].frame + "' ('GEOCENTRIC'/'SKY')");
  for (size_t i = 0; i < m.dat[VIS].size() && two(m); i++)
  {
    const MData &d = m.dat[VIS][i];
    if (d.amptyp != "" && d.amptyp != "absolute" && d.amptyp != "differential" && d.amptyp != "correlated flux")
      add(v, 2, num("OI_VIS", i) + " AMPTYP='" + d.amptyp + "' ('absolute'/'differential'/'correlated flux')");
    if (d.phityp != "" && d.phityp != "absolute" && d.phityp != "differential")
      add(v, 2, num("OI_VIS", i) + " PHITYP='" + d.phityp + "' ('absolute'/'differential')");
  }
  for (size_t i = 0; i < m.dat[FLUX].size(); i++)
  {
    const MData &d = m.dat[FLUX][i];
    if (d.calstat != 'C' && d.calstat != 'U') add(v, 2, num("OI_FLUX", i) + strf(" CALSTAT='%c' ('C'/'U')", d.calstat));
    if (d.fovtype != "" && d.fovtype != "FWHM" && d.fovtype != "RADIUS")
      add(v, 2, num("OI_FLUX", i) + " FOVTYPE='" + d.fovtype + "' ('FWHM', 'RADIUS')");
  }
  return v;
}
static Verdict m_refmap(const MDS &m)
{
  Verdict v;
  for (size_t i = 0; i < m.dat[VIS].size(); i++)
  {
    const MData &d = m.dat[VIS][i];
    bool diff = d.amptyp == "differential" || d.phityp == "differential";
    std::string s = num("OI_VIS", i) + " AMPTYP='" + d.amptyp + "' PHITYP='" + d.phityp + "' has ";
    if (diff && !d.userefmap) add(v, 2, s + "no VISREFMAP");
    if (!diff && d.userefmap) add(v, 1, s + "VISREFMAP");
  }
  return v;
}
static Verdict m_unique(const MDS &m)
{
  Verdict v;
  std::set<std::string> seen;
  for (auto &t : m.targets.t)
    if (!seen.insert(t.name).second) add(v, 1, strf("TARGET_ID=%d  TARGET='%s'", t.id, t.name.c_str()));
  return v;
}
static Verdict m_targets(const MDS &m)
{
  Verdict v;
  for (int k = 0; k < 4; k++)
    for (size_t i = 0; i < m.dat[k].size(); i++)
      for (size_t r = 0; r < m.dat[k][i].rec.size(); r++)
        if (!find_targ(m, m.dat[k][i].rec[r].tid)) add(v, 2, rec(k, i, r));
  return v;
}
static Verdict m_arrname(const MDS &m)
{
  Verdict v;
  if (!two(m)) return v;
  for (size_t i = 0; i < m.pol.size(); i++)
    if (m.pol[i].arrname.empty()) add(v, 2, num("OI_INSPOL", i));
  for (int k = 0; k < 4; k++)
    for (size_t i = 0; i < m.dat[k].size(); i++)
      if (m.dat[k][i].arrname.empty() && (k != FLUX || m.dat[k][i].calstat == 'U')) add(v, 2, num(kindname[k], i));
  return v;
}
static Verdict m_elements(const MDS &m)
{
  Verdict v;
  auto has = [&](const std::string &a, int s) {
    const MArray *p = find_array(m, a);
    if (p) for (auto &e : p->elem) if (e.sta_index == s) return true;
    return false;
  };
  for (size_t i = 0; i < m.pol.size(); i++)
  {
    if (m.pol[i].arrname.empty()) { add(v, 2, num("OI_INSPOL", i) + " has no ARRNAME"); continue; }
    for (size_t r = 0; r < m.pol[i].rec.size(); r++)
      if (!has(m.pol[i].arrname, m.pol[i].rec[r].sta)) add(v, 2, num("OI_INSPOL", i) + strf(" record %zu", r + 1));
  }
  for (int k = 0; k < 4; k++)
    for (size_t i = 0; i < m.dat[k].size(); i++)
    {
      const MData &d = m.dat[k][i];
      if (d.arrname.empty()) continue;
      for (size_t r = 0; r < d.rec.size(); r++)
        for (int s = 0; s < nsta(k); s++)
        {
          if (k == FLUX && d.rec[r].sta[s] == -1) continue;
          if (!has(d.arrname, d.rec[r].sta[s])) add(v, 2, rec(k, i, r));
        }
    }
  return v;
}
static Verdict m_corr(const MDS &m)
{
  Verdict v;
  for (int k = 0; k < 4; k++)
    for (size_t i = 0; i < m.dat[k].size(); i++)
      if (!m.dat[k][i].corrname.empty() && !find_corr(m, m.dat[k][i].corrname)) add(v, 2, num(kindname[k], i));
  return v;
}
static Verdict m_flagging(const MDS &m)
{
  Verdict v;
  for (int k = 0; k < 3; k++)
    for (size_t i = 0; i < m.dat[k].size(); i++)
      for (size_t r = 0; r < m.dat[k][i].rec.size(); r++)
      {
        const MRec &q = m.dat[k][i].rec[r];
        for (int c = 0; c < m.dat[k][i].nwave; c++)
          if (!q.flag[c] && (q.col[1][c] < 0 || (k != VIS2 && q.col[3][c] < 0))) add(v, 2, rec(k, i, r) + strf(" channel %d", c + 1));
      }
  return v;
}
static Verdict m_t3amp(const MDS &m)
{
  Verdict v;
  for (size_t i = 0; i < m.dat[T3].size(); i++)
    for (size_t r = 0; r < m.dat[T3][i].rec.size(); r++)
    {
      const MRec &q = m.dat[T3][i].rec[r];
      for (int c = 0; c < m.dat[T3][i].nwave; c++)
        if (!q.flag[c] && q.col[0][c] - 1.0 > q.col[1][c]) add(v, 2, rec(T3, i, r) + strf(" channel %d", c + 1));
    }
  return v;
}
static Verdict m_waveorder(const MDS &m)
{
  Verdict v;
  for (auto &w : m.wave)
    for (size_t i = 1; i < w.wave.size(); i++)
      if (w.wave[i] < w.wave[i - 1] || (i + 1 < w.wave.size() && w.wave[i] > w.wave[i + 1]))
        add(v, 1, strf("OI_WAVELENGTH INSNAME=%s channel %zu", w.insname.c_str(), i + 1));
  return v;
}
static Verdict m_time(const MDS &m)
{
  Verdict v;
  for (int k = 0; k < 3 && two(m); k++)
    for (size_t i = 0; i < m.dat[k].size(); i++)
      for (size_t r = 0; r < m.dat[k][i].rec.size(); r++)
        if (std::fabs(m.dat[k][i].rec[r].time) > 1e-10) add(v, 1, rec(k, i, r));
  return v;
}
static Verdict m_flux(const MDS &m)
{
  Verdict v;
  for (size_t i = 0; i < m.dat[FLUX].size(); i++)
  {
    const MData &d = m.dat[FLUX][i];
    std::string s = num("OI_FLUX", i);
    bool sta = !d.rec.empty() && d.rec[0].sta[0] != -1;
    if (d.calstat == 'C')
    {
      if (!d.arrname.empty()) add(v, 2, s + " Calibrated but ARRNAME='" + d.arrname + "'");
      if (sta) add(v, 2, s + " Calibrated but STA_INDEX present");
    }
    if (d.calstat == 'U')
    {
      if (d.arrname.empty()) add(v, 2, s + " Uncalibrated but ARRNAME missing");
      if (!d.rec.empty() && !sta) add(v, 2, s + " Uncalibrated but STA_INDEX missing");
      if (!d.fovtype.empty()) add(v, 2, s + " Uncalibrated but FOVTYPE present");
    }
  }
  return v;
}
const std::vector<CheckDef> all_checks = {
  {"tables", "Mandatory table missing or invalid OI_REVN", check_tables, m_tables},
  {"header", "Invalid/missing primary header keyword value", check_header, m_header},
  {"keywords", "Invalid keyword value", check_keywords, m_keywords},
  {"visrefmap", "VISREFMAP present (missing) for absolute (differential) vis", check_visrefmap, m_refmap},
  {"unique targets", "Duplicate value in TARGET column of OI_TARGET", check_unique_targets, m_unique},
  {"targets present", "Reference to missing target record", check_targets_present, m_targets},
  {"arrname", "ARRNAME missing", check_arrname, m_arrname},
  {"elements present", "Reference to missing array element", check_elements_present, m_elements},
  {"corr present", "Reference to missing OI_CORR table", check_corr_present, m_corr},
  {"flagging", "Data table contains negative error bar", check_flagging, m_flagging},
  {"t3amp", "OI_T3 table may contain unnormalised triple product amplitude", check_t3amp, m_t3amp},
  {"waveorder", "OI_WAVELENGTH has wavelengths not in ascending order", check_waveorder, m_waveorder},
  {"time", "Non-zero TIME values in OIFITS v2 data table", check_time, m_time},
  {"flux", "ARRNAME/STA_INDEX/FOVTYPE present (missing) in (un)calibrated fluxes", check_flux, m_flux},
};
std::string want_report(const CheckDef &c, const Verdict &v)
{
  if (!v.level) return "";
  std::string s = strf("*** %s:\n%s, %zu occurrences:-\n", level_desc[v.level], c.desc, v.loc.size());
  size_t n = v.loc.size();
  for (size_t i = 0; i < n && i < 9; i++) s += "    " + v.loc[i] + "\n";
  if (n >= 10) s += "    [List truncated]\n";
  return s;
}
// ------------------------------------------------------------- generation
MDS gen_conforming(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 2, 1});
  o.conforming = true;
  o.arrname_always = o.version == 2;
  o.nan = false;
  o.maxtab = g.one({1, 2, 3});
  o.bigrec = 3;
  MDS m = gen_ds(g, o);
  if (o.version == 1) m.h.content = "";
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
      for (auto &r : d.rec)
      {
        if (k == T3)
          for (auto &x : r.col[0]) if (x > 1) x = g.range(0, 8) / 8.0;
        if (k == FLUX && d.calstat == 'C') r.sta[0] = -1;
      }
  for (auto &d : m.dat[FLUX])
    if (d.calstat == 'C') d.arrname = "";
  for (auto &w : m.wave)
    for (size_t i = 1; i < w.wave.size(); i++)
      if (w.wave[i] < w.wave[i - 1]) w.wave[i] = w.wave[i - 1] + (g.flip() ? 0 : 1e-7f);
  return m;
}
template <class T> static T *any(Gen &g, std::vector<T> &v) { return v.empty() ? nullptr : &v[g.below(v.size())]; }
static MData *any_data(Gen &g, MDS &m, bool flux = true)
{
  std::vector<MData *> v;
  for (int k = 0; k < (flux ? 4 : 3); k++) for (auto &d : m.dat[k]) v.push_back(&d);
  return v.empty() ? nullptr : v[g.below(v.size())];
}
// a word that is nearly one of the allowed ones
static std::string nearly(Gen &g, std::vector<std::string> words, size_t width)
{
  std::string w = words[g.below(words.size())];
  size_t i = w.empty() ? 0 : g.below(w.size());
  switch (g.below(7))
  {
  case 0: for (char &c : w) c = isupper((unsigned char)c) ? tolower(c) : toupper(c); break;
  case 1: w[i] = isalpha((unsigned char)w[i]) ? w[i] ^ 0x20 : '_'; break;
  case 2: w.resize(w.size() - 1); break;
  case 3: w += g.one({' ', 'S', 'X', '2', '.'}); break;
  case 4: w = " " + w; break;
  case 5: w[i] = (char)('A' + g.below(26)); break;
  case 6: w.erase(i, 1); break;
  }
  return w.substr(0, width);
}
std::string break_ds(Gen &g, MDS &m, int n)
{
  std::string s;
  for (int q = 0; q < n; q++)
  {
    int what = (int)g.below(30);
    bool many = g.chance(20);
    MData *d = any_data(g, m);
    MRec *r = d ? any(g, d->rec) : nullptr;
    auto per_rec = [&](auto f) {
      if (many && d) { for (auto &x : d->rec) f(*d, x); }
      else if (r) f(*d, *r);
    };
    auto per_chan = [&](MRec &x, auto f) {
      if (x.flag.empty()) return;
      if (many) for (size_t c = 0; c < x.flag.size(); c++) f(c);
      else f((size_t)g.below(x.flag.size()));
    };
    s += strf("%d ", what);
    switch (what)
    {
    case 0: if (g.flip()) m.arr.clear(); else if (!m.arr.empty()) m.arr.pop_back(); break;
    case 1: if (!m.wave.empty() && g.flip()) m.wave.clear(); break;
    case 2: { int k = (int)g.below(4); m.dat[k].clear(); if (g.flip()) for (auto &x : m.dat) x.clear(); break; }
    case 3: m.targets.rev = g.range(1, 3); break;
    case 4: if (auto a = any(g, m.arr)) a->rev = g.range(0, 3); break;
    case 5: if (auto a = any(g, m.wave)) a->rev = g.range(1, 3); break;
    case 6: if (d) d->rev = g.range(1, 3); if (many) for (auto &t : m.dat) for (auto &x : t) x.rev = 3 - x.rev; break;
    case 7: if (auto a = any(g, m.corr)) a->rev = 2; if (auto p = any(g, m.pol)) if (g.flip()) p->rev = 2; break;
    case 8: m.h.content = g.chance(40) ? nearly(g, {"OIFITS2"}, 68) : g.one<const char *>({"OIFITS2", "", "OIFITS1"}); break;
    case 9:
    {
      int i = 0, pick = (int)g.below(14);
      each(m.h, [&](const char *nm, std::string &v) { if (std::string(nm) != "CONTENT" && (i == pick || (many && g.flip()))) v = g.chance(80) ? "" : g.one<const char *>({" ", "0", "?"}); i++; });
      break;
    }
    case 10: if (auto a = any(g, m.arr)) a->frame = g.one<const char *>({"", "geocentric", "GEOCENTRIC ", "SKY1", "EARTH", "SKY"}); break;
    case 11: if (auto a = any(g, m.arr)) a->frame = g.chance(30) ? gen_text(g, 68) : nearly(g, {"GEOCENTRIC", "SKY"}, 68); break;
    case 12: if (auto v = any(g, m.dat[VIS])) v->amptyp = g.chance(40) ? nearly(g, {"absolute", "differential", "correlated flux"}, 68) : g.one<const char *>({"absolute", "differential", "correlated flux", "Absolute", "correlated", "x", ""}); break;
    case 13: if (auto v = any(g, m.dat[VIS])) v->phityp = g.chance(40) ? nearly(g, {"absolute", "differential"}, 68) : g.one<const char *>({"absolute", "differential", "correlated flux", "DIFFERENTIAL", ""}); break;
    case 14: if (auto v = any(g, m.dat[VIS])) { v->userefmap = !v->userefmap && v->nwave <= 40; for (auto &x : v->rec) x.refmap.assign(v->userefmap ? v->nwave * v->nwave : 0, 0); } break;
    case 15: if (auto f = any(g, m.dat[FLUX])) f->calstat = g.one({'C', 'U', 'X', 'c', 'u', ' '}); break;
    case 16: if (auto f = any(g, m.dat[FLUX])) f->fovtype = g.chance(50) ? nearly(g, {"FWHM", "RADIUS"}, 6) : g.one<const char *>({"", "FWHM", "RADIUS", "fwhm", "DIAM", "F"}); break;
    case 17: if (auto f = any(g, m.dat[FLUX])) f->arrname = m.arr.empty() || g.flip() ? "" : m.arr[0].arrname; break;
    case 18: if (auto f = any(g, m.dat[FLUX])) if (!f->rec.empty()) f->rec[g.flip() ? 0 : g.below(f->rec.size())].sta[0] = g.one({-1, -2, 0, 1, 2}); break;
    case 19: // repeated target names
      if (m.targets.t.size() > 1)
        for (size_t i = 1; i < m.targets.t.size(); i++) if (many || g.flip()) m.targets.t[i].name = m.targets.t[g.below(i)].name;
      if (g.chance(30) && !m.targets.t.empty()) // several without a name
        for (int i = 0; i < 3; i++) m.targets.t[g.below(m.targets.t.size())].name = "";
      else if (g.chance(30) && m.targets.t.size() > 1)
      {
        std::string &a = m.targets.t[1].name;
        a = m.targets.t[0].name; // nearly the same
        if (a.empty()) ;
        else if (g.flip()) a.resize(a.size() - 1);
        else a[a.size() - 1] = a.back() == 'x' ? 'y' : 'x';
      }
      if (many && !m.targets.t.empty())
        for (int i = 0; i < g.one({3, 8, 9, 10, 11, 12}); i++) { MTarg t = m.targets.t[0]; t.id = 3000 + i; m.targets.t.push_back(t); }
      break;
    case 20: per_rec([&](MData &, MRec &x) { x.tid = g.one({0, -1, -2, 9999, 1, 32767}); }); break;
    case 21: if (!m.targets.t.empty()) m.targets.t.pop_back(); break;
    case 22: if (d) d->arrname = ""; if (many) for (auto &t : m.dat) for (auto &x : t) x.arrname = ""; if (auto p = any(g, m.pol)) if (g.flip()) { p->arrname = ""; if (g.flip()) p->rec.clear(); } break;
    case 23: per_rec([&](MData &t, MRec &x) { x.sta[g.below(nsta(t.kind))] = g.one({0, 5000, -1, -2, -32768, 1}); }); break;
    case 24: if (auto p = any(g, m.pol)) if (auto x = any(g, p->rec)) x->sta = g.one({0, 5000, 1}); break;
    case 25:
      if (d && g.chance(20)) d->rec.clear();
      if (!m.corr.empty() && g.flip()) m.corr.pop_back();
      else if (d)
      {
        d->corrname = g.one<const char *>({"nothere", ""});
        size_t nc = d->corrname.empty() ? 0 : d->kind == VIS && !d->usecomplex ? 2 : kindcorr[d->kind].size();
        for (auto &x : d->rec) x.corrindx.assign(nc, 1);
      }
      break;
    case 26:
      per_rec([&](MData &t, MRec &x) {
        per_chan(x, [&](size_t c) { x.col[t.kind == VIS2 || t.kind == FLUX ? 1 : g.one({1, 3})][c] = g.one({-1e-9, -1.0, -0.0, (double)NAN, 0.0, -1e-60, -5e-324, -(double)INFINITY, 1e-60}); if (g.flip()) x.flag[c] = !x.flag[c]; });
      });
      break;
    case 27:
      if (auto t = any(g, m.dat[T3]))
        if (auto x = any(g, t->rec))
          per_chan(*x, [&](size_t c) {
            x->col[1][c] = g.one({0.25, 0.0, 1.0, -1.0});
            x->col[0][c] = g.one({1.0 + x->col[1][c], std::nextafter(1.0 + x->col[1][c], 9.0), 5.0, 1.25, (double)NAN, 1.0, (double)INFINITY, -5.0});
            if (g.chance(30)) x->flag[c] = !x->flag[c];
          });
      break;
    case 28:
      if (auto w = any(g, m.wave))
      {
        if (g.flip()) std::reverse(w->wave.begin(), w->wave.end());
        else if (w->wave.size() > 1) { size_t i = g.below(w->wave.size() - 1); std::swap(w->wave[i], w->wave[i + 1]); }
      }
      break;
    case 29: per_rec([&](MData &t, MRec &x) { if (t.kind != FLUX) x.time = g.one({1e-9, -1e-9, 1e-11, -1e-11, 1.1e-10, -1.1e-10, 100.0, -5.0, 0.0, (double)INFINITY, -86400.0}); }); break;
    }
  }
  return s;
}

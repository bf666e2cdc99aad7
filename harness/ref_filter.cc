#include "ref_filter.h"
#include <cmath>
#include <set>
#include <map>

bool glob(const std::string &p, const std::string &s)
{
  // dynamic programming over (pattern, string) prefixes
  std::vector<std::vector<char>> ok(p.size() + 1, std::vector<char>(s.size() + 1, 0));
  ok[0][0] = 1;
  for (size_t i = 1; i <= p.size(); i++)
    for (size_t j = 0; j <= s.size(); j++)
    {
      if (p[i - 1] == '*') ok[i][j] = ok[i - 1][j] || (j && ok[i][j - 1]);
      else if (j) ok[i][j] = ok[i - 1][j - 1] && (p[i - 1] == '?' || p[i - 1] == s[j - 1]);
    }
  return ok[p.size()][s.size()];
}
void to_c(const FSpec &f, oi_filter_spec *c)
{
  init_oi_filter(c);
  g_strlcpy(c->arrname, f.arrname.c_str(), FLEN_VALUE);
  g_strlcpy(c->insname, f.insname.c_str(), FLEN_VALUE);
  g_strlcpy(c->corrname, f.corrname.c_str(), FLEN_VALUE);
  c->target_id = f.target_id;
  for (int i = 0; i < 2; i++)
  {
    c->mjd_range[i] = f.mjd[i];
    c->wave_range[i] = f.wave[i];
    c->bas_range[i] = f.bas[i];
    c->uvrad_range[i] = f.uvrad[i];
    c->snr_range[i] = f.snr[i];
  }
  c->accept_vis = f.vis; c->accept_vis2 = f.vis2; c->accept_t3amp = f.t3amp; c->accept_t3phi = f.t3phi;
  c->accept_flux = f.flux; c->accept_flagged = f.flagged;
}
std::string show(const FSpec &f)
{
  return strf("filter arr='%s' ins='%s' corr='%s' target=%d mjd %.17g-%.17g wave %.9g-%.9g bas %.17g-%.17g uvrad %.17g-%.17g snr %.9g-%.9g "
              "vis=%d vis2=%d t3amp=%d t3phi=%d flux=%d flagged=%d\n",
              f.arrname.c_str(), f.insname.c_str(), f.corrname.c_str(), f.target_id, f.mjd[0], f.mjd[1], f.wave[0], f.wave[1], f.bas[0],
              f.bas[1], f.uvrad[0], f.uvrad[1], f.snr[0], f.snr[1], f.vis, f.vis2, f.t3amp, f.t3phi, f.flux, f.flagged);
}
static std::string gen_pattern(Gen &g, const std::vector<std::string> &names)
{
  if (names.empty() || g.chance(10)) return g.one<const char *>({"*", "?*", "", "nothing", "**", "A*", "*0"});
  std::string s = g.pick(names);
  switch (g.below(6))
  {
  case 0: return s.substr(0, 70);                                                 // exact (wildcards in names act as such)
  case 1: { size_t n = g.below(std::min<size_t>(s.size(), 60) + 1); return s.substr(0, n) + "*"; } // prefix
  case 2: { size_t n = g.below(std::min<size_t>(s.size(), 60) + 1); return "*" + s.substr(s.size() - n); }
  case 3: { std::string t = s.substr(0, 70); if (!t.empty()) t[g.below(t.size())] = '?'; return t; }
  case 4:
  {
    std::string t = s.substr(0, 60);
    size_t a = g.below(t.size() + 1), b = a + g.below(t.size() - a + 1);
    return t.substr(0, a) + "*" + t.substr(b);
  }
  default: { std::string t = s.substr(0, 70); for (char &c : t) c = isupper(c) ? tolower(c) : toupper(c); return t; }
  }
}
static double hyp(double u, double v) { return std::sqrt(u * u + v * v); }
FSpec gen_spec(Gen &g, const MDS &m, int n)
{
  FSpec f;
  if (n < 0) n = g.one({0, 1, 1, 2, 2, 3, 4, 6});
  std::vector<double> mjds, bass, rads;
  std::vector<float> waves, snrs;
  for (auto &w : m.wave)
    for (float x : w.wave) waves.push_back(x);
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      const MWave *w = find_wave(m, d.insname);
      for (auto &r : d.rec)
      {
        if (std::isfinite(r.mjd)) mjds.push_back(r.mjd);
        // limits close to the data, yet farther than rounding errors
        auto near = [&](double b) {
          if (!(b > 1e-3 && b < 1e6) || g.below(4)) return;
          double c = b * (1 + g.one({1e-11, -1e-11, 1e-9, -1e-9}));
          bass.push_back(c);
          if (w && !w->wave.empty()) { float x = g.pick(w->wave); if (x > 1e-8f && x < 1e-3f) rads.push_back(c / x); }
        };
        if (k == T3) near(hyp(r.uv[0] + r.uv[2], r.uv[1] + r.uv[3]));
        for (int c = 0; c < nuv(k); c += 2)
        {
          double b = hyp(r.uv[c], r.uv[c + 1]);
          near(b);
          // limits on the data themselves only where every way of computing the length gives the same
          if (b == std::floor(b)) bass.push_back(b);
          if (w && b == std::floor(b) && !w->wave.empty())
          {
            float x = w->wave[g.below(w->wave.size())];
            int e;
            if (std::frexp(x, &e) == 0.5f) rads.push_back(b / x);
          }
        }
        for (int ch = 0; ch < d.nwave; ch++)
        {
          double s = r.col[0][ch] / r.col[1][ch];
          if (std::isfinite(s) && (double)(float)s == s) snrs.push_back((float)s);
          if (snrs.size() > 50) break;
        }
      }
    }
  for (auto &p : m.pol)
    for (auto &r : p.rec) { mjds.push_back(r.mjd_obs); mjds.push_back(r.mjd_end); }
  std::vector<std::string> an, in, cn;
  for (auto &a : m.arr) an.push_back(a.arrname);
  for (auto &a : m.wave) in.push_back(a.insname);
  for (auto &a : m.corr) cn.push_back(a.corrname);
  auto range = [&](auto *r, auto &vals, auto lo, auto hi) {
    auto one = [&]() { return !vals.empty() && g.chance(75) ? g.pick(vals) : (std::decay_t<decltype(lo)>)(lo + (hi - lo) * g.unit()); };
    switch (g.below(4))
    {
    case 0: r[0] = one(); break;
    case 1: r[1] = one(); break;
    default:
    {
      r[0] = one(); r[1] = one();
      if (r[0] > r[1] && !g.chance(5)) std::swap(r[0], r[1]);
      if (g.chance(10)) r[1] = r[0];
    }
    }
  };
  for (int i = 0; i < n; i++)
    switch (g.below(15))
    {
    case 0: f.arrname = gen_pattern(g, an); break;
    case 1: f.insname = gen_pattern(g, in); break;
    case 2: f.corrname = gen_pattern(g, cn); break;
    case 3: case 4: f.target_id = m.targets.t.empty() || g.chance(15) ? g.range(0, 5) : g.pick(m.targets.t).id; break;
    case 5: range(f.mjd, mjds, 49999.0, 50010.0); break;
    case 6: case 7: range(f.wave, waves, 0.4e-6f, 5e-6f); break;
    case 8: range(f.bas, bass, 0.0, 200.0); break;
    case 9: range(f.uvrad, rads, 0.0, 2e8); break;
    case 10: case 11: range(f.snr, snrs, -10.f, 60.f); break;
    case 12:
      switch (g.below(5))
      {
      case 0: f.vis = false; break;
      case 1: f.vis2 = false; break;
      case 2: f.t3amp = false; break;
      case 3: f.t3phi = false; break;
      case 4: f.flux = false; break;
      }
      break;
    case 13: if (g.flip()) f.t3amp = false; else f.t3phi = false; break;
    case 14: f.flagged = false; break;
    }
  return f;
}
namespace {
template <class T> bool out(T v, const T r[2]) { return v < r[0] || v > r[1]; }
const double R2D = 180.0 / 3.14159;

std::vector<std::pair<double, double>> baselines(int k, const MRec &r)
{
  if (k == FLUX) return {};
  if (k != T3) return {{r.uv[0], r.uv[1]}};
  return {{r.uv[0], r.uv[1]}, {r.uv[2], r.uv[3]}, {r.uv[0] + r.uv[2], r.uv[1] + r.uv[3]}};
}
bool names_ok(const MData &d, const FSpec &f) { return glob(f.arrname, d.arrname) && glob(f.insname, d.insname) && glob(f.corrname, d.corrname); }
bool record_ok(int k, const MRec &r, const FSpec &f)
{
  if (f.target_id >= 0 && r.tid != f.target_id) return false;
  if (out(r.mjd, f.mjd)) return false;
  for (auto &b : baselines(k, r))
    if (out(hyp(b.first, b.second), f.bas)) return false;
  return true;
}
bool snr_ok(int k, const MRec &r, int ch, const FSpec &f)
{
  float amp = (float)(r.col[0][ch] / r.col[1][ch]);
  if (k == VIS2 || k == FLUX) return !out(amp, f.snr);
  float phi = (float)(R2D / r.col[3][ch]);
  if (k == VIS || f.t3amp)
    if (out(amp, f.snr)) return false;
  if (k == VIS || f.t3phi)
    if (out(phi, f.snr)) return false;
  return true;
}
bool rad_ok(int k, const MRec &r, float wave, const FSpec &f)
{
  for (auto &b : baselines(k, r))
    if (out(hyp(b.first, b.second) / wave, f.uvrad)) return false;
  return true;
}
bool kind_ok(int k, const FSpec &f) { return k == VIS ? f.vis : k == VIS2 ? f.vis2 : k == T3 ? f.t3amp || f.t3phi : f.flux; }
} // namespace

MDS ref_filter(const MDS &m, const FSpec &f, bool prune)
{
  MDS o;
  o.h = m.h;
  o.targets.rev = m.targets.rev;
  o.targets.usecategory = m.targets.usecategory;
  for (auto &t : m.targets.t)
    if (f.target_id < 0) o.targets.t.push_back(t);
    else if (t.id == f.target_id)
    {
      o.targets.t.push_back(t);
      o.targets.t.back().id = 1;
      break; // the first of a number counts
    }
  std::map<std::string, std::vector<int>> chans;
  std::set<std::string> arrused, insused, corrused;
  std::set<std::string> seen;
  for (auto &w : m.wave)
  {
    if (!glob(f.insname, w.insname)) continue;
    if (!seen.insert(w.insname).second) continue; // the first of a name counts
    std::vector<int> c;
    for (size_t i = 0; i < w.wave.size(); i++)
      if (!out(w.wave[i], f.wave)) c.push_back((int)i);
    if (!c.empty()) chans[w.insname] = c;
  }
  for (int k = 0; k < 4; k++)
  {
    if (!kind_ok(k, f)) continue;
    for (auto &d : m.dat[k])
    {
      if (!names_ok(d, f) || !chans.count(d.insname)) continue;
      std::vector<int> ch = chans[d.insname];
      while (!ch.empty() && ch.back() >= d.nwave) ch.pop_back();
      if (ch.empty()) continue;
      const MWave &w = *find_wave(m, d.insname);
      MData t = d;
      t.rec.clear();
      t.nwave = (int)ch.size();
      for (auto &r : d.rec)
      {
        if (!record_ok(k, r, f)) continue;
        MRec q = r;
        if (f.target_id >= 0) q.tid = 1;
        for (auto &c : q.col) c.clear();
        q.flag.clear();
        q.refmap.clear();
        bool any = false;
        for (int c : ch)
        {
          for (size_t i = 0; i < q.col.size(); i++) q.col[i].push_back(r.col[i][c]);
          char fl = r.flag[c];
          bool snr = snr_ok(k, r, c, f);
          if (k == FLUX)
          {
            if (!snr) q.col[0].back() = NAN;
          }
          else if (!fl && (!snr || !rad_ok(k, r, w.wave[c], f))) fl = 1;
          if (k == T3 && !f.t3amp) q.col[0].back() = NAN;
          if (k == T3 && !f.t3phi) q.col[2].back() = NAN;
          q.flag.push_back(fl);
          if (!fl) any = true;
          if (d.userefmap)
            for (int c2 : ch) q.refmap.push_back(r.refmap[(size_t)c * d.nwave + c2]);
        }
        if (k != FLUX && !f.flagged && !any) continue;
        t.rec.push_back(q);
      }
      if (t.rec.empty()) continue;
      arrused.insert(t.arrname);
      insused.insert(t.insname);
      corrused.insert(t.corrname);
      o.dat[k].push_back(t);
    }
  }
  arrused.erase("");
  corrused.erase("");
  for (auto &a : m.arr)
    if (glob(f.arrname, a.arrname) && (!prune || arrused.count(a.arrname))) o.arr.push_back(a);
  seen.clear();
  for (auto &w : m.wave)
    if (chans.count(w.insname) && (!prune || insused.count(w.insname)) && seen.insert(w.insname).second)
    {
      MWave x = w;
      x.wave.clear(); x.band.clear();
      for (int c : chans[w.insname]) { x.wave.push_back(w.wave[c]); x.band.push_back(w.band[c]); }
      o.wave.push_back(x);
    }
  for (auto &c : m.corr)
    if (glob(f.corrname, c.corrname) && (!prune || corrused.count(c.corrname))) o.corr.push_back(c);
  for (auto &p : m.pol)
  {
    if (!glob(f.arrname, p.arrname) || (prune && !arrused.count(p.arrname))) continue;
    MPol q = p;
    q.rec.clear();
    for (auto &r : p.rec)
    {
      if (f.target_id >= 0 && r.tid != f.target_id) continue;
      if (!glob(f.insname, r.insname)) continue;
      if (r.mjd_end < f.mjd[0] || r.mjd_obs > f.mjd[1]) continue;
      if (!chans.count(r.insname)) continue;
      std::vector<int> ch = chans[r.insname];
      while (!ch.empty() && ch.back() >= p.nwave) ch.pop_back();
      if (ch.empty()) continue;
      if (q.rec.empty()) q.nwave = (int)ch.size();
      else if ((int)ch.size() != q.nwave) continue; // cannot share a table
      MPolRec x = r;
      if (f.target_id >= 0) x.tid = 1;
      for (int j = 0; j < 4; j++)
      {
        x.j[j].clear();
        for (int c : ch) x.j[j].push_back(r.j[j][c]);
      }
      q.rec.push_back(x);
    }
    if (!q.rec.empty() && q.nwave > 0) o.pol.push_back(q);
  }
  return o;
}
bool orphan_inspol(const MDS &m)
{
  for (auto &p : m.pol)
    for (auto &r : p.rec)
      if (!find_wave(m, r.insname)) return true;
  return false;
}
std::vector<Datum> ref_iter(const MDS &m, Kind k, const FSpec &f)
{
  std::vector<Datum> v;
  if (!kind_ok(k, f)) return v;
  for (size_t t = 0; t < m.dat[k].size(); t++)
  {
    auto &d = m.dat[k][t];
    if (!names_ok(d, f)) continue;
    const MWave *pw = find_wave(m, d.insname);
    if (!pw) continue;
    const MWave &w = *pw;
    for (size_t i = 0; i < d.rec.size(); i++)
    {
      if (!record_ok(k, d.rec[i], f)) continue;
      for (int c = 0; c < std::min(d.nwave, (int)w.wave.size()); c++)
        if (!out(w.wave[c], f.wave) && snr_ok(k, d.rec[i], c, f) && rad_ok(k, d.rec[i], w.wave[c], f) && (f.flagged || !d.rec[i].flag[c]))
          v.push_back({(int)t + 1, (long)i, c});
    }
  }
  return v;
}

// Generator of datasets whose tables do not fit together: names and numbers nobody defines,
// names defined more than once, channel counts which differ.
#pragma once
#include "fits.h"
#include "gen.h"
#include <algorithm>
#include <unistd.h>

inline MDS take(const oi_fits *o) { return from_c(o); }

inline std::string misname(Gen &g, const std::string &n)
{
  switch (g.below(6))
  {
  case 0: return "missing";
  case 1: return n.size() + std::count(n.begin(), n.end(), '\'') < 68 ? n + "x" : "x";
  case 2: return n.size() > 1 ? n.substr(0, n.size() - 1) : "y";
  case 3: { std::string s = n; for (char &c : s) c = isupper(c) ? tolower(c) : toupper(c); return s == n ? "!" : s; }
  case 4: return "UNKNOWN";
  default: return gen_name(g, "GONE");
  }
}
inline void set_channels(Gen &g, MData &d, int n)
{
  int old = d.nwave;
  for (auto &r : d.rec)
  {
    for (auto &c : r.col) c.resize(n, g.one({0.5, 1.0, 2.0}));
    r.flag.resize(n, 0);
    if (d.userefmap)
    {
      std::vector<char> m((size_t)n * n, 0);
      for (int i = 0; i < std::min(n, old); i++)
        for (int j = 0; j < std::min(n, old); j++) m[(size_t)i * n + j] = r.refmap[(size_t)i * old + j];
      r.refmap = m;
    }
  }
  d.nwave = n;
}
inline MData *some_data(Gen &g, MDS &m, bool rows)
{
  std::vector<MData *> v;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
      if (!rows || !d.rec.empty()) v.push_back(&d);
  return v.empty() ? nullptr : g.pick(v);
}
template <class T> inline void put(Gen &g, std::vector<T> &v, const T &x)
{
  v.insert(v.begin() + g.below(v.size() + 1), x);
}
inline const char *misfit(Gen &g, MDS &m)
{
  switch (g.below(17))
  {
  case 0: case 1:
    if (MData *d = some_data(g, m, false)) { d->insname = misname(g, d->insname); return "instrument of data missing"; }
    return nullptr;
  case 2:
    if (MData *d = some_data(g, m, false)) { d->arrname = misname(g, d->arrname); return "array of data missing"; }
    return nullptr;
  case 3:
    if (MData *d = some_data(g, m, false))
    {
      if (d->corrname.empty()) return nullptr;
      d->corrname = misname(g, d->corrname);
      return "OI_CORR of data missing";
    }
    return nullptr;
  case 4:
    if (MData *d = some_data(g, m, true)) { d->rec[g.below(d->rec.size())].tid = g.one({0, -1, 9999, 32767, 7}); return "target of data missing"; }
    return nullptr;
  case 5:
    if (!m.pol.empty())
    {
      MPol &p = m.pol[g.below(m.pol.size())];
      switch (g.below(3))
      {
      case 0: p.arrname = misname(g, p.arrname); return "array of OI_INSPOL missing";
      case 1: if (p.rec.empty()) return nullptr; p.rec[g.below(p.rec.size())].insname = misname(g, p.rec[0].insname); return "instrument of OI_INSPOL missing";
      default: if (p.rec.empty()) return nullptr; p.rec[g.below(p.rec.size())].tid = g.one({0, -1, 9999}); return "target of OI_INSPOL missing";
      }
    }
    return nullptr;
  case 6:
    if (!m.pol.empty() && m.wave.size() > 1)
    {
      MPol &p = m.pol[g.below(m.pol.size())];
      if (p.rec.empty()) return nullptr;
      p.rec[g.below(p.rec.size())].insname = g.pick(m.wave).insname;
      return "OI_INSPOL has other channels";
    }
    return nullptr;
  case 7: case 8:
    if (!m.wave.empty())
    {
      MWave &w = m.wave[g.below(m.wave.size())];
      if (w.wave.empty()) return nullptr;
      int n = (int)g.below(w.wave.size());
      if (n == 0 && !g.chance(10)) n = 1;
      if (n >= (int)w.wave.size()) return nullptr;
      w.wave.resize(n); w.band.resize(n);
      return "data has more channels than instrument";
    }
    return nullptr;
  case 9:
    if (!m.wave.empty())
    {
      MWave &w = m.wave[g.below(m.wave.size())];
      int n = g.range(1, 5);
      for (int i = 0; i < n; i++) { w.wave.push_back(g.one({1e-6f, 2e-6f, 3e-6f})); w.band.push_back(1e-8f); }
      return "data has fewer channels than instrument";
    }
    return nullptr;
  case 10:
    if (MData *d = some_data(g, m, false))
    {
      if (d->nwave > 100) return nullptr;
      set_channels(g, *d, std::max(1, d->nwave + g.one({-3, -2, -1, 1, 2, 3, 30})));
      return "data has other channels";
    }
    return nullptr;
  case 11:
    if (m.wave.size() > 1)
      if (MData *d = some_data(g, m, false)) { d->insname = g.pick(m.wave).insname; return "data of another instrument"; }
    return nullptr;
  case 12:
    switch (g.below(5))
    {
    case 0: if (m.wave.empty()) return nullptr; m.wave.erase(m.wave.begin() + g.below(m.wave.size())); return "OI_WAVELENGTH dropped";
    case 1: if (m.arr.empty()) return nullptr; m.arr.erase(m.arr.begin() + g.below(m.arr.size())); return "OI_ARRAY dropped";
    case 2: if (m.corr.empty()) return nullptr; m.corr.erase(m.corr.begin() + g.below(m.corr.size())); return "OI_CORR dropped";
    case 3: if (m.targets.t.empty()) return nullptr; m.targets.t.erase(m.targets.t.begin() + g.below(m.targets.t.size())); return "target dropped";
    default: m.wave.clear(); if (g.flip()) m.arr.clear(), m.corr.clear(), m.targets.t.clear(); return "no OI_WAVELENGTH at all";
    }
  case 13: case 14:
    if (!m.wave.empty())
    {
      MWave w = g.pick(m.wave);
      int n = (int)w.wave.size();
      switch (g.below(4))
      {
      case 0: break;
      case 1: if (n) w.wave.resize(1 + g.below(n)); break;
      case 2: for (int i = g.range(1, 4); i; i--) w.wave.push_back(g.one({1e-6f, 1.5e-6f})); break;
      default: for (float &x : w.wave) x *= g.one({1.f, 2.f, 0.5f}); break;
      }
      w.band.resize(w.wave.size(), 1e-8f);
      put(g, m.wave, w);
      return "instrument name repeated";
    }
    return nullptr;
  case 15:
    if (g.flip())
    {
      if (m.arr.empty()) return nullptr;
      MArray a = g.pick(m.arr);
      if (g.flip()) a.x += 10;
      if (!a.elem.empty() && g.flip()) a.elem.pop_back();
      put(g, m.arr, a);
      return "array name repeated";
    }
    else
    {
      if (m.corr.empty()) return nullptr;
      MCorr c = g.pick(m.corr);
      for (double &x : c.c) x *= 0.5;
      put(g, m.corr, c);
      return "CORRNAME repeated";
    }
  default:
    if (!m.targets.t.empty())
    {
      MTarg t = g.pick(m.targets.t);
      if (g.flip()) t.id = 77;
      if (g.flip()) t.name = "namesake";
      put(g, m.targets.t, t);
      return "target repeated";
    }
    return nullptr;
  }
}
inline MDS gen_misfit(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 3});
  o.empties = g.chance(10);
  MDS m = gen_ds(g, o);
  int n = g.one({1, 1, 1, 2, 2, 3, 5});
  std::string all;
  for (int i = 0, tries = 0; i < n && tries < 20; tries++)
    if (const char *s = misfit(g, m)) { i++; all += std::string(s) + "; "; g.label(s); }
  if (!all.empty()) g.nontrivial();
  g.note(all + dump(m));
  return m;
}
// The dataset in memory: built by a program or read from a file
inline void load(Gen &g, MDS &m, Oi &in)
{
  switch (g.below(2))
  {
  case 0:
  {
    FFile f = to_fits(g, m, gen_layout(g));
    std::string fn = scratch_file("misfit.fits");
    write_bytes(fn, encode(f));
    STATUS st = 0;
    read_oi_fits(fn.c_str(), &in.o, &st);
    unlink(fn.c_str());
    if (st == 0)
    {
      in.live = true;
      m = take(&in.o);
      g.label("read from file");
      return;
    }
    // (a table without channels, say)
    g.label("file refused");
    to_c(m, &in.o, true);
    break;
  }
  default: to_c(m, &in.o, true); g.label("indexed"); break;
  }
  in.live = true;
}

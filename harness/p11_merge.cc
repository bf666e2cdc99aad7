// Merging datasets.
#include "merge_ref.h"
#include <cmath>
#include <cstring>
#include <set>
#include <unistd.h>

// ------------------------------------------------------------- generation
template <class T> static void shuffle(Gen &g, std::vector<T> &v)
{
  std::vector<int> p = g.perm((int)v.size());
  std::vector<T> w;
  for (int i : p) w.push_back(v[i]);
  v = w;
}
static double shift(Gen &g) { return g.one({0.0, 0.0, 0.0, 2e-11, -2e-11, 1e-9, -1e-9, 0.5, -3.0}); }

static void rename_table(Gen &g, MDS &m, int what, const std::string &from, const std::string &to)
{
  (void)g;
  if (what == 0)
  {
    for (auto &a : m.arr) if (a.arrname == from) a.arrname = to;
    for (auto &p : m.pol) if (p.arrname == from) p.arrname = to;
    for (int k = 0; k < 4; k++) for (auto &d : m.dat[k]) if (d.arrname == from) d.arrname = to;
  }
  else if (what == 1)
  {
    for (auto &a : m.wave) if (a.insname == from) a.insname = to;
    for (auto &p : m.pol) for (auto &r : p.rec) if (r.insname == from) r.insname = to;
    for (int k = 0; k < 4; k++) for (auto &d : m.dat[k]) if (d.insname == from) d.insname = to;
  }
  else
  {
    for (auto &a : m.corr) if (a.corrname == from) a.corrname = to;
    for (int k = 0; k < 4; k++) for (auto &d : m.dat[k]) if (d.corrname == from) d.corrname = to;
  }
}
static void renumber_target(MDS &m, int from, int to)
{
  for (auto &t : m.targets.t) if (t.id == from) t.id = to;
  for (auto &p : m.pol) for (auto &r : p.rec) if (r.tid == from) r.tid = to;
  for (int k = 0; k < 4; k++) for (auto &d : m.dat[k]) for (auto &r : d.rec) if (r.tid == from) r.tid = to;
}
// A dataset resembling another, with the kinds of difference merging has to
// reconcile
static MDS variant(Gen &g, const MDS &base, const GenOpt &o)
{
  MDS m = base;
  // targets: other numbers, other order, a changed name or coordinates
  if (g.flip())
  {
    int off = g.one({1, 7, 500});
    for (int i = (int)m.targets.t.size() - 1; i >= 0; i--) renumber_target(m, m.targets.t[i].id, 40000 + i);
    std::vector<int> p = g.perm((int)m.targets.t.size());
    for (size_t i = 0; i < p.size(); i++) renumber_target(m, 40000 + (int)i, off + p[i]);
  }
  if (g.flip()) shuffle(g, m.targets.t);
  if (g.chance(30) && !m.targets.t.empty())
  {
    auto &t = m.targets.t[g.below(m.targets.t.size())];
    std::string n = g.one<const char *>({"T3", "other", "t1"});
    bool clash = false;
    for (auto &x : m.targets.t) clash = clash || x.name == n;
    if (!clash) t.name = n;
  }
  if (g.chance(30)) for (auto &t : m.targets.t) t.raep0 += 1, t.spectyp = "K0";
  if (g.chance(30) && m.targets.rev == 2)
  {
    m.targets.usecategory = !m.targets.usecategory;
    for (auto &t : m.targets.t) t.category = m.targets.usecategory ? g.one<const char *>({"SCI", "CAL", ""}) : "";
  }
  for (auto &a : m.arr)
  {
    if (g.chance(60)) continue;
    double *c[] = {&a.x, &a.y, &a.z};
    double s = shift(g);
    double *q = c[g.below(3)];
    if (std::fabs(s) < 1e-10) { if (std::fabs(*q) < 1000) *q += s; }
    else *q += s;
    if (g.chance(20)) a.frame = a.frame == "SKY" ? "GEOCENTRIC" : "SKY";
    if (g.chance(25)) { a.rev = 3 - a.rev; if (a.rev == 1) for (auto &e : a.elem) { e.fov = std::nan(""); e.fovtype = "FWHM"; } else for (auto &e : a.elem) e.fov = 1; }
    if (g.chance(30)) shuffle(g, a.elem);
    if (a.elem.empty()) continue;
    auto &e = a.elem[g.below(a.elem.size())];
    if (g.chance(40)) e.xyz[g.below(3)] += shift(g);
    if (g.chance(20)) e.diameter += g.one({0.0002f, 0.01f, -0.0005f, 1.f});
    if (a.rev == 2 && g.chance(20)) e.fov += g.one({2e-11, 1e-8, 1.0});
    if (a.rev == 2 && g.chance(20)) e.fovtype = g.one<const char *>({"FWHM", "RADIUS"});
    if (g.chance(30)) e.tel_name = "renamed", e.sta_name = "X";
    if (g.chance(20)) { int top = 0; for (auto &x : a.elem) top = std::max(top, x.sta_index); e.sta_index = top + 1; } // references to it are broken, which merging does not mind
    if (g.chance(20)) a.elem.pop_back();
    else if (g.chance(20)) { MElem n; n.sta_index = 20000; for (auto &x : a.elem) n.sta_index = std::max(n.sta_index, x.sta_index + 1); n.tel_name = "new"; n.fovtype = "FWHM"; n.fov = a.rev == 2 ? 1 : std::nan(""); a.elem.push_back(n); }
  }
  for (auto &w : m.wave)
  {
    if (g.chance(60) || w.wave.empty()) continue;
    size_t i = g.below(w.wave.size());
    if (g.flip()) w.wave[i] += (float)g.one({5e-11, 3e-10, 1e-7});
    if (g.chance(30)) w.band[i] += (float)g.one({5e-11, 3e-10, 1e-7});
    if (g.chance(20)) std::swap(w.wave[0], w.wave.back());
    if (g.chance(20)) w.rev = 3 - w.rev;
  }
  for (auto &c : m.corr)
    if (g.chance(30) && !c.c.empty()) c.c[g.below(c.c.size())] = g.one({0.5, -1.0, 0.0});
  for (int what = 0; what < 3; what++)
  {
    std::set<std::string> names;
    std::vector<std::string> all;
    if (what == 0) for (auto &a : m.arr) all.push_back(a.arrname);
    if (what == 1) for (auto &a : m.wave) all.push_back(a.insname);
    if (what == 2) for (auto &a : m.corr) all.push_back(a.corrname);
    names.insert(all.begin(), all.end());
    for (auto &n : all)
    {
      if (g.chance(60)) continue;
      // among others names which a renaming scheme may produce itself
      std::string t = g.chance(30) && n.size() < 64 ? n + g.one<const char *>({"_001", "_002", "_003"}) : gen_name(g, what == 0 ? "ARR" : what == 1 ? "INS" : "CORR");
      if (names.count(t)) continue;
      names.insert(t);
      rename_table(g, m, what, n, t);
    }
  }
  if (g.chance(20)) shuffle(g, m.arr);
  if (g.chance(20)) shuffle(g, m.wave);
  if (g.flip()) m.h = gen_header(g, o);
  // fewer data
  if (g.chance(30)) for (int k = 0; k < 4; k++) if (!m.dat[k].empty() && g.flip()) m.dat[k].pop_back();
  return m;
}
static std::vector<MDS> gen_inputs(Gen &g, GenOpt o)
{
  int n = g.one({2, 2, 2, 3, 3, 4, 5});
  if (g.chance(4)) { n = g.one({1, 10, 13, 25}); if (n > 5) o.maxtab = o.maxrec = o.maxwave = 2, o.many = 0; g.label(n == 1 ? "one input" : "many inputs"); }
  std::vector<MDS> v;
  for (int i = 0; i < n; i++)
  {
    o.version = g.one({2, 2, 2, 1, 0});
    if (i > 0 && g.chance(10)) { v.push_back(v[g.below(v.size())]); g.label("same dataset twice"); }
    else if (i > 0 && g.chance(65)) { v.push_back(variant(g, v[g.below(v.size())], o)); g.label("variant of another"); }
    else v.push_back(gen_ds(g, o));
  }
  return v;
}

// ------------------------------------------------------------------ model
static MDS merged(Gen &g, const std::vector<MDS> &in, bool free_first = true)
{
  std::vector<Oi *> c;
  for (auto &m : in) c.push_back(new Oi(m));
  if (in.size() >= 2 && g.chance(25))
  {
    // nothing of another merge of the same datasets may be remembered
    Oi other;
    GList *l = nullptr;
    for (auto p : c) if (p == c[0] || p == c.back() || g.flip()) l = g_list_prepend(l, &p->o);
    merge_oi_fits_list(l, &other.o);
    other.live = true;
    g_list_free(l);
    g.label("merged in another order before");
  }
  Oi out;
  memset(&out.o, 'Q', sizeof out.o);
  if (g.chance(60) || in.size() < 2 || in.size() > 4)
  {
    GList *l = nullptr;
    for (auto p : c) l = g_list_append(l, &p->o);
    merge_oi_fits_list(l, &out.o);
    if ((int)g_list_length(l) != (int)in.size()) fail("merging changed the list of inputs");
    g_list_free(l);
  }
  else if (in.size() == 2) merge_oi_fits(&out.o, &c[0]->o, &c[1]->o, NULL);
  else if (in.size() == 3) merge_oi_fits(&out.o, &c[0]->o, &c[1]->o, &c[2]->o, NULL);
  else merge_oi_fits(&out.o, &c[0]->o, &c[1]->o, &c[2]->o, &c[3]->o, NULL);
  out.live = true;
  for (size_t i = 0; i < in.size(); i++)
  {
    std::string d = diff(in[i], from_c(&c[i]->o));
    if (!d.empty()) fail("merging changed input %zu: %s", i + 1, d.c_str());
  }
  // the output must not depend on the inputs' memory
  if (free_first) for (auto &p : c) { delete p; p = nullptr; }
  MDS got = from_c(&out.o);
  for (auto p : c) delete p;
  return got;
}
static GenOpt mopts(Gen &g)
{
  GenOpt o;
  o.maxtab = g.one({1, 2, 3});
  o.maxrec = 4;
  o.maxwave = 5;
  o.maxelem = 4;
  o.maxtarg = 3;
  o.empties = g.chance(10);
  o.huge = 1;
  return o;
}
static std::string notes(const std::vector<MDS> &v)
{
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += strf("--- input %zu: ", i + 1) + dump(v[i]);
  return s;
}

// every datum of every input is in the output, attached to the same meaning
static void run_preserve(Gen &g)
{
  std::vector<MDS> in = gen_inputs(g, mopts(g));
  g.note(notes(in));
  size_t tables = 0;
  MDS got = merged(g, in);
  size_t pos[4] = {0, 0, 0, 0}, ppos = 0, total = 0;
  auto target_of = [&](const MDS &m, int id, const char *what) -> const MTarg * {
    const MTarg *t = find_targ(m, id);
    if (!t) fail("%s has TARGET_ID %d which is not in OI_TARGET", what, id);
    return t;
  };
  for (size_t n = 0; n < in.size(); n++)
  {
    const MDS &m = in[n];
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k])
      {
        tables++;
        if (pos[k] >= got.dat[k].size()) fail("%s table %zu of the inputs is missing in the output", kindname[k], pos[k] + 1);
        const MData &q = got.dat[k][pos[k]++];
        std::string what = strf("%s of input %zu", kindname[k], n + 1);
        MData w = d; // what it should be, with names as in the output
        if (w.rev == 1 && k != FLUX)
        {
          w.rev = 2;
          for (auto &r : w.rec) r.time = 0;
        }
        w.arrname = q.arrname; w.insname = q.insname; w.corrname = q.corrname;
        if (q.rec.size() != d.rec.size()) fail("%s: %zu records became %zu", what.c_str(), d.rec.size(), q.rec.size());
        for (size_t i = 0; i < d.rec.size(); i++)
        {
          const MTarg *t1 = target_of(m, d.rec[i].tid, "input"), *t2 = target_of(got, q.rec[i].tid, what.c_str());
          if (t1->name != t2->name) fail("%s record %zu: target '%s' became '%s'", what.c_str(), i, t1->name.c_str(), t2->name.c_str());
          w.rec[i].tid = q.rec[i].tid;
        }
        std::string df = diff(w, q);
        if (!df.empty()) fail("%s: %s", what.c_str(), df.c_str());
        // instrument
        const MWave *w1 = find_wave(m, d.insname), *w2 = find_wave(got, q.insname);
        if (!w2) fail("%s: instrument '%s' missing in output", what.c_str(), q.insname.c_str());
        if (!same_wave(*w1, *w2)) fail("%s: wavelengths of '%s' became those of '%s'", what.c_str(), d.insname.c_str(), q.insname.c_str());
        // array
        if (d.arrname.empty() != q.arrname.empty()) fail("%s: ARRNAME '%s' became '%s'", what.c_str(), d.arrname.c_str(), q.arrname.c_str());
        if (!d.arrname.empty())
        {
          const MArray *a1 = find_array(m, d.arrname), *a2 = find_array(got, q.arrname);
          if (!a2) fail("%s: array '%s' missing in output", what.c_str(), q.arrname.c_str());
          if (!same_array(*a1, *a2)) fail("%s: stations of array '%s' became those of '%s'", what.c_str(), d.arrname.c_str(), q.arrname.c_str());
        }
        if (d.corrname.empty() != q.corrname.empty()) fail("%s: CORRNAME '%s' became '%s'", what.c_str(), d.corrname.c_str(), q.corrname.c_str());
        if (!d.corrname.empty())
        {
          const MCorr *c1 = find_corr(m, d.corrname), *c2 = find_corr(got, q.corrname);
          if (!c2) fail("%s: OI_CORR '%s' missing in output", what.c_str(), q.corrname.c_str());
          MCorr c = *c1;
          c.corrname = c2->corrname;
          df = diff(c, *c2);
          if (!df.empty()) fail("%s: correlations: %s", what.c_str(), df.c_str());
        }
        total += d.rec.size();
      }
    for (auto &p : m.pol)
    {
      if (ppos >= got.pol.size()) fail("OI_INSPOL table %zu of the inputs is missing in the output", ppos + 1);
      const MPol &q = got.pol[ppos++];
      std::string what = strf("OI_INSPOL of input %zu", n + 1);
      MPol w = p;
      w.arrname = q.arrname;
      if (q.rec.size() != p.rec.size()) fail("%s: %zu records became %zu", what.c_str(), p.rec.size(), q.rec.size());
      for (size_t i = 0; i < p.rec.size(); i++)
      {
        const MTarg *t1 = target_of(m, p.rec[i].tid, "input"), *t2 = target_of(got, q.rec[i].tid, what.c_str());
        if (t1->name != t2->name) fail("%s record %zu: target '%s' became '%s'", what.c_str(), i, t1->name.c_str(), t2->name.c_str());
        const MWave *w1 = find_wave(m, p.rec[i].insname), *w2 = find_wave(got, q.rec[i].insname);
        if (!w2) fail("%s record %zu: instrument '%s' missing in output", what.c_str(), i, q.rec[i].insname.c_str());
        if (!same_wave(*w1, *w2)) fail("%s record %zu: wavelengths of '%s' became those of '%s'", what.c_str(), i, p.rec[i].insname.c_str(), q.rec[i].insname.c_str());
        w.rec[i].tid = q.rec[i].tid;
        w.rec[i].insname = q.rec[i].insname;
      }
      std::string df = diff(w, q);
      if (!df.empty()) fail("%s: %s", what.c_str(), df.c_str());
      const MArray *a1 = find_array(m, p.arrname), *a2 = find_array(got, q.arrname);
      if (a1 && (!a2 || !same_array(*a1, *a2))) fail("%s: array '%s' became '%s'", what.c_str(), p.arrname.c_str(), q.arrname.c_str());
      g.label("OI_INSPOL");
    }
  }
  for (int k = 0; k < 4; k++)
    if (pos[k] != got.dat[k].size()) fail("%zu %s tables in the inputs, %zu in the output", pos[k], kindname[k], got.dat[k].size());
  if (ppos != got.pol.size()) fail("%zu OI_INSPOL tables in the inputs, %zu in the output", ppos, got.pol.size());
  g.evals += total;
  if (in.size() >= 2 && tables >= 3) g.nontrivial();
}

// names, targets, arrays, instruments of the output
static void run_reconcile(Gen &g)
{
  std::vector<MDS> in = gen_inputs(g, mopts(g));
  if (g.chance(2)) // very many targets
  {
    int n = 0;
    for (auto &m : in)
    {
      MTarg t = m.targets.t.empty() ? MTarg() : m.targets.t[0];
      for (int i = 0; i < 60; i++)
      {
        t.id = 9000 + i;
        t.name = strf("many%d", n++);
        m.targets.t.push_back(t);
      }
    }
    g.label(">99 targets");
  }
  g.note(notes(in));
  MDS got = merged(g, in);
  // targets: by name, first come first kept, numbered from 1
  MTargets want;
  for (auto &m : in)
    for (auto &t : m.targets.t)
    {
      bool known = false;
      for (auto &x : want.t) known = known || x.name == t.name;
      if (known) { g.label("target in several inputs"); continue; }
      MTarg n = t;
      n.id = (int)want.t.size() + 1;
      if (!m.targets.usecategory) n.category = "";
      else want.usecategory = true;
      want.t.push_back(n);
    }
  std::string d = diff(want, got.targets);
  if (!d.empty()) fail("targets: %s", d.c_str());
  // arrays: each input array is represented by the first output array which
  // matches it; otherwise it is added
  std::vector<MArray> arr;
  std::vector<MWave> wave;
  std::vector<MCorr> corr;
  bool matched = false, clash = false;
  for (auto &m : in)
  {
    for (auto &a : m.arr)
    {
      bool found = false;
      for (auto &x : arr) if (!found && same_array(a, x)) found = true;
      matched = matched || found;
      if (found) continue;
      for (auto &x : arr) clash = clash || x.arrname == a.arrname;
      arr.push_back(a);
      arr.back().rev = 2;
    }
    for (auto &w : m.wave)
    {
      bool found = false;
      for (auto &x : wave) if (!found && same_wave(w, x)) found = true;
      matched = matched || found;
      if (found) continue;
      for (auto &x : wave) clash = clash || x.insname == w.insname;
      wave.push_back(w);
      wave.back().rev = 2;
    }
    for (auto &c : m.corr)
    {
      for (auto &x : corr) clash = clash || x.corrname == c.corrname;
      corr.push_back(c);
    }
  }
  if (matched) g.label("tables shared");
  if (clash) g.label("names clash");
  if (matched || clash) g.nontrivial();
  auto check = [&](auto &w, auto &q, auto name, const char *what) {
    if (w.size() != q.size()) fail("%zu %s tables in the output, expected %zu", q.size(), what, w.size());
    std::set<std::string> used;
    for (size_t i = 0; i < w.size(); i++)
    {
      std::string n = q[i].*name;
      if (used.count(n)) fail("%s: name '%s' is not unique in the output", what, n.c_str());
      // kept unless taken already
      if (!used.count(w[i].*name) && n != w[i].*name) fail("%s %zu: name '%s' became '%s' without need", what, i + 1, (w[i].*name).c_str(), n.c_str());
      if (n.empty() || n.size() > 68) fail("%s %zu: '%s' became '%s' of %zu characters", what, i + 1, (w[i].*name).c_str(), n.c_str(), n.size());
      used.insert(n);
      auto x = w[i];
      x.*name = n;
      std::string df = diff(x, q[i]);
      if (!df.empty()) fail("%s %zu: %s", what, i + 1, df.c_str());
    }
  };
  check(arr, got.arr, &MArray::arrname, "OI_ARRAY");
  check(wave, got.wave, &MWave::insname, "OI_WAVELENGTH");
  check(corr, got.corr, &MCorr::corrname, "OI_CORR");
  // every name data refer to is there (what they refer to is property P11)
  for (int k = 0; k < 4; k++)
    for (auto &t : got.dat[k])
    {
      if (!find_wave(got, t.insname)) fail("%s refers to missing OI_WAVELENGTH '%s'", kindname[k], t.insname.c_str());
      if (!t.arrname.empty() && !find_array(got, t.arrname)) fail("%s refers to missing OI_ARRAY '%s'", kindname[k], t.arrname.c_str());
      if (!t.corrname.empty() && !find_corr(got, t.corrname)) fail("%s refers to missing OI_CORR '%s'", kindname[k], t.corrname.c_str());
    }
  // merging the result with one of its inputs again adds data only
  if (g.chance(30))
  {
    std::vector<MDS> two = {got, in[g.below(in.size())]};
    MDS again = merged(g, two);
    if (again.targets.t.size() != got.targets.t.size()) fail("merging an input in again: %zu targets became %zu", got.targets.t.size(), again.targets.t.size());
    if (again.wave.size() != got.wave.size()) fail("merging an input in again: %zu instruments became %zu", got.wave.size(), again.wave.size());
    if (again.arr.size() != got.arr.size()) fail("merging an input in again: %zu arrays became %zu", got.arr.size(), again.arr.size());
    g.label("merged again");
  }
}

static void run_header(Gen &g)
{
  GenOpt o;
  o.maxtab = 1; o.maxrec = 1; o.maxwave = 1; o.maxelem = 1; o.maxtarg = 1;
  int n = g.range(2, 5);
  std::vector<MDS> in;
  // few distinct values per keyword
  std::vector<std::string> pool[14];
  for (auto &p : pool)
  {
    p.push_back(gen_text(g, 68, true, true));
    p.push_back(gen_text(g, 68, true, true));
    p.push_back(g.one<const char *>({"UNKNOWN", "MULTIPLE", "x"}));
    // values which differ little
    if (g.chance(40) && !p[0].empty())
    {
      std::string t = p[0];
      if (g.flip()) t.resize(std::min<size_t>(68, t.size() + 50), 'a'), p[0] = t;
      char &c = t[g.chance(70) ? t.size() - 1 : g.below(t.size())];
      c = isalpha((unsigned char)c) && g.flip() ? (char)(c ^ 32) : c == 'b' ? 'c' : 'b';
      p[1] = t;
    }
  }
  int style[14];
  for (int &s : style) s = (int)g.below(5);
  for (int i = 0; i < n; i++)
  {
    o.version = g.one({2, 2, 1, 0});
    MDS m = gen_ds(g, o);
    int k = 0;
    each(m.h, [&](const char *nm, std::string &v) {
      int s = style[k];
      v = s == 0 ? pool[k][0] : s == 1 ? (g.flip() ? pool[k][0] : "") : s == 2 ? g.pick(pool[k]) : s == 3 ? "" : g.chance(80) ? pool[k][0] : pool[k][1];
      k++;
      if (!strcmp(nm, "DATE-OBS"))
      {
        v = gen_date(g);
        if (g.chance(30)) v += g.one<const char *>({"T12:34:56", "T00:00:00.000", " "});
        if (g.chance(15)) v = g.one<const char *>({"", "unknown", "1800-01-01", "2100-01-01", "0001-02-03", "2000-01", "9999-12-31"});
      }
      if (!strcmp(nm, "CONTENT")) v = g.one<const char *>({"OIFITS2", "OIFITS2", ""});
      if (!strcmp(nm, "DATE")) v = gen_date(g);
    });
    in.push_back(m);
  }
  std::string s;
  for (auto &m : in) each(m.h, [&](const char *nm, std::string &v) { s += strf("%s='%s' ", nm, v.c_str()); });
  g.note(s);
  MDS got = merged(g, in);
  MHeader want;
  std::vector<std::string> *vals = new std::vector<std::string>[14];
  for (auto &m : in)
  {
    int k = 0;
    each(m.h, [&](const char *, std::string &v) { vals[k++].push_back(v); });
  }
  int k = 0;
  bool multi = false;
  each(want, [&](const char *nm, std::string &v) {
    std::set<std::string> u;
    for (auto &x : vals[k]) if (!x.empty()) u.insert(x);
    k++;
    bool opt = !strcmp(nm, "REFERENC") || !strcmp(nm, "AUTHOR") || !strcmp(nm, "PROG_ID") || !strcmp(nm, "PROCSOFT") || !strcmp(nm, "OBSTECH");
    if (!strcmp(nm, "CONTENT")) { v = "OIFITS2"; return; }
    if (!strcmp(nm, "DATE")) { v = got.h.date; if (v.empty()) fail("DATE is empty"); return; }
    if (!strcmp(nm, "DATE-OBS"))
    {
      std::string best;
      for (auto &x : u)
      {
        int y, mo, d;
        if (x.size() < 10 || sscanf(x.c_str(), "%4d-%2d-%2d", &y, &mo, &d) != 3 || y < 1901 || y > 2099) continue;
        std::string t = x.substr(0, 10);
        if (best.empty() || t < best) best = t;
      }
      if (best.empty()) g.label("no usable DATE-OBS");
      v = best.empty() ? got.h.date_obs : best;
      return;
    }
    v = u.empty() ? (opt ? "" : "UNKNOWN") : u.size() == 1 ? *u.begin() : "MULTIPLE";
    if (u.size() > 1) multi = true;
  });
  delete[] vals;
  if (multi) { g.label("differing values"); g.nontrivial(); }
  std::string d = diff(want, got.h);
  if (!d.empty()) fail("merged header: %s", d.c_str());
}

static bool reg = (
  register_prop({"P11", "merging preserves every datum",
    "2-5 datasets: independent, identical, or variants of one another with renamed tables, renumbered and permuted targets, shifted, "
    "reordered, dropped or added stations and shifted wavelengths. Every input table is found in the output, its values compared "
    "bit by bit, and its target, instrument, array and correlations compared through the output's references; inputs are compared "
    "before and after, and freed before the output is looked at. Non-trivial: at least two inputs and three data tables.",
    40000, 500000, run_preserve, {"Every reference in the inputs resolves (stations excepted)", "table names and target names are unique within an input"}, 200}),
  register_prop({"P12", "merging reconciles targets, arrays and instruments",
    "The same inputs; the output's target, array, wavelength and correlation tables compared with a model of matching (targets by "
    "name, arrays by coordinates, instruments by wavelengths), names checked for uniqueness and length. Non-trivial: a table is "
    "shared between inputs or names clash.",
    40000, 500000, run_reconcile, {"coordinates differ by clearly less or more than the matching tolerance"}, 200}),
  register_prop({"P13", "merged primary header",
    "2-5 datasets whose header values are drawn from small pools (equal, absent, differing, the words UNKNOWN and MULTIPLE, usable and "
    "unusable dates). Non-trivial: some keyword differs.",
    120000, 1500000, run_header, {"DATE-OBS is unspecified if no input has a usable one"}, 400}),
  true);

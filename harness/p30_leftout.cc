// What filtering and merging say about what they leave out, and that nothing else prints.
#include "misfit.h"
#include "ref_check.h"
#include "said.h"
#include "walk.h"
#include <map>
#include <set>

typedef std::vector<std::string> Msgs;

// warnings among what was said; anything else is wrong
static Msgs warnings(const std::string &err, const char *when)
{
  Msgs v;
  for (auto &l : lines(err))
  {
    if (l.empty()) continue;
    size_t p = l.find("WARNING **: ");
    if (p == std::string::npos) fail("%s printed: %s", when, l.c_str());
    p += 12;
    // time of day
    size_t q = l.find(": ", p);
    if (q == p + 12 && isdigit((unsigned char)l[p]) && l[p + 2] == ':') p = q + 2;
    v.push_back(l.substr(p));
  }
  return v;
}
static void compare_msgs(const std::string &err, Msgs want, const char *when)
{
  Msgs got = warnings(err, when);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  Msgs x;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(x));
  if (!x.empty()) fail("%s: no warning (of %zu expected, %zu given): %s", when, want.size(), got.size(), x[0].c_str());
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(x));
  if (!x.empty()) fail("%s: warning without reason: %s", when, x[0].c_str());
}

// ---------------------------------------------------------------------- model
static Msgs filter_says(const MDS &m, const FSpec &f)
{
  Msgs v;
  std::map<std::string, std::vector<size_t>> chans; // accepted channels of the first table of each name
  for (auto &w : m.wave)
  {
    if (!glob(f.insname, w.insname)) continue;
    if (chans.count(w.insname)) { v.push_back("Duplicate OI_WAVELENGTH table with INSNAME=" + w.insname + " removed from filter output"); continue; }
    auto &c = chans[w.insname];
    for (size_t i = 0; i < w.wave.size(); i++)
      if (!(w.wave[i] < f.wave[0] || w.wave[i] > f.wave[1])) c.push_back(i);
    if (c.empty()) v.push_back("Empty tables with INSNAME=" + w.insname + " removed from filter output");
  }
  auto has_chans = [&](const std::string &n) { return chans.count(n) && !chans[n].empty(); };
  MDS full = ref_filter(m, f, false), out = ref_filter(m, f, true);
  // data of which nothing is accepted
  const bool kind[4] = {f.vis, f.vis2, f.t3amp || f.t3phi, f.flux};
  const int order[4] = {VIS, VIS2, T3, FLUX};
  for (int i = 0; i < 4; i++)
  {
    int k = order[i], n = 0;
    if (!kind[i]) continue;
    for (auto &d : m.dat[k])
      n += glob(f.arrname, d.arrname) && glob(f.insname, d.insname) && glob(f.corrname, d.corrname) && has_chans(d.insname);
    for (n -= (int)full.dat[k].size(); n > 0; n--) v.push_back(std::string("Empty ") + kindname[k] + " table removed from filter output");
  }
  // polarisation
  int n = 0;
  for (auto &p : m.pol)
  {
    if (!glob(f.arrname, p.arrname)) continue;
    n++;
    size_t nch = 0;
    for (size_t i = 0; i < p.rec.size(); i++)
    {
      auto &r = p.rec[i];
      if (f.target_id >= 0 && r.tid != f.target_id) continue;
      if (!glob(f.insname, r.insname) || r.mjd_end < f.mjd[0] || r.mjd_obs > f.mjd[1] || !has_chans(r.insname)) continue;
      size_t c = 0;
      for (size_t x : chans[r.insname]) c += x < (size_t)p.nwave;
      if (c == 0) continue;
      if (nch == 0) nch = c;
      else if (c != nch)
        v.push_back(strf("OI_INSPOL record %zu for INSNAME=%s removed from filter output as different number of channels accepted", i + 1, r.insname.c_str()));
    }
  }
  for (n -= (int)full.pol.size(); n > 0; n--) v.push_back("Empty OI_INSPOL table removed from filter output");
  // not referred to
  auto unref = [&](const auto &a, const auto &b, auto name, const char *type, const char *key) {
    std::multiset<std::string> s;
    for (auto &x : a) s.insert(x.*name);
    for (auto &x : b) s.erase(s.find(x.*name));
    for (auto &x : s) v.push_back(strf("Unreferenced %s table with %s=%s removed from filter output", type, key, x.c_str()));
  };
  unref(full.arr, out.arr, &MArray::arrname, "OI_ARRAY", "ARRNAME");
  unref(full.pol, out.pol, &MPol::arrname, "OI_INSPOL", "ARRNAME");
  unref(full.wave, out.wave, &MWave::insname, "OI_WAVELENGTH", "INSNAME");
  unref(full.corr, out.corr, &MCorr::corrname, "OI_CORR", "CORRNAME");
  return v;
}
static Msgs merge_says(const MDS &m)
{
  Msgs v;
  auto name = [&](const std::string &n, const void *there) { if (!n.empty() && !there) v.push_back("Reference to missing table '" + n + "' removed from merged dataset"); };
  auto targ = [&](int id) { if (!find_targ(m, id)) v.push_back(strf("Reference to missing target %d removed from merged dataset", id)); };
  for (auto &p : m.pol)
  {
    name(p.arrname, find_array(m, p.arrname));
    for (auto &r : p.rec) { targ(r.tid); name(r.insname, find_wave(m, r.insname)); }
  }
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      name(d.arrname, find_array(m, d.arrname));
      name(d.insname, find_wave(m, d.insname));
      name(d.corrname, find_corr(m, d.corrname));
      for (auto &r : d.rec) targ(r.tid);
    }
  return v;
}

// ----------------------------------------------------------------------- runs
static MDS some_ds(Gen &g)
{
  if (g.chance(60)) return gen_misfit(g);
  GenOpt o;
  o.version = g.one({2, 2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 3});
  o.empties = g.chance(10);
  return gen_ds(g, o);
}
static void quiet(const Said &s, const char *what)
{
  if (!s.out.empty()) fail("%s printed: %s", what, s.out.c_str());
  if (!s.err.empty()) fail("%s printed on the error stream: %s", what, s.err.c_str());
}
static void quiet_ops(Gen &g, const MDS &m, Oi &in)
{
  oi_fits *o = &in.o;
  switch (g.below(5))
  {
  case 0:
    for (auto &c : all_checks)
    {
      oi_check_result r;
      quiet(said([&]() { c.fn(o, &r); format_check_result(&r); free_check_result(&r); }), c.name);
    }
    g.label("checks");
    break;
  case 1:
  {
    long n;
    quiet(said([&]() { format_oi_fits_summary(o); count_oi_fits_data(o, &n, &n, &n); is_atomic(o, 1.0); is_oi_fits_one(o); is_oi_fits_two(o); }), "summary");
    g.label("summary");
    break;
  }
  case 2:
  {
    FSpec f = gen_spec(g, m);
    g.note(show(f));
    Walk<ItV> a; Walk<It2> b; Walk<It3> c;
    std::string what;
    Said s = said([&]() {
      a.start(o, m, f, false); while (!a.done) a.step(g);
      b.start(o, m, f, false); while (!b.done) b.step(g);
      c.start(o, m, f, false); while (!c.done) c.step(g);
      oi_filter_spec sp;
      to_c(f, &sp);
      format_oi_filter(&sp);
    });
    quiet(s, "iterating");
    g.label("iterators");
    break;
  }
  case 3:
    quiet(said([&]() {
      for (int k = 0; k < 4; k++)
        for (auto &d : m.dat[k])
        {
          oi_fits_lookup_array(o, d.arrname.c_str());
          oi_fits_lookup_wavelength(o, d.insname.c_str());
          oi_fits_lookup_corr(o, d.corrname.c_str());
          for (auto &r : d.rec)
          {
            oi_fits_lookup_target(o, r.tid);
            for (int i = 0; i < nsta(k); i++) oi_fits_lookup_element(o, d.arrname.c_str(), r.sta[i]);
          }
        }
      oi_fits_lookup_array(o, "none");
      oi_fits_lookup_wavelength(o, "none");
      oi_fits_lookup_corr(o, "none");
      oi_fits_lookup_target(o, 4711);
      oi_fits_lookup_target_by_name(o, "none");
    }), "looking up");
    g.label("lookups");
    break;
  default:
    quiet(said([&]() { set_oi_header(o); }), "deriving the header");
    g.label("header");
    break;
  }
}
static void run_leftout(Gen &g)
{
  MDS m = some_ds(g);
  Oi in;
  load(g, m, in);
  int n = g.range(1, 4);
  size_t said_any = 0;
  for (int i = 0; i < n; i++)
  {
    switch (g.below(7))
    {
    case 0: case 1: case 2: // filter
    {
      FSpec f = gen_spec(g, m);
      g.note(show(f));
      oi_filter_spec c;
      to_c(f, &c);
      Oi out;
      Said s = said([&]() { apply_oi_filter(&in.o, &c, &out.o); });
      out.live = true;
      if (!s.out.empty()) fail("filtering printed: %s", s.out.c_str());
      Msgs w = filter_says(m, f);
      compare_msgs(s.err, w, "filtering");
      said_any += w.size();
      g.label(w.empty() ? "filter: nothing to say" : "filter: warnings");
      break;
    }
    case 3: case 4: // merge
    {
      MDS other = g.chance(40) ? m : some_ds(g);
      Oi in2(other, true), out;
      Said s = said([&]() { merge_oi_fits(&out.o, &in.o, &in2.o, NULL); });
      out.live = true;
      if (!s.out.empty()) fail("merging printed: %s", s.out.c_str());
      Msgs w = merge_says(m), w2 = merge_says(other);
      w.insert(w.end(), w2.begin(), w2.end());
      compare_msgs(s.err, w, "merging");
      said_any += w.size();
      g.label(w.empty() ? "merge: nothing to say" : "merge: warnings");
      break;
    }
    default: quiet_ops(g, m, in); if (g.flip()) m = from_c(&in.o); break;
    }
    g.evals++;
  }
  if (said_any) g.nontrivial();
}
static bool reg = (register_prop({"P30", "what is left out",
  "Random datasets, most with misfits, built in memory or read from a file; 1-4 operations each: filtered by specifications aimed at "
  "the data or merged, everything printed compared, as a multiset of warnings, with the model; or checked, summarised, iterated, "
  "looked up in, given a header - which print nothing. Non-trivial: there was something to warn of.",
  30000, 400000, run_leftout, {}, 200}), true);

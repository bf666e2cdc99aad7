// Filtering datasets, and iterating over data which pass a filter.
#include "walk.h"
#include <cmath>
#include <cstring>
#include <set>
#include <unistd.h>

static GenOpt opts(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 2, 1, 0});
  o.bigrec = 3;
  o.huge = 2;
  o.bigwave = 1;
  o.maxtab = g.one({1, 2, 3, 4});
  o.empties = g.chance(10);
  return o;
}
static void spec_labels(Gen &g, const FSpec &f)
{
  if (f.arrname != "*") g.label("ARRNAME");
  if (f.insname != "*") g.label("INSNAME");
  if (f.corrname != "*") g.label("CORRNAME");
  if (f.target_id >= 0) g.label("TARGET_ID");
  FSpec d;
  if (f.mjd[0] != d.mjd[0] || f.mjd[1] != d.mjd[1]) g.label("MJD");
  if (f.wave[0] != d.wave[0] || f.wave[1] != d.wave[1]) g.label("wavelength");
  if (f.bas[0] != d.bas[0] || f.bas[1] != d.bas[1]) g.label("baseline");
  if (f.uvrad[0] != d.uvrad[0] || f.uvrad[1] != d.uvrad[1]) g.label("UV radius");
  if (f.snr[0] != d.snr[0] || f.snr[1] != d.snr[1]) g.label("SNR");
  if (!f.vis || !f.vis2 || !f.flux || !(f.t3amp || f.t3phi)) g.label("data type rejected");
  if (f.t3amp != f.t3phi) g.label("T3AMP or T3PHI only");
  if (!f.flagged) g.label("all-flagged rejected");
}
static size_t nrecs(const MDS &m)
{
  size_t n = 0;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k]) n += d.rec.size();
  return n;
}
static size_t ndata(const MDS &m)
{
  size_t n = 0;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
      for (auto &r : d.rec)
        for (char f : r.flag) n += !f;
  return n;
}
static MDS filtered(const MDS &m, const FSpec &f)
{
  Oi in(m), out;
  oi_filter_spec c;
  to_c(f, &c);
  memset(&out.o, 'Q', sizeof out.o);
  apply_oi_filter(&in.o, &c, &out.o);
  out.live = true;
  return from_c(&out.o);
}

static void run_select(Gen &g)
{
  MDS m = gen_ds(g, opts(g));
  FSpec f = gen_spec(g, m);
  g.note(show(f) + dump(m));
  spec_labels(g, f);
  MDS want = ref_filter(m, f);
  if (nrecs(want) && ndata(want) < ndata(m)) { g.nontrivial(); g.label("some data pass, some do not"); }
  else g.label(nrecs(want) ? "all data pass" : "no data pass");
  if (m.pol.size() && want.pol.size()) g.label("OI_INSPOL kept");
  MDS got = filtered(m, f);
  std::string d = diff(want, got);
  if (!d.empty()) fail("filter output differs: %s", d.c_str());
}

// every name in the output resolves, nothing is unreferenced, input untouched
static void run_contained(Gen &g)
{
  GenOpt o = opts(g);
  o.wild = g.chance(20);
  MDS m = gen_ds(g, o);
  FSpec f = gen_spec(g, m);
  if (g.chance(10)) { f.uvrad[0] = -1; f.bas[0] = -1; }
  g.note(show(f) + dump(m));
  spec_labels(g, f);
  Oi out;
  MDS got;
  oi_filter_spec c, c0;
  to_c(f, &c);
  c0 = c;
  {
    Oi in(m);
    apply_oi_filter(&in.o, &c, &out.o);
    out.live = true;
    std::string d = diff(m, from_c(&in.o));
    if (!d.empty()) fail("filtering changed its input: %s", d.c_str());
    got = from_c(&out.o);
    auto range_same = [](auto *a, auto *b) { return memcmp(a, b, 2 * sizeof a[0]) == 0; };
    if (strcmp(c.arrname, c0.arrname) || strcmp(c.insname, c0.insname) || strcmp(c.corrname, c0.corrname) || c.arrname_pttn || c.insname_pttn ||
        c.corrname_pttn || c.target_id != c0.target_id || !range_same(c.mjd_range, c0.mjd_range) || !range_same(c.wave_range, c0.wave_range) ||
        !range_same(c.bas_range, c0.bas_range) || !range_same(c.uvrad_range, c0.uvrad_range) || !range_same(c.snr_range, c0.snr_range) ||
        c.accept_vis != c0.accept_vis || c.accept_vis2 != c0.accept_vis2 || c.accept_t3amp != c0.accept_t3amp ||
        c.accept_t3phi != c0.accept_t3phi || c.accept_flux != c0.accept_flux || c.accept_flagged != c0.accept_flagged)
      fail("filtering changed the filter specification");
    // the same specification can be used again, with the same result
    if (g.chance(30))
    {
      Oi again;
      apply_oi_filter(&in.o, &c, &again.o);
      again.live = true;
      d = diff(got, from_c(&again.o));
      if (!d.empty()) fail("second use of the same filter differs: %s", d.c_str());
    }
  } // input freed here
  std::string d = diff(got, from_c(&out.o));
  if (!d.empty()) fail("output depends on the input which was freed: %s", d.c_str());
  std::set<std::string> arr, ins, corr;
  std::set<int> tid;
  for (auto &t : got.targets.t) tid.insert(t.id);
  for (int k = 0; k < 4; k++)
    for (auto &t : got.dat[k])
    {
      if (t.rec.empty() || t.nwave == 0) fail("empty %s table in output", kindname[k]);
      if (!t.arrname.empty()) arr.insert(t.arrname);
      ins.insert(t.insname);
      if (!t.corrname.empty()) corr.insert(t.corrname);
      const MWave *w = find_wave(got, t.insname);
      if (!w) fail("%s in output refers to missing OI_WAVELENGTH '%s'", kindname[k], t.insname.c_str());
      if ((int)w->wave.size() != t.nwave) fail("%s in output has %d channels, its OI_WAVELENGTH %zu", kindname[k], t.nwave, w->wave.size());
      if (!t.arrname.empty() && !find_array(got, t.arrname)) fail("%s in output refers to missing OI_ARRAY '%s'", kindname[k], t.arrname.c_str());
      if (!t.corrname.empty() && !find_corr(got, t.corrname)) fail("%s in output refers to missing OI_CORR '%s'", kindname[k], t.corrname.c_str());
      if (oi_fits_lookup_wavelength(&out.o, t.insname.c_str()) == nullptr) fail("lookup of '%s' fails in output", t.insname.c_str());
      for (auto &r : t.rec)
        if (!tid.count(r.tid)) fail("%s record in output has TARGET_ID %d which is not in OI_TARGET", kindname[k], r.tid);
    }
  for (auto &a : got.arr)
  {
    if (!arr.count(a.arrname)) fail("unreferenced OI_ARRAY '%s' in output", a.arrname.c_str());
    std::string d2 = diff(*find_array(m, a.arrname), a);
    if (!d2.empty()) fail("OI_ARRAY changed: %s", d2.c_str());
  }
  for (auto &a : got.wave) if (!ins.count(a.insname)) fail("unreferenced OI_WAVELENGTH '%s' in output", a.insname.c_str());
  for (auto &a : got.corr)
  {
    if (!corr.count(a.corrname)) fail("unreferenced OI_CORR '%s' in output", a.corrname.c_str());
    std::string d2 = diff(*find_corr(m, a.corrname), a);
    if (!d2.empty()) fail("OI_CORR changed: %s", d2.c_str());
  }
  for (auto &p : got.pol)
  {
    if (!find_array(got, p.arrname)) fail("OI_INSPOL in output refers to missing OI_ARRAY '%s'", p.arrname.c_str());
    for (auto &r : p.rec)
      if (!tid.count(r.tid)) fail("OI_INSPOL record in output has TARGET_ID %d which is not in OI_TARGET", r.tid);
  }
  d = diff(m.h, got.h);
  if (!d.empty()) fail("primary header changed: %s", d.c_str());
  if (nrecs(got)) g.nontrivial();
  if (got.arr.size() < m.arr.size() || got.wave.size() < m.wave.size() || got.corr.size() < m.corr.size()) g.label("tables pruned");
  // and it can be written
  if (g.chance(20))
  {
    std::string fn = scratch_file("f.fits");
    unlink(fn.c_str());
    STATUS st = 0;
    write_oi_fits(fn.c_str(), out.o, &st);
    if (st) fail("writing the filtered dataset failed: status %d", st);
    Oi back;
    read_oi_fits(fn.c_str(), &back.o, &st);
    unlink(fn.c_str());
    if (st) fail("reading the filtered dataset back failed: status %d", st);
    back.live = true;
    CmpOpt co;
    co.header_date = false;
    co.kw_tol = true;
    d = diff(upgraded(got), from_c(&back.o), co);
    if (!d.empty()) fail("filtered dataset differs after write and read: %s", d.c_str());
    g.label("written and read");
  }
}

static std::string diff_data(MDS a, MDS b)
{
  a.pol.clear(); b.pol.clear();
  return diff(a, b);
}
static void run_laws(Gen &g)
{
  GenOpt o = opts(g);
  o.empties = false;
  MDS m = gen_ds(g, o);
  int law = (int)g.below(5);
  g.note(strf("law %d ", law) + dump(m));
  if (law == 0)
  {
    g.label("default filter keeps everything");
    // referenced tables and data within the default ranges only
    FSpec f;
    for (auto &w : m.wave)
      for (auto &x : w.wave)
        if (!(x < 9e-5f)) x = 9e-5f;
        else if (x < 1e-8f) x = 1e-8f; // (baselines in wavelengths)
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k])
        for (auto &r : d.rec)
          for (int ch = 0; ch < d.nwave; ch++)
          {
            double s = r.col[0][ch] / r.col[1][ch];
            if (!(s > -4 && s < 1e9)) r.col[0][ch] = 0.5, r.col[1][ch] = 0.25;
            if ((k == VIS || k == T3) && !(r.col[3][ch] > 1e-6)) r.col[3][ch] = 1;
          }
    MDS got = filtered(m, f);
    MDS want = m;
    std::set<std::string> a, i, c;
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k]) { a.insert(d.arrname); i.insert(d.insname); c.insert(d.corrname); }
    auto drop = [](auto &v, auto keep) { for (size_t n = 0; n < v.size();) if (keep(v[n])) n++; else v.erase(v.begin() + n); };
    drop(want.arr, [&](const MArray &x) { return a.count(x.arrname) > 0; });
    drop(want.wave, [&](const MWave &x) { return i.count(x.insname) > 0; });
    drop(want.corr, [&](const MCorr &x) { return c.count(x.corrname) > 0; });
    drop(want.pol, [&](const MPol &x) { return a.count(x.arrname) > 0; });
    std::string d = diff(want, got);
    if (!d.empty()) fail("the default filter changed a dataset within its ranges: %s", d.c_str());
    g.nontrivial();
  }
  else if (law == 1)
  {
    g.label("idempotence");
    FSpec f = gen_spec(g, m);
    g.note(show(f));
    spec_labels(g, f);
    MDS once = filtered(m, f);
    if (f.target_id >= 0) f.target_id = g.flip() ? 1 : -1;
    MDS twice = filtered(once, f);
    std::string d = orphan_inspol(once) ? diff_data(once, twice) : diff(once, twice);
    if (!d.empty()) fail("filtering twice differs from filtering once: %s", d.c_str());
    if (nrecs(once)) g.nontrivial();
  }
  else if (law == 2)
  {
    g.label("order of criteria");
    // two sets of criteria, one after the other in either order, and both at once
    FSpec a = gen_spec(g, m), b = gen_spec(g, m), ab;
    a.target_id = b.target_id = -1;
    a.flagged = b.flagged = true;
    a.t3amp = a.t3phi = b.t3amp = b.t3phi = true;
    // each pattern criterion in one of them only
    b.arrname = b.insname = b.corrname = "*";
    ab = a;
    auto meet = [](auto *x, const auto *p, const auto *q) { x[0] = std::max(p[0], q[0]); x[1] = std::min(p[1], q[1]); };
    meet(ab.mjd, a.mjd, b.mjd); meet(ab.wave, a.wave, b.wave); meet(ab.bas, a.bas, b.bas);
    meet(ab.uvrad, a.uvrad, b.uvrad); meet(ab.snr, a.snr, b.snr);
    ab.vis = a.vis && b.vis; ab.vis2 = a.vis2 && b.vis2; ab.flux = a.flux && b.flux;
    g.note(show(a) + show(b));
    MDS x = filtered(filtered(m, a), b), y = filtered(filtered(m, b), a), z = filtered(m, ab);
    std::string d = diff_data(x, y);
    if (!d.empty()) fail("the order of two filters matters: %s", d.c_str());
    d = diff_data(x, z);
    if (!d.empty()) fail("two filters in turn differ from both at once: %s", d.c_str());
    if (nrecs(z)) g.nontrivial();
  }
  else if (law == 3)
  {
    g.label("partition by target");
    size_t n = 0, nd = 0;
    FSpec f;
    size_t total = nrecs(filtered(m, f)), tdata = ndata(filtered(m, f));
    for (auto &t : m.targets.t)
    {
      FSpec ft;
      ft.target_id = t.id;
      MDS got = filtered(m, ft);
      n += nrecs(got);
      nd += ndata(got);
      if (got.targets.t.size() != 1 || got.targets.t[0].id != 1 || got.targets.t[0].name != t.name) fail("target %d not kept as the only target", t.id);
    }
    if (n != total || nd != tdata) fail("records of single targets: %zu (%zu data), of all targets: %zu (%zu data)", n, nd, total, tdata);
    if (m.targets.t.size() > 1) g.nontrivial();
  }
  else
  {
    g.label("filter agrees with iteration");
    FSpec f = gen_spec(g, m);
    f.flagged = false;
    g.note(show(f));
    spec_labels(g, f);
    MDS got = filtered(m, f);
    long v[3] = {0, 0, 0}, n[3] = {0, 0, 0};
    Oi in(m), out(got);
    count_oi_fits_data(&out.o, &v[0], &v[1], &v[2]);
    oi_filter_spec c;
    to_c(f, &c);
    oi_vis_iter i1; oi_vis2_iter i2; oi_t3_iter i3;
    oi_vis_iter_init(&i1, &in.o, &c);
    while (oi_vis_iter_next(&i1, nullptr, nullptr, nullptr, nullptr, nullptr)) n[0]++;
    oi_vis2_iter_init(&i2, &in.o, &c);
    while (oi_vis2_iter_next(&i2, nullptr, nullptr, nullptr, nullptr, nullptr)) n[1]++;
    oi_t3_iter_init(&i3, &in.o, &c);
    while (oi_t3_iter_next(&i3, nullptr, nullptr, nullptr, nullptr, nullptr)) n[2]++;
    for (int k = 0; k < 3; k++)
      if (n[k] != v[k]) fail("%ld %s data pass the filter when iterating, %ld are unflagged in the filtered dataset", n[k], kindname[k], v[k]);
    if (n[0] + n[1] + n[2]) g.nontrivial();
  }
}

static void run_iter(Gen &g)
{
  GenOpt o = opts(g);
  o.flux = false;
  o.inspol = false;
  o.empties = g.chance(25);
  MDS m = gen_ds(g, o);
  FSpec f = gen_spec(g, m);
  bool nullspec = g.chance(15);
  if (nullspec) f = FSpec();
  g.note(show(f) + dump(m));
  spec_labels(g, f);
  if (nullspec) g.label("no filter");
  for (int k = 0; k < 3; k++)
    for (auto &d : m.dat[k])
      if (d.rec.empty()) g.label("table without rows");
  Oi in(m);
  Walk<ItV> a; Walk<It2> b; Walk<It3> c;
  Walk<ItV> a2;
  FSpec f2 = gen_spec(g, m);
  a.start(&in.o, m, f, nullspec);
  b.start(&in.o, m, f, nullspec);
  c.start(&in.o, m, f, nullspec);
  a2.start(&in.o, m, f2, false);
  size_t tot = 0;
  for (int k = 0; k < 3; k++)
    for (auto &d : m.dat[k]) tot += d.rec.size() * d.nwave;
  size_t pass = a.want.size() + b.want.size() + c.want.size();
  if (pass && pass < tot) g.nontrivial();
  g.label(pass == tot ? "all pass" : pass ? "some pass" : "none pass");
  bool interleave = g.flip();
  if (interleave)
  {
    g.label("interleaved");
    while (!(a.done && b.done && c.done && a2.done))
    {
      if (!a.done) a.step(g);
      if (!b.done) b.step(g);
      if (!c.done) c.step(g);
      if (!a2.done) a2.step(g);
    }
  }
  else
  {
    while (!a.done) a.step(g);
    while (!b.done) b.step(g);
    while (!c.done) c.step(g);
  }
  // an iterator at its end stays there
  a.step(g); b.step(g); c.step(g); a.step(g);
  std::string d = diff(m, from_c(&in.o));
  if (!d.empty()) fail("iterating changed the dataset: %s", d.c_str());
}

static bool reg = (
  register_prop({"P07", "filter selects by its criteria",
    "Random datasets and filter specifications whose limits are drawn from the data (values on the limit, just outside, generic); every "
    "table, record, channel, value and flag of the output compared with a reference model of the criteria. Non-trivial: some data pass "
    "and some are rejected.",
    90000, 1200000, run_select,
    {"Every data table's INSNAME resolves and has as many channels as its OI_WAVELENGTH", "TARGET_IDs are unique",
     "limits coincide with computed baselines only where the length is exact"}, 200}),
  register_prop({"P08", "filter output is self-contained",
    "Random datasets and filters; the output's references are resolved, tables nobody refers to looked for, the input compared before and "
    "after and then freed before the output is used, and the output written and read back. Non-trivial: output has data.",
    60000, 600000, run_contained, {"Every reference in the input resolves"}, 200}),
  register_prop({"P09", "filter laws",
    "Random datasets and filters: the default filter is the identity on referenced tables, filtering is idempotent, criteria commute and "
    "compose, targets partition the data, and filtering agrees with iterating. Non-trivial: the result has data.",
    60000, 600000, run_laws, {"Every reference in the input resolves", "OI_INSPOL is left out of idempotence when its instrument was pruned"}, 200}),
  register_prop({"P10", "iterators",
    "Random datasets (incl. tables without rows) and filters; three iterators, alone or interleaved, compared datum by datum with a "
    "reference model: order, table number, record, channel, pointers, uv coordinates, end. Non-trivial: some data pass and some do not.",
    90000, 900000, run_iter, {"Every data table's INSNAME resolves and has as many channels as its OI_WAVELENGTH"}, 200}),
  true);

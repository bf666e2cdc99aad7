// Datasets whose tables do not fit together: names and numbers nobody defines,
// names defined more than once, channel counts which differ.
#include "fits.h"
#include "merge_ref.h"
#include "misfit.h"
#include "ref_check.h"
#include "walk.h"
#include <set>
#include <unistd.h>

static void do_filter(Gen &g, const MDS &m, Oi &in)
{
  FSpec f = gen_spec(g, m);
  g.note(show(f));
  Oi out;
  oi_filter_spec c;
  to_c(f, &c);
  memset(&out.o, 'Q', sizeof out.o);
  apply_oi_filter(&in.o, &c, &out.o);
  out.live = true;
  MDS want = ref_filter(m, f), got = from_c(&out.o);
  std::string d = diff(want, got);
  if (!d.empty()) fail("filter output differs: %s", d.c_str());
  g.label("filtered");
}
static void do_iterate(Gen &g, const MDS &m, Oi &in)
{
  FSpec f = gen_spec(g, m, g.chance(40) ? 0 : -1);
  g.note(show(f));
  Walk<ItV> a; Walk<It2> b; Walk<It3> c;
  a.start(&in.o, m, f, false);
  b.start(&in.o, m, f, false);
  c.start(&in.o, m, f, false);
  while (!a.done) a.step(g);
  while (!b.done) b.step(g);
  while (!c.done) c.step(g);
  g.label("iterated");
}
static void do_merge(Gen &g, const MDS &m, Oi &in)
{
  MDS other;
  if (g.chance(50)) { GenOpt o; o.maxtab = 1; other = gen_ds(g, o); }
  else other = g.flip() ? m : gen_misfit(g);
  bool first = g.flip();
  Oi in2(other, g.flip()), out;
  if (first) merge_oi_fits(&out.o, &in.o, &in2.o, NULL);
  else merge_oi_fits(&out.o, &in2.o, &in.o, NULL);
  out.live = true;
  MDS got = from_c(&out.o);
  const MDS *v[2] = {first ? &m : &other, first ? &other : &m};
  size_t pos[4] = {0, 0, 0, 0}, ppos = 0;
  auto unique = [](const char *what, auto &l, auto name) {
    std::set<std::string> s;
    for (auto &x : l) if (!s.insert(x.*name).second) fail("%s '%s' is not unique in the merged dataset", what, (x.*name).c_str());
  };
  unique("INSNAME", got.wave, &MWave::insname);
  unique("ARRNAME", got.arr, &MArray::arrname);
  unique("CORRNAME", got.corr, &MCorr::corrname);
  auto tid_ok = [&](const MDS &x, int a, int b, const std::string &what) {
    const MTarg *t1 = find_targ(x, a), *t2 = find_targ(got, b);
    if (!t1) { if (b != 0) fail("%s: TARGET_ID %d of no target became %d", what.c_str(), a, b); }
    else if (!t2 || t1->name != t2->name) fail("%s: target '%s' became '%s'", what.c_str(), t1->name.c_str(), t2 ? t2->name.c_str() : "(missing)");
  };
  auto ins_ok = [&](const MDS &x, const std::string &a, const std::string &b, const std::string &what) {
    const MWave *w1 = find_wave(x, a), *w2 = find_wave(got, b);
    if (!w1) { if (b != "") fail("%s: name '%s' of no instrument became '%s'", what.c_str(), a.c_str(), b.c_str()); }
    else if (!w2 || !same_wave(*w1, *w2)) fail("%s: instrument '%s' became '%s'", what.c_str(), a.c_str(), b.c_str());
  };
  auto arr_ok = [&](const MDS &x, const std::string &a, const std::string &b, const std::string &what) {
    const MArray *w1 = a.empty() ? nullptr : find_array(x, a), *w2 = find_array(got, b);
    if (!w1) { if (b != "") fail("%s: name '%s' of no array became '%s'", what.c_str(), a.c_str(), b.c_str()); }
    else if (!w2 || !same_array(*w1, *w2)) fail("%s: array '%s' became '%s'", what.c_str(), a.c_str(), b.c_str());
  };
  for (int n = 0; n < 2; n++)
  {
    for (int k = 0; k < 4; k++)
      for (auto &d : v[n]->dat[k])
      {
        std::string what = strf("%s of input %d", kindname[k], n + 1);
        if (pos[k] >= got.dat[k].size()) fail("%s is missing in the output", what.c_str());
        const MData &q = got.dat[k][pos[k]++];
        MData w = d;
        if (w.rev == 1 && k != FLUX)
        {
          w.rev = 2;
          for (auto &r : w.rec) r.time = 0;
        }
        w.arrname = q.arrname; w.insname = q.insname; w.corrname = q.corrname;
        if (q.rec.size() != d.rec.size()) fail("%s: %zu records became %zu", what.c_str(), d.rec.size(), q.rec.size());
        for (size_t i = 0; i < d.rec.size(); i++)
        {
          tid_ok(*v[n], d.rec[i].tid, q.rec[i].tid, what);
          w.rec[i].tid = q.rec[i].tid;
        }
        std::string df = diff(w, q);
        if (!df.empty()) fail("%s: %s", what.c_str(), df.c_str());
        ins_ok(*v[n], d.insname, q.insname, what);
        arr_ok(*v[n], d.arrname, q.arrname, what);
        const MCorr *c1 = d.corrname.empty() ? nullptr : find_corr(*v[n], d.corrname), *c2 = find_corr(got, q.corrname);
        if (!c1) { if (q.corrname != "") fail("%s: name '%s' of no OI_CORR became '%s'", what.c_str(), d.corrname.c_str(), q.corrname.c_str()); continue; }
        if (!c2) fail("%s: OI_CORR '%s' is missing in the output", what.c_str(), q.corrname.c_str());
        MCorr c = *c1;
        c.corrname = c2->corrname;
        df = diff(c, *c2);
        if (!df.empty()) fail("%s: correlations: %s", what.c_str(), df.c_str());
      }
    for (auto &p : v[n]->pol)
    {
      std::string what = strf("OI_INSPOL of input %d", n + 1);
      if (ppos >= got.pol.size()) fail("%s is missing in the output", what.c_str());
      const MPol &q = got.pol[ppos++];
      MPol w = p;
      w.arrname = q.arrname;
      if (q.rec.size() != p.rec.size()) fail("%s: %zu records became %zu", what.c_str(), p.rec.size(), q.rec.size());
      for (size_t i = 0; i < p.rec.size(); i++)
      {
        tid_ok(*v[n], p.rec[i].tid, q.rec[i].tid, what);
        ins_ok(*v[n], p.rec[i].insname, q.rec[i].insname, what);
        w.rec[i].tid = q.rec[i].tid;
        w.rec[i].insname = q.rec[i].insname;
      }
      std::string df = diff(w, q);
      if (!df.empty()) fail("%s: %s", what.c_str(), df.c_str());
      arr_ok(*v[n], p.arrname, q.arrname, what);
    }
  }
  g.label("merged");
}
static void do_check(Gen &g, const MDS &m, Oi &in)
{
  for (int i : g.perm((int)all_checks.size()))
  {
    const CheckDef &c = all_checks[i];
    Verdict w = c.model(m);
    oi_check_result res;
    memset(&res, 'Q', sizeof res);
    int lv = c.fn(&in.o, &res);
    if (lv != w.level || res.numBreach != (int)w.loc.size())
      fail("check of %s returned level %d with %d breaches, expected %d with %zu%s%s", c.name, lv, res.numBreach, w.level, w.loc.size(),
           w.loc.empty() ? "" : ": ", w.loc.empty() ? "" : w.loc[0].c_str());
    std::string rep = want_report(c, w);
    const char *s = format_check_result(&res);
    if ((s ? s : "") != rep) fail("report of %s is\n%sexpected\n%s", c.name, s ? s : "absent\n", rep.c_str());
    free_check_result(&res);
  }
  g.label("checked");
}
static void do_summary(Gen &g, const MDS &m, Oi &in)
{
  const char *s = format_oi_fits_summary(&in.o);
  if (!s || !*s) fail("no summary");
  long n[3] = {-1, -1, -1}, w[3] = {0, 0, 0};
  count_oi_fits_data(&in.o, &n[0], &n[1], &n[2]);
  for (int k = 0; k < 3; k++)
  {
    for (auto &d : m.dat[k])
      for (auto &r : d.rec)
        for (char f : r.flag) w[k] += !f;
    if (n[k] != w[k]) fail("%ld %s data counted, there are %ld", n[k], kindname[k], w[k]);
  }
  auto look = [&](const std::string &a, const std::string &i, const std::string &c) {
    if ((oi_fits_lookup_array(&in.o, a.c_str()) != nullptr) != (find_array(m, a) != nullptr)) fail("lookup of array '%s'", a.c_str());
    if ((oi_fits_lookup_wavelength(&in.o, i.c_str()) != nullptr) != (find_wave(m, i) != nullptr)) fail("lookup of instrument '%s'", i.c_str());
    if ((oi_fits_lookup_corr(&in.o, c.c_str()) != nullptr) != (find_corr(m, c) != nullptr)) fail("lookup of OI_CORR '%s'", c.c_str());
  };
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      look(d.arrname, d.insname, d.corrname);
      for (auto &r : d.rec)
      {
        if ((oi_fits_lookup_target(&in.o, r.tid) != nullptr) != (find_targ(m, r.tid) != nullptr)) fail("lookup of target %d", r.tid);
        for (int i = 0; i < nsta(k); i++) oi_fits_lookup_element(&in.o, d.arrname.c_str(), r.sta[i]);
      }
    }
  g.label("summarised");
}
static void do_write(Gen &g, const MDS &m, Oi &in)
{
  for (auto &w : m.wave) if (w.wave.empty()) return;
  for (auto &p : m.pol) if (p.nwave == 0) return;
  std::string fn = scratch_file("mw.fits");
  unlink(fn.c_str());
  STATUS st = 0;
  write_oi_fits(fn.c_str(), in.o, &st);
  if (st) fail("writing failed: status %d", st);
  Oi back;
  read_oi_fits(fn.c_str(), &back.o, &st);
  unlink(fn.c_str());
  if (st) fail("reading back failed: status %d", st);
  back.live = true;
  CmpOpt co;
  co.header_date = false;
  co.kw_tol = true;
  std::string d = diff(upgraded(m), from_c(&back.o), co);
  if (!d.empty()) fail("differs after write and read: %s", d.c_str());
  g.label("written and read");
}
static void run_misfit(Gen &g)
{
  MDS m = gen_misfit(g);
  Oi in;
  load(g, m, in);
  int n = g.range(1, 3);
  for (int i = 0; i < n; i++)
  {
    switch (g.below(8))
    {
    case 0: case 1: do_filter(g, m, in); break;
    case 2: case 3: do_iterate(g, m, in); break;
    case 4: case 5: do_merge(g, m, in); break;
    case 6: if (g.flip()) do_check(g, m, in); else do_summary(g, m, in); break;
    default: do_write(g, m, in); break;
    }
    g.evals++;
    std::string d = diff(m, from_c(&in.o));
    if (!d.empty()) fail("the dataset was changed: %s", d.c_str());
  }
}
static bool reg = (register_prop({"P26", "misfitting datasets",
  "Random datasets with 1-5 misfits: data, polarisation and records naming instruments, arrays, correlations or targets which do not "
  "exist or almost do, instruments with more or fewer channels than their data, dropped and repeated tables and targets - built in "
  "memory or read from a file - each then filtered, iterated, merged, checked, summarised, looked up in, or written and read "
  "back, under sanitizers, each result compared with the model used for fitting datasets. Non-trivial: at least one misfit.",
  60000, 600000, run_misfit,
  {"The first of tables with one name is meant"}, 200}), true);

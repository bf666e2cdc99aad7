// Conformity checks and their reports.
#include "ref_check.h"
#include <cstring>
#include <fcntl.h>
#include <unistd.h>

static MDS gen_any(Gen &g)
{
  MDS m = gen_conforming(g);
  int n = g.one({0, 1, 1, 1, 2, 3, 5});
  std::string s = break_ds(g, m, n);
  g.note("breaches: " + s + dump(m));
  return m;
}
static void run_verdict(Gen &g)
{
  MDS m = gen_any(g);
  Oi in(m);
  int breaches = 0;
  for (int i : g.perm((int)all_checks.size()))
  {
    const CheckDef &c = all_checks[i];
    Verdict w = c.model(m);
    oi_check_result res;
    memset(&res, 'Q', sizeof res);
    int lv = c.fn(&in.o, &res);
    if (lv != w.level || res.level != w.level)
      fail("check of %s returned level %d (result %d), expected %d%s%s", c.name, lv, res.level, w.level, w.loc.empty() ? "" : ": ", w.loc.empty() ? "" : w.loc[0].c_str());
    if (res.numBreach != (int)w.loc.size()) fail("check of %s found %d breaches, expected %zu", c.name, res.numBreach, w.loc.size());
    for (size_t k = 0; k < w.loc.size() && k < 9; k++)
      if (w.loc[k] != res.location[k]) fail("check of %s: breach %zu is at '%s', expected '%s'", c.name, k + 1, res.location[k], w.loc[k].c_str());
    free_check_result(&res);
    if (w.level) { breaches++; g.label(c.name); }
    if (w.loc.size() > 9) g.label("more than 9 places");
    g.evals++;
  }
  if (!breaches) g.label("conforming");
  else g.nontrivial();
  std::string d = diff(m, from_c(&in.o));
  if (!d.empty()) fail("checking changed the dataset: %s", d.c_str());
}
static std::string captured(oi_check_result *r)
{
  std::string f = scratch_file("report");
  fflush(stdout);
  int save = dup(1), fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 1);
  close(fd);
  print_check_result(r);
  fflush(stdout);
  dup2(save, 1);
  close(save);
  std::string s;
  FILE *p = fopen(f.c_str(), "r");
  char buf[4096];
  size_t n;
  while (p && (n = fread(buf, 1, sizeof buf, p)) > 0) s.append(buf, n);
  if (p) fclose(p);
  return s;
}
static void run_report(Gen &g)
{
  // one kind of breach in many places
  MDS m = gen_conforming(g);
  int n = g.one({1, 2, 8, 9, 10, 11, 12, 30, 100});
  int kind = (int)g.below(8);
  m.h.content = "OIFITS2";
  GenOpt o;
  o.maxtab = 1; o.maxwave = 2; o.maxtarg = 2; o.conforming = true; o.arrname_always = true;
  auto grow = [&](Kind k) {
    if (m.dat[k].empty()) m.dat[k].push_back(gen_data(g, o, m, k));
    MData &d = m.dat[k][0];
    if (d.rec.empty()) return;
    MRec r = d.rec[0];
    d.rec.assign(n, r);
  };
  switch (kind)
  {
  case 0: grow(VIS); for (auto &r : m.dat[VIS][0].rec) r.tid = 9999; break;
  case 1: grow(VIS2); for (auto &r : m.dat[VIS2][0].rec) r.time = 5; break;
  case 2: grow(T3); for (auto &r : m.dat[T3][0].rec) r.col[0][0] = 50, r.flag[0] = 0; break;
  case 3: grow(VIS2); for (auto &r : m.dat[VIS2][0].rec) r.col[1][0] = -1, r.flag[0] = 0; break;
  case 4: for (int i = 0; i < n; i++) { MTarg t = m.targets.t[0]; t.id = 5000 + i; m.targets.t.push_back(t); } break;
  case 5: while ((int)m.arr.size() < n) { MArray a = m.arr.empty() ? MArray() : m.arr[0]; a.arrname = strf("more%zu", m.arr.size()); m.arr.push_back(a); } for (auto &a : m.arr) a.frame = gen_text(g, 68); break;
  case 6: { MWave &w = m.wave[0]; int old = (int)w.wave.size(); (void)old; MWave x = w; x.insname = "descending"; x.wave.clear(); x.band.clear(); for (int i = 0; i <= n; i++) { x.wave.push_back(1e-6f - 1e-9f * i); x.band.push_back(1e-8f); } m.wave.push_back(x); break; }
  case 7: while ((int)m.dat[VIS].size() < n && n <= 30) m.dat[VIS].push_back(gen_data(g, o, m, VIS)); for (auto &d : m.dat[VIS]) { d.amptyp = g.one<const char *>({"differential", "absolute"}); d.phityp = "absolute"; d.userefmap = !d.userefmap && d.nwave <= 10; for (auto &x : d.rec) x.refmap.assign(d.userefmap ? d.nwave * d.nwave : 0, 0); } break;
  }
  if (g.chance(30)) break_ds(g, m, 2);
  g.note(strf("kind %d n %d ", kind, n) + dump(m));
  Oi in(m);
  std::vector<oi_check_result> held(all_checks.size());
  std::vector<std::string> text(all_checks.size());
  for (size_t i = 0; i < all_checks.size(); i++)
  {
    memset((void *)&held[i], 'Q', sizeof held[i]);
    all_checks[i].fn(&in.o, &held[i]);
    text[i] = want_report(all_checks[i], all_checks[i].model(m));
    if (text[i].find("[List truncated]") != std::string::npos) { g.label("truncated"); g.nontrivial(); }
    else if (!text[i].empty()) { g.label("not truncated"); g.nontrivial(); }
  }
  if (g.flip()) { free_oi_fits(&in.o); in.live = false; } // results stand on their own
  for (int i : g.perm((int)all_checks.size()))
  {
    const char *s = format_check_result(&held[i]);
    if (!s != text[i].empty()) fail("report of %s is %s, expected %s", all_checks[i].name, s ? s : "absent", text[i].empty() ? "none" : text[i].c_str());
    if (s && text[i] != s) fail("report of %s is\n%sexpected\n%s", all_checks[i].name, s, text[i].c_str());
    if (g.chance(20))
    {
      std::string p = captured(&held[i]);
      if (p != text[i]) fail("printed report of %s is\n%sexpected\n%s", all_checks[i].name, p.c_str(), text[i].c_str());
      g.label("printed");
    }
    g.evals++;
  }
  for (auto &h : held) free_check_result(&h);
}
static bool reg = (
  register_prop({"P14", "conformity verdicts",
    "Conforming v1 and v2 datasets with 0-5 breaches out of 30 kinds (missing tables, revisions, keywords, references, negative "
    "errors, order, ...), in one or many places, at values on the limit; each of the 14 checks' level, count and places compared "
    "with a model of the standard. Non-trivial: at least one breach.",
    60000, 800000, run_verdict, {}, 200}),
  register_prop({"P15", "conformity reports",
    "One kind of breach in 1-100 places, others besides; the text of every report, printed and returned, compared with a model, after "
    "all checks were run and the dataset possibly freed. Non-trivial: at least one breach.",
    40000, 500000, run_report, {}, 200}),
  true);

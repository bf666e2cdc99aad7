// The command-line utilities, and the filter's command-line options.
#include "ref_check.h"
#include "ref_filter.h"
#include "tool.h"
#include <cmath>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>

static MDS read_ds(const std::string &f, std::string *summary = nullptr, std::string *reports = nullptr)
{
  Oi o;
  memset(&o.o, 'Q', sizeof o.o);
  STATUS st = 0;
  read_oi_fits(f.c_str(), &o.o, &st);
  if (st) fail("cannot read %s: status %d", f.c_str(), st);
  o.live = true;
  if (summary) *summary = format_oi_fits_summary(&o.o);
  MDS m = from_c(&o.o);
  if (reports)
    for (auto &c : all_checks) *reports += want_report(c, c.model(m));
  return m;
}
// text with single blanks, as far as layout does not matter
static std::string squeeze(const std::string &s)
{
  std::string o;
  for (char c : s)
    if (!isspace((unsigned char)c)) o += c;
    else if (!o.empty() && o.back() != ' ') o += ' ';
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
static void must_contain(const std::string &out, const std::string &what, const char *name)
{
  if (squeeze(out).find(squeeze(what)) == std::string::npos)
    fail("output of %s does not contain '%s' but is '%s'", name, squeeze(what).substr(0, 1000).c_str(), squeeze(out).substr(0, 2000).c_str());
}
static void compare(const MDS &want, const std::string &file, const char *name)
{
  if (!exists(file)) fail("%s succeeded without writing its output file", name);
  CmpOpt c;
  c.header_date = false;
  c.kw_tol = true;
  std::string d = diff(upgraded(want), read_ds(file), c);
  if (!d.empty()) fail("output file of %s differs: %s", name, d.c_str());
}
static void option(Gen &g, std::vector<std::string> &args, const std::string &name, const std::string &value)
{
  if (g.flip()) args.push_back("--" + name + "=" + value);
  else { args.push_back("--" + name); args.push_back(value); }
}
static std::string num(double x) { return strf("%.17g", x); }
// The options which specify a filter. `all` gives those at their default too
static std::vector<std::string> options(Gen &g, const FSpec &f, int pct_default)
{
  FSpec d;
  std::vector<std::vector<std::string>> parts;
  auto add = [&](bool differs, const char *n, const std::string &v) {
    if (!differs && !g.chance(pct_default)) return;
    std::vector<std::string> p;
    if (g.chance(10)) option(g, p, n, v[0] >= '0' && v[0] <= '9' ? "1" : "1"); // the last one counts
    option(g, p, n, v);
    parts.push_back(p);
  };
  add(f.arrname != d.arrname, "arrname", f.arrname);
  add(f.insname != d.insname, "insname", f.insname);
  add(f.corrname != d.corrname, "corrname", f.corrname);
  add(f.target_id != d.target_id, "target-id", strf("%d", f.target_id));
  add(f.mjd[0] != d.mjd[0], "mjd-min", num(f.mjd[0]));
  add(f.mjd[1] != d.mjd[1], "mjd-max", num(f.mjd[1]));
  add(f.wave[0] != d.wave[0], "wave-min", num(1e9 * f.wave[0]));
  add(f.wave[1] != d.wave[1], "wave-max", num(1e9 * f.wave[1]));
  add(f.bas[0] != d.bas[0], "bas-min", num(f.bas[0]));
  add(f.bas[1] != d.bas[1], "bas-max", num(f.bas[1]));
  add(f.uvrad[0] != d.uvrad[0], "uvrad-min", num(f.uvrad[0]));
  add(f.uvrad[1] != d.uvrad[1], "uvrad-max", num(f.uvrad[1]));
  add(f.snr[0] != d.snr[0], "snr-min", num(f.snr[0]));
  add(f.snr[1] != d.snr[1], "snr-max", num(f.snr[1]));
  auto flag = [&](bool v) { return std::string(v ? g.one<const char *>({"1", "1", "2", "-1"}) : "0"); };
  add(f.vis != d.vis, "accept-vis", flag(f.vis));
  add(f.vis2 != d.vis2, "accept-vis2", flag(f.vis2));
  add(f.t3amp != d.t3amp, "accept-t3amp", flag(f.t3amp));
  add(f.t3phi != d.t3phi, "accept-t3phi", flag(f.t3phi));
  add(f.flux != d.flux, "accept-flux", flag(f.flux));
  add(f.flagged != d.flagged, "accept-flagged", flag(f.flagged));
  std::vector<std::string> args;
  for (int i : g.perm((int)parts.size())) args.insert(args.end(), parts[i].begin(), parts[i].end());
  return args;
}
// What the options can express
static void expressible(FSpec &f)
{
  for (auto s : {&f.arrname, &f.insname, &f.corrname})
  {
    if (s->empty() || (*s)[0] == '-') *s = "*";
    for (unsigned char c : *s) if (c < 32 || c > 126) { *s = "*"; break; }
  }
  for (double *x : {f.mjd, f.bas, f.uvrad}) for (int i = 0; i < 2; i++) if (!std::isfinite(x[i])) x[i] = i;
  for (float *x : {f.wave, f.snr}) for (int i = 0; i < 2; i++) if (!std::isfinite(x[i])) x[i] = i ? 1e-5f : 0;
  for (int i = 0; i < 2; i++) f.wave[i] = (float)(1e-9 * (1e9 * (double)f.wave[i]));
}
static MDS cli_ds(Gen &g, int version)
{
  GenOpt o;
  o.version = version;
  o.maxtab = g.one({1, 2, 3});
  o.maxrec = 3;
  o.maxwave = 4;
  o.maxelem = 3;
  o.maxtarg = 3;
  MDS m = gen_ds(g, o);
  // only files of version 2 say so (a file without the keyword is version 1)
  if (version == 1 ? g.chance(90) : version == 0 && g.flip()) m.h.content = g.chance(80) ? "" : "OIFITS1";
  return m;
}
static std::string make_file(Gen &g, const char *name, const MDS &m)
{
  std::string f = scratch_file(name);
  Layout l = gen_layout(g);
  write_bytes(f, encode(to_fits(g, m, l)));
  return f;
}

// The same file by a longer name
static std::string longer(Gen &g, const std::string &f)
{
  size_t p = f.rfind('/');
  std::string o = f.substr(0, p);
  for (int n = (int)g.below(1 + (950 - f.size()) / 2); n > 0; n--) o += "/.";
  return o + f.substr(p);
}
static void run_cli(Gen &g)
{
  std::string out = scratch_file("cli-out.fits");
  std::vector<std::string> in;
  for (int i = 0; i < 4; i++) in.push_back(scratch_file(strf("cli-in%d.fits", i).c_str()));
  auto clean = [&]() { unlink((scratch_file("cli-outdir") + "/file").c_str()); rmdir(scratch_file("cli-outdir").c_str()); unlink(out.c_str()); for (auto &f : in) unlink(f.c_str()); };
  clean();
  static const std::vector<std::string> names = {"oifits-filter", "oifits-merge", "oifits-upgrade", "oifits-check"};
  int t = (int)g.below(4);
  // what goes wrong
  enum { OK, OK2, OK3, OUT_EXISTS, BAD_IN, NO_IN, USAGE, NO_DIR, OUT_DIR, OUT_IN, FULL } how = (decltype(OK))g.below(11);
  int version = t == 2 ? g.one({1, 1, 1, 0, 2}) : g.one({2, 2, 1, 0});
  int nin = t == 1 ? g.range(2, 4) : 1;
  std::vector<MDS> m;
  std::vector<std::string> before, sum(nin), rep(nin);
  for (int i = 0; i < nin; i++)
  {
    MDS d = t == 3 && g.flip() ? gen_conforming(g) : cli_ds(g, version);
    if (t == 3 && g.flip()) g.note(break_ds(g, d, g.range(1, 3)) + "; ");
    make_file(g, strf("cli-in%d.fits", i).c_str(), d);
    m.push_back(read_ds(in[i], &sum[i], &rep[i]));
    g.note(dump(m.back()));
  }
  if (how == BAD_IN)
  {
    int i = (int)g.below(nin);
    std::string b = read_bytes(in[i]);
    switch (g.below(3)) { case 0: b = "SIMPLE"; break; case 1: b = ""; break; case 2: b = b.substr(0, 2880); break; }
    write_bytes(in[i], b);
  }
  if (how == NO_IN) unlink(in[g.below(nin)].c_str());
  for (auto &f : in) before.push_back(exists(f) ? read_bytes(f) : "");
  std::string old;
  bool there = how == OUT_EXISTS || ((how == BAD_IN || how == NO_IN || how == USAGE) && g.flip());
  if (there)
  {
    if (g.flip()) old = "something else";
    else { make_file(g, "cli-out.fits", m[0]); old = read_bytes(out); }
    write_bytes(out, old);
  }
  std::string o = out;
  if (how == NO_DIR) o = scratch_file("nosuchdir") + "/x.fits";
  // the output is a directory, or one of the inputs
  std::string outdir = scratch_file("cli-outdir"), inside = outdir + "/file";
  bool emptydir = false;
  if (how == OUT_DIR)
  {
    mkdir(outdir.c_str(), 0700);
    emptydir = t != 0 && g.flip();
    if (!emptydir) write_bytes(inside, "kept");
    o = outdir;
  }
  if (how == OUT_IN) o = in[g.below(nin)];
  std::vector<std::string> args;
  FSpec f;
  bool clobber = false, over_input = false;
  switch (t)
  {
  case 0:
  {
    if (g.chance(80)) f = gen_spec(g, m[0]);
    expressible(f);
    args = options(g, f, 5);
    clobber = how != OUT_IN && g.flip();
    if (clobber) args.insert(args.begin() + (g.flip() ? 0 : args.size()), g.one<const char *>({"-o", "--clobber"}));
    if (clobber && how == OUT_EXISTS && g.chance(20)) { over_input = true; unlink(out.c_str()); o = in[0]; there = false; }
    std::vector<std::string> files = {in[0], o};
    if (how == USAGE)
    {
      switch (g.below(4))
      {
      case 0: files.pop_back(); break;
      case 1: files.push_back("third"); break;
      case 2: args.push_back("--nonsense"); break;
      case 3: args.push_back("--mjd-min=abc"); break;
      }
    }
    if (g.flip()) args.insert(args.end(), files.begin(), files.end());
    else args.insert(args.begin(), files.begin(), files.end());
    g.note(show(f) + "\n");
    break;
  }
  case 1:
    args = {o};
    for (int i = 0; i < nin; i++) args.push_back(in[i]);
    if (how == USAGE) args.resize(g.below(3));
    break;
  case 2:
    args = {in[0], o, gen_text(g, 68), gen_text(g, 68), gen_text(g, 68)};
    if (g.chance(10)) args[2 + g.below(3)] = std::string(200, 'l');
    if (how == USAGE) args.resize(g.below(5));
    break;
  case 3:
    args = {in[0]};
    if (how == USAGE) { if (g.flip()) args.clear(); else args.push_back("more"); }
    break;
  }
  if (g.chance(10))
    for (auto &a : args)
      if ((a == o || std::find(in.begin(), in.end(), a) != in.end()) && g.flip()) a = longer(g, a);
  std::string cmd = names[t];
  for (auto &a : args) cmd += " '" + a + "'";
  g.note(cmd);
  g.label(names[t]);
  size_t limit = 0;
  if (how == FULL && t != 3)
  {
    // what would be written
    MDS w = m[0];
    if (t == 0) w = ref_filter(m[0], f);
    if (t == 1)
    {
      std::vector<Oi *> c;
      GList *l = nullptr;
      for (auto &x : m) { c.push_back(new Oi(x)); l = g_list_append(l, &c.back()->o); }
      Oi q;
      merge_oi_fits_list(l, &q.o);
      q.live = true;
      g_list_free(l);
      w = from_c(&q.o);
      for (auto x : c) delete x;
    }
    Oi q(w);
    std::string tmp = scratch_file("cli-size.fits");
    unlink(tmp.c_str());
    STATUS st = 0;
    write_oi_fits(tmp.c_str(), q.o, &st);
    size_t size = read_bytes(tmp).size();
    unlink(tmp.c_str());
    // (a loss of the last buffer only is not noticed)
    if (st == 0 && size > 2 * 5760) limit = 1 + g.below(size - 5760);
  }
  Result r = tool(names[t], args, limit);

  bool makes = t != 3;
  bool expect_ok = how != BAD_IN && how != NO_IN && how != USAGE;
  std::string reason;
  if (expect_ok && makes && how == NO_DIR) { expect_ok = false; reason = "output directory missing"; }
  if (expect_ok && makes && there && !(t == 0 && clobber)) { expect_ok = false; reason = "output exists"; }
  if (expect_ok && makes && how == OUT_DIR) { expect_ok = false; reason = emptydir ? "output is an empty directory" : "output is a directory"; }
  if (expect_ok && makes && how == OUT_IN) { expect_ok = false; reason = "output is an input"; }
  if (expect_ok && t == 2 && m[0].h.content == "OIFITS2") { expect_ok = false; reason = "already version 2"; }
  if (expect_ok && t == 2 && m[0].arr.empty()) { expect_ok = false; reason = "no OI_ARRAY"; }
  bool full = false;
  if (expect_ok && limit) { expect_ok = false; full = true; reason = "medium full"; }
  if (how == USAGE) reason = "usage";
  if (how == BAD_IN) reason = "bad input";
  if (how == NO_IN) reason = "no input";
  if (!reason.empty()) g.label(reason);
  // inputs are never touched
  for (size_t i = 0; i < in.size(); i++)
    if (!(over_input && i == 0 && expect_ok) && (exists(in[i]) ? read_bytes(in[i]) : "") != before[i]) fail("%s changed its input file", names[t].c_str());
  if (!expect_ok)
  {
    int want = how == USAGE ? 2 : 1;
    if (r.code != want) fail("exit code %d, expected %d (%s): %s%s", r.code, want, reason.c_str(), r.out.substr(0, 500).c_str(), r.err.substr(0, 500).c_str());
    if (there && (!exists(out) || read_bytes(out) != old)) fail("%s failed (%s) but changed its existing output file", names[t].c_str(), reason.c_str());
    if (how == OUT_DIR)
    {
      struct stat sb;
      if (lstat(outdir.c_str(), &sb) || !S_ISDIR(sb.st_mode) || (!emptydir && (!exists(inside) || read_bytes(inside) != "kept")))
        fail("%s failed (%s) but changed the directory", names[t].c_str(), reason.c_str());
    }
    if (!there && !full && exists(out)) fail("%s failed (%s) but left an output file", names[t].c_str(), reason.c_str());
    if (r.out.empty() && r.err.empty()) fail("%s failed (%s) without a message", names[t].c_str(), reason.c_str());
    clean();
    return;
  }
  if (r.code) fail("exit code %d, expected success: %s %s", r.code, r.out.substr(0, 500).c_str(), r.err.substr(0, 500).c_str());
  g.nontrivial();
  g.label(names[t] + " succeeded");
  switch (t)
  {
  case 0:
  {
    MDS want = ref_filter(m[0], f);
    compare(want, o, "oifits-filter");
    must_contain(r.out, sum[0], "oifits-filter");
    // the summary of what was written
    Oi w(want);
    must_contain(r.out, format_oi_fits_summary(&w.o), "oifits-filter");
    oi_filter_spec c;
    to_c(f, &c);
    must_contain(r.out, format_oi_filter(&c), "oifits-filter");
    break;
  }
  case 1:
  {
    std::vector<Oi *> c;
    GList *l = nullptr;
    for (auto &x : m) { c.push_back(new Oi(x)); l = g_list_append(l, &c.back()->o); }
    Oi q;
    merge_oi_fits_list(l, &q.o);
    q.live = true;
    g_list_free(l);
    std::string s = format_oi_fits_summary(&q.o);
    MDS want = from_c(&q.o);
    for (auto x : c) delete x;
    compare(want, o, "oifits-merge");
    must_contain(r.out, s, "oifits-merge");
    break;
  }
  case 2:
  {
    MDS want = m[0];
    want.h.origin = args[2].substr(0, FLEN_VALUE - 1);
    want.h.observer = args[3].substr(0, FLEN_VALUE - 1);
    want.h.insmode = args[4].substr(0, FLEN_VALUE - 1);
    // a header card holds less than the buffer
    for (auto p : {&want.h.origin, &want.h.observer, &want.h.insmode}) if (p->size() > 68) p->resize(68);
    compare(want, o, "oifits-upgrade");
    break;
  }
  case 3:
  {
    must_contain(r.out, sum[0], "oifits-check");
    std::string tailtext = r.out;
    if (rep[0].empty()) { must_contain(r.out, "All checks passed", "oifits-check"); g.label("all checks pass"); }
    else
    {
      must_contain(r.out, rep[0], "oifits-check");
      if (r.out.find("All checks passed") != std::string::npos) fail("oifits-check reports breaches and that all checks passed");
      g.label("breaches");
    }
    break;
  }
  }
  clean();
}

// ------------------------------------------------------- options in a program
static void run_options(Gen &g)
{
  MDS m = cli_ds(g, g.one({2, 2, 1, 0}));
  int rounds = g.one({1, 2, 3});
  for (int i = 0; i < rounds; i++) // parsing again starts from the defaults
  {
    FSpec f = g.chance(90) ? gen_spec(g, m) : FSpec();
    expressible(f);
    std::vector<std::string> args = options(g, f, g.one({0, 10, 60}));
    std::vector<std::string> other = {"file"};
    if (g.flip()) { args.insert(args.begin(), "file"); } else args.push_back("file");
    args.insert(args.begin(), "prog");
    std::string cmd;
    for (auto &a : args) cmd += a + " ";
    g.note(cmd + "\n");
    std::vector<char *> v;
    for (auto &a : args) v.push_back(const_cast<char *>(a.c_str()));
    v.push_back(nullptr);
    int argc = (int)args.size();
    char **argv = v.data();
    GOptionContext *c = g_option_context_new("FILE");
    g_option_context_add_group(c, get_oi_filter_option_group());
    GError *e = nullptr;
    if (!g_option_context_parse(c, &argc, &argv, &e)) fail("options were refused: %s", e->message);
    g_option_context_free(c);
    if (argc != 2 || strcmp(argv[1], "file")) fail("options consumed other arguments");
    oi_filter_spec *u = get_user_oi_filter();
    auto bad = [&](const char *what, double got, double want) { fail("%s is %.17g, expected %.17g", what, got, want); };
    auto s = [&](const char *what, const char *got, const std::string &want) { if (want != got) fail("%s is '%s', expected '%s'", what, got, want.c_str()); };
#define D(what, got, want) if (!((got) == (want))) bad(what, got, want)
    s("ARRNAME pattern", u->arrname, f.arrname);
    s("INSNAME pattern", u->insname, f.insname);
    s("CORRNAME pattern", u->corrname, f.corrname);
    D("TARGET_ID", u->target_id, f.target_id);
    for (int k = 0; k < 2; k++)
    {
      D("MJD limit", u->mjd_range[k], f.mjd[k]);
      D("wavelength limit", u->wave_range[k], f.wave[k]);
      D("baseline limit", u->bas_range[k], f.bas[k]);
      D("UV radius limit", u->uvrad_range[k], f.uvrad[k]);
      D("SNR limit", u->snr_range[k], f.snr[k]);
    }
    D("accept vis", !!u->accept_vis, f.vis);
    D("accept vis2", !!u->accept_vis2, f.vis2);
    D("accept t3amp", !!u->accept_t3amp, f.t3amp);
    D("accept t3phi", !!u->accept_t3phi, f.t3phi);
    D("accept flux", !!u->accept_flux, f.flux);
    D("accept flagged", !!u->accept_flagged, f.flagged);
    // the description of the filter
    std::string w = "Filter accepts:\n";
    w += "  ARRNAME='" + f.arrname + "'\n  INSNAME='" + f.insname + "'\n  CORRNAME='" + f.corrname + "'\n";
    w += f.target_id >= 0 ? strf("  TARGET_ID=%d\n", f.target_id) : "  [Any TARGET_ID]\n";
    w += strf("  MJD: %.2f - %.2f\n  Wavelength: %.1f - %.1fnm\n  Baseline: %.1f - %.1fm\n  UV Radius: %.1g - %.1g waves\n  SNR: %.1f - %.1f\n",
              f.mjd[0], f.mjd[1], 1e9 * f.wave[0], 1e9 * f.wave[1], f.bas[0], f.bas[1], f.uvrad[0], f.uvrad[1], f.snr[0], f.snr[1]);
    auto type = [&](bool on, const char *name, const char *text) { w += on ? strf("  %s (%s)\n", name, text) : strf("  [%s not accepted]\n", name); };
    type(f.vis, "OI_VIS", "complex visibilities");
    type(f.vis2, "OI_VIS2", "squared visibilities");
    type(f.t3amp, "OI_T3 T3AMP", "triple amplitudes");
    type(f.t3phi, "OI_T3 T3PHI", "closure phases");
    type(f.flux, "OI_FLUX", "incoherent spectra");
    w += f.flagged ? "  All-flagged records\n" : "  [All-flagged records not accepted]\n";
    std::string d = format_oi_filter(u);
    if (squeeze(d) != squeeze(w)) fail("filter is described as '%s', expected '%s'", d.c_str(), w.c_str());
    if (i + 1 == rounds || g.flip())
    {
      Oi in(m), out;
      memset(&out.o, 'Q', sizeof out.o);
      apply_user_oi_filter(&in.o, &out.o);
      out.live = true;
      std::string x = diff(ref_filter(m, f), from_c(&out.o));
      if (!x.empty()) fail("the data the user's filter accepts differ: %s", x.c_str());
    }
    if (args.size() > 5) g.nontrivial();
    for (auto &a : args) if (!a.compare(0, 2, "--")) g.label(a.substr(0, a.find('=')));
    if (i) g.label("parsed again");
  }
}
static bool reg = (
  register_prop({"P21", "command-line utilities",
    "The four utilities (sanitized builds) are run on generated files with random options: normal runs, existing, unwritable or input "
    "file as output, missing, truncated or non-FITS input, bad usage. Exit code, messages, output file and untouched files are compared "
    "with the dataset, filter and check models and, for merging, the library in this process. Non-trivial: the run must succeed.",
    6000, 60000, run_cli, {"file names without CFITSIO extended syntax"}, 50}),
  register_prop({"P24", "filter options",
    "Random filters are written as command-line options (both spellings, any order, repeated, with and without defaults), parsed one to "
    "three times in a program, and compared with the filter, its description and the data accepted. Non-trivial: at least three options.",
    60000, 800000, run_options, {"patterns of printable characters which do not begin with a dash"}, 200}),
  true);

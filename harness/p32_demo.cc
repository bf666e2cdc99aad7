// The demonstration program: text to OIFITS file, and a list of a file's tables.
#include "said.h"
#include <algorithm>
#include "tool.h"
#include <cmath>
#include <cstring>

namespace {
std::string token(const std::string &s, size_t width)
{
  std::string o = s.substr(0, width);
  for (char &c : o) if ((unsigned char)c <= ' ' || (unsigned char)c > 126) c = '_';
  if (o.empty()) o = "x";
  return o;
}
// The text of a dataset of one table per type, in the form the examples under testdata have
struct Text {
  Gen &g;
  std::string s;
  int style;
  explicit Text(Gen &gen) : g(gen) { style = (int)g.below(3); }
  void gap()
  {
    if (s.empty()) return;
    switch (style)
    {
    case 0: s += ' '; break;
    case 1: s += '\n'; break;
    default: s += g.one<const char *>({" ", "\n", "  ", "\t", "\n\n", " \n "});
    }
  }
  Text &w(const std::string &x) { gap(); s += x; return *this; }
  Text &k(const char *n, const std::string &v) { return w(n).w(v); }
  Text &i(const char *n, long v) { return w(n).w(strf("%ld", v)); }
  std::string num(double v)
  {
    if (std::isnan(v)) return "nan";
    return strf(style == 2 && g.chance(30) ? "%+.17e" : "%.17g", v);
  }
  Text &d(const char *n, double v) { return w(n).w(num(v)); }
  Text &v(double x) { return w(num(x)); }
  Text &f(const char *n, float v) { return d(n, v); }
};
bool given(Gen &g) { return g.chance(65); }

// Makes the dataset what the text can say, and the text
std::string describe(Gen &g, MDS &m)
{
  Text t(g);
  MArray &a = m.arr[0];
  MWave &w = m.wave[0];
  a.arrname = token(a.arrname, 68);
  a.frame = token(a.frame, 68);
  w.insname = token(w.insname, 68);
  int n = 0;
  auto fix = [](std::string &s) { while (std::count(s.begin(), s.end(), '\'') + s.size() > 68) s.pop_back(); };
  auto name = [&](std::string &s) { s = token(s, 68); fix(s); return s; };
  t.k("OI_ARRAY arrname", name(a.arrname)).k("frame", name(a.frame));
  t.d("arrayx", a.x).d("arrayy", a.y).d("arrayz", a.z).i("nelement", a.elem.size());
  for (auto &e : a.elem)
  {
    e.sta_index = ++n;
    e.fovtype = token(e.fovtype, 6);
    t.k("tel_name", e.tel_name = token(e.tel_name, 16)).k("sta_name", e.sta_name = token(e.sta_name, 16));
    t.w("staxyz").v(e.xyz[0]).v(e.xyz[1]).v(e.xyz[2]).f("diameter", e.diameter).d("fov", e.fov).k("fovtype", e.fovtype);
  }
  t.i("OI_TARGET ntarget", m.targets.t.size());
  m.targets.usecategory = false;
  for (auto &x : m.targets.t)
  {
    x.name = token(x.name, 16);
    x.veltyp = token(x.veltyp, 8);
    x.veldef = token(x.veldef, 8);
    x.spectyp = token(x.spectyp, 16);
    t.i("target_id", x.id).k("target", x.name).d("raep0", x.raep0).d("decep0", x.decep0).f("equinox", x.equinox);
    t.d("ra_err", x.ra_err).d("dec_err", x.dec_err).d("sysvel", x.sysvel).k("veltyp", x.veltyp).k("veldef", x.veldef);
    t.d("pmra", x.pmra).d("pmdec", x.pmdec).d("pmra_err", x.pmra_err).d("pmdec_err", x.pmdec_err);
    t.f("parallax", x.parallax).f("para_err", x.para_err).k("spectyp", x.spectyp);
    if (given(g)) { x.category = token(x.category, 3); t.k("category", x.category); m.targets.usecategory = true; }
    else { x.category = ""; g.label("no category"); }
  }
  t.k("OI_WAVELENGTH insname", w.insname).i("nwave", w.wave.size());
  t.w("eff_wave"); for (float x : w.wave) t.v(x);
  t.w("eff_band"); for (float x : w.band) t.v(x);
  MCorr &c = m.corr[0];
  t.k("OI_CORR corrname", name(c.corrname)).i("ndata", c.ndata).i("ncorr", c.i.size());
  t.w("iindx"); for (int x : c.i) t.w(strf("%d", x));
  t.w("jindx"); for (int x : c.j) t.w(strf("%d", x));
  t.w("corr"); for (double x : c.c) t.v(x);
  MPol &p = m.pol[0];
  t.k("OI_INSPOL date-obs", p.date_obs).i("npol", p.npol).k("arrname", name(p.arrname)).k("orient", name(p.orient)).k("model", name(p.model));
  t.i("numrec", p.rec.size());
  for (auto &r : p.rec)
  {
    static const char *const jn[] = {"jxx", "jyy", "jxy", "jyx"};
    r.insname = token(r.insname, 70);
    t.i("target_id", r.tid).k("insname", r.insname).d("mjd_obs", r.mjd_obs).d("mjd_end", r.mjd_end);
    for (int q = 0; q < 4; q++)
    {
      t.w(jn[q]);
      for (auto &x : r.j[q])
      {
        if (!std::isfinite(x.imag())) x = cf(x.real(), 1); // the i after it would be taken for a part
        if (x.real() == 0) x = cf(0, x.imag()); // the sum of both has no negative zero
        t.v(x.real()).v(x.imag());
        t.s += 'i';
      }
    }
    t.i("sta_index", r.sta);
  }
  static const char *const cn[4][4] = {{"visamp", "visamperr", "visphi", "visphierr"}, {"vis2data", "vis2err"}, {"t3amp", "t3amperr", "t3phi", "t3phierr"}, {"fluxdata", "fluxerr"}};
  for (int k = 0; k < 4; k++)
  {
    MData &d = m.dat[k][0];
    t.k((std::string(kindname[k]) + " date-obs").c_str(), d.date_obs);
    name(d.insname);
    name(d.corrname);
    if (k == FLUX)
    {
      if (given(g)) t.k("arrname", name(d.arrname)); else { d.arrname = ""; g.label("no arrname"); }
      t.k("insname", d.insname).k("corrname", d.corrname);
      d.fovtype = token(d.fovtype, 6);
      bool f = given(g), ft = given(g);
      if (f) t.d("fov", d.fov);
      if (ft) t.k("fovtype", d.fovtype);
      if (f != ft) g.label("one of fov and fovtype");
      if (!f) d.fov = 0;
      if (!ft) { d.fovtype = ""; d.fov = 0; } // not stored without its type
      t.k("calstat", std::string(1, d.calstat));
      d.fluxunit = "Jy";
    }
    else t.k("arrname", name(d.arrname)).k("insname", d.insname).k("corrname", d.corrname);
    if (k == VIS)
    {
      auto opt = [&](const char *n, std::string &s) {
        if (given(g)) t.k(n, name(s));
        else { s = ""; g.label(std::string("no ") + n); }
      };
      auto ord = [&](const char *n, int &o) {
        if (o >= 0) t.i(n, o);
        else g.label(std::string("no ") + n);
      };
      opt("amptyp", d.amptyp);
      opt("phityp", d.phityp);
      ord("amporder", d.amporder);
      ord("phiorder", d.phiorder);
      d.userefmap = d.usecomplex = false;
      d.complexunit = d.ampunit = "";
    }
    t.i("numrec", d.rec.size());
    for (auto &r : d.rec)
    {
      t.i("target_id", r.tid);
      if (k != FLUX) t.d("time", r.time);
      t.d("mjd", r.mjd).d("int_time", r.int_time);
      size_t nc = k == VIS || k == T3 ? 4 : 2, corr = 0;
      r.col.resize(nc);
      r.corrindx.resize(nc / 2);
      r.refmap.clear();
      r.flag.assign(d.nwave, 0);
      for (size_t q = 0; q < nc; q++)
      {
        t.w(cn[k][q]);
        for (double x : r.col[q]) t.v(x);
        if (q % 2) { t.i((std::string("corrindx_") + cn[k][q - 1]).c_str(), r.corrindx[corr]); corr++; }
      }
      if (k == T3) t.d("u1coord", r.uv[0]).d("v1coord", r.uv[1]).d("u2coord", r.uv[2]).d("v2coord", r.uv[3]);
      else if (k != FLUX) t.d("ucoord", r.uv[0]).d("vcoord", r.uv[1]);
      if (k == FLUX)
      {
        if (given(g)) t.i("sta_index", r.sta[0]); else { r.sta[0] = -1; g.label("no sta_index"); }
        if (d.arrname.empty()) r.sta[0] = -1; // not stored
        continue;
      }
      t.w("sta_index");
      for (int q = 0; q < nsta(k); q++) t.w(strf("%d", r.sta[q]));
    }
  }
  if (g.flip()) t.s += "\n";
  MHeader h;
  h.origin = "ESO";
  h.content = "OIFITS2";
  h.observer = "Astronomer";
  h.insmode = "Low_JHK";
  h.date_obs = m.dat[VIS][0].date_obs;
  h.telescop = a.arrname;
  h.instrume = w.insname;
  h.object = m.targets.t[0].name;
  m.h = h;
  return t.s;
}
MDS one_each(Gen &g)
{
  GenOpt o;
  o.version = 2;
  o.wild = g.flip();
  o.many = 3;
  o.maxrec = 4;
  o.maxwave = 5;
  o.empties = g.chance(20);
  MDS m;
  if (g.chance(25)) { o.maxelem = 40; o.maxtarg = 15; o.maxwave = 20; }

  m.arr.push_back(gen_array(g, o, token(gen_name(g, "ARR"), 68)));
  { GenOpt w = o; w.empties = false; m.wave.push_back(gen_wave(g, w, token(gen_name(g, "INS"), 68))); m.targets = gen_targets(g, w); }
  m.corr.push_back(gen_corr(g, o, token(gen_name(g, "CORR"), 68)));
  if (g.chance(3)) { o.minrec = 200; o.maxrec = 300; }
  if (g.chance(15)) { o.maxrec = 15; }
  m.pol.push_back(gen_pol(g, o, m));
  for (int k = 0; k < 4; k++)
  {
    MData d = gen_data(g, o, m, (Kind)k);
    d.arrname = m.arr[0].arrname;
    d.corrname = m.corr[0].corrname;
    if (k == FLUX) d.calstat = g.one({'U', 'C'});
    for (auto &r : d.rec) { r.corrindx.clear(); for (int q = 0; q < 2; q++) r.corrindx.push_back(g.range(1, 5000)); }
    m.dat[k].push_back(d);
  }
  return m;
}
std::vector<std::string> listing(const MDS &m)
{
  std::vector<std::string> v;
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k]) v.push_back(strf("Read %s with ARRNAME=%s INSNAME=%s CORRNAME=%s", kindname[k], d.arrname.c_str(), d.insname.c_str(), d.corrname.c_str()));
  for (auto &p : m.pol) v.push_back(strf("Read OI_INSPOL with ARRNAME=%s", p.arrname.c_str()));
  return v;
}
std::string layout_free(const std::string &s)
{
  std::string o;
  for (char c : s)
    if (c != ' ') o += c;
    else if (!o.empty() && o.back() != ' ') o += ' ';
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
void run(Gen &g)
{
  std::string txt = scratch_file("demo.txt"), out = scratch_file("demo-out.fits"), in = scratch_file("demo-in.fits");
  for (auto f : {&txt, &out, &in}) unlink(f->c_str());
  MDS m = one_each(g);
  std::string text = describe(g, m);
  write_bytes(txt, text);
  enum { OWN, OWN2, OTHER, OTHER2, OTHER3, NO_TEXT, OUT_EXISTS, NO_DIR, NO_IN, BAD_IN, NO_TARGET, NO_REF, NO_REF2, FULL } how = (decltype(how))g.below(14);
  if (how == NO_REF2) how = NO_REF;
  bool own = how == OWN || how == OWN2;
  MDS listed = m;
  std::string reason;
  if (!own)
  {
    GenOpt o;
    o.version = g.one({2, 2, 1, 0});
    o.maxtab = g.one({1, 2, 4});
    o.maxrec = 3;
    MDS d = gen_ds(g, o);
    if (d.arr.empty()) d.pol.clear();
    bool dropped = false;
    if (how == NO_REF)
    {
      // one table names another which is missing ...
      std::vector<std::string *> names;
      for (int k = 0; k < 4; k++)
        for (auto &x : d.dat[k])
          for (auto n : {&x.insname, &x.arrname, &x.corrname}) if (!n->empty()) names.push_back(n);
      for (auto &p : d.pol) names.push_back(&p.arrname);
      if (!names.empty() && g.flip()) { *g.pick(names) = "not there"; dropped = true; }
      // ... or a table which some name is missing
      std::vector<std::pair<int, std::string>> c;
      for (int k = 0; k < 4; k++)
        for (auto &x : d.dat[k])
        {
          c.push_back({0, x.insname});
          if (!x.arrname.empty()) c.push_back({1, x.arrname});
          if (!x.corrname.empty()) c.push_back({2, x.corrname});
        }
      for (auto &p : d.pol) c.push_back({1, p.arrname});
      if (!c.empty() && !dropped)
      {
        auto x = g.pick(c);
        auto gone = [&](auto &v, auto get) { for (size_t i = 0; i < v.size(); i++) if (get(v[i]) == x.second) { v.erase(v.begin() + i); return; } };
        if (x.first == 0) gone(d.wave, [](const MWave &w) { return w.insname; });
        if (x.first == 1) gone(d.arr, [](const MArray &w) { return w.arrname; });
        if (x.first == 2) gone(d.corr, [](const MCorr &w) { return w.corrname; });
        dropped = true;
      }
    }
    FFile f = to_fits(g, d, gen_layout(g));
    if (how == NO_TARGET)
      for (size_t i = 0; i < f.size(); i++) if (f[i].xt == "BINTABLE" && f[i].extname() == "OI_TARGET") { f.erase(f.begin() + i); break; }
    write_bytes(in, encode(f));
    if (how == BAD_IN) write_bytes(in, g.one<const char *>({"", "SIMPLE", "no FITS file at all"}));
    if (how == NO_IN) unlink(in.c_str());
    listed = as_read(d);
    if (how == NO_REF && !dropped) how = OTHER;
  }
  std::string o = out, old;
  switch (how)
  {
  case NO_TEXT: unlink(txt.c_str()); reason = "no text file"; break;
  case OUT_EXISTS: reason = "output exists"; write_bytes(out, old = "something else"); break;
  case NO_DIR: reason = "output directory missing"; o = scratch_file("nosuchdir") + "/x.fits"; break;
  case NO_IN: reason = "no input"; break;
  case BAD_IN: reason = "bad input"; break;
  case NO_TARGET: reason = "input without OI_TARGET"; break;
  case NO_REF: reason = "input lacks a table"; break;
  default: break;
  }
  std::string input = txt + "\n" + o + "\n" + (own ? o : in) + "\n";
  g.note(text.substr(0, 6000) + "\n---\n" + dump(listed).substr(0, 3000));
  size_t limit = 0;
  if (how == FULL)
  {
    tool("oitable-demo", {}, 0, input);
    size_t size = exists(out) ? read_bytes(out).size() : 0;
    unlink(out.c_str());
    // (a loss of the last buffer only is not noticed)
    if (size > 2 * 5760) { limit = 1 + g.below(size - 5760); reason = "medium full"; }
  }
  Result r = tool("oitable-demo", {}, limit, input);
  g.label(reason.empty() ? "succeeded" : reason);
  if (r.out.find("Read OI_") != std::string::npos) g.nontrivial();
  bool written = how != NO_TEXT && how != OUT_EXISTS && how != NO_DIR && !limit;
  if (written)
  {
    if (!exists(out)) fail("no output file: exit code %d: %s", r.code, r.err.substr(0, 500).c_str());
    CmpOpt c;
    c.header_date = false;
    c.kw_tol = true;
    std::string d = diff(upgraded(m), from_fits(decode(read_bytes(out))), c);
    if (!d.empty()) fail("the file written differs from the text: %s", d.c_str());
  }
  if (!own && how != NO_IN && !exists(in)) fail("the file to read has gone");
  if (how == OUT_EXISTS && read_bytes(out) != old) fail("an existing output file has changed");
  if (!reason.empty())
  {
    if (r.code == 0) fail("exit code 0 (%s)", reason.c_str());
    if (how != NO_REF && how != NO_TARGET && r.err.empty()) fail("failed (%s) without a message", reason.c_str());
  }
  else
  {
    if (r.code) fail("exit code %d, expected success: %s", r.code, r.err.substr(0, 800).c_str());
    std::vector<std::string> got;
    for (auto &l : lines(r.out))
    {
      size_t p = l.find("Read OI_");
      if (p != std::string::npos) got.push_back(layout_free(l.substr(p)));
    }
    std::vector<std::string> want = listing(listed);
    for (auto &l : want) l = layout_free(l);
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
    {
      std::string a = i < want.size() ? want[i] : "(end)", b = i < got.size() ? got[i] : "(end)";
      if (a != b) fail("line %zu of the list of tables: expected '%s', got '%s'", i + 1, a.c_str(), b.c_str());
    }
  }
  for (auto f : {&txt, &out, &in}) unlink(f->c_str());
}
bool reg = (register_prop({"P32", "demonstration program",
  "Texts in the form of the examples under testdata (one table of each type; every optional item present or left out; any "
  "layout) are given to the demonstration program with the names of an output file and of a file to list: the one just written "
  "or any OIFITS file (versions 1, 2 and mixed, any order of tables). Faults: files which cannot be opened, created, read or "
  "written to the end, missing tables. Non-trivial: at least one table was listed.",
  6000, 80000, run,
  {"Values in the text have no blanks, as its reader cannot take them", "Texts end where the last table ends and lack nothing that is mandatory"}, 50}), true);
}

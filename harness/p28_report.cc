// What reading and writing leave behind: open files, and messages.
#include "damage.h"
#include "fits.h"
#include "said.h"
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <csignal>
#include <unistd.h>

static MDS small_ds(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 3});
  o.maxrec = 3;
  o.maxwave = 4;
  o.maxelem = 3;
  o.maxtarg = 3;
  return gen_ds(g, o);
}
static std::string open_files()
{
  std::set<std::string> s;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return "";
  while (struct dirent *e = readdir(d))
  {
    char b[4096];
    if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue;
    ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
    s.insert(e->d_name + std::string(" ") + std::string(b, n > 0 ? n : 0));
  }
  closedir(d);
  std::string r;
  for (auto &x : s) r += x + "\n";
  return r;
}
static void clear_path(const std::string &f)
{
  struct stat s;
  if (lstat(f.c_str(), &s)) return;
  if (S_ISDIR(s.st_mode)) rmdir(f.c_str());
  else unlink(f.c_str());
}
static bool is_file(const std::string &f) { struct stat s; return !lstat(f.c_str(), &s) && S_ISREG(s.st_mode); }
static bool is_there(const std::string &f) { struct stat s; return !lstat(f.c_str(), &s); }

// --------------------------------------------------------------- files closed
static void run_closed(Gen &g)
{
  std::string f[2] = {scratch_file("one.fits"), scratch_file("two.fits")};
  struct State { bool known = false; MDS w; } st[2];
  for (auto &x : f) clear_path(x);
  int n = g.range(2, 12), failed = 0, wellread = 0;
  std::vector<std::string> hist;
  const std::string before = open_files();
  auto check = [&](const std::string &what) {
    std::string now = open_files();
    if (now != before) fail("after %s (%d operations) these files are open:\n%sbefore:\n%s", what.c_str(), (int)hist.size(), now.c_str(), before.c_str());
  };
  for (int i = 0; i < n; i++)
  {
    int k = (int)g.below(2);
    std::string p = f[k], what;
    STATUS s = 0;
    int r = 0;
    switch (g.below(9))
    {
    case 0: // other content under the same name
    {
      MDS m = small_ds(g);
      Layout l = gen_layout(g);
      clear_path(p);
      write_bytes(p, encode(to_fits(g, m, l)));
      st[k] = {true, as_read(m)};
      what = "replace by a good file";
      break;
    }
    case 1:
      clear_path(p);
      damaged_input(g, p);
      st[k] = {};
      what = "replace by a bad file";
      break;
    case 2: // cut
    {
      if (!is_file(p)) continue;
      std::string b = read_bytes(p);
      b.resize(g.below(b.size() + 1));
      write_bytes(p, b);
      st[k] = {};
      what = "cut";
      break;
    }
    case 3:
    case 4:
    case 5:
    {
      bool there = is_file(p);
      std::string b = there ? read_bytes(p) : "";
      Oi o;
      memset(&o.o, 'Q', sizeof o.o);
      oi_hush_errors = g.flip();
      if (!guarded_read(p, &o.o, &s, &r)) { for (auto &x : f) clear_path(x); g.label("discarded: fault within cfitsio"); return; }
      oi_hush_errors = 0;
      fits_clear_errmsg();
      what = "read";
      if (!s) o.live = true;
      if (st[k].known)
      {
        if (s) fail("reading a good file failed with status %d after %d operations", s, (int)hist.size());
        CmpOpt c;
        c.kw_tol = true;
        if (st[k].w.h.content != "OIFITS2") c.header = false;
        c.header_date = false;
        std::string d = diff(st[k].w, from_c(&o.o), c);
        if (!d.empty()) fail("reading gave another content than the file has now: %s", d.c_str());
        wellread++;
      }
      if (s) { failed++; g.label("reading failed"); }
      if (!there && !s) fail("reading what is no file succeeded");
      if (there && (!is_file(p) || read_bytes(p) != b)) fail("reading changed the file");
      break;
    }
    case 6: // write where there may be something
    case 7: // write where there is nothing, with limited room
    {
      MDS m = small_ds(g);
      if (g.chance(20)) for (auto &d : m.dat[VIS2]) d.nwave = 0, d.rec.resize(1), d.rec[0].col.assign(2, {}), d.rec[0].flag.clear(), d.rec[0].uv[0] = 1, d.rec[0].corrindx.resize(kindcorr[VIS2].size());
      Oi o(m);
      if (g.chance(70)) clear_path(p), st[k] = {};
      bool was = is_there(p);
      std::string b = is_file(p) ? read_bytes(p) : "", q = g.chance(10) ? scratch_file("no") + "/x.fits" : p;
      struct rlimit old;
      getrlimit(RLIMIT_FSIZE, &old);
      bool lim = g.chance(40);
      if (lim)
      {
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit l = {(rlim_t)(g.below(30) * 2880 + (g.flip() ? g.below(2880) : 0)), old.rlim_max};
        setrlimit(RLIMIT_FSIZE, &l);
      }
      oi_hush_errors = g.flip();
      r = write_oi_fits(q.c_str(), o.o, &s);
      oi_hush_errors = 0;
      if (lim) setrlimit(RLIMIT_FSIZE, &old);
      fits_clear_errmsg();
      what = "write";
      if (was && q == p && !s) fail("writing over something succeeded");
      if ((was || q != p) && is_file(p) && read_bytes(p) != b) fail("failing to write changed the file");
      if (!was && q == p) { if (!s && !lim) st[k] = {true, upgraded(m)}; else st[k] = {}; }
      if (s) { failed++; g.label("writing failed"); }
      break;
    }
    case 8:
      clear_path(p);
      st[k] = {};
      what = "remove";
      break;
    }
    hist.push_back(what);
    g.note(what + strf(" %d; ", k));
    if (r != s) fail("%s returned %d but set status %d", what.c_str(), r, s);
    check(what + strf(" with status %d", s));
  }
  for (auto &x : f) clear_path(x);
  g.evals = hist.size();
  if (failed && wellread) g.nontrivial();
}

// ------------------------------------------------------------------- messages
static const char *const ext[9] = {"OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL", "OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
static const int newest[9] = {2, 2, 2, 1, 1, 2, 2, 2, 1};
static int type_of(const FHdu &h)
{
  if (h.primary || h.xt != "BINTABLE") return -1;
  for (int i = 0; i < 9; i++) if (h.extname() == ext[i]) return i;
  return -1;
}
static void stack_empty(const char *when)
{
  char m[FLEN_ERRMSG];
  if (fits_read_errmsg(m)) fail("%s: a message was left for the next report: %s", when, m);
}
// every line said is wanted, and the other way round; each want is a list of words
typedef std::vector<std::string> Words;
static void compare_lines(const std::string &s, std::vector<Words> want, const char *when)
{
  for (auto &l : lines(s))
  {
    bool ok = false;
    for (size_t i = 0; i < want.size() && !ok; i++)
    {
      ok = l.compare(0, 8, "WARNING!") == 0;
      for (auto &w : want[i])
      {
        // whole words only
        size_t p = l.find(w);
        auto word = [&](size_t q) { return q < l.size() && (isalnum((unsigned char)l[q]) || l[q] == '_'); };
        while (p != std::string::npos && ((p && word(p - 1) && isalnum((unsigned char)w[0])) || word(p + w.size()))) p = l.find(w, p + 1);
        ok = ok && p != std::string::npos;
      }
      if (ok) want.erase(want.begin() + i);
    }
    if (!ok) fail("%s: message nothing calls for: %s", when, l.c_str());
  }
  if (!want.empty())
  {
    std::string w;
    for (auto &x : want[0]) w += x + " ";
    fail("%s: missing a warning with %sin: %s", when, w.c_str(), s.c_str());
  }
}
static void error_report(const std::string &err, bool hush, STATUS st, const std::string &function, const char *when)
{
  if (hush) { if (!err.empty()) fail("%s: messages although they are turned off: %s", when, err.c_str()); return; }
  char text[FLEN_STATUS];
  fits_get_errstatus(st, text);
  if (!has(err, "error in " + function + ":")) fail("%s: the report does not name %s: %s", when, function.c_str(), err.c_str());
  if (!has(err, text)) fail("%s: the report does not say '%s': %s", when, text, err.c_str());
  stack_empty(when);
}
static void run_warn_read(Gen &g)
{
  MDS m = small_ds(g);
  if (g.chance(40)) m = upgraded(m);
  Layout l = gen_layout(g);
  FFile ff = to_fits(g, m, l);
  std::vector<Words> want;
  int unnamed = 0;
  for (auto &h : ff)
  {
    int t = type_of(h);
    if (!h.primary && h.xt == "BINTABLE" && !h.key("EXTNAME")) unnamed++;
    if (t < 0) continue;
    int rev = (int)h.key("OI_REVN")->i;
    if (rev == newest[t] && g.chance(25))
    {
      rev = newest[t] + g.one({1, 1, 2, 98});
      for (auto &k : h.keys) if (k.name == "OI_REVN") { k.i = rev; k.r = rev; }
      want.push_back({"OI_REVN", ext[t], strf("%d", rev)});
      g.label(std::string("newer ") + ext[t]);
      // the model has it too
      auto index = [&]() { int n = 0; for (auto &q : ff) { if (&q == &h) break; n += type_of(q) == t; } return n; };
      int i = index();
      switch (t)
      {
      case 0: m.targets.rev = rev; break;
      case 1: m.arr[i].rev = rev; break;
      case 2: m.wave[i].rev = rev; break;
      case 3: m.corr[i].rev = rev; break;
      case 4: m.pol[i].rev = rev; break;
      default: m.dat[t - 5][i].rev = rev;
      }
    }
    if (t == 0 && h.nrows && rev >= 2)
      for (const char *n : {"TARGET", "SPECTYP"})
        for (auto &c : h.cols)
          if (!strcasecmp(c.name.c_str(), n))
          {
            if (c.repeat != 32) { want.push_back({"32A", strf("%ldA", c.repeat), n}); g.label("width of target names"); }
            break;
          }
  }
  // tables which are named but not there
  std::set<std::string> missing;
  if (g.chance(30))
  {
    for (size_t i = ff.size(); i-- > 0;)
    {
      int t = type_of(ff[i]);
      if (t < 1 || t > 3 || !g.chance(40)) continue;
      int n = 0;
      for (size_t j = 0; j < i; j++) n += type_of(ff[j]) == t;
      for (size_t j = 0; j < want.size(); j++) if (want[j][1] == ext[t] && want[j][0] == "OI_REVN") { want.erase(want.begin() + j); j--; }
      if (t == 1) m.arr.erase(m.arr.begin() + n);
      if (t == 2) m.wave.erase(m.wave.begin() + n);
      if (t == 3) m.corr.erase(m.corr.begin() + n);
      ff.erase(ff.begin() + i);
    }
    // (warnings of what was removed went with it)
    for (int t = 1; t <= 3; t++)
      for (auto &h : ff)
        if (type_of(h) == t && h.key("OI_REVN")->i > newest[t])
        {
          Words w = {"OI_REVN", ext[t], strf("%d", (int)h.key("OI_REVN")->i)};
          size_t have = 0, need = 0;
          for (auto &x : want) have += x == w;
          for (auto &q : ff) need += type_of(q) == t && q.key("OI_REVN")->i == h.key("OI_REVN")->i;
          for (; have < need; have++) want.push_back(w);
        }
    auto is = [](auto &list, auto name, const std::string &n) { for (auto &x : list) if (x.*name == n) return true; return false; };
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k])
      {
        if (!d.arrname.empty() && !is(m.arr, &MArray::arrname, d.arrname)) missing.insert("Missing OI_ARRAY with ARRNAME=" + d.arrname);
        if (!is(m.wave, &MWave::insname, d.insname)) missing.insert("Missing OI_WAVELENGTH with INSNAME=" + d.insname);
        if (k != FLUX && !d.corrname.empty() && !is(m.corr, &MCorr::corrname, d.corrname)) missing.insert("Missing OI_CORR with CORRNAME=" + d.corrname);
      }
  }
  g.note(dump(m));
  std::string f = scratch_file("m.fits");
  write_bytes(f, encode(ff));
  Oi o;
  memset(&o.o, 'Q', sizeof o.o);
  STATUS st = 0;
  oi_hush_errors = g.flip();
  Said s = said([&]() { read_oi_fits(f.c_str(), &o.o, &st); });
  oi_hush_errors = 0;
  unlink(f.c_str());
  if (st) fail("reading failed: %d", st);
  o.live = true;
  std::set<std::string> got;
  for (auto &x : lines(s.err))
  {
    size_t p = x.find("Missing OI_");
    if (x.empty()) continue;
    if (p == std::string::npos) fail("reading a good file printed on the error stream: %s", x.c_str());
    got.insert(x.substr(p));
  }
  for (auto &x : missing) if (!got.count(x)) fail("no warning: %s", x.c_str());
  for (auto &x : got) if (!missing.count(x)) fail("warning without reason: %s", x.c_str());
  if (!missing.empty()) g.label("missing tables");
  stack_empty("after reading");
  // tables without a name are passed several times
  std::string rest;
  // and names are those of each target
  int said_unnamed = 0;
  std::set<std::string> widths;
  for (auto &x : lines(s.out))
    if (has(x, "EXTNAME") && !has(x, "checksum")) said_unnamed++;
    else if (!has(x, "32A") || widths.insert(x).second) rest += x + "\n";
  if ((said_unnamed > 0) != (unnamed > 0)) fail("%d tables without EXTNAME but %d warnings", unnamed, said_unnamed);
  compare_lines(rest, want, "reading");
  CmpOpt c;
  c.kw_tol = true;
  if (m.h.content != "OIFITS2") c.header = false;
  std::string d = diff(as_read(m), from_c(&o.o), c);
  if (!d.empty()) fail("with newer revisions: %s", d.c_str());
  if (!want.empty() || unnamed) g.nontrivial();
  else g.label("nothing to warn of");
}
static void run_warn_write(Gen &g)
{
  MDS m = small_ds(g);
  std::vector<Words> want;
  auto rev = [&](int &r, int t) {
    if (g.chance(30)) r = g.one({0, 1, 2, 3, 99, -1});
    static const char *const fn[9] = {"target", "array", "wavelength", "corr", "inspol", "vis", "vis2", "t3", "flux"};
    if (r != newest[t]) { want.push_back({"revision", std::string("write_oi_") + fn[t], strf("%d", newest[t])}); g.label("other revision"); }
  };
  if (g.chance(40)) m = upgraded(m);
  rev(m.targets.rev, 0);
  for (auto &x : m.arr) rev(x.rev, 1);
  for (auto &x : m.wave) rev(x.rev, 2);
  for (auto &x : m.corr) rev(x.rev, 3);
  for (auto &x : m.pol) rev(x.rev, 4);
  for (int k = 0; k < 4; k++)
    for (auto &x : m.dat[k])
    {
      rev(x.rev, 5 + k);
      static const char *const nm[4] = {"vis", "vis2", "t3", "flux"};
      if (x.arrname.empty() && k != FLUX) { want.push_back({std::string(nm[k]) + ".arrname"}); g.label("no array name"); }
    }
  g.note(dump(m));
  Oi o(m);
  std::string f = scratch_file("m.fits");
  unlink(f.c_str());
  STATUS st = 0;
  oi_hush_errors = g.flip();
  Said s = said([&]() { write_oi_fits(f.c_str(), o.o, &st); });
  oi_hush_errors = 0;
  unlink(f.c_str());
  if (st) fail("writing failed: %d", st);
  if (!s.err.empty()) fail("writing printed on the error stream: %s", s.err.c_str());
  stack_empty("after writing");
  compare_lines(s.out, want, "writing");
  if (!want.empty()) g.nontrivial();
  else g.label("nothing to warn of");
}
static int rows(const oi_array &t) { return t.nelement; }
template <class T> static int rows(const T &t) { return t.numrec; }
static void run_errors(Gen &g)
{
  bool hush = g.flip();
  MDS m = small_ds(g);
  g.note(dump(m));
  std::string f = scratch_file("m.fits");
  clear_path(f);
  STATUS st = 0;
  Said s;
  int what = (int)g.below(5);
  g.nontrivial();
  if (what == 0) // reading
  {
    Layout l = gen_layout(g);
    l.alt_widths = l.extra_hdus = false;
    std::string b = encode(to_fits(g, m, l)), b0 = b;
    switch (g.below(4))
    {
    case 0: g.label("no file"); break;
    case 1: write_bytes(f, ""); g.label("empty file"); break;
    case 2: write_bytes(f, std::string(3000, 'x')); g.label("no FITS file"); break;
    default: write_bytes(f, b.substr(0, 2880 + g.below(1000))); g.label("cut"); break;
    }
    oi_fits o;
    memset(&o, 'Q', sizeof o);
    oi_hush_errors = hush;
    s = said([&]() { read_oi_fits(f.c_str(), &o, &st); });
    if (!st) fail("reading succeeded");
    error_report(s.err, hush, st, "read_oi_fits", "reading");
    if (!s.out.empty()) fail("failing to read printed: %s", s.out.c_str());
  }
  else if (what == 1) // writing
  {
    m = upgraded(m);
    for (auto &d : m.dat) for (auto &x : d) if (x.arrname.empty()) x.arrname = "A";
    Oi o(m);
    std::string q = f;
    if (g.flip()) { write_bytes(f, "x"); g.label("file exists"); }
    else { q = scratch_file("no") + "/x.fits"; g.label("no directory"); }
    oi_hush_errors = hush;
    s = said([&]() { write_oi_fits(q.c_str(), o.o, &st); });
    if (!st) fail("writing succeeded");
    error_report(s.err, hush, st, "write_oi_fits", "writing");
    if (!s.out.empty()) fail("failing to write printed: %s", s.out.c_str());
  }
  else if (what == 2) // a table with a number the format has no room for
  {
    m = upgraded(m);
    for (auto &d : m.dat) for (auto &x : d) if (x.arrname.empty()) x.arrname = "A";
    const int big = g.one({32768, 70000, 2147483647, -32769});
    for (auto &x : m.targets.t) x.id = big;
    for (auto &x : m.arr) for (auto &e : x.elem) e.sta_index = big;
    for (auto &x : m.pol) for (auto &r : x.rec) r.tid = big;
    for (auto &d : m.dat) for (auto &x : d) for (auto &r : x.rec) r.tid = big;
    Oi o(m);
    fitsfile *fp = nullptr;
    fits_create_file(&fp, f.c_str(), &st);
    int which = (int)g.below(9);
    write_oi_header(fp, o.o.header, &st);
    if (st) fail("cannot prepare the file: %d", st);
    std::string fn;
    // tables of more than what is buffered, with no room on the medium
    struct rlimit old;
    getrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, SIG_IGN);
    auto limited = [&](auto f) {
      struct rlimit r = {2880, old.rlim_max};
      setrlimit(RLIMIT_FSIZE, &r);
      f();
      setrlimit(RLIMIT_FSIZE, &old);
    };
    oi_hush_errors = hush;
    s = said([&]() {
      auto nth = [&](GList *l) { return l ? l->data : nullptr; };
#define W(I, LIST, TYPE, FN, NAME) case I: if (nth(o.o.LIST) && rows(*(TYPE *)nth(o.o.LIST))) { fn = NAME; FN(fp, *(TYPE *)nth(o.o.LIST), 1, &st); } break;
      switch (which)
      {
      W(0, arrayList, oi_array, write_oi_array, "write_oi_array")
      W(1, inspolList, oi_inspol, write_oi_inspol, "write_oi_inspol")
      W(2, visList, oi_vis, write_oi_vis, "write_oi_vis")
      W(3, vis2List, oi_vis2, write_oi_vis2, "write_oi_vis2")
      W(4, t3List, oi_t3, write_oi_t3, "write_oi_t3")
      W(5, fluxList, oi_flux, write_oi_flux, "write_oi_flux")
      case 6: fn = "write_oi_target"; write_oi_target(fp, o.o.targets, &st); break;
      case 7:
      {
        oi_wavelength w;
        memset(&w, 0, sizeof w);
        alloc_oi_wavelength(&w, 60000);
        strcpy(w.insname, "I");
        w.revision = OI_REVN_V2_WAVELENGTH;
        fn = "write_oi_wavelength";
        limited([&]() { write_oi_wavelength(fp, w, 1, &st); });
        free_oi_wavelength(&w);
        break;
      }
      case 8:
      {
        oi_corr c;
        memset(&c, 0, sizeof c);
        alloc_oi_corr(&c, 60000);
        strcpy(c.corrname, "C");
        c.revision = OI_REVN_V2_CORR;
        c.ndata = 10;
        fn = "write_oi_corr";
        limited([&]() { write_oi_corr(fp, c, 1, &st); });
        free_oi_corr(&c);
        break;
      }
      }
    });
    if (!fn.empty())
    {
      g.label(fn + " fails");
      if (!st) fail("%s succeeded with what cannot be written", fn.c_str());
      error_report(s.err, hush, st, fn, fn.c_str());
      if (!s.out.empty()) fail("failing to write printed: %s", s.out.c_str());
    }
    STATUS s2 = 0;
    fits_close_file(fp, &s2);
    fits_clear_errmsg();
  }
  else // a bad table: left out of the whole, or read on its own
  {
    Layout l = gen_layout(g);
    l.alt_widths = l.extra_hdus = false;
    FFile ff = to_fits(g, m, l);
    FHdu &h = ff[g.below(ff.size())];
    int t = type_of(h);
    if (t < 0) return;
    for (size_t i = 0; i < h.keys.size(); i++) if (h.keys[i].name == "OI_REVN") { h.keys.erase(h.keys.begin() + i); break; }
    int index = 0;
    for (auto &q : ff) { if (&q == &h) break; index += type_of(q) == t; }
    write_bytes(f, encode(ff));
    g.label(std::string("bad ") + ext[t]);
    static const char *const fns[9] = {"target", "next_oi_array", "next_oi_wavelength", "next_oi_corr", "next_oi_inspol", "next_oi_vis", "next_oi_vis2", "next_oi_t3", "next_oi_flux"};
    std::string fn = t ? std::string("read_") + fns[t] : "read_oi_target";
    char text[FLEN_STATUS];
    fits_get_errstatus(KEY_NO_EXIST, text);
    if (what == 3)
    {
      Oi o;
      memset(&o.o, 'Q', sizeof o.o);
      oi_hush_errors = hush;
      s = said([&]() { read_oi_fits(f.c_str(), &o.o, &st); });
      o.live = !st;
      if ((st != 0) != (t < 3)) fail("reading gave status %d", st);
      if (t < 3)
      {
        error_report(s.err, hush, st, fn, "reading");
        if (!hush && !has(s.err, "error in read_oi_fits:")) fail("the report does not name read_oi_fits: %s", s.err.c_str());
      }
      else
      {
        // the message about leaving it out is there in any case
        auto ls = lines(s.err);
        bool ok = false;
        for (auto &x : ls) ok = ok || (has(x, std::string("Skipping bad ") + ext[t] + " (") && has(x, text));
        if (!ok) fail("no message about leaving out %s, with '%s': %s", ext[t], text, s.err.c_str());
        if (hush)
        {
          int said = 0;
          for (auto &x : ls) said += !x.empty() && !(t == 3 && has(x, "Missing OI_CORR"));
          if (said != 1) fail("messages although they are turned off: %s", s.err.c_str());
        }
        else
        {
          error_report(s.err, hush, KEY_NO_EXIST, fn, "reading");
          if (has(s.err, "error in read_oi_fits:")) fail("reading succeeded but reports an error: %s", s.err.c_str());
        }
      }
    }
    else
    {
      fitsfile *fp = nullptr;
      fits_open_file(&fp, f.c_str(), READONLY, &st);
      if (st) fail("cannot open the file");
      bool by_name = t >= 1 && t <= 3 && g.flip();
      int before = 0;
      oi_hush_errors = hush;
      char nm[FLEN_VALUE] = "";
      if (by_name)
      {
        const FKey *k = h.key(t == 1 ? "ARRNAME" : t == 2 ? "INSNAME" : "CORRNAME");
        g_strlcpy(nm, k->s.c_str(), sizeof nm);
        fn = std::string("read_oi_") + (t == 1 ? "array" : t == 2 ? "wavelength" : "corr");
        for (auto &q : ff) if (type_of(q) == t) { if (q.key(k->name)->s == k->s) { if (&q != &h) { fits_close_file(fp, &st); return; } break; } }
      }
      bool end = !by_name && t && g.chance(30) && index == 0;
      // passing the good ones before it
      s = said([&]() {
        for (int i = 0; i <= index && !st; i++)
        {
          if (by_name) i = index;
#define R(I, TYPE, NEXT, NAMED, FREE) case I: { TYPE x; memset(&x, 'Q', sizeof x); if (by_name) NAMED; else NEXT(fp, &x, &st); if (!st) FREE(&x); break; }
          switch (t)
          {
          case 0: { oi_target x; memset(&x, 'Q', sizeof x); read_oi_target(fp, &x, &st); if (!st) free_oi_target(&x); break; }
          R(1, oi_array, read_next_oi_array, read_oi_array(fp, nm, &x, &st), free_oi_array)
          R(2, oi_wavelength, read_next_oi_wavelength, read_oi_wavelength(fp, nm, &x, &st), free_oi_wavelength)
          R(3, oi_corr, read_next_oi_corr, read_oi_corr(fp, nm, &x, &st), free_oi_corr)
          R(4, oi_inspol, read_next_oi_inspol, abort(), free_oi_inspol)
          R(5, oi_vis, read_next_oi_vis, abort(), free_oi_vis)
          R(6, oi_vis2, read_next_oi_vis2, abort(), free_oi_vis2)
          R(7, oi_t3, read_next_oi_t3, abort(), free_oi_t3)
          R(8, oi_flux, read_next_oi_flux, abort(), free_oi_flux)
          }
          if (!st) before++;
        }
      });
      if (st != KEY_NO_EXIST) fail("%s gave status %d", fn.c_str(), st);
      if (!by_name && before != index) fail("%d tables before the bad one were read, not %d", before, index);
      error_report(s.err, hush, st, fn, fn.c_str());
      g.label(fn + " fails");
      if (end)
      {
        // end of file is no error to be reported
        st = 0;
        fits_movabs_hdu(fp, (int)ff.size(), nullptr, &st);
        s = said([&]() {
#define N(I, TYPE, NEXT) case I: { TYPE x; NEXT(fp, &x, &st); break; }
          switch (t) { N(1, oi_array, read_next_oi_array) N(2, oi_wavelength, read_next_oi_wavelength) N(3, oi_corr, read_next_oi_corr) N(4, oi_inspol, read_next_oi_inspol)
            N(5, oi_vis, read_next_oi_vis) N(6, oi_vis2, read_next_oi_vis2) N(7, oi_t3, read_next_oi_t3) N(8, oi_flux, read_next_oi_flux) }
        });
        if (st != END_OF_FILE) fail("after the last HDU: status %d", st);
        if (!s.err.empty()) fail("the end of the file was reported as an error: %s", s.err.c_str());
        g.label("end of file");
      }
      STATUS s2 = 0;
      fits_close_file(fp, &s2);
    }
  }
  oi_hush_errors = 0;
  fits_clear_errmsg();
  clear_path(f);
}
static void run_messages(Gen &g)
{
  fits_clear_errmsg();
  switch (g.below(3))
  {
  case 0: return run_warn_read(g);
  case 1: return run_warn_write(g);
  case 2: return run_errors(g);
  }
}
static bool reg = (
  register_prop({"P28", "files closed",
    "2-12 operations on two file names: the name gets a conforming file of any layout, a damaged file, a directory, nothing or a cut file; it is "
    "read; a dataset is written to it, to nowhere, with limited room, or one that cannot be written. After each, the list of open file "
    "descriptors is as at the start, reading gives what the name has now and changes no file. Non-trivial: an operation failed and a good file was read.",
    10000, 200000, run_closed, {}, 100}),
  register_prop({"P29", "messages",
    "Files with newer revisions, unnamed tables and other widths are read, datasets with any revisions and without array names written, and "
    "reading and writing made to fail as a whole and table by table, with error messages on and off. Output on both streams is compared line by line. Non-trivial: there is something to report.",
    20000, 400000, run_messages, {}, 200}),
  true);

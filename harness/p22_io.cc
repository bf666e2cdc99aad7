// Writing which cannot be completed, table-by-table input and output, checksums.
#include "fits.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

static MDS io_ds(Gen &g, int maxrec = 3)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 3});
  o.maxrec = maxrec;
  o.maxwave = 4;
  o.maxelem = 3;
  o.maxtarg = 3;
  return gen_ds(g, o);
}
static bool exists(const std::string &f) { struct stat s; return lstat(f.c_str(), &s) == 0; }
struct Limit {
  int what;
  struct rlimit old;
  Limit(int w, rlim_t v) : what(w) { getrlimit(w, &old); struct rlimit n = {v, old.rlim_max}; setrlimit(w, &n); }
  ~Limit() { setrlimit(what, &old); }
};

// ------------------------------------------------------------ write failures
static void run_write_failure(Gen &g)
{
  MDS m = io_ds(g, g.one({2, 4, 30}));
  g.note(dump(m));
  std::string f = scratch_file("w.fits"), d = scratch_file("w.dir");
  unlink(f.c_str());
  Oi o(m);
  oi_hush_errors = g.flip();
  auto unchanged = [&](const char *when) {
    std::string x = diff(m, from_c(&o.o));
    if (!x.empty()) fail("writing (%s) changed the dataset: %s", when, x.c_str());
  };
  auto must_fail = [&](const char *when, const std::string &path) {
    STATUS st = 0;
    STATUS r = write_oi_fits(path.c_str(), o.o, &st);
    if (r != st) fail("%s: returned %d but set status %d", when, r, st);
    if (!st) fail("%s: writing reported success", when);
    unchanged(when);
    fits_clear_errmsg();
    g.label(when);
  };
  STATUS st = 0;
  write_oi_fits(f.c_str(), o.o, &st);
  if (st) fail("writing failed: %d", st);
  std::string good = read_bytes(f);
  // there is a file already
  must_fail("file exists", f);
  if (read_bytes(f) != good) fail("failing to write over a file changed it");
  unlink(f.c_str());
  must_fail("no such directory", d + "/x.fits");
  if (exists(d)) fail("a directory was created");
  { must_fail("name is a directory", scratch()); }
  {
    // no file descriptor left
    std::vector<int> fds;
    Limit l(RLIMIT_NOFILE, 0);
    must_fail("no file descriptor", f);
    if (exists(f)) fail("a file appeared although none could be opened");
  }
  // an error has already happened
  st = g.one({1, 104, 207, -5});
  STATUS was = st, r = write_oi_fits(f.c_str(), o.o, &st);
  if (r != was || st != was) fail("called with status %d: returned %d, status %d", was, r, st);
  if (exists(f)) fail("called with an error status but created a file");
  // identifiers and indices which fit their columns of 16 bits, or just do not
  for (int t = 0; t < 2; t++)
  {
    MDS q = m;
    std::vector<int *> p;
    for (auto &x : q.targets.t) p.push_back(&x.id);
    for (auto &a : q.arr) for (auto &e : a.elem) p.push_back(&e.sta_index);
    for (auto &a : q.pol) for (auto &x : a.rec) { p.push_back(&x.tid); p.push_back(&x.sta); }
    for (int k = 0; k < 4; k++)
      for (auto &a : q.dat[k])
        for (auto &x : a.rec)
        {
          p.push_back(&x.tid);
          for (int i = 0; i < nsta(k) && (k != FLUX || !a.arrname.empty()); i++) p.push_back(&x.sta[i]);
        }
    if (p.empty()) break;
    int v = g.one({32767, -32768, 32768, -32769, 40000, 65535, 65536, 65537, 100000, 1 << 30, 2147483647, -2147483647 - 1, -65536 + 5});
    *p[g.below(p.size())] = v;
    Oi w(q);
    STATUS st = 0, r = write_oi_fits(f.c_str(), w.o, &st);
    fits_clear_errmsg();
    bool fits = v >= -32768 && v <= 32767;
    if (r != st) fail("number %d: returned %d but set status %d", v, r, st);
    if (fits && st) fail("writing failed (%d) although %d fits its column", st, v);
    if (!fits && !st) fail("writing reported success although %d does not fit its column", v);
    std::string x = diff(q, from_c(&w.o));
    if (!x.empty()) fail("writing (number %d) changed the dataset: %s", v, x.c_str());
    g.label(fits ? "number at the limit" : "number does not fit");
    g.evals++;
    unlink(f.c_str());
  }
  // the medium is full after so many bytes
  size_t n = good.size();
  std::vector<size_t> lim;
  if (thorough_tier() && g.chance(20))
    for (size_t b = 0; b < n; b += 80) lim.push_back(b);
  else
  {
    for (size_t b = 0; b <= n && lim.size() < 40; b += 2880) { lim.push_back(b); if (g.chance(10)) lim.push_back(b + 1); if (b && g.chance(10)) lim.push_back(b - 1); }
    for (int i = 0; i < 6; i++) lim.push_back(g.below(n));
    lim.push_back(n - 1);
  }
  lim.push_back(n);
  signal(SIGXFSZ, SIG_IGN);
  for (size_t b : lim)
  {
    if (b > n) continue;
    unlink(f.c_str());
    STATUS st = 0, r;
    {
      Limit l(RLIMIT_FSIZE, b);
      r = write_oi_fits(f.c_str(), o.o, &st);
    }
    fits_clear_errmsg();
    if (r != st) fail("limit of %zu bytes: returned %d but set status %d", b, r, st);
    std::string got = exists(f) ? read_bytes(f) : "";
    if (b == n && st) fail("writing %zu bytes failed although there is room for them: %d", n, st);
    // (cfitsio does not report that its very last buffer of up to 4096 bytes could not be written on closing)
    if (b < (n - 1) / 4096 * 4096 && !st) fail("writing reported success although only %zu of %zu bytes could be written (file has %zu)", b, n, got.size());
    unchanged("medium full");
    g.evals++;
  }
  g.label("medium full");
  unlink(f.c_str());
  // and afterwards all is well again
  st = 0;
  write_oi_fits(f.c_str(), o.o, &st);
  oi_hush_errors = 0;
  if (st) fail("writing after failed attempts failed: %d", st);
  Oi back;
  memset(&back.o, 'Q', sizeof back.o);
  read_oi_fits(f.c_str(), &back.o, &st);
  if (st) fail("cannot read the file written after failed attempts: %d", st);
  back.live = true;
  CmpOpt c;
  c.header_date = false;
  c.kw_tol = true;
  std::string x = diff(upgraded(m), from_c(&back.o), c);
  if (!x.empty()) fail("file written after failed attempts differs: %s", x.c_str());
  unlink(f.c_str());
  if (n > 20000) g.nontrivial();
}

// ------------------------------------------------------- tables one at a time
struct Ref { int type; int idx; }; // 0 target 1 array 2 wave 3 corr 4 inspol 5.. data
static const char *const ext[9] = {"OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL", "OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
static int type_of(const std::string &n)
{
  for (int i = 0; i < 9; i++) if (n == ext[i]) return i;
  return -1;
}
static std::string table_diff(const MDS &w, Ref r, fitsfile *f, STATUS *st, bool by_name, const std::string &name)
{
  CmpOpt c;
  c.kw_tol = true;
  std::string d;
#define T(TYPE, LIST, NEXT, NAMED, FREE, MODEL) { TYPE t; memset(&t, 'Q', sizeof t); \
  int ret; if (by_name) ret = NAMED; else ret = NEXT; \
  if (ret != *st) return strf("returned %d but set status %d", ret, *st); \
  if (!*st) { if (r.idx >= 0) { MODEL got = from_c(t); d = diff(LIST[r.idx], got, c); } FREE(&t); } break; }
  char nm[FLEN_VALUE];
  g_strlcpy(nm, name.c_str(), sizeof nm);
  switch (r.type)
  {
  case 1: T(oi_array, w.arr, read_next_oi_array(f, &t, st), read_oi_array(f, nm, &t, st), free_oi_array, MArray)
  case 2: T(oi_wavelength, w.wave, read_next_oi_wavelength(f, &t, st), read_oi_wavelength(f, nm, &t, st), free_oi_wavelength, MWave)
  case 3: T(oi_corr, w.corr, read_next_oi_corr(f, &t, st), read_oi_corr(f, nm, &t, st), free_oi_corr, MCorr)
  case 4: T(oi_inspol, w.pol, read_next_oi_inspol(f, &t, st), -1, free_oi_inspol, MPol)
  case 5: T(oi_vis, w.dat[0], read_next_oi_vis(f, &t, st), -1, free_oi_vis, MData)
  case 6: T(oi_vis2, w.dat[1], read_next_oi_vis2(f, &t, st), -1, free_oi_vis2, MData)
  case 7: T(oi_t3, w.dat[2], read_next_oi_t3(f, &t, st), -1, free_oi_t3, MData)
  case 8: T(oi_flux, w.dat[3], read_next_oi_flux(f, &t, st), -1, free_oi_flux, MData)
  }
  return d;
}
static void run_tables(Gen &g)
{
  MDS m = io_ds(g);
  g.note(dump(m));
  std::string f = scratch_file("t.fits");
  unlink(f.c_str());
  MDS w; // what reading must give
  std::vector<Ref> hdu; // [0] is the primary HDU
  STATUS st = 0;
  fitsfile *fp = nullptr;
  if (g.flip())
  {
    // a conforming file of any layout
    Layout l = gen_layout(g);
    FFile ff = to_fits(g, m, l);
    write_bytes(f, encode(ff));
    w = as_read(m);
    int cnt[9] = {0};
    for (auto &h : ff)
    {
      int t = h.xt == "BINTABLE" && !h.primary ? type_of(h.extname()) : -1;
      hdu.push_back({t, t >= 0 ? cnt[t]++ : -1});
    }
    g.label("file of any layout");
  }
  else
  {
    // written with the library's table functions in any order, EXTVERs chosen freely
    w = upgraded(m);
    std::vector<Ref> all = {{0, 0}};
    for (size_t i = 0; i < m.arr.size(); i++) all.push_back({1, (int)i});
    for (size_t i = 0; i < m.wave.size(); i++) all.push_back({2, (int)i});
    for (size_t i = 0; i < m.corr.size(); i++) all.push_back({3, (int)i});
    for (size_t i = 0; i < m.pol.size(); i++) all.push_back({4, (int)i});
    for (int k = 0; k < 4; k++) for (size_t i = 0; i < m.dat[k].size(); i++) all.push_back({5 + k, (int)i});
    std::vector<int> p = g.perm((int)all.size());
    fits_create_file(&fp, f.c_str(), &st);
    hdu.push_back({-1, -1});
    int hpos = g.flip() ? 0 : g.range(0, (int)all.size()), pos = 0; // the header may be written after tables
    if (hpos) g.label("header written after tables");
    auto header = [&]() {
      int ret = write_oi_header(fp, to_c(m.h), &st);
      if (ret || st) fail("writing the header after %d tables failed: returned %d, status %d", hpos, ret, st);
    };
    MDS v = w;
    v.arr.clear(); v.wave.clear(); v.corr.clear(); v.pol.clear();
    for (auto &d : v.dat) d.clear();
    std::vector<int> extver = {0};
    Oi o(m);
    for (int i : p)
    {
      Ref r = all[i];
      if (pos++ == hpos) header();
      int ev = g.one({1, 2, 7, 99, 1000});
      auto nth = [&](GList *l) { return g_list_nth_data(l, r.idx); };
      int ret = 0;
      switch (r.type)
      {
      case 0: ret = write_oi_target(fp, o.o.targets, &st); hdu.push_back({0, 0}); ev = 1; break;
      case 1: ret = write_oi_array(fp, *(oi_array *)nth(o.o.arrayList), ev, &st); hdu.push_back({1, (int)v.arr.size()}); v.arr.push_back(w.arr[r.idx]); break;
      case 2: ret = write_oi_wavelength(fp, *(oi_wavelength *)nth(o.o.wavelengthList), ev, &st); hdu.push_back({2, (int)v.wave.size()}); v.wave.push_back(w.wave[r.idx]); break;
      case 3: ret = write_oi_corr(fp, *(oi_corr *)nth(o.o.corrList), ev, &st); hdu.push_back({3, (int)v.corr.size()}); v.corr.push_back(w.corr[r.idx]); break;
      case 4: ret = write_oi_inspol(fp, *(oi_inspol *)nth(o.o.inspolList), ev, &st); hdu.push_back({4, (int)v.pol.size()}); v.pol.push_back(w.pol[r.idx]); break;
      case 5: ret = write_oi_vis(fp, *(oi_vis *)nth(o.o.visList), ev, &st); break;
      case 6: ret = write_oi_vis2(fp, *(oi_vis2 *)nth(o.o.vis2List), ev, &st); break;
      case 7: ret = write_oi_t3(fp, *(oi_t3 *)nth(o.o.t3List), ev, &st); break;
      case 8: ret = write_oi_flux(fp, *(oi_flux *)nth(o.o.fluxList), ev, &st); break;
      }
      if (r.type >= 5) { hdu.push_back({r.type, (int)v.dat[r.type - 5].size()}); v.dat[r.type - 5].push_back(w.dat[r.type - 5][r.idx]); }
      extver.push_back(ev);
      if (ret || st) fail("writing %s failed: returned %d, status %d", ext[r.type], ret, st);
    }
    if (pos == hpos) header();
    fits_close_file(fp, &st);
    if (st) fail("closing failed: %d", st);
    std::string x = diff(m, from_c(&o.o));
    if (!x.empty()) fail("writing tables changed them: %s", x.c_str());
    w = v;
    FFile ff = decode(read_bytes(f));
    if (ff.size() != hdu.size()) fail("%zu HDUs were written, expected %zu", ff.size(), hdu.size());
    for (size_t i = 1; i < ff.size(); i++)
    {
      if (type_of(ff[i].extname()) != hdu[i].type) fail("HDU %zu is %s, expected %s", i + 1, ff[i].extname().c_str(), ext[hdu[i].type]);
      const FKey *k = ff[i].key("EXTVER");
      if ((hdu[i].type || k) && (!k || k->i != extver[i])) fail("HDU %zu (%s) has EXTVER %ld, expected %d", i + 1, ext[hdu[i].type], k ? k->i : -1, extver[i]);
    }
    for (auto &h : ff) if (h.checksum_ok != 1 || h.datasum_ok != 1) fail("%s has missing or wrong checksums", h.extname().c_str());
    g.label("written table by table");
  }
  // read in any order
  bool rw = g.chance(10);
  fits_open_file(&fp, f.c_str(), rw ? READWRITE : READONLY, &st);
  if (st) fail("cannot open: %d", st);
  int n = g.range(1, 25), cur = 0, ok = 0;
  oi_hush_errors = g.flip();
  for (int i = 0; i < n; i++)
  {
    switch (g.below(6))
    {
    case 0: { int t; cur = (int)g.below(hdu.size()); fits_movabs_hdu(fp, cur + 1, &t, &st); g.note(strf("go to HDU %d; ", cur + 1)); break; }
    case 1:
    {
      g.note("header; ");
      oi_header h;
      memset(&h, 'Q', sizeof h);
      int r = read_oi_header(fp, &h, &st);
      if (r || st) fail("reading the header returned %d, status %d", r, st);
      CmpOpt c;
      c.header_date = hdu.size() && false;
      std::string d = diff(w.h, from_c(h), c);
      if (!d.empty()) fail("header differs: %s", d.c_str());
      cur = 0;
      break;
    }
    case 2:
    {
      g.note("targets; ");
      oi_target t;
      memset(&t, 'Q', sizeof t);
      int r = read_oi_target(fp, &t, &st);
      if (r || st) fail("reading targets returned %d, status %d", r, st);
      std::string d = diff(w.targets, from_c(t));
      free_oi_target(&t);
      if (!d.empty()) fail("targets differ: %s", d.c_str());
      for (size_t k = 0; k < hdu.size(); k++) if (hdu[k].type == 0) { cur = (int)k; break; }
      break;
    }
    case 3:
    {
      int t = g.range(1, 3);
      std::vector<std::string> names;
      if (t == 1) for (auto &a : w.arr) names.push_back(a.arrname);
      if (t == 2) for (auto &a : w.wave) names.push_back(a.insname);
      if (t == 3) for (auto &a : w.corr) names.push_back(a.corrname);
      std::string want = names.empty() || g.chance(20) ? g.one<const char *>({"nobody", "ARR0", "", "arr1", "INS", "C"}) : g.pick(names);
      if (g.chance(10) && !want.empty()) want.pop_back();
      // names of other tables are no match
      int idx = -1;
      for (size_t k = 0; k < names.size() && idx < 0; k++) if (names[k] == want) idx = (int)k;
      g.note(strf("%s '%s'; ", ext[t], want.c_str()));
      std::string d = table_diff(w, {t, idx}, fp, &st, true, want);
      if (idx < 0)
      {
        if (!st) fail("reading %s '%s' which does not exist succeeded", ext[t], want.c_str());
        st = 0;
        fits_clear_errmsg();
        int ht;
        fits_movabs_hdu(fp, 1, &ht, &st);
        cur = 0;
        g.label("no such name");
        break;
      }
      if (st) fail("reading %s '%s' failed: %d", ext[t], want.c_str(), st);
      if (!d.empty()) fail("%s '%s' differs: %s", ext[t], want.c_str(), d.c_str());
      for (size_t k = 0; k < hdu.size(); k++) if (hdu[k].type == t && hdu[k].idx == idx) cur = (int)k;
      ok++;
      break;
    }
    default:
    {
      int t = g.range(1, 8), next = -1;
      for (int k = cur + 1; k < (int)hdu.size() && next < 0; k++) if (hdu[k].type == t) next = k;
      g.note(strf("next %s; ", ext[t]));
      std::string d = table_diff(w, {t, next < 0 ? -1 : hdu[next].idx}, fp, &st, false, "");
      if (next < 0)
      {
        if (st != END_OF_FILE) fail("there is no further %s but the status is %d, expected end of file", ext[t], st);
        st = 0;
        fits_clear_errmsg();
        int ht;
        fits_movabs_hdu(fp, 1, &ht, &st);
        cur = 0;
        g.label("end of file");
        break;
      }
      if (st) fail("reading the next %s failed: %d", ext[t], st);
      if (!d.empty()) fail("next %s differs: %s", ext[t], d.c_str());
      cur = next;
      ok++;
    }
    }
  }
  // with an error status nothing happens
  {
    int h0, h1;
    fits_get_hdu_num(fp, &h0);
    STATUS was = g.one({104, 207, 1}), s = was;
    char nm[FLEN_VALUE] = "x";
    std::vector<char> buf(sizeof(oi_header) + sizeof(oi_vis), 'Q');
    auto p = buf.data();
    int r = 0;
    int which = (int)g.below(13);
    switch (which)
    {
    case 0: r = read_oi_header(fp, (oi_header *)p, &s); break;
    case 1: r = read_oi_target(fp, (oi_target *)p, &s); break;
    case 2: r = read_oi_array(fp, nm, (oi_array *)p, &s); break;
    case 3: r = read_next_oi_array(fp, (oi_array *)p, &s); break;
    case 4: r = read_oi_wavelength(fp, nm, (oi_wavelength *)p, &s); break;
    case 5: r = read_next_oi_wavelength(fp, (oi_wavelength *)p, &s); break;
    case 6: r = read_oi_corr(fp, nm, (oi_corr *)p, &s); break;
    case 7: r = read_next_oi_corr(fp, (oi_corr *)p, &s); break;
    case 8: r = read_next_oi_inspol(fp, (oi_inspol *)p, &s); break;
    case 9: r = read_next_oi_vis(fp, (oi_vis *)p, &s); break;
    case 10: r = read_next_oi_vis2(fp, (oi_vis2 *)p, &s); break;
    case 11: r = read_next_oi_t3(fp, (oi_t3 *)p, &s); break;
    case 12: r = read_next_oi_flux(fp, (oi_flux *)p, &s); break;
    }
    fits_get_hdu_num(fp, &h1);
    if (r != was || s != was) fail("reading function %d called with status %d returned %d, status %d", which, was, r, s);
    if (h0 != h1) fail("reading function %d called with an error status moved in the file", which);
    for (char ch : buf) if (ch != 'Q') fail("reading function %d called with an error status wrote to its result", which);
  }
  oi_hush_errors = 0;
  fits_close_file(fp, &st);
  unlink(f.c_str());
  if (ok >= 3) g.nontrivial();
}

// ----------------------------------------------------------------- checksums
static std::string output_of(const std::function<void()> &fn)
{
  std::string e = scratch_file("said");
  fflush(stdout);
  int save = dup(1), fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 1);
  close(fd);
  oi_hush_errors = 1;
  fn();
  oi_hush_errors = 0;
  fits_clear_errmsg();
  fflush(stdout);
  dup2(save, 1);
  close(save);
  std::string s = read_bytes(e);
  unlink(e.c_str());
  return s;
}
static std::string read_output(const std::string &f, oi_fits *o, STATUS *st)
{
  return output_of([&]() { read_oi_fits(f.c_str(), o, st); });
}
static std::set<std::string> sum_warnings(const std::string &said, bool once)
{
  std::set<std::string> got;
  size_t p = 0;
  while ((p = said.find("WARNING! ", p)) != std::string::npos)
  {
    size_t e = said.find('\n', p);
    std::string line = said.substr(p + 9, e - p - 9);
    p = e;
    if (line.find("checksum") == std::string::npos) continue;
    if (!got.insert(line).second && once) fail("warning given twice: '%s'", line.c_str());
  }
  return got;
}
static void run_checksums(Gen &g)
{
  MDS m = io_ds(g);
  g.note(dump(m));
  std::string f = scratch_file("c.fits");
  unlink(f.c_str());
  FFile ff;
  std::string b;
  if (g.flip())
  {
    Oi o(m);
    STATUS st = 0;
    write_oi_fits(f.c_str(), o.o, &st);
    if (st) fail("writing failed: %d", st);
    b = read_bytes(f);
    ff = decode(b);
  }
  else
  {
    Layout l = gen_layout(g);
    l.sums = true;
    b = encode(to_fits(g, m, l));
    ff = decode(b);
    // some HDUs without checksums
  }
  struct Want { int hdu; bool data, all; };
  std::vector<Want> want;
  int n = g.one({0, 1, 1, 1, 2, 3});
  auto sums = [&](FHdu &h) { return h.checksum_ok == 1 && h.datasum_ok == 1; };
  for (int i : g.perm((int)ff.size()))
  {
    if (n <= 0) break;
    FHdu &h = ff[i];
    if (!sums(h)) continue;
    bool read = h.primary || (h.xt == "BINTABLE" && type_of(h.extname()) >= 0);
    Want w = {i, false, false};
    if (h.end_off > h.data_off && g.chance(70))
    {
      size_t k = h.data_off + g.below(h.end_off - h.data_off);
      b[k] = (char)(b[k] ^ (1 << g.below(8)));
      w.data = w.all = true;
      g.note(strf("HDU %d: byte %zu of the data; ", i + 1, k - h.data_off));
      g.label(read ? "data changed" : "other HDU's data changed");
    }
    else
    {
      // the comment of a keyword
      std::vector<size_t> c;
      for (size_t k = h.hdr_off; k < h.data_off; k += 80)
        if (b.compare(k, 7, "COMMENT") && b.compare(k, 8, "CHECKSUM") && b.compare(k, 8, "DATASUM ") && b[k + 8] == '=' && b[k + 10] != '\'' && b.compare(k, 3, "END")) c.push_back(k);
      if (c.empty()) continue;
      size_t k = g.pick(c) + 79;
      b[k] = b[k] == 'x' ? 'y' : 'x';
      if (b[k - 79 + 31] != '/') b[k - 79 + 31] = '/';
      w.all = true;
      g.note(strf("HDU %d: comment of %s; ", i + 1, b.substr(k - 79, 8).c_str()));
      g.label(read ? "header changed" : "other HDU's header changed");
    }
    if (read) want.push_back(w);
    n--;
  }
  write_bytes(f, b);
  Oi o;
  memset(&o.o, 'Q', sizeof o.o);
  STATUS st = 0;
  std::string said = read_output(f, &o.o, &st);
  o.live = !st;
  // the same without checksums
  std::string b2 = b;
  for (auto &h : ff)
    for (size_t k = h.hdr_off; k < h.data_off; k += 80)
      if (!b2.compare(k, 8, "CHECKSUM") || !b2.compare(k, 8, "DATASUM ")) b2.replace(k, 9, "COMMENT  ");
  write_bytes(f, b2);
  Oi o2;
  memset(&o2.o, 'Q', sizeof o2.o);
  STATUS st2 = 0;
  std::string said2 = read_output(f, &o2.o, &st2);
  o2.live = !st2;
  // tables by name
  write_bytes(f, b);
  fitsfile *fp = nullptr;
  STATUS st3 = 0;
  auto warns = [&](const Want &w, std::set<std::string> &e) {
    FHdu &h = ff[w.hdu];
    const FKey *v = h.key("EXTVER");
    std::string where = strf(" checksum verification failed for HDU #%d (EXTNAME='%s' EXTVER=%ld)", w.hdu + 1, h.extname().c_str(), v ? v->i : 0L);
    if (h.primary) where = strf(" checksum verification failed for HDU #%d (EXTNAME='%s' EXTVER=0)", w.hdu + 1, h.extname().c_str());
    if (w.data) e.insert("Data" + where);
    if (w.all) e.insert("HDU" + where);
  };
  if (!st && !fits_open_file(&fp, f.c_str(), READONLY, &st3))
  {
    std::set<std::string> seen;
    for (int i = 1; i < (int)ff.size(); i++)
    {
      FHdu &h = ff[i];
      if (h.xt != "BINTABLE") continue;
      int k = h.extname() == "OI_ARRAY" ? 0 : h.extname() == "OI_WAVELENGTH" ? 1 : h.extname() == "OI_CORR" ? 2 : -1;
      if (k < 0) continue;
      const FKey *key = h.key(k == 0 ? "ARRNAME" : k == 1 ? "INSNAME" : "CORRNAME");
      if (!key || !seen.insert(h.extname() + " " + key->s).second) continue;
      const Want *w = nullptr;
      for (auto &x : want) if (x.hdu == i) w = &x;
      if (!w && g.chance(60)) continue;
      std::string name = key->s;
      STATUS s1 = 0;
      std::string said = output_of([&]() {
        char nm[200];
        snprintf(nm, sizeof nm, "%s", name.c_str());
        if (k == 0) { oi_array t; if (!read_oi_array(fp, nm, &t, &s1)) free_oi_array(&t); }
        if (k == 1) { oi_wavelength t; if (!read_oi_wavelength(fp, nm, &t, &s1)) free_oi_wavelength(&t); }
        if (k == 2) { oi_corr t; if (!read_oi_corr(fp, nm, &t, &s1)) free_oi_corr(&t); }
      });
      if (s1) continue;
      std::set<std::string> e, got = sum_warnings(said, true);
      if (w) { warns(*w, e); g.label("damaged table by name"); }
      if (e != got) fail("reading %s %s by name says '%s'", h.extname().c_str(), name.c_str(), said.c_str());
    }
    fits_close_file(fp, &st3);
  }
  unlink(f.c_str());
  if (said2.find("checksum") != std::string::npos) fail("without checksums reading says '%s'", said2.c_str());
  if (st != st2) fail("reading gives status %d, without checksums %d", st, st2);
  if (!st)
  {
    std::string d = diff(from_c(&o2.o), from_c(&o.o));
    if (!d.empty()) fail("wrong checksums changed what is read: %s", d.c_str());
  }
  if (st) return; // damaged beyond reading
  // Which warnings? A table may be reported once for every time it is read
  std::set<std::string> got = sum_warnings(said, false), exp;
  for (auto &w : want) warns(w, exp);
  for (auto &x : exp) if (!got.count(x)) fail("no warning '%s' but '%s'", x.c_str(), said.c_str());
  for (auto &x : got) if (!exp.count(x)) fail("unexpected warning '%s'", x.c_str());
  if (!exp.empty()) g.nontrivial();
}
static bool reg = (
  register_prop({"P22", "write failures",
    "Generated datasets are written to existing files, missing directories, directories, without file descriptors, with an error status "
    "set, and with the file size limited to every block boundary and random sizes below what is needed (thorough: also every 80 bytes). "
    "Non-trivial: a file of more than 20000 bytes.",
    3000, 40000, run_write_failure, {"a full medium is imitated by a limit on file size", "failures to write the last block of 4096 bytes are not reported by cfitsio and not claimed"}, 50}),
  register_prop({"P23", "tables one at a time",
    "Files of random layouts, and files written with the table functions in random order and with random EXTVERs, are read with random "
    "sequences of: go to any HDU, next table of a type, table by name, targets, header. Non-trivial: three tables read.",
    20000, 200000, run_tables, {}, 200}),
  register_prop({"P25", "checksums",
    "In files with checksums (written by the library and by the encoder) 0-3 HDUs get a changed data bit or header comment. The warnings "
    "must be exactly those expected, and what is read the same as without checksums. Non-trivial: a warning is expected.",
    15000, 150000, run_checksums, {}, 200}),
  true);

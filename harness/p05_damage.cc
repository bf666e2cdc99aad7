// Damaged files: never a crash, and what is not damaged is still read.
#include "fits.h"
#include "damage.h"
#include "ref_check.h"
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <execinfo.h>

static MDS small_ds(Gen &g, bool wild)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 2, 3});
  o.maxrec = 3;
  o.maxwave = 4;
  o.maxelem = 3;
  o.maxtarg = 3;
  o.wild = wild;
  o.empties = g.chance(15);
  return gen_ds(g, o);
}
static const std::vector<std::string> tables = {"OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL", "OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};

// Damage which leaves the file a FITS file
static void damage_structure(Gen &g, FFile &f)
{
  size_t i = g.below(f.size());
  FHdu &h = f[i];
  switch (g.below(14))
  {
  case 0: if (i) { f.erase(f.begin() + i); g.label("HDU removed"); } break;
  case 1: if (i) { FHdu c = h; f.insert(f.begin() + 1 + g.below(f.size()), c); g.label("HDU repeated"); } break;
  case 2: if (!h.cols.empty()) { h.cols.erase(h.cols.begin() + g.below(h.cols.size())); g.label("column removed"); } break;
  case 3: if (!h.keys.empty()) { h.keys.erase(h.keys.begin() + g.below(h.keys.size())); g.label("keyword removed"); } break;
  case 4: // another element type
    if (!h.cols.empty())
    {
      FCol &c = h.cols[g.below(h.cols.size())];
      char t = g.one({'L', 'B', 'I', 'J', 'K', 'E', 'D', 'C', 'M', 'A'});
      if ((t == 'A') == (c.type == 'A'))
      {
        if (t == 'A') break;
        for (auto &r : c.v) r.assign(c.repeat * (t == 'C' || t == 'M' ? 2 : 1), g.one({0.0, 1.0, 84.0}));
      }
      else if (t == 'A') { c.s.assign(h.nrows, std::string((size_t)c.repeat, 'x')); c.v.clear(); }
      else { c.v.assign(h.nrows, std::vector<double>(c.repeat * (t == 'C' || t == 'M' ? 2 : 1), 1.0)); c.s.clear(); }
      c.type = t;
      c.tzero = 0;
      c.dim = "";
      g.label("column type changed");
    }
    break;
  case 5: // another number of elements
    if (!h.cols.empty())
    {
      FCol &c = h.cols[g.below(h.cols.size())];
      long r = g.one<long>({0, 1, 2, 3, 5, 17, 40, 80, 100, 200});
      if (c.type == 'A') { c.repeat = r; for (auto &s : c.s) s.resize(std::min<size_t>(s.size() + 50, r), 'y'); }
      else
      {
        int k = c.type == 'C' || c.type == 'M' ? 2 : 1;
        for (auto &v : c.v) v.resize(r * k, 1.0);
        c.repeat = r;
      }
      c.dim = "";
      g.label("column width changed");
    }
    break;
  case 6: // keyword of another type
    if (!h.keys.empty())
    {
      FKey &k = h.keys[g.below(h.keys.size())];
      std::string n = k.name;
      switch (g.below(6))
      {
      case 0: k = kS(n, std::string(g.below(68), 'z')); break;
      case 1: k = kI(n, g.one<long>({0, -1, 1, 2, 3, 99, 2147483647L, 9999999999L})); break;
      case 2: k = kR(n, g.one({0.5, -1e30, 1e300})); break;
      case 3: k = kL(n, g.flip()); break;
      case 4: k = kX(n, g.one<const char *>({"", "'", "'unterminated", "NaN", "(1,2)", "''", "1E999"})); break;
      case 5: k = kC(n, "no value"); break;
      }
      g.label("keyword changed");
    }
    break;
  case 7: // table taken for another
    if (i)
    {
      for (auto &k : h.keys) if (k.name == "EXTNAME") k = kS("EXTNAME", g.pick(tables));
      g.label("EXTNAME changed");
    }
    break;
  case 8: // column of another name
    if (!h.cols.empty())
    {
      std::string n = h.cols[g.below(h.cols.size())].name;
      h.cols[g.below(h.cols.size())].name = g.flip() ? n : g.one<const char *>({"", "RVIS", "VISREFMAP", "CATEGORY", "FOV", "CORRINDX_VISAMP", "STA_INDEX"});
      g.label("column renamed");
    }
    break;
  case 9: if (i && f.size() > 2) { std::swap(f[i], f[1 + g.below(f.size() - 1)]); g.label("HDUs swapped"); } break;
  case 10: for (auto &k : h.keys) if (k.name == "OI_REVN") { k = kI("OI_REVN", g.one<long>({0, 1, 2, 3, -5, 1000})); g.label("revision changed"); } break;
  case 11: if (i && h.xt == "BINTABLE" && !h.cols.empty()) { FKey k = kS("CORRNAME", "nowhere"); h.keys.push_back(k); g.label("reference added"); } break;
  case 12: // references to nowhere
    for (auto &k : h.keys)
      if ((k.name == "INSNAME" || k.name == "ARRNAME" || k.name == "CORRNAME") && g.flip()) { k = kS(k.name, g.one<const char *>({"nowhere", "", "x"})); g.label("reference changed"); }
    break;
  case 13: h.sums = true; break;
  }
}
static void damage_bytes(Gen &g, std::string &b)
{
  if (b.size() < 80) return;
  switch (g.below(11))
  {
  case 0: b.resize(g.below(b.size())); g.label("truncated"); break;
  case 1: b.resize(g.below(b.size() / 2880 + 1) * 2880); g.label("truncated at a block"); break;
  case 2: for (int n = g.one({1, 1, 3, 10}); n-- > 0;) b[g.below(b.size())] ^= (char)(1 << g.below(8)); g.label("bits flipped"); break;
  case 3: for (int n = g.one({1, 5, 40}); n-- > 0;) b[g.below(b.size())] = (char)g.below(256); g.label("bytes changed"); break;
  case 4: // a header card
  case 5:
  case 6:
  {
    size_t cards = b.size() / 80, k = 0;
    for (int t = 0; t < 50; t++) // find something which looks like a card
    {
      k = g.below(cards) * 80;
      if (b[k + 8] == '=' || !b.compare(k, 3, "END")) break;
    }
    switch (g.below(5))
    {
    case 0: b.replace(k, 80, std::string(80, ' ')); break;
    case 1: { size_t q = g.below(cards) * 80; std::string c = b.substr(k, 80); b.replace(q, 80, c); break; }
    case 2: b.replace(k, 80, ("END" + std::string(77, ' '))); break;
    case 3: { std::string v = g.one<const char *>({"0", "1", "2", "3", "-1", "7", "16", "100", "8", "T", "'1D'", "'0D'", "'3A'", "'1PD'", "'5X'", "'M'", "'70A'", "'200L'", "'Q'", "''"}); v.insert(0, v[0] == '\'' ? 0 : 20 - v.size(), ' '); v.resize(70, ' '); b.replace(k + 10, 70, v); break; }
    case 4: b[k + g.below(80)] = (char)g.range(32, 126); break;
    }
    g.label("card changed");
    break;
  }
  case 7: { size_t a = g.below(b.size()), n = g.one<size_t>({1, 80, 2880, 100}); b.erase(a, n); g.label("bytes removed"); break; }
  case 8: { size_t a = g.below(b.size()), n = g.one<size_t>({1, 80, 2880, 100}); b.insert(a, std::string(n, g.one({' ', '\0', 'E', '\xff'}))); g.label("bytes inserted"); break; }
  case 9: { size_t a = g.below(b.size() / 2880 + 1) * 2880, c = g.below(b.size() / 2880 + 1) * 2880; std::string x = b.substr(a, 2880); b.insert(c, x); g.label("block repeated"); break; }
  case 10: b.append(g.below(6000), (char)g.below(256)); g.label("rubbish appended"); break;
  }
}
// Sizes beyond what memory can hold end the process by design (chkmalloc());
// keep the sizes a file declares small.
static void tame(std::string &b)
{
  for (size_t k = 0; k + 80 <= b.size(); k += 80)
  {
    std::string n = b.substr(k, 8);
    bool form = !n.compare(0, 5, "TFORM"), size = n == "NAXIS2  " || n == "PCOUNT  " || n == "GCOUNT  " || n == "THEAP   " || n == "TFIELDS " || n == "NAXIS   ";
    if (b[k + 8] != '=' || !(form || size)) continue;
    std::string v = b.substr(k + 10, 70);
    size_t i = v.find_first_not_of(" '");
    if (i == std::string::npos) continue;
    size_t s = i;
    if (v[s] == '-' || v[s] == '+') s++;
    size_t e = s;
    while (e < v.size() && (isdigit((unsigned char)v[e]) || v[e] == '.' || (size && strchr("EeDd+-", v[e])))) e++;
    if (e == s) continue;
    double x = atof(v.substr(s, e - s).c_str());
    if (size && v.substr(s, e - s).find_first_not_of("0123456789") != std::string::npos) x = 1e9;
    if (x > 300) b.replace(k + 10 + i, e - i, "7" + std::string(e - i - 1, ' '));
    // "7  D" is no valid format, which is one more kind of damage
  }
}
// The installed cfitsio overflows buffers of its own for some broken headers,
// which its hardened build detects (strcpy() and the like know the size of the
// destination). That is no fault of the library: such cases are discarded. Only
// the checks of a fortified cfitsio calling libc count, not abort() as such.
static sigjmp_buf own_fault;
static void on_abort(int)
{
  void *f[40];
  int n = backtrace(f, 40), k = 0;
  Dl_info d;
  for (; k < n; k++) if (dladdr((char *)f[k] - 1, &d) && d.dli_sname && !strcmp(d.dli_sname, "__chk_fail")) break;
  for (k++; k < n; k++)
    if (dladdr((char *)f[k] - 1, &d) && d.dli_fname && !strstr(d.dli_fname, "/libc.so"))
    {
      if (strstr(d.dli_fname, "libcfitsio")) siglongjmp(own_fault, 1);
      break;
    }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
static void use(Gen &g, oi_fits *o)
{
  MDS m = from_c(o); // counts, lists, strings, arrays are consistent
  (void)m;
  const char *s = format_oi_fits_summary(o);
  if (!s || !*s) fail("no summary");
  long a = -1, b = -1, c = -1;
  count_oi_fits_data(o, &a, &b, &c);
  if (a < 0 || b < 0 || c < 0) fail("negative counts");
  is_atomic(o, 1);
  is_oi_fits_one(o);
  is_oi_fits_two(o);
  for (auto &c : all_checks)
  {
    oi_check_result r;
    c.fn(o, &r);
    format_check_result(&r);
    free_check_result(&r);
  }
  for (auto &d : m.arr) { oi_fits_lookup_array(o, d.arrname.c_str()); oi_fits_lookup_element(o, d.arrname.c_str(), 1); }
  for (auto &d : m.wave) oi_fits_lookup_wavelength(o, d.insname.c_str());
  oi_fits_lookup_target(o, 1);
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      const oi_wavelength *w = oi_fits_lookup_wavelength(o, d.insname.c_str());
      const oi_array *q = oi_fits_lookup_array(o, d.arrname.c_str());
      const oi_corr *x = oi_fits_lookup_corr(o, d.corrname.c_str());
      if ((w && d.insname != w->insname) || (q && d.arrname != q->arrname) || (x && d.corrname != x->corrname)) fail("lookup returned another table");
    }
  if (g.flip())
  {
    std::string f = scratch_file("again.fits");
    unlink(f.c_str());
    STATUS st = 0;
    int r = write_oi_fits(f.c_str(), *o, &st);
    if (r != st) fail("writing returned %d but set status %d", r, st);
    unlink(f.c_str());
  }
}
int damaged_input(Gen &g, const std::string &f)
{
  int odd = (int)g.below(60);
  if (odd == 59) { g.label("no file"); }
  else if (odd == 58) { mkdir(f.c_str(), 0700); g.label("directory"); }
  else if (odd == 57) { write_bytes(f, ""); g.label("empty file"); }
  else if (odd == 56)
  {
    std::string b;
    for (int n = (int)g.below(200); n-- > 0;) b += (char)g.below(256);
    b.resize(b.size() * (1 + g.below(40)), 'x');
    write_bytes(f, b);
    g.label("no FITS file");
  }
  else
  {
    MDS m = small_ds(g, g.flip());
    Layout l = gen_layout(g);
    FFile ff = to_fits(g, m, l);
    int ns = g.one({0, 1, 1, 2, 4}), nb = g.one({0, 0, 1, 1, 2, 5});
    if (ns + nb == 0) ns = 1;
    while (ns-- > 0) damage_structure(g, ff);
    std::string b = encode(ff);
    while (nb-- > 0) damage_bytes(g, b);
    tame(b);
    write_bytes(f, b);
    g.note(dump(m));
  }
  return odd;
}
bool guarded_read(const std::string &f, oi_fits *o, STATUS *st, int *ret)
{
  static bool ready = false;
  if (!ready) { void *x[4]; backtrace(x, 4); ready = true; }
  signal(SIGABRT, on_abort);
  if (sigsetjmp(own_fault, 1))
  {
    signal(SIGABRT, SIG_DFL);
    oi_hush_errors = 0;
    fits_clear_errmsg();
    return false;
  }
  *ret = read_oi_fits(f.c_str(), o, st);
  signal(SIGABRT, SIG_DFL);
  return true;
}
static void run_damage(Gen &g)
{
  std::string f = scratch_file("d.fits");
  unlink(f.c_str());
  rmdir(f.c_str());
  bool hush = g.flip();
  int odd = damaged_input(g, f);
  oi_fits o;
  memset(&o, 'Q', sizeof o);
  oi_hush_errors = hush;
  STATUS st = 0;
  int r = 0;
  if (!guarded_read(f, &o, &st, &r))
  {
    unlink(f.c_str());
    g.label("discarded: fault within cfitsio");
    return;
  }
  oi_hush_errors = 0;
  if (r != st) fail("reading returned %d but set status %d", r, st);
  if (odd >= 56 && !st) fail("reading what is not a FITS file succeeded");
  if (st) g.label("refused");
  else
  {
    g.label("read");
    g.nontrivial();
    use(g, &o);
    free_oi_fits(&o);
  }
  if (odd == 58) rmdir(f.c_str());
  else unlink(f.c_str());
}

// --------------------------------------------------- one bad table among good
static std::string captured_read(const std::string &f, oi_fits *o, STATUS *st, int *ret)
{
  std::string e = scratch_file("err");
  fflush(stderr);
  int save = dup(2), fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 2);
  close(fd);
  *ret = read_oi_fits(f.c_str(), o, st);
  fflush(stderr);
  dup2(save, 2);
  close(save);
  std::string s = read_bytes(e);
  unlink(e.c_str());
  return s;
}
static void run_bad_table(Gen &g)
{
  MDS m = small_ds(g, g.chance(30));
  Layout l = gen_layout(g);
  l.alt_widths = false;
  FFile ff = to_fits(g, m, l);
  // keywords the standard requires, and what the table cannot be read without
  static const std::map<std::string, std::vector<std::string>> keys = {
    {"OI_TARGET", {}}, {"OI_ARRAY", {"ARRNAME", "FRAME", "ARRAYX", "ARRAYY", "ARRAYZ"}}, {"OI_WAVELENGTH", {"INSNAME"}},
    {"OI_CORR", {"CORRNAME", "NDATA"}}, {"OI_INSPOL", {"DATE-OBS", "NPOL", "ARRNAME", "ORIENT", "MODEL"}},
    {"OI_VIS", {"DATE-OBS", "INSNAME"}}, {"OI_VIS2", {"DATE-OBS", "INSNAME"}}, {"OI_T3", {"DATE-OBS", "INSNAME"}}, {"OI_FLUX", {"DATE-OBS", "INSNAME", "CALSTAT"}}};
  static const std::map<std::string, std::vector<std::string>> cols = {
    {"OI_TARGET", {"TARGET_ID", "TARGET", "RAEP0", "DECEP0", "EQUINOX", "RA_ERR", "DEC_ERR", "SYSVEL", "VELTYP", "VELDEF", "PMRA", "PMDEC", "PMRA_ERR", "PMDEC_ERR", "PARALLAX", "PARA_ERR", "SPECTYP"}},
    {"OI_ARRAY", {"TEL_NAME", "STA_NAME", "STA_INDEX", "DIAMETER", "STAXYZ"}}, {"OI_WAVELENGTH", {"EFF_WAVE", "EFF_BAND"}},
    {"OI_CORR", {"IINDX", "JINDX", "CORR"}}, {"OI_INSPOL", {"TARGET_ID", "INSNAME", "MJD_OBS", "MJD_END", "JXX", "JYY", "JXY", "JYX", "STA_INDEX"}},
    {"OI_VIS", {"TARGET_ID", "TIME", "MJD", "INT_TIME", "VISAMP", "VISAMPERR", "VISPHI", "VISPHIERR", "UCOORD", "VCOORD", "STA_INDEX", "FLAG"}},
    {"OI_VIS2", {"TARGET_ID", "TIME", "MJD", "INT_TIME", "VIS2DATA", "VIS2ERR", "UCOORD", "VCOORD", "STA_INDEX", "FLAG"}},
    {"OI_T3", {"TARGET_ID", "TIME", "MJD", "INT_TIME", "T3AMP", "T3AMPERR", "T3PHI", "T3PHIERR", "U1COORD", "V1COORD", "U2COORD", "V2COORD", "STA_INDEX", "FLAG"}},
    {"OI_FLUX", {"TARGET_ID", "MJD", "INT_TIME", "FLUXDATA", "FLUXERR", "FLAG"}}};
  static const std::map<std::string, int> widths = {{"TEL_NAME", 16}, {"STA_NAME", 16}, {"FOVTYPE", 6}, {"VELTYP", 8}, {"VELDEF", 8}, {"CATEGORY", 3}, {"INSNAME", 70}};
  struct Bad { std::string ext; int index; };
  std::vector<Bad> bad;
  bool fatal = false;
  int want = g.one({1, 1, 1, 2, 3});
  std::vector<int> order = g.perm((int)ff.size());
  for (int hi : order)
  {
    if ((int)bad.size() >= want) break;
    FHdu &h = ff[hi];
    std::string x = h.extname();
    if (h.xt != "BINTABLE" || !keys.count(x)) continue;
    bool mand = x == "OI_TARGET" || x == "OI_ARRAY" || x == "OI_WAVELENGTH";
    if (mand && !g.chance(25)) continue;
    int index = 0;
    for (int i = 0; i < hi; i++) if (ff[i].xt == "BINTABLE" && ff[i].extname() == x) index++;
    int rev = 0;
    for (auto &k : h.keys) if (k.name == "OI_REVN") rev = (int)k.i;
    auto drop_key = [&](const std::string &n) { for (size_t i = 0; i < h.keys.size(); i++) if (h.keys[i].name == n) { h.keys.erase(h.keys.begin() + i); return true; } return false; };
    auto find = [&](const std::string &n) { for (size_t i = 0; i < h.cols.size(); i++) if (!strcasecmp(h.cols[i].name.c_str(), n.c_str())) return (int)i; return -1; };
    std::string how;
    switch (g.below(5))
    {
    case 0: if (drop_key("OI_REVN")) how = "without OI_REVN"; break;
    case 1: { auto &k = keys.at(x); if (k.empty()) break; std::string n = g.pick(k); if (drop_key(n)) how = "without " + n; break; }
    case 2:
    {
      if (!h.nrows) break;
      std::vector<std::string> c = cols.at(x);
      if (x == "OI_ARRAY" && rev >= 2) { c.push_back("FOV"); c.push_back("FOVTYPE"); }
      bool corr = false;
      for (auto &k : h.keys) corr = corr || k.name == "CORRNAME";
      // columns which others call for
      if (x[3] == 'V' || x == "OI_T3" || x == "OI_FLUX")
        for (auto &q : h.cols)
        {
          std::string u = q.name;
          for (char &ch : u) ch = (char)toupper(ch);
          if (rev >= 2 || x == "OI_FLUX")
          {
            if (corr && !u.compare(0, 8, "CORRINDX")) c.push_back(u);
            if (x == "OI_VIS" && (u == "RVISERR" || u == "IVIS" || u == "IVISERR") && find("RVIS") >= 0) c.push_back(u);
          }
        }
      std::string n = g.pick(c);
      // extra columns of the layout do not matter; those of the table do
      if (x == "OI_VIS" && !n.compare(0, 8, "CORRINDX") && (n == "CORRINDX_RVIS" || n == "CORRINDX_IVIS") && find("RVIS") < 0) break;
      int i = find(n);
      if (i < 0) break;
      h.cols.erase(h.cols.begin() + i);
      if (find(n) >= 0) return; // another of that name takes its place
      how = "without column " + n;
      break;
    }
    case 3: // string column too wide
    {
      if (!h.nrows) break;
      std::vector<int> c;
      for (size_t i = 0; i < h.cols.size(); i++)
      {
        std::string u = h.cols[i].name;
        for (char &ch : u) ch = (char)toupper(ch);
        if (h.cols[i].type != 'A' || !widths.count(u)) continue;
        if ((u == "FOVTYPE" || u == "CATEGORY") && rev < 2) continue;
        if (u == "INSNAME" && x != "OI_INSPOL") continue;
        if (u == "CATEGORY" && x != "OI_TARGET") continue;
        if (find(u) != (int)i) continue;
        c.push_back((int)i);
      }
      if (c.empty()) break;
      FCol &q = h.cols[g.pick(c)];
      std::string u = q.name;
      for (char &ch : u) ch = (char)toupper(ch);
      q.repeat = widths.at(u) + g.one({1, 2, 100});
      q.dim = "";
      if (g.flip()) for (auto &s : q.s) s += std::string((size_t)q.repeat - s.size(), 'w');
      how = strf("with column %s of %ld characters", u.c_str(), q.repeat);
      break;
    }
    case 4: // string column which is none
    {
      if (!h.nrows) break;
      for (auto &q : h.cols)
      {
        std::string u = q.name;
        for (char &ch : u) ch = (char)toupper(ch);
        bool own = (x == "OI_TARGET" && (u == "TARGET" || u == "SPECTYP" || u == "VELTYP")) || (x == "OI_ARRAY" && (u == "TEL_NAME" || u == "STA_NAME")) || (x == "OI_INSPOL" && u == "INSNAME");
        if (!own || q.type != 'A' || &h.cols[find(u)] != &q) continue;
        q.type = 'J';
        q.repeat = 1;
        q.dim = "";
        q.s.clear();
        q.v.assign(h.nrows, {7.0});
        how = "with numbers in column " + u;
        break;
      }
      break;
    }
    }
    if (how.empty()) continue;
    bad.push_back({x, index});
    fatal = fatal || mand;
    g.note(x + strf(" %d ", index + 1) + how + "; ");
    g.label(x + " bad");
  }
  if (bad.empty()) return;
  g.note(dump(m));
  std::string f = scratch_file("b.fits");
  write_bytes(f, encode(ff));
  Oi out;
  memset(&out.o, 'Q', sizeof out.o);
  STATUS st = 0;
  int ret = 0;
  std::string err = captured_read(f, &out.o, &st, &ret);
  unlink(f.c_str());
  if (ret != st) fail("reading returned %d but set status %d", ret, st);
  g.nontrivial();
  if (fatal)
  {
    if (!st) fail("a file with a bad table it cannot be read without was read without an error");
    g.label("fatal");
    return;
  }
  if (st) fail("a file with a bad data table was refused: status %d", st);
  out.live = true;
  // what remains
  std::map<std::string, std::set<int>> gone;
  for (auto &b : bad) gone[b.ext].insert(b.index);
  MDS w = m;
  auto prune = [&](auto &list, const char *x) {
    auto &s = gone[x];
    for (auto i = s.rbegin(); i != s.rend(); ++i) list.erase(list.begin() + *i);
    size_t said = 0, p = 0;
    std::string t = std::string("Skipping bad ") + x + " (";
    while ((p = err.find(t, p)) != std::string::npos) said++, p++;
    if (said != s.size()) fail("%zu bad %s tables but %zu messages about them: %s", s.size(), x, said, err.c_str());
  };
  prune(w.corr, "OI_CORR");
  prune(w.pol, "OI_INSPOL");
  for (int k = 0; k < 4; k++) prune(w.dat[k], kindname[k]);
  CmpOpt c;
  c.kw_tol = true;
  if (m.h.content != "OIFITS2") c.header = false;
  std::string d = diff(as_read(w), from_c(&out.o), c);
  if (!d.empty()) fail("the rest of the file differs: %s", d.c_str());
}
static bool reg = (
  register_prop({"P05", "damaged files",
    "Conforming v1 and v2 files in random layouts are damaged (HDUs, columns, keywords removed, repeated, swapped, of other type, size or "
    "name; bits, bytes, cards and blocks changed, removed, inserted; truncation), besides empty, missing and non-FITS files. Reading "
    "returns its status; what was read must be consistent and is summarised, counted, checked, looked up, written and freed under the "
    "sanitizers. Non-trivial: the damaged file was read.",
    100000, 2000000, run_damage, {"sizes declared in headers stay below 300, as running out of memory ends the process by design"}, 200}),
  register_prop({"P06", "bad tables are skipped",
    "In conforming files in random layouts 1-3 tables lose a mandatory keyword or column, or get a string column which is too wide or "
    "none; the rest is compared with the model, and messages counted. Non-trivial: some table is bad.",
    50000, 1000000, run_bad_table, {"columns are only missed if the table has rows"}, 200}),
  true);

// Files cut short at any byte.
#include "fits.h"
#include <cstring>
#include <fcntl.h>
#include <unistd.h>

static const char *const ext[9] = {"OI_TARGET", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL", "OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
static int type_of(const FHdu &h)
{
  if (h.primary || h.xt != "BINTABLE") return -1;
  for (int i = 0; i < 9; i++) if (h.extname() == ext[i]) return i;
  return -1;
}
static std::string said(const std::function<void()> &fn)
{
  std::string e = scratch_file("err");
  fflush(stderr);
  int save = dup(2), fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 2);
  close(fd);
  fn();
  fflush(stderr);
  dup2(save, 2);
  close(save);
  std::string s = read_bytes(e);
  unlink(e.c_str());
  return s;
}
static int skip_messages(const std::string &s, const std::string &x)
{
  std::string t = "Skipping bad " + x + " (";
  int n = 0;
  for (size_t p = 0; (p = s.find(t, p)) != std::string::npos; p++) n++;
  return n;
}
// the dataset of the first n HDUs of the file
static MDS first_hdus(const MDS &m, const FFile &ff, size_t n)
{
  MDS w = m;
  size_t cnt[9] = {0};
  for (size_t i = 0; i < n; i++) { int t = type_of(ff[i]); if (t >= 0) cnt[t]++; }
  w.arr.resize(cnt[1]);
  w.wave.resize(cnt[2]);
  w.corr.resize(cnt[3]);
  w.pol.resize(cnt[4]);
  for (int k = 0; k < 4; k++) w.dat[k].resize(cnt[5 + k]);
  return w;
}
template <class T, class R, class F> static int read_all(fitsfile *f, R read, F release, STATUS *st)
{
  int n = 0;
  while (true)
  {
    T t;
    memset(&t, 'Q', sizeof t);
    if (read(f, &t, st)) return n;
    from_c(t);
    release(&t);
    n++;
  }
}
static int read_type(int type, fitsfile *f, STATUS *st)
{
  switch (type)
  {
  case 1: return read_all<oi_array>(f, read_next_oi_array, free_oi_array, st);
  case 2: return read_all<oi_wavelength>(f, read_next_oi_wavelength, free_oi_wavelength, st);
  case 3: return read_all<oi_corr>(f, read_next_oi_corr, free_oi_corr, st);
  case 4: return read_all<oi_inspol>(f, read_next_oi_inspol, free_oi_inspol, st);
  case 5: return read_all<oi_vis>(f, read_next_oi_vis, free_oi_vis, st);
  case 6: return read_all<oi_vis2>(f, read_next_oi_vis2, free_oi_vis2, st);
  case 7: return read_all<oi_t3>(f, read_next_oi_t3, free_oi_t3, st);
  default: return read_all<oi_flux>(f, read_next_oi_flux, free_oi_flux, st);
  }
}
static void run_cut(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 2});
  o.maxrec = g.one({2, 6, 40});
  o.maxwave = g.one({2, 4, 20});
  o.maxelem = g.one({3, 3, 60});
  o.maxtarg = 3;
  MDS m = gen_ds(g, o);
  g.note(dump(m));
  std::string f = scratch_file("cut.fits");
  unlink(f.c_str());
  std::string b;
  MDS w;
  FFile ff;
  if (g.flip())
  {
    Oi c(m);
    STATUS st = 0;
    write_oi_fits(f.c_str(), c.o, &st);
    if (st) fail("writing failed: %d", st);
    b = read_bytes(f);
    ff = decode(b);
    w = upgraded(m);
    g.label("written by the library");
  }
  else
  {
    Layout l = gen_layout(g);
    b = encode(to_fits(g, m, l));
    ff = decode(b);
    w = as_read(m);
    g.label("of any layout");
  }
  size_t n = b.size();
  std::vector<size_t> cuts;
  int each = g.one({3, 10, 10, 30});
  if (thorough_tier() && g.chance(5)) for (size_t k = 0; k < n; k += 96) cuts.push_back(k);
  for (int i = 0; i < each; i++)
  {
    size_t k;
    const FHdu &h = g.pick(ff);
    switch (g.below(6))
    {
    case 0: k = g.below(n); break;
    case 1: k = g.below(n / 2880) * 2880; break;
    case 2: k = h.end_off; break;
    case 3: k = h.hdr_off + g.below((h.end_off - h.hdr_off) / 2880) * 2880; break;
    case 4: k = h.data_off + g.below(h.end_off - h.data_off + 1); break;
    default: k = h.data_off + (h.end_off - h.data_off) / 2880 / 2 * 2880; break;
    }
    if (k > n) k = n;
    cuts.push_back(k);
  }
  g.evals = cuts.size();
  for (size_t k : cuts)
  {
    // HDUs which are whole; the one which is cut, if any
    size_t whole = 0;
    while (whole < ff.size() && ff[whole].end_off <= k) whole++;
    bool boundary = whole ? ff[whole - 1].end_off == k : k == 0;
    int cut = boundary ? -2 : type_of(ff[whole]); // -1 other HDU, -2 none
    bool target = false, in_data = !boundary && k >= ff[whole].data_off;
    // the last bytes of the table itself, without padding
    for (size_t i = 0; i < whole; i++) target = target || type_of(ff[i]) == 0;
    std::string where = strf("cut at byte %zu of %zu (%s)", k, n, boundary ? strf("after HDU %zu", whole).c_str() :
        strf("in the %s of HDU %zu, %s, bytes %zu-%zu-%zu", in_data ? "data" : "header", whole + 1, cut >= 0 ? ext[cut] : "not OIFITS", ff[whole].hdr_off, ff[whole].data_off, ff[whole].end_off).c_str());
    g.label(boundary ? "between HDUs" : in_data ? (cut >= 0 ? std::string(ext[cut]) + " data" : "other data") : "header");
    write_bytes(f, b.substr(0, k));
    Oi out;
    memset(&out.o, 'Q', sizeof out.o);
    STATUS st = 0;
    int ret = 0;
    oi_hush_errors = g.flip();
    std::string err = said([&]() { ret = read_oi_fits(f.c_str(), &out.o, &st); });
    oi_hush_errors = 0;
    fits_clear_errmsg();
    if (ret != st) fail("%s: reading returned %d but set status %d", where.c_str(), ret, st);
    if (!boundary) g.nontrivial();
    int skipped = 0;
    for (int t = 0; t < 9; t++) skipped += skip_messages(err, ext[t]);
    if (st)
    {
      g.label("refused");
      if (boundary && target) fail("%s: reading failed with status %d", where.c_str(), st);
    }
    else
    {
      out.live = true;
      g.label("read");
      CmpOpt c;
      c.kw_tol = true;
      if (strcmp(out.o.header.content, "OIFITS2")) c.header = false; // derived from what is there
      c.header_date = false;
      MDS got = from_c(&out.o);
      std::string without = diff(first_hdus(w, ff, whole), got, c);
      std::string with = boundary ? "cut" : diff(first_hdus(w, ff, whole + 1), got, c);
      bool has = false; // the cut table was read all the same: only padding or columns not needed are lost
      if (!target && (boundary || cut != 0)) fail("%s: reading succeeded without an OI_TARGET table", where.c_str());
      if (cut < 0) { if (!without.empty()) fail("%s: tables before differ: %s", where.c_str(), without.c_str()); }
      else if (with.empty() && in_data) has = true;
      else if (!without.empty()) fail("%s: what was read is neither with the cut table (%s) nor without (%s)", where.c_str(), with.c_str(), without.c_str());
      if (has || cut < 0) { if (skipped) fail("%s: all tables were read but there is a message: %s", where.c_str(), err.c_str()); g.label(has ? "cut table whole" : "other"); }
      else
      {
        if (cut < 3) fail("%s: reading succeeded although a table it cannot do without is cut", where.c_str());
        if (skipped != 1 || skip_messages(err, ext[cut]) != 1)
          fail("%s: the table was left out with %d messages (%s)", where.c_str(), skipped, err.c_str());
        g.label("left out with a message");
      }
    }
    // the tables one by one
    if (cut >= 1 && g.chance(30))
    {
      fitsfile *fp = nullptr;
      st = 0;
      oi_hush_errors = 1;
      if (!fits_open_file(&fp, f.c_str(), READONLY, &st))
      {
        int before = 0, got = read_type(cut, fp, &st);
        for (size_t i = 0; i < whole; i++) before += type_of(ff[i]) == cut;
        if (!st) fail("%s: no status", where.c_str());
        if (got == before)
        {
          if (st == END_OF_FILE) fail("%s: reading tables of this type one by one reported that there are no more after %d", where.c_str(), got);
        }
        else if (got != before + 1 || !in_data) fail("%s: %d tables of this type were read one by one, %d are whole", where.c_str(), got, before);
        g.label("one by one");
        STATUS s2 = 0;
        fits_close_file(fp, &s2);
      }
      oi_hush_errors = 0;
      fits_clear_errmsg();
    }
  }
  unlink(f.c_str());
}
static bool reg = (
  register_prop({"P27", "files cut short",
    "Files written by the library and conforming v1 and v2 files in random layouts are cut at up to 30 places each (HDU and block "
    "boundaries, headers, data, padding; in the thorough tier now and then at every 96th byte). Read as a whole and table by table; status, messages and content are compared with "
    "the model of the tables which are whole. Non-trivial: a cut not between HDUs.",
    6000, 100000, run_cut, {"a file cut exactly between two HDUs is a valid FITS file and read as such"}, 100}),
  true);

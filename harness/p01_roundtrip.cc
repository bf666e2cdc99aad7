// Write then read gives back the same dataset.
#include "gen.h"
#include <unistd.h>
#include <cstring>

static std::string mode_name(const GenOpt &o)
{
  return strf("%s%s%s", o.version == 1 ? "v1" : o.version == 2 ? "v2" : "mixed", o.wild ? " wild" : "", o.empties ? " empties" : "");
}

static void run(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 2, 1, 0});
  o.wild = g.chance(60);
  o.empties = g.chance(10);
  o.bigwave = 2;
  o.bigrec = 5;
  o.huge = 10;
  if (g.chance(3)) o.maxelem = 40;
  MDS m = gen_ds(g, o);
  if (g.chance(1) && g.chance(30)) // very many channels
  {
    m = MDS();
    GenOpt b = o;
    b.maxtab = 1; b.maxrec = 1; b.maxwave = 2;
    m = gen_ds(g, b);
    int n = g.one({9999, 10000, 12345});
    for (auto &w : m.wave)
    {
      size_t old = w.wave.size();
      w.wave.resize(n); w.band.resize(n);
      for (int i = (int)old; i < n; i++) w.wave[i] = i, w.band[i] = -i;
    }
    for (int k = 0; k < 4; k++)
      for (auto &d : m.dat[k])
      {
        d.nwave = n;
        d.userefmap = false;
        for (auto &r : d.rec)
        {
          r.refmap.clear();
          for (auto &c : r.col) { c.resize(n); for (int i = 0; i < n; i++) c[i] = i * 0.5; }
          r.flag.resize(n);
        }
      }
    for (auto &p : m.pol)
    {
      p.nwave = n;
      for (auto &r : p.rec)
        for (auto &j : r.j) { j.resize(n); for (int i = 0; i < n; i++) j[i] = cf(i, -i); }
    }
    g.label("10000 channels");
  }
  g.note(mode_name(o) + " " + dump(m));
  g.label(mode_name(o));
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      g.label(kindname[k]);
      if (!d.corrname.empty()) g.label(std::string(kindname[k]) + " with CORRINDX");
      if (d.userefmap) g.label("VISREFMAP");
      if (d.usecomplex) g.label("RVIS/IVIS");
      if (d.userefmap && d.usecomplex && !d.corrname.empty()) g.label("VISREFMAP+RVIS/IVIS+CORRINDX");
      if (d.rec.size() > 10) g.label(">10 records");
      if (d.nwave >= 40) g.label(">=40 channels");
      if (d.rec.empty()) g.label("data table without rows");
    }
  if (!m.pol.empty()) g.label("OI_INSPOL");
  if (!m.corr.empty()) g.label("OI_CORR");
  if (m.targets.usecategory) g.label("CATEGORY");
  if (interesting(m)) g.nontrivial();

  std::string f = scratch_file("rt.fits");
  unlink(f.c_str());
  Oi in(m);
  STATUS st = 0;
  STATUS ret = write_oi_fits(f.c_str(), in.o, &st);
  if (st || ret) fail("writing a well-formed dataset failed: status %d, returned %d", st, ret);
  MDS after = from_c(&in.o);
  std::string d = diff(m, after);
  if (!d.empty()) fail("writing changed the dataset in memory: %s", d.c_str());

  Oi out;
  memset(&out.o, 'Q', sizeof out.o);
  ret = read_oi_fits(f.c_str(), &out.o, &st);
  if (st || ret) fail("reading the written file failed: status %d", st);
  out.live = true;
  MDS got = from_c(&out.o);
  CmpOpt c;
  c.header_date = false;
  c.kw_tol = true;
  d = diff(upgraded(m), got, c);
  if (!d.empty()) fail("read-back differs: %s", d.c_str());
  // second generation: once in the current format, a further cycle changes nothing
  if (g.chance(20))
  {
    std::string f2 = scratch_file("rt2.fits");
    unlink(f2.c_str());
    write_oi_fits(f2.c_str(), out.o, &st);
    Oi out2;
    read_oi_fits(f2.c_str(), &out2.o, &st);
    if (st) fail("second write/read cycle failed: status %d", st);
    out2.live = true;
    c.kw_tol = false;
    d = diff(got, from_c(&out2.o), c);
    if (!d.empty()) fail("second write/read cycle differs: %s", d.c_str());
    unlink(f2.c_str());
    g.label("second cycle");
  }
  unlink(f.c_str());
}
static bool reg = (register_prop({"P01", "write/read round trip",
  "Datasets of any shape (0-3 tables of each type, v1/v2/mixed revisions, every combination of optional columns and keywords, "
  "1-12345 channels, 1-60 records, values incl. NaN, infinities, extremes, strings up to the format's length) are built with the "
  "public API, written, read back and compared field by field. Non-trivial: at least two data tables and three records.",
  30000, 400000, run,
  {"Keyword strings up to 68 encoded characters without trailing blanks, table strings up to their column width",
   "STA_INDEX and TARGET_ID within 16 bits", "double-valued keywords compared to 1e-14 relative"}, 200}), true);

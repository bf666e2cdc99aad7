// Files written by the library, as an independent reader sees them; and files
// of any conforming layout, as the library reads them.
#include "fits.h"
#include <unistd.h>
#include <cstring>
#include <ctime>

static void labels(Gen &g, const MDS &m)
{
  for (int k = 0; k < 4; k++)
    for (auto &d : m.dat[k])
    {
      g.label(kindname[k]);
      if (!d.corrname.empty()) g.label(std::string(kindname[k]) + " with CORRINDX");
      if (d.userefmap) g.label("VISREFMAP");
      if (d.usecomplex) g.label("RVIS/IVIS");
      if (d.rec.empty()) g.label("data table without rows");
    }
  if (!m.pol.empty()) g.label("OI_INSPOL");
  if (!m.corr.empty()) g.label("OI_CORR");
  if (m.targets.usecategory) g.label("CATEGORY");
}

static void run_written(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 2, 1, 0});
  o.wild = g.chance(50);
  o.empties = g.chance(10);
  o.bigrec = 5;
  o.bigwave = 1;
  MDS m = gen_ds(g, o);
  labels(g, m);
  g.note(dump(m));
  if (interesting(m)) g.nontrivial();
  std::string f = scratch_file("w.fits");
  unlink(f.c_str());
  Oi in(m);
  STATUS st = 0;
  time_t t0 = time(nullptr);
  write_oi_fits(f.c_str(), in.o, &st);
  time_t t1 = time(nullptr);
  if (st) fail("writing a well-formed dataset failed: status %d", st);
  FFile ff = decode(read_bytes(f));
  unlink(f.c_str());
  for (size_t i = 0; i < ff.size(); i++)
  {
    if (ff[i].datasum_ok != 1) fail("HDU %zu: DATASUM %s", i, ff[i].datasum_ok < 0 ? "absent" : "wrong");
    if (ff[i].checksum_ok != 1) fail("HDU %zu: CHECKSUM %s", i, ff[i].checksum_ok < 0 ? "absent" : "wrong");
  }
  MDS got = from_fits(ff);
  if (got.targets.t.empty()) got.targets.usecategory = false;
  CmpOpt c;
  c.header_date = false;
  c.kw_tol = true;
  std::string d = diff(upgraded(m), got, c);
  if (!d.empty()) fail("content of the written file differs: %s", d.c_str());
  char a[16], b[16];
  strftime(a, 16, "%Y-%m-%d", gmtime(&t0));
  strftime(b, 16, "%Y-%m-%d", gmtime(&t1));
  if (got.h.date.substr(0, 10) != a && got.h.date.substr(0, 10) != b) fail("DATE is '%s' in a file written on %s", got.h.date.c_str(), a);
}

static void run_layout(Gen &g)
{
  GenOpt o;
  o.version = g.one({2, 2, 1, 1, 0});
  o.wild = g.chance(50);
  o.empties = g.chance(15);
  o.bigrec = 3;
  o.bigwave = 1;
  MDS m = gen_ds(g, o);
  if (o.version == 1 && g.chance(80)) m.h.content = "";
  labels(g, m);
  Layout l = gen_layout(g);
  if (l.shuffle_hdus) g.label("HDU order");
  if (l.shuffle_cols) g.label("column order");
  if (l.extra_cols) g.label("extra columns");
  if (l.extra_hdus) g.label("extra HDUs");
  if (l.alt_types) g.label("other numeric types");
  if (l.alt_widths) g.label("other string widths");
  if (l.case_cols) g.label("column name case");
  if (l.junk_opt) g.label("v2 fields in v1 tables");
  g.label(m.h.content == "OIFITS2" ? "v2 header" : "v1 header");
  g.note(dump(m));
  if (interesting(m)) g.nontrivial();
  FFile ff = to_fits(g, m, l);
  std::string f = scratch_file("l.fits");
  write_bytes(f, encode(ff));
  Oi out;
  memset(&out.o, 'Q', sizeof out.o);
  STATUS st = 0;
  read_oi_fits(f.c_str(), &out.o, &st);
  if (st) fail("reading a conforming file failed: status %d", st);
  out.live = true;
  MDS want = as_read(m), got = from_c(&out.o);
  CmpOpt c;
  c.kw_tol = true;
  if (m.h.content != "OIFITS2") c.header = false; // synthesised: property P04
  std::string d = diff(want, got, c);
  if (!d.empty()) fail("read differs from the file's content: %s", d.c_str());
  unlink(f.c_str());
}
static bool reg = (register_prop({"P02", "written files are conforming OIFITS2",
  "Datasets of any shape are written and the bytes decoded by an independent strict FITS/OIFITS2 decoder, which checks structure, "
  "mandatory keywords, column formats, units, EXTVER, revisions and checksums; decoded content is compared with the dataset. "
  "Non-trivial: at least two data tables and three records.",
  15000, 200000, run_written, {"double-valued keywords compared to 1e-14 relative"}, 200}),
  register_prop({"P03", "conforming files are read faithfully",
  "Random datasets are encoded by an independent FITS encoder in a random conforming layout (HDU, column, keyword order; extra "
  "columns, keywords and HDUs; equivalent numeric storage types; string widths; column name case; TDIM, EXTVER and checksums present "
  "or not), read by the library and compared field by field. Non-trivial: at least two data tables and three records.",
  15000, 200000, run_layout, {"string columns not wider than the limits the standard sets", "double-valued keywords compared to 1e-14 relative"}, 200}), true);

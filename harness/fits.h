// Independent FITS encoder / decoder (no cfitsio), and the mapping between
// OIFITS files and the dataset model, written from the FITS and OIFITS
// standards.
#pragma once
#include "gen.h"

struct FKey {
  std::string name;
  char type = 'S'; // S string, I integer, R real, L logical, ' ' commentary / no value, X raw value text
  std::string s;   // string value, or text of the value field as found
  double r = 0;
  long i = 0;
  std::string comment;
};
inline FKey kS(const std::string &n, const std::string &v) { FKey k; k.name = n; k.type = 'S'; k.s = v; return k; }
inline FKey kI(const std::string &n, long v) { FKey k; k.name = n; k.type = 'I'; k.i = v; k.r = v; return k; }
inline FKey kR(const std::string &n, double v) { FKey k; k.name = n; k.type = 'R'; k.r = v; return k; }
inline FKey kL(const std::string &n, bool v) { FKey k; k.name = n; k.type = 'L'; k.i = v; return k; }
inline FKey kC(const std::string &n, const std::string &v) { FKey k; k.name = n; k.type = ' '; k.comment = v; return k; }
inline FKey kX(const std::string &n, const std::string &v) { FKey k; k.name = n; k.type = 'X'; k.s = v; return k; }

struct FCol {
  std::string name;
  char type = 'D';
  long repeat = 1;
  bool hasunit = false;
  std::string unit, dim;
  double tzero = 0; // integer columns: stored value = value - tzero
  std::vector<std::vector<double>> v; // [row][element]; complex: two per element
  std::vector<std::string> s;         // [row] for type A
};
struct FHdu {
  bool primary = false;
  std::string xt = "BINTABLE";    // or IMAGE, TABLE
  std::vector<FKey> keys;         // other than structural keywords
  std::vector<FCol> cols;
  long nrows = 0;
  std::string image;              // data of image / ASCII table / raw
  std::vector<FKey> structural;   // images: BITPIX NAXIS ...
  bool sums = false;              // write DATASUM / CHECKSUM
  std::string heap;               // bytes after the table (PCOUNT)
  // decoder only
  size_t hdr_off = 0, data_off = 0, end_off = 0;
  long naxis1 = 0;
  std::vector<std::string> cards;
  int datasum_ok = -1, checksum_ok = -1; // -1 absent, 0 wrong, 1 right
  const FKey *key(const std::string &n) const
  {
    for (auto &k : keys) if (k.name == n) return &k;
    return nullptr;
  }
  const FCol *col(const std::string &n) const
  {
    for (auto &c : cols) if (c.name == n) return &c;
    return nullptr;
  }
  FCol *col(const std::string &n)
  {
    for (auto &c : cols) if (c.name == n) return &c;
    return nullptr;
  }
  std::string extname() const { auto k = key("EXTNAME"); return k ? k->s : ""; }
};
typedef std::vector<FHdu> FFile;

int width(char type); // bytes of one element
std::string encode(const FHdu &h, bool first);
std::string encode(const FFile &f);
// Strict decoder: throws Fail on anything which is not valid FITS
FFile decode(const std::string &bytes);
uint32_t fits_sum(const std::string &bytes, size_t from, size_t to);

void write_bytes(const std::string &path, const std::string &b);
std::string read_bytes(const std::string &path);

// How a conforming file may differ from what this library writes
struct Layout {
  bool shuffle_hdus = false, shuffle_cols = false, shuffle_keys = false;
  bool extra_cols = false, extra_keys = false, extra_hdus = false;
  bool alt_types = false;     // other numeric types of sufficient range
  bool alt_widths = false;    // narrower string columns where values allow
  bool case_cols = false;     // column names in other case
  bool pad_names = false;     // EXTVER absent or arbitrary, comments on cards
  bool sums = false;
  bool lowprec = false;
  bool junk_opt = false;      // v1: v2-only keywords / columns which must be ignored
};
Layout gen_layout(Gen &g);
// Encode a dataset (revisions as in the model) as an OIFITS file. The order of
// tables of one type is preserved.
FFile to_fits(Gen &g, const MDS &m, const Layout &l);
FHdu hdu_primary(Gen &g, const MHeader &h, bool v1, const Layout &l);
FHdu hdu_target(Gen &g, const MTargets &, const Layout &);
FHdu hdu_array(Gen &g, const MArray &, const Layout &);
FHdu hdu_wave(Gen &g, const MWave &, const Layout &);
FHdu hdu_corr(Gen &g, const MCorr &, const Layout &);
FHdu hdu_pol(Gen &g, const MPol &, const Layout &);
FHdu hdu_data(Gen &g, const MData &, const Layout &);
FHdu junk_hdu(Gen &g);
// What reading that file must give: v1 defaults for fields v1 cannot carry
MDS as_read(const MDS &m);
// Decode a file written by the library: checks the structure, formats and units
// OIFITS2 prescribes and returns the content
MDS from_fits(const FFile &f);

// Plain-value model of an OIFITS dataset, with conversions to and from the
// library's structs. All reference models work on these values only.
#pragma once
#include "engine.h"
#include "lib.h"
#include <complex>
#include <string>
#include <vector>

typedef std::complex<float> cf;

struct MHeader {
  std::string origin, date, date_obs, content, telescop, instrume, observer, insmode, object;
  std::string referenc, author, prog_id, procsoft, obstech;
};
struct MElem {
  std::string tel_name, sta_name;
  int sta_index = 0;
  float diameter = 0;
  double xyz[3] = {0, 0, 0};
  double fov = 0;
  std::string fovtype;
};
struct MArray {
  int rev = 2;
  std::string arrname, frame;
  double x = 0, y = 0, z = 0;
  std::vector<MElem> elem;
};
struct MTarg {
  int id = 0;
  std::string name;
  double raep0 = 0, decep0 = 0;
  float equinox = 0;
  double ra_err = 0, dec_err = 0, sysvel = 0;
  std::string veltyp, veldef;
  double pmra = 0, pmdec = 0, pmra_err = 0, pmdec_err = 0;
  float parallax = 0, para_err = 0;
  std::string spectyp, category;
};
struct MTargets {
  int rev = 2;
  bool usecategory = false;
  std::vector<MTarg> t;
};
struct MWave {
  int rev = 2;
  std::string insname;
  std::vector<float> wave, band;
};
struct MCorr {
  int rev = 1;
  std::string corrname;
  int ndata = 0;
  std::vector<int> i, j;
  std::vector<double> c;
};
struct MPolRec {
  int tid = 0;
  std::string insname;
  double mjd_obs = 0, mjd_end = 0;
  std::vector<cf> j[4]; // xx yy xy yx
  int sta = 0;
};
struct MPol {
  int rev = 1;
  std::string date_obs, arrname, orient, model;
  int npol = 0, nwave = 0;
  std::vector<MPolRec> rec;
};
enum Kind { VIS = 0, VIS2 = 1, T3 = 2, FLUX = 3 };
extern const char *const kindname[4];
// Per-channel columns of each kind
extern const std::vector<std::string> kindcols[4];
extern const std::vector<std::string> kindcorr[4]; // columns which have a CORRINDX
inline int nuv(int k) { return k == T3 ? 4 : k == FLUX ? 0 : 2; }
inline int nsta(int k) { return k == T3 ? 3 : k == FLUX ? 1 : 2; }
struct MRec {
  int tid = 0;
  double time = 0, mjd = 0, int_time = 0;
  std::vector<std::vector<double>> col; // [column][channel]; vis: 4, or 8 with complex data
  std::vector<int> corrindx;            // one per kindcorr (vis: first 2, or 4 with complex data)
  std::vector<char> refmap;             // nwave*nwave or empty
  double uv[4] = {0, 0, 0, 0};
  int sta[3] = {0, 0, 0};
  std::vector<char> flag;
};
struct MData {
  Kind kind = VIS;
  int rev = 2;
  std::string date_obs, arrname, insname, corrname;
  // OI_VIS
  std::string amptyp, phityp;
  int amporder = -1, phiorder = -1;
  bool userefmap = false, usecomplex = false;
  std::string complexunit, ampunit;
  // OI_FLUX
  double fov = 0;
  std::string fovtype;
  char calstat = 'C';
  std::string fluxunit;
  int nwave = 0;
  std::vector<MRec> rec;
};
struct MDS {
  MHeader h;
  MTargets targets;
  std::vector<MArray> arr;
  std::vector<MWave> wave;
  std::vector<MCorr> corr;
  std::vector<MPol> pol;
  std::vector<MData> dat[4];
};

// ---- visitors: apply f(name, field) to every scalar field in order -----------
template <class F, class H> void each(H &h, F f, std::enable_if_t<std::is_same_v<std::remove_const_t<H>, MHeader>> * = 0)
{
  f("ORIGIN", h.origin); f("DATE", h.date); f("DATE-OBS", h.date_obs); f("CONTENT", h.content);
  f("TELESCOP", h.telescop); f("INSTRUME", h.instrume); f("OBSERVER", h.observer); f("INSMODE", h.insmode);
  f("OBJECT", h.object); f("REFERENC", h.referenc); f("AUTHOR", h.author); f("PROG_ID", h.prog_id);
  f("PROCSOFT", h.procsoft); f("OBSTECH", h.obstech);
}

struct CmpOpt {
  bool header = true;
  bool header_date = true;    // DATE keyword
  bool kw_tol = false;        // double keywords survive to 15 significant digits only
  bool revision = true;
  bool time = true;
};
// "" if equal, else a description of the first difference
std::string diff(const MDS &a, const MDS &b, const CmpOpt &o = CmpOpt());
std::string diff(const MHeader &a, const MHeader &b, const CmpOpt &o = CmpOpt());
std::string diff(const MArray &a, const MArray &b, const CmpOpt &o = CmpOpt());
std::string diff(const MTargets &a, const MTargets &b, const CmpOpt &o = CmpOpt());
std::string diff(const MTarg &a, const MTarg &b);
std::string diff(const MWave &a, const MWave &b, const CmpOpt &o = CmpOpt());
std::string diff(const MCorr &a, const MCorr &b, const CmpOpt &o = CmpOpt());
std::string diff(const MPol &a, const MPol &b, const CmpOpt &o = CmpOpt());
std::string diff(const MData &a, const MData &b, const CmpOpt &o = CmpOpt());
bool same(double a, double b); // equal, or both NaN (sign of zero significant)
bool samef(float a, float b);
std::string sd(double);

// ---- to and from the library -------------------------------------------------
// Build a dataset with the public allocation functions.
// With index=true the lookup tables are filled as the reading code does for
// tables named by data; index=false leaves them empty.
void to_c(const MDS &m, oi_fits *o, bool index = true);
MDS from_c(const oi_fits *o); // checks counts against lists; throws Fail
MHeader from_c(const oi_header &);
MArray from_c(const oi_array &);
MTargets from_c(const oi_target &);
MTarg from_c(const target &);
MWave from_c(const oi_wavelength &);
MCorr from_c(const oi_corr &);
MPol from_c(const oi_inspol &);
MData from_c(const oi_vis &);
MData from_c(const oi_vis2 &);
MData from_c(const oi_t3 &);
MData from_c(const oi_flux &);
oi_header to_c(const MHeader &);
oi_array *to_c(const MArray &);
void to_c(const MTargets &, oi_target *);
oi_wavelength *to_c(const MWave &);
oi_corr *to_c(const MCorr &);
oi_inspol *to_c(const MPol &);
oi_vis *to_vis(const MData &);
oi_vis2 *to_vis2(const MData &);
oi_t3 *to_t3(const MData &);
oi_flux *to_flux(const MData &);

std::string summary(const MDS &m); // one-line description for samples
std::string dump(const MDS &m);    // longer dump for failure reports

// Owns an oi_fits for the duration of a scope
struct Oi {
  oi_fits o;
  bool live = false;
  Oi() {}
  explicit Oi(const MDS &m, bool index = true) { to_c(m, &o, index); live = true; }
  Oi(const Oi &) = delete;
  ~Oi() { if (live) free_oi_fits(&o); }
};

// Reference model of dataset filtering and of the data iterators.
#pragma once
#include "gen.h"

struct FSpec {
  std::string arrname = "*", insname = "*", corrname = "*";
  int target_id = -1;
  double mjd[2] = {0, 1e7};
  float wave[2] = {0, 1e-4f};
  double bas[2] = {0, 1e4}, uvrad[2] = {0, 1e11};
  float snr[2] = {-5, 1e10f};
  bool vis = true, vis2 = true, t3amp = true, t3phi = true, flux = true, flagged = true;
};
bool glob(const std::string &pat, const std::string &s); // * and ? only
void to_c(const FSpec &f, oi_filter_spec *c);
std::string show(const FSpec &f);
FSpec gen_spec(Gen &g, const MDS &m, int criteria = -1); // criteria: how many (-1 random)
struct Datum {
  int extver;
  long irec;
  int iwave;
};
MDS ref_filter(const MDS &m, const FSpec &f, bool prune = true);
std::vector<Datum> ref_iter(const MDS &m, Kind k, const FSpec &f);
bool orphan_inspol(const MDS &filtered); // OI_INSPOL records naming a removed instrument

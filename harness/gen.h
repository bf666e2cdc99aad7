// Dataset generators. Every dataset they make is well formed: names are unique,
// every reference resolves, data tables have as many channels as the
// wavelength table they name - unless an option says otherwise.
#pragma once
#include "model.h"

struct GenOpt {
  int version = 2;          // 1: only v1 tables; 2: v2; 0: mixed table revisions
  bool wild = false;        // any double / float, incl. NaN, infinities, extremes
  bool nan = true;          // allow NaN data in non-wild mode
  bool physical = true;     // values in ranges a filter can bite on
  int maxtab = 3;           // tables of a type
  int maxrec = 6;
  int maxwave = 8;
  int maxelem = 6;
  int maxtarg = 4;
  int minrec = 1, minwave = 1, minelem = 1, mintarg = 1;
  int bigwave = 0;          // % chance that a wavelength table is large
  int bigrec = 0;           // % chance that a data table has many records
  int many = 2;             // % chance that there is a lot of something
  int huge = 0;             // chance in 10000 of more records than 15 or 16 bits can count
  bool empties = false;     // tables without rows
  bool arrname_always = false;
  bool data = true;         // at least one data table
  bool unreferenced = true; // tables no data refers to
  bool quotes = true;       // strings with quotes and other punctuation
  bool inspol = true, corr = true, flux = true;
  bool conforming = false;  // values which the conformity checker accepts too
};

std::string gen_text(Gen &g, int maxlen, bool quotes = true, bool allow_empty = true);
std::string gen_name(Gen &g, const char *stem, int maxlen = 68);
double gen_double(Gen &g, bool wild);
float gen_float(Gen &g, bool wild);
double gen_mjd(Gen &g);
std::string gen_date(Gen &g);

MHeader gen_header(Gen &g, const GenOpt &o);
MArray gen_array(Gen &g, const GenOpt &o, const std::string &name);
MTargets gen_targets(Gen &g, const GenOpt &o);
MTarg gen_targ(Gen &g, const GenOpt &o, int id, const std::string &name);
MWave gen_wave(Gen &g, const GenOpt &o, const std::string &name);
MCorr gen_corr(Gen &g, const GenOpt &o, const std::string &name);
MPol gen_pol(Gen &g, const GenOpt &o, const MDS &m);
MData gen_data(Gen &g, const GenOpt &o, const MDS &m, Kind k);
MDS gen_ds(Gen &g, const GenOpt &o);

const MArray *find_array(const MDS &, const std::string &);
const MWave *find_wave(const MDS &, const std::string &);
const MCorr *find_corr(const MDS &, const std::string &);
const MTarg *find_targ(const MDS &, int id);
// What the file formats cannot carry, applied to a dataset: current revisions,
// zero TIME, and fields which are only stored in combination with others
MDS upgraded(const MDS &m);
bool interesting(const MDS &m); // more than one data table, several records

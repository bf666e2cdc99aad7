// Reference model of the conformity checks.
#pragma once
#include "gen.h"
struct Verdict {
  int level = 0;           // 0 none, 1 warning, 2 not OIFITS
  std::vector<std::string> loc;
};
struct CheckDef {
  const char *name;
  const char *desc;
  check_func fn;
  Verdict (*model)(const MDS &);
};
extern const std::vector<CheckDef> all_checks;
extern const char *const level_desc[4];
std::string want_report(const CheckDef &c, const Verdict &v); // "" if no breach
// Introduce breaches of the standard; returns a description
std::string break_ds(Gen &g, MDS &m, int n);
MDS gen_conforming(Gen &g);

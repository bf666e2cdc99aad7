// Files which are no conforming OIFITS files (p05_damage.cc).
#pragma once
#include "engine.h"
#include "lib.h"
// Leaves a damaged file, directory or nothing at f; >= 56 if that is no FITS file, 58 if a directory
int damaged_input(Gen &g, const std::string &f);
// read_oi_fits(); false if cfitsio itself overflowed a buffer (case to be discarded)
bool guarded_read(const std::string &f, oi_fits *o, STATUS *st, int *ret);

// When merging treats arrays and instruments as the same.
#pragma once
#include "gen.h"
#include <cmath>
inline bool same_array(const MArray &in, const MArray &out)
{
  const double tol = 1e-10;
  auto differ = [&](double a, double b) { return std::fabs(a - b) > tol; };
  if (differ(in.x, out.x) || differ(in.y, out.y) || differ(in.z, out.z)) return false;
  for (auto &e : in.elem)
  {
    const MElem *q = nullptr;
    for (auto &f : out.elem) if (!q && f.sta_index == e.sta_index) q = &f;
    if (!q) return false;
    for (int i = 0; i < 3; i++) if (differ(e.xyz[i], q->xyz[i])) return false;
    if (std::fabs(e.diameter - q->diameter) > 1e-3f) return false;
    if (in.rev >= 2 && (differ(e.fov, q->fov) || e.fovtype != q->fovtype)) return false;
  }
  return true;
}
inline bool same_wave(const MWave &a, const MWave &b)
{
  if (a.wave.size() != b.wave.size()) return false;
  for (size_t i = 0; i < a.wave.size(); i++)
    if (!(std::fabs((double)a.wave[i] - (double)b.wave[i]) < 1e-10 && std::fabs((double)a.band[i] - (double)b.band[i]) < 1e-10)) return false;
  return true;
}

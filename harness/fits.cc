#include "fits.h"
#include <cmath>
#include <cstring>
#include <set>
#include <algorithm>

int width(char t)
{
  switch (t)
  {
  case 'L': case 'B': case 'A': return 1;
  case 'I': return 2;
  case 'J': case 'E': return 4;
  case 'K': case 'D': case 'C': case 'P': return 8;
  case 'M': case 'Q': return 16;
  }
  return 0;
}
void write_bytes(const std::string &path, const std::string &b)
{
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) fail("harness: cannot create %s", path.c_str());
  if (fwrite(b.data(), 1, b.size(), f) != b.size()) { fclose(f); fail("harness: short write"); }
  fclose(f);
}
std::string read_bytes(const std::string &path)
{
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) fail("file %s does not exist", path.c_str());
  std::string s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  return s;
}
static void be(std::string &o, uint64_t v, int n)
{
  for (int i = n - 1; i >= 0; i--) o += (char)(v >> (8 * i));
}
static uint64_t rd(const std::string &s, size_t p, int n)
{
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)s[p + i];
  return v;
}
uint32_t fits_sum(const std::string &b, size_t from, size_t to)
{
  uint64_t s = 0;
  for (size_t i = from; i + 3 < to; i += 4)
  {
    s += rd(b, i, 4);
    if (s > 0xffffffffULL) s = (s & 0xffffffffULL) + 1;
  }
  return (uint32_t)s;
}
// ASCII encoding of the complemented checksum (FITS standard, appendix J)
static std::string enc_sum(uint32_t value)
{
  static const int exclude[13] = {0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60};
  char asc[16];
  uint32_t v = ~value;
  for (int i = 0; i < 4; i++)
  {
    int byte = (v >> (24 - 8 * i)) & 0xff;
    int quot = byte / 4 + 0x30, rem = byte % 4;
    int ch[4] = {quot + rem, quot, quot, quot};
    for (bool chk = true; chk;)
    {
      chk = false;
      for (int k = 0; k < 13; k++)
        for (int j = 0; j < 4; j += 2)
          if (ch[j] == exclude[k] || ch[j + 1] == exclude[k]) { ch[j]++; ch[j + 1]--; chk = true; }
    }
    for (int j = 0; j < 4; j++) asc[4 * j + i] = (char)ch[j];
  }
  std::string s(16, ' ');
  for (int i = 0; i < 16; i++) s[i] = asc[(i + 15) % 16];
  return s;
}
static std::string card(const FKey &k)
{
  std::string c = k.name;
  c.resize(8, ' ');
  if (k.type == ' ') c += k.comment;
  else
  {
    c += "= ";
    std::string v;
    switch (k.type)
    {
    case 'S':
    {
      v = "'";
      for (char ch : k.s) { v += ch; if (ch == '\'') v += '\''; }
      while (v.size() < 9) v += ' ';
      v += "'";
      break;
    }
    case 'I': v = strf("%20ld", k.i); break;
    case 'R':
    {
      v = strf("%.17G", k.r);
      if (v.find_first_of(".EN") == std::string::npos) v += ".";
      if (v.size() < 20) v = std::string(20 - v.size(), ' ') + v;
      break;
    }
    case 'L': v = std::string(19, ' ') + (k.i ? "T" : "F"); break;
    case 'X': v = k.s; break;
    }
    c += v;
    if (!k.comment.empty() && c.size() + 3 + k.comment.size() <= 80) c += " / " + k.comment;
  }
  c.resize(80, ' ');
  return c;
}
static std::string cell(const FCol &c, long row)
{
  std::string o;
  if (c.type == 'A')
  {
    o = c.s[row];
    o.resize(c.repeat, ' ');
    return o;
  }
  const std::vector<double> &v = c.v[row];
  for (double x0 : v)
  {
    double x = x0 - c.tzero;
    switch (c.type)
    {
    case 'L': o += x0 != 0 ? 'T' : 'F'; break;
    case 'B': be(o, (uint64_t)(int64_t)x, 1); break;
    case 'I': be(o, (uint64_t)(int64_t)x, 2); break;
    case 'J': be(o, (uint64_t)(int64_t)x, 4); break;
    case 'K': be(o, (uint64_t)(int64_t)x, 8); break;
    case 'E': case 'C':
    {
      float f = (float)x0;
      uint32_t b;
      memcpy(&b, &f, 4);
      be(o, b, 4);
      break;
    }
    case 'D': case 'M':
    {
      uint64_t b;
      memcpy(&b, &x0, 8);
      be(o, b, 8);
      break;
    }
    }
  }
  return o;
}
std::string encode(const FHdu &h, bool first)
{
  std::vector<FKey> ks;
  std::string data;
  char fill = 0;
  if (first)
  {
    ks.push_back(kL("SIMPLE", true));
    if (h.structural.empty()) { ks.push_back(kI("BITPIX", 8)); ks.push_back(kI("NAXIS", 0)); }
    for (auto &k : h.structural) ks.push_back(k);
    ks.push_back(kL("EXTEND", true));
    data = h.image;
  }
  else
  {
    ks.push_back(kS("XTENSION", h.xt));
    if (h.xt == "BINTABLE")
    {
      long w = 0;
      for (auto &c : h.cols) w += (long)width(c.type) * c.repeat;
      ks.push_back(kI("BITPIX", 8)); ks.push_back(kI("NAXIS", 2)); ks.push_back(kI("NAXIS1", w));
      ks.push_back(kI("NAXIS2", h.nrows)); ks.push_back(kI("PCOUNT", (long)h.heap.size())); ks.push_back(kI("GCOUNT", 1));
      ks.push_back(kI("TFIELDS", (long)h.cols.size()));
      for (size_t i = 0; i < h.cols.size(); i++)
      {
        const FCol &c = h.cols[i];
        ks.push_back(kS(strf("TTYPE%zu", i + 1), c.name));
        ks.push_back(kS(strf("TFORM%zu", i + 1), strf("%ld%c", c.repeat, c.type)));
        if (c.hasunit) ks.push_back(kS(strf("TUNIT%zu", i + 1), c.unit));
        if (!c.dim.empty()) ks.push_back(kS(strf("TDIM%zu", i + 1), c.dim));
        if (c.tzero != 0) { ks.push_back(kR(strf("TSCAL%zu", i + 1), 1)); ks.push_back(kR(strf("TZERO%zu", i + 1), c.tzero)); }
      }
      for (long r = 0; r < h.nrows; r++)
        for (auto &c : h.cols) data += cell(c, r);
      data += h.heap;
    }
    else
    {
      for (auto &k : h.structural) ks.push_back(k);
      data = h.image;
      if (h.xt == "TABLE") fill = ' ';
    }
  }
  for (auto &k : h.keys) ks.push_back(k);
  while (data.size() % 2880) data += fill;
  std::string hdr;
  for (auto &k : ks) hdr += card(k);
  size_t cpos = 0;
  if (h.sums)
  {
    uint32_t ds = fits_sum(data, 0, data.size());
    hdr += card(kS("DATASUM", strf("%u", ds)));
    cpos = hdr.size();
    hdr += card(kS("CHECKSUM", "0000000000000000"));
  }
  std::string end = "END";
  end.resize(80, ' ');
  hdr += end;
  while (hdr.size() % 2880) hdr += ' ';
  std::string all = hdr + data;
  if (h.sums) all.replace(cpos + 11, 16, enc_sum(fits_sum(all, 0, all.size())));
  return all;
}
std::string encode(const FFile &f)
{
  std::string s;
  for (size_t i = 0; i < f.size(); i++) s += encode(f[i], i == 0);
  return s;
}

// ------------------------------------------------------------------ decoder
static std::string comment_from(const std::string &c, size_t p)
{
  if (p >= c.size()) return "";
  p = c.find_first_not_of(' ', p + 1);
  size_t e = c.find_last_not_of(' ');
  return p == std::string::npos ? "" : c.substr(p, e - p + 1);
}
static FKey parse_card(const std::string &c)
{
  FKey k;
  k.name = c.substr(0, 8);
  while (!k.name.empty() && k.name.back() == ' ') k.name.pop_back();
  if (c.compare(8, 2, "= ") != 0 || k.name == "COMMENT" || k.name == "HISTORY" || k.name.empty())
  {
    k.type = ' ';
    k.comment = c.substr(8);
    return k;
  }
  size_t p = 10;
  while (p < 80 && c[p] == ' ') p++;
  if (p == 80 || c[p] == '/') { k.type = ' '; return k; }
  if (c[p] == '\'')
  {
    k.type = 'S';
    p++;
    for (;;)
    {
      if (p >= 80) fail("unterminated string in card '%s'", c.c_str());
      if (c[p] == '\'')
      {
        if (p + 1 < 80 && c[p + 1] == '\'') { k.s += '\''; p += 2; continue; }
        p++;
        break;
      }
      k.s += c[p++];
    }
    while (!k.s.empty() && k.s.back() == ' ') k.s.pop_back();
    while (p < 80 && c[p] == ' ') p++;
    if (p < 80 && c[p] != '/') fail("text after string value in card '%s'", c.c_str());
    k.comment = comment_from(c, p);
    return k;
  }
  std::string v;
  while (p < 80 && c[p] != '/' && c[p] != ' ') v += c[p++];
  while (p < 80 && c[p] == ' ') p++;
  if (p < 80 && c[p] != '/') fail("text after value in card '%s'", c.c_str());
  k.comment = comment_from(c, p);
  if (v == "T" || v == "F") { k.type = 'L'; k.i = v == "T"; return k; }
  char *e;
  long l = strtol(v.c_str(), &e, 10);
  if (*e == 0) { k.type = 'I'; k.i = l; k.r = l; return k; }
  for (char &ch : v) if (ch == 'D') ch = 'E';
  double d = strtod(v.c_str(), &e);
  if (*e != 0) fail("bad value '%s' in card '%s'", v.c_str(), c.c_str());
  k.type = 'R';
  k.r = d;
  return k;
}
FFile decode(const std::string &b)
{
  FFile f;
  if (b.empty() || b.size() % 2880) fail("file length %zu is not a multiple of 2880", b.size());
  size_t p = 0;
  while (p < b.size())
  {
    FHdu h;
    h.hdr_off = p;
    h.primary = f.empty();
    bool end = false;
    while (!end)
    {
      if (p + 2880 > b.size()) fail("header of HDU %zu has no END", f.size() + 1);
      for (int i = 0; i < 36; i++)
      {
        std::string c = b.substr(p + 80 * i, 80);
        for (char ch : c) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) fail("non-text character in header of HDU %zu", f.size() + 1);
        if (end) { if (c != std::string(80, ' ')) fail("text after END in HDU %zu", f.size() + 1); continue; }
        if (c.compare(0, 8, "END     ") == 0) { end = true; if (c != "END" + std::string(77, ' ')) fail("bad END card"); continue; }
        h.cards.push_back(c);
      }
      p += 2880;
    }
    std::vector<FKey> ks;
    for (auto &c : h.cards) ks.push_back(parse_card(c));
    std::set<std::string> seen;
    for (auto &k : ks)
    {
      if (k.type == ' ') continue;
      if (!seen.insert(k.name).second) fail("keyword %s appears twice in HDU %zu", k.name.c_str(), f.size() + 1);
    }
    size_t ki = 0;
    auto need = [&](const char *n, char t) -> const FKey & {
      if (ki >= ks.size() || ks[ki].name != n || ks[ki].type != t) fail("HDU %zu: expected mandatory keyword %s at position %zu", f.size() + 1, n, ki + 1);
      return ks[ki++];
    };
    size_t bytes = 0;
    std::vector<std::string> ttype, tform;
    if (h.primary)
    {
      if (!need("SIMPLE", 'L').i) fail("SIMPLE is not T");
      long bp = labs(need("BITPIX", 'I').i);
      long na = need("NAXIS", 'I').i;
      size_t n = na ? bp / 8 : 0;
      for (int i = 1; i <= na; i++) n *= need(strf("NAXIS%d", i).c_str(), 'I').i;
      bytes = n;
    }
    else
    {
      h.xt = need("XTENSION", 'S').s;
      long bp = labs(need("BITPIX", 'I').i);
      long na = need("NAXIS", 'I').i;
      size_t n = bp / 8;
      std::vector<long> ax;
      for (int i = 1; i <= na; i++) { ax.push_back(need(strf("NAXIS%d", i).c_str(), 'I').i); n *= ax.back(); }
      if (na == 0) n = 0;
      long pc = need("PCOUNT", 'I').i, gc = need("GCOUNT", 'I').i;
      if (gc != 1) fail("GCOUNT is %ld", gc);
      bytes = n + pc;
      if (h.xt == "BINTABLE")
      {
        if (bp != 8 || na != 2) fail("binary table with BITPIX %ld NAXIS %ld", bp, na);
        h.naxis1 = ax[0];
        h.nrows = ax[1];
        long tf = need("TFIELDS", 'I').i;
        ttype.resize(tf); tform.resize(tf);
        h.cols.resize(tf);
      }
    }
    h.data_off = p;
    size_t padded = (bytes + 2879) / 2880 * 2880;
    if (p + padded > b.size()) fail("data of HDU %zu truncated", f.size() + 1);
    auto idx = [&](const std::string &n, const char *stem) -> int {
      size_t l = strlen(stem);
      if (n.compare(0, l, stem) != 0 || n.size() == l) return -1;
      int v = 0;
      for (size_t i = l; i < n.size(); i++) { if (!isdigit((unsigned char)n[i])) return -1; v = v * 10 + n[i] - '0'; }
      return v;
    };
    for (; ki < ks.size(); ki++)
    {
      FKey &k = ks[ki];
      int i;
      if (h.xt == "BINTABLE" && !h.primary)
      {
        static const char *stems[] = {"TTYPE", "TFORM", "TUNIT", "TDIM", "TZERO", "TSCAL", "TNULL", "TDISP"};
        bool used = false;
        for (auto st : stems)
          if ((i = idx(k.name, st)) >= 0)
          {
            if (i < 1 || i > (int)h.cols.size()) fail("keyword %s refers to no column of HDU %zu", k.name.c_str(), f.size() + 1);
            FCol &c = h.cols[i - 1];
            if (!strcmp(st, "TTYPE")) c.name = k.s;
            else if (!strcmp(st, "TFORM")) tform[i - 1] = k.s;
            else if (!strcmp(st, "TUNIT")) { c.hasunit = true; c.unit = k.s; }
            else if (!strcmp(st, "TDIM")) c.dim = k.s;
            else if (!strcmp(st, "TZERO")) c.tzero = k.r;
            used = true;
          }
        if (used) continue;
      }
      h.keys.push_back(k);
    }
    if (!h.primary && h.xt == "BINTABLE")
    {
      long off = 0;
      std::set<std::string> names;
      for (size_t i = 0; i < h.cols.size(); i++)
      {
        FCol &c = h.cols[i];
        const std::string &t = tform[i];
        size_t q = 0;
        long rep = 0;
        if (!t.empty() && isdigit((unsigned char)t[0])) while (q < t.size() && isdigit((unsigned char)t[q])) rep = rep * 10 + t[q++] - '0';
        else rep = 1;
        if (q >= t.size() || !width(t[q])) fail("bad TFORM '%s' of column %s", t.c_str(), c.name.c_str());
        c.type = t[q];
        c.repeat = rep;
        if (c.name.empty()) fail("column %zu of HDU %zu has no name", i + 1, f.size() + 1);
        if (!names.insert(c.name).second) fail("column %s appears twice in HDU %zu", c.name.c_str(), f.size() + 1);
        for (long r = 0; r < h.nrows; r++)
        {
          size_t at = p + r * h.naxis1 + off;
          if (c.type == 'A')
          {
            std::string s = b.substr(at, rep);
            size_t z = s.find('\0');
            if (z != std::string::npos) s.resize(z);
            for (char ch : s) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) fail("non-text character in column %s", c.name.c_str());
            while (!s.empty() && s.back() == ' ') s.pop_back();
            c.s.push_back(s);
            continue;
          }
          std::vector<double> v;
          int w = width(c.type);
          long n = rep * (c.type == 'C' || c.type == 'M' ? 2 : 1);
          if (c.type == 'C') w = 4;
          if (c.type == 'M') w = 8;
          for (long e = 0; e < n; e++)
          {
            uint64_t u = rd(b, at + e * w, w);
            double x = 0;
            switch (c.type)
            {
            case 'L':
              if (u != 'T' && u != 'F') fail("logical column %s contains byte %d", c.name.c_str(), (int)u);
              x = u == 'T';
              break;
            case 'B': x = (double)u + c.tzero; break;
            case 'I': x = (int16_t)u + c.tzero; break;
            case 'J': x = (int32_t)u + c.tzero; break;
            case 'K': x = (double)(int64_t)u + c.tzero; break;
            case 'E': case 'C': { uint32_t u4 = (uint32_t)u; float fl; memcpy(&fl, &u4, 4); x = fl; break; }
            case 'D': case 'M': memcpy(&x, &u, 8); break;
            }
            v.push_back(x);
          }
          c.v.push_back(v);
        }
        off += rep * width(c.type);
      }
      if (off != h.naxis1) fail("HDU %zu: columns occupy %ld bytes but NAXIS1=%ld", f.size() + 1, off, h.naxis1);
    }
    for (size_t q = p + bytes; q < p + padded; q++)
      if (b[q] != 0 && h.xt != "TABLE") fail("data of HDU %zu is not padded with zeros", f.size() + 1);
    p += padded;
    h.end_off = p;
    if (auto k = h.key("DATASUM")) h.datasum_ok = strtoul(k->s.c_str(), nullptr, 10) == fits_sum(b, h.data_off, h.end_off);
    if (h.key("CHECKSUM"))
    {
      uint32_t s = fits_sum(b, h.hdr_off, h.end_off);
      h.checksum_ok = s == 0xffffffffu || s == 0;
    }
    f.push_back(h);
  }
  return f;
}

// --------------------------------------------------------------- OIFITS out
Layout gen_layout(Gen &g)
{
  Layout l;
  if (g.chance(15)) return l;
  l.shuffle_hdus = g.flip(); l.shuffle_cols = g.flip(); l.shuffle_keys = g.flip();
  l.extra_cols = g.chance(40); l.extra_keys = g.chance(40); l.extra_hdus = g.chance(40);
  l.alt_types = g.chance(40); l.alt_widths = g.chance(40); l.case_cols = g.chance(30);
  l.pad_names = g.chance(40); l.sums = g.chance(30);
  l.junk_opt = g.chance(40);
  return l;
}
namespace {
struct TB { // table builder
  Gen &g;
  const Layout &l;
  FHdu h;
  long n;
  TB(Gen &g_, const Layout &l_, const char *ext, int rev, long nrows) : g(g_), l(l_), n(nrows)
  {
    h.nrows = nrows;
    h.sums = l.sums;
    h.keys.push_back(kS("EXTNAME", ext));
    h.keys.push_back(kI("OI_REVN", rev));
    if (!l.pad_names) h.keys.push_back(kI("EXTVER", 1));
    else if (g.flip()) h.keys.push_back(kI("EXTVER", g.range(1, 40)));
  }
  FCol &col(const std::string &name, char t, long rep, const char *unit = nullptr)
  {
    FCol c;
    c.name = name;
    c.type = t;
    c.repeat = rep;
    if (unit) { c.hasunit = true; c.unit = unit; }
    if (t != 'A') c.v.resize(n);
    h.cols.push_back(c);
    return h.cols.back();
  }
  void str(const std::string &name, int w, std::vector<std::string> v)
  {
    size_t m = 1;
    for (auto &s : v) m = std::max(m, s.size());
    if (l.alt_widths && (int)m < w) w = g.range((int)m, w);
    FCol &c = col(name, 'A', w);
    c.s = std::move(v);
  }
  template <class F> void num(const std::string &name, char t, long rep, F get, const char *unit = nullptr)
  {
    FCol &c = col(name, t, rep, unit);
    for (long r = 0; r < n; r++) c.v[r] = get(r);
    if (!l.alt_types || g.chance(40)) return;
    // another type which holds all these values exactly
    double lo = 0, hi = 0;
    bool flt = true, fin = true;
    for (auto &v : c.v)
      for (double x : v)
      {
        lo = std::min(lo, x); hi = std::max(hi, x);
        if (!(std::isnan(x) || (double)(float)x == x)) flt = false;
        if (std::isinf(x)) fin = false; // cfitsio does not narrow infinities
      }
    switch (t)
    {
    case 'I': case 'J':
    {
      std::string ok = "JK";
      if (lo >= -32768 && hi <= 32767) ok += "I";
      if (lo >= 0 && hi <= 255) ok += "B";
      c.type = ok[g.below(ok.size())];
      if (c.type == 'I' && lo >= 0 && g.chance(40)) c.tzero = 32768;
      break;
    }
    case 'E': if (fin) c.type = 'D'; break;
    case 'D': if (flt) c.type = 'E'; break;
    case 'C': if (fin) c.type = 'M'; break;
    }
  }
  FHdu done()
  {
    if (l.extra_cols)
      for (int k = g.range(1, 3); k > 0; k--)
      {
        FCol c;
        c.name = strf("%s_%d", g.one<const char *>({"X_EXTRA", "NS_MODEL_VISDATA", "VISAMP_X", "CHI2", "FLAGGED", "TIME_REF"}), k);
        c.type = g.one({'D', 'I', 'E', 'L', 'A'});
        c.repeat = g.range(1, 4);
        for (long r = 0; r < n; r++)
          if (c.type == 'A') c.s.push_back(std::string(c.repeat, 'q'));
          else c.v.push_back(std::vector<double>(c.repeat, (double)g.range(0, 1)));
        h.cols.push_back(c);
      }
    if (l.extra_keys)
      for (int k = g.range(1, 4); k > 0; k--)
        switch (g.below(5))
        {
        case 0: h.keys.push_back(kC("COMMENT", " made by a generator")); break;
        case 1: h.keys.push_back(kC("HISTORY", " ARRNAME= 'NOT A KEYWORD'")); break;
        case 2: h.keys.push_back(kR(strf("X_REAL%d", k), 1.5)); break;
        case 3: h.keys.push_back(kS(strf("X_STR%d", k), "it's")); break;
        case 4: h.keys.push_back(kI(strf("X_INT%d", k), 7)); break;
        }
    if (l.shuffle_cols)
    {
      std::vector<FCol> c;
      for (int i : g.perm((int)h.cols.size())) c.push_back(h.cols[i]);
      h.cols = c;
    }
    if (l.shuffle_keys)
    {
      std::vector<FKey> c;
      for (int i : g.perm((int)h.keys.size())) c.push_back(h.keys[i]);
      h.keys = c;
    }
    if (l.case_cols)
      for (auto &c : h.cols)
        if (g.flip()) for (char &ch : c.name) ch = tolower(ch);
    if (l.pad_names)
      for (auto &k : h.keys)
        if (k.type != ' ' && g.chance(40)) k.comment = "a comment";
    return h;
  }
};
std::vector<double> V(double x) { return {x}; }
} // namespace
FHdu hdu_primary(Gen &g, const MHeader &h, bool v1, const Layout &l)
{
  FHdu p;
  p.primary = true;
  p.sums = l.sums;
  if (!v1)
    each(h, [&](const char *n, const std::string &v) {
      bool opt = !strcmp(n, "REFERENC") || !strcmp(n, "AUTHOR") || !strcmp(n, "PROG_ID") || !strcmp(n, "PROCSOFT") || !strcmp(n, "OBSTECH");
      if (v.empty() && (opt || g.flip())) return; // absent means empty
      p.keys.push_back(kS(n, v));
    });
  else if (l.junk_opt)
  {
    // a v1 file may have any of the other keywords; they are then replaced
    if (g.flip()) p.keys.push_back(kS("ORIGIN", "somewhere"));
    if (g.flip()) p.keys.push_back(kS("OBJECT", "other"));
    if (g.flip()) p.keys.push_back(kS("CONTENT", "OIFITS1"));
  }
  if (l.extra_keys) { p.keys.push_back(kC("COMMENT", " primary comment")); p.keys.push_back(kI("X_PRIM", 3)); }
  if (l.shuffle_keys)
  {
    std::vector<FKey> c;
    for (int i : g.perm((int)p.keys.size())) c.push_back(p.keys[i]);
    p.keys = c;
  }
  if (l.extra_hdus && g.flip()) // an image in the primary HDU
  {
    p.structural = {kI("BITPIX", 16), kI("NAXIS", 2), kI("NAXIS1", 3), kI("NAXIS2", 2)};
    p.image = std::string(12, '\1');
  }
  return p;
}
FHdu hdu_target(Gen &g, const MTargets &m, const Layout &l)
{
  TB t(g, l, "OI_TARGET", m.rev, (long)m.t.size());
  auto S = [&](std::string MTarg::*f) { std::vector<std::string> v; for (auto &x : m.t) v.push_back(x.*f); return v; };
  auto D = [&](double MTarg::*f) { return [&m, f](long r) { return V(m.t[r].*f); }; };
  auto F = [&](float MTarg::*f) { return [&m, f](long r) { return V(m.t[r].*f); }; };
  int w = m.rev == 1 ? 16 : 32;
  for (auto &x : m.t) if (x.name.size() > 16 || x.spectyp.size() > 16) w = 32;
  t.num("TARGET_ID", 'I', 1, [&](long r) { return V(m.t[r].id); });
  t.str("TARGET", w, S(&MTarg::name));
  t.num("RAEP0", 'D', 1, D(&MTarg::raep0), "deg");
  t.num("DECEP0", 'D', 1, D(&MTarg::decep0), "deg");
  t.num("EQUINOX", 'E', 1, F(&MTarg::equinox), "yr");
  t.num("RA_ERR", 'D', 1, D(&MTarg::ra_err), "deg");
  t.num("DEC_ERR", 'D', 1, D(&MTarg::dec_err), "deg");
  t.num("SYSVEL", 'D', 1, D(&MTarg::sysvel), "m/s");
  t.str("VELTYP", 8, S(&MTarg::veltyp));
  t.str("VELDEF", 8, S(&MTarg::veldef));
  t.num("PMRA", 'D', 1, D(&MTarg::pmra), "deg/yr");
  t.num("PMDEC", 'D', 1, D(&MTarg::pmdec), "deg/yr");
  t.num("PMRA_ERR", 'D', 1, D(&MTarg::pmra_err), "deg/yr");
  t.num("PMDEC_ERR", 'D', 1, D(&MTarg::pmdec_err), "deg/yr");
  t.num("PARALLAX", 'E', 1, F(&MTarg::parallax), "deg");
  t.num("PARA_ERR", 'E', 1, F(&MTarg::para_err), "deg");
  t.str("SPECTYP", w, S(&MTarg::spectyp));
  if (m.rev >= 2 && m.usecategory) t.str("CATEGORY", 3, S(&MTarg::category));
  if (m.rev == 1 && l.junk_opt && g.flip()) t.str("CATEGORY", 3, std::vector<std::string>(m.t.size(), "SCI"));
  return t.done();
}
FHdu hdu_array(Gen &g, const MArray &m, const Layout &l)
{
  TB t(g, l, "OI_ARRAY", m.rev, (long)m.elem.size());
  t.h.keys.push_back(kS("ARRNAME", m.arrname));
  t.h.keys.push_back(kS("FRAME", m.frame));
  t.h.keys.push_back(kR("ARRAYX", m.x));
  t.h.keys.push_back(kR("ARRAYY", m.y));
  t.h.keys.push_back(kR("ARRAYZ", m.z));
  auto S = [&](std::string MElem::*f) { std::vector<std::string> v; for (auto &x : m.elem) v.push_back(x.*f); return v; };
  t.str("TEL_NAME", 16, S(&MElem::tel_name));
  t.str("STA_NAME", 16, S(&MElem::sta_name));
  t.num("STA_INDEX", 'I', 1, [&](long r) { return V(m.elem[r].sta_index); });
  t.num("DIAMETER", 'E', 1, [&](long r) { return V(m.elem[r].diameter); }, "m");
  t.num("STAXYZ", 'D', 3, [&](long r) { auto &e = m.elem[r]; return std::vector<double>(e.xyz, e.xyz + 3); }, "m");
  if (m.rev >= 2)
  {
    t.num("FOV", 'D', 1, [&](long r) { return V(m.elem[r].fov); }, "arcsec");
    t.str("FOVTYPE", 6, S(&MElem::fovtype));
  }
  return t.done();
}
FHdu hdu_wave(Gen &g, const MWave &m, const Layout &l)
{
  TB t(g, l, "OI_WAVELENGTH", m.rev, (long)m.wave.size());
  t.h.keys.push_back(kS("INSNAME", m.insname));
  t.num("EFF_WAVE", 'E', 1, [&](long r) { return V(m.wave[r]); }, "m");
  t.num("EFF_BAND", 'E', 1, [&](long r) { return V(m.band[r]); }, "m");
  return t.done();
}
FHdu hdu_corr(Gen &g, const MCorr &m, const Layout &l)
{
  TB t(g, l, "OI_CORR", m.rev, (long)m.i.size());
  t.h.keys.push_back(kS("CORRNAME", m.corrname));
  t.h.keys.push_back(kI("NDATA", m.ndata));
  t.num("IINDX", 'J', 1, [&](long r) { return V(m.i[r]); });
  t.num("JINDX", 'J', 1, [&](long r) { return V(m.j[r]); });
  t.num("CORR", 'D', 1, [&](long r) { return V(m.c[r]); });
  return t.done();
}
FHdu hdu_pol(Gen &g, const MPol &m, const Layout &l)
{
  TB t(g, l, "OI_INSPOL", m.rev, (long)m.rec.size());
  t.h.keys.push_back(kS("DATE-OBS", m.date_obs));
  t.h.keys.push_back(kI("NPOL", m.npol));
  t.h.keys.push_back(kS("ARRNAME", m.arrname));
  t.h.keys.push_back(kS("ORIENT", m.orient));
  t.h.keys.push_back(kS("MODEL", m.model));
  std::vector<std::string> ins;
  for (auto &r : m.rec) ins.push_back(r.insname);
  t.num("TARGET_ID", 'I', 1, [&](long r) { return V(m.rec[r].tid); });
  t.str("INSNAME", 70, ins);
  t.num("MJD_OBS", 'D', 1, [&](long r) { return V(m.rec[r].mjd_obs); }, "day");
  t.num("MJD_END", 'D', 1, [&](long r) { return V(m.rec[r].mjd_end); }, "day");
  static const char *jn[4] = {"JXX", "JYY", "JXY", "JYX"};
  for (int k = 0; k < 4; k++)
    t.num(jn[k], 'C', m.nwave, [&](long r) {
      std::vector<double> v;
      for (cf c : m.rec[r].j[k]) { v.push_back(c.real()); v.push_back(c.imag()); }
      return v;
    });
  t.num("STA_INDEX", 'I', 1, [&](long r) { return V(m.rec[r].sta); });
  return t.done();
}
FHdu hdu_data(Gen &g, const MData &m, const Layout &l)
{
  static const char *uvn[4][4] = {{"UCOORD", "VCOORD"}, {"UCOORD", "VCOORD"}, {"U1COORD", "V1COORD", "U2COORD", "V2COORD"}, {}};
  TB t(g, l, kindname[m.kind], m.rev, (long)m.rec.size());
  bool v2 = m.kind == FLUX || m.rev >= 2;
  t.h.keys.push_back(kS("DATE-OBS", m.date_obs));
  if (!m.arrname.empty()) t.h.keys.push_back(kS("ARRNAME", m.arrname));
  t.h.keys.push_back(kS("INSNAME", m.insname));
  if (v2 && !m.corrname.empty()) t.h.keys.push_back(kS("CORRNAME", m.corrname));
  if (m.kind == VIS && v2)
  {
    if (!m.amptyp.empty()) t.h.keys.push_back(kS("AMPTYP", m.amptyp));
    if (!m.phityp.empty()) t.h.keys.push_back(kS("PHITYP", m.phityp));
    if (m.amporder >= 0) t.h.keys.push_back(kI("AMPORDER", m.amporder));
    if (m.phiorder >= 0) t.h.keys.push_back(kI("PHIORDER", m.phiorder));
  }
  if (m.kind == FLUX)
  {
    t.h.keys.push_back(kS("CALSTAT", std::string(1, m.calstat)));
    if (!m.fovtype.empty()) { t.h.keys.push_back(kR("FOV", m.fov)); t.h.keys.push_back(kS("FOVTYPE", m.fovtype)); }
  }
  if (!v2 && l.junk_opt && g.flip())
  {
    // v2 features in a revision 1 table are not part of that revision
    t.h.keys.push_back(kS("CORRNAME", "none such"));
    if (m.kind == VIS) { t.h.keys.push_back(kS("AMPTYP", "differential")); t.h.keys.push_back(kI("AMPORDER", 2)); }
  }
  t.num("TARGET_ID", 'I', 1, [&](long r) { return V(m.rec[r].tid); });
  if (m.kind != FLUX) t.num("TIME", 'D', 1, [&](long r) { return V(m.rec[r].time); }, "s");
  t.num("MJD", 'D', 1, [&](long r) { return V(m.rec[r].mjd); }, "day");
  t.num("INT_TIME", 'D', 1, [&](long r) { return V(m.rec[r].int_time); }, "s");
  int ncol = m.kind == VIS && !m.usecomplex ? 4 : (int)kindcols[m.kind].size();
  for (int c = 0; c < ncol; c++)
  {
    const std::string &n = kindcols[m.kind][c];
    const char *u = nullptr;
    if (n.find("PHI") != std::string::npos) u = "deg";
    if (m.kind == VIS && c >= 4) u = m.complexunit.c_str();
    if (m.kind == VIS && c < 2 && m.amptyp == "correlated flux") u = m.ampunit.c_str();
    if (m.kind == FLUX) u = m.fluxunit.c_str();
    t.num(n, 'D', m.nwave, [&](long r) { return m.rec[r].col[c]; }, u);
  }
  if (v2 && !m.corrname.empty())
  {
    int nc = m.kind == VIS && !m.usecomplex ? 2 : (int)kindcorr[m.kind].size();
    for (int c = 0; c < nc; c++) t.num("CORRINDX_" + kindcorr[m.kind][c], 'J', 1, [&](long r) { return V(m.rec[r].corrindx[c]); });
  }
  if (m.userefmap)
  {
    t.num("VISREFMAP", 'L', (long)m.nwave * m.nwave, [&](long r) { return std::vector<double>(m.rec[r].refmap.begin(), m.rec[r].refmap.end()); });
    t.h.cols.back().dim = strf("(%d,%d)", m.nwave, m.nwave);
  }
  for (int c = 0; c < nuv(m.kind); c++) t.num(uvn[m.kind][c], 'D', 1, [&](long r) { return V(m.rec[r].uv[c]); }, "m");
  if (m.kind != FLUX || !m.arrname.empty())
    t.num("STA_INDEX", 'I', nsta(m.kind), [&](long r) { return std::vector<double>(m.rec[r].sta, m.rec[r].sta + nsta(m.kind)); });
  t.num("FLAG", 'L', m.nwave, [&](long r) { return std::vector<double>(m.rec[r].flag.begin(), m.rec[r].flag.end()); });
  return t.done();
}
FHdu junk_hdu(Gen &g)
{
  FHdu h;
  switch (g.below(5))
  {
  case 0: // image
    h.xt = "IMAGE";
    h.structural = {kI("BITPIX", 8), kI("NAXIS", 1), kI("NAXIS1", 10), kI("PCOUNT", 0), kI("GCOUNT", 1)};
    h.image = std::string(10, 'i');
    h.keys = {kS("EXTNAME", g.one<const char *>({"IMAGE", "OI_VIS2", "OI_TARGET", "IMAGE-OI"}))};
    break;
  case 1: // ASCII table
    h.xt = "TABLE";
    h.structural = {kI("BITPIX", 8), kI("NAXIS", 2), kI("NAXIS1", 4), kI("NAXIS2", 2), kI("PCOUNT", 0), kI("GCOUNT", 1),
                    kI("TFIELDS", 1), kS("TTYPE1", "A"), kI("TBCOL1", 1), kS("TFORM1", "I4")};
    h.image = "   1   2";
    h.keys = {kS("EXTNAME", g.one<const char *>({"ASC", "OI_ARRAY", "OI_WAVELENGTH"}))};
    break;
  case 2: // binary table of another kind
  case 3:
  {
    h.keys = {kS("EXTNAME", g.one<const char *>({"OI_EXTRA", "NS_MODEL", "OI_VIS3", "XOI_VIS", "oi_vis", "OI_T", "IMAGE-OI INPUT PARAM"})), kS("INSNAME", "INS0"), kS("ARRNAME", "ARR0")};
    FCol c;
    c.name = "VAL";
    c.type = 'J';
    h.nrows = g.range(0, 3);
    for (int i = 0; i < h.nrows; i++) c.v.push_back({1.0});
    h.cols.push_back(c);
    break;
  }
  case 4: // binary table without a name
  {
    FCol c;
    c.name = "VAL";
    c.type = 'D';
    h.nrows = 1;
    c.v.push_back({1.0});
    h.cols.push_back(c);
    break;
  }
  }
  return h;
}
FFile to_fits(Gen &g, const MDS &m, const Layout &l)
{
  FFile f;
  bool v1 = m.h.content != "OIFITS2";
  f.push_back(hdu_primary(g, m.h, v1, l));
  // tables grouped by type; the order within a type is kept, the types interleaved
  std::vector<std::vector<FHdu>> grp;
  grp.push_back({hdu_target(g, m.targets, l)});
  grp.emplace_back();
  for (auto &x : m.arr) grp.back().push_back(hdu_array(g, x, l));
  grp.emplace_back();
  for (auto &x : m.wave) grp.back().push_back(hdu_wave(g, x, l));
  grp.emplace_back();
  for (auto &x : m.corr) grp.back().push_back(hdu_corr(g, x, l));
  grp.emplace_back();
  for (auto &x : m.pol) grp.back().push_back(hdu_pol(g, x, l));
  for (int k = 0; k < 4; k++)
  {
    grp.emplace_back();
    for (auto &x : m.dat[k]) grp.back().push_back(hdu_data(g, x, l));
  }
  std::vector<int> order;
  for (size_t i = 0; i < grp.size(); i++)
    for (size_t j = 0; j < grp[i].size(); j++) order.push_back((int)i);
  if (l.shuffle_hdus)
  {
    std::vector<int> o;
    for (int i : g.perm((int)order.size())) o.push_back(order[i]);
    order = o;
  }
  std::vector<size_t> next(grp.size(), 0);
  for (int i : order)
  {
    if (l.extra_hdus && g.chance(20)) f.push_back(junk_hdu(g));
    f.push_back(grp[i][next[i]++]);
  }
  if (l.extra_hdus && g.chance(40)) f.push_back(junk_hdu(g));
  return f;
}
MDS as_read(const MDS &m)
{
  MDS u = m;
  if (u.targets.rev == 1 || u.targets.t.empty()) u.targets.usecategory = false;
  for (auto &a : u.arr)
    if (a.rev == 1)
      for (auto &e : a.elem) { e.fov = NAN; e.fovtype = "FWHM"; }
  return u;
}

// ----------------------------------------------------------------- OIFITS in
namespace {
struct Rd {
  const FHdu &h;
  std::set<std::string> usedcol, usedkey;
  explicit Rd(const FHdu &x) : h(x) { usedkey = {"EXTNAME", "EXTVER", "OI_REVN", "DATASUM", "CHECKSUM", "ORIGIN", "DATE"}; }
  std::string S(const char *n, bool opt = false)
  {
    usedkey.insert(n);
    auto k = h.key(n);
    if (!k) { if (opt) return ""; fail("%s: mandatory keyword %s missing", h.extname().c_str(), n); }
    if (k->type != 'S') fail("%s: keyword %s is not a string", h.extname().c_str(), n);
    return k->s;
  }
  long I(const char *n, bool opt = false, long def = -1)
  {
    usedkey.insert(n);
    auto k = h.key(n);
    if (!k) { if (opt) return def; fail("%s: mandatory keyword %s missing", h.extname().c_str(), n); }
    if (k->type != 'I') fail("%s: keyword %s is not an integer", h.extname().c_str(), n);
    return k->i;
  }
  double R(const char *n, const char *unit = nullptr)
  {
    usedkey.insert(n);
    auto k = h.key(n);
    if (!k) fail("%s: mandatory keyword %s missing", h.extname().c_str(), n);
    if (k->type != 'I' && k->type != 'R') fail("%s: keyword %s is not a number", h.extname().c_str(), n);
    // by convention a comment can begin with the unit in brackets
    if (unit && k->comment[0] == '[' && k->comment.compare(1, k->comment.find(']') - 1, unit))
      fail("%s: keyword %s has a unit other than %s: %s", h.extname().c_str(), n, unit, k->comment.c_str());
    return k->r;
  }
  // unit: nullptr = must have none; "*" = anything
  const FCol &C(const std::string &n, char t, long rep, const char *unit = nullptr)
  {
    usedcol.insert(n);
    auto c = h.col(n);
    if (!c) fail("%s: mandatory column %s missing", h.extname().c_str(), n.c_str());
    if (c->type != t || (rep >= 0 && c->repeat != rep))
      fail("%s: column %s has format %ld%c, the standard prescribes %ld%c", h.extname().c_str(), n.c_str(), c->repeat, c->type, rep, t);
    if (unit && strcmp(unit, "*"))
    {
      if (!c->hasunit || c->unit != unit) fail("%s: column %s has unit '%s', expected '%s'", h.extname().c_str(), n.c_str(), c->unit.c_str(), unit);
    }
    else if (!unit && c->hasunit && !c->unit.empty()) fail("%s: column %s has unit '%s', expected none", h.extname().c_str(), n.c_str(), c->unit.c_str());
    return *c;
  }
  bool has(const std::string &n) { return h.col(n) != nullptr; }
  void done()
  {
    for (auto &c : h.cols)
      if (!usedcol.count(c.name)) fail("%s: unexpected column %s", h.extname().c_str(), c.name.c_str());
    for (auto &k : h.keys)
      if (k.type != ' ' && !usedkey.count(k.name)) fail("%s: unexpected keyword %s", h.extname().c_str(), k.name.c_str());
  }
};
} // namespace
MDS from_fits(const FFile &f)
{
  MDS m;
  if (f.empty()) fail("no primary HDU");
  {
    const FHdu &p = f[0];
    each(m.h, [&](const char *n, std::string &v) {
      bool opt = !strcmp(n, "REFERENC") || !strcmp(n, "AUTHOR") || !strcmp(n, "PROG_ID") || !strcmp(n, "PROCSOFT") || !strcmp(n, "OBSTECH");
      auto k = p.key(n);
      if (!k && !opt) fail("primary header keyword %s missing", n);
      if (k && k->type != 'S') fail("primary header keyword %s is not a string", n);
      v = k ? k->s : "";
    });
    if (m.h.content != "OIFITS2") fail("CONTENT is '%s'", m.h.content.c_str());
  }
  std::map<std::string, long> ver;
  int ntarget = 0;
  for (size_t i = 1; i < f.size(); i++)
  {
    const FHdu &h = f[i];
    if (h.xt != "BINTABLE") fail("HDU %zu is not a binary table", i + 1);
    std::string ext = h.extname();
    Rd r(h);
    long rev = r.I("OI_REVN");
    bool tgt = ext == "OI_TARGET";
    long v = r.I("EXTVER", tgt, 1);
    if (v != ++ver[ext]) fail("%s: EXTVER is %ld for table number %ld of that type", ext.c_str(), v, ver[ext]);
    static const std::map<std::string, int> revs = {{"OI_TARGET", 2}, {"OI_ARRAY", 2}, {"OI_WAVELENGTH", 2}, {"OI_VIS", 2}, {"OI_VIS2", 2}, {"OI_T3", 2}, {"OI_FLUX", 1}, {"OI_CORR", 1}, {"OI_INSPOL", 1}};
    auto it = revs.find(ext);
    if (it == revs.end()) fail("unexpected table %s", ext.c_str());
    if (rev != it->second) fail("%s: OI_REVN is %ld", ext.c_str(), rev);
    long n = h.nrows;
    if (tgt)
    {
      if (++ntarget > 1) fail("more than one OI_TARGET");
      m.targets.rev = (int)rev;
      m.targets.usecategory = r.has("CATEGORY");
      auto &id = r.C("TARGET_ID", 'I', 1); auto &nm = r.C("TARGET", 'A', 32);
      auto &ra = r.C("RAEP0", 'D', 1, "deg"); auto &de = r.C("DECEP0", 'D', 1, "deg"); auto &eq = r.C("EQUINOX", 'E', 1, "yr");
      auto &rae = r.C("RA_ERR", 'D', 1, "deg"); auto &dee = r.C("DEC_ERR", 'D', 1, "deg"); auto &sv = r.C("SYSVEL", 'D', 1, "m/s");
      auto &vt = r.C("VELTYP", 'A', 8); auto &vd = r.C("VELDEF", 'A', 8);
      auto &pr = r.C("PMRA", 'D', 1, "deg/yr"); auto &pd = r.C("PMDEC", 'D', 1, "deg/yr");
      auto &pre = r.C("PMRA_ERR", 'D', 1, "deg/yr"); auto &pde = r.C("PMDEC_ERR", 'D', 1, "deg/yr");
      auto &px = r.C("PARALLAX", 'E', 1, "deg"); auto &pe = r.C("PARA_ERR", 'E', 1, "deg"); auto &sp = r.C("SPECTYP", 'A', 32);
      const FCol *cat = m.targets.usecategory ? &r.C("CATEGORY", 'A', 3) : nullptr;
      for (long k = 0; k < n; k++)
      {
        MTarg t;
        t.id = (int)id.v[k][0]; t.name = nm.s[k]; t.raep0 = ra.v[k][0]; t.decep0 = de.v[k][0]; t.equinox = (float)eq.v[k][0];
        t.ra_err = rae.v[k][0]; t.dec_err = dee.v[k][0]; t.sysvel = sv.v[k][0]; t.veltyp = vt.s[k]; t.veldef = vd.s[k];
        t.pmra = pr.v[k][0]; t.pmdec = pd.v[k][0]; t.pmra_err = pre.v[k][0]; t.pmdec_err = pde.v[k][0];
        t.parallax = (float)px.v[k][0]; t.para_err = (float)pe.v[k][0]; t.spectyp = sp.s[k];
        if (cat) t.category = cat->s[k];
        m.targets.t.push_back(t);
      }
    }
    else if (ext == "OI_ARRAY")
    {
      MArray a;
      a.rev = (int)rev; a.arrname = r.S("ARRNAME"); a.frame = r.S("FRAME"); a.x = r.R("ARRAYX", "m"); a.y = r.R("ARRAYY", "m"); a.z = r.R("ARRAYZ", "m");
      auto &tn = r.C("TEL_NAME", 'A', 16); auto &sn = r.C("STA_NAME", 'A', 16); auto &si = r.C("STA_INDEX", 'I', 1);
      auto &di = r.C("DIAMETER", 'E', 1, "m"); auto &xyz = r.C("STAXYZ", 'D', 3, "m"); auto &fov = r.C("FOV", 'D', 1, "arcsec"); auto &ft = r.C("FOVTYPE", 'A', 6);
      for (long k = 0; k < n; k++)
      {
        MElem e;
        e.tel_name = tn.s[k]; e.sta_name = sn.s[k]; e.sta_index = (int)si.v[k][0]; e.diameter = (float)di.v[k][0];
        for (int q = 0; q < 3; q++) e.xyz[q] = xyz.v[k][q];
        e.fov = fov.v[k][0]; e.fovtype = ft.s[k];
        a.elem.push_back(e);
      }
      m.arr.push_back(a);
    }
    else if (ext == "OI_WAVELENGTH")
    {
      MWave w;
      w.rev = (int)rev; w.insname = r.S("INSNAME");
      auto &a = r.C("EFF_WAVE", 'E', 1, "m"); auto &b = r.C("EFF_BAND", 'E', 1, "m");
      for (long k = 0; k < n; k++) { w.wave.push_back((float)a.v[k][0]); w.band.push_back((float)b.v[k][0]); }
      m.wave.push_back(w);
    }
    else if (ext == "OI_CORR")
    {
      MCorr c;
      c.rev = (int)rev; c.corrname = r.S("CORRNAME"); c.ndata = (int)r.I("NDATA");
      auto &a = r.C("IINDX", 'J', 1); auto &b = r.C("JINDX", 'J', 1); auto &d = r.C("CORR", 'D', 1);
      for (long k = 0; k < n; k++) { c.i.push_back((int)a.v[k][0]); c.j.push_back((int)b.v[k][0]); c.c.push_back(d.v[k][0]); }
      m.corr.push_back(c);
    }
    else if (ext == "OI_INSPOL")
    {
      MPol p;
      p.rev = (int)rev; p.date_obs = r.S("DATE-OBS"); p.npol = (int)r.I("NPOL"); p.arrname = r.S("ARRNAME"); p.orient = r.S("ORIENT"); p.model = r.S("MODEL");
      auto &id = r.C("TARGET_ID", 'I', 1); auto &in = r.C("INSNAME", 'A', 70); auto &mo = r.C("MJD_OBS", 'D', 1, "day"); auto &me = r.C("MJD_END", 'D', 1, "day");
      static const char *jn[4] = {"JXX", "JYY", "JXY", "JYX"};
      const FCol *j[4];
      j[0] = &r.C("JXX", 'C', -1, "*");
      p.nwave = (int)j[0]->repeat;
      for (int q = 0; q < 4; q++) j[q] = &r.C(jn[q], 'C', p.nwave, "*");
      auto &st = r.C("STA_INDEX", 'I', 1);
      for (long k = 0; k < n; k++)
      {
        MPolRec x;
        x.tid = (int)id.v[k][0]; x.insname = in.s[k]; x.mjd_obs = mo.v[k][0]; x.mjd_end = me.v[k][0]; x.sta = (int)st.v[k][0];
        for (int q = 0; q < 4; q++)
          for (int w = 0; w < p.nwave; w++) x.j[q].push_back(cf((float)j[q]->v[k][2 * w], (float)j[q]->v[k][2 * w + 1]));
        p.rec.push_back(x);
      }
      m.pol.push_back(p);
    }
    else
    {
      MData d;
      int kd = ext == "OI_VIS" ? VIS : ext == "OI_VIS2" ? VIS2 : ext == "OI_T3" ? T3 : FLUX;
      d.kind = (Kind)kd;
      d.rev = (int)rev;
      d.date_obs = r.S("DATE-OBS"); d.arrname = r.S("ARRNAME", true); d.insname = r.S("INSNAME"); d.corrname = r.S("CORRNAME", true);
      int ncol = (int)kindcols[kd].size();
      if (kd == VIS)
      {
        d.amptyp = r.S("AMPTYP", true); d.phityp = r.S("PHITYP", true);
        d.amporder = (int)r.I("AMPORDER", true); d.phiorder = (int)r.I("PHIORDER", true);
        d.userefmap = r.has("VISREFMAP");
        d.usecomplex = r.has("RVIS");
        if (!d.usecomplex) ncol = 4;
      }
      if (kd == FLUX)
      {
        std::string cs = r.S("CALSTAT");
        if (cs.size() != 1) fail("OI_FLUX: CALSTAT is '%s'", cs.c_str());
        d.calstat = cs[0];
        d.fovtype = r.S("FOVTYPE", true);
        if (!d.fovtype.empty()) d.fov = r.R("FOV", "arcsec");
      }
      d.nwave = (int)r.C(kindcols[kd][0], 'D', -1, "*").repeat;
      auto &id = r.C("TARGET_ID", 'I', 1);
      const FCol *ti = kd == FLUX ? nullptr : &r.C("TIME", 'D', 1, "s");
      auto &mj = r.C("MJD", 'D', 1, "day"); auto &it2 = r.C("INT_TIME", 'D', 1, "s");
      std::vector<const FCol *> cols, cidx, uv;
      for (int c = 0; c < ncol; c++)
      {
        const std::string &nm = kindcols[kd][c];
        const char *u = nm.find("PHI") != std::string::npos ? "deg" : nullptr;
        if (kd == FLUX || (kd == VIS && c >= 4) || (kd == VIS && c < 2 && d.amptyp == "correlated flux")) u = "*";
        cols.push_back(&r.C(nm, 'D', d.nwave, u));
        if (kd == FLUX) { if (c == 0) d.fluxunit = cols[c]->unit; else if (cols[c]->unit != d.fluxunit) fail("OI_FLUX: FLUXERR has another unit"); }
        if (kd == VIS && c >= 4) { if (c == 4) d.complexunit = cols[c]->unit; else if (cols[c]->unit != d.complexunit) fail("OI_VIS: %s has unit '%s', RVIS '%s'", nm.c_str(), cols[c]->unit.c_str(), d.complexunit.c_str()); }
        if (kd == VIS && c < 2 && d.amptyp == "correlated flux") { if (c == 0) d.ampunit = cols[c]->unit; else if (cols[c]->unit != d.ampunit) fail("OI_VIS: VISAMPERR has another unit"); }
      }
      int nc = kd == VIS && !d.usecomplex ? 2 : (int)kindcorr[kd].size();
      if (!d.corrname.empty())
        for (int c = 0; c < nc; c++) cidx.push_back(&r.C("CORRINDX_" + kindcorr[kd][c], 'J', 1));
      const FCol *rm = nullptr;
      if (d.userefmap)
      {
        rm = &r.C("VISREFMAP", 'L', (long)d.nwave * d.nwave);
        if (rm->dim != strf("(%d,%d)", d.nwave, d.nwave)) fail("OI_VIS: TDIM of VISREFMAP is '%s'", rm->dim.c_str());
      }
      static const char *uvn[4][4] = {{"UCOORD", "VCOORD"}, {"UCOORD", "VCOORD"}, {"U1COORD", "V1COORD", "U2COORD", "V2COORD"}, {}};
      for (int c = 0; c < nuv(kd); c++) uv.push_back(&r.C(uvn[kd][c], 'D', 1, "m"));
      const FCol *st = kd == FLUX && d.arrname.empty() ? nullptr : &r.C("STA_INDEX", 'I', nsta(kd));
      auto &fl = r.C("FLAG", 'L', d.nwave);
      for (auto &c : h.cols)
        if (!c.dim.empty() && &c != rm) fail("%s: column %s has TDIM '%s'", ext.c_str(), c.name.c_str(), c.dim.c_str());
      for (long k = 0; k < n; k++)
      {
        MRec x;
        x.tid = (int)id.v[k][0]; if (ti) x.time = ti->v[k][0]; x.mjd = mj.v[k][0]; x.int_time = it2.v[k][0];
        for (auto c : cols) x.col.push_back(c->v[k]);
        for (auto c : cidx) x.corrindx.push_back((int)c->v[k][0]);
        if (rm) x.refmap.assign(rm->v[k].begin(), rm->v[k].end());
        for (size_t c = 0; c < uv.size(); c++) x.uv[c] = uv[c]->v[k][0];
        if (st) for (int c = 0; c < nsta(kd); c++) x.sta[c] = (int)st->v[k][c];
        else x.sta[0] = -1;
        x.flag.assign(fl.v[k].begin(), fl.v[k].end());
        d.rec.push_back(x);
      }
      m.dat[kd].push_back(d);
    }
    r.done();
  }
  if (!ntarget) fail("no OI_TARGET table");
  return m;
}

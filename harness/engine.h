// Choice-sequence property-based testing engine.
//
// Every random decision of a case is drawn through Gen::below(), which records
// it on a tape. Replaying a tape reproduces the case; shrinking edits the tape
// (shorter / smaller values first), so any generator shrinks for free. Cases run
// in forked children so that aborts, sanitizer reports and hangs in the code
// under test are ordinary failures which shrink and replay like any other.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Fail {
  std::string msg;
};
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

class Gen {
public:
  // exploration
  Gen(uint64_t seed, uint64_t *tape, size_t cap, uint64_t *plen);
  // replay
  Gen(const std::vector<uint64_t> &in, uint64_t *tape, size_t cap, uint64_t *plen);

  uint64_t below(uint64_t n);              // uniform in [0,n), shrinks to 0
  int range(int lo, int hi);               // uniform in [lo,hi], shrinks to lo
  bool chance(int pct);                    // true with pct %, shrinks to false
  bool flip() { return below(2) != 0; }
  int skew(int lo, int hi);                // mostly near lo, sometimes up to hi
  uint64_t bits() { return below(0); }     // full 64-bit value
  double unit();                           // [0,1)
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T one(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  std::vector<int> perm(int n);

  // bookkeeping of the case
  void label(const std::string &l) { labels.insert(l); }
  void nontrivial() { nontriv = true; }
  void note(const std::string &s);
  std::set<std::string> labels;
  bool nontriv = false;
  std::string desc;
  uint64_t hash() const { return h; }
  // A second, independent count for properties which check many data per case
  uint64_t evals = 1;

private:
  void record(uint64_t v);
  uint64_t next();
  bool replay;
  const std::vector<uint64_t> *in = nullptr;
  size_t pos = 0;
  uint64_t s[4];
  uint64_t *tape;
  size_t cap;
  uint64_t *plen;
  uint64_t h = 1469598103934665603ULL;
};

struct Prop {
  std::string id;
  std::string name;
  std::string rule;       // how cases are made, what is non-trivial
  long quick, thorough;   // number of cases
  std::function<void(Gen &)> run;
  std::vector<std::string> assumptions;
  int batch = 400;        // cases per child process
  // exhaustive properties: run index -> deterministic work (no randomness)
  bool exhaustive = false;
};
void register_prop(const Prop &p);
std::vector<Prop> &all_props();

// Scratch directory private to this process tree, removed at exit
const std::string &scratch();
// A path in the scratch dir, private to this worker process
std::string scratch_file(const std::string &name);
// Index of the case (exhaustive enumerations use it)
long case_index();
bool thorough_tier();

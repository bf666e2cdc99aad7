#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

std::string strf(const char *fmt, ...)
{
  char buf[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
void fail(const char *fmt, ...)
{
  char buf[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Fail{buf};
}

static uint64_t splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

Gen::Gen(uint64_t seed, uint64_t *t, size_t c, uint64_t *pl)
    : replay(false), tape(t), cap(c), plen(pl)
{
  for (auto &v : s) v = splitmix(seed);
  *plen = 0;
}
Gen::Gen(const std::vector<uint64_t> &i, uint64_t *t, size_t c, uint64_t *pl)
    : replay(true), in(&i), tape(t), cap(c), plen(pl)
{
  *plen = 0;
}
uint64_t Gen::next()
{
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
  s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
void Gen::record(uint64_t v)
{
  if (*plen < cap) tape[(*plen)++] = v;
  h = (h ^ (v + 0x9e37)) * 1099511628211ULL;
}
uint64_t Gen::below(uint64_t n)
{
  uint64_t v;
  if (replay)
  {
    v = pos < in->size() ? (*in)[pos] : 0;
    ++pos;
    if (n) v %= n;
  }
  else
  {
    v = next();
    if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
  }
  record(v);
  return v;
}
int Gen::range(int lo, int hi) { return lo + (int)below((uint64_t)((int64_t)hi - lo + 1)); }
bool Gen::chance(int pct) { return below(100) >= (uint64_t)(100 - pct); }
int Gen::skew(int lo, int hi)
{
  if (hi <= lo) return lo;
  int span = hi - lo;
  switch (below(8))
  {
  case 0: case 1: case 2: return lo + (int)below(std::min(span, 2) + 1);
  case 3: case 4: case 5: return lo + (int)below(std::min(span, 5) + 1);
  case 6: return lo + (int)below(std::min(span, 12) + 1);
  default: return lo + (int)below(span + 1);
  }
}
double Gen::unit() { return (double)below(1ULL << 53) / 9007199254740992.0; }
std::vector<int> Gen::perm(int n)
{
  std::vector<int> p(n);
  for (int i = 0; i < n; i++) p[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(p[i], p[i - (int)below(i + 1)]);
  return p;
}

static std::vector<Prop> *props;
std::vector<Prop> &all_props()
{
  if (!props) props = new std::vector<Prop>;
  return *props;
}
void register_prop(const Prop &p) { all_props().push_back(p); }

// ---------------------------------------------------------------------------
static const size_t TAPECAP = 1 << 21;
static const size_t HASHCAP = 1 << 20;
static const int NLABEL = 160, LABLEN = 56, NSAMP = 6, SAMPLEN = 1500;

struct Shm {
  volatile uint64_t tlen_;
  uint64_t tlen;
  volatile long idx;          // case being run
  volatile int state;         // 0 idle 1 running 2 done batch 3 failed
  volatile long done;
  volatile uint64_t evals;
  volatile uint64_t nontriv;
  volatile uint64_t nhash;
  char msg[8192];
  char desc[8192];
  char lab[NLABEL][LABLEN];
  uint64_t labn[NLABEL];
  int nlab;
  char samp[NSAMP][SAMPLEN];
  int nsamp;
  uint64_t hashes[HASHCAP];
  uint64_t tape[TAPECAP];
};

static std::string g_scratch;
static std::string g_tag = "w0";
static long g_idx;
static bool g_thorough;
const std::string &scratch() { return g_scratch; }
std::string scratch_file(const std::string &n) { return g_scratch + "/" + g_tag + "_" + n; }
long case_index() { return g_idx; }
bool thorough_tier() { return g_thorough; }

static Shm *new_shm()
{
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm *)p;
}
static void addlabel(Shm *m, const std::string &l)
{
  for (int i = 0; i < m->nlab; i++)
    if (!strncmp(m->lab[i], l.c_str(), LABLEN - 1)) { m->labn[i]++; return; }
  if (m->nlab < NLABEL)
  {
    strncpy(m->lab[m->nlab], l.c_str(), LABLEN - 1);
    m->labn[m->nlab++] = 1;
  }
}
static void cpu_limit(int sec)
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void child_setup(const std::string &errfile)
{
  signal(SIGPROF, SIG_DFL);
  signal(SIGXFSZ, SIG_IGN);
  int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  if (fd >= 0) dup2(fd, 2);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}
static const int CPU_CASE = 60;
// Where notes go at once, so that they survive a crash
static char *g_notebuf;
static size_t g_notecap;
void Gen::note(const std::string &s)
{
  if (desc.size() < 4000) desc += s;
  if (g_notebuf) strncpy(g_notebuf, desc.c_str(), g_notecap - 1);
}

static bool run_case(const Prop &p, Gen &g, Shm *m)
{
  try
  {
    p.run(g);
  }
  catch (const Fail &f)
  {
    strncpy(m->msg, f.msg.c_str(), sizeof m->msg - 1);
    strncpy(m->desc, g.desc.c_str(), sizeof m->desc - 1);
    return false;
  }
  catch (const std::exception &e)
  {
    snprintf(m->msg, sizeof m->msg, "harness exception: %s", e.what());
    return false;
  }
  return true;
}
static uint64_t case_seed(uint64_t seed, const std::string &id, long idx)
{
  uint64_t h = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
  for (char c : id) h = (h ^ (unsigned char)c) * 1099511628211ULL;
  h ^= (uint64_t)idx * 0xd1342543de82ef95ULL;
  uint64_t x = h;
  return splitmix(x);
}
static std::string tail(const std::string &f, size_t n)
{
  std::ifstream is(f, std::ios::binary);
  std::stringstream ss;
  ss << is.rdbuf();
  std::string s = ss.str();
  size_t a = s.find("ERROR: AddressSanitizer");
  if (a == std::string::npos) a = s.find("runtime error:");
  if (a == std::string::npos) a = s.find("WARNING: ThreadSanitizer");
  if (a != std::string::npos)
  {
    a = a > 60 ? a - 60 : 0;
    return s.substr(a, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}
static std::string sigdesc(int st)
{
  if (WIFSIGNALED(st))
  {
    if (WTERMSIG(st) == SIGPROF) return strf("case used more than %d s of CPU time (does not terminate)", CPU_CASE);
    return strf("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  }
  return strf("process exited with status %d", WEXITSTATUS(st));
}

// Run one tape in a child. Returns true if the case FAILED.
static bool try_tape(const Prop &p, const std::vector<uint64_t> &tape, Shm *m, std::string *msg,
                     std::string *desc, std::vector<uint64_t> *rec)
{
  std::string err = scratch_file("try.err");
  m->msg[0] = m->desc[0] = 0;
  m->state = 1;
  m->tlen = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    child_setup(err);
    cpu_limit(CPU_CASE);
    g_notebuf = m->desc;
    g_notecap = sizeof m->desc;
    Gen g(tape, m->tape, TAPECAP, &m->tlen);
    bool ok = run_case(p, g, m);
    if (ok) strncpy(m->desc, g.desc.c_str(), sizeof m->desc - 1);
    m->state = ok ? 2 : 3;
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  bool failed = false;
  if (m->state == 3) { failed = true; if (msg) *msg = m->msg; }
  else if (m->state != 2)
  {
    failed = true;
    if (msg) *msg = sigdesc(st) + "\n" + tail(err, 2500);
  }
  if (desc) *desc = m->desc;
  if (rec) rec->assign(m->tape, m->tape + m->tlen);
  return failed;
}
static bool run_range(const Prop &p, uint64_t seed, long a, long step, long n, Shm *m, std::string *msg)
{
  std::string err = scratch_file("range.err");
  m->state = 1;
  pid_t pid = fork();
  if (pid == 0)
  {
    child_setup(err);
    for (long k = 0; k < n; k++)
    {
      g_idx = a + k * step;
      cpu_limit(CPU_CASE);
      Gen g(case_seed(seed, p.id, g_idx), m->tape, TAPECAP, &m->tlen);
      if (!run_case(p, g, m)) { m->state = 3; _exit(0); }
    }
    m->state = 2;
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (m->state == 2) return false;
  *msg = m->state == 3 ? m->msg : sigdesc(st) + "\n" + tail(err, 2500);
  return true;
}

static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> cur, Shm *m, double budget, long *tries)
{
  double t0 = now();
  long maxtry = 6000;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (now() - t0 > budget || *tries >= maxtry) return false;
    ++*tries;
    std::vector<uint64_t> rec;
    if (!try_tape(p, c, m, nullptr, nullptr, &rec)) return false;
    while (!rec.empty() && rec.back() == 0) rec.pop_back();
    // keep the shorter of candidate and what was consumed
    std::vector<uint64_t> best = c;
    while (!best.empty() && best.back() == 0) best.pop_back();
    if (rec.size() <= best.size()) best = rec;
    auto less = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
      if (a.size() != b.size()) return a.size() < b.size();
      return a < b;
    };
    if (!less(best, cur)) return false;
    cur = best;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget && *tries < maxtry)
  {
    progress = false;
    // truncate
    for (size_t keep = cur.size() / 2; keep < cur.size();)
    {
      std::vector<uint64_t> c(cur.begin(), cur.begin() + keep);
      if (attempt(c)) { progress = true; keep = cur.size() / 2; }
      else { size_t d = (cur.size() - keep) / 2; if (d == 0) break; keep += d; }
    }
    // delete blocks, and zero blocks, of decreasing size
    for (size_t b = std::max<size_t>(1, cur.size() / 4); b >= 1; b = b / 2)
    {
      for (size_t i = 0; i + b <= cur.size();)
      {
        std::vector<uint64_t> c = cur;
        c.erase(c.begin() + i, c.begin() + i + b);
        if (attempt(c)) progress = true;
        else i += b;
        if (now() - t0 > budget || *tries >= maxtry) break;
      }
      // zero blocks
      for (size_t i = 0; i + b <= cur.size(); i += b)
      {
        bool allz = true;
        for (size_t k = i; k < i + b; k++) allz &= cur[k] == 0;
        if (allz) continue;
        std::vector<uint64_t> c = cur;
        std::fill(c.begin() + i, c.begin() + i + b, 0);
        if (attempt(c)) progress = true;
        if (now() - t0 > budget || *tries >= maxtry) break;
      }
      if (b == 1) break;
    }
    // minimise values
    for (size_t i = 0; i < cur.size(); i++)
    {
      uint64_t lo = 0;
      for (int k = 0; k < 12 && i < cur.size() && cur[i] > lo; k++)
      {
        std::vector<uint64_t> c = cur;
        uint64_t mid = lo + (cur[i] - lo) / 2;
        c[i] = mid;
        if (attempt(c)) progress = true;
        else { if (lo == mid) break; lo = mid; }
      }
      if (now() - t0 > budget || *tries >= maxtry) break;
    }
  }
  return cur;
}

static std::string jstr(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
static void rmtree(const std::string &d)
{
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (struct dirent *e = readdir(dp))
  {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string f = d + "/" + n;
    struct stat sb;
    if (lstat(f.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rmtree(f);
    else unlink(f.c_str());
  }
  closedir(dp);
  rmdir(d.c_str());
}

int main(int argc, char **argv)
{
  std::string id, out, replay, replaydir = "/tmp", tier = "quick";
  uint64_t seed = 1;
  long cases = -1;
  int workers = 8;
  double tcap = 300, tshrink = -1;
  bool list = false;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") id = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--replay-dir") replaydir = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--cases") cases = atol(nx().c_str());
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--time") tcap = atof(nx().c_str());
    else if (a == "--shrink") tshrink = atof(nx().c_str());
    else if (a == "--list") list = true;
  }
  if (list)
  {
    for (auto &p : all_props()) printf("%s %s\n", p.id.c_str(), p.name.c_str());
    return 0;
  }
  const Prop *pp = nullptr;
  for (auto &p : all_props())
    if (p.id == id) pp = &p;
  if (!pp) { fprintf(stderr, "no such property %s\n", id.c_str()); return 3; }
  const Prop &p = *pp;
  g_thorough = tier == "thorough";

  const char *bases[] = {"/dev/shm", "/tmp", "."};
  for (auto b : bases)
  {
    std::string t = std::string(b) + "/vpbtXXXXXX";
    if (mkdtemp(&t[0])) { g_scratch = t; break; }
  }
  if (g_scratch.empty()) { fprintf(stderr, "no scratch dir\n"); return 3; }
  struct Cleaner { pid_t me = getpid(); ~Cleaner() { if (getpid() == me) rmtree(g_scratch); } } cleaner;

  if (!replay.empty())
  {
    std::ifstream is(replay);
    std::string line;
    std::vector<uint64_t> tape;
    long ra = -1, rs = 0, rn = 0;
    uint64_t rseed = 0;
    while (std::getline(is, line))
    {
      if (line.rfind("tape:", 0) == 0)
      {
        std::stringstream ss(line.substr(5));
        uint64_t v;
        while (ss >> v) tape.push_back(v);
      }
      if (line.rfind("case: ", 0) == 0) g_idx = atol(line.c_str() + 6);
      if (line.rfind("range:", 0) == 0)
        sscanf(line.c_str() + 6, "%lu %ld %ld %ld", &rseed, &ra, &rs, &rn);
    }
    Shm *m = new_shm();
    std::string msg, desc;
    bool bad;
    if (ra >= 0 && rn > 0) bad = run_range(p, rseed, ra, rs, rn, m, &msg);
    else bad = try_tape(p, tape, m, &msg, &desc, nullptr);
    printf("%s\n%s\n%s\n", bad ? "REPLAY: property violated" : "REPLAY: property holds", msg.c_str(), desc.c_str());
    return bad ? 1 : 0;
  }

  long n = cases >= 0 ? cases : (g_thorough ? p.thorough : p.quick);
  double t0 = now();
  std::vector<Shm *> shm(workers);
  for (auto &m : shm) m = new_shm();
  std::vector<pid_t> wp(workers);
  fflush(nullptr);
  // failure record shared between workers
  struct FailRec { volatile int any; volatile int worker; long idx, first, step; char msg[8192]; };
  FailRec *fr = (FailRec *)mmap(nullptr, sizeof(FailRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(fr, 0, sizeof *fr);
  for (int w = 0; w < workers; w++)
  {
    wp[w] = fork();
    if (wp[w]) continue;
    g_tag = strf("w%d", w);
    Shm *m = shm[w];
    std::string err = scratch_file("err");
    long next = w;
    while (next < n && !fr->any && now() - t0 < tcap)
    {
      m->state = 1;
      long first = next;
      pid_t c = fork();
      if (c == 0)
      {
        child_setup(err);
        int k = 0;
        for (long i = first; i < n && k < p.batch; i += workers, k++)
        {
          if (fr->any || now() - t0 >= tcap) break;
          m->idx = i;
          g_idx = i;
          m->msg[0] = 0;
          cpu_limit(CPU_CASE);
          if (ftruncate(2, 0)) {}
          Gen g(case_seed(seed, p.id, i), m->tape, TAPECAP, &m->tlen);
          if (!run_case(p, g, m)) { m->state = 3; _exit(0); }
          m->done++;
          m->evals += g.evals;
          for (auto &l : g.labels) addlabel(m, l);
          if (g.nontriv)
          {
            m->nontriv++;
            if (m->nhash < HASHCAP) m->hashes[m->nhash++] = g.hash();
            if (m->nsamp < NSAMP && (m->nontriv == 1 || m->nontriv % 37 == 0))
              strncpy(m->samp[m->nsamp++], g.desc.c_str(), SAMPLEN - 1);
          }
          m->idx = i + workers;
        }
        m->state = 2;
        _exit(0);
      }
      int st;
      while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
      if (m->state == 2) { next = first + (long)p.batch * workers; continue; }
      if (__sync_bool_compare_and_swap(&fr->any, 0, 1))
      {
        fr->worker = w;
        fr->idx = m->idx;
        fr->first = first;
        fr->step = workers;
        std::string msg = m->state == 3 ? m->msg : sigdesc(st) + "\n" + tail(err, 3000);
        strncpy(fr->msg, msg.c_str(), sizeof fr->msg - 1);
      }
      break;
    }
    _exit(0);
  }
  for (int w = 0; w < workers; w++)
  {
    int st;
    while (waitpid(wp[w], &st, 0) < 0 && errno == EINTR) {}
  }
  // aggregate
  uint64_t done = 0, nontriv = 0, evals = 0;
  std::unordered_set<uint64_t> hs;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for (auto m : shm)
  {
    done += m->done; nontriv += m->nontriv; evals += m->evals;
    for (uint64_t i = 0; i < m->nhash; i++) hs.insert(m->hashes[i]);
    for (int i = 0; i < m->nlab; i++) labels[m->lab[i]] += m->labn[i];
    for (int i = 0; i < m->nsamp && samples.size() < 8 && i < 2; i++) samples.push_back(m->samp[i]);
  }
  int violations = 0;
  std::string replayfile, vmsg;
  if (fr->any)
  {
    Shm *m = shm[fr->worker];
    std::vector<uint64_t> tape(m->tape, m->tape + m->tlen);
    g_tag = "shrink";
    g_idx = fr->idx;
    std::string msg, desc;
    int rep = 0;
    for (int k = 0; k < 3; k++) rep += try_tape(p, tape, m, &msg, &desc, nullptr);
    mkdir(replaydir.c_str(), 0755);
    replayfile = replaydir + "/" + id + ".replay";
    if (rep == 3)
    {
      long tries = 0;
      std::vector<uint64_t> s = shrink(p, tape, m, tshrink >= 0 ? tshrink : g_thorough ? 180 : 60, &tries);
      rep = 0;
      for (int k = 0; k < 3; k++) rep += try_tape(p, s, m, &msg, &desc, nullptr);
      if (rep < 3) { s = tape; try_tape(p, s, m, &msg, &desc, nullptr); }
      violations = 1;
      std::ofstream o(replayfile);
      o << "property: " << id << "\nseed: " << seed << "\ncase: " << fr->idx << "\nshrink attempts: " << tries
        << "\ntape:";
      for (auto v : s) o << " " << v;
      o << "\n--- failure ---\n" << msg << "\n--- case ---\n" << desc << "\n--- first failure (before shrinking) ---\n"
        << fr->msg << "\n";
      vmsg = msg;
    }
    else
    {
      // Depends on what ran before it in the same process: replay the batch
      long cnt = (fr->idx - fr->first) / fr->step + 1;
      rep = 0;
      for (int k = 0; k < 3; k++) rep += run_range(p, seed, fr->first, fr->step, cnt, m, &msg);
      if (rep == 3)
      {
        // drop leading cases while it still fails
        long a = fr->first, c = cnt;
        for (long d = c / 2; d >= 1; d /= 2)
          while (c - d >= 1)
          {
            std::string m2;
            if (!run_range(p, seed, a + d * fr->step, fr->step, c - d, m, &m2)) break;
            a += d * fr->step; c -= d; msg = m2;
          }
        violations = 1;
        std::ofstream o(replayfile);
        o << "property: " << id << "\nseed: " << seed << "\nrange: " << seed << " " << a << " " << fr->step << " " << c
          << "\n--- failure (needs the preceding cases in the same process) ---\n" << msg << "\n";
        vmsg = msg;
      }
      else
        fprintf(stderr, "case %ld failed once and did not reproduce: %s\n", fr->idx, fr->msg);
    }
  }
  std::ofstream o(out.empty() ? "/dev/stdout" : out);
  o << "{\"cases\": " << done << ", \"requested\": " << n << ", \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv
    << ", \"distinct_nontrivial\": " << hs.size() << ", \"violations\": " << violations
    << ", \"unreproduced\": " << (fr->any && !violations ? 1 : 0)
    << ", \"wall_s\": " << now() - t0 << ", \"rule\": " << jstr(p.rule) << ", \"name\": " << jstr(p.name)
    << ", \"exhaustive\": " << (p.exhaustive && (long)done == n ? "true" : "false") << ", \"labels\": {";
  bool f = true;
  for (auto &l : labels) { o << (f ? "" : ", ") << jstr(l.first) << ": " << l.second; f = false; }
  o << "}, \"samples\": [";
  f = true;
  for (auto &s : samples) { o << (f ? "" : ", ") << jstr(s); f = false; }
  o << "], \"assumptions\": [";
  f = true;
  for (auto &s : p.assumptions) { o << (f ? "" : ", ") << jstr(s); f = false; }
  o << "], \"message\": " << jstr(vmsg) << ", \"replay\": " << jstr(replayfile) << "}\n";
  o.close();
  return violations ? 1 : 0;
}

// Several threads at once, each on datasets of its own, or looking into a common one.
// Built with the library under ThreadSanitizer.
#include "fits.h"
#include "ref_check.h"
#include "ref_filter.h"
#include <cstring>
#include <memory>
#include <pthread.h>
#include <unistd.h>

enum OpKind { FILTER, MERGE, CHECK, ITERATE, LOOKUP, COUNT, COPY, WRITE, SHARED_OPS, READ = SHARED_OPS, READ_BAD, UPGRADE, HEADER, BUILD, NOPS };
static const char *const opname[NOPS] = {"filter", "merge", "check", "iterate", "look up", "count", "copy", "write", "read", "read a bad file", "upgrade", "derive header", "build"};
struct Op {
  OpKind k;
  bool common = false; // on the common dataset
  bool nospec = false;
  FSpec f;
};
struct Result {
  std::string text;
  MDS m;
};
struct Job {
  MDS own;
  std::string good, bad; // files to read
  std::vector<Op> ops;
  std::string in, out;   // their names
  // of a run
  const oi_fits *common;
  const MDS *mcommon;
  pthread_barrier_t *start;
  std::vector<Result> res;
  std::string error;
};

template <class I, class N> static std::string iterate(const oi_fits *o, const FSpec &f, bool nospec, void (*init)(I *, const oi_fits *, const oi_filter_spec *), N next)
{
  oi_filter_spec c;
  to_c(f, &c);
  I it;
  init(&it, o, nospec ? nullptr : &c);
  std::string s;
  while (next(&it, s)) {}
  return s;
}
static Result perform(Job &j, const Op &op, oi_fits *own)
{
  Result r;
  const oi_fits *o = op.common ? j.common : own;
  const MDS &m = op.common ? *j.mcommon : j.own;
  switch (op.k)
  {
  case FILTER:
  {
    oi_filter_spec c;
    to_c(op.f, &c);
    Oi q;
    apply_oi_filter(o, &c, &q.o);
    q.live = true;
    r.m = from_c(&q.o);
    break;
  }
  case MERGE:
  {
    Oi q;
    GList *l = nullptr;
    l = g_list_append(l, (void *)o);
    l = g_list_append(l, (void *)j.common);
    if (op.nospec) l = g_list_prepend(l, own);
    merge_oi_fits_list(l, &q.o);
    q.live = true;
    g_list_free(l);
    r.m = from_c(&q.o);
    break;
  }
  case CHECK:
    for (auto &c : all_checks)
    {
      oi_check_result cr;
      int level = c.fn(o, &cr);
      r.text += strf("%s %d %d %d\n", c.name, level, cr.level, cr.numBreach);
      for (int i = 0; i < MAX_REPORT && cr.location[i]; i++) r.text += strf("  %s\n", cr.location[i]);
      free_check_result(&cr);
    }
    break;
  case ITERATE:
    r.text = iterate<oi_vis_iter>(o, op.f, op.nospec, oi_vis_iter_init, [](oi_vis_iter *i, std::string &s) {
      int e, w; long rec; oi_vis *t; oi_vis_record *p; double wl, u, v;
      if (!oi_vis_iter_next(i, &e, &t, &rec, &p, &w)) return false;
      oi_vis_iter_get_uv(i, &wl, &u, &v);
      s += strf("%d.%ld.%d %.17g %.17g %.17g\n", e, rec, w, wl, u, v);
      return true;
    });
    r.text += iterate<oi_vis2_iter>(o, op.f, op.nospec, oi_vis2_iter_init, [](oi_vis2_iter *i, std::string &s) {
      int e, w; long rec; oi_vis2 *t; oi_vis2_record *p; double wl, u, v;
      if (!oi_vis2_iter_next(i, &e, &t, &rec, &p, &w)) return false;
      oi_vis2_iter_get_uv(i, &wl, &u, &v);
      s += strf("%d.%ld.%d %.17g %.17g %.17g\n", e, rec, w, wl, u, v);
      return true;
    });
    r.text += iterate<oi_t3_iter>(o, op.f, op.nospec, oi_t3_iter_init, [](oi_t3_iter *i, std::string &s) {
      int e, w; long rec; oi_t3 *t; oi_t3_record *p; double wl, u[4];
      if (!oi_t3_iter_next(i, &e, &t, &rec, &p, &w)) return false;
      oi_t3_iter_get_uv(i, &wl, &u[0], &u[1], &u[2], &u[3]);
      s += strf("%d.%ld.%d %.17g %.17g %.17g %.17g %.17g\n", e, rec, w, wl, u[0], u[1], u[2], u[3]);
      return true;
    });
    break;
  case LOOKUP:
    for (auto &x : m.arr)
    {
      oi_array *a = oi_fits_lookup_array(o, x.arrname.c_str());
      r.text += a ? a->arrname : "none";
      for (auto &e : x.elem) { element *q = oi_fits_lookup_element(o, x.arrname.c_str(), e.sta_index); r.text += q ? q->sta_name : "none"; }
    }
    for (auto &x : m.wave) { oi_wavelength *a = oi_fits_lookup_wavelength(o, x.insname.c_str()); r.text += a ? a->insname : "none"; }
    for (auto &x : m.corr) { oi_corr *a = oi_fits_lookup_corr(o, x.corrname.c_str()); r.text += a ? a->corrname : "none"; }
    for (auto &x : m.targets.t)
    {
      target *a = oi_fits_lookup_target(o, x.id), *b = oi_fits_lookup_target_by_name(o, x.name.c_str());
      r.text += a ? a->target : "none";
      r.text += b ? b->target : "none";
    }
    break;
  case COUNT:
  {
    long a, b, c;
    count_oi_fits_data(o, &a, &b, &c);
    r.text = strf("%ld %ld %ld %d %d %d", a, b, c, is_atomic(o, 0.25), is_oi_fits_one(o), is_oi_fits_two(o));
    break;
  }
  case COPY:
  {
    Oi q;
    init_oi_fits(&q.o);
    q.live = true;
#define C(L, N, T) for (GList *l = o->L; l; l = l->next) { q.o.L = g_list_append(q.o.L, dup_##T((T *)l->data)); q.o.N++; }
    C(arrayList, numArray, oi_array)
    C(wavelengthList, numWavelength, oi_wavelength)
    C(corrList, numCorr, oi_corr)
    C(inspolList, numInspol, oi_inspol)
    C(visList, numVis, oi_vis)
    C(vis2List, numVis2, oi_vis2)
    C(t3List, numT3, oi_t3)
    C(fluxList, numFlux, oi_flux)
#undef C
    r.m = from_c(&q.o);
    break;
  }
  case WRITE:
  case READ:
  case READ_BAD:
  {
    STATUS st = 0;
    const std::string *f = &j.in;
    if (op.k == WRITE)
    {
      f = &j.out;
      write_oi_fits(f->c_str(), *o, &st);
      r.text = strf("write %d; ", st);
    }
    else write_bytes(*f, op.k == READ ? j.good : j.bad);
    Oi q;
    st = 0;
    read_oi_fits(f->c_str(), &q.o, &st);
    if (!st) { q.live = true; r.m = from_c(&q.o); }
    r.text += strf("read %d", st);
    if (op.k == WRITE) r.m.h.date = "";
    unlink(f->c_str());
    break;
  }
  case UPGRADE:
    upgrade_oi_target(&own->targets);
    for (GList *l = own->arrayList; l; l = l->next) upgrade_oi_array((oi_array *)l->data);
    for (GList *l = own->wavelengthList; l; l = l->next) upgrade_oi_wavelength((oi_wavelength *)l->data);
    for (GList *l = own->visList; l; l = l->next) upgrade_oi_vis((oi_vis *)l->data);
    for (GList *l = own->vis2List; l; l = l->next) upgrade_oi_vis2((oi_vis2 *)l->data);
    for (GList *l = own->t3List; l; l = l->next) upgrade_oi_t3((oi_t3 *)l->data);
    r.m = from_c(own);
    break;
  case HEADER:
    set_oi_header(own);
    r.m = from_c(own);
    break;
  case BUILD:
  {
    Oi q(j.own);
    r.m = from_c(&q.o);
    break;
  }
  case NOPS: break;
  }
  return r;
}
static void *work(void *p)
{
  Job &j = *(Job *)p;
  if (j.start) pthread_barrier_wait(j.start);
  try
  {
    Oi own(j.own);
    for (auto &op : j.ops) j.res.push_back(perform(j, op, &own.o));
  }
  catch (const Fail &f) { j.error = f.msg; }
  catch (const std::exception &e) { j.error = e.what(); }
  return nullptr;
}
static MDS some_ds(Gen &g)
{
  if (g.chance(20)) return gen_conforming(g);
  GenOpt o;
  o.version = g.one({2, 2, 1, 0});
  o.maxtab = g.one({1, 2, 3});
  o.maxrec = 3;
  o.maxwave = 4;
  o.maxelem = 3;
  o.maxtarg = 3;
  o.many = 0;
  o.empties = g.chance(10);
  MDS m = gen_ds(g, o);
  if (g.chance(25)) break_ds(g, m, g.range(1, 3));
  return m;
}
static void run_threads(Gen &g)
{
  int n = g.one({2, 2, 3, 4});
  MDS common = some_ds(g);
  g.note("common: " + dump(common));
  std::vector<std::unique_ptr<Job>> jobs;
  int kinds = 0;
  // often the same everywhere, which is when threads meet
  bool alike = g.flip();
  int only = g.chance(60) ? (int)g.below(NOPS) : -1;
  bool share = g.chance(60);
  for (int i = 0; i < n; i++)
  {
    std::unique_ptr<Job> j(new Job);
    if (i && alike) { j->own = jobs[0]->own; j->ops = jobs[0]->ops; j->good = jobs[0]->good; j->bad = jobs[0]->bad; }
    else
    {
      j->own = some_ds(g);
      int k = g.range(1, 4);
      for (int q = 0; q < k; q++)
      {
        Op op;
        op.k = only >= 0 && g.chance(70) ? (OpKind)only : (OpKind)g.below(NOPS);
        op.common = op.k < SHARED_OPS && share && g.flip();
        op.nospec = g.flip();
        if (op.k == FILTER || op.k == ITERATE) op.f = gen_spec(g, op.common ? common : j->own);
        if (op.k == READ && j->good.empty()) { Layout l = gen_layout(g); j->good = encode(to_fits(g, j->own, l)); }
        if (op.k == READ_BAD && j->bad.empty()) { Layout l = gen_layout(g); j->bad = encode(to_fits(g, j->own, l)); j->bad.resize(g.one({0, 6, 2880})); }
        g.label(std::string(opname[op.k]) + (op.common ? " common" : ""));
        j->ops.push_back(op);
      }
    }
    j->in = scratch_file(strf("t%d-in.fits", i));
    j->out = scratch_file(strf("t%d-out.fits", i));
    unlink(j->in.c_str());
    unlink(j->out.c_str());
    std::string s = strf("thread %d:", i + 1);
    for (auto &op : j->ops)
    {
      s += strf(" %s%s", opname[op.k], op.common ? " common" : "");
      if (op.k == FILTER || op.k == ITERATE) s += " " + show(op.f);
      kinds |= 1 << op.k;
    }
    g.note(s + "\n" + dump(j->own));
    g.evals += j->ops.size();
    jobs.push_back(std::move(j));
  }
  g.label(strf("%d threads", n));
  oi_hush_errors = 1;
  Oi c(common);
  std::vector<std::vector<Result>> first;
  for (int round = 0; round < 3; round++) // the last one after the other
  {
    bool together = round < 2;
    pthread_barrier_t start;
    pthread_barrier_init(&start, nullptr, n);
    std::vector<pthread_t> th(n);
    for (int i = 0; i < n; i++)
    {
      Job &j = *jobs[i];
      j.common = &c.o;
      j.mcommon = &common;
      j.start = together ? &start : nullptr;
      j.res.clear();
      if (!together) work(&j);
      else if (pthread_create(&th[i], nullptr, work, &j)) fail("cannot make threads");
    }
    if (together) for (auto &t : th) pthread_join(t, nullptr);
    pthread_barrier_destroy(&start);
    for (int i = 0; i < n; i++)
    {
      if (!jobs[i]->error.empty()) fail("thread %d: %s", i + 1, jobs[i]->error.c_str());
      if (!round) { first.push_back(jobs[i]->res); continue; }
      for (size_t q = 0; q < jobs[i]->res.size(); q++)
      {
        const Result &a = first[i][q], &b = jobs[i]->res[q];
        const char *name = opname[jobs[i]->ops[q].k];
        const char *when = together ? "with other threads again" : "alone";
        if (a.text != b.text) fail("thread %d: %s gave '%s' with other threads and '%s' %s", i + 1, name, a.text.substr(0, 300).c_str(), b.text.substr(0, 300).c_str(), when);
        std::string d = diff(a.m, b.m);
        if (!d.empty()) fail("thread %d: %s gave another result with other threads and %s: %s", i + 1, name, when, d.c_str());
      }
    }
    std::string d = diff(common, from_c(&c.o));
    if (!d.empty()) fail("the common dataset changed: %s", d.c_str());
  }
  oi_hush_errors = 0;
  if (kinds & (kinds - 1)) g.label("several operations");
  size_t ops = 0;
  for (auto &j : jobs) ops += j->ops.size();
  if (ops >= 3 && interesting(common)) g.nontrivial();
}
static bool reg = (register_prop({"P31", "threads",
  "Programs of 1-4 operations each are run by 2-4 threads at once, twice, and then one after the other, on datasets of their own and, "
  "for operations that do not change it, a common one; the library runs under ThreadSanitizer. Results must be equal and no memory "
  "accessed in conflict. Non-trivial: three or more operations and a common dataset of several tables and records.",
  12000, 120000, run_threads,
  {"CFITSIO and GLib are not instrumented: conflicts within them are seen by their effects only", "conflicts are found by happens-before analysis of the interleavings that occurred"}, 50}), true);

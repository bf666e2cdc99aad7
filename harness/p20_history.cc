// Histories: sequences of operations on several datasets.
#include "fits.h"
#include "ref_check.h"
#include "ref_filter.h"
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

enum OpKind { BUILD, READ, READ_BAD, WRITE, WRITE_AGAIN, FILTER, MERGE, CHECK, ITERATE, QUERY, UPGRADE, COPY_TABLE, CHANGE, FREE, REUSE, NOPS };
static const char *const opname[NOPS] = {"build", "read", "read bad file", "write", "write over existing file", "filter", "merge", "check", "iterate", "query", "upgrade", "copy table into other", "change", "free", "free and read"};
struct Op {
  OpKind k;
  unsigned a = 0, b = 0, c = 0;
  const MDS *m = nullptr;
  const std::string *file = nullptr;
  FSpec f;
};
struct Program {
  std::vector<std::unique_ptr<MDS>> ds;
  std::vector<std::unique_ptr<std::string>> files;
  std::vector<Op> ops;
};
struct Slot {
  oi_fits o;
  MDS want;
};
// *failed: a read failed
static std::string run_ops(const Program &p, long *most, bool *failed)
{
  std::vector<std::unique_ptr<Slot>> live;
  std::string scr = scratch_file("h.fits"), err;
  auto take = [&](std::unique_ptr<Slot> s) { s->want = from_c(&s->o); live.push_back(std::move(s)); };
  auto append_copy = [](oi_fits *to, const oi_fits *from, unsigned which) {
    // as a program would that assembles a dataset from tables of others
    switch (which % 8)
    {
#define C(n, L, N, T, dup) case n: if (from->L) { T *t = dup((T *)g_list_nth_data(from->L, (which / 8) % g_list_length(from->L))); to->L = g_list_append(to->L, t); to->N++; } break;
      C(0, arrayList, numArray, oi_array, dup_oi_array)
      C(1, wavelengthList, numWavelength, oi_wavelength, dup_oi_wavelength)
      C(2, corrList, numCorr, oi_corr, dup_oi_corr)
      C(3, inspolList, numInspol, oi_inspol, dup_oi_inspol)
      C(4, visList, numVis, oi_vis, dup_oi_vis)
      C(5, vis2List, numVis2, oi_vis2, dup_oi_vis2)
      C(6, t3List, numT3, oi_t3, dup_oi_t3)
      C(7, fluxList, numFlux, oi_flux, dup_oi_flux)
#undef C
    }
  };
  size_t step = 0;
  for (auto &op : p.ops)
  {
    step++;
    size_t n = live.size();
    Slot *s = n ? live[op.a % n].get() : nullptr;
    Slot *changed = nullptr;
    auto read = [&](const std::string &bytes, bool good) {
      write_bytes(scr, bytes);
      std::unique_ptr<Slot> t(new Slot);
      memset(&t->o, 'Q', sizeof t->o);
      STATUS st = 0;
      oi_hush_errors = 1;
      read_oi_fits(scr.c_str(), &t->o, &st);
      oi_hush_errors = 0;
      fits_clear_errmsg();
      unlink(scr.c_str());
      if (st) *failed = true;
      if (good && st) fail("step %zu: reading a conforming file failed with %d", step, st);
      if (!st && good) take(std::move(t));
      else if (!st) free_oi_fits(&t->o); // may lack what its data refer to
    };
    switch (op.k)
    {
    case BUILD:
    {
      std::unique_ptr<Slot> t(new Slot);
      if (op.c % 8 == 7)
      {
        memset(&t->o, 'Q', sizeof t->o);
        init_oi_fits(&t->o);
        std::string d = diff(MDS(), from_c(&t->o));
        if (!d.empty()) fail("step %zu: a new dataset is not empty: %s", step, d.c_str());
      }
      else to_c(*op.m, &t->o);
      take(std::move(t));
      break;
    }
    case READ: read(*op.file, true); break;
    case READ_BAD: read(*op.file, false); break;
    case WRITE:
    case WRITE_AGAIN:
      if (s)
      {
        unlink(scr.c_str());
        STATUS st = 0;
        write_oi_fits(scr.c_str(), s->o, &st);
        if (st) fail("step %zu: writing failed with %d", step, st);
        if (op.k == WRITE_AGAIN)
        {
          oi_hush_errors = 1;
          std::string before = read_bytes(scr);
          write_oi_fits(scr.c_str(), s->o, &st);
          oi_hush_errors = 0;
          fits_clear_errmsg();
          if (!st) fail("step %zu: writing over an existing file succeeded", step);
          if (read_bytes(scr) != before) fail("step %zu: writing over an existing file changed it", step);
        }
        unlink(scr.c_str());
      }
      break;
    case FILTER:
      if (s)
      {
        std::unique_ptr<Slot> t(new Slot);
        memset(&t->o, 'Q', sizeof t->o);
        oi_filter_spec fs;
        to_c(op.f, &fs);
        apply_oi_filter(&s->o, &fs, &t->o);
        take(std::move(t));
      }
      break;
    case MERGE:
      if (n)
      {
        std::unique_ptr<Slot> t(new Slot);
        memset(&t->o, 'Q', sizeof t->o);
        GList *l = nullptr;
        for (unsigned i = 0; i < 2 + op.c % 3; i++) l = g_list_append(l, &live[(op.a + i * (op.b % 3)) % n]->o);
        merge_oi_fits_list(l, &t->o);
        g_list_free(l);
        take(std::move(t));
      }
      break;
    case CHECK:
      if (s)
        for (auto &c : all_checks)
        {
          oi_check_result r;
          c.fn(&s->o, &r);
          format_check_result(&r);
          free_check_result(&r);
        }
      break;
    case ITERATE:
      if (s)
      {
        oi_filter_spec fs;
        to_c(op.f, &fs);
        volatile long cnt = 0; // what it is does not matter here
        oi_vis_iter a; oi_vis2_iter b; oi_t3_iter c;
        oi_vis_iter_init(&a, &s->o, &fs);
        oi_vis2_iter_init(&b, &s->o, &fs);
        oi_t3_iter_init(&c, &s->o, &fs);
        bool x = true, y = true, z = true;
        while (x || y || z)
        {
          if (x) x = oi_vis_iter_next(&a, NULL, NULL, NULL, NULL, NULL);
          if (y) y = oi_vis2_iter_next(&b, NULL, NULL, NULL, NULL, NULL);
          if (z) z = oi_t3_iter_next(&c, NULL, NULL, NULL, NULL, NULL);
          cnt++;
        }
      }
      break;
    case QUERY:
      if (s)
      {
        format_oi_fits_summary(&s->o);
        long a, b, c;
        count_oi_fits_data(&s->o, &a, &b, &c);
        is_atomic(&s->o, 0.1);
        is_oi_fits_one(&s->o);
        is_oi_fits_two(&s->o);
        for (auto &w : s->want.wave) oi_fits_lookup_wavelength(&s->o, w.insname.c_str());
        for (auto &w : s->want.arr) { oi_fits_lookup_array(&s->o, w.arrname.c_str()); oi_fits_lookup_element(&s->o, w.arrname.c_str(), 1); }
        for (auto &w : s->want.corr) oi_fits_lookup_corr(&s->o, w.corrname.c_str());
        for (auto &w : s->want.targets.t) { oi_fits_lookup_target(&s->o, w.id); oi_fits_lookup_target_by_name(&s->o, w.name.c_str()); }
      }
      break;
    case UPGRADE:
      if (s)
      {
        upgrade_oi_target(&s->o.targets);
        for (GList *l = s->o.arrayList; l; l = l->next) upgrade_oi_array((oi_array *)l->data);
        for (GList *l = s->o.wavelengthList; l; l = l->next) upgrade_oi_wavelength((oi_wavelength *)l->data);
        for (GList *l = s->o.visList; l; l = l->next) upgrade_oi_vis((oi_vis *)l->data);
        for (GList *l = s->o.vis2List; l; l = l->next) upgrade_oi_vis2((oi_vis2 *)l->data);
        for (GList *l = s->o.t3List; l; l = l->next) upgrade_oi_t3((oi_t3 *)l->data);
        changed = s;
      }
      break;
    case COPY_TABLE:
      if (n > 1)
      {
        Slot *q = live[op.b % n].get();
        if (q == s) break;
        // only tables which name nothing, or the dataset would not be well formed
        unsigned w = op.c % 3;
        if (!(w == 0 ? s->o.arrayList : w == 1 ? s->o.wavelengthList : s->o.corrList)) break;
        append_copy(&q->o, &s->o, w + 8 * (op.c / 3 % 4));
        if (w == 0) snprintf(((oi_array *)g_list_last(q->o.arrayList)->data)->arrname, FLEN_VALUE, "copy%zu", step);
        if (w == 1) snprintf(((oi_wavelength *)g_list_last(q->o.wavelengthList)->data)->insname, FLEN_VALUE, "copy%zu", step);
        if (w == 2) snprintf(((oi_corr *)g_list_last(q->o.corrList)->data)->corrname, FLEN_VALUE, "copy%zu", step);
        changed = q;
      }
      break;
    case CHANGE:
      if (s)
      {
        s->o.header.author[0] = s->o.header.author[0] == 'x' ? 'y' : 'x';
        s->o.header.author[1] = 0;
        if (s->o.targets.ntarget) s->o.targets.targ[0].raep0 += 1;
        if (s->o.arrayList) { oi_array *t = (oi_array *)s->o.arrayList->data; t->arrayx += 1; if (t->nelement) t->elem[t->nelement - 1].staxyz[1] += 2; }
        if (s->o.corrList) { oi_corr *t = (oi_corr *)s->o.corrList->data; if (t->ncorr) t->corr[0] *= 0.5; }
        if (s->o.inspolList) { oi_inspol *t = (oi_inspol *)s->o.inspolList->data; if (t->numrec && t->nwave) t->record[0].jxy[0] += 1; }
        if (s->o.visList) { oi_vis *t = (oi_vis *)s->o.visList->data; if (t->numrec && t->nwave) { t->record[0].visamp[0] += 1; t->record[t->numrec - 1].flag[t->nwave - 1] ^= 1; if (t->usecomplex) t->record[0].ivis[0] = 7; if (t->usevisrefmap) t->record[0].visrefmap[0] ^= 1; } }
        if (s->o.vis2List) { oi_vis2 *t = (oi_vis2 *)s->o.vis2List->data; if (t->numrec && t->nwave) { t->record[0].vis2err[0] += 1; t->record[0].ucoord += 1; } }
        if (s->o.t3List) { oi_t3 *t = (oi_t3 *)s->o.t3List->data; if (t->numrec && t->nwave) t->record[0].t3phi[0] += 1; }
        if (s->o.fluxList) { oi_flux *t = (oi_flux *)s->o.fluxList->data; if (t->numrec && t->nwave) t->record[0].fluxdata[0] += 1; }
        changed = s;
      }
      break;
    case FREE:
      if (s) { free_oi_fits(&s->o); live.erase(live.begin() + op.a % n); }
      break;
    case REUSE: // the same variable for another dataset
      if (s)
      {
        free_oi_fits(&s->o);
        write_bytes(scr, *op.file);
        STATUS st = 0;
        read_oi_fits(scr.c_str(), &s->o, &st);
        unlink(scr.c_str());
        if (st) fail("step %zu: reading a conforming file failed with %d", step, st);
        changed = s;
      }
      break;
    case NOPS: break;
    }
    if (changed) changed->want = from_c(&changed->o);
    *most = std::max(*most, (long)live.size());
    for (size_t i = 0; i < live.size(); i++)
    {
      std::string d = diff(live[i]->want, from_c(&live[i]->o));
      if (!d.empty()) { err = strf("step %zu (%s) changed dataset %zu: %s", step, opname[op.k], i + 1, d.c_str()); break; }
    }
    if (!err.empty()) break;
  }
  while (!live.empty())
  {
    size_t i = p.ops.size() % live.size();
    free_oi_fits(&live[i]->o);
    live.erase(live.begin() + i);
  }
  return err;
}
static void run_history(Gen &g)
{
  Program p;
  GenOpt o;
  o.maxtab = g.one({1, 2, 3});
  o.maxrec = 3;
  o.maxwave = 4;
  o.maxelem = 3;
  o.maxtarg = 3;
  int nds = g.range(1, 3);
  for (int i = 0; i < nds; i++)
  {
    o.version = g.one({2, 2, 1, 0});
    o.empties = g.chance(15);
    p.ds.emplace_back(new MDS(gen_ds(g, o)));
    Layout l = gen_layout(g);
    p.files.emplace_back(new std::string(encode(to_fits(g, *p.ds.back(), l))));
    g.note(strf("dataset %d: ", i + 1) + summary(*p.ds.back()) + "\n");
  }
  int n = g.range(2, thorough_tier() ? 20 : 12);
  std::set<int> kinds;
  bool bad = g.chance(30);
  for (int i = 0; i < n; i++)
  {
    Op x;
    x.k = i == 0 ? g.one({BUILD, READ}) : (OpKind)g.below(NOPS);
    if (x.k == READ_BAD && !bad) x.k = READ;
    x.a = (unsigned)g.below(12);
    x.b = (unsigned)g.below(12);
    x.c = (unsigned)g.below(24);
    size_t w = g.below(nds);
    x.m = p.ds[w].get();
    x.file = p.files[w].get();
    g.note(strf("%d. %s %u %u %u (dataset %zu)", i + 1, opname[x.k], x.a, x.b, x.c, w + 1));
    if (x.k == FILTER || x.k == ITERATE)
    {
      x.f = gen_spec(g, *p.ds[w]);
      if (x.f.arrname.size() > FLEN_VALUE - 1) x.f.arrname = "*";
      g.note(" " + show(x.f));
    }
    if (x.k == READ_BAD)
    {
      FFile f = decode(*x.file);
      std::string b = *x.file;
      size_t i = g.below(f.size());
      switch (g.below(5))
      {
      case 0: b.resize(g.below(b.size())); break;
      case 1: b.resize(f[i].data_off); break;
      case 2: { size_t k = f[i].hdr_off + 80 * g.below((f[i].data_off - f[i].hdr_off) / 80); b.replace(k, 8, "COMMENT "); break; } // loses a keyword
      case 3: { size_t k = f[i].hdr_off; for (size_t q = k; q < f[i].data_off; q += 80) if (!b.compare(q, 5, "TTYPE") && g.chance(20)) b[q + 12] = 'Q'; break; } // loses columns
      case 4: { size_t k = f[i].hdr_off; for (size_t q = k; q < f[i].data_off; q += 80) if (!b.compare(q, 8, "OI_REVN ")) b.replace(q, 8, "COMMENT "); break; }
      }
      p.files.emplace_back(new std::string(b));
      x.file = p.files.back().get();
    }
    g.note("\n");
    g.label(opname[x.k]);
    kinds.insert(x.k);
    p.ops.push_back(x);
  }
  long most = 0;
  size_t b[4] = {0, 0, 0, 0};
  bool failed = false;
  for (int i = 0; i < 4 && !failed; i++)
  {
    std::string e = run_ops(p, &most, &failed);
    if (!e.empty()) fail("%s", e.c_str());
    b[i] = __sanitizer_get_current_allocated_bytes();
  }
  if (kinds.count(READ_BAD) && !failed) g.label("tables skipped");
  // what a failed read leaves behind is not claimed
  if (!failed && b[1] > b[0] && b[2] > b[1] && b[3] > b[2])
    fail("the history leaves %zu bytes allocated each time", b[3] - b[2]);
  if (most >= 2 && kinds.size() >= 3) g.nontrivial();
}
static bool reg = (
  register_prop({"P20", "histories",
    "Random sequences of 2-12 (thorough: 20) operations - build, read, read a damaged file, write, filter, merge, check, iterate, query, "
    "upgrade, copy tables, change values, free, reuse - on any number of datasets. After each step every live dataset is compared with "
    "what it should be; the whole history is run four times and must not leave more memory allocated each time (exact byte count of the "
    "allocator). Non-trivial: at least two datasets alive at once and three kinds of operation.",
    12000, 120000, run_history, {}, 100}),
  true);

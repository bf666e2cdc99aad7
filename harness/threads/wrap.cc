// GLib and CFITSIO are not instrumented: what they read and write on behalf of
// the library is told to ThreadSanitizer here. Linked with --wrap for each.
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <fitsio.h>
#include <glib.h>
extern "C" {
void __tsan_read_range(const void *, unsigned long);
void __tsan_write_range(void *, unsigned long);
void __tsan_read1(const void *);
void __tsan_write1(void *);
}
static void rd(const void *p, size_t n) { if (p) __tsan_read_range(p, n); }
static void wr(void *p, size_t n) { if (p) __tsan_write_range(p, n); }
static void rs(const char *s) { if (s) __tsan_read_range(s, strlen(s) + 1); }

#define R(ret, name, params, args, ...)                                        \
  extern "C" ret __real_##name params;                                         \
  extern "C" ret __wrap_##name params { __VA_ARGS__; return __real_##name args; }
// hash tables: the first byte stands for the whole
R(gpointer, g_hash_table_lookup, (GHashTable *h, gconstpointer k), (h, k), rd(h, 1))
R(gboolean, g_hash_table_contains, (GHashTable *h, gconstpointer k), (h, k), rd(h, 1))
R(gboolean, g_hash_table_lookup_extended, (GHashTable *h, gconstpointer k, gpointer *a, gpointer *b), (h, k, a, b), rd(h, 1))
R(guint, g_hash_table_size, (GHashTable *h), (h), rd(h, 1))
R(gboolean, g_hash_table_insert, (GHashTable *h, gpointer k, gpointer v), (h, k, v), wr(h, 1))
R(gboolean, g_hash_table_replace, (GHashTable *h, gpointer k, gpointer v), (h, k, v), wr(h, 1))
R(gboolean, g_hash_table_add, (GHashTable *h, gpointer k), (h, k), wr(h, 1))
R(gboolean, g_hash_table_remove, (GHashTable *h, gconstpointer k), (h, k), wr(h, 1))
R(gboolean, g_hash_table_steal, (GHashTable *h, gconstpointer k), (h, k), wr(h, 1))
R(void, g_hash_table_remove_all, (GHashTable *h), (h), wr(h, 1))
R(void, g_hash_table_destroy, (GHashTable *h), (h), wr(h, 1))
R(void, g_hash_table_unref, (GHashTable *h), (h), wr(h, 1))
// lists
static void rl(GList *l) { for (; l; l = l->next) rd(l, sizeof *l); }
R(GList *, g_list_append, (GList *l, gpointer d), (l, d), GList *t = g_list_last(l); rl(l); if (t) wr(&t->next, sizeof t->next))
R(GList *, g_list_prepend, (GList *l, gpointer d), (l, d), if (l) wr(&l->prev, sizeof l->prev))
R(GList *, g_list_insert, (GList *l, gpointer d, gint n), (l, d, n), if (l) wr(l, sizeof *l))
R(GList *, g_list_remove, (GList *l, gconstpointer d), (l, d), for (GList *i = l; i; i = i->next) wr(i, sizeof *i))
R(GList *, g_list_remove_link, (GList *l, GList *d), (l, d), if (d) wr(d, sizeof *d))
R(GList *, g_list_delete_link, (GList *l, GList *d), (l, d), if (d) wr(d, sizeof *d))
R(GList *, g_list_reverse, (GList *l), (l), for (GList *i = l; i; i = i->next) wr(i, sizeof *i))
R(GList *, g_list_sort, (GList *l, GCompareFunc f), (l, f), for (GList *i = l; i; i = i->next) wr(i, sizeof *i))
R(GList *, g_list_concat, (GList *l, GList *d), (l, d), GList *t = g_list_last(l); if (t) wr(&t->next, sizeof t->next))
R(void, g_list_free, (GList *l), (l), for (GList *i = l; i; i = i->next) wr(i, sizeof *i))
R(gint, g_list_position, (GList *l, GList *d), (l, d), rl(l))
R(gint, g_list_index, (GList *l, gconstpointer d), (l, d), rl(l))
R(GList *, g_list_find, (GList *l, gconstpointer d), (l, d), rl(l))
R(GList *, g_list_find_custom, (GList *l, gconstpointer d, GCompareFunc f), (l, d, f), rl(l))
R(guint, g_list_length, (GList *l), (l), rl(l))
R(GList *, g_list_nth, (GList *l, guint n), (l, n), rl(l))
R(gpointer, g_list_nth_data, (GList *l, guint n), (l, n), rl(l))
R(GList *, g_list_last, (GList *l), (l), rl(l))
// strings
R(gsize, g_strlcpy, (gchar *d, const gchar *s, gsize n), (d, s, n), rs(s); if (n) wr(d, std::min(n, strlen(s) + 1)))
R(gsize, g_strlcat, (gchar *d, const gchar *s, gsize n), (d, s, n), rs(s); wr(d, 1))
R(gchar *, g_strdup, (const gchar *s), (s), rs(s))
R(int, g_strcmp0, (const char *a, const char *b), (a, b), rs(a); rs(b))
R(gboolean, g_str_equal, (gconstpointer a, gconstpointer b), (a, b), rs((const char *)a); rs((const char *)b))
R(guint, g_str_hash, (gconstpointer a), (a), rs((const char *)a))
R(gchar *, g_string_chunk_insert, (GStringChunk *c, const gchar *s), (c, s), rs(s); wr(c, 1))
R(gchar *, g_string_chunk_insert_const, (GStringChunk *c, const gchar *s), (c, s), rs(s); wr(c, 1))
R(void, g_string_chunk_clear, (GStringChunk *c), (c), wr(c, 1))
R(void, g_string_chunk_free, (GStringChunk *c), (c), wr(c, 1))
R(gboolean, g_pattern_match_string, (GPatternSpec *p, const gchar *s), (p, s), rd(p, 1); rs(s))
R(gboolean, g_pattern_spec_match_string, (GPatternSpec *p, const gchar *s), (p, s), rd(p, 1); rs(s))
R(void, g_pattern_spec_free, (GPatternSpec *p), (p), wr(p, 1))
R(GString *, g_string_append, (GString *g, const gchar *s), (g, s), rs(s); wr(g, sizeof *g))
R(GString *, g_string_assign, (GString *g, const gchar *s), (g, s), rs(s); wr(g, sizeof *g))
R(GString *, g_string_truncate, (GString *g, gsize n), (g, n), wr(g, sizeof *g))
extern "C" gint __wrap_g_snprintf(gchar *s, gulong n, const gchar *f, ...)
{
  va_list a;
  va_start(a, f);
  gint r = vsnprintf(s, n, f, a);
  wr(s, std::min<gulong>(n, r + 1));
  va_end(a);
  return r;
}
extern "C" void __wrap_g_string_printf(GString *g, const gchar *f, ...)
{
  wr(g, sizeof *g);
  va_list a;
  va_start(a, f);
  g_string_vprintf(g, f, a);
  va_end(a);
}
extern "C" void __wrap_g_string_append_printf(GString *g, const gchar *f, ...)
{
  wr(g, sizeof *g);
  va_list a;
  va_start(a, f);
  g_string_append_vprintf(g, f, a);
  va_end(a);
}
// CFITSIO: the first byte of what is read into, and which files are used
R(int, ffgky, (fitsfile *p, int t, const char *k, void *v, char *c, int *st), (p, t, k, v, c, st), wr(p, 1); rs(k); wr(v, 1); wr(c, 1))
R(int, ffgcv, (fitsfile *p, int t, int c, LONGLONG r, LONGLONG e, LONGLONG n, void *nul, void *v, int *any, int *st), (p, t, c, r, e, n, nul, v, any, st), wr(p, 1); if (t == TSTRING) { rd(v, sizeof(char *)); wr(*(char **)v, 1); } else wr(v, 1))
R(int, ffgcno, (fitsfile *p, int cs, const char *name, int *col, int *st), (p, cs, name, col, st), wr(p, 1); rs(name); wr(col, sizeof *col))
R(int, ffpcl, (fitsfile *p, int t, int c, LONGLONG r, LONGLONG e, LONGLONG n, void *v, int *st), (p, t, c, r, e, n, v, st), wr(p, 1); if (t == TSTRING) { rd(v, sizeof(char *)); rs(*(char **)v); } else rd(v, 1))
R(int, ffpky, (fitsfile *p, int t, const char *k, void *v, const char *c, int *st), (p, t, k, v, c, st), wr(p, 1); rs(k); if (t == TSTRING) rs((const char *)v); else rd(v, 1))
R(int, ffclos, (fitsfile *p, int *st), (p, st), wr(p, 1))

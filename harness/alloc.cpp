/* Sanitized builds: exact allocations.  The C support library rounds allocations up, aligns them by
 * hand, doubles its arrays and packs the elements of its pools, all of which hides small overruns and
 * stale pointers from AddressSanitizer.  These replacements allocate exactly what was asked for. */
#ifndef VH_RELEASE
#undef sc_mempool_alloc
#undef sc_mempool_free
#include <cstdlib>
#include <cstring>
#include <cstdio>
extern "C" {
static long vh_bal[64];
static int slot (int package) { return package < 0 ? 0 : 1 + (package < 62 ? package : 62); }
static void fill (void *p, size_t n) { memset (p, 0xa5, n < (1 << 20) ? n : (1 << 20)); }
void *sc_malloc (int package, size_t size)
{
  void *p = malloc (size);
  if (size) { if (!p) abort (); ++vh_bal[slot (package)]; fill (p, size); }
  else if (p) ++vh_bal[slot (package)];
  return p;
}
void *sc_calloc (int package, size_t n, size_t size)
{
  void *p = calloc (n, size);
  if (p) ++vh_bal[slot (package)]; else if (n * size) abort ();
  return p;
}
void sc_free (int package, void *p)
{
  if (!p) return;
  --vh_bal[slot (package)];
  free (p);
}
void *sc_realloc (int package, void *p, size_t size)
{
  if (!p) return sc_malloc (package, size);
  if (!size) { sc_free (package, p); return NULL; }
  void *q = realloc (p, size);
  if (!q) abort ();
  return q;
}
char *sc_strdup (int package, const char *s)
{
  if (!s) return NULL;
  char *d = (char *) sc_malloc (package, strlen (s) + 1);
  strcpy (d, s);
  return d;
}
int sc_memory_status (int package) { return (int) vh_bal[slot (package)]; }
void sc_memory_check (int package)
{
  if (vh_bal[slot (package)]) { fprintf (stderr, "package %d: %ld allocations not freed\n", package, vh_bal[slot (package)]); abort (); }
}
void sc_array_resize (sc_array_t *a, size_t n)
{
  if (a->byte_alloc < 0) {
    if (n * a->elem_size > (size_t) -(a->byte_alloc + 1)) { fprintf (stderr, "Abort: a view is resized beyond the memory it shows\n"); SC_ABORT ("view resized"); }
    a->elem_count = n;
    return;
  }
  size_t bytes = n * a->elem_size, have = (size_t) a->byte_alloc;
  a->elem_count = n;
  if (!n) { sc_free (sc_package_id, a->array); a->array = NULL; a->byte_alloc = 0; return; }
  size_t want = bytes;
  /* large arrays grow by parts so that pushing to them remains affordable */
  if (bytes > have && n > 400 && have) want = bytes + bytes / 8;
  else if (bytes <= have && n > 400 && bytes + bytes / 8 + a->elem_size > have) return;
  if (want == have) return;
  a->array = (char *) sc_realloc (sc_package_id, a->array, want);
  if (want > have) fill (a->array + have, want - have);
  a->byte_alloc = (ssize_t) want;
}
void sc_mempool_init (sc_mempool_t *m, size_t elem_size)
{
  m->elem_size = elem_size;
  m->elem_count = 0;
  m->zero_and_persist = 0;
  /* room behind every element that is poisoned when the element is handed out */
  sc_mstamp_init (&m->mstamp, 4096, (elem_size + 7) / 8 * 8 + 16);
  sc_array_init (&m->freed, sizeof (void *));
}
sc_mempool_t *sc_mempool_new (size_t elem_size)
{
  sc_mempool_t *m = (sc_mempool_t *) sc_malloc (sc_package_id, sizeof (*m));
  sc_mempool_init (m, elem_size);
  return m;
}
sc_mempool_t *sc_mempool_new_zero_and_persist (size_t elem_size)
{
  sc_mempool_t *m = sc_mempool_new (elem_size);
  m->zero_and_persist = 1;
  return m;
}
}
#endif

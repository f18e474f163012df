/* Freed elements of memory pools become inaccessible (sanitized builds). */
#ifndef VH_POOL_H
#define VH_POOL_H
#ifndef OMPI_SKIP_MPICXX
#define OMPI_SKIP_MPICXX 1
#endif
#include <sc_containers.h>
#ifdef __cplusplus
extern "C" {
#endif
void __asan_poison_memory_region (void const volatile *addr, size_t size);
void __asan_unpoison_memory_region (void const volatile *addr, size_t size);
#ifdef __cplusplus
}
#endif
static inline void *vh_mempool_alloc (sc_mempool_t * m)
{
  if (m->freed.elem_count > 0) __asan_unpoison_memory_region (*(void **) sc_array_index (&m->freed, m->freed.elem_count - 1), m->elem_size);
  else {
    /* pools are created with room behind each element, see alloc.cpp */
    void *e = sc_mempool_alloc (m);
    if (m->mstamp.elem_size > m->elem_size) __asan_poison_memory_region ((char *) e + m->elem_size, m->mstamp.elem_size - m->elem_size);
    return e;
  }
  return sc_mempool_alloc (m);
}
static inline void vh_mempool_free (sc_mempool_t * m, void *e)
{
  sc_mempool_free (m, e);
  __asan_poison_memory_region (e, m->elem_size);
}
#define sc_mempool_alloc vh_mempool_alloc
#define sc_mempool_free vh_mempool_free
#endif

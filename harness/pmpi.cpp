/* MPI profiling layer: perturbs the message schedule and accounts for requests,
 * messages and communicators.  Sits between the library (and libsc) and MPI. */
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <vector>
#include <time.h>

int vh_delay = 0;
uint64_t vh_delay_seed = 1;
long vh_msgs, vh_msg_bytes, vh_delays, vh_colls, vh_pending_reqs, vh_live_comms;

static inline uint64_t nxt ()
{
  vh_delay_seed += 0x9e3779b97f4a7c15ull;
  uint64_t z = vh_delay_seed;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void jitter (int coll)
{
  if (!vh_delay) return;
  uint64_t z = nxt ();
  if (z % 4) return;
  ++vh_delays;
  struct timespec ts = { 0, (long) ((z >> 8) % (uint64_t) (vh_delay * (coll ? 20000 : 60000))) };
  nanosleep (&ts, NULL);
}

/* With vh_guard nonblocking sends are synchronous and their buffers must stay as
 * they are until the request completes; receive buffers hold garbage before. */
int vh_guard = 0;
long vh_guarded;
void vh_mpi_fail (const char *key, const char *what, long a, long b);
extern "C" void *__asan_region_is_poisoned (void *, size_t) __attribute__ ((weak));
struct Flight { const void *b; size_t n; uint64_t h; int dest, tag; };
static std::map<MPI_Request, Flight> flights;
static size_t bytes_of (int n, MPI_Datatype t) { MPI_Aint lb, ex; int sz; PMPI_Type_get_extent (t, &lb, &ex); PMPI_Type_size (t, &sz); return sz == ex && n > 0 ? (size_t) n * ex : 0; }
static uint64_t hash_of (const void *b, size_t n)
{
  const unsigned char *p = (const unsigned char *) b;
  uint64_t h = n * 0x9e3779b97f4a7c15ull, w;
  for (; n >= 8; n -= 8, p += 8) { memcpy (&w, p, 8); h = (h ^ w) * 0x94d049bb133111ebull; h ^= h >> 29; }
  for (; n; --n, ++p) { h = (h ^ *p) * 0xbf58476d1ce4e5b9ull; h ^= h >> 31; }
  return h;
}
static void landed (MPI_Request r)
{
  auto it = flights.find (r);
  if (it == flights.end ()) return;
  Flight f = it->second;
  flights.erase (it);
  if (__asan_region_is_poisoned && __asan_region_is_poisoned ((void *) f.b, f.n)) { vh_mpi_fail ("mpi-send-buffer", "the buffer of a message was released while the message was being sent", f.dest, f.tag); return; }
  ++vh_guarded;
  if (hash_of (f.b, f.n) != f.h) vh_mpi_fail ("mpi-send-buffer", "the buffer of a message was changed while the message was being sent", f.dest, f.tag);
}
static std::multiset<MPI_Request> live;
static void track (MPI_Request r) { if (r != MPI_REQUEST_NULL) { live.insert (r); vh_pending_reqs++; } }
static void untrack (const std::vector<MPI_Request> & old, const MPI_Request * now)
{
  for (size_t i = 0; i < old.size (); ++i)
    if (old[i] != MPI_REQUEST_NULL && now[i] == MPI_REQUEST_NULL) { auto it = live.find (old[i]); if (it != live.end ()) { live.erase (it); vh_pending_reqs--; } landed (old[i]); }
}

extern "C" {
int MPI_Isend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r)
{
  jitter (0);
  ++vh_msgs;
  size_t len = vh_guard ? bytes_of (n, t) : 0;
  if (!len) { int e = PMPI_Isend (b, n, t, d, tag, c, r); track (*r); return e; }
  uint64_t h = hash_of (b, len);
  int e = PMPI_Issend (b, n, t, d, tag, c, r);
  track (*r);
  flights[*r] = Flight { b, len, h, d, tag };
  return e;
}
int MPI_Issend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r)
{ jitter (0); ++vh_msgs; int e = PMPI_Issend (b, n, t, d, tag, c, r); track (*r); return e; }
int MPI_Send (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ jitter (0); ++vh_msgs; return vh_guard ? PMPI_Ssend (b, n, t, d, tag, c) : PMPI_Send (b, n, t, d, tag, c); }
int MPI_Irecv (void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r)
{ jitter (0); if (vh_guard) memset (b, 0xa5, bytes_of (n, t)); int e = PMPI_Irecv (b, n, t, d, tag, c, r); track (*r); return e; }
int MPI_Recv (void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status * s)
{ jitter (0); return PMPI_Recv (b, n, t, d, tag, c, s); }
int MPI_Probe (int d, int tag, MPI_Comm c, MPI_Status * s)
{ jitter (0); return PMPI_Probe (d, tag, c, s); }
int MPI_Wait (MPI_Request * r, MPI_Status * s)
{ jitter (0); std::vector<MPI_Request> o (r, r + 1); int e = PMPI_Wait (r, s); untrack (o, r); return e; }
int MPI_Waitall (int n, MPI_Request * r, MPI_Status * s)
{ jitter (0); std::vector<MPI_Request> o (r, r + n); int e = PMPI_Waitall (n, r, s); untrack (o, r); return e; }
int MPI_Waitany (int n, MPI_Request * r, int *i, MPI_Status * s)
{ jitter (0); std::vector<MPI_Request> o (r, r + n); int e = PMPI_Waitany (n, r, i, s); untrack (o, r); return e; }
int MPI_Waitsome (int n, MPI_Request * r, int *on, int *idx, MPI_Status * s)
{
  jitter (0);
  std::vector<MPI_Request> o (r, r + n);
  int e;
  if (vh_delay && nxt () % 2) {
    /* complete a single request, in random position among those ready */
    int i;
    MPI_Status st;
    int rot = n > 0 ? (int) (nxt () % (uint64_t) n) : 0;
    for (int k = 0; k < n; ++k) {
      i = (k + rot) % n;
      if (r[i] == MPI_REQUEST_NULL) continue;
      int fl = 0;
      PMPI_Test (&r[i], &fl, &st);
      if (fl) { *on = 1; idx[0] = i; if (s != MPI_STATUSES_IGNORE) s[0] = st; untrack (o, r); return MPI_SUCCESS; }
    }
  }
  e = PMPI_Waitsome (n, r, on, idx, s);
  untrack (o, r);
  return e;
}
int MPI_Test (MPI_Request * r, int *f, MPI_Status * s)
{ std::vector<MPI_Request> o (r, r + 1); int e = PMPI_Test (r, f, s); untrack (o, r); return e; }
int MPI_Testall (int n, MPI_Request * r, int *f, MPI_Status * s)
{ std::vector<MPI_Request> o (r, r + n); int e = PMPI_Testall (n, r, f, s); untrack (o, r); return e; }
int MPI_Testsome (int n, MPI_Request * r, int *on, int *idx, MPI_Status * s)
{ std::vector<MPI_Request> o (r, r + n); int e = PMPI_Testsome (n, r, on, idx, s); untrack (o, r); return e; }
int MPI_Barrier (MPI_Comm c) { jitter (1); ++vh_colls; return PMPI_Barrier (c); }
int MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { jitter (1); ++vh_colls; return PMPI_Bcast (b, n, t, root, c); }
int MPI_Allgather (const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c)
{ jitter (1); ++vh_colls; return PMPI_Allgather (a, n, t, b, m, u, c); }
int MPI_Allgatherv (const void *a, int n, MPI_Datatype t, void *b, const int *m, const int *d, MPI_Datatype u, MPI_Comm c)
{ jitter (1); ++vh_colls; return PMPI_Allgatherv (a, n, t, b, m, d, u, c); }
int MPI_Allreduce (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{ jitter (1); ++vh_colls; return PMPI_Allreduce (a, b, n, t, o, c); }
int MPI_Reduce (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{ jitter (1); ++vh_colls; return PMPI_Reduce (a, b, n, t, o, root, c); }
int MPI_Gather (const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, int root, MPI_Comm c)
{ jitter (1); ++vh_colls; return PMPI_Gather (a, n, t, b, m, u, root, c); }
int MPI_Scan (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{ jitter (1); ++vh_colls; return PMPI_Scan (a, b, n, t, o, c); }
int MPI_Comm_dup (MPI_Comm c, MPI_Comm * n) { int e = PMPI_Comm_dup (c, n); if (*n != MPI_COMM_NULL) ++vh_live_comms; return e; }
int MPI_Comm_split (MPI_Comm c, int a, int b, MPI_Comm * n) { int e = PMPI_Comm_split (c, a, b, n); if (*n != MPI_COMM_NULL) ++vh_live_comms; return e; }
int MPI_Comm_split_type (MPI_Comm c, int a, int b, MPI_Info i, MPI_Comm * n) { int e = PMPI_Comm_split_type (c, a, b, i, n); if (*n != MPI_COMM_NULL) ++vh_live_comms; return e; }
int MPI_Comm_create (MPI_Comm c, MPI_Group g, MPI_Comm * n) { int e = PMPI_Comm_create (c, g, n); if (*n != MPI_COMM_NULL) ++vh_live_comms; return e; }
int MPI_Comm_create_group (MPI_Comm c, MPI_Group g, int tag, MPI_Comm * n) { int e = PMPI_Comm_create_group (c, g, tag, n); if (*n != MPI_COMM_NULL) ++vh_live_comms; return e; }
int MPI_Comm_free (MPI_Comm * n)
{
  int f = 0;
  if (*n != MPI_COMM_NULL) { MPI_Status st; PMPI_Iprobe (MPI_ANY_SOURCE, MPI_ANY_TAG, *n, &f, &st); if (f) vh_mpi_fail ("leak-message", "a communicator was freed with a message not received", st.MPI_SOURCE, st.MPI_TAG); }
  if (*n != MPI_COMM_NULL) --vh_live_comms;
  return PMPI_Comm_free (n);
}
}

int vh_unmatched (MPI_Comm comm)
{
  int f = 0;
  MPI_Status st;
  PMPI_Iprobe (MPI_ANY_SOURCE, MPI_ANY_TAG, comm, &f, &st);
  return f;
}

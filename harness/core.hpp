/* Common machinery of the run-time monitors: deterministic generators of
 * connectivities and forests, a gathered view of the global state, and an
 * independent geometric model of the domain against which the events and
 * results of the library are judged.  Compiled for 2D and, with P4_TO_P8, 3D. */
#ifndef VH_CORE_HPP
#define VH_CORE_HPP
#ifndef OMPI_SKIP_MPICXX
#define OMPI_SKIP_MPICXX 1
#endif
#include <mpi.h>
#ifdef P4_TO_P8
#include <p4est_to_p8est.h>
#include <p8est_bits.h>
#include <p8est_extended.h>
#include <p8est_ghost.h>
#include <p8est_iterate.h>
#include <p8est_lnodes.h>
#include <p8est_mesh.h>
#include <p8est_nodes.h>
#include <p8est_search.h>
#include <p8est_build.h>
#include <p8est_wrap.h>
#include <p8est_communication.h>
#include <p8est_algorithms.h>
#include <p8est_points.h>
#include <p8est_io.h>
#include <p8est_vtk.h>
#include <p8est_geometry.h>
#include <p8est_balance.h>
#define VH_DIM 3
#define VH_EDGES 12
#else
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <p4est_ghost.h>
#include <p4est_iterate.h>
#include <p4est_lnodes.h>
#include <p4est_mesh.h>
#include <p4est_nodes.h>
#include <p4est_search.h>
#include <p4est_build.h>
#include <p4est_wrap.h>
#include <p4est_communication.h>
#include <p4est_algorithms.h>
#include <p4est_points.h>
#include <p4est_io.h>
#include <p4est_vtk.h>
#include <p4est_geometry.h>
#include <p4est_balance.h>
#define VH_DIM 2
#define VH_EDGES 0
#endif
#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

typedef unsigned __int128 u128;
typedef int64_t i64;
typedef uint64_t u64;
static const int DIM = VH_DIM;
static const int NC = P4EST_CHILDREN;
static const int NF = P4EST_FACES;
static const int NE = VH_EDGES;
static const int NH = P4EST_HALF;
static const int ML = P4EST_MAXLEVEL;
static const int QML = P4EST_QMAXLEVEL;
static const i64 RL = (i64) 1 << P4EST_MAXLEVEL;

/* ------------------------------------------------------------------ random */
static inline u64 mix64 (u64 z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline u64 hcomb (u64 a, u64 b) { return mix64 (a * 0x100000001b3ull ^ mix64 (b)); }
struct Rng
{
  u64 s;
  explicit Rng (u64 seed = 1) : s (mix64 (seed)) { }
  u64 next () { s += 0x9e3779b97f4a7c15ull; return mix64 (s); }
  int below (i64 n) { return n <= 0 ? 0 : (int) (next () % (u64) n); }
  int range (int a, int b) { return a + below (b - a + 1); }
  bool chance (double p) { return (next () >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit () { return (next () >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> T pick (std::initializer_list<T> l) { return *(l.begin () + below (l.size ())); }
};

/* --------------------------------------------------------------- reporting */
struct Run
{
  std::string prop;
  u64 seed = 1;
  long caseno = 0;
  int rank = 0, size = 1;
  int nfail_case = 0, nfail_total = 0;
  std::string outprefix, tmpdir;
  FILE *viol = nullptr;
  std::map<std::string, long> cnt;      /* rank-local event counters, summed at the end */
  std::map<std::string, long> gcnt;     /* global counters, taken from rank 0 */
  std::set<u64> distinct;               /* rank 0: state hashes */
  std::vector<std::string> samples;     /* rank 0 */
  std::string desc;                     /* description of the current case */
  long evals = 0;                       /* cases */
  long judged = 0;                      /* rank 0: judged states or executions */
  bool borrowed = false;                /* running the workload of another property */
  int tier = 0;                         /* 0 quick, 1 thorough */
};
extern Run run;
void vfail (const char *file, int line, const char *key, const char *fmt, ...)
  __attribute__ ((format (printf, 4, 5)));
/* FAILK: record a violation with a stable key; does not stop the case */
#define FAILK(key, ...) vfail (__FILE__, __LINE__, key, __VA_ARGS__)
#define CHK(cond, key, ...) do { if (!(cond)) FAILK (key, __VA_ARGS__); } while (0)
static inline void count (const char *k, long n = 1) { run.cnt[k] += n; }
static inline void gcount (const char *k, long n = 1) { if (run.rank == 0) run.gcnt[k] += n; }
void describe (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void distinct_state (u64 h);

/* ---------------------------------------------------------------- geometry */
typedef std::array<i64, 3> P3;          /* point; doubled coordinates unless noted */
struct TP { int t; P3 x; bool operator< (const TP & o) const { return t != o.t ? t < o.t : x < o.x; }
            bool operator== (const TP & o) const { return t == o.t && x == o.x; } };

static const i64 R2 = 2 * RL;

struct Xf                               /* affine map between two trees */
{
  int to[3] = { 0, 1, 2 };              /* axis i goes to axis to[i] */
  int sg[3] = { 1, 1, 1 };
  i64 off[3] = { 0, 0, 0 };             /* y[to[i]] = sg[i] * x[i] + off[to[i]] (doubled coordinates) */
  P3 map (const P3 & x) const { P3 y = {0, 0, 0}; for (int i = 0; i < DIM; ++i) y[to[i]] = sg[i] * x[i] + off[to[i]]; return y; }
};

/* The gluing of two faces as documented for the connectivity structures. */
Xf face_xf (int f, int nf, int o);
Xf xf_inverse (const Xf & a);

struct Geo
{
  p4est_connectivity_t *c = nullptr;
  int nt = 0;
  std::vector<Xf> fx;                   /* nt * NF */
  std::vector<char> fb;                 /* face is boundary */
  void init (p4est_connectivity_t * conn);
  /* all representations (tree, point) of a point in closed trees, sorted */
  void orbit (int t, const P3 & x, std::vector<TP> & out) const;
  TP canon (int t, const P3 & x) const { std::vector<TP> o; orbit (t, x, o); return o[0]; }
  bool on_boundary_face (int t, int f) const { return fb[t * NF + f]; }
};

/* sub-entities of a cube: for each of the 3^DIM - 1 proper faces, offset pattern in {-1,0,1} */
struct Ent { int dim; int d[3]; };      /* d: -1 low side, 1 high side, 0 spans */
const std::vector<Ent> & entities ();   /* ordered: faces, (edges), corners; numbered as in the library */
extern int ent_face0, ent_edge0, ent_corner0;
int edge_axis (int e);                  /* independent edge numbering: axis, and sides of the other two */

/* ------------------------------------------------------------------ leaves */
struct Leaf
{
  int t, l;
  i64 x[3];
  int rank;                             /* owner */
  i64 gi;                               /* global index */
  u128 key () const;                    /* Morton index at maximum level */
  i64 len () const { return (i64) 1 << (ML - l); }
  bool same (const Leaf & o) const { return t == o.t && l == o.l && x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2]; }
};
u128 morton (const i64 * x);
static inline u128 leaf_span (int l) { return (u128) 1 << (DIM * (ML - l)); }
Leaf mkleaf (int t, const p4est_quadrant_t * q);
void leaf_to_quad (const Leaf & a, p4est_quadrant_t * q);
std::string leaf_str (const Leaf & a);
static inline bool leaf_less (const Leaf & a, const Leaf & b)
{
  if (a.t != b.t) return a.t < b.t;
  u128 ka = a.key (), kb = b.key ();
  return ka != kb ? ka < kb : a.l < b.l;
}
struct LeafCmp { bool operator() (const Leaf & a, const Leaf & b) const { return leaf_less (a, b); } };
Leaf leaf_child (const Leaf & a, int c);
Leaf leaf_parent (const Leaf & a);
int leaf_childid (const Leaf & a);

/* A global set of leaves in curve order with owners */
struct GForest
{
  std::vector<Leaf> q;
  std::vector<u128> key;                /* morton keys, parallel to q */
  std::vector<i64> tfirst;              /* per tree offset, nt + 1 */
  std::vector<i64> rfirst;              /* per rank offset */
  int nt = 0;
  void index (int ntrees);
  /* index of the leaf of tree t containing unit cell with morton key k, or -1 */
  i64 find_key (int t, u128 k) const;
  /* leaves of tree t whose closed cube contains the doubled point */
  void containing (int t, const P3 & x2, std::vector<int> & out) const;
  u64 hash (bool with_partition) const;
};
std::vector<Leaf> local_leaves (p4est_t * p);
GForest gather (p4est_t * p);           /* collective over p->mpicomm */
bool complete_sorted (const std::vector<Leaf> & q, int nt, std::string & why);

struct Adj { int a, b; int dim; };      /* leaves a < b touch in an entity of dimension dim */
/* all touching pairs of different leaves (collective over comm unless serial) */
std::vector<Adj> adjacency (const Geo & g, const GForest & f, MPI_Comm comm);

/* the coarsest refinement in which leaves touching in an entity of dimension
 * >= mindim differ by at most one level; glue == NULL: trees are isolated */
std::vector<Leaf> balance_closure (const Geo * g, int nt, const std::vector<Leaf> & in, int mindim);
/* is the given global leaf set balanced in this sense */
bool is_balanced_model (const Geo * g, const GForest & f, int mindim, std::string & why);
bool grid_like (const Geo & g);
p4est_connect_type_t conn_type (int mindim);    /* dimension of the lowest entity */

/* centre of sub-entity in doubled coordinates */
P3 ent_center (const Leaf & a, const Ent & e);

template <class T> std::vector<T> allgatherv (const std::vector<T> & loc, MPI_Comm comm, std::vector<int> * cnts = nullptr)
{
  int P; MPI_Comm_size (comm, &P);
  std::vector<int> n (P), d (P + 1, 0);
  int mine = (int) (loc.size () * sizeof (T));
  MPI_Allgather (&mine, 1, MPI_INT, n.data (), 1, MPI_INT, comm);
  for (int i = 0; i < P; ++i) d[i + 1] = d[i] + n[i];
  std::vector<T> out (d[P] / sizeof (T));
  MPI_Allgatherv ((void *) loc.data (), mine, MPI_BYTE, out.data (), n.data (), d.data (), MPI_BYTE, comm);
  if (cnts) { cnts->resize (P); for (int i = 0; i < P; ++i) (*cnts)[i] = n[i] / (int) sizeof (T); }
  return out;
}
i64 allsum (i64 v, MPI_Comm comm);
i64 allmax (i64 v, MPI_Comm comm);

/* -------------------------------------------------------------- generators */
struct ConnOpts { int max_trees = 8; bool allow_weird = true; bool want_vertices = false; bool builtin_only = false; };
/* identical on all ranks; caller destroys.  name describes it. */
p4est_connectivity_t *gen_conn (Rng & r, const ConnOpts & o, std::string & name);

struct ForestOpts
{
  size_t data_size = 0;
  int target = 300;                     /* approximate number of leaves */
  int maxl = 5;                         /* moderate level */
  double deep = 0.15;                   /* chance of very deep refinement towards points */
  bool empties = true;                  /* random partitions with empty processes */
};
p4est_t *gen_forest (Rng & r, MPI_Comm comm, p4est_connectivity_t * c, const ForestOpts & o);
void random_refine (Rng & r, p4est_t * p, const ForestOpts & o);
void random_partition (Rng & r, p4est_t * p, bool empties);
/* a random distribution of n over P, possibly with empty processes */
std::vector<i64> random_counts (Rng & r, i64 n, int P, bool empties);
void refine_pred (p4est_t * p, std::function<int (int, const p4est_quadrant_t *)> pred, bool rec, int maxlevel = -1, p4est_init_t init = nullptr);
void coarsen_pred (p4est_t * p, std::function<int (int, p4est_quadrant_t **)> pred, bool rec, p4est_init_t init = nullptr);
void partition_counts (p4est_t * p, const std::vector<i64> & n);
bool conn_oracle_ok (const Geo & g);
u64 conn_hash (p4est_connectivity_t * c);

/* data pattern for a leaf */
u64 leaf_id (int t, const p4est_quadrant_t * q, u64 salt = 0);
void fill_bytes (void *dst, size_t n, u64 id);
bool check_bytes (const void *src, size_t n, u64 id);

/* message schedule perturbation and accounting (pmpi.cpp) */
extern int vh_delay, vh_guard;                    /* 0 none; otherwise strength */
extern u64 vh_delay_seed;
extern long vh_msgs, vh_msg_bytes, vh_delays, vh_colls;
extern long vh_guarded, vh_pending_reqs, vh_live_comms;
int vh_unmatched (MPI_Comm comm);

/* registry */
typedef void (*prop_fn) (Rng & r);
struct PropReg { const char *name; prop_fn fn; };
void register_prop (const char *name, prop_fn fn);
#define REGISTER_PROP(nm, fn) namespace { struct Reg_##fn { Reg_##fn () { register_prop (nm, fn); } } reg_##fn; }

/* scratch file name unique to the run; same on all ranks */
std::string scratch (const char *leaf);

#endif

/* Model of a forest of columns: the global sequence of columns with their
 * layers and a payload per layer that records its history. */
#ifndef VH_P6MODEL_HPP
#define VH_P6MODEL_HPP
#include <p6est.h>
#include <p6est_extended.h>
#include <p6est_ghost.h>
#include <p6est_lnodes.h>
#include <cmath>

namespace p6m {
struct Lay { i64 z; int l; u64 pay; };
struct Col { Leaf q; std::vector<Lay> L; };
static inline i64 zlen (int l) { return (i64) 1 << (ML - l); }
static inline u64 leafh (const Leaf & a) { return hcomb (a.t * 64 + a.l, hcomb (a.x[0], a.x[1])); }
static inline u64 pay_get (const p6est_t * p, const p2est_quadrant_t * q)
{
  if (!p->data_size) return (u64) q->p.user_long;
  u64 v; memcpy (&v, q->p.user_data, 8);
  return v;
}
static inline bool pay_ok (const p6est_t * p, const p2est_quadrant_t * q)
{
  if (p->data_size <= 8) return true;
  return check_bytes ((char *) q->p.user_data + 8, p->data_size - 8, pay_get (p, q));
}
static inline void pay_set (p6est_t * p, p2est_quadrant_t * q, u64 v)
{
  if (!p->data_size) { q->p.user_long = (long) v; return; }
  memcpy (q->p.user_data, &v, 8);
  if (p->data_size > 8) fill_bytes ((char *) q->p.user_data + 8, p->data_size - 8, v);
}
static char upool[2];

struct St;
struct Cb
{
  void *user = NULL; u64 salt = 0;
  bool init_on = false, rep_on = false, deepmode = false, past = false, none = false;
  int den = 1, maxl = 4, wkind = 0, pt = 0; i64 px[3] = { 0, 0, 0 }, zpoint = 0;
  long ninit = 0, nrep = 0, xinit = 0, xrep = 0, nweight = 0, nask = 0;
  static Cb & I () { static Cb c; return c; }
  void begin (St & s, bool init, bool rep, u64 sa);
  void pickpoint (St & s, Rng & r);
  u64 ipay (const Leaf & q, i64 z, int l) const { return hcomb (hcomb (leafh (q), salt), hcomb (z, l)); }
  bool colpred (const Leaf & q) const
  {
    if (q.l >= maxl) return false;
    if (deepmode) return q.t == pt && q.x[0] <= px[0] && px[0] < q.x[0] + q.len () && q.x[1] <= px[1] && px[1] < q.x[1] + q.len ();
    return hcomb (leafh (q), salt) % den == 0;
  }
  bool laypred (const Leaf & q, i64 z, int l) const
  {
    if (deepmode) {
      if (hcomb (leafh (q), salt) % 3) return false;
      return (l < maxl || past) && z <= zpoint && zpoint < z + zlen (l);
    }
    return l < maxl && hcomb (hcomb (leafh (q), salt), hcomb (z, l)) % den == 0;
  }
  bool mergepred (const Leaf & par) const { return hcomb (leafh (par), salt + 1) % den == 0; }
  bool zmerge (const Leaf & q, i64 z, int l) const { return !none && hcomb (hcomb (leafh (q), salt + 2), hcomb (z, l)) % den == 0; }
  int weight (const Leaf & q, i64 z, int l) const
  {
    u64 h = hcomb (hcomb (leafh (q), salt), hcomb (z, l));
    switch (wkind) { case 0: return 1; case 1: return h % 5; case 2: return h % 40 == 0 ? 1000 : 0; case 3: return l * l; default: return 0; }
  }
};

struct St
{
  Geo geo; p6est_connectivity_t *conn = NULL; p6est_t *p = NULL;
  std::vector<Col> M, S;                /* model; last snapshot */
  bool grid = false, nopay = false, selfc = false;
  int user = 0, balanced = 3;           /* lowest entity dimension over which it is balanced */
  char *ptr = upool;
  St () { }
  explicit St (const Geo & g) : geo (g) { }
  void *up () const { return ptr + user; }
  long ncols () const { return (long) M.size (); }
  long nlayers () const { long n = 0; for (auto & a : M) n += (long) a.L.size (); return n; }
  void snap (const char *what);
  void verify (const char *what);
};

inline void Cb::begin (St & s, bool init, bool rep, u64 sa)
{
  user = s.up (); init_on = init; rep_on = rep; salt = sa;
  deepmode = past = none = false; den = 1; maxl = 4; nweight = nask = 0;
  ninit = nrep = xinit = xrep = 0;
  s.balanced = 3;
}
inline void Cb::pickpoint (St & s, Rng & r)
{
  pt = r.below (s.geo.nt);
  for (int d = 0; d < 2; ++d) px[d] = r.chance (0.6) ? (r.chance (0.5) ? 0 : RL - 1) : (i64) (r.next () % (u64) RL);
}

/* ---------------------------------------------------- callbacks */
static inline void cb_enter (p6est_t * p, const char *what)
{
  CHK (p->user_pointer == Cb::I ().user, "user-pointer", "%s called with user pointer %p, expected %p", what, p->user_pointer, Cb::I ().user);
}
static inline void column_ok (p6est_t * p, p4est_quadrant_t * c, const char *what)
{
  size_t f, l;
  P6EST_COLUMN_GET_RANGE (c, &f, &l);
  bool ok = f < l && l <= p->layers->elem_count;
  if (ok) { p2est_quadrant_t *a = p2est_quadrant_array_index (p->layers, f), *b = p2est_quadrant_array_index (p->layers, l - 1); ok = a->z == 0 && b->z + P4EST_QUADRANT_LEN (b->level) == p->root_len; }
  CHK (ok, "callback-column", "%s is given a column with layers %zu to %zu of %zu", what, f, l, p->layers->elem_count);
}
static void init_cb (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l)
{
  Cb & I = Cb::I ();
  cb_enter (p, "init");
  ++I.ninit;
  pay_set (p, l, I.ipay (mkleaf (t, c), l->z, l->level));
}
static void replace_cb (p6est_t * p, p4est_topidx_t t, int noc, int nol, p4est_quadrant_t * oc[], p2est_quadrant_t * ol[], int nic, int nil, p4est_quadrant_t * ic[], p2est_quadrant_t * il[])
{
  Cb & I = Cb::I ();
  cb_enter (p, "replace");
  ++I.nrep;
  bool ok = true;
  if (noc == 1 && nol == 1 && nic == 4 && nil == 4) {
    Leaf a = mkleaf (t, oc[0]);
    for (int i = 0; i < 4; ++i) ok = ok && mkleaf (t, ic[i]).same (leaf_child (a, i)) && il[i]->z == ol[0]->z && il[i]->level == ol[0]->level;
  } else if (noc == 1 && nol == 1 && nic == 1 && nil == 2) {
    ok = mkleaf (t, oc[0]).same (mkleaf (t, ic[0]));
    for (int i = 0; i < 2; ++i) ok = ok && il[i]->level == ol[0]->level + 1 && il[i]->z == ol[0]->z + i * zlen (il[i]->level);
  } else if (noc == 1 && nol == 2 && nic == 1 && nil == 1) {
    ok = mkleaf (t, oc[0]).same (mkleaf (t, ic[0]));
    for (int i = 0; i < 2; ++i) ok = ok && ol[i]->level == il[0]->level + 1 && ol[i]->z == il[0]->z + i * zlen (ol[i]->level);
  } else if (noc == 4 && nol == 4 && nic == 1 && nil == 1) {
    Leaf a = mkleaf (t, ic[0]);
    for (int i = 0; i < 4; ++i) ok = ok && mkleaf (t, oc[i]).same (leaf_child (a, i)) && ol[i]->z == il[0]->z && ol[i]->level == il[0]->level;
  } else ok = false;
  CHK (ok, "replace-shape", "replacement of %d layers in %d columns by %d layers in %d columns", nol, noc, nil, nic);
  u64 h[4];
  for (int i = 0; i < nol && i < 4; ++i) { h[i] = pay_get (p, ol[i]); CHK (pay_ok (p, ol[i]), "replace-data", "outgoing layer does not carry its data"); }
  for (int i = 0; i < nil && i < 4; ++i) {
    u64 e = I.ipay (mkleaf (t, ic[nic == 1 ? 0 : i]), il[i]->z, il[i]->level), v = e;
    if (I.init_on) CHK (pay_get (p, il[i]) == e, "replace-before-init", "incoming layer not initialized");
    for (int j = 0; j < nol && j < 4; ++j) v = hcomb (v, h[j]);
    pay_set (p, il[i], v);
  }
}
static int refcol_cb (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c)
{
  cb_enter (p, "refine columns"); column_ok (p, c, "refine columns"); ++Cb::I ().nask;
  return Cb::I ().colpred (mkleaf (t, c));
}
static int reflay_cb (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l)
{
  cb_enter (p, "refine layers"); ++Cb::I ().nask;
  CHK (pay_ok (p, l), "callback-data", "layer to refine does not carry its data");
  return Cb::I ().laypred (mkleaf (t, c), l->z, l->level);
}
static int coacol_cb (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c[])
{
  cb_enter (p, "coarsen columns"); ++Cb::I ().nask;
  column_ok (p, c[0], "coarsen columns");
  if (c[1] == NULL) { count ("orphan_columns_shown"); return 0; }
  Leaf par = leaf_parent (mkleaf (t, c[0]));
  for (int i = 0; i < 4; ++i) { column_ok (p, c[i], "coarsen columns"); CHK (mkleaf (t, c[i]).same (leaf_child (par, i)), "coarsen-family", "columns offered are no family"); }
  return Cb::I ().mergepred (par);
}
static int coalay_cb (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l[])
{
  cb_enter (p, "coarsen layers"); ++Cb::I ().nask;
  CHK (pay_ok (p, l[0]), "callback-data", "layer to coarsen does not carry its data");
  if (l[1] == NULL) { count ("orphan_layers_shown"); return 0; }
  CHK (pay_ok (p, l[1]), "callback-data", "layer to coarsen does not carry its data");
  CHK (l[0]->level == l[1]->level && l[0]->level > 0 && !(l[0]->z & P4EST_QUADRANT_LEN (l[0]->level)) && l[1]->z == l[0]->z + P4EST_QUADRANT_LEN (l[0]->level), "coarsen-family", "layers offered are no siblings");
  return Cb::I ().zmerge (mkleaf (t, c), l[0]->z, l[0]->level - 1);
}
static int weight_cb (p6est_t * p, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l)
{
  cb_enter (p, "weight"); ++Cb::I ().nweight;
  CHK (pay_ok (p, l), "callback-data", "layer to be weighed does not carry its data");
  return Cb::I ().weight (mkleaf (t, c), l->z, l->level);
}

/* ---------------------------------------------------- model */
static Lay made (const Leaf & q, i64 z, int l, const std::vector<u64> & outs)
{
  Cb & I = Cb::I ();
  Lay n = { z, l, I.ipay (q, z, l) };
  if (I.rep_on) for (u64 o : outs) n.pay = hcomb (n.pay, o);
  ++I.xinit;
  return n;
}
static std::vector<Col> split (const Col & a)
{
  std::vector<Col> o (4);
  for (int i = 0; i < 4; ++i) {
    o[i].q = leaf_child (a.q, i); o[i].q.rank = a.q.rank;
    for (auto & l : a.L) o[i].L.push_back (made (o[i].q, l.z, l.l, { l.pay }));
  }
  Cb::I ().xrep += (long) a.L.size ();
  return o;
}
static void halve (const Leaf & q, const Lay & l, Lay * h)
{
  for (int i = 0; i < 2; ++i) h[i] = made (q, l.z + i * zlen (l.l + 1), l.l + 1, { l.pay });
  ++Cb::I ().xrep;
}
static Lay unite (const Leaf & q, const Lay & a, const Lay & b) { ++Cb::I ().xrep; return made (q, a.z, a.l - 1, { a.pay, b.pay }); }

inline void St::snap (const char *what)
{
  struct CR { int t, l, n; i64 x, y; };
  std::vector<CR> cr; std::vector<Lay> lr;
  size_t off = 0, nl = p->layers->elem_count;
  bool ok = true;
  for (p4est_topidx_t t = p->columns->first_local_tree; t >= 0 && t <= p->columns->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->columns->trees, t);
    for (size_t i = 0; i < tr->quadrants.elem_count && ok; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, i);
      size_t f, e; P6EST_COLUMN_GET_RANGE (q, &f, &e);
      if (f != off || e <= f || e > nl) { FAILK ("layout", "%s: column %s has layers %zu to %zu, expected to begin at %zu of %zu", what, leaf_str (mkleaf (t, q)).c_str (), f, e, off, nl); ok = false; break; }
      i64 z = 0;
      CR c = { (int) t, q->level, (int) (e - f), q->x, q->y };
      cr.push_back (c);
      for (size_t k = f; k < e; ++k) {
        p2est_quadrant_t *y = p2est_quadrant_array_index (p->layers, k);
        CHK (y->z == z && y->level >= 0 && y->level <= QML && !(y->z & (P4EST_QUADRANT_LEN (y->level) - 1)), "layers", "%s: layer %zu of column %s at %d level %d, expected to begin at %lld", what, k - f, leaf_str (mkleaf (t, q)).c_str (), y->z, y->level, (long long) z);
        z = y->z + (i64) P4EST_QUADRANT_LEN (y->level);
        u64 pay = nopay ? 0 : pay_get (p, y);
        if (!nopay) CHK (pay_ok (p, y), "data", "%s: damaged data in layer %zu of column %s", what, k - f, leaf_str (mkleaf (t, q)).c_str ());
        lr.push_back ({ y->z, y->level, pay });
      }
      CHK (z == p->root_len, "layers", "%s: column %s ends at %lld of %lld", what, leaf_str (mkleaf (t, q)).c_str (), (long long) z, (long long) p->root_len);
      off = e;
    }
  }
  CHK (!ok || off == nl, "layout", "%s: %zu layers, %zu belong to columns", what, nl, off);
  if (p->data_size) CHK (p->user_data_pool && p->user_data_pool->elem_count == nl, "data-pool", "%s: %zu data elements for %zu layers", what, p->user_data_pool ? p->user_data_pool->elem_count : 0, nl);
  else CHK (p->user_data_pool == NULL, "data-pool", "%s: pool without data", what);
  CHK (p->user_pointer == up (), "user-pointer", "%s: user pointer %p, expected %p", what, p->user_pointer, up ());
  CHK (p->layer_pool->elem_count == 0, "layer-pool", "%s: %zu layers left in the pool", what, p->layer_pool->elem_count);
  int me, P; MPI_Comm_rank (p->mpicomm, &me); MPI_Comm_size (p->mpicomm, &P);
  CHK (p->mpirank == me && p->mpisize == P, "communicator", "%s: rank %d of %d", what, p->mpirank, p->mpisize);
  std::vector<i64> n = allgatherv (std::vector<i64> (1, (i64) nl), p->mpicomm);
  i64 sum = 0;
  for (int i = 0; i < P; ++i) { CHK (p->global_first_layer[i] == sum, "offsets", "%s: first layer of rank %d is %lld, expected %lld", what, i, (long long) p->global_first_layer[i], (long long) sum); sum += n[i]; }
  CHK (p->global_first_layer[P] == sum, "offsets", "%s: %lld layers in total, expected %lld", what, (long long) p->global_first_layer[P], (long long) sum);
  CHK (p4est_is_valid (p->columns), "columns-invalid", "%s: columns are not a valid forest", what);
  std::vector<int> cn;
  std::vector<CR> C = allgatherv (cr, p->mpicomm, &cn);
  std::vector<Lay> A = allgatherv (lr, p->mpicomm);
  S.clear (); S.resize (C.size ());
  size_t at = 0, ci = 0;
  for (int rk = 0; rk < P; ++rk) for (int k = 0; k < cn[rk]; ++k, ++ci) {
    Leaf & q = S[ci].q; memset (&q, 0, sizeof q);
    q.t = C[ci].t; q.l = C[ci].l; q.x[0] = C[ci].x; q.x[1] = C[ci].y; q.rank = rk; q.gi = ci;
    for (int j = 0; j < C[ci].n && at < A.size (); ++j) S[ci].L.push_back (A[at++]);
  }
  std::vector<Leaf> L; for (auto & a : S) L.push_back (a.q);
  std::string why;
  CHK (complete_sorted (L, geo.nt, why), "columns-incomplete", "%s: %s", what, why.c_str ());
}
inline void St::verify (const char *what)
{
  Cb & I = Cb::I ();
  snap (what);
  bool bad = false;
  if (S.size () != M.size ()) { FAILK ("columns", "%s: %zu columns, expected %zu", what, S.size (), M.size ()); bad = true; }
  for (size_t i = 0; i < S.size () && !bad; ++i) {
    const Col & a = S[i], & b = M[i];
    if (!a.q.same (b.q)) { FAILK ("columns", "%s: column %zu is %s, expected %s", what, i, leaf_str (a.q).c_str (), leaf_str (b.q).c_str ()); bad = true; break; }
    if (a.q.rank != b.q.rank) { FAILK ("owner", "%s: column %s on rank %d, expected %d", what, leaf_str (a.q).c_str (), a.q.rank, b.q.rank); bad = true; break; }
    if (a.L.size () != b.L.size ()) { FAILK ("layers", "%s: column %s has %zu layers, expected %zu", what, leaf_str (a.q).c_str (), a.L.size (), b.L.size ()); bad = true; break; }
    for (size_t k = 0; k < a.L.size (); ++k) {
      if (a.L[k].z != b.L[k].z || a.L[k].l != b.L[k].l) { FAILK ("layers", "%s: layer %zu of column %s at %lld level %d, expected %lld level %d", what, k, leaf_str (a.q).c_str (), (long long) a.L[k].z, a.L[k].l, (long long) b.L[k].z, b.L[k].l); bad = true; break; }
      if (!nopay && a.L[k].pay != b.L[k].pay) { FAILK ("data", "%s: layer %zu of column %s (level %d) carries foreign data", what, k, leaf_str (a.q).c_str (), a.L[k].l); bad = true; break; }
    }
  }
  i64 ni = allsum (I.ninit, p->mpicomm), nr = allsum (I.nrep, p->mpicomm), xi = I.init_on ? I.xinit : 0, xr = I.rep_on ? I.xrep : 0;
  CHK (ni == xi, "init-calls", "%s: %lld layers initialized, %lld created", what, (long long) ni, (long long) xi);
  CHK (nr == xr, "replace-calls", "%s: %lld replacements shown, %lld made", what, (long long) nr, (long long) xr);
  I.ninit = I.nrep = I.xinit = I.xrep = 0; I.init_on = I.rep_on = false;
  if (bad || nopay) for (size_t i = 0; i < S.size (); ++i) if (bad || i < M.size ()) { if (i >= M.size ()) M.push_back (S[i]); if (bad) M[i] = S[i]; }
  if (bad) M = S;
  gcount ("states_verified"); gcount ("layers_verified", nlayers ());
  u64 h = 7; for (auto & a : S) { h = hcomb (h, leafh (a.q)); for (auto & l : a.L) h = hcomb (h, hcomb (l.z, l.l)); }
  distinct_state (h);
  ++run.judged;
}

/* the two-dimensional nodes at corners and face centres that columns refer to */
struct NodeMap
{
  const Geo *geo = NULL; const GForest *g = NULL;
  std::vector<char> hang;
  void init (const Geo & ge, const GForest & f)
  {
    geo = &ge; g = &f; hang.assign (f.q.size () * 4, 0);
    std::vector<TP> orb; std::vector<int> in;
    for (size_t i = 0; i < f.q.size (); ++i) for (int k = 0; k < 4; ++k) {
      P3 c = ent_center (f.q[i], entities ()[ent_face0 + k]);
      geo->orbit (f.q[i].t, c, orb);
      for (auto & o : orb) { f.containing (o.t, o.x, in); for (int j : in) if (f.q[j].l < f.q[i].l) hang[4 * i + k] = 1; }
    }
  }
  TP node (size_t i, int jx, int jy, int) const
  {
    const Leaf & a = g->q[i];
    int j[2] = { jx, jy };
    P3 x = { 0, 0, 0 };
    for (int d = 0; d < 2; ++d) x[d] = 2 * a.x[d] + j[d] * a.len ();
    for (int d = 0; d < 2; ++d) if (j[d] != 1 && hang[4 * i + 2 * d + (j[d] == 2)]) {
      Leaf p = leaf_parent (a); int e = 1 - d;
      x[e] = 2 * p.x[e] + j[e] * p.len ();
    }
    return geo->canon (a.t, x);
  }
};

void random_op (St & s, Rng & r, int kinds);
void apply_balance (St & s, Rng & r);

static St create (Rng & r, p4est_connectivity_t *& c4, bool full)
{
  std::string name;
  ConnOpts co; co.max_trees = r.range (1, 6); co.want_vertices = r.chance (0.5);
  c4 = gen_conn (r, co, name);
  St s; s.geo.init (c4);
  if (!conn_oracle_ok (s.geo)) { p4est_connectivity_destroy (c4); c4 = NULL; count ("connectivities_skipped"); return s; }
  s.grid = grid_like (s.geo);
  std::vector<double> top; double height[3] = { r.unit (), r.unit (), 1 + r.unit () };
  bool ht = c4->num_vertices > 0 && r.chance (0.5);
  if (ht) for (int i = 0; i < 3 * c4->num_vertices; ++i) top.push_back (r.unit () * 4 - 1);
  size_t ds = r.pick ({ 0, 8, 16, 40 });
  int nz = r.pick ({ 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7 }), minz = r.range (-1, 3), mode = r.below (4), lz = 0;
  while ((1 << lz) < nz) ++lz;
  bool init = r.chance (0.8);
  u64 salt = r.next ();
  Cb & I = Cb::I ();
  I.begin (s, init, false, salt);
  p4est_t *q = NULL;
  if (mode == 0) {
    s.conn = p6est_connectivity_new (c4, ht ? top.data () : NULL, height);
    nz = 1; minz = 0; lz = 0;
    s.p = p6est_new (MPI_COMM_WORLD, s.conn, ds, init ? init_cb : NULL, s.up ());
    q = p4est_new (MPI_COMM_WORLD, c4, 0, NULL, NULL);
  } else if (mode <= 2) {
    s.conn = p6est_connectivity_new (c4, ht ? top.data () : NULL, height);
    int minq = r.chance (0.5) ? 0 : r.range (1, 40), minl = r.range (-1, 2), fill = r.chance (0.6), mz = std::max (minz, lz);
    s.p = p6est_new_ext (MPI_COMM_WORLD, s.conn, minq, minl, minz, nz, fill, ds, init ? init_cb : NULL, s.up ());
    q = p4est_new_ext (MPI_COMM_WORLD, c4, minq / (nz << (mz - lz)), minl, fill, 0, NULL, NULL);
  } else {
    nz = 1; lz = 0;
    ForestOpts fo; fo.target = r.range (1, 60); fo.maxl = 4; fo.deep = 0.1; fo.data_size = r.pick ({ 0, 12 });
    q = gen_forest (r, MPI_COMM_WORLD, c4, fo);
    s.p = p6est_new_from_p4est (q, ht ? top.data () : NULL, height, minz, ds, init ? init_cb : NULL, s.up ());
    s.conn = s.p->connectivity;
  }
  minz = std::max (minz, lz);
  describe ("%s mode %d data %zu roots %d levels %d", name.c_str (), mode, ds, nz, minz);
  CHK (s.p->root_len == (i64) nz * zlen (lz), "height", "height %d for %d root layers", s.p->root_len, nz);
  CHK (s.p->connectivity == s.conn && s.p->data_size == ds, "members", "connectivity or data size");
  GForest g = gather (q);
  for (auto & a : g.q) {
    Col c; c.q = a;
    for (int k = 0; k < nz << (minz - lz); ++k) c.L.push_back (made (a, k * zlen (minz), minz, { }));
    s.M.push_back (c);
  }
  p4est_destroy (q);
  s.nopay = !init;
  s.verify ("new");
  s.nopay = false;
  if (!init) {
    I.begin (s, true, false, salt);
    p6est_reset_data (s.p, ds, init_cb, s.up ());
    for (auto & c : s.M) for (auto & l : c.L) { l.pay = I.ipay (c.q, l.z, l.l); ++I.xinit; }
    s.verify ("reset data");
  }
  gcount (mode == 3 ? "from_forests" : "created");
  (void) full;
  return s;
}
static void destroy (St & s, p4est_connectivity_t * c4)
{
  if (s.p) p6est_destroy (s.p);
  p6est_connectivity_destroy (s.conn);
  p4est_connectivity_destroy (c4);
}
}
#endif

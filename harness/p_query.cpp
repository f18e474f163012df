/* C13: ownership queries against the global leaf distribution. */
#include "core.hpp"
#ifdef P4_TO_P8
#include <p8est_bits.h>
#include <p8est_search.h>
#include <p8est_communication.h>
#include <p8est_ghost.h>
#else
#include <p4est_bits.h>
#include <p4est_search.h>
#include <p4est_communication.h>
#include <p4est_ghost.h>
#endif
#include <algorithm>

namespace {

/* a quadrant of any level: often related to existing leaves */
static p4est_quadrant_t rand_quad (Rng & r, const GForest & f, int * tree)
{
  p4est_quadrant_t q; Leaf a;
  P4EST_QUADRANT_INIT (&q);
  if (r.chance (0.75)) {
    size_t i = r.below (f.q.size ());
    if (r.chance (0.4)) { i64 k = f.rfirst[r.below (f.rfirst.size ())]; if (k > 0 && r.chance (0.5)) --k; if (k < (i64) f.q.size ()) i = (size_t) k; }
    a = f.q[i];
    int m = r.below (5);
    if (m == 0) { int l = r.range (0, a.l); while (a.l > l) a = leaf_parent (a); }
    else if (m == 1) { int n = r.range (1, 4); int c = r.chance (0.6) ? (r.chance (0.5) ? 0 : NC - 1) : -1; while (n-- && a.l < QML) a = leaf_child (a, c >= 0 ? c : (int) r.below (NC)); }
    else if (m == 2) { int c = r.chance (0.5) ? 0 : NC - 1; while (a.l < QML) a = leaf_child (a, c); }
  }
  else {
    a.t = r.below (f.nt); a.l = 0; a.x[0] = a.x[1] = a.x[2] = 0;
    int l = r.chance (0.3) ? QML : r.range (0, 6);
    while (a.l < l) a = leaf_child (a, r.below (NC));
  }
  *tree = a.t;
  leaf_to_quad (a, &q);
  return q;
}

struct Q { int t; u128 k0, k1; };       /* unit cells [k0, k1) */
static Q span (int t, const p4est_quadrant_t * q) { Leaf a = mkleaf (t, q); return { t, a.key (), a.key () + leaf_span (a.l) }; }

static void owners (Rng & r, p4est_t * p, const GForest & f)
{
  int P = p->mpisize;
  for (int n = 0; n < 60; ++n) {
    int t; p4est_quadrant_t q = rand_quad (r, f, &t);
    Q s = span (t, &q);
    i64 a = f.find_key (t, s.k0), b = f.find_key (t, s.k1 - 1);
    if (a < 0 || b < 0) { FAILK ("model", "position not covered"); continue; }
    int ra = f.q[a].rank, rb = f.q[b].rank;
    int guess = r.below (P);
    int o = p4est_comm_find_owner (p, t, &q, guess);
    CHK (o == ra, "find-owner", "%s: owner %d, expected %d (guess %d)", leaf_str (mkleaf (t, &q)).c_str (), o, ra, guess);
    for (int k = 0; k < P; ++k) {
      int io = !!p4est_comm_is_owner (p, t, &q, k), ig = !!p4est_comm_is_owner_gfp (p->global_first_position, P, f.nt, t, &q, k);
      CHK (io == (k == ra) && ig == io, "is-owner", "%s rank %d: is_owner %d/%d, owner is %d", leaf_str (mkleaf (t, &q)).c_str (), k, io, ig, ra);
      int ic = !!p4est_comm_is_contained (p, t, &q, k);
      CHK (ic == (ra == k && rb == k), "is-contained", "%s rank %d: is_contained %d, owners of both ends %d %d", leaf_str (mkleaf (t, &q)).c_str (), k, ic, ra, rb);
    }
    count ("positions_checked");
    if (ra != rb) count ("positions_across_processes");
  }
  for (int k = 0; k < P; ++k) {
    bool e = f.rfirst[k] == f.rfirst[k + 1];
    CHK (!!p4est_comm_is_empty (p, k) == e, "is-empty", "is_empty(%d)", k);
    CHK (!!p4est_comm_is_empty_gfq (p->global_first_quadrant, P, k) == e, "is-empty", "is_empty_gfq(%d)", k);
    CHK (!!p4est_comm_is_empty_gfp (p->global_first_position, P, k) == e, "is-empty", "is_empty_gfp(%d)", k);
    if (e) gcount ("empty_processes");
  }
  /* cumulative tree counts (collective) */
  std::vector<p4est_gloidx_t> pt (f.nt + 1, -7);
  p4est_comm_count_pertree (p, pt.data ());
  for (int t = 0; t <= f.nt; ++t) CHK (pt[t] == f.tfirst[t], "count-pertree", "tree %d starts at %lld, expected %lld", t, (long long) pt[t], (long long) f.tfirst[t]);
  count ("pertree_entries", f.nt + 1);
}

static void outside_owners (Rng & r, p4est_t * p, const Geo & g, const GForest & f)
{
  for (int n = 0; n < 40; ++n) {
    int t; p4est_quadrant_t q = rand_quad (r, f, &t);
    /* move the quadrant to a tree face with some chance and step outside */
    int fc = r.below (NF);
    p4est_quadrant_t s = q;
    p4est_qcoord_t h = P4EST_QUADRANT_LEN (q.level);
    p4est_qcoord_t *cx[3] = { &s.x, &s.y,
#ifdef P4_TO_P8
      &s.z
#else
      NULL
#endif
    };
    bool out = r.chance (0.8);
    if (out) {
      if (r.chance (0.5)) {             /* near another face: the remaining coordinates vary */
        for (int i = 0; i < DIM; ++i) if (i != fc / 2 && r.chance (0.3)) *cx[i] = r.chance (0.5) ? 0 : P4EST_ROOT_LEN - h;
      }
      *cx[fc / 2] = (fc & 1) ? P4EST_ROOT_LEN : -h;
    }
    P3 c = { 0, 0, 0 };
    for (int i = 0; i < DIM; ++i) c[i] = 2 * (i64) *cx[i] + h;       /* centre */
    int tt = t;
    bool bnd = false;
    if (out) {
      if (g.on_boundary_face (t, fc)) bnd = true;
      else { c = g.fx[t * NF + fc].map (c); tt = g.c->tree_to_tree[t * NF + fc]; }
    }
    int want = -1;
    if (!bnd) {
      Leaf a; a.t = tt; a.l = s.level;
      for (int i = 0; i < 3; ++i) a.x[i] = i < DIM ? (c[i] - h) / 2 : 0;
      i64 k = f.find_key (tt, a.key ());
      if (k < 0) { FAILK ("model", "outside position not covered"); continue; }
      want = f.q[k].rank;
    }
    int face = out && r.chance (0.5) ? fc : -1;
    int o = p4est_quadrant_find_owner (p, t, face, &s);
    CHK (o == want, "quadrant-find-owner", "tree %d level %d face %d%s: owner %d, expected %d", t, (int) s.level, fc, face < 0 ? " (not told)" : "", o, want);
    count ("cross_tree_positions");
    if (bnd) count ("outside_domain");
  }
}

static void neighborhood (Rng & r, p4est_t * p, const Geo & g, const GForest & f)
{
  int me = p->mpirank;
  for (int t = p->first_local_tree; t <= p->last_local_tree && t >= 0; ++t) {
    int full[2] = { -5, -5 }, contact[NF];
    const p4est_quadrant_t *fp, *np;
    p4est_comm_tree_info (p, t, full, contact, &fp, &np);
    i64 a = f.tfirst[t], b = f.tfirst[t + 1];
    CHK (!!full[0] == (f.q[a].rank == me) && !!full[1] == (f.q[b - 1].rank == me), "tree-info", "tree %d: full %d %d, first leaf on %d, last leaf on %d", t, full[0], full[1], f.q[a].rank, f.q[b - 1].rank);
    for (int k = 0; k < NF; ++k) CHK (!!contact[k] == !g.on_boundary_face (t, k), "tree-info", "tree %d face %d contact %d", t, k, contact[k]);
    CHK (fp == p->global_first_position + me && np == fp + 1, "tree-info", "positions returned are not those of the process");
    for (int n = 0; n < 12; ++n) {
      i64 i = a + (i64) r.below (b - a);
      if (f.q[i].rank != me) continue;
      p4est_quadrant_t q; leaf_to_quad (f.q[i], &q);
      count ("neighborhood_calls");
      if (!p4est_comm_neighborhood_owned (p, t, full, contact, &q)) continue;
      count ("neighborhoods_owned");
      const Leaf & lf = f.q[i];
      for (int m = 0; m < 20; ++m) {
        P3 x = { 0, 0, 0 };
        if (m < (int) entities ().size () && m < 26 && r.chance (0.7)) x = ent_center (lf, entities ()[m]);
        else { for (int d = 0; d < DIM; ++d) { i64 o = r.chance (0.4) ? (r.chance (0.5) ? 0 : 2 * lf.len ()) : (i64) r.below (2 * lf.len () + 1); x[d] = 2 * lf.x[d] + o; } }
        std::vector<TP> o; std::vector<int> c;
        g.orbit (t, x, o);
        for (auto & y : o) { c.clear (); f.containing (y.t, y.x, c); for (int j : c) CHK (f.q[j].rank == me, "neighborhood-owned", "%s is said to have only local neighbours but touches %s", leaf_str (lf).c_str (), leaf_str (f.q[j]).c_str ()); }
      }
    }
  }
}

static void arrays (Rng & r, p4est_t * p, const GForest & f)
{
  int me = p->mpirank;
  /* bounds in the leaf array of a local tree */
  for (int t = p->first_local_tree; t <= p->last_local_tree && t >= 0; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    size_t n = tr->quadrants.elem_count;
    std::vector<Leaf> L;
    for (size_t i = 0; i < n; ++i) L.push_back (mkleaf (t, p4est_quadrant_array_index (&tr->quadrants, i)));
    for (int k = 0; k < 25; ++k) {
      int qt; p4est_quadrant_t q = rand_quad (r, f, &qt);
      Leaf a = mkleaf (t, &q); a.t = t;
      ssize_t lo = -1, hi = -1;
      for (size_t i = 0; i < n; ++i) { if (lo < 0 && !leaf_less (L[i], a)) lo = (ssize_t) i; if (!leaf_less (a, L[i])) hi = (ssize_t) i; }
      size_t guess = r.below (n);
      ssize_t gl = p4est_find_lower_bound (&tr->quadrants, &q, guess), gh = p4est_find_higher_bound (&tr->quadrants, &q, guess);
      CHK (gl == lo, "lower-bound", "%zu leaves guess %zu: %ld, expected %ld", n, guess, (long) gl, (long) lo);
      CHK (gh == hi, "higher-bound", "%zu leaves guess %zu: %ld, expected %ld", n, guess, (long) gh, (long) hi);
      count ("bounds_checked");
    }
    /* splitting by the children of a common ancestor */
    for (int k = 0; k < 6; ++k) {
      Leaf anc = L[r.below (n)];
      if (anc.l == 0) break;
      int lev = r.range (0, anc.l - 1);
      while (anc.l > lev) anc = leaf_parent (anc);
      size_t a = n, b = 0;
      u128 k0 = anc.key (), k1 = k0 + leaf_span (lev);
      for (size_t i = 0; i < n; ++i) { u128 z = L[i].key (); if (z >= k0 && z < k1 && L[i].l > lev) { a = std::min (a, i); b = i + 1; } }
      if (a >= b) continue;
      if (r.chance (0.4)) { size_t m = a + r.below (b - a + 1); if (r.chance (0.5)) b = m; else a = m; }
      sc_array_t v;
      if (a < b) sc_array_init_view (&v, &tr->quadrants, a, b - a); else sc_array_init (&v, sizeof (p4est_quadrant_t));
      std::vector<size_t> ix (NC + 1, 777777);
      p4est_split_array (&v, lev, ix.data ());
      size_t w = 0;
      for (int c = 0; c <= NC; ++c) {
        CHK (ix[c] == w, "split-array", "level %d: child %d starts at %zu, expected %zu", lev, c, ix[c], w);
        if (c < NC) { u128 e = k0 + leaf_span (lev + 1) * (u128) (c + 1); while (w < b - a && L[a + w].key () < e) ++w; }
      }
      sc_array_reset (&v);
      count ("splits_checked");
    }
  }
  /* leaves by their local number */
  i64 nl = f.rfirst[me + 1] - f.rfirst[me];
  if (nl > 0) for (int k = 0; k < 30; ++k) {
    p4est_locidx_t id = (p4est_locidx_t) (r.chance (0.2) ? (r.chance (0.5) ? 0 : nl - 1) : (i64) r.below (nl));
    const Leaf & a = f.q[f.rfirst[me] + id];
    p4est_topidx_t wt = r.chance (0.4) ? -1 : p->first_local_tree + (int) r.below (p->last_local_tree - p->first_local_tree + 1);
    p4est_locidx_t qi = -1;
    p4est_quadrant_t *q = p4est_find_quadrant_cumulative (p, id, r.chance (0.9) ? &wt : NULL, &qi);
    CHK (q && mkleaf (a.t, q).same (a), "find-cumulative", "leaf %d is %s, expected %s", (int) id, q ? leaf_str (mkleaf (a.t, q)).c_str () : "none", leaf_str (a).c_str ());
    i64 first = std::max (f.tfirst[a.t], f.rfirst[me]);
    CHK (qi == f.rfirst[me] + id - first, "find-cumulative", "leaf %d has number %d in its tree, expected %lld", (int) id, (int) qi, (long long) (f.rfirst[me] + id - first));
    wt = -1;
    p4est_find_quadrant_cumulative (p, id, &wt, NULL);
    CHK (wt == a.t, "find-cumulative", "leaf %d in tree %d, expected %d", (int) id, (int) wt, a.t);
    count ("cumulative_checked");
  }
}

/* boundary of an ancestor touched by a range of the curve */
struct Touched { u64 bits; };
static void range_cover (const Leaf & anc, const Leaf & a, u128 lo, u128 hi, bool * hit)
{
  u128 k0 = a.key (), k1 = k0 + leaf_span (a.l);
  if (k1 <= lo || k0 > hi) return;
  auto & es = entities ();
  bool any = false;
  std::vector<int> rel;
  for (size_t e = 0; e < es.size (); ++e) {
    if (hit[e]) continue;
    bool in = true;
    for (int d = 0; d < DIM; ++d) {
      if (es[e].d[d] < 0 && a.x[d] != anc.x[d]) in = false;
      if (es[e].d[d] > 0 && a.x[d] + a.len () != anc.x[d] + anc.len ()) in = false;
    }
    if (in) { any = true; rel.push_back ((int) e); }
  }
  if (!any) return;
  if (k0 >= lo && k1 - 1 <= hi) { for (int e : rel) hit[e] = true; return; }
  for (int c = 0; c < NC; ++c) range_cover (anc, leaf_child (a, c), lo, hi, hit);
}

static void ranges (Rng & r, p4est_t * p, const GForest & f)
{
  (void) p;
  auto & es = entities ();
  for (int n = 0; n < 12; ++n) {
    int t; p4est_quadrant_t q = rand_quad (r, f, &t);
    if (q.level >= QML) continue;
    Leaf anc = mkleaf (t, &q);
    if (r.chance (0.4)) while (anc.l > 0) anc = leaf_parent (anc);
    Leaf a = anc, b = anc;
    for (Leaf * z : { &a, &b }) {
      int m = r.below (3);
      if (m == 0) { int c = r.below (NC); while (z->l < QML) *z = leaf_child (*z, c); }
      else { int s = r.range (1, 5); while (z->l < QML) { *z = leaf_child (*z, s-- > 0 ? (int) r.below (NC) : (m == 1 ? 0 : NC - 1)); } }
    }
    if (r.chance (0.2)) { b = a; }
    if (b.key () < a.key ()) std::swap (a, b);
    p4est_quadrant_t lq, uq; leaf_to_quad (a, &lq); leaf_to_quad (b, &uq);
    bool nlo = anc.l == 0 && r.chance (0.15), nhi = anc.l == 0 && r.chance (0.15);
    u128 lo = nlo ? anc.key () : a.key (), hi = (nhi ? anc.key () + leaf_span (anc.l) : b.key () + leaf_span (b.l)) - 1;
    bool hit[27] = { false };
    range_cover (anc, anc, lo, hi, hit);
    int fs[6], cs[8];
    for (int & x : fs) x = -3;
    for (int & x : cs) x = -3;
    bool gf = r.chance (0.9), gc = r.chance (0.9);
#ifdef P4_TO_P8
    int eg[12]; for (int & x : eg) x = -3;
    bool ge = r.chance (0.9);
    if (!gf && !ge && !gc) gf = true;
    int32_t m = p8est_find_range_boundaries (nlo ? NULL : &lq, nhi ? NULL : &uq, anc.l, gf ? fs : NULL, ge ? eg : NULL, gc ? cs : NULL);
    if (ge) for (int e = 0; e < 12; ++e) CHK (!!eg[e] == hit[ent_edge0 + e], "range-boundaries", "edge %d: %d, expected %d", e, eg[e], hit[ent_edge0 + e]);
#else
    if (!gf && !gc) gf = true;
    int32_t m = p4est_find_range_boundaries (nlo ? NULL : &lq, nhi ? NULL : &uq, anc.l, gf ? fs : NULL, gc ? cs : NULL);
#endif
    if (gf) for (int e = 0; e < NF; ++e) CHK (!!fs[e] == hit[e], "range-boundaries", "face %d: %d, expected %d", e, fs[e], hit[e]);
    if (gc) for (int e = 0; e < NC; ++e) CHK (!!cs[e] == hit[ent_corner0 + e], "range-boundaries", "corner %d: %d, expected %d (level %d, first %s last %s)", e, cs[e], hit[ent_corner0 + e], anc.l, nlo ? "-" : leaf_str (a).c_str (), nhi ? "-" : leaf_str (b).c_str ());
    for (size_t e = 0; e < es.size (); ++e) {
      bool known = (int) e < NF ? gf : (int) e >= ent_corner0 ? gc :
#ifdef P4_TO_P8
        ge
#else
        true
#endif
        ;
      if (known) CHK (((m >> e) & 1) == (int) hit[e], "range-boundaries", "bit %zu of %x, expected %d", e, (unsigned) m, hit[e]);
    }
    count ("ranges_checked");
  }
}

static void offsets (Rng & r)
{
  for (int n = 0; n < 20; ++n) {
    int P = r.chance (0.7) ? r.range (1, 12) : r.range (1, 300);
    i64 N = r.pick<i64> ({ 1, 2, 7, 100, 12345, 1000003, ((i64) 1 << 40) + 5 });
    if (r.chance (0.5)) N = 1 + (i64) r.below (1000);
    std::vector<i64> cn = random_counts (r, N, P, r.chance (0.7));
    std::vector<p4est_gloidx_t> g (1, 0);
    for (auto k : cn) g.push_back (g.back () + k);
    for (int k = 0; k < 15; ++k) {
      p4est_gloidx_t t = r.chance (0.5) ? (i64) r.below (N) : g[r.below (P + 1)] - (int) r.below (2);
      if (t < 0 || t >= N) continue;
      int w = (int) (std::upper_bound (g.begin (), g.end (), t) - g.begin ()) - 1;
      int o = p4est_bsearch_partition (t, g.data (), P);
      CHK (o == w, "bsearch-partition", "%lld of %lld on %d processes: %d, expected %d", (long long) t, (long long) N, P, o, w);
      count ("offsets_searched");
    }
    /* search in the last leaf of each process, as the partition code does */
    std::vector<p4est_gloidx_t> last;
    for (int k = 1; k <= P; ++k) last.push_back (g[k] - 1);
    for (int k = 0; k < 6; ++k) {
      p4est_gloidx_t a = (i64) r.below (N), b = (i64) r.below (N), x = -9, y = -9;
      if (r.chance (0.3)) { a = last[r.below (P)]; if (a < 0) a = 0; }
      if (r.chance (0.3)) { b = last[r.below (P)]; if (b < 0) b = 0; }
      if (a > b) std::swap (a, b);
      p4est_find_partition (P, last.data (), a, b, &x, &y);
      i64 wx = std::lower_bound (last.begin (), last.end (), a) - last.begin (), wy = std::lower_bound (last.begin (), last.end (), b) - last.begin ();
      CHK (x == wx && y == wy, "find-partition", "%lld..%lld on %d processes: %lld %lld, expected %lld %lld", (long long) a, (long long) b, P, (long long) x, (long long) y, (long long) wx, (long long) wy);
      count ("windows_searched");
    }
    std::vector<p4est_gloidx_t> u (P + 1, -4);
    p4est_comm_global_first_quadrant (N, P, u.data ());
    CHK (u[0] == 0 && u[P] == N, "uniform-offsets", "%lld on %d: ends %lld %lld", (long long) N, P, (long long) u[0], (long long) u[P]);
    for (int k = 0; k < P; ++k) { i64 d = u[k + 1] - u[k]; CHK (d >= N / P && d <= (N + P - 1) / P, "uniform-offsets", "%lld on %d: process %d has %lld", (long long) N, P, k, (long long) d); }
  }
}

static void communicator (Rng & r, p4est_t * & p, const GForest & f)
{
  /* an own communicator, then reduced to the processes that have leaves */
  int P = p->mpisize;
  if (r.chance (0.5)) { p4est_comm_parallel_env_duplicate (p); p4est_comm_parallel_env_get_info (p); }
  CHK (!p4est_comm_parallel_env_is_null (p) && p->mpisize == P && p->mpirank == run.rank, "parallel-env", "duplicate communicator has %d processes", p->mpisize);
  bool ext = r.chance (0.6), asked = ext && r.chance (0.8), begin = r.chance (0.5);
  std::vector<int> add;
  if (ext) for (int k = 0; k < P; ++k) if (r.chance (0.3)) add.push_back (k);
  std::set<int> sadd (add.begin (), add.end ());
  std::vector<int> ne, ae;
  for (int k = 0; k < P; ++k) { bool e = f.rfirst[k] == f.rfirst[k + 1]; if (!e) ne.push_back (k); else if (sadd.count (k)) ae.push_back (k); }
  /* with an added group, the empty members stay at the given end */
  std::vector<int> want;
  if (begin && ext) { want = ae; want.insert (want.end (), ne.begin (), ne.end ()); } else { want = ne; want.insert (want.end (), ae.begin (), ae.end ()); }
  u64 h0 = f.hash (false);
  int garbage = 77, exists, *ranks = r.chance (0.5) ? &garbage : NULL;
  p4est_connectivity_t *c = p->connectivity; (void) c;
  if (ext) {
    MPI_Group world, grp;
    MPI_Comm_group (p->mpicomm, &world);
    MPI_Group_incl (world, (int) add.size (), add.data (), &grp);
    exists = p4est_comm_parallel_env_reduce_ext (&p, grp, begin, asked ? &ranks : NULL);
    if (grp != MPI_GROUP_EMPTY) MPI_Group_free (&grp);
    MPI_Group_free (&world);
  }
  else exists = p4est_comm_parallel_env_reduce (&p);
  /* without a reduction, or a request for it, there is no map */
  if (!asked) ranks = NULL;
  else if ((int) ne.size () == P) CHK (!ranks, "env-reduce", "rank map without reduction");
  if (ranks == &garbage) { FAILK ("env-reduce", "rank map not set"); ranks = NULL; }
  bool mine = std::find (want.begin (), want.end (), run.rank) != want.end ();
  CHK (!!exists == mine && (p != NULL) == mine, "env-reduce", "process %d: forest %s after the reduction", run.rank, p ? "exists" : "is gone");
  if (p) {
    CHK (p->mpisize == (int) want.size (), "env-reduce", "%d processes, expected %zu", p->mpisize, want.size ());
    bool inorder = p->mpisize == (int) want.size () && want[p->mpirank] == run.rank;
    CHK (inorder, "env-reduce", "process %d has rank %d in the reduced communicator", run.rank, p->mpirank);
    if (ranks) for (int k = 0; k < p->mpisize && inorder; ++k) CHK (ranks[k] == want[k], "env-reduce", "rank map says %d for %d, expected %d", ranks[k], k, want[k]);
    if (inorder) {
      CHK (p4est_is_valid (p), "env-reduce", "forest is not valid after the reduction");
      GForest f2 = gather (p);
      CHK (f2.hash (false) == h0, "env-reduce", "the leaves changed");
      for (int k = 0; k < p->mpisize; ++k) CHK (f2.rfirst[k + 1] - f2.rfirst[k] == f.rfirst[want[k] + 1] - f.rfirst[want[k]], "env-reduce", "process %d has %lld leaves", k, (long long) (f2.rfirst[k + 1] - f2.rfirst[k]));
    }
    count ("reduced_forests");
  }
  P4EST_FREE (ranks);
}
}

static void prop (Rng & r)
{
  std::string nm; ConnOpts co; co.max_trees = 8;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  Geo g; g.init (c);
  bool oracle = conn_oracle_ok (g);
  ForestOpts fo; fo.target = r.pick ({ 5, 40, 200 }); fo.maxl = r.range (1, 6);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  random_partition (r, p, true);
  GForest f = gather (p);
  describe ("%s leaves %zu", nm.c_str (), f.q.size ());
  distinct_state (hcomb (f.hash (true), conn_hash (c)));
  Rng rl (hcomb (r.next (), run.rank));
  owners (rl, p, f);
  if (oracle) { outside_owners (rl, p, g, f); neighborhood (rl, p, g, f); }
  arrays (rl, p, f);
  ranges (rl, p, f);
  offsets (rl);
  if (r.chance (0.5)) communicator (r, p, f);
  if (p) p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C13", prop)

/* C20: checksums, equality and copies. */
#include "core.hpp"

namespace {

/* reference checksum, only used to excuse genuine collisions of the documented Adler-32 */
struct Adler { u64 a = 1, b = 0; void byte (unsigned v) { a = (a + v) % 65521; b = (b + a) % 65521; } u64 v () const { return b << 16 | a; } };
static u64 ref_sum (const std::vector<Leaf> & q)
{
  Adler s;
  for (auto & l : q) {
    uint32_t w[4]; int n = 0;
    for (int d = 0; d < DIM; ++d) w[n++] = DIM == 3 && l.l <= 18 ? (uint32_t) (l.x[d] >> 11) : (uint32_t) l.x[d];
    w[n++] = (uint32_t) l.l;
    for (int i = 0; i < n; ++i) for (int k = 3; k >= 0; --k) s.byte (w[i] >> (8 * k) & 255);
  }
  return s.v ();
}

static unsigned agreed (unsigned v, MPI_Comm comm, const char *what)
{
  i64 hi = allmax ((i64) v, comm), lo = -allmax (-(i64) v, comm);
  CHK (hi == lo, "differs-between-processes", "%s: %lld and %lld", what, (long long) lo, (long long) hi);
  return (unsigned) hi;
}

static p4est_t *rebuild (MPI_Comm comm, p4est_connectivity_t * c, const std::vector<Leaf> & q, const std::vector<i64> & n)
{
  int P, me; MPI_Comm_size (comm, &P); MPI_Comm_rank (comm, &me);
  std::vector<p4est_gloidx_t> g (P + 1, 0), pt (c->num_trees + 1, 0);
  for (int i = 0; i < P; ++i) g[i + 1] = g[i] + n[i];
  for (auto & l : q) pt[l.t + 1]++;
  for (int t = 0; t < c->num_trees; ++t) pt[t + 1] += pt[t];
  sc_array_t *a = sc_array_new_size (sizeof (p4est_qcoord_t), (DIM + 1) * (size_t) n[me]);
  p4est_qcoord_t *v = (p4est_qcoord_t *) a->array;
  for (i64 i = g[me]; i < g[me + 1]; ++i) { for (int d = 0; d < DIM; ++d) *v++ = (p4est_qcoord_t) q[i].x[d]; *v++ = q[i].l; }
  p4est_t *p = p4est_inflate (comm, c, g.data (), pt.data (), a, NULL, NULL);
  sc_array_destroy (a);
  return p;
}

static void fill (p4est_t * p, u64 salt)
{
  if (!p->data_size) return;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z); fill_bytes (q->p.user_data, p->data_size, leaf_id (t, q, salt)); }
  }
}
struct Snap
{
  std::vector<Leaf> q; std::vector<unsigned char> d; std::vector<i64> g; std::vector<TP> pos; size_t ds; int ft, lt; i64 gn, ln; std::vector<i64> meta;
  bool operator== (const Snap & o) const
  { if (q.size () != o.q.size ()) return false;
    for (size_t i = 0; i < q.size (); ++i) if (!q[i].same (o.q[i])) return false;
    return d == o.d && g == o.g && pos == o.pos && ds == o.ds && ft == o.ft && lt == o.lt && gn == o.gn && ln == o.ln && meta == o.meta; }
};
static Snap snap (p4est_t * p)
{
  Snap s; s.q = local_leaves (p); s.ds = p->data_size; s.ft = p->first_local_tree; s.lt = p->last_local_tree; s.gn = p->global_num_quadrants; s.ln = p->local_num_quadrants;
  for (int i = 0; i <= p->mpisize; ++i) { s.g.push_back (p->global_first_quadrant[i]); Leaf m = mkleaf (p->global_first_position[i].p.which_tree, &p->global_first_position[i]); TP t; t.t = m.t; t.x = P3 { m.x[0], m.x[1], m.x[2] }; s.pos.push_back (t); }
  for (int t = 0; t < p->connectivity->num_trees; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    s.meta.push_back (tr->quadrants_offset); s.meta.push_back (tr->maxlevel); s.meta.push_back (tr->quadrants.elem_count);
    for (int l = 0; l <= QML; ++l) s.meta.push_back (tr->quadrants_per_level[l]);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
      if (s.ds) s.d.insert (s.d.end (), (unsigned char *) q->p.user_data, (unsigned char *) q->p.user_data + s.ds);
    }
  }
  return s;
}
static bool same_structure (const Snap & a, const Snap & b)
{
  Snap x = a, y = b; x.d.clear (); y.d.clear (); x.ds = y.ds = 0; return x == y;
}
/* the predicate is local: it must answer for what this process can see */
static void check_equal (p4est_t * a, p4est_t * b, bool conn_same, const char *w)
{
  Snap x = snap (a), y = snap (b);
  bool st = conn_same && same_structure (x, y);
  bool full = st && x.ds == y.ds && x.d == y.d;
  for (int k = 0; k < 2; ++k) {
    p4est_t *u = k ? b : a, *v = k ? a : b;
    int e0 = p4est_is_equal (u, v, 0), e1 = p4est_is_equal (u, v, 1);
    CHK (!!e0 == st, st ? "equal-not-recognised" : "difference-missed", "%s: structures %s, predicate says %d", w, st ? "equal" : "differ", e0);
    CHK (!!e1 == full, full ? "equal-not-recognised" : "difference-missed", "%s: with data %s (sizes %zu %zu), predicate says %d", w, full ? "equal" : "different", x.ds, y.ds, e1);
    count (st ? "equal_pairs" : "unequal_pairs"); if (st && !full) count ("data_only_differences");
  }
}

static void mutate (Rng & r, p4est_t * p, const ForestOpts & fo)
{
  u64 salt = r.next ();
  switch (r.below (5)) {
  case 0: random_refine (r, p, fo); break;
  case 1: coarsen_pred (p, [&] (int t, p4est_quadrant_t ** q) { return leaf_id (t, q[0], salt) % 2; }, true); break;
  case 2: p4est_balance (p, P4EST_CONNECT_FULL, NULL); break;
  case 3: random_partition (r, p, true); break;
  case 4: p4est_reset_data (p, r.pick ({ 0, 5, 24 }), NULL, NULL); break;
  }
  fill (p, r.next ());
}
}

static void prop (Rng & r)
{
  MPI_Comm comm = MPI_COMM_WORLD; int P = run.size, me = run.rank;
  std::string nm; ConnOpts co; co.max_trees = 6; co.want_vertices = r.chance (0.3);
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  ForestOpts fo; fo.data_size = r.pick ({ 0, 1, 3, 8, 33 }); fo.target = r.pick ({ 1, 10, 60, 250 }); fo.maxl = 5; fo.deep = 0.3;
  p4est_t *p = gen_forest (r, comm, c, fo);
  u64 salt = r.next (); fill (p, salt);
  GForest f = gather (p);
  i64 N = (i64) f.q.size ();
  describe ("%s, %lld leaves, data %zu", nm.c_str (), (long long) N, p->data_size);
  distinct_state (hcomb (f.hash (true), conn_hash (c)));
  u64 ref = ref_sum (f.q);

  /* ---- checksums ---- */
  unsigned cs = agreed (p4est_checksum (p), comm, "checksum"), ps = agreed (p4est_checksum_partition (p), comm, "partition checksum");
  int pdiff = 0, ptest = 0;
  for (int k = 0; k < 3; ++k) {
    p4est_t *q = p4est_copy (p, r.chance (0.5));
    if (k) random_partition (r, q, true);
    Snap a = snap (p), b = snap (q);
    bool same = a.g == b.g;
    unsigned c1 = agreed (p4est_checksum (q), comm, "checksum"), p1 = agreed (p4est_checksum_partition (q), comm, "partition checksum");
    CHK (c1 == cs, "checksum-depends-on-partition", "%08x, then %08x in another partition", cs, c1);
    if (same) CHK (p1 == ps, "partition-checksum-unstable", "%08x and %08x for equal partitions", ps, p1);
    else { ptest++; pdiff += p1 != ps; gcount ("partitions_distinguished", p1 != ps); gcount ("partitions_compared"); }
    check_equal (p, q, true, k ? "repartitioned copy" : "copy");
    p4est_destroy (q);
  }
  if (P > 1 && N > 40) {                /* some of many different partitions must be told apart */
    for (int k = 0; k < 4 && ptest < 4; ++k) {
      std::vector<i64> n = random_counts (r, N, P, true); p4est_t *q = rebuild (comm, c, f.q, n);
      bool same = true; for (int i = 0; i <= P; ++i) same = same && q->global_first_quadrant[i] == p->global_first_quadrant[i];
      unsigned p1 = agreed (p4est_checksum_partition (q), comm, "partition checksum");
      if (!same) { ptest++; pdiff += p1 != ps; gcount ("partitions_distinguished", p1 != ps); gcount ("partitions_compared"); }
      p4est_destroy (q);
    }
    if (ptest >= 4) CHK (pdiff > 0, "partition-checksum-blind", "%d different partitions of %lld leaves over %d processes have one checksum", ptest, (long long) N, P);
  }
  {
    /* other numbers of processes */
    p4est_t *s = rebuild (MPI_COMM_SELF, c, f.q, { N });
    unsigned c1 = p4est_checksum (s);
    CHK (c1 == cs, "checksum-depends-on-size", "%08x on %d processes, %08x on one", cs, P, c1);
    count ("serial_checksums");
    if (P > 2) {
      int col = me % 2; MPI_Comm sub; MPI_Comm_split (comm, col, -me, &sub); int SP; MPI_Comm_size (sub, &SP);
      Rng rs (hcomb (salt, col));
      p4est_t *t = rebuild (sub, c, f.q, random_counts (rs, N, SP, true));
      unsigned c2 = agreed (p4est_checksum (t), sub, "checksum");
      CHK (c2 == cs, "checksum-depends-on-size", "%08x on %d processes, %08x on %d", cs, P, c2, SP);
      p4est_destroy (t); MPI_Comm_free (&sub);
      count ("subgroup_checksums");
    }
    /* lists of leaves, whole and from an offset; quadrants beyond the tree are allowed */
    p4est_tree_t *tr = p4est_tree_array_index (s->trees, r.below (c->num_trees));
    size_t n = tr->quadrants.elem_count, k = r.below ((i64) n + 1);
    sc_array_t *tmp = sc_array_new (4);
    unsigned w0 = p4est_quadrant_checksum (&tr->quadrants, NULL, k), w1 = p4est_quadrant_checksum (&tr->quadrants, tmp, k);
    unsigned w2 = 0;
    if (k < n) { sc_array_t v; sc_array_init_view (&v, &tr->quadrants, k, n - k); w2 = p4est_quadrant_checksum (&v, NULL, 0); CHK (w0 == w2, "list-checksum", "checksum from element %zu of %zu differs from that of the tail", k, n); }
    CHK (w0 == w1, "list-checksum", "checksum depends on the work array");
    sc_array_destroy (tmp);
    p4est_destroy (s);
  }
  /* changed leaves: one leaf refined, or one family coarsened */
  p4est_t *q[2] = { NULL, NULL };
  std::vector<int> pickable; for (i64 i = 0; i < N; ++i) if (f.q[i].l < QML) pickable.push_back ((int) i);
  for (int k = 0; k < 2; ++k) {
    q[k] = p4est_copy (p, 1);
    i64 i = pickable.empty () ? 0 : pickable[r.below (pickable.size ())];
    if (k && r.chance (0.6)) for (int tries = 0; tries < 20 && !pickable.empty (); ++tries) { i = pickable[r.below (pickable.size ())]; }
    if (r.chance (0.5) || N < NC) refine_pred (q[k], [&] (int t, const p4est_quadrant_t * a) { Leaf l = mkleaf (t, a); return l.same (f.q[i]); }, false);
    else { u64 s2 = r.next (); coarsen_pred (q[k], [&] (int t, p4est_quadrant_t ** a) { return leaf_id (t, a[0], s2) % 3 == 0; }, false); }
    GForest g = gather (q[k]);
    u64 gr = ref_sum (g.q);
    unsigned c1 = agreed (p4est_checksum (q[k]), comm, "checksum");
    bool ch = g.hash (false) != f.hash (false);
    if (!ch) CHK (c1 == cs, "checksum-unstable", "same leaves, checksums %08x %08x", cs, c1);
    else if (gr != ref) { CHK (c1 != cs, "checksum-blind", "one leaf or family changed, checksum %08x stays", cs); gcount ("changes_detected"); }
    check_equal (p, q[k], true, "changed copy");
  }
  /* two different changes, often on the same process with equal counts */
  for (int k = 0; k < 2; ++k) fill (q[k], salt);
  check_equal (q[0], q[1], true, "two changed copies");
  p4est_destroy (q[0]); p4est_destroy (q[1]);
  /* two leaves of equal level under exchange of refinement on one process: counts everywhere equal */
  {
    std::vector<std::pair<int, int>> pr;
    for (int t = 0; t < 40 && pickable.size () > 1; ++t) {
      int a = pickable[r.below (pickable.size ())], b = pickable[r.below (pickable.size ())];
      if (a != b && f.q[a].rank == f.q[b].rank) { pr.push_back ({ a, b }); break; }
    }
    if (!pr.empty ()) {
      p4est_t *u = p4est_copy (p, 0), *v = p4est_copy (p, 0);
      refine_pred (u, [&] (int t, const p4est_quadrant_t * x) { return mkleaf (t, x).same (f.q[pr[0].first]); }, false);
      refine_pred (v, [&] (int t, const p4est_quadrant_t * x) { return mkleaf (t, x).same (f.q[pr[0].second]); }, false);
      check_equal (u, v, true, "one of two leaves refined");
      unsigned a = agreed (p4est_checksum (u), comm, "checksum"), b = agreed (p4est_checksum (v), comm, "checksum");
      unsigned pa = agreed (p4est_checksum_partition (u), comm, "checksum"), pb = agreed (p4est_checksum_partition (v), comm, "checksum");
      GForest gu = gather (u), gv = gather (v);
      if (ref_sum (gu.q) != ref_sum (gv.q)) { CHK (a != b && pa != pb, "checksum-blind", "different leaves refined, checksums %08x %08x, %08x %08x", a, b, pa, pb); gcount ("changes_detected"); }
      p4est_destroy (u); p4est_destroy (v);
    }
  }
  /* user data differing in one byte of one leaf */
  if (p->data_size) {
    p4est_t *u = p4est_copy (p, 1);
    i64 gi = r.below (N); size_t by = r.below (p->data_size);
    i64 li = gi - p->global_first_quadrant[me];
    if (li >= 0 && li < p->local_num_quadrants)
      for (p4est_topidx_t t = u->first_local_tree; t <= u->last_local_tree; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (u->trees, t); i64 z = li - tr->quadrants_offset;
        if (z >= 0 && z < (i64) tr->quadrants.elem_count) ((unsigned char *) p4est_quadrant_array_index (&tr->quadrants, z)->p.user_data)[by] ^= 1 << r.below (8);
      }
    r.s = mix64 (hcomb (salt, 3));
    check_equal (p, u, true, "one bit of data");
    p4est_reset_data (u, p->data_size + 1, NULL, NULL); fill (u, salt);
    check_equal (p, u, true, "other data size");
    p4est_destroy (u);
  }
  /* connectivity: equal twin, and one that differs in attributes */
  {
    p4est_connectivity_t *c2 = p4est_connectivity_copy (c, 1);
    p4est_t *u = p4est_copy (p, 1); u->connectivity = c2;
    check_equal (p, u, true, "equal connectivity elsewhere in memory");
    p4est_connectivity_set_attr (c2, 2); memset (c2->tree_to_attr, 7, 2 * (size_t) c2->num_trees);
    check_equal (p, u, false, "connectivity with other attributes");
    p4est_connectivity_set_attr (c2, 0);
    p4est_destroy (u); p4est_connectivity_destroy (c2);
  }

  /* ---- copies ---- */
  {
    bool cd = r.chance (0.7), dup = r.chance (0.4), ext = dup || r.chance (0.3);
    p4est_inspect_t in; memset (&in, 0, sizeof in);
    bool ins = r.chance (0.3);
    if (ins) p->inspect = &in;
    p->user_pointer = &in; mutate (r, p, fo);
    p->user_pointer = &in;
    for (int k = r.below (3); k > 0; --k) p4est_refine (p, 0, [] (p4est_t *, p4est_topidx_t, p4est_quadrant_t * q) -> int { return q->level < 1; }, NULL);
    fill (p, salt);
    Snap s0 = snap (p);
    long rev = p4est_revision (p);
    p4est_t *u = ext ? p4est_copy_ext (p, cd, dup) : p4est_copy (p, cd);
    CHK (p4est_revision (u) == 0, "copy-revision", "%ld", p4est_revision (u));
    CHK (u->inspect == NULL, "copy-inspect", "the copy uses the statistics of the original");
    CHK (u->user_pointer == p->user_pointer && u->connectivity == c, "copy-members", "user pointer or connectivity");
    CHK (u->data_size == (cd ? p->data_size : 0) && (u->user_data_pool != NULL) == (u->data_size > 0), "copy-data-size", "copy has data size %zu", u->data_size);
    int cmp; MPI_Comm_compare (u->mpicomm, p->mpicomm, &cmp);
    CHK (dup ? cmp == MPI_CONGRUENT && u->mpicomm_owned : cmp == MPI_IDENT, "copy-communicator", "duplicate %d, comparison %d", dup, cmp);
    CHK (p4est_is_valid (u), "copy-invalid", "copy is not valid");
    check_equal (p, u, true, "copy");
    CHK (snap (p) == s0 && p4est_revision (p) == rev, "copy-touches-original", "original changed by copying");
    if (!p->data_size && !u->data_size) {
      /* copied regardless */
      bool ok = true;
      for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
        p4est_tree_t *a = p4est_tree_array_index (p->trees, t), *b = p4est_tree_array_index (u->trees, t);
        for (size_t z = 0; z < a->quadrants.elem_count; ++z) ok = ok && p4est_quadrant_array_index (&a->quadrants, z)->p.user_data == p4est_quadrant_array_index (&b->quadrants, z)->p.user_data;
      }
      CHK (ok, "copy-user-field", "user data fields of a copy without data differ");
    }
    /* change one, look at the other; then destroy one */
    bool first = r.chance (0.5);
    p4est_t *chg = first ? p : u, *obs = first ? u : p;
    Snap so = snap (obs);
    for (int k = 0; k < 2; ++k) { mutate (r, chg, fo); bool ok = snap (obs) == so; CHK (ok, "copy-not-independent", "changing the %s changed the %s", first ? "original" : "copy", first ? "copy" : "original"); }
    p->inspect = NULL; u->inspect = NULL;
    p4est_destroy (chg);
    CHK (snap (obs) == so && p4est_is_valid (obs), "copy-not-independent", "destroying the %s changed the %s", first ? "original" : "copy", first ? "copy" : "original");
    so = Snap ();
    mutate (r, obs, fo);
    CHK (p4est_is_valid (obs), "copy-not-independent", "survivor invalid after a change");
    obs->inspect = NULL;
    p4est_destroy (obs);
    gcount ("copies_judged"); if (dup) gcount ("copies_with_own_communicator");
  }
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C20", prop)

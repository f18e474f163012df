/* C05: 2:1 balance. */
#include "core.hpp"
void check_forest (p4est_t * p, const char *after);
void check_seeds (Rng & r, int n);

namespace {
struct BMon
{
  size_t ds; u64 s0, s1; bool useinit, userep;
  std::set<Leaf, LeafCmp> orig;
  std::map<Leaf, int, LeafCmp> inits, rep;
};
BMon *B;
void binit (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q)
{
  Leaf a = mkleaf (t, q);
  B->inits[a]++;
  if (B->ds) fill_bytes (q->p.user_data, B->ds, leaf_id (t, q, B->s1));
}
void brep (p4est_t *, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[])
{
  CHK (no == 1 && ni == NC, "replace-count", "balance replaces %d by %d", no, ni);
  if (no != 1 || ni != NC) return;
  Leaf par = mkleaf (t, out[0]);
  B->rep[par]++;
  bool fresh = !B->orig.count (par);
  if (B->ds) CHK (check_bytes (out[0]->p.user_data, B->ds, leaf_id (t, out[0], fresh ? B->s1 : B->s0)), "replace-data", "outgoing data of %s leaf %s", fresh ? "intermediate" : "original", leaf_str (par).c_str ());
  for (int i = 0; i < NC; ++i) {
    CHK (mkleaf (t, in[i]).same (leaf_child (par, i)), "replace-incoming", "incoming %d of %s", i, leaf_str (par).c_str ());
    if (B->ds) {
      if (B->useinit) CHK (check_bytes (in[i]->p.user_data, B->ds, leaf_id (t, in[i], B->s1)), "replace-init", "incoming leaf %s of %s was not initialised before replacement", leaf_str (mkleaf (t, in[i])).c_str (), leaf_str (par).c_str ());
      else fill_bytes (in[i]->p.user_data, B->ds, leaf_id (t, in[i], B->s1));
    }
  }
}
}

static void c05 (Rng & r)
{
  std::string name, why;
  ConnOpts co;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  Geo geo;
  geo.init (c);
  if (!conn_oracle_ok (geo)) { gcount ("skipped_connectivity"); p4est_connectivity_destroy (c); return; }
  bool gridlike = grid_like (geo);
  gcount (gridlike ? "grid_like_connectivities" : "other_connectivities");
  ForestOpts fo;
  fo.data_size = r.pick ({ 0, 1, 8, 16, 40 });
  fo.target = r.range (1, DIM == 2 ? 300 : 200);
  fo.deep = 0.25;
  describe ("%s data %zu", name.c_str (), fo.data_size);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  if (r.chance (0.3)) {
    p4est_inspect_t *in = (p4est_inspect_t *) calloc (1, sizeof (p4est_inspect_t));
    in->use_balance_ranges = r.below (2);
    in->use_balance_ranges_notify = r.below (2);
    in->use_balance_verify = r.below (2);
    in->balance_max_ranges = r.below (4);
    p->inspect = in;
    describe ("inspect %d%d%d %d", in->use_balance_ranges, in->use_balance_ranges_notify, in->use_balance_verify, in->balance_max_ranges);
  }
  int n = r.range (1, 3);
  for (int k = 0; k < n; ++k) {
    int mindim = r.below (DIM);
    if (k > 0 && p->global_num_quadrants < 3000) { random_refine (r, p, fo); random_partition (r, p, true); }
    if (p->global_num_quadrants > 12000) break;
    BMon mon;
    B = &mon;
    mon.ds = p->data_size; mon.s0 = r.next (); mon.s1 = mon.s0 + 1;
    mon.useinit = r.chance (0.7); mon.userep = r.chance (0.6);
    for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      for (size_t i = 0; i < tr->quadrants.elem_count; ++i) {
        p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, i);
        if (p->data_size) fill_bytes (q->p.user_data, p->data_size, leaf_id (t, q, mon.s0));
        mon.orig.insert (mkleaf (t, q));
      }
    }
    GForest before = gather (p);
    u64 hb = before.hash (true);
    std::vector<Leaf> bal, full;
    int was = 1;
    bool exact = mindim == 0 || gridlike;
    if (run.rank == 0) {
      bal = balance_closure (&geo, c->num_trees, before.q, mindim);
      if (!exact) full = balance_closure (&geo, c->num_trees, before.q, 0);
      was = bal.size () == before.q.size ();
    }
    MPI_Bcast (&was, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (r.chance (0.5)) CHK (p4est_is_balanced (p, conn_type (mindim)) == was, "is-balanced", "balance predicate (entities of dimension >= %d) says %d, the leaves say %d", mindim, !was, was);
    long rev = p4est_revision (p);
    if (!mon.userep && r.chance (0.5)) p4est_balance (p, conn_type (mindim), mon.useinit ? binit : NULL);
    else p4est_balance_ext (p, conn_type (mindim), mon.useinit ? binit : NULL, mon.userep ? brep : NULL);
    GForest after = gather (p);
    bool changed = after.q.size () != before.q.size ();
    CHK ((p4est_revision (p) != rev) == changed, "revision", "revision %ld to %ld, changed %d", rev, p4est_revision (p), changed);
    if (run.rank == 0 && !exact) {
      /* trees around some corner do not meet like a grid: balanced, a
       * refinement of the input, and nowhere finer than the full balance */
      std::string w;
      CHK (is_balanced_model (&geo, after, mindim, w), "not-balanced", "balance (entities of dimension >= %d): %s", mindim, w.c_str ());
      size_t i = 0, k = 0;
      for (auto & a : after.q) {
        while (i < bal.size () && !(bal[i].t == a.t && bal[i].key () <= a.key () && a.key () < bal[i].key () + leaf_span (bal[i].l))) ++i;
        CHK (i < bal.size () && bal[i].l <= a.l, "not-balanced", "leaf %s is coarser than the coarsest balanced refinement", leaf_str (a).c_str ());
        if (i >= bal.size ()) break;
        while (k < full.size () && (full[k].t < a.t || (full[k].t == a.t && full[k].key () < a.key ()))) ++k;
        CHK (k < full.size () && full[k].t == a.t && full[k].key () == a.key () && full[k].l >= a.l, "over-refined", "leaf %s is finer than in the full balance", leaf_str (a).c_str ());
      }
      gcount (after.q.size () == bal.size () ? "irregular_exact" : "irregular_between");
    }
    if (run.rank == 0 && exact) {
      bool ok = after.q.size () == bal.size ();
      size_t bad = 0;
      for (size_t i = 0; i < std::min (bal.size (), after.q.size ()); ++i) if (!after.q[i].same (bal[i])) { ok = false; bad = i; break; }
      if (!ok) {
        std::string w;
        CHK (is_balanced_model (&geo, after, mindim, w), "not-balanced", "balance (entities of dimension >= %d): %s", mindim, w.c_str ());
      }
      CHK (ok, "not-minimal-balance", "balance (entities of dimension >= %d) of %zu leaves gave %zu, the coarsest balanced refinement has %zu; first difference %s instead of %s", mindim, before.q.size (),
           after.q.size (), bal.size (), bad < after.q.size () ? leaf_str (after.q[bad]).c_str () : "-", bad < bal.size () ? leaf_str (bal[bad]).c_str () : "-");
    }
    /* local events and data */
    std::vector<Leaf> now = local_leaves (p);
    std::set<Leaf, LeafCmp> nowset (now.begin (), now.end ());
    std::set<Leaf, LeafCmp> internal;
    for (auto & a : now) if (!mon.orig.count (a)) {
      for (Leaf b = a; b.l > 0 && !mon.orig.count (b);) { b = leaf_parent (b); if (!internal.insert (b).second) break; }
      if (mon.useinit) CHK (mon.inits.count (a) && mon.inits[a] == 1, "init-calls", "new leaf %s initialised %d times", leaf_str (a).c_str (), mon.inits.count (a) ? mon.inits[a] : 0);
    }
    for (auto & kv : mon.inits) CHK ((nowset.count (kv.first) || internal.count (kv.first)) && !mon.orig.count (kv.first), "init-calls", "%s initialised, but it is no new leaf", leaf_str (kv.first).c_str ());
    if (mon.userep) {
      for (auto & a : internal) CHK (mon.rep.count (a) && mon.rep[a] == 1, "replace-calls", "replacement of %s reported %d times", leaf_str (a).c_str (), mon.rep.count (a) ? mon.rep[a] : 0);
      for (auto & kv : mon.rep) CHK (internal.count (kv.first), "replace-calls", "replacement of %s reported, but it was not refined", leaf_str (kv.first).c_str ());
    }
    if (p->data_size) {
      for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
        for (size_t z = 0; z < tr->quadrants.elem_count; ++z) {
          p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
          bool old = mon.orig.count (mkleaf (t, q)) > 0;
          if (old || mon.useinit || mon.userep)
            CHK (q->p.user_data && check_bytes (q->p.user_data, p->data_size, leaf_id (t, q, old ? mon.s0 : mon.s1)), "data", "%s leaf %s does not carry its data", old ? "untouched" : "new", leaf_str (mkleaf (t, q)).c_str ());
        }
      }
    }
    count ("replacements", (long) internal.size ());
    check_forest (p, "balance");
    gcount ("balanced_forests");
    if (was) gcount ("already_balanced");
    (void) hb;
    if (r.chance (0.4)) {
      /* again: no change, and weaker conditions hold */
      i64 gn = p->global_num_quadrants;
      int md = mindim + r.below (DIM - mindim);
      rev = p4est_revision (p);
      p4est_balance (p, conn_type (md), NULL);
      CHK (p->global_num_quadrants == gn && p4est_revision (p) == rev, "idempotent", "balancing a balanced forest changed it");
      if (r.chance (0.5)) CHK (p4est_is_balanced (p, conn_type (md)), "is-balanced", "balanced forest is not recognised");
    }
    B = nullptr;
  }
  if (p->inspect) { free (p->inspect); p->inspect = NULL; }
  p4est_destroy (p);
  /* subtrees are balanced in isolation */
  if (r.chance (0.5)) {
    ForestOpts so = fo;
    so.data_size = 0;
    Rng rr (r.next () + run.rank);
    p4est_t *s = gen_forest (rr, MPI_COMM_SELF, c, so);
    std::vector<Leaf> in = local_leaves (s);
    int mindim = rr.below (DIM);
    for (int t = 0; t < c->num_trees; ++t) {
      std::vector<Leaf> one;
      for (auto & a : in) if (a.t == t) one.push_back (a);
      std::vector<Leaf> bal = balance_closure (NULL, c->num_trees, one, mindim);
      p4est_balance_subtree (s, conn_type (mindim), t, NULL);
      p4est_tree_t *tr = p4est_tree_array_index (s->trees, t);
      bool ok = tr->quadrants.elem_count == bal.size ();
      for (size_t i = 0; ok && i < bal.size (); ++i) ok = mkleaf (t, p4est_quadrant_array_index (&tr->quadrants, i)).same (bal[i]);
      CHK (ok, "subtree", "subtree balance (entities of dimension >= %d) of %zu leaves gave %zu, expected %zu", mindim, one.size (), tr->quadrants.elem_count, bal.size ());
      count ("subtrees_balanced");
    }
    p4est_destroy (s);
  }
  p4est_connectivity_destroy (c);
  if (r.chance (DIM == 2 ? 0.5 : 0.25)) { Rng rr (r.next () + run.rank); check_seeds (rr, 1); }
}
REGISTER_PROP ("C05", c05)

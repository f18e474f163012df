/* C21: the adaptation wrapper.  A second forest, changed by decisions computed
 * from the marks of all processes and a model of the leaves' ages, is compared
 * with the wrapped forest after every adaptation and partition; the ghost
 * layer, mesh and iterators are compared with ones built anew. */
#include "core.hpp"

namespace {

typedef std::map<Leaf, int, LeafCmp> Ages;

u64 hbytes (u64 h, const void *p, size_t n)
{
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return mix64 (h ^ n);
}
u64 harr (u64 h, sc_array_t * a) { return a ? hbytes (h, a->array, a->elem_count * a->elem_size) : mix64 (h + 1); }
u64 hquads (u64 h, sc_array_t * a)
{
  for (size_t z = 0; z < a->elem_count; ++z) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (a, z);
    Leaf l = mkleaf (q->p.piggy3.which_tree, q);
    h = hcomb (h, hcomb (l.t * 64 + l.l, hcomb ((u64) l.key (), q->p.piggy3.local_num)));
  }
  return h;
}
u64 ghost_digest (p4est_ghost_t * g)
{
  u64 h = hcomb (g->btype, g->mpisize);
  h = hquads (hquads (h, &g->ghosts), &g->mirrors);
  h = hbytes (h, g->tree_offsets, sizeof (p4est_locidx_t) * (g->num_trees + 1));
  h = hbytes (h, g->proc_offsets, sizeof (p4est_locidx_t) * (g->mpisize + 1));
  h = hbytes (h, g->mirror_tree_offsets, sizeof (p4est_locidx_t) * (g->num_trees + 1));
  h = hbytes (h, g->mirror_proc_offsets, sizeof (p4est_locidx_t) * (g->mpisize + 1));
  h = hbytes (h, g->mirror_proc_mirrors, sizeof (p4est_locidx_t) * g->mirror_proc_offsets[g->mpisize]);
  return h;
}
u64 mesh_digest (p4est_mesh_t * m)
{
  i64 lq = m->local_num_quadrants;
  u64 h = hcomb (lq, m->ghost_num_quadrants);
  h = m->quad_to_tree ? hbytes (h, m->quad_to_tree, lq * sizeof (p4est_topidx_t)) : mix64 (h);
  h = hbytes (h, m->ghost_to_proc, m->ghost_num_quadrants * sizeof (int));
  h = hbytes (h, m->quad_to_quad, NF * lq * sizeof (p4est_locidx_t));
  h = hbytes (h, m->quad_to_face, NF * lq);
  h = harr (h, m->quad_to_half);
  if (m->quad_level) for (int l = 0; l <= QML; ++l) h = harr (h, m->quad_level + l);
#ifdef P4_TO_P8
  if (m->quad_to_edge) { h = hbytes (h, m->quad_to_edge, NE * lq * sizeof (p4est_locidx_t)); h = harr (harr (harr (h, m->edge_offset), m->edge_quad), m->edge_edge); }
#endif
  if (m->quad_to_corner) { h = hbytes (h, m->quad_to_corner, NC * lq * sizeof (p4est_locidx_t)); h = harr (harr (harr (h, m->corner_offset), m->corner_quad), m->corner_corner); }
  return hcomb (h, hcomb (m->params.btype, m->params.compute_level_lists * 2 + m->params.compute_tree_index));
}

std::vector<Leaf> leaves_of (p4est_t * p) { return gather (p).q; }
bool same_set (const std::vector<Leaf> & a, const std::vector<Leaf> & b, std::string & why, bool ranks)
{
  for (size_t i = 0; i < a.size () || i < b.size (); ++i)
    if (i >= a.size () || i >= b.size () || !a[i].same (b[i]) || (ranks && a[i].rank != b[i].rank)) {
      why = "at " + std::to_string (i) + ": " + (i < a.size () ? leaf_str (a[i]) : "nothing") + ", expected " + (i < b.size () ? leaf_str (b[i]) : "nothing");
      return false;
    }
  return true;
}

/* user replacement callback */
struct Rep { i64 refine, coarsen; bool bad; p4est_wrap_t *pp; void *user; };
Rep rep;
void replace_cb (p4est_t * p, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[])
{
  if (p->user_pointer != rep.pp || rep.pp->params.user_pointer != rep.user) rep.bad = true;
  if (no == 1 && ni == NC) {
    ++rep.refine;
    for (int k = 0; k < NC; ++k) if (!leaf_child (mkleaf (t, out[0]), k).same (mkleaf (t, in[k]))) rep.bad = true;
  }
  else if (no == NC && ni == 1) {
    ++rep.coarsen;
    for (int k = 0; k < NC; ++k) if (!leaf_child (mkleaf (t, in[0]), k).same (mkleaf (t, out[k]))) rep.bad = true;
  }
  else rep.bad = true;
}

void check_views (p4est_wrap_t * w, const char *when)
{
  p4est_t *p = w->p4est;
  p4est_ghost_t *g = w->params.hollow ? NULL : p4est_wrap_get_ghost (w);
  std::set<i64> mir;
  if (g) {
    p4est_ghost_t *g2 = p4est_ghost_new (p, w->params.mesh_params.btype);
    CHK (ghost_digest (g) == ghost_digest (g2), "ghost-current", "%s: the ghost layer differs from one built for the forest", when);
    p4est_mesh_t *m2 = p4est_mesh_new_params (p, g2, &w->params.mesh_params);
    CHK (mesh_digest (p4est_wrap_get_mesh (w)) == mesh_digest (m2), "mesh-current", "%s: the mesh differs from one built for the forest", when);
    for (size_t z = 0; z < g2->mirrors.elem_count; ++z) mir.insert (p4est_quadrant_array_index (&g2->mirrors, z)->p.piggy3.local_num);
    p4est_mesh_destroy (m2);
    p4est_ghost_destroy (g2);
    for (i64 i = 0; i < p->local_num_quadrants; ++i) CHK (w->flags[i] == 0, "flags-zero", "%s: flag %d set on leaf %lld", when, w->flags[i], (long long) i);
    count ("views");
  }
  for (int track = 0; track <= (g ? 1 : 0); ++track) {
    std::vector<Leaf> loc = local_leaves (p);
    size_t i = 0;
    p4est_topidx_t lastt = -1; i64 inside = 0;
    for (p4est_wrap_leaf_t *l = p4est_wrap_leaf_first (w, track); l; l = p4est_wrap_leaf_next (l), ++i) {
      if (i >= loc.size ()) { FAILK ("iter-count", "%s: the iterator passes leaf %zu of %zu", when, i, loc.size ()); continue; }
      if (l->which_tree != lastt) { lastt = l->which_tree; inside = 0; }
      CHK (l->local_quad == (i64) i && l->which_quad == inside && P4EST_LEAF_IS_FIRST_IN_TREE (l) == (inside == 0), "iter-index", "%s: leaf %zu reported as %d, %d in tree %d", when, i, (int) l->local_quad, (int) l->which_quad, (int) l->which_tree);
      CHK (mkleaf (l->which_tree, l->quad).same (loc[i]), "iter-leaf", "%s: leaf %zu is %s, expected %s", when, i, leaf_str (mkleaf (l->which_tree, l->quad)).c_str (), leaf_str (loc[i]).c_str ());
      CHK (l->pp == w && l->tree == p4est_tree_array_index (p->trees, l->which_tree) && l->tquadrants == &l->tree->quadrants, "iter-members", "%s: iterator members", when);
      if (track) { CHK (l->is_mirror == (mir.count (i) ? 1 : 0), "iter-mirror", "%s: leaf %zu mirror %d", when, i, l->is_mirror); if (l->is_mirror) count ("iter_mirrors"); }
      else CHK (l->is_mirror == 0 && l->mirrors == NULL, "iter-mirror", "%s: mirror without tracking", when);
      ++inside;
      count ("iterated");
    }
    CHK (i == loc.size (), "iter-count", "%s: %zu leaves iterated of %zu", when, i, loc.size ());
  }
}

int weight_level (p4est_t *, p4est_topidx_t, p4est_quadrant_t * q) { return 1 << q->level; }

struct History
{
  p4est_wrap_t *w = nullptr;
  Ages age;                             /* all leaves of the forest */
  const Geo *geo;
  int dims;
};

void reset_ages (History & h) { h.age.clear (); for (auto & a : leaves_of (h.w->p4est)) h.age[a] = 0; }

struct Mk { i64 gi; int what; };

void cycle (Rng & r, History & h)
{
  p4est_wrap_t *w = h.w;
  p4est_t *p = w->p4est;
  const int delay = w->params.coarsen_delay, affect = w->params.coarsen_affect;
  GForest f0 = gather (p);
  u64 oldg = ghost_digest (p4est_wrap_get_ghost (w)), oldm = mesh_digest (p4est_wrap_get_mesh (w));
  /* marks: a sequence per process, the last one for a leaf counts */
  double pr = r.pick ({0, 5, 30, 70}) / 100., pc = r.pick ({0, 30, 80, 100}) / 100.;
  bool swap = r.chance (.15), nomarks = r.chance (.06);
  u64 blob = r.next ();
  int blobl = r.below (3);
  Rng lr (hcomb (r.next (), run.rank + 3));
  std::map<i64, int> last;
  if (!nomarks)
    for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
      p4est_tree_t *tree = p4est_tree_array_index (p->trees, t);
      for (i64 z = 0; z < (i64) tree->quadrants.elem_count; ++z) {
        Leaf a = mkleaf (t, p4est_quadrant_array_index (&tree->quadrants, z));
        Leaf b = a; while (b.l > blobl) b = leaf_parent (b);
        Leaf par = a.l ? leaf_parent (a) : a;
        bool inblob = hcomb (blob, hcomb ((u64) b.key (), b.t)) % 3 == 0;
        bool fam = hcomb (blob + 1, hcomb ((u64) par.key (), par.t * 32 + par.l)) % 100 < pc * 100;
        i64 i = tree->quadrants_offset + z;
        int n = lr.chance (.1) ? 3 : 1;
        while (n-- > 0) {
          int what = 0;
          if ((inblob || swap) && a.l < (VH_DIM == 2 ? 7 : 5) && lr.chance (pr)) what = 1;
          else if (fam && lr.chance (.97)) what = 2;
          else if (a.l == QML && lr.chance (.3)) what = 1;      /* cannot be honoured */
          if (what == 1) { p4est_wrap_mark_refine (w, t, z); last[i] = 1; }
          if (what == 2) { p4est_wrap_mark_coarsen (w, t, z); last[i] = 2; }
          if (what) count ("marks");
        }
      }
    }
  std::vector<Mk> mk;
  for (auto & e : last) mk.push_back (Mk{p->global_first_quadrant[run.rank] + e.first, e.second});
  mk = allgatherv (mk, MPI_COMM_WORLD);
  std::vector<int> flag (f0.q.size (), 0);
  for (auto & e : mk) flag[e.gi] = e.what;

  /* decisions of the model */
  std::set<Leaf, LeafCmp> torefine, parents;
  Ages mid;                             /* after refinement and coarsening */
  i64 local_ref = 0, local_coar = 0, held = 0;
  {
    struct It { Leaf a; int fl, age; };
    std::vector<It> s;
    for (size_t i = 0; i < f0.q.size (); ++i) {
      Leaf a = f0.q[i];
      int ag = h.age.count (a) ? h.age[a] : -99;
      if (flag[i] == 1 && a.l < QML) {
        torefine.insert (a);
        if (a.rank == run.rank) ++local_ref;
        for (int k = 0; k < NC; ++k) { Leaf c = leaf_child (a, k); c.rank = a.rank; s.push_back (It{c, 0, 0}); }
      }
      else s.push_back (It{a, flag[i] == 2 ? 2 : 0, delay && ag >= 0 ? ag + 1 : ag});
    }
    for (size_t i = 0; i < s.size (); ) {
      bool fam = s[i].a.l > 0 && leaf_childid (s[i].a) == 0 && i + NC <= s.size ();
      for (int k = 1; fam && k < NC; ++k) fam = s[i + k].a.l == s[i].a.l && s[i + k].a.t == s[i].a.t && s[i + k].a.rank == s[i].a.rank && leaf_parent (s[i + k].a).same (leaf_parent (s[i].a));
      bool go = fam, young = false;
      for (int k = 0; go && k < NC; ++k) {
        if (s[i + k].fl != 2) go = false;
        else if (delay && s[i + k].age >= 0 && s[i + k].age <= delay) { young = true; go = false; }
      }
      if (young && run.rank == 0) ++held;
      if (go) {
        Leaf q = leaf_parent (s[i].a); q.rank = s[i].a.rank;
        parents.insert (q); mid[q] = affect ? 0 : -1;
        if (q.rank == run.rank) ++local_coar;
        i += NC;
      }
      else { mid[s[i].a] = s[i].age; ++i; }
    }
    gcount ("coarsening_held_back", held);
  }
  /* the reference forest */
  p4est_t *ref = p4est_copy (p, 0);
  refine_pred (ref, [&] (int t, const p4est_quadrant_t * q) { return (int) torefine.count (mkleaf (t, q)); }, false);
  coarsen_pred (ref, [&] (int t, p4est_quadrant_t ** q) { return (int) parents.count (leaf_parent (mkleaf (t, q[0]))); }, false);
  {
    std::string why; std::vector<Leaf> m; for (auto & e : mid) m.push_back (e.first);
    if (!same_set (leaves_of (ref), m, why, false)) { FAILK ("~reference", "reference forest disagrees with the model: %s", why.c_str ()); }
  }
  p4est_balance (ref, w->params.mesh_params.btype, NULL);
  std::vector<Leaf> want = leaves_of (ref);
  bool want_change = false;
  { std::string why; want_change = !same_set (want, f0.q, why, false); }

  rep = Rep{0, 0, false, w, w->params.user_pointer};
  int ch = p4est_wrap_adapt (w);
  GForest f1 = gather (p);
  std::string why;
  CHK (same_set (f1.q, want, why, true), "adapt-leaves", "after adaptation (%zu refined, %zu families coarsened of %zu leaves, delay %d affect %d): %s", torefine.size (), parents.size (), f0.q.size (), delay, affect, why.c_str ());
  CHK ((ch != 0) == want_change, "adapt-return", "adaptation returns %d, the forest %s", ch, want_change ? "changed" : "did not change");
  CHK (w->num_refine_flags == 0, "flag-count", "%d refinement flags left", (int) w->num_refine_flags);
  /* ages afterwards */
  {
    Ages nx;
    for (auto & a : f1.q) { auto it = mid.find (a); nx[a] = it != mid.end () ? it->second : -1; }
    h.age.swap (nx);
  }
  /* replacement callback */
  if (w->params.replace_fn) {
    i64 created = 0;                    /* refined nodes of this process, by balance or mark */
    std::set<Leaf, LeafCmp> s1; for (auto & a : f1.q) s1.insert (a);
    for (auto & e : mid) if (e.first.rank == run.rank && !s1.count (e.first)) {
      /* internal nodes of the tree that replaced it */
      std::set<Leaf, LeafCmp> inner;
      for (auto & a : f1.q) if (a.t == e.first.t && a.key () >= e.first.key () && a.key () < e.first.key () + leaf_span (e.first.l))
        for (Leaf b = a; b.l > e.first.l; ) { b = leaf_parent (b); inner.insert (b); }
      created += inner.size ();
    }
    CHK (!rep.bad, "replace-args", "replacement callback with wrong quadrants or user pointer");
    CHK (rep.refine == local_ref + created && rep.coarsen == local_coar, "replace-count", "replacement called %lld/%lld times for refinement/coarsening, expected %lld+%lld/%lld", (long long) rep.refine, (long long) rep.coarsen, (long long) local_ref, (long long) created, (long long) local_coar);
    count ("replacements", rep.refine + rep.coarsen);
  }
  /* lists of adapted leaves */
  if (w->params.store_adapted) {
    std::vector<i64> nr, ncx;
    std::vector<Leaf> o, n;
    for (auto & a : f0.q) if (a.rank == run.rank) o.push_back (a);
    for (auto & a : f1.q) if (a.rank == run.rank) n.push_back (a);
    std::set<Leaf, LeafCmp> so (o.begin (), o.end ());
    for (size_t i = 0; i < n.size (); ++i) {
      if (so.count (n[i])) continue;
      if (n[i].l > 0 && so.count (leaf_parent (n[i]))) { if (leaf_childid (n[i]) == 0) nr.push_back (i); }
      else ncx.push_back (i);
    }
    std::vector<i64> gr, gc;
    for (size_t z = 0; z < w->newly_refined->elem_count; ++z) gr.push_back (*(p4est_locidx_t *) sc_array_index (w->newly_refined, z));
    for (size_t z = 0; z < w->newly_coarsened->elem_count; ++z) gc.push_back (*(p4est_locidx_t *) sc_array_index (w->newly_coarsened, z));
    CHK (gr == nr, "newly-refined", "%zu newly refined leaves listed, %zu found", gr.size (), nr.size ());
    CHK (gc == ncx, "newly-coarsened", "%zu newly coarsened leaves listed, %zu found", gc.size (), ncx.size ());
    count ("newly_refined", nr.size ()); count ("newly_coarsened", ncx.size ());
  }
  gcount ("adaptations"); gcount ("refined", torefine.size ()); gcount ("coarsened", parents.size ());
  if (!want_change && (torefine.size () || parents.size ())) gcount ("adaptation_cancelled");
  if (f0.q.size () == f1.q.size () && want_change) gcount ("same_count_changed");
  gcount (ch ? "adapted" : "adapt_unchanged");
  check_views (w, ch ? "after adaptation" : "without adaptation");
  int anych = allmax (ch, MPI_COMM_WORLD);
  if (anych != ch) { FAILK ("adapt-return", "adaptation returns %d here and %d elsewhere", ch, anych); }
  if (!ch || !want_change) { p4est_destroy (ref); return; }
  /* the previous views remain until the partition */
  CHK (ghost_digest (w->ghost) == oldg && mesh_digest (w->mesh) == oldm, "views-previous", "the ghost layer or mesh before the adaptation changed");

  /* partition */
  int ex = r.below (2);
  int args = r.below (8);
  p4est_partition_ext (ref, w->params.partition_for_coarsening, ex ? weight_level : NULL);
  GForest fr = gather (ref);
  p4est_locidx_t uf = -7, ul = -7, uo = -7;
  int pch = p4est_wrap_partition (w, ex, args & 1 ? &uf : NULL, args & 2 ? &ul : NULL, args & 4 ? &uo : NULL);
  GForest f2 = gather (p);
  CHK (same_set (f2.q, fr.q, why, true), "partition-leaves", "after partition with exponent %d: %s", ex, why.c_str ());
  bool moved = false;
  for (size_t i = 0; i < f1.q.size () && i < f2.q.size (); ++i) if (f1.q[i].rank != f2.q[i].rank) moved = true;
  CHK ((pch != 0) == moved, "partition-return", "partition returns %d, leaves %s", pch, moved ? "moved" : "did not move");
  i64 a0 = f1.rfirst[run.rank], a1 = f1.rfirst[run.rank + 1], b0 = f2.rfirst[run.rank], b1 = f2.rfirst[run.rank + 1];
  i64 lo = std::max (a0, b0), hi = std::min (a1, b1);
  i64 wf = 0, wl = 0, wo = 0;
  if (lo < hi) { wf = lo - b0; wl = hi - lo; wo = lo - a0; count ("stayed", wl); }
  if (args & 1) CHK (uf == wf, "unchanged-first", "unchanged range starts at %d of the new partition, expected %lld", (int) uf, (long long) wf);
  if (args & 2) CHK (ul == wl, "unchanged-length", "unchanged range has %d leaves, expected %lld", (int) ul, (long long) wl);
  if (args & 4) CHK (uo == wo, "unchanged-old", "unchanged range starts at %d of the old partition, expected %lld", (int) uo, (long long) wo);
  gcount (moved ? "partition_moved" : "partition_stayed");
  check_views (w, "after partition");
  if (pch) {
    if (w->ghost_aux && w->mesh_aux) count ("aux_kept");
    p4est_wrap_complete (w);
    check_views (w, "after completion");
  }
  CHK (w->ghost_aux == NULL && w->mesh_aux == NULL && w->match_aux == 0, "aux-gone", "intermediate views remain after the cycle");
  CHK (p4est_is_valid (p), "is-valid", "the wrapped forest is invalid");
  distinct_state (f2.hash (true));
  p4est_destroy (ref);
}

#ifndef P4_TO_P8
#define W_CASES 8
#else
#define W_CASES 3
#endif
void constructors (Rng & r)
{
  int lv = r.range (-1, VH_DIM == 2 ? 3 : 2);
  int k = r.below (W_CASES + 1);
  p4est_wrap_t *w = NULL; p4est_connectivity_t *c = NULL;
  int a = r.range (1, 3), b = r.range (1, 3), px = r.below (2), py = r.below (2);
  switch (k) {
#ifndef P4_TO_P8
  case 0: w = p4est_wrap_new_unitsquare (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_unitsquare (); break;
  case 1: w = p4est_wrap_new_periodic (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_periodic (); break;
  case 2: w = p4est_wrap_new_rotwrap (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_rotwrap (); break;
  case 3: w = p4est_wrap_new_corner (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_corner (); break;
  case 4: w = p4est_wrap_new_pillow (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_pillow (); break;
  case 5: w = p4est_wrap_new_moebius (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_moebius (); break;
  case 6: w = p4est_wrap_new_cubed (MPI_COMM_WORLD, lv); c = p4est_connectivity_new_cubed (); break;
  case 7: w = p4est_wrap_new_disk (MPI_COMM_WORLD, px, py, lv); c = p4est_connectivity_new_disk (px, py); break;
  default: w = p4est_wrap_new_brick (MPI_COMM_WORLD, a, b, px, py, lv); c = p4est_connectivity_new_brick (a, b, px, py); break;
#else
  case 0: w = p8est_wrap_new_unitcube (MPI_COMM_WORLD, lv); c = p8est_connectivity_new_unitcube (); break;
  case 1: w = p8est_wrap_new_rotwrap (MPI_COMM_WORLD, lv); c = p8est_connectivity_new_rotwrap (); break;
  case 2: w = p8est_wrap_new_world (lv); c = p8est_connectivity_new_unitcube (); break;
  default: w = p8est_wrap_new_brick (MPI_COMM_WORLD, a, b, 2, px, py, 1, lv); c = p8est_connectivity_new_brick (a, b, 2, px, py, 1); break;
#endif
  }
  CHK (p4est_connectivity_is_equal (w->conn, c), "constructor-conn", "constructor %d has another connectivity", k);
  CHK (w->p4est_dim == DIM && w->p4est_half == NH && w->p4est_faces == NF && w->p4est_children == NC, "constructor-members", "dimension constants %d %d %d %d", w->p4est_dim, w->p4est_half, w->p4est_faces, w->p4est_children);
  CHK (!w->params.hollow && w->params.mesh_params.btype == P4EST_CONNECT_FULL, "constructor-members", "hollow or neighbourhood type");
  p4est_t *u = p4est_new_ext (MPI_COMM_WORLD, c, 0, lv, 1, 0, NULL, NULL);
  std::string why;
  CHK (same_set (leaves_of (w->p4est), leaves_of (u), why, true), "constructor-leaves", "%s", why.c_str ());
  check_views (w, "after construction");
  p4est_destroy (u);
  p4est_connectivity_destroy (c);
  p4est_wrap_destroy (w);
  gcount ("constructors");
}

void prop_wrap (Rng & r)
{
  if (r.chance (.06)) { describe ("constructors"); constructors (r); ++run.judged; return; }
  ConnOpts co; co.max_trees = 6;
  std::string name;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  Geo g; g.init (c);
  History h; h.geo = &g;
  p4est_wrap_params_t prm;
  p4est_wrap_params_init (&prm);
  CHK (prm.hollow == 1 && prm.coarsen_delay == 0 && prm.replace_fn == NULL && prm.store_adapted == 0 && prm.partition_for_coarsening == 1, "params-default", "default parameters");
  prm.hollow = r.chance (.2);
  int mind = r.below (DIM);
  prm.mesh_params.btype = conn_type (mind);
  prm.mesh_params.compute_level_lists = r.below (2);
  prm.mesh_params.compute_tree_index = r.below (2);
  prm.replace_fn = r.chance (.5) ? replace_cb : NULL;
  prm.coarsen_delay = r.chance (.4) ? r.range (1, 2) : 0;
  prm.coarsen_affect = r.below (2);
  prm.partition_for_coarsening = r.below (2);
  prm.store_adapted = r.below (2);
  int dummy; prm.user_pointer = &dummy;
  describe ("%s trees %d type %d delay %d affect %d store %d", name.c_str (), g.nt, mind, prm.coarsen_delay, prm.coarsen_affect, prm.store_adapted);
  if (r.chance (.5)) h.w = p4est_wrap_new_params (MPI_COMM_WORLD, c, r.range (-1, VH_DIM == 2 ? 3 : 2), &prm);
  else {
    ForestOpts fo; fo.target = r.pick ({10, 50, 150}); fo.maxl = VH_DIM == 2 ? 5 : 3; fo.data_size = r.pick ({0, 8});
    p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
    p4est_balance (p, P4EST_CONNECT_FULL, NULL);
    if (r.chance (.5)) random_partition (r, p, true);
    p->user_pointer = NULL;
    h.w = p4est_wrap_new_p4est_params (p, &prm);
    CHK (h.w->p4est == p && p->data_size == 0, "owns-forest", "wrapper does not own the forest");
    gcount ("wrapped_forests");
  }
  reset_ages (h);
  if (h.w->params.hollow) {
    check_views (h.w, "hollow");
    p4est_wrap_set_hollow (h.w, 1);
    p4est_wrap_set_hollow (h.w, 0);
    gcount ("unhollowed");
  }
  check_views (h.w, "after creation");
  int steps = r.range (2, 6);
  for (int s = 0; s < steps; ++s) {
    cycle (r, h);
    if (allmax (run.nfail_case, MPI_COMM_WORLD)) break;
    ++run.judged;
    if (r.chance (.1)) {
      p4est_wrap_set_coarsen_delay (h.w, r.below (3), r.below (2));
      reset_ages (h);
      gcount ("delay_set");
    }
    if (r.chance (.08)) p4est_wrap_set_partitioning (h.w, r.below (2));
    if (r.chance (.1)) {                /* marks are dropped by making it hollow */
      p4est_t *p = h.w->p4est;
      if (p->first_local_tree >= 0) p4est_wrap_mark_refine (h.w, p->first_local_tree, 0);
      p4est_wrap_set_hollow (h.w, 1);
      check_views (h.w, "made hollow");
      p4est_wrap_set_hollow (h.w, 0);
      check_views (h.w, "filled again");
      gcount ("hollowed");
    }
    if (r.chance (.15)) {               /* a copy lives on its own */
      u64 h0 = gather (h.w->p4est).hash (true);
      p4est_wrap_t *cp = p4est_wrap_new_copy (h.w, 0, r.chance (.5) ? replace_cb : NULL, &dummy);
      CHK (gather (cp->p4est).hash (true) == h0, "copy-leaves", "the copy has another forest");
      CHK (cp->params.hollow && cp->conn == h.w->conn && cp->params.user_pointer == &dummy, "copy-members", "copy members");
      if (h.w->newly_refined) CHK (cp->newly_refined && cp->newly_refined->elem_count == h.w->newly_refined->elem_count
                                   && !memcmp (cp->newly_refined->array, h.w->newly_refined->array, cp->newly_refined->elem_count * sizeof (p4est_locidx_t))
                                   && cp->newly_coarsened->elem_count == h.w->newly_coarsened->elem_count, "copy-lists", "copied lists of adapted leaves");
      if (r.chance (.7)) {
        History h2; h2.w = cp; h2.geo = &g;
        p4est_wrap_set_hollow (cp, 0);
        p4est_wrap_set_coarsen_delay (cp, r.below (2), 0);
        reset_ages (h2);
        cycle (r, h2);
      }
      p4est_wrap_destroy (cp);
      CHK (gather (h.w->p4est).hash (true) == h0, "copy-separate", "changing the copy changed the original");
      gcount ("copies");
    }
  }
  p4est_wrap_destroy (h.w);
}
REGISTER_PROP ("C21", prop_wrap)
}

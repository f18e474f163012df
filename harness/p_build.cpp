/* C24: forests made from leaves, points, counts and ranges.  The expected leaf
 * sets come from one recursion: the coarsest set tiling a key range of a tree
 * that contains the requested leaves. */
#include "core.hpp"
#include <sc_sort.h>

namespace {

Leaf root_leaf (int t) { Leaf a; a.t = t; a.l = 0; a.x[0] = a.x[1] = a.x[2] = 0; a.rank = -1; a.gi = -1; return a; }
u128 tree_span () { return leaf_span (0); }

/* coarsest tiling of [lo, hi) below node n containing the sorted disjoint leaves keep[b..e) */
void fill (const Leaf & n, u128 lo, u128 hi, const std::vector<Leaf> & keep, size_t b, size_t e, std::vector<Leaf> & out)
{
  u128 k = n.key (), k1 = k + leaf_span (n.l);
  if (k1 <= lo || k >= hi) return;
  while (b < e && keep[b].key () + leaf_span (keep[b].l) <= k) ++b;
  while (e > b && keep[e - 1].key () >= k1) --e;
  bool in = lo <= k && k1 <= hi;
  if (in && (b == e || (e == b + 1 && keep[b].l == n.l))) { out.push_back (n); return; }
  if (n.l >= QML) { out.push_back (n); return; }       /* would be an error of the input */
  for (int c = 0; c < NC; ++c) fill (leaf_child (n, c), lo, hi, keep, b, e, out);
}
std::vector<Leaf> fill_tree (int t, u128 lo, u128 hi, const std::vector<Leaf> & keep)
{
  std::vector<Leaf> out;
  fill (root_leaf (t), lo, hi, keep, 0, keep.size (), out);
  return out;
}
bool same_list (const std::vector<Leaf> & a, const std::vector<Leaf> & b, std::string & why)
{
  for (size_t i = 0; i < a.size () || i < b.size (); ++i)
    if (i >= a.size () || i >= b.size () || !a[i].same (b[i])) {
      why = "at " + std::to_string (i) + ": got " + (i < a.size () ? leaf_str (a[i]) : "nothing") + ", expected " + (i < b.size () ? leaf_str (b[i]) : "nothing")
        + " (" + std::to_string (a.size ()) + " against " + std::to_string (b.size ()) + ")";
      return false;
    }
  return true;
}

/* initialisation callbacks: note the leaf and tag its data */
struct Ctx { u64 salt[2]; std::vector<Leaf> seen[2]; };
Ctx ctx;
void init_k (int k, p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q)
{
  ctx.seen[k].push_back (mkleaf (t, q));
  if (p->data_size) fill_bytes (q->p.user_data, p->data_size, leaf_id (t, q, ctx.salt[k]));
  if (p->user_pointer != &ctx) FAILK ("user-pointer", "user pointer not registered when the callback runs");
}
void init_a (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { init_k (0, p, t, q); }
void init_b (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { init_k (1, p, t, q); }
void ctx_reset (Rng & r) { ctx.seen[0].clear (); ctx.seen[1].clear (); ctx.salt[0] = r.next (); ctx.salt[1] = r.next (); }

void check_data (p4est_t * p, const std::vector<char> & which, const char *what)
{
  if (!p->data_size) return;
  size_t i = 0;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tree = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tree->quadrants.elem_count; ++z, ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tree->quadrants, z);
      int k = which.empty () ? 0 : which[i];
      if (k < 0) continue;
      CHK (check_bytes (q->p.user_data, p->data_size, leaf_id (t, q, ctx.salt[k])), "leaf-data", "%s: leaf %s does not hold the data of its initialisation (%s)", what, leaf_str (mkleaf (t, q)).c_str (), k ? "second" : "first");
      count ("leaf_data");
    }
  }
}
/* tree counters of the result */
void check_counters (p4est_t * p, const char *what)
{
  i64 off = 0;
  for (p4est_topidx_t t = 0; t < p->connectivity->num_trees; ++t) {
    p4est_tree_t *tree = p4est_tree_array_index (p->trees, t);
    std::vector<i64> lv (ML + 1, 0);
    int mx = 0;
    for (size_t z = 0; z < tree->quadrants.elem_count; ++z) { int l = p4est_quadrant_array_index (&tree->quadrants, z)->level; ++lv[l]; mx = std::max (mx, l); }
    for (int l = 0; l <= QML; ++l) CHK (tree->quadrants_per_level[l] == lv[l], "tree-counters", "%s: tree %d level %d counts %d, holds %lld", what, (int) t, l, (int) tree->quadrants_per_level[l], (long long) lv[l]);
    CHK (tree->maxlevel == mx, "tree-maxlevel", "%s: tree %d maxlevel %d, deepest %d", what, (int) t, tree->maxlevel, mx);
    i64 want = p->local_num_quadrants == 0 ? 0 : off;
    CHK (tree->quadrants_offset == want, "tree-offset", "%s: tree %d offset %d, expected %lld", what, (int) t, (int) tree->quadrants_offset, (long long) want);
    off += tree->quadrants.elem_count;
  }
  CHK (off == p->local_num_quadrants, "local-count", "%s: local_num_quadrants %d, holds %lld", what, (int) p->local_num_quadrants, (long long) off);
}
void check_forest (p4est_t * p, const char *what)
{
  CHK (p4est_is_valid (p), "is-valid", "%s: the result is not a valid forest", what);
  check_counters (p, what);
  GForest f = gather (p);
  std::string why;
  CHK (complete_sorted (f.q, p->connectivity->num_trees, why), "complete", "%s: %s", what, why.c_str ());
  CHK (p->global_num_quadrants == (i64) f.q.size (), "global-count", "%s: global %lld, leaves %zu", what, (long long) p->global_num_quadrants, f.q.size ());
  for (int k = 0; k <= run.size; ++k) CHK (p->global_first_quadrant[k] == f.rfirst[k], "global-first", "%s: global_first_quadrant[%d] %lld, expected %lld", what, k, (long long) p->global_first_quadrant[k], (long long) f.rfirst[k]);
  distinct_state (f.hash (true));
}
/* key range of a local tree */
void tree_range (const std::vector<Leaf> & loc, int t, u128 & lo, u128 & hi)
{
  lo = 1; hi = 0;
  bool any = false;
  for (auto & a : loc) if (a.t == t) { if (!any) lo = a.key (); any = true; hi = a.key () + leaf_span (a.l); }
}

/* ------------------------------------------------------------- region */
void do_region (Rng & r, p4est_connectivity_t * c)
{
  p4est_t *p = p4est_new_ext (MPI_COMM_SELF, c, 0, 0, 1, r.pick ({0, 8, 13}), NULL, &ctx);
  for (int n = 0; n < 6; ++n) {
    ctx_reset (r);
    int la, lb, maxl = r.chance (.2) ? QML : r.range (1, 7);
    Leaf a = root_leaf (r.below (c->num_trees)), b = a;
    la = r.range (1, maxl); lb = r.range (1, maxl);
    for (int i = 0; i < la; ++i) a = leaf_child (a, r.chance (.3) ? 0 : r.below (NC));
    if (r.chance (.3)) { int common = r.below (la); b = a; while (b.l > common) b = leaf_parent (b); }
    while (b.l < lb) b = leaf_child (b, r.chance (.3) ? NC - 1 : r.below (NC));
    if (b.key () < a.key ()) std::swap (a, b);
    if (a.key () + leaf_span (a.l) > b.key ()) continue;
    int i1 = r.below (2), i2 = r.below (2);
    p4est_quadrant_t q1, q2;
    leaf_to_quad (a, &q1); leaf_to_quad (b, &q2);
    p4est_tree_t tree; memset (&tree, 0, sizeof tree);
    sc_array_init (&tree.quadrants, sizeof (p4est_quadrant_t));
    p4est_complete_region (p, &q1, i1, &q2, i2, &tree, a.t, init_a);
    std::vector<Leaf> got, keep;
    for (size_t z = 0; z < tree.quadrants.elem_count; ++z) got.push_back (mkleaf (a.t, p4est_quadrant_array_index (&tree.quadrants, z)));
    if (i1) keep.push_back (a);
    if (i2) keep.push_back (b);
    std::vector<Leaf> want = fill_tree (a.t, a.key () + (i1 ? 0 : leaf_span (a.l)), b.key () + (i2 ? leaf_span (b.l) : 0), keep);
    std::string why;
    CHK (same_list (got, want, why), "region", "completing between %s (%d) and %s (%d) %s", leaf_str (a).c_str (), i1, leaf_str (b).c_str (), i2, why.c_str ());
    std::vector<i64> lv (ML + 1, 0); int mx = 0;
    for (size_t i = 0; i < got.size (); ++i) {
      ++lv[got[i].l]; mx = std::max (mx, got[i].l);
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tree.quadrants, i);
      if (p->data_size) CHK (check_bytes (q->p.user_data, p->data_size, leaf_id (a.t, q, ctx.salt[0])), "leaf-data", "region: leaf %s lacks its data", leaf_str (got[i]).c_str ());
      p4est_quadrant_free_data (p, q);
    }
    std::sort (ctx.seen[0].begin (), ctx.seen[0].end (), LeafCmp ());
    CHK (same_list (ctx.seen[0], got, why), "region-init", "initialisation callback: %s", why.c_str ());
    for (int l = 0; l <= QML; ++l) CHK (tree.quadrants_per_level[l] == lv[l], "tree-counters", "region: level %d counts %d, holds %lld", l, (int) tree.quadrants_per_level[l], (long long) lv[l]);
    CHK (tree.maxlevel == mx, "tree-maxlevel", "region: maxlevel %d, deepest %d", tree.maxlevel, mx);
    sc_array_reset (&tree.quadrants);
    count ("regions"); count ("region_leaves", got.size ());
  }
  p4est_destroy (p);
}

/* -------------------------------------------------------------- build */
struct SearchCtx { p4est_build_t *b; std::vector<Leaf> *plan; size_t next; i64 added, dup; };
SearchCtx sctx;
int build_search_cb (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t local_num, void *)
{
  if (local_num < 0) return 1;
  /* everything planned inside this leaf */
  Leaf a = mkleaf (t, q);
  while (sctx.next < sctx.plan->size ()) {
    Leaf & b = (*sctx.plan)[sctx.next];
    if (b.t != t || b.key () >= a.key () + leaf_span (a.l)) break;
    p4est_quadrant_t bq; leaf_to_quad (b, &bq);
    int rv = p4est_build_add (sctx.b, t, &bq);
    CHK (rv == 1, "add-return", "adding %s returns %d", leaf_str (b).c_str (), rv);
    if (sctx.next % 3 == 1) { rv = p4est_build_add (sctx.b, t, &bq); CHK (rv == 0, "add-twice", "adding %s again returns %d", leaf_str (b).c_str (), rv); ++sctx.dup; }
    ++sctx.added; ++sctx.next;
  }
  return 1;
}
void do_build (Rng & r, p4est_t * from)
{
  std::vector<Leaf> loc = local_leaves (from);
  GForest before = gather (from);
  u64 h0 = before.hash (true);
  bool use_search = r.chance (.4), two_init = r.chance (.6), none = r.chance (.15);
  double padd = r.pick ({5, 30, 90, 100}) / 100.;
  size_t ds = r.pick ({0, 4, 17});
  ctx_reset (r);
  /* plan: per rank, derived from a rank specific stream */
  Rng lr (hcomb (r.next (), run.rank + 1));
  std::vector<Leaf> plan;
  u128 end = 0; int et = -1;
  for (auto & a : loc) {
    if (none || !lr.chance (padd)) continue;
    Leaf b = a;
    int what = lr.below (use_search ? 6 : 10);
    if (what < 3) {             /* a few descendants in order */
      int nsub = lr.range (1, 3);
      std::vector<Leaf> sub;
      for (int i = 0; i < nsub; ++i) {
        Leaf d = a; int dl = lr.chance (.1) ? QML : std::min (QML, a.l + lr.range (0, 3));
        while (d.l < dl) d = leaf_child (d, lr.below (NC));
        sub.push_back (d);
      }
      std::sort (sub.begin (), sub.end (), LeafCmp ());
      u128 se = 0; bool first = true;
      for (auto & d : sub) if ((et != d.t || d.key () >= end) && (first || d.key () >= se)) { plan.push_back (d); se = d.key () + leaf_span (d.l); first = false; }
      if (!first) { et = a.t; end = se; }
      continue;
    }
    if (what >= 7) {            /* an ancestor when it fits */
      u128 lo, hi; tree_range (loc, a.t, lo, hi);
      int up = lr.range (1, 3);
      while (up-- > 0 && b.l > 0) {
        Leaf q = leaf_parent (b);
        if (q.key () < lo || q.key () + leaf_span (q.l) > hi) break;
        if (et == a.t && q.key () < end) break;
        b = q;
      }
    }
    if (et == b.t && b.key () < end) continue;
    plan.push_back (b); et = b.t; end = b.key () + leaf_span (b.l);
  }
  p4est_build_t *bd = p4est_build_new (from, ds, init_a, &ctx);
  if (two_init) p4est_build_init_add (bd, init_b);
  i64 dup = 0;
  if (use_search) {
    sctx = SearchCtx{bd, &plan, 0, 0, 0};
    p4est_search_local (from, r.below (2), build_search_cb, NULL, NULL);
    CHK (sctx.next == plan.size (), "search-reach", "the search reached %zu of %zu planned leaves", sctx.next, plan.size ());
    dup = sctx.dup;
    count ("build_by_search");
  }
  else {
    for (auto & b : plan) {
      p4est_quadrant_t q; leaf_to_quad (b, &q);
      q.p.which_tree = 77;
      int rv = p4est_build_add (bd, b.t, &q);
      CHK (rv == 1, "add-return", "adding %s returns %d", leaf_str (b).c_str (), rv);
      if (lr.chance (.2)) { rv = p4est_build_add (bd, b.t, &q); CHK (rv == 0, "add-twice", "adding %s again returns %d", leaf_str (b).c_str (), rv); ++dup; }
    }
  }
  p4est_t *p = p4est_build_complete (bd);
  check_forest (p, "build");
  CHK (p->revision == 0, "build-revision", "revision %ld", p->revision);
  CHK (p->user_pointer == &ctx && p->data_size == ds && p->connectivity == from->connectivity, "build-members", "user pointer, data size or connectivity differ");
  CHK (gather (from).hash (true) == h0, "build-template", "the template forest changed");
  std::vector<Leaf> want;
  for (p4est_topidx_t t = from->first_local_tree; t <= from->last_local_tree; ++t) {
    u128 lo, hi; tree_range (loc, t, lo, hi);
    std::vector<Leaf> keep;
    for (auto & b : plan) if (b.t == t) keep.push_back (b);
    if (keep.empty ()) count ("build_empty_trees"); else count ("build_trees");
    std::vector<Leaf> w = fill_tree (t, lo, hi, keep);
    want.insert (want.end (), w.begin (), w.end ());
  }
  std::vector<Leaf> got = local_leaves (p);
  std::string why;
  CHK (same_list (got, want, why), "build-leaves", "%s", why.c_str ());
  std::vector<char> which (got.size (), 0);
  size_t j = 0;
  for (size_t i = 0; i < got.size () && j < plan.size (); ++i) if (got[i].same (plan[j])) { which[i] = two_init; ++j; }
  check_data (p, which, "build");
  if (two_init) CHK (ctx.seen[1].size () == plan.size (), "build-add-init", "%zu initialisations of added leaves for %zu additions", ctx.seen[1].size (), plan.size ());
  count ("builds"); count ("build_added", plan.size ()); count ("build_repeated", dup);
  p4est_destroy (p);
}

/* --------------------------------------------------- subtree, remove */
void do_subtree (Rng & r, p4est_t * p)
{
  p->user_pointer = &ctx;
  ctx_reset (r);
  p4est_reset_data (p, r.pick ({0, 5, 16}), init_a, &ctx);
  ctx.seen[0].clear ();
  std::vector<Leaf> loc = local_leaves (p), want;
  std::vector<char> which;
  Rng lr (hcomb (r.next (), run.rank + 17));
  double keepp = r.pick ({1, 10, 50, 90}) / 100.;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tree = p4est_tree_array_index (p->trees, t);
    u128 lo, hi; tree_range (loc, t, lo, hi);
    size_t n = tree->quadrants.elem_count, must = lr.below (n), k = 0;
    std::vector<Leaf> keep;
    int mx = 0;
    for (size_t z = 0; z < n; ++z) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tree->quadrants, z);
      if (z == must || lr.chance (keepp)) {
        keep.push_back (mkleaf (t, q)); mx = std::max (mx, (int) q->level);
        if (k != z) *p4est_quadrant_array_index (&tree->quadrants, k) = *q;
        ++k;
      }
      else { --tree->quadrants_per_level[q->level]; p4est_quadrant_free_data (p, q); }
    }
    sc_array_resize (&tree->quadrants, k);
    tree->maxlevel = mx;
    count ("subtree_removed", n - k); count ("subtree_kept", k);
    std::vector<Leaf> w = fill_tree (t, lo, hi, keep);
    size_t j = 0;
    for (auto & a : w) { bool kp = j < keep.size () && keep[j].same (a); if (kp) ++j; which.push_back (kp ? 0 : 1); }
    want.insert (want.end (), w.begin (), w.end ());
    p4est_complete_subtree (p, t, init_b);
  }
  i64 off = 0;
  for (p4est_topidx_t t = 0; t < p->connectivity->num_trees; ++t) {
    p4est_tree_t *tree = p4est_tree_array_index (p->trees, t);
    tree->quadrants_offset = p->local_num_quadrants ? off : 0;
    off += tree->quadrants.elem_count;
  }
  p->local_num_quadrants = off;
  p4est_comm_count_quadrants (p);
  check_forest (p, "subtree");
  std::vector<Leaf> got = local_leaves (p);
  std::string why;
  if (same_list (got, want, why)) check_data (p, which, "subtree");
  else FAILK ("subtree-leaves", "%s", why.c_str ());
  count ("subtrees");
}
void do_remove (Rng & r, p4est_t * p)
{
  ctx_reset (r);
  p4est_reset_data (p, r.pick ({0, 5, 16}), init_a, &ctx);
  GForest f = gather (p);
  Rng lr (hcomb (r.next (), run.rank + 23));
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tree = p4est_tree_array_index (p->trees, t);
    std::vector<p4est_quadrant_t> all;
    std::vector<Leaf> mine;
    size_t z = 0, extra = 0;
    for (i64 i = f.tfirst[t]; i < f.tfirst[t + 1]; ++i) {
      if (f.q[i].rank == run.rank) { all.push_back (*p4est_quadrant_array_index (&tree->quadrants, z++)); mine.push_back (f.q[i]); continue; }
      if (!lr.chance (.4)) continue;
      p4est_quadrant_t q; leaf_to_quad (f.q[i], &q);
      p4est_quadrant_init_data (p, t, &q, init_a);
      ++tree->quadrants_per_level[q.level];
      tree->maxlevel = std::max<int> (tree->maxlevel, q.level);
      all.push_back (q); ++extra;
    }
    sc_array_resize (&tree->quadrants, all.size ());
    for (size_t i = 0; i < all.size (); ++i) *p4est_quadrant_array_index (&tree->quadrants, i) = all[i];
    size_t rem = p4est_tree_remove_nonowned (p, t);
    CHK (rem == extra, "remove-count", "removed %zu of %zu exterior leaves", rem, extra);
    std::vector<Leaf> got;
    for (size_t i = 0; i < tree->quadrants.elem_count; ++i) got.push_back (mkleaf (t, p4est_quadrant_array_index (&tree->quadrants, i)));
    std::string why;
    CHK (same_list (got, mine, why), "remove-leaves", "%s", why.c_str ());
    count ("removed_exterior", extra);
  }
  check_forest (p, "remove");
  check_data (p, {}, "remove");
  count ("removals");
}

/* ---------------------------------------------------------------- new */
void do_new (Rng & r, p4est_connectivity_t * c)
{
  int nt = c->num_trees;
  int minl = r.range (-1, VH_DIM == 2 ? 4 : 3), uni = r.below (2);
  if (!uni && r.chance (.2)) minl = r.range (4, VH_DIM == 2 ? 12 : 8);
  i64 minq = r.chance (.4) ? 0 : r.range (1, 40);
  size_t ds = r.pick ({0, 3, 24});
  ctx_reset (r);
  p4est_t *p = p4est_new_ext (MPI_COMM_WORLD, c, minq, minl, uni, ds, init_a, &ctx);
  int level = 0; i64 per = 1;
  while (per * nt < (i64) run.size * minq) { ++level; per *= NC; }
  while (level < minl) { ++level; per *= NC; }
  check_forest (p, "new");
  CHK (p->revision == 0 && p->data_size == ds && p->user_pointer == &ctx && p->connectivity == c, "new-members", "revision, data size, user pointer or connectivity");
  std::vector<Leaf> want;
  i64 glob = per * nt;
  i64 lo = (i64) ((__int128) glob * run.rank / run.size), hi = (i64) ((__int128) glob * (run.rank + 1) / run.size);
  u128 sp = leaf_span (level);
  for (int t = 0; t < nt; ++t) {
    i64 a = std::max<i64> (lo - t * per, 0), b = std::min<i64> (hi - t * per, per);
    if (a >= b) continue;
    std::vector<Leaf> keep, w;
    if (uni) {
      std::vector<Leaf> lv (1, root_leaf (t));
      for (int l = 0; l < level; ++l) { std::vector<Leaf> nx; for (auto & q : lv) for (int k = 0; k < NC; ++k) nx.push_back (leaf_child (q, k)); lv.swap (nx); }
      for (i64 i = a; i < b; ++i) w.push_back (lv[i]);
    }
    else {
      /* the first and, when the tree ends here, the last are at the uniform level */
      auto at = [&] (i64 i) { Leaf q = root_leaf (t); for (int l = level - 1; l >= 0; --l) q = leaf_child (q, (int) ((i >> (DIM * l)) & (NC - 1))); return q; };
      keep.push_back (at (a));
      if (b == per && b - 1 > a) keep.push_back (at (b - 1));
      w = fill_tree (t, (u128) a * sp, (u128) b * sp, keep);
    }
    want.insert (want.end (), w.begin (), w.end ());
  }
  std::vector<Leaf> got = local_leaves (p);
  std::string why;
  CHK (same_list (got, want, why), "new-leaves", "min quadrants %lld level %d uniform %d: %s", (long long) minq, minl, uni, why.c_str ());
  if (uni) CHK ((i64) got.size () >= minq, "new-minimum", "%zu leaves, at least %lld requested", got.size (), (long long) minq);
  std::sort (ctx.seen[0].begin (), ctx.seen[0].end (), LeafCmp ());
  CHK (same_list (ctx.seen[0], got, why), "new-init", "initialisation callback: %s", why.c_str ());
  check_data (p, {}, "new");
  count (uni ? "new_uniform" : "new_coarse");
  p4est_destroy (p);
}

/* ------------------------------------------------------------- points */
void do_points (Rng & r, p4est_connectivity_t * c)
{
  int nt = c->num_trees;
  int maxlevel = r.chance (.15) ? QML : r.range (0, 8), maxp = r.pick ({-1, 0, 1, 1, 2, 5});
  bool cluster = r.chance (.5);
  size_t ds = r.pick ({0, 9});
  Leaf cl[3];
  for (auto & x : cl) { x = root_leaf (r.below (nt)); int l = r.below (6); while (x.l < l) x = leaf_child (x, r.below (NC)); }
  int per = r.pick ({0, 3, 20, 60});
  ctx_reset (r);
  Rng lr (hcomb (r.next (), run.rank + 5));
  int np = run.rank == 0 && per == 0 ? 1 : lr.below (per + 1);
  if (r.chance (.3)) np = per;
  if (maxp == 0) np = std::min (np, 8);
  std::vector<p4est_quadrant_t> pts (np);
  const i64 unit = (i64) 1 << (ML - QML);
  for (auto & q : pts) {
    memset (&q, 0, sizeof q);
    Leaf b = cluster ? cl[lr.below (3)] : root_leaf (lr.below (nt));
    i64 x[3] = {0, 0, 0};
    for (int i = 0; i < DIM; ++i) {
      x[i] = b.x[i] + (i64) (lr.unit () * (b.len () / unit + 1)) * unit;
      if (lr.chance (.1)) x[i] = b.x[i] + (lr.chance (.5) ? b.len () : 0);
      if (x[i] >= RL) x[i] = RL - 1;
    }
    q.x = x[0]; q.y = x[1];
#ifdef P4_TO_P8
    q.z = x[2];
#endif
    q.level = ML; q.p.which_tree = b.t;
  }
  /* the parallel sort is documented as defective: judge only where it sorts */
  std::vector<p4est_quadrant_t> srt = pts;
  {
    std::vector<size_t> nm (run.size); size_t mine = np;
    MPI_Allgather (&mine, sizeof mine, MPI_BYTE, nm.data (), sizeof mine, MPI_BYTE, MPI_COMM_WORLD);
    size_t tot = 0; for (auto v : nm) tot += v;
    if (!tot) return;
    p4est_quadrant_t dummy;
    sc_psort (MPI_COMM_WORLD, np ? srt.data () : &dummy, nm.data (), sizeof (p4est_quadrant_t), p4est_quadrant_compare_piggy);
  }
  std::vector<p4est_quadrant_t> all = allgatherv (srt, MPI_COMM_WORLD), orig = allgatherv (pts, MPI_COMM_WORLD);
  auto less = [] (const p4est_quadrant_t & a, const p4est_quadrant_t & b) { return p4est_quadrant_compare_piggy (&a, &b) < 0; };
  std::sort (orig.begin (), orig.end (), less);
  bool ok = all.size () == orig.size ();
  for (size_t i = 0; ok && i < all.size (); ++i) ok = p4est_quadrant_compare_piggy (&all[i], &orig[i]) == 0;
  if (!ok) { gcount ("points_unsorted"); return; }
  i64 n0 = np; if (run.rank) n0 = 0;
  p4est_quadrant_t dummy; memset (&dummy, 0, sizeof dummy);
  p4est_t *p = p4est_new_points (MPI_COMM_WORLD, c, maxlevel, np ? pts.data () : &dummy, np, maxp, ds, init_a, &ctx);
  (void) n0;
  check_forest (p, "points");
  CHK (p->data_size == ds && p->user_pointer == &ctx, "points-members", "data size or user pointer");
  check_data (p, {}, "points");
  std::vector<Leaf> got = local_leaves (p), want;
  GForest f = gather (p);
  auto key = [] (const p4est_quadrant_t & q) { i64 x[3] = {q.x, q.y, 0};
#ifdef P4_TO_P8
    x[2] = q.z;
#endif
    return morton (x); };
  /* isolation: no leaf above the maximum level holds more points than allowed */
  for (auto & a : got) {
    i64 n = 0;
    for (auto & q : orig) if ((int) q.p.which_tree == a.t && key (q) >= a.key () && key (q) < a.key () + leaf_span (a.l)) ++n;
    CHK (a.l <= maxlevel, "points-level", "leaf %s below the maximum level %d", leaf_str (a).c_str (), maxlevel);
    if (maxp >= 0 && a.l < maxlevel) CHK (n <= maxp, "points-isolated", "leaf %s holds %lld points, at most %d allowed above level %d", leaf_str (a).c_str (), (long long) n, maxp, maxlevel);
    count ("points_leaves");
  }
  count ("points_forests"); count ("points", np);
  p4est_destroy (p);
}

void prop_build (Rng & r)
{
  ConnOpts co; co.max_trees = 6;
  std::string name;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  ForestOpts fo; fo.target = r.pick ({10, 60, 200}); fo.maxl = 5;
  int what = r.below (8);
  describe ("%s trees %d part %d", name.c_str (), (int) c->num_trees, what);
  switch (what) {
  case 0: do_region (r, c); break;
  case 1: case 2: case 3: { p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo); do_build (r, p); p4est_destroy (p); break; }
  case 4: { p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo); do_subtree (r, p); p4est_destroy (p); break; }
  case 5: { p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo); do_remove (r, p); p4est_destroy (p); break; }
  case 6: do_new (r, c); break;
  case 7: do_points (r, c); break;
  }
  ++run.judged;
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C24", prop_build)
}

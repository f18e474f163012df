/* C02: structural invariant and metadata of the forest after any history. */
#include "core.hpp"

void check_forest (p4est_t * p, const char *after)
{
  GForest g = gather (p);
  std::string why;
  int P = p->mpisize, nt = p->connectivity->num_trees;
  CHK (complete_sorted (g.q, nt, why), "not-complete", "after %s: %s", after, why.c_str ());
  CHK (p->global_num_quadrants == (i64) g.q.size (), "global-num", "after %s: global count %lld, real %zu", after, (long long) p->global_num_quadrants, g.q.size ());
  i64 mine = g.rfirst[p->mpirank + 1] - g.rfirst[p->mpirank];
  CHK (p->local_num_quadrants == mine, "local-num", "after %s: local count %d, real %lld", after, p->local_num_quadrants, (long long) mine);
  for (int r = 0; r <= P; ++r)
    CHK (p->global_first_quadrant[r] == g.rfirst[r], "global-first-quadrant", "after %s: rank %d has %lld, real %lld", after, r, (long long) p->global_first_quadrant[r], (long long) g.rfirst[r]);
  for (int r = 0; r <= P; ++r) {
    const p4est_quadrant_t *m = p->global_first_position + r;
    Leaf a = mkleaf (m->p.which_tree, m);
    int et; i64 ex[3] = {0, 0, 0};
    if (g.rfirst[r] == (i64) g.q.size ()) et = nt;
    else { const Leaf & b = g.q[g.rfirst[r]]; et = b.t; for (int i = 0; i < 3; ++i) ex[i] = b.x[i]; }
    CHK (a.t == et && a.x[0] == ex[0] && a.x[1] == ex[1] && (DIM == 2 || a.x[2] == ex[2]) && a.l == QML, "global-first-position",
         "after %s: rank %d marker tree %d level %d (%lld %lld %lld), expected tree %d (%lld %lld %lld)", after, r, a.t, a.l,
         (long long) a.x[0], (long long) a.x[1], (long long) a.x[2], et, (long long) ex[0], (long long) ex[1], (long long) ex[2]);
  }
  int ft = mine ? g.q[g.rfirst[p->mpirank]].t : -1, lt = mine ? g.q[g.rfirst[p->mpirank + 1] - 1].t : -2;
  CHK (p->first_local_tree == ft && p->last_local_tree == lt, "local-trees", "after %s: first/last local tree %d %d, expected %d %d", after, p->first_local_tree, p->last_local_tree, ft, lt);
  CHK ((int) p->trees->elem_count == nt, "num-trees", "after %s: %zu trees", after, p->trees->elem_count);
  i64 off = 0;
  size_t pos = g.rfirst[p->mpirank], end = g.rfirst[p->mpirank + 1];
  for (int t = 0; t < nt; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    size_t b = pos;
    while (pos < end && g.q[pos].t == t) ++pos;
    i64 n = (i64) (pos - b);
    CHK ((i64) tr->quadrants.elem_count == n, "tree-count", "after %s: tree %d holds %zu of %lld", after, t, tr->quadrants.elem_count, (long long) n);
    CHK (tr->quadrants_offset == off, "tree-offset", "after %s: tree %d offset %d expected %lld", after, t, tr->quadrants_offset, (long long) off);
    off += n;
    int maxl = 0;
    std::vector<i64> pl (ML + 1, 0);
    for (size_t i = b; i < pos; ++i) { maxl = std::max (maxl, g.q[i].l); pl[g.q[i].l]++; }
    CHK (tr->maxlevel == maxl, "tree-maxlevel", "after %s: tree %d maxlevel %d expected %d", after, t, tr->maxlevel, maxl);
    for (int l = 0; l <= maxl; ++l)
      CHK (tr->quadrants_per_level[l] == pl[l], "tree-per-level", "after %s: tree %d level %d count %d expected %lld", after, t, l, tr->quadrants_per_level[l], (long long) pl[l]);
    for (int l = maxl + 1; l <= QML; ++l)
      CHK (tr->quadrants_per_level[l] == 0, "tree-per-level", "after %s: tree %d level %d count %d above maxlevel", after, t, l, tr->quadrants_per_level[l]);
    if (n > 0) {
      Leaf fd = mkleaf (t, &tr->first_desc), ld = mkleaf (t, &tr->last_desc);
      CHK (fd.l == QML && fd.key () == g.q[b].key (), "first-desc", "after %s: tree %d first descendant %s", after, t, leaf_str (fd).c_str ());
      CHK (ld.l == QML && ld.key () + leaf_span (QML) == g.q[pos - 1].key () + leaf_span (g.q[pos - 1].l), "last-desc", "after %s: tree %d last descendant %s", after, t, leaf_str (ld).c_str ());
    }
    for (size_t i = 0; i < tr->quadrants.elem_count; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, i);
      if (p->data_size == 0) continue;
      CHK (q->p.user_data != NULL, "user-data-null", "after %s: leaf without user data", after);
    }
  }
  /* user data memory: exactly one item per leaf */
  if (p->data_size > 0) {
    CHK (p->user_data_pool != NULL && p->user_data_pool->elem_count == (size_t) mine, "data-pool", "after %s: %zu data items for %lld leaves", after,
         p->user_data_pool ? p->user_data_pool->elem_count : 0, (long long) mine);
    std::set<void *> seen;
    for (int t = ft; t >= 0 && t <= lt; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      for (size_t i = 0; i < tr->quadrants.elem_count; ++i) seen.insert (p4est_quadrant_array_index (&tr->quadrants, i)->p.user_data);
    }
    CHK ((i64) seen.size () == mine, "data-shared", "after %s: leaves share user data memory", after);
  }
  CHK (p4est_is_valid (p), "is-valid", "after %s: the library's validity check fails", after);
  count ("leaves_checked", mine);
  gcount ("forest_states_checked");
  int empt = 0;
  for (int r = 0; r < P; ++r) empt += g.rfirst[r + 1] == g.rfirst[r];
  if (empt) gcount ("states_with_empty_process");
  distinct_state (hcomb (g.hash (true), conn_hash (p->connectivity)));
}

/* damage one member on one process; the validity check must notice on all of them */
static void tamper (Rng & r, p4est_t * p)
{
  int who = r.below (p->mpisize), kind = r.below (12), P = p->mpisize, nt = (int) p->trees->elem_count;
  u64 z = r.next ();
  Rng s (z);
  bool done = false;
  std::function<void ()> undo = [] { };
  const char *nm = "";
  p4est_tree_t *full = NULL; int ft = -1;
  if (who == p->mpirank && p->first_local_tree >= 0) { ft = s.range (p->first_local_tree, p->last_local_tree); full = p4est_tree_array_index (p->trees, ft); }
  p4est_tree_t *any = p4est_tree_array_index (p->trees, s.below (nt));
#define HURT(expr, val) do { auto *w = &(expr); auto old = *w; *w = (val); undo = [w, old] { *w = old; }; done = true; } while (0)
#ifdef P4EST_ENABLE_DEBUG
  if (kind == 6 || kind == 7) kind = 9; /* assertions refuse these */
#endif
  if (who == p->mpirank) switch (kind) {
  case 0: nm = "revision"; HURT (p->revision, -1); break;
  case 1: nm = "last position"; if (s.below (2)) HURT (p->global_first_position[P].p.which_tree, nt + (s.below (2) ? 1 : -1));
    else if (s.below (2)) HURT (p->global_first_position[P].x, P4EST_QUADRANT_LEN (1)); else HURT (p->global_first_position[P].y, P4EST_QUADRANT_LEN (1)); break;
  case 2: nm = "position level"; HURT (p->global_first_position[s.below (P + 1)].level, s.below (QML)); break;
  case 3: nm = "first local tree"; if (full && p->first_local_tree < p->last_local_tree) HURT (p->first_local_tree, p->first_local_tree + 1); else if (!full) HURT (p->first_local_tree, -2); break;
  case 4: nm = "last local tree"; if (full && p->first_local_tree < p->last_local_tree) HURT (p->last_local_tree, p->last_local_tree - 1); else if (!full) HURT (p->last_local_tree, -1); break;
  case 5: nm = "tree offset"; HURT (any->quadrants_offset, any->quadrants_offset + (s.below (2) ? 1 : -1)); break;
  case 6: nm = "leaves"; if (full) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&full->quadrants, s.below (full->quadrants.elem_count)), old = *q;
      int how = s.below (2);
      if (how == 0 && full->quadrants.elem_count > 1) {
        p4est_quadrant_t *q2 = p4est_quadrant_array_index (&full->quadrants, s.below (full->quadrants.elem_count)), old2 = *q2;
        if (q2 != q) { *q = old2; *q2 = old; undo = [q, q2, old, old2] { *q = old; *q2 = old2; }; done = true; nm = "order of leaves"; }
      }
      if (!done && q->level < QML) {
        p4est_quadrant_t ch[P4EST_CHILDREN];
        p4est_quadrant_childrenv (q, ch);
        int c = s.below (NC); q->x = ch[c].x; q->y = ch[c].y;
#ifdef P4_TO_P8
        q->z = ch[c].z;
#endif
        q->level++; undo = [q, old] { *q = old; }; done = true; nm = "leaf shrunk";
      }
    } break;
  case 7: nm = "first or last descendant"; if (full) {
      p4est_quadrant_t *q = s.below (2) ? &full->first_desc : &full->last_desc;
      p4est_qcoord_t v = q->x ^ P4EST_QUADRANT_LEN (s.range (1, QML));
      HURT (q->x, v);
    } break;
  case 8: nm = "descendant of an empty tree"; if (any->quadrants.elem_count == 0) HURT ((s.below (2) ? any->first_desc : any->last_desc).level, QML); break;
  case 9: nm = "count per level"; HURT (any->quadrants_per_level[s.below (QML + 1)], s.below (2) ? -1 : 1 + (p4est_locidx_t) any->quadrants.elem_count); break;
  case 10: nm = "maximum level"; HURT (any->maxlevel, any->maxlevel + (any->maxlevel && s.below (2) ? -1 : 1)); break;
  case 11: nm = "number of leaves"; switch (s.below (4)) {
    case 0: HURT (p->local_num_quadrants, p->local_num_quadrants + 1); break;
    case 1: HURT (p->global_num_quadrants, p->global_num_quadrants + (s.below (2) ? 1 : -1)); break;
    case 2: HURT (p->global_first_quadrant[P], p->global_first_quadrant[P] - 1); break;
    default: HURT (p->global_first_quadrant[0], 1); break;
    } break;
  }
#undef HURT
  bool hurt = allmax (done, p->mpicomm);
  if (!hurt) { undo (); return; }
  int ok = p4est_is_valid (p);
  CHK (!ok, "damage-accepted", "the validity check accepts a forest with damaged %s (process %d, kind %d)", nm, who, kind);
  undo ();
  CHK (p4est_is_valid (p), "is-valid", "the validity check fails after undoing the damage");
  gcount ("damages_refused");
}

static void c02 (Rng & r)
{
  std::string name;
  ConnOpts co;
  co.max_trees = r.chance (0.1) ? 24 : 8;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  ForestOpts fo;
  fo.data_size = r.pick ({ 0, 0, 1, 8, 24, 100 });
  fo.target = r.range (1, 400);
  fo.deep = 0.3;
  describe ("%s, %d processes, data %zu", name.c_str (), run.size, fo.data_size);
  int minq = r.chance (0.5) ? 0 : r.below (12), minl = r.chance (0.5) ? 0 : r.range (0, 2), fu = r.below (2);
  p4est_t *p = p4est_new_ext (MPI_COMM_WORLD, c, minq, minl, fu, fo.data_size, NULL, NULL);
  check_forest (p, "new");
  int nops = r.range (2, 7);
  std::string ops;
  for (int k = 0; k < nops; ++k) {
    int op = r.below (9);
    const char *nm = "";
    u64 salt = r.next ();
    switch (op) {
    case 0: case 1: if (p->global_num_quadrants > 2000) continue; random_refine (r, p, fo); nm = "refine"; break;
    case 2: { int m = r.range (1, 3); bool rec = r.chance (0.5); coarsen_pred (p, [&] (int t, p4est_quadrant_t ** q) { return leaf_id (t, q[0], salt) % 4 < (u64) m; }, rec); nm = "coarsen"; break; }
    case 3: { int b = r.below (DIM); if (p->global_num_quadrants > 1500) continue;
        p4est_balance (p, DIM == 2 ? (b ? P4EST_CONNECT_FULL : P4EST_CONNECT_FACE) :
#ifdef P4_TO_P8
                       (b == 0 ? P8EST_CONNECT_FACE : b == 1 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_CORNER)
#else
                       P4EST_CONNECT_FULL
#endif
                       , NULL); nm = "balance"; break; }
    case 4: p4est_partition (p, r.below (2), NULL); nm = "partition"; break;
    case 5: case 6: partition_counts (p, random_counts (r, p->global_num_quadrants, p->mpisize, true)); nm = "partition_given"; break;
    case 7: { p4est_t *q = p4est_copy (p, r.below (2)); p4est_destroy (p); p = q; nm = "copy"; break; }
    case 8: { p4est_reset_data (p, r.pick ({ 0, 4, 17 }), NULL, NULL); nm = "reset_data"; break; }
    }
    ops += nm; ops += " ";
    if (op == 7 || 1) check_forest (p, nm);
  }
  for (int k = 0; k < 3; ++k) tamper (r, p);
  describe ("ops: %s leaves %lld", ops.c_str (), (long long) p->global_num_quadrants);
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C02", c02)

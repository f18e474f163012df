/* C03, C04: repartitioning. */
#include "core.hpp"
void check_forest (p4est_t * p, const char *after);

namespace {
u64 wsalt; int wkind; std::vector<Leaf> wseen;
i64 weight_of (const Leaf & a)
{
  u64 h = hcomb (hcomb (a.t * 64 + a.l, hcomb (a.x[0], hcomb (a.x[1], a.x[2]))), wsalt);
  switch (wkind) {
  case 0: return 1;
  case 1: return h % 5;
  case 2: return h % 40 == 0 ? 1000 : 0;
  case 3: return a.l * a.l;
  case 4: return (i64) (h % 2000000000ull);
  case 5: return h % 23 == 0 ? 50 : 1;
  default: return 0;
  }
}
int weight_cb (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q)
{
  Leaf a = mkleaf (t, q);
  wseen.push_back (a);
  return (int) weight_of (a);
}
void set_data (p4est_t * p, u64 salt)
{
  for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t i = 0; i < tr->quadrants.elem_count; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, i);
      if (p->data_size) fill_bytes (q->p.user_data, p->data_size, leaf_id (t, q, salt));
    }
  }
}
void check_data (p4est_t * p, u64 salt, const char *what)
{
  for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t i = 0; i < tr->quadrants.elem_count; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, i);
      if (p->data_size) CHK (q->p.user_data && check_bytes (q->p.user_data, p->data_size, leaf_id (t, q, salt)), "data", "%s: leaf %s does not carry its data", what, leaf_str (mkleaf (t, q)).c_str ());
      count ("leaf_data_checked");
    }
  }
}
/* cuts produced by cumulative weights */
std::vector<i64> weight_cuts (const GForest & g, int P, bool & zero)
{
  std::vector<u64> cum (g.q.size () + 1, 0);
  for (size_t i = 0; i < g.q.size (); ++i) cum[i + 1] = cum[i] + (u64) weight_of (g.q[i]);
  u64 W = cum.back ();
  zero = W == 0;
  std::vector<i64> cut (P + 1, 0);
  for (int p = 1; p < P; ++p) {
    u64 c = (u64) ((u128) W * p / P);
    cut[p] = c == 0 ? 0 : std::lower_bound (cum.begin (), cum.end (), c) - cum.begin ();
  }
  cut[P] = (i64) g.q.size ();
  return cut;
}
/* families: for every leaf the index of the first member of its complete family, or -1 */
std::vector<i64> families (const GForest & g)
{
  std::vector<i64> f (g.q.size (), -1);
  for (size_t i = 0; i + NC <= g.q.size (); ++i) {
    if (g.q[i].l == 0 || leaf_childid (g.q[i]) != 0) continue;
    Leaf par = leaf_parent (g.q[i]);
    bool ok = true;
    for (int j = 0; j < NC && ok; ++j) ok = g.q[i + j].same (leaf_child (par, j));
    if (ok) for (int j = 0; j < NC; ++j) f[i + j] = (i64) i;
  }
  return f;
}
/* the least correction: the family goes to the process with most of its members */
std::vector<i64> corrected (const std::vector<i64> & cut, const std::vector<i64> & fam, int P, i64 & moved)
{
  std::vector<i64> out = cut;
  moved = 0;
  for (int p = 1; p < P; ++p) {
    i64 b = cut[p];
    if (b <= 0 || b >= (i64) fam.size () || fam[b] < 0 || fam[b] == b) continue;
    i64 m = fam[b];
    int best = -1; i64 share = 0;
    for (int k = 0; k < P; ++k) {
      i64 s = std::min (cut[k + 1], m + NC) - std::max (cut[k], m);
      if (s > share) { share = s; best = k; }
    }
    out[p] = p > best ? m + NC : m;
    if (cut[p] < cut[p + 1]) moved += std::llabs (out[p] - b);
  }
  return out;
}
i64 shipped (const std::vector<i64> & a, const std::vector<i64> & b)
{
  i64 s = b.back ();
  for (size_t p = 0; p + 1 < a.size (); ++p) s -= std::max ((i64) 0, std::min (a[p + 1], b[p + 1]) - std::max (a[p], b[p]));
  return s;
}
}

static void part (Rng & r, bool coarsening)
{
  std::string name;
  ConnOpts co;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  ForestOpts fo;
  fo.data_size = r.pick ({ 0, 1, 7, 8, 24, 100, 300 });
  fo.target = r.range (1, 500);
  if (r.chance (0.25)) fo.target = r.range (1, 12);
  fo.deep = 0.2;
  int P = run.size;
  describe ("%s data %zu", name.c_str (), fo.data_size);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  int n = r.range (1, 4);
  for (int k = 0; k < n; ++k) {
    random_partition (r, p, true);
    u64 salt = r.next ();
    set_data (p, salt);
    GForest g = gather (p);
    std::vector<i64> fam = families (g);
    wkind = r.below (7); wsalt = r.next ();
    wseen.clear ();
    int mode = r.below (coarsening ? 3 : 5);   /* 0 uniform, 1 2 weighted, (3 4) given */
    if (coarsening && r.chance (0.4)) mode = 5;
    std::vector<i64> cut (P + 1), want;
    bool zero = false;
    i64 ret = -1, moved = 0;
    long rev = p4est_revision (p);
    if (mode == 0) for (int i = 0; i <= P; ++i) cut[i] = (i64) ((u128) g.q.size () * i / P);
    else if (mode <= 2) cut = weight_cuts (g, P, zero);
    else { std::vector<i64> nn = random_counts (r, (i64) g.q.size (), P, r.chance (0.8)); cut[0] = 0; for (int i = 0; i < P; ++i) cut[i + 1] = cut[i] + nn[i]; if (r.chance (0.1)) cut = g.rfirst; }
    want = coarsening ? corrected (cut, fam, P, moved) : cut;
    bool called = true;
    const char *nm = "";
    if (mode == 0 && coarsening && r.chance (0.3)) { p4est_partition (p, 1, NULL); nm = "partition for coarsening"; }
    else if (mode == 0) { ret = p4est_partition_ext (p, coarsening, NULL); nm = coarsening ? "uniform for coarsening" : "uniform"; }
    else if (mode <= 2) {
      ret = p4est_partition_ext (p, coarsening, weight_cb); nm = coarsening ? "weighted for coarsening" : "weighted";
      if (P > 1) {
        i64 lo = g.rfirst[run.rank];
        bool ok = wseen.size () == (size_t) (g.rfirst[run.rank + 1] - lo);
        for (size_t i = 0; ok && i < wseen.size (); ++i) ok = wseen[i].same (g.q[lo + i]);
        CHK (ok, "weight-calls", "weight callback called %zu times for %lld local leaves, or out of order", wseen.size (), (long long) (g.rfirst[run.rank + 1] - lo));
        count ("weight_calls", (long) wseen.size ());
      }
      if (zero) want = g.rfirst;
    } else {
      std::vector<p4est_locidx_t> nn (P);
      for (int i = 0; i < P; ++i) nn[i] = (p4est_locidx_t) (cut[i + 1] - cut[i]);
      nm = "given";
      if (mode == 5) {
        nm = "given corrected for coarsening";
        i64 mv = p4est_partition_for_coarsening (p, nn.data ());
        CHK (mv == moved, "moved", "correction reports %lld moved leaves, expected %lld", (long long) mv, (long long) moved);
        for (int i = 0; i < P; ++i) CHK (nn[i] == want[i + 1] - want[i], "correction", "rank %d corrected to %d leaves, expected %lld (proposed %lld)", i, nn[i], (long long) (want[i + 1] - want[i]), (long long) (cut[i + 1] - cut[i]));
        bool valid = true; i64 s = 0;
        for (int i = 0; i < P; ++i) { valid = valid && nn[i] >= 0; s += nn[i]; }
        if (!valid || s != (i64) g.q.size ()) { FAILK ("correction", "corrected counts are no partition"); break; }
      }
      ret = p4est_partition_given (p, nn.data ());
      called = false;
    }
    if (P == 1) want = g.rfirst;
    /* the resulting distribution */
    GForest h = gather (p);
    bool same = h.q.size () == g.q.size ();
    for (size_t i = 0; same && i < h.q.size (); ++i) same = h.q[i].same (g.q[i]);
    CHK (same, "sequence", "%s changed the sequence of leaves", nm);
    for (int i = 0; i <= P; ++i) CHK (h.rfirst[i] == want[i], "counts", "%s: rank %d starts at %lld, expected %lld of %zu", nm, i, (long long) h.rfirst[i], (long long) want[i], g.q.size ());
    if (mode == 0 && !coarsening) for (int i = 0; i < P; ++i) {
      i64 m = h.rfirst[i + 1] - h.rfirst[i], a = (i64) g.q.size () / P;
      CHK (P == 1 || (m >= a && m <= a + ((i64) g.q.size () % P ? 1 : 0)), "balanced", "uniform partition gives rank %d %lld of %zu leaves", i, (long long) m, g.q.size ());
    }
    i64 es = shipped (g.rfirst, h.rfirst);
    if (ret >= 0) CHK (ret == es, "shipped", "%s returned %lld, %lld leaves changed process", nm, (long long) ret, (long long) es);
    if (called) CHK ((p4est_revision (p) != rev) == (es > 0), "revision", "%s: revision %ld to %ld with %lld shipped", nm, rev, p4est_revision (p), (long long) es);
    check_data (p, salt, nm);
    check_forest (p, nm);
    gcount (nm);
    gcount ("leaves_shipped", es);
    if (coarsening) {
      i64 split = 0, nf = 0;
      for (size_t i = 0; i < fam.size (); ++i) if (fam[i] == (i64) i) { ++nf; if (h.q[i].rank != h.q[i + NC - 1].rank) ++split; }
      if (!zero || mode == 0 || mode > 2) CHK (split == 0 || P == 1, "split-family", "%s: %lld families are split", nm, (long long) split);
      gcount ("families", nf);
      i64 was = 0;
      for (size_t i = 0; i < fam.size (); ++i) if (fam[i] == (i64) i) { bool cutin = false; for (int q = 1; q < P; ++q) if (cut[q] > (i64) i && cut[q] < (i64) i + NC) cutin = true; was += cutin; }
      gcount ("families_cut_before_correction", was);
      if (r.chance (0.3) && (!zero || mode == 0 || mode > 2)) {
        u64 cs = r.next ();
        coarsen_pred (p, [&] (int t, p4est_quadrant_t ** q) { return leaf_id (t, q[0], cs) % 2 == 0; }, false);
        std::vector<Leaf> ex;
        for (size_t i = 0; i < fam.size (); ++i) {
          p4est_quadrant_t q0;
          if (fam[i] >= 0) { leaf_to_quad (g.q[fam[i]], &q0); if (leaf_id (g.q[i].t, &q0, cs) % 2 == 0) { if (fam[i] == (i64) i) ex.push_back (leaf_parent (g.q[i])); continue; } }
          ex.push_back (g.q[i]);
        }
        GForest z = gather (p);
        bool ok = z.q.size () == ex.size ();
        for (size_t i = 0; ok && i < ex.size (); ++i) ok = z.q[i].same (ex[i]);
        CHK (ok, "coarsen-after", "one coarsening after %s gives %zu leaves, a single process gives %zu", nm, z.q.size (), ex.size ());
        gcount ("coarsened_after_partition");
      }
    } else if (r.chance (0.3) && mode == 0) {
      /* again: nothing to do */
      rev = p4est_revision (p);
      ret = p4est_partition_ext (p, 0, NULL);
      CHK (ret == 0 && p4est_revision (p) == rev, "idle", "repeated uniform partition shipped %lld", (long long) ret);
      check_data (p, salt, "repeated");
    }
  }
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
static void c03 (Rng & r) { part (r, false); }
static void c04 (Rng & r) { part (r, true); }
REGISTER_PROP ("C03", c03)
REGISTER_PROP ("C04", c04)

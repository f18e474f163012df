/* C01: refinement and coarsening against the leaves and callbacks they must produce. */
#include "core.hpp"

namespace {
struct Ev { int kind; Leaf a; std::vector<Leaf> out, in; };   /* 0 init, 1 replace, 2 decision */
struct Mon
{
  p4est_t *p;
  u64 salt_old, salt_new;
  size_t ds;
  std::function<bool (const Leaf &)> want;      /* refine a leaf or coarsen a family into a parent */
  std::map<Leaf, int, LeafCmp> inits, asked, orphans;
  std::map<Leaf, int, LeafCmp> replaced;        /* by parent */
  std::set<Leaf, LeafCmp> orig;                 /* leaves that exist before the operation */
  bool coarsen, defined;                /* defined: new leaves get data */
  long ncalls;
};
Mon *M;

void data_ok (const Leaf & a, p4est_quadrant_t * q, const char *where)
{
  if (M->ds == 0) return;
  bool fresh = !M->orig.count (a);
  if (fresh && !M->defined) return;
  CHK (check_bytes (q->p.user_data, M->ds, leaf_id (a.t, q, fresh ? M->salt_new : M->salt_old)), "callback-data",
       "user data shown to the %s callback is not that of the %s leaf %s", where, fresh ? "new" : "original", leaf_str (a).c_str ());
}
void init_cb (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q)
{
  Leaf a = mkleaf (t, q);
  M->inits[a]++;
  CHK (p == M->p, "callback-forest", "wrong forest");
  if (M->ds) fill_bytes (q->p.user_data, M->ds, leaf_id (t, q, M->salt_new));
}
int refine_cb (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q)
{
  Leaf a = mkleaf (t, q);
  M->asked[a]++;
  ++M->ncalls;
  data_ok (a, q, "refine");
  return M->want (a) ? 7 : 0;
}
int coarsen_cb (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q[])
{
  ++M->ncalls;
  if (q[1] == NULL) {
    Leaf a = mkleaf (t, q[0]);
    M->orphans[a]++;
    data_ok (a, q[0], "coarsen (orphan)");
    return 1;                           /* must be ignored */
  }
  Leaf par = leaf_parent (mkleaf (t, q[0]));
  for (int i = 0; i < NC; ++i) {
    Leaf a = mkleaf (t, q[i]);
    CHK (a.same (leaf_child (par, i)), "coarsen-family", "coarsen callback shown %s as sibling %d", leaf_str (a).c_str (), i);
    data_ok (a, q[i], "coarsen");
  }
  M->asked[par]++;
  return M->want (par) ? 3 : 0;
}
void replace_cb (p4est_t * p, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[])
{
  if (!M->coarsen) {
    CHK (no == 1 && ni == NC, "replace-count", "replacement of %d by %d leaves while refining", no, ni);
    if (no != 1 || ni != NC) return;
    Leaf par = mkleaf (t, out[0]);
    bool fresh = !M->orig.count (par);
    M->replaced[par]++;
    if (M->ds && (!fresh || M->defined)) CHK (check_bytes (out[0]->p.user_data, M->ds, leaf_id (t, out[0], fresh ? M->salt_new : M->salt_old)), "replace-data", "outgoing data of %s", leaf_str (par).c_str ());
    for (int i = 0; i < NC; ++i) {
      CHK (mkleaf (t, in[i]).same (leaf_child (par, i)), "replace-incoming", "incoming %d of %s is %s", i, leaf_str (par).c_str (), leaf_str (mkleaf (t, in[i])).c_str ());
      if (M->ds) {
        CHK (in[i]->p.user_data != NULL, "replace-incoming-data", "no data in incoming leaf");
        if (M->inits.empty ()) fill_bytes (in[i]->p.user_data, M->ds, leaf_id (t, in[i], M->salt_new));
      }
    }
  } else {
    CHK (no == NC && ni == 1, "replace-count", "replacement of %d by %d leaves while coarsening", no, ni);
    if (no != NC || ni != 1) return;
    Leaf par = mkleaf (t, in[0]);
    M->replaced[par]++;
    for (int i = 0; i < NC; ++i) {
      Leaf a = mkleaf (t, out[i]);
      CHK (a.same (leaf_child (par, i)), "replace-outgoing", "outgoing %d of %s is %s", i, leaf_str (par).c_str (), leaf_str (a).c_str ());
      bool fresh = !M->orig.count (a);
      if (M->ds && (!fresh || M->defined)) CHK (check_bytes (out[i]->p.user_data, M->ds, leaf_id (t, out[i], fresh ? M->salt_new : M->salt_old)), "replace-data", "outgoing data of %s", leaf_str (a).c_str ());
    }
    if (M->ds && M->inits.empty ()) fill_bytes (in[0]->p.user_data, M->ds, leaf_id (t, in[0], M->salt_new));
  }
}
void set_data (p4est_t * p, u64 salt)
{
  for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t i = 0; i < tr->quadrants.elem_count; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, i);
      if (p->data_size) fill_bytes (q->p.user_data, p->data_size, leaf_id (t, q, salt));
    }
  }
}
bool eqmap (const std::map<Leaf, int, LeafCmp> & m, const std::set<Leaf, LeafCmp> & s, std::string & why)
{
  for (auto & kv : m) { if (!s.count (kv.first)) { why = "unexpected " + leaf_str (kv.first); return false; } if (kv.second != 1) { why = std::to_string (kv.second) + " times " + leaf_str (kv.first); return false; } }
  for (auto & a : s) if (!m.count (a)) { why = "missing " + leaf_str (a); return false; }
  return true;
}
}
void check_forest (p4est_t * p, const char *after);

static void c01 (Rng & r)
{
  std::string name, why;
  ConnOpts co;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  ForestOpts fo;
  fo.data_size = r.pick ({ 0, 1, 8, 8, 20, 64 });
  fo.target = r.range (1, 250);
  fo.deep = 0.25;
  describe ("%s data %zu", name.c_str (), fo.data_size);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  int n = r.range (1, 5);
  std::string ops;
  for (int k = 0; k < n; ++k) {
    random_partition (r, p, true);
    bool rec = r.chance (0.5), useinit = r.chance (0.7), userep = r.chance (0.6), plain = r.chance (0.2);
    if (plain) userep = false;
    int pct = r.pick ({ 0, 5, 20, 50, 100 });
    u64 salt = r.next (), csalt = r.next ();
    bool coarsen = r.chance (0.5);
    if (p->global_num_quadrants > 3000) coarsen = true;
    Mon mon;
    M = &mon;
    mon.p = p; mon.ds = p->data_size; mon.salt_old = csalt; mon.salt_new = csalt + 1; mon.coarsen = coarsen; mon.ncalls = 0; mon.defined = useinit || userep;
    set_data (p, csalt);
    GForest before = gather (p);
    i64 lo = before.rfirst[run.rank], hi = before.rfirst[run.rank + 1];
    mon.orig.insert (before.q.begin () + lo, before.q.begin () + hi);
    long rev = p4est_revision (p);
    std::set<Leaf, LeafCmp> einit, erep, easked, eorph;
    std::vector<Leaf> expect;           /* local result in order */
    if (!coarsen) {
      int allowed = r.chance (0.3) ? -1 : r.range (0, r.chance (0.2) ? QML : 6);
      int lim = rec ? (r.chance (0.1) ? QML : r.range (1, 6)) : QML;
      /* stay small: in recursive mode decide by a point and by a shrinking probability */
      u64 deepx = r.next ();
      mon.want = [=] (const Leaf & a) {
        u64 h = hcomb (hcomb (a.t * 64 + a.l, hcomb (a.x[0], hcomb (a.x[1], a.x[2]))), salt);
        if (a.l >= lim) return false;
        if (rec && a.l >= 4) { for (int i = 0; i < DIM; ++i) { i64 t = (i64) (mix64 (deepx + i) % (u64) RL); if ((t >> (ML - a.l)) != (a.x[i] >> (ML - a.l))) return false; } return true; }
        return (int) (h % 100) < (rec ? pct / (a.l + 1) : pct);
      };
      for (i64 i = lo; i < hi; ++i) {
        std::vector<std::pair<Leaf, bool>> st (1, { before.q[i], false });
        while (!st.empty ()) {
          Leaf a = st.back ().first;
          bool made = st.back ().second;
          st.pop_back ();
          bool ask = rec || !made;
          if (ask) easked.insert (a);
          if (ask && mon.want (a) && a.l < (allowed < 0 ? QML : allowed)) {
            erep.insert (a);
            for (int j = NC - 1; j >= 0; --j) { Leaf b = leaf_child (a, j); einit.insert (b); st.push_back ({b, true}); }
          } else expect.push_back (a);
        }
      }
      plain = plain && allowed < 0;
      if (plain) p4est_refine (p, rec, refine_cb, useinit ? init_cb : NULL);
      else p4est_refine_ext (p, rec, allowed, refine_cb, useinit ? init_cb : NULL, userep ? replace_cb : NULL);
      ops += rec ? "R" : "r";
      CHK (eqmap (mon.asked, easked, why), "refine-asked", "refine callback (recursive %d allowed %d): %s", rec, allowed, why.c_str ());
    } else {
      mon.want = [=] (const Leaf & a) {
        u64 h = hcomb (hcomb (a.t * 64 + a.l, hcomb (a.x[0], hcomb (a.x[1], a.x[2]))), salt);
        return (int) (h % 100) < pct;
      };
      bool orph = r.chance (0.4);
      std::vector<Leaf> cur (before.q.begin () + lo, before.q.begin () + hi);
      std::set<Leaf, LeafCmp> infam, rejfam;
      bool first = true;
      for (;;) {
        std::vector<Leaf> nx;
        bool ch = false;
        for (size_t i = 0; i < cur.size ();) {
          bool fam = cur[i].l > 0 && i + NC <= cur.size ();
          if (fam) { Leaf par = leaf_parent (cur[i]); for (int j = 0; j < NC; ++j) if (!cur[i + j].same (leaf_child (par, j))) fam = false; }
          if (fam) {
            Leaf par = leaf_parent (cur[i]);
            easked.insert (par);
            if (mon.want (par)) {
              for (int j = 0; j < NC; ++j) infam.insert (cur[i + j]);
              erep.insert (par); einit.insert (par);
              nx.push_back (par); i += NC; ch = true;
              continue;
            }
            rejfam.insert (cur[i]);
          }
          nx.push_back (cur[i]);
          ++i;
        }
        cur = nx;
        if (!rec || !ch) break;
        first = false;
      }
      expect = cur;
      /* leaves that are neither merged nor first of a rejected family are shown alone */
      if (orph && !rec) for (i64 i = lo; i < hi; ++i) if (!infam.count (before.q[i]) && !rejfam.count (before.q[i])) eorph.insert (before.q[i]);
      if (plain) p4est_coarsen (p, rec, coarsen_cb, useinit ? init_cb : NULL);
      else p4est_coarsen_ext (p, rec, orph, coarsen_cb, useinit ? init_cb : NULL, userep ? replace_cb : NULL);
      ops += rec ? "C" : "c";
      if (plain) orph = false, eorph.clear ();
      if (!rec) {
        CHK (eqmap (mon.asked, easked, why), "coarsen-asked", "coarsen callback: %s", why.c_str ());
        CHK (eqmap (mon.orphans, eorph, why), "coarsen-orphans", "orphan callback: %s", why.c_str ());
      } else {
        for (auto & a : easked) CHK (mon.asked.count (a), "coarsen-asked", "coarsen callback never asked for family of %s", leaf_str (a).c_str ());
        for (auto & kv : mon.asked) CHK (easked.count (kv.first), "coarsen-asked", "coarsen callback asked for no family of %s", leaf_str (kv.first).c_str ());
        CHK (orph || mon.orphans.empty (), "coarsen-orphans", "orphans reported though not requested");
      }
      if (orph) count ("orphans_seen", mon.orphans.size ());
    }
    if (useinit) CHK (eqmap (mon.inits, einit, why), "init-calls", "%s init callback: %s", ops.c_str (), why.c_str ());
    else CHK (mon.inits.empty (), "init-calls", "init called though not given");
    if (userep) CHK (eqmap (mon.replaced, erep, why), "replace-calls", "%s replace callback: %s", ops.c_str (), why.c_str ());
    /* resulting leaves, partition and data */
    std::vector<Leaf> now = local_leaves (p);
    bool same = now.size () == expect.size ();
    size_t bad = 0;
    for (size_t i = 0; same && i < now.size (); ++i) if (!now[i].same (expect[i])) { same = false; bad = i; }
    CHK (same, "leaves", "ops %s (recursive %d): %zu leaves, expected %zu; first difference %zu %s", ops.c_str (), rec, now.size (), expect.size (), bad,
         bad < now.size () ? leaf_str (now[bad]).c_str () : "");
    std::set<Leaf, LeafCmp> old (before.q.begin () + lo, before.q.begin () + hi);
    if (p->data_size && same) {
      size_t i = 0;
      for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
        p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
        for (size_t z = 0; z < tr->quadrants.elem_count; ++z, ++i) {
          p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
          Leaf a = mkleaf (t, q);
          CHK (q->p.user_data != NULL, "data-null", "leaf without data");
          if (!q->p.user_data) continue;
          if (old.count (a)) { CHK (check_bytes (q->p.user_data, p->data_size, leaf_id (t, q, csalt)), "data-kept", "untouched leaf %s lost its data", leaf_str (a).c_str ()); count ("untouched_leaves_checked"); }
          else if (useinit || userep) { CHK (check_bytes (q->p.user_data, p->data_size, leaf_id (t, q, csalt + 1)), "data-new", "new leaf %s does not carry its initialised data", leaf_str (a).c_str ()); count ("new_leaves_checked"); }
        }
      }
    }
    i64 changed = allsum ((i64) erep.size (), MPI_COMM_WORLD);
    CHK ((p4est_revision (p) != rev) == (changed > 0), "revision", "revision went from %ld to %ld with %lld replacements", rev, p4est_revision (p), (long long) changed);
    CHK (p4est_revision (p) >= rev && p4est_revision (p) <= rev + 1, "revision", "revision went from %ld to %ld", rev, p4est_revision (p));
    check_forest (p, coarsen ? "coarsen" : "refine");
    count ("callback_calls", mon.ncalls);
    count ("replacements", (long) erep.size ());
    M = nullptr;
  }
  describe ("ops %s", ops.c_str ());
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C01", c01)

/* C12: the trace of callbacks of every search is parsed against the recursion
 * that the leaves, the partition and the callbacks' own answers prescribe. */
#include "core.hpp"

namespace {

enum Mode { LOCAL, REORDER, PART, ALL };
struct Ev
{
  char kind;                            /* q quadrant, p point, r reorder, e post-order quadrant */
  Leaf l; int pf = -1, pl = -1; i64 ln = -1; const void *ptr = nullptr; int pt = -1, ret = 0;
  std::vector<Leaf> quads; std::vector<int> in, out;
};
struct Search
{
  Mode mode; bool call_post = false, has_q = true, has_e = true, has_r = true, points = false, skip = false;
  int npt = 0; char *pbase = nullptr; size_t psize = 8;
  std::vector<P3> loc; std::vector<int> ptree;  /* geometric meaning of points, doubled coordinates */
  int keepq = 0, keepp = 0; u64 salt = 0; int me = 0; void *up = nullptr; p4est_t *p4 = nullptr; bool dummy = false;
  std::vector<Ev> ev;
  /* leaves of the domain: whole forest in curve order with owners */
  const GForest *f = nullptr;
  std::vector<int> owner;               /* per leaf; possibly of an artificial partition */
  i64 lo = 0, hi = 0;                   /* local range */
};
static Search *S = nullptr;

static bool holds (const Search & s, int pt, int t, const Leaf & a)
{
  if (s.ptree[pt] != t) return false;
  for (int d = 0; d < DIM; ++d) if (s.loc[pt][d] < 2 * a.x[d] || s.loc[pt][d] > 2 * (a.x[d] + a.len ())) return false;
  return true;
}
static int decide (int pt, int t, const Leaf & a, bool second)
{
  u64 h = hcomb (hcomb (S->salt, pt + 2 + 1000 * second), hcomb (hcomb (t, a.l), hcomb (a.x[0], hcomb (a.x[1], a.x[2]))));
  if (pt < 0) return S->keepq == 0 ? 1 : S->keepq == 1 ? (h % 8 != 0) * 3 : (h % 3 != 0) * -1;
  return S->keepp == 0 ? holds (*S, pt, t, a) : S->keepp == 1 ? 2 * (h % 4 != 0) : S->keepp == 2 ? 1 : (int) (holds (*S, pt, t, a) || h % 5 == 0);
}
static int record (char kind, p4est_t * p, int t, p4est_quadrant_t * q, int pf, int pl, i64 ln, void *point)
{
  Ev e; e.kind = kind; e.l = mkleaf (t, q); e.pf = pf; e.pl = pl; e.ln = ln; e.ptr = q;
  CHK (p->user_pointer == S->up && (S->dummy || p == S->p4), "context", "callback got another forest");
  if (kind == 'p') {
    size_t off = (char *) point - S->pbase;
    CHK (point && (char *) point >= S->pbase && off % S->psize == 0 && off / S->psize < (size_t) S->npt, "point-pointer", "not one of the points");
    e.pt = (int) (off / S->psize);
    if (e.pt < 0 || e.pt >= S->npt) e.pt = 0;
  }
  else CHK (point == NULL, "point-pointer", "quadrant callback with a point");
  bool second = kind == 'q' && !S->ev.empty () && S->ev.back ().kind == 'p' && S->ev.back ().l.same (e.l);
  e.ret = decide (kind == 'p' ? e.pt : -1, t, e.l, second);
  if (kind == 'e') e.ret = (int) (S->salt >> 9 & 1);   /* without effect */
  S->ev.push_back (e);
  return e.ret;
}
static int cb_lq (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t ln, void *pt) { return record ('q', p, t, q, -1, -1, ln, pt); }
static int cb_le (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t ln, void *pt) { return record ('e', p, t, q, -1, -1, ln, pt); }
static int cb_lp (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t ln, void *pt) { return record ('p', p, t, q, -1, -1, ln, pt); }
static int cb_pq (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int a, int b, void *pt) { return record ('q', p, t, q, a, b, -1, pt); }
static int cb_pp (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int a, int b, void *pt) { return record ('p', p, t, q, a, b, -1, pt); }
static int cb_aq (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int a, int b, p4est_locidx_t ln, void *pt) { return record ('q', p, t, q, a, b, ln, pt); }
static int cb_ap (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, int a, int b, p4est_locidx_t ln, void *pt) { return record ('p', p, t, q, a, b, ln, pt); }
static int cb_ro (p4est_t * p, sc_array_t * quads, sc_array_t * idx)
{
  Ev e; e.kind = 'r';
  CHK (p == S->p4 && quads->elem_size == sizeof (p4est_quadrant_t) && idx->elem_size == sizeof (p4est_topidx_t), "context", "reorder arguments");
  for (size_t i = 0; i < quads->elem_count; ++i) { p4est_quadrant_t *q = p4est_quadrant_array_index (quads, i); e.quads.push_back (mkleaf (q->p.piggy1.which_tree, q)); }
  for (size_t i = 0; i < idx->elem_count; ++i) e.in.push_back (*(p4est_topidx_t *) sc_array_index (idx, i));
  Rng r (hcomb (S->salt, S->ev.size ()));
  int how = r.below (6);
  if (how >= 2) for (size_t i = idx->elem_count; i > 1; --i) { size_t j = r.below (i); std::swap (*(p4est_topidx_t *) sc_array_index (idx, i - 1), *(p4est_topidx_t *) sc_array_index (idx, j)); }
  if (how >= 4 && S->keepq) sc_array_resize (idx, r.below (idx->elem_count + 1));
  for (size_t i = 0; i < idx->elem_count; ++i) e.out.push_back (*(p4est_topidx_t *) sc_array_index (idx, i));
  e.ret = S->keepq && r.chance (0.07) ? 0 : 1 + r.below (2);
  S->ev.push_back (e);
  return e.ret;
}

struct Parser
{
  Search & s; size_t pos = 0; bool bad = false; long visits = 0, leaves = 0, pcalls = 0, splits = 0, reorders = 0;
  explicit Parser (Search & ss) : s (ss) { }
  bool want (bool c, const char *key, const std::string & m) { if (!c && !bad) { bad = true; FAILK (key, "%s (event %zu of %zu)", m.c_str (), pos, s.ev.size ()); } return c && !bad; }
  bool have () { return pos < s.ev.size (); }
  /* domain leaves meeting window w, which is not finer than the leaves there */
  void range (const Leaf & w, i64 & a, i64 & b)
  {
    u128 k = w.key (), e = k + leaf_span (w.l);
    const std::vector<u128> & key = s.f->key;
    a = std::lower_bound (key.begin () + s.f->tfirst[w.t], key.begin () + s.f->tfirst[w.t + 1], k) - key.begin ();
    b = std::lower_bound (key.begin () + s.f->tfirst[w.t], key.begin () + s.f->tfirst[w.t + 1], e) - key.begin ();
    if (s.mode == LOCAL || s.mode == REORDER) { a = std::max (a, s.lo); b = std::min (b, s.hi); }
  }
  static bool inside (const Leaf & a, const Leaf & b)   /* a contains b */
  { return a.t == b.t && a.l <= b.l && b.key () >= a.key () && b.key () < a.key () + leaf_span (a.l); }
  static Leaf nca (Leaf a, const Leaf & b) { while (!inside (a, b)) a = leaf_parent (a); return a; }

  void visit (const Leaf & w, std::vector<int> cand)
  {
    if (bad) return;
    i64 a, b; range (w, a, b);
    /* a branch strictly inside a leaf is visited when levels are not skipped */
    bool inleaf = false;
    if (a >= b) return;
    if (s.points && cand.empty ()) return;
    bool observable = s.has_q || s.points || (s.mode == REORDER && (s.has_e || s.has_r));
    if (!observable) return;
    bool seen = s.has_q || s.points;
    Leaf v = w;
    if (s.mode == REORDER && s.skip) v = b - a > 1 ? nca (s.f->q[a], s.f->q[b - 1]) : s.f->q[a];
    const Ev *first = NULL;
    if (seen) {
      if (!want (have (), "branch-missing", "no callback for branch " + leaf_str (w))) return;
      first = &s.ev[pos];
      want (first->kind == (s.has_q ? 'q' : 'p'), "branch-missing", "other event instead of branch " + leaf_str (w));
      if (bad) return;
      if (s.mode == LOCAL) {
        v = first->l;
        want (inside (w, v) && inside (v, s.f->q[a]) && inside (v, s.f->q[b - 1]), "branch-wrong", "visit of " + leaf_str (v) + " where the next branch is " + leaf_str (w));
      }
      else want (v.same (first->l), "branch-wrong", "visit of " + leaf_str (first->l) + " where the next branch is " + leaf_str (v));
      if (bad) return;
    }
    ++visits;
    bool leaf = b - a == 1 && v.same (s.f->q[a]);
    int pf = s.owner[a], pl = s.owner[b - 1];
    bool local = s.mode == LOCAL || s.mode == REORDER || (s.mode == ALL && pf == s.me && pl == s.me);
    if (local && leaf) ++leaves;
    if (pf < pl) ++splits;
    auto check = [&] (const Ev & e) {
      want (v.same (e.l), "branch-wrong", "event for " + leaf_str (e.l) + " within " + leaf_str (v));
      if (s.mode == PART || s.mode == ALL) want (e.pf == pf && e.pl == pl, "owners", "owners of " + leaf_str (v) + " are " + std::to_string (pf) + ".." + std::to_string (pl) + ", told " + std::to_string (e.pf) + ".." + std::to_string (e.pl));
      if (s.mode != PART) {
        want (local && leaf ? e.ln == a - s.lo : e.ln < 0, "local-number", leaf_str (v) + " has local number " + std::to_string (local && leaf ? (long long) (a - s.lo) : -1LL) + ", told " + std::to_string ((long long) e.ln));
        if (local && leaf && !bad) {
          p4est_tree_t *tr = p4est_tree_array_index (s.p4->trees, v.t);
          want (e.ptr == p4est_quadrant_array_index (&tr->quadrants, e.ln - tr->quadrants_offset), "leaf-pointer", leaf_str (v) + " is not the stored leaf");
        }
      }
    };
    bool cont = true;
    if (s.has_q) { check (*first); cont = first->ret != 0; ++pos; }
    if (bad || !cont) return;
    std::vector<int> kept;
    if (s.points) {
      std::set<int> todo (cand.begin (), cand.end ());
      while (!todo.empty () && !bad) {
        if (!want (have () && s.ev[pos].kind == 'p', "point-missing", std::to_string (todo.size ()) + " points not presented in " + leaf_str (v))) return;
        const Ev & e = s.ev[pos++]; check (e); ++pcalls;
        want (todo.erase (e.pt) == 1, "point-wrong", "point " + std::to_string (e.pt) + " presented again or after it was dropped, in " + leaf_str (v));
        if (e.ret) kept.push_back (e.pt);
      }
      if (s.call_post && s.has_q && s.mode != REORDER) {
        if (!want (have () && s.ev[pos].kind == 'q', "post-missing", "no second quadrant call for " + leaf_str (v))) return;
        const Ev & e = s.ev[pos++]; check (e); if (!e.ret) cont = false;
      }
      if (kept.empty ()) cont = false;
    }
    bool stop = leaf && s.mode != PART;
    if (s.mode == PART) stop = pf == pl;
    if (s.mode == ALL) stop = pf == pl && (pf != s.me || leaf);
    (void) inleaf;
    if (!bad && cont && !stop) {
      std::vector<int> ch;
      for (int c = 0; c < NC; ++c) { i64 x, y; range (leaf_child (v, c), x, y); if (x < y) ch.push_back (c); }
      if (s.mode == REORDER && s.has_r && b - a > 1) {
        if (!want (have () && s.ev[pos].kind == 'r', "reorder-missing", "children of " + leaf_str (v) + " not offered for reordering")) return;
        const Ev & e = s.ev[pos++]; ++reorders;
        want (e.in == ch, "reorder-indices", "other children offered than have leaves in " + leaf_str (v));
        bool ok = (int) e.quads.size () == NC; for (int c = 0; ok && c < NC; ++c) ok = e.quads[c].same (leaf_child (v, c));
        want (ok, "reorder-quadrants", "children array of " + leaf_str (v));
        ch = e.out; if (!e.ret) ch.clear ();
      }
      for (int c : ch) visit (leaf_child (v, c), kept);
    }
    if (!bad && s.mode == REORDER && s.has_e) {
      if (!want (have () && s.ev[pos].kind == 'e', "post-missing", "no post-order call for " + leaf_str (v))) return;
      const Ev & e = s.ev[pos++]; check (e);
    }
  }
  void run (int ft, int lt, int nt)
  {
    std::vector<int> all; for (int i = 0; i < s.npt; ++i) all.push_back (i);
    std::vector<int> trees;
    if (s.mode == LOCAL || s.mode == REORDER) { for (int t = ft; t <= lt; ++t) trees.push_back (t); }
    else for (int t = 0; t < nt; ++t) trees.push_back (t);
    Leaf root; memset (&root, 0, sizeof root);
    if (s.mode == REORDER && s.has_r && !trees.empty () && (s.has_q || s.has_e || s.points)) {
      if (!want (have () && s.ev[pos].kind == 'r', "reorder-missing", "trees not offered for reordering")) return;
      const Ev & e = s.ev[pos++]; ++reorders;
      bool ok = e.in.size () == trees.size () && e.quads.size () == trees.size ();
      for (size_t i = 0; ok && i < trees.size (); ++i) { root.t = trees[i]; ok = e.in[i] == (int) i && e.quads[i].same (root); }
      want (ok, "reorder-quadrants", "array of trees");
      std::vector<int> o; if (e.ret) for (int i : e.out) o.push_back (trees[i]);
      trees = o;
    }
    for (int t : trees) { root.t = t; visit (root, all); }
    want (pos == s.ev.size (), "surplus-events", "more callbacks than the search should make, next for " + (have () ? leaf_str (s.ev[pos].l) : std::string ()));
  }
};
}

static void prop (Rng & r)
{
  MPI_Comm comm = MPI_COMM_WORLD; int P = run.size, me = run.rank;
  std::string nm; ConnOpts co; co.max_trees = 6;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  ForestOpts fo; fo.target = r.pick ({ 1, 10, 60, 250, 600 }); fo.maxl = 6; fo.deep = 0.3;
  p4est_t *p = gen_forest (r, comm, c, fo);
  GForest f = gather (p);
  i64 N = (i64) f.q.size ();
  distinct_state (hcomb (f.hash (true), conn_hash (c)));
  for (int k = 0; k < 4; ++k) {
    Search s; s.p4 = p; s.f = &f; s.me = me; s.lo = f.rfirst[me]; s.hi = f.rfirst[me + 1];
    int kind = r.below (8);             /* 0-1 local, 2 reorder x2, 4 partition, 5 gfx, 6 gfp, 7 all */
    s.mode = kind < 2 ? LOCAL : kind < 4 ? REORDER : kind < 7 ? PART : ALL;
    s.salt = r.next (); s.points = r.chance (0.6); s.call_post = r.chance (0.5);
    s.has_q = !s.points || r.chance (0.8); s.has_e = r.chance (0.7); s.has_r = r.chance (0.7); s.skip = r.chance (0.5);
    if (s.mode == REORDER && !s.points) s.has_q = true; /* otherwise nothing tells the branches apart */
    if (s.mode == REORDER && s.points && r.chance (0.3)) s.has_q = false;
    s.keepq = r.pick ({ 0, 0, 1, 2 }); s.keepp = r.below (4);
    s.up = (void *) &s; s.psize = r.pick ({ 1, 8, 24 });
    s.npt = s.points ? r.pick ({ 0, 1, 3, 12 }) : 0;
    for (int i = 0; i < s.npt; ++i) {
      P3 x = { 0, 0, 0 };
      const Leaf & l = f.q[r.below (N)];
      int how = r.below (3);
      for (int d = 0; d < DIM; ++d) x[d] = how == 0 ? (i64) (r.next () % (u64) (R2 + 1)) : 2 * l.x[d] + (how == 1 ? 0 : r.below (3) * l.len ());
      s.loc.push_back (x); s.ptree.push_back (how == 0 ? r.below (c->num_trees) : l.t);
    }
    /* owners; artificial partitions for the forms that take any */
    int nm2 = P; std::vector<p4est_gloidx_t> gfq; std::vector<p4est_quadrant_t> gfp;
    for (auto & l : f.q) s.owner.push_back (l.rank);
    if (kind == 5 || kind == 6) {
      nm2 = r.chance (0.2) ? P : r.range (1, 40);
      std::vector<i64> n = random_counts (r, N, nm2, r.chance (0.7));
      gfq.assign (1, 0); for (auto v : n) gfq.push_back (gfq.back () + v);
      s.owner.clear ();
      for (int q = 0; q < nm2; ++q) for (i64 i = 0; i < n[q]; ++i) s.owner.push_back (q);
      gfp.resize (nm2 + 1); memset (gfp.data (), 0, sizeof (gfp[0]) * gfp.size ());
      for (int q = 0; q <= nm2; ++q) {
        Leaf l; memset (&l, 0, sizeof l);
        if (gfq[q] < N) l = f.q[gfq[q]]; else l.t = c->num_trees;
        p4est_quadrant_t *g = &gfp[q]; g->x = l.x[0]; g->y = l.x[1];
#ifdef P4_TO_P8
        g->z = l.x[2];
#endif
        g->level = QML; g->p.which_tree = l.t;
      }
      s.dummy = true;
      if (nm2 != P) gcount ("foreign_partitions");
    }
    sc_array_t *pts = NULL;
    if (s.points) { pts = sc_array_new_size (s.psize, s.npt); s.pbase = pts->array; if (s.npt) memset (pts->array, 0x42, s.psize * s.npt); }
    p->user_pointer = s.up;
    S = &s;
    static const char *mn[] = { "local", "reorder", "partition", "all" };
    describe ("%s, %lld leaves, %s search %d, %d points, quadrant %d post %d/%d reorder %d skip %d keep %d %d", nm.c_str (), (long long) N, mn[s.mode], kind, s.points ? s.npt : -1, s.has_q, s.call_post, s.has_e, s.has_r, s.skip, s.keepq, s.keepp);
    if (s.mode == LOCAL) {
      if (!s.call_post && r.chance (0.3)) p4est_search (p, s.has_q ? cb_lq : NULL, s.points ? cb_lp : NULL, pts);
      else p4est_search_local (p, s.call_post, s.has_q ? cb_lq : NULL, s.points || r.chance (0.3) ? cb_lp : NULL, pts);
    }
    else if (s.mode == REORDER) p4est_search_reorder (p, s.skip, s.has_r ? cb_ro : NULL, s.has_q ? cb_lq : NULL, s.has_e ? cb_le : NULL, s.points ? cb_lp : NULL, pts);
    else if (s.mode == ALL) p4est_search_all (p, s.call_post, s.has_q ? cb_aq : NULL, s.points ? cb_ap : NULL, pts);
    else if (kind == 4) p4est_search_partition (p, s.call_post, s.has_q ? cb_pq : NULL, s.points ? cb_pp : NULL, pts);
    else if (kind == 5) p4est_search_partition_gfx (gfq.data (), gfp.data (), nm2, c->num_trees, s.call_post, s.up, s.has_q ? cb_pq : NULL, s.points ? cb_pp : NULL, pts);
    else p4est_search_partition_gfp (gfp.data (), nm2, c->num_trees, s.call_post, s.up, s.has_q ? cb_pq : NULL, s.points ? cb_pp : NULL, pts);
    S = NULL;
    Parser ps (s);
    ps.run (p->first_local_tree, p->last_local_tree, c->num_trees);
    if (!ps.bad) {
      count (s.mode == LOCAL ? "local_visits" : s.mode == REORDER ? "reorder_visits" : s.mode == PART ? "partition_visits" : "all_visits", ps.visits);
      count ("leaf_visits", ps.leaves); count ("point_calls", ps.pcalls); count ("split_branches", ps.splits); count ("reorder_calls", ps.reorders);
      /* a search that keeps every holder of a point must have reported every leaf, or process, holding it */
      if (s.points && s.npt && s.keepq == 0 && s.keepp == 0) {
        std::vector<std::set<i64>> got (s.npt); std::vector<std::set<int>> own (s.npt);
        for (auto & e : s.ev) if (e.kind == 'p' && e.ret) { if (e.ln >= 0) got[e.pt].insert (e.ln); if (e.pf >= 0 && e.pf == e.pl) own[e.pt].insert (e.pf); }
        bool noreord = s.mode != REORDER;
        for (int i = 0; i < s.npt; ++i) {
          std::vector<int> h; f.containing (s.ptree[i], s.loc[i], h);
          long nl = 0;
          for (int g : h) {
            if (s.mode != PART && noreord && f.q[g].rank == me) { ++nl; CHK (got[i].count (g - s.lo), "holder-missed", "leaf %s holds point %d but was not reported", leaf_str (f.q[g]).c_str (), i); }
            if (s.mode == PART || s.mode == ALL) CHK (own[i].count (s.owner[g]), "holder-missed", "process %d holds point %d but was not reported", s.owner[g], i);
          }
          if (s.mode == LOCAL) CHK ((long) got[i].size () == nl, "holder-wrong", "%zu leaves reported, %ld hold point %d", got[i].size (), nl, i);
          count ("located_points", (long) h.size ());
        }
      }
    }
    if (pts) sc_array_destroy (pts);
  }
  GForest g = gather (p); CHK (g.hash (true) == f.hash (true), "forest-changed", "searching changed the forest");
  p4est_destroy (p); p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C12", prop)

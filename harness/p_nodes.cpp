/* C10: corner node lists.  Every corner of every leaf is classified by the
 * geometric model of the domain (which leaves contain the point, and is it a
 * corner, inside an edge or inside a face of them); the lists of all processes
 * are then compared with this classification and with each other. */
#include "core.hpp"

namespace {

struct PCls { TP c; int hang; std::vector<TP> dep; bool bad = false; };   /* hang: 0 independent, 1 face, 2 edge */

struct Model
{
  const Geo & g; const GForest & f;
  std::map<TP, PCls> memo;              /* by canonical point */
  std::map<TP, TP> canons;
  Model (const Geo & gg, const GForest & ff) : g (gg), f (ff) { }
  TP canon (int t, const P3 & x2)
  {
    bool inner = true;
    for (int i = 0; i < DIM; ++i) if (x2[i] == 0 || x2[i] == R2) inner = false;
    if (inner) return TP{t, x2};
    auto it = canons.find (TP{t, x2});
    if (it != canons.end ()) return it->second;
    TP c = g.canon (t, x2);
    canons[TP{t, x2}] = c;
    return c;
  }
  const PCls & cls (const TP & c)
  {
    auto it = memo.find (c);
    if (it != memo.end ()) return it->second;
    PCls p; p.c = c; p.hang = 0;
    std::vector<TP> orb; g.orbit (c.t, c.x, orb);
    int best = 0;
    std::vector<std::vector<TP>> deps;
    for (auto & o : orb) {
      std::vector<int> in; f.containing (o.t, o.x, in);
      for (int i : in) {
        const Leaf & a = f.q[i];
        int freeax[3], nfree = 0;
        P3 b = {0, 0, 0};
        for (int k = 0; k < DIM; ++k) {
          i64 lo = 2 * a.x[k], hi = lo + 2 * a.len ();
          b[k] = o.x[k];
          if (o.x[k] != lo && o.x[k] != hi) freeax[nfree++] = k;
        }
        if (!nfree) continue;
        if (nfree == DIM) { p.bad = true; continue; }
        std::vector<TP> d;
        for (int m = 0; m < (1 << nfree); ++m) {
          for (int k = 0; k < nfree; ++k) b[freeax[k]] = 2 * a.x[freeax[k]] + (((m >> k) & 1) ? 2 * a.len () : 0);
          d.push_back (canon (o.t, b));
        }
        std::sort (d.begin (), d.end ());
        if (nfree > best) { best = nfree; deps.clear (); }
        if (nfree == best) deps.push_back (d);
      }
    }
    if (best) {
      p.hang = best == DIM - 1 ? 1 : 2;
      p.dep = deps[0];
      for (auto & d : deps) if (d != deps[0]) p.bad = true;
    }
    return memo[c] = p;
  }
};

P3 node_point (const void *v)
{
  const p4est_indep_t *n = (const p4est_indep_t *) v;
  P3 x = {2 * (i64) n->x, 2 * (i64) n->y, 0};
#ifdef P4_TO_P8
  x[2] = 2 * (i64) n->z;
#endif
  return x;
}
P3 corner_point (const Leaf & a, int k)
{
  P3 x = {0, 0, 0};
  for (int i = 0; i < DIM; ++i) x[i] = 2 * (a.x[i] + (((k >> i) & 1) ? a.len () : 0));
  return x;
}
std::string pstr (const TP & p)
{
  char b[128];
  snprintf (b, sizeof b, "t%d(%lld,%lld,%lld)/2", p.t, (long long) p.x[0], (long long) p.x[1], (long long) p.x[2]);
  return b;
}
const int *sharers_of (p4est_nodes_t * nd, i64 il, int & n)
{
  p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, il);
  n = in->pad8;
  if (n <= 0) return nullptr;
  if ((size_t) n > nd->shared_indeps.elem_count) { FAILK ("sharer-count", "node %lld claims %d sharers, lists for %lld", (long long) il, n, (long long) nd->shared_indeps.elem_count); n = 0; return nullptr; }
  sc_recycle_array_t *ra = (sc_recycle_array_t *) sc_array_index_int (&nd->shared_indeps, n - 1);
  if (nd->shared_offsets) CHK (in->pad16 == -1, "sharer-offset", "node %lld has pad16 %d beside an offset array", (long long) il, in->pad16);
  i64 pos = nd->shared_offsets ? nd->shared_offsets[il] : in->pad16;
  if (pos < 0 || pos >= (i64) ra->a.elem_count) { FAILK ("sharer-offset", "node %lld sharer position %lld of %lld", (long long) il, (long long) pos, (long long) ra->a.elem_count); n = 0; return nullptr; }
  return (const int *) sc_array_index (&ra->a, pos);
}

struct Rec { TP c; int rank, owner, num, refs; };        /* an independent node in the list of one process */

/* agreement of all processes: the recorded nodes, and the sharers claimed for them */
void judge_global (std::vector<Rec> & loc, const std::vector<std::pair<TP, std::vector<int>>> & sh, p4est_nodes_t * nd, MPI_Comm comm)
{
  std::vector<Rec> all = allgatherv (loc, comm);
  std::map<TP, std::vector<int>> who;
  std::map<TP, std::pair<int, int>> id;
  std::map<std::pair<int, int>, TP> rid;
  std::vector<i64> owned (run.size, 0);
  std::map<TP, bool> ownerhas;
  for (auto & e : all) {
    who[e.c].push_back (e.rank);
    auto it = id.find (e.c);
    if (it == id.end ()) id[e.c] = {e.owner, e.num};
    else CHK (it->second == std::make_pair (e.owner, e.num), "owner-agree", "node %s is (owner %d, number %d) on rank %d but (%d, %d) elsewhere", pstr (e.c).c_str (), e.owner, e.num, e.rank, it->second.first, it->second.second);
    auto jt = rid.find ({e.owner, e.num});
    if (jt == rid.end ()) rid[{e.owner, e.num}] = e.c;
    else CHK (jt->second == e.c, "number-unique", "number (%d, %d) stands for %s and for %s", e.owner, e.num, pstr (e.c).c_str (), pstr (jt->second).c_str ());
    if (e.owner == e.rank) { ++owned[e.owner]; ownerhas[e.c] = true; }
  }
  for (auto & w : id) CHK (ownerhas.count (w.first), "owner-has", "owner %d of node %s does not have it", w.second.first, pstr (w.first).c_str ());
  for (int k = 0; k < run.size; ++k)
    CHK (nd->global_owned_indeps[k] == owned[k], "global-owned", "global_owned_indeps[%d] is %d, rank owns %lld", k, (int) nd->global_owned_indeps[k], (long long) owned[k]);
  for (auto & s : sh) {
    std::vector<int> want;
    for (int k : who[s.first]) if (k != run.rank) want.push_back (k);
    std::sort (want.begin (), want.end ());
    std::vector<int> got = s.second; std::sort (got.begin (), got.end ());
    if (want != got) {
      std::string a, b;
      for (int k : want) a += " " + std::to_string (k);
      for (int k : got) b += " " + std::to_string (k);
      FAILK ("sharers", "node %s on rank %d: sharers%s, processes referencing it%s", pstr (s.first).c_str (), run.rank, b.c_str (), a.c_str ());
    }
    if (want.size () > 1) count ("sharers_several");
    count ("sharer_lists");
  }
}

void judge_full (p4est_t * p, const Geo & g, const GForest & f)
{
  p4est_ghost_t *gh = p4est_ghost_new (p, P4EST_CONNECT_FULL);
  p4est_nodes_t *nd = p4est_nodes_new (p, gh);
  std::vector<Leaf> loc = local_leaves (p);
  Model m (g, f);
  i64 ni = nd->indep_nodes.elem_count, nfh = nd->face_hangings.elem_count, neh = 0;
#ifdef P4_TO_P8
  neh = nd->edge_hangings.elem_count;
#endif
  CHK (p4est_nodes_is_valid (p, nd), "is-valid", "the list just built is reported as invalid");
  CHK (nd->num_local_quadrants == (i64) loc.size (), "num-quads", "num_local_quadrants %d, leaves %zu", (int) nd->num_local_quadrants, loc.size ());
  i64 o0 = nd->offset_owned_indeps, o1 = o0 + nd->num_owned_indeps;
  CHK (0 <= o0 && o0 <= o1 && o1 <= ni, "owned-range", "owned range %lld..%lld of %lld", (long long) o0, (long long) o1, (long long) ni);

  /* independent nodes of this list */
  std::vector<Rec> recs;
  std::vector<std::pair<TP, std::vector<int>>> shl;
  std::vector<TP> ic (ni);
  std::map<TP, i64> ix;
  i64 nsh = 0, kn = 0;
  int lasto = 0;
  for (i64 i = 0; i < ni; ++i) {
    p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, i);
    TP self{(int) in->p.piggy3.which_tree, node_point (in)};
    if (self.t < 0 || self.t >= g.nt) { FAILK ("node-tree", "node %lld has tree %d", (long long) i, self.t); continue; }
    CHK (in->level == ML, "node-level", "node %lld has level %d", (long long) i, in->level);
    ic[i] = m.canon (self.t, self.x);
    /* kept in the coordinates of its lowest tree */
    CHK (ic[i].t == self.t, "node-lowest-tree", "node %s is kept in tree %d", pstr (ic[i]).c_str (), self.t);
    if (!ix.insert ({ic[i], i}).second) FAILK ("node-unique", "node %s appears twice (%lld and %lld)", pstr (ic[i]).c_str (), (long long) ix[ic[i]], (long long) i);
    int ns; const int *sh = sharers_of (nd, i, ns);
    int owner = run.rank;
    if (i < o0 || i >= o1) { owner = nd->nonlocal_ranks[kn++]; CHK (i < o0 ? owner < run.rank : owner > run.rank, "owner-order", "node %lld outside the owned range has owner %d", (long long) i, owner); }
    else { CHK (in->p.piggy3.local_num == i - o0, "owned-number", "owned node %lld has number %d", (long long) i, (int) in->p.piggy3.local_num); if (ns > 0) ++nsh; }
    CHK (owner >= lasto, "owner-ascending", "owner %d after %d", owner, lasto);
    lasto = owner;
    recs.push_back (Rec{ic[i], run.rank, owner, (int) in->p.piggy3.local_num, 0});
    shl.push_back ({ic[i], std::vector<int> (sh, sh + (sh ? ns : 0))});
    if (owner != run.rank) count ("nonlocal_nodes"); else count ("owned_nodes");
    if (ic[i] == self); else count ("node_other_image");
  }
  CHK (nsh == nd->num_owned_shared, "owned-shared", "num_owned_shared %d, owned nodes with sharers %lld", (int) nd->num_owned_shared, (long long) nsh);

  /* corners of the leaves */
  std::set<TP> wanti, wantf, wante;
  std::map<TP, i64> fhx, ehx;
  bool bad = false;
  for (size_t q = 0; q < loc.size (); ++q)
    for (int k = 0; k < NC; ++k) {
      TP c = m.canon (loc[q].t, corner_point (loc[q], k));
      const PCls & pc = m.cls (c);
      i64 l = nd->local_nodes[q * NC + k];
      if (pc.bad) { bad = true; count ("degenerate_points"); continue; }
      if (pc.hang == 0) {
        wanti.insert (c);
        if (l < 0 || l >= ni) { FAILK ("indep-class", "corner %d of %s is independent, entry %lld of %lld/%lld/%lld", k, leaf_str (loc[q]).c_str (), (long long) l, (long long) ni, (long long) nfh, (long long) neh); continue; }
        CHK (ic[l] == c, "indep-point", "corner %d of %s is %s, entry is node %s", k, leaf_str (loc[q]).c_str (), pstr (c).c_str (), pstr (ic[l]).c_str ());
        ++recs[l].refs;
        if (c.t != loc[q].t) count ("corners_other_tree");
        count ("independent_corners");
      }
      else {
        for (auto & d : pc.dep) wanti.insert (d);
        (pc.hang == 1 ? wantf : wante).insert (c);
        i64 base = pc.hang == 1 ? ni : ni + nfh, n = pc.hang == 1 ? nfh : neh;
        if (l < base || l >= base + n) { FAILK ("hang-class", "corner %d of %s hangs in a %s, entry %lld of %lld/%lld/%lld", k, leaf_str (loc[q]).c_str (), pc.hang == 1 ? "face" : "edge", (long long) l, (long long) ni, (long long) nfh, (long long) neh); continue; }
        const p4est_locidx_t *dep; int nd_; const void *node;
#ifndef P4_TO_P8
        p4est_hang2_t *h = (p4est_hang2_t *) sc_array_index (&nd->face_hangings, l - base);
        node = h; dep = h->p.piggy.depends; nd_ = 2; int ht = h->p.piggy.which_tree;
#else
        int ht;
        if (pc.hang == 1) { p8est_hang4_t *h = (p8est_hang4_t *) sc_array_index (&nd->face_hangings, l - base); node = h; dep = h->p.piggy.depends; nd_ = 4; ht = h->p.piggy.which_tree; }
        else { p8est_hang2_t *h = (p8est_hang2_t *) sc_array_index (&nd->edge_hangings, l - base); node = h; dep = h->p.piggy.depends; nd_ = 2; ht = h->p.piggy.which_tree; }
#endif
        if (ht < 0 || ht >= g.nt) { FAILK ("hang-tree", "hanging node with tree %d", ht); continue; }
        TP hc = m.canon (ht, node_point (node));
        CHK (hc == c, "hang-point", "corner %d of %s is %s, entry is hanging node %s", k, leaf_str (loc[q]).c_str (), pstr (c).c_str (), pstr (hc).c_str ());
        CHK (ht == c.t, "hang-lowest-tree", "hanging node %s is kept in tree %d", pstr (c).c_str (), ht);
        std::vector<TP> got;
        for (int i = 0; i < nd_; ++i) {
          if (dep[i] < 0 || dep[i] >= ni) { FAILK ("depend-range", "hanging node %s depends on %d of %lld", pstr (c).c_str (), (int) dep[i], (long long) ni); continue; }
          if (i) CHK (dep[i - 1] <= dep[i], "depend-order", "dependencies of %s are not ascending", pstr (c).c_str ());
          got.push_back (ic[dep[i]]);
          ++recs[dep[i]].refs;
        }
        std::sort (got.begin (), got.end ());
        if (got != pc.dep) {
          std::string a, b; for (auto & x : got) a += " " + pstr (x); for (auto & x : pc.dep) b += " " + pstr (x);
          FAILK ("depends", "%s hanging node %s depends on%s, geometry says%s", pc.hang == 1 ? "face" : "edge", pstr (c).c_str (), a.c_str (), b.c_str ());
        }
        auto & hx = pc.hang == 1 ? fhx : ehx;
        auto it = hx.find (c);
        if (it == hx.end ()) hx[c] = l;
        else CHK (it->second == l, "hang-unique", "hanging node %s has entries %lld and %lld", pstr (c).c_str (), (long long) it->second, (long long) l);
        count (pc.hang == 1 ? "face_hanging_corners" : "edge_hanging_corners");
        if (c.t != loc[q].t) count ("hanging_other_tree");
      }
    }
  if (!bad) {
    CHK ((i64) wanti.size () == ni, "indep-count", "%lld independent nodes, the local leaves reference %zu", (long long) ni, wanti.size ());
    for (auto & w : wanti) if (!ix.count (w)) { FAILK ("indep-missing", "node %s is referenced but not listed", pstr (w).c_str ()); break; }
    CHK ((i64) wantf.size () == nfh, "face-hang-count", "%lld face hanging nodes, geometry says %zu", (long long) nfh, wantf.size ());
    CHK ((i64) wante.size () == neh, "edge-hang-count", "%lld edge hanging nodes, geometry says %zu", (long long) neh, wante.size ());
    for (i64 i = 0; i < ni && !run.nfail_case; ++i) CHK (recs[i].refs > 0, "indep-unused", "node %s is referenced by no corner and no dependency", pstr (ic[i]).c_str ());
  }
  judge_global (recs, shl, nd, p->mpicomm);
  count ("node_lists");
  if (nd->shared_offsets) count ("offset_arrays");
  p4est_nodes_destroy (nd);
  p4est_ghost_destroy (gh);
}

/* without a ghost layer: only matches inside one tree and process */
void judge_local (p4est_t * p, bool balanced)
{
  p4est_nodes_t *nd = p4est_nodes_new (p, NULL);
  std::vector<Leaf> loc = local_leaves (p);
  i64 ni = nd->indep_nodes.elem_count;
  CHK (nd->num_owned_indeps == ni && nd->offset_owned_indeps == 0 && nd->num_owned_shared == 0 && nd->global_owned_indeps == NULL
       && nd->face_hangings.elem_count == 0, "local-counts", "owned %d offset %d shared %d of %lld", (int) nd->num_owned_indeps, (int) nd->offset_owned_indeps, (int) nd->num_owned_shared, (long long) ni);
#ifdef P4_TO_P8
  CHK (nd->edge_hangings.elem_count == 0, "local-counts", "edge hanging nodes without a ghost layer");
#endif
  CHK (p4est_nodes_is_valid (p, nd), "is-valid", "the local list just built is reported as invalid");
  CHK (nd->num_local_quadrants == (i64) loc.size (), "num-quads", "num_local_quadrants %d, leaves %zu", (int) nd->num_local_quadrants, loc.size ());
  std::map<TP, i64> ix;
  std::vector<char> used (ni, 0);
  for (i64 i = 0; i < ni; ++i) {
    p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, i);
    CHK (in->p.piggy3.local_num == i && in->pad8 == 0, "local-number", "node %lld has number %d and %d sharers", (long long) i, (int) in->p.piggy3.local_num, in->pad8);
    TP c{(int) in->p.piggy3.which_tree, node_point (in)};
    if (!ix.insert ({c, i}).second && balanced) FAILK ("local-unique", "node %s appears twice in a balanced forest", pstr (c).c_str ());
  }
  for (size_t q = 0; q < loc.size (); ++q)
    for (int k = 0; k < NC; ++k) {
      i64 l = nd->local_nodes[q * NC + k];
      if (l < 0 || l >= ni) { FAILK ("local-entry", "corner %d of %s has entry %lld of %lld", k, leaf_str (loc[q]).c_str (), (long long) l, (long long) ni); continue; }
      used[l] = 1;
      p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, l);
      TP c{loc[q].t, corner_point (loc[q], k)}, n{(int) in->p.piggy3.which_tree, node_point (in)};
      CHK (c == n, "local-point", "corner %d of %s has node %s", k, leaf_str (loc[q]).c_str (), pstr (n).c_str ());
      count (balanced ? "local_corners" : "local_corners_unbalanced");
    }
  for (i64 i = 0; i < ni; ++i) if (!used[i]) { FAILK ("local-unused", "node %lld is referenced by no corner", (long long) i); break; }
  count ("local_lists");
  p4est_nodes_destroy (nd);
}

#if !defined P4_TO_P8 && !defined P4EST_ENABLE_DEBUG
/* a long process boundary with more nodes of one sharer count than fit into 16 bits */
void big_case (Rng & r)
{
  const int L = 16;
  i64 right = RL / 8 * (5 + r.below (3));
  describe ("big boundary up to %lld", (long long) right);
  p4est_connectivity_t *c = p4est_connectivity_new_unitsquare ();
  Geo g; g.init (c);
  p4est_t *p = p4est_new (MPI_COMM_WORLD, c, 0, NULL, NULL);
  i64 mid = RL / 2;
  for (int l = 0; l < L; ++l) {
    refine_pred (p, [&] (int, const p4est_quadrant_t * q) {
      i64 h = P4EST_QUADRANT_LEN (q->level);
      return (int) (q->level < L && q->x < right && q->y <= mid && q->y + h >= mid); }, false);
    i64 n = p->global_num_quadrants, left = n - n / 2;
    std::vector<i64> cnt (run.size, 0);
    cnt[0] = n / 2;
    for (int k = 1; k < run.size; ++k) { cnt[k] = k == run.size - 1 ? left : r.below (std::min<i64> (left, 1000)); left -= cnt[k]; }
    partition_counts (p, cnt);
  }
  p4est_balance (p, P4EST_CONNECT_FULL, NULL);
  GForest f = gather (p);
  distinct_state (f.hash (true));
  judge_full (p, g, f);
  gcount ("big_boundaries");
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
#endif

void prop_nodes (Rng & r)
{
#if !defined P4_TO_P8 && !defined P4EST_ENABLE_DEBUG
  if (run.size > 1 && run.caseno % 60 == 11) { big_case (r); ++run.judged; return; }
#endif
  ConnOpts co; co.max_trees = VH_DIM == 2 ? 8 : 6;
  std::string name;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  Geo g; g.init (c);
  ForestOpts fo; fo.target = r.pick ({20, 80, 250}); fo.maxl = VH_DIM == 2 ? 6 : 4;
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  describe ("%s trees %d leaves %lld", name.c_str (), g.nt, (long long) p->global_num_quadrants);
  judge_local (p, false);
  p4est_balance (p, P4EST_CONNECT_FULL, NULL);
  if (r.chance (.8)) random_partition (r, p, true);
  GForest f = gather (p);
  distinct_state (hcomb (f.hash (true), conn_hash (c)));
  judge_local (p, true);
  if (conn_oracle_ok (g)) judge_full (p, g, f);
  else gcount ("oracle_skipped");
  ++run.judged;
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C10", prop_nodes)
}

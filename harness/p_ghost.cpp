/* C06: ghost layers.  The set of touching leaves is computed from the geometry. */
#include "core.hpp"
#include <sc.h>
#ifdef P4_TO_P8
/* defined but not declared in the 3D header */
extern "C" ssize_t p8est_ghost_contains (p8est_ghost_t *, int, p4est_topidx_t, const p8est_quadrant_t *);
#endif

/* distances of all leaves to the domain of each process, up to maxd; dist[r][i] */
struct GhostModel
{
  const GForest *f;
  int P;
  std::vector<std::vector<int>> nbr;    /* leaf -> touching leaves */
  std::vector<std::vector<int>> dist;   /* per process: -1 far, 0 own, k layer */
  void init (const GForest & g, const std::vector<Adj> & adj, int mindim, int size)
  {
    f = &g; P = size;
    nbr.assign (g.q.size (), std::vector<int> ());
    for (auto & a : adj) if (a.dim >= mindim) { nbr[a.a].push_back (a.b); nbr[a.b].push_back (a.a); }
    dist.assign (P, std::vector<int> (g.q.size (), -1));
    for (size_t i = 0; i < g.q.size (); ++i) dist[g.q[i].rank][i] = 0;
    grow (1);
  }
  void grow (int k)
  {
    for (int r = 0; r < P; ++r) {
      std::vector<int> & d = dist[r];
      std::vector<int> add;
      for (size_t i = 0; i < d.size (); ++i) if (d[i] == k - 1) for (int j : nbr[i]) if (d[j] < 0) add.push_back (j);
      for (int j : add) d[j] = k;
    }
  }
};

void check_ghost (p4est_t * p, p4est_ghost_t * gh, const GForest & f, const GhostModel & m, int layers, const char *when)
{
  int P = p->mpisize, me = p->mpirank, nt = f.nt;
  std::vector<int> exp;
  for (size_t i = 0; i < f.q.size (); ++i) if (m.dist[me][i] > 0) exp.push_back ((int) i);
  CHK (gh->mpisize == P && gh->num_trees == nt, "ghost-header", "%s: mpisize %d num_trees %d", when, gh->mpisize, gh->num_trees);
  bool same = gh->ghosts.elem_count == exp.size ();
  for (size_t i = 0; i < std::min (exp.size (), gh->ghosts.elem_count); ++i) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->ghosts, i);
    Leaf a = mkleaf (q->p.piggy3.which_tree, q);
    const Leaf & b = f.q[exp[i]];
    if (!a.same (b)) {
      FAILK ("ghost-set", "%s: ghost %zu is %s, expected %s (have %zu, expected %zu)", when, i, leaf_str (a).c_str (), leaf_str (b).c_str (), gh->ghosts.elem_count, exp.size ());
      return;
    }
    i64 ln = exp[i] - f.rfirst[b.rank];
    CHK (q->p.piggy3.local_num == ln, "ghost-local-num", "%s: ghost %s has local number %d, on its owner it is %lld", when, leaf_str (b).c_str (), q->p.piggy3.local_num, (long long) ln);
  }
  CHK (same, "ghost-set", "%s: %zu ghosts, expected %zu; %s", when, gh->ghosts.elem_count, exp.size (),
       exp.size () > gh->ghosts.elem_count ? ("first missing " + leaf_str (f.q[exp[gh->ghosts.elem_count]])).c_str () : "surplus at end");
  if (!same) return;
  std::vector<i64> to (nt + 1, 0), po (P + 1, 0);
  for (int i : exp) { to[f.q[i].t + 1]++; po[f.q[i].rank + 1]++; }
  for (int t = 0; t < nt; ++t) to[t + 1] += to[t];
  for (int r = 0; r < P; ++r) po[r + 1] += po[r];
  for (int t = 0; t <= nt; ++t) CHK (gh->tree_offsets[t] == to[t], "tree-offsets", "%s: ghost tree offset %d is %d, expected %lld", when, t, gh->tree_offsets[t], (long long) to[t]);
  for (int r = 0; r <= P; ++r) CHK (gh->proc_offsets[r] == po[r], "proc-offsets", "%s: ghost process offset %d is %d, expected %lld", when, r, gh->proc_offsets[r], (long long) po[r]);
  /* mirrors */
  std::vector<int> mir;
  for (i64 i = f.rfirst[me]; i < f.rfirst[me + 1]; ++i) {
    bool any = false;
    for (int r = 0; r < P; ++r) if (r != me && m.dist[r][i] > 0) any = true;
    if (any) mir.push_back ((int) i);
  }
  CHK (gh->mirrors.elem_count == mir.size (), "mirror-set", "%s: %zu mirrors, expected %zu", when, gh->mirrors.elem_count, mir.size ());
  if (gh->mirrors.elem_count != mir.size ()) return;
  std::vector<i64> mto (nt + 1, 0);
  for (size_t i = 0; i < mir.size (); ++i) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->mirrors, i);
    Leaf a = mkleaf (q->p.piggy3.which_tree, q);
    CHK (a.same (f.q[mir[i]]), "mirror-set", "%s: mirror %zu is %s, expected %s", when, i, leaf_str (a).c_str (), leaf_str (f.q[mir[i]]).c_str ());
    CHK (q->p.piggy3.local_num == mir[i] - f.rfirst[me], "mirror-local-num", "%s: mirror %s has local number %d", when, leaf_str (f.q[mir[i]]).c_str (), q->p.piggy3.local_num);
    mto[f.q[mir[i]].t + 1]++;
  }
  for (int t = 0; t < nt; ++t) mto[t + 1] += mto[t];
  for (int t = 0; t <= nt; ++t) CHK (gh->mirror_tree_offsets[t] == mto[t], "mirror-tree-offsets", "%s: offset %d is %d, expected %lld", when, t, gh->mirror_tree_offsets[t], (long long) mto[t]);
  std::vector<i64> mp, mf, mpo (1, 0), mfo (1, 0);
  for (int r = 0; r < P; ++r) {
    for (size_t i = 0; i < mir.size (); ++i) {
      if (r != me && m.dist[r][mir[i]] > 0) mp.push_back ((i64) i);
      if (r != me && m.dist[r][mir[i]] == layers) mf.push_back ((i64) i);
    }
    mpo.push_back ((i64) mp.size ());
    mfo.push_back ((i64) mf.size ());
  }
  bool ok = true;
  for (int r = 0; r <= P; ++r) if (gh->mirror_proc_offsets[r] != mpo[r]) ok = false;
  CHK (ok, "mirror-proc-offsets", "%s: mirror_proc_offsets differ from the expected counts", when);
  for (size_t i = 0; ok && i < mp.size (); ++i) if (gh->mirror_proc_mirrors[i] != mp[i]) ok = false;
  CHK (ok, "mirror-proc-mirrors", "%s: mirrors per process are not the local leaves in the other's ghost layer", when);
  if (gh->mirror_proc_fronts != NULL && layers > 1) {
    ok = true;
    for (int r = 0; r <= P; ++r) if (gh->mirror_proc_front_offsets[r] != mfo[r]) ok = false;
    for (size_t i = 0; ok && i < mf.size (); ++i) if (gh->mirror_proc_fronts[i] != mf[i]) ok = false;
    CHK (ok, "mirror-fronts", "%s: mirror fronts are not the outermost layer", when);
  }
  CHK (p4est_ghost_memory_used (gh) >= gh->ghosts.elem_count * sizeof (p4est_quadrant_t), "memory-used", "%s: memory", when);
  count ("ghosts_checked", (long) exp.size ());
  count ("mirrors_checked", (long) mir.size ());
}

static void check_queries (Rng & r, p4est_t * p, p4est_ghost_t * gh, const Geo & g, const GForest & f, const GhostModel & m)
{
  int me = p->mpirank;
  Rng rr (r.next () + 77 * me);
  std::vector<int> ghs;
  std::vector<i64> gpos (f.q.size (), -1);
  for (size_t i = 0; i < f.q.size (); ++i) if (m.dist[me][i] > 0) { gpos[i] = (i64) ghs.size (); ghs.push_back ((int) i); }
  i64 nl = f.rfirst[me + 1] - f.rfirst[me];
  auto exact = [&] (const Leaf & a) -> i64 {   /* global index of leaf if it exists */
    i64 k = f.find_key (a.t, a.key ());
    return k >= 0 && f.q[k].same (a) ? k : -1;
  };
  for (int n = 0; n < 20; ++n) {
    Leaf a;
    if (rr.chance (0.5) && ghs.size ()) a = f.q[ghs[rr.below (ghs.size ())]]; else a = f.q[rr.below (f.q.size ())];
    int k = rr.below (4);
    if (k == 0 && a.l > 0) a = leaf_parent (a);
    else if (k >= 1 && k <= 2 && a.l < QML) for (int j = rr.range (1, 3); j > 0 && a.l < QML; --j) a = leaf_child (a, rr.below (NC));
    p4est_quadrant_t q;
    leaf_to_quad (a, &q);
    i64 e = exact (a), cont = f.find_key (a.t, a.key ());
    if (cont >= 0 && f.q[cont].l > a.l) cont = -1;
    i64 ex1 = e >= 0 ? gpos[e] : -1, ex2 = cont >= 0 ? gpos[cont] : -1;
    int wp = -1, sel = rr.below (3);
    if (sel == 1 && cont >= 0) wp = f.q[cont].rank;
    if (sel == 2) { wp = rr.below (p->mpisize); if (cont >= 0 && f.q[cont].rank != wp) ex1 = ex2 = -1; }
    CHK (p4est_ghost_bsearch (gh, wp, a.t, &q) == ex1, "ghost-bsearch", "looking for %s (process %d): %lld, expected %lld", leaf_str (a).c_str (), wp, (long long) p4est_ghost_bsearch (gh, wp, a.t, &q), (long long) ex1);
    CHK (p4est_ghost_contains (gh, wp, a.t, &q) == ex2, "ghost-contains", "looking for %s (process %d): %lld, expected %lld", leaf_str (a).c_str (), wp, (long long) p4est_ghost_contains (gh, wp, a.t, &q), (long long) ex2);
    count ("ghost_queries", 2);
  }
  if (nl == 0) return;
  sc_array_t ea, ra, qa;
  sc_array_init (&ea, sizeof (int)); sc_array_init (&ra, sizeof (int)); sc_array_init (&qa, sizeof (p4est_quadrant_t));
  for (int n = 0; n < 25; ++n) {
    Leaf a = f.q[f.rfirst[me] + rr.below (nl)], s = a;
    int size = rr.below (3);
    if (size == 1 && a.l > 0) a = leaf_parent (a);
    if (size == 2 && a.l < QML) a = leaf_child (a, rr.below (NC));
    p4est_quadrant_t q, nq;
    leaf_to_quad (a, &q);
    int ei = rr.below (entities ().size ());
    const Ent & en = entities ()[ei];
    if (ei < NF) {
      p4est_quadrant_face_neighbor (&q, ei, &nq);
      /* transform by the gluing */
      P3 c = {0, 0, 0};
      for (int i = 0; i < DIM; ++i) c[i] = 2 * a.x[i] + a.len ();
      c[ei / 2] += (ei & 1 ? 2 : -2) * a.len ();
      bool inside = c[ei / 2] > 0 && c[ei / 2] < R2;
      int nt = a.t, nf = ei ^ 1;
      int code = nf;
      bool bnd = false;
      Xf x;
      if (!inside) {
        if (g.on_boundary_face (a.t, ei)) bnd = true;
        else { nt = g.c->tree_to_tree[a.t * NF + ei]; code = g.c->tree_to_face[a.t * NF + ei]; nf = code % NF; x = g.fx[a.t * NF + ei]; c = x.map (c); }
      }
      i64 e = -1, pos = -1;
      Leaf b = a;
      if (!bnd) {
        b.t = nt;
        for (int i = 0; i < DIM; ++i) b.x[i] = (c[i] - a.len ()) / 2;
        e = exact (b);
        pos = f.find_key (b.t, b.key ());
      }
      bool vis = e >= 0 && (f.q[e].rank == me || gpos[e] >= 0);
      /* exists */
      int ret = p4est_quadrant_exists (p, gh, a.t, &nq, &ea, rr.chance (0.5) ? &ra : NULL, rr.chance (0.5) ? &qa : NULL);
      CHK ((ret != 0) == vis, "quadrant-exists", "face neighbour %d of %s: says %d, expected %d", ei, leaf_str (a).c_str (), ret, (int) vis);
      int face = ei, hang = leaf_childid (s), owner = -77;
      int usehang = ((hang >> (ei / 2)) & 1) == (ei & 1) && rr.chance (0.8);   /* the originator touches the face */
      p4est_locidx_t ln = p4est_face_quadrant_exists (p, gh, a.t, &nq, &face, usehang ? &hang : NULL, &owner);
      i64 eln = bnd ? -2 : vis ? e - f.rfirst[f.q[e].rank] : -1;
      CHK (ln == eln, "face-exists", "face neighbour %d of %s: number %d, expected %lld", ei, leaf_str (a).c_str (), ln, (long long) eln);
      if (bnd) CHK (face == -1 && owner == -1 && (!usehang || hang == -1), "face-exists-boundary", "boundary face %d of %s: face %d owner %d", ei, leaf_str (a).c_str (), face, owner);
      else {
        CHK (face == code, "face-exists-face", "face neighbour %d of %s: face code %d, expected %d", ei, leaf_str (a).c_str (), face, code);
        if (pos >= 0) CHK (owner == f.q[pos].rank, "face-exists-owner", "face neighbour %d of %s: owner %d, expected %d", ei, leaf_str (a).c_str (), owner, f.q[pos].rank);
        if (usehang && size == 1 && s.l > a.l && ((leaf_childid (s) >> (ei / 2)) & 1) == (ei & 1)) {
          P3 fc = ent_center (s, entities ()[ei]);
          if (!inside) fc = x.map (fc);
          int hc = 0, j = 0;
          for (int i = 0; i < DIM; ++i) if (i != nf / 2) { if (fc[i] > 2 * b.x[i] + b.len ()) hc |= 1 << j; ++j; }
          CHK (hang == hc, "face-exists-hang", "face %d of %s: hanging position %d, expected %d", ei, leaf_str (s).c_str (), hang, hc);
          count ("hanging_positions");
        }
      }
      count ("existence_queries", 2);
    }
    else {
#ifdef P4_TO_P8
      if (ei < ent_corner0) p8est_quadrant_edge_neighbor (&q, ei - ent_edge0, &nq);
      else
#endif
      p4est_quadrant_corner_neighbor (&q, ei - ent_corner0, &nq);
      int ret = p4est_quadrant_exists (p, gh, a.t, &nq, &ea, &ra, &qa);
      bool any = false;
      int nout = 0;
      i64 nx[3] = { nq.x, nq.y, 0 };
#ifdef P4_TO_P8
      nx[2] = nq.z;
#endif
      for (int i = 0; i < DIM; ++i) nout += nx[i] < 0 || nx[i] >= RL;
      for (size_t z = 0; z < qa.elem_count; ++z) {
        p4est_quadrant_t *w = p4est_quadrant_array_index (&qa, z);
        Leaf b = mkleaf (w->p.piggy3.which_tree, w);
        i64 e = exact (b), pos = f.find_key (b.t, b.key ());
        bool vis = e >= 0 && (f.q[e].rank == me || gpos[e] >= 0);
        any |= vis;
        CHK ((w->p.piggy3.local_num >= 0) == vis, "quadrant-exists-entry", "neighbour %s: found %d, expected %d", leaf_str (b).c_str (), w->p.piggy3.local_num >= 0, (int) vis);
        if (ea.elem_count == qa.elem_count) CHK ((*(int *) sc_array_index (&ea, z) != 0) == vis, "quadrant-exists-entry", "neighbour %s: exists %d, expected %d", leaf_str (b).c_str (), *(int *) sc_array_index (&ea, z), (int) vis);
        if (pos >= 0) CHK (*(int *) sc_array_index (&ra, z) == f.q[pos].rank, "quadrant-exists-rank", "neighbour %s: process %d, expected %d", leaf_str (b).c_str (), *(int *) sc_array_index (&ra, z), f.q[pos].rank);
        /* it touches the corner or edge of the original */
        if (nout) {
          std::vector<TP> orb;
          P3 x = ent_center (a, en);
          g.orbit (a.t, x, orb);
          bool touch = false;
          for (auto & o : orb) if (o.t == b.t) { bool in = true; for (int i = 0; i < DIM; ++i) if (o.x[i] < 2 * b.x[i] || o.x[i] > 2 * (b.x[i] + b.len ())) in = false; touch |= in; }
          CHK (touch, "quadrant-exists-place", "neighbour %s across entity %d of %s does not touch it", leaf_str (b).c_str (), ei, leaf_str (a).c_str ());
        }
      }
      CHK ((ret != 0) == any, "quadrant-exists", "entity %d of %s: returns %d, entries say %d", ei, leaf_str (a).c_str (), ret, (int) any);
      count ("existence_queries");
    }
  }
  sc_array_reset (&ea); sc_array_reset (&ra); sc_array_reset (&qa);
}

/* adjacency by shared independent nodes */
static std::vector<Adj> node_adjacency (p4est_t * p, p4est_lnodes_t * ln)
{
  std::vector<i64> loc;
  for (p4est_locidx_t k = 0; k < ln->num_local_elements; ++k) for (int v = 0; v < ln->vnodes; ++v) {
    loc.push_back (p4est_lnodes_global_index (ln, ln->element_nodes[k * ln->vnodes + v]));
    loc.push_back (p->global_first_quadrant[p->mpirank] + k);
  }
  std::vector<i64> all = allgatherv (loc, MPI_COMM_WORLD);
  std::map<i64, std::set<int>> byn;
  for (size_t i = 0; i < all.size (); i += 2) byn[all[i]].insert ((int) all[i + 1]);
  std::set<std::pair<int, int>> pr;
  for (auto & kv : byn) for (int a : kv.second) for (int b : kv.second) if (a < b) pr.insert ({a, b});
  std::vector<Adj> out;
  for (auto & x : pr) out.push_back (Adj{x.first, x.second, 0});
  return out;
}

static void c06 (Rng & r)
{
  std::string name;
  ConnOpts co;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  Geo geo;
  geo.init (c);
  if (!conn_oracle_ok (geo)) { gcount ("skipped_connectivity"); p4est_connectivity_destroy (c); return; }
  ForestOpts fo;
  fo.data_size = r.pick ({ 0, 8 });
  fo.target = r.range (1, DIM == 2 ? 350 : 250);
  fo.deep = 0.2;
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  bool bal = r.chance (0.5);
  if (bal && p->global_num_quadrants < 1500) { p4est_balance (p, conn_type (r.below (DIM)), NULL); random_partition (r, p, true); }
  int mindim = r.below (DIM);
  describe ("%s leaves %lld mindim %d balanced %d", name.c_str (), (long long) p->global_num_quadrants, mindim, bal);
  if (p->global_num_quadrants > 6000) { p4est_destroy (p); p4est_connectivity_destroy (c); return; }
  GForest f = gather (p);
  std::vector<Adj> adj = adjacency (geo, f, MPI_COMM_WORLD);
  GhostModel m;
  m.init (f, adj, mindim, run.size);
  p4est_connect_type_t ct = mindim == 0 && r.chance (0.5) ? P4EST_CONNECT_FULL : conn_type (mindim);
  p4est_ghost_t *gh = p4est_ghost_new (p, ct);
  check_ghost (p, gh, f, m, 1, "new");
  CHK (p4est_ghost_is_valid (p, gh), "ghost-is-valid", "valid layer rejected");
  if (r.chance (0.5)) {
    unsigned c1 = p4est_ghost_checksum (p, gh);
    p4est_ghost_t *g2 = p4est_ghost_new (p, ct);
    unsigned c2 = p4est_ghost_checksum (p, g2);
    CHK (run.rank != 0 || c1 == c2, "ghost-checksum", "checksums %u %u", c1, c2);
    p4est_ghost_destroy (g2);
  }
  i64 tot = allsum ((i64) gh->ghosts.elem_count, MPI_COMM_WORLD);
  check_queries (r, p, gh, geo, f, m);
  /* a tampered layer is rejected by some process */
  if (r.chance (0.4) && tot > 0) {
    /* one ghost is replaced by its first child, which keeps the order */
    std::vector<int> have;
    int mine = (int) gh->ghosts.elem_count, at = -1;
    int pos = (int) (r.next () & 0xffff);
    for (int i = 0; i < mine && at < 0; ++i) if (p4est_quadrant_array_index (&gh->ghosts, (pos + i) % mine)->level < QML) at = (pos + i) % mine;
    std::vector<int> all = allgatherv (std::vector<int> (1, at), MPI_COMM_WORLD);
    for (int i = 0; i < run.size; ++i) if (all[i] >= 0) have.push_back (i);
    if (have.size ()) {
      int vict = have[r.below (have.size ())];
      if (run.rank == vict) p4est_quadrant_array_index (&gh->ghosts, at)->level++;
      sc_package_set_verbosity (p4est_package_id, SC_LP_SILENT);
      int v = p4est_ghost_is_valid (p, gh);
      sc_package_set_verbosity (p4est_package_id, SC_LP_ERROR);
      if (run.rank == vict) {
        CHK (!v, "ghost-is-valid-accepts", "a layer with a tampered ghost is accepted");
        p4est_quadrant_array_index (&gh->ghosts, at)->level--;
      }
      gcount ("tampered_layers");
    }
  }
  int ne = r.pick ({ 0, 0, 1, 1, 2, 3 });
  for (int k = 0; k < ne; ++k) {
    m.grow (k + 2);
    p4est_ghost_expand (p, gh);
    char b[40]; snprintf (b, sizeof b, "expansion %d", k + 1);
    check_ghost (p, gh, f, m, k + 2, b);
    CHK (p4est_ghost_is_valid (p, gh), "ghost-is-valid", "valid layer rejected after expansion %d", k + 1);
    gcount ("expansions");
    if (run.nfail_case) break;
  }
  if (ne && r.chance (0.3)) check_queries (r, p, gh, geo, f, m);
  p4est_ghost_destroy (gh);
  gh = p4est_ghost_new_local (p, ct);
  CHK (gh->ghosts.elem_count == 0 && gh->mirrors.elem_count == 0 && gh->proc_offsets[run.size] == 0 && gh->tree_offsets[c->num_trees] == 0, "ghost-local", "local ghost layer is not empty");
  p4est_ghost_destroy (gh);
  gcount ("ghost_layers");
  if (tot) gcount ("nonempty_layers");
  distinct_state (hcomb (f.hash (true), hcomb (conn_hash (c), mindim * 8 + ne)));
  /* node supports */
  if (bal && r.chance (0.35) && !run.nfail_case && p->global_num_quadrants < 2500) {
    p4est_balance (p, P4EST_CONNECT_FULL, NULL);
    random_partition (r, p, true);
    if (p->global_num_quadrants < 2500) {
      f = gather (p);
      adj = adjacency (geo, f, MPI_COMM_WORLD);
      gh = p4est_ghost_new (p, P4EST_CONNECT_FULL);
      p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, r.range (1, 2));
      std::vector<Adj> na = node_adjacency (p, ln);
      GhostModel m2;
      std::vector<Adj> both = adj;
      m2.init (f, adj, 0, run.size);
      p4est_ghost_support_lnodes (p, ln, gh);
      /* touching leaves and leaves sharing a node with a local one */
      for (auto & a : na) {
        int ra = f.q[a.a].rank, rb = f.q[a.b].rank;
        if (ra != rb) { if (m2.dist[ra][a.b] < 0) m2.dist[ra][a.b] = 1; if (m2.dist[rb][a.a] < 0) m2.dist[rb][a.a] = 1; }
      }
      check_ghost (p, gh, f, m2, 1, "node support");
      CHK (p4est_ghost_is_valid (p, gh), "ghost-is-valid", "valid layer rejected after node support");
      gcount ("node_supports");
      p4est_lnodes_destroy (ln);
      p4est_ghost_destroy (gh);
    }
  }
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C06", c06)

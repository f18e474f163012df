/* C09: global node numbering.  The monitor names every node by the mesh
 * entity it lies on and its position there, computed from the geometry, and
 * compares numbers, owners, sharers and hanging codes with that. */
#include "core.hpp"
#include "ifmodel.hpp"
#include "lmodel.hpp"

namespace {

struct NodeKey { u64 h; i64 gid; };

static void check_lnodes (Rng & r, p4est_t * p, p4est_ghost_t * gh, p4est_lnodes_t * ln, const Geo & g, const GForest & f, LModel & M, int degree)
{
  auto & es = entities ();
  int me = p->mpirank, P = p->mpisize;
  i64 l0 = f.rfirst[me];
  int nl = p->local_num_quadrants;
  int N = degree, vn = 1;
  if (degree > 0) for (int i = 0; i < DIM; ++i) vn *= N + 1;
  else vn = degree == -1 ? NF : degree == -2 ? (DIM == 3 ? NF + NE : NF + NC) : NF + NE + NC;
  CHK (ln->degree == degree && ln->vnodes == vn && ln->num_local_elements == nl, "header", "degree %d: degree %d vnodes %d elements %d, expected %d %d", degree, ln->degree, ln->vnodes,
       ln->num_local_elements, vn, nl);
  if (ln->vnodes != vn || ln->num_local_elements != nl) return;
  CHK (ln->owned_count <= ln->num_local_nodes && ln->owned_count == ln->global_owned_count[me], "owned-count", "owned %d of %d, in table %d", ln->owned_count, ln->num_local_nodes, ln->global_owned_count[me]);
  std::vector<i64> first (P + 1, 0);
  for (int q = 0; q < P; ++q) first[q + 1] = first[q] + ln->global_owned_count[q];
  CHK (ln->global_offset == first[me], "global-offset", "offset %lld, expected %lld", (long long) ln->global_offset, (long long) first[me]);
  i64 sum = allsum (ln->owned_count, p->mpicomm);
  CHK (sum == first[P], "owned-table", "owned counts add to %lld, table %lld", (long long) sum, (long long) first[P]);
  int nn = ln->num_local_nodes, no = ln->owned_count;
  for (int i = no; i < nn; ++i) {
    i64 gidx = ln->nonlocal_nodes[i - no];
    CHK (gidx >= 0 && gidx < first[P] && (gidx < first[me] || gidx >= first[me + 1]), "nonlocal", "nonlocal node %lld of %lld lies in the own range", (long long) gidx, (long long) first[P]);
    CHK (i == no || gidx > ln->nonlocal_nodes[i - no - 1], "nonlocal-order", "nonlocal nodes are not ascending");
  }
  if (run.nfail_case) { }
  std::vector<u64> keyof (nn, 0);       /* local node -> identity */
  std::vector<int> ownof (nn, -1);
  for (int q = 0; q < nl; ++q) {
    const Leaf & a = f.q[l0 + q];
    int hf, he;
    M.hanging (a, hf, he);
    /* hanging code */
    int dhf[6], dhe[12];
    for (int i = 0; i < 6; ++i) dhf[i] = -1;
    for (int i = 0; i < 12; ++i) dhe[i] = -1;
#ifdef P4_TO_P8
    int any = p8est_lnodes_decode (ln->face_code[q], dhf, dhe);
#else
    int any = p4est_lnodes_decode (ln->face_code[q], dhf);
#endif
    int cid = a.l > 0 ? leaf_childid (a) : 0;
    /* a numbering of faces alone says nothing about edges */
    bool edges = DIM == 3 && degree != -1;
    CHK (any == (hf || he) || (!edges && any == (hf != 0)), "face-code", "%s: hanging %d, expected faces %x edges %x", leaf_str (a).c_str (), any, hf, he);
    for (int k = 0; k < NF; ++k) {
      int want = -1;
      if ((hf >> k) & 1) {              /* the corner of the full face that it touches */
        want = 0; int j = 0;
        for (int i = 0; i < DIM; ++i) if (i != k / 2) { if ((cid >> i) & 1) want |= 1 << j; ++j; }
        count ("hanging_faces");
      }
      CHK (dhf[k] == want, "face-code", "%s: face %d hanging %d, expected %d (code %d)", leaf_str (a).c_str (), k, dhf[k], want, (int) ln->face_code[q]);
    }
#ifdef P4_TO_P8
    for (int k = 0; edges && k < NE; ++k) {
      const Ent & e = es[ent_edge0 + k];
      bool onface = false;
      for (int j = 0; j < NF; ++j) if (((hf >> j) & 1) && LModel::within (e, es[j])) onface = true;
      int want = -1;
      if ((he >> k) & 1) { want = (onface ? 2 : 0) + ((cid >> (k / 4)) & 1); count ("hanging_edges"); }
      else if (onface) want = 4;
      CHK (dhe[k] == want, "face-code", "%s: edge %d hanging %d, expected %d (code %d)", leaf_str (a).c_str (), k, dhe[k], want, (int) ln->face_code[q]);
    }
#endif
    Leaf pa = a.l > 0 ? leaf_parent (a) : a;
    pa.rank = a.rank;
    for (int v = 0; v < vn; ++v) {
      int k = -1, own, alt = -1; u64 h;
      if (degree > 0) {
        int ix[3] = { v % (N + 1), (v / (N + 1)) % (N + 1), DIM == 3 ? v / ((N + 1) * (N + 1)) : 0 };
        Ent pat; pat.dim = 0; pat.d[0] = pat.d[1] = pat.d[2] = 0;
        for (int i = 0; i < DIM; ++i) { if (ix[i] == 0) pat.d[i] = -1; else if (ix[i] == N) pat.d[i] = 1; else pat.dim++; }
        k = Model::ent_index (pat);
        bool par = k >= 0 && M.refers_to_parent (k, hf, he);
        const Leaf & e = par ? pa : a;
        P3 x = { 0, 0, 0 };
        for (int i = 0; i < DIM; ++i) x[i] = 2 * e.x[i] + node_pos (2 * e.len (), N, ix[i]);
        TP ck = g.canon (e.t, x);
        h = hcomb (hcomb (ck.t * 4 + pat.dim, ck.x[0]), hcomb (ck.x[1], ck.x[2]));
        if (k < 0) { own = me; h = hcomb (h, (u64) a.gi * 17 + v); }
        else own = M.owner (e, k, &alt);
        if (par) count ("hanging_references");
      }
      else {
        k = v < NF ? v : (DIM == 2) ? ent_corner0 + v - NF : v;
        bool par = M.refers_to_parent (k, hf, he);
        const Leaf & e = par ? pa : a;
        TP ck = g.canon (e.t, ent_center (e, es[k]));
        h = hcomb (hcomb (ck.t * 4 + es[k].dim, ck.x[0]), hcomb (ck.x[1], ck.x[2]));
        own = M.owner (e, k, &alt);
        if (par) count ("hanging_references");
      }
      int lid = ln->element_nodes[(i64) q * vn + v];
      if (lid < 0 || lid >= nn) { FAILK ("element-node", "%s node %d is %d of %d", leaf_str (a).c_str (), v, lid, nn); continue; }
      if (keyof[lid] == 0) { keyof[lid] = h; ownof[lid] = own; }
      else if (keyof[lid] != h) FAILK ("two-places", "%s: local node %d is also elsewhere, position %d of degree %d", leaf_str (a).c_str (), lid, v, degree);
      i64 gid = p4est_lnodes_global_index (ln, lid);
      int go = (int) (std::upper_bound (first.begin (), first.end (), gid) - first.begin ()) - 1;
      ownof[lid] = go;
      if (go != own && alt >= 0 && go == alt) FAILK ("~owner-self", "%s: node at position %d of degree %d is owned by %d, lowest leaf touching it by %d", leaf_str (a).c_str (), v, degree, go, own);
      else CHK (go == own, "owner", "%s: node at position %d of degree %d is owned by %d, lowest leaf touching it by %d", leaf_str (a).c_str (), v, degree, go, own);
    }
  }
  for (int i = 0; i < nn; ++i) CHK (keyof[i] != 0, "unreferenced", "local node %d is not used by any element", i);
  count ("nodes_checked", nn); count ("element_nodes_checked", (long) nl * vn);
  /* global bijection between places and numbers */
  std::vector<NodeKey> mine;
  for (int i = 0; i < nn; ++i) mine.push_back ({ keyof[i], (i64) p4est_lnodes_global_index (ln, i) });
  std::vector<int> cn;
  std::vector<NodeKey> all = allgatherv (mine, p->mpicomm, &cn);
  std::map<u64, i64> k2g; std::map<i64, u64> g2k;
  std::map<u64, std::vector<int>> users;
  size_t pos = 0;
  for (int q = 0; q < P; ++q) for (int i = 0; i < cn[q]; ++i, ++pos) {
    auto & x = all[pos];
    if (x.h == 0) continue;
    auto a = k2g.emplace (x.h, x.gid);
    CHK (a.first->second == x.gid, "one-place-two-numbers", "degree %d: a node has the global numbers %lld and %lld", degree, (long long) x.gid, (long long) a.first->second);
    auto b = g2k.emplace (x.gid, x.h);
    CHK (b.first->second == x.h, "one-number-two-places", "degree %d: global number %lld names two nodes", degree, (long long) x.gid);
    users[x.h].push_back (q);
  }
  CHK ((i64) k2g.size () == first[P], "node-total", "degree %d: %zu geometric nodes, %lld numbers", degree, k2g.size (), (long long) first[P]);
  gcount ("distinct_nodes", (long) k2g.size ());
  /* sharers */
  std::map<int, std::vector<int>> want;
  for (int i = 0; i < nn; ++i) {
    auto & u = users[keyof[i]];
    if (u.size () > 1) for (int q : u) want[q].push_back (i);
  }
  CHK (ln->sharers->elem_count == want.size (), "sharers", "degree %d: %zu sharers, expected %zu", degree, ln->sharers->elem_count, want.size ());
  if (ln->sharers->elem_count != want.size ()) return;
  size_t k = 0;
  for (auto & w : want) {
    p4est_lnodes_rank_t *lr = p4est_lnodes_rank_array_index (ln->sharers, k++);
    CHK (lr->rank == w.first, "sharers", "degree %d: sharer rank %d, expected %d", degree, lr->rank, w.first);
    if (lr->rank != w.first) return;
    bool same = lr->shared_nodes.elem_count == w.second.size ();
    /* order: as numbered globally so that both sides agree */
    std::vector<int> got;
    for (size_t j = 0; j < lr->shared_nodes.elem_count; ++j) got.push_back (*(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, j));
    std::vector<int> gs = got; std::sort (gs.begin (), gs.end ());
    CHK (same && gs == w.second, "shared-nodes", "degree %d: %zu nodes shared with rank %d, expected %zu", degree, got.size (), w.first, w.second.size ());
    for (size_t j = 1; j < got.size (); ++j) CHK (p4est_lnodes_global_index (ln, got[j - 1]) < p4est_lnodes_global_index (ln, got[j]), "shared-order",
                                                  "degree %d: nodes shared with rank %d are not sorted", degree, w.first);
    int mo = -1, mc = 0;
    for (size_t j = 0; j < got.size (); ++j) if (got[j] < no) { if (mo < 0) mo = (int) j; ++mc; }
    CHK (lr->shared_mine_count == mc && (mc == 0 || lr->shared_mine_offset == mo), "shared-mine", "degree %d rank %d: shared_mine %d+%d, expected %d+%d", degree, w.first, lr->shared_mine_offset,
         lr->shared_mine_count, mo, mc);
    int oo = -1, oc = 0;
    for (int i = 0; i < nn; ++i) { i64 gi = p4est_lnodes_global_index (ln, i); if (gi >= first[w.first] && gi < first[w.first + 1]) { if (oo < 0) oo = i; ++oc; } }
    CHK (lr->owned_count == oc && (oc == 0 || lr->owned_offset == oo), "owned-range", "degree %d rank %d: owned range %d+%d, expected %d+%d", degree, w.first, lr->owned_offset, lr->owned_count, oo, oc);
    count ("shared_nodes_checked", (long) got.size ());
  }
  if (run.nfail_case) return;
  /* exchange */
  size_t sz = r.pick ({ 1, 3, 8, 40 }), sz2 = r.pick ({ 2, 16 });
  bool split = r.chance (0.6);
  u64 salt = r.next ();
  sc_array_t *d1 = sc_array_new_count (sz, nn), *d2 = sc_array_new_count (sz2, nn);
  for (int i = 0; i < nn; ++i) {
    fill_bytes (sc_array_index (d1, i), sz, hcomb (hcomb (keyof[i], me), salt));
    fill_bytes (sc_array_index (d2, i), sz2, hcomb (hcomb (keyof[i], me), salt + 1));
  }
  p4est_lnodes_buffer_t *b2 = NULL;
  if (split) {
    bool which = r.chance (0.5);
    p4est_lnodes_buffer_t *b1 = p4est_lnodes_share_owned_begin (d1, ln);
    b2 = p4est_lnodes_share_all_begin (d2, ln);
    if (which) { p4est_lnodes_share_owned_end (b1); p4est_lnodes_share_all_end (b2); }
    else { p4est_lnodes_share_all_end (b2); p4est_lnodes_share_owned_end (b1); }
    p4est_lnodes_buffer_destroy (b1);
    count ("overlapping_shares");
  }
  else {
    p4est_lnodes_share_owned (d1, ln);
    b2 = p4est_lnodes_share_all (d2, ln);
  }
  for (int i = 0; i < nn; ++i) {
    CHK (check_bytes (sc_array_index (d1, i), sz, hcomb (hcomb (keyof[i], ownof[i]), salt)), "share-owned", "degree %d: node %d does not hold the value of its owner %d", degree, i, ownof[i]);
    CHK (check_bytes (sc_array_index (d2, i), sz2, hcomb (hcomb (keyof[i], me), salt + 1)), "share-all-own", "degree %d: the own value of node %d was changed", degree, i);
  }
  for (size_t j = 0; j < ln->sharers->elem_count; ++j) {
    p4est_lnodes_rank_t *lr = p4est_lnodes_rank_array_index (ln->sharers, j);
    sc_array_t *rb = (sc_array_t *) sc_array_index (b2->recv_buffers, j);
    if (lr->rank == me) { CHK (rb->elem_count == 0, "share-all", "receive buffer of the own rank is not empty"); continue; }
    CHK (rb->elem_count == lr->shared_nodes.elem_count && rb->elem_size == sz2, "share-all", "receive buffer of %zu, expected %zu", rb->elem_count, lr->shared_nodes.elem_count);
    for (size_t z = 0; z < std::min (rb->elem_count, lr->shared_nodes.elem_count); ++z) {
      int lid = *(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, z);
      CHK (check_bytes (sc_array_index (rb, z), sz2, hcomb (hcomb (keyof[lid], lr->rank), salt + 1)), "share-all", "degree %d: value %zu received from %d is not its value of that node", degree, z, lr->rank);
      count ("shared_values_checked");
    }
  }
  p4est_lnodes_buffer_destroy (b2);
  sc_array_destroy (d1); sc_array_destroy (d2);
  (void) gh;
}

}

/* Repartition by the number of nodes: every volume, face, edge and corner counts once, for a leaf that touches it. */
static void by_nodes (Rng & r, p4est_t * p, const Geo & g, const GForest & f)
{
  i64 N = (i64) f.q.size (); int P = p->mpisize;
  bool det = r.chance (0.6), pfc = r.chance (0.3); int degree = r.range (1, 5);
  i64 wv, wf, we, wc;
  if (det) {
    wv = r.below (4); wf = r.below (4); we = r.below (3); wc = r.below (3);
    if (r.chance (0.3)) { i64 * o[4] = { &wv, &wf, &we, &wc }; for (i64 *z : o) *z = 0; *o[r.below (4)] = r.range (1, 1000); }
    if (DIM == 2) we = 0;
    if (wv + wf + wc == 0) wf = 1;
  }
  else { i64 d = degree - 1; wc = 1; we = DIM == 3 ? d : 0; wf = DIM == 3 ? d * d : d; wv = wf * d; }
  /* what may have been counted before every leaf */
  std::vector<i64> lo (N + 1, 0), hi (N + 1, 0); i64 W = 0;
  auto object = [&] (i64 w, int a, int b) { hi[a + 1] += w; lo[b + 1] += w; W += w; };
  GForest f1 = f; f1.rfirst = { 0, N };
  Model m; m.init (g, f1, 0);
  for (int d = 0; d < 3; ++d) {
    i64 w = d == 0 ? wc : d == 1 ? (DIM == 3 ? we : 0) : wf;
    if (w) for (auto & e : m.ex[d]) {
      if (d == 0 && e.second.hanging_point) continue;
      int a = (int) N, b = -1;
      for (auto & s : e.second.s) for (int i : s.idx) { a = std::min (a, i); b = std::max (b, i); }
      object (w, a, b);
    }
  }
  for (i64 i = 0; i < N; ++i) object (wv, (int) i, (int) i);
  for (i64 i = 0; i < N; ++i) { lo[i + 1] += lo[i]; hi[i + 1] += hi[i]; }
  p4est_ghost_t *gh = r.chance (0.5) ? p4est_ghost_new (p, P4EST_CONNECT_FULL) : NULL;
  void *up = p->user_pointer;
  if (!det) p4est_partition_lnodes (p, gh, degree, pfc);
  else
#ifndef P4_TO_P8
    p4est_partition_lnodes_detailed (p, gh, (int) wv, (int) wf, (int) wc, pfc);
#else
    p8est_partition_lnodes_detailed (p, gh, (int) wv, (int) wf, (int) we, (int) wc, pfc);
#endif
  if (gh) p4est_ghost_destroy (gh);
  CHK (p->user_pointer == up, "by-nodes", "the user pointer changed");
  GForest h = gather (p);
  CHK (h.hash (false) == f.hash (false), "by-nodes", "repartition by nodes changed the leaves");
  for (int q = 1; q < P; ++q) {
    i64 c = (i64) ((__int128) W * q / P), k = h.rfirst[q]; bool ok = false;
    int sh = pfc ? NC : 0;
    for (i64 j = std::max<i64> (0, k - sh); j <= std::min (N, k + sh) && !ok; ++j) ok = c == 0 ? j == 0 : (hi[j] >= c && (j == 0 || lo[j - 1] < c));
    CHK (ok, "by-nodes", "rank %d of %d starts at leaf %lld of %lld, where between %lld and %lld of %lld nodes were counted (weights %lld %lld %lld %lld)%s", q, P, (long long) k, (long long) N, (long long) lo[k], (long long) hi[k], (long long) W, (long long) wv, (long long) wf, (long long) we, (long long) wc, pfc ? " for coarsening" : "");
    count ("node_weighted_cuts");
  }
}

static void prop (Rng & r)
{
  std::string nm; ConnOpts co; co.max_trees = 7;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  Geo g; g.init (c);
  if (!conn_oracle_ok (g)) { gcount ("cases_without_oracle"); p4est_connectivity_destroy (c); return; }
  ForestOpts fo; fo.target = DIM == 3 ? r.pick ({ 10, 40, 90 }) : r.pick ({ 10, 60, 150 }); fo.maxl = r.range (2, 5);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  p4est_balance (p, conn_type (r.below (DIM == 3 ? 2 : 2)), NULL);
  random_partition (r, p, true);
  GForest f = gather (p);
  int maxl = 0; for (auto & a : f.q) maxl = std::max (maxl, a.l);
  describe ("%s leaves %zu", nm.c_str (), f.q.size ());
  distinct_state (hcomb (f.hash (true), conn_hash (c)));
  LModel M; M.g = &g; M.f = &f; M.m.g = &g; M.m.f = &f; M.m.me = p->mpirank; M.m.l0 = f.rfirst[p->mpirank]; M.m.l1 = f.rfirst[p->mpirank + 1];
  for (int k = 0; k < 3; ++k) {
    int degree;
    if (k == 0) degree = r.range (1, 2);
    else if (k == 1) degree = -r.range (1, DIM);
    else degree = r.range (1, maxl <= QML - 3 ? (DIM == 3 ? 5 : 8) : 4);
    if (DIM == 3 && degree > 3 && f.q.size () > 300) degree = 3;
    p4est_ghost_t *gh = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, degree);
    check_lnodes (r, p, gh, ln, g, f, M, degree);
    p4est_lnodes_destroy (ln);
    p4est_ghost_destroy (gh);
    gcount (degree > 0 ? "numberings" : "object_numberings");
    if (allmax (run.nfail_case, p->mpicomm)) break;
  }
  if (r.chance (0.25)) by_nodes (r, p, g, f);
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C09", prop)

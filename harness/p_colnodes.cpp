/* C27: ghost layers and node numberings of column forests.  Expected ghosts
 * are the layers of the ghost columns; expected nodes are pairs of a node of
 * the columns and a height, with the heights of a column node given by the
 * layer boundaries common to all columns that refer to it. */
#include "core.hpp"
#ifndef P4_TO_P8
#include "p6model.hpp"
#include <p4est_ghost.h>
#include <p4est_lnodes.h>
using namespace p6m;

namespace {
static bool same_quads (sc_array_t * a, sc_array_t * b)
{
  if (a->elem_count != b->elem_count) return false;
  for (size_t i = 0; i < a->elem_count; ++i) {
    p4est_quadrant_t *p = p4est_quadrant_array_index (a, i), *q = p4est_quadrant_array_index (b, i);
    if (p->x != q->x || p->y != q->y || p->level != q->level || p->p.piggy3.which_tree != q->p.piggy3.which_tree || p->p.piggy3.local_num != q->p.piggy3.local_num) return false;
  }
  return true;
}
static bool same_locs (const p4est_locidx_t * a, const p4est_locidx_t * b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }

struct WL { i64 z; int l, t, num; };    /* a layer as seen from outside */
static void expand_layers (std::vector<WL> & out, const Col & c, int first)
{
  for (size_t k = 0; k < c.L.size (); ++k) out.push_back ({ c.L[k].z, c.L[k].l, c.q.t, first + (int) k });
}
static void same_layers (sc_array_t * a, const std::vector<WL> & w, const char *what)
{
  CHK (a->elem_count == w.size (), "layer-count", "%s: %zu layers, expected %zu", what, a->elem_count, w.size ());
  for (size_t i = 0; i < std::min (w.size (), a->elem_count); ++i) {
    p2est_quadrant_t *q = p2est_quadrant_array_index (a, i);
    CHK (q->z == w[i].z && q->level == w[i].l && q->p.piggy3.which_tree == w[i].t && q->p.piggy3.local_num == w[i].num, "layer", "%s: layer %zu at %d level %d tree %d number %d, expected %lld %d %d %d", what, i,
         q->z, q->level, (int) q->p.piggy3.which_tree, (int) q->p.piggy3.local_num, (long long) w[i].z, w[i].l, w[i].t, w[i].num);
  }
}

struct Cols
{
  St & s; std::vector<int> rfirst;      /* first column of every rank */
  std::vector<i64> lfirst;              /* number of a column's first layer on its owner */
  explicit Cols (St & st) : s (st), rfirst (st.p->mpisize + 1, 0), lfirst (st.S.size ())
  {
    for (auto & c : s.S) ++rfirst[c.q.rank + 1];
    for (int q = 0; q < s.p->mpisize; ++q) {
      rfirst[q + 1] += rfirst[q];
      i64 n = 0;
      for (int i = rfirst[q]; i < rfirst[q + 1]; ++i) { lfirst[i] = n; n += (i64) s.S[i].L.size (); }
    }
  }
};

static void check_ghost (St & s, Cols & C, p6est_ghost_t * gh, p4est_connect_type_t bt, int expands)
{
  int P = s.p->mpisize, me = s.p->mpirank, nt = s.geo.nt;
  p4est_ghost_t *ref = p4est_ghost_new (s.p->columns, bt), *cg = gh->column_ghost;
  for (int k = 0; k < expands; ++k) p4est_ghost_expand (s.p->columns, ref);
  CHK (gh->mpisize == P && gh->num_trees == nt && gh->btype == bt, "ghost-header", "%d processes, %d trees, type %d", gh->mpisize, (int) gh->num_trees, (int) gh->btype);
  bool ok = same_quads (&cg->ghosts, &ref->ghosts) && same_quads (&cg->mirrors, &ref->mirrors) && same_locs (cg->proc_offsets, ref->proc_offsets, P + 1) && same_locs (cg->tree_offsets, ref->tree_offsets, nt + 1)
    && same_locs (cg->mirror_proc_offsets, ref->mirror_proc_offsets, P + 1) && same_locs (cg->mirror_tree_offsets, ref->mirror_tree_offsets, nt + 1)
    && same_locs (cg->mirror_proc_mirrors, ref->mirror_proc_mirrors, ref->mirror_proc_offsets[P]) && same_locs (cg->mirror_proc_front_offsets, ref->mirror_proc_front_offsets, P + 1)
    && same_locs (cg->mirror_proc_fronts, ref->mirror_proc_fronts, ref->mirror_proc_front_offsets[P]);
  CHK (ok, "ghost-columns", "columns of the ghost layer differ from the ghost layer of the columns after %d expansions", expands);
  if (ok) {
    /* ghosts */
    std::vector<WL> w;
    std::vector<int> off, tree (nt + 1, 0), proc (P + 1, 0);
    size_t n = cg->ghosts.elem_count;
    int rk = 0;
    for (size_t i = 0; i < n; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&cg->ghosts, i);
      while (rk < P && (int) i >= cg->proc_offsets[rk + 1]) ++rk;
      int gi = C.rfirst[rk] + q->p.piggy3.local_num;
      off.push_back ((int) w.size ());
      if (gi >= C.rfirst[rk + 1] || s.S[gi].q.t != q->p.piggy3.which_tree) { FAILK ("ghost-columns", "ghost column %zu is not column %d of rank %d", i, (int) q->p.piggy3.local_num, rk); continue; }
      expand_layers (w, s.S[gi], (int) C.lfirst[gi]);
    }
    off.push_back ((int) w.size ());
    for (int t = 0; t <= nt; ++t) tree[t] = off[cg->tree_offsets[t]];
    for (int q = 0; q <= P; ++q) proc[q] = off[cg->proc_offsets[q]];
    same_layers (&gh->ghosts, w, "ghosts");
    CHK (gh->column_layer_offsets->elem_count == n + 1, "column-offsets", "%zu offsets for %zu columns", gh->column_layer_offsets->elem_count, n);
    for (size_t i = 0; i < std::min (n + 1, gh->column_layer_offsets->elem_count); ++i) {
      int o = *(p4est_locidx_t *) sc_array_index (gh->column_layer_offsets, i);
      CHK (o == off[i], "column-offsets", "layers of ghost column %zu begin at %d, expected %d", i, o, off[i]);
    }
    for (int t = 0; t <= nt; ++t) CHK (gh->tree_offsets[t] == tree[t], "tree-offsets", "ghosts of tree %d begin at %d, expected %d", t, gh->tree_offsets[t], tree[t]);
    for (int q = 0; q <= P; ++q) CHK (gh->proc_offsets[q] == proc[q], "proc-offsets", "ghosts of rank %d begin at %d, expected %d", q, gh->proc_offsets[q], proc[q]);
    count ("ghost_columns_checked", (long) n); count ("ghost_layers_checked", (long) w.size ());
    /* mirrors */
    w.clear (); off.clear ();
    n = cg->mirrors.elem_count;
    for (size_t i = 0; i < n; ++i) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&cg->mirrors, i);
      int gi = C.rfirst[me] + q->p.piggy3.local_num;
      off.push_back ((int) w.size ());
      expand_layers (w, s.S[gi], (int) C.lfirst[gi]);
    }
    off.push_back ((int) w.size ());
    same_layers (&gh->mirrors, w, "mirrors");
    for (int t = 0; t <= nt; ++t) CHK (gh->mirror_tree_offsets[t] == off[cg->mirror_tree_offsets[t]], "mirror-tree-offsets", "mirrors of tree %d begin at %d, expected %d", t, gh->mirror_tree_offsets[t], off[cg->mirror_tree_offsets[t]]);
    for (int f = 0; f < 2; ++f) {
      const p4est_locidx_t *co = f ? cg->mirror_proc_front_offsets : cg->mirror_proc_offsets, *cm = f ? cg->mirror_proc_fronts : cg->mirror_proc_mirrors;
      const p4est_locidx_t *go = f ? gh->mirror_proc_front_offsets : gh->mirror_proc_offsets, *gm = f ? gh->mirror_proc_fronts : gh->mirror_proc_mirrors;
      std::vector<int> want;
      for (int q = 0; q < P; ++q) {
        CHK (go[q] == (int) want.size (), "mirror-proc-offsets", "%s for rank %d begin at %d, expected %zu", f ? "fronts" : "mirrors", q, go[q], want.size ());
        for (int j = co[q]; j < co[q + 1]; ++j) for (int k = off[cm[j]]; k < off[cm[j] + 1]; ++k) want.push_back (k);
      }
      CHK (go[P] == (int) want.size (), "mirror-proc-offsets", "%s end at %d, expected %zu", f ? "fronts" : "mirrors", go[P], want.size ());
      for (size_t j = 0; j < want.size () && (int) want.size () == go[P]; ++j) CHK (gm[j] == want[j], "mirror-proc-mirrors", "%s: entry %zu is mirror %d, expected %d", f ? "fronts" : "mirrors", j, gm[j], want[j]);
      count (f ? "fronts_checked" : "mirrors_checked", (long) want.size ());
    }
  }
  p4est_ghost_destroy (ref);
  gcount (expands ? "ghosts_expanded" : "ghosts_built");
}

static i64 node_pos (i64 L, int N, int i) { return 2 * i < N ? i : 2 * i > N ? L - (N - i) : L / 2; }
typedef std::tuple<TP, int> NK;         /* canonical place; number of the column for nodes inside one */

struct NModel
{
  St & s; Cols & C; int N;
  std::vector<char> hang;               /* column, face */
  std::vector<int> id;                  /* column, node -> number of the column node */
  std::vector<std::vector<i64>> bd;     /* boundaries below each layer of nodes, and the top */
  std::vector<std::vector<int>> users;  /* ranks of the columns that refer to the column node */
  bool balanced = true;
  NModel (St & st, Cols & c, int degree) : s (st), C (c), N (degree)
  {
    GForest f = gather (s.p->columns);
    size_t n = f.q.size ();
    hang.assign (4 * n, 0); id.assign (n * (N + 1) * (N + 1), -1);
    std::vector<TP> orb; std::vector<int> in;
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) {
      P3 x = ent_center (f.q[i], entities ()[ent_face0 + k]);
      s.geo.orbit (f.q[i].t, x, orb);
      for (auto & o : orb) { f.containing (o.t, o.x, in); for (int j : in) if (f.q[j].l < f.q[i].l) hang[4 * i + k] = 1; }
    }
    std::map<NK, int> num;
    for (size_t i = 0; i < n; ++i) {
      std::vector<i64> own;
      for (auto & l : s.S[i].L) own.push_back (l.z);
      own.push_back (s.p->root_len);
      for (int jy = 0; jy <= N; ++jy) for (int jx = 0; jx <= N; ++jx) {
        bool inx = jx > 0 && jx < N, iny = jy > 0 && jy < N;
        const Leaf & a = f.q[i];
        P3 x = { 0, 0, 0 };
        int j[2] = { jx, jy }; bool par = false;
        for (int d = 0; d < 2; ++d) if ((j[d] == 0 || j[d] == N) && hang[4 * i + 2 * d + (j[d] == N)]) par = true;
        Leaf e = par ? leaf_parent (a) : a;
        for (int d = 0; d < 2; ++d) x[d] = 2 * e.x[d] + node_pos (2 * e.len (), N, j[d]);
        NK k = std::make_tuple (s.geo.canon (a.t, x), inx && iny ? (int) i : -1);
        auto it = num.emplace (k, (int) bd.size ());
        int m = it.first->second;
        if (it.second) { bd.push_back (own); users.push_back ({ a.rank }); }
        else {
          std::vector<i64> o;
          std::set_intersection (bd[m].begin (), bd[m].end (), own.begin (), own.end (), std::back_inserter (o));
          bd[m].swap (o);
          if (std::find (users[m].begin (), users[m].end (), a.rank) == users[m].end ()) users[m].push_back (a.rank);
        }
        id[(i * (N + 1) + jy) * (N + 1) + jx] = m;
      }
    }
    for (size_t i = 0; i < n; ++i) for (int v = 0; v < (N + 1) * (N + 1); ++v) for (auto & l : s.S[i].L) if (2 * zlen (l.l) < width (node (i, v), l.z)) balanced = false;
  }
  int node (size_t i, int v) const { return id[i * (N + 1) * (N + 1) + v]; }
  int interval (int m, i64 z) const { return (int) (std::upper_bound (bd[m].begin (), bd[m].end (), z) - bd[m].begin ()) - 1; }
  i64 width (int m, i64 z) const { int k = interval (m, z); return bd[m][k + 1] - bd[m][k]; }
};

static void check_nodes (St & s, Cols & C, Rng & r, p6est_lnodes_t * ln, NModel & M, NModel & MW)
{
  int N = M.N, me = s.p->mpirank, P = s.p->mpisize, vn = (N + 1) * (N + 1) * (N + 1);
  MPI_Comm comm = s.p->mpicomm;
  int nl = (int) s.p->layers->elem_count;
  CHK (ln->degree == N && ln->vnodes == vn && ln->num_local_elements == nl, "nodes-header", "degree %d nodes %d elements %d, expected %d %d %d", ln->degree, ln->vnodes, ln->num_local_elements, N, vn, nl);
  bool bad = ln->vnodes != vn || ln->num_local_elements != nl;
  if (allmax (bad, comm)) return;
  std::vector<i64> first (P + 1, 0);
  for (int q = 0; q < P; ++q) first[q + 1] = first[q] + ln->global_owned_count[q];
  int nn = ln->num_local_nodes, no = ln->owned_count;
  CHK (no <= nn && no == ln->global_owned_count[me] && ln->global_offset == first[me], "owned-count", "owned %d of %d at %lld, in table %d at %lld", no, nn, (long long) ln->global_offset, ln->global_owned_count[me], (long long) first[me]);
  CHK (allsum (no, comm) == first[P], "owned-table", "table adds to %lld", (long long) first[P]);
  for (int i = no; i < nn; ++i) {
    i64 g = ln->nonlocal_nodes[i - no];
    CHK (g >= 0 && g < first[P] && (g < first[me] || g >= first[me + 1]), "nonlocal", "nonlocal node %lld of %lld lies in the own range", (long long) g, (long long) first[P]);
    CHK (i == no || g > ln->nonlocal_nodes[i - no - 1], "nonlocal-order", "nonlocal nodes are not ascending");
  }
  /* element nodes */
  std::vector<i64> base (M.bd.size (), -1);
  std::vector<int> local (nn, -1);      /* column node of a local node */
  int hanging = 0;
  for (int i = C.rfirst[me]; i < C.rfirst[me + 1]; ++i) for (size_t k = 0; k < s.S[i].L.size (); ++k) {
    const Lay & l = s.S[i].L[k];
    i64 e = C.lfirst[i] + (i64) k;
    for (int v = 0; v < (N + 1) * (N + 1); ++v) {
      int m = M.node (i, v), iv = M.interval (m, l.z);
      for (int h = 0; h <= N; ++h) {
        int lid = ln->element_nodes[e * vn + v * (N + 1) + h];
        if (lid < 0 || lid >= nn) { FAILK ("element-node", "layer %lld node %d is %d of %d", (long long) e, v * (N + 1) + h, lid, nn); continue; }
        i64 g = p6est_lnodes_global_index (ln, lid) - ((i64) iv * N + h);
        if (base[m] < 0) base[m] = g;
        CHK (base[m] == g, "element-node", "column %s layer %zu (%lld level %d) node %d,%d at height %d: number %lld, expected %lld", leaf_str (s.S[i].q).c_str (), k, (long long) l.z, l.l, v % (N + 1), v / (N + 1), h,
             (long long) (g + (i64) iv * N + h), (long long) (base[m] + (i64) iv * N + h));
        CHK (local[lid] < 0 || local[lid] == m, "two-places", "local node %d is on two columns of nodes", lid);
        local[lid] = m;
        count ("element_nodes_checked");
      }
    }
    /* hanging code */
    int W[4], H[4], cw[4], hf[6], he[12], wf[6], we[12];
    int h = (l.z >> (ML - l.l)) & 1, cid = s.S[i].q.l > 0 ? leaf_childid (s.S[i].q) : 0;
    for (int j = 0; j < 6; ++j) hf[j] = wf[j] = -1;
    for (int j = 0; j < 12; ++j) he[j] = we[j] = -1;
    int NW = MW.N;
    auto coarser = [&] (int jx, int jy) { return MW.width (MW.node (i, jy * (NW + 1) + jx), l.z) > zlen (l.l); };
    bool any = false;
    for (int f = 0; f < 4; ++f) {
      H[f] = MW.hang[4 * i + f];
      W[f] = f < 2 ? coarser (f ? NW : 0, 1) : coarser (1, f == 3 ? NW : 0);
      int half = (cid >> (f < 2 ? 1 : 0)) & 1;
      wf[f + 2] = H[f] && W[f] ? (half << 1) | h : H[f] ? 4 + half : W[f] ? 6 + h : -1;
      for (int side = 0; side < 2; ++side) {
        int ed = p8est_face_edges[f + 2][2 + side];
        we[ed] = W[f] && side == (1 ^ h) ? 4 : H[f] ? 2 + half : -1;
      }
      any = any || H[f] || W[f];
    }
    for (int c = 0; c < 4; ++c) {
      cw[c] = coarser (c & 1 ? NW : 0, c & 2 ? NW : 0);
      any = any || cw[c];
      int fx = c & 1, fy = 2 + (c >> 1);
      bool mid = (H[fx] && ((cid >> 1) & 1) != (c >> 1)) || (H[fy] && (cid & 1) != (c & 1));
      we[c] = mid ? 4 : W[fx] || W[fy] ? 2 + h : cw[c] ? h : -1;
    }
    int got = p6est_lnodes_decode (ln->face_code[e], hf, he);
    CHK (got == (int) any, "face-code", "column %s layer %zu (%lld level %d): hanging %d, expected %d", leaf_str (s.S[i].q).c_str (), k, (long long) l.z, l.l, got, (int) any);
    for (int j = 0; j < 6; ++j) CHK (hf[j] == wf[j], "face-code", "column %s layer %zu (%lld level %d): face %d is %d, expected %d (code %x)", leaf_str (s.S[i].q).c_str (), k, (long long) l.z, l.l, j, hf[j], wf[j], (int) ln->face_code[e]);
    for (int j = 0; j < 12; ++j) CHK (he[j] == we[j], "face-code", "column %s layer %zu (%lld level %d): edge %d is %d, expected %d (code %x)", leaf_str (s.S[i].q).c_str (), k, (long long) l.z, l.l, j, he[j], we[j], (int) ln->face_code[e]);
    hanging += any;
  }
  count ("hanging_layers", hanging);
  for (int i = 0; i < nn; ++i) CHK (local[i] >= 0, "unreferenced", "local node %d is not used by any layer", i);
  count ("nodes_checked", nn);
  /* the same number on all processes, each number once */
  struct B { i64 base; int m; };
  std::vector<B> mine;
  for (size_t m = 0; m < base.size (); ++m) if (base[m] >= 0) mine.push_back ({ base[m], (int) m });
  std::vector<i64> gb (base.size (), -1);
  for (auto & b : allgatherv (mine, comm)) {
    CHK (gb[b.m] < 0 || gb[b.m] == b.base, "one-place-two-numbers", "a column of nodes begins at %lld and %lld", (long long) gb[b.m], (long long) b.base);
    gb[b.m] = b.base;
  }
  std::vector<std::pair<i64, i64>> iv;
  for (size_t m = 0; m < gb.size (); ++m) iv.push_back ({ gb[m], ((i64) M.bd[m].size () - 1) * N + 1 });
  std::sort (iv.begin (), iv.end ());
  i64 at = 0; bool tiled = true;
  for (auto & a : iv) { if (a.first != at) tiled = false; at = a.first + a.second; }
  CHK (tiled && at == first[P], "number-range", "columns of nodes do not tile the numbers 0 to %lld", (long long) first[P]);
  gcount ("distinct_nodes", (long) first[P]); gcount ("node_columns", (long) gb.size ());
  auto owner = [&] (i64 g) { return (int) (std::upper_bound (first.begin (), first.end (), g) - first.begin ()) - 1; };
  for (size_t m = 0; m < gb.size (); ++m) {
    int o = owner (gb[m]);
    CHK (o == owner (gb[m] + ((i64) M.bd[m].size () - 1) * N), "column-owner", "a column of nodes has two owners");
    CHK (std::find (M.users[m].begin (), M.users[m].end (), o) != M.users[m].end (), "owner", "nodes owned by rank %d that does not refer to them", o);
  }
  /* owners as in the numbering of the columns */
  {
    p4est_ghost_t *g = p4est_ghost_new (s.p->columns, P4EST_CONNECT_FULL);
    p4est_lnodes_t *cl = p4est_lnodes_new (s.p->columns, g, MW.N);
    std::vector<i64> cf (P + 1, 0);
    for (int q = 0; q < P; ++q) cf[q + 1] = cf[q] + cl->global_owned_count[q];
    for (int i = C.rfirst[me]; i < C.rfirst[me + 1]; ++i) for (int v = 0; v < (N + 1) * (N + 1); ++v) {
      i64 gi = p4est_lnodes_global_index (cl, cl->element_nodes[(i64) (i - C.rfirst[me]) * (MW.N + 1) * (MW.N + 1) + (v / (N + 1) * MW.N / N) * (MW.N + 1) + v % (N + 1) * MW.N / N]);
      int o = (int) (std::upper_bound (cf.begin (), cf.end (), gi) - cf.begin ()) - 1;
      CHK (o == owner (gb[M.node (i, v)]), "owner", "nodes above node %d of column %s are owned by rank %d, the column node by %d", v, leaf_str (s.S[i].q).c_str (), owner (gb[M.node (i, v)]), o);
    }
    p4est_lnodes_destroy (cl);
    p4est_ghost_destroy (g);
  }
  /* sharers */
  std::map<int, std::vector<int>> want;
  for (int i = 0; i < nn; ++i) if (local[i] >= 0 && M.users[local[i]].size () > 1) for (int q : M.users[local[i]]) want[q].push_back (i);
  CHK (ln->sharers->elem_count == want.size (), "sharers", "%zu sharers, expected %zu", ln->sharers->elem_count, want.size ());
  bad = ln->sharers->elem_count != want.size ();
  size_t kk = 0;
  for (auto & w : want) {
    if (bad) break;
    p6est_lnodes_rank_t *lr = p6est_lnodes_rank_array_index (ln->sharers, kk++);
    CHK (lr->rank == w.first, "sharers", "sharer rank %d, expected %d", lr->rank, w.first);
    if (lr->rank != w.first) { bad = true; break; }
    std::vector<int> got;
    for (size_t j = 0; j < lr->shared_nodes.elem_count; ++j) got.push_back (*(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, j));
    std::vector<int> gs = got; std::sort (gs.begin (), gs.end ());
    CHK (gs == w.second, "shared-nodes", "%zu nodes shared with rank %d, expected %zu", got.size (), w.first, w.second.size ());
    if (gs != w.second) { bad = true; break; }
    for (size_t j = 1; j < got.size (); ++j) CHK (p6est_lnodes_global_index (ln, got[j - 1]) < p6est_lnodes_global_index (ln, got[j]), "shared-order", "nodes shared with rank %d are not sorted", w.first);
    int mo = -1, mc = 0, oo = -1, oc = 0;
    for (size_t j = 0; j < got.size (); ++j) if (got[j] < no) { if (mo < 0) mo = (int) j; ++mc; }
    CHK (lr->shared_mine_count == mc && (mc == 0 || lr->shared_mine_offset == mo), "shared-mine", "rank %d: shared_mine %d+%d, expected %d+%d", w.first, lr->shared_mine_offset, lr->shared_mine_count, mo, mc);
    for (int i = 0; i < nn; ++i) if (owner (p6est_lnodes_global_index (ln, i)) == w.first) { if (oo < 0) oo = i; ++oc; }
    CHK (lr->owned_count == oc && (oc == 0 || lr->owned_offset == oo), "owned-range", "rank %d: owned range %d+%d, expected %d+%d", w.first, lr->owned_offset, lr->owned_count, oo, oc);
    count ("shared_nodes_checked", (long) got.size ());
  }
  if (allmax (bad || run.nfail_case, comm)) return;
  /* sharing of values */
  size_t sz = r.pick ({ 1, 3, 8, 40 }), sz2 = r.pick ({ 2, 16 });
  u64 salt = r.next (); bool split = r.chance (0.5);
  sc_array_t *d1 = sc_array_new_count (sz, nn), *d2 = sc_array_new_count (sz2, nn);
  auto val = [&] (int i, int q, u64 sa) { return hcomb (hcomb (p6est_lnodes_global_index (ln, i), q), sa); };
  for (int i = 0; i < nn; ++i) { fill_bytes (sc_array_index (d1, i), sz, val (i, me, salt)); fill_bytes (sc_array_index (d2, i), sz2, val (i, me, salt + 1)); }
  p6est_lnodes_buffer_t *b2;
  if (split) {
    p6est_lnodes_buffer_t *b1 = p6est_lnodes_share_owned_begin (d1, ln);
    b2 = p6est_lnodes_share_all_begin (d2, ln);
    p6est_lnodes_share_all_end (b2); p6est_lnodes_share_owned_end (b1);
    p6est_lnodes_buffer_destroy (b1);
  } else { p6est_lnodes_share_owned (d1, ln); b2 = p6est_lnodes_share_all (d2, ln); }
  for (int i = 0; i < nn; ++i) CHK (check_bytes (sc_array_index (d1, i), sz, val (i, owner (p6est_lnodes_global_index (ln, i)), salt)), "share-owned", "node %d does not hold the value of its owner", i);
  for (size_t j = 0; j < ln->sharers->elem_count; ++j) {
    p6est_lnodes_rank_t *lr = p6est_lnodes_rank_array_index (ln->sharers, j);
    sc_array_t *rb = (sc_array_t *) sc_array_index (b2->recv_buffers, j);
    if (lr->rank == me) continue;
    for (size_t z = 0; z < std::min (rb->elem_count, lr->shared_nodes.elem_count); ++z)
      CHK (check_bytes (sc_array_index (rb, z), sz2, val (*(p4est_locidx_t *) sc_array_index (&lr->shared_nodes, z), lr->rank, salt + 1)), "share-all", "value %zu received from %d is not its value of that node", z, lr->rank);
    count ("shared_values_checked", (long) rb->elem_count);
  }
  p6est_lnodes_buffer_destroy (b2);
  sc_array_destroy (d1); sc_array_destroy (d2);
  /* labels */
  p4est_gloidx_t *lab = p6est_lnodes_get_column_labels (s.p, ln);
  std::vector<B> lb;
  for (int i = 0; i < no; ++i) lb.push_back ({ (i64) lab[i], local[i] });
  P4EST_FREE (lab);
  std::map<i64, int> l2m; std::map<int, i64> m2l;
  for (auto & b : allgatherv (lb, comm)) {
    auto x = l2m.emplace (b.base, b.m); auto y = m2l.emplace (b.m, b.base);
    CHK (x.first->second == b.m && y.first->second == b.base, "labels", "label %lld does not name one column of nodes", (long long) b.base);
  }
  CHK (l2m.size () == M.bd.size () && (l2m.empty () || (l2m.begin ()->first == 0 && l2m.rbegin ()->first == (i64) l2m.size () - 1)), "labels", "%zu labels for %zu columns of nodes", l2m.size (), M.bd.size ());
  gcount ("labels_checked", (long) lb.size ());
}
}

static int weight2_cb (p6est_t *, p4est_topidx_t t, p4est_quadrant_t * c, p2est_quadrant_t * l) { return Cb::I ().weight (mkleaf (t, c), l->z, l->level); }

static void prop (Rng & r)
{
  p4est_connectivity_t *c4 = NULL;
  St s = create (r, c4, true);
  if (!s.p) return;
  for (int k = r.range (1, 4); k > 0; --k) { random_op (s, r, 5); if (allmax (run.nfail_case, MPI_COMM_WORLD)) { destroy (s, c4); return; } }
  s.nopay = true;
  int rounds = r.range (1, 2);
  for (int k = 0; k < rounds; ++k) {
    bool bal = k + 1 == rounds || r.chance (0.7);
    if (bal) {
      p6est_balance (s.p, r.chance (0.5) ? P8EST_CONNECT_EDGE : P8EST_CONNECT_FULL, NULL);
      if (r.chance (0.4)) p6est_partition (s.p, NULL);
      if (r.chance (0.3)) { Cb::I ().begin (s, false, false, r.next ()); Cb::I ().wkind = r.below (4); p6est_partition_ext (s.p, r.chance (0.5), weight2_cb); }
    }
    s.snap ("before");
    s.M = s.S;
    u64 h = 7; for (auto & a : s.S) { h = hcomb (h, hcomb (leafh (a.q), a.q.rank)); for (auto & l : a.L) h = hcomb (h, hcomb (l.z, l.l)); }
    distinct_state (h);
    Cols C (s);
    p4est_connect_type_t bt = r.chance (0.6) ? P4EST_CONNECT_FULL : P4EST_CONNECT_FACE;
    p6est_ghost_t *gh = p6est_ghost_new (s.p, bt);
    check_ghost (s, C, gh, bt, 0);
    int ne = r.pick ({ 0, 0, 1, 2, 3 });
    for (int e = 1; e <= ne; ++e) { p6est_ghost_expand (s.p, gh); check_ghost (s, C, gh, bt, e); }
    if (bal) for (int q = 0; q < 2; ++q) {
      int N = q == 0 ? r.range (1, 2) : r.range (1, 4);
      NModel M (s, C, N == 1 ? 2 : N);
      if (!M.balanced) { gcount ("unbalanced_skipped"); continue; }
      p6est_lnodes_t *ln = p6est_lnodes_new (s.p, bt == P4EST_CONNECT_FULL && r.chance (0.6) ? gh : NULL, N);
      if (N == 1) {
        NModel M1 (s, C, 1);
        check_nodes (s, C, r, ln, M1, M);
      } else check_nodes (s, C, r, ln, M, M);
      p6est_lnodes_destroy (ln);
      gcount (N == 1 ? "numberings_linear" : N == 2 ? "numberings_quadratic" : "numberings_high");
      if (allmax (run.nfail_case, MPI_COMM_WORLD)) break;
    }
    p6est_ghost_destroy (gh);
    if (allmax (run.nfail_case, MPI_COMM_WORLD)) break;
  }
  destroy (s, c4);
}
REGISTER_PROP ("C27", prop)
#endif

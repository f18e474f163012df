/* C11: the neighbour tables of the mesh name the geometric neighbours of every local leaf. */
#include "core.hpp"
#include "ifmodel.hpp"

namespace {

typedef std::pair<int, int> II;         /* global leaf index, code */
struct Want
{
  int kind = -1;                        /* -1 nothing recorded (hanging), 0 boundary or no diagonal neighbour, 1 one neighbour recorded directly, 2 group */
  bool skip = false;
  std::vector<std::vector<II>> v;       /* members; two halves of an edge form one member */
};
struct WF { int kind = -1; std::vector<int> idx; int code = 0; };      /* 0 boundary, 1 same or double, 2 half */

struct Want_t
{
  std::vector<WF> f; std::vector<Want> e, c;
  void init (Model & m, bool edges, bool corners, bool hcorners);
};

static const int EN = 12;
static int echild (const Leaf & a, int ax) { return (int) (a.x[ax] / a.len () & 1); }

void Want_t::init (Model & m, bool edges, bool corners, bool hcorners)
{
  i64 n = m.l1 - m.l0; auto & es = entities ();
  f.assign (n * NF, WF ()); e.assign (n * EN, Want ()); c.assign (n * NC, Want ());
  for (auto & p : m.ex[2]) {
    Expect & x = p.second;
    if (x.s.size () == 1) { Side & s = x.s[0]; for (int i : s.idx) if (m.local (i)) { WF & w = f[(i - m.l0) * NF + s.ent]; w.kind = 0; w.idx = { i }; w.code = s.ent; } continue; }
    for (int k = 0; k < 2; ++k) {
      const Side & A = x.s[k], & B = x.s[1 - k];
      auto face_pos = [&] (const Leaf & small, const Side & S, const Side & Lg) {
        /* which part of the large face of side Lg the small leaf on side S touches */
        P3 z = ent_center (small, es[S.ent]);
        if (x.tb) z = m.g->fx[S.t * NF + S.ent].map (z);
        int h = 0, b = 0;
        for (int a = 0; a < DIM; ++a) if (a != Lg.ent / 2) { if (z[a] > Lg.big[a]) h |= 1 << b; ++b; }
        return h;
      };
      for (int i : A.idx) if (m.local (i)) {
        WF & w = f[(i - m.l0) * NF + A.ent];
        if (!A.hang && !B.hang) { w.kind = 1; w.idx = { B.idx[0] }; w.code = NF * x.orient + B.ent; }
        else if (A.hang) { w.kind = 1; w.idx = { B.idx[0] }; w.code = NF * NH + face_pos (m.f->q[i], A, B) * NF * NH + NF * x.orient + B.ent; }
        else {
          w.kind = 2; w.code = -NF * NH + NF * x.orient + B.ent; w.idx.assign (NH, -1);
          for (int j : B.idx) w.idx[face_pos (m.f->q[j], B, A)] = j;
        }
      }
    }
  }
#ifdef P4_TO_P8
  if (edges) for (auto & p : m.ex[1]) {
    Expect & x = p.second;
    struct D { TP q0, q1, fc[2]; };
    std::vector<D> ds; std::map<TP, int> fcount; bool degenerate = false;
    for (auto & s : x.s) {
      Leaf b = m.f->q[s.idx[0]]; if (s.hang) b = leaf_parent (b);
      int ed = s.ent - ent_edge0, ax = ed / 4; P3 z = ent_center (b, es[s.ent]), a0 = z, a1 = z; i64 h = std::max<i64> (b.len () / 2, 1);
      a0[ax] -= h; a1[ax] += h; D d; d.q0 = m.g->canon (b.t, a0); d.q1 = m.g->canon (b.t, a1);
      for (int j = 0; j < 2; ++j) { P3 y = z; int o = p8est_edge_faces[ed][1 - j]; y[o / 2] += (o & 1) ? -h : h; d.fc[j] = m.g->canon (b.t, y); if (++fcount[d.fc[j]] > 2) degenerate = true; }
      if (d.q0 == d.q1) degenerate = true;
      ds.push_back (d);
    }
    for (size_t ka = 0; ka < x.s.size (); ++ka) {
      const Side & A = x.s[ka];
      for (size_t j = 0; j < A.idx.size (); ++j) {
        int i = A.idx[j]; if (!m.local (i)) continue;
        int ea = A.ent - ent_edge0, sub = A.hang ? echild (m.f->q[i], ea / 4) : 0;
        Want & w = e[(i - m.l0) * EN + ea]; w.kind = 0; w.skip = degenerate;
        Want hc; hc.kind = -1; hc.skip = degenerate;
        for (size_t kb = 0; kb < x.s.size (); ++kb) if (kb != ka) {
          const Side & B = x.s[kb]; bool shared = false;
          for (int u = 0; u < 2; ++u) for (int v = 0; v < 2; ++v) if (ds[ka].fc[u] == ds[kb].fc[v]) shared = true;
          if (shared) continue;
          int eb = B.ent - ent_edge0, ori = !(ds[ka].q0 == ds[kb].q0), pos = sub ^ ori;
          auto half = [&] (int k) { for (int q : B.idx) if (echild (m.f->q[q], eb / 4) == k) return q; return -1; };
          if (x.tb == 0) w.kind = A.hang == B.hang ? 1 : 2; else w.kind = 2;
          if (!B.hang) w.v.push_back ({ { B.idx[0], (A.hang ? 24 + 24 * pos : 0) + 12 * ori + eb } });
          else if (A.hang) {
            w.v.push_back ({ { half (pos), 12 * ori + eb } });
            hc.kind = x.tb == 0 ? 1 : 2; hc.v.push_back ({ { half (pos ^ 1), p8est_edge_corners[eb][pos] } });
          }
          else w.v.push_back ({ { half (ori), -24 + 12 * ori + eb }, { half (ori ^ 1), -24 + 12 * ori + eb } });
        }
        if (hcorners && A.hang) c[(i - m.l0) * NC + p8est_edge_corners[ea][sub ^ 1]] = hc;
      }
    }
  }
#endif
  if (corners) for (auto & p : m.ex[0]) {
    Expect & x = p.second;
    if (x.hanging_point) continue;
    std::vector<std::set<TP>> near (x.s.size ()); std::map<TP, int> fcount; bool degenerate = false;
    for (size_t k = 0; k < x.s.size (); ++k) {
      const Side & s = x.s[k]; const Leaf & b = m.f->q[s.idx[0]]; int cn = s.ent - ent_corner0;
      P3 z = ent_center (b, es[s.ent]);
      for (int mk = 1; mk < NC - 1; ++mk) {
        /* a point of each face (and edge) of the leaf next to the corner */
        P3 y = z; for (int a = 0; a < DIM; ++a) if (mk >> a & 1) y[a] += (cn >> a & 1) ? -1 : 1;
        TP q = m.g->canon (s.t, y);
        near[k].insert (q);
        if (__builtin_popcount (mk) == DIM - 1 && ++fcount[q] > 2) degenerate = true;
      }
    }
    for (size_t ka = 0; ka < x.s.size (); ++ka) {
      int i = x.s[ka].idx[0]; if (!m.local (i)) continue;
      Want & w = c[(i - m.l0) * NC + x.s[ka].ent - ent_corner0]; w.kind = 0; w.skip = degenerate;
      for (size_t kb = 0; kb < x.s.size (); ++kb) if (kb != ka) {
        bool shared = false; for (auto & q : near[ka]) if (near[kb].count (q)) shared = true;
        if (shared) continue;
        w.kind = x.tb == 0 ? 1 : 2;
        w.v.push_back ({ { x.s[kb].idx[0], x.s[kb].ent - ent_corner0 } });
      }
    }
  }
}

static std::string show (const std::vector<std::vector<II>> & v) { std::string s; for (auto & m : v) { s += "["; for (auto & p : m) s += std::to_string (p.first) + ":" + std::to_string (p.second) + " "; s += "]"; } return s; }

struct Judge
{
  Rng & r; p4est_t *p; p4est_ghost_t *gh; p4est_mesh_t *me; Model & m; Want_t & w; const char *when;
  int lq, ng; std::vector<int> gidx;     /* ghost -> global leaf index */

  int glob (p4est_locidx_t v) const { return v < 0 || v >= lq + ng ? -2 : v < lq ? (int) (m.l0 + v) : gidx[v - lq]; }
  std::string L (int i) const { return leaf_str (m.f->q[m.l0 + i]); }

  /* one entry of the edge or corner tables */
  std::vector<std::vector<II>> decode (bool edge, int i, int k, int base, p4est_locidx_t v, p4est_locidx_t num, sc_array_t * off, sc_array_t * quad, sc_array_t * cod, std::vector<char> & used, int & kind)
  {
    std::vector<std::vector<II>> o;
    if (v < 0) { kind = v == -3 ? 0 : v == -1 ? -1 : -9; return o; }
    if (v < base) { kind = 1; o.push_back ({ { glob (v), edge ? k ^ 3 : k ^ (NC - 1) } }); return o; }
    kind = 2; v -= base;
    if (v >= num) { kind = -8; return o; }
    if (used[v]++) kind = -7;
    p4est_locidx_t a = *(p4est_locidx_t *) sc_array_index (off, v), b = *(p4est_locidx_t *) sc_array_index (off, v + 1);
    if (a < 0 || b <= a || (size_t) b > quad->elem_count) { kind = -6; return o; }
    for (p4est_locidx_t j = a; j < b; ++j) {
      int g = glob (*(p4est_locidx_t *) sc_array_index (quad, j)), cc = *(int8_t *) sc_array_index (cod, j);
      if (edge && cc < 0) {
        if (++j >= b) { kind = -5; return o; }
        o.push_back ({ { g, cc }, { glob (*(p4est_locidx_t *) sc_array_index (quad, j)), *(int8_t *) sc_array_index (cod, j) } });
      }
      else o.push_back ({ { g, cc } });
    }
    (void) i; return o;
  }

  void faces ()
  {
    size_t half = 0; std::vector<char> hused (me->quad_to_half->elem_count, 0);
    for (int i = 0; i < lq; ++i) for (int f = 0; f < NF; ++f) {
      WF & x = w.f[i * NF + f]; p4est_locidx_t q = me->quad_to_quad[i * NF + f]; int code = me->quad_to_face[i * NF + f];
      CHK (code == x.code, "face-code", "%s: %s face %d has code %d, expected %d", when, L (i).c_str (), f, code, x.code);
      if (x.kind == 2) {
        ++half; bool ok = q >= 0 && (size_t) q < hused.size () && !hused[q]++;
        CHK (ok, "half-index", "%s: %s face %d refers to entry %d of %zu", when, L (i).c_str (), f, q, hused.size ());
        if (ok) for (int h = 0; h < NH; ++h) { int g = glob (((p4est_locidx_t *) sc_array_index (me->quad_to_half, q))[h]); CHK (g == x.idx[h], "half-neighbour", "%s: %s face %d part %d has neighbour %d, expected %d", when, L (i).c_str (), f, h, g, x.idx[h]); }
        count ("half_size_faces");
      }
      else {
        CHK (glob (q) == x.idx[0], "face-neighbour", "%s: %s face %d has neighbour %d, expected %d", when, L (i).c_str (), f, glob (q), x.idx[0]);
        count (x.kind == 0 ? "boundary_faces" : x.code >= NF * NH ? "double_size_faces" : "same_size_faces");
        if (q >= lq) count ("ghost_faces");
      }
    }
    CHK (half == hused.size (), "half-index", "%s: %zu entries for half size neighbours, %zu expected", when, hused.size (), half);
  }
  void group (bool edge)
  {
    std::vector<Want> & W = edge ? w.e : w.c; int n = edge ? EN : NC;
    p4est_locidx_t num = me->local_num_corners, *tab = me->quad_to_corner; sc_array_t *off = me->corner_offset, *quad = me->corner_quad, *cod = me->corner_corner;
#ifdef P4_TO_P8
    if (edge) { num = me->local_num_edges; tab = me->quad_to_edge; off = me->edge_offset; quad = me->edge_quad; cod = me->edge_edge; }
#endif
    CHK (off->elem_count == (size_t) num + 1 && quad->elem_count == cod->elem_count && *(p4est_locidx_t *) sc_array_index (off, 0) == 0 && (size_t) *(p4est_locidx_t *) sc_array_index (off, num) == quad->elem_count,
         edge ? "edge-arrays" : "corner-arrays", "%s: inconsistent array lengths", when);
    if (off->elem_count != (size_t) num + 1) return;
    std::vector<char> used (num, 0);
    for (int i = 0; i < lq; ++i) for (int k = 0; k < n; ++k) {
      Want & x = W[i * n + k]; int kind;
      auto o = decode (edge, i, k, lq + ng, tab[i * n + k], num, off, quad, cod, used, kind);
      if (x.skip) { count ("degenerate"); continue; }
      auto want = x.v; std::sort (want.begin (), want.end ()); std::sort (o.begin (), o.end ());
      CHK (kind == x.kind && o == want, edge ? "edge-neighbours" : "corner-neighbours", "%s: %s %s %d: kind %d %s, expected kind %d %s", when, L (i).c_str (), edge ? "edge" : "corner", k, kind, show (o).c_str (), x.kind, show (want).c_str ());
      if (edge) count (x.kind < 0 ? "face_hanging_edges" : x.kind == 0 ? "edges_without_neighbour" : x.kind == 1 ? "direct_edges" : "grouped_edges");
      else count (x.kind < 0 ? "hanging_corners" : x.kind == 0 ? "corners_without_neighbour" : x.kind == 1 ? "direct_corners" : "grouped_corners");
    }
    for (p4est_locidx_t v = 0; v < num; ++v) CHK (used[v], edge ? "edge-arrays" : "corner-arrays", "%s: group %d is not referred to", when, v);
  }
  void lists ()
  {
    for (int g = 0; g < ng; ++g) CHK (me->ghost_to_proc[g] == m.f->q[gidx[g]].rank, "ghost-owner", "%s: ghost %d is owned by %d, not %d", when, g, m.f->q[gidx[g]].rank, me->ghost_to_proc[g]);
    CHK ((me->quad_to_tree != NULL) == (me->params.compute_tree_index != 0), "tree-list", "%s: presence", when);
    CHK ((me->quad_level != NULL) == (me->params.compute_level_lists != 0), "level-lists", "%s: presence", when);
    if (me->quad_to_tree) for (int i = 0; i < lq; ++i) CHK (me->quad_to_tree[i] == m.f->q[m.l0 + i].t, "tree-list", "%s: leaf %d is in tree %d", when, i, (int) me->quad_to_tree[i]);
    if (me->quad_level) for (int l = 0; l <= P4EST_QMAXLEVEL; ++l) {
      std::vector<int> a, b; for (int i = 0; i < lq; ++i) if (m.f->q[m.l0 + i].l == l) a.push_back (i);
      for (size_t k = 0; k < me->quad_level[l].elem_count; ++k) b.push_back (*(p4est_locidx_t *) sc_array_index (&me->quad_level[l], k));
      CHK (a == b, "level-lists", "%s: level %d lists %zu leaves, expected %zu", when, l, b.size (), a.size ());
      if (a.size ()) count ("level_lists");
    }
  }
  void iterators (void *gdata, bool data)
  {
    for (int n = 0; n < 12 && lq; ++n) {
      int i = r.below (lq); const Leaf & a = m.f->q[m.l0 + i];
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, a.t);
      p4est_mesh_face_neighbor_t mfn;
      if (r.chance (0.5)) p4est_mesh_face_neighbor_init (&mfn, p, gh, me, a.t, p4est_quadrant_array_index (&tr->quadrants, i - tr->quadrants_offset));
      else p4est_mesh_face_neighbor_init2 (&mfn, p, gh, me, a.t, i - tr->quadrants_offset);
      bool nul = r.chance (0.2);
      for (int f = 0; f < NF; ++f) {
        WF & x = w.f[i * NF + f];
        for (size_t h = 0; h < x.idx.size (); ++h) {
          p4est_topidx_t nt = -7; p4est_locidx_t nq = -7; int nf = -99, nr = -7;
          p4est_quadrant_t *q = nul ? p4est_mesh_face_neighbor_next (&mfn, NULL, NULL, NULL, NULL) : p4est_mesh_face_neighbor_next (&mfn, &nt, &nq, &nf, &nr);
          if (!q) { FAILK ("iterator", "%s: ends at face %d of %s", when, f, L (i).c_str ()); return; }
          Leaf b = m.f->q[x.idx[h]];
          CHK (mkleaf (b.t, q).same (b), "iterator", "%s: %s face %d part %zu: another quadrant", when, L (i).c_str (), f, h);
          if (!nul) {
            CHK (nt == b.t && nr == b.rank && nf == x.code, "iterator-values", "%s: %s face %d part %zu: tree %d rank %d code %d, expected %d %d %d", when, L (i).c_str (), f, h, (int) nt, nr, nf, b.t, b.rank, x.code);
            if (b.rank == p->mpirank) { p4est_tree_t *t2 = p4est_tree_array_index (p->trees, b.t); CHK (nq == x.idx[h] - m.l0 - t2->quadrants_offset, "iterator-index", "%s: local neighbour %d", when, nq); }
            else CHK (nq >= 0 && nq < ng && gidx[nq] == x.idx[h], "iterator-index", "%s: ghost neighbour %d", when, nq);
          }
          if (data) {
            void *d = p4est_mesh_face_neighbor_data (&mfn, gdata);
            CHK (check_bytes (d, p->data_size, leaf_id (b.t, q, 5)), "iterator-data", "%s: %s face %d: data of another leaf", when, L (i).c_str (), f);
            count ("neighbour_data");
          }
          count ("iterated_neighbours");
        }
      }
      p4est_topidx_t nt; p4est_locidx_t nq; int nf, nr;
      CHK (p4est_mesh_face_neighbor_next (&mfn, &nt, &nq, &nf, &nr) == NULL, "iterator", "%s: does not end", when);
    }
    for (int n = 0; n < 12 && lq; ++n) {
      int i = r.below (lq); const Leaf & a = m.f->q[m.l0 + i]; p4est_tree_t *tr = p4est_tree_array_index (p->trees, a.t);
      p4est_topidx_t wt = r.chance (0.5) ? -1 : (p4est_topidx_t) r.range (p->first_local_tree, p->last_local_tree); p4est_locidx_t id = -7;
      int k = r.below (4);
      p4est_quadrant_t *q = p4est_mesh_quadrant_cumulative (p, me, i, k & 1 ? &wt : NULL, k & 2 ? &id : NULL);
      CHK (q == p4est_quadrant_array_index (&tr->quadrants, i - tr->quadrants_offset), "cumulative", "%s: leaf %d: another quadrant", when, i);
      if (k & 1) CHK (wt == a.t, "cumulative", "%s: leaf %d: tree %d, expected %d", when, i, (int) wt, a.t);
      if (k & 2) CHK (id == i - tr->quadrants_offset, "cumulative", "%s: leaf %d: number %d", when, i, id);
      if (me->quad_to_tree) CHK (p4est_mesh_get_quadrant (p, me, i) == q, "get-quadrant", "%s: leaf %d", when, i);
      count ("cumulative_lookups");
    }
  }
  void neighbors ()
  {
    int nd = NF; int edges = 0, corners = 0;
#ifdef P4_TO_P8
    if (me->quad_to_edge) { edges = EN; nd += EN; }
    else return;
#endif
    if (me->quad_to_corner) { corners = NC; nd += NC; }
    (void) corners;
    for (int n = 0; n < 60 && lq; ++n) {
      int i = r.below (lq), d = r.below (nd), k = d;
      std::vector<std::vector<II>> want; int lim;      /* II: leaf, code as in the tables */
      bool skip = false;
      if (d < NF) {
        WF & x = w.f[i * NF + d]; lim = NF * NH * (1 + NH); int hs = NF * NH;
        if (x.kind) for (int j : x.idx) want.push_back ({ { j, x.code >= 0 ? x.code + 1 : x.code + hs + lim + 1 } });
      }
      else {
        Want & x = d < NF + edges ? w.e[i * EN + d - NF] : w.c[i * NC + d - NF - edges]; k = d - NF; skip = x.skip; lim = 72;
        for (auto & mem : x.v) for (auto & z : mem) want.push_back ({ { z.first, z.second >= 0 ? z.second + 1 : z.second + 24 + lim + 1 } });
      }
      if (skip) continue;
      sc_array_t *qs = r.chance (0.7) ? sc_array_new (sizeof (p4est_quadrant_t *)) : NULL, *ec = sc_array_new (sizeof (int)), *qi = !qs || r.chance (0.7) ? sc_array_new (sizeof (int)) : NULL;
      p4est_mesh_get_neighbors (p, gh, me, i, d, qs, ec, qi);
      bool ok = ec->elem_count == want.size () && (!qs || qs->elem_count == want.size ()) && (!qi || qi->elem_count == want.size ());
      CHK (ok, "get-neighbors", "%s: %s direction %d: %zu neighbours, expected %zu", when, L (i).c_str (), d, ec->elem_count, want.size ());
      std::vector<std::vector<II>> have;
      for (size_t j = 0; ok && j < ec->elem_count; ++j) {
        int en = *(int *) sc_array_index (ec, j), gl = -5, id = qi ? *(int *) sc_array_index (qi, j) : -1; bool ghost = en < 0;
        if (qi) gl = glob (ghost ? lq + id : id);
        if (qs) { p4est_quadrant_t *q = *(p4est_quadrant_t **) sc_array_index (qs, j); int g2 = -3;
          if (ghost) { size_t z = q - (p4est_quadrant_t *) gh->ghosts.array; if (z < (size_t) ng) g2 = gidx[z]; }
          else for (auto & y : want) { int z = y[0].first; if (m.local (z)) { p4est_tree_t *t2 = p4est_tree_array_index (p->trees, m.f->q[z].t); if (p4est_quadrant_array_index (&t2->quadrants, z - m.l0 - t2->quadrants_offset) == q) g2 = z; } }
          if (qi) CHK (gl == g2, "get-neighbors", "%s: %s direction %d: quadrant and index differ", when, L (i).c_str (), d);
          gl = g2; }
        if (gl >= 0) CHK (ghost != m.local (gl), "get-neighbors", "%s: %s direction %d: ghost encoding for a local leaf or vice versa", when, L (i).c_str (), d);
        have.push_back ({ { gl, ghost ? -en : en } });
      }
      if (ok) { bool same; if (d < NF) same = have == want; else { std::sort (have.begin (), have.end ()); std::sort (want.begin (), want.end ()); same = have == want; }
        CHK (same, "get-neighbors", "%s: %s direction %d: %s, expected %s", when, L (i).c_str (), d, show (have).c_str (), show (want).c_str ()); }
      count ("neighbour_lookups");
      if (qs) sc_array_destroy (qs);
      sc_array_destroy (ec); if (qi) sc_array_destroy (qi);
    }
    (void) nd;
  }
};

}

static void prop (Rng & r)
{
  std::string nm; ConnOpts co; co.max_trees = 7;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  Geo g; g.init (c);
  if (!conn_oracle_ok (g)) { gcount ("cases_without_oracle"); p4est_connectivity_destroy (c); return; }
  ForestOpts fo; fo.data_size = r.pick ({ 0, 4, 13 }); fo.target = DIM == 3 ? r.pick ({ 20, 80, 160 }) : r.pick ({ 10, 60, 200 }); fo.maxl = r.range (2, 5); fo.deep = r.chance (0.1);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  int mind = r.range (0, DIM - 1);
  p4est_balance (p, conn_type (mind), NULL);
  random_partition (r, p, true);
  for (p4est_topidx_t t = p->first_local_tree; fo.data_size && t <= p->last_local_tree; ++t) { p4est_tree_t *tr = p4est_tree_array_index (p->trees, t); for (size_t k = 0; k < tr->quadrants.elem_count; ++k) { p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, k); fill_bytes (q->p.user_data, fo.data_size, leaf_id (t, q, 5)); } }
  GForest f = gather (p);
  describe ("%s leaves %zu balanced to dim %d", nm.c_str (), f.q.size (), mind);
  distinct_state (hcomb (f.hash (true), conn_hash (c) + mind));
  Model m; m.init (g, f, p->mpirank);
  for (int k = 0; k < 2; ++k) {
    /* lowest contact dimension of the mesh: at least that of the balance; of the ghost layer: at most that of the mesh */
    int md = r.chance (0.6) ? mind : r.range (mind, DIM - 1), gd = r.chance (0.6) ? 0 : r.range (0, md);
    p4est_ghost_t *gh = p4est_ghost_new (p, conn_type (gd));
    void *gdata = NULL; if (fo.data_size) { gdata = malloc (fo.data_size * (gh->ghosts.elem_count + 1)); p4est_ghost_exchange_data (p, gh, gdata); }
    p4est_mesh_params_t pa; p4est_mesh_params_init (&pa);
    CHK (pa.btype == P4EST_CONNECT_FACE && !pa.compute_tree_index && !pa.compute_level_lists, "params", "defaults");
    pa.btype = conn_type (md); pa.compute_tree_index = r.below (2); pa.compute_level_lists = r.below (2);
    int how = r.below (4); p4est_mesh_t *me; bool hcor = false;
#ifdef P4_TO_P8
    CHK (!pa.edgehanging_corners, "params", "defaults");
#endif
    if (how == 0) { pa.compute_tree_index = pa.compute_level_lists = 0; me = p4est_mesh_new (p, gh, pa.btype); }
    else if (how == 1) me = p4est_mesh_new_ext (p, gh, pa.compute_tree_index, pa.compute_level_lists, pa.btype);
    else if (how == 2 && r.chance (0.3)) { md = DIM - 1; p4est_mesh_params_init (&pa); me = p4est_mesh_new_params (p, gh, NULL); }
    else {
#ifdef P4_TO_P8
      hcor = r.chance (0.6); pa.edgehanging_corners = hcor; hcor = hcor && md == 0;
#endif
      me = p4est_mesh_new_params (p, gh, &pa);
    }
    CHK (me->params.btype == pa.btype && me->params.compute_tree_index == pa.compute_tree_index && me->params.compute_level_lists == pa.compute_level_lists, "params", "not stored");
    char when[80]; snprintf (when, sizeof when, "mesh dim %d ghost dim %d edge hanging %d", md, gd, hcor);
    Want_t w; w.init (m, DIM == 3 && md <= 1, md == 0, hcor);
    Judge j = { r, p, gh, me, m, w, when, (int) p->local_num_quadrants, (int) gh->ghosts.elem_count, {} };
    CHK (me->local_num_quadrants == j.lq && me->ghost_num_quadrants == j.ng, "sizes", "%s: %d local, %d ghost", when, me->local_num_quadrants, me->ghost_num_quadrants);
    int owner = 0;
    for (int z = 0; z < j.ng; ++z) { while (gh->proc_offsets[owner + 1] <= z) ++owner; j.gidx.push_back ((int) (f.rfirst[owner] + p4est_quadrant_array_index (&gh->ghosts, z)->p.piggy3.local_num)); }
    size_t lo = sizeof (p4est_mesh_t) + NF * (size_t) j.lq * 5 + 4 * (size_t) j.ng; CHK (p4est_mesh_memory_used (me) >= lo, "memory-used", "%s", when);
    j.lists ();
    j.faces ();
#ifdef P4_TO_P8
    CHK ((me->quad_to_edge != NULL) == (md <= 1), "edge-arrays", "%s: presence", when);
    if (me->quad_to_edge) j.group (true);
#endif
    CHK ((me->quad_to_corner != NULL) == (md == 0), "corner-arrays", "%s: presence", when);
    if (me->quad_to_corner) j.group (false);
    u64 keep = r.s;
    if (!run.nfail_case) {
      j.iterators (gdata, gdata != NULL);
      if (me->quad_to_tree && gd <= md) j.neighbors ();
    }
    r.s = keep; r.next ();
    p4est_mesh_destroy (me);
    p4est_ghost_destroy (gh);
    free (gdata);
    gcount ("meshes");
  }
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C11", prop)

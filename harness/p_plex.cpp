/* C29: the point complex for unstructured mesh libraries.  Every cell of every
 * process derives the geometric place of all points in its closure and of
 * their refinements from cones, orientations and child numbers; the points and
 * places must correspond one to one, within a process and between processes. */
#include "core.hpp"
#include "ifmodel.hpp"
#ifdef P4_TO_P8
#include <p8est_plex.h>
#else
#include <p4est_plex.h>
#endif

namespace {

typedef std::tuple<int, TP> Key;
struct Pub { int pt, dim, leaf, rp, ri; i64 t, x[3]; double c[3]; };

struct Plex
{
  p4est_t *p; const Geo *g; const GForest *f; const Model *m;
  int ov, custom; p4est_locidx_t first = -7;
  sc_array_t *a[10];
  std::vector<int> off;                 /* first point of each stratum, cells first */
  std::vector<i64> coff;
  std::vector<char> known; std::vector<Key> key;
  std::map<Key, int> point;
  std::map<int, std::map<int, int>> kids;       /* parent -> child number -> child */
  std::map<int, std::pair<int, int>> par;       /* child -> parent, child number */
  std::set<int> visited;
  int n = 0; bool bad = false;
  bool usable (int x, int dim) const { return x >= off[DIM - dim] && x < off[DIM - dim + 1]; }
  int dimof (int x) const { for (int c = 0; c <= DIM; ++c) if (x < off[c + 1]) return DIM - c; return -1; }
  const p4est_locidx_t *arr (int i) const { return (const p4est_locidx_t *) a[i]->array; }
  const p4est_locidx_t *cone (int x) const { int d = dimof (x); return arr (2) + coff[DIM - d] + (i64) 2 * d * (x - off[DIM - d]); }
  const p4est_locidx_t *orient (int x) const { int d = dimof (x); return arr (3) + coff[DIM - d] + (i64) 2 * d * (x - off[DIM - d]); }
  std::string name (const Key & k) const
  {
    char b[128]; auto & t = std::get<1> (k);
    snprintf (b, sizeof b, "dimension %d centre tree %d (%lld,%lld,%lld)/2", std::get<0> (k), t.t, (long long) t.x[0], (long long) t.x[1], (long long) t.x[2]);
    return b;
  }
  void assign (int x, int dim, int t, const P3 & c, const char *how)
  {
    if (bad) return;
    if (!usable (x, dim)) { FAILK ("cone-range", "%s names point %d, which has not dimension %d", how, x, dim); bad = true; return; }
    Key k (dim, g->canon (t, c));
    if (known[x] && key[x] != k) { FAILK ("two-places", "%s: point %d is %s and also %s", how, x, name (key[x]).c_str (), name (k).c_str ()); bad = true; return; }
    auto it = point.find (k);
    if (it != point.end () && it->second != x) { FAILK ("two-points", "%s: points %d and %d are both %s", how, it->second, x, name (k).c_str ()); bad = true; return; }
    known[x] = 1; key[x] = k; point[k] = x;
  }
  static P3 mid (const P3 & u, const P3 & v) { P3 w; for (int i = 0; i < 3; ++i) w[i] = (u[i] + v[i]) / 2; return w; }
  bool hangs (int dim, int t, const P3 & c, i64 len) const
  {
    int L = ML; while (((i64) 1 << (ML - L)) < len) --L;
    std::vector<Side> s;
    m->sides (dim == DIM - 1 ? 2 : 1, t, c, L, s);
    for (auto & x : s) if (x.hang) return true;
    return false;
  }
  void children (int x, int want, const char *how)
  {
    auto it = kids.find (x);
    int have = it == kids.end () ? 0 : (int) it->second.size ();
    CHK (have == want, "children", "%s: point %d has %d children, expected %d", how, x, have, want);
    if (have != want) bad = true;
  }
  int child (int x, int id, const char *how)
  {
    auto & k = kids[x]; auto it = k.find (id);
    if (it == k.end ()) { FAILK ("child-number", "%s: point %d has no child of number %d", how, x, id); bad = true; return -1; }
    return it->second;
  }
  /* edge whose first cone point lies at A and second at B */
  void edge (int t, int x, const P3 & A, const P3 & B, bool child_of, const char *how)
  {
    if (bad) return;
    P3 c = mid (A, B);
    assign (x, 1, t, c, how);
    if (bad) return;
    assign (cone (x)[0], 0, t, A, how);
    assign (cone (x)[1], 0, t, B, how);
    CHK (orient (x)[0] == 0 && orient (x)[1] == 0, "vertex-orientation", "%s: orientations %d %d of vertices", how, orient (x)[0], orient (x)[1]);
    i64 len = 0; for (int i = 0; i < DIM; ++i) len = std::max (len, std::abs (A[i] - B[i]) / 2);
    bool h = !child_of && hangs (1, t, c, len);
    children (x, h ? 3 : 0, how);
    if (bad || !h) { if (!bad) count ("edges_visited"); return; }
    static const int ids[3] = { DIM == 2 ? 9 : 63, DIM == 2 ? 10 : 64, DIM == 2 ? 25 : 125 };
    int e0 = child (x, ids[0], how), e1 = child (x, ids[1], how), v = child (x, ids[2], how);
    if (bad) return;
    assign (v, 0, t, c, "middle of an edge");
    edge (t, e0, A, c, true, "first half of an edge");
    edge (t, e1, c, B, true, "second half of an edge");
    count ("edges_split");
  }
#ifdef P4_TO_P8
  /* face whose j-th edge, as oriented by the face, runs from X[j] to X[j+1] */
  void face (int t, int x, const P3 * X, bool child_of, const char *how)
  {
    if (bad) return;
    P3 c = mid (X[0], X[2]);
    assign (x, 2, t, c, how);
    if (bad) return;
    for (int j = 0; j < 4 && !bad; ++j) {
      int o = orient (x)[j], e = cone (x)[j];
      CHK (o == 0 || o == -2, "edge-orientation", "%s: edge orientation %d", how, o);
      if (!usable (e, 1)) { FAILK ("cone-range", "%s: cone names %d", how, e); bad = true; return; }
      /* the edges of a child of the face may be split only if they are whole edges: never */
      edge (t, e, o >= 0 ? X[j] : X[(j + 1) % 4], o >= 0 ? X[(j + 1) % 4] : X[j], child_of, how);
    }
    if (bad) return;
    i64 len = 0; for (int i = 0; i < 3; ++i) len = std::max (len, std::abs (X[0][i] - X[2][i]) / 2);
    bool h = !child_of && hangs (2, t, c, len);
    children (x, h ? 9 : 0, how);
    if (bad) return;
    count ("faces_visited");
    if (!h) return;
    static const int zord[4] = { 0, 1, 3, 2 }, fpos[4] = { 3, 1, 0, 2 };
    int v = child (x, 137, how);
    if (bad) return;
    assign (v, 0, t, c, "centre of a face");
    for (int k = 0; k < 4 && !bad; ++k) {
      int j = custom ? zord[k] : k;
      int y = child (x, 15 + k, how);
      P3 Y[4]; for (int i = 0; i < 4; ++i) Y[i] = mid (X[j], X[i]);
      if (!bad) face (t, y, Y, true, "quarter of a face");
      if (bad) return;
      j = custom ? fpos[k] : k;
      y = child (x, 87 + k, how);
      P3 e = mid (X[j], X[(j + 1) % 4]);
      if (bad) return;
      if (custom && (k & 1)) edge (t, y, c, e, true, "edge inside a face");
      else edge (t, y, e, c, true, "edge inside a face");
    }
    count ("faces_split");
  }
#endif
  /* the whole edge of which the given one is half */
  void whole_edge (int t, int x, const P3 & A, const P3 & B, const char *how)
  {
    if (bad) return;
    auto it = par.find (x);
    int k = it == par.end () ? -1 : it->second.second - (DIM == 2 ? 9 : 63);
    if (k < 0 || k > 1) { FAILK ("child-number", "%s: point %d is half of an edge, child number %d", how, x, it == par.end () ? -1 : it->second.second); bad = true; return; }
    P3 U = A, V = B;
    for (int i = 0; i < 3; ++i) if (k) U[i] = 2 * A[i] - B[i]; else V[i] = 2 * B[i] - A[i];
    edge (t, it->second.first, U, V, false, "whole edge of a half");
    count ("parents_visited");
  }
#ifdef P4_TO_P8
  void whole_face (int t, int x, const P3 * Y, const char *how)
  {
    if (bad) return;
    static const int zord[4] = { 0, 1, 3, 2 };
    auto it = par.find (x);
    int k = it == par.end () ? -1 : it->second.second - 15;
    if (k < 0 || k > 3) { FAILK ("child-number", "%s: point %d is quarter of a face, child number %d", how, x, it == par.end () ? -1 : it->second.second); bad = true; return; }
    int j = custom ? zord[k] : k;
    P3 X[4];
    for (int m = 0; m < 4; ++m) for (int i = 0; i < 3; ++i) X[m][i] = 2 * Y[m][i] - Y[j][i];
    face (t, it->second.first, X, false, "whole face of a quarter");
    count ("parents_visited");
  }
#endif
  void cell (const Leaf & b, int x)
  {
    if (bad) return;
    P3 C[8];
    for (int k = 0; k < NC; ++k) for (int i = 0; i < 3; ++i) C[k][i] = i < DIM ? 2 * (b.x[i] + (((k >> i) & 1) ? b.len () : 0)) : 0;
    std::string s = "cell " + leaf_str (b);
    bool cof;
#ifndef P4_TO_P8
    static const int cyc[5] = { 0, 1, 3, 2, 0 }, pos_face[4] = { 2, 1, 3, 0 };
    for (int j = 0; j < 4 && !bad; ++j) {
      int e = cone (x)[j], o = orient (x)[j];
      CHK (o == 0 || o == -2, "edge-orientation", "%s: edge orientation %d", s.c_str (), o);
      if (!usable (e, 1)) { FAILK ("cone-range", "%s: cone names %d", s.c_str (), e); bad = true; return; }
      cof = parent_is_hanging (b, pos_face[j]);
      const P3 & A = C[o >= 0 ? cyc[j] : cyc[j + 1]], & B = C[o >= 0 ? cyc[j + 1] : cyc[j]];
      edge (b.t, e, A, B, cof, s.c_str ());
      if (cof) whole_edge (b.t, e, A, B, s.c_str ());
    }
#else
    static const int vert[6][4] = { { 0, 2, 3, 1 }, { 4, 5, 7, 6 }, { 0, 1, 5, 4 }, { 3, 2, 6, 7 }, { 1, 3, 7, 5 }, { 0, 4, 6, 2 } };
    static const int pos_face[6] = { 4, 5, 2, 3, 1, 0 };
    for (int j = 0; j < 6 && !bad; ++j) {
      int y = cone (x)[j], o = orient (x)[j];
      CHK (o >= -4 && o < 4, "face-orientation", "%s: face orientation %d", s.c_str (), o);
      if (!usable (y, 2) || o < -4 || o > 3) { FAILK ("cone-range", "%s: cone names %d", s.c_str (), y); bad = true; return; }
      P3 X[4];
      for (int i = 0; i < 4; ++i) {
        int own = o >= 0 ? (i + o) % 4 : ((-(o + 1)) - i + 1 + 8) % 4;
        X[own] = C[vert[j][i]];
      }
      cof = parent_is_hanging (b, pos_face[j]);
      face (b.t, y, X, cof, s.c_str ());
      if (cof) whole_face (b.t, y, X, s.c_str ());
      /* edges that hang, but on no hanging face */
      for (int i = 0; i < 4 && !bad && !cof; ++i) {
        int eo = orient (y)[i], e = cone (y)[i];
        const P3 & A = eo >= 0 ? X[i] : X[(i + 1) % 4], & B = eo >= 0 ? X[(i + 1) % 4] : X[i];
        auto it = par.find (e);
        if (it != par.end () && it->second.second < 87) whole_edge (b.t, e, A, B, s.c_str ());
        else if (it == par.end () && half_edge (b, A, B)) { FAILK ("children", "%s: half edge %d has no parent", s.c_str (), e); bad = true; }
      }
    }
#endif
  }
  /* does a leaf twice as large have the edge that contains this one */
  bool half_edge (const Leaf & b, const P3 & A, const P3 & B) const
  {
    std::vector<Model::Touch> T;
    m->touching (b.t, mid (A, B), T);
    for (auto & u : T) if (f->q[u.i].l < b.l) return true;
    return false;
  }
  bool parent_is_hanging (const Leaf & b, int k) const
  {
    std::vector<Model::Touch> T;
    m->touching (b.t, ent_center (b, entities ()[k]), T);
    for (auto & u : T) if (f->q[u.i].l < b.l) return true;
    return false;
  }
};

}

static void check_plex (Rng & r, p4est_t * p, const Geo & g, const GForest & f, const std::vector<Adj> & adj)
{
  int me = p->mpirank, P = p->mpisize;
  Model m; m.g = &g; m.f = &f; m.me = me; m.l0 = f.rfirst[me]; m.l1 = f.rfirst[me + 1];
  Plex X; X.p = p; X.g = &g; X.f = &f; X.m = &m;
  X.ov = r.below (4) ? r.below (3) : r.below (4); X.custom = 0;
  for (int i = 0; i < 10; ++i) X.a[i] = sc_array_new (i == 4 ? 3 * sizeof (double) : i == 9 ? 2 * sizeof (p4est_locidx_t) : sizeof (p4est_locidx_t));
  p4est_ghost_t *gh = NULL; p4est_lnodes_t *ln = NULL;
  int how = r.below (3);
  auto & a = X.a;
  if (how == 0) p4est_get_plex_data (p, P4EST_CONNECT_FULL, X.ov, &X.first, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  else {
    X.custom = r.below (2);
    if (how == 2) {                     /* with objects made before */
      gh = p4est_ghost_new (p, P4EST_CONNECT_FULL);
      if (r.below (2)) ln = p4est_lnodes_new (p, gh, -DIM);
      if (X.ov > 1 && ln) {
        p4est_ghost_support_lnodes (p, ln, gh);
        for (int i = 1; i < X.ov; ++i) p4est_ghost_expand_by_lnodes (p, ln, gh);
      }
      else X.ov = std::min (X.ov, 1);
    }
    p4est_get_plex_data_ext (p, &gh, &ln, P4EST_CONNECT_FULL, X.ov, &X.first, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], X.custom);
  }
  gcount (how == 0 ? "plexes" : how == 1 ? "plexes_with_objects" : "plexes_on_objects");
  if (X.ov) gcount ("plexes_with_overlap");
  if (X.ov > 1) gcount ("plexes_with_wide_overlap");
  /* shape */
  int nl = p->local_num_quadrants;
  bool ok = a[0]->elem_count == (size_t) DIM + 1;
  CHK (ok, "shape", "%zu strata", a[0]->elem_count);
  if (ok) {
    X.off.assign (DIM + 2, 0); X.coff.assign (DIM + 2, 0);
    for (int c = 0; c <= DIM; ++c) {
      int d = DIM - c, cnt = X.arr (0)[d];
      X.off[c + 1] = X.off[c] + cnt; X.coff[c + 1] = X.coff[c] + (i64) 2 * d * cnt;
    }
    X.n = X.off[DIM + 1];
    ok = a[1]->elem_count == (size_t) X.n && a[2]->elem_count == (size_t) X.coff[DIM + 1] && a[3]->elem_count == a[2]->elem_count && a[4]->elem_count == (size_t) X.arr (0)[0] &&
      a[5]->elem_count == a[6]->elem_count && a[5]->elem_count == a[7]->elem_count && a[8]->elem_count == a[9]->elem_count && a[9]->elem_size == 2 * sizeof (p4est_locidx_t);
    CHK (ok, "shape", "array lengths %zu %zu %zu %zu %zu %zu %zu %zu %zu for %d points", a[1]->elem_count, a[2]->elem_count, a[3]->elem_count, a[4]->elem_count, a[5]->elem_count,
         a[6]->elem_count, a[7]->elem_count, a[8]->elem_count, a[9]->elem_count, X.n);
  }
  bool allok = allmax (ok ? 0 : 1, p->mpicomm) == 0;
  if (allok) {
    for (int x = 0; x < X.n; ++x) CHK (X.arr (1)[x] == 2 * X.dimof (x), "cone-size", "point %d of dimension %d has %d in its cone", x, X.dimof (x), X.arr (1)[x]);
    for (size_t i = 0; i < a[5]->elem_count; ++i) {
      int c = X.arr (5)[i], q = X.arr (6)[i], id = X.arr (7)[i];
      CHK (c >= 0 && c < X.n && q >= 0 && q < X.n && (i == 0 || c > X.arr (5)[i - 1]), "children", "child %d of %d: out of range or order", c, q);
      CHK (!X.kids[q].count (id), "child-number", "parent %d has two children of number %d", q, id);
      X.kids[q][id] = c;
      X.par[c] = { q, id };
      count ("children");
    }
    /* cells: the own leaves, and by the remotes those of others */
    std::vector<i64> firsts = allgatherv (std::vector<i64> { X.first }, p->mpicomm);
    int K = X.arr (0)[DIM];
    std::vector<i64> leafof (K, -1);
    CHK (X.first >= 0 && X.first + nl <= K, "first-local", "own cells start at %d of %d, number %d", X.first, K, nl);
    for (int i = 0; i < nl && X.first + i < K; ++i) leafof[X.first + i] = f.rfirst[me] + i;
    std::vector<std::pair<int, int>> remote (X.n, { -1, -1 });
    for (size_t i = 0; i < a[8]->elem_count; ++i) {
      int x = X.arr (8)[i], rp = X.arr (9)[2 * i], ri = X.arr (9)[2 * i + 1];
      bool in = x >= 0 && x < X.n && rp >= 0 && rp < P && rp != me && ri >= 0;
      CHK (in, "remote-range", "leaf %d of %d refers to process %d, point %d", x, X.n, rp, ri);
      if (!in) continue;
      CHK (remote[x].first < 0, "remote-twice", "point %d is listed twice", x);
      remote[x] = { rp, ri };
      if (x < K) {
        i64 gi = f.rfirst[rp] + ri - firsts[rp];
        CHK (gi >= f.rfirst[rp] && gi < f.rfirst[rp + 1] && leafof[x] < 0, "cell-remote", "cell %d refers to cell %d of process %d, which is not its own", x, ri, rp);
        if (gi >= f.rfirst[rp] && gi < f.rfirst[rp + 1]) leafof[x] = gi;
      }
      count ("remotes");
    }
    std::set<i64> have;
    for (int x = 0; x < K; ++x) {
      CHK (leafof[x] >= 0, "cell-unknown", "cell %d is neither own nor refers to a process", x);
      if (leafof[x] < 0) { X.bad = true; continue; }
      CHK (x == 0 || leafof[x] > leafof[x - 1] || leafof[x - 1] < 0, "cell-order", "cells %d and %d are not in the order of the leaves", x - 1, x);
      have.insert (leafof[x]);
    }
    if (gh) CHK (K == nl + (X.ov ? (int) gh->ghosts.elem_count : 0), "cell-count", "%d cells, %d own, %zu ghosts", K, nl, gh->ghosts.elem_count);
    if (!X.ov) CHK (K == nl, "cell-count", "%d cells without overlap, %d own", K, nl);
    else if (gh) {
      for (size_t z = 0; z < gh->ghosts.elem_count; ++z) {
        p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->ghosts, z);
        Leaf b = mkleaf (q->p.piggy3.which_tree, q);
        int c = (int) z + ((int) z >= X.first ? nl : 0);
        CHK (c < K && leafof[c] >= 0 && f.q[leafof[c]].same (b), "cell-ghost", "cell %d is not ghost %zu %s", c, z, leaf_str (b).c_str ());
      }
    }
    /* every leaf within the wanted number of layers is there */
    if (X.ov) {
      std::set<i64> cur; for (i64 i = f.rfirst[me]; i < f.rfirst[me + 1]; ++i) cur.insert (i);
      for (int k = 0; k < X.ov; ++k) {
        std::set<i64> nx = cur;
        for (auto & d : adj) { if (cur.count (d.a)) nx.insert (d.b); if (cur.count (d.b)) nx.insert (d.a); }
        cur.swap (nx);
      }
      for (i64 i : cur) { CHK (have.count (i), "overlap", "leaf %s, within %d layers, is missing", leaf_str (f.q[i]).c_str (), X.ov); if (i < f.rfirst[me] || i >= f.rfirst[me + 1]) count ("overlap_cells"); }
    }
    X.known.assign (X.n, 0); X.key.resize (X.n);
    for (int x = 0; x < K && !X.bad; ++x) {
      const Leaf & b = f.q[leafof[x]];
      P3 c = { 0, 0, 0 }; for (int i = 0; i < DIM; ++i) c[i] = 2 * b.x[i] + b.len ();
      X.assign (x, DIM, b.t, c, "cell");
      if (X.kids.count (x)) FAILK ("children", "cell %d has children", x);
      X.cell (b, x);
      count ("cells");
    }
    if (!X.bad) for (int x = 0; x < X.n; ++x) CHK (X.known[x], "unused-point", "point %d of dimension %d belongs to no cell and no parent", x, X.dimof (x));
    /* vertex coordinates */
    const double *co = (const double *) a[4]->array;
    int v0 = X.off[DIM];
    for (int x = v0; x < X.n && !X.bad; ++x) {
      if (!X.known[x]) continue;
      auto & tp = std::get<1> (X.key[x]);
      std::vector<TP> o; g.orbit (tp.t, tp.x, o);
      bool hit = false;
      for (auto & z : o) {
        double e[3] = { 0, 0, 0 };
        for (int k = 0; k < NC; ++k) {
          double w = 1; for (int i = 0; i < DIM; ++i) { double s = z.x[i] / (double) R2; w *= ((k >> i) & 1) ? s : 1 - s; }
          const double *vv = g.c->vertices + 3 * g.c->tree_to_vertex[NC * z.t + k];
          for (int i = 0; i < 3; ++i) e[i] += w * vv[i];
        }
        double d = 0, s = 1; for (int i = 0; i < 3; ++i) { d = std::max (d, std::abs (e[i] - co[3 * (x - v0) + i])); s = std::max (s, std::abs (e[i])); }
        if (d <= 1e-10 * s) hit = true;
      }
      CHK (hit, "coordinates", "vertex %d, %s, has coordinates (%g,%g,%g), which no tree gives it", x, X.name (X.key[x]).c_str (), co[3 * (x - v0)], co[3 * (x - v0) + 1], co[3 * (x - v0) + 2]);
      count ("vertices_placed");
    }
    /* between processes */
    bool anybad = allmax (X.bad || run.nfail_case ? 1 : 0, p->mpicomm);
    if (!anybad) {
      std::vector<Pub> mine (X.n);
      for (int x = 0; x < X.n; ++x) {
        Pub & u = mine[x]; memset (&u, 0, sizeof u);
        auto & tp = std::get<1> (X.key[x]);
        u.pt = x; u.dim = X.dimof (x); u.leaf = remote[x].first >= 0; u.rp = remote[x].first; u.ri = remote[x].second;
        u.t = tp.t; for (int i = 0; i < 3; ++i) { u.x[i] = tp.x[i]; u.c[i] = x >= v0 ? co[3 * (x - v0) + i] : 0; }
      }
      std::vector<int> cnt;
      std::vector<Pub> all = allgatherv (mine, p->mpicomm, &cnt);
      std::vector<i64> st (P + 1, 0); for (int q = 0; q < P; ++q) st[q + 1] = st[q] + cnt[q];
      for (int x = 0; x < X.n; ++x) {
        Pub & u = mine[x];
        if (!u.leaf) continue;
        if (u.ri >= cnt[u.rp]) { FAILK ("remote-range", "point %d refers to point %d of %d on process %d", x, u.ri, cnt[u.rp], u.rp); continue; }
        Pub & v = all[st[u.rp] + u.ri];
        CHK (v.dim == u.dim && v.t == u.t && !memcmp (v.x, u.x, sizeof u.x), "remote-place", "point %d, %s, refers to point %d of process %d, which is elsewhere (dimension %d, tree %lld)",
             x, X.name (X.key[x]).c_str (), u.ri, u.rp, v.dim, (long long) v.t);
        CHK (!v.leaf, "remote-owner", "point %d refers to process %d, which does not own it", x, u.rp);
        CHK (!memcmp (v.c, u.c, sizeof u.c), "remote-coordinates", "vertex %d has other coordinates on process %d", x, u.rp);
        count ("remotes_judged");
      }
      if (me == 0) {
        std::map<Key, int> own;
        for (auto & u : all) if (!u.leaf) {
          TP tp; tp.t = (int) u.t; for (int i = 0; i < 3; ++i) tp.x[i] = u.x[i];
          int k = ++own[Key (u.dim, tp)];
          CHK (k == 1, "owners", "%d processes own the same point, %s", k, X.name (Key (u.dim, tp)).c_str ());
        }
        gcount ("points", (long) own.size ());
      }
    }
  }
  for (int i = 0; i < 10; ++i) sc_array_destroy (a[i]);
  if (ln) p4est_lnodes_destroy (ln);
  if (gh) p4est_ghost_destroy (gh);
}

static void prop (Rng & r)
{
  std::string nm; ConnOpts co; co.max_trees = 7; co.want_vertices = true;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  Geo g; g.init (c);
  if (!conn_oracle_ok (g) || !c->vertices) { gcount ("cases_without_oracle"); p4est_connectivity_destroy (c); return; }
  ForestOpts fo; fo.target = DIM == 3 ? r.pick ({ 10, 40, 90 }) : r.pick ({ 10, 60, 150 }); fo.maxl = r.range (2, 5);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  p4est_balance (p, conn_type (r.below (2)), NULL);
  random_partition (r, p, true);
  GForest f = gather (p);
  std::vector<Adj> adj = adjacency (g, f, p->mpicomm);
  describe ("%s leaves %zu", nm.c_str (), f.q.size ());
  for (int k = 0; k < 2; ++k) {
    distinct_state (hcomb (hcomb (f.hash (true), conn_hash (c)), k));
    check_plex (r, p, g, f, adj);
    if (allmax (run.nfail_case, p->mpicomm)) break;
  }
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C29", prop)

/* C16: connectivities built or modified mean the intended domain. */
#include "core.hpp"
#include "connmodel.hpp"
#include <cmath>

namespace {

static void s_complete (Rng & r, p4est_connectivity_t * c0)
{
  Topo T0 = topo_of (c0), W;
  int nt = T0.nt;
  /* numbers of corner classes, shuffled */
  std::map<int, int> num; std::vector<int> v (nt * NC);
  for (int i = 0; i < nt * NC; ++i) num[T0.cf (i)] = 0;
  std::vector<int> ids; for (size_t i = 0; i < num.size (); ++i) ids.push_back ((int) i);
  for (size_t i = ids.size (); i > 1; --i) std::swap (ids[i - 1], ids[r.below (i)]);
  int k = 0; for (auto & p : num) p.second = ids[k++];
  for (int i = 0; i < nt * NC; ++i) v[i] = num[T0.cf (i)];
  /* sometimes tear a vertex or two apart */
  int nv = (int) num.size ();
  for (int j = r.below (3); j > 0; --j) { v[r.below (nt * NC)] = nv++; }
  std::vector<int> used (nv, 0); for (int x : v) used[x] = 1;
  for (int i = 0; i < nv; ++i) if (!used[i]) { for (auto & x : v) if (x > i) --x; used.erase (used.begin () + i); --nv; --i; }
  if (!implied (nt, v, W)) { count ("vertices_ambiguous"); return; }
  p4est_connectivity_t *c = from_vertices (nt, v, nv, NULL);
  if (r.chance (0.5)) {                 /* start from some other valid topology */
    for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) { c->tree_to_tree[t * NF + f] = c0->tree_to_tree[t * NF + f]; c->tree_to_face[t * NF + f] = c0->tree_to_face[t * NF + f]; }
  }
  p4est_connectivity_complete (c);
  bool ok = judge (c, &W, "completed");
  for (int i = 0; i < nt * NC; ++i) CHK (c->tree_to_vertex[i] == v[i], "completed-vertices", "tree %d corner %d", i / NC, i % NC);
  count ("completed");
  if (ok) {
    if (r.chance (0.5)) {
      p4est_connectivity_reduce (c);
      CHK (c->num_corners == 0 && c->tree_to_corner == NULL, "reduced", "corners remain");
#ifdef P4_TO_P8
      CHK (c->num_edges == 0 && c->tree_to_edge == NULL, "reduced", "edges remain");
#endif
      CHK (p4est_connectivity_is_valid (c), "reduced-valid", "reduced connectivity invalid");
      Topo R = topo_of (c);
      for (int i = 0; i < nt * NF; ++i) CHK (R.face[i] == W.face[i], "reduced-faces", "tree %d face %d", i / NF, i % NF);
      count ("reduced");
    }
    p4est_connectivity_complete (c);
    judge (c, &W, "completed-again");
  }
  p4est_connectivity_destroy (c);
}

static void s_permute (Rng & r, p4est_connectivity_t * c)
{
  int nt = c->num_trees;
  Topo T = topo_of (c), W; W.init (nt);
  std::vector<int> p (nt); for (int i = 0; i < nt; ++i) p[i] = i;
  for (int i = nt; i > 1; --i) std::swap (p[i - 1], p[r.below (i)]);    /* p[old] = new */
  int fwd = r.below (2);
  sc_array_t *a = sc_array_new_count (sizeof (size_t), nt);
  for (int i = 0; i < nt; ++i) *(size_t *) sc_array_index (a, fwd ? i : p[i]) = fwd ? p[i] : i;
  std::vector<int> v; if (c->num_vertices) v.assign (c->tree_to_vertex, c->tree_to_vertex + nt * NC);
  p4est_connectivity_permute (c, a, fwd);
  for (int i = 0; i < nt * NC; ++i) { int g = T.cf (i); W.corner (p[i / NC], i % NC, p[g / NC], g % NC); }
  for (int i = 0; NE && i < nt * NE; ++i) { int q, g = T.ef (i, q); W.edge (p[i / NE], i % NE, p[g / NE], g % NE, q); if (T.ebad[g]) W.ebad[W.ef (p[i / NE] * NE + i % NE, q)] = 1; }
  for (int i = 0; i < nt * NF; ++i) if (T.face[i].first >= 0) W.face[p[i / NF] * NF + i % NF] = {p[T.face[i].first], T.face[i].second};
  judge (c, &W, "permuted");
  for (size_t i = 0; i < v.size (); ++i) CHK (c->tree_to_vertex[p[i / NC] * NC + i % NC] == v[i], "permuted-vertices", "tree %zu corner %zu", i / NC, i % NC);
  count (v.empty () ? "permuted_without_vertices" : "permuted");
  sc_array_destroy (a);
}

/* glue trees of a target domain one face after the other, or random faces */
static void s_join (Rng & r, p4est_connectivity_t * c0, const std::string & name)
{
  Topo T0 = topo_of (c0);
  p4est_connectivity_t *c; Topo W;
  bool rebuild = r.chance (0.6);
  std::vector<std::array<int, 4>> todo;
  if (rebuild) {
    int nt = T0.nt, nv = r.chance (0.5) ? nt * NC : 0; std::vector<int> v; for (int i = 0; i < nt * NC; ++i) v.push_back (i);
    if (nv) c = from_vertices (nt, v, nv, NULL);
    else {
#ifdef P4_TO_P8
      c = p4est_connectivity_new (0, nt, 0, 0, 0, 0);
#else
      c = p4est_connectivity_new (0, nt, 0, 0);
#endif
      for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) { c->tree_to_tree[t * NF + f] = t; c->tree_to_face[t * NF + f] = (int8_t) f; }
    }
    for (int i = 0; i < nt * NF; ++i) if (T0.face[i].first >= 0 && i < T0.face[i].first * NF + T0.face[i].second % NF) {
      int u = T0.face[i].first, k = T0.face[i].second;
      if (r.chance (0.5)) todo.push_back ({i / NF, i % NF, u, k}); else todo.push_back ({u, k % NF, i / NF, i % NF + NF * (k / NF)});
    }
    for (size_t i = todo.size (); i > 1; --i) std::swap (todo[i - 1], todo[r.below (i)]);
  }
  else {
    c = p4est_connectivity_copy (c0, 0);
    std::vector<int> b; for (int i = 0; i < T0.nt * NF; ++i) if (T0.face[i].first < 0) b.push_back (i);
    for (int n = r.range (1, 3); n > 0 && b.size () >= 2; --n) {
      int i = r.below (b.size ()), x = b[i]; b.erase (b.begin () + i);
      int j = r.below (b.size ()), y = b[j]; b.erase (b.begin () + j);
      todo.push_back ({x / NF, x % NF, y / NF, y % NF + NF * r.below (NH)});
    }
  }
  W = topo_of (c);
  int n = 0;
  for (auto & j : todo) {
    Topo N = W; N.glue (j[0], j[1], j[2], j[3]);
    if (N.degenerate ()) { count ("joins_degenerate"); break; }
    p4est_connectivity_join_faces (c, j[0], j[2], j[1], j[3] % NF, j[3] / NF);
    W = N; ++n; count ("joins");
    char d[160]; snprintf (d, sizeof d, "%s %s join %d: tree %d face %d with tree %d code %d", name.c_str (), rebuild ? "rebuilt" : "as is", n, j[0], j[1], j[2], j[3]);
    run.desc = d;
    if (!judge (c, &W, "joined")) { n = -1; break; }
  }
  if (rebuild && n == (int) todo.size ()) count ("domains_rebuilt");
  p4est_connectivity_destroy (c);
}

static void s_refine (Rng & r, p4est_connectivity_t * c0)
{
  if (c0->num_vertices == 0) return;
  int nt = c0->num_trees, K = r.range (1, DIM == 2 ? 6 : 3), N = DIM == 2 ? K * K : K * K * K;
  if (nt * N > 400) return;
  /* subcells in curve order */
  std::vector<std::array<int, 3>> cell; std::map<std::array<int, 3>, int> id;
  int P = 1; while (P < K) P *= 2;
  for (int m = 0; m < (DIM == 2 ? P * P : P * P * P); ++m) {
    std::array<int, 3> x = {0, 0, 0};
    for (int b = 0; b < 8; ++b) for (int i = 0; i < DIM; ++i) x[i] |= ((m >> (DIM * b + i)) & 1) << b;
    if (x[0] < K && x[1] < K && x[2] < K) { id[x] = (int) cell.size (); cell.push_back (x); }
  }
  Topo T = topo_of (c0), W; W.init (nt * N);
  if (T.degenerate ()) return;
  for (int t = 0; t < nt; ++t) for (int s = 0; s < N; ++s) for (int f = 0; f < NF; ++f) {
    std::array<int, 3> y = cell[s]; y[f / 2] += (f & 1) ? 1 : -1;
    if (y[f / 2] >= 0 && y[f / 2] < K) { W.glue (t * N + s, f, t * N + id[y], f ^ 1); continue; }
    if (T.face[t * NF + f].first < 0) continue;
    int u = T.face[t * NF + f].first, code = T.face[t * NF + f].second;
    Xf m = face_xf (f, code % NF, code / NF);
    std::array<int, 3> z = {0, 0, 0};
    for (int i = 0; i < DIM; ++i) { i64 cx = 2 * y[i] + 1, o = m.off[m.to[i]] / R2 * 2 * K; z[m.to[i]] = (int) ((m.sg[i] * cx + o - 1) / 2); }
    W.glue (t * N + s, f, u * N + id[z], code);
  }
  auto at = [&] (int c) { std::array<int, 3> x = {0, 0, 0}; for (int i = 0; i < DIM; ++i) x[i] = ((c >> i) & 1) ? K - 1 : 0; return id[x]; };
  for (int i = 0; i < nt * NC; ++i) { int g = T.cf (i); W.corner (i / NC * N + at (i % NC), i % NC, g / NC * N + at (g % NC), g % NC); }
  for (int i = 0; NE && i < nt * NE; ++i) {
    int q, g = T.ef (i, q), e = i % NE, h = g % NE;
    for (int j = 0; j < K; ++j) {
      std::array<int, 3> x = cell[at (e_end (e, 0))], y = cell[at (e_end (h, 0))];
      x[e / 4] = j; y[h / 4] = q ? K - 1 - j : j;
      W.edge (i / NE * N + id[x], e, g / NE * N + id[y], h, q);
    }
  }
  std::vector<int> v; for (int i = 0; i < nt * N * NC; ++i) v.push_back (W.cf (i));
  Topo I; std::string why;
  if (!implied (nt * N, v, I) || !same (I, W, why)) { count ("refinement_ambiguous"); return; }
  p4est_connectivity_t *c = p4est_connectivity_refine (c0, K);
  if (judge (c, &W, "refined")) {
    /* vertices interpolate those of some tree that has them */
    std::map<int, std::vector<std::array<double, 3>>> pos;
    for (int i = 0; i < nt * N * NC; ++i) {
      int t = i / NC / N, s = i / NC % N, k = i % NC; std::array<double, 3> x = {0, 0, 0};
      for (int d = 0; d < NC; ++d) {
        double w = 1; for (int a = 0; a < DIM; ++a) { double e = (cell[s][a] + ((k >> a) & 1)) / (double) K; w *= ((d >> a) & 1) ? e : 1 - e; }
        for (int a = 0; a < 3; ++a) x[a] += w * c0->vertices[3 * c0->tree_to_vertex[t * NC + d] + a];
      }
      pos[v[i]].push_back (x);
    }
    for (int i = 0; i < nt * N * NC; ++i) {
      const double *y = c->vertices + 3 * c->tree_to_vertex[i]; bool ok = false;
      for (auto & x : pos[v[i]]) if (fabs (x[0] - y[0]) + fabs (x[1] - y[1]) + fabs (x[2] - y[2]) < 1e-9 * (1 + fabs (x[0]) + fabs (x[1]) + fabs (x[2]))) ok = true;
      CHK (ok, "refined-vertex", "tree %d corner %d lies at (%g %g %g)", i / NC, i % NC, y[0], y[1], y[2]);
    }
    count ("refined_trees", nt * N);
  }
  p4est_connectivity_destroy (c);
}

static void s_brick (Rng & r)
{
  int m[3] = {1, 1, 1}, per[3] = {0, 0, 0};
  for (int i = 0; i < DIM; ++i) { m[i] = r.range (1, DIM == 2 ? 9 : 5); per[i] = r.below (2); }
  describe ("brick %dx%dx%d periodic %d%d%d", m[0], m[1], m[2], per[0], per[1], per[2]);
#ifdef P4_TO_P8
  p4est_connectivity_t *c = p4est_connectivity_new_brick (m[0], m[1], m[2], per[0], per[1], per[2]);
#else
  p4est_connectivity_t *c = p4est_connectivity_new_brick (m[0], m[1], per[0], per[1]);
#endif
  int nt = m[0] * m[1] * m[2];
  CHK (c->num_trees == nt, "brick-trees", "%d", (int) c->num_trees);
  if (c->num_trees == nt) {
    /* positions from the vertices */
    std::map<std::array<int, 3>, int> at; std::vector<std::array<int, 3>> p (nt);
    bool ok = true;
    for (int t = 0; t < nt; ++t) for (int k = 0; k < NC; ++k) {
      std::array<int, 3> x = {0, 0, 0};
      for (int i = 0; i < 3; ++i) { double y = c->vertices[3 * c->tree_to_vertex[t * NC + k] + i]; x[i] = (int) y; if (y != x[i]) ok = false; if (i < DIM) x[i] -= (k >> i) & 1; }
      if (k == 0) { p[t] = x; if (at.count (x)) ok = false; at[x] = t; for (int i = 0; i < 3; ++i) if (x[i] < 0 || x[i] >= m[i]) ok = false; }
      else if (x != p[t]) ok = false;
    }
    CHK (ok, "brick-vertices", "the trees do not tile the brick");
    if (ok) {
      Topo W; W.init (nt);
      for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) {
        std::array<int, 3> x = p[t]; int a = f / 2; x[a] += (f & 1) ? 1 : -1;
        if (x[a] < 0 || x[a] >= m[a]) { if (!per[a]) continue; x[a] = (x[a] + m[a]) % m[a]; }
        W.glue (t, f, at[x], f ^ 1);
      }
      judge (c, &W, "brick");
      /* curve order: the closest power of two decides */
      for (int t = 1; t < nt; ++t) { u128 a = 0, b = 0; for (int k = 0; k < 8; ++k) for (int i = 0; i < DIM; ++i) { a |= (u128) ((p[t - 1][i] >> k) & 1) << (DIM * k + i); b |= (u128) ((p[t][i] >> k) & 1) << (DIM * k + i); } if (!(a < b)) { count ("brick_order_other"); break; } }
      count ("bricks");
    }
  }
  p4est_connectivity_destroy (c);
}

/* --------------------------------------------------------------- built-in */
struct Inv { int nt, bf, ec, cc, chi, orient, comps; };
static Inv invariants (p4est_connectivity_t * c)
{
  Topo T = topo_of (c); Inv v;
  v.nt = T.nt; v.bf = T.nbound (); v.ec = T.nclass_e (); v.cc = T.nclass_c ();
  int faces = (T.nt * NF - v.bf) / 2 + v.bf;
  v.chi = DIM == 2 ? v.cc - faces + v.nt : v.cc - v.ec + faces - v.nt;
  /* orientation and components by propagation across faces */
  std::vector<int> s (T.nt, 0); v.orient = 1; v.comps = 0;
  for (int a = 0; a < T.nt; ++a) if (!s[a]) {
    ++v.comps; s[a] = 1; std::vector<int> st (1, a);
    while (!st.empty ()) {
      int t = st.back (); st.pop_back ();
      for (int f = 0; f < NF; ++f) if (T.face[t * NF + f].first >= 0) {
        int u = T.face[t * NF + f].first, k = T.face[t * NF + f].second; Xf m = face_xf (f, k % NF, k / NF);
        int det = 1; for (int i = 0; i < DIM; ++i) { det *= m.sg[i]; for (int j = 0; j < i; ++j) if (m.to[j] > m.to[i]) det = -det; }
        if (!s[u]) { s[u] = s[t] * det; st.push_back (u); } else if (s[u] != s[t] * det) v.orient = 0;
      }
    }
  }
  return v;
}
struct Bi { const char *name; p4est_connectivity_t *(*make) (int); int arg; int vdef; Inv inv; };
#define MK(expr) [] (int) -> p4est_connectivity_t * { return expr; }
#define MKN(expr) [] (int n) -> p4est_connectivity_t * { (void) n; return expr; }
#include "conn_table.inc"
/* shapes of the built-in domains: sums over the corners of the trees of the spanned volume and of the lengths of the edges leaving it */
struct Shape { const char *name; int arg; double vol, len; };
#include "shape_table.inc"

static void s_builtin (Rng & r)
{
  int k = r.below (sizeof (builtins) / sizeof (builtins[0]));
  const Bi & b = builtins[k];
  p4est_connectivity_t *c = b.make (b.arg);
  describe ("%s(%d)", b.name, b.arg);
  judge (c, NULL, "builtin");
  Inv v = invariants (c);
  if (getenv ("VH_DUMP")) fprintf (stderr, "DUMP %s %d: {%d, %d, %d, %d, %d, %d, %d} nv %d\n", b.name, b.arg, v.nt, v.bf, v.ec, v.cc, v.chi, v.orient, v.comps, (int) c->num_vertices);
  CHK (memcmp (&v, &b.inv, sizeof v) == 0, "builtin-domain", "%d trees %d boundary faces %d edges %d corners chi %d orientable %d components %d", v.nt, v.bf, v.ec, v.cc, v.chi, v.orient, v.comps);
  if (b.vdef) {
    std::vector<int> w (c->tree_to_vertex, c->tree_to_vertex + c->num_trees * NC); Topo W;
    bool det = implied (c->num_trees, w, W);
    CHK (det, "builtin-vertices", "vertices do not determine the domain");
    if (det) { Topo T = topo_of (c); std::string why; CHK (same (T, W, why), "builtin-vertex-domain", "%s", why.c_str ()); count ("builtin_vertex_domains"); }
  }
  if (c->num_vertices) {
    /* the map given by the vertices is regular at every corner of every tree, and the vertices are distinct and used */
    std::vector<int> used (c->num_vertices, 0); double vol = 0, len = 0; bool regular = true;
    for (int t = 0; t < c->num_trees; ++t) {
      double mn = 1e300, mx = -1e300;
      for (int k = 0; k < NC; ++k) {
        const double *p = c->vertices + 3 * c->tree_to_vertex[t * NC + k]; double e[3][3] = { { 0 } }, m = 1;
        used[c->tree_to_vertex[t * NC + k]] = 1;
        for (int i = 0; i < DIM; ++i) { const double *q = c->vertices + 3 * c->tree_to_vertex[t * NC + (k ^ (1 << i))]; double l = 0; for (int a = 0; a < 3; ++a) { e[i][a] = (k >> i & 1 ? -1 : 1) * (q[a] - p[a]); l += e[i][a] * e[i][a]; } l = sqrt (l); len += l; m *= l; for (int a = 0; a < 3; ++a) e[i][a] /= l > 0 ? l : 1; }
        double n[3]; for (int a = 0; a < 3; ++a) n[a] = e[0][(a + 1) % 3] * e[1][(a + 2) % 3] - e[0][(a + 2) % 3] * e[1][(a + 1) % 3];
        double J = DIM == 2 ? sqrt (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) : n[0] * e[2][0] + n[1] * e[2][1] + n[2] * e[2][2];
        if (DIM == 2) { bool flat = true; for (int i = 0; i < c->num_vertices; ++i) flat = flat && c->vertices[3 * i + 2] == 0; if (flat) J = n[2]; }
        mn = std::min (mn, J); mx = std::max (mx, J); vol += m * fabs (J);
      }
      regular = regular && fabs (mn) > 0.1 && fabs (mx) > 0.1 && mn * mx > 0;
    }
    int un = 0, same = 0; for (int i = 0; i < c->num_vertices; ++i) { un += !used[i]; for (int j = 0; j < i; ++j) same += !memcmp (c->vertices + 3 * i, c->vertices + 3 * j, 24); }
    CHK (un == 0 && regular, "builtin-shape", "the vertices of %s: %d unused, trees are %s", b.name, un, regular ? "regular" : "degenerate");
    CHK (same == 0 || !strcmp (b.name, "sphere"), "builtin-shape", "two vertices of %s coincide", b.name);
    for (const Shape & w : shapes) if (!strcmp (w.name, b.name) && w.arg == b.arg) {
      CHK (fabs (vol - w.vol) < 1e-6 * w.vol && fabs (len - w.len) < 1e-6 * w.len, "builtin-shape", "%s has volume %.12g and edge length %.12g, expected %.12g and %.12g", b.name, vol, len, w.vol, w.len);
      count ("builtin_shapes");
    }
  }
  count ("builtins");
  /* by name */
  p4est_connectivity_t *d = p4est_connectivity_new_byname (b.name);
  if (d) { CHK (p4est_connectivity_is_equal (c, d), "by-name", "%s differs", b.name); p4est_connectivity_destroy (d); count ("by_name"); }
  CHK (p4est_connectivity_new_byname ("nonesuch") == NULL, "by-name", "an unknown name yields a connectivity");
  p4est_connectivity_destroy (c);
}

static void s_twotrees (Rng & r)
{
  int l = r.below (NF), q = r.below (NF), o = r.below (NH);
  describe ("twotrees(%d,%d,%d)", l, q, o);
  p4est_connectivity_t *c = p4est_connectivity_new_twotrees (l, q, o);
  Topo W; W.init (2); W.glue (0, l, 1, q + NF * o);
  if (!judge (c, NULL, "twotrees")) { p4est_connectivity_destroy (c); return; }
  Topo T = topo_of (c); std::string why;
  CHK (same (T, W, why), "twotrees-domain", "%s", why.c_str ());
  count ("twotrees");
  p4est_connectivity_destroy (c);
}

/* inconsistent tables must not be called valid */
static void s_invalid (Rng & r, p4est_connectivity_t * c)
{
  std::string why; int nt = c->num_trees;
  for (int rep = 0; rep < 4; ++rep) {
    p4est_connectivity_t *d = p4est_connectivity_copy (c, 0);
#ifdef P4EST_ENABLE_DEBUG
    int kind = r.pick ({0, 1, 2, 3, 4, 6, 7});   /* lists contradicting the faces fail an assertion */
    const bool debug = true;
#else
    int kind = r.below (9);
    const bool debug = false;
#endif
    bool done = true; char what[100] = "";
    if (kind < 2) { int i = r.below (nt * NF); int o = d->tree_to_tree[i]; d->tree_to_tree[i] = r.range (kind ? 0 : -1, kind ? nt - 1 : nt); done = d->tree_to_tree[i] != o; snprintf (what, sizeof what, "neighbour of tree %d face %d from %d to %d", i / NF, i % NF, o, (int) d->tree_to_tree[i]); }
    else if (kind < 4) { int i = r.below (nt * NF); int o = d->tree_to_face[i]; d->tree_to_face[i] = (int8_t) r.range (kind == 2 ? 0 : -1, kind == 2 ? NF * NH - 1 : NF * NH); done = d->tree_to_face[i] != o; snprintf (what, sizeof what, "face code of tree %d face %d from %d to %d", i / NF, i % NF, o, d->tree_to_face[i]); }
    else if (kind == 4 && d->num_corners) { int i = r.below (nt * NC); int o = d->tree_to_corner[i]; d->tree_to_corner[i] = debug ? r.pick ({-2, -7, (int) d->num_corners, (int) d->num_corners + 6}) : r.range (-1 - (int) r.below (2) * 5, d->num_corners - 1 + (int) r.below (2) * 5); done = d->tree_to_corner[i] != o; snprintf (what, sizeof what, "corner of tree %d corner %d from %d to %d", i / NC, i % NC, o, (int) d->tree_to_corner[i]); }
    else if (kind == 5 && d->num_corners) { int i = r.below (d->ctt_offset[d->num_corners]); if (r.chance (0.5)) d->corner_to_tree[i] = (d->corner_to_tree[i] + r.range (1, nt)) % (nt + 1); else d->corner_to_corner[i] ^= (int8_t) r.range (1, NC - 1); snprintf (what, sizeof what, "corner entry %d", i); }
    else if (kind == 6 && d->num_vertices) { int i = r.below (nt * NC); d->tree_to_vertex[i] = r.chance (0.5) ? -1 : d->num_vertices; snprintf (what, sizeof what, "vertex %d", i); }
#ifdef P4_TO_P8
    else if (kind == 7 && d->num_edges) { int i = r.below (nt * NE); int o = d->tree_to_edge[i]; d->tree_to_edge[i] = debug ? r.pick ({-2, -7, (int) d->num_edges, (int) d->num_edges + 6}) : r.range (-1 - (int) r.below (2) * 5, d->num_edges - 1 + (int) r.below (2) * 5); done = d->tree_to_edge[i] != o; snprintf (what, sizeof what, "edge of tree %d edge %d from %d to %d", i / NE, i % NE, o, (int) d->tree_to_edge[i]); }
    else if (kind == 8 && d->num_edges) { int i = r.below (d->ett_offset[d->num_edges]); if (r.chance (0.5)) d->edge_to_tree[i] = (d->edge_to_tree[i] + r.range (1, nt)) % (nt + 1); else d->edge_to_edge[i] = (int8_t) ((d->edge_to_edge[i] + r.range (1, 23)) % 24); snprintf (what, sizeof what, "edge entry %d", i); }
#endif
    else done = false;
    if (done && !tables_ok (d, why)) {
      CHK (!p4est_connectivity_is_valid (d), "invalid-accepted", "%s: %s", what, why.c_str ());
      count ("invalid_refused");
    }
    p4est_connectivity_destroy (d);
  }
}

static void prop (Rng & r)
{
  int k = r.below (10);
  if (k == 0) { s_brick (r); distinct_state (r.s); return; }
  if (k == 1) { s_builtin (r); return; }
  if (k == 2) { s_twotrees (r); return; }
  std::string name; ConnOpts co; co.max_trees = 10; co.want_vertices = k == 8;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  describe ("%s", name.c_str ());
  distinct_state (conn_hash (c));
  std::string why;
  CHK (tables_ok (c, why), "generated", "%s", why.c_str ());
  switch (k) {
  case 3: case 4: s_complete (r, c); break;
  case 5: s_permute (r, c); break;
  case 6: case 7: s_join (r, c, name); break;
  case 8: s_refine (r, c); break;
  default: s_invalid (r, c); break;
  }
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C16", prop)
}

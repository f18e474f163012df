/* identifications of tree faces, edges and corners, and checks of connectivity tables */
#pragma once
#include "core.hpp"
namespace {

static bool c_on_f (int c, int f) { return ((c >> (f / 2)) & 1) == (f & 1); }
static int e_end (int e, int k) { const Ent & n = entities ()[ent_edge0 + e]; int c = 0; for (int i = 0; i < 3; ++i) if (n.d[i] > 0 || (n.d[i] == 0 && k)) c |= 1 << i; return c; }
static int e_of (int a, int b) { for (int e = 0; e < NE; ++e) if ((e_end (e, 0) == a && e_end (e, 1) == b) || (e_end (e, 0) == b && e_end (e, 1) == a)) return e; return -1; }
static P3 c_pt (int c) { P3 x = {0, 0, 0}; for (int i = 0; i < DIM; ++i) x[i] = ((c >> i) & 1) ? R2 : 0; return x; }
static int c_img (const Xf & m, int c) { P3 y = m.map (c_pt (c)); int r = 0; for (int i = 0; i < DIM; ++i) r |= (y[i] == R2) << i; return r; }

/* identifications of the faces, edges and corners of a set of trees, closed under what they imply */
struct Topo
{
  int nt = 0;
  std::vector<std::pair<int, int>> face;        /* neighbour and code, or (-1,-1) */
  std::vector<int> cp, ep, er;                  /* union-find; parity towards parent */
  std::vector<char> ebad;
  void init (int n) { nt = n; face.assign (n * NF, {-1, -1}); cp.resize (n * NC); ep.resize (n * std::max (NE, 1)); er.assign (ep.size (), 0); ebad.assign (ep.size (), 0); for (size_t i = 0; i < cp.size (); ++i) cp[i] = (int) i; for (size_t i = 0; i < ep.size (); ++i) ep[i] = (int) i; }
  int cf (int i) { while (cp[i] != i) i = cp[i] = cp[cp[i]]; return i; }
  int ef (int i, int & par) { par = 0; while (ep[i] != i) { par ^= er[i]; i = ep[i]; } return i; }
  void corner (int t, int c, int u, int d) { int a = cf (t * NC + c), b = cf (u * NC + d); if (a > b) std::swap (a, b); cp[b] = a; }
  void edge (int t, int e, int u, int f, int rev)
  {
    int pa, pb, a = ef (t * NE + e, pa), b = ef (u * NE + f, pb), r = pa ^ pb ^ rev;
    if (a == b) { if (r) ebad[a] = 1; }
    else { if (a > b) std::swap (a, b); ep[b] = a; er[b] = r; ebad[a] |= ebad[b]; }
    for (int k = 0; k < 2; ++k) corner (t, e_end (e, k), u, e_end (f, k ^ rev));
  }
  void glue (int t, int f, int u, int code)
  {
    int nf = code % NF; Xf m = face_xf (f, nf, code / NF);
    face[t * NF + f] = {u, code}; face[u * NF + nf] = {t, f + NF * (code / NF)};
    for (int c = 0; c < NC; ++c) if (c_on_f (c, f)) corner (t, c, u, c_img (m, c));
    for (int e = 0; e < NE; ++e) if (c_on_f (e_end (e, 0), f) && c_on_f (e_end (e, 1), f)) {
      int a = c_img (m, e_end (e, 0)), b = c_img (m, e_end (e, 1));
      edge (t, e, u, e_of (a, b), a > b);
    }
  }
  bool degenerate () { for (size_t i = 0; i < ebad.size (); ++i) if (ebad[i]) return true; return false; }
  int nclass_c () { std::set<int> s; for (size_t i = 0; i < cp.size (); ++i) s.insert (cf ((int) i)); return (int) s.size (); }
  int nclass_e () { if (!NE) return 0; std::set<int> s; int p; for (size_t i = 0; i < ep.size (); ++i) s.insert (ef ((int) i, p)); return (int) s.size (); }
  int nbound () { int n = 0; for (auto & f : face) n += f.first < 0; return n; }
};
static bool same (Topo & a, Topo & b, std::string & why)
{
  char s[200];
  if (a.nt != b.nt) { why = "different number of trees"; return false; }
  for (size_t i = 0; i < a.face.size (); ++i) if (a.face[i] != b.face[i]) { snprintf (s, sizeof s, "tree %zu face %zu leads to tree %d code %d, expected tree %d code %d", i / NF, i % NF, a.face[i].first, a.face[i].second, b.face[i].first, b.face[i].second); why = s; return false; }
  for (size_t i = 0; NE && i < a.ep.size (); ++i) {
    int p, q, x = a.ef ((int) i, p), y = b.ef ((int) i, q);
    /* labels are smallest members, so equal partitions have equal labels */
    if (x != y || (p != q && !b.ebad[y]) || a.ebad[x] != b.ebad[y]) { snprintf (s, sizeof s, "tree %zu edge %zu is joined with tree %d edge %d flip %d, expected tree %d edge %d flip %d", i / NE, i % NE, x / NE, x % NE, p, y / NE, y % NE, q); why = s; return false; }
  }
  for (size_t i = 0; i < a.cp.size (); ++i) if (a.cf ((int) i) != b.cf ((int) i)) { snprintf (s, sizeof s, "tree %zu corner %zu is joined with tree %d corner %d, expected tree %d corner %d", i / NC, i % NC, a.cf ((int) i) / NC, a.cf ((int) i) % NC, b.cf ((int) i) / NC, b.cf ((int) i) % NC); why = s; return false; }
  return true;
}
/* are all tables of the right shape and mutually consistent */
static bool tables_ok (p4est_connectivity_t * c, std::string & why)
{
  char s[200];
#define NO(...) do { snprintf (s, sizeof s, __VA_ARGS__); why = s; return false; } while (0)
  int nt = c->num_trees;
  if (nt < 1 || c->num_vertices < 0) NO ("counts");
  if ((c->num_vertices > 0) != (c->vertices != NULL) || (c->num_vertices > 0) != (c->tree_to_vertex != NULL)) NO ("vertex arrays");
  if (c->num_vertices) for (int i = 0; i < nt * NC; ++i) if (c->tree_to_vertex[i] < 0 || c->tree_to_vertex[i] >= c->num_vertices) NO ("vertex %d of tree %d is %d", i % NC, i / NC, (int) c->tree_to_vertex[i]);
  for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) {
    int u = c->tree_to_tree[t * NF + f], k = c->tree_to_face[t * NF + f];
    if (u < 0 || u >= nt || k < 0 || k >= NF * NH) NO ("tree %d face %d leads to %d %d", t, f, u, k);
    if (u == t && k % NF == f) { if (k != f) NO ("tree %d face %d joins itself", t, f); continue; }
    int v = c->tree_to_tree[u * NF + k % NF], b = c->tree_to_face[u * NF + k % NF];
    if (v != t || b % NF != f) NO ("tree %d face %d leads to %d %d but back to %d %d", t, f, u, k, v, b);
    Xf x = xf_inverse (face_xf (f, k % NF, k / NF)), y = face_xf (k % NF, f, b / NF);
    for (int j = 0; j < NC; ++j) if (x.map (c_pt (j)) != y.map (c_pt (j))) NO ("tree %d face %d orientation differs from the other side", t, f);
  }
  if (c->num_corners < 0 || c->ctt_offset == NULL || c->ctt_offset[0] != 0) NO ("corner offsets");
  if (c->num_corners > 0) {
    for (int g = 0; g < c->num_corners; ++g) {
      if (c->ctt_offset[g + 1] < c->ctt_offset[g]) NO ("corner offset %d", g);
      std::set<std::pair<int, int>> seen;
      for (int i = c->ctt_offset[g]; i < c->ctt_offset[g + 1]; ++i) {
        int u = c->corner_to_tree[i], k = c->corner_to_corner[i];
        if (u < 0 || u >= nt || k < 0 || k >= NC) NO ("corner entry %d", i);
        if (c->tree_to_corner[u * NC + k] != g) NO ("corner %d lists tree %d corner %d that says %d", g, u, k, (int) c->tree_to_corner[u * NC + k]);
        if (!seen.insert ({u, k}).second) NO ("corner %d lists tree %d corner %d twice", g, u, k);
      }
    }
    for (int i = 0; i < nt * NC; ++i) {
      int g = c->tree_to_corner[i]; if (g == -1) continue;
      if (g < -1 || g >= c->num_corners) NO ("tree %d corner %d is %d", i / NC, i % NC, g);
      bool f = false; for (int j = c->ctt_offset[g]; j < c->ctt_offset[g + 1]; ++j) f |= c->corner_to_tree[j] == i / NC && c->corner_to_corner[j] == i % NC;
      if (!f) NO ("tree %d corner %d not listed in corner %d", i / NC, i % NC, g);
    }
  }
#ifdef P4_TO_P8
  if (c->num_edges < 0 || c->ett_offset == NULL || c->ett_offset[0] != 0) NO ("edge offsets");
  if (c->num_edges > 0) {
    for (int g = 0; g < c->num_edges; ++g) {
      if (c->ett_offset[g + 1] < c->ett_offset[g]) NO ("edge offset %d", g);
      std::set<std::pair<int, int>> seen;
      for (int i = c->ett_offset[g]; i < c->ett_offset[g + 1]; ++i) {
        int u = c->edge_to_tree[i], k = c->edge_to_edge[i];
        if (u < 0 || u >= nt || k < 0 || k >= 24) NO ("edge entry %d", i);
        if (c->tree_to_edge[u * NE + k % 12] != g) NO ("edge %d lists tree %d edge %d that says %d", g, u, k, (int) c->tree_to_edge[u * NE + k % 12]);
        if (!seen.insert ({u, k}).second) NO ("edge %d lists tree %d edge %d twice", g, u, k);
      }
    }
    for (int i = 0; i < nt * NE; ++i) {
      int g = c->tree_to_edge[i]; if (g == -1) continue;
      if (g < -1 || g >= c->num_edges) NO ("tree %d edge %d is %d", i / NE, i % NE, g);
      bool f = false; for (int j = c->ett_offset[g]; j < c->ett_offset[g + 1]; ++j) f |= c->edge_to_tree[j] == i / NE && c->edge_to_edge[j] % 12 == i % NE;
      if (!f) NO ("tree %d edge %d not listed in edge %d", i / NE, i % NE, g);
    }
  }
#endif
  return true;
#undef NO
}
static Topo topo_of (p4est_connectivity_t * c)
{
  Topo T; T.init (c->num_trees);
  for (int t = 0; t < c->num_trees; ++t) for (int f = 0; f < NF; ++f) {
    int u = c->tree_to_tree[t * NF + f], k = c->tree_to_face[t * NF + f];
    if (!(u == t && k == f)) { T.glue (t, f, u, k); T.face[t * NF + f] = {u, k}; }
  }
  for (int g = 0; g < c->num_corners; ++g) for (int i = c->ctt_offset[g] + 1; i < c->ctt_offset[g + 1]; ++i) T.corner (c->corner_to_tree[i - 1], c->corner_to_corner[i - 1], c->corner_to_tree[i], c->corner_to_corner[i]);
#ifdef P4_TO_P8
  for (int g = 0; g < c->num_edges; ++g) for (int i = c->ett_offset[g] + 1; i < c->ett_offset[g + 1]; ++i) T.edge (c->edge_to_tree[i - 1], c->edge_to_edge[i - 1] % 12, c->edge_to_tree[i], c->edge_to_edge[i] % 12, c->edge_to_edge[i - 1] / 12 != c->edge_to_edge[i] / 12);
#endif
  return T;
}
/* everything a connectivity must satisfy; want may be NULL */
static bool judge (p4est_connectivity_t * c, Topo * want, const char *what)
{
  std::string why;
  bool ok = tables_ok (c, why);
  char key[80]; snprintf (key, sizeof key, "%s-tables", what);
  CHK (ok, key, "%s", why.c_str ());
  if (!ok) return false;
  snprintf (key, sizeof key, "%s-valid", what);
  CHK (p4est_connectivity_is_valid (c), key, "consistent tables are called invalid");
  if (want) {
    Topo T = topo_of (c);
    snprintf (key, sizeof key, "%s-domain", what);
    bool s = same (T, *want, why);
    CHK (s, key, "%s", why.c_str ());
    if (!s) return false;
    if (want->degenerate ()) { count ("degenerate"); return true; }
  }
  Geo g; g.init (c);
  snprintf (key, sizeof key, "%s-complete", what);
  bool cl = conn_oracle_ok (g);
  if (!want) { Topo T = topo_of (c); if (T.degenerate ()) { count ("degenerate"); return true; } }
  CHK (cl, key, "some tree edge or corner does not know all trees around it");
  count ("connectivities_judged");
  return cl;
}

/* --------------------------------------------------------------- vertices */
/* the identifications implied by vertex numbers; false if they do not determine them */
static bool implied (int nt, const std::vector<int> & v, Topo & T)
{
  T.init (nt);
  std::map<std::vector<int>, std::vector<std::pair<int, int>>> fm;
  for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) {
    std::vector<int> s; for (int c = 0; c < NC; ++c) if (c_on_f (c, f)) s.push_back (v[t * NC + c]);
    std::sort (s.begin (), s.end ());
    if (std::unique (s.begin (), s.end ()) != s.end ()) return false;
    auto & l = fm[s]; l.push_back ({t, f});
    if (l.size () > 2) return false;
  }
  for (auto & p : fm) if (p.second.size () == 2) {
    int t = p.second[0].first, f = p.second[0].second, u = p.second[1].first, n = p.second[1].second, found = -1;
    for (int o = 0; o < NH; ++o) {
      Xf m = face_xf (f, n, o); bool ok = true;
      for (int c = 0; c < NC; ++c) if (c_on_f (c, f) && v[t * NC + c] != v[u * NC + c_img (m, c)]) ok = false;
      if (ok) found = o;
    }
    if (found < 0) return false;
    T.glue (t, f, u, n + NF * found);
  }
  std::map<std::pair<int, int>, std::pair<int, int>> em;
  for (int t = 0; t < nt; ++t) for (int e = 0; e < NE; ++e) {
    int a = v[t * NC + e_end (e, 0)], b = v[t * NC + e_end (e, 1)];
    if (a == b) return false;
    auto k = std::make_pair (std::min (a, b), std::max (a, b));
    auto it = em.find (k);
    if (it == em.end ()) em[k] = {t, e};
    else { int u = it->second.first, g = it->second.second; T.edge (u, g, t, e, v[u * NC + e_end (g, 0)] != a); }
  }
  std::map<int, std::pair<int, int>> cm;
  for (int t = 0; t < nt; ++t) for (int c = 0; c < NC; ++c) {
    auto it = cm.find (v[t * NC + c]);
    if (it == cm.end ()) cm[v[t * NC + c]] = {t, c}; else T.corner (it->second.first, it->second.second, t, c);
  }
  return true;
}
static p4est_connectivity_t *from_vertices (int nt, const std::vector<int> & v, int nv, const std::vector<double> * xyz)
{
#ifdef P4_TO_P8
  p4est_connectivity_t *c = p4est_connectivity_new (nv, nt, 0, 0, 0, 0);
#else
  p4est_connectivity_t *c = p4est_connectivity_new (nv, nt, 0, 0);
#endif
  for (int i = 0; i < 3 * nv; ++i) c->vertices[i] = xyz ? (*xyz)[i] : 0.25 * i;
  for (int i = 0; i < nt * NC; ++i) c->tree_to_vertex[i] = v[i];
  for (int t = 0; t < nt; ++t) for (int f = 0; f < NF; ++f) { c->tree_to_tree[t * NF + f] = t; c->tree_to_face[t * NF + f] = (int8_t) f; }
  return c;
}

}

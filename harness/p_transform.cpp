/* C18: transformations between trees against the geometric gluing of the domain. */
#include "core.hpp"

namespace {

typedef std::vector<Ent> VE;
static P3 corner2 (int c) { P3 x = {0, 0, 0}; for (int i = 0; i < DIM; ++i) x[i] = ((c >> i) & 1) ? R2 : 0; return x; }
static int corner_of2 (const P3 & x) { int c = 0; for (int i = 0; i < DIM; ++i) { if (x[i] != 0 && x[i] != R2) return -1; c |= (x[i] == R2) << i; } return c; }
static Ent edge_ent (int e) { return entities ()[ent_edge0 + e]; }
static int edge_at (const int * side) { for (int e = 0; e < NE; ++e) { Ent n = edge_ent (e); bool s = true; for (int i = 0; i < 3; ++i) if (n.d[i] != side[i]) s = false; if (s) return e; } return -1; }
static bool corner_on_face (int c, int f) { return ((c >> (f / 2)) & 1) == (f & 1); }
static bool edge_on_face (int e, int f) { return edge_ent (e).d[f / 2] == ((f & 1) ? 1 : -1); }
static bool corner_on_edge (int c, int e) { Ent n = edge_ent (e); for (int i = 0; i < 3; ++i) if (n.d[i] && ((c >> i) & 1) != (n.d[i] > 0)) return false; return true; }
template <class F> static std::vector<int> sel (int n, F f) { std::vector<int> v; for (int i = 0; i < n; ++i) if (f (i)) v.push_back (i); return v; }
static int pos (const std::vector<int> & v, int x) { for (size_t i = 0; i < v.size (); ++i) if (v[i] == x) return (int) i; return -1; }
static int insul (const int * d) { int s = 0, m = 1; for (int i = 0; i < DIM; ++i) { s += (d[i] + 1) * m; m *= 3; } return s; }

/* the numbering conventions and the orientation arithmetic, exhaustively */
static void tables ()
{
  long n = 0;
#define T(x, y, what) do { ++n; int a_ = (x), b_ = (y); CHK (a_ == b_, "table", "%s is %d not %d", what, a_, b_); } while (0)
  int z[3] = {0, 0, 0};
  T (p4est_volume_point, insul (z), "volume point");
  for (int f = 0; f < NF; ++f) {
    std::vector<int> fc = sel (NC, [f] (int c) { return corner_on_face (c, f); });
    for (int i = 0; i < NH; ++i) T (p4est_face_corners[f][i], fc[i], "face corner");
    T (p4est_face_dual[f], f ^ 1, "opposite face");
    T (p4est_face_points[f], insul (entities ()[ent_face0 + f].d), "face point");
    for (int c = 0; c < NC; ++c) T (p4est_corner_face_corners[c][f], pos (fc, c), "corner's face corner");
#ifdef P4_TO_P8
    std::vector<int> fe = sel (NE, [f] (int e) { return edge_on_face (e, f); });
    for (int i = 0; i < 4; ++i) T (p8est_face_edges[f][i], fe[i], "face edge");
    for (int e = 0; e < NE; ++e) {
      T (p8est_edge_face_edges[e][f], pos (fe, e), "edge's face edge");
      std::vector<int> ec = sel (NC, [e] (int c) { return corner_on_edge (c, e); });
      for (int k = 0; k < 2; ++k) T (p8est_edge_face_corners[e][f][k], pos (fe, e) < 0 ? -1 : pos (fc, ec[k]), "edge's face corner");
    }
#endif
    for (int nf = 0; nf < NF; ++nf) for (int o = 0; o < NH; ++o) {
      Xf x = face_xf (f, nf, o);
      std::vector<int> nfc = sel (NC, [nf] (int c) { return corner_on_face (c, nf); });
      for (int i = 0; i < NH; ++i) {
        int nc = corner_of2 (x.map (corner2 (fc[i])));
        T (p4est_connectivity_face_neighbor_corner (fc[i], f, nf, o), nc, "corner across a face");
        T (p4est_connectivity_face_neighbor_face_corner (i, f, nf, o), pos (nfc, nc), "face corner across a face");
#ifdef P4_TO_P8
        int set = p8est_face_permutation_sets[p8est_face_permutation_refs[f][nf]][o];
        T (p8est_connectivity_face_neighbor_corner_set (fc[i], f, nf, set), nc, "corner across a face by set");
#endif
      }
#ifdef P4_TO_P8
      std::vector<int> nfe = sel (NE, [nf] (int e) { return edge_on_face (e, nf); });
      for (int i = 0; i < 4; ++i) {
        P3 m; Ent en = edge_ent (fe[i]);
        for (int k = 0; k < 3; ++k) m[k] = en.d[k] < 0 ? 0 : en.d[k] > 0 ? R2 : RL;
        m = x.map (m);
        int side[3]; for (int k = 0; k < 3; ++k) side[k] = m[k] == 0 ? -1 : m[k] == R2 ? 1 : 0;
        int ne = edge_at (side);
        T (p8est_connectivity_face_neighbor_edge (fe[i], f, nf, o), ne, "edge across a face");
        T (p8est_connectivity_face_neighbor_face_edge (i, f, nf, o), pos (nfe, ne), "face edge across a face");
      }
#endif
      /* the transform itself */
      int ft[9];
      p4est_expand_face_transform (f, nf + NF * o, ft);
      P3 a = {0, 0, 0}; p4est_qcoord_t in[3], out[3] = {0, 0, 0};
      for (int k = 0; k < DIM; ++k) a[k] = k == f / 2 ? ((f & 1) ? R2 : 0) : 2 * (5 + 3 * k);
      for (int k = 0; k < 3; ++k) in[k] = (p4est_qcoord_t) (a[k] / 2);
      p4est_coordinates_transform_face (in, out, ft);
      P3 b = x.map (a);
      for (int k = 0; k < DIM; ++k) T (out[k], (int) (b[k] / 2), "transformed coordinate");
    }
  }
  for (int c = 0; c < NC; ++c) {
    int d[3] = {0, 0, 0}; for (int i = 0; i < DIM; ++i) d[i] = ((c >> i) & 1) ? 1 : -1;
    T (p4est_corner_points[c], insul (d), "corner point");
    for (int i = 0; i < DIM; ++i) T (p4est_corner_faces[c][i], 2 * i + ((c >> i) & 1), "corner face");
    for (int j = 0; j < NC; ++j) {
      /* the face of dimension DIM - 1 with both corners at opposite ends */
      int x = c ^ j, fa = -1;
      if (__builtin_popcount (x) == DIM - 1) for (int f = 0; f < NF; ++f) if (corner_on_face (c, f) && corner_on_face (j, f)) fa = f;
      T (p4est_child_corner_faces[c][j], fa, "child corner face");
#ifdef P4_TO_P8
      int ed = -1;
      if (__builtin_popcount (x) == 1) for (int e = 0; e < NE; ++e) if (corner_on_edge (c, e) && corner_on_edge (j, e)) ed = e;
      T (p8est_child_corner_edges[c][j], ed, "child corner edge");
#endif
    }
#ifdef P4_TO_P8
    std::vector<int> ce = sel (NE, [c] (int e) { return corner_on_edge (c, e); });
    for (int i = 0; i < 3; ++i) T (p8est_corner_edges[c][i], ce[i], "corner edge");
    for (int e = 0; e < NE; ++e) {
      std::vector<int> ec = sel (NC, [e] (int k) { return corner_on_edge (k, e); });
      T (p8est_edge_edge_corners[e][c], pos (ec, c), "edge's edge corner");
      T (p8est_corner_edge_corners[c][e], pos (ec, c), "corner's edge corner");
      std::vector<int> ef = sel (NF, [e] (int f) { return edge_on_face (e, f); });
      int tch = -1, nt = 0;
      for (int f : ef) if (corner_on_face (c, f)) { tch = f; ++nt; }
      T (p8est_child_edge_faces[c][e], nt == 1 ? tch : -1, "child edge face");
    }
#endif
  }
#ifdef P4_TO_P8
  for (int e = 0; e < NE; ++e) {
    std::vector<int> ec = sel (NC, [e] (int k) { return corner_on_edge (k, e); });
    std::vector<int> ef = sel (NF, [e] (int f) { return edge_on_face (e, f); });
    for (int k = 0; k < 2; ++k) { T (p8est_edge_corners[e][k], ec[k], "edge corner"); T (p8est_edge_faces[e][k], ef[k], "edge face"); }
    T (p8est_edge_points[e], insul (edge_ent (e).d), "edge point");
    for (int ne = 0; ne < NE; ++ne) for (int o = 0; o < 2; ++o) for (int k = 0; k < 2; ++k) {
      std::vector<int> nec = sel (NC, [ne] (int j) { return corner_on_edge (j, ne); });
      T (p8est_connectivity_edge_neighbor_corner (ec[k], e, ne, o), nec[k ^ o], "corner across an edge");
      T (p8est_connectivity_edge_neighbor_edge_corner (k, o), k ^ o, "edge corner across an edge");
    }
  }
#endif
  count ("table_entries", n);
#undef T
}

static p4est_quadrant_t mkq (const i64 * x, int l)
{
  p4est_quadrant_t q; memset (&q, -1, sizeof (q)); P4EST_QUADRANT_INIT (&q);
  q.x = (p4est_qcoord_t) x[0]; q.y = (p4est_qcoord_t) x[1];
#ifdef P4_TO_P8
  q.z = (p4est_qcoord_t) x[2];
#endif
  q.level = (int8_t) l;
  return q;
}
static P3 qpos (const p4est_quadrant_t * q)
{
  P3 p = {q->x, q->y, 0};
#ifdef P4_TO_P8
  p[2] = q->z;
#endif
  return p;
}
struct Box { P3 x; int l; bool operator== (const Box & o) const { return x == o.x && l == o.l; } };
static i64 qlen (int l) { return l == ML ? 0 : (i64) 1 << (ML - l); }
/* image of a cube, or point at maximum level, under an affine map */
static Box map_box (const Xf & a, const P3 & x, int l)
{
  i64 h = qlen (l);
  P3 lo = {2 * x[0], 2 * x[1], 2 * x[2]}, hi = {2 * (x[0] + h), 2 * (x[1] + h), DIM == 3 ? 2 * (x[2] + h) : 0};
  P3 u = a.map (lo), v = a.map (hi);
  Box b; b.l = l;
  for (int i = 0; i < 3; ++i) b.x[i] = i < DIM ? std::min (u[i], v[i]) / 2 : 0;
  return b;
}
static std::string bs (const P3 & x, int l) { char s[120]; snprintf (s, sizeof s, "(%lld %lld %lld l%d)", (long long) x[0], (long long) x[1], (long long) x[2], l); return s; }

/* tree neighbours beyond an entity of a tree, as images of one of its points; without those reached across
 * the faces (and, for a corner, the edges) around it */
static std::vector<TP> beyond (const Geo & g, int t, const P3 & m, const Ent & en)
{
  std::vector<TP> o, drop; g.orbit (t, m, o);
  drop.push_back (TP{t, m});
  for (int i = 0; i < DIM; ++i) if (en.d[i]) {
    int f = 2 * i + (en.d[i] > 0);
    if (!g.fb[t * NF + f]) drop.push_back (TP{(int) g.c->tree_to_tree[t * NF + f], g.fx[t * NF + f].map (m)});
  }
#ifdef P4_TO_P8
  if (en.dim == 0) for (int e = 0; e < NE; ++e) {
    Ent ee = edge_ent (e); bool on = true;
    for (int i = 0; i < 3; ++i) if (ee.d[i] && ee.d[i] != en.d[i]) on = false;
    if (!on) continue;
    /* a point on the edge near the corner has the images that the edge has */
    P3 y = m; int ax = e / 4; y[ax] = m[ax] == 0 ? 1 : R2 - 1;
    std::vector<TP> eo; g.orbit (t, y, eo);
    for (auto & p : eo) {
      TP c = p;
      for (int i = 0; i < 3; ++i) { if (c.x[i] == 1) c.x[i] = 0; if (c.x[i] == R2 - 1) c.x[i] = R2; }
      drop.push_back (c);
    }
  }
#endif
  std::vector<TP> r;
  for (auto & p : o) if (std::find (drop.begin (), drop.end (), p) == drop.end ()) r.push_back (p);
  return r;
}

struct Img { int t; P3 x; int idx; bool operator< (const Img & o) const { return std::tie (t, x, idx) < std::tie (o.t, o.x, o.idx); }
             bool operator== (const Img & o) const { return t == o.t && x == o.x && idx == o.idx; } };
static std::string is (const std::vector<Img> & v) { std::string s; char b[120]; for (auto & i : v) { snprintf (b, sizeof b, " t%d(%lld %lld %lld)#%d", i.t, (long long) i.x[0], (long long) i.x[1], (long long) i.x[2], i.idx); s += b; } return s; }

/* expected neighbours of a quadrant across one of its entities; idx: number of the entity of the neighbour that is shared */
static std::vector<Img> expected (const Geo & g, int t, const P3 & x, int l, const Ent & en)
{
  i64 h = qlen (l);
  P3 y = {0, 0, 0}; Ent out; int nout = 0;
  for (int i = 0; i < 3; ++i) out.d[i] = 0;
  for (int i = 0; i < DIM; ++i) { y[i] = x[i] + en.d[i] * h; if (y[i] < 0) { out.d[i] = -1; ++nout; } else if (y[i] >= RL) { out.d[i] = 1; ++nout; } }
  out.dim = DIM - nout;
  std::vector<Img> r;
  /* points of the shared entity (doubled), as two near its ends along the free direction */
  P3 a = {0, 0, 0}, b = {0, 0, 0};
  for (int i = 0; i < DIM; ++i) { i64 lo = 2 * x[i]; a[i] = en.d[i] < 0 ? lo : en.d[i] > 0 ? lo + 2 * h : lo + 1; b[i] = en.d[i] ? a[i] : lo + 2 * h - 1; }
  auto index = [&] (const P3 & nx, const P3 & na, const P3 & nb) {
    /* entity of the cube at nx holding na..nb */
    int side[3] = {0, 0, 0};
    for (int i = 0; i < DIM; ++i) if (na[i] == nb[i]) side[i] = na[i] == 2 * nx[i] ? -1 : na[i] == 2 * (nx[i] + h) ? 1 : 5;
    for (size_t k = 0; k < entities ().size (); ++k) { const Ent & e = entities ()[k]; if (e.d[0] == side[0] && e.d[1] == side[1] && e.d[2] == side[2]) {
      if (e.dim == 0) return (int) k - ent_corner0;
      if (DIM == 3 && e.dim == 1) { int ax = ((int) k - ent_edge0) / 4; return (int) k - ent_edge0 + (na[ax] > nb[ax] ? 12 : 0); }
      return (int) k - ent_face0; } }
    return -77;
  };
  if (nout == 0) { r.push_back (Img{t, y, index (y, a, b)}); return r; }
  if (nout == 1) {
    int f = 0; for (int i = 0; i < DIM; ++i) if (out.d[i]) f = 2 * i + (out.d[i] > 0);
    if (g.fb[t * NF + f]) return r;
    const Xf & m = g.fx[t * NF + f];
    Box nb = map_box (m, y, l);
    r.push_back (Img{(int) g.c->tree_to_tree[t * NF + f], nb.x, index (nb.x, m.map (a), m.map (b))});
    return r;
  }
  /* beyond an edge or corner of the tree: two points of it, then the quadrant inside the other trees along their images */
  P3 p = {0, 0, 0}, q = {0, 0, 0};
  for (int i = 0; i < DIM; ++i) { if (out.d[i]) p[i] = q[i] = out.d[i] < 0 ? 0 : R2; else { p[i] = 2 * y[i] + 1; q[i] = en.d[i] ? p[i] : 2 * (y[i] + h) - 1; } }
  std::vector<TP> ps = beyond (g, t, p, out);
  for (auto & w : ps) {
    P3 nx = {0, 0, 0}; bool rev = false; int ax = -1;
    for (int i = 0; i < DIM; ++i) {
      if (w.x[i] == 0) nx[i] = 0; else if (w.x[i] == R2) nx[i] = RL - h;
      else { nx[i] = (w.x[i] / 2) / h * h; rev = w.x[i] - 2 * nx[i] != 1; ax = i; }
    }
    P3 na = w.x, nb = w.x;
    if (out.dim == 0) ;                                 /* the tree corner itself */
    else if (en.dim == 0) {
      /* the shared corner lies at the end of the neighbour's segment nearer the original quadrant */
      int fa = 0; for (int i = 0; i < DIM; ++i) if (!out.d[i]) fa = i;
      bool low = en.d[fa] > 0;                          /* y lies above x: the low end of y is shared */
      na[ax] = nb[ax] = (low != rev) ? 2 * nx[ax] : 2 * (nx[ax] + h);
    }
    else { na[ax] = rev ? 2 * (nx[ax] + h) - 1 : 2 * nx[ax] + 1; nb[ax] = rev ? 2 * nx[ax] + 1 : 2 * (nx[ax] + h) - 1; }
    r.push_back (Img{w.t, nx, index (nx, na, nb)});
  }
  std::sort (r.begin (), r.end ());
  return r;
}

static void neighbours (Rng & r, const Geo & g, int t, const P3 & x, int l)
{
  p4est_quadrant_t q = mkq (x.data (), l), n;
  i64 h = qlen (l);
  for (int f = 0; f < NF; ++f) {
    std::vector<Img> ex = expected (g, t, x, l, entities ()[ent_face0 + f]);
    int nface = -99; bool alias = r.chance (0.2), getf = r.chance (0.8);
    n = mkq (x.data (), l);
    p4est_quadrant_t *res = &n; const p4est_quadrant_t *src = alias ? &n : &q;
    int u = (int) p4est_quadrant_face_neighbor_extra (src, t, f, res, getf ? &nface : NULL, g.c);
    if (ex.empty ()) {
      CHK (u == -1 && (!getf || nface == -1), "face-neighbour-exists", "%s tree %d face %d: tree %d face %d", bs (x, l).c_str (), t, f, u, nface);
      count ("no_neighbour");
      if (!alias) CHK (qpos (&n) == x && n.level == l, "face-neighbour-changed", "no neighbour, but the output quadrant is not the input");
    }
    else {
      int face = ex[0].idx, code = face;
      bool acr = !(x[f / 2] + ((f & 1) ? h : -h) >= 0 && x[f / 2] + ((f & 1) ? h : -h) < RL);
      if (acr) code = g.c->tree_to_face[t * NF + f];
      CHK (u == ex[0].t && qpos (&n) == ex[0].x && n.level == l, "face-neighbour", "%s tree %d face %d: tree %d %s expected%s", bs (x, l).c_str (), t, f, u, bs (qpos (&n), n.level).c_str (), is (ex).c_str ());
      if (getf) CHK (nface == code && nface % NF == face, "face-neighbour-face", "%s tree %d face %d: face %d expected %d", bs (x, l).c_str (), t, f, nface, code);
      count (acr ? "faces_across" : "faces_within");
    }
    /* physical boundary */
    p4est_t fake; memset (&fake, 0, sizeof fake); fake.connectivity = g.c;
    bool touch = (f & 1) ? x[f / 2] + h == RL : x[f / 2] == 0;
    CHK (!p4est_quadrant_on_face_boundary (&fake, t, f, &q) == !(touch && g.fb[t * NF + f]), "face-boundary", "%s tree %d face %d", bs (x, l).c_str (), t, f);
  }
  for (size_t k = ent_edge0; k < entities ().size (); ++k) {
    const Ent & en = entities ()[k];
    if (en.dim == DIM - 1) continue;
    bool edge = en.dim == 1;
    std::vector<Img> ex = expected (g, t, x, l, en), got;
    bool geti = r.chance (0.8);
    sc_array_t qs, ts, ns; sc_array_init (&qs, sizeof (p4est_quadrant_t)); sc_array_init (&ts, sizeof (p4est_topidx_t)); sc_array_init (&ns, sizeof (int));
    int num = (int) k - (edge ? ent_edge0 : ent_corner0);
#ifdef P4_TO_P8
    if (edge) p8est_quadrant_edge_neighbor_extra (&q, t, num, &qs, &ts, geti ? &ns : NULL, g.c); else
#endif
    p4est_quadrant_corner_neighbor_extra (&q, t, num, &qs, &ts, geti ? &ns : NULL, g.c);
    CHK (qs.elem_count == ts.elem_count && (!geti || ns.elem_count == qs.elem_count), "neighbour-arrays", "%zu quadrants %zu trees %zu indices", qs.elem_count, ts.elem_count, ns.elem_count);
    if (qs.elem_count == ts.elem_count && (!geti || ns.elem_count == qs.elem_count)) {
      for (size_t z = 0; z < qs.elem_count; ++z) {
        p4est_quadrant_t *w = (p4est_quadrant_t *) sc_array_index (&qs, z);
        got.push_back (Img{*(p4est_topidx_t *) sc_array_index (&ts, z), qpos (w), geti ? *(int *) sc_array_index (&ns, z) : 0});
        CHK (w->level == l, "neighbour-level", "level %d of %d", w->level, l);
      }
      if (!geti) for (auto & e : ex) e.idx = 0;
      std::sort (got.begin (), got.end ()); std::sort (ex.begin (), ex.end ());
      int out = 0; for (int i = 0; i < DIM; ++i) { i64 y = x[i] + en.d[i] * h; out += y < 0 || y >= RL; }
      CHK (got == ex, edge ? "edge-neighbours" : "corner-neighbours", "%s tree %d %s %d:%s expected%s", bs (x, l).c_str (), t, edge ? "edge" : "corner", num, is (got).c_str (), is (ex).c_str ());
      count (edge ? "edge_sets" : "corner_sets");
      if (out == 1) count ("sets_across_a_face");
      if (out >= 2 && !ex.empty ()) { count (out == DIM ? "sets_across_a_corner" : "sets_across_an_edge"); count ("images_across", (long) ex.size ()); }
    }
    sc_array_reset (&qs); sc_array_reset (&ts); sc_array_reset (&ns);
  }
}

/* the raw transforms */
static void face_transforms (Rng & r, const Geo & g, int t)
{
  for (int f = 0; f < NF; ++f) {
    int ft[9], fr[9], fe[9];
    int u = (int) p4est_find_face_transform (g.c, t, f, ft);
    if (g.fb[t * NF + f]) { CHK (u == -1, "face-transform-exists", "tree %d face %d: %d", t, f, u); continue; }
    int code = g.c->tree_to_face[t * NF + f], nf = code % NF;
    CHK (u == g.c->tree_to_tree[t * NF + f], "face-transform-tree", "tree %d face %d: %d", t, f, u);
    p4est_expand_face_transform (f, code, fe);
    for (int i = 0; i < 9; ++i) CHK (DIM == 2 && i % 3 == 1 ? fe[i] == 0 && ft[i] == 0 : ft[i] == fe[i], "face-transform-code", "tree %d face %d entry %d: %d and %d", t, f, i, ft[i], fe[i]);
    int back = (int) p4est_find_face_transform (g.c, u, nf, fr);
    CHK (back == t, "face-transform-back", "tree %d face %d leads to tree %d, back to %d", t, f, u, back);
    const Xf & m = g.fx[t * NF + f];
    for (int k = 0; k < 6; ++k) {
      int l = r.chance (0.3) ? ML : r.chance (0.3) ? QML : r.range (0, QML);
      i64 h = qlen (l); P3 x = {0, 0, 0};
      for (int i = 0; i < DIM; ++i) {
        i64 al = l == ML ? (i64) 1 << (ML - QML) : h, mx = l == ML ? RL : RL - h;
        x[i] = r.chance (0.2) ? 0 : r.chance (0.25) ? mx : (i64) (r.next () % (u64) (mx / al + 1)) * al;
      }
      if (l == ML) x[f / 2] = (f & 1) ? RL : 0;                         /* a node on the face */
      else if (r.chance (0.5)) x[f / 2] = (f & 1) ? RL + (r.chance (0.6) ? 0 : x[f / 2]) : -h - (r.chance (0.6) ? 0 : x[f / 2]);  /* beyond it */
      p4est_quadrant_t q = mkq (x.data (), l), w, b;
      memset (&w, 0x55, sizeof w); memset (&b, 0x55, sizeof b);
      p4est_quadrant_transform_face (&q, &w, ft);
      Box e = map_box (m, x, l);
      CHK (qpos (&w) == e.x && w.level == l, "face-transform", "%s tree %d face %d becomes %s not %s", bs (x, l).c_str (), t, f, bs (qpos (&w), w.level).c_str (), bs (e.x, l).c_str ());
      p4est_quadrant_transform_face (&w, &b, fr);
      CHK (qpos (&b) == x && b.level == l, "face-transform-inverse", "%s tree %d face %d comes back as %s", bs (x, l).c_str (), t, f, bs (qpos (&b), b.level).c_str ());
      count (l == ML ? "nodes_transformed" : "quadrants_transformed");
      /* coordinates on the face */
      p4est_qcoord_t ci[3], co[3] = {0, 0, 0};
      P3 y = {0, 0, 0};
      for (int i = 0; i < DIM; ++i) y[i] = r.chance (0.2) ? 0 : r.chance (0.25) ? RL : (i64) (r.next () % (u64) (RL + 1));
      y[f / 2] = (f & 1) ? RL : 0;
      for (int i = 0; i < 3; ++i) ci[i] = (p4est_qcoord_t) y[i];
      p4est_coordinates_transform_face (ci, co, ft);
      P3 y2 = {2 * y[0], 2 * y[1], 2 * y[2]}; P3 z = m.map (y2);
      for (int i = 0; i < DIM; ++i) CHK (2 * (i64) co[i] == z[i], "face-coordinates", "tree %d face %d axis %d: %d", t, f, i, co[i]);
      count ("coordinates_transformed");
    }
  }
}

#ifdef P4_TO_P8
static void edge_transforms (Rng & r, const Geo & g, int t)
{
  for (int e = 0; e < NE; ++e) {
    p8est_edge_info_t ei; sc_array_init (&ei.edge_transforms, sizeof (p8est_edge_transform_t));
    p8est_find_edge_transform (g.c, t, e, &ei);
    CHK (ei.iedge == e, "edge-info", "edge %d of %d", ei.iedge, e);
    Ent en = edge_ent (e);
    P3 m = {0, 0, 0}; for (int i = 0; i < 3; ++i) m[i] = en.d[i] < 0 ? 0 : en.d[i] > 0 ? R2 : 1;
    std::vector<TP> ps = beyond (g, t, m, en);
    std::vector<Img> ex, got;
    for (auto & p : ps) { int side[3]; bool rev = false; for (int i = 0; i < 3; ++i) { side[i] = p.x[i] == 0 ? -1 : p.x[i] == R2 ? 1 : 0; if (!side[i]) rev = p.x[i] != 1; } ex.push_back (Img{p.t, P3{0, 0, 0}, edge_at (side) + 12 * rev}); }
    for (size_t z = 0; z < ei.edge_transforms.elem_count; ++z) {
      p8est_edge_transform_t *et = p8est_edge_array_index (&ei.edge_transforms, z);
      got.push_back (Img{et->ntree, P3{0, 0, 0}, et->nedge + 12 * et->nflip});
    }
    std::sort (ex.begin (), ex.end ()); std::sort (got.begin (), got.end ());
    CHK (got == ex, "edge-transforms", "tree %d edge %d:%s expected%s", t, e, is (got).c_str (), is (ex).c_str ());
    for (size_t z = 0; got == ex && z < ei.edge_transforms.elem_count; ++z) {
      p8est_edge_transform_t *et = p8est_edge_array_index (&ei.edge_transforms, z);
      for (int k = 0; k < 3; ++k) {
        int inside = r.below (2), l = !inside && r.chance (0.3) ? ML : r.range (0, QML);
        i64 h = qlen (l), along = (l == ML ? (i64) (r.next () % (u64) (RL / 2 + 1)) * 2 : (i64) (r.next () % (u64) (RL / h)) * h);
        Ent ne = edge_ent (et->nedge);
        P3 x = {0, 0, 0}, y = {0, 0, 0};
        for (int i = 0; i < 3; ++i) {
          /* input on the opposite side of the edge */
          x[i] = !en.d[i] ? along : inside ? (en.d[i] < 0 ? -h : RL) : (en.d[i] < 0 ? 0 : RL - h);
          y[i] = !ne.d[i] ? (et->nflip ? RL - h - along : along) : inside ? (ne.d[i] < 0 ? 0 : RL - h) : (ne.d[i] < 0 ? -h : RL);
        }
        p4est_quadrant_t q = mkq (x.data (), l), w; memset (&w, 0x55, sizeof w);
        p8est_quadrant_transform_edge (&q, &w, &ei, et, inside);
        CHK (qpos (&w) == y && w.level == l, "edge-transform", "%s tree %d edge %d to tree %d edge %d flip %d becomes %s not %s", bs (x, l).c_str (), t, e, et->ntree, et->nedge, et->nflip, bs (qpos (&w), w.level).c_str (), bs (y, l).c_str ());
        p4est_qcoord_t ci[3], co[3] = {-5, -5, -5}; i64 al = r.chance (0.2) ? 0 : r.chance (0.2) ? RL : (i64) (r.next () % (u64) (RL + 1));
        for (int i = 0; i < 3; ++i) ci[i] = (p4est_qcoord_t) (!en.d[i] ? al : en.d[i] < 0 ? 0 : RL);
        p8est_coordinates_transform_edge (ci, co, &ei, et);
        for (int i = 0; i < 3; ++i) CHK (co[i] == (!ne.d[i] ? (et->nflip ? RL - al : al) : ne.d[i] < 0 ? 0 : RL), "edge-coordinates", "tree %d edge %d axis %d: %d", t, e, i, co[i]);
        count ("edge_transforms");
      }
    }
    sc_array_reset (&ei.edge_transforms);
  }
}
#endif

static void corner_transforms (const Geo & g, int t)
{
  for (int c = 0; c < NC; ++c) {
    p4est_corner_info_t ci; sc_array_init (&ci.corner_transforms, sizeof (p4est_corner_transform_t));
    p4est_find_corner_transform (g.c, t, c, &ci);
    CHK (ci.icorner == c, "corner-info", "corner %d of %d", (int) ci.icorner, c);
    std::vector<TP> ps = beyond (g, t, corner2 (c), entities ()[ent_corner0 + c]);
    std::vector<Img> ex, got;
    for (auto & p : ps) ex.push_back (Img{p.t, P3{0, 0, 0}, corner_of2 (p.x)});
    for (size_t z = 0; z < ci.corner_transforms.elem_count; ++z) {
      p4est_corner_transform_t *ct = p4est_corner_array_index (&ci.corner_transforms, z);
      got.push_back (Img{ct->ntree, P3{0, 0, 0}, ct->ncorner});
      p4est_qcoord_t co[3] = {-5, -5, -5};
      p4est_coordinates_transform_corner (co, ct->ncorner);
      for (int i = 0; i < DIM; ++i) CHK (co[i] == (((ct->ncorner >> i) & 1) ? RL : 0), "corner-coordinates", "corner %d axis %d: %d", ct->ncorner, i, co[i]);
      count ("corner_transforms");
    }
    std::sort (ex.begin (), ex.end ()); std::sort (got.begin (), got.end ());
    CHK (got == ex, "corner-transforms", "tree %d corner %d:%s expected%s", t, c, is (got).c_str (), is (ex).c_str ());
    sc_array_reset (&ci.corner_transforms);
  }
}

/* the general neighbour transforms */
static void neighbour_transforms (Rng & r, const Geo & g, int t)
{
  int kk = r.below (entities ().size () + 1) - 1;
  Ent en; en.dim = DIM; en.d[0] = en.d[1] = en.d[2] = 0;
  int num = 0; p4est_connect_type_t ty = P4EST_CONNECT_SELF;
  if (kk >= 0) {
    en = entities ()[kk];
    if (en.dim == DIM - 1) { num = kk - ent_face0; ty = P4EST_CONNECT_FACE; }
    else if (en.dim == 0) { num = kk - ent_corner0; ty = P4EST_CONNECT_CORNER; }
#ifdef P4_TO_P8
    else { num = kk - ent_edge0; ty = P8EST_CONNECT_EDGE; }
#endif
  }
  sc_array_t *a = sc_array_new (sizeof (p4est_neighbor_transform_t));
  p4est_connectivity_get_neighbor_transforms (g.c, t, ty, num, a);
  /* expected set */
  struct K { int ty, t, is, in; bool operator< (const K & o) const { return std::tie (ty, t, is, in) < std::tie (o.ty, o.t, o.is, o.in); } bool operator== (const K & o) const { return std::tie (ty, t, is, in) == std::tie (o.ty, o.t, o.is, o.in); } };
  std::vector<K> ex, got;
  ex.push_back (K{P4EST_CONNECT_SELF, t, 0, 0});
  for (size_t k = 0; kk >= 0 && k < entities ().size (); ++k) {
    const Ent & e = entities ()[k];
    bool on = true; for (int i = 0; i < DIM; ++i) if (e.d[i] && e.d[i] != en.d[i]) on = false;
    if (!on) continue;
    if (e.dim == DIM - 1) { int f = (int) k - ent_face0; if (!g.fb[t * NF + f]) ex.push_back (K{P4EST_CONNECT_FACE, (int) g.c->tree_to_tree[t * NF + f], f, g.c->tree_to_face[t * NF + f] % NF}); continue; }
    P3 m = {0, 0, 0}; for (int i = 0; i < DIM; ++i) m[i] = e.d[i] < 0 ? 0 : e.d[i] > 0 ? R2 : 1;
    for (auto & p : beyond (g, t, m, e)) {
      int side[3] = {0, 0, 0}; for (int i = 0; i < DIM; ++i) side[i] = p.x[i] == 0 ? -1 : p.x[i] == R2 ? 1 : 0;
      if (e.dim == 0) ex.push_back (K{P4EST_CONNECT_CORNER, p.t, (int) k - ent_corner0, corner_of2 (p.x)});
#ifdef P4_TO_P8
      else ex.push_back (K{P8EST_CONNECT_EDGE, p.t, (int) k - ent_edge0, edge_at (side)});
#endif
    }
  }
  for (size_t z = 0; z < a->elem_count; ++z) {
    p4est_neighbor_transform_t *nt = (p4est_neighbor_transform_t *) sc_array_index (a, z);
    got.push_back (K{(int) nt->neighbor_type, (int) nt->neighbor, nt->index_self, nt->index_neighbor});
  }
  std::vector<K> gs = got; std::sort (gs.begin (), gs.end ()); std::sort (ex.begin (), ex.end ());
  CHK (gs == ex, "neighbour-transforms", "tree %d type %d index %d: %zu of %zu", t, (int) ty, num, gs.size (), ex.size ());
  for (size_t z = 0; gs == ex && z < a->elem_count; ++z) {
    p4est_neighbor_transform_t *nt = (p4est_neighbor_transform_t *) sc_array_index (a, z);
    count (nt->neighbor_type == P4EST_CONNECT_SELF ? "nt_self" : nt->neighbor_type == P4EST_CONNECT_FACE ? "nt_face" : nt->neighbor_type == P4EST_CONNECT_CORNER ? "nt_corner" : "nt_edge");
    /* the entities joined */
    Ent es, ns;
    for (int i = 0; i < 3; ++i) es.d[i] = ns.d[i] = 0;
    if (nt->neighbor_type == P4EST_CONNECT_FACE) es = entities ()[ent_face0 + nt->index_self], ns = entities ()[ent_face0 + nt->index_neighbor];
    else if (nt->neighbor_type == P4EST_CONNECT_CORNER) es = entities ()[ent_corner0 + nt->index_self], ns = entities ()[ent_corner0 + nt->index_neighbor];
    else if (nt->neighbor_type != P4EST_CONNECT_SELF) es = entities ()[ent_edge0 + nt->index_self], ns = entities ()[ent_edge0 + nt->index_neighbor];
    for (int k = 0; k < 4; ++k) {
      /* quadrants inside touching the entity, or diagonally outside it */
      int l = r.chance (0.3) ? QML : r.range (0, QML), ins = r.below (2); i64 h = qlen (l);
      P3 x = {0, 0, 0}, pt = {0, 0, 0};
      for (int i = 0; i < DIM; ++i) {
        i64 rnd = r.chance (0.2) ? 0 : r.chance (0.2) ? RL - h : (i64) (r.next () % (u64) (RL / h)) * h;
        x[i] = !es.d[i] ? rnd : ins ? (es.d[i] < 0 ? 0 : RL - h) : (es.d[i] < 0 ? -h : RL);
        pt[i] = !es.d[i] ? (i64) (r.next () % (u64) (RL + 1)) : es.d[i] < 0 ? 0 : RL;
      }
      p4est_quadrant_t q = mkq (x.data (), l), w, b; memset (&w, 0x55, sizeof w); memset (&b, 0x55, sizeof b);
      p4est_neighbor_transform_quadrant (nt, &q, &w);
      p4est_neighbor_transform_quadrant_reverse (nt, &w, &b);
      CHK (qpos (&b) == x && b.level == l && w.level == l, "neighbour-inverse", "%s comes back as %s", bs (x, l).c_str (), bs (qpos (&b), b.level).c_str ());
      p4est_qcoord_t ci[3] = {0, 0, 0}, co[3] = {-9, -9, -9}, cb[3] = {-9, -9, -9};
      for (int i = 0; i < DIM; ++i) ci[i] = (p4est_qcoord_t) pt[i];
      p4est_neighbor_transform_coordinates (nt, ci, co);
      p4est_neighbor_transform_coordinates_reverse (nt, co, cb);
      for (int i = 0; i < DIM; ++i) CHK (cb[i] == ci[i], "neighbour-coordinates-inverse", "axis %d: %d of %d", i, cb[i], ci[i]);
      P3 wx = qpos (&w);
      if (nt->neighbor_type == P4EST_CONNECT_SELF) {
        CHK (wx == x, "neighbour-self", "%s becomes %s", bs (x, l).c_str (), bs (wx, l).c_str ());
        for (int i = 0; i < DIM; ++i) CHK (co[i] == ci[i], "neighbour-self", "axis %d", i);
      }
      else if (nt->neighbor_type == P4EST_CONNECT_FACE) {
        const Xf & m = g.fx[t * NF + nt->index_self];
        Box e = map_box (m, x, l);
        CHK (wx == e.x, "neighbour-face", "%s tree %d face %d becomes %s not %s", bs (x, l).c_str (), t, nt->index_self, bs (wx, l).c_str (), bs (e.x, l).c_str ());
        P3 p2 = {2 * pt[0], 2 * pt[1], 2 * pt[2]}; P3 y = m.map (p2);
        for (int i = 0; i < DIM; ++i) CHK (2 * (i64) co[i] == y[i], "neighbour-face-coordinates", "axis %d: %d", i, co[i]);
      }
      else {
        /* opposite side of the neighbour's entity */
        for (int i = 0; i < DIM; ++i) if (ns.d[i]) {
          i64 want = !ins ? (ns.d[i] < 0 ? 0 : RL - h) : (ns.d[i] < 0 ? -h : RL);
          CHK (wx[i] == want, "neighbour-side", "%s tree %d entity %d becomes %s beyond entity %d", bs (x, l).c_str (), t, nt->index_self, bs (wx, l).c_str (), nt->index_neighbor);
          CHK (co[i] == (ns.d[i] < 0 ? 0 : RL), "neighbour-side-coordinates", "axis %d: %d", i, co[i]);
        }
        P3 p2 = {2 * pt[0], 2 * pt[1], DIM == 3 ? 2 * pt[2] : 0}, c2 = {2 * (i64) co[0], 2 * (i64) co[1], DIM == 3 ? 2 * (i64) co[2] : 0};
        std::vector<TP> o; g.orbit (t, p2, o);
        CHK (std::find (o.begin (), o.end (), TP{(int) nt->neighbor, c2}) != o.end (), "neighbour-point", "tree %d point (%d %d %d) is not (%d %d %d) of tree %d", t, ci[0], ci[1], ci[2], co[0], co[1], co[2], (int) nt->neighbor);
        if (DIM == 3 && nt->neighbor_type != P4EST_CONNECT_CORNER) {
          /* along the edge the quadrant goes where the ends of its segment go */
          int ea = nt->index_self / 4, na = nt->index_neighbor / 4;
          p4est_qcoord_t s0[3], s1[3], d0[3], d1[3];
          for (int i = 0; i < 3; ++i) s0[i] = s1[i] = (p4est_qcoord_t) pt[i];
          s0[ea] = (p4est_qcoord_t) x[ea]; s1[ea] = (p4est_qcoord_t) (x[ea] + h);
          p4est_neighbor_transform_coordinates (nt, s0, d0); p4est_neighbor_transform_coordinates (nt, s1, d1);
          CHK (wx[na] == std::min (d0[na], d1[na]) && wx[na] + h == std::max (d0[na], d1[na]), "neighbour-along", "%s tree %d edge %d becomes %s", bs (x, l).c_str (), t, nt->index_self, bs (wx, l).c_str ());
        }
      }
    }
  }
  sc_array_destroy (a);
}

static void canonical (Rng & r, const Geo & g, int t)
{
  for (int k = 0; k < 12; ++k) {
    P3 x = {0, 0, 0}; p4est_qcoord_t ci[3] = {0, 0, 0};
    for (int i = 0; i < DIM; ++i) x[i] = r.chance (0.3) ? 0 : r.chance (0.4) ? RL : r.chance (0.2) ? RL / 2 : r.chance (0.3) ? r.range (1, 3) : (i64) (r.next () % (u64) (RL + 1));
    std::vector<TP> o; P3 x2 = {2 * x[0], 2 * x[1], 2 * x[2]}; g.orbit (t, x2, o);
    TP first; bool have = false; p4est_qcoord_t fc[3] = {0, 0, 0};
    for (auto & p : o) {
      for (int i = 0; i < DIM; ++i) ci[i] = (p4est_qcoord_t) (p.x[i] / 2);
      p4est_topidx_t tt = -7; p4est_qcoord_t co[3] = {-9, -9, 0};
      p4est_connectivity_coordinates_canonicalize (g.c, p.t, ci, &tt, co);
      P3 y = {2 * (i64) co[0], 2 * (i64) co[1], DIM == 3 ? 2 * (i64) co[2] : 0};
      TP res{(int) tt, y};
      CHK (tt == o[0].t, "canonical-tree", "tree %d point (%d %d %d) gets tree %d, lowest is %d", p.t, ci[0], ci[1], ci[2], (int) tt, o[0].t);
      CHK (std::find (o.begin (), o.end (), res) != o.end (), "canonical-point", "tree %d point (%d %d %d) becomes a different point of tree %d", p.t, ci[0], ci[1], ci[2], (int) tt);
      if (!have) { have = true; first = res; memcpy (fc, co, sizeof fc); }
      else CHK (res == first, "canonical-unique", "tree %d point (%d %d %d) gets (%d %d %d), another representation got (%d %d %d) in tree %d", p.t, ci[0], ci[1], ci[2], co[0], co[1], co[2], fc[0], fc[1], fc[2], (int) tt);
      count ("canonical_points");
    }
    if (o.size () > 1) count ("shared_points");
  }
}

static void prop (Rng & r)
{
  std::string name;
  ConnOpts co; co.max_trees = 10;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  Geo g; g.init (c);
  bool ok = conn_oracle_ok (g);
  describe ("%s trees %d%s", name.c_str (), g.nt, ok ? "" : " not closed");
  if (run.caseno % 16 == 0) tables ();
  if (!ok) { gcount ("skipped_not_closed"); p4est_connectivity_destroy (c); return; }
  distinct_state (conn_hash (c));
  Rng mine (r.next () ^ mix64 (run.rank + 1));
  for (int rep = 0; rep < 4; ++rep) {
    int t = mine.below (g.nt);
    face_transforms (mine, g, t);
#ifdef P4_TO_P8
    edge_transforms (mine, g, t);
#endif
    corner_transforms (g, t);
    for (int k = 0; k < 4; ++k) neighbour_transforms (mine, g, t);
    canonical (mine, g, t);
    for (int k = 0; k < 6; ++k) {
      int l = mine.chance (0.2) ? mine.range (0, 1) : mine.chance (0.25) ? QML : mine.range (0, QML); i64 h = qlen (l);
      P3 x = {0, 0, 0};
      for (int i = 0; i < DIM; ++i) x[i] = mine.chance (0.35) ? 0 : mine.chance (0.5) ? RL - h : (i64) (mine.next () % (u64) (RL / h)) * h;
      neighbours (mine, g, t, x, l);
    }
  }
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C18", prop)
}

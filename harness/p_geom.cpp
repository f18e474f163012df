/* C28: geometries.  The monitor samples the maps of trees into space and judges
 * them by the domain they stand for (surfaces, radii, contents), by agreement of
 * all trees on the points they share, and compares node coordinates with the
 * image of the place that each node has on its element. */
#include "core.hpp"
#include "ifmodel.hpp"
#include "lmodel.hpp"
#include <cmath>

namespace {

typedef std::array<double, 3> D3;
D3 operator- (const D3 & a, const D3 & b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
double dot (const D3 & a, const D3 & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
D3 cross (const D3 & a, const D3 & b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
double norm (const D3 & a) { return sqrt (dot (a, a)); }

/* what a geometry promises */
struct Domain
{
  std::string name;
  p4est_connectivity_t *c = NULL;
  p4est_geometry_t *g = NULL;
  double size = 1;                      /* scale for tolerances */
  bool surface = false;                 /* two-dimensional and curved in space */
  double content = -1;                  /* area or volume */
  std::function<double (const D3 &)> inside;    /* violation of the domain, in units of length */
  std::function<double (const D3 &)> boundary;  /* distance from the boundary, for points on boundary faces */
  double tol = 1e-9;                    /* relative tolerance of positions */
  bool multilinear = false;             /* the map is that of the vertices */
};

D3 eval (const Domain & d, int t, const P3 & x2)
{
  p4est_qcoord_t q[3] = { (p4est_qcoord_t) (x2[0] / 2), (p4est_qcoord_t) (x2[1] / 2), DIM == 3 ? (p4est_qcoord_t) (x2[2] / 2) : 0 };
  D3 o = { 7e77, 7e77, 7e77 };
  p4est_geometry_transform_coordinates (d.g, t, q, o.data ());
  return o;
}
D3 eval_real (const Domain & d, int t, const double *abc)
{
  double a[3] = { abc[0], abc[1], DIM == 3 ? abc[2] : 0. };
  D3 o = { 7e77, 7e77, 7e77 };
  d.g->X (d.g, t, a, o.data ());
  return o;
}
D3 by_vertices (const Domain & d, int t, const double *abc)
{
  D3 o = { 0, 0, 0 };
  for (int k = 0; k < NC; ++k) {
    double w = 1;
    for (int i = 0; i < DIM; ++i) w *= (k >> i) & 1 ? abc[i] : 1 - abc[i];
    for (int j = 0; j < 3; ++j) o[j] += w * d.c->vertices[3 * d.c->tree_to_vertex[NC * t + k] + j];
  }
  return o;
}

Domain make (Rng & r)
{
  Domain d;
  double R = r.pick ({ 1., 1., .25, 2.5, 10., 6371. });
  double q1 = .2 + .75 * r.unit (), q0 = .15 + .8 * r.unit ();
  double R2 = R, R1 = R * q1, R0 = R1 * q0;
  int kind = r.below (DIM == 2 ? 8 : 7);
  d.size = R;
  if (kind == 0) {
    ConnOpts co; co.want_vertices = true; co.max_trees = 6;
    std::string nm;
    do { if (d.c) p4est_connectivity_destroy (d.c); d.c = gen_conn (r, co, nm); } while (d.c->num_vertices == 0);
    d.name = "vertices of " + nm;
    d.g = p4est_geometry_new_connectivity (d.c);
    d.multilinear = true;
    d.size = 1;
    for (int i = 0; i < 3 * d.c->num_vertices; ++i) d.size = std::max (d.size, fabs (d.c->vertices[i]));
    return d;
  }
  char b[100];
#ifndef P4_TO_P8
  auto radius = [] (const D3 & x) { return norm (x); };
  if (kind == 1) { d.name = "icosahedron"; d.c = p4est_connectivity_new_icosahedron (); d.g = p4est_geometry_new_icosahedron (d.c, R); d.surface = true; }
  else if (kind == 2) {
    d.name = "shell2d"; d.c = p4est_connectivity_new_shell2d (); d.g = p4est_geometry_new_shell2d (d.c, R2, R1);
    d.content = M_PI * (R2 * R2 - R1 * R1);
    d.inside = [=] (const D3 & x) { double s = radius (x); return std::max (std::max (s - R2, R1 - s), fabs (x[2])); };
    d.boundary = [=] (const D3 & x) { double s = radius (x); return std::min (fabs (s - R2), fabs (s - R1)); };
  }
  else if (kind == 3) {
    d.name = "disk2d"; d.c = p4est_connectivity_new_disk2d (); d.g = p4est_geometry_new_disk2d (d.c, R1, R2);
    d.content = M_PI * R2 * R2;
    d.inside = [=] (const D3 & x) { return std::max (radius (x) - R2, fabs (x[2])); };
    d.boundary = [=] (const D3 & x) { return fabs (radius (x) - R2); };
  }
  else if (kind == 4) { d.name = "sphere2d"; d.c = p4est_connectivity_new_cubed (); d.g = p4est_geometry_new_sphere2d (d.c, R); d.surface = true; }
  else if (kind == 5) { d.name = "pillow"; d.c = p4est_connectivity_new_pillow (); d.g = p4est_geometry_new_pillow (d.c, R); d.surface = true; d.tol = 1e-7; }
  else {
    int cfg = r.below (4);
    snprintf (b, sizeof b, "pillow_disk %d", cfg);
    d.name = b; d.c = p4est_connectivity_new_unitsquare (); d.g = p4est_geometry_new_pillow_disk (d.c, R, (pillow_disk_config_t) cfg);
    d.content = M_PI * R * R; d.tol = 1e-7;
    d.inside = [=] (const D3 & x) { return std::max (radius (x) - R, fabs (x[2])); };
    d.boundary = [=] (const D3 & x) { return fabs (radius (x) - R); };
  }
  if (d.surface) { d.content = 4 * M_PI * R * R; d.inside = [=] (const D3 & x) { return fabs (radius (x) - R); }; }
#else
  auto radius = [] (const D3 & x) { return norm (x); };
  double ball = 4. / 3. * M_PI;
  if (kind == 1) {
    d.name = "pillow"; d.c = p8est_connectivity_new_pillow (); d.g = p8est_geometry_new_pillow (d.c, R2, R1); d.tol = 1e-7;
  }
  else if (kind == 2) { d.name = "shell"; d.c = p8est_connectivity_new_shell (); d.g = p8est_geometry_new_shell (d.c, R2, R1); }
  if (kind == 1 || kind == 2) {
    d.content = ball * (R2 * R2 * R2 - R1 * R1 * R1);
    d.inside = [=] (const D3 & x) { double s = radius (x); return std::max (s - R2, R1 - s); };
    d.boundary = [=] (const D3 & x) { double s = radius (x); return std::min (fabs (s - R2), fabs (s - R1)); };
  }
  else if (kind == 3 || kind == 4) {
    int cfg = r.below (2);
    snprintf (b, sizeof b, "pillow_sphere %d", cfg);
    d.name = b; d.c = p8est_connectivity_new_unitcube (); d.g = p8est_geometry_new_pillow_sphere (d.c, R2, (pillow_sphere_config_t) cfg);
  }
  else if (kind == 5) { d.name = "sphere"; d.c = p8est_connectivity_new_sphere (); d.g = p8est_geometry_new_sphere (d.c, R2, R1, R0); }
  if (kind >= 3 && kind <= 5) {
    d.content = ball * R2 * R2 * R2;
    d.inside = [=] (const D3 & x) { return radius (x) - R2; };
    d.boundary = [=] (const D3 & x) { return fabs (radius (x) - R2); };
  }
  if (kind == 6) {
    int ns = r.range (3, 7);
    snprintf (b, sizeof b, "torus of %d segments", ns);
    double big = R * (1.05 + 2 * r.unit ());
    d.name = b; d.c = p8est_connectivity_new_torus (ns); d.g = p8est_geometry_new_torus (d.c, R1, R2, big);
    d.size = big;
    auto off = [=] (const D3 & x) { double s = sqrt (x[0] * x[0] + x[2] * x[2]) - big; return sqrt (s * s + x[1] * x[1]); };
    d.inside = [=] (const D3 & x) { return off (x) - R2; };
    d.boundary = [=] (const D3 & x) { return fabs (off (x) - R2); };
    d.content = 2 * M_PI * M_PI * big * R2 * R2;
  }
#endif
  snprintf (b, sizeof b, " R %g %g %g", R2, R1, R0);
  d.name += b;
  return d;
}

std::string pt (int t, const P3 & x) { char b[120]; snprintf (b, sizeof b, "tree %d at (%.9g %.9g %.9g)", t, (double) x[0] / R2, (double) x[1] / R2, (double) x[2] / R2); return b; }
bool close (const D3 & a, const D3 & b, double tol) { for (int i = 0; i < 3; ++i) if (!(fabs (a[i] - b[i]) <= tol)) return false; return true; }

void check_points (Rng & r, const Domain & d, const Geo & g)
{
  double tol = d.tol * d.size;
  int n = 160;
  for (int k = 0; k < n; ++k) {
    int t = r.below (g.nt);
    P3 x = { 0, 0, 0 };
    int lev = r.range (0, 6);
    int bits = 0, face = -1;
    for (int i = 0; i < DIM; ++i) {
      int how = r.below (5);
      if (how == 0) x[i] = 0; else if (how == 1) x[i] = R2;
      else if (how == 2) x[i] = R2 / 2;
      else if (how == 3) x[i] = (R2 >> lev) * r.below ((1 << lev) + 1);
      else x[i] = 2 * (i64) (r.unit () * (double) RL);
      if (x[i] == 0 || x[i] == R2) { ++bits; face = 2 * i + (x[i] == R2); }
    }
    if (DIM > 1 && r.chance (.15)) x[1] = r.chance (.5) ? x[0] : R2 - x[0];      /* diagonals, where maps have kinks */
    bits = 0;
    for (int i = 0; i < DIM; ++i) if (x[i] == 0 || x[i] == R2) { ++bits; face = 2 * i + (x[i] == R2); }
    D3 y = eval (d, t, x);
    count ("points");
    if (!std::isfinite (y[0]) || !std::isfinite (y[1]) || !std::isfinite (y[2])) { FAILK ("not-finite", "%s: %s maps to (%g %g %g)", d.name.c_str (), pt (t, x).c_str (), y[0], y[1], y[2]); continue; }
    double abc[3];
    for (int i = 0; i < 3; ++i) abc[i] = (double) x[i] / (double) R2;
    if (d.multilinear) {
      D3 z = by_vertices (d, t, abc);
      CHK (close (y, z, tol), "multilinear", "%s: %s maps to (%g %g %g), the vertices give (%g %g %g)", d.name.c_str (), pt (t, x).c_str (), y[0], y[1], y[2], z[0], z[1], z[2]);
      double v[3];
      p4est_qcoord_to_vertex (d.c, t, x[0] / 2, x[1] / 2,
#ifdef P4_TO_P8
                              x[2] / 2,
#endif
                              v);
      CHK (close (z, D3 { v[0], v[1], v[2] }, tol), "multilinear", "%s: %s is the vertex (%g %g %g), expected (%g %g %g)", d.name.c_str (), pt (t, x).c_str (), v[0], v[1], v[2], z[0], z[1], z[2]);
      continue;
    }
    D3 z = eval_real (d, t, abc);
    CHK (close (y, z, 0), "transform", "%s: %s transforms to (%g %g %g), the geometry says (%g %g %g)", d.name.c_str (), pt (t, x).c_str (), y[0], y[1], y[2], z[0], z[1], z[2]);
    double bad = d.inside (y);
    CHK (bad <= tol, "outside", "%s: %s maps to (%.12g %.12g %.12g), %g away from the domain", d.name.c_str (), pt (t, x).c_str (), y[0], y[1], y[2], bad);
    if (bits == 0) continue;
    std::vector<TP> o;
    g.orbit (t, x, o);
    for (auto & w : o) {
      if (w.t == t && w.x == x) continue;
      D3 u = eval (d, w.t, w.x);
      CHK (close (y, u, tol), "discontinuous", "%s: %s maps to (%.12g %.12g %.12g), but the same point as %s to (%.12g %.12g %.12g)", d.name.c_str (), pt (t, x).c_str (), y[0], y[1], y[2],
           pt (w.t, w.x).c_str (), u[0], u[1], u[2]);
      count ("shared_points");
    }
    if (d.boundary && bits == 1 && g.on_boundary_face (t, face)) {
      double e = d.boundary (y);
      CHK (e <= tol, "boundary", "%s: %s lies on the boundary but maps to (%.12g %.12g %.12g), %g away from it", d.name.c_str (), pt (t, x).c_str (), y[0], y[1], y[2], e);
      count ("boundary_points");
    }
  }
}

/* area or volume, which also shows folds and gaps */
void check_content (const Domain & d)
{
  const int n = DIM == 2 ? 64 : 14;
  double sum = 0, neg = 0;
  for (int t = 0; t < d.c->num_trees; ++t) {
    std::vector<D3> v;
    for (int k = 0; k <= (DIM == 3 ? n : 0); ++k) for (int j = 0; j <= n; ++j) for (int i = 0; i <= n; ++i) {
      double abc[3] = { (double) i / n, (double) j / n, (double) k / n };
      v.push_back (eval_real (d, t, abc));
    }
    auto at = [&] (int i, int j, int k) -> const D3 & { return v[(k * (n + 1) + j) * (n + 1) + i]; };
    double pos = 0, ne = 0;
    for (int k = 0; k < (DIM == 3 ? n : 1); ++k) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
      if (DIM == 2) {
        D3 c = at (i, j, 0), e = at (i + 1, j, 0), f = at (i, j + 1, 0), h = at (i + 1, j + 1, 0);
        D3 a1 = cross (e - c, h - c), a2 = cross (h - c, f - c);
        D3 up = d.surface ? c : D3 { 0, 0, 1 };
        for (auto & a : { a1, a2 }) { if (dot (a, up) >= 0) pos += norm (a) / 2; else ne += norm (a) / 2; }
      }
      else {
        /* six tetrahedra around the main diagonal */
        static const int path[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 0, 2 } };
        for (int s = 0; s < 6; ++s) {
          int x[3] = { i, j, k };
          D3 p0 = at (i, j, k), q[3];
          for (int m = 0; m < 3; ++m) { x[path[s][m]]++; q[m] = at (x[0], x[1], x[2]); }
          double vol = dot (cross (q[0] - p0, q[1] - p0), q[2] - p0) / 6 * (s < 3 ? 1 : -1);
          if (vol >= 0) pos += vol; else ne -= vol;
        }
      }
    }
    /* the sign of the map may differ between trees, but not within one */
    sum += pos + ne; neg += std::min (pos, ne);
  }
  double eps = DIM == 2 ? .01 : .03;
  CHK (fabs (sum - d.content) <= eps * d.content, "content", "%s: the trees cover %g, the domain has %g", d.name.c_str (), sum, d.content);
  CHK (neg <= 1e-3 * d.content, "fold", "%s: the map folds over itself (%g of %g)", d.name.c_str (), neg, d.content);
  count ("contents");
}

void check_nodes (Rng & r, const Domain & d, const Geo & g)
{
  ForestOpts fo; fo.target = DIM == 3 ? r.pick ({ 10, 40 }) : r.pick ({ 10, 60, 120 }); fo.maxl = r.range (2, 4);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, d.c, fo);
  p4est_balance (p, conn_type (r.below (2)), NULL);
  random_partition (r, p, true);
  GForest f = gather (p);
  int me = p->mpirank;
  distinct_state (hcomb (f.hash (true), conn_hash (d.c)));
  LModel M; M.g = &g; M.f = &f; M.m.g = &g; M.m.f = &f; M.m.me = me; M.m.l0 = f.rfirst[me]; M.m.l1 = f.rfirst[me + 1];
  int N = r.range (1, 2), vn = 1;
  for (int i = 0; i < DIM; ++i) vn *= N + 1;
  p4est_ghost_t *gh = p4est_ghost_new (p, P4EST_CONNECT_FULL);
  p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, N);
  bool withgeo = r.chance (.7), split = r.chance (.6);
  sc_array_t *xyz = sc_array_new (3 * sizeof (double)), *ec = split ? sc_array_new (sizeof (p4est_locidx_t)) : NULL;
  if (r.chance (.5)) { sc_array_resize (xyz, r.below (9)); if (ec) sc_array_resize (ec, r.below (20)); }
  double ref[3] = { 0, .5, 1 };
  p4est_geometry_coordinates_lnodes (p, ln, r.chance (.5) ? ref : NULL, withgeo ? d.g : NULL, xyz, ec);
  int nn = ln->num_local_nodes;
  i64 l0 = f.rfirst[me];
  if (!split) CHK ((int) xyz->elem_count == nn, "node-count", "%zu coordinates for %d nodes", xyz->elem_count, nn);
  else CHK ((i64) ec->elem_count == (i64) ln->num_local_elements * vn, "node-count", "%zu entries for %d elements", ec->elem_count, ln->num_local_elements);
  std::map<std::pair<int, P3>, int> entry;      /* tree and place -> coordinate */
  std::vector<int> used (xyz->elem_count, 0);
  std::vector<char> hit (nn, 0), seen (nn, 0);
  double tol = 1e-12 * (withgeo ? d.size : 1);
  std::map<int, std::pair<int, P3>> back;
  for (int q = 0; q < ln->num_local_elements && !run.nfail_case; ++q) {
    const Leaf & a = f.q[l0 + q];
    int hf, he;
    M.hanging (a, hf, he);
    Leaf pa = a.l > 0 ? leaf_parent (a) : a;
    for (int v = 0; v < vn; ++v) {
      int ix[3] = { v % (N + 1), (v / (N + 1)) % (N + 1), DIM == 3 ? v / ((N + 1) * (N + 1)) : 0 };
      Ent pat; pat.dim = 0; pat.d[0] = pat.d[1] = pat.d[2] = 0;
      for (int i = 0; i < DIM; ++i) { if (ix[i] == 0) pat.d[i] = -1; else if (ix[i] == N) pat.d[i] = 1; else pat.dim++; }
      int k = Model::ent_index (pat);
      bool par = k >= 0 && M.refers_to_parent (k, hf, he);
      const Leaf & e = par ? pa : a;
      P3 x = { 0, 0, 0 };
      double abc[3] = { 0, 0, 0 };
      for (int i = 0; i < DIM; ++i) { x[i] = 2 * e.x[i] + node_pos (2 * e.len (), N, ix[i]); abc[i] = (double) x[i] / R2; }
      D3 want = withgeo ? eval_real (d, e.t, abc) : D3 { abc[0], abc[1], abc[2] };
      int lid = ln->element_nodes[(i64) q * vn + v];
      int ci = split ? *(p4est_locidx_t *) sc_array_index (ec, (size_t) q * vn + v) : lid;
      if (ci < 0 || ci >= (int) xyz->elem_count) { FAILK ("node-index", "%s node %d has coordinate %d of %zu", leaf_str (a).c_str (), v, ci, xyz->elem_count); break; }
      double *y = (double *) sc_array_index (xyz, ci);
      D3 got = { y[0], y[1], y[2] };
      used[ci] = 1;
      count ("node_coordinates");
      if (par) count ("hanging_node_coordinates");
      if (split) {
        CHK (close (got, want, tol), "node-place", "%s node %d of degree %d: coordinates (%g %g %g), expected (%g %g %g)", leaf_str (a).c_str (), v, N, got[0], got[1], got[2], want[0], want[1], want[2]);
        auto key = std::make_pair (e.t, x);
        auto it = entry.find (key);
        if (it == entry.end ()) {
          entry[key] = ci;
          CHK (!back.count (ci), "node-merged", "%s node %d shares its coordinates with another place", leaf_str (a).c_str (), v);
          back[ci] = key;
        }
        else CHK (it->second == ci, "node-repeated", "%s node %d: one place of a tree has two coordinates", leaf_str (a).c_str (), v);
      }
      else {
        /* the coordinates of one of the element corners, in whichever tree */
        seen[lid] = 1;
        if (close (got, want, tol)) hit[lid] = 1;
      }
    }
  }
  if (!run.nfail_case) {
    if (split) for (size_t z = 0; z < used.size (); ++z) CHK (used[z], "node-unused", "coordinate %zu belongs to no node", z);
    else for (int i = 0; i < nn; ++i) CHK (!seen[i] || hit[i], "node-place", "node %d of degree %d has coordinates of none of its places", i, N);
  }
  gcount (split ? "node_sets_by_place" : "node_sets");
  if (withgeo) gcount ("node_sets_mapped");
  sc_array_destroy (xyz); if (ec) sc_array_destroy (ec);
  p4est_lnodes_destroy (ln);
  p4est_ghost_destroy (gh);
  p4est_destroy (p);
}

void geom_prop (Rng & r)
{
  Domain d = make (r);
  describe ("%s", d.name.c_str ());
  Geo g; g.init (d.c);
  CHK (p4est_connectivity_is_valid (d.c), "valid", "%s: connectivity not valid", d.name.c_str ());
  Rng rr (hcomb (r.next (), run.rank));
  check_points (rr, d, g);
  if (run.rank == (int) (run.caseno % run.size) && !d.multilinear && run.caseno % 3 == 0) check_content (d);
  if (conn_oracle_ok (g)) check_nodes (r, d, g);
  gcount ("geometries");
  if (!d.multilinear) gcount ("analytic_geometries");
  p4est_geometry_destroy (d.g);
  p4est_connectivity_destroy (d.c);
}

}
REGISTER_PROP ("C28", geom_prop)

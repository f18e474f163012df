/* C26: the parallel VTK files are parsed and decoded and compared with the
 * leaves, the geometry and the data they were written from.  The writer is
 * exercised in all its output formats (see vtk_alt.h). */
#include "vtkread.hpp"

#define VN(x) p4est_vtk_##x
#ifdef P4_TO_P8
#define V1(x) p8est_vtk_##x##_alt1
#define V2(x) p8est_vtk_##x##_alt2
#else
#define V1(x) p4est_vtk_##x##_alt1
#define V2(x) p4est_vtk_##x##_alt2
#endif
typedef p4est_vtk_context_t VC;
extern "C" {
#define DECL(V) \
  VC *V (context_new) (p4est_t *, const char *); void V (context_set_geom) (VC *, p4est_geometry_t *); \
  void V (context_set_scale) (VC *, double); void V (context_set_continuous) (VC *, int); void V (context_destroy) (VC *); \
  void V (write_file) (p4est_t *, p4est_geometry_t *, const char *); VC *V (write_header) (VC *); VC *V (write_header_ho) (VC *, sc_array_t *, int); \
  VC *V (write_cell_data) (VC *, int, int, int, int, int, int, const char *[], sc_array_t *[]); \
  VC *V (write_cell_dataf) (VC *, int, int, int, int, int, int, ...); VC *V (write_point_dataf) (VC *, int, int, ...); int V (write_footer) (VC *);
DECL (V1)
DECL (V2)
}

namespace {
struct Api
{
  VC *(*context_new) (p4est_t *, const char *); void (*set_geom) (VC *, p4est_geometry_t *); void (*set_scale) (VC *, double);
  void (*set_continuous) (VC *, int); void (*destroy) (VC *); void (*write_file) (p4est_t *, p4est_geometry_t *, const char *);
  VC *(*header) (VC *); VC *(*header_ho) (VC *, sc_array_t *, int);
  VC *(*cell) (VC *, int, int, int, int, int, int, const char *[], sc_array_t *[]);
  VC *(*cellf) (VC *, int, int, int, int, int, int, ...); VC *(*pointf) (VC *, int, int, ...); int (*footer) (VC *);
};
#define API(V) { V (context_new), V (context_set_geom), V (context_set_scale), V (context_set_continuous), V (context_destroy), V (write_file), \
  V (write_header), V (write_header_ho), V (write_cell_data), V (write_cell_dataf), V (write_point_dataf), V (write_footer) }
const Api apis[3] = {
  { p4est_vtk_context_new, p4est_vtk_context_set_geom, p4est_vtk_context_set_scale, p4est_vtk_context_set_continuous, p4est_vtk_context_destroy,
    p4est_vtk_write_file, p4est_vtk_write_header, p4est_vtk_write_header_ho, p4est_vtk_write_cell_data, p4est_vtk_write_cell_dataf,
    p4est_vtk_write_point_dataf, p4est_vtk_write_footer },
  API (V1), API (V2) };

/* -------------------------------------------------------------- expectation */
struct Field { std::string name; int comps; std::vector<double> v; };
struct Want
{
  int variant = 0, ho = 0, n1d = 2;
  double scale = 1; bool reuse = false;
  p4est_geometry_t *geom = nullptr;
  bool tree = false, level = false, rank = false; int wrap = 0;
  bool celldata = false, pointdata = false;
  std::vector<Field> cell, point;       /* point values per leaf and corner (or high order point) */
  std::vector<double> hopos;
  bool balanced = false;
};
double rv (Rng & r)
{
  switch (r.below (6)) {
  case 0: return r.range (-5, 5);
  case 1: return (r.unit () - .5) * 1e12;
  case 2: return (r.unit () - .5) * 1e-12;
  case 3: return 0.;
  default: return r.unit () * 2 - 1;
  }
}
/* a geometry of our own */
void wavy (p4est_geometry_t *, p4est_topidx_t t, const double a[3], double x[3])
{
  x[0] = a[0] + 3. * t + .1 * a[1] * a[1];
  x[1] = 2. * a[1] - a[0] * a[0] * .3 + .25 * a[2];
  x[2] = a[2] * (1. + .5 * a[0]) + .125 * a[0] * a[1] - t;
}
void corner_pos (p4est_t * p, const Want & w, const Leaf & a, int k, double x[3])
{
  double e[3] = { 0, 0, 0 };
  for (int i = 0; i < DIM; ++i) {
    double lo = (double) a.x[i] / (double) RL, h = (double) a.len () / (double) RL;
    double c = (k >> i) & 1;
    e[i] = lo + h * (.5 + (c - .5) * w.scale);
  }
  if (w.geom) { w.geom->X (w.geom, a.t, e, x); return; }
  for (int j = 0; j < 3; ++j) {
    x[j] = 0;
    for (int q = 0; q < NC; ++q) {
      double f = 1;
      for (int i = 0; i < DIM; ++i) f *= (q >> i) & 1 ? e[i] : 1 - e[i];
      x[j] += f * p->connectivity->vertices[3 * p->connectivity->tree_to_vertex[NC * a.t + q] + j];
    }
  }
}
/* position (i, j, k) of each point of a Lagrange cell in the order of the VTK cell */
std::vector<P3> lagrange (int n)
{
  std::vector<P3> o; i64 m = n - 1;
  static const int cc[8][3] = { {0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1} };
  int nc = DIM == 3 ? 8 : 4;
  for (int c = 0; c < nc; ++c) o.push_back ({ cc[c][0] * m, cc[c][1] * m, cc[c][2] * m });
  static const int ed3[12][2] = { {0,1},{1,2},{3,2},{0,3},{4,5},{5,6},{7,6},{4,7},{0,4},{1,5},{3,7},{2,6} };
  for (int e = 0; e < (DIM == 3 ? 12 : 4); ++e) {
    const int *a = cc[ed3[e][0]], *b = cc[ed3[e][1]];
    for (i64 s = 1; s < m; ++s) { P3 q; for (int i = 0; i < 3; ++i) q[i] = a[i] * m + (b[i] - a[i]) * s; o.push_back (q); }
  }
  if (DIM == 2) { for (i64 j = 1; j < m; ++j) for (i64 i = 1; i < m; ++i) o.push_back ({ i, j, 0 }); return o; }
  for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
    int u = d == 0 ? 1 : 0, v = d == 2 ? 1 : 2;
    for (i64 b = 1; b < m; ++b) for (i64 a = 1; a < m; ++a) { P3 q; q[d] = s * m; q[u] = a; q[v] = b; o.push_back (q); }
  }
  for (i64 k = 1; k < m; ++k) for (i64 j = 1; j < m; ++j) for (i64 i = 1; i < m; ++i) o.push_back ({ i, j, k });
  return o;
}

void judge_values (const Node & sec, const Want & w, const char *what, const std::string & name, const char *type, int comps, const std::vector<double> & want)
{
  const Node *d = array (sec, name);
  if (!d) { FAILK ("array", "no single array %s", name.c_str ()); return; }
  CHK (d->at ("type") == type && comps_of (*d) == std::to_string (comps), "array-type", "array %s has type %s and %s components", name.c_str (), d->at ("type").c_str (), comps_of (*d).c_str ());
  std::vector<double> v; std::string why;
  if (!numbers (*d, w.variant, v, why)) { FAILK ("array-decode", "array %s does not decode: %s", name.c_str (), why.c_str ()); return; }
  if (v.size () != want.size ()) { FAILK ("array-size", "array %s has %zu entries instead of %zu", name.c_str (), v.size (), want.size ()); return; }
  for (size_t i = 0; i < v.size (); ++i) if (v[i] != want[i]) { FAILK (what, "array %s entry %zu is %.17g instead of %.17g", name.c_str (), i, v[i], want[i]); break; }
  count (what, (long) v.size ());
}
double rnd (const Want & w, double x) { return w.variant == 0 ? (double) (float) x : x; }

void judge_piece (p4est_t * p, const Want & w, const std::string & base)
{
  const char *fl = w.variant == 0 ? "Float32" : "Float64";
  char nm[32]; snprintf (nm, sizeof nm, "_%04d.vtu", p->mpirank);
  std::string s;
  if (!slurp (base + nm, s)) { FAILK ("file", "no file %s%s", base.c_str (), nm); return; }
  Node root; Xml x (s);
  if (!x.doc (root)) { FAILK ("xml", "file %s is not well formed: %s", nm, x.err.c_str ()); return; }
  CHK (root.name == "VTKFile" && root.at ("type") == "UnstructuredGrid" && root.at ("byte_order") == "LittleEndian" && root.at ("compressor") == (w.variant == 0 ? "vtkZLibDataCompressor" : ""), "file-head", "root element of piece");
  int t1, t2;
  const Node *ug = child (root, "UnstructuredGrid", t1);
  const Node *pc = ug ? child (*ug, "Piece", t2) : nullptr;
  if (!pc || t1 != 1 || t2 != 1) { FAILK ("structure", "no single piece"); return; }
  std::vector<Leaf> q = local_leaves (p);
  size_t n = q.size ();
  int pts_t, cells_t, cd_t, pd_t;
  const Node *pts = child (*pc, "Points", pts_t), *cells = child (*pc, "Cells", cells_t), *cd = child (*pc, "CellData", cd_t), *pd = child (*pc, "PointData", pd_t);
  if (pts_t != 1 || cells_t != 1 || cd_t != (w.celldata ? 1 : 0) || pd_t != (w.pointdata ? 1 : 0)) { FAILK ("structure", "%d points, %d cells, %d cell data, %d point data sections", pts_t, cells_t, cd_t, pd_t); return; }
  CHK (pc->at ("NumberOfCells") == std::to_string (n), "cells", "%s cells for %zu leaves", pc->at ("NumberOfCells").c_str (), n);
  i64 np = atoll (pc->at ("NumberOfPoints").c_str ());
  int per = NC;
  if (w.ho) { per = 1; for (int i = 0; i < DIM; ++i) per *= w.n1d; }
  if (!w.reuse) CHK (np == (i64) n * per, "points", "%lld points for %zu cells", (long long) np, n);
  /* decode the mesh */
  std::vector<double> pos, con; std::string why;
  const Node *dp = array (*pts, "Position"), *dc = array (*cells, "connectivity");
  if (!dp || !dc || pts->kids.size () != 1 || cells->kids.size () != 3) { FAILK ("structure", "points or cells arrays"); return; }
  CHK (dp->at ("type") == fl && comps_of (*dp) == "3", "array-type", "position type %s", dp->at ("type").c_str ());
  CHK (dc->at ("type") == "Int32" && comps_of (*dc) == "1", "array-type", "connectivity type %s", dc->at ("type").c_str ());
  if (!numbers (*dp, w.variant, pos, why)) { FAILK ("array-decode", "positions: %s", why.c_str ()); return; }
  if (!numbers (*dc, w.variant, con, why)) { FAILK ("array-decode", "connectivity: %s", why.c_str ()); return; }
  if ((i64) pos.size () != 3 * np || con.size () != n * per) { FAILK ("array-size", "%zu coordinates of %lld points, %zu connectivity entries", pos.size (), (long long) np, con.size ()); return; }
  std::vector<double> off, ty;
  for (size_t i = 0; i < n; ++i) { off.push_back (per * (double) (i + 1)); ty.push_back (w.ho ? (DIM == 3 ? 72 : 70) : (DIM == 3 ? 11 : 8)); }
  judge_values (*cells, w, "offsets", "offsets", "Int32", 1, off);
  judge_values (*cells, w, "types", "types", "UInt8", 1, ty);
  for (double c : con) if (c < 0 || c >= np || c != (i64) c) { FAILK ("connectivity", "connectivity entry %g of %lld points", c, (long long) np); return; }
  std::vector<int> used (np, 0);
  for (double c : con) ++used[(i64) c];
  for (i64 i = 0; i < np; ++i) if (!used[i]) { FAILK ("connectivity", "point %lld is used by no cell", (long long) i); break; }
  if (!w.ho) {
    std::set<TP> dist; std::vector<TP> at (np, TP { -1, {0, 0, 0} });
    double tol = w.variant == 0 ? 4e-7 : 2e-14;
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < NC; ++k) {
      double e[3], mag = 1; i64 c = (i64) con[NC * i + k];
      corner_pos (p, w, q[i], k, e);
      for (int j = 0; j < 3; ++j) mag = std::max (mag, fabs (e[j]));
      if (!w.geom) for (int z = 0; z < NC; ++z) for (int j = 0; j < 3; ++j) mag = std::max (mag, fabs (p->connectivity->vertices[3 * p->connectivity->tree_to_vertex[NC * q[i].t + z] + j]));
      for (int j = 0; j < 3; ++j) if (!(fabs (pos[3 * c + j] - e[j]) <= tol * mag)) {
        FAILK ("position", "corner %d of leaf %s coordinate %d is %.17g instead of %.17g (scale %g)", k, leaf_str (q[i]).c_str (), j, pos[3 * c + j], e[j], w.scale); goto posdone; }
      count ("corners_placed");
      TP tp; tp.t = q[i].t; tp.x = { 0, 0, 0 };
      for (int d = 0; d < DIM; ++d) tp.x[d] = q[i].x[d] + ((k >> d) & 1) * q[i].len ();
      if (w.reuse) {
        dist.insert (tp);
        if (at[c].t < 0) at[c] = tp;
        else if (!(at[c] == tp)) { FAILK ("connectivity", "point %lld serves two different corners", (long long) c); goto posdone; }
      }
      else if (used[c] != 1) { FAILK ("connectivity", "point %lld shared by cells", (long long) c); goto posdone; }
    }
    if (w.reuse) { count ("corners_shared", (long) (n * NC - np)); if (w.balanced) CHK (np == (i64) dist.size (), "reuse", "%lld points for %zu different corners", (long long) np, dist.size ()); }
  posdone:;
  }
  else {
    std::vector<P3> o = lagrange (w.n1d);
    for (size_t i = 0; i < n && !run.nfail_case; ++i) for (int k = 0; k < per; ++k) {
      i64 c = (i64) con[per * i + k], m = i * per + o[k][0] + w.n1d * (o[k][1] + w.n1d * o[k][2]);
      if (c != m) { FAILK ("high-order", "point %d of cell %zu is %lld instead of %lld", k, i, (long long) c, (long long) m); break; }
      for (int j = 0; j < 3; ++j) { double e = j < DIM ? rnd (w, w.hopos[DIM * c + j]) : 0.; if (pos[3 * c + j] != e) { FAILK ("position", "high order point %lld coordinate %d is %.17g instead of %.17g", (long long) c, j, pos[3 * c + j], e); break; } }
      count ("high_order_points");
    }
  }
  /* cell data */
  if (cd) {
    std::vector<double> v;
    size_t want = (w.tree ? 1 : 0) + (w.level ? 1 : 0) + (w.rank ? 1 : 0) + w.cell.size ();
    CHK (cd->kids.size () == want, "cell-arrays", "%zu cell arrays instead of %zu", cd->kids.size (), want);
    if (w.tree) { v.clear (); for (auto & a : q) v.push_back (a.t); judge_values (*cd, w, "tree_ids", "treeid", "Int32", 1, v); }
    if (w.level) { v.clear (); for (auto & a : q) v.push_back (a.l); judge_values (*cd, w, "levels", "level", "UInt8", 1, v); }
    if (w.rank) { v.assign (n, w.wrap > 0 ? p->mpirank % w.wrap : p->mpirank); judge_values (*cd, w, "ranks", "mpirank", "Int32", 1, v); }
    for (auto & f : w.cell) { v = f.v; for (auto & y : v) y = rnd (w, y); judge_values (*cd, w, "cell_values", f.name, fl, f.comps, v); }
  }
  if (pd) {
    CHK (pd->kids.size () == w.point.size (), "point-arrays", "%zu point arrays instead of %zu", pd->kids.size (), w.point.size ());
    for (auto & f : w.point) {
      const Node *d = array (*pd, f.name);
      std::vector<double> v;
      if (!d) { FAILK ("array", "no single array %s", f.name.c_str ()); continue; }
      CHK (d->at ("type") == fl && comps_of (*d) == std::to_string (f.comps), "array-type", "point array %s has type %s and %s components", f.name.c_str (), d->at ("type").c_str (), comps_of (*d).c_str ());
      if (!numbers (*d, w.variant, v, why)) { FAILK ("array-decode", "point array %s: %s", f.name.c_str (), why.c_str ()); continue; }
      if ((i64) v.size () != np * f.comps) { FAILK ("array-size", "point array %s has %zu entries for %lld points", f.name.c_str (), v.size (), (long long) np); continue; }
      if (!w.reuse) { for (size_t i = 0; i < v.size (); ++i) if (v[i] != rnd (w, f.v[i])) { FAILK ("point_values", "point array %s entry %zu is %.17g instead of %.17g", f.name.c_str (), i, v[i], f.v[i]); break; } }
      else for (size_t i = 0; i < n * NC; ++i) for (int j = 0; j < f.comps; ++j) {
        double a = v[f.comps * (i64) con[i] + j], e = rnd (w, f.v[f.comps * i + j]);
        if (a != e) { FAILK ("point_values", "point array %s at corner %zu is %.17g instead of %.17g", f.name.c_str (), i, a, e); i = n * NC; break; }
      }
      count (w.reuse ? "point_values_shared" : "point_values", (long) v.size ());
    }
  }
  count ("pieces");
}
void judge_index (p4est_t * p, const Want & w, const std::string & base, const char *leafname)
{
  const char *fl = w.variant == 0 ? "Float32" : "Float64";
  std::string s;
  if (!slurp (base + ".pvtu", s)) { FAILK ("file", "no index file"); return; }
  Node root; Xml x (s);
  if (!x.doc (root)) { FAILK ("xml", "index file is not well formed: %s", x.err.c_str ()); return; }
  CHK (root.name == "VTKFile" && root.at ("type") == "PUnstructuredGrid" && root.at ("byte_order") == "LittleEndian" && root.at ("compressor") == (w.variant == 0 ? "vtkZLibDataCompressor" : ""), "file-head", "root element of index");
  int t, tp, tc, td;
  const Node *g = child (root, "PUnstructuredGrid", t);
  if (!g || t != 1) { FAILK ("structure", "index grid"); return; }
  const Node *pp = child (*g, "PPoints", tp), *cd = child (*g, "PCellData", tc), *pd = child (*g, "PPointData", td);
  if (tp != 1 || tc != (w.celldata ? 1 : 0) || td != (w.pointdata ? 1 : 0)) { FAILK ("index", "%d points, %d cell data, %d point data sections", tp, tc, td); return; }
  struct A { std::string n, t; int c; };
  auto cmp = [&] (const Node & sec, const std::vector<A> & want, const char *what) {
    if (sec.kids.size () != want.size ()) { FAILK ("index", "%zu %s arrays in the index instead of %zu", sec.kids.size (), what, want.size ()); return; }
    for (auto & a : want) { const Node *d = array (sec, a.n);
      if (!d || d->name != "PDataArray" || d->at ("type") != a.t || comps_of (*d) != std::to_string (a.c)) { FAILK ("index", "%s array %s missing from or different in the index", what, a.n.c_str ()); return; } }
  };
  cmp (*pp, { { "Position", fl, 3 } }, "point position");
  std::vector<A> l;
  if (w.tree) l.push_back ({ "treeid", "Int32", 1 });
  if (w.level) l.push_back ({ "level", "UInt8", 1 });
  if (w.rank) l.push_back ({ "mpirank", "Int32", 1 });
  for (auto & f : w.cell) l.push_back ({ f.name, fl, f.comps });
  if (cd) cmp (*cd, l, "cell");
  l.clear ();
  for (auto & f : w.point) l.push_back ({ f.name, fl, f.comps });
  if (pd) cmp (*pd, l, "point");
  std::vector<std::string> have, want;
  for (auto & k : g->kids) if (k.name == "Piece") have.push_back (k.at ("Source"));
  std::string vis = "!NBLOCKS " + std::to_string (p->mpisize) + "\n";
  for (int i = 0; i < p->mpisize; ++i) { char b[128]; snprintf (b, sizeof b, "%s_%04d.vtu", leafname, i); want.push_back (b); vis += std::string (b) + "\n"; }
  CHK (have == want, "pieces-listed", "%zu pieces listed for %d processes", have.size (), p->mpisize);
  std::string v;
  if (!slurp (base + ".visit", v)) { FAILK ("file", "no visit file"); return; }
  CHK (v == vis, "visit", "the visit file reads '%s'", v.substr (0, 200).c_str ());
  count ("index_files");
}

sc_array_t *arr (const std::vector<double> & v)
{
  sc_array_t *a = sc_array_new_count (sizeof (double), v.size ());
  if (!v.empty ()) memcpy (a->array, v.data (), v.size () * sizeof (double));
  return a;
}

#ifndef P4_TO_P8
}
void column_vtk_case (Rng & r);      /* p_colvtk.cpp */
namespace {
#endif
void vtk_case (Rng & r)
{
#ifndef P4_TO_P8
  if (r.chance (.2)) { column_vtk_case (r); return; }
#endif
  int kind = r.below (10);
  Want w;
  ConnOpts co; co.want_vertices = true;
  bool owngeo = r.chance (.3);
  if (owngeo) co.want_vertices = false;
  std::string name;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  if (!c->num_vertices) owngeo = true;
  ForestOpts o; o.target = r.pick ({ 1, 20, 100, 300 });
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, o);
  if (r.chance (.5)) { p4est_balance (p, P4EST_CONNECT_FULL, NULL); random_partition (r, p, true); w.balanced = true; }
  GForest gf = gather (p);
  /* the random number generator continues identically on all processes; local values come from another one */
  Rng lr (hcomb (r.next (), run.rank));
  u64 salt = r.next ();
  w.variant = r.pick ({ 0, 0, 1, 2 });
  const Api & A = apis[w.variant];
  p4est_geometry_t own; memset (&own, 0, sizeof own); own.name = "wavy"; own.X = wavy;
  p4est_geometry_t *cg = nullptr;
  if (owngeo) w.geom = &own;
  else if (r.chance (.2)) w.geom = cg = p4est_geometry_new_connectivity (c);
  describe ("%s variant %d kind %d %zu leaves", name.c_str (), w.variant, kind, gf.q.size ());
  char leafname[64]; snprintf (leafname, sizeof leafname, "%s%ld", r.chance (.2) ? "out.a-b" : "vtk", run.caseno);
  std::string base = scratch (leafname);
  std::vector<Leaf> q = local_leaves (p);
  size_t n = q.size ();
  bool done = true;
  if (kind == 0) {
    w.scale = .95; w.tree = w.level = w.rank = w.celldata = true;
    A.write_file (p, w.geom, base.c_str ());
    gcount ("plain_files");
  }
  else if (kind == 1 && r.chance (.5)) {
    std::string bad = scratch ("nowhere/") + leafname;
    VC *k = A.context_new (p, bad.c_str ());
    A.set_geom (k, w.geom);
    if (r.chance (.5)) { A.set_scale (k, 1.); A.set_continuous (k, 1); }
    VC *k2 = A.header (k);
    CHK (k2 == nullptr, "refusal", "writing into a missing directory succeeded");
    gcount ("unwritable");
    done = false;
  }
  else {
    w.ho = kind == 2 || kind == 3;
    VC *k = A.context_new (p, base.c_str ());
    if (r.chance (.5)) { w.scale = r.pick ({ 1., 1., .5, .9, .001, r.unit () * .99 + .005 }); A.set_scale (k, w.scale); }
    else w.scale = .95;
    int cont = 0;
    if (r.chance (.6)) { cont = r.below (2); A.set_continuous (k, cont); }
    if (r.chance (.3)) { cont = 1; w.scale = 1.; A.set_scale (k, 1.); A.set_continuous (k, 1); }
    if (w.geom || r.chance (.3)) A.set_geom (k, w.geom);
    w.reuse = !w.ho && w.scale == 1. && cont;
    size_t per = NC;
    if (w.ho) {
      w.n1d = r.range (2, 5); per = 1; for (int i = 0; i < DIM; ++i) per *= w.n1d;
      for (size_t i = 0; i < n * per * DIM; ++i) w.hopos.push_back (rv (lr));
      sc_array_t *a = arr (w.hopos);
      k = A.header_ho (k, a, w.n1d);
      sc_array_destroy (a);
    }
    else k = A.header (k);
    CHK (k != nullptr, "header", "header fails");
    if (!k) { done = false; goto out; }
    {
    bool cells = r.chance (.85), points = r.chance (.6), cellsfirst = r.chance (.7), early = r.chance (.05);
    int earlyat = r.below (3);
    int ncs = r.below (3), ncv = r.below (3), nps = r.below (3), npv = r.below (3);
    w.tree = r.chance (.6); w.level = r.chance (.6); w.rank = r.chance (.6); w.wrap = r.pick ({ 0, 0, 1, 2, 3 });
    std::vector<std::string> used;
    if (cells) {
      for (int i = 0; i < ncs + ncv; ++i) { Field f; f.comps = i < ncs ? 1 : 3; f.name = std::string (i < ncs ? "cs" : "cv") + std::to_string (i); for (size_t z = 0; z < n * f.comps; ++z) f.v.push_back (rv (lr)); w.cell.push_back (f); }
      w.celldata = w.tree || w.level || w.rank || w.wrap || ncs || ncv;
    }
    else w.tree = w.level = w.rank = false;
    if (points) {
      for (int i = 0; i < nps + npv; ++i) {
        Field f; f.comps = i < nps ? 1 : 3; f.name = std::string (i < nps ? "ps" : "pv") + std::to_string (i);
        for (size_t z = 0; z < n; ++z) for (size_t m = 0; m < per; ++m) {
          u64 h = hcomb (salt, q[z].t);
          if (w.reuse) for (int d = 0; d < DIM; ++d) h = hcomb (h, (u64) (q[z].x[d] + ((m >> d) & 1) * q[z].len ()));
          else h = hcomb (h, z * 1000 + m + 77777 * (u64) run.rank);
          Rng pr (hcomb (h, i));
          for (int j = 0; j < f.comps; ++j) f.v.push_back (rv (pr));
        }
        w.point.push_back (f);
      }
      w.pointdata = nps || npv;
    }
    for (int step = 0; step < 2 && k; ++step) {
      if (early && earlyat == step) break;
      if ((step == 0) == cellsfirst) {
        if (!cells) continue;
        std::vector<sc_array_t *> a; std::vector<const char *> nm;
        for (auto & f : w.cell) { a.push_back (arr (f.v)); nm.push_back (f.name.c_str ()); }
        a.push_back (nullptr); nm.push_back (nullptr);
        VC *k2 = nullptr;
        if (r.chance (.5)) k2 = A.cell (k, w.tree, w.level, w.rank, w.wrap, ncs, ncv, nm.data (), a.data ());
        else switch (ncs + ncv) {
        case 0: k2 = A.cellf (k, w.tree, w.level, w.rank, w.wrap, ncs, ncv, k); break;
        case 1: k2 = A.cellf (k, w.tree, w.level, w.rank, w.wrap, ncs, ncv, nm[0], a[0], k); break;
        case 2: k2 = A.cellf (k, w.tree, w.level, w.rank, w.wrap, ncs, ncv, nm[0], a[0], nm[1], a[1], k); break;
        case 3: k2 = A.cellf (k, w.tree, w.level, w.rank, w.wrap, ncs, ncv, nm[0], a[0], nm[1], a[1], nm[2], a[2], k); break;
        default: k2 = A.cellf (k, w.tree, w.level, w.rank, w.wrap, ncs, ncv, nm[0], a[0], nm[1], a[1], nm[2], a[2], nm[3], a[3], k); break;
        }
        CHK (k2 == k, "cell-return", "cell data returns another context");
        k = k2;
        for (auto y : a) if (y) sc_array_destroy (y);
      }
      else {
        if (!points) continue;
        std::vector<sc_array_t *> a; std::vector<const char *> nm;
        for (auto & f : w.point) { a.push_back (arr (f.v)); nm.push_back (f.name.c_str ()); }
        VC *k2 = nullptr;
        switch (nps + npv) {
        case 0: k2 = A.pointf (k, nps, npv, k); break;
        case 1: k2 = A.pointf (k, nps, npv, nm[0], a[0], k); break;
        case 2: k2 = A.pointf (k, nps, npv, nm[0], a[0], nm[1], a[1], k); break;
        case 3: k2 = A.pointf (k, nps, npv, nm[0], a[0], nm[1], a[1], nm[2], a[2], k); break;
        default: k2 = A.pointf (k, nps, npv, nm[0], a[0], nm[1], a[1], nm[2], a[2], nm[3], a[3], k); break;
        }
        CHK (k2 == k, "point-return", "point data returns another context");
        k = k2;
        for (auto y : a) sc_array_destroy (y);
      }
    }
    if (early) { if (k) A.destroy (k); done = false; gcount ("aborted"); }
    else if (k) { int rc = A.footer (k); CHK (rc == 0, "footer", "footer returns %d", rc); }
    }
  }
out:
  MPI_Barrier (MPI_COMM_WORLD);
  if (done) {
    judge_piece (p, w, base);
    if (run.rank == 0) judge_index (p, w, base, leafname);
    gcount ("files");
    if (w.variant == 1) gcount ("text_files");
    if (w.variant == 2) gcount ("plain_binary_files");
    if (w.geom) gcount ("files_with_geometry");
    ++run.judged;
    distinct_state (hcomb (hcomb (gf.hash (true), conn_hash (c)), hcomb (w.variant * 16 + kind, (u64) (w.scale * 1e6))));
  }
  MPI_Barrier (MPI_COMM_WORLD);
  { char nm[32]; snprintf (nm, sizeof nm, "_%04d.vtu", run.rank); unlink ((base + nm).c_str ()); if (!run.rank) { unlink ((base + ".pvtu").c_str ()); unlink ((base + ".visit").c_str ()); } }
  if (cg) p4est_geometry_destroy (cg);
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
}
REGISTER_PROP ("C26", vtk_case)

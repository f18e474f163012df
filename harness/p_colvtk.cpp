/* C26, forests of columns: the files of p6est_vtk are parsed and compared with
 * the layers and the vertices at the bottom and at the top. */
#include "vtkread.hpp"
#ifndef P4_TO_P8
#include "p6model.hpp"
#include <p6est_vtk.h>
using namespace p6m;

extern "C" {
#define DECL(n) void p6est_vtk_write_file_##n (p6est_t *, const char *); \
  void p6est_vtk_write_all_##n (p6est_t *, double, int, int, int, int, int, const char *, ...); \
  int p6est_vtk_write_header_##n (p6est_t *, double, int, int, int, const char *, const char *, const char *); \
  int p6est_vtk_write_point_scalar_##n (p6est_t *, const char *, const char *, const double *); int p6est_vtk_write_footer_##n (p6est_t *, const char *);
DECL (alt1)
DECL (alt2)
}

namespace {
struct Api6
{
  void (*file) (p6est_t *, const char *);
  void (*all) (p6est_t *, double, int, int, int, int, int, const char *, ...);
  int (*header) (p6est_t *, double, int, int, int, const char *, const char *, const char *);
  int (*scalar) (p6est_t *, const char *, const char *, const double *); int (*footer) (p6est_t *, const char *);
};
const Api6 apis[3] = {
  { p6est_vtk_write_file, p6est_vtk_write_all, p6est_vtk_write_header, p6est_vtk_write_point_scalar, p6est_vtk_write_footer },
  { p6est_vtk_write_file_alt1, p6est_vtk_write_all_alt1, p6est_vtk_write_header_alt1, p6est_vtk_write_point_scalar_alt1, p6est_vtk_write_footer_alt1 },
  { p6est_vtk_write_file_alt2, p6est_vtk_write_all_alt2, p6est_vtk_write_header_alt2, p6est_vtk_write_point_scalar_alt2, p6est_vtk_write_footer_alt2 } };

struct Cell { int t; double lo[3], len[3]; };
struct Field6 { std::string name; std::vector<double> v; };
struct Want6 { int variant; double scale; bool tree, rank; int wrap; std::vector<Field6> f; };

bool values (const Node & sec, const Want6 & w, const char *what, const std::string & name, const char *type, const char *comps, std::vector<double> & v, size_t n)
{
  const Node *d = array (sec, name); std::string why;
  if (!d) { FAILK ("array", "columns: no single array %s", name.c_str ()); return false; }
  CHK (d->at ("type") == type && comps_of (*d) == comps, "array-type", "columns: array %s has type %s and %s components", name.c_str (), d->at ("type").c_str (), comps_of (*d).c_str ());
  if (!numbers (*d, w.variant, v, why)) { FAILK ("array-decode", "columns: array %s does not decode: %s", name.c_str (), why.c_str ()); return false; }
  if (v.size () != n) { FAILK ("array-size", "columns: array %s has %zu entries instead of %zu", name.c_str (), v.size (), n); return false; }
  (void) what;
  return true;
}
void equal (const Node & sec, const Want6 & w, const char *what, const std::string & name, const char *type, const std::vector<double> & want)
{
  std::vector<double> v;
  if (!values (sec, w, what, name, type, "1", v, want.size ())) return;
  for (size_t i = 0; i < v.size (); ++i) if (v[i] != want[i]) { FAILK (what, "columns: array %s entry %zu is %.17g instead of %.17g", name.c_str (), i, v[i], want[i]); return; }
  count ("layer_values", (long) v.size ());
}
void judge (const St & s, const std::vector<Cell> & cells, const std::vector<double> & top, const double *height, const Want6 & w, const std::string & base, const char *leafname)
{
  const char *fl = w.variant == 0 ? "Float32" : "Float64";
  char nm[32]; snprintf (nm, sizeof nm, "_%04d.vtu", run.rank);
  std::string text;
  if (!slurp (base + nm, text)) { FAILK ("file", "columns: no file %s", nm); return; }
  Node root; Xml x (text);
  if (!x.doc (root)) { FAILK ("xml", "columns: file %s is not well formed: %s", nm, x.err.c_str ()); return; }
  CHK (root.name == "VTKFile" && root.at ("type") == "UnstructuredGrid" && root.at ("byte_order") == "LittleEndian" && root.at ("compressor") == (w.variant == 0 ? "vtkZLibDataCompressor" : ""), "file-head", "columns: root element of piece");
  int a, b, c, d, e, f;
  const Node *ug = child (root, "UnstructuredGrid", a), *pc = ug ? child (*ug, "Piece", b) : nullptr;
  if (!pc || a != 1 || b != 1) { FAILK ("structure", "columns: no single piece"); return; }
  const Node *pts = child (*pc, "Points", c), *cl = child (*pc, "Cells", d), *cd = child (*pc, "CellData", e), *pd = child (*pc, "PointData", f);
  if (c != 1 || d != 1 || e != (w.tree || w.rank ? 1 : 0) || f != 1) { FAILK ("structure", "columns: %d points, %d cells, %d cell data, %d point data sections", c, d, e, f); return; }
  size_t n = cells.size ();
  CHK (pc->at ("NumberOfCells") == std::to_string (n) && pc->at ("NumberOfPoints") == std::to_string (8 * n), "cells", "columns: %s cells and %s points for %zu layers", pc->at ("NumberOfCells").c_str (), pc->at ("NumberOfPoints").c_str (), n);
  std::vector<double> con, off, ty, tr, v, pos;
  for (size_t i = 0; i < n; ++i) { for (int k = 0; k < 8; ++k) con.push_back (8 * i + k); off.push_back (8 * (i + 1)); ty.push_back (11); tr.push_back (cells[i].t); }
  if (pts->kids.size () != 1 || cl->kids.size () != 3) { FAILK ("structure", "columns: points or cells arrays"); return; }
  equal (*cl, w, "connectivity", "connectivity", "Int32", con);
  equal (*cl, w, "offsets", "offsets", "Int32", off);
  equal (*cl, w, "types", "types", "UInt8", ty);
  if (!values (*pts, w, "position", "Position", fl, "3", pos, 24 * n)) return;
  const p4est_connectivity_t *c4 = s.conn->conn4;
  double tol = w.variant == 0 ? 4e-7 : 2e-14;
  for (size_t i = 0; i < n; ++i) for (int k = 0; k < 8; ++k) {
    double eta[3], mag = 1;
    for (int j = 0; j < 3; ++j) eta[j] = cells[i].lo[j] + cells[i].len[j] * (.5 + (((k >> j) & 1) - .5) * w.scale);
    for (int j = 0; j < 3; ++j) {
      double want = 0;
      for (int q = 0; q < 4; ++q) {
        int vt = c4->tree_to_vertex[4 * cells[i].t + q];
        double lo = c4->vertices[3 * vt + j], hi = top.empty () ? lo + height[j] : top[3 * vt + j];
        want += (q & 1 ? eta[0] : 1 - eta[0]) * (q & 2 ? eta[1] : 1 - eta[1]) * (lo + eta[2] * (hi - lo));
        mag = std::max ({ mag, fabs (lo), fabs (hi) });
      }
      if (!(fabs (pos[24 * i + 3 * k + j] - want) <= tol * mag)) { FAILK ("position", "columns: corner %d of layer %zu coordinate %d is %.17g instead of %.17g (scale %g)", k, i, j, pos[24 * i + 3 * k + j], want, w.scale); goto placed; }
    }
    count ("layer_corners_placed");
  }
placed:
  if (cd) {
    CHK (cd->kids.size () == (size_t) (w.tree + w.rank), "cell-arrays", "columns: %zu cell arrays", cd->kids.size ());
    if (w.tree) equal (*cd, w, "tree_ids", "treeid", "Int32", tr);
    if (w.rank) equal (*cd, w, "ranks", "mpirank", "Int32", std::vector<double> (n, w.wrap > 0 ? run.rank % w.wrap : run.rank));
  }
  CHK (pd->kids.size () == w.f.size (), "point-arrays", "columns: %zu point arrays instead of %zu", pd->kids.size (), w.f.size ());
  for (auto & z : w.f) {
    v = z.v;
    if (w.variant == 0) for (auto & y : v) y = (float) y;
    equal (*pd, w, "point_values", z.name, fl, v);
  }
  count ("layer_pieces");
  if (run.rank) return;
  if (!slurp (base + ".pvtu", text)) { FAILK ("file", "columns: no index file"); return; }
  Node ix; Xml y (text);
  if (!y.doc (ix)) { FAILK ("xml", "columns: index is not well formed: %s", y.err.c_str ()); return; }
  CHK (ix.name == "VTKFile" && ix.at ("type") == "PUnstructuredGrid" && ix.at ("byte_order") == "LittleEndian" && ix.at ("compressor") == (w.variant == 0 ? "vtkZLibDataCompressor" : ""), "file-head", "columns: root element of index");
  const Node *g = child (ix, "PUnstructuredGrid", a);
  if (!g || a != 1) { FAILK ("structure", "columns: index grid"); return; }
  const Node *pp = child (*g, "PPoints", b); cd = child (*g, "PCellData", c); pd = child (*g, "PPointData", d);
  if (b != 1 || d != 1 || c != (w.tree || w.rank ? 1 : 0)) { FAILK ("index", "columns: sections of the index"); return; }
  auto has = [&] (const Node & sec, const std::string & nmv, const char *type, const char *comps) {
    const Node *z = array (sec, nmv);
    CHK (z && z->name == "PDataArray" && z->at ("type") == type && comps_of (*z) == comps, "index", "columns: array %s missing from or different in the index", nmv.c_str ());
  };
  CHK (pp->kids.size () == 1 && pd->kids.size () == w.f.size () && (!cd || cd->kids.size () == (size_t) (w.tree + w.rank)), "index", "columns: %zu, %zu arrays in the index", pp->kids.size (), pd->kids.size ());
  has (*pp, "Position", fl, "3");
  if (w.tree) has (*cd, "treeid", "Int32", "1");
  if (w.rank) has (*cd, "mpirank", "Int32", "1");
  for (auto & z : w.f) has (*pd, z.name, fl, "1");
  std::vector<std::string> have, want; std::string vis = "!NBLOCKS " + std::to_string (s.p->mpisize) + "\n", vt;
  for (auto & k : g->kids) if (k.name == "Piece") have.push_back (k.at ("Source"));
  for (int i = 0; i < s.p->mpisize; ++i) { char z[128]; snprintf (z, sizeof z, "%s_%04d.vtu", leafname, i); want.push_back (z); vis += std::string (z) + "\n"; }
  for (auto & h : have) { size_t k = h.rfind ('/'); if (k != std::string::npos) h = h.substr (k + 1); }
  CHK (have == want, "pieces-listed", "columns: %zu pieces listed for %d processes", have.size (), s.p->mpisize);
  if (!slurp (base + ".visit", vt)) { FAILK ("file", "columns: no visit file"); return; }
  std::string flat; size_t at = 0;
  while (at < vt.size ()) { size_t nl = vt.find ('\n', at); if (nl == std::string::npos) nl = vt.size (); std::string ln = vt.substr (at, nl - at); size_t k = ln.rfind ('/'); flat += (k == std::string::npos ? ln : ln.substr (k + 1)) + "\n"; at = nl + 1; }
  CHK (flat == vis, "visit", "columns: the visit file reads '%s'", vt.substr (0, 200).c_str ());
  count ("layer_index_files");
}
}

void column_vtk_case (Rng & r)
{
  p4est_connectivity_t *c4 = NULL;
  double height[3]; std::vector<double> top;
  St s = create (r, c4, true);
  if (!s.p) return;
  p6est_connectivity_t *cn = s.conn;
  if (cn->conn4->num_vertices) {
    for (int k = r.range (0, 4); k > 0; --k) { random_op (s, r, 5); if (allmax (run.nfail_case, MPI_COMM_WORLD)) { destroy (s, c4); return; } }
    s.snap ("before");
    if (cn->top_vertices) top.assign (cn->top_vertices, cn->top_vertices + 3 * cn->conn4->num_vertices);
    else memcpy (height, cn->height, sizeof height);
    std::vector<Cell> cells;
    for (auto & c : s.S) if (c.q.rank == run.rank) for (auto & l : c.L) {
      Cell k; k.t = c.q.t;
      for (int d = 0; d < 2; ++d) { k.lo[d] = (double) c.q.x[d] / (double) RL; k.len[d] = (double) c.q.len () / (double) RL; }
      k.lo[2] = (double) l.z / (double) RL; k.len[2] = (double) zlen (l.l) / (double) RL;
      cells.push_back (k);
    }
    Want6 w; w.variant = r.pick ({ 0, 0, 1, 2 }); w.scale = 1; w.tree = w.rank = true; w.wrap = 0;
    const Api6 & A = apis[w.variant];
    char leafname[64]; snprintf (leafname, sizeof leafname, "col%ld", run.caseno);
    std::string base = scratch (leafname);
    int kind = r.below (3);
    u64 salt = r.next ();
    if (kind == 0) A.file (s.p, base.c_str ());
    else {
      if (r.chance (.7)) w.scale = r.pick ({ 1., .5, .95, .01, 0., r.unit () });
      w.tree = r.chance (.6); w.rank = r.chance (.6); w.wrap = r.pick ({ 0, 0, 1, 2, 3 });
      int nf = r.below (4);
      for (int i = 0; i < nf; ++i) {
        Field6 f; f.name = "ps" + std::to_string (i); Rng lr (hcomb (salt, 100 * i + run.rank));
        for (size_t z = 0; z < 8 * cells.size (); ++z) f.v.push_back (lr.chance (.3) ? lr.range (-9, 9) : (lr.unit () - .5) * (lr.chance (.2) ? 1e9 : 1));
        w.f.push_back (f);
      }
      auto D = [&] (int i) { return w.f[i].v.data (); };
      auto N = [&] (int i) { return w.f[i].name.c_str (); };
      if (kind == 1) {
        if (nf == 0) A.all (s.p, w.scale, w.tree, w.rank, w.wrap, 0, 0, base.c_str ());
        else if (nf == 1) A.all (s.p, w.scale, w.tree, w.rank, w.wrap, 1, 0, base.c_str (), N (0), D (0));
        else if (nf == 2) A.all (s.p, w.scale, w.tree, w.rank, w.wrap, 2, 0, base.c_str (), N (0), D (0), N (1), D (1));
        else A.all (s.p, w.scale, w.tree, w.rank, w.wrap, 3, 0, base.c_str (), N (0), D (0), N (1), D (1), N (2), D (2));
      } else {
        std::string names; for (auto & f : w.f) names += (names.empty () ? "" : ",") + f.name;
        int rc = A.header (s.p, w.scale, w.tree, w.rank, w.wrap, nf ? names.c_str () : NULL, NULL, base.c_str ());
        for (int i = 0; i < nf; ++i) rc |= A.scalar (s.p, base.c_str (), N (i), D (i));
        rc |= A.footer (s.p, base.c_str ());
        CHK (rc == 0, "column-return", "columns: writing returns %d", rc);
      }
      if (r.chance (.1)) {
        std::string bad = scratch ("nowhere/") + leafname;
        CHK (A.header (s.p, 1., 1, 1, 0, NULL, NULL, bad.c_str ()) != 0, "refusal", "columns: writing into a missing directory succeeded");
      }
    }
    MPI_Barrier (MPI_COMM_WORLD);
    judge (s, cells, top, height, w, base, leafname);
    MPI_Barrier (MPI_COMM_WORLD);
    { char nm[32]; snprintf (nm, sizeof nm, "_%04d.vtu", run.rank); unlink ((base + nm).c_str ()); if (!run.rank) { unlink ((base + ".pvtu").c_str ()); unlink ((base + ".visit").c_str ()); } }
    gcount ("column_files");
    ++run.judged;
    u64 h = 7; for (auto & a : s.S) { h = hcomb (h, hcomb (leafh (a.q), a.q.rank)); for (auto & l : a.L) h = hcomb (h, hcomb (l.z, l.l)); }
    distinct_state (hcomb (h, w.variant * 16 + kind));
  }
  destroy (s, c4);
}
#endif

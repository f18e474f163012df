/* C17: connectivities survive serialisation, broadcast and sharing; predicates; mesh files. */
#include "core.hpp"
#include "connmodel.hpp"
#include <cmath>
#include <sys/stat.h>
#ifdef P4_TO_P8
#include <p8est_tets_hexes.h>
#endif

namespace {

/* first difference of two connectivities, bit by bit */
static bool diff (p4est_connectivity_t * a, p4est_connectivity_t * b, bool attr, std::string & why)
{
#define DIFF(c, w) do { if (c) { why = w; return true; } } while (0)
  DIFF (a->num_vertices != b->num_vertices, "num_vertices"); DIFF (a->num_trees != b->num_trees, "num_trees"); DIFF (a->num_corners != b->num_corners, "num_corners");
  int nt = a->num_trees;
  DIFF ((a->num_vertices > 0) != (b->vertices != NULL) || (a->num_vertices > 0) != (b->tree_to_vertex != NULL), "vertex arrays");
  DIFF (a->num_vertices && memcmp (a->vertices, b->vertices, 24 * a->num_vertices), "vertices");
  DIFF (a->num_vertices && memcmp (a->tree_to_vertex, b->tree_to_vertex, sizeof (p4est_topidx_t) * NC * nt), "tree_to_vertex");
  DIFF (memcmp (a->tree_to_tree, b->tree_to_tree, sizeof (p4est_topidx_t) * NF * nt), "tree_to_tree");
  DIFF (memcmp (a->tree_to_face, b->tree_to_face, NF * nt), "tree_to_face");
  DIFF (memcmp (a->ctt_offset, b->ctt_offset, sizeof (p4est_topidx_t) * (a->num_corners + 1)), "ctt_offset");
  if (a->num_corners) {
    int n = a->ctt_offset[a->num_corners];
    DIFF (memcmp (a->tree_to_corner, b->tree_to_corner, sizeof (p4est_topidx_t) * NC * nt), "tree_to_corner");
    DIFF (memcmp (a->corner_to_tree, b->corner_to_tree, sizeof (p4est_topidx_t) * n), "corner_to_tree");
    DIFF (memcmp (a->corner_to_corner, b->corner_to_corner, n), "corner_to_corner");
  }
#ifdef P4_TO_P8
  DIFF (a->num_edges != b->num_edges, "num_edges");
  DIFF (memcmp (a->ett_offset, b->ett_offset, sizeof (p4est_topidx_t) * (a->num_edges + 1)), "ett_offset");
  if (a->num_edges) {
    int n = a->ett_offset[a->num_edges];
    DIFF (memcmp (a->tree_to_edge, b->tree_to_edge, sizeof (p4est_topidx_t) * NE * nt), "tree_to_edge");
    DIFF (memcmp (a->edge_to_tree, b->edge_to_tree, sizeof (p4est_topidx_t) * n), "edge_to_tree");
    DIFF (memcmp (a->edge_to_edge, b->edge_to_edge, n), "edge_to_edge");
  }
#endif
  if (attr) {
    DIFF (a->tree_attr_bytes != b->tree_attr_bytes || (a->tree_to_attr != NULL) != (b->tree_to_attr != NULL), "attribute size");
    DIFF (a->tree_to_attr && memcmp (a->tree_to_attr, b->tree_to_attr, a->tree_attr_bytes * nt), "attributes");
  }
  return false;
#undef DIFF
}
static void expect (p4est_connectivity_t * a, p4est_connectivity_t * b, bool attr, const char *key)
{
  std::string why; bool d;
  CHK (b != NULL, key, "no connectivity");
  if (!b) return;
  d = diff (a, b, attr, why);
  CHK (!d, key, "%s differs", why.c_str ());
  if (!d) count ("tables_compared");
  if (!attr) CHK (b->tree_attr_bytes == 0 && b->tree_to_attr == NULL, key, "attributes present");
}
static bool equal (p4est_connectivity_t * a, p4est_connectivity_t * b) { return p4est_connectivity_is_equal (a, b); }

static std::string slurp (const std::string & f)
{
  std::string s; FILE *fp = fopen (f.c_str (), "rb"); if (!fp) return s;
  char buf[4096]; size_t n; while ((n = fread (buf, 1, sizeof buf, fp)) > 0) s.append (buf, n);
  fclose (fp); return s;
}

static void s_file (Rng & r, p4est_connectivity_t * c)
{
  std::string f = scratch ("conn") + std::to_string (run.rank);
  std::string why;
  CHK (p4est_connectivity_save (f.c_str (), c) == 0, "save", "saving fails");
  size_t bytes = 0;
  p4est_connectivity_t *d = p4est_connectivity_load (f.c_str (), r.chance (0.5) ? &bytes : NULL);
  expect (c, d, true, "loaded");
  std::string s = slurp (f);
  if (bytes) CHK (bytes == s.size (), "load-bytes", "%zu reported, file has %zu", bytes, s.size ());
  sc_array_t *a = p4est_connectivity_deflate (c, P4EST_CONN_ENCODE_NONE);
  CHK (a->elem_size == 1 && a->elem_count == s.size () && !memcmp (a->array, s.data (), s.size ()), "deflate-file", "memory and file contents differ");
  p4est_connectivity_t *e = p4est_connectivity_inflate (a);
  expect (c, e, true, "inflated");
  if (d) { CHK (equal (c, d), "equal", "loaded connectivity unequal"); p4est_connectivity_destroy (d); }
  if (e) p4est_connectivity_destroy (e);
  count ("files");
  /* truncated or damaged data is refused */
  for (int k = 0; k < 3; ++k) {
    sc_array_t *b = sc_array_new_count (1, a->elem_count); memcpy (b->array, a->array, a->elem_count);
    int nt = c->num_trees, kind = r.below (3); char what[80] = "";
    size_t T = sizeof (p4est_topidx_t), ttt = 112 + 24 * (size_t) c->num_vertices + (c->num_vertices ? T * NC * nt : 0) + (c->num_corners ? T * NC * nt : 0);
#ifdef P4_TO_P8
    if (c->num_edges) ttt += T * NE * nt;
#endif
    if (kind == 0) { size_t n = r.chance (0.5) ? a->elem_count - r.range (1, std::min<int> (8, (int) a->elem_count)) : r.below (a->elem_count); sc_array_destroy (b); b = sc_array_new_count (1, n); /* libsc reads up to the allocated size */ if (n) memcpy (b->array, a->array, n); snprintf (what, sizeof what, "%zu of %zu bytes", n, a->elem_count); }
    else if (kind == 1) { int o = r.pick ({0, 3, 5, 32, 33, 40, 41}); b->array[o] ^= (char) (1 << r.below (8)); snprintf (what, sizeof what, "changed header byte %d", o); }
    else { p4est_topidx_t v = r.pick ({-1, -7, (int) nt, 1 << 30}); size_t i = r.below (nt * NF); memcpy (b->array + ttt + T * i, &v, T); snprintf (what, sizeof what, "neighbour %zu is %d", i, (int) v); }
    p4est_connectivity_t *g;
    if (r.chance (0.5)) g = p4est_connectivity_inflate (b);
    else {
      FILE *fp = fopen (f.c_str (), "wb"); if (b->elem_count) (void) !fwrite (b->array, 1, b->elem_count, fp); fclose (fp);
      g = p4est_connectivity_load (f.c_str (), NULL);
    }
    CHK (g == NULL, "damaged", "%s accepted", what);
    if (g) p4est_connectivity_destroy (g);
    count ("damaged_refused");
    sc_array_destroy (b);
  }
  sc_array_destroy (a);
  unlink (f.c_str ());
  CHK (p4est_connectivity_load (f.c_str (), NULL) == NULL, "missing-file", "loaded");
  CHK (p4est_connectivity_save ((f + ".d/x").c_str (), c) != 0, "save-error", "saving to a missing directory succeeds");
}

/* several connectivities through one stream */
static void s_stream (Rng & r, p4est_connectivity_t * c, p4est_connectivity_t * c2)
{
  sc_array_t *buf = sc_array_new (1);
  std::vector<p4est_connectivity_t *> v;
  sc_io_sink_t *sink = sc_io_sink_new (SC_IO_TYPE_BUFFER, SC_IO_MODE_WRITE, SC_IO_ENCODE_NONE, buf);
  for (int n = r.range (2, 4); n > 0; --n) { v.push_back (r.chance (0.5) ? c : c2); CHK (p4est_connectivity_sink (v.back (), sink) == 0, "sink", "fails"); }
  sc_io_sink_destroy (sink);
  { sc_array_t *b2 = sc_array_new_count (1, buf->elem_count); memcpy (b2->array, buf->array, buf->elem_count); sc_array_destroy (buf); buf = b2; } /* libsc reads up to the allocated size */
  sc_io_source_t *src = sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, buf);
  for (auto x : v) { p4est_connectivity_t *d = p4est_connectivity_source (src); expect (x, d, true, "sourced"); if (!d) break; p4est_connectivity_destroy (d); }
  CHK (p4est_connectivity_source (src) == NULL, "sourced", "data beyond the end");
  sc_io_source_destroy (src);
  sc_array_destroy (buf);
  count ("streams");
}

static void s_copy (Rng & r, p4est_connectivity_t * c)
{
  int attr = r.below (2);
  p4est_connectivity_t *d = p4est_connectivity_copy (c, attr), *k = p4est_connectivity_copy (c, 1);
  expect (c, k, true, "copied");
  expect (c, d, attr, "copied");
  /* copies do not share memory: overwrite one of them */
  size_t n;
  CHK ((n = p4est_connectivity_memory_used (k)) >= sizeof (*k) + 24 * (size_t) k->num_vertices + (k->num_vertices ? sizeof (p4est_topidx_t) * NC * k->num_trees : 0) + (sizeof (p4est_topidx_t) + 1) * NF * k->num_trees + k->tree_attr_bytes * k->num_trees, "memory-used", "%zu", n);
  for (int i = 0; i < 3 * d->num_vertices; ++i) d->vertices[i] = -1e9;
  for (int i = 0; i < NF * d->num_trees; ++i) { d->tree_to_tree[i] = -9; d->tree_to_face[i] = -9; }
  for (int i = 0; d->num_vertices && i < NC * d->num_trees; ++i) d->tree_to_vertex[i] = -9;
  if (d->num_corners) { for (int i = 0; i < d->ctt_offset[d->num_corners]; ++i) { d->corner_to_tree[i] = -9; d->corner_to_corner[i] = -9; } for (int i = 0; i < NC * d->num_trees; ++i) d->tree_to_corner[i] = -9; }
  memset (d->ctt_offset, 99, sizeof (p4est_topidx_t) * (d->num_corners + 1));
  if (d->tree_to_attr) memset (d->tree_to_attr, 99, d->tree_attr_bytes * d->num_trees);
#ifdef P4_TO_P8
  if (d->num_edges) { for (int i = 0; i < d->ett_offset[d->num_edges]; ++i) { d->edge_to_tree[i] = -9; d->edge_to_edge[i] = -9; } for (int i = 0; i < NE * d->num_trees; ++i) d->tree_to_edge[i] = -9; }
  memset (d->ett_offset, 99, sizeof (p4est_topidx_t) * (d->num_edges + 1));
#endif
  std::string why;
  CHK (!diff (c, k, true, why), "copy-aliases", "%s follows the copy", why.c_str ());
  p4est_connectivity_destroy (d);
  p4est_connectivity_set_attr (k, 0);
  CHK (k->tree_to_attr == NULL && k->tree_attr_bytes == 0, "set-attr", "not removed");
  size_t b = r.range (1, 40);
  p4est_connectivity_set_attr (k, b);
  CHK (k->tree_to_attr != NULL && k->tree_attr_bytes == b, "set-attr", "not set");
  memset (k->tree_to_attr, 7, b * k->num_trees);
  p4est_connectivity_destroy (k);
  count ("copies");
}

static void s_dist (Rng & r, p4est_connectivity_t * c)
{
  int root = r.below (run.size), kind = r.below (3);
  if (kind == 0) {
    p4est_connectivity_t *in = run.rank == root ? p4est_connectivity_copy (c, 1) : NULL;
    p4est_connectivity_t *d = p4est_connectivity_bcast (in, root, sc_MPI_COMM_WORLD);
    if (run.rank == root) CHK (d == in, "bcast-root", "another pointer");
    expect (c, d, true, "bcast");
    p4est_connectivity_destroy (d);
    count ("broadcasts");
  }
  else {
    if (kind == 2) root = 0;
    p4est_connectivity_t *in = run.rank == root ? p4est_connectivity_copy (c, 1) : NULL;
    p4est_connectivity_shared_t *s = kind == 1 ? p4est_connectivity_share (in, root, sc_MPI_COMM_WORLD) : p4est_connectivity_mission (in, sc_MPI_COMM_TYPE_SHARED, sc_MPI_COMM_WORLD);
    expect (c, s->conn, true, "shared");
    CHK (p4est_connectivity_is_valid (s->conn), "shared-valid", "invalid");
    CHK (equal (s->conn, c), "shared-equal", "unequal");
    /* use it */
    p4est_t *p = p4est_new_ext (sc_MPI_COMM_WORLD, s->conn, 0, 1, 1, 0, NULL, NULL);
    CHK (p->global_num_quadrants == (p4est_gloidx_t) c->num_trees * NC, "shared-used", "%lld leaves", (long long) p->global_num_quadrants);
    p4est_ghost_t *g = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    p4est_ghost_destroy (g);
    p4est_destroy (p);
    p4est_connectivity_shared_destroy (s);
    count (kind == 1 ? "shares" : "missions");
  }
}

/* any single difference makes connectivities unequal */
static void s_equal (Rng & r, p4est_connectivity_t * c)
{
  for (int k = 0; k < 4; ++k) {
    p4est_connectivity_t *d = p4est_connectivity_copy (c, 1);
    CHK (equal (c, d) && equal (d, c), "equal-copy", "a copy is unequal");
    int nt = c->num_trees, kind = r.below (12); bool done = true; char what[60] = "";
    auto tw = [&] (const char *n, p4est_topidx_t * a, int m) { if (m < 1) { done = false; return; } int i = r.below (m); a[i] ^= 1 << r.below (20); snprintf (what, sizeof what, "%s[%d]", n, i); };
    auto tw8 = [&] (const char *n, int8_t * a, int m) { if (m < 1) { done = false; return; } int i = r.below (m); a[i] ^= (int8_t) (1 << r.below (7)); snprintf (what, sizeof what, "%s[%d]", n, i); };
    switch (kind) {
    case 0: if (c->num_vertices) { int i = r.below (3 * c->num_vertices); ((char *) &d->vertices[i])[r.below (8)] ^= 1; snprintf (what, sizeof what, "vertices[%d]", i); } else done = false; break;
    case 1: tw ("tree_to_vertex", d->tree_to_vertex, c->num_vertices ? NC * nt : 0); break;
    case 2: tw ("tree_to_tree", d->tree_to_tree, NF * nt); break;
    case 3: tw8 ("tree_to_face", d->tree_to_face, NF * nt); break;
    case 4: tw ("tree_to_corner", d->tree_to_corner, c->num_corners ? NC * nt : 0); break;
    case 5: tw ("corner_to_tree", d->corner_to_tree, c->num_corners ? c->ctt_offset[c->num_corners] : 0); break;
    case 6: tw8 ("corner_to_corner", d->corner_to_corner, c->num_corners ? c->ctt_offset[c->num_corners] : 0); break;
    case 7: if (c->num_corners > 1) { int i = r.range (1, c->num_corners - 1); d->ctt_offset[i] ^= 1; snprintf (what, sizeof what, "ctt_offset[%d]", i); } else done = false; break;
    case 8: if (d->tree_to_attr) { int i = r.below (nt * d->tree_attr_bytes); d->tree_to_attr[i] ^= 4; snprintf (what, sizeof what, "attribute byte %d", i); }
      else { p4est_connectivity_set_attr (d, 3); memset (d->tree_to_attr, 0, 3 * nt); snprintf (what, sizeof what, "attributes added"); } break;
    case 9: if (d->tree_to_attr) { p4est_connectivity_set_attr (d, 0); if (r.chance (0.5)) { p4est_connectivity_set_attr (d, c->tree_attr_bytes + 1); memset (d->tree_to_attr, 0, nt * d->tree_attr_bytes); } snprintf (what, sizeof what, "attribute size"); } else done = false; break;
#ifdef P4_TO_P8
    case 10: if (r.chance (0.5)) tw ("tree_to_edge", d->tree_to_edge, c->num_edges ? NE * nt : 0); else if (c->num_edges > 1) { int i = r.range (1, c->num_edges - 1); d->ett_offset[i] ^= 1; snprintf (what, sizeof what, "ett_offset[%d]", i); } else done = false; break;
    case 11: if (r.chance (0.5)) tw ("edge_to_tree", d->edge_to_tree, c->num_edges ? c->ett_offset[c->num_edges] : 0); else tw8 ("edge_to_edge", d->edge_to_edge, c->num_edges ? c->ett_offset[c->num_edges] : 0); break;
#endif
    default: done = false;
    }
    if (done) { CHK (!equal (c, d) && !equal (d, c), "unequal-accepted", "%s changed", what); count ("single_differences"); }
    p4est_connectivity_destroy (d);
  }
}

/* the same domain with corners and edges numbered and listed in another way */
static p4est_connectivity_t *relabel (Rng & r, p4est_connectivity_t * c)
{
  p4est_connectivity_t *d = p4est_connectivity_copy (c, 0);
  int nt = c->num_trees;
  auto shuffle = [&] (std::vector<int> & v) { for (size_t i = v.size (); i > 1; --i) std::swap (v[i - 1], v[r.below (i)]); };
  if (c->num_corners) {
    std::vector<int> q; for (int i = 0; i < c->num_corners; ++i) q.push_back (i);
    shuffle (q);
    int k = 0;
    for (int g = 0; g < c->num_corners; ++g) {
      std::vector<int> m; for (int i = c->ctt_offset[q[g]]; i < c->ctt_offset[q[g] + 1]; ++i) m.push_back (i);
      shuffle (m); d->ctt_offset[g] = k;
      for (int i : m) { d->corner_to_tree[k] = c->corner_to_tree[i]; d->corner_to_corner[k] = c->corner_to_corner[i]; d->tree_to_corner[c->corner_to_tree[i] * NC + c->corner_to_corner[i]] = g; ++k; }
    }
    d->ctt_offset[c->num_corners] = k;
  }
#ifdef P4_TO_P8
  if (c->num_edges) {
    std::vector<int> q; for (int i = 0; i < c->num_edges; ++i) q.push_back (i);
    shuffle (q);
    int k = 0;
    for (int g = 0; g < c->num_edges; ++g) {
      std::vector<int> m; for (int i = c->ett_offset[q[g]]; i < c->ett_offset[q[g] + 1]; ++i) m.push_back (i);
      shuffle (m); d->ett_offset[g] = k; int fl = r.below (2);
      for (int i : m) { int e = c->edge_to_edge[i]; d->edge_to_tree[k] = c->edge_to_tree[i]; d->edge_to_edge[k] = (int8_t) (fl ? (e + 12) % 24 : e); d->tree_to_edge[c->edge_to_tree[i] * NE + e % 12] = g; ++k; }
    }
    d->ett_offset[c->num_edges] = k;
  }
#endif
  if (r.chance (0.3) && d->num_vertices) d->vertices[r.below (3 * d->num_vertices)] += 1.;
  (void) nt;
  return d;
}
/* tables of a domain: all groups of edges and corners with several members are listed */
static p4est_connectivity_t *from_topo (p4est_connectivity_t * c, Topo & T)
{
  int nt = T.nt;
  std::vector<p4est_topidx_t> ttt (nt * NF), ttc (nt * NC, -1), co (1, 0), ct; std::vector<int8_t> ttf (nt * NF), cc;
  for (int i = 0; i < nt * NF; ++i) { bool b = T.face[i].first < 0; ttt[i] = b ? i / NF : T.face[i].first; ttf[i] = (int8_t) (b ? i % NF : T.face[i].second); }
  std::map<int, std::vector<int>> g;
  for (int i = 0; i < nt * NC; ++i) g[T.cf (i)].push_back (i);
  for (auto & k : g) if (k.second.size () > 1) {
    for (int i : k.second) { ttc[i] = (int) co.size () - 1; ct.push_back (i / NC); cc.push_back ((int8_t) (i % NC)); }
    co.push_back ((int) ct.size ());
  }
#ifdef P4_TO_P8
  std::vector<p4est_topidx_t> tte (nt * NE, -1), eo (1, 0), et; std::vector<int8_t> ee;
  std::map<int, std::vector<std::pair<int, int>>> h;
  for (int i = 0; i < nt * NE; ++i) { int p, x = T.ef (i, p); h[x].push_back ({i, p}); }
  for (auto & k : h) if (k.second.size () > 1) {
    for (auto & i : k.second) { tte[i.first] = (int) eo.size () - 1; et.push_back (i.first / NE); ee.push_back ((int8_t) (i.first % NE + NE * i.second)); }
    eo.push_back ((int) et.size ());
  }
#endif
  return p4est_connectivity_new_copy (c->num_vertices, nt,
#ifdef P4_TO_P8
    (int) eo.size () - 1,
#endif
    (int) co.size () - 1, c->vertices, c->tree_to_vertex, ttt.data (), ttf.data (),
#ifdef P4_TO_P8
    eo.size () > 1 ? tte.data () : NULL, eo.data (), et.data (), ee.data (),
#endif
    co.size () > 1 ? ttc.data () : NULL, co.data (), ct.data (), cc.data ());
}
static void s_equivalent (Rng & r, p4est_connectivity_t * c, p4est_connectivity_t * c2)
{
  Geo g; g.init (c); Topo T = topo_of (c);
  if (!conn_oracle_ok (g) || T.degenerate ()) return;
  p4est_connectivity_t *d = NULL; std::string why;
  int kind = r.below (6);
  if (kind <= 1) d = relabel (r, c);
  else if (kind == 2) {
    d = p4est_connectivity_copy (c, 0);
    std::vector<int> b; for (int i = 0; i < T.nt * NF; ++i) if (T.face[i].first < 0) b.push_back (i);
    if (b.size () >= 2) {
      int x = b[r.below (b.size ())], y = b[r.below (b.size ())];
      if (x != y) p4est_connectivity_join_faces (d, x / NF, y / NF, x % NF, y % NF, r.below (NH));
    }
  }
  else if (kind >= 4) {
    /* the same faces, fewer or more contacts across edges and corners */
    Topo W; W.init (T.nt);
    for (int i = 0; i < T.nt * NF; ++i) if (T.face[i].first >= 0) W.glue (i / NF, i % NF, T.face[i].first, T.face[i].second);
    bool keep = r.chance (0.7);
    if (keep) {
      for (int i = 0; i < (NE ? T.nt * NE : 0); ++i) { int q, x = T.ef (i, q); W.edge (i / std::max (NE, 1), i % std::max (NE, 1), x / std::max (NE, 1), x % std::max (NE, 1), q); }
      int drop = r.chance (0.6) ? T.cf (r.below (T.nt * NC)) : -1;
      for (int i = 0; i < T.nt * NC; ++i) if (T.cf (i) != drop) { int x = T.cf (i); W.corner (i / NC, i % NC, x / NC, x % NC); }
    }
    int more = keep ? r.below (2) : 0;
    for (int k = 0; k < more; ++k) {
      if (NE && r.chance (0.5)) W.edge (r.below (T.nt), r.below (std::max (NE, 1)), r.below (T.nt), r.below (std::max (NE, 1)), r.below (2));
      else W.corner (r.below (T.nt), r.below (NC), r.below (T.nt), r.below (NC));
    }
    if (!W.degenerate ()) {
      d = from_topo (c, W);
      Topo V = topo_of (d); std::string w2;
      CHK (same (V, W, w2), "from-topo", "harness: %s", w2.c_str ());
      count ("other_contacts");
    }
  }
  else {
    /* tear a vertex of one tree off */
    std::vector<int> v (T.nt * NC); std::map<int, int> num;
    for (int i = 0; i < T.nt * NC; ++i) { int n = (int) num.size (); v[i] = num.insert ({T.cf (i), n}).first->second; }
    int nv = (int) num.size (), cnt = 0, x = r.below (T.nt * NC);
    for (int i = 0; i < T.nt * NC; ++i) cnt += v[i] == v[x];
    if (cnt > 1 && r.chance (0.8)) v[x] = nv++;
    Topo W; if (implied (T.nt, v, W) && !W.degenerate ()) { d = from_vertices (T.nt, v, nv, NULL); p4est_connectivity_complete (d); }
  }
  if (d && p4est_connectivity_is_valid (d)) {
    Geo h; h.init (d); Topo U = topo_of (d);
    if (conn_oracle_ok (h) && !U.degenerate ()) {
      bool want = same (T, U, why), got = p4est_connectivity_is_equivalent (c, d), rev = p4est_connectivity_is_equivalent (d, c);
      CHK (got == want && rev == want, want ? "equivalent-refused" : "inequivalent-accepted", "got %d and %d: %s", got, rev, why.c_str ());
      if (kind <= 1) CHK (want, "relabel", "harness: %s", why.c_str ());
      bool eq = !diff (c, d, true, why);
      CHK (equal (c, d) == eq, "equal", "%s", why.c_str ());
      count (want ? eq ? "equivalent_equal" : "equivalent_unequal" : "inequivalent");
    }
  }
  if (d) p4est_connectivity_destroy (d);
  bool want = c->num_trees == c2->num_trees && !memcmp (c->tree_to_tree, c2->tree_to_tree, sizeof (p4est_topidx_t) * NF * c->num_trees) && !memcmp (c->tree_to_face, c2->tree_to_face, NF * c->num_trees);
  if (!want) { CHK (!p4est_connectivity_is_equivalent (c, c2), "inequivalent-accepted", "different faces"); count ("other_domains"); }
}

/* mesh files */
static void s_inp (Rng & r, p4est_connectivity_t * c0)
{
  Topo T = topo_of (c0), W;
  int nt = T.nt; std::vector<int> v (nt * NC); std::map<int, int> num;
  for (int i = 0; i < nt * NC; ++i) num[T.cf (i)] = 0;
  int nv = (int) num.size () + r.below (3);
  std::vector<int> ids; for (int i = 0; i < nv; ++i) ids.push_back (i);
  for (size_t i = ids.size (); i > 1; --i) std::swap (ids[i - 1], ids[r.below (i)]);
  int k = 0; for (auto & p : num) p.second = ids[k++];
  for (int i = 0; i < nt * NC; ++i) v[i] = num[T.cf (i)];
  if (!implied (nt, v, W) || W.degenerate ()) return;
  std::vector<double> xyz (3 * nv); for (auto & x : xyz) x = r.chance (0.3) ? (double) r.range (-9, 9) : (r.unit () - 0.5) * pow (10., r.range (-8, 8));
  /* write */
  std::string nodes, els; char b[400];
  const char *nl = r.chance (0.2) ? "\r\n" : "\n";
  std::vector<int> ord = {}; for (int i = 0; i < nv; ++i) ord.push_back (i);
  if (r.chance (0.5)) for (size_t i = ord.size (); i > 1; --i) std::swap (ord[i - 1], ord[r.below (i)]);
  auto junk = [&] (std::string & s) {
    switch (r.below (5)) {
    case 0: s += std::string ("*Elset, elset=top, generate") + nl + " 1, 5, 1" + nl; break;
    case 1: s += std::string ("*ELEMENT, TYPE=T3D2, ELSET=bar") + nl + "1, 2, 3" + nl; break;
    case 2: s += "*Heading" + std::string (nl) + std::string (r.range (0, 5000), 'x') + nl; break;
    default: break;
    }
  };
  static const char *nh[] = {"*Node", "*NODE", "*node, NSET=all"};
  nodes += std::string (nh[r.below (3)]) + nl;
  for (int j = 0; j < nv; ++j) {
    int i = ord[j];
    if (j && r.chance (0.05)) { junk (nodes); nodes += std::string (nh[r.below (3)]) + nl; }
    snprintf (b, sizeof b, r.chance (0.5) ? "%d, %.17g, %.17g, %.17g%s" : " %d,   %.17e,%.17e, %.17e%s", i + 1, xyz[3 * i], xyz[3 * i + 1], xyz[3 * i + 2], nl); nodes += b;
  }
#ifdef P4_TO_P8
  static const char *eh[] = {"*Element, type=C3D8, ELSET=Vol", "*ELEMENT,TYPE=C3D8R"};
#else
  static const char *eh[] = {"*Element, type=CPS4, ELSET=Surface1", "*ELEMENT,TYPE=C2D4", "*element, elset=a, type=S4"};
#endif
  auto head = [&] { els += std::string (eh[r.below (sizeof (eh) / sizeof (eh[0]))]) + nl; };
  head ();
  int bad = r.chance (0.15) ? r.range (1, 3) : 0, where = r.below (nt);
  for (int t = 0; t < nt; ++t) {
    if (t && r.chance (0.05)) { junk (els); head (); }
    static const int order[8] = {0, 1, 3, 2, 4, 5, 7, 6};
    snprintf (b, sizeof b, "%d", t + r.range (0, 1) * 100 + 1); els += b;
    int cnt = bad == 1 && t == where ? r.range (1, NC - 1) : NC;
    for (int j = 0; j < cnt; ++j) {
      int x = v[t * NC + order[j]] + 1;
      if (bad == 2 && t == where && j == 0) x = r.pick ({0, -3, nv + 1, nv + 70000});
      snprintf (b, sizeof b, r.chance (0.5) ? ", %d" : ",%d", x); els += b;
    }
    els += nl;
  }
  if (bad == 3) { snprintf (b, sizeof b, "%d, 0, 0, 0%s", r.pick ({0, -2, nv + 2, nv + 70000}), nl); nodes += b; }
  std::string file;
  if (r.chance (0.7)) file += std::string ("*Heading") + nl + " mesh" + nl;
  junk (file);
  if (r.chance (0.5)) file += nodes + els; else file += els + nodes;
  if (r.chance (0.4)) file.pop_back (); /* no newline at the end */
  std::string f = scratch ("mesh.inp") + std::to_string (run.rank);
  FILE *fp = fopen (f.c_str (), "wb"); (void) !fwrite (file.data (), 1, file.size (), fp); fclose (fp);
  p4est_connectivity_t *c = p4est_connectivity_read_inp (f.c_str ());
  if (bad) {
    CHK (c == NULL, "mesh-damaged", "a file with damage of kind %d is accepted", bad);
    count ("bad_meshes");
  }
  else {
    CHK (c != NULL, "mesh-refused", "a mesh file is refused");
    if (c) {
      if (judge (c, &W, "mesh")) {
        CHK (c->num_vertices == nv, "mesh-vertices", "%d vertices, expected %d", (int) c->num_vertices, nv);
        for (int i = 0; i < nt * NC; ++i) CHK (c->tree_to_vertex[i] == v[i], "mesh-tree-vertices", "tree %d corner %d is %d, expected %d", i / NC, i % NC, (int) c->tree_to_vertex[i], v[i]);
        for (int i = 0; i < 3 * nv && i < 3 * c->num_vertices; ++i) CHK (c->vertices[i] == xyz[i], "mesh-coordinates", "vertex %d coordinate %d is %.17g, expected %.17g", i / 3, i % 3, c->vertices[i], xyz[i]);
        count ("meshes");
      }
    }
  }
  if (c) p4est_connectivity_destroy (c);
  unlink (f.c_str ());
}

#ifdef P4_TO_P8
/* tetrahedra: cubes cut in six each, some left out */
static void s_tets (Rng & r)
{
  int m[3] = {r.range (1, 2), r.range (1, 2), r.range (1, 2)};
  describe ("tetrahedra in %dx%dx%d cubes", m[0], m[1], m[2]);
  std::vector<std::array<int, 4>> tet; std::map<std::array<int, 3>, int> id; std::vector<std::array<double, 3>> pos;
  auto node = [&] (std::array<int, 3> x) { auto it = id.find (x); if (it != id.end ()) return it->second; int n = (int) id.size (); id[x] = n; std::array<double, 3> y; for (int i = 0; i < 3; ++i) y[i] = x[i] + 0.2 * (r.unit () - 0.5); pos.push_back (y); return n; };
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int z = 0; z < m[2]; ++z) for (int y = 0; y < m[1]; ++y) for (int x = 0; x < m[0]; ++x) for (int p = 0; p < 6; ++p) {
    if (r.chance (0.2)) continue;
    std::array<int, 3> c = {x, y, z}; std::array<int, 4> t; t[0] = node (c);
    for (int i = 0; i < 3; ++i) { c[perm[p][i]]++; t[i + 1] = node (c); }
    for (int i = 4; i > 1; --i) std::swap (t[i - 1], t[r.below (i)]);
    tet.push_back (t);
  }
  if (tet.empty ()) return;
  auto vol = [&] (const int *t) { double e[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e[i][j] = pos[t[i + 1]][j] - pos[t[0]][j]; return e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]); };
  int nt = (int) tet.size (), left = 0, bad = r.chance (0.15) ? r.range (1, 2) : 0;
  std::vector<int> attr; bool at = r.chance (0.5); for (int i = 0; i < nt; ++i) attr.push_back (r.range (-100, 100));
  std::string base = scratch ("tet") + std::to_string (run.rank);
  FILE *fp = fopen ((base + ".node").c_str (), "w");
  int na = r.below (3), bm = r.below (2);
  fprintf (fp, "%zu 3 %d %d\n", pos.size (), na, bm);
  for (size_t i = 0; i < pos.size (); ++i) { fprintf (fp, "%zu %.17g %.17g %.17g", i, pos[i][0], pos[i][1], pos[i][2]); for (int k = 0; k < na; ++k) fprintf (fp, " %g", 0.5 * k); if (bm) fprintf (fp, " 1"); fprintf (fp, "\n"); }
  fclose (fp);
  fp = fopen ((base + ".ele").c_str (), "w");
  fprintf (fp, "%d 4 %d\n", nt, (int) at);
  int where = r.below (nt);
  for (int i = 0; i < nt; ++i) {
    left += vol (tet[i].data ()) < 0;
    fprintf (fp, "%d", i); for (int j = 0; j < 4; ++j) fprintf (fp, " %d", bad == 1 && i == where && j == 2 ? r.pick ({-1, (int) pos.size (), (int) pos.size () + 5}) : tet[i][j]);
    if (at) fprintf (fp, " %d", attr[i]);
    if (bad == 2 && i == where) break;
    fprintf (fp, "\n");
  }
  fclose (fp);
  p8est_tets_t *ptg = p8est_tets_read (base.c_str ());
  unlink ((base + ".node").c_str ()); unlink ((base + ".ele").c_str ());
  if (bad && !(bad == 2 && where == nt - 1)) { CHK (ptg == NULL, "tets-damaged", "damage of kind %d accepted", bad); if (ptg) p8est_tets_destroy (ptg); count ("bad_tets"); return; }
  CHK (ptg != NULL, "tets-refused", "not read"); if (!ptg) return;
  bool same = ptg->nodes->elem_count == 3 * pos.size () && ptg->tets->elem_count == 4 * (size_t) nt && (ptg->tet_attributes != NULL) == at;
  CHK (same, "tets-read", "wrong sizes");
  for (size_t i = 0; same && i < 3 * pos.size (); ++i) same = ((double *) ptg->nodes->array)[i] == pos[i / 3][i % 3];
  for (int i = 0; same && i < 4 * nt; ++i) same = ((p4est_topidx_t *) ptg->tets->array)[i] == tet[i / 4][i % 4];
  for (int i = 0; same && at && i < nt; ++i) same = ((int *) ptg->tet_attributes->array)[i] == attr[i];
  CHK (same, "tets-read", "contents differ");
  { /* trees of lefthanded tetrahedra would not fit to those of righthanded ones */
    int n = p8est_tets_make_righthanded (ptg);
    CHK (n == left, "tets-flipped", "%d flipped, %d were lefthanded", n, left);
    for (int i = 0; i < nt; ++i) { p4est_topidx_t *q = (p4est_topidx_t *) ptg->tets->array + 4 * i; int w[4]; for (int j = 0; j < 4; ++j) w[j] = q[j]; CHK (vol (w) > 0, "tets-flipped", "tet %d still lefthanded", i); std::sort (w, w + 4); auto s = tet[i]; std::sort (s.begin (), s.end ()); CHK (std::equal (w, w + 4, s.begin ()), "tets-flipped", "tet %d has other nodes", i); }
  }
  p4est_connectivity_t *c = p8est_connectivity_new_tets (ptg);
  if (judge (c, NULL, "tets")) {
    CHK (c->num_trees == 4 * nt, "tets-trees", "%d trees for %d tetrahedra", (int) c->num_trees, nt);
    /* four trees of a tetrahedron: node, three edge centers, three face centers, center */
    auto close = [] (const double *a, const std::array<double, 3> & b) { return fabs (a[0] - b[0]) + fabs (a[1] - b[1]) + fabs (a[2] - b[2]) < 1e-10; };
    std::set<std::vector<int>> ents; std::map<std::vector<int>, int> faces;
    for (int i = 0; i < nt; ++i) for (int mk = 1; mk < 16; ++mk) { std::vector<int> s; for (int j = 0; j < 4; ++j) if (mk >> j & 1) s.push_back (tet[i][j]); std::sort (s.begin (), s.end ()); ents.insert (s); if (s.size () == 3) faces[s]++; }
    CHK (c->num_vertices == (int) ents.size () + (int) pos.size () - [&] { int n = 0; for (auto & e : ents) n += e.size () == 1; return n; } (), "tets-vertices", "%d vertices, expected %zu", (int) c->num_vertices, ents.size ());
    int nb = 0; for (auto & f : faces) nb += f.second == 1;
    Topo U = topo_of (c);
    CHK (U.nbound () == 3 * nb, "tets-boundary", "%d boundary faces, expected %d", U.nbound (), 3 * nb);
    for (int i = 0; i < nt; ++i) {
      std::set<int> home;
      for (int j = 0; j < 4; ++j) {
        int t = 4 * i + j, cor = -1; std::vector<int> got (NC, -1);
        for (int k = 0; k < NC; ++k) for (int mk = 1; mk < 16; ++mk) {
          std::array<double, 3> x = {0, 0, 0}; int n = __builtin_popcount (mk);
          for (int q = 0; q < 4; ++q) if (mk >> q & 1) for (int a = 0; a < 3; ++a) x[a] += pos[tet[i][q]][a] / n;
          if (close (c->vertices + 3 * c->tree_to_vertex[t * NC + k], x)) got[k] = mk;
        }
        for (int k = 0; k < NC; ++k) if (got[k] > 0 && __builtin_popcount (got[k]) == 1) cor = k;
        bool ok = cor >= 0;
        for (int k = 0; ok && k < NC; ++k) {
          /* corner k differs from cor in some axes: each adds one node */
          int n = __builtin_popcount (k ^ cor);
          ok = got[k] > 0 && __builtin_popcount (got[k]) == n + 1 && (got[k] & got[cor]) == got[cor];
          if (ok && n == 2) { int u = got[cor]; for (int a = 0; a < 3; ++a) if ((k ^ cor) >> a & 1) u |= got[cor ^ (1 << a)]; ok = u == got[k]; }
        }
        CHK (ok, "tets-tree", "tree %d does not cover a quarter of tetrahedron %d", t, i);
        if (ok) { home.insert (got[cor]); count ("tet_trees"); }
        if (at) CHK (c->tree_to_attr && c->tree_attr_bytes == 1 && (int8_t) c->tree_to_attr[t] == (int8_t) attr[i], "tets-attr", "tree %d", t);
      }
      CHK (home.size () == 4, "tets-tree", "the trees of tetrahedron %d overlap", i);
    }
    std::vector<int> w (c->tree_to_vertex, c->tree_to_vertex + c->num_trees * NC); Topo I; std::string why;
    if (implied (c->num_trees, w, I)) CHK (::same (U, I, why), "tets-domain", "%s", why.c_str ());
    else FAILK ("tets-domain", "vertices do not determine the domain");
  }
  p4est_connectivity_destroy (c);
  p8est_tets_destroy (ptg);
  count ("tet_meshes");
}
#endif

static void prop (Rng & r)
{
  std::string name; ConnOpts co; co.max_trees = 10;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  describe ("%s", name.c_str ());
  for (int i = 0; i < 3 * c->num_vertices; ++i) if (r.chance (0.3)) c->vertices[i] = (r.unit () - 0.5) * pow (10., r.range (-300, 300));
  if (r.chance (0.5)) { size_t b = r.range (1, 17); p4est_connectivity_set_attr (c, b); for (size_t i = 0; i < b * c->num_trees; ++i) c->tree_to_attr[i] = (char) r.next (); }
  distinct_state (conn_hash (c));
  p4est_connectivity_t *k = p4est_connectivity_copy (c, 1);
  int what = r.below (DIM == 3 ? 9 : 8);
  if (what == 1 || what == 5) {
    std::string n2; p4est_connectivity_t *c2 = gen_conn (r, co, n2);
    if (what == 1) s_stream (r, c, c2); else s_equivalent (r, c, c2);
    p4est_connectivity_destroy (c2);
  }
  else switch (what) {
    case 0: s_file (r, c); break;
    case 2: s_copy (r, c); break;
    case 3: s_dist (r, c); break;
    case 4: s_equal (r, c); break;
    case 6: s_equivalent (r, c, c); break;
    case 7: s_inp (r, c); break;
#ifdef P4_TO_P8
    case 8: s_tets (r); break;
#endif
    }
  std::string why;
  CHK (!diff (c, k, true, why), "input-changed", "%s of the input changed", why.c_str ());
  p4est_connectivity_destroy (k);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C17", prop)
}

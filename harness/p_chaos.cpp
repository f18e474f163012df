/* C23: long random sequences of valid calls over a pool of objects of all kinds,
 * created, used and destroyed in any order.  Judged by sanitizers, the library's own
 * consistency checks, the accounting of main.cpp and the integrity of user data. */
#include "core.hpp"
#ifdef P4_TO_P8
#include <p8est_plex.h>
#else
#include <p4est_plex.h>
#endif
#include <zlib.h>

bool run_other_property (Rng & r);

namespace {
struct Conn { p4est_connectivity_t *c; std::string name; int users; bool oracle; };
struct F
{
  p4est_t *p; Conn *cn; u64 salt; int md;       /* md: known balanced in entities of dimension >= md; DIM: not known */
  std::vector<p4est_ghost_t *> ghosts; std::vector<int> gdim;   /* valid for the current leaves and partition */
  std::vector<p4est_lnodes_t *> lns; std::vector<p4est_mesh_t *> meshes; std::vector<p4est_nodes_t *> nds;
};
struct World
{
  std::vector<Conn *> cs; std::vector<F *> fs;
  std::vector<p4est_ghost_t *> oldg; std::vector<p4est_lnodes_t *> oldl; std::vector<p4est_mesh_t *> oldm; std::vector<p4est_nodes_t *> oldn;
};
F *cur; u64 opseed; double oprob; Rng *lr; volatile u64 sink;
std::vector<void *> to_free;

void eat (const void *p, size_t n) { if (n) sink = sink + adler32 (1, (const Bytef *) p, (uInt) n); }
void eat_quad (const p4est_quadrant_t * q) { i64 s = q->x + q->y + q->level; sink = sink + s; }
void check_data (p4est_topidx_t t, const p4est_quadrant_t * q, const char *where)
{
  size_t n = cur->p->data_size;
  if (!n) return;
  count ("data_checked");
  CHK (check_bytes (q->p.user_data, n, leaf_id (t, q, cur->salt)), "own-data", "user data of a leaf destroyed (%s)", where);
}
void put_data (p4est_topidx_t t, p4est_quadrant_t * q) { if (cur->p->data_size) fill_bytes (q->p.user_data, cur->p->data_size, leaf_id (t, q, cur->salt)); }
void init_fn (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q) { put_data (t, q); }
void replace_fn (p4est_t *, p4est_topidx_t t, int no, p4est_quadrant_t ** out, int ni, p4est_quadrant_t ** in)
{
  for (int i = 0; i < no; ++i) check_data (t, out[i], "replaced");
  for (int i = 0; i < ni; ++i) put_data (t, in[i]);
  count ("replacements");
}
bool coin (p4est_topidx_t t, const p4est_quadrant_t * q) { return (leaf_id (t, q, opseed) >> 11) * (1.0 / 9007199254740992.0) < oprob; }
int refine_fn (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q) { check_data (t, q, "refining"); return coin (t, q); }
int coarsen_fn (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q[])
{
  check_data (t, q[0], "coarsening");
  if (!q[1]) return 0;
  for (int i = 1; i < NC; ++i) check_data (t, q[i], "coarsening");
  return coin (t, q[0]);
}
int weight_fn (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q) { check_data (t, q, "weighing"); return (int) (leaf_id (t, q, opseed) % 9); }
void verify (F * f)
{
  cur = f;
  for (p4est_topidx_t t = f->p->first_local_tree; t <= f->p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (f->p->trees, t);
    for (size_t i = 0; i < tr->quadrants.elem_count; ++i) check_data (t, p4est_quadrant_array_index (&tr->quadrants, i), "kept");
  }
  CHK (p4est_is_valid (f->p), "own-valid", "the forest is not valid");
}
/* derived objects of old leaves stay around for a while and are destroyed later */
void outdate (World & w, F * f)
{
  for (auto g : f->ghosts) w.oldg.push_back (g);
  for (auto l : f->lns) w.oldl.push_back (l);
  for (auto m : f->meshes) w.oldm.push_back (m);
  for (auto n : f->nds) w.oldn.push_back (n);
  f->ghosts.clear (); f->gdim.clear (); f->lns.clear (); f->meshes.clear (); f->nds.clear ();
}
p4est_ghost_t *some_ghost (Rng & r, F * f, int need)
{
  for (size_t i = 0; i < f->ghosts.size (); ++i) if (f->gdim[i] <= need) return f->ghosts[i];
  p4est_ghost_t *g = p4est_ghost_new (f->p, conn_type (need));
  f->ghosts.push_back (g); f->gdim.push_back (need);
  count ("ghosts");
  (void) r;
  return g;
}
F *add (World & w, p4est_t * p, Conn * cn, u64 salt, int md = DIM)
{
  F *f = new F; f->p = p; f->cn = cn; f->salt = salt; f->md = md;
  p->user_pointer = f; cn->users++;
  w.fs.push_back (f);
  count ("forests");
  return f;
}
Conn *new_conn (World & w, p4est_connectivity_t * c, const std::string & n)
{
  Geo g; g.init (c);
  Conn *cn = new Conn { c, n, 0, conn_oracle_ok (g) };
  w.cs.push_back (cn);
  return cn;
}
void drop (World & w, Rng & r, F * f)
{
  bool keep = r.chance (.5);    /* derived objects outlive the forest */
  outdate (w, f);
  if (!keep) {
    for (auto g : w.oldg) p4est_ghost_destroy (g);
    for (auto l : w.oldl) p4est_lnodes_destroy (l);
    for (auto m : w.oldm) p4est_mesh_destroy (m);
    for (auto n : w.oldn) p4est_nodes_destroy (n);
    w.oldg.clear (); w.oldl.clear (); w.oldm.clear (); w.oldn.clear ();
  }
  verify (f);
  p4est_destroy (f->p);
  f->cn->users--;
  w.fs.erase (std::find (w.fs.begin (), w.fs.end (), f));
  delete f;
}

/* ------------------------------------------------------------------ queries */
void it_volume (p4est_iter_volume_info_t * i, void *) { check_data (i->treeid, i->quad, "volume"); count ("it_volumes"); }
template <class S> void touch_side (S * s, int n) { for (int h = 0; h < n; ++h) { } (void) s; }
void it_face (p4est_iter_face_info_t * i, void *)
{
  for (size_t z = 0; z < i->sides.elem_count; ++z) {
    p4est_iter_face_side_t *s = p4est_iter_fside_array_index (&i->sides, z);
    if (s->is_hanging) { for (int h = 0; h < NH; ++h) if (s->is.hanging.quad[h]) { eat_quad (s->is.hanging.quad[h]); if (!s->is.hanging.is_ghost[h]) check_data (s->treeid, s->is.hanging.quad[h], "face"); } }
    else if (s->is.full.quad) { eat_quad (s->is.full.quad); if (!s->is.full.is_ghost) check_data (s->treeid, s->is.full.quad, "face"); }
  }
}
void it_corner (p4est_iter_corner_info_t * i, void *)
{
  for (size_t z = 0; z < i->sides.elem_count; ++z) {
    p4est_iter_corner_side_t *s = p4est_iter_cside_array_index (&i->sides, z);
    if (s->quad) { eat_quad (s->quad); if (!s->is_ghost) check_data (s->treeid, s->quad, "corner"); }
  }
}
#ifdef P4_TO_P8
void it_edge (p8est_iter_edge_info_t * i, void *)
{
  for (size_t z = 0; z < i->sides.elem_count; ++z) {
    p8est_iter_edge_side_t *s = p8est_iter_eside_array_index (&i->sides, z);
    if (s->is_hanging) { for (int h = 0; h < 2; ++h) if (s->is.hanging.quad[h]) { eat_quad (s->is.hanging.quad[h]); if (!s->is.hanging.is_ghost[h]) check_data (s->treeid, s->is.hanging.quad[h], "edge"); } }
    else if (s->is.full.quad) { eat_quad (s->is.full.quad); if (!s->is.full.is_ghost) check_data (s->treeid, s->is.full.quad, "edge"); }
  }
}
#endif
bool in_point (p4est_topidx_t t, const p4est_quadrant_t * q, const void *pt) { const u64 *h = (const u64 *) pt; return (leaf_id (t, q, *h) & 3) != 0 || q->level < 2; }
int s_local (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t ln, void *pt)
{
  count ("search_calls");
  if (ln >= 0) check_data (t, q, "search");
  return pt ? in_point (t, q, pt) : (int) ((leaf_id (t, q, opseed) & 15) != 0);
}
int s_part (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q, int, int, void *pt) { count ("search_calls"); return pt ? in_point (t, q, pt) : 1; }
int s_all (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q, int, int, p4est_locidx_t ln, void *pt)
{ count ("search_calls"); if (ln >= 0) check_data (t, q, "search"); return pt ? in_point (t, q, pt) : 1; }
int s_local_build (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t ln, void *)
{
  if (ln < 0 || !coin (t, q)) return 1;
  int rv = p4est_build_add ((p4est_build_t *) to_free[0], t, q);
  CHK (rv, "own-build", "a leaf could not be added");
  return 1;
}

void op_exchange (Rng & r, F * f)
{
  p4est_t *p = f->p;
  p4est_ghost_t *g = some_ghost (r, f, r.below (DIM));
  size_t ng = g->ghosts.elem_count, nm = g->mirrors.elem_count;
  size_t ds = r.below (40);
  struct Ex { int kind; p4est_ghost_exchange_t *x; std::vector<char> gd, mdat; std::vector<void *> mp; size_t n; };
  std::vector<Ex *> ex;
  int k = r.range (1, 3);
  for (int i = 0; i < k; ++i) {
    Ex *e = new Ex;
    e->kind = r.below (3); e->n = e->kind == 0 ? (p->data_size ? p->data_size : sizeof (void *)) : ds;
    e->gd.resize (ng * e->n + 1); e->mdat.assign (nm * ds + 1, (char) i);
    for (size_t j = 0; j < nm; ++j) e->mp.push_back (e->mdat.data () + j * ds);
    e->mp.push_back (NULL);
    int lo = r.below (4), hi = lo + r.below (5);
    /* the forest does not interpret the addresses in the user pointer */
    if (e->kind == 0) e->x = p4est_ghost_exchange_data_begin (p, g, e->gd.data ());
    else if (e->kind == 1) e->x = p4est_ghost_exchange_custom_begin (p, g, ds, e->mp.data (), e->gd.data ());
    else e->x = p4est_ghost_exchange_custom_levels_begin (p, g, lo, hi, ds, e->mp.data (), e->gd.data ());
    ex.push_back (e);
  }
  while (ex.size ()) {
    int i = r.below ((i64) ex.size ());
    if (ex[i]->kind == 0) p4est_ghost_exchange_data_end (ex[i]->x);
    else if (ex[i]->kind == 1) p4est_ghost_exchange_custom_end (ex[i]->x);
    else p4est_ghost_exchange_custom_levels_end (ex[i]->x);
    delete ex[i];
    ex.erase (ex.begin () + i);
    count ("exchanges");
  }
}
void op_lnodes (World & w, Rng & r, F * f)
{
  p4est_t *p = f->p;
  if (f->md > 0 || !f->cn->oracle) return;
  p4est_ghost_t *g = some_ghost (r, f, 0);
  int degree = r.chance (.4) ? -r.range (1, DIM) : r.range (1, 4);
  p4est_lnodes_t *ln = p4est_lnodes_new (p, g, degree);
  count ("numberings");
  eat (ln->element_nodes, sizeof (p4est_locidx_t) * ln->num_local_elements * ln->vnodes);
  eat (ln->face_code, sizeof (*ln->face_code) * ln->num_local_elements);
  size_t es = r.pick ({1, 4, 8, 12});
  sc_array_t *a = sc_array_new_count (es, ln->num_local_nodes), *b = sc_array_new_count (es, ln->num_local_nodes);
  memset (a->array, 1, es * a->elem_count); memset (b->array, 2, es * b->elem_count);
  int how = r.below (3);
  if (how == 0) { p4est_lnodes_buffer_t *x = p4est_lnodes_share_owned_begin (a, ln), *y = r.chance (.5) ? p4est_lnodes_share_all_begin (b, ln) : NULL;
    p4est_lnodes_share_owned_end (x); p4est_lnodes_buffer_destroy (x); if (y) { p4est_lnodes_share_all_end (y); p4est_lnodes_buffer_destroy (y); } }
  else if (how == 1) p4est_lnodes_share_owned (a, ln);
  else { p4est_lnodes_buffer_t *x = p4est_lnodes_share_all (b, ln);
    for (size_t z = 0; z < x->recv_buffers->elem_count; ++z) { sc_array_t *rb = (sc_array_t *) sc_array_index (x->recv_buffers, z); eat (rb->array, rb->elem_count * rb->elem_size); }
    p4est_lnodes_buffer_destroy (x); }
  eat (a->array, es * a->elem_count); eat (b->array, es * b->elem_count);
  sc_array_destroy (a); sc_array_destroy (b);
  if (r.chance (.5)) {
    /* one kind of adjacency throughout: the expansion assumes that being in a peer's layer is mutual */
    int hd = degree < 0 ? DIM + degree : 0;
    p4est_ghost_t *h = p4est_ghost_new (p, conn_type (hd));
    bool expand = r.chance (.7);
    if (expand || r.chance (.7)) p4est_ghost_support_lnodes (p, ln, h);
    if (expand) for (int i = r.below (3); i > 0; --i) { p4est_ghost_expand_by_lnodes (p, ln, h); count ("expansions_by_nodes"); }
    CHK (p4est_ghost_is_valid (p, h), "own-valid", "ghost layer not valid after support or expansion");
    f->ghosts.push_back (h); f->gdim.push_back (hd);
    count ("ghosts_supported");
  }
  f->lns.push_back (ln);
  (void) w;
}
void op_mesh (Rng & r, F * f)
{
  p4est_t *p = f->p;
  if (f->md > DIM - 1) return;
  p4est_mesh_params_t pa; p4est_mesh_params_init (&pa);
  int md = r.range (f->md, DIM - 1);
  if (!f->cn->oracle) md = DIM - 1;
  if (md < f->md) return;
  p4est_ghost_t *g = p4est_ghost_new (p, conn_type (md));
  f->ghosts.push_back (g); f->gdim.push_back (md);
  pa.btype = conn_type (md); pa.compute_tree_index = 1; pa.compute_level_lists = r.below (2);
#ifdef P4_TO_P8
  pa.edgehanging_corners = md == 0 && r.below (2);
#endif
  p4est_mesh_t *m = p4est_mesh_new_params (p, g, &pa);
  sink = sink + p4est_mesh_memory_used (m);
  int ndir = NF + (md == 0 ? NC : 0);
#ifdef P4_TO_P8
  if (md <= 1) ndir = NF + NE + (md == 0 ? NC : 0);
  if (md == DIM - 1) ndir = NF;
#endif
  sc_array_t *a = sc_array_new (sizeof (p4est_quadrant_t *)), *b = sc_array_new (sizeof (int)), *c = sc_array_new (sizeof (int));
  for (p4est_locidx_t i = 0; i < m->local_num_quadrants; ++i) {
    for (int k = 0; k < ndir; ++k) {
      sc_array_truncate (a); sc_array_truncate (b); sc_array_truncate (c);
      p4est_mesh_get_neighbors (p, g, m, i, k, a, b, c);
      for (size_t z = 0; z < a->elem_count; ++z) eat_quad (*(p4est_quadrant_t **) sc_array_index (a, z));
      count ("mesh_queries");
    }
  }
  sc_array_destroy (a); sc_array_destroy (b); sc_array_destroy (c);
  size_t es = r.pick ({0, 5, 8});
  std::vector<char> gd (g->ghosts.elem_count * (es + 1) + 1);
  p4est_locidx_t li = 0;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z, ++li) {
      if (lr->below (3)) continue;
      p4est_mesh_face_neighbor_t mfn;
      if (li & 1) p4est_mesh_face_neighbor_init2 (&mfn, p, g, m, t, (p4est_locidx_t) z);
      else p4est_mesh_face_neighbor_init (&mfn, p, g, m, t, p4est_quadrant_array_index (&tr->quadrants, z));
      p4est_topidx_t nt; p4est_locidx_t nq; int nf, nr;
      while (p4est_quadrant_t * q = p4est_mesh_face_neighbor_next (&mfn, &nt, &nq, &nf, &nr)) eat_quad (q);
    }
  }
  count ("meshes");
  f->meshes.push_back (m);
}
void op_plex (Rng & r, F * f)
{
  if (f->md > 0 || !f->cn->oracle) return;
  p4est_t *p = f->p;
  if (p->global_num_quadrants > 1500) return;
  sc_array_t *a[10];
  for (int i = 0; i < 10; ++i) a[i] = sc_array_new (i == 9 ? 2 * sizeof (p4est_locidx_t) : i == 4 ? 3 * sizeof (double) : sizeof (p4est_locidx_t));
  if (!f->cn->c->num_vertices) { for (int i = 0; i < 10; ++i) sc_array_destroy (a[i]); return; }
  p4est_locidx_t fl;
  int ov = r.below (3), cu = r.below (2), md = 0;
  if (r.chance (.5)) p4est_get_plex_data (p, conn_type (md), ov, &fl, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  else {
    p4est_ghost_t *g = NULL; p4est_lnodes_t *ln = NULL;
    p4est_get_plex_data_ext (p, &g, &ln, conn_type (md), ov, &fl, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], cu);
    if (g) p4est_ghost_destroy (g);
    if (ln) p4est_lnodes_destroy (ln);
  }
  for (int i = 0; i < 10; ++i) { eat (a[i]->array, a[i]->elem_count * a[i]->elem_size); sc_array_destroy (a[i]); }
  count ("plexes");
}
void op_wrap (World & w, Rng & r, F * f)
{
  std::string nm;
  p4est_wrap_t *wr;
  p4est_connect_type_t bt = conn_type (r.below (DIM));
  if (r.chance (.5)) {
    ConnOpts co; co.max_trees = 4;
    p4est_connectivity_t *c = gen_conn (r, co, nm);
    Geo g; g.init (c);
    if (!conn_oracle_ok (g)) { p4est_connectivity_destroy (c); return; }
    if (r.chance (.5)) wr = p4est_wrap_new_ext (MPI_COMM_WORLD, c, r.below (3), r.below (2), bt, NULL, &nm);
    else wr = p4est_wrap_new_conn (MPI_COMM_WORLD, c, r.below (3));
  }
  else {
    if (!f->cn->oracle || f->md > 0 || f->p->global_num_quadrants > 1200) return;
    /* the wrapper takes forest and connectivity */
    p4est_t *q = p4est_copy (f->p, 0);
    p4est_connectivity_t *c = p4est_connectivity_copy (f->cn->c, 1);
    q->connectivity = c; q->user_pointer = NULL;
    wr = p4est_wrap_new_p4est (q, r.below (2), bt, NULL, NULL);
  }
  for (int k = r.range (1, 3); k > 0; --k) {
    if (wr->p4est->global_num_quadrants > 1500) break;
    if (wr->params.hollow) p4est_wrap_set_hollow (wr, 0);
    int i = 0;
    for (p4est_wrap_leaf_t * l = p4est_wrap_leaf_first (wr, r.below (2)); l; l = p4est_wrap_leaf_next (l), ++i) {
      int h = lr->below (8);
      if (h == 0) p4est_wrap_mark_refine (wr, l->which_tree, l->which_quad);
      else if (h < 5) p4est_wrap_mark_coarsen (wr, l->which_tree, l->which_quad);
    }
    if (p4est_wrap_adapt (wr)) {
      if (p4est_wrap_partition (wr, r.below (2), NULL, NULL, NULL)) p4est_wrap_complete (wr);
    }
    count ("wrap_cycles");
    if (r.chance (.3)) p4est_wrap_set_hollow (wr, 1);
  }
  p4est_wrap_destroy (wr);
  (void) w;
}
void op_vtk (Rng & r, F * f)
{
  if (!f->cn->c->num_vertices) return;
  static int nvtk = 0;
  p4est_t *p = f->p;
  std::string fn = scratch ("chaosvtk") + std::to_string (nvtk++);
  p4est_geometry_t *geo = r.chance (.5) ? p4est_geometry_new_connectivity (f->cn->c) : NULL;
  p4est_vtk_context_t *cx = p4est_vtk_context_new (p, fn.c_str ());
  if (geo) p4est_vtk_context_set_geom (cx, geo);
  bool co = r.below (2);
  p4est_vtk_context_set_scale (cx, co ? 1. : .9); p4est_vtk_context_set_continuous (cx, co);
  cx = p4est_vtk_write_header (cx);
  if (!cx) { FAILK ("own-vtk", "header"); if (geo) p4est_geometry_destroy (geo); return; }
  int nc = r.below (3);
  sc_array_t *d[2] = { sc_array_new_count (8, p->local_num_quadrants), sc_array_new_count (8, 3 * p->local_num_quadrants) };
  memset (d[0]->array, 0, 8 * d[0]->elem_count); memset (d[1]->array, 0, 8 * d[1]->elem_count);
  if (nc == 2) cx = p4est_vtk_write_cell_dataf (cx, 1, 1, 1, 0, 1, 1, "sca", d[0], "vec", d[1], cx);
  else cx = p4est_vtk_write_cell_dataf (cx, 1, 0, 1, 0, 0, 0, cx);
  if (cx) CHK (!p4est_vtk_write_footer (cx), "own-vtk", "footer"); else FAILK ("own-vtk", "cell data");
  sc_array_destroy (d[0]); sc_array_destroy (d[1]);
  if (geo) p4est_geometry_destroy (geo);
  PMPI_Barrier (MPI_COMM_WORLD);
  unlink ((fn + "_" + (p->mpirank < 10 ? "000" : "00") + std::to_string (p->mpirank) + ".vtu").c_str ());
  if (!p->mpirank) { unlink ((fn + ".pvtu").c_str ()); unlink ((fn + ".visit").c_str ()); }
  count ("vtk_files");
}
void op_saveload (World & w, Rng & r, F * f)
{
  p4est_t *p = f->p;
  std::string fn = scratch ("chaos.p4c");
  bool data = p->data_size && r.below (2), part = r.below (2);
  p4est_save_ext (fn.c_str (), p, data, part);
  PMPI_Barrier (MPI_COMM_WORLD);
  p4est_connectivity_t *c;
  bool ld = data && r.chance (.8);
  size_t ds = ld ? p->data_size : (size_t) r.pick ({0, 4, 16});
  p4est_t *q = p4est_load_ext (fn.c_str (), MPI_COMM_WORLD, ds, ld, !part || r.below (2), r.below (2), NULL, &c);
  PMPI_Barrier (MPI_COMM_WORLD);
  if (!p->mpirank) unlink (fn.c_str ());
  Conn *cn = new_conn (w, c, "loaded");
  F *h = add (w, q, cn, f->salt, DIM);
  if (!ld && ds) { cur = h; p4est_reset_data (q, ds, init_fn, h); }
  verify (h);
  count ("save_loads");
}
void op_inflate (World & w, Rng & r, F * f)
{
  p4est_t *p = f->p;
  sc_array_t *dat = NULL;
  bool wd = p->data_size && r.below (2);
  sc_array_t *q = p4est_deflate_quadrants (p, wd ? &dat : NULL);
  std::vector<p4est_gloidx_t> pt (p->connectivity->num_trees + 1), gfq (p->global_first_quadrant, p->global_first_quadrant + p->mpisize + 1);
  p4est_comm_count_pertree (p, pt.data ());
  p4est_t *n = (r.below (2) ? p4est_inflate : p4est_inflate_null) (MPI_COMM_WORLD, p->connectivity, gfq.data (), pt.data (), q, dat, NULL);
  sc_array_destroy (q);
  if (dat) sc_array_destroy (dat);
  if (!n) { FAILK ("own-inflate", "refused"); return; }
  F *h = add (w, n, f->cn, f->salt, f->md);
  if (n->data_size && !wd) { cur = h; p4est_reset_data (n, n->data_size, init_fn, h); }
  n->user_pointer = h;
  verify (h);
  count ("inflated");
}
void op_transfer (Rng & r, F * f)
{
  p4est_t *p = f->p;
  std::vector<p4est_gloidx_t> g0 (p->global_first_quadrant, p->global_first_quadrant + p->mpisize + 1), g1 (p->mpisize + 1);
  std::vector<i64> cn = random_counts (r, p->global_num_quadrants, p->mpisize, true);
  g1[0] = 0;
  for (int i = 0; i < p->mpisize; ++i) g1[i + 1] = g1[i] + cn[i];
  i64 n0 = g0[p->mpirank + 1] - g0[p->mpirank], n1 = g1[p->mpirank + 1] - g1[p->mpirank];
  size_t ds = r.pick ({0, 1, 8, 33});
  std::vector<char> a (n0 * ds + 1, 3), b (n1 * ds + 1);
  std::vector<int> s0 (n0 + 1), s1 (n1 + 1);
  for (i64 i = 0; i < n0; ++i) s0[i] = (int) (mix64 (opseed + g0[p->mpirank] + i) % 7);
  p4est_transfer_context_t *t1 = p4est_transfer_fixed_begin (g1.data (), g0.data (), p->mpicomm, 5, b.data (), a.data (), ds);
  p4est_transfer_fixed (g1.data (), g0.data (), p->mpicomm, 6, s1.data (), s0.data (), sizeof (int));
  i64 t0 = 0, tt = 0;
  for (i64 i = 0; i < n0; ++i) t0 += s0[i];
  for (i64 i = 0; i < n1; ++i) { CHK (s1[i] == (int) (mix64 (opseed + g1[p->mpirank] + i) % 7), "own-transfer", "size"); tt += s1[i]; }
  std::vector<char> c0 (3 * t0 + 1, 4), c1 (3 * tt + 1);
  if (r.below (2)) p4est_transfer_custom (g1.data (), g0.data (), p->mpicomm, 7, c1.data (), s1.data (), c0.data (), s0.data ());
  else p4est_transfer_items (g1.data (), g0.data (), p->mpicomm, 8, c1.data (), s1.data (), c0.data (), s0.data (), 3);
  p4est_transfer_end (t1);
  eat (b.data (), n1 * ds);
  count ("transfers");
}
void op_conn (World & w, Rng & r, Conn * cn)
{
  switch (r.pick ({0, 1, 3, 4, 5})) {
  case 0: {
    sc_array_t *b = p4est_connectivity_deflate (cn->c, P4EST_CONN_ENCODE_NONE);
    p4est_connectivity_t *c = p4est_connectivity_inflate (b);
    sc_array_destroy (b);
    if (!c) { FAILK ("own-conn", "inflate"); return; }
    CHK (p4est_connectivity_is_equal (c, cn->c) && p4est_connectivity_is_equivalent (c, cn->c), "own-conn", "not equal");
    if (r.chance (.5)) new_conn (w, c, "inflated"); else p4est_connectivity_destroy (c);
    break; }
  case 1: {
    p4est_connectivity_t *c = p4est_connectivity_bcast (run.rank == run.size - 1 ? cn->c : NULL, run.size - 1, MPI_COMM_WORLD);
    if (c != cn->c) p4est_connectivity_destroy (c);
    break; }
  case 3: {
    if (cn->users) return;
    p4est_connectivity_reduce (cn->c);
    break; }
  case 4: {
    if (cn->users) return;
    size_t ab = r.below (17);
    p4est_connectivity_set_attr (cn->c, ab);
    if (cn->c->tree_to_attr) memset (cn->c->tree_to_attr, 7, ab * cn->c->num_trees);
    break; }
  default: {
    p4est_connectivity_shared_t *s = p4est_connectivity_mission (run.rank == 0 ? p4est_connectivity_copy (cn->c, 1) : NULL, sc_MPI_COMM_TYPE_SHARED, MPI_COMM_WORLD);
    if (s) { CHK (p4est_connectivity_is_valid (s->conn), "own-conn", "shared"); p4est_connectivity_shared_destroy (s); }
    break; }
  }
  count ("conn_ops");
}

void chaos (Rng & r)
{
  World w;
  Rng lrr (hcomb (r.next (), run.rank)); lr = &lrr;
  int nops = r.range (8, run.tier ? 40 : 22);
  std::string trace;
  opseed = r.next ();
  u64 ohash = 0;
  for (int it = 0; it < nops; ++it) {
    F *f = w.fs.size () ? w.fs[r.below ((i64) w.fs.size ())] : NULL;
    int op = f ? r.below (30) : 100;
    if (w.fs.size () > 4 && r.chance (.5)) op = 101;
    opseed = r.next (); oprob = r.pick ({.1, .3, .6, .9});
    if (f) { cur = f; f->p->user_pointer = f; }
    if (trace.size () < 400) trace += std::to_string (op) + " ";
    ohash = hcomb (ohash, op);
    switch (op) {
    case 100: case 0: {
      Conn *cn = NULL;
      if (w.cs.size () && r.chance (.5)) cn = w.cs[r.below ((i64) w.cs.size ())];
      else { ConnOpts co; co.max_trees = 6; std::string nm; p4est_connectivity_t *c = gen_conn (r, co, nm); cn = new_conn (w, c, nm); trace += nm + " "; }
      size_t ds = r.pick ({0, 1, 8, 8, 24, 100});
      F tmp; cur = &tmp; tmp.salt = r.next ();
      /* data of all leaves are written through reset_data afterwards */
      p4est_t *p = r.chance (.2) ? p4est_new (MPI_COMM_WORLD, cn->c, 0, NULL, NULL)
                                 : p4est_new_ext (MPI_COMM_WORLD, cn->c, r.pick ({0, 0, 1, 5, 20}), r.below (3), r.below (2), r.pick ({0, 3}), NULL, NULL);
      F *h = add (w, p, cn, tmp.salt);
      cur = h;
      p4est_reset_data (p, ds, init_fn, h);
      if (!h->cn->c->num_trees) { }
      break; }
    case 101: drop (w, r, f); break;
    case 1: case 2: case 3:
      if (f->p->global_num_quadrants > 2500) break;
      if (oprob > .5 && f->p->global_num_quadrants > 400) oprob = .1;
      if (r.chance (.3)) p4est_refine (f->p, 0, refine_fn, init_fn);
      else p4est_refine_ext (f->p, (oprob = std::min (oprob, DIM == 3 ? .1 : .2), r.below (2)), r.pick ({-1, 3, 6, QML}), refine_fn, init_fn, r.chance (.5) ? replace_fn : NULL);
      outdate (w, f); f->md = DIM; count ("refinements");
      break;
    case 4: case 5:
      if (r.chance (.3)) p4est_coarsen (f->p, r.below (2), coarsen_fn, init_fn);
      else p4est_coarsen_ext (f->p, r.below (2), r.below (2), coarsen_fn, init_fn, r.chance (.5) ? replace_fn : NULL);
      outdate (w, f); f->md = DIM; count ("coarsenings");
      break;
    case 6: case 7: case 8: {
      int md = r.chance (.6) ? 0 : r.below (DIM);
      if (r.chance (.4)) p4est_balance (f->p, conn_type (md), init_fn); else p4est_balance_ext (f->p, conn_type (md), init_fn, r.chance (.6) ? replace_fn : NULL);
      outdate (w, f); f->md = std::min (f->md, md); count ("balances");
      if (r.chance (.3)) CHK (p4est_is_balanced (f->p, conn_type (f->md)), "own-valid", "not balanced");
      break; }
    case 9: case 10: {
      int k = r.below (5);
      if (k == 0) p4est_partition (f->p, r.below (2), r.chance (.5) ? weight_fn : NULL);
      else if (k == 1) p4est_partition_ext (f->p, r.below (2), r.chance (.5) ? weight_fn : NULL);
      else if (k == 2) random_partition (r, f->p, true);
      else if (f->md == 0 && f->cn->oracle) {
        p4est_ghost_t *g = r.chance (.5) ? NULL : some_ghost (r, f, 0);
        if (k == 3) p4est_partition_lnodes (f->p, g, r.range (1, 4), r.below (2));
        else {
#ifdef P4_TO_P8
          p8est_partition_lnodes_detailed (f->p, g, r.below (4), r.below (4), r.below (3), r.below (3) + 1, r.below (2));
#else
          p4est_partition_lnodes_detailed (f->p, g, r.below (4), r.below (4), r.below (3) + 1, r.below (2));
#endif
        }
        count ("node_partitions");
      }
      f->p->user_pointer = f;
      outdate (w, f); count ("partitions");
      break; }
    case 11: {
      int md = r.below (DIM);
      p4est_ghost_t *g = p4est_ghost_new (f->p, conn_type (md));
      for (int k = r.below (3); k > 0; --k) p4est_ghost_expand (f->p, g);
      CHK (p4est_ghost_is_valid (f->p, g), "own-valid", "ghost layer");
      eat (g->ghosts.array, 0); sink = sink + p4est_ghost_memory_used (g) + p4est_ghost_checksum (f->p, g);
      f->ghosts.push_back (g); f->gdim.push_back (md);
      count ("ghosts");
      break; }
    case 12: op_exchange (r, f); break;
    case 13: case 14: op_lnodes (w, r, f); break;
    case 15: op_mesh (r, f); break;
    case 16:
      if (f->md == 0 && f->cn->oracle) { p4est_nodes_t *n = p4est_nodes_new (f->p, r.chance (.7) ? some_ghost (r, f, 0) : NULL); eat (n->local_nodes, sizeof (p4est_locidx_t) * n->num_local_quadrants * NC); CHK (p4est_nodes_is_valid (f->p, n), "own-valid", "nodes"); f->nds.push_back (n); count ("node_lists"); }
      break;
    case 17: {
      if (f->md > DIM - 1) break;
      p4est_ghost_t *g = r.chance (.7) ? some_ghost (r, f, r.below (DIM)) : NULL;
#ifdef P4_TO_P8
      p8est_iterate (f->p, g, NULL, it_volume, it_face, f->md <= 1 ? it_edge : NULL, f->md == 0 ? it_corner : NULL);
#else
      p4est_iterate (f->p, g, NULL, it_volume, it_face, f->md == 0 ? it_corner : NULL);
#endif
      count ("iterations");
      break; }
    case 18: {
      sc_array_t *pts = r.chance (.6) ? sc_array_new_count (sizeof (u64), r.below (20)) : NULL;
      if (pts) for (size_t i = 0; i < pts->elem_count; ++i) *(u64 *) sc_array_index (pts, i) = r.next ();
      p4est_search_local_t q = r.chance (.7) || !pts ? s_local : NULL, pf = pts ? s_local : NULL;
      int k = r.below (4);
      if (k == 0) p4est_search_local (f->p, 0, q, pf, pts);
      else if (k == 1) p4est_search_reorder (f->p, r.below (2), NULL, q, NULL, pf, pts);
      else if (k == 2) p4est_search_partition (f->p, 0, q ? s_part : NULL, pf ? s_part : NULL, pts);
      else p4est_search_all (f->p, 0, q ? s_all : NULL, pf ? s_all : NULL, pts);
      if (pts) sc_array_destroy (pts);
      count ("searches");
      break; }
    case 19: op_saveload (w, r, f); break;
    case 20: op_inflate (w, r, f); break;
    case 21: case 22: {
      bool cd = f->p->data_size && r.chance (.7);
      p4est_t *q = !f->p->mpicomm_owned && r.chance (.5) ? p4est_copy (f->p, cd) : p4est_copy_ext (f->p, cd, f->p->mpicomm_owned || r.below (2));
      if (r.chance (.5) && cd) CHK (p4est_is_equal (f->p, q, 1), "own-valid", "copy differs");
      F *h = add (w, q, f->cn, f->salt, f->md);
      if (!cd && q->data_size == 0) { }
      if (r.chance (.3)) { cur = h; p4est_reset_data (q, r.pick ({0, 8, 50}), init_fn, h); }
      verify (h);
      count ("copies");
      break; }
    case 23: op_transfer (r, f); break;
    case 24: op_wrap (w, r, f); break;
    case 25: op_vtk (r, f); break;
    case 26: {
      /* leaves chosen through a search become the leaves of a new forest */
      p4est_build_t *b = p4est_build_new (f->p, f->p->data_size ? 0 : 0, NULL, NULL);
      to_free.assign (1, b);
      p4est_search_local (f->p, 0, s_local_build, NULL, NULL);
      p4est_t *q = p4est_build_complete (b);
      /* the communicator is that of the original forest, which may free it */
      if (f->p->mpicomm_owned) p4est_comm_parallel_env_replace (q, MPI_COMM_WORLD);
      F *h = add (w, q, f->cn, f->salt);
      verify (h);
      count ("builds");
      break; }
    case 27: op_plex (r, f); break;
    case 28: {
      int k = r.below (4);
      CHK (p4est_comm_sync_flag (f->p, 1, sc_MPI_BAND) && !p4est_comm_sync_flag (f->p, 0, sc_MPI_BOR), "own-sync", "flag");
      sink = sink + p4est_checksum (f->p) + p4est_checksum_partition (f->p) + p4est_memory_used (f->p) + p4est_connectivity_memory_used (f->cn->c);
      if (k == 0 && !f->p->mpicomm_owned) p4est_comm_parallel_env_duplicate (f->p);
      else if (k == 1 && f->p->mpicomm_owned) { p4est_comm_parallel_env_replace (f->p, MPI_COMM_WORLD); }
      else if (k == 2) {
        p4est_t *q = p4est_copy (f->p, 0);
        int in = p4est_comm_parallel_env_reduce (&q);
        if (in) { p4est_destroy (q); }
        else CHK (q == NULL, "own-reduce", "forest left on a process excluded");
      }
      count ("environments");
      break; }
    case 29: if (r.chance (.5)) op_conn (w, r, w.cs[r.below ((i64) w.cs.size ())]);
      else { size_t ds = r.pick ({0, 3, 16}); p4est_reset_data (f->p, ds, init_fn, f); count ("resets"); }
      break;
    }
    count ("operations");
    if (r.chance (.25) && w.fs.size ()) verify (w.fs[r.below ((i64) w.fs.size ())]);
    /* forests that other processes may not agree on would show up here as different counts */
  }
  describe ("%s", trace.c_str ());
  distinct_state (ohash);
  while (w.fs.size ()) drop (w, r, w.fs[r.below ((i64) w.fs.size ())]);
  for (auto g : w.oldg) p4est_ghost_destroy (g);
  for (auto l : w.oldl) p4est_lnodes_destroy (l);
  for (auto m : w.oldm) p4est_mesh_destroy (m);
  for (auto n : w.oldn) p4est_nodes_destroy (n);
  for (auto c : w.cs) { p4est_connectivity_destroy (c->c); delete c; }
  count ("sequences");
}

void memory_prop (Rng & r)
{
  if (r.chance (.4)) run_other_property (r);
  else chaos (r);
  run.judged++;
}
}
REGISTER_PROP ("C23", memory_prop)

/* C25: the same program of operations is run by one process alone, by all
 * processes and by a part of them, with different intermediate partitions and
 * different delays of messages; the global results must agree, and repeating a
 * run with other delays must reproduce every process-local result. */
#include "core.hpp"
#include <unistd.h>

namespace {
struct Result
{
  std::vector<std::pair<std::string, u64>> g;   /* global results in order, identical on all processes */
  std::vector<std::pair<std::string, u64>> l;   /* process-local results */
};
struct D { u64 v[2]; };                 /* leaf data */
u64 g_salt;
u64 lhash (int t, const p4est_quadrant_t * q, u64 salt) { return leaf_id (t, q, salt); }
void init_fn (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q)
{
  (void) p;
  D *d = (D *) q->p.user_data;
  d->v[0] = lhash (t, q, 17); d->v[1] = 1;
}
void replace_fn (p4est_t * p, p4est_topidx_t t, int no, p4est_quadrant_t * out[], int ni, p4est_quadrant_t * in[])
{
  (void) p;
  if (no == 1) for (int i = 0; i < ni; ++i) {
    D *d = (D *) in[i]->p.user_data, *o = (D *) out[0]->p.user_data;
    d->v[0] = hcomb (o->v[0], hcomb (t, i)); d->v[1] = o->v[1] + 1;
  }
  else {
    D *d = (D *) in[0]->p.user_data;
    u64 h = 5; for (int i = 0; i < no; ++i) h = hcomb (h, ((D *) out[i]->p.user_data)->v[0]);
    d->v[0] = h; d->v[1] = 7;
  }
}
u64 vhash (const void *b, size_t n) { u64 h = n; const unsigned char *c = (const unsigned char *) b; size_t i = 0; for (; i + 8 <= n; i += 8) { u64 w; memcpy (&w, c + i, 8); h = hcomb (h, w); } for (; i < n; ++i) h = hcomb (h, c[i]); return h; }
template <class T> u64 vh (const std::vector<T> & v) { return vhash (v.data (), v.size () * sizeof (T)); }

struct Iter
{
  p4est_t *p;
  std::vector<u64> *out;
  i64 volumes = 0;
};
u64 side_leaf (int t, const p4est_quadrant_t * q) { return lhash (t, q, 3); }
struct Key3 { int t; u128 k; bool operator< (const Key3 & o) const { return t != o.t ? t < o.t : k < o.k; } };
Key3 k3 (int t, const p4est_quadrant_t * q) { return Key3 { t, mkleaf (t, q).key () }; }
void it_volume (p4est_iter_volume_info_t *, void *u) { ++((Iter *) u)->volumes; }
/* an interface is recorded by the process of the first of its full sides */
struct Side { bool full, ghost; Key3 k; u64 h; };
void record (Iter * I, int kind, std::vector<Side> & s, int extra)
{
  const Side *m = nullptr;
  for (auto & a : s) if (a.full && (!m || a.k < m->k)) m = &a;
  if (!m || m->ghost) return;
  std::vector<u64> h;
  for (auto & a : s) h.push_back (a.h);
  std::sort (h.begin (), h.end ());
  u64 v = hcomb (kind, extra);
  for (u64 x : h) v = hcomb (v, x);
  I->out->push_back (v);
}
void it_face (p4est_iter_face_info_t * in, void *u)
{
  Iter *I = (Iter *) u; std::vector<Side> s;
  for (size_t z = 0; z < in->sides.elem_count; ++z) {
    p4est_iter_face_side_t *f = (p4est_iter_face_side_t *) sc_array_index (&in->sides, z);
    Side a; a.full = !f->is_hanging; a.ghost = true; a.k = Key3 { 0, 0 };
    a.h = hcomb (hcomb (f->treeid, f->face), f->is_hanging);
    if (!f->is_hanging) { if (!f->is.full.quad) continue; a.ghost = f->is.full.is_ghost; a.k = k3 (f->treeid, f->is.full.quad); a.h = hcomb (a.h, side_leaf (f->treeid, f->is.full.quad)); }
    else for (int i = 0; i < NH; ++i) a.h = hcomb (a.h, f->is.hanging.quad[i] ? side_leaf (f->treeid, f->is.hanging.quad[i]) : 1);
    s.push_back (a);
  }
  record (I, 1, s, in->orientation * 2 + in->tree_boundary);
}
#ifdef P4_TO_P8
void it_edge (p8est_iter_edge_info_t * in, void *u)
{
  Iter *I = (Iter *) u; std::vector<Side> s;
  for (size_t z = 0; z < in->sides.elem_count; ++z) {
    p8est_iter_edge_side_t *f = (p8est_iter_edge_side_t *) sc_array_index (&in->sides, z);
    Side a; a.full = !f->is_hanging; a.ghost = true; a.k = Key3 { 0, 0 };
    a.h = hcomb (hcomb (f->treeid, f->edge), f->is_hanging);
    if (!f->is_hanging) { if (!f->is.full.quad) continue; a.ghost = f->is.full.is_ghost; a.k = k3 (f->treeid, f->is.full.quad); a.h = hcomb (a.h, side_leaf (f->treeid, f->is.full.quad)); }
    else for (int i = 0; i < 2; ++i) a.h = hcomb (a.h, f->is.hanging.quad[i] ? side_leaf (f->treeid, f->is.hanging.quad[i]) : 1);
    s.push_back (a);
  }
  record (I, 2, s, in->tree_boundary);
}
#endif
void it_corner (p4est_iter_corner_info_t * in, void *u)
{
  Iter *I = (Iter *) u; std::vector<Side> s;
  for (size_t z = 0; z < in->sides.elem_count; ++z) {
    p4est_iter_corner_side_t *f = (p4est_iter_corner_side_t *) sc_array_index (&in->sides, z);
    if (!f->quad) continue;
    Side a; a.full = true; a.ghost = f->is_ghost; a.k = k3 (f->treeid, f->quad);
    a.h = hcomb (hcomb (f->treeid, f->corner), side_leaf (f->treeid, f->quad));
    s.push_back (a);
  }
  record (I, 3, s, in->tree_boundary);
}
/* search */
struct Pt { int t; i64 x[3]; };
struct Found { std::vector<i64> at; p4est_t *p; };
int search_fn (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q, p4est_locidx_t num, void *pt)
{
  if (!pt) return 1;
  Found *f = (Found *) p->user_pointer;
  size_t i = *(size_t *) pt;
  extern std::vector<Pt> g_pts;
  const Pt & a = g_pts[i];
  Leaf l = mkleaf (t, q);
  if (a.t != t) return 0;
  for (int d = 0; d < DIM; ++d) if (a.x[d] < l.x[d] || a.x[d] >= l.x[d] + l.len ()) return 0;
  if (num >= 0) f->at[i] = p->global_first_quadrant[p->mpirank] + num + 1;
  return 1;
}
std::vector<Pt> g_pts;
}
namespace { std::vector<Pt> & pts () { return g_pts; } }

namespace {
struct Runner
{
  MPI_Comm comm; int rank, size; Result res;
  p4est_t *p = nullptr;
  void G (const std::string & k, u64 v) { res.g.push_back ({ k, v }); }
  void L (const std::string & k, u64 v) { res.l.push_back ({ k, v }); }
  /* a global result known on every process as a list that is to be compared as a set */
  void set_result (const std::string & k, std::vector<u64> & mine, bool unique)
  {
    std::vector<u64> all = allgatherv (mine, comm);
    std::sort (all.begin (), all.end ());
    if (unique) for (size_t i = 1; i < all.size (); ++i) if (all[i] == all[i - 1]) { G (k + " repeated", all[i]); break; }
    G (k + " number", all.size ());
    G (k, vh (all));
  }
  void leaves (const std::string & k)
  {
    GForest f = gather (p);
    G (k + " leaves", f.hash (false));
    std::vector<D> d;
    for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
      p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
      for (size_t z = 0; z < tr->quadrants.elem_count; ++z) d.push_back (*(D *) p4est_quadrant_array_index (&tr->quadrants, z)->p.user_data);
    }
    L (k + " data", vh (d));
    std::vector<D> all = allgatherv (d, comm);
    G (k + " leaf data", vh (all));
    G (k + " count", p->global_num_quadrants);
    L (k + " range", vhash (p->global_first_quadrant, (size + 1) * sizeof (p4est_gloidx_t)));
    unsigned c = p4est_checksum (p);
    MPI_Bcast (&c, 1, MPI_UNSIGNED, 0, comm);
    G (k + " checksum", c);
  }
};
struct Prog
{
  u64 seed; int nops; int level; bool fill; p4est_connectivity_t *c; int target;
  bool weird;
};
struct Ctx { u64 salt; int pr; };
int op_refine (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { Ctx *x = (Ctx *) p->user_pointer; return (int) (lhash (t, q, x->salt) % 100) < x->pr; }
int op_coarsen (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q[]) { Ctx *x = (Ctx *) p->user_pointer; for (int i = 0; i < NC; ++i) if (!q[i]) return 0; return (int) (lhash (t, q[0], x->salt) % 100) < x->pr; }
int op_weight (p4est_t * p, p4est_topidx_t t, p4est_quadrant_t * q) { Ctx *x = (Ctx *) p->user_pointer; return (int) (lhash (t, q, x->salt) % 7); }

Result run_program (const Prog & pg, MPI_Comm comm, u64 partseed, bool derive)
{
  Runner R; R.comm = comm; MPI_Comm_rank (comm, &R.rank); MPI_Comm_size (comm, &R.size);
  Rng r (pg.seed), pr (partseed);
  Ctx x; 
  R.p = p4est_new_ext (comm, pg.c, 0, pg.level, pg.fill, sizeof (D), init_fn, &x);
  R.leaves ("new");
  int bal = 0;
  for (int op = 0; op < pg.nops; ++op) {
    std::string k = "step " + std::to_string (op);
    int what = r.below (8);
    x.salt = r.next (); x.pr = r.pick ({ 10, 30, 60 });
    int maxl = r.range (2, 7), rec = r.chance (.4), bt = r.below (DIM);
    bool big = R.p->global_num_quadrants > pg.target;
    R.p->user_pointer = &x;
    switch (what) {
    case 0: case 1:
      if (big) break;
      p4est_refine_ext (R.p, rec, rec ? std::min (maxl, DIM == 2 ? 5 : 4) : maxl, op_refine, init_fn, r.chance (.7) ? replace_fn : NULL);
      bal = 0; R.leaves (k + " refine"); break;
    case 2: case 3:
      p4est_partition_ext (R.p, 1, NULL);
      p4est_coarsen_ext (R.p, 0, 0, op_coarsen, init_fn, r.chance (.7) ? replace_fn : NULL);
      bal = 0; R.leaves (k + " coarsen"); break;
    case 4: {
      p4est_connect_type_t ct = bt == 0 ? P4EST_CONNECT_FULL : conn_type (DIM - bt);
      if (pg.weird) ct = P4EST_CONNECT_FULL;
      p4est_balance_ext (R.p, ct, init_fn, r.chance (.7) ? replace_fn : NULL);
      bal = ct == P4EST_CONNECT_FULL; R.leaves (k + " balance"); break; }
    case 5: {
      int w = pr.chance (.5);
      if (pr.chance (.5)) random_partition (pr, R.p, true);
      else { p4est_partition_ext (R.p, pr.below (2), w ? op_weight : NULL); }
      R.leaves (k + " partition"); break; }
    default:
      if (pr.chance (.5)) random_partition (pr, R.p, true);
      break;
    }
  }
  if (derive) {
    p4est_t *p = R.p;
    if (!bal) { p4est_balance_ext (p, P4EST_CONNECT_FULL, init_fn, replace_fn); R.leaves ("final balance"); }
    if (pr.chance (.6)) random_partition (pr, p, true);
    i64 off = p->global_first_quadrant[R.rank];
    /* ghost layer */
    p4est_ghost_t *gh = p4est_ghost_new (p, P4EST_CONNECT_FULL);
    {
      u64 h = 1;
      for (size_t z = 0; z < gh->ghosts.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->ghosts, z); h = hcomb (hcomb (h, lhash (q->p.piggy3.which_tree, q, 1)), q->p.piggy3.local_num); }
      for (size_t z = 0; z < gh->mirrors.elem_count; ++z) { p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->mirrors, z); h = hcomb (hcomb (h, lhash (q->p.piggy3.which_tree, q, 1)), q->p.piggy3.local_num); }
      h = hcomb (h, vhash (gh->proc_offsets, (R.size + 1) * sizeof (p4est_locidx_t)));
      h = hcomb (h, vhash (gh->tree_offsets, (p->connectivity->num_trees + 1) * sizeof (p4est_locidx_t)));
      h = hcomb (h, vhash (gh->mirror_proc_offsets, (R.size + 1) * sizeof (p4est_locidx_t)));
      h = hcomb (h, vhash (gh->mirror_proc_mirrors, gh->mirror_proc_offsets[R.size] * sizeof (p4est_locidx_t)));
      R.L ("ghost layer", h);
      std::vector<D> gd (gh->ghosts.elem_count);
      memset ((void *) gd.data (), 0, gd.size () * sizeof (D));
      p4est_ghost_exchange_data (p, gh, gd.data ());
      R.L ("ghost data", vh (gd));
      count ("ghosts", (long) gd.size ());
    }
    /* higher order nodes */
    int deg = r.range (1, 3);
    {
      p4est_lnodes_t *ln = p4est_lnodes_new (p, gh, deg);
      std::vector<i64> en; std::vector<int> fc;
      for (p4est_locidx_t e = 0; e < ln->num_local_elements; ++e) {
        fc.push_back ((int) ln->face_code[e]);
        for (int i = 0; i < ln->vnodes; ++i) en.push_back (p4est_lnodes_global_index (ln, ln->element_nodes[(i64) e * ln->vnodes + i]));
      }
      R.L ("node table", hcomb (vhash (ln->element_nodes, (size_t) ln->num_local_elements * ln->vnodes * sizeof (p4est_locidx_t)), vhash (ln->nonlocal_nodes, (size_t) (ln->num_local_nodes - ln->owned_count) * sizeof (p4est_gloidx_t))));
      { u64 h = 3; for (size_t z = 0; z < ln->sharers->elem_count; ++z) { p4est_lnodes_rank_t *s = (p4est_lnodes_rank_t *) sc_array_index (ln->sharers, z); h = hcomb (hcomb (hcomb (h, s->rank), vhash (s->shared_nodes.array, s->shared_nodes.elem_count * s->shared_nodes.elem_size)), hcomb (s->owned_offset, s->owned_count)); } R.L ("node sharers", h); }
      R.G ("nodes owned", allsum (ln->owned_count, comm));
      R.G ("face codes", vh (allgatherv (fc, comm)));
      std::vector<i64> all = allgatherv (en, comm);
      std::map<i64, i64> num; std::vector<i64> canon;
      for (i64 v : all) { auto it = num.insert ({ v, (i64) num.size () }); canon.push_back (it.first->second); }
      R.G ("nodes referenced", num.size ());
      R.G ("element nodes", vh (canon));
      gcount ("element_nodes", (long) canon.size ());
      p4est_lnodes_destroy (ln);
    }
    /* corner nodes */
    if (!pg.weird) {
      p4est_nodes_t *nd = p4est_nodes_new (p, gh);
      R.G ("independent nodes", allsum (nd->num_owned_indeps, comm));
      std::vector<u64> s;
      for (p4est_locidx_t i = 0; i < nd->num_owned_indeps; ++i) {
        p4est_indep_t *in = (p4est_indep_t *) sc_array_index (&nd->indep_nodes, nd->offset_owned_indeps + i);
        u64 h = hcomb (in->p.which_tree, (u64) in->x); h = hcomb (h, (u64) in->y);
#ifdef P4_TO_P8
        h = hcomb (h, (u64) in->z);
#endif
        s.push_back (h);
      }
      R.set_result ("independent node positions", s, true);
      R.L ("corner nodes", vhash (nd->local_nodes, (size_t) nd->num_local_quadrants * NC * sizeof (p4est_locidx_t)));
      p4est_nodes_destroy (nd);
    }
    /* face neighbours */
    {
      p4est_mesh_t *m = p4est_mesh_new (p, gh, P4EST_CONNECT_FACE);
      std::vector<i64> fn;
      auto gidx = [&] (i64 q) -> i64 {
        if (q < m->local_num_quadrants) return off + q;
        p4est_quadrant_t *g = p4est_quadrant_array_index (&gh->ghosts, q - m->local_num_quadrants);
        return p->global_first_quadrant[m->ghost_to_proc[q - m->local_num_quadrants]] + g->p.piggy3.local_num;
      };
      for (i64 i = 0; i < (i64) m->local_num_quadrants * NF; ++i) {
        int f = m->quad_to_face[i];
        fn.push_back (f);
        if (f >= 0) fn.push_back (gidx (m->quad_to_quad[i]));
        else { p4est_locidx_t *h = (p4est_locidx_t *) sc_array_index (m->quad_to_half, m->quad_to_quad[i]); for (int k = 0; k < NH; ++k) fn.push_back (gidx (h[k])); }
      }
      R.L ("mesh", hcomb (vhash (m->quad_to_quad, (size_t) m->local_num_quadrants * NF * sizeof (p4est_locidx_t)), vhash (m->quad_to_face, (size_t) m->local_num_quadrants * NF)));
      R.G ("face neighbours", vh (allgatherv (fn, comm)));
      p4est_mesh_destroy (m);
    }
    /* interfaces */
    {
      std::vector<u64> out; Iter I { p, &out, 0 };
      p4est_iterate (p, gh, &I, it_volume, it_face,
#ifdef P4_TO_P8
                     it_edge,
#endif
                     it_corner);
      R.G ("volumes", allsum (I.volumes, comm));
      gcount ("interfaces", allsum ((i64) out.size (), comm));
      R.L ("interfaces", vh (out));
      R.set_result ("interfaces", out, false);
    }
    /* point location */
    {
      pts ().clear ();
      for (int i = 0; i < 40; ++i) { Pt a; a.t = r.below (p->connectivity->num_trees); for (int d = 0; d < 3; ++d) a.x[d] = d < DIM ? (i64) (r.next () % (u64) RL) : 0; pts ().push_back (a); }
      sc_array_t *ar = sc_array_new_count (sizeof (size_t), pts ().size ());
      for (size_t i = 0; i < pts ().size (); ++i) *(size_t *) sc_array_index (ar, i) = i;
      Found f; f.at.assign (pts ().size (), 0); f.p = p;
      p->user_pointer = &f;
      if (r.chance (.5)) p4est_search_local (p, 0, NULL, search_fn, ar); else p4est_search_reorder (p, 1, NULL, NULL, NULL, search_fn, ar);
      sc_array_destroy (ar);
      std::vector<i64> sum (f.at.size ());
      for (size_t i = 0; i < f.at.size (); ++i) sum[i] = allsum (f.at[i], comm);
      R.G ("points located", vh (sum));
      gcount ("points_located", (long) sum.size ());
    }
    /* file content */
    {
      int lead = run.rank;
      MPI_Bcast (&lead, 1, MPI_INT, 0, comm);
      std::string fn = scratch ("ind") + std::to_string (R.size) + "." + std::to_string (lead);
      p4est_save_ext (fn.c_str (), p, 1, 0);
      MPI_Barrier (comm);
      u64 h = 0;
      FILE *fi = fopen (fn.c_str (), "rb");
      if (fi) { std::string s; char b[65536]; size_t n; while ((n = fread (b, 1, sizeof b, fi)) > 0) s.append (b, n); fclose (fi); h = vhash (s.data (), s.size ()); }
      R.G ("file content", h);
      MPI_Barrier (comm);
      if (R.rank == 0) unlink (fn.c_str ());
    }
    p4est_ghost_destroy (gh);
  }
  p4est_destroy (R.p);
  return R.res;
}
void compare (const Result & a, const Result & b, const char *what, bool local)
{
  size_t n = std::min (a.g.size (), b.g.size ());
  CHK (a.g.size () == b.g.size (), "steps", "%s: different number of results", what);
  for (size_t i = 0; i < n; ++i) {
    if (a.g[i] != b.g[i]) { FAILK ("global-result", "%s: '%s' is %llx and %llx", what, a.g[i].first.c_str (), (unsigned long long) a.g[i].second, (unsigned long long) b.g[i].second); return; }
    count ("global_results");
  }
  if (local) for (size_t i = 0; i < std::min (a.l.size (), b.l.size ()); ++i) {
    if (a.l[i] != b.l[i]) { FAILK ("local-result", "%s: '%s' is %llx and %llx", what, a.l[i].first.c_str (), (unsigned long long) a.l[i].second, (unsigned long long) b.l[i].second); return; }
    count ("local_results");
  }
}
void indep_case (Rng & r)
{
  ConnOpts co; std::string name;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  Geo g; g.init (c);
  Prog pg; pg.c = c; pg.seed = r.next (); pg.nops = r.range (2, 7); pg.fill = true; pg.target = r.pick ({ 50, 200, 500 });
  pg.level = r.below (c->num_trees > 4 ? 2 : 3);
  pg.weird = !grid_like (g);
  bool derive = conn_oracle_ok (g);
  describe ("%s: %d operations", name.c_str (), pg.nops);
  u64 ps1 = r.next (), ps2 = r.next ();
  int dl = vh_delay;
  Result a = run_program (pg, MPI_COMM_WORLD, ps1, derive);
  if (allmax (run.nfail_case, MPI_COMM_WORLD)) goto done;
  {
    /* other delays, same partitions */
    vh_delay = dl ? dl : 1; vh_delay_seed = hcomb (vh_delay_seed, 99 + run.rank);
    Result b = run_program (pg, MPI_COMM_WORLD, ps1, derive);
    vh_delay = dl;
    compare (a, b, "repeated with other message delays", true);
    gcount ("repetitions");
    /* other partitions */
    Result d = run_program (pg, MPI_COMM_WORLD, ps2, derive);
    compare (a, d, "other partitions", false);
    gcount ("repartitioned");
    /* alone */
    Result s = run_program (pg, MPI_COMM_SELF, ps2, derive);
    compare (a, s, "one process alone", false);
    gcount ("serial_runs");
    if (run.size > 2) {
      int k = r.range (2, run.size - 1); MPI_Comm sub;
      MPI_Comm_split (MPI_COMM_WORLD, run.rank < k ? 0 : 1, r.chance (.5) ? run.rank : run.size - run.rank, &sub);
      Result e = run_program (pg, sub, ps1, derive);
      compare (a, e, "part of the processes", false);
      gcount ("subgroup_runs");
      MPI_Comm_free (&sub);
    }
    else r.next ();
    u64 h = conn_hash (c);
    for (auto & q : a.g) h = hcomb (h, q.second);
    distinct_state (h);
    ++run.judged;
  }
done:
  p4est_connectivity_destroy (c);
}
}
REGISTER_PROP ("C25", indep_case)

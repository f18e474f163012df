/* C08: the iterator visits every volume, face, edge and corner touching a
 * local leaf exactly once and lists exactly the leaves touching it. */
#include "core.hpp"
#include "ifmodel.hpp"
#ifdef P4_TO_P8
#define ITERX(p, g, u, v, f, e, c, r) p8est_iterate_ext (p, g, u, v, f, e, c, r)
#else
#define ITERX(p, g, u, v, f, e, c, r) p4est_iterate_ext (p, g, u, v, f, c, r)
#endif

namespace {

struct Ctx
{
  p4est_t *p; p4est_ghost_t *gh; Model *m;
  const char *when;
  int exact;                            /* lowest entity dimension (2 face, 1 edge, 0 corner) with full knowledge; 3: none */
  bool remote;
  long seq = 0;
  i64 nextvol = 0;
  std::vector<long> volseq;
  std::map<std::pair<int,int>, int> cover[3];    /* (local leaf, entity) -> times listed */
  std::map<TP, long> facepart;                     /* unused */
  long ncall[4] = { 0, 0, 0, 0 }, nhang = 0, nghost = 0, nmissing = 0, nbound = 0, nextra = 0;
  std::map<Leaf, int, LeafCmp> ghosts;
};

static int check_quad (Ctx & x, int t, int is_ghost, p4est_quadrant_t * q, p4est_locidx_t id, const char *what)
{
  /* returns the global index or -1 for a missing quadrant */
  if (q == NULL) {
    CHK (is_ghost == 1 && id == -1, "missing-flags", "%s %s: absent quadrant with is_ghost %d quadid %d", x.when, what, is_ghost, id);
    ++x.nmissing;
    return -1;
  }
  if (!is_ghost) {
    if (t < x.p->first_local_tree || t > x.p->last_local_tree) { FAILK ("side-tree", "%s %s: local side in tree %d", x.when, what, t); return -2; }
    p4est_tree_t *tr = p4est_tree_array_index (x.p->trees, t);
    if (id < 0 || (size_t) id >= tr->quadrants.elem_count || p4est_quadrant_array_index (&tr->quadrants, id) != q) {
      FAILK ("side-index", "%s %s: local quadrant index %d does not name the quadrant given", x.when, what, id);
      return -2;
    }
    return (int) (x.m->l0 + tr->quadrants_offset + id);
  }
  ++x.nghost;
  if (x.gh == NULL || id < 0 || (size_t) id >= x.gh->ghosts.elem_count || p4est_quadrant_array_index (&x.gh->ghosts, id) != q || (int) q->p.piggy3.which_tree != t) {
    FAILK ("side-index", "%s %s: ghost index %d does not name the quadrant given in tree %d", x.when, what, id, t);
    return -2;
  }
  int owner = 0;
  while (x.gh->proc_offsets[owner + 1] <= id) ++owner;
  return (int) (x.m->f->rfirst[owner] + q->p.piggy3.local_num);
}

static void cb_volume (p4est_iter_volume_info_t * info, void *u)
{
  Ctx & x = *(Ctx *) u;
  i64 gi = -1;
  CHK (info->p4est == x.p && (x.gh == NULL || info->ghost_layer == x.gh), "info", "%s volume: wrong forest or ghost pointer", x.when);
  if (info->quad != NULL) gi = check_quad (x, info->treeid, 0, info->quad, info->quadid, "volume");
  CHK (gi == x.m->l0 + x.nextvol, "volume-order", "%s: volume call %lld is for leaf %lld", x.when, (long long) x.nextvol, (long long) (gi - x.m->l0));
  if (gi >= x.m->l0 && gi < x.m->l1) {
    CHK (x.volseq[gi - x.m->l0] < 0, "volume-twice", "%s: leaf %lld visited twice", x.when, (long long) gi);
    x.volseq[gi - x.m->l0] = x.seq;
  }
  ++x.nextvol; ++x.seq; ++x.ncall[3];
}

struct GotSide { Side s; bool missing = false, bad = false; int orient = 0; int faces[2] = { -1, -1 }; int anyq = -1, slot = -1; };

/* judge a call for an entity of dimension d with the given sides */
static Expect *judge (Ctx & x, int d, std::vector<GotSide> & got, int tb, const char *what)
{
  Model & m = *x.m;
  auto & es = entities ();
  bool bad = false;
  int ref = -1;
  for (size_t k = 0; k < got.size (); ++k) {
    if (got[k].bad) bad = true;
    for (int i : got[k].s.idx) if (i >= 0 && m.local (i)) { ref = (int) k; }
  }
  ++x.ncall[d];
  if (bad) return nullptr;
  for (auto & gs : got) for (int i : gs.s.idx) if (i >= 0 && m.local (i)) ++x.cover[d][{ i, gs.s.ent }];
  if (ref < 0 && !(x.remote && d == 0)) {
    /* an edge lying inside a hanging face of a local leaf may only be known by remote sides with remote */
    if (x.remote) { ++x.nextra; return nullptr; }
    FAILK ("no-local", "%s: %s call that touches no local leaf", x.when, what);
    return nullptr;
  }
  if (ref < 0) for (size_t k = 0; k < got.size (); ++k) for (int i : got[k].s.idx) if (i >= 0) ref = (int) k;
  if (ref < 0) { FAILK ("no-quad", "%s: %s call without any quadrant", x.when, what); return nullptr; }
  GotSide & R = got[ref];
  int qi = -1; for (int i : R.s.idx) if (i >= 0) qi = i;
  const Leaf & a = m.f->q[qi];
  P3 c = R.s.hang ? Model::parent_center (a, R.s.ent) : ent_center (a, es[R.s.ent]);
  TP key = m.g->canon (R.s.t, c);
  auto it = m.ex[d].find (key);
  if (it == m.ex[d].end ()) {
    if (x.remote) { ++x.nextra; return nullptr; }
    if (x.exact <= d) FAILK ("not-an-interface", "%s: %s call for %s entity %d hanging %d, which is not an interface of this mesh", x.when, what, leaf_str (a).c_str (), R.s.ent, R.s.hang);
    return nullptr;
  }
  Expect & e = it->second;
  if (d == 0 && e.hanging_point) {
    if (x.remote) { ++x.nextra; return nullptr; }
    if (x.exact <= d || e.all_local) FAILK ("hanging-corner", "%s: corner call at a hanging position of %s corner %d", x.when, leaf_str (a).c_str (), R.s.ent);
    return nullptr;
  }
  CHK (e.calls == 0, "twice", "%s: %s of %s entity %d called %d times before", x.when, what, leaf_str (a).c_str (), R.s.ent, e.calls);
  ++e.calls;
  e.seq = x.seq++;
  if (!e.any_local) return nullptr;
  int etb = e.tb == 0 ? 0 : d == 2 ? (int) P4EST_CONNECT_FACE :
#ifdef P4_TO_P8
    e.tb == 1 ? (int) P8EST_CONNECT_FACE : e.tb == 2 ? (int) P8EST_CONNECT_EDGE : (int) P8EST_CONNECT_CORNER;
#else
    e.tb == 1 ? (int) P4EST_CONNECT_FACE : (int) P4EST_CONNECT_CORNER;
#endif
  CHK (tb == etb, "tree-boundary", "%s: %s of %s entity %d has tree_boundary %d, expected %d", x.when, what, leaf_str (a).c_str (), R.s.ent, tb, etb);
  if (e.tb) ++x.nbound;
  if (x.exact <= d || e.all_local) {
    /* complete knowledge of the leaves; those outside the ghost layer are absent */
    std::vector<Side> want = e.s, have;
    for (auto & gs : got) have.push_back (gs.s);
    for (auto & s : want) { for (int & i : s.idx) if (!m.local (i) && !x.ghosts.count (m.f->q[i])) i = -1; }
    std::sort (want.begin (), want.end ());
    std::sort (have.begin (), have.end ());
    if (!(want == have)) {
      std::string w;
      for (int pass = 0; pass < 2; ++pass) {
        w += pass ? "; expected" : "got";
        for (auto & s : pass ? want : have) {
          w += " [t" + std::to_string (s.t) + " e" + std::to_string (s.ent) + (s.hang ? "h" : "");
          for (int i : s.idx) w += " " + std::to_string (i);
          w += "]";
        }
      }
      FAILK ("sides", "%s: %s of %s entity %d: %s", x.when, what, leaf_str (a).c_str (), R.s.ent, w.c_str ());
      return nullptr;
    }
    count (d == 2 ? "faces_judged" : d == 1 ? "edges_judged" : "corners_judged");
    for (auto & s : want) if (s.hang) ++x.nhang;
  }
  else {
    for (auto & gs : got) for (size_t k = 0; k < gs.s.idx.size (); ++k) {
      int i = gs.s.idx[k];
      if (i < 0) continue;
      bool ok = false;
      for (auto & s : e.s) if (s.t == gs.s.t && s.ent == gs.s.ent && std::find (s.idx.begin (), s.idx.end (), i) != s.idx.end () && s.hang == gs.s.hang &&
                               (!s.hang || s.idx[k] == i)) ok = true;
      CHK (ok, "side-member", "%s: %s of %s lists leaf %s, which is not there", x.when, what, leaf_str (a).c_str (), leaf_str (m.f->q[i]).c_str ());
    }
    count ("partially_known_judged");
  }
  if (!tb && got.size () > 1) {
    int lo = -1;
    for (auto & gs : got) for (int i : gs.s.idx) if (i >= 0 && (lo < 0 || i < lo)) lo = i;
    bool all = true;
    for (auto & gs : got) for (int i : gs.s.idx) if (i < 0) all = false;
    bool in0 = false;
    for (int i : got[0].s.idx) if (i == lo) in0 = true;
    if (all) CHK (in0, "first-side", "%s: %s of %s: sides[0] does not hold the first leaf", x.when, what, leaf_str (a).c_str ());
  }
  return &e;
}

static void cb_face (p4est_iter_face_info_t * info, void *u)
{
  Ctx & x = *(Ctx *) u;
  CHK (info->p4est == x.p && (x.gh == NULL || info->ghost_layer == x.gh), "info", "%s face: wrong forest or ghost pointer", x.when);
  std::vector<GotSide> got;
  for (size_t k = 0; k < info->sides.elem_count; ++k) {
    p4est_iter_face_side_t *s = (p4est_iter_face_side_t *) sc_array_index (&info->sides, k);
    GotSide o; o.s.t = s->treeid; o.s.ent = s->face; o.s.hang = s->is_hanging ? 1 : 0;
    if (s->face < 0 || s->face >= NF) { FAILK ("face-number", "%s: face %d", x.when, s->face); return; }
    for (int j = 0; j < (s->is_hanging ? NH : 1); ++j) {
      int i = s->is_hanging ? check_quad (x, s->treeid, s->is.hanging.is_ghost[j], s->is.hanging.quad[j], s->is.hanging.quadid[j], "face")
        : check_quad (x, s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid, "face");
      if (i == -2) o.bad = true;
      o.s.idx.push_back (i);
    }
    got.push_back (o);
  }
  Expect *e = judge (x, 2, got, info->tree_boundary, "face");
  if (!e) return;
  CHK (info->orientation == (e->s.size () == 2 ? e->orient : 0), "orientation", "%s: face orientation %d, expected %d", x.when, info->orientation, e->orient);
  for (auto & gs : got) for (int i : gs.s.idx) if (i >= 0 && x.m->local (i) && !x.volseq.empty ())
    CHK (x.volseq[i - x.m->l0] >= 0, "face-before-volume", "%s: face called before the volume of %s", x.when, leaf_str (x.m->f->q[i]).c_str ());
}

#ifdef P4_TO_P8
static void cb_edge (p8est_iter_edge_info_t * info, void *u)
{
  Ctx & x = *(Ctx *) u;
  auto & es = entities ();
  CHK (info->p4est == x.p && (x.gh == NULL || info->ghost_layer == x.gh), "info", "%s edge: wrong forest or ghost pointer", x.when);
  std::vector<GotSide> got;
  for (size_t k = 0; k < info->sides.elem_count; ++k) {
    p8est_iter_edge_side_t *s = (p8est_iter_edge_side_t *) sc_array_index (&info->sides, k);
    GotSide o; o.s.t = s->treeid; o.s.hang = s->is_hanging ? 1 : 0;
    if (s->edge < 0 || s->edge >= 12) { FAILK ("edge-number", "%s: edge %d", x.when, s->edge); return; }
    o.s.ent = ent_edge0 + s->edge;
    o.orient = s->orientation; o.faces[0] = s->faces[0]; o.faces[1] = s->faces[1];
    for (int j = 0; j < (s->is_hanging ? 2 : 1); ++j) {
      int i = s->is_hanging ? check_quad (x, s->treeid, s->is.hanging.is_ghost[j], s->is.hanging.quad[j], s->is.hanging.quadid[j], "edge")
        : check_quad (x, s->treeid, s->is.full.is_ghost, s->is.full.quad, s->is.full.quadid, "edge");
      if (i == -2) o.bad = true;
      o.s.idx.push_back (i);
    }
    got.push_back (o);
  }
  Expect *e = judge (x, 1, got, info->tree_boundary, "edge");
  if (!e) return;
  /* relative orientation and common faces, for sides with a known leaf */
  Model & m = *x.m;
  struct D { bool ok; TP q0, q1; TP fc[2]; P3 c; };
  std::vector<D> ds;
  for (auto & gs : got) {
    D d; d.ok = false;
    int qi = -1; for (int i : gs.s.idx) if (i >= 0) qi = i;
    if (qi >= 0) {
      Leaf b = m.f->q[qi];
      if (gs.s.hang) b = leaf_parent (b);
      int ed = gs.s.ent - ent_edge0, ax = ed / 4;
      P3 c = ent_center (b, es[gs.s.ent]), a0 = c, a1 = c;
      i64 h = b.len () / 2;
      if (h < 1) h = 1;
      a0[ax] -= h; a1[ax] += h;
      d.q0 = m.g->canon (b.t, a0); d.q1 = m.g->canon (b.t, a1);
      /* a point of each face next to the edge */
      for (int j = 0; j < 2; ++j) {
        P3 y = c; int o = p8est_edge_faces[ed][1 - j];
        y[o / 2] += (o & 1) ? -h : h;
        d.fc[j] = m.g->canon (b.t, y);
      }
      d.ok = !(d.q0 == d.q1);
    }
    ds.push_back (d);
  }
  std::map<TP, int> fcount;
  bool degenerate = false;              /* a face that meets the edge more than twice */
  for (auto & d : ds) { if (!d.ok) degenerate = true; else for (int j = 0; j < 2; ++j) if (++fcount[d.fc[j]] > 2) degenerate = true; }
  for (size_t i = 0; i < ds.size (); ++i) for (size_t j = 0; j < i; ++j) if (ds[i].ok && ds[j].ok) {
    CHK ((got[i].orient == got[j].orient) == (ds[i].q0 == ds[j].q0), "edge-orientation", "%s: edge sides %zu and %zu have orientations %d and %d, but directions %s", x.when, j, i,
         got[j].orient, got[i].orient, ds[i].q0 == ds[j].q0 ? "agree" : "differ");
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
      bool same = ds[i].fc[a] == ds[j].fc[b];
      CHK ((got[i].faces[a] == got[j].faces[b]) == same || (degenerate && same), "edge-faces", "%s: edge sides %zu and %zu: faces %d %d, common face %d", x.when, i, j, got[i].faces[a], got[j].faces[b], (int) same);
    }
    count ("edge_side_pairs");
  }
  /* after the faces that touch it */
  if (x.exact <= 1) for (auto & gs : got) for (int i : gs.s.idx) if (i >= 0 && m.local (i) && x.ncall[2] > 0)
    for (int j = 0; j < 2; ++j) {
      const Leaf & b = m.f->q[i];
      TP fk = m.g->canon (b.t, ent_center (b, es[p8est_edge_faces[gs.s.ent - ent_edge0][j]]));
      auto it = m.ex[2].find (fk);
      if (it == m.ex[2].end () && b.l > 0) it = m.ex[2].find (m.g->canon (b.t, Model::parent_center (b, p8est_edge_faces[gs.s.ent - ent_edge0][j])));
      if (it != m.ex[2].end ()) CHK (it->second.calls > 0, "edge-before-face", "%s: edge of %s called before its face", x.when, leaf_str (b).c_str ());
    }
}
#endif

static void cb_corner (p4est_iter_corner_info_t * info, void *u)
{
  Ctx & x = *(Ctx *) u;
  CHK (info->p4est == x.p && (x.gh == NULL || info->ghost_layer == x.gh), "info", "%s corner: wrong forest or ghost pointer", x.when);
  std::vector<GotSide> got;
  for (size_t k = 0; k < info->sides.elem_count; ++k) {
    p4est_iter_corner_side_t *s = (p4est_iter_corner_side_t *) sc_array_index (&info->sides, k);
    GotSide o; o.s.t = s->treeid; o.s.hang = 0;
    if (s->corner < 0 || s->corner >= NC) { FAILK ("corner-number", "%s: corner %d", x.when, s->corner); return; }
    o.s.ent = ent_corner0 + s->corner;
    int i = check_quad (x, s->treeid, s->is_ghost, s->quad, s->quadid, "corner");
    if (i == -2) o.bad = true;
    o.s.idx.push_back (i);
    got.push_back (o);
  }
  Expect *e = judge (x, 0, got, info->tree_boundary, "corner");
  if (!e) return;
  Model & m = *x.m;
  auto & es = entities ();
  if (x.exact == 0) for (auto & gs : got) for (int i : gs.s.idx) if (i >= 0 && m.local (i)) {
    int cn = gs.s.ent - ent_corner0;
    const Leaf & b = m.f->q[i];
    for (int j = 0; j < DIM; ++j) {
#ifdef P4_TO_P8
      int d = 1, en = ent_edge0 + p8est_corner_edges[cn][j];
#else
      int d = 2, en = p4est_corner_faces[cn][j];
#endif
      if (x.ncall[d] == 0) continue;
      auto it = m.ex[d].find (m.g->canon (b.t, ent_center (b, es[en])));
      if (it == m.ex[d].end () && b.l > 0) it = m.ex[d].find (m.g->canon (b.t, Model::parent_center (b, en)));
      if (it != m.ex[d].end ()) CHK (it->second.calls > 0, "corner-before-lower", "%s: corner of %s called before its %s", x.when, leaf_str (b).c_str (), d == 1 ? "edge" : "face");
    }
  }
}

/* one iteration; cb: bit 0 volume, 1 face, 2 edge, 3 corner; gdim: lowest entity dimension known from the ghost layer */
static void iterate (p4est_t * p, p4est_ghost_t * gh, Model & m, int cbs, int gdim, bool remote, const char *when)
{
  Ctx x; x.p = p; x.gh = gh; x.m = &m; x.when = when; x.remote = remote;
  x.exact = gh ? gdim : (p->mpisize == 1 ? 0 : 3);
  if (p->mpisize == 1) x.exact = 0;
  x.volseq.assign (p->local_num_quadrants, -1);
  for (int d = 0; d < 3; ++d) for (auto & e : m.ex[d]) { e.second.calls = 0; e.second.seq = -1; }
  if (gh) for (size_t k = 0; k < gh->ghosts.elem_count; ++k) { p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->ghosts, k); x.ghosts[mkleaf (q->p.piggy3.which_tree, q)] = (int) k; }
  if (!(cbs & 1)) x.volseq.clear ();
  if (remote) ITERX (p, gh, &x, cbs & 1 ? cb_volume : NULL, cbs & 2 ? cb_face : NULL, cbs & 4 ? cb_edge : NULL, cbs & 8 ? cb_corner : NULL, 1);
  else
#ifdef P4_TO_P8
    p8est_iterate (p, gh, &x, cbs & 1 ? cb_volume : NULL, cbs & 2 ? cb_face : NULL, cbs & 4 ? cb_edge : NULL, cbs & 8 ? cb_corner : NULL);
#else
    p4est_iterate (p, gh, &x, cbs & 1 ? cb_volume : NULL, cbs & 2 ? cb_face : NULL, cbs & 8 ? cb_corner : NULL);
#endif
  if (cbs & 1) CHK (x.nextvol == p->local_num_quadrants, "volume-count", "%s: %lld volume calls for %d leaves", when, (long long) x.nextvol, p->local_num_quadrants);
  for (int d = 0; d < 3; ++d) {
    int bit = d == 2 ? 2 : d == 1 ? 4 : 8;
    if (!(cbs & bit) || (d == 1 && DIM == 2)) continue;
    for (auto & e : m.ex[d]) {
      if (!e.second.any_local || (d == 0 && e.second.hanging_point)) continue;
      if (x.exact <= d || e.second.all_local)
        CHK (e.second.calls == 1, e.second.calls ? "twice" : "not-called", "%s: entity of dimension kind %d at tree %d point %lld %lld %lld, a side of leaf %s, called %d times", when, d,
             e.first.t, (long long) e.first.x[0], (long long) e.first.x[1], (long long) e.first.x[2], e.second.s.empty () ? "?" : leaf_str (m.f->q[e.second.s[0].idx[0]]).c_str (), e.second.calls);
    }
    if (d == 2) {
      /* whatever is known of the neighbours, every face of every local leaf is covered once */
      for (i64 i = m.l0; i < m.l1; ++i) for (int f = 0; f < NF; ++f) {
        int n = 0; auto it = x.cover[2].find ({ (int) i, f }); if (it != x.cover[2].end ()) n = it->second;
        CHK (n == 1 || run.nfail_case, "face-coverage", "%s: face %d of %s listed %d times", when, f, leaf_str (m.f->q[i]).c_str (), n);
      }
    }
  }
  count ("volume_calls", x.ncall[3]); count ("face_calls", x.ncall[2]); count ("edge_calls", x.ncall[1]); count ("corner_calls", x.ncall[0]);
  count ("hanging_sides", x.nhang); count ("ghost_sides", x.nghost); count ("missing_sides", x.nmissing); count ("tree_boundary_interfaces", x.nbound); count ("remote_extra_calls", x.nextra);
}

}

static void prop (Rng & r)
{
  std::string nm; ConnOpts co; co.max_trees = 7;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  Geo g; g.init (c);
  if (!conn_oracle_ok (g)) { gcount ("cases_without_oracle"); p4est_connectivity_destroy (c); return; }
  ForestOpts fo; fo.data_size = r.chance (0.3) ? 4 : 0; fo.target = DIM == 3 ? r.pick ({ 20, 80, 160 }) : r.pick ({ 10, 60, 200 }); fo.maxl = r.range (2, 5);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  /* the weakest balance admissible for the callbacks used below */
  int mind = r.range (0, DIM - 1);      /* lowest dimension of contact balanced */
  p4est_balance (p, conn_type (mind), NULL);
  random_partition (r, p, true);
  GForest f = gather (p);
  describe ("%s leaves %zu balanced to dim %d", nm.c_str (), f.q.size (), mind);
  distinct_state (hcomb (f.hash (true), conn_hash (c) + mind));
  Model m;
  m.init (g, f, p->mpirank);
  int all = 1 | 2 | 8 | (DIM == 3 && mind <= 1 ? 4 : 0);
  if (DIM == 3 && mind == 2) all &= ~8;  /* corners need edge balance in 3D */
  int gd = r.range (0, DIM - 1);        /* ghost layer kind by lowest entity dimension */
  int rounds = 3;
  for (int k = 0; k < rounds; ++k) {
    int cbs = k == 0 ? all : (r.below (16) & all);
    int kind = k == 0 ? 0 : r.below (4);
    p4est_ghost_t *gh = NULL;
    int gdim = 0;
    char when[80];
    if (kind == 3) snprintf (when, sizeof when, "no ghost layer");
    else {
      gdim = kind == 2 ? gd : 0;
      gh = p4est_ghost_new (p, conn_type (gdim));
      if (kind == 1) { int n = r.range (1, 2); for (int i = 0; i < n; ++i) p4est_ghost_expand (p, gh); }
      snprintf (when, sizeof when, "ghost kind %d lowest dim %d callbacks %d", kind, gdim, cbs);
    }
    /* knowledge of faces, edges, corners: our numbering of entity kinds is 2 face, 1 edge, 0 corner */
    int exact = DIM == 3 ? gdim : (gdim == 1 ? 2 : 0);
    iterate (p, gh, m, cbs, exact, false, when);
    if (gh && gdim == 0 && mind == 0 && r.chance (0.4)) { strcat (when, " remote"); iterate (p, gh, m, cbs, exact, true, when); }
    if (gh) p4est_ghost_destroy (gh);
    gcount ("iterations");
  }
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C08", prop)

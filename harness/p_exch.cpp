/* C07: exchange of data over ghost layers. */
#include "core.hpp"

namespace {
struct Flight
{
  int kind;                             /* 0 user data, 1 custom, 2 custom with levels */
  int minl, maxl;
  size_t ds;
  u64 salt;
  std::vector<char> gbuf;               /* ghost data, with canary */
  std::vector<std::vector<char>> mbuf;
  std::vector<void *> mptr;
  p4est_ghost_exchange_t *exc = nullptr;
};
const char CAN = (char) 0xa5;

void prepare (Rng & r, p4est_t * p, p4est_ghost_t * gh, Flight & f, int nkind)
{
  f.kind = r.below (nkind);
  f.salt = r.next ();
  f.ds = f.kind == 0 ? (p->data_size ? p->data_size : sizeof (void *)) : (size_t) r.pick ({ 0, 1, 2, 7, 8, 16, 40, 129, 700, 5000 });
  f.minl = r.below (4); f.maxl = r.pick ({ 0, 1, 2, 3, 4, 5, QML });
  if (r.chance (0.1)) { f.minl = -3; f.maxl = P4EST_MAXLEVEL; }
  size_t ng = gh->ghosts.elem_count, nm = gh->mirrors.elem_count;
  f.gbuf.assign (ng * f.ds + 16, CAN);
  if (f.kind == 0) return;
  f.mbuf.resize (nm);
  f.mptr.assign (nm, NULL);
  for (size_t i = 0; i < nm; ++i) {
    p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->mirrors, i);
    if (f.kind == 2 && (q->level < f.minl || q->level > f.maxl)) continue;   /* must not be dereferenced */
    f.mbuf[i].resize (f.ds);
    f.mptr[i] = f.mbuf[i].data ();
    fill_bytes (f.mptr[i], f.ds, leaf_id (q->p.piggy3.which_tree, q, hcomb (f.salt, p->mpirank)));
  }
}
void set_user (p4est_t * p, u64 salt)
{
  for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
      u64 id = leaf_id (t, q, hcomb (salt, p->mpirank));
      if (p->data_size) fill_bytes (q->p.user_data, p->data_size, id);
      else { char b[8]; fill_bytes (b, 8, id); memcpy (&q->p.user_data, b, 8); }
    }
  }
}
void judge (p4est_t * p, p4est_ghost_t * gh, const Flight & f, const char *how)
{
  size_t ng = gh->ghosts.elem_count;
  int owner = 0;
  for (size_t i = 0; i < ng; ++i) {
    while ((size_t) gh->proc_offsets[owner + 1] <= i) ++owner;
    p4est_quadrant_t *q = p4est_quadrant_array_index (&gh->ghosts, i);
    const char *d = f.gbuf.data () + i * f.ds;
    if (f.kind == 2 && (q->level < f.minl || q->level > f.maxl)) {
      bool un = true;
      for (size_t k = 0; k < f.ds; ++k) if (d[k] != CAN) un = false;
      CHK (un, "levels-untouched", "%s: ghost %zu of level %d outside %d..%d was written", how, i, q->level, f.minl, f.maxl);
      count ("ghosts_outside_levels");
    }
    else {
      CHK (check_bytes (d, f.ds, leaf_id (q->p.piggy3.which_tree, q, hcomb (f.salt, owner))), "ghost-data", "%s (kind %d size %zu levels %d..%d): ghost %zu %s from process %d has wrong data", how, f.kind, f.ds, f.minl, f.maxl,
           i, leaf_str (mkleaf (q->p.piggy3.which_tree, q)).c_str (), owner);
      count ("ghost_data_checked");
    }
  }
  for (size_t k = ng * f.ds; k < f.gbuf.size (); ++k) CHK (f.gbuf[k] == CAN, "overrun", "%s: data written past the ghost data", how);
}
}

static void c07 (Rng & r)
{
  std::string name;
  ConnOpts co;
  p4est_connectivity_t *c = gen_conn (r, co, name);
  ForestOpts fo;
  fo.data_size = r.pick ({ 0, 0, 1, 4, 8, 24, 300 });
  fo.target = r.range (1, 300);
  p4est_t *p = gen_forest (r, MPI_COMM_WORLD, c, fo);
  int mindim = r.below (DIM);
  p4est_ghost_t *gh = p4est_ghost_new (p, conn_type (mindim));
  int ex = 0;
  if (p->global_num_quadrants < 4000) while (r.chance (0.3) && ex < 2) { p4est_ghost_expand (p, gh); ++ex; }
  describe ("%s leaves %lld mindim %d expanded %d data %zu", name.c_str (), (long long) p->global_num_quadrants, mindim, ex, fo.data_size);
  int nr = r.range (1, 3);
  for (int round = 0; round < nr; ++round) {
    /* blocking */
    for (int k = 0; k < 3; ++k) {
      Flight f;
      prepare (r, p, gh, f, 3);
      if (f.kind == 0) { set_user (p, f.salt); p4est_ghost_exchange_data (p, gh, f.gbuf.data ()); }
      else if (f.kind == 1) p4est_ghost_exchange_custom (p, gh, f.ds, f.mptr.data (), f.gbuf.data ());
      else p4est_ghost_exchange_custom_levels (p, gh, f.minl, f.maxl, f.ds, f.mptr.data (), f.gbuf.data ());
      judge (p, gh, f, "blocking exchange");
      gcount ("exchanges");
      if (f.kind == 2) gcount ("level_exchanges");
    }
    /* several in flight, completed in different orders on different processes */
    int n = r.range (1, 4);
    std::vector<Flight> fl (n);
    u64 lastsalt = 0;
    for (auto & f : fl) {
      prepare (r, p, gh, f, 3);
      if (f.kind == 0) { set_user (p, f.salt); lastsalt = f.salt; f.exc = p4est_ghost_exchange_data_begin (p, gh, f.gbuf.data ()); }
      else if (f.kind == 1) f.exc = p4est_ghost_exchange_custom_begin (p, gh, f.ds, f.mptr.data (), f.gbuf.data ());
      else f.exc = p4est_ghost_exchange_custom_levels_begin (p, gh, f.minl, f.maxl, f.ds, f.mptr.data (), f.gbuf.data ());
      CHK (f.exc != NULL, "no-context", "begin returned NULL");
      /* mirror data is documented not to be needed any longer */
      for (auto & b : f.mbuf) { std::fill (b.begin (), b.end (), (char) 0x77); }
      if (r.chance (0.5)) { f.mbuf.clear (); f.mptr.clear (); }
      if (f.kind == 0) set_user (p, r.next ());
    }
    (void) lastsalt;
    if (r.chance (0.3)) (void) p4est_checksum (p);
    std::vector<int> ord (n);
    for (int i = 0; i < n; ++i) ord[i] = i;
    Rng rr (r.next () + run.rank);
    for (int i = n - 1; i > 0; --i) std::swap (ord[i], ord[rr.below (i + 1)]);
    for (int i : ord) {
      Flight & f = fl[i];
      if (f.kind == 0) p4est_ghost_exchange_data_end (f.exc);
      else if (f.kind == 1) p4est_ghost_exchange_custom_end (f.exc);
      else p4est_ghost_exchange_custom_levels_end (f.exc);
      judge (p, gh, f, "split exchange");
      gcount ("exchanges");
    }
    if (n > 1) gcount ("overlapping_exchanges", n);
  }
  u64 h = hcomb (conn_hash (c), hcomb (mindim, ex));
  GForest f = gather (p);
  distinct_state (hcomb (h, f.hash (true)));
  p4est_ghost_destroy (gh);
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C07", c07)
